RENDER = ["sqlast/ast.go", "sqlast/query.go", "sqlast/stmt.go", "sqlast/type.go", "sqlast/value.go", "sqlast/writer.go"]
PARSER = ["parser.go"]

NYB = "its check is still being built"

prop("C01", "Parsing never panics, whatever the tokens",
     "For every sequence of tokens the tokenizer can produce, complete or cut off anywhere, every exported parse method of the parser returns normally: it gives back a result or an error, and no panic reaches the caller.",
     ["inputs"], "for every token sequence of any length and every starting position in it",
     "The tests parse some two hundred well-formed statements; a crash needs a token of the wrong type, or the end of input, at one of several hundred places.",
     PARSER, [("exported parse methods", "parser.go"), ("recovery of syntax errors", "parser.go")],
     "abstract interpretation of the parser with symbolic tokens; least fixpoint over the call graph of outcomes and panics",
     "Assumes what the tokenizer guarantees: no token is nil, a word token carries a word, any other token a string. White space and comments are assumed to be skipped by the token-level helpers; collecting comments is not covered.")

prop("C02", "Parsing always terminates",
     "For every sequence of tokens the tokenizer can produce, every exported parse method finishes: each pass of a loop and each cycle of recursive calls consumes at least one further token or moves a counter towards its limit.",
     ["inputs"], "for every token sequence of any length and every starting position in it",
     "A loop that fails to advance does so only on some malformed continuation; the tests contain almost no malformed input, and none at most loops.",
     PARSER, [("loops of the parser", "parser.go"), ("recursive descent", "parser.go")],
     "abstract interpretation; progress of the token position between visits of a loop head and around call cycles",
     "Depth of recursion is bounded by the number of tokens (not by a constant). Same assumptions on tokens as for C01.")

prop("C13", "Rendering reports every byte written and every writer failure",
     "When any syntax tree node writes itself to a writer, the reported count is the total the writer accepted and the reported error is nil exactly when every single write succeeded. After a failed write nothing more is written, and the failure reported is the one that occurred. Rendering a well-formed tree never panics.",
     ["inputs", "fault_sequences"], "for every node type, every shape of its fields, every writer and every point at which the writer fails or writes short",
     "The tests render a few hundred trees into a buffer that never fails; no test lets a write fail, and the count is never looked at.",
     RENDER, [("every node's WriteTo", "sqlast/*.go"), ("counting and error-latching writer", "sqlast/writer.go")],
     "abstract interpretation with symbolic trees and writers",
     "Loops over child lists are followed to a fixpoint; child nodes are assumed to keep the same contract, which is checked for each of them (assume-guarantee).")

prop("C14", "Both ways of rendering a node give the same text",
     "For every syntax tree node the text returned as a string equals, character for character, the text the node writes to a writer, whatever optional interfaces that writer has.",
     ["inputs"], "for every node type and every combination of optional fields, flags and list lengths",
     "The tests compare one of the two forms, for the trees they happen to build; 127 node types times their optional fields are never compared with each other.",
     RENDER, [("ToSQLString and WriteTo of every node", "sqlast/*.go")],
     "relational abstract interpretation over a shared symbolic tree",
     "Texts are compared as sequences of literals, field texts and repeated segments, per combination of conditions on the tree.")

prop("C15", "Rendering a node leaves out no child and no field",
     "The SQL text of a syntax tree node contains the text of each of its present children exactly once, with the elements of lists in list order, and every other field that is not a source position affects the text.",
     ["inputs"], "for every node type and every combination of optional fields, flags and list lengths",
     "A test notices a missing clause only if it sets that clause on that node and compares the full text; most optional fields are set in none.",
     RENDER, [("every node's WriteTo", "sqlast/*.go")],
     "abstract interpretation; coverage of every field of every node type in the symbolic text",
     "Exempt: the comments of a file (reached through a comment map instead), the number of LIMIT ALL, and value fields nothing in the module ever stores to. CASE is assumed to have as many results as conditions.")

prop("C17", "Walking a tree visits every node once, in the documented protocol",
     "Walking a node visits the node first, then, unless the visitor declines, every present child and every list element exactly once, lists in order, with the visitor returned for the parent, and finally signals the end of the node with a nil visit on that visitor. Absent optional children are not visited, and walking never panics. Inspecting calls its function at each of these visits and descends exactly when it returns true.",
     ["inputs", "programs"], "for every node type, every combination of optional children and list lengths, and every visitor",
     "The tests walk a handful of statements with one visitor and compare the nodes seen; most node types and every optional child are reached by none.",
     ["sqlast/walk.go"], [("Walk", "sqlast/walk.go"), ("Inspect", "sqlast/walk.go")],
     "abstract interpretation with symbolic trees and visitors",
     "Which children are optional is read off rendering: those it tests for nil. Child visits are taken at their first event (the recursion is covered node type by node type).")

prop("C19", "Applying functions to a tree reaches every child with a correct cursor",
     "Applying a pre and a post function to a tree calls pre for the node, then, if it returned true, for every present child and list element exactly once in order, then post for the node; a pre that returns false skips children and post. Each time the cursor's parent, field name and index are those of the place that holds the node, so that an edit through the cursor acts on that node. The root is returned and nothing panics.",
     ["inputs", "programs"], "for every node type, every combination of optional children and list lengths, and every pair of functions",
     "The tests apply to a handful of statements; a wrong field name or a missing child shows only on the node type concerned, and most appear in no test.",
     ["sqlastutil/rewrite.go"], [("Apply", "sqlastutil/rewrite.go"), ("Cursor", "sqlastutil/rewrite.go")],
     "abstract interpretation with symbolic trees, functions and reflected fields",
     "Functions that edit are not covered here. Trees are well formed: what rendering needs is present and lists hold no nil.")

prop("C23", "Rendering, positions and read-only traversals never modify the tree",
     "Rendering a node in either form, asking for its positions, and walking it or applying functions to it that edit nothing, leave the tree and all package-level state exactly as they were.",
     ["inputs", "schedules"], "for every node type and every shape of tree, so also for concurrent use of one tree",
     "A test compares trees before and after at best for the inputs it has; a data race on a shared tree shows only under particular schedules.",
     RENDER + ["sqlast/walk.go", "sqlastutil/rewrite.go"], [("WriteTo, ToSQLString, Pos, End of every node", "sqlast/*.go"), ("Walk", "sqlast/walk.go"), ("Apply", "sqlastutil/rewrite.go")],
     "effect analysis by abstract interpretation: every store classified by the object it reaches",
     "Stores by child nodes are covered by the child's own node type.")

EXNOTE = "Loops are followed until a further pass only repeats what was seen (lists of none, one, two and more elements); the evidence lists where a bound cut the search off. Numbers are compared as tokens, not by spelling. Notation for which the tree keeps no difference is allowed for: x::t as CAST, INTEGER as INT, VARCHAR as CHARACTER VARYING, an optional AS, commas between table options, UNIQUE KEY, WITHOUT TIME ZONE, the order of the clauses of a column."
EXTECH = "abstract interpretation of every parse function over symbolic tokens; what was consumed on each successful path is compared with the symbolic rendering of the node returned"

prop("C05", "A parsed expression or data type renders to the tokens it was parsed from",
     "Whenever parsing succeeds, rendering the resulting expression, literal, name or data type gives back exactly the tokens that were consumed, in order: no operator, operand, argument, keyword, parenthesis or qualifier is dropped, added, swapped or changed. Only pure notation may differ: a cast written x::t, synonyms of data type names, the spelling of numbers and of not-equal.",
     ["inputs"], "for every token sequence on which a parse method succeeds, complete or followed by other tokens",
     "The tests compare trees for some two hundred statements; a clause lost or swapped on one of the thousands of combinations of optional parts shows in none of them.",
     PARSER + RENDER, [("expression and data type parsing", "parser.go"), ("rendering", "sqlast/*.go")], EXTECH, EXNOTE)

prop("C06", "A parsed query renders to the tokens it was parsed from",
     "Whenever parsing succeeds, rendering the resulting query gives back exactly the tokens that were consumed, in order: no common table expression, set operation, ALL, DISTINCT, select item, alias, table, join, condition, grouping, ordering direction, limit or offset is dropped, added, swapped or changed. Only an optional AS in front of an alias may differ.",
     ["inputs"], "for every token sequence on which a parse method succeeds, complete or followed by other tokens",
     "The tests parse a few dozen queries, each with few of the optional clauses; combinations of clauses, and clauses cut short, are hardly sampled.",
     PARSER + RENDER, [("query parsing", "parser.go"), ("rendering", "sqlast/query.go")], EXTECH, EXNOTE)

prop("C27", "A parsed CREATE, ALTER or DROP renders to the tokens it was parsed from",
     "Whenever parsing succeeds, rendering the resulting CREATE, ALTER or DROP statement gives back exactly the tokens that were consumed: no element, column constraint, default, option, action, name, IF EXISTS, CASCADE or other modifier is dropped, added or changed, and elements keep their order. Only notation may differ: the order of the clauses within one column, commas between table options, UNIQUE KEY for UNIQUE.",
     ["inputs"], "for every token sequence on which a parse method succeeds, complete or followed by other tokens",
     "Column and table clauses combine freely; the tests sample a few dozen of the combinations and almost none of the ones that end early.",
     PARSER + RENDER, [("statement parsing", "parser.go"), ("rendering", "sqlast/stmt.go")], EXTECH, EXNOTE)

prop("C28", "A parsed INSERT, UPDATE or DELETE renders to the tokens it was parsed from",
     "Whenever parsing succeeds, rendering the resulting INSERT, UPDATE, DELETE or EXPLAIN statement gives back exactly the tokens that were consumed, in order: no column, row, value, assignment, condition or conflict clause is dropped, added, swapped or changed.",
     ["inputs"], "for every token sequence on which a parse method succeeds, complete or followed by other tokens",
     "The tests parse a dozen such statements; rows and assignments beyond the first, and clauses in unusual combinations, are hardly sampled.",
     PARSER + RENDER, [("statement parsing", "parser.go"), ("rendering", "sqlast/stmt.go")], EXTECH, EXNOTE)

prop("C21", "The positions of a parsed node delimit the text it was parsed from",
     "For every node a successful parse returns, and for the nodes within it, asking for its position never panics: the start is where the first token it was parsed from starts, and the end is where the last one ends. This holds for every combination of optional clauses, in any order they may be written in.",
     ["inputs"], "for every token sequence on which a parse method succeeds, and every node in the tree that results",
     "An end position depends on which optional part came last; the tests compare positions of a few dozen trees, and hardly ever call the methods that compute starts and ends.",
     PARSER + RENDER, [("positions of expressions", "sqlast/ast.go"), ("positions of statements", "sqlast/stmt.go"), ("positions of queries", "sqlast/query.go"), ("positions of data types", "sqlast/type.go"), ("positions recorded while parsing", "parser.go")],
     "static analysis: path-sensitive abstract interpretation of the parse functions over symbolic token sequences (go/ssa), followed by interpretation of the position methods on the nodes built; their results are compared symbolically with the positions of the tokens consumed",
     EXNOTE + " Nodes within a node are located by their text; one whose text occurs several times is not. Positions pinned to other values by the existing tests are known findings.")

prop("C07", "A successful parse of a text has read all of it",
     "When parsing a list of statements or a file succeeds, every token of the input has been consumed, and the result holds every statement once and in order. Neighbouring statements were separated by a semicolon; anything else after a statement is an error, never ignored.",
     ["inputs"], "for every token sequence on which parsing a list of statements or a file succeeds",
     "That nothing is left over shows only on inputs with something left over; the tests parse well-formed statements, nearly always one at a time.",
     PARSER, [("parsing of statement lists", "parser.go")], EXTECH, EXNOTE)

prop("C08", "A quoted identifier is never taken for a keyword",
     "A word that is written between quotes is an identifier, whatever it spells: on no path does a successful parse treat a word as a keyword unless it is known to be unquoted.",
     ["inputs"], "for every token sequence on which a parse method succeeds",
     "It needs a quoted word that spells a keyword in the place where that keyword is looked for; there are more than two hundred such places and no test with one.",
     PARSER, [("keyword tests of the parser", "parser.go")], EXTECH, EXNOTE)

prop("C03", "A successful parse returns a usable tree",
     "When an exported parse method reports no error it returns a node that is really there, and rendering the returned tree never panics; no absent part is hidden in it as a typed nil pointer.",
     ["inputs"], "for every token sequence on which an exported parse method succeeds",
     "An absent part appears on inputs that are cut short or malformed just at that part; the tests contain few such inputs and look only at the error.",
     PARSER, [("exported parse methods", "parser.go"), ("ends of parse functions", "parser.go")], EXTECH, EXNOTE)

TOKTECH = "static analysis: path-sensitive abstract interpretation of the tokenizer over an unknown source (go/ssa), in step with a reference automaton of the lexical grammar; loops are generalised until the relation between the two repeats"
TOKNOTE = "The scanner of the standard library is modelled: it hands over runes one at a time and calls its error function when the reader fails or the text is malformed. A tab counts as four columns; a line end as a new line. The classes of identifier runes are those of the shipped dialects."

prop("C16", "Tokens carry exactly the text they were read from, in order, none left out",
     "For every source text and shipped dialect each token has the kind its text calls for, is as long as the text allows, and its value is that text: strings, quoted identifiers and comments without their delimiters and with doubled quotes undoubled, a line end as a single newline, words as written together with their upper-case form and the quote they were written in. Spaces and comments are left out when, and only when, asked for; no other token is ever left out, repeated or reordered.",
     ["inputs"], "for every source text, in each shipped dialect, with and without comments",
     "The tests tokenize a few dozen short texts; an error shows only for particular neighbours, quotes within quotes, or runs of particular characters.",
     ["sqltoken/tokenizer.go", "sqltoken/kind.go", "dialect/dialect.go"], [("reading a token", "sqltoken/tokenizer.go"), ("classes of identifier runes", "dialect/dialect.go"), ("collecting tokens", "sqltoken/tokenizer.go"), ("making a parser", "parser.go")], TOKTECH, TOKNOTE)

prop("C09", "The positions of tokens follow the source text",
     "Every token starts at the line and column where its first character stands and ends where the next token starts, the first being at line 1, column 1. A line end, also one inside a string, quoted identifier or comment, starts a new line at column 1, CR LF counting as one; a tab counts as four columns and every other character as one, whatever its length in bytes.",
     ["inputs"], "for every source text, in each shipped dialect, and for every token in it",
     "Positions drift only after particular texts, such as a line end in a string or a character of several bytes; the tests compare positions of a handful of tokens.",
     ["sqltoken/tokenizer.go"], [("positions of the tokenizer", "sqltoken/tokenizer.go")], TOKTECH, TOKNOTE)

prop("C10", "What cannot be tokenized is reported, and nothing else is",
     "An unclosed string, quoted identifier or comment, a malformed operator, and a reader that fails at any point are reported as errors, also by making a parser; the end of the source is reported only when all of it was read. Everything else is tokenized without an error.",
     ["inputs", "fault_sequences"], "for every source text, in each shipped dialect, and every point at which the reader may fail",
     "A reader that fails in the middle, and text that ends inside each kind of token, are all but absent from the tests.",
     ["sqltoken/tokenizer.go", "parser.go"], [("errors of the tokenizer", "sqltoken/tokenizer.go"), ("making a parser", "parser.go")], TOKTECH, TOKNOTE)

prop("C18", "Tokenizing never panics and always ends",
     "For every source text, complete or cut off anywhere, and every failing reader, tokenizing returns: every token reported consumes text, no loop continues without reading on, not even at the end of the source, and nothing panics.",
     ["inputs", "fault_sequences"], "for every source text of any length, in each shipped dialect, and every point at which the reader may fail",
     "An endless loop needs a text that ends at just that place; the tests hold almost no text that ends inside a token.",
     ["sqltoken/tokenizer.go"], [("loops of the tokenizer", "sqltoken/tokenizer.go")], TOKTECH, TOKNOTE)

prop("C24", "Separate and repeated uses never influence one another",
     "The same input always gives the same result, whatever ran before and whatever runs at the same time on other objects: tokenizing, parsing, rendering and traversing never modify package-level memory, no tree shares such memory where an edit of one tree would show in another, no goroutine is started, and no result depends on the iteration order of a map.",
     ["schedules", "histories", "inputs"], "for every sequence and every interleaving of uses of the library on separate objects",
     "Tests run one after another and compare each result once; state left behind shows only in a later use, and a race only under particular schedules.",
     PARSER + ["sqltoken/tokenizer.go", "dialect/keywords.go", "sqlast/writer.go", "sqlast/walk.go", "sqlastutil/rewrite.go"],
     [("cache of keywords", "sqltoken/tokenizer.go"), ("keyword tables", "dialect/keywords.go"), ("constant separators", "sqlast/writer.go"), ("abort marker", "sqlastutil/rewrite.go")],
     "static analysis: whole-program flow-insensitive tracking of package-level memory over go/ssa, with an effect rule at every store, map update, append, copy and call out of the library",
     "Which memory a package variable leads to is over-approximated by value flow, struct fields and element types. Dereferences of memory the user shares between two uses are the user's.")

prop("C25", "White space and comments never change what is parsed",
     "Adding or removing white space tokens and comment tokens anywhere between the other tokens of a sequence changes neither whether the parser accepts it nor the tree it builds, source positions apart. Parsing with the ParseComment option accepts the same token sequences with the same trees. With it every comment is recorded exactly once, whether or not the parser reads the place again, and ParseFile returns all of them in the order of the source.",
     ["inputs"], "for every arrangement of white space, line breaks and comments in every gap of every token sequence",
     "Tests put a comment or a line break in a handful of places; a helper that looks at the next raw token, or steps back over too little, fails only for a gap at one particular place of the grammar.",
     ["parser.go"],
     [("skipping of layout", "parser.go"), ("stepping back", "parser.go"), ("recording of comments", "parser.go"), ("ParseFile", "parser.go")],
     "static analysis: abstract interpretation of the token-level functions over go/ssa, compared between token sequences with every arrangement of layout and the same sequence without; dependence on layout is propagated up the call graph; a rule on comparisons of source positions elsewhere",
     "Up to 3 layout tokens (4 thorough) around one unknown other token and one less around two, at every place. Parse functions above the token level are covered because they reach the tokens only through these functions.")

prop("C26", "The library acts on nothing but what it was handed",
     "Using the library never prints to standard output or standard error, never ends the process, and neither reads nor changes files, environment, clock, random numbers, network or signals: it reads the reader and writes the writer it was given. Only the method that dumps a parser for debugging prints, and a panic on misuse may log its message.",
     ["inputs", "programs"], "for every function reachable from the exported API and every path through it",
     "A leftover print or a fatal exit sits on rare paths, such as errors and misuse, that the tests never run; and tests do not look at the standard streams.",
     PARSER + ["sqltoken/tokenizer.go", "sqlast/*.go", "sqlastutil/rewrite.go"],
     [("errors of the parser", "parser.go"), ("misuse of cursors", "sqlastutil/rewrite.go"), ("misuse of trees", "sqlast/walk.go")],
     "static analysis: reachability from the exported API over go/ssa (calls, references, method implementations) with a rule on every use of another package",
     "That the scanner of the standard library has an error function, without which it would print, is part of C10.")

prop("C04", "Operators group by binding strength, equal ones from the left",
     "Parsing groups operators by how tightly they bind, from loosest: OR; AND; NOT; IS NULL; comparisons, LIKE, IN and BETWEEN; addition, subtraction and signs; multiplication, division and modulo; casts written with ::. Operators that bind equally group from the left, and an expression extends as far as operators follow, for expressions of any length. Among set operations INTERSECT binds tighter than UNION and EXCEPT, which group from the left.",
     ["inputs"], "for every expression and every combination of set operations, of any length and nesting",
     "How operators group shows only in the shape of the tree, for particular pairs of operators in a particular order; of some five hundred pairs the tests hold a dozen, and the rendered text is the same for all groupings.",
     PARSER, [("expressions", "parser.go"), ("binding strengths", "parser.go"), ("set operations", "parser.go")],
     "static analysis: path-sensitive abstract interpretation of the expression functions over symbolic tokens; fixpoint of the operators each function takes on its left spine and can leave behind, checked against a table of binding strengths at every operand",
     "Operators of a loop are followed for one pass (thorough: two); that the loop treats later operators as it treats the first is assumed. NOT in the default of a column ends the expression (NOT NULL follows).")
