package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

func init() {
	rule := "For every way through a parse function that ends in success (loops followed a bounded number of times, built nodes folded into nonterminals), the tokens consumed are compared with the symbolic text of the node returned, lexed into tokens: they are the same sequence, up to the notational variants listed in DESIGN.md. "
	register("C05", rule+"Here: expressions, literals, data types and names.", func(c *Context, r *Report) { checkExact(c, r, "expr") })
	register("C06", rule+"Here: queries.", func(c *Context, r *Report) { checkExact(c, r, "query") })
	register("C27", rule+"Here: statements that define tables, views and indexes.", func(c *Context, r *Report) { checkExact(c, r, "ddl") })
	register("C28", rule+"Here: statements that change data.", func(c *Context, r *Report) { checkExact(c, r, "dml") })
	register("C07", rule+"Here: lists of statements, which moreover end only where the tokens end.", checkWhole)
	register("C08", rule+"Here: a word that is read as a keyword is known not to be quoted.", checkQuoted)
	register("C03", "At every success of a parse function a node is returned, which renders without panic; no nil pointer is returned as a node.", checkNode)
}

var nodeGroups = map[string]string{
	"query": "QueryStmt CTE SelectExpr QueryExpr SetOperationExpr UnionOperator ExceptOperator IntersectOperator SQLSelect Table Derived UnnamedSelectItem AliasSelectItem QualifiedWildcardSelectItem WildcardSelectItem CrossJoin TableJoinElement PartitionedJoinTable QualifiedJoin NaturalJoin NamedColumnsJoin JoinCondition JoinType OrderByExpr LimitExpr",
	"ddl":   "CreateViewStmt CreateTableStmt TableConstraint UniqueTableConstraint ReferentialTableConstraint ReferenceKeyExpr CheckTableConstraint ColumnDef AutoIncrement ColumnConstraint NotNullColumnSpec UniqueColumnSpec ReferencesColumnSpec CheckColumnSpec AlterTableStmt AddColumnTableAction AlterColumnTableAction SetDefaultColumnAction DropDefaultColumnAction PGAlterDataTypeColumnAction PGSetNotNullColumnAction PGDropNotNullColumnAction RemoveColumnTableAction AddConstraintTableAction DropConstraintTableAction DropTableStmt CreateIndexStmt DropIndexStmt MyEngine MyCharset MyDataTypeDecoration",
	"dml":   "InsertStmt SubQuerySource ConstructorSource RowValueExpr CopyStmt UpdateStmt DeleteStmt Assignment ExplainStmt",
	"all":   "Ident ObjectName nonterminal statements File",
}

var groupOf = func() map[string]string {
	m := map[string]string{}
	for g, ns := range nodeGroups {
		for _, n := range strings.Fields(ns) {
			m[n] = g
		}
	}
	return m
}()

// groupFor is the part of the grammar a node belongs to.
func groupFor(node string) string {
	n := strings.TrimPrefix(node, "*")
	if i := strings.LastIndex(n, "."); i >= 0 {
		n = n[i+1:]
	}
	if n == "" {
		return "all"
	}
	if g, ok := groupOf[n]; ok {
		return g
	}
	return "expr"
}

// resultGroup is the group for a finding of a parse function without a node.
func (ef *exactFacts) resultGroup(key string) string {
	k := ef.pc.keys[key]
	if k == nil {
		return "all"
	}
	t := k.fn.Signature.Results().At(0).Type()
	if types.IsInterface(t) {
		return "all"
	}
	return groupFor(typeName(t))
}

// exactReport reports what all the checks share.
func (c *Context) exactReport(r *Report) *exactFacts {
	ef, err := c.exact()
	if err != nil {
		r.undecided("%v", err)
		return nil
	}
	if c.pf != nil {
		for _, u := range c.pf.undecided {
			r.undecided("%s", u)
		}
	}
	for _, n := range sortedKeys(ef.results) {
		x := ef.results[n]
		if x.Undecided != "" {
			r.undecided("%s: %s", n, x.Undecided)
		}
		r.Counts["parse functions"]++
		r.Counts["successful ends"] += x.Exits
		for b, n := range x.Bounded {
			r.Bounded[b] += n
		}
	}
	for _, fn := range ef.inlined {
		r.sample("followed as part of its callers: " + fn)
	}
	for _, n := range sortedKeys(ef.limited) {
		r.sample("loops followed less often: " + n + ": " + ef.limited[n])
	}
	r.Minimum["parse functions"] = 30
	r.Assumptions = append(r.Assumptions, "loops are followed until another pass would only repeat what was seen: lists are taken to grow alike beyond two elements",
		"tokens are those of the tokenizer: a word token carries a word, any other token a string", "numbers keep their value, not their spelling")
	return ef
}

func exactFinding(n string, m *Mismatch) Finding {
	show := func(s string) string {
		if s == "" {
			return "nothing"
		}
		return s
	}
	rule, detail := "the node differs from what was parsed", fmt.Sprintf("parsed: %s; the node reads: %s; whole: %s (%d paths)", show(m.Cons), show(m.Text), m.Example, m.N)
	if m.Cons == "success" || m.Cons == "?" {
		rule = "a success that is none"
		detail = m.Text
	}
	return Finding{Rule: rule, At: fmt.Sprintf("%s: %s: %s => %s", n, m.Node, show(m.Cons), show(m.Text)), Where: m.Where, Detail: detail, Path: m.Path}
}

func checkExact(c *Context, r *Report, group string) {
	ef := c.exactReport(r)
	if ef == nil {
		return
	}
	nodes := map[string]int{}
	for _, n := range sortedKeys(ef.results) {
		x := ef.results[n]
		for node, k := range x.Compared {
			if groupFor(node) == group {
				nodes[node] += k
			}
		}
		for _, m := range x.Mismatches {
			g := groupFor(m.Node)
			if m.Node == "" {
				g = ef.resultGroup(n)
			}
			if g != group && g != "all" {
				continue
			}
			r.find(exactFinding(n, m))
		}
	}
	for _, n := range sortedKeys(nodes) {
		r.sample(fmt.Sprintf("%s: compared %d times", n, nodes[n]))
		r.Counts["comparisons"] += nodes[n]
	}
	r.Counts["node types compared"] = len(nodes)
	r.Minimum["node types compared"] = map[string]int{"expr": 40, "query": 10, "ddl": 10, "dml": 5}[group]
}

func checkWhole(c *Context, r *Report) {
	ef := c.exactReport(r)
	if ef == nil {
		return
	}
	for _, n := range sortedKeys(ef.results) {
		x := ef.results[n]
		k := ef.pc.keys[n]
		lists := x.Compared["statements"] + x.Compared["*sqlast.File"]
		for _, m := range x.Mismatches {
			if m.Node == "statements" || m.Node == "*sqlast.File" || m.Node == "" && lists > 0 || m.Cons == "?" {
				r.find(exactFinding(n, m))
			}
		}
		for _, at := range x.NotAtEnd {
			r.find(Finding{Rule: "success before the end", At: at, Where: ef.pc.p.pos(k.fn.Pos()), Detail: "a list of statements is returned although tokens may be left"})
		}
		if lists > 0 {
			r.Counts["entry points"]++
			r.Counts["lists compared"] += lists
		}
	}
	r.Minimum["entry points"] = 2
}

func checkQuoted(c *Context, r *Report) {
	ef := c.exactReport(r)
	if ef == nil {
		return
	}
	for _, n := range sortedKeys(ef.results) {
		x := ef.results[n]
		r.Counts["keywords"] += x.Keywords
		for _, m := range x.Mismatches {
			if m.Quoted {
				f := exactFinding(n, m)
				f.Rule = "a word that may be quoted is read as a keyword"
				r.find(f)
			}
		}
	}
	r.Minimum["keywords"] = 500
}

func checkNode(c *Context, r *Report) {
	ef := c.exactReport(r)
	if ef == nil {
		return
	}
	pf := c.pf
	for _, fs := range [][]Finding{pf.typedNil, pf.nilNodes} {
		for _, f := range fs {
			if token.IsExported(f.At) {
				r.find(f)
			}
		}
	}
	for _, n := range sortedKeys(ef.results) {
		for _, m := range ef.results[n].Mismatches {
			if m.Cons == "success" || m.Cons == "?" {
				r.find(exactFinding(n, m))
			}
		}
	}
	sort.Slice(r.Findings, func(i, j int) bool { return r.Findings[i].key() < r.Findings[j].key() })
}
