package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// The exact mode of the parser client: loops are followed a bounded number of
// times, and what a parse function consumed is compared with the text of the
// node it returns.

// tokItem is an element of what was consumed: a token or a nonterminal.
type tokItem struct {
	el *Term // a token
	nt *Term // or the node of a nonterminal
	nm string
}

// consumed lists what lies between the start of a parse function and the
// final position, newest events first.
func (pc *parseClient) consumed(s *State, out []Ev) ([]tokItem, error) {
	type ev struct {
		at, end Lin
		nt      *Term
		nm      string
	}
	byEnd := map[*Term]ev{}
	for _, e := range out {
		switch e.K {
		case "nt", "none":
			x := ev{at: e.V[0].(VInt).L, end: e.V[1].(VInt).L}
			if e.K == "nt" {
				x.nt = e.V[2].(VTerm).T
				x.nm = valString(e.V[3])
			}
			byEnd[x.end.T[0].T] = x
		}
	}
	var items []tokItem
	cur := pc.index(s)
	start := s.norm(linT(pc.start))
	for n := 0; ; n++ {
		if n > 5000 {
			return nil, fmt.Errorf("the consumed tokens cannot be listed")
		}
		// the nearest nonterminal that ends here or before
		var best *Term
		dist := int64(0)
		for t, x := range byEnd {
			d := cur.add(s.norm(x.end), -1)
			if d.isConst() && d.C >= 0 && (best == nil || d.C < dist || d.C == dist && x.nt == nil) {
				best, dist = t, d.C
			}
		}
		if best == nil {
			d := cur.add(start, -1)
			if !d.isConst() {
				return nil, fmt.Errorf("the position %s is not reached by consuming tokens", cur)
			}
			if d.C < 0 {
				return nil, fmt.Errorf("the position may move back before the start")
			}
			for i := d.C - 1; i >= 0; i-- {
				items = append(items, tokItem{el: pc.elem(s.norm(start.add(linC(i), 1)))})
			}
			break
		}
		x := byEnd[best]
		for i := dist - 1; i >= 0; i-- {
			items = append(items, tokItem{el: pc.elem(s.norm(x.end.add(linC(i), 1)))})
		}
		if x.nt != nil {
			items = append(items, tokItem{nt: x.nt, nm: x.nm})
		}
		cur = s.norm(x.at)
		delete(byEnd, best)
	}
	for i, j := 0, len(items)-1; i < j; i, j = i+1, j-1 {
		items[i], items[j] = items[j], items[i]
	}
	return items, nil
}

// textItem is a token of rendered text.
type textItem struct {
	k   string // word, punct, tok:word, tok:number, tok:string, nt, other
	s   string // for word and punct
	el  *Term
	nt  *Term
	raw string
}

var puncts = []string{"<=", ">=", "<>", "!=", "::"}

// lex splits rendered text into tokens.
func (pc *parseClient) lex(s *State, ps []Piece) []textItem {
	type atom struct {
		c rune
		t *Term
	}
	var as []atom
	for _, p := range ps {
		if p.T != nil {
			sep := pc.sepOfTerm(p.T)
			if strings.Contains(sep, "<") {
				as = append(as, atom{c: ' '})
			}
			free := len(as) == 0 || as[len(as)-1].t == nil && unicode.IsSpace(as[len(as)-1].c)
			as = append(as, atom{t: p.T})
			if strings.Contains(sep, ">") && (free || !strings.Contains(sep, "e")) {
				as = append(as, atom{c: ' '})
			}
			continue
		}
		for _, c := range p.Lit {
			as = append(as, atom{c: c})
		}
	}
	var items []textItem
	wordy := func(a atom) bool {
		return a.t != nil || a.c == '_' || unicode.IsLetter(a.c) || unicode.IsDigit(a.c) || a.c == '@' || a.c == '$' || a.c == '#'
	}
	show := func(as []atom) string {
		var b strings.Builder
		for _, a := range as {
			if a.t != nil {
				b.WriteString("<" + a.t.String() + ">")
			} else {
				b.WriteRune(a.c)
			}
		}
		return b.String()
	}
	for i := 0; i < len(as); {
		a := as[i]
		switch {
		case a.t == nil && unicode.IsSpace(a.c):
			i++
		case a.t == nil && a.c == '\'' || a.t == nil && a.c == 'N' && i+1 < len(as) && as[i+1].t == nil && as[i+1].c == '\'':
			nat := a.c == 'N'
			j := i + 1
			if nat {
				j++
			}
			st := j
			for j < len(as) && (as[j].t != nil || as[j].c != '\'') {
				j++
			}
			it := textItem{k: "other", raw: show(as[i:min(j+1, len(as))])}
			if j < len(as) && j == st+1 && as[st].t != nil {
				if el := pc.quotedString(as[st].t); el != nil {
					it.k, it.el = "tok:string", el
					if nat {
						it.k = "tok:nstring"
					}
				}
			}
			items = append(items, it)
			i = j + 1
		case wordy(a):
			j := i
			for j < len(as) && (wordy(as[j]) || as[j].t == nil && as[j].c == '.' && j > i && as[j-1].t == nil && unicode.IsDigit(as[j-1].c)) {
				j++
			}
			it := textItem{k: "other", raw: show(as[i:j])}
			if j == i+1 && a.t != nil {
				it = pc.termItem(s, a.t)
				it.raw = show(as[i:j])
				if it.k == "tok:number" && j+1 < len(as) && as[j].t == nil && as[j].c == '.' && as[j+1].t == nil && as[j+1].c == '0' && (j+2 == len(as) || !wordy(as[j+2])) {
					j += 2 // a whole number written as a fraction
				}
			} else {
				lit := true
				for _, x := range as[i:j] {
					lit = lit && x.t == nil
				}
				if lit {
					it.k, it.s = "word", strings.ToUpper(it.raw)
				}
			}
			items = append(items, it)
			i = j
		default:
			p := string(a.c)
			if i+1 < len(as) && as[i+1].t == nil {
				for _, q := range puncts {
					if q == p+string(as[i+1].c) {
						p = q
					}
				}
			}
			it := textItem{k: "punct", s: p, raw: p}
			if p == "-" && i+1 < len(as) && as[i+1].t != nil && as[i+1].t.Op == "text" {
				it.k = "other"
				it.raw = "- directly before " + show(as[i+1:i+2])
			}
			items = append(items, it)
			i += len([]rune(p))
		}
	}
	return items
}

// sepOf notes whether a text is kept apart from what is written around it.
func sepOf(ps []Piece) string {
	out := ""
	if len(ps) > 0 && ps[0].T == nil && ps[0].Lit != "" {
		if c := rune(ps[0].Lit[0]); !unicode.IsLetter(c) && !unicode.IsDigit(c) && c < 128 {
			out += "<"
		}
	}
	if n := len(ps); n > 0 && ps[n-1].T == nil && ps[n-1].Lit != "" {
		if l := ps[n-1].Lit; !unicode.IsLetter(rune(l[len(l)-1])) && !unicode.IsDigit(rune(l[len(l)-1])) && l[len(l)-1] < 128 {
			out += ">"
		}
	}
	return out
}

// foldedOp is the prefix of the names of folded nonterminals.
const foldedOp = "nt:folded|"

// sepOfTerm tells how the text of a nonterminal is kept apart: "<" before, ">"
// after, "e" if it may be empty.
func (pc *parseClient) sepOfTerm(t *Term) string {
	if t.Op != "text" {
		return ""
	}
	nt := ntOf(t.Args[0])
	if nt == nil {
		return ""
	}
	if strings.HasPrefix(nt.Op, "fresh:"+foldedOp) {
		return strings.Split(nt.Op, "|")[1]
	}
	return pc.seps[ntName(nt)]
}

// bothSeps is what holds of two texts.
func bothSeps(a, b string) string {
	out := ""
	for _, c := range "<>" {
		if strings.ContainsRune(a, c) && strings.ContainsRune(b, c) {
			out += string(c)
		}
	}
	if strings.Contains(a+b, "e") {
		out += "e"
	}
	return out
}

// termItem classifies a term that stands as a token of its own.
func (pc *parseClient) termItem(s *State, t *Term) textItem {
	if t.Op == "text" {
		if nt := ntOf(t.Args[0]); nt != nil {
			return textItem{k: "nt", nt: nt}
		}
		return textItem{k: "other"}
	}
	el := pc.tokElem(t)
	if el == nil {
		return textItem{k: "other"}
	}
	if t.Op == "wordtext" {
		return textItem{k: "tok:word", el: el}
	}
	val := func(t *Term) bool {
		return t.Op == "as:string" && len(t.Args) == 1
	}
	if val(t) {
		return textItem{k: "tok:number", el: el}
	}
	// a number parsed and formatted again
	var x *Term = t
	for d := 0; d < 8; d++ {
		if val(x) {
			return textItem{k: "tok:number", el: el}
		}
		ok := false
		for _, n := range []string{"strconv.ParseInt", "strconv.Atoi", "strconv.ParseFloat", "strconv.FormatInt", "strconv.FormatFloat", "strconv.Itoa", "itoa", "strconv.ParseUint", "decimal"} {
			if strings.Contains(x.Op, n) {
				ok = true
			}
		}
		if !ok || len(x.Args) == 0 {
			break
		}
		y := pc.innerTerm(x.Args[0])
		if y == nil {
			break
		}
		x = y
	}
	return textItem{k: "other", el: el}
}

func (pc *parseClient) innerTerm(v Val) *Term {
	switch v := v.(type) {
	case VTerm:
		return v.T
	case VInt:
		if len(v.L.T) == 1 && v.L.C == 0 && v.L.T[0].K == 1 {
			return v.L.T[0].T
		}
	case VStr:
		if len(v.P) == 1 {
			return v.P[0].T
		}
	}
	return nil
}

// quotedString recognises the content of a string token with its quotes doubled.
func (pc *parseClient) quotedString(t *Term) *Term {
	if (strings.Contains(t.Op, "strings.ReplaceAll") || t.Op == "replaceall") && len(t.Args) == 3 {
		a, _ := strLit(t.Args[1])
		b, _ := strLit(t.Args[2])
		if in := pc.innerTerm(t.Args[0]); in != nil && a == "'" && b == "''" && in.Op == "as:string" {
			return pc.tokElem(in)
		}
	}
	return nil
}

// kindOf is the kind of a token if it is known.
func (pc *parseClient) kindOf(s *State, el *Term) (string, bool) {
	l := s.norm(linT(pc.kindTerm(el)))
	if l.isConst() {
		return pc.kindNm[l.C], true
	}
	return "", false
}

// keyword is the keyword an unquoted word token is known to be.
func (pc *parseClient) keyword(s *State, el *Term) string {
	if k, ok := pc.kindOf(s, el); !ok || k != "SQLKeyword" {
		return ""
	}
	if q := s.norm(linT(pc.quoteTerm(el))); (!q.isConst() || q.C != 0) && !pc.lenient {
		return ""
	}
	if f, ok := s.facts[pc.kwTerm(el)]; ok && f.Eq != nil {
		return *f.Eq
	}
	return ""
}

var kindText = map[string][]string{
	"Comma": {","}, "Eq": {"="}, "Neq": {"!=", "<>"}, "Lt": {"<"}, "Gt": {">"}, "LtEq": {"<="}, "GtEq": {">="},
	"Plus": {"+"}, "Minus": {"-"}, "Mult": {"*"}, "Div": {"/"}, "Mod": {"%"}, "LParen": {"("}, "RParen": {")"},
	"Period": {"."}, "Colon": {":"}, "DoubleColon": {"::"}, "Semicolon": {";"}, "Backslash": {"\\"},
	"LBracket": {"["}, "RBracket": {"]"}, "Ampersand": {"&"}, "LBrace": {"{"}, "RBrace": {"}"},
}

func (pc *parseClient) showItem(s *State, it tokItem) string {
	if it.nt != nil {
		return "<" + it.nm + ">"
	}
	if kw := pc.keyword(s, it.el); kw != "" {
		return kw
	}
	k, ok := pc.kindOf(s, it.el)
	if !ok {
		return "?"
	}
	if p, ok := kindText[k]; ok {
		return p[0]
	}
	switch k {
	case "SQLKeyword":
		return "word"
	case "Number":
		return "number"
	}
	return k
}

func (pc *parseClient) showText(items []textItem, seq []tokItem, s *State) string {
	pos := map[*Term]int{}
	for i, it := range seq {
		if it.el != nil {
			pos[it.el] = i + 1
		}
		if it.nt != nil {
			pos[it.nt] = i + 1
		}
	}
	var out []string
	for _, t := range items {
		switch t.k {
		case "word", "punct":
			out = append(out, t.s)
		case "nt":
			out = append(out, fmt.Sprintf("<%d>", pos[t.nt]))
		case "other":
			out = append(out, "?"+t.raw)
		default:
			out = append(out, fmt.Sprintf("%s%d", strings.TrimPrefix(t.k, "tok:"), pos[t.el]))
		}
	}
	return strings.Join(out, " ")
}

// same reports whether a consumed item reads as a rendered one.
func (pc *parseClient) same(s *State, c tokItem, t textItem) bool {
	if c.nt != nil {
		return t.k == "nt" && t.nt == c.nt
	}
	k, known := pc.kindOf(s, c.el)
	switch t.k {
	case "word":
		return pc.keyword(s, c.el) == t.s
	case "punct":
		if !known {
			return false
		}
		for _, p := range kindText[k] {
			if p == t.s {
				return true
			}
		}
		return false
	case "tok:word":
		return t.el == c.el && known && k == "SQLKeyword"
	case "tok:number":
		return t.el == c.el && known && k == "Number"
	case "tok:string":
		return t.el == c.el && known && k == "SingleQuotedString"
	case "tok:nstring":
		return t.el == c.el && known && k == "NationalStringLiteral"
	}
	return false
}

type exactExit struct {
	st    *State
	text  []Piece
	node  string // type of the node rendered
	panic string
}

// pin gives the lists that are parts of nonterminals two elements.
func (pc *parseClient) pin(s *State, v Val, seen map[int]bool) *State {
	switch v := v.(type) {
	case VIface:
		return pc.pin(s, v.V, seen)
	case VPtr:
		if o := s.get(v.Obj); o != nil && !seen[int(v.Obj)] {
			seen[int(v.Obj)] = true
			return pc.pin(s, o.V, seen)
		}
	case VSlice:
		if o := s.get(v.Obj); o != nil && !seen[int(v.Obj)] {
			seen[int(v.Obj)] = true
			return pc.pin(s, o.V, seen)
		}
	case VAgg:
		for _, f := range v.F {
			s = pc.pin(s, f, seen)
		}
	case VTerm:
		if !pc.nodeList(v.T.Typ) || !partOfNT(v.T) {
			return s
		}
		l := linT(lenTerm(v))
		if n := s.norm(l); n.isConst() {
			return s
		}
		s = s.clone()
		s.assertQuiet(Atom{K: "eq0", L: l.add(linC(2), -1)}, true)
	}
	return s
}

func partOfNT(t *Term) bool {
	if isNT(t) {
		return true
	}
	for _, a := range t.Args {
		if x, ok := a.(VTerm); ok && partOfNT(x.T) {
			return true
		}
	}
	return false
}

// nodeEngine is an engine that runs the methods of a node that was parsed.
func (pc *parseClient) nodeEngine() *Engine {
	e := pc.p.renderEngine(pc.base)
	e.objSeq = pc.e.objSeq
	e.maxStates = 3000
	e.lenFirst = true
	e.hooks.Head = nil
	e.hooks.Decide = pc.decideHook
	e.hooks.Assert = pc.assertHook
	rc := e.hooks.Call
	e.hooks.Call = func(s *State, c *Call) bool {
		var recv Val
		name := ""
		if c.Fn != nil && c.Fn.Name() == "ComparePos" && len(c.Args) == 2 && pc.posItems != nil && pc.comparePos(s, c) {
			return true
		}
		if c.Fn == nil && c.Method != nil {
			recv, name = c.Recv, c.Method.Name()
		} else if c.Fn != nil && c.Fn.Signature.Recv() != nil && len(c.Args) > 0 {
			recv, name = c.Args[0], c.Fn.Name()
		}
		if recv != nil {
			if nt := ntOf(recv); nt != nil && (name == "Pos" || name == "End") {
				s.ret(c, callVal(c.Res.At(0).Type(), name, VTerm{nt}))
				return true
			}
			if nt := ntOf(recv); nt != nil && rmMethods[name] {
				text := []Piece{{T: mkTerm(types.Typ[types.String], "text", VTerm{nt})}}
				if name == "WriteTo" {
					return s.writerWrite(c, c.Args[len(c.Args)-1], VStr{text})
				}
				s.ret(c, VStr{text})
				return true
			}
		}
		if c.Fn != nil && c.Fn.Signature.Recv() != nil && types.Identical(c.Fn.Signature.Recv().Type(), pc.wordT) {
			return pc.callHook(s, c)
		}
		return rc(s, c)
	}
	return e
}

// textOf renders the node a parse function returned.
func (pc *parseClient) textOf(s *State, v Val) ([]exactExit, error) {
	if nt := ntOf(v); nt != nil {
		return []exactExit{{st: s, node: "nonterminal", text: []Piece{{T: mkTerm(types.Typ[types.String], "text", VTerm{nt})}}}}, nil
	}
	if sl, ok := v.(VSlice); ok {
		// a list of statements
		o := s.get(sl.Obj)
		x := exactExit{st: s, node: "statements"}
		for i := 0; i < int(sl.Len); i++ {
			el := readPath(o.V, fmt.Sprintf(".%d", int(sl.Off)+i))
			xs, err := pc.textOf(x.st, el)
			if err != nil || len(xs) != 1 || xs[0].panic != "" {
				return nil, fmt.Errorf("the statements cannot be rendered")
			}
			if i > 0 {
				x.text = append(x.text, Piece{Lit: " ; "})
			}
			x.st = xs[0].st
			x.text = append(x.text, xs[0].text...)
		}
		return []exactExit{x}, nil
	}
	if _, ok := v.(VNil); ok {
		return []exactExit{{st: s, node: "statements"}}, nil
	}
	var t types.Type
	recv := v
	switch x := v.(type) {
	case VIface:
		t, recv = x.T, x.V
	case VPtr:
		o := s.get(x.Obj)
		if o == nil || x.Path != "" {
			return nil, fmt.Errorf("the node returned is not evident")
		}
		t = types.NewPointer(o.Typ)
	default:
		return nil, fmt.Errorf("the node returned is not evident: %s", valString(v))
	}
	s = pc.pin(s, v, map[int]bool{})
	e := pc.nodeEngine()
	var out []exactExit
	exits, panics, err := pc.p.runToSQLString(e, s, nodeType{name: typeName(t), T: t}, recv)
	if err != nil {
		return nil, err
	}
	for _, x := range exits {
		out = append(out, exactExit{st: x.st, text: x.text, node: typeName(t)})
	}
	for _, x := range panics {
		out = append(out, exactExit{st: x, node: typeName(t), panic: valString(x.panicV)})
	}
	return out, nil
}

// Mismatch is a way in which the text of a node and the tokens consumed for it
// differ.
type Mismatch struct {
	Cons, Text string
	Node       string
	Example    string
	Where      string
	Path       []string
	N          int
	Quoted     bool // it is gone if quoted words are keywords
}

// ExactResult is what the exact interpretation of one parse function found.
type ExactResult struct {
	Key         string
	Fn          string
	States      int
	Exits       int
	Compared    map[string]int // by node type
	Mismatches  []*Mismatch
	Mutated     []string // parse functions whose results are stored into
	Callees     []string
	Bounded     map[string]int
	Undecided   string
	Limited     bool // not all states were visited
	NotAtEnd    []string
	Keywords    int // consumed
	seen        map[string]string
	Aspects     []*Mismatch // what another comparison found
	Obligations int
	Sep         string // how the texts are kept apart from what surrounds them
}

// exactRun interprets a parse function exactly.
func (pc *parseClient) exactRun(k *cutKey, mode string, extra, maxStates int) *ExactResult {
	pc.exact, pc.budget, pc.mode = true, extra, mode
	pc.e = pc.engine()
	pc.e.projectDiffs = false
	pc.e.maxStates = maxStates
	r := &ExactResult{Key: k.name, Fn: fnName(k.fn), Compared: map[string]int{}}
	mutated, callees := map[string]int{}, map[string]int{}
	found := map[string]*Mismatch{}
	note := func(s *State, m Mismatch) {
		key := m.Node + "|" + m.Cons + "|" + m.Text
		if f, ok := found[key]; ok {
			f.N++
			return
		}
		m.N = 1
		m.Where = pc.p.pos(k.fn.Pos())
		m.Path = tail(s.trail(), 30)
		found[key] = &m
		r.Mismatches = append(r.Mismatches, found[key])
	}
	pc.onLoop = nil
	pc.aspect = func(*State, Val, []tokItem, string) {}
	if mode == "pos" {
		pc.aspect = func(s *State, v Val, items []tokItem, node string) { pc.positions(r, s, v, items, node) }
	}
	pc.folded = func(node string) { r.Compared[node]++ }
	pc.onPanic = func(k *cutKey, s *State) {}
	pc.onCall = func(_ *cutKey, s *State, callee *cutKey, at ssa.Instruction, progressed bool) { callees[callee.name]++ }
	top := token.IsExported(k.fn.Name())
	compared := 0
	pc.onExit = func(k *cutKey, s *State, res []Val) {
		if len(res) != 2 {
			return
		}
		if n, known := isNilVal(s, res[1]); known && !n {
			return
		}
		r.Exits++
		if n, known := isNilVal(s, res[0]); known && n {
			if _, isSlice := under(k.fn.Signature.Results().At(0).Type()).(*types.Slice); !isSlice {
				note(s, Mismatch{Cons: "success", Text: "no node"})
				return
			}
		}
		for _, e := range s.out {
			if e.K == "mutate" {
				if nt := ntOf(e.V[0]); nt != nil {
					mutated[ntName(nt)]++
				}
			}
		}
		items, err := pc.consumed(s, s.out)
		if err != nil {
			note(s, Mismatch{Cons: "?", Text: err.Error()})
			return
		}
		if top {
			if _, isSlice := under(k.fn.Signature.Results().At(0).Type()).(*types.Slice); isSlice {
				v, known := s.decide(Atom{K: "ge0", L: pc.index(s).add(linT(lenTerm(VTerm{pc.tokens})), -1)})
				if !known || !v {
					r.NotAtEnd = append(r.NotAtEnd, k.name)
				}
			}
		}
		xs, err := pc.textOf(s, res[0])
		if err != nil {
			r.Undecided = err.Error()
			return
		}
		for _, x := range xs {
			pc.aspect(x.st, res[0], items, x.node)
			r.Compared[x.node]++
			if x.panic != "" {
				note(x.st, Mismatch{Cons: "success", Text: "rendering panics: " + x.panic, Node: x.node})
				continue
			}
			ts := pc.lex(x.st, x.text)
			sep := sepOf(x.text)
			if len(x.text) == 1 && x.text[0].T != nil {
				sep = pc.sepOfTerm(x.text[0].T)
			}
			if len(x.text) == 0 || len(x.text) == 1 && x.text[0].T == nil && x.text[0].Lit == "" {
				sep = "<>e"
			}
			if compared++; compared == 1 {
				r.Sep = sep
			} else {
				r.Sep = bothSeps(r.Sep, sep)
			}
			for _, it := range items {
				if it.el != nil && pc.keyword(x.st, it.el) != "" {
					r.Keywords++
				}
			}
			m := &matcher{pc: pc, s: x.st, cs: items, ts: ts, node: x.node}
			if m.match() {
				continue
			}
			pc.lenient = true
			quoted := m.match()
			pc.lenient = false
			i, a, j, b := m.diff()
			show := func(its []tokItem) string {
				var cs []string
				for _, it := range its {
					cs = append(cs, pc.showItem(x.st, it))
				}
				return strings.Join(cs, " ")
			}
			note(x.st, Mismatch{Cons: show(items[i:a]), Text: pc.showText(ts[j:b], items, x.st), Node: x.node,
				Example: show(items) + "   =>   " + pc.showText(ts, items, x.st), Quoted: quoted})
		}
	}
	if err := pc.run(k); err != nil {
		r.Undecided = err.Error()
	}
	r.States = pc.e.states
	r.Bounded = pc.e.bounded
	r.Mutated, r.Callees = sortedKeys(mutated), sortedKeys(callees)
	sort.Slice(r.Mismatches, func(i, j int) bool {
		a, b := r.Mismatches[i], r.Mismatches[j]
		if a.Node != b.Node {
			return a.Node < b.Node
		}
		return a.Cons+"|"+a.Text < b.Cons+"|"+b.Text
	})
	return r
}

func ntName(t *Term) string {
	n := strings.TrimPrefix(t.Op, "fresh:nt:")
	if i := strings.LastIndex(n, "#"); i >= 0 {
		n = n[:i]
	}
	return n
}

// ---- matching ----

// matcher compares consumed tokens with rendered ones, up to the notational
// variants for which the tree keeps no difference.
type matcher struct {
	pc    *parseClient
	s     *State
	cs    []tokItem
	ts    []textItem
	node  string
	fails map[[3]int]bool
}

func (m *matcher) kw(i int, w string) bool {
	return i >= 0 && i < len(m.cs) && m.cs[i].el != nil && m.pc.keyword(m.s, m.cs[i].el) == w
}

func (m *matcher) kws(i int, ws ...string) bool {
	for n, w := range ws {
		if !m.kw(i+n, w) {
			return false
		}
	}
	return true
}

func (m *matcher) punct(i int, k string) bool {
	if i < 0 || i >= len(m.cs) || m.cs[i].el == nil {
		return false
	}
	x, ok := m.pc.kindOf(m.s, m.cs[i].el)
	return ok && x == k
}

func (m *matcher) text(j int, ws ...string) bool {
	for n, w := range ws {
		if j+n >= len(m.ts) || m.ts[j+n].k != "word" && m.ts[j+n].k != "punct" || m.ts[j+n].s != w {
			return false
		}
	}
	return true
}

func (m *matcher) is(i int, iface string) bool {
	if i < 0 || i >= len(m.cs) || m.cs[i].nt == nil {
		return false
	}
	_, it, err := m.pc.p.iface(m.pc.p.sqlast, iface)
	return err == nil && types.Implements(m.cs[i].nt.Typ, it)
}

// synonyms are words for which the tree has one node: the spelling written may
// be another one.
var synonyms = []struct{ cons, text []string }{
	{[]string{"INTEGER"}, []string{"INT"}},
	{[]string{"CHARACTER"}, []string{"CHAR"}},
	{[]string{"CHAR"}, []string{"CHARACTER"}},
	{[]string{"VARCHAR"}, []string{"CHARACTER", "VARYING"}},
	{[]string{"TIME", "WITHOUT", "TIME", "ZONE"}, []string{"TIME"}},
	{[]string{"TIMESTAMP", "WITHOUT", "TIME", "ZONE"}, []string{"TIMESTAMP"}},
}

func (m *matcher) match() bool {
	m.fails = map[[3]int]bool{}
	if m.at(0, 0, 0) {
		return true
	}
	if m.node == "*sqlast.ColumnDef" {
		return m.reordered()
	}
	return false
}

// alias reports whether a rendered item may be the name after AS.
func (m *matcher) alias(t textItem) bool {
	return t.k == "tok:word" || t.k == "nt" && types.Identical(t.nt.Typ, m.pc.identT)
}

var columnClauses = []string{"DEFAULT", "AUTO_INCREMENT", "CONSTRAINT", "NOT", "UNIQUE", "PRIMARY", "REFERENCES", "CHECK"}

// reordered matches the clauses of a column definition in any order.
func (m *matcher) reordered() bool {
	starts := func(i int) bool {
		if m.cs[i].nt != nil {
			return m.is(i, "MyDataTypeDecoration") || strings.HasPrefix(m.cs[i].nt.Op, "fresh:"+foldedOp)
		}
		for _, w := range columnClauses {
			if m.kw(i, w) {
				return true
			}
		}
		return false
	}
	if len(m.cs) < 3 {
		return false
	}
	var parts [][]tokItem
	for i := 2; i < len(m.cs); i++ {
		named := i > 1 && m.kw(i-2, "CONSTRAINT") // the body of a named constraint
		if len(parts) == 0 || starts(i) && !named {
			parts = append(parts, nil)
		}
		parts[len(parts)-1] = append(parts[len(parts)-1], m.cs[i])
	}
	if len(parts) > 6 {
		return false
	}
	all := m.cs
	defer func() { m.cs = all }()
	var try func(n int) bool
	try = func(n int) bool {
		if n == len(parts) {
			m.cs = append([]tokItem(nil), all[:2]...)
			for _, p := range parts {
				m.cs = append(m.cs, p...)
			}
			m.fails = map[[3]int]bool{}
			return m.at(0, 0, 0)
		}
		for i := n; i < len(parts); i++ {
			parts[n], parts[i] = parts[i], parts[n]
			if try(n + 1) {
				return true
			}
			parts[n], parts[i] = parts[i], parts[n]
		}
		return false
	}
	return try(0)
}

// at matches the rest; casts counts the casts written as functions but
// consumed as infix operators that are still open.
func (m *matcher) at(i, j, casts int) bool {
	if i == len(m.cs) && j == len(m.ts) {
		return casts == 0
	}
	k := [3]int{i, j, casts}
	if m.fails[k] {
		return false
	}
	ok := func() bool {
		if i < len(m.cs) && j < len(m.ts) && m.pc.same(m.s, m.cs[i], m.ts[j]) && m.at(i+1, j+1, casts) {
			return true
		}
		if i < len(m.cs) && m.cs[i].nt != nil && j < len(m.ts) && m.ts[j].k == "other" {
			if n := m.whole(m.cs[i].nt, j); n > 0 && m.at(i+1, j+n, casts) {
				return true
			}
		}
		for _, sy := range synonyms {
			if m.kws(i, sy.cons...) && m.text(j, sy.text...) && m.at(i+len(sy.cons), j+len(sy.text), casts) {
				return true
			}
		}
		// x::t is written as a cast
		if m.text(j, "CAST", "(") && m.at(i, j+2, casts+1) {
			return true
		}
		if casts > 0 && m.punct(i, "DoubleColon") && m.text(j, "AS") && m.is(i+1, "Type") && j+2 < len(m.ts) && m.pc.same(m.s, m.cs[i+1], m.ts[j+1]) &&
			m.text(j+2, ")") && m.at(i+2, j+3, casts-1) {
			return true
		}
		// an alias may be written with or without AS
		if m.text(j, "AS") && !m.kw(i, "AS") && j+1 < len(m.ts) && m.alias(m.ts[j+1]) && i < len(m.cs) && m.pc.same(m.s, m.cs[i], m.ts[j+1]) && m.at(i+1, j+2, casts) {
			return true
		}
		// UNIQUE KEY is UNIQUE
		if m.kw(i, "KEY") && m.kw(i-1, "UNIQUE") && m.at(i+1, j, casts) {
			return true
		}
		// statements may be surrounded by semicolons
		if m.node == "*sqlast.File" || m.node == "statements" {
			if m.punct(i, "Semicolon") && (i == 0 || i == len(m.cs)-1) && m.at(i+1, j, casts) {
				return true
			}
		}
		// table options may be separated by commas
		if m.punct(i, "Comma") && m.is(i+1, "TableOption") && m.is(i-1, "TableOption") && m.at(i+1, j, casts) {
			return true
		}
		if m.text(j, ",") && m.is(i, "TableOption") && m.is(i-1, "TableOption") && m.at(i, j+1, casts) {
			return true
		}
		return false
	}()
	if !ok {
		m.fails[k] = true
	}
	return ok
}

// whole reports how many rendered items are the text of a nonterminal taken
// from its parts.
func (m *matcher) whole(nt *Term, j int) int {
	t := nt.Typ
	if types.IsInterface(t) {
		f := m.s.facts[nt]
		if f.T == nil {
			return 0
		}
		t = f.T
	}
	if _, ok := under(t).(*types.Pointer); !ok {
		return 0
	}
	x := nt
	if t != nt.Typ {
		x = mkTerm(t, "as:"+typeName(t), VTerm{nt})
	}
	s := m.s.clone()
	xs, err := m.pc.textOf(s, VIface{T: t, V: VPtr{Obj: s.objOf(x)}})
	if err != nil || len(xs) != 1 || xs[0].panic != "" {
		return 0
	}
	ts := m.pc.lex(xs[0].st, xs[0].text)
	for n, x := range ts {
		if j+n >= len(m.ts) || m.ts[j+n].k != x.k || m.ts[j+n].s != x.s || m.ts[j+n].raw != x.raw {
			return 0
		}
	}
	return len(ts)
}

// diff gives the parts in which the two sequences differ.
func (m *matcher) diff() (int, int, int, int) {
	i := 0
	for i < len(m.cs) && i < len(m.ts) && m.pc.same(m.s, m.cs[i], m.ts[i]) {
		i++
	}
	a, b := len(m.cs), len(m.ts)
	for a > i && b > i && m.pc.same(m.s, m.cs[a-1], m.ts[b-1]) {
		a--
		b--
	}
	return i, a, i, b
}

// ---- folding ----

// a place that holds a node built so far
type nodePlace struct {
	v      Val
	typ    types.Type
	set    func(Val)
	acc    bool // a variable of the loop, not an element of a list
	length int  // of the list
}

// places lists the nodes that a loop builds: the variables of the loop, and
// the last elements of the lists in use.
func (pc *parseClient) places(s *State, f *Frame) []nodePlace {
	var out []nodePlace
	for _, ins := range f.block.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		pc.addPlace(&out, f.env[phi], phi.Type(), func(v Val) { f.env[phi] = v })
	}
	for i := range out {
		out[i].acc = true
	}
	list := func(t types.Type, v Val) { pc.listPlace(s, &out, t, v) }
	for _, v := range s.eng.liveAt(f, true) {
		x, ok := f.env[v]
		if !ok {
			continue
		}
		list(v.Type(), x)
		p, ok := x.(VPtr)
		if !ok || p.Path != "" || p.Obj == pc.pobj {
			continue
		}
		o := s.get(p.Obj)
		if o == nil {
			continue
		}
		st, ok := under(o.Typ).(*types.Struct)
		if !ok {
			list(o.Typ, o.V)
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			list(st.Field(i).Type(), readPath(o.V, fmt.Sprintf(".%d", i)))
		}
	}
	return out
}

func (pc *parseClient) addPlace(out *[]nodePlace, v Val, t types.Type, set func(Val)) {
	if !types.Implements(t, pc.nodeI) || ntOf(v) != nil || types.Identical(t, pc.identT) {
		return
	}
	switch v.(type) {
	case VIface, VPtr:
		*out = append(*out, nodePlace{v: v, typ: t, set: set})
	}
}

// listPlace adds the last element of a list.
func (pc *parseClient) listPlace(s *State, out *[]nodePlace, t types.Type, v Val) {
	sl, ok := v.(VSlice)
	st, isSlice := under(t).(*types.Slice)
	if !ok || !isSlice || sl.Len <= 0 {
		return
	}
	o := s.get(sl.Obj)
	if o == nil {
		return
	}
	path := fmt.Sprintf(".%d", int(sl.Off)+int(sl.Len)-1)
	set := func(v Val) {
		n := *s.get(sl.Obj)
		n.V = writePath(n.V, path, v)
		s.heap[sl.Obj] = &n
	}
	el := readPath(o.V, path)
	n := len(*out)
	pc.addPlace(out, el, st.Elem(), set)
	for ; n < len(*out); n++ {
		(*out)[n].length = int(sl.Len)
	}
	if nt := ntOf(el); nt != nil && types.IsInterface(st.Elem()) {
		if pc.rename(s, nt, st.Elem(), set) && sl.Len <= 2 {
			pc.renamed = true
		}
	}
}

// rename gives the node of a nonterminal that became an element of a list the
// name of the type of elements.
func (pc *parseClient) rename(s *State, nt *Term, typ types.Type, set func(Val)) bool {
	if strings.HasPrefix(nt.Op, "fresh:"+foldedOp) {
		return false
	}
	t := freshTerm(typ, foldedOp+"|"+typeName(typ))
	s.facts[t] = Fact{Nil: 2}
	var out []Ev
	for _, e := range s.out {
		if e.K == "nt" && e.V[2].(VTerm).T == nt {
			e.V = append([]Val(nil), e.V...)
			e.V[2], e.V[3] = VTerm{t}, litStr("folded "+typeName(typ))
		}
		out = append(out, e)
	}
	s.out = out
	set(VTerm{t})
	return true
}

// tidy forgets the tokens within nonterminals, and of those consumed what they
// are not.
func (pc *parseClient) tidy(s *State) {
	items, err := pc.consumed(s, s.out)
	if err != nil {
		return
	}
	keep := map[string]int{}
	for i, it := range items {
		if it.el != nil {
			keep[s.norm(elemPos(it.el)).key()] = 1
			if i == len(items)-1 {
				keep[s.norm(elemPos(it.el)).key()] = 2
			}
		}
	}
	cur := pc.index(s)
	for d := int64(0); d < 3; d++ {
		keep[s.norm(cur.add(linC(d), 1)).key()] = 2
	}
	for a, f := range s.facts {
		el := pc.tokElem(a)
		if el == nil {
			continue
		}
		switch keep[s.norm(elemPos(el)).key()] {
		case 0:
			delete(s.facts, a)
		case 1:
			if f.Eq == nil {
				delete(s.facts, a)
			} else {
				s.facts[a] = Fact{Eq: f.Eq}
			}
		}
	}
	for a := range s.subst {
		if posTerm(a) {
			continue
		}
		if el := pc.tokElem(a); el != nil && keep[s.norm(elemPos(el)).key()] == 0 {
			delete(s.subst, a)
		}
	}
}

// fold replaces a node that a loop has built so far by a nonterminal, when its
// text is what was consumed last, but for at most one token. It returns
// whether the passes done so far are like others: a variable was replaced, or
// a list has at most two elements or was made shorter.
func (pc *parseClient) fold(s *State, f *Frame) bool {
	same, free := false, false
	pc.renamed = false
	for _, pl := range pc.places(s, f) {
		if !pc.foldPlace(s, pl) {
			continue
		}
		same = same || pl.acc
		free = free || pl.length <= 2
	}
	return pc.collapse(s, f) || same || free || pc.renamed
}

func (pc *parseClient) foldPlace(s *State, pl nodePlace) bool {
	items, err := pc.consumed(s, s.out)
	if err != nil {
		return false
	}
	xs, err := pc.textOf(s, pl.v)
	if err != nil || len(xs) != 1 || xs[0].panic != "" {
		return false
	}
	ts := pc.lex(s, xs[0].text)
	for end := len(items); end >= 1 && end >= len(items)-1; end-- {
		if end < len(items) && items[end].el == nil {
			break
		}
		for n := end; n >= 1; n-- {
			m := &matcher{pc: pc, s: xs[0].st, cs: items[end-n : end], ts: ts, node: xs[0].node}
			if !m.match() {
				continue
			}
			if pc.folded != nil {
				pc.folded(xs[0].node)
			}
			pc.aspect(s, pl.v, items[end-n:end], xs[0].node)
			pc.foldRange(s, pl, items[:end-n], int64(len(items)-end), sepOf(xs[0].text))
			return true
		}
	}
	return false
}

// collapse makes one element of the first two of a list of folded elements
// when there are more: a list is rendered uniformly from the first element on.
func (pc *parseClient) collapse(s *State, f *Frame) bool {
	done := false
	list := func(t types.Type, v Val, set func(Val)) {
		if pc.collapseList(s, t, v, set) {
			done = true
		}
	}
	for _, v := range s.eng.liveAt(f, true) {
		x, ok := f.env[v]
		if !ok {
			continue
		}
		list(v.Type(), x, func(x Val) { f.env[v] = x })
		p, ok := x.(VPtr)
		if !ok || p.Path != "" || p.Obj == pc.pobj {
			continue
		}
		o := s.get(p.Obj)
		if o == nil {
			continue
		}
		st, ok := under(o.Typ).(*types.Struct)
		if !ok {
			list(o.Typ, o.V, func(x Val) { n := *s.get(p.Obj); n.V = x; s.heap[p.Obj] = &n })
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			path := fmt.Sprintf(".%d", i)
			list(st.Field(i).Type(), readPath(o.V, path), func(x Val) {
				n := *s.get(p.Obj)
				n.V = writePath(n.V, path, x)
				s.heap[p.Obj] = &n
			})
		}
	}
	return done
}

func (pc *parseClient) collapseList(s *State, t types.Type, v Val, set func(Val)) bool {
	sl, ok := v.(VSlice)
	if !ok || sl.Len < 3 || !pc.nodeList(t) {
		return false
	}
	o := s.get(sl.Obj)
	if o == nil {
		return false
	}
	var nts [2]*Term
	for i := range nts {
		nts[i] = ntOf(readPath(o.V, fmt.Sprintf(".%d", int(sl.Off)+i)))
		if nts[i] == nil || !strings.HasPrefix(nts[i].Op, "fresh:"+foldedOp) {
			return false
		}
	}
	items, err := pc.consumed(s, s.out)
	if err != nil {
		return false
	}
	for i, it := range items {
		if it.nt != nts[0] {
			continue
		}
		j := i + 1
		if j < len(items) && items[j].el != nil {
			j++
		}
		if j >= len(items) || items[j].nt != nts[1] {
			return false
		}
		t := freshTerm(nts[0].Typ, nts[1].Op[len("fresh:"):])
		if pc.join(s, t, nts[0], nts[1]) {
			a := VAgg{F: []Val{VTerm{t}}}
			for i := 2; i < sl.Len; i++ {
				a.F = append(a.F, readPath(o.V, fmt.Sprintf(".%d", sl.Off+i)))
			}
			set(VSlice{Obj: s.newObj(o.Typ, a), Len: sl.Len - 1})
			return true
		}
		return false
	}
	return false
}

// join makes one nonterminal of two.
func (pc *parseClient) join(s *State, t, a, b *Term) bool {
	var out []Ev
	var from Val
	for _, e := range s.out {
		if e.K == "nt" && e.V[2].(VTerm).T == a {
			from = e.V[0]
			continue
		}
		if e.K == "nt" && e.V[2].(VTerm).T == b {
			if from == nil {
				return false
			}
			e.V = append([]Val(nil), e.V...)
			e.V[0], e.V[2] = from, VTerm{t}
			s.assertQuiet(Atom{K: "ge0", L: e.V[1].(VInt).L.add(from.(VInt).L, -1).add(linC(1), -1)}, true)
		}
		out = append(out, e)
	}
	s.facts[t] = Fact{Nil: 2}
	s.out = out
	pc.tidy(s)
	return true
}

func (pc *parseClient) nodeList(t types.Type) bool {
	sl, ok := under(t).(*types.Slice)
	return ok && types.Implements(sl.Elem(), pc.nodeI)
}

// returnHook folds what an inlined function returned.
func (pc *parseClient) returnHook(s *State) {
	f := s.top()
	if !pc.exact || f.pc == 0 {
		return
	}
	call, ok := f.block.Instrs[f.pc-1].(*ssa.Call)
	if !ok {
		return
	}
	fn := call.Call.StaticCallee()
	if fn == nil || fn.Signature.Recv() == nil || !types.Identical(fn.Signature.Recv().Type(), pc.ptr) {
		return
	}
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		isList, isNode := pc.nodeList(t), types.Implements(t, pc.nodeI)
		if !isList && !isNode || isNode && (pc.open[fn] || pc.mode == "pos" && pc.completed(call, i)) {
			continue
		}
		v := f.env[call]
		set := func(x Val) { f.env[call] = x }
		if rs.Len() > 1 {
			a, ok := v.(VAgg)
			if !ok || i >= len(a.F) {
				return
			}
			v = a.F[i]
			set = func(x Val) {
				g := append([]Val(nil), f.env[call].(VAgg).F...)
				g[i] = x
				f.env[call] = VAgg{g}
			}
		}
		var ps []nodePlace
		if isNode {
			pc.addPlace(&ps, v, t, set)
		} else {
			pc.listPlace(s, &ps, t, v)
		}
		for _, pl := range ps {
			pc.foldPlace(s, pl)
		}
		if isList {
			pc.collapseList(s, t, v, set)
		}
	}
	pc.tidy(s)
}

// posTerm tells whether a term is part of the position of a token.
func posTerm(t *Term) bool {
	return strings.HasPrefix(t.Op, ".From.") || strings.HasPrefix(t.Op, ".To.")
}

// completed tells whether the positions of the node a call returned are set by
// the caller.
func (pc *parseClient) completed(call *ssa.Call, i int) bool {
	vs := []ssa.Value{call}
	for _, r := range *call.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == i {
			vs = append(vs, e)
		}
	}
	for n := 0; n < len(vs); n++ {
		for _, r := range *vs[n].Referrers() {
			switch r := r.(type) {
			case *ssa.FieldAddr:
				for _, st := range *r.Referrers() {
					if st, ok := st.(*ssa.Store); ok && st.Addr == r && types.Identical(st.Val.Type(), pc.posT) {
						return true
					}
				}
			case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.TypeAssert, *ssa.Phi:
				known := false
				for _, v := range vs {
					known = known || v == r.(ssa.Value)
				}
				if !known {
					vs = append(vs, r.(ssa.Value))
				}
			}
		}
	}
	return false
}

// foldRange replaces a node, rendered like everything consumed after the items
// given but for the last tokens, by a nonterminal.
func (pc *parseClient) foldRange(s *State, pl nodePlace, before []tokItem, rest int64, sep string) {
	cur := pc.index(s)
	// where the range starts
	from := s.norm(linT(pc.start))
	keepEv := map[*Term]bool{}
	for _, it := range before {
		if it.nt == nil {
			from = s.norm(from.add(linC(1), 1))
			continue
		}
		keepEv[it.nt] = true
		for _, e := range s.out {
			if e.K == "nt" && e.V[2].(VTerm).T == it.nt {
				from = s.norm(e.V[1].(VInt).L)
			}
		}
	}
	var out []Ev
	for _, e := range s.out {
		switch e.K {
		case "nt":
			if keepEv[e.V[2].(VTerm).T] {
				out = append(out, e)
			}
		case "mutate":
			out = append(out, e)
		}
	}
	keepPos := map[string]bool{}
	for _, it := range before {
		if it.el != nil {
			keepPos[s.norm(elemPos(it.el)).key()] = true
		}
	}
	t := freshTerm(pl.typ, foldedOp+sep+"|"+typeName(pl.typ))
	end := freshTerm(types.Typ[types.Int], "end")
	l := linT(end)             // the end of the range
	to := l.add(linC(rest), 1) // and the position
	last := cur.add(linC(rest), -1)
	s.assertQuiet(Atom{K: "ge0", L: l.add(from, -1).add(linC(1), -1)}, true)
	z := linT(lenTerm(VTerm{pc.tokens}))
	atEnd, known := s.decide(Atom{K: "ge0", L: cur.add(z, -1)})
	if inside, k2 := s.decide(Atom{K: "ge0", L: z.add(cur, -1).add(linC(1), -1)}); k2 && inside {
		s.assertQuiet(Atom{K: "ge0", L: z.add(to, -1).add(linC(1), -1)}, true)
	} else {
		s.assertQuiet(Atom{K: "ge0", L: z.add(to, -1)}, true)
	}
	fresh := map[*Term]bool{}
	renamed := map[*Term]Lin{}
	for d := int64(0); d <= rest; d++ {
		from0, to0 := pc.elem(s.norm(last.add(linC(d), 1))), pc.elem(s.norm(l.add(linC(d), 1)))
		fresh[to0] = true
		if pc.mode == "pos" {
			for _, f := range []string{"From", "To"} {
				a, b := pc.tokPos(s, from0, f), pc.tokPos(s, to0, f)
				for i := range a.F {
					if l := a.F[i].(VInt).L; len(l.T) == 1 && l.C == 0 {
						renamed[l.T[0].T] = b.F[i].(VInt).L
					}
				}
			}
		}
		for _, mk := range []func(*Term) *Term{pc.kindTerm, pc.kwTerm, pc.quoteTerm} {
			a, b := mk(from0), mk(to0)
			if fa, ok := s.facts[a]; ok {
				s.facts[b] = fa
			}
			if c, ok := s.subst[a]; ok && c.isConst() {
				s.subst[b] = c
			}
		}
	}
	for a := range s.facts {
		if el := pc.tokElem(a); el != nil && !keepPos[s.norm(elemPos(el)).key()] && !fresh[el] {
			delete(s.facts, a)
		}
	}
	for a := range s.subst {
		if posTerm(a) {
			continue
		}
		if el := pc.tokElem(a); el != nil && !keepPos[s.norm(elemPos(el)).key()] && !fresh[el] {
			delete(s.subst, a)
		}
	}
	for a, l := range renamed {
		s.subst[a] = l
	}
	if len(renamed) > 0 {
		for a, l := range s.subst {
			if posTerm(a) {
				s.subst[a] = s.norm(l)
			}
		}
	}
	if known && atEnd {
		s.assertQuiet(Atom{K: "eq0", L: to.add(z, -1)}, true)
	}
	s.facts[t] = Fact{Nil: 2}
	s.out = out
	s.emit("nt", VInt{from}, VInt{l}, VTerm{t}, litStr("folded "+typeName(pl.typ)))
	pl.set(VTerm{t})
	pc.setIndex(s, s.norm(to))
}

// exactKey adds what is known of the tokens, named by their place among those
// consumed.
func (pc *parseClient) exactKey(s *State, k *keyer) {
	fmt.Fprintf(&k.b, "~x%d", s.extra)
	var again []string
	for b, n := range s.again {
		again = append(again, fmt.Sprintf("%s.%d.%d", b.Parent().Name(), b.Index, n))
	}
	sort.Strings(again)
	k.b.WriteString(strings.Join(again, ","))
	place := map[string]string{}
	if items, err := pc.consumed(s, s.out); err == nil {
		for i, it := range items {
			if it.el != nil {
				place[s.norm(elemPos(it.el)).key()] = fmt.Sprintf("c%d", i)
			}
		}
	}
	cur := pc.index(s)
	var es, rest []string
	byPos := map[string]string{}
	add := func(t *Term, txt string) {
		el := pc.tokElem(t)
		if el == nil {
			return
		}
		pos := s.norm(elemPos(el))
		pk := pos.key()
		at, ok := place[pk]
		if !ok {
			if d := pos.add(cur, -1); d.isConst() {
				at, ok = fmt.Sprintf("h%d", d.C), true
			}
		}
		e := strings.ReplaceAll(t.key, el.key, "E") + txt
		if ok {
			es = append(es, at+e)
		} else {
			byPos[pk+e] = e
		}
	}
	for t, f := range s.facts {
		if _, ok := s.subst[t]; !ok {
			add(t, f.key())
		}
	}
	for t, l := range s.subst {
		if !posTerm(t) {
			add(t, "="+l.key())
		}
	}
	for x := range byPos {
		rest = append(rest, x)
	}
	sort.Strings(es)
	sort.Strings(rest)
	for _, e := range es {
		k.b.WriteString("~" + e)
	}
	for _, e := range rest {
		k.b.WriteString("~?" + e)
	}
	z := linT(lenTerm(VTerm{pc.tokens}))
	for d := int64(0); d <= 1; d++ {
		v, known := s.decide(Atom{K: "ge0", L: z.add(cur, -1).add(linC(d), -1)})
		fmt.Fprintf(&k.b, "%v%v", v, known)
	}
	v, known := s.decide(Atom{K: "ge0", L: cur.add(z, -1)})
	fmt.Fprintf(&k.b, "%v%v", v, known)
}

// substHook moves what is known of tokens to the names their positions have
// after t was found to equal other terms.
func (pc *parseClient) substHook(s *State, t *Term) {
	if !pc.exact {
		return
	}
	els := map[*Term]bool{}
	look := func(a *Term) {
		if el := pc.tokElem(a); el != nil {
			for _, x := range elemPos(el).T {
				if x.T == t {
					els[el] = true
				}
			}
		}
	}
	for a := range s.facts {
		look(a)
	}
	for a := range s.subst {
		look(a)
	}
	for el := range els {
		pc.moveFacts(s, el, pc.elem(s.norm(elemPos(el))))
	}
}

// moveFacts copies what is known of a token to another name for it.
func (pc *parseClient) moveFacts(s *State, from, to *Term) {
	for _, mk := range []func(*Term) *Term{pc.kindTerm, pc.kwTerm, pc.quoteTerm} {
		a, b := mk(from), mk(to)
		if f, ok := s.facts[a]; ok {
			if _, has := s.facts[b]; !has {
				s.facts[b] = f
			}
		}
		if c, ok := s.subst[a]; ok && c.isConst() {
			if _, has := s.subst[b]; !has {
				s.subst[b] = c
			}
		}
	}
}
