package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The parser client. A parse function is interpreted with a symbolic token
// sequence; calls of other parse functions are cut: such a call either fails,
// or consumes at least one token and returns some node (a nonterminal).
//
// White space and comment tokens are left out of the symbolic sequence: that
// the token-level helpers skip them is a property of its own (C25).

type parseClient struct {
	p        *Program
	base     *Engine
	ptr      types.Type // *Parser
	st       *types.Struct
	tokPath  string
	tokT     types.Type // []*Token
	idxPath  string
	havoc    map[string]bool // paths of other fields stored to while parsing
	wordT    types.Type      // *SQLWord
	kindT    types.Type
	posT     types.Type
	mode     string
	posItems []tokItem
	aspect   func(s *State, v Val, items []tokItem, node string)
	kinds    map[string]int64 // names of token kinds
	kindNm   map[int64]string
	nodeI    *types.Interface
	identT   types.Type
	errT     types.Type
	methods  []*ssa.Function
	graph    map[*ssa.Function]map[*ssa.Function]bool
	noCut    map[*ssa.Function]bool // inlined although eligible

	tokens *Term
	start  *Term

	keys  map[string]*cutKey
	order []*cutKey

	// settings of the current run
	exact    bool
	folded   func(node string)
	renamed  bool
	open     map[*ssa.Function]bool // inlined functions of which callers change the results
	seps     map[string]string
	lenient  bool // quoted words are taken for keywords
	budget   int  // repetitions of loops followed on one path, beyond the first of each
	cur      *cutKey
	pobj     int
	e        *Engine
	onExit   func(k *cutKey, s *State, res []Val)
	onPanic  func(k *cutKey, s *State)
	onLoop   func(k *cutKey, s *State, what string)
	onCall   func(k *cutKey, s *State, callee *cutKey, at ssa.Instruction, progressed bool)
	tokOf    map[*Term]*Term
	heads    int
	mutated  map[*ssa.Function]string
	renderer *Engine
}

// cutKey is a parse function together with the constant arguments it is
// called with.
type cutKey struct {
	fn     *ssa.Function
	args   []Val
	name   string
	out    int                    // outcomes it has been found to have
	panics map[string]*panicValue // the panics that leave it, by class
	site   string
}

func newParseClient(c *Context) (*parseClient, error) {
	p := c.p
	pc := &parseClient{p: p, base: c.base, keys: map[string]*cutKey{}, havoc: map[string]bool{}, kinds: map[string]int64{}, kindNm: map[int64]string{},
		noCut: map[*ssa.Function]bool{}, tokOf: map[*Term]*Term{}, mutated: map[*ssa.Function]string{}}
	pn, ok := p.parser.Pkg.Scope().Lookup("Parser").(*types.TypeName)
	if !ok {
		return nil, fmt.Errorf("type Parser not found")
	}
	pc.ptr = types.NewPointer(pn.Type())
	pc.st, ok = under(pn.Type()).(*types.Struct)
	if !ok {
		return nil, fmt.Errorf("Parser is no struct")
	}
	look := func(pk *ssa.Package, n string) (types.Type, error) {
		o := pk.Pkg.Scope().Lookup(n)
		if o == nil {
			return nil, fmt.Errorf("%s.%s not found", pk.Pkg.Path(), n)
		}
		return o.Type(), nil
	}
	tokT, err := look(p.sqltoken, "Token")
	if err != nil {
		return nil, err
	}
	wt, err := look(p.sqltoken, "SQLWord")
	if err != nil {
		return nil, err
	}
	pc.wordT = types.NewPointer(wt)
	if pc.kindT, err = look(p.sqltoken, "Kind"); err != nil {
		return nil, err
	}
	if pc.posT, err = look(p.sqltoken, "Pos"); err != nil {
		return nil, err
	}
	sc := p.sqltoken.Pkg.Scope()
	for _, n := range sc.Names() {
		if k, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(k.Type(), pc.kindT) {
			v, _ := constant.Int64Val(constant.ToInt(k.Val()))
			pc.kinds[n] = v
			pc.kindNm[v] = n
		}
	}
	for _, n := range []string{"SQLKeyword", "Number", "SingleQuotedString", "NationalStringLiteral", "Whitespace", "Comment", "Semicolon"} {
		if _, ok := pc.kinds[n]; !ok {
			return nil, fmt.Errorf("token kind %s not found", n)
		}
	}
	if _, pc.nodeI, err = p.iface(p.sqlast, "Node"); err != nil {
		return nil, err
	}
	if id, ok := p.sqlast.Pkg.Scope().Lookup("Ident").(*types.TypeName); ok {
		pc.identT = types.NewPointer(id.Type())
	} else {
		return nil, fmt.Errorf("the type of identifiers was not found")
	}
	pc.errT = types.Universe.Lookup("error").Type()
	pc.tokT = types.NewSlice(types.NewPointer(tokT))

	// the fields of the parser
	var ints []string
	var walk func(st *types.Struct, path string)
	walk = func(st *types.Struct, path string) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			fp := path + fmt.Sprintf(".%d", i)
			switch {
			case types.Identical(f.Type(), pc.tokT):
				pc.tokPath = fp
			case isInt(f.Type()):
				ints = append(ints, fp)
			default:
				if in, ok := under(f.Type()).(*types.Struct); ok {
					walk(in, fp)
				}
			}
		}
	}
	walk(pc.st, "")
	if pc.tokPath == "" || len(ints) == 0 {
		return nil, fmt.Errorf("the parser has no token sequence or no position field")
	}
	for _, fn := range p.allFuncs() {
		if r := fn.Signature.Recv(); r != nil && types.Identical(r.Type(), pc.ptr) && fn.Synthetic == "" {
			pc.methods = append(pc.methods, fn)
		}
	}
	pc.callGraph()
	pc.findIndex(ints)
	if pc.idxPath == "" {
		return nil, fmt.Errorf("the position field of the parser is not evident")
	}
	pc.tokens = mkTerm(pc.tokT, "tokens")
	pc.start = mkTerm(types.Typ[types.Int], "start")
	p.inMapHook = pc.inMap
	return pc, nil
}

// callGraph records static calls and references between analysed functions.
func (pc *parseClient) callGraph() {
	pc.graph = map[*ssa.Function]map[*ssa.Function]bool{}
	for _, fn := range pc.p.allFuncs() {
		m := map[*ssa.Function]bool{}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && g.Blocks != nil && pc.p.analysed(g) {
						m[g] = true
					}
				}
			}
		}
		pc.graph[fn] = m
	}
}

func (pc *parseClient) reach(from []*ssa.Function, stop func(*ssa.Function) bool) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		for g := range pc.graph[f] {
			if seen[g] || stop != nil && stop(g) {
				continue
			}
			seen[g] = true
			visit(g)
		}
	}
	for _, f := range from {
		visit(f)
	}
	return seen
}

// roots are the exported entry points of the parser.
func (pc *parseClient) roots() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range pc.methods {
		if !token.IsExported(fn.Name()) || fn.Signature.Params().Len() > 0 {
			continue
		}
		r := fn.Signature.Results()
		if r.Len() == 2 && types.Identical(r.At(1).Type(), pc.errT) {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// fieldPath resolves a chain of field selections that starts at the parser.
func (pc *parseClient) fieldPath(v ssa.Value) (string, bool) {
	path := ""
	for {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			break
		}
		path = fmt.Sprintf(".%d", fa.Field) + path
		v = fa.X
	}
	if path == "" || !types.Identical(v.Type(), pc.ptr) {
		return "", false
	}
	return path, true
}

// findIndex decides which integer field is the position in the token sequence:
// the one whose value selects tokens. Fields other than it that the parse
// functions store to are unknown when a parse function starts.
func (pc *parseClient) findIndex(ints []string) {
	rs := pc.roots()
	fns := pc.reach(rs, nil)
	for _, r := range rs {
		fns[r] = true
	}
	stored := map[string]bool{}
	for fn := range fns {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					if path, ok := pc.fieldPath(st.Addr); ok {
						stored[path] = true
					}
				}
			}
		}
	}
	var cand []string
	for _, f := range ints {
		if stored[f] {
			cand = append(cand, f)
		}
	}
	if len(cand) > 1 {
		// the one loaded and used as an index of the tokens
		score := map[string]int{}
		for fn := range fns {
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					ia, ok := i.(*ssa.IndexAddr)
					if !ok || !types.Identical(ia.X.Type(), pc.tokT) {
						continue
					}
					var from func(v ssa.Value, d int)
					from = func(v ssa.Value, d int) {
						if d > 4 {
							return
						}
						switch v := v.(type) {
						case *ssa.UnOp:
							if path, ok := pc.fieldPath(v.X); ok {
								score[path]++
							}
						case *ssa.BinOp:
							from(v.X, d+1)
							from(v.Y, d+1)
						case *ssa.Convert:
							from(v.X, d+1)
						case *ssa.Phi:
							for _, e := range v.Edges {
								from(e, d+1)
							}
						}
					}
					from(ia.Index, 0)
				}
			}
		}
		best := ""
		for _, f := range cand {
			if best == "" || score[f] > score[best] {
				best = f
			}
		}
		cand = []string{best}
	}
	if len(cand) == 1 {
		pc.idxPath = cand[0]
	}
	for f := range stored {
		if f != pc.idxPath && f != pc.tokPath {
			pc.havoc[f] = true
		}
	}
}

// nodeResult reports whether fn returns a node and an error.
func (pc *parseClient) nodeResult(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	return r.Len() == 2 && types.Identical(r.At(1).Type(), pc.errT) && types.Implements(r.At(0).Type(), pc.nodeI)
}

func (pc *parseClient) eligible(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	if r == nil || !types.Identical(r.Type(), pc.ptr) || fn.Synthetic != "" || !pc.nodeResult(fn) {
		return false
	}
	ps := fn.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		if _, ok := under(ps.At(i).Type()).(*types.Basic); !ok {
			return false
		}
	}
	return true
}

// cut reports whether calls of fn are summarised.
func (pc *parseClient) cut(fn *ssa.Function) bool {
	return pc.eligible(fn) && !pc.noCut[fn]
}

// loose reports whether fn would be part of a recursion without any cut if it
// were inlined.
func (pc *parseClient) loose(fn *ssa.Function) bool {
	stop := func(g *ssa.Function) bool { return g != fn && pc.cut(g) }
	return pc.reach([]*ssa.Function{fn}, stop)[fn]
}

func (pc *parseClient) key(fn *ssa.Function, args []Val) *cutKey {
	n := fn.Name()
	if len(args) > 0 {
		var as []string
		for _, a := range args {
			as = append(as, valString(a))
		}
		n += "(" + strings.Join(as, ",") + ")"
	}
	if k, ok := pc.keys[n]; ok {
		return k
	}
	k := &cutKey{fn: fn, args: args, name: n, panics: map[string]*panicValue{}}
	pc.keys[n] = k
	pc.order = append(pc.order, k)
	return k
}

// ---- terms ----

// tokElem is the token a term speaks of, if any.
func (pc *parseClient) tokElem(t *Term) *Term {
	if r, ok := pc.tokOf[t]; ok {
		return r
	}
	var r *Term
	if t.Op == "elem" && len(t.Args) == 2 {
		if l, ok := t.Args[0].(VTerm); ok && l.T == pc.tokens {
			r = t
		}
	}
	if r == nil {
		for _, a := range t.Args {
			if x := pc.tokElemVal(a); x != nil {
				r = x
				break
			}
		}
	}
	pc.tokOf[t] = r
	return r
}

func (pc *parseClient) tokElemVal(v Val) *Term {
	switch v := v.(type) {
	case VTerm:
		return pc.tokElem(v.T)
	case VStr:
		for _, p := range v.P {
			if p.T != nil {
				if x := pc.tokElem(p.T); x != nil {
					return x
				}
			}
		}
	case VBytes:
		return pc.tokElemVal(VStr{v.P})
	case VInt:
		for _, t := range v.L.T {
			if x := pc.tokElem(t.T); x != nil {
				return x
			}
		}
	case VIface:
		return pc.tokElemVal(v.V)
	case VAgg:
		for _, f := range v.F {
			if x := pc.tokElemVal(f); x != nil {
				return x
			}
		}
	}
	return nil
}

func (pc *parseClient) elem(pos Lin) *Term {
	return mkTerm(under(pc.tokT).(*types.Slice).Elem(), "elem", VTerm{pc.tokens}, VInt{pos})
}
func elemPos(t *Term) Lin { return t.Args[1].(VInt).L }

func (pc *parseClient) kindTerm(el *Term) *Term { return mkTerm(pc.kindT, ".Kind", VTerm{el}) }

func (pc *parseClient) wordTerm(el *Term) *Term {
	v := mkTerm(types.NewInterfaceType(nil, nil), ".Value", VTerm{el})
	if t, ok := pc.fieldOf(el.Typ, "Value"); ok {
		v = mkTerm(t, ".Value", VTerm{el})
	}
	return mkTerm(pc.wordT, "as:"+typeName(pc.wordT), VTerm{v})
}

func (pc *parseClient) fieldOf(ptr types.Type, name string) (types.Type, bool) {
	pt, ok := under(ptr).(*types.Pointer)
	if !ok {
		return nil, false
	}
	st, ok := under(pt.Elem()).(*types.Struct)
	if !ok {
		return nil, false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type(), true
		}
	}
	return nil, false
}

// kwTerm is the upper-case text of a word token.
func (pc *parseClient) kwTerm(el *Term) *Term {
	return mkTerm(types.Typ[types.String], ".Keyword", VTerm{pc.wordTerm(el)})
}
func (pc *parseClient) quoteTerm(el *Term) *Term {
	t, _ := pc.fieldOf(pc.wordT, "QuoteStyle")
	if t == nil {
		t = types.Typ[types.Rune]
	}
	return mkTerm(t, ".QuoteStyle", VTerm{pc.wordTerm(el)})
}

// isWordField recognises field f of the word of a token.
func (pc *parseClient) isWordField(t *Term, f string) *Term {
	if t == nil || t.Op != "."+f || len(t.Args) != 1 {
		return nil
	}
	w, ok := t.Args[0].(VTerm)
	if !ok || w.T.Op != "as:"+typeName(pc.wordT) {
		return nil
	}
	return pc.tokElem(w.T)
}

func isNT(t *Term) bool { return strings.HasPrefix(t.Op, "fresh:nt:") }

// ntOf strips type assertions from a nonterminal.
func ntOf(v Val) *Term {
	for {
		if iv, ok := v.(VIface); ok {
			v = iv.V
			continue
		}
		t, ok := v.(VTerm)
		if !ok {
			return nil
		}
		if isNT(t.T) {
			return t.T
		}
		if strings.HasPrefix(t.T.Op, "as:") && len(t.T.Args) == 1 {
			v = t.T.Args[0]
			continue
		}
		return nil
	}
}

// ---- hooks ----

func (pc *parseClient) decideHook(s *State, a Atom) (val, known bool) {
	switch a.K {
	case "nil":
		if a.T == pc.tokens {
			return false, true
		}
		if a.T.Op == "elem" && pc.tokElem(a.T) == a.T {
			return false, true
		}
		if a.T.Op == ".Value" && pc.tokElem(a.T) != nil {
			return false, true // a token has a value
		}
		if strings.HasPrefix(a.T.Op, "as:") && ntOf(VTerm{a.T}) != nil {
			return false, true // no node is a nil pointer in an interface
		}
		if a.T.Op == "as:"+typeName(pc.wordT) && pc.tokElem(a.T) != nil {
			return false, true
		}
	case "eq0":
		l := s.norm(a.L)
		if len(l.T) == 1 && l.C*l.T[0].K >= 0 && pc.aPosition(l.T[0].T) {
			return false, true // lines and columns are counted from one
		}
		if len(l.T) == 1 && (l.T[0].K == 1 || l.T[0].K == -1) && l.T[0].T.Op == ".Kind" && pc.tokElem(l.T[0].T) != nil {
			c := -l.C * l.T[0].K
			if c == pc.kinds["Whitespace"] || c == pc.kinds["Comment"] {
				return false, true
			}
		}
	case "streq":
		if a.T.Op == ".Keyword" && a.S != strings.ToUpper(a.S) {
			return false, true
		}
	}
	return false, false
}

// aPosition tells whether a term is a line or a column of a token or a node.
func (pc *parseClient) aPosition(t *Term) bool {
	switch t.Op {
	case ".From.Line", ".From.Col", ".To.Line", ".To.Col":
		return pc.tokElem(t) != nil
	case "Pos.Line", "Pos.Col", "End.Line", "End.Col":
		return len(t.Args) == 1 && ntOf(t.Args[0]) != nil
	}
	return false
}

func (pc *parseClient) typeAssertHook(s *State, i *ssa.TypeAssert, x Val) (Val, Val, bool) {
	t, ok := x.(VTerm)
	if !ok || t.T.Op != ".Value" || len(t.T.Args) != 1 {
		return nil, nil, false
	}
	et, ok := t.T.Args[0].(VTerm)
	if !ok || pc.tokElem(et.T) != et.T {
		return nil, nil, false
	}
	isWord := func() bool {
		return s.must(Atom{K: "eq0", L: linT(pc.kindTerm(et.T)).add(linC(pc.kinds["SQLKeyword"]), -1)})
	}
	switch {
	case types.Identical(i.AssertedType, pc.wordT):
		if !isWord() {
			return nil, VBool{false}, true
		}
		return VTerm{pc.wordTerm(et.T)}, VBool{true}, true
	case isString(i.AssertedType):
		if isWord() {
			return nil, VBool{false}, true
		}
		return VStr{[]Piece{{T: mkTerm(types.Typ[types.String], "as:string", x)}}}, VBool{true}, true
	}
	return nil, VBool{false}, true
}

// inMap decides membership of a keyword in a set of words as one condition.
func (pc *parseClient) inMap(s *State, mc *mapContent, k Val) (in, known bool) {
	vs, ok := k.(VStr)
	if !ok || len(vs.P) != 1 || vs.P[0].T == nil || pc.isWordField(vs.P[0].T, "Keyword") == nil || !allLit(mc) {
		return false, false
	}
	t := vs.P[0].T
	var words []string
	for _, key := range mc.Keys {
		w, _ := strLit(mc.KeyV[key])
		words = append(words, w)
	}
	sort.Strings(words)
	set := map[string]bool{}
	for _, w := range words {
		set[w] = true
	}
	f := s.facts[t]
	if f.Eq != nil {
		return set[*f.Eq], true
	}
	m := mkTerm(types.Typ[types.Bool], "inset", VTerm{t}, litStr(strings.Join(words, ",")))
	left := 0
	ex := map[string]bool{}
	for _, n := range f.Neq {
		ex[n] = true
	}
	for _, w := range words {
		if !ex[w] {
			left++
		}
	}
	if left == 0 {
		return false, true
	}
	return s.must(Atom{K: "true", T: m}), true
}

// reconcile keeps set membership and equality of a keyword consistent.
func (pc *parseClient) assertHook(s *State, a Atom, val bool) (feasible, handled bool) {
	if a.K == "streq" && val && a.T.Op == ".Keyword" {
		for t, f := range s.facts {
			if t.Op == "inset" && f.B != 0 && t.Args[0].(VTerm).T == a.T {
				w, _ := strLit(t.Args[1])
				in := false
				for _, x := range strings.Split(w, ",") {
					if x == a.S {
						in = true
					}
				}
				if in != (f.B == 2) {
					return false, true
				}
			}
		}
	}
	return true, false
}

func (pc *parseClient) index(s *State) Lin {
	o := s.get(pc.pobj)
	if v, ok := readPath(o.V, pc.idxPath).(VInt); ok {
		return s.norm(v.L)
	}
	panic(undecided{"the parser's position is not an integer at " + s.where()})
}

func (pc *parseClient) setIndex(s *State, l Lin) {
	n := *s.get(pc.pobj)
	n.V = writePath(n.V, pc.idxPath, VInt{l})
	s.heap[pc.pobj] = &n
}

// argVal stands for any argument.
func argVal(pt types.Type, i int) Val {
	return symVal(pt, func(t types.Type, sfx string) *Term {
		return mkTerm(t, fmt.Sprintf("arg%d", i)+sfx)
	}, "")
}

func (pc *parseClient) callHook(s *State, c *Call) bool {
	if c.Fn == nil {
		if c.Method != nil && c.Recv != nil {
			if nt := ntOf(c.Recv); nt != nil && (c.Method.Name() == "Pos" || c.Method.Name() == "End") {
				s.ret(c, callVal(c.Res.At(0).Type(), c.Method.Name(), VTerm{nt}))
				return true
			}
		}
		return false
	}
	switch c.Fn.String() {
	case "strings.EqualFold":
		for i := 0; i < 2; i++ {
			lit, ok := strLit(c.Args[1-i])
			v, ok2 := c.Args[i].(VStr)
			if ok && ok2 && len(v.P) == 1 && v.P[0].T != nil {
				el := pc.isWordField(v.P[0].T, "Value")
				if el == nil {
					el = pc.isWordField(v.P[0].T, "Keyword")
				}
				if el != nil {
					s.ret(c, VBool{s.must(Atom{K: "streq", T: pc.kwTerm(el), S: strings.ToUpper(lit)})})
					return true
				}
			}
		}
		return false
	case "strings.ToUpper":
		if v, ok := c.Args[0].(VStr); ok && len(v.P) == 1 && v.P[0].T != nil {
			if el := pc.isWordField(v.P[0].T, "Value"); el != nil {
				s.ret(c, VStr{[]Piece{{T: pc.kwTerm(el)}}})
				return true
			}
			if pc.isWordField(v.P[0].T, "Keyword") != nil {
				s.ret(c, c.Args[0])
				return true
			}
		}
		return false
	}
	if r := c.Fn.Signature.Recv(); r != nil && types.Identical(r.Type(), pc.wordT) && c.Fn.Name() == "String" {
		if t, ok := c.Args[0].(VTerm); ok && pc.tokElem(t.T) != nil && t.T.Op == "as:"+typeName(pc.wordT) {
			s.ret(c, VStr{[]Piece{{T: mkTerm(types.Typ[types.String], "wordtext", VTerm{pc.tokElem(t.T)})}}})
			return true
		}
	}
	if !pc.cut(c.Fn) || len(s.frames) == 0 {
		return false
	}
	pv, ok := c.Args[0].(VPtr)
	if !ok || pv.Obj != pc.pobj {
		return false
	}
	var args []Val
	for i, a := range c.Args[1:] {
		pt := c.Fn.Signature.Params().At(i).Type()
		switch x := a.(type) {
		case VInt:
			if n, ok := s.constInt(x); ok {
				args = append(args, VInt{linC(n)})
				continue
			}
		case VBool:
			args = append(args, a)
			continue
		case VStr:
			if _, ok := strLit(x); ok {
				args = append(args, a)
				continue
			}
		case VTerm:
			if isBool(x.T.Typ) {
				args = append(args, VBool{s.truth(a)})
				continue
			}
		}
		// any value
		args = append(args, argVal(pt, i))
	}
	k := pc.key(c.Fn, args)
	if k.site == "" {
		k.site = s.where()
	}
	at := pc.index(s)
	if pc.onCall != nil {
		ge, known := s.decide(Atom{K: "ge0", L: at.add(linT(pc.start), -1).add(linC(1), -1)})
		pc.onCall(pc.cur, s, k, c.Inst, known && ge)
	}
	res := c.Fn.Signature.Results().At(0).Type()
	succeed := func(what string, node bool, min int64) alt {
		return alt{k.name + what, func(n *State) bool {
			end := freshTerm(types.Typ[types.Int], "end")
			l := linT(end)
			if !n.assertQuiet(Atom{K: "ge0", L: l.add(at, -1).add(linC(min), -1)}, true) {
				return false
			}
			if !n.assertQuiet(Atom{K: "ge0", L: linT(lenTerm(VTerm{pc.tokens})).add(l, -1)}, true) {
				return false
			}
			pc.setIndex(n, n.norm(l))
			if !node {
				if pc.exact {
					n.emit("none", VInt{at}, VInt{l}, litStr(k.name))
				}
				n.ret(c, zeroVal(res), VNil{})
				return true
			}
			t := freshTerm(res, "nt:"+k.name)
			n.facts[t] = Fact{Nil: 2}
			if pc.exact {
				n.emit("nt", VInt{at}, VInt{l}, VTerm{t}, litStr(k.name))
			}
			n.ret(c, VTerm{t}, VNil{})
			return true
		}}
	}
	alts := []alt{succeed(" succeeds", true, 1)}
	if k.out&outStill != 0 {
		alts[0] = succeed(" succeeds", true, 0)
	}
	if k.out&outNilStill != 0 {
		alts = append(alts, succeed(" returns nothing", false, 0))
	} else if k.out&outNilMoved != 0 {
		alts = append(alts, succeed(" returns nothing", false, 1))
	}
	alts = append(alts, []alt{
		{k.name + " fails", func(n *State) bool {
			end := freshTerm(types.Typ[types.Int], "errend")
			l := linT(end)
			if !n.assertQuiet(Atom{K: "ge0", L: l}, true) || !n.assertQuiet(Atom{K: "ge0", L: linT(lenTerm(VTerm{pc.tokens})).add(l, -1)}, true) {
				return false
			}
			pc.setIndex(n, l)
			if pc.exact {
				n.emit("failed", VInt{at}, litStr(k.name))
			}
			n.ret(c, zeroVal(res), n.newError(k.name))
			return true
		}},
	}...)
	var ps []string
	for n := range k.panics {
		ps = append(ps, n)
	}
	sort.Strings(ps)
	for _, n := range ps {
		v := k.panics[n]
		alts = append(alts, alt{k.name + " panics", func(n *State) bool {
			end := freshTerm(types.Typ[types.Int], "errend")
			l := linT(end)
			if !n.assertQuiet(Atom{K: "ge0", L: l}, true) {
				return false
			}
			pc.setIndex(n, l)
			for _, t := range v.nonNil {
				n.facts[t] = Fact{Nil: 2}
			}
			n.startPanic(v.v)
			return true
		}})
	}
	panic(forkReq{alts})
}

func (pc *parseClient) headHook(s *State) bool {
	f := s.top()
	finite := strings.HasPrefix(f.block.Comment, "rangeindex") || strings.HasPrefix(f.block.Comment, "rangeiter")
	// progress since the previous pass
	cur := pc.index(s)
	var ints []Val
	for _, i := range f.block.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if v, ok := f.env[phi].(VInt); ok {
			ints = append(ints, VInt{s.norm(v.L)})
		} else {
			ints = append(ints, VNil{})
		}
	}
	visits := int64(0)
	if pc.exact {
		return finite || pc.exactHead(s, f)
	}
	if mark, again := f.marks[f.block.Index]; again && f.block.Dominates(f.prev) {
		visits, _ = s.constInt(mark[1])
		ok := finite
		if v, known := s.decide(Atom{K: "ge0", L: cur.add(mark[0].(VInt).L, -1).add(linC(1), -1)}); known && v {
			ok = true
		}
		if !ok {
			// a counter that moves by a constant towards a fixed limit
			for j := range ints {
				a, oka := ints[j].(VInt)
				b, okb := mark[2+j].(VInt)
				if oka && okb {
					if d := s.norm(a.L.add(b.L, -1)); d.isConst() && d.C != 0 {
						ok = true
					}
				}
			}
		}
		if !ok && pc.onLoop != nil {
			pc.onLoop(pc.cur, s, f.fn.Name())
			return false
		}
	}
	nv := int64(1)
	if visits > 0 {
		cur = pc.rebase(s, cur)
	}
	if f.marks == nil {
		f.marks = map[int][]Val{}
	}
	f.marks[f.block.Index] = append([]Val{VInt{cur}, VInt{linC(nv)}}, ints...)
	pc.forget(s, f)
	return true
}

// exactHead bounds the passes of a loop: a pass after which more is to be told
// apart than before is followed once, or twice if what it consumed is folded,
// and beyond that as often as the budget of the path allows.
func (pc *parseClient) exactHead(s *State, f *Frame) bool {
	visits, size := int64(0), int64(0)
	pc.tidy(s)
	if mark, again := f.marks[f.block.Index]; again && f.block.Dominates(f.prev) {
		visits, _ = s.constInt(mark[0])
		size, _ = s.constInt(mark[1])
		if visits > 0 {
			if s.passes++; s.passes > 60 {
				pc.e.bounded[fnName(f.fn)]++
				return false
			}
			folded := pc.fold(s, f)
			n, err := pc.consumed(s, s.out)
			grown := err != nil || int64(len(n)) > size || !folded
			if grown {
				most := 1
				if folded {
					most = 2
				}
				if s.again[f.block] >= most || pc.budget < 0 && folded {
					if s.extra >= pc.budget {
						pc.e.bounded[fnName(f.fn)]++
						return false
					}
					s.extra++
				} else {
					m := map[*ssa.BasicBlock]int{}
					for b, n := range s.again {
						m[b] = n
					}
					m[f.block]++
					s.again = m
				}
			}
		}
	}
	n, err := pc.consumed(s, s.out)
	if err == nil {
		size = int64(len(n))
	}
	if f.marks == nil {
		f.marks = map[int][]Val{}
	}
	f.marks[f.block.Index] = []Val{VInt{linC(1)}, VInt{linC(size)}}
	return true
}

// bases are the positions a path still refers to, apart from the current one.
func (pc *parseClient) bases(s *State) []Lin {
	var out []Lin
	for _, f := range s.frames {
		for _, b := range f.fn.Blocks {
			if m, ok := f.marks[b.Index]; ok && s.eng.reaches(f.block, b) {
				out = append(out, s.norm(m[0].(VInt).L))
			}
		}
	}
	return append(out, pc.liveInts(s)...)
}

func (pc *parseClient) liveInts(s *State) []Lin {
	var out []Lin
	for i, f := range s.frames {
		for _, v := range s.eng.liveAt(f, i == len(s.frames)-1 || s.frames[i+1].isDeferred) {
			if x, ok := f.env[v].(VInt); ok && len(x.L.T) > 0 {
				out = append(out, s.norm(x.L))
			}
		}
	}
	return out
}

// rebase replaces the position by an unknown one of which the same is known:
// where it lies, and what the tokens next to it are.
func (pc *parseClient) rebase(s *State, cur Lin) Lin {
	h := freshTerm(types.Typ[types.Int], "here")
	l := linT(h)
	z := linT(lenTerm(VTerm{pc.tokens}))
	for d := int64(2); d >= 0; d-- {
		if v, known := s.decide(Atom{K: "ge0", L: z.add(cur, -1).add(linC(d), -1)}); known && v {
			s.assertQuiet(Atom{K: "ge0", L: z.add(l, -1).add(linC(d), -1)}, true)
			break
		}
	}
	for _, b := range append(pc.bases(s), linT(pc.start), Lin{}) {
		for d := int64(1); d >= -2; d-- {
			if v, known := s.decide(Atom{K: "ge0", L: cur.add(b, -1).add(linC(d), -1)}); known && v {
				s.assertQuiet(Atom{K: "ge0", L: l.add(b, -1).add(linC(d), -1)}, true)
				break
			}
		}
		for d := int64(2); d >= 0; d-- {
			if v, known := s.decide(Atom{K: "ge0", L: b.add(cur, -1).add(linC(d), -1)}); known && v {
				s.assertQuiet(Atom{K: "ge0", L: b.add(l, -1).add(linC(d), -1)}, true)
				break
			}
		}
	}
	if v, known := s.decide(Atom{K: "ge0", L: cur.add(z, -1)}); known && v {
		s.assertQuiet(Atom{K: "ge0", L: l.add(z, -1)}, true)
	}
	for d := int64(-1); d <= 0; d++ {
		from, to := pc.elem(cur.add(linC(d), 1)), pc.elem(s.norm(l.add(linC(d), 1)))
		for _, mk := range []func(*Term) *Term{pc.kindTerm, pc.kwTerm, pc.quoteTerm} {
			a, b := mk(from), mk(to)
			if d < 0 && a.Op != ".Kind" {
				continue
			}
			if f, ok := s.facts[a]; ok {
				s.facts[b] = f
			}
			if c, ok := s.subst[a]; ok && c.isConst() {
				s.subst[b] = c
			}
		}
	}
	pc.setIndex(s, s.norm(l))
	s.project(nil, 1)
	return s.norm(l)
}

// forget replaces the nodes and lists a loop has built so far by unknown ones.
func (pc *parseClient) forget(s *State, f *Frame) {
	live := s.eng.liveAt(f, true)
	for _, v := range live {
		x, ok := f.env[v]
		if !ok {
			continue
		}
		if _, isNilV := x.(VNil); isNilV {
			continue
		}
		t := v.Type()
		isNode := types.Implements(t, pc.nodeI)
		if sl, ok := under(t).(*types.Slice); ok && !isByteSlice(t) && !types.Identical(t, pc.tokT) {
			isNode = isNode || types.Implements(sl.Elem(), pc.nodeI)
		}
		if !isNode {
			continue
		}
		if _, isAlloc := v.(*ssa.Alloc); isAlloc {
			continue
		}
		switch x.(type) {
		case VPtr, VIface, VSlice, VTerm:
			if tt, ok := x.(VTerm); ok {
				if isNil, known := s.decide(Atom{K: "nil", T: tt.T}); !known || isNil {
					continue
				}
			}
			n := freshTerm(t, "node")
			s.facts[n] = Fact{Nil: 2}
			f.env[v] = VTerm{n}
		}
	}
	// lists kept in objects made here
	for id, o := range s.heap {
		if o.V == nil || o.Site == nil {
			continue
		}
		if v, changed := pc.forgetIn(s, o.Typ, o.V); changed {
			n := *o
			n.V = v
			s.heap[id] = &n
		}
	}
}

func (pc *parseClient) forgetIn(s *State, t types.Type, v Val) (Val, bool) {
	switch u := under(t).(type) {
	case *types.Slice:
		if sl, ok := v.(VSlice); ok && types.Implements(u.Elem(), pc.nodeI) && sl.Len > 0 {
			n := freshTerm(t, "nodes")
			s.facts[n] = Fact{Nil: 2}
			return VTerm{n}, true
		}
	case *types.Struct:
		a, ok := v.(VAgg)
		if !ok {
			return v, false
		}
		f := append([]Val(nil), a.F...)
		any := false
		for i := range f {
			if i < u.NumFields() {
				if x, ch := pc.forgetIn(s, u.Field(i).Type(), f[i]); ch {
					f[i] = x
					any = true
				}
			}
		}
		return VAgg{f}, any
	}
	return v, false
}

// storeHook notes stores into nodes that a summarised call has returned.
func (pc *parseClient) storeHook(s *State, i ssa.Instruction, p Val, v Val) bool {
	if vp, ok := p.(VPtr); ok {
		if o := s.get(vp.Obj); o != nil && o.Orig != nil {
			if nt := ntOf(VTerm{o.Orig}); nt != nil {
				old := readPath(o.V, vp.Path)
				st, isStore := i.(*ssa.Store)
				if isStore && types.Identical(st.Val.Type(), pc.posT) && pc.mode != "pos" {
					return true // source positions are not part of the text
				}
				if pc.exact && valKey(old) != valKey(v) {
					s.emit("mutate", VTerm{nt})
				}
			}
		}
	}
	return false
}

// extraKey adds what is known of the tokens to the key of a state.
func (pc *parseClient) extraKey(s *State, k *keyer) {
	if pc.exact {
		pc.exactKey(s, k)
		return
	}
	type ent struct {
		d   int64
		txt string
	}
	// bases: the position, and other integers in use
	bases := append([]Lin{pc.index(s)}, pc.liveInts(s)...)
	var es []ent
	add := func(t *Term, txt string) {
		el := pc.tokElem(t)
		if el == nil {
			return
		}
		pos := s.norm(elemPos(el))
		for bi, b := range bases {
			if d := pos.add(b, -1); d.isConst() {
				es = append(es, ent{d.C, fmt.Sprintf("%d|%s%s", bi, strings.ReplaceAll(t.key, el.key, "E"), txt)})
				return
			}
		}
	}
	for t, f := range s.facts {
		if pc.tokElem(t) != nil {
			add(t, f.key())
		}
	}
	for t, l := range s.subst {
		if pc.tokElem(t) != nil {
			add(t, "="+l.key())
		}
	}
	sort.Slice(es, func(i, j int) bool {
		if es[i].d != es[j].d {
			return es[i].d < es[j].d
		}
		return es[i].txt < es[j].txt
	})
	for _, e := range es {
		fmt.Fprintf(&k.b, "~%d:%s", e.d, e.txt)
	}
	// how positions relate to the end of the tokens and to the start
	bases = append(bases[:1], pc.bases(s)...)
	for i, b := range bases {
		k.b.WriteString("~@")
		k.lin(b)
		rem := linT(lenTerm(VTerm{pc.tokens})).add(b, -1)
		for d := int64(0); d <= 3; d++ {
			v, known := s.decide(Atom{K: "ge0", L: rem.add(linC(d), -1)})
			fmt.Fprintf(&k.b, "%v%v", v, known)
			if i > 0 {
				break
			}
		}
		for d := int64(0); d <= 1; d++ {
			v, known := s.decide(Atom{K: "ge0", L: b.add(linT(pc.start), -1).add(linC(d), -1)})
			fmt.Fprintf(&k.b, "%v%v", v, known)
		}
	}
}

// ---- running ----

func (pc *parseClient) engine() *Engine {
	e := newEngine(pc.p)
	e.base, e.baseMax, e.objSeq, e.globals = pc.base.base, pc.base.baseMax, pc.base.objSeq, pc.base.globals
	e.hooks.Decide = pc.decideHook
	e.hooks.Assert = pc.assertHook
	e.hooks.Call = pc.callHook
	e.hooks.TypeAssert = pc.typeAssertHook
	e.hooks.Head = pc.headHook
	e.hooks.ExtraKey = pc.extraKey
	e.hooks.Subst = pc.substHook
	e.hooks.Returned = pc.returnHook
	e.hooks.Store = pc.storeHook
	e.projectDiffs = true
	e.lenFirst = true
	e.keepTerms = []*Term{pc.start, lenTerm(VTerm{pc.tokens})}
	return e
}

// run interprets one parse function.
func (pc *parseClient) run(k *cutKey) error {
	pc.cur = k
	s := pc.e.newState()
	v := zeroVal(pc.ptr.Underlying().(*types.Pointer).Elem())
	v = writePath(v, pc.tokPath, VTerm{pc.tokens})
	v = writePath(v, pc.idxPath, VInt{linT(pc.start)})
	for f := range pc.havoc {
		t := pc.typeAt(f)
		v = writePath(v, f, symVal(t, func(t types.Type, sfx string) *Term { return mkTerm(t, "parser"+f+sfx) }, ""))
	}
	pc.pobj = s.newObj(under(pc.ptr).(*types.Pointer).Elem(), v)
	s.assertQuiet(Atom{K: "ge0", L: linT(pc.start)}, true)
	s.assertQuiet(Atom{K: "ge0", L: linT(lenTerm(VTerm{pc.tokens})).add(linT(pc.start), -1)}, true)
	pc.e.hooks.Exit = func(s *State, res []Val) { pc.onExit(k, s, res) }
	pc.e.hooks.Panic = func(s *State) { pc.onPanic(k, s) }
	s.push(k.fn, append([]Val{VPtr{Obj: pc.pobj}}, k.args...), nil, nil)
	return pc.e.safeRun(s)
}

func (pc *parseClient) typeAt(path string) types.Type {
	var t types.Type = under(pc.ptr).(*types.Pointer).Elem()
	for path != "" {
		var i int
		i, path = splitPath(path)
		t = under(t).(*types.Struct).Field(i).Type()
	}
	return t
}
