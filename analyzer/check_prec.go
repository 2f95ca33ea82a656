package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Grouping of operators. Every parse function that returns an expression or a
// query body is interpreted; from the nodes it builds and the places where it
// stops, three facts are derived for it, as fixpoints over the calls between
// them: which operators may stand on the left spine of its result, which
// operators cannot follow where it stops, and by which function each operand was
// parsed. Together they determine how operators group, whatever the length.

func init() {
	register("C04", "Wherever a node of an operator is built, its right operand was parsed by a function whose result has only tighter operators on its left spine and which stops only where no tighter operator follows; functions that parse whole expressions and query bodies stop only where no operator follows.", checkGrouping)
}

// opClass is an operator, or several that are treated alike.
type opClass struct {
	name  string
	level int
	kinds []string // token kinds it is written as
	words []string // or words
	set   bool     // combines queries
}

// opClasses is the reference: a greater level binds tighter.
var opClasses = []opClass{
	{name: "OR", level: 1, words: []string{"OR"}},
	{name: "AND", level: 2, words: []string{"AND"}},
	{name: "prefix NOT", level: 3},
	{name: "IS NULL", level: 4, words: []string{"IS"}},
	{name: "=", level: 5, kinds: []string{"Eq"}},
	{name: "<>", level: 5, kinds: []string{"Neq"}},
	{name: "<", level: 5, kinds: []string{"Lt"}},
	{name: "<=", level: 5, kinds: []string{"LtEq"}},
	{name: ">", level: 5, kinds: []string{"Gt"}},
	{name: ">=", level: 5, kinds: []string{"GtEq"}},
	{name: "LIKE", level: 5, words: []string{"LIKE"}},
	{name: "NOT LIKE", level: 5, words: []string{"NOT", "LIKE"}},
	{name: "IN", level: 5, words: []string{"IN"}},
	{name: "NOT IN", level: 5, words: []string{"NOT", "IN"}},
	{name: "BETWEEN", level: 5, words: []string{"BETWEEN"}},
	{name: "NOT BETWEEN", level: 5, words: []string{"NOT", "BETWEEN"}},
	{name: "+", level: 6, kinds: []string{"Plus"}},
	{name: "-", level: 6, kinds: []string{"Minus"}},
	{name: "*", level: 7, kinds: []string{"Mult"}},
	{name: "/", level: 7, kinds: []string{"Div"}},
	{name: "%", level: 7, kinds: []string{"Mod"}},
	{name: "::", level: 8, kinds: []string{"DoubleColon"}},
	{name: "UNION", level: 1, words: []string{"UNION"}, set: true},
	{name: "EXCEPT", level: 1, words: []string{"EXCEPT"}, set: true},
	{name: "INTERSECT", level: 2, words: []string{"INTERSECT"}, set: true},
}

var opConsts = map[string]string{"Plus": "+", "Minus": "-", "Multiply": "*", "Divide": "/", "Modulus": "%", "Gt": ">", "Lt": "<", "GtEq": ">=", "LtEq": "<=",
	"Eq": "=", "NotEq": "<>", "And": "AND", "Or": "OR", "Not": "prefix NOT", "Like": "LIKE", "NotLike": "NOT LIKE"}

func opByName(n string) *opClass {
	for i := range opClasses {
		if opClasses[i].name == n {
			return &opClasses[i]
		}
	}
	return nil
}

// precKey is what is known of one parse function with its arguments.
type precKey struct {
	k     *cutKey
	left  map[string]bool   // operators on the left spine
	pass  map[string]bool   // keys whose result it returns, or starts its result with
	next  map[string]string // operators that may follow where it stops
	ends  map[string]bool   // keys that it ends with, without looking further
	exits int
}

type precUse struct {
	op    string
	role  string
	key   string // of the operand
	where *cutKey
}

type precClient struct {
	*parseClient
	c       *Context
	r       *Report
	known   map[string]*precKey
	uses    map[string]precUse
	whole   map[string]*cutKey // keys that parse whole operands, and where
	opNames map[int64]string
	built   map[string]int
}

func checkGrouping(c *Context, r *Report) {
	pf, err := c.parseFacts()
	if err != nil {
		r.undecided("%v", err)
		return
	}
	pc := pf.pc
	g := &precClient{parseClient: pc, c: c, r: r, known: map[string]*precKey{}, uses: map[string]precUse{}, whole: map[string]*cutKey{}, opNames: map[int64]string{}, built: map[string]int{}}
	sc := c.p.sqlast.Pkg.Scope()
	for n, cl := range opConsts {
		k, ok := sc.Lookup(n).(*types.Const)
		if !ok {
			r.undecided("the operator %s is not known to the package of the trees", n)
			return
		}
		v, _ := constant.Int64Val(constant.ToInt(k.Val()))
		g.opNames[v] = cl
	}
	var setI types.Type
	if o := sc.Lookup("SQLSetExpr"); o != nil {
		setI = o.Type()
	}
	nodeT := sc.Lookup("Node").Type()
	pc.noCut, pc.open = map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, m := range pc.methods {
		pc.open[m] = true // only lists are folded
	}
	for _, k := range pf.keys {
		t := k.fn.Signature.Results().At(0).Type()
		if types.Identical(t, nodeT) || setI != nil && types.Identical(t, setI) || g.holdsBody(t) {
			g.analyse(k)
		}
	}
	// propagate through functions that return what another one returned
	for changed := true; changed; {
		changed = false
		for _, n := range sortedKeys(g.known) {
			x := g.known[n]
			for p := range x.pass {
				if y := g.known[p]; y != nil {
					for o := range y.left {
						if !x.left[o] {
							x.left[o], changed = true, true
						}
					}
				}
			}
			for p := range x.ends {
				if y := g.known[p]; y != nil {
					for o, w := range y.next {
						if _, ok := x.next[o]; !ok {
							x.next[o], changed = w, true
						}
					}
				}
			}
		}
	}
	for _, id := range sortedKeys(g.uses) {
		u := g.uses[id]
		r.Counts["operands"]++
		o, y := opByName(u.op), g.known[u.key]
		at := fmt.Sprintf("%s of %s, parsed by %s", u.role, u.op, strings.TrimSuffix(u.key, "()"))
		where := pc.p.pos(u.where.fn.Pos())
		if y == nil {
			r.undecided("%s: what it parses is not known", at)
			continue
		}
		for _, l := range sortedKeys(y.left) {
			r.Counts["orderings"]++
			if b := opByName(l); b.set == o.set && b.level <= o.level {
				r.find(Finding{Rule: "an operand takes an operator that does not bind tighter", At: u.role + " of " + u.op + " takes " + l, Where: where,
					Detail: fmt.Sprintf("the %s may start with an operand of %s, which does not bind tighter than %s (%s)", u.role, l, u.op, at)})
			}
		}
		for _, l := range sortedKeys(y.next) {
			r.Counts["orderings"]++
			if b := opByName(l); b.set == o.set && b.level > o.level {
				r.find(Finding{Rule: "an operand ends in front of an operator that binds tighter", At: u.role + " of " + u.op + " leaves " + l, Where: where,
					Detail: fmt.Sprintf("the %s may end where %s follows, which binds tighter than %s (%s): %s", u.role, l, u.op, at, y.next[l])})
			}
		}
	}
	for _, n := range sortedKeys(g.whole) {
		y := g.known[n]
		if y == nil || len(y.left) == 0 {
			continue
		}
		r.Counts["whole expressions"]++
		for _, l := range sortedKeys(y.next) {
			// of the kind of operators it takes itself
			same := false
			for o := range y.left {
				same = same || opByName(o).set == opByName(l).set
			}
			if same {
				r.find(Finding{Rule: "an expression ends in front of an operator", At: strings.TrimSuffix(n, "()") + " leaves " + l, Where: pc.p.pos(y.k.fn.Pos()),
					Detail: fmt.Sprintf("used by %s: %s", fnName(g.whole[n].fn), y.next[l])})
			}
		}
	}
	for _, n := range sortedKeys(g.known) {
		x := g.known[n]
		if len(x.left) > 0 {
			r.sample(fmt.Sprintf("%s: takes %s; may stop in front of %s", n, strings.Join(sortedKeys(x.left), " "), strings.Join(sortedKeys(x.next), " ")))
		}
	}
	for _, o := range opClasses {
		if g.built[o.name] == 0 {
			r.undecided("no parse function was found to build %s", o.name)
		}
		r.Counts["operators"]++
	}
	r.Counts["functions"] = len(g.known)
	r.Minimum["operands"] = 20
	r.Minimum["whole expressions"] = 2
	r.Minimum["functions"] = 5
}

// holdsBody tells whether a node has a field for a query body.
func (g *precClient) holdsBody(t types.Type) bool {
	pt, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	st, ok := under(pt.Elem()).(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if n, ok := st.Field(i).Type().(*types.Named); ok && n.Obj().Name() == "SQLSetExpr" {
			return true
		}
	}
	return false
}

// analyse interprets one function and notes what it builds and where it stops.
func (g *precClient) analyse(k *cutKey) {
	pc := g.parseClient
	x := &precKey{k: k, left: map[string]bool{}, pass: map[string]bool{}, next: map[string]string{}, ends: map[string]bool{}}
	g.known[k.name] = x
	pc.exact, pc.mode = true, "prec"
	pc.e = pc.engine()
	pc.e.projectDiffs = false
	pc.e.maxStates = 1000000
	if g.c.tier == "thorough" {
		pc.e.maxStates = 4000000
	}
	most := int64(1)
	if g.c.tier == "thorough" {
		most = 2
	}
	pc.e.hooks.Head = func(s *State) bool {
		f := s.top()
		n := int64(0)
		if mark, again := f.marks[f.block.Index]; again && f.block.Dominates(f.prev) {
			n, _ = s.constInt(mark[0])
			n++
		}
		if n > most {
			return false
		}
		if f.marks == nil {
			f.marks = map[int][]Val{}
		}
		f.marks[f.block.Index] = []Val{VInt{linC(n)}, VInt{linC(0)}}
		return true
	}
	pc.onLoop, pc.onCall = nil, nil
	pc.aspect = func(*State, Val, []tokItem, string) {}
	pc.folded = func(string) {}
	pc.onPanic = func(*cutKey, *State) {}
	pc.onExit = func(k *cutKey, s *State, res []Val) {
		if len(res) != 2 {
			return
		}
		if n, known := isNilVal(s, res[1]); known && !n {
			return
		}
		if n, known := isNilVal(s, res[0]); known && n {
			return
		}
		x.exits++
		g.r.Counts["paths"]++
		items, err := pc.consumed(s, s.out)
		if err != nil {
			g.r.undecided("%s: %v", k.name, err)
			return
		}
		g.spine(s, res[0], x, items)
		g.operands(s, res[0], k, items)
		g.stop(s, res[0], x, items)
	}
	if err := pc.run(k); err != nil {
		g.r.undecided("%s: %v", k.name, err)
	}
	g.r.Counts["states"] += pc.e.states
	if os.Getenv("SQLVET_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "%s: %d states, %d exits\n", k.name, pc.e.states, x.exits)
	}
}

// fieldVal reads a field of a node by name.
func fieldVal(s *State, v Val, name string) (Val, bool) {
	if iv, ok := v.(VIface); ok {
		v = iv.V
	}
	p, ok := v.(VPtr)
	if !ok || p.Path != "" {
		return nil, false
	}
	o := s.get(p.Obj)
	if o == nil {
		return nil, false
	}
	st, ok := under(o.Typ).(*types.Struct)
	if !ok {
		return nil, false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return readPath(o.V, fmt.Sprintf(".%d", i)), true
		}
	}
	return nil, false
}

func (g *precClient) nodeName(s *State, v Val) string {
	if iv, ok := v.(VIface); ok {
		v = iv.V
	}
	p, ok := v.(VPtr)
	if !ok || p.Path != "" || ntOf(v) != nil {
		return ""
	}
	o := s.get(p.Obj)
	if o == nil || o.Orig != nil {
		return ""
	}
	if n, ok := o.Typ.(*types.Named); ok && n.Obj().Pkg() == g.p.sqlast.Pkg {
		return n.Obj().Name()
	}
	return ""
}

// operator gives the class of an operator node, its left operand, and those
// to the right of the operator.
func (g *precClient) operator(s *State, v Val, items []tokItem) (class string, left Val, right map[string]Val) {
	get := func(n string) Val {
		x, _ := fieldVal(s, v, n)
		return x
	}
	neg := func(n string) string {
		if b, ok := get("Negated").(VBool); ok && b.B {
			return "NOT " + n
		} else if ok {
			return n
		}
		if t, ok := get("Negated").(VTerm); ok && s.truth(t) {
			return "NOT " + n
		}
		return n
	}
	opType := func() string {
		t, ok := fieldVal(s, get("Op"), "Type")
		if !ok {
			return ""
		}
		n, ok := s.constInt(t)
		if !ok {
			return ""
		}
		return g.opNames[n]
	}
	switch g.nodeName(s, v) {
	case "BinaryExpr":
		return opType(), get("Left"), map[string]Val{"right operand": get("Right")}
	case "UnaryExpr":
		return opType(), nil, map[string]Val{"operand": get("Expr")}
	case "Between":
		return neg("BETWEEN"), get("Expr"), map[string]Val{"lower bound": get("Low"), "upper bound": get("High")}
	case "InList", "InSubQuery":
		return neg("IN"), get("Expr"), nil
	case "IsNull", "IsNotNull":
		return "IS NULL", get("X"), nil
	case "Cast":
		for _, it := range items {
			if it.el != nil {
				if pc := g.parseClient; pc.keyword(s, it.el) == "CAST" {
					return "", nil, nil
				}
			}
		}
		return "::", get("Expr"), nil
	case "SetOperationExpr":
		cl := ""
		switch op := get("Op"); g.nodeName(s, op) {
		case "UnionOperator":
			cl = "UNION"
		case "ExceptOperator":
			cl = "EXCEPT"
		case "IntersectOperator":
			cl = "INTERSECT"
		}
		return cl, get("Left"), map[string]Val{"right operand": get("Right")}
	}
	return "", nil, nil
}

// spine notes the operators on the left spine of a result.
func (g *precClient) spine(s *State, v Val, x *precKey, items []tokItem) {
	for n := 0; n < 50; n++ {
		if nt := ntOf(v); nt != nil {
			x.pass[ntName(nt)] = true
			return
		}
		cl, left, _ := g.operator(s, v, items)
		if cl == "" || left == nil {
			return
		}
		x.left[cl] = true
		v = left
	}
}

// operands notes how the operands of all operators in a result were parsed.
func (g *precClient) operands(s *State, v Val, k *cutKey, items []tokItem) {
	nodes := append([]Val{v}, g.subNodes(s, v)...)
	for _, n := range nodes {
		name := g.nodeName(s, n)
		cl, _, right := g.operator(s, n, items)
		if cl == "" {
			switch name {
			case "BinaryExpr", "UnaryExpr", "SetOperationExpr", "Between":
				g.r.undecided("%s builds a %s of which the operator is not known", k.name, name)
			}
		} else {
			g.built[cl]++
		}
		if cl == "" {
			// parts of anything else are whole expressions
			g.parts(s, n, k)
			continue
		}
		for role, o := range right {
			if o == nil {
				continue
			}
			if nt := ntOf(o); nt != nil {
				u := precUse{cl, role, ntName(nt), k}
				g.uses[cl+"|"+role+"|"+u.key] = u
				continue
			}
			// an operand built on the spot
			lv := opByName(cl)
			for v, i := o, 0; i < 50; i++ {
				c2, left, _ := g.operator(s, v, items)
				if c2 == "" || left == nil {
					break
				}
				if b := opByName(c2); b.set == lv.set && b.level <= lv.level {
					g.r.find(Finding{Rule: "an operand takes an operator that does not bind tighter", At: role + " of " + cl + " takes " + c2, Where: g.p.pos(k.fn.Pos()),
						Detail: "built by " + k.name, Path: tail(s.trail(), 20)})
				}
				v = left
			}
		}
	}
}

// parts notes which functions parsed the parts of a node that is no operator.
func (g *precClient) parts(s *State, v Val, k *cutKey) {
	if iv, ok := v.(VIface); ok {
		v = iv.V
	}
	p, ok := v.(VPtr)
	if !ok || p.Path != "" || ntOf(v) != nil {
		return
	}
	o := s.get(p.Obj)
	if o == nil || o.Orig != nil {
		return
	}
	if a, ok := o.V.(VAgg); ok {
		for _, f := range a.F {
			if nt := ntOf(f); nt != nil {
				if _, ok := g.whole[ntName(nt)]; !ok {
					g.whole[ntName(nt)] = k
				}
			}
		}
	}
}

// stop notes which operators may follow where the function stops.
func (g *precClient) stop(s *State, v Val, x *precKey, items []tokItem) {
	pc := g.parseClient
	at := pc.index(s)
	// it ends with what another function parsed, and has not looked further:
	// that function decides
	if len(items) > 0 && items[len(items)-1].nt != nil {
		if !g.looked(s, at) {
			x.ends[ntName(items[len(items)-1].nt)] = true
			return
		}
	}
	for i := range opClasses {
		o := &opClasses[i]
		if len(o.kinds)+len(o.words) == 0 {
			continue
		}
		if _, ok := x.next[o.name]; ok {
			continue
		}
		n := s.clone()
		ok := true
		must := func(a Atom) { ok = ok && n.assertQuiet(a, true) }
		need := len(o.words) + len(o.kinds)
		must(Atom{K: "ge0", L: linT(lenTerm(VTerm{pc.tokens})).add(at, -1).add(linC(int64(need)), -1)})
		for j, w := range o.words {
			el := pc.elem(n.norm(at.add(linC(int64(j)), 1)))
			must(Atom{K: "eq0", L: linT(pc.kindTerm(el)).add(linC(pc.kinds["SQLKeyword"]), -1)})
			if ok {
				ok = quoteFeasible(n, pc.quoteTerm(el))
			}
			if ok {
				if f := n.facts[pc.kwTerm(el)]; f.Eq != nil && *f.Eq != w {
					ok = false
				}
			}
			must(Atom{K: "streq", T: pc.kwTerm(el), S: w})
		}
		for _, kd := range o.kinds {
			el := pc.elem(n.norm(at))
			must(Atom{K: "eq0", L: linT(pc.kindTerm(el)).add(linC(pc.kinds[kd]), -1)})
		}
		if ok {
			x.next[o.name] = strings.Join(tail(s.trail(), 4), "; ")
		}
	}
}

func quoteFeasible(n *State, q *Term) bool {
	return n.assertQuiet(Atom{K: "eq0", L: linT(q)}, true)
}

// looked tells whether anything is known of the token at a position.
func (g *precClient) looked(s *State, at Lin) bool {
	pc := g.parseClient
	at = s.norm(at)
	same := func(t *Term) bool {
		el := pc.tokElem(t)
		if el == nil {
			return false
		}
		d := s.norm(elemPos(el)).add(at, -1)
		return d.isConst() && d.C == 0
	}
	for t := range s.facts {
		if same(t) {
			return true
		}
	}
	for t := range s.subst {
		if same(t) {
			return true
		}
	}
	// the end of the input was reached
	if v, known := s.decide(Atom{K: "ge0", L: at.add(linT(lenTerm(VTerm{pc.tokens})), -1)}); known && v {
		return true
	}
	return false
}
