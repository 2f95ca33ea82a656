package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Positions: what Pos and End of a node that was parsed return.

func init() {
	register("C21", "At every success of a parse function, and wherever a node that was built is complete, Pos and End are interpreted on the node: neither panics, Pos is where the first token it was parsed from starts, and End where the last one ends.", checkPositions)
}

// positions compares the positions of a node with those of what was consumed.
func (pc *parseClient) positions(r *ExactResult, s *State, v Val, items []tokItem, node string) {
	if len(items) == 0 || node == "nonterminal" || node == "statements" {
		return
	}
	pc.positionsOf(r, s, v, items, node)
	for _, sub := range pc.subNodes(s, v) {
		xs, err := pc.textOf(s, sub)
		if err != nil || len(xs) != 1 || xs[0].panic != "" {
			continue
		}
		ts := pc.lex(xs[0].st, xs[0].text)
		if len(ts) == 0 {
			continue
		}
		var at [][2]int
		for a := range items {
			for b := max(a+1, a+len(ts)-3); b <= min(len(items), a+len(ts)+3); b++ {
				m := &matcher{pc: pc, s: xs[0].st, cs: items[a:b], ts: ts, node: xs[0].node}
				if m.match() {
					at = append(at, [2]int{a, b})
				}
			}
		}
		if len(at) == 1 {
			pc.positionsOf(r, s, sub, items[at[0][0]:at[0][1]], xs[0].node)
		}
	}
}

// subNodes lists the nodes below a node.
func (pc *parseClient) subNodes(s *State, v Val) []Val {
	var out []Val
	seen := map[int]bool{}
	var walk func(v Val, t types.Type, root bool)
	walk = func(v Val, t types.Type, root bool) {
		switch v := v.(type) {
		case VIface:
			walk(v.V, v.T, root)
		case VPtr:
			o := s.get(v.Obj)
			if o == nil || v.Path != "" || seen[v.Obj] || o.Orig != nil || v.Obj == pc.pobj || ntOf(v) != nil {
				return
			}
			seen[v.Obj] = true
			if !root && types.Implements(types.NewPointer(o.Typ), pc.nodeI) {
				out = append(out, v)
			}
			walk(o.V, o.Typ, false)
		case VSlice:
			o := s.get(v.Obj)
			if o == nil || v.Len <= 0 {
				return
			}
			for i := 0; i < v.Len; i++ {
				walk(readPath(o.V, fmt.Sprintf(".%d", v.Off+i)), nil, false)
			}
		case VAgg:
			for _, f := range v.F {
				walk(f, nil, false)
			}
		}
	}
	walk(v, nil, true)
	return out
}

// positionsOf compares the positions of one node.
func (pc *parseClient) positionsOf(r *ExactResult, s *State, v Val, items []tokItem, node string) {
	note := func(cons, text string, st *State) {
		for _, m := range r.Aspects {
			if m.Node == node && m.Cons == cons && m.Text == text {
				m.N++
				return
			}
		}
		var ex []string
		for _, it := range items {
			ex = append(ex, pc.showItem(s, it))
		}
		r.Aspects = append(r.Aspects, &Mismatch{Cons: cons, Text: text, Node: node, N: 1, Where: pc.p.pos(pc.cur.fn.Pos()), Path: tail(st.trail(), 12), Example: strings.Join(ex, " ")})
	}
	if strings.HasSuffix(node, ".File") {
		// separators belong to the file, not to its statements
		semi := func(it tokItem) bool {
			k, ok := "", false
			if it.el != nil {
				k, ok = pc.kindOf(s, it.el)
			}
			return ok && k == "Semicolon"
		}
		for len(items) > 0 && semi(items[0]) {
			items = items[1:]
		}
		for len(items) > 0 && semi(items[len(items)-1]) {
			items = items[:len(items)-1]
		}
		if len(items) == 0 {
			return
		}
	}
	pc.posItems = items
	defer func() { pc.posItems = nil }()
	s = pc.pin(s, v, map[int]bool{})
	for _, name := range []string{"Pos", "End"} {
		want, field := items[0], "From"
		if name == "End" {
			want, field = items[len(items)-1], "To"
		}
		exp := VAgg{}
		if want.nt != nil {
			exp = callVal(pc.posT, name, VTerm{want.nt}).(VAgg)
		} else {
			exp = pc.tokPos(s, want.el, field)
		}
		xs, panics, err := pc.runMethod(s, v, name)
		if err != nil {
			note(name, err.Error(), s)
			continue
		}
		for _, p := range panics {
			note(name, "panics: "+valString(p.panicV), p)
		}
		for _, x := range xs {
			r.Obligations++
			a, ok := x.v.(VAgg)
			if ok && pc.samePositions(x.st, a, exp) {
				continue
			}
			if n := pc.expand(x.st, want.nt); ok && n != nil {
				// the node of a nonterminal of a known type
				ys, _, err := pc.runMethod(x.st, n, name)
				if err == nil && len(ys) == 1 {
					if b, ok := ys[0].v.(VAgg); ok && pc.samePositions(ys[0].st, a, b) {
						continue
					}
				}
			}
			note(name, pc.showPos(x.st, x.v, items, name), x.st)
		}
	}
}

func (pc *parseClient) samePositions(s *State, a, b VAgg) bool {
	if len(a.F) != len(b.F) {
		return false
	}
	for i := range a.F {
		g, ok := a.F[i].(VInt)
		h, ok2 := b.F[i].(VInt)
		if !ok || !ok2 || !pc.samePos(s, g.L, h.L) {
			return false
		}
	}
	return true
}

// expand is the node of a nonterminal of which the type is known.
func (pc *parseClient) expand(s *State, nt *Term) Val {
	if nt == nil {
		return nil
	}
	if _, ok := under(nt.Typ).(*types.Pointer); ok {
		return VPtr{Obj: s.objOf(nt)}
	}
	if !types.IsInterface(nt.Typ) || s.facts[nt].T == nil {
		return nil
	}
	t := s.facts[nt].T
	if _, ok := under(t).(*types.Pointer); !ok {
		return nil
	}
	return VIface{T: t, V: VPtr{Obj: s.objOf(mkTerm(t, "as:"+typeName(t), VTerm{nt}))}}
}

// showPos describes a position by the tokens consumed.
func (pc *parseClient) showPos(s *State, v Val, items []tokItem, name string) string {
	a, ok := v.(VAgg)
	if !ok {
		return valString(v)
	}
	var out []string
	for _, f := range a.F {
		g, ok := f.(VInt)
		if !ok {
			out = append(out, valString(f))
			continue
		}
		l := s.norm(g.L)
		txt := ""
		for _, x := range l.T {
			part := x.T.String()
			for i, it := range items {
				nm := fmt.Sprintf("item %d", i+1)
				if name == "End" {
					nm = fmt.Sprintf("item %d from the end", len(items)-i)
				}
				if it.el != nil && pc.tokElem(x.T) == it.el {
					part = strings.TrimPrefix(strings.Split(x.T.Op, ".")[1]+" of "+nm, ".")
				}
				if it.nt != nil && len(x.T.Args) > 0 {
					if y, ok := x.T.Args[0].(VTerm); ok && y.T == it.nt {
						part = strings.Split(x.T.Op, ".")[0] + " of " + nm
					}
				}
			}
			if i := strings.Index(part, "#"); i >= 0 {
				part = x.T.Op
			}
			txt += part
		}
		if txt == "" && l.C == 0 {
			txt = "zero"
		} else if l.C != 0 {
			txt += fmt.Sprintf("%+d", l.C)
		}
		if len(out) == 0 || out[len(out)-1] != txt {
			out = append(out, txt)
		}
	}
	return "is " + strings.Join(out, ", ")
}

func (pc *parseClient) samePos(s *State, a, b Lin) bool {
	d := s.norm(a).add(s.norm(b), -1)
	// the end of a token with a known text
	for n := 0; n < 4; n++ {
		again := false
		for _, x := range d.T {
			if to := pc.endOf(s, x.T); to != nil {
				d = d.add(linT(x.T), -x.K).add(*to, x.K)
				again = true
				break
			}
		}
		if !again {
			break
		}
	}
	return d.isConst() && d.C == 0
}

// endOf gives the end of a token with a known text by its start.
func (pc *parseClient) endOf(s *State, t *Term) *Lin {
	if t.Op != ".To.Line" && t.Op != ".To.Col" {
		return nil
	}
	el := pc.tokElem(t)
	if el == nil {
		return nil
	}
	n := 0
	if kw := pc.keyword(s, el); kw != "" {
		n = len(kw)
	} else if k, ok := pc.kindOf(s, el); ok {
		if ts := kindText[k]; len(ts) > 0 {
			n = len(ts[0])
		}
	}
	if n == 0 {
		return nil
	}
	l := linT(mkTerm(t.Typ, strings.Replace(t.Op, ".To", ".From", 1), t.Args...))
	if t.Op == ".To.Col" {
		l = l.add(linC(int64(n)), 1)
	}
	return &l
}

func (pc *parseClient) tokPos(s *State, el *Term, field string) VAgg {
	return symVal(pc.posT, func(t types.Type, sfx string) *Term { return mkTerm(t, "."+field+sfx, VTerm{el}) }, "").(VAgg)
}

type methodExit struct {
	st *State
	v  Val
}

// runMethod interprets a method without parameters on a node.
func (pc *parseClient) runMethod(s *State, v Val, name string) (exits []methodExit, panics []*State, err error) {
	var t types.Type
	recv := v
	switch x := v.(type) {
	case VIface:
		t, recv = x.T, x.V
	case VPtr:
		o := s.get(x.Obj)
		if o == nil || x.Path != "" {
			return nil, nil, fmt.Errorf("the node is not evident")
		}
		t = types.NewPointer(o.Typ)
	default:
		return nil, nil, fmt.Errorf("the node is not evident: %s", valString(v))
	}
	fn := pc.p.method(t, name)
	if fn == nil {
		return nil, nil, fmt.Errorf("there is no method %s on %s", name, typeName(t))
	}
	return pc.runFn(s, fn, recv)
}

func (pc *parseClient) runFn(s *State, fn *ssa.Function, args ...Val) (exits []methodExit, panics []*State, err error) {
	e := pc.nodeEngine()
	e.hooks.Exit = func(s *State, res []Val) { exits = append(exits, methodExit{s, res[0]}) }
	e.hooks.Panic = func(s *State) { panics = append(panics, s) }
	s = s.clone()
	s.out, s.dead, s.frames = nil, false, nil
	s.recs, s.gens = nil, nil
	s.push(fn, args, nil, nil)
	err = e.safeRun(s)
	return
}

// order places a position among those of what was consumed.
func (pc *parseClient) posOrder(s *State, v Val) (int, bool) {
	a, ok := v.(VAgg)
	if !ok || len(a.F) != 2 {
		return 0, false
	}
	at := [2]int{}
	for i, f := range a.F {
		g, ok := f.(VInt)
		if !ok {
			return 0, false
		}
		l := s.norm(g.L)
		if l.isConst() && l.C == 0 {
			at[i] = -1
			continue
		}
		if len(l.T) != 1 || l.C != 0 || l.T[0].K != 1 {
			return 0, false
		}
		t, found := l.T[0].T, false
		for n, it := range pc.posItems {
			switch {
			case it.el != nil && pc.tokElem(t) == it.el && strings.HasPrefix(t.Op, ".From."):
				at[i], found = 2*n, true
			case it.el != nil && pc.tokElem(t) == it.el && strings.HasPrefix(t.Op, ".To."):
				at[i], found = 2*n+1, true
			case it.nt != nil && len(t.Args) > 0 && valKey(t.Args[0]) == valKey(VTerm{it.nt}) && strings.HasPrefix(t.Op, "Pos"):
				at[i], found = 2*n, true
			case it.nt != nil && len(t.Args) > 0 && valKey(t.Args[0]) == valKey(VTerm{it.nt}) && strings.HasPrefix(t.Op, "End"):
				at[i], found = 2*n+1, true
			}
		}
		if !found {
			return 0, false
		}
	}
	return at[0], at[0] == at[1]
}

// comparePos decides the comparison of two positions of what was consumed:
// that ComparePos orders them by line and column is an obligation of its own.
func (pc *parseClient) comparePos(s *State, c *Call) bool {
	x, ok := pc.posOrder(s, c.Args[0])
	y, ok2 := pc.posOrder(s, c.Args[1])
	if !ok || !ok2 || x != y && x/2 != y/2 && (x%2 == 1 && y == x+1 || y%2 == 1 && x == y+1) {
		return false // one may end where the other starts
	}
	n := int64(0)
	if x < y {
		n = -1
	} else if x > y {
		n = 1
	}
	s.ret(c, VInt{linC(n)})
	return true
}

// comparisons checks that ComparePos orders by line, then by column.
func (pc *parseClient) comparisons(r *Report) {
	f := pc.p.sqltoken.Func("ComparePos")
	if f == nil {
		return
	}
	for _, cs := range []struct {
		line, col int64 // the differences of x and y
		want      int64
	}{{0, 0, 0}, {0, 1, 1}, {0, -1, -1}, {1, 0, 1}, {1, 1, 1}, {1, -1, 1}, {-1, 0, -1}, {-1, 1, -1}, {-1, -1, -1}} {
		s := pc.e.newState()
		arg := func(n string) VAgg {
			return symVal(pc.posT, func(t types.Type, sfx string) *Term { return mkTerm(t, n+sfx) }, "").(VAgg)
		}
		x, y := arg("x"), arg("y")
		for i, d := range []int64{cs.line, cs.col} {
			l := x.F[i].(VInt).L.add(y.F[i].(VInt).L, -1)
			switch {
			case d == 0:
				s.assertQuiet(Atom{K: "eq0", L: l}, true)
			case d > 0:
				s.assertQuiet(Atom{K: "ge0", L: l.add(linC(1), -1)}, true)
			default:
				s.assertQuiet(Atom{K: "ge0", L: l.scale(-1).add(linC(1), -1)}, true)
			}
		}
		xs, panics, err := pc.runFn(s, f, x, y)
		r.Counts["comparisons of positions"]++
		bad := err != nil || len(panics) > 0 || len(xs) == 0
		for _, e := range xs {
			if n, ok := e.st.constInt(e.v); !ok || n != cs.want {
				bad = true
			}
		}
		if bad {
			r.find(Finding{Rule: "a position is wrong", At: fmt.Sprintf("ComparePos: a difference of %d lines and %d columns", cs.line, cs.col), Where: pc.p.pos(f.Pos()),
				Detail: fmt.Sprintf("the result is not always %d", cs.want)})
		}
	}
}

func checkPositions(c *Context, r *Report) {
	res, err := c.again("pos", nil)
	if err != nil {
		r.undecided("%v", err)
		return
	}
	r.Minimum["parse functions"] = 28
	r.Minimum["positions"] = 5000
	c.ef.pc.comparisons(r)
	for _, n := range sortedKeys(res) {
		x := res[n]
		for _, m := range x.Mutated {
			if c.ef.pc.keys[m] == nil {
				r.undecided("%s: positions are stored into %s after it was complete", n, m)
			}
		}
		if x.Undecided != "" {
			r.undecided("%s: %s", n, x.Undecided)
		}
		r.Counts["parse functions"]++
		r.Counts["positions"] += x.Obligations
		for _, m := range x.Aspects {
			r.find(Finding{Rule: "a position is wrong", At: fmt.Sprintf("%s.%s: %s", m.Node, m.Cons, m.Text), Where: m.Where, Path: m.Path,
				Detail: fmt.Sprintf("parsed by %s, for %s (%d paths)", n, m.Example, m.N)})
		}
	}
}
