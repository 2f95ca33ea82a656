package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loop acceleration: when two consecutive iterations of a loop do the same up
// to integers that grow linearly, the state after any number n of iterations
// is the generalisation of the two.

type genLoop struct {
	outLen int  // events before the power, power included
	g      []Ev // one iteration, with idx for the iteration number
	idx    *Term
	n      *Term
	st     *State // the generalised state
}

func freshCount(what string) *Term {
	t := freshTerm(types.Typ[types.Int], "count")
	_ = what
	t.Op = "fresh:count"
	return t
}

// substTerms replaces terms by integers inside v.
func substVal(v Val, m map[*Term]Lin) Val {
	switch v := v.(type) {
	case VInt:
		return VInt{substLin(v.L, m)}
	case VStr:
		return VStr{substPieces(v.P, m)}
	case VBytes:
		return VBytes{substPieces(v.P, m)}
	case VAgg:
		f := make([]Val, len(v.F))
		for i := range f {
			f[i] = substVal(v.F[i], m)
		}
		return VAgg{f}
	case VIface:
		return VIface{v.T, substVal(v.V, m)}
	case VTerm:
		return VTerm{substTerm(v.T, m)}
	case VElem:
		return VElem{substVal(v.L, m), substVal(v.I, m)}
	case VFunc:
		if len(v.Bind) == 0 {
			return v
		}
		b := make([]Val, len(v.Bind))
		for i := range b {
			b[i] = substVal(v.Bind[i], m)
		}
		return VFunc{v.Fn, b}
	}
	return v
}

func substLin(l Lin, m map[*Term]Lin) Lin {
	r := Lin{C: l.C}
	for _, t := range l.T {
		if x, ok := m[t.T]; ok {
			r = r.add(x, t.K)
		} else {
			r = r.add(linT(substTerm(t.T, m)), t.K)
		}
	}
	return r
}

func substPieces(ps []Piece, m map[*Term]Lin) []Piece {
	out := make([]Piece, len(ps))
	for i, p := range ps {
		out[i] = p
		if p.T != nil {
			out[i].T = substTerm(p.T, m)
		}
	}
	return out
}

func substTerm(t *Term, m map[*Term]Lin) *Term {
	if len(t.Args) == 0 {
		return t
	}
	changed := false
	args := make([]Val, len(t.Args))
	for i, a := range t.Args {
		args[i] = substVal(a, m)
		if !changed && valKey(args[i]) != valKey(a) {
			changed = true
		}
	}
	if !changed {
		return t
	}
	return mkTerm(t.Typ, t.Op, args...)
}

func substEv(e Ev, m map[*Term]Lin) Ev {
	n := e
	n.V = make([]Val, len(e.V))
	for i := range e.V {
		n.V[i] = substVal(e.V[i], m)
	}
	if e.Sub != nil {
		n.Sub = nil
		for _, x := range e.Sub {
			n.Sub = append(n.Sub, substEv(x, m))
		}
		n.N = substLin(e.N, m)
	}
	return n
}

// anti generalises a and b to a value that is a for j=0 and b for j=1.
func anti(a, b Val, j *Term) (Val, bool) {
	switch x := a.(type) {
	case VInt:
		y, ok := b.(VInt)
		if !ok {
			return nil, false
		}
		l, ok := antiLin(x.L, y.L, j)
		return VInt{l}, ok
	case VStr:
		y, ok := b.(VStr)
		if !ok {
			return nil, false
		}
		p, ok := antiPieces(x.P, y.P, j)
		return VStr{p}, ok
	case VBytes:
		y, ok := b.(VBytes)
		if !ok {
			return nil, false
		}
		p, ok := antiPieces(x.P, y.P, j)
		return VBytes{p}, ok
	case VAgg:
		y, ok := b.(VAgg)
		if !ok || len(x.F) != len(y.F) {
			return nil, false
		}
		f := make([]Val, len(x.F))
		for i := range f {
			if f[i], ok = anti(x.F[i], y.F[i], j); !ok {
				return nil, false
			}
		}
		return VAgg{f}, true
	case VIface:
		y, ok := b.(VIface)
		if !ok || !types.Identical(x.T, y.T) {
			return nil, false
		}
		v, ok := anti(x.V, y.V, j)
		return VIface{x.T, v}, ok
	case VTerm:
		y, ok := b.(VTerm)
		if !ok {
			return nil, false
		}
		t, ok := antiTerm(x.T, y.T, j)
		return VTerm{t}, ok
	case VElem:
		y, ok := b.(VElem)
		if !ok {
			return nil, false
		}
		l, ok1 := anti(x.L, y.L, j)
		i, ok2 := anti(x.I, y.I, j)
		return VElem{l, i}, ok1 && ok2
	}
	return a, valKey(a) == valKey(b)
}

func antiLin(a, b Lin, j *Term) (Lin, bool) {
	if d := b.add(a, -1); d.isConst() {
		if d.C == 0 {
			return a, true
		}
		return a.add(linT(j), d.C), true
	}
	if len(a.T) != len(b.T) {
		return Lin{}, false
	}
	r := Lin{C: a.C}.add(linT(j), b.C-a.C)
	for i := range a.T {
		if a.T[i].K != b.T[i].K {
			return Lin{}, false
		}
		t, ok := antiTerm(a.T[i].T, b.T[i].T, j)
		if !ok {
			return Lin{}, false
		}
		r = r.add(linT(t), a.T[i].K)
	}
	return r, true
}

func antiPieces(a, b []Piece, j *Term) ([]Piece, bool) {
	if len(a) != len(b) {
		return nil, false
	}
	out := make([]Piece, len(a))
	for i := range a {
		if (a[i].T == nil) != (b[i].T == nil) || a[i].Lit != b[i].Lit {
			return nil, false
		}
		out[i] = a[i]
		if a[i].T != nil {
			t, ok := antiTerm(a[i].T, b[i].T, j)
			if !ok {
				return nil, false
			}
			out[i].T = t
		}
	}
	return out, true
}

func antiTerm(a, b *Term, j *Term) (*Term, bool) {
	if a == b {
		return a, true
	}
	if a.fresh() || b.fresh() || a.Op != b.Op || len(a.Args) != len(b.Args) {
		return nil, false
	}
	args := make([]Val, len(a.Args))
	for i := range args {
		v, ok := anti(a.Args[i], b.Args[i], j)
		if !ok {
			return nil, false
		}
		args[i] = v
	}
	return mkTerm(a.Typ, a.Op, args...), true
}

func antiEvs(a, b []Ev, j *Term) ([]Ev, bool) {
	if len(a) != len(b) {
		return nil, false
	}
	out := make([]Ev, len(a))
	for i := range a {
		if a[i].K != b[i].K || len(a[i].V) != len(b[i].V) {
			return nil, false
		}
		out[i] = a[i]
		out[i].V = make([]Val, len(a[i].V))
		for k := range a[i].V {
			v, ok := anti(a[i].V[k], b[i].V[k], j)
			if !ok {
				return nil, false
			}
			out[i].V[k] = v
		}
		if a[i].Sub != nil {
			if b[i].Sub == nil {
				return nil, false
			}
			// rename the inner index of b
			bs := b[i].Sub
			if a[i].Idx != b[i].Idx {
				bs = nil
				for _, x := range b[i].Sub {
					bs = append(bs, substEv(x, map[*Term]Lin{b[i].Idx: linT(a[i].Idx)}))
				}
			}
			sub, ok := antiEvs(a[i].Sub, bs, j)
			if !ok {
				return nil, false
			}
			out[i].Sub = sub
			l, ok := antiLin(a[i].N, b[i].N, j)
			if !ok {
				return nil, false
			}
			out[i].N = l
		}
	}
	return out, true
}

func evsKey(s *State, evs []Ev) string {
	k := ""
	for _, e := range evs {
		k += s.normEv(e).key() + ";"
	}
	return k
}

func (s *State) normEv(e Ev) Ev {
	if len(s.subst) == 0 {
		return e
	}
	return substEv(e, s.subst)
}

func (f *Frame) loopKey() string { return fmt.Sprintf("%d.%d", f.id, f.block.Index) }

// accelHead is the loop-head hook of the analyses that keep the sequence of
// events.
func accelHead(s *State) bool {
	f := s.top()
	key := f.loopKey()
	if s.recs == nil {
		s.recs = map[string][]*State{}
		s.gens = map[string]*genLoop{}
	}
	if g := s.gens[key]; g != nil {
		// one more iteration after generalisation: must be an instance
		if len(s.out) >= g.outLen {
			delta := s.out[g.outLen:]
			var want []Ev
			for _, e := range g.g {
				want = append(want, substEv(e, map[*Term]Lin{g.idx: linT(g.n)}))
			}
			if evsKey(s, delta) == evsKey(s, want) && s.instanceOf(g) {
				return false
			}
		}
		if s.elemFacts(g) {
			_ = g
			// the body branches on properties of the elements: the paths with
			// few iterations stand for the rest
			s.eng.bounded[s.where()]++
			return false
		}
		panic(undecided{"iterations of the loop differ in " + s.where()})
	}
	recs := s.recs[key]
	snap := s.clone()
	snap.recs, snap.gens = nil, nil
	recs = append(recs[:len(recs):len(recs)], snap)
	s.recs[key] = recs
	if len(recs) > 6 {
		if s.elemBranches(recs[0], s) {
			s.eng.bounded[s.where()]++
			return false
		}
		panic(undecided{"loop of unknown bound in " + s.where()})
	}
	if len(recs) < 3 {
		return true
	}
	t, u, v := recs[len(recs)-3], recs[len(recs)-2], snap
	if s.elemBranches(t, v) {
		return true
	}
	j := freshCount("j")
	if len(u.out) < len(t.out) || len(v.out) < len(u.out) {
		return true
	}
	g, ok := antiEvs(t.out[len(t.out):], nil, j)
	_ = g
	d1, d2 := u.out[len(t.out):], v.out[len(u.out):]
	g, ok = antiEvs(d1, d2, j)
	if !ok {
		return true
	}
	n := freshCount("n")
	at := func(x *Term, k Lin) map[*Term]Lin { return map[*Term]Lin{x: k} }
	gen3 := func(a, b, c Val) (Val, bool) {
		w, ok := anti(a, b, j)
		if ok && valKey(substVal(w, at(j, linC(2)))) == valKey(c) {
			return substVal(w, at(j, linT(n))), true
		}
		if ai, ok := a.(VInt); ok {
			_ = ai
			return VInt{linT(freshTerm(types.Typ[types.Int], "int"))}, true
		}
		if _, ok := a.(VStr); ok {
			return nil, false
		}
		return nil, false
	}
	ns := v.clone()
	ns.recs, ns.gens = s.recs, s.gens
	ns.log = s.log
	for fi, fr := range v.frames {
		tf, uf := t.frames[fi], u.frames[fi]
		for _, val := range s.eng.liveAt(fr, fi == len(v.frames)-1) {
			a, ok1 := tf.env[val]
			b, ok2 := uf.env[val]
			c, ok3 := fr.env[val]
			if !ok1 || !ok2 || !ok3 {
				continue
			}
			w, ok := gen3(t.normVal(a), u.normVal(b), v.normVal(c))
			if !ok {
				return true
			}
			ns.frames[fi].env[val] = w
		}
	}
	var ids []int
	for id := range t.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		a, b, c := t.heap[id], u.heap[id], v.heap[id]
		if b == nil || c == nil || a.Map != nil {
			if a.Map != nil && (a != b || b != c) {
				return true
			}
			continue
		}
		if a == b && b == c {
			continue
		}
		w, ok := gen3(t.normVal(a.V), u.normVal(b.V), v.normVal(c.V))
		if !ok {
			// aggregate: generalise field by field
			w, ok = genAgg(t.normVal(a.V), u.normVal(b.V), v.normVal(c.V), gen3)
			if !ok {
				return true
			}
		}
		o := *c
		o.V = w
		ns.heap[id] = &o
	}
	// knowledge
	ns.facts = map[*Term]Fact{}
	ns.ineqs = append([]Lin(nil), u.ineqs...)
	two := int64(2)
	ns.facts[n] = Fact{Lo: &two}
	for term, fv := range v.facts {
		fu, ok := u.facts[term]
		if ok && fu.key() == fv.key() {
			ns.facts[term] = fv
			continue
		}
	}
	ns.out = nil
	// what every iteration found true held in the last one, too
	if len(t.guards) <= len(u.guards) && len(u.guards) <= len(v.guards) {
		g1, g2 := u.guards[len(t.guards):], v.guards[len(u.guards):]
		if len(g1) == len(g2) {
			for i := range g1 {
				if g1[i].v != g2[i].v {
					continue
				}
				l, ok := antiLin(u.norm(g1[i].l), v.norm(g2[i].l), j)
				if !ok {
					continue
				}
				l = substLin(l, at(j, linT(n).add(linC(1), -1)))
				if !ns.assertQuiet(Atom{K: "ge0", L: l}, g1[i].v) {
					return false
				}
			}
		}
	}
	ns.out = append(append([]Ev(nil), t.out...), Ev{K: "pow", Sub: g, N: linT(n), Idx: j})
	if len(g) == 0 {
		ns.out = append([]Ev(nil), t.out...)
	}
	gl := &genLoop{outLen: len(ns.out), g: g, idx: j, n: n}
	cp := ns.clone()
	cp.recs, cp.gens = nil, nil
	gl.st = cp
	ns.gens[key] = gl
	// the iterations counted one by one go on as well, up to here; from here
	// on the generalised state stands for all of them
	*s = *ns
	return true
}

func genAgg(a, b, c Val, gen3 func(a, b, c Val) (Val, bool)) (Val, bool) {
	x, ok1 := a.(VAgg)
	y, ok2 := b.(VAgg)
	z, ok3 := c.(VAgg)
	if !ok1 || !ok2 || !ok3 || len(x.F) != len(y.F) || len(y.F) != len(z.F) {
		return gen3(a, b, c)
	}
	f := make([]Val, len(x.F))
	for i := range f {
		w, ok := genAgg(x.F[i], y.F[i], z.F[i], gen3)
		if !ok {
			return nil, false
		}
		f[i] = w
	}
	return VAgg{f}, true
}

// elemFacts: the path knows something of the latest list elements beyond what
// the generalised state knew.
func (s *State) elemFacts(g *genLoop) bool {
	var has func(v Val) bool
	has = func(v Val) bool {
		switch v := v.(type) {
		case VTerm:
			for _, a := range v.T.Args {
				if has(a) {
					return true
				}
			}
			return v.T == g.n
		case VInt:
			for _, t := range v.L.T {
				if has(VTerm{t.T}) {
					return true
				}
			}
		case VStr:
			for _, p := range v.P {
				if p.T != nil && has(VTerm{p.T}) {
					return true
				}
			}
		}
		return false
	}
	for t, f := range s.facts {
		if t != g.n && has(VTerm{t}) && g.st.facts[t].key() != f.key() {
			return true
		}
	}
	return false
}

func (s *State) normVal(v Val) Val {
	if len(s.subst) == 0 {
		return v
	}
	return substVal(v, s.subst)
}

// elemBranches: between t and v the path decided something about list
// elements, so that other elements may take other branches.
func (s *State) elemBranches(t, v *State) bool {
	return v.elemUse > t.elemUse
}

func mentionsElem(v Val) bool {
	switch v := v.(type) {
	case VTerm:
		if v.T.Op == "elem" || strings.HasPrefix(v.T.Op, "elem.") {
			return true
		}
		for _, a := range v.T.Args {
			if mentionsElem(a) {
				return true
			}
		}
	case VInt:
		for _, t := range v.L.T {
			if mentionsElem(VTerm{t.T}) {
				return true
			}
		}
	case VStr:
		for _, p := range v.P {
			if p.T != nil && mentionsElem(VTerm{p.T}) {
				return true
			}
		}
	case VElem:
		return true
	case VIface:
		return mentionsElem(v.V)
	}
	return false
}

// instanceOf reports whether s is the generalised state with one more
// iteration.
func (s *State) instanceOf(g *genLoop) bool {
	m := map[*Term]Lin{g.n: linT(g.n).add(linC(1), 1)}
	anyInt := func(want, have Val) bool {
		if valKey(s.normVal(substVal(want, m))) == valKey(s.normVal(have)) {
			return true
		}
		w, ok := want.(VInt)
		if ok && len(w.L.T) == 1 && w.L.T[0].T.Op == "fresh:int" {
			_, ok := have.(VInt)
			return ok
		}
		return false
	}
	var same func(want, have Val) bool
	same = func(want, have Val) bool {
		if anyInt(want, have) {
			return true
		}
		x, ok1 := want.(VAgg)
		y, ok2 := have.(VAgg)
		if ok1 && ok2 && len(x.F) == len(y.F) {
			for i := range x.F {
				if !same(x.F[i], y.F[i]) {
					return false
				}
			}
			return true
		}
		return false
	}
	for fi, fr := range g.st.frames {
		for _, val := range s.eng.liveAt(fr, fi == len(g.st.frames)-1) {
			a, ok1 := fr.env[val]
			b, ok2 := s.frames[fi].env[val]
			if ok1 && ok2 && !same(a, b) {
				return false
			}
		}
	}
	for id, o := range g.st.heap {
		c := s.heap[id]
		if c == o || c == nil || o.Map != nil {
			continue
		}
		if !same(o.V, c.V) {
			return false
		}
	}
	return true
}

var _ ssa.Instruction
