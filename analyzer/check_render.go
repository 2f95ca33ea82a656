package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", "For every node type, (*T).WriteTo is interpreted over a symbolic tree and a writer whose every Write returns an unknown count and an unknown error: on every path the returned count is the sum of the counts the writes reported, the returned error is nil exactly when every write succeeded and otherwise the error of the failed write, and nothing is written after a failed write.", checkWriteTo)
	register("C14", "For every node type, ToSQLString and WriteTo are interpreted one after the other over the same symbolic tree; for every combination of conditions on the tree the two texts are equal, piece by piece, and so are the texts given to writers with and without WriteString.", checkToSQLString)
	register("C15", "For every node type, the text WriteTo produces under each combination of conditions contains every non-nil child exactly once, every element of every child list in order, and depends on every field that is not a position.", checkRenderAll)
	register("C23", "While WriteTo, ToSQLString, Pos and End of any node type, and Walk and Apply of it with functions that edit nothing, are interpreted over a symbolic tree, no store reaches an object of the tree or a package variable.", checkPure)
}

func (c *Context) writerTerm(nt nodeType) Val {
	return VTerm{mkTerm(c.p.method(nt.T, "WriteTo").Params[1].Type(), "w")}
}

func isIncomplete(r *Report, e *Engine) {
	for k, v := range e.bounded {
		r.Bounded[k] += v
	}
}

// ---- C13 ----

func checkWriteTo(c *Context, r *Report) {
	nts, err := c.p.nodeTypes()
	if err != nil {
		r.undecided("%v", err)
		return
	}
	r.Minimum["node types"] = 120
	for _, nt := range nts {
		r.Counts["node types"]++
		c.contract(r, nt)
	}
}

func (c *Context) contract(r *Report, nt nodeType) {
	fn := c.p.method(nt.T, "WriteTo")
	if fn == nil {
		r.undecided("%s has no WriteTo", nt.name)
		return
	}
	e := c.p.renderEngine(c.base)
	intT, errT := types.Typ[types.Int], types.Universe.Lookup("error").Type()
	e.hooks.Write = func(s *State, w Val, ps []Piece) (Val, Val) {
		if s.werr != nil {
			t := s.werr.(VTerm).T
			if isNil, ok := s.decide(Atom{K: "nil", T: t}); !ok || !isNil {
				r.find(Finding{"write after failure", nt.name, s.where(), "writes although an earlier write may have failed", append(s.stack(), s.trail()...)})
			}
		}
		n, er := freshTerm(intT, "wn"), freshTerm(errT, "werr")
		s.sum = s.sum.add(linT(n), 1)
		s.werr = VTerm{er}
		return VInt{linT(n)}, VTerm{er}
	}
	e.hooks.ExtraKey = func(s *State, k *keyer) {
		k.b.WriteString("#")
		k.lin(s.sum)
		if s.werr != nil {
			k.val(s.werr)
		}
	}
	e.hooks.Head = contractHead
	e.hooks.Exit = func(s *State, res []Val) {
		r.Counts["paths"]++
		n, ok := res[0].(VInt)
		if !ok || s.norm(n.L.add(s.sum, -1)).key() != "0" {
			r.find(Finding{"count", nt.name, c.p.posOf(fn, nil), fmt.Sprintf("returns count %s, the writes reported %s", valString(res[0]), s.sum), s.trail()})
		}
		if s.werr == nil {
			if _, ok := res[1].(VNil); !ok {
				r.find(Finding{"error", nt.name, c.p.posOf(fn, nil), "returns an error although nothing was written", s.trail()})
			}
			return
		}
		t := s.werr.(VTerm).T
		isNil, known := s.decide(Atom{K: "nil", T: t})
		switch {
		case known && isNil:
			if _, ok := res[1].(VNil); !ok && valKey(res[1]) != valKey(s.werr) {
				r.find(Finding{"error", nt.name, c.p.posOf(fn, nil), "may return an error although every write succeeded: " + valString(res[1]), s.trail()})
			}
		case known:
			if _, isI := res[1].(VIface); !isI && valKey(res[1]) != valKey(s.werr) {
				r.find(Finding{"error", nt.name, c.p.posOf(fn, nil), "does not return the error of the failed write", s.trail()})
			}
		default:
			if valKey(res[1]) != valKey(s.werr) {
				r.find(Finding{"error", nt.name, c.p.posOf(fn, nil), "does not return the error of the last write", s.trail()})
			}
		}
	}
	e.hooks.Panic = func(s *State) {
		r.find(Finding{"panic", nt.name, c.p.posOf(fn, nil), "panics on a well-formed tree: " + valString(s.panicV), s.trail()})
	}
	s, recv := e.recvState(nt)
	w := c.writerTerm(nt)
	s.facts[w.(VTerm).T] = Fact{Nil: 2}
	s.push(fn, []Val{recv, w}, nil, nil)
	if err := e.safeRun(s); err != nil {
		r.undecided("%s.WriteTo: %v", nt.name, err)
	}
	isIncomplete(r, e)
}

// contractHead widens the state at a loop head: written total T, counters
// unknown.
func contractHead(s *State) bool {
	f := s.top()
	key := f.loopKey()
	if s.recs == nil {
		s.recs = map[string][]*State{}
	}
	T := freshTerm(types.Typ[types.Int], "total")
	rel := func(v Val) Val {
		x, ok := v.(VInt)
		if !ok || s.sum.isConst() {
			return v
		}
		l := s.norm(x.L)
		d := l.add(s.sum, -1)
		for _, t := range d.T {
			if strings.HasPrefix(t.T.Op, "fresh:wn") || strings.HasPrefix(t.T.Op, "fresh:total") {
				return v
			}
		}
		return VInt{d.add(linT(T), 1)}
	}
	s.eachCell(rel)
	if !s.sum.isConst() {
		s.sum = linT(T)
	}
	recs := s.recs[key]
	snap := s.clone()
	snap.recs = nil
	s.recs[key] = append(recs[:len(recs):len(recs)], snap)
	if len(recs) >= 2 {
		prev, first := recs[len(recs)-1], recs[0]
		s.eachCell2(prev, func(old, now Val) Val {
			a, ok1 := old.(VInt)
			b, ok2 := now.(VInt)
			if !ok1 || !ok2 {
				return s.widenOther(old, now)
			}
			for _, t := range b.L.T {
				if t.T == T {
					return now
				}
			}
			if valKey(a) == valKey(b) {
				return now
			}
			if len(b.L.T) == 1 && b.L.T[0].T.Op == "fresh:widened" && b.L.T[0].K == 1 {
				w := freshTerm(types.Typ[types.Int], "widened")
				if lo := s.facts[b.L.T[0].T].Lo; lo != nil && b.L.C >= 0 {
					s.facts[w] = Fact{Lo: lo}
				}
				return VInt{linT(w)}
			}
			w := freshTerm(types.Typ[types.Int], "widened")
			if a.L.isConst() && b.L.isConst() && b.L.C > a.L.C {
				lo := a.L.C
				s.facts[w] = Fact{Lo: &lo}
			}
			return VInt{linT(w)}
		})
		for t := range s.facts {
			if t.Op == "len" {
				if ff, ok := first.facts[t]; ok {
					s.facts[t] = ff
				} else {
					delete(s.facts, t)
				}
			}
		}
		s.ineqs = first.ineqs
	}
	if len(recs) > 40 {
		panic(undecided{"no fixpoint for the loop in " + s.where()})
	}
	return true
}

// widenOther widens values that are no integers.
func (s *State) widenOther(old, now Val) Val {
	switch b := now.(type) {
	case VStr:
		if _, ok := old.(VStr); ok && valKey(s.normVal(old)) != valKey(s.normVal(now)) {
			return VStr{[]Piece{{T: freshTerm(types.Typ[types.String], "text")}}}
		}
	case VBytes:
		if valKey(s.normVal(old)) != valKey(s.normVal(now)) {
			return VBytes{[]Piece{{T: freshTerm(types.Typ[types.String], "text")}}}
		}
	case VSlice:
		if o := s.get(b.Obj); o != nil && o.Typ != nil {
			if _, ok := under(o.Typ).(*types.Slice); ok && valKey(old) != valKey(now) {
				t := freshTerm(o.Typ, "append")
				s.facts[t] = Fact{Nil: 2}
				return VTerm{t}
			}
		}
	}
	return now
}

// eachCell rewrites the scalars of the live values and the heap.
func (s *State) eachCell(fn func(Val) Val) {
	var walk func(v Val) Val
	walk = func(v Val) Val {
		if a, ok := v.(VAgg); ok {
			f := make([]Val, len(a.F))
			for i := range f {
				f[i] = walk(a.F[i])
			}
			return VAgg{f}
		}
		return fn(v)
	}
	for fi, fr := range s.frames {
		g := fr.clone()
		for k, v := range g.env {
			g.env[k] = walk(v)
		}
		s.frames[fi] = g
	}
	for id, o := range s.heap {
		if o.Map == nil && o.Orig == nil {
			n := *o
			n.V = walk(o.V)
			s.heap[id] = &n
		}
	}
}

func (s *State) eachCell2(prev *State, fn func(old, now Val) Val) {
	var walk func(a, b Val) Val
	walk = func(a, b Val) Val {
		x, ok1 := a.(VAgg)
		y, ok2 := b.(VAgg)
		if ok1 && ok2 && len(x.F) == len(y.F) {
			f := make([]Val, len(y.F))
			for i := range f {
				f[i] = walk(x.F[i], y.F[i])
			}
			return VAgg{f}
		}
		return fn(a, b)
	}
	for fi, fr := range s.frames {
		g := fr.clone()
		for _, k := range s.eng.liveAt(fr, fi == len(s.frames)-1) {
			if fi < len(prev.frames) {
				a, ok1 := prev.frames[fi].env[k]
				b, ok2 := g.env[k]
				if ok1 && ok2 {
					g.env[k] = walk(a, b)
				}
			}
		}
		s.frames[fi] = g
	}
	for id, o := range s.heap {
		if p, ok := prev.heap[id]; ok && o.Map == nil && o.Orig == nil && p != o {
			n := *o
			n.V = walk(p.V, o.V)
			s.heap[id] = &n
		}
	}
}

// ---- C14 ----

func checkToSQLString(c *Context, r *Report) {
	nts, err := c.p.nodeTypes()
	if err != nil {
		r.undecided("%v", err)
		return
	}
	r.Minimum["node types"] = 120
	for _, nt := range nts {
		r.Counts["node types"]++
		if c.p.method(nt.T, "WriteTo") == nil || c.p.method(nt.T, "ToSQLString") == nil {
			r.undecided("%s lacks WriteTo or ToSQLString", nt.name)
			continue
		}
		e := c.p.renderEngine(c.base)
		s, recv := e.recvState(nt)
		w := c.writerTerm(nt)
		s.facts[w.(VTerm).T] = Fact{Nil: 2}
		first, pan1, err := c.p.runToSQLString(e, s, nt, recv)
		if err != nil {
			r.undecided("%s.ToSQLString: %v", nt.name, err)
			continue
		}
		r.Counts["paths of ToSQLString"] += len(first)
		for _, x := range first {
			st := x.st
			st.recs, st.gens = nil, nil
			second, pan2, err := c.p.runWriteTo(e, st, nt, recv, w)
			if err != nil {
				r.undecided("%s.WriteTo: %v", nt.name, err)
				break
			}
			for _, y := range second {
				r.Counts["pairs of texts compared"]++
				a, b := textKey(y.st, x.text), textKey(y.st, y.text)
				if a != b {
					r.find(Finding{"text", nt.name, c.p.posOf(c.p.method(nt.T, "ToSQLString"), nil),
						fmt.Sprintf("ToSQLString gives %q, WriteTo writes %q", showText(y.st, x.text), showText(y.st, y.text)), y.st.trail()})
				}
			}
			for _, y := range pan2 {
				r.find(Finding{"panic", nt.name, c.p.posOf(c.p.method(nt.T, "WriteTo"), nil), "WriteTo panics where ToSQLString does not: " + valString(y.panicV), y.trail()})
			}
		}
		for _, x := range pan1 {
			st := x.clone()
			st.recs, st.gens, st.panicV = nil, nil, nil
			second, _, err := c.p.runWriteTo(e, st, nt, recv, w)
			if err == nil {
				for range second {
					r.find(Finding{"panic", nt.name, c.p.posOf(c.p.method(nt.T, "ToSQLString"), nil), "ToSQLString panics where WriteTo does not: " + valString(x.panicV), x.trail()})
				}
			}
		}
		isIncomplete(r, e)
	}
}

// ---- C15 ----

// fieldOf is the term of a field of the receiver.
func fieldRoot(t *Term) string {
	// .Name(recv) or ..*.Name: the field path directly below the receiver
	for t != nil {
		if strings.HasPrefix(t.Op, ".") && len(t.Args) == 1 {
			if v, ok := t.Args[0].(VTerm); ok && v.T.Op == "recv" {
				p := strings.TrimPrefix(t.Op, ".")
				if i := strings.Index(p, "."); i >= 0 {
					p = p[:i]
				}
				return p
			}
		}
		var next *Term
		for _, a := range t.Args {
			if x := innerTerm(a); x != nil {
				next = x
				break
			}
		}
		t = next
	}
	return ""
}

func innerTerm(v Val) *Term {
	switch v := v.(type) {
	case VTerm:
		return v.T
	case VStr:
		for _, p := range v.P {
			if p.T != nil {
				return p.T
			}
		}
	case VInt:
		if len(v.L.T) > 0 {
			return v.L.T[0].T
		}
	case VElem:
		return innerTerm(v.L)
	case VIface:
		return innerTerm(v.V)
	case VAgg:
		for _, f := range v.F {
			if t := innerTerm(f); t != nil {
				return t
			}
		}
	}
	return nil
}

// allRoots lists every receiver field a value is built from.
func allRoots(v Val, out map[string]int) {
	switch v := v.(type) {
	case VTerm:
		termRoots(v.T, out)
	case VStr:
		for _, p := range v.P {
			if p.T != nil {
				termRoots(p.T, out)
			}
		}
	case VBytes:
		allRoots(VStr{v.P}, out)
	case VInt:
		for _, t := range v.L.T {
			termRoots(t.T, out)
		}
	case VElem:
		allRoots(v.L, out)
		allRoots(v.I, out)
	case VIface:
		allRoots(v.V, out)
	case VAgg:
		for _, f := range v.F {
			allRoots(f, out)
		}
	}
}

func termRoots(t *Term, out map[string]int) {
	if strings.HasPrefix(t.Op, ".") && len(t.Args) == 1 {
		if v, ok := t.Args[0].(VTerm); ok && v.T.Op == "recv" {
			p := strings.TrimPrefix(t.Op, ".")
			if i := strings.Index(p, "."); i >= 0 {
				p = p[:i]
			}
			out[p]++
			return
		}
	}
	for _, a := range t.Args {
		allRoots(a, out)
	}
}

type mention struct {
	list string // the child list
	idx  Lin
}

// childMentions lists the children a text contains, in order; powers become
// ranges.
type childRef struct {
	field string
	list  bool
	idx   Lin  // element
	n     *Lin // number of elements, for a power
}

func (s *State) childRefs(ps []Piece) []childRef {
	var out []childRef
	for _, p := range ps {
		if p.T == nil {
			continue
		}
		if p.T.Op == "pow" {
			n := p.T.Args[1].(VInt).L
			j := p.T.Args[2].(VTerm).T
			for _, x := range s.childRefs(p.T.Args[0].(VStr).P) {
				if x.list {
					x.idx = s.norm(x.idx).add(linT(j), -1)
				}
				m := s.norm(n)
				x.n = &m
				out = append(out, x)
			}
			continue
		}
		out = append(out, s.refOf(p.T))
	}
	return out
}

// refOf finds which child a piece of text comes from.
func (s *State) refOf(t *Term) childRef {
	for t != nil {
		if t.Op == "elem" || strings.HasPrefix(t.Op, "elem.") || t.Op == "elem.*" {
			if l := innerTerm(t.Args[0]); l != nil {
				if idx, ok := t.Args[1].(VInt); ok {
					return childRef{field: fieldRoot(l), list: true, idx: s.norm(idx.L)}
				}
			}
		}
		if strings.HasPrefix(t.Op, ".") && len(t.Args) == 1 {
			if v, ok := t.Args[0].(VTerm); ok && v.T.Op == "recv" {
				return childRef{field: fieldRoot(t)}
			}
		}
		var next *Term
		for _, a := range t.Args {
			if x := innerTerm(a); x != nil {
				next = x
				break
			}
		}
		t = next
	}
	return childRef{}
}

func checkRenderAll(c *Context, r *Report) {
	nts, err := c.p.nodeTypes()
	if err != nil {
		r.undecided("%v", err)
		return
	}
	r.Minimum["node types"] = 120
	r.Minimum["child fields"] = 130
	for _, nt := range nts {
		r.Counts["node types"]++
		fn := c.p.method(nt.T, "WriteTo")
		if fn == nil {
			r.undecided("%s has no WriteTo", nt.name)
			continue
		}
		e := c.p.renderEngine(c.base)
		s, recv := e.recvState(nt)
		w := c.writerTerm(nt)
		s.facts[w.(VTerm).T] = Fact{Nil: 2}
		exits, _, err := c.p.runWriteTo(e, s, nt, recv, w)
		isIncomplete(r, e)
		if err != nil {
			r.undecided("%s.WriteTo: %v", nt.name, err)
			continue
		}
		if len(exits) == 0 {
			r.undecided("%s.WriteTo never returns", nt.name)
			continue
		}
		isChild := map[string]bool{}
		for _, ch := range c.p.children(nt) {
			isChild[ch.name] = true
			r.Counts["child fields"]++
			for _, x := range exits {
				r.Counts["obligations"]++
				c.childRendered(r, nt, ch, x, fn)
			}
		}
		// every other field decides or appears in the text
		used := map[string]int{}
		for _, x := range exits {
			allRoots(VStr{x.text}, used)
			for t := range x.st.facts {
				termRoots(t, used)
			}
			for t := range x.st.subst {
				termRoots(t, used)
			}
		}
		for i := 0; i < nt.S.NumFields(); i++ {
			f := nt.S.Field(i)
			if !f.Exported() || f.Embedded() || isChild[f.Name()] || c.isPos(f.Type()) {
				continue
			}
			r.Counts["value fields"]++
			if used[f.Name()] == 0 && !c.p.fieldStored(nt, i) {
				r.Counts["fields nothing ever sets"]++
				continue
			}
			if used[f.Name()] == 0 {
				r.find(Finding{"field has no effect on the text", nt.name + "." + f.Name(), c.p.posOf(fn, nil), "WriteTo does not depend on it", nil})
			}
		}
	}
}

// renderExempt: children that are not part of the text by design.
func renderExempt(st *State, nt nodeType, ch childField) bool {
	switch nt.name + "." + ch.name {
	case "File.Comments":
		return true // comments are attached through CommentMap, not rendered
	case "LimitExpr.LimitValue":
		// LIMIT ALL has no value
		v, ok := st.decide(Atom{K: "true", T: mkTerm(types.Typ[types.Bool], ".All", recvTerm(nt))})
		return ok && v
	}
	return false
}

// fieldStored: some analysed function stores to field i of the type.
func (p *Program) fieldStored(nt nodeType, i int) bool {
	for _, fn := range p.allFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fa.Field != i || !types.Identical(fa.X.Type(), nt.T) {
					continue
				}
				for _, ref := range *fa.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == fa {
						return true
					}
				}
			}
		}
	}
	return false
}

func (c *Context) isPos(t types.Type) bool {
	o := c.p.sqltoken.Pkg.Scope().Lookup("Pos")
	return o != nil && types.Identical(t, o.Type())
}

func (c *Context) childRendered(r *Report, nt nodeType, ch childField, x renderExit, fn *ssa.Function) {
	st := x.st
	root := mkTerm(ch.typ, "."+ch.name, recvTerm(nt))
	where := c.p.posOf(fn, nil)
	refs := st.childRefs(x.text)
	if renderExempt(st, nt, ch) {
		return
	}
	if ch.kind == "one" {
		n, sub := 0, map[string]int{}
		for _, rf := range refs {
			if rf.field == ch.name {
				n++
			}
		}
		_ = sub
		if n > 0 {
			return
		}
		if isNil, ok := st.decide(Atom{K: "nil", T: root}); ok && isNil {
			return
		}
		// its properties decide the text (an operator spelled out)
		used := map[string]int{}
		for t := range st.facts {
			if t != root {
				termRoots(t, used)
			}
		}
		for t := range st.subst {
			if t != root {
				termRoots(t, used)
			}
		}
		if used[ch.name] > 0 && c.p.isLeaf(ch.typ) {
			return
		}
		r.find(Finding{"child not rendered", nt.name + "." + ch.name, where, "no text for it when " + strings.Join(st.trail(), ", "), []string{showText(st, x.text)}})
		return
	}
	// list: every element, in order
	ln := st.norm(linT(lenTerm(VTerm{root})))
	next := Lin{}
	for _, rf := range refs {
		if rf.field != ch.name || !rf.list {
			continue
		}
		if rf.n == nil {
			if d := st.norm(rf.idx.add(next, -1)); d.key() == "-1" {
				continue // a further part of the same element
			} else if d.key() != "0" {
				r.find(Finding{"list out of order", nt.name + "." + ch.name, where, fmt.Sprintf("element %s where element %s is due", rf.idx, next), []string{showText(st, x.text)}})
				return
			}
			next = st.norm(next.add(linC(1), 1))
			continue
		}
		if d := st.norm(rf.idx.add(next, -1)); d.key() != "0" {
			if e := st.norm(rf.idx.add(*rf.n, 1).add(next, -1)); e.key() == "0" {
				continue
			}
			r.find(Finding{"list out of order", nt.name + "." + ch.name, where, fmt.Sprintf("elements from %s where element %s is due", rf.idx, next), []string{showText(st, x.text)}})
			return
		}
		next = st.norm(next.add(*rf.n, 1))
	}
	d := st.norm(ln.add(next, -1))
	if d.key() == "0" {
		return
	}
	if v, ok := st.decide(Atom{K: "ge0", L: d.scale(-1)}); ok && v {
		return // length already covered
	}
	r.find(Finding{"list elements missing", nt.name + "." + ch.name, where, fmt.Sprintf("%s elements rendered of %s when %s", next, ln, strings.Join(st.trail(), ", ")), []string{showText(st, x.text)}})
}

// ---- C23 ----

func checkPure(c *Context, r *Report) {
	nts, err := c.p.nodeTypes()
	if err != nil {
		r.undecided("%v", err)
		return
	}
	walk := c.p.sqlast.Func("Walk")
	apply, acc := c.applyFuncs()
	if walk == nil || apply == nil {
		r.undecided("Walk or Apply not found")
		return
	}
	r.Minimum["node types"] = 120
	r.Minimum["methods"] = 6 * 120
	r.Minimum["stores"] = 500
	for _, nt := range nts {
		r.Counts["node types"]++
		for _, m := range []string{"WriteTo", "ToSQLString", "Pos", "End"} {
			fn := c.p.method(nt.T, m)
			if fn == nil {
				r.undecided("%s has no %s", nt.name, m)
				continue
			}
			e := c.p.renderEngine(c.base)
			r.Counts["methods"]++
			c.pureHooks(r, e, nt.name+"."+m)
			s, recv := e.recvState(nt)
			args := []Val{recv}
			if m == "WriteTo" {
				w := c.writerTerm(nt)
				s.facts[w.(VTerm).T] = Fact{Nil: 2}
				args = append(args, w)
			}
			e.hooks.Panic = func(*State) {}
			e.hooks.Exit = func(*State, []Val) { r.Counts["paths"]++ }
			e.hooks.Head = contractHead
			e.trackText = false
			s.push(fn, args, nil, nil)
			if err := e.safeRun(s); err != nil {
				r.undecided("%s.%s: %v", nt.name, m, err)
			}
			isIncomplete(r, e)
		}
		// the traversals, whose own obligations are C17 and C19
		opt := c.optionalFields(r, nt)
		other := newReport("", "")
		c.walkOne(other, walk, nt, opt, func(e *Engine) { c.pureHooks(r, e, "Walk of "+nt.name) })
		c.applyOne(other, apply, acc, nt, opt, func(e *Engine) { c.pureHooks(r, e, "Apply to "+nt.name) })
		for _, u := range other.Undecided {
			r.undecided("%s", u)
		}
		r.Counts["paths"] += other.Counts["paths"]
		r.Counts["methods"] += 2
	}
}

// pureHooks reports stores to objects that were not made on the path.
func (c *Context) pureHooks(r *Report, e *Engine, what string) {
	bad := func(s *State, i ssa.Instruction, to string) {
		r.find(Finding{"store into the tree", what + " in " + fnName(i.Parent()), s.where(), "writes " + to, s.stack()})
	}
	e.hooks.Store = func(s *State, i ssa.Instruction, p Val, v Val) bool {
		r.Counts["stores"]++
		switch p := p.(type) {
		case VPtr:
			o := s.get(p.Obj)
			if o != nil && o.Orig != nil {
				bad(s, i, valString(VTerm{o.Orig})+p.Path)
			}
			if _, isBase := s.eng.base[p.Obj]; isBase {
				bad(s, i, "a package variable ("+o.Tag+")")
			}
		case VTerm:
			if !p.T.fresh() {
				bad(s, i, valString(p))
			}
		case VElem:
			bad(s, i, "an element of "+valString(p.L))
		}
		return false
	}
}
