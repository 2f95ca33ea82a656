package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", "For every node type T, Walk is interpreted with a symbolic visitor on a symbolic *T: on every path Visit(node) comes first; when it returns nil nothing else happens; otherwise every non-nil child and every element of every child list is visited exactly once, list elements in order, by the visitor Visit returned, and Visit(nil) on that visitor comes last; no path panics. Inspect calls its function for each visit and descends exactly when it returns true.", checkWalk)
	register("C19", "For every node type T, Apply is interpreted with symbolic pre and post functions on a symbolic *T: every non-nil child and list element is handed to pre exactly once, in list order, with a cursor whose Parent is the node, whose Name and Index address the field that holds exactly that child, so that Replace, Delete and Insert act on it; pre returning false skips the children and post; post returning false ends the traversal; no path panics.", checkApply)
}

type visitEv struct {
	list   string // child list, or ""
	field  string
	node   Val
	parent Val
	name   Val
	index  Val
	vis    Val
	idx    Lin
	n      *Lin // repetition, for elements idx .. idx+n-1
	ev     Ev
}

// ---- C17 ----

func (p *Program) funcNamed(pkg *ssa.Package, name string) *ssa.Function { return pkg.Func(name) }

func (p *Program) walkEngine(base *Engine) *Engine {
	e := newEngine(p)
	e.base, e.baseMax, e.objSeq, e.globals = base.base, base.baseMax, base.objSeq, base.globals
	e.trackText = true
	e.hooks.AssumeNonNil = func(s *State, t *Term) bool { return !t.fresh() }
	e.hooks.Head = accelHead
	e.hooks.Decide = func(s *State, a Atom) (val, known bool) {
		switch a.K {
		case "nil":
			// the elements of a list are nodes
			if mentionsElem(VTerm{a.T}) && !a.T.fresh() {
				return false, true
			}
		case "true":
			// no interface holds a nil pointer
			if a.T.Op == "dynnil" {
				return false, true
			}
		}
		return false, false
	}
	return e
}

func nodeVal(v Val) Val {
	if i, ok := v.(VIface); ok {
		return i.V
	}
	return v
}

func checkWalk(c *Context, r *Report) {
	nts, err := c.p.nodeTypes()
	if err != nil {
		r.undecided("%v", err)
		return
	}
	walk := c.p.sqlast.Func("Walk")
	inspect := c.p.sqlast.Func("Inspect")
	if walk == nil || inspect == nil || len(walk.Params) != 2 || len(inspect.Params) != 2 {
		r.undecided("sqlast.Walk or sqlast.Inspect not found")
		return
	}
	r.Minimum["node types"] = 120
	r.Minimum["child fields"] = 130
	for _, nt := range nts {
		r.Counts["node types"]++
		c.walkOne(r, walk, nt, c.optionalFields(r, nt), nil)
	}
	c.inspectOne(r, inspect)
}

// optionalFields are the children rendering tests for nil: they may be absent.
func (c *Context) optionalFields(r *Report, nt nodeType) map[string]bool {
	opt := map[string]bool{}
	e := c.p.renderEngine(c.base)
	s, recv := e.recvState(nt)
	w := c.writerTerm(nt)
	s.facts[w.(VTerm).T] = Fact{Nil: 2}
	exits, _, err := c.p.runWriteTo(e, s, nt, recv, w)
	if err != nil {
		r.undecided("%s.WriteTo: %v", nt.name, err)
		return opt
	}
	for _, ch := range c.p.children(nt) {
		root := mkTerm(ch.typ, "."+ch.name, recv)
		for _, x := range exits {
			if v, ok := x.st.decide(Atom{K: "nil", T: root}); ok && v {
				opt[ch.name] = true
			}
		}
	}
	return opt
}

func (c *Context) walkOne(r *Report, walk *ssa.Function, nt nodeType, optional map[string]bool, setup func(*Engine)) {
	e := c.p.walkEngine(c.base)
	if setup != nil {
		setup(e)
	}
	s, recv := e.recvState(nt)
	vt := walk.Params[0].Type()
	v0 := VTerm{mkTerm(vt, "visitor")}
	v1 := VTerm{mkTerm(vt, "visitor'")}
	s.facts[v0.T] = Fact{Nil: 2}
	s.facts[v1.T] = Fact{Nil: 2}
	// walking a nil child is walking something that is not there
	e.hooks.Call = func(s *State, cl *Call) bool {
		if cl.Fn == nil && cl.Method != nil && cl.Method.Name() == "Visit" && len(cl.Args) == 1 {
			n := nodeVal(cl.Args[0])
			down := false
			if valKey(n) == valKey(recv) {
				down = s.must(Atom{K: "true", T: mkTerm(types.Typ[types.Bool], "descends")})
			}
			s.emit("visit", cl.Recv, n)
			if valKey(n) == valKey(recv) {
				if down {
					s.ret(cl, v1)
				} else {
					s.ret(cl, VNil{})
				}
				return true
			}
			if t, ok := n.(VTerm); ok && !mentionsElem(n) {
				if isNil, known := s.decide(Atom{K: "nil", T: t.T}); optional[fieldRoot(t.T)] && !(known && !isNil) {
					r.find(Finding{"nil child visited", nt.name + "." + fieldRoot(t.T), s.where(), "visits the child although it may be nil", s.stack()})
				}
			}
			s.ret(cl, VNil{})
			return true
		}
		return false
	}
	where := c.p.posOf(walk, nil)
	e.hooks.Panic = func(s *State) {
		r.find(Finding{"panic", nt.name, where, "Walk panics: " + valString(s.panicV), s.trail()})
	}
	children := c.p.children(nt)
	for range children {
		r.Counts["child fields"]++
	}
	exits := 0
	e.hooks.Exit = func(s *State, res []Val) {
		exits++
		r.Counts["paths"]++
		evs := visits(s, s.out)
		if len(evs) == 0 || valKey(evs[0].node) != valKey(recv) || valKey(evs[0].vis) != valKey(v0) {
			r.find(Finding{"visit first", nt.name, where, "does not begin with Visit(node)", s.trail()})
			return
		}
		if s.facts[mkTerm(types.Typ[types.Bool], "descends")].B != 2 {
			if len(evs) != 1 {
				r.find(Finding{"visit declined", nt.name, where, "goes on after Visit returned nil", s.trail()})
			}
			return
		}
		last := evs[len(evs)-1]
		if _, isNil := last.node.(VNil); !isNil || valKey(last.vis) != valKey(v1) || len(evs) < 2 {
			r.find(Finding{"visit nil last", nt.name, where, "does not end with Visit(nil) on the visitor that Visit returned", s.trail()})
			return
		}
		mid := evs[1 : len(evs)-1]
		for _, ev := range mid {
			if valKey(ev.vis) != valKey(v1) {
				r.find(Finding{"visitor", nt.name, where, "children are not visited by the visitor Visit returned", s.trail()})
			}
		}
		c.coverage(r, s, nt, children, mid, where, "visited")
	}
	s.push(walk, []Val{v0, VIface{nt.T, recv}}, nil, nil)
	if err := e.safeRun(s); err != nil {
		r.undecided("Walk of %s: %v", nt.name, err)
	} else if exits == 0 {
		r.find(Finding{"panic", nt.name, where, "Walk never returns normally", nil})
	}
	isIncomplete(r, e)
}

// visits flattens visit events; powers keep their count.
func visits(s *State, evs []Ev) []visitEv {
	var out []visitEv
	for _, ev := range evs {
		switch ev.K {
		case "visit":
			out = append(out, visitEv{vis: ev.V[0], node: ev.V[1], ev: ev})
		case "pre":
			out = append(out, visitEv{vis: VNil{}, node: ev.V[0], parent: ev.V[1], name: ev.V[2], index: ev.V[3], ev: ev})
		case "pow":
			for _, x := range visits(s, ev.Sub) {
				n := s.norm(ev.N)
				x.n = &n
				// elements j = 0 .. n-1
				m := map[*Term]Lin{ev.Idx: {}}
				x.idx = linT(ev.Idx)
				_ = m
				out = append(out, x)
			}
		}
	}
	return out
}

// coverage checks that the events cover every child exactly once.
func (c *Context) coverage(r *Report, s *State, nt nodeType, children []childField, evs []visitEv, where, verb string) {
	recv := recvTerm(nt)
	used := make([]bool, len(evs))
	for _, ch := range children {
		r.Counts["obligations"]++
		if traverseExempt(nt, ch) || renderExempt(s, nt, ch) {
			continue
		}
		root := mkTerm(ch.typ, "."+ch.name, recv)
		if ch.kind == "one" {
			n := 0
			for i, ev := range evs {
				if t, ok := ev.node.(VTerm); ok && ev.n == nil && (t.T == root || s.sameAddr(nt, ch, ev.node)) {
					n++
					used[i] = true
				} else if s.sameAddr(nt, ch, ev.node) && ev.n == nil {
					n++
					used[i] = true
				}
			}
			isNil, known := s.decide(Atom{K: "nil", T: root})
			switch {
			case n == 1:
			case n == 0 && known && isNil:
			case n == 0:
				r.find(Finding{"child not " + verb, nt.name + "." + ch.name, where, "not " + verb + " when " + strings.Join(s.trail(), ", "), nil})
			default:
				r.find(Finding{"child " + verb + " twice", nt.name + "." + ch.name, where, fmt.Sprintf("%s %d times", verb, n), s.trail()})
			}
			continue
		}
		ln := s.norm(linT(lenTerm(VTerm{root})))
		next := Lin{}
		bad := false
		for i, ev := range evs {
			t := innerTerm(ev.node)
			if t == nil || !(t.Op == "elem" || strings.HasPrefix(t.Op, "elem.")) || valKey(t.Args[0]) != valKey(VTerm{root}) {
				continue
			}
			used[i] = true
			idx := s.norm(t.Args[1].(VInt).L)
			cnt := linC(1)
			if ev.n != nil {
				idx = idx.add(ev.idx, -1) // the first element of the range
				cnt = *ev.n
			}
			if d := s.norm(idx.add(next, -1)); d.key() != "0" && !bad {
				bad = true
				r.find(Finding{"list order", nt.name + "." + ch.name, where, fmt.Sprintf("element %s is %s where element %s is due", idx, verb, next), s.trail()})
			}
			next = s.norm(next.add(cnt, 1))
		}
		if bad {
			continue
		}
		d := s.norm(ln.add(next, -1))
		if d.key() == "0" {
			continue
		}
		if v, ok := s.decide(Atom{K: "ge0", L: d.scale(-1)}); ok && v {
			continue
		}
		r.find(Finding{"list elements not " + verb, nt.name + "." + ch.name, where, fmt.Sprintf("%s of %s elements %s", next, ln, verb), s.trail()})
	}
	for i, ev := range evs {
		if !used[i] {
			if t := innerTerm(ev.node); t != nil && traverseExemptField(nt, fieldRoot(t)) {
				continue
			}
			if _, isNil := ev.node.(VNil); isNil {
				continue
			}
			r.find(Finding{"not a child", nt.name, where, verb + ": " + valString(ev.node), s.trail()})
		}
	}
}

// sameAddr: the node is the address of the struct-valued field ch.
func (s *State) sameAddr(nt nodeType, ch childField, v Val) bool {
	p, ok := v.(VPtr)
	if !ok {
		return false
	}
	o := s.get(p.Obj)
	return o != nil && o.Orig != nil && o.Orig == recvTerm(nt).(VTerm).T && p.Path == fmt.Sprintf(".%d", ch.idx)
}

func traverseExemptField(nt nodeType, f string) bool {
	return nt.name == "File" && f == "Comments"
}

func traverseExempt(nt nodeType, ch childField) bool {
	// comments are reached through File.Comments and CommentMap only
	return traverseExemptField(nt, ch.name)
}

func (c *Context) inspectOne(r *Report, inspect *ssa.Function) {
	// Inspect(node, f): Walk with a visitor that calls f
	var nt nodeType
	nts, _ := c.p.nodeTypes()
	for _, x := range nts {
		if len(c.p.children(x)) == 1 && c.p.children(x)[0].kind == "one" && len(c.optionalFields(r, x)) == 0 {
			nt = x
			break
		}
	}
	if nt.T == nil {
		r.undecided("no node type with a single child to inspect")
		return
	}
	e := c.p.walkEngine(c.base)
	s, recv := e.recvState(nt)
	child := mkTerm(c.p.children(nt)[0].typ, "."+c.p.children(nt)[0].name, recv)
	f := VTerm{mkTerm(inspect.Params[1].Type(), "f")}
	s.facts[f.T] = Fact{Nil: 2}
	down := mkTerm(types.Typ[types.Bool], "f(node)")
	e.hooks.Call = func(s *State, cl *Call) bool {
		if cl.Fn == nil && valKey(cl.Recv) == valKey(f) && len(cl.Args) == 1 {
			n := nodeVal(cl.Args[0])
			s.emit("f", n)
			if valKey(n) == valKey(recv) {
				s.ret(cl, VTerm{down})
			} else {
				s.ret(cl, VBool{false})
			}
			return true
		}
		return false
	}
	where := c.p.posOf(inspect, nil)
	e.hooks.Panic = func(s *State) {
		r.find(Finding{"panic", "Inspect", where, "Inspect panics: " + valString(s.panicV), s.trail()})
	}
	e.hooks.Exit = func(s *State, res []Val) {
		r.Counts["paths of Inspect"]++
		var got []string
		for _, ev := range s.out {
			if ev.K == "f" {
				got = append(got, valKey(ev.V[0]))
			}
		}
		want := []string{valKey(recv)}
		if s.facts[down].B == 2 {
			want = append(want, valKey(VTerm{child}), valKey(VNil{}))
		} else if s.facts[down].B == 0 {
			r.find(Finding{"inspect result", "Inspect", where, "the result of the function is ignored", s.trail()})
		}
		if strings.Join(got, "|") != strings.Join(want, "|") {
			r.find(Finding{"inspect calls", "Inspect", where, fmt.Sprintf("the function is called %d times, want %d", len(got), len(want)), s.trail()})
		}
	}
	s.push(inspect, []Val{VIface{nt.T, recv}, f}, nil, nil)
	if err := e.safeRun(s); err != nil {
		r.undecided("Inspect: %v", err)
	}
	r.Minimum["paths of Inspect"] = 2
}

// ---- C19 ----

// evalCall interprets fn in a copy of the state; it must have exactly one
// outcome.
func (s *State) evalCall(fn *ssa.Function, args ...Val) (Val, *State) {
	e := *s.eng
	e.liveTab = s.eng.liveTab
	e.hooks.Head = nil
	var got Val
	var end *State
	n := 0
	e.hooks.Exit = func(x *State, res []Val) {
		n++
		if len(res) > 0 {
			got = res[0]
		}
		end = x
	}
	e.hooks.Panic = func(*State) { n += 100 }
	t := s.clone()
	t.eng = &e
	t.frames = nil
	t.push(fn, args, nil, nil)
	e.Run(t)
	s.eng.objSeq, s.eng.frameSeq = e.objSeq, e.frameSeq
	if n != 1 {
		panic(undecided{"no single outcome of " + fn.String()})
	}
	return got, end
}

// applyFuncs are Apply and the methods of its cursor.
func (c *Context) applyFuncs() (*ssa.Function, map[string]*ssa.Function) {
	apply := c.p.sqlastutil.Func("Apply")
	cur := c.p.sqlastutil.Pkg.Scope().Lookup("Cursor")
	if apply == nil || len(apply.Params) != 3 || cur == nil {
		return nil, nil
	}
	acc := map[string]*ssa.Function{}
	for _, m := range []string{"Node", "Parent", "Name", "Index", "Replace", "Delete", "InsertBefore", "InsertAfter"} {
		acc[m] = c.p.ssa.LookupMethod(types.NewPointer(cur.Type()), c.p.sqlastutil.Pkg, m)
		if acc[m] == nil {
			return nil, nil
		}
	}
	return apply, acc
}

func checkApply(c *Context, r *Report) {
	nts, err := c.p.nodeTypes()
	if err != nil {
		r.undecided("%v", err)
		return
	}
	apply, acc := c.applyFuncs()
	if apply == nil {
		r.undecided("sqlastutil.Apply or an accessor of sqlastutil.Cursor not found")
		return
	}
	r.Minimum["node types"] = 120
	r.Minimum["child fields"] = 130
	for _, nt := range nts {
		r.Counts["node types"]++
		for range c.p.children(nt) {
			r.Counts["child fields"]++
		}
		opt := c.optionalFields(r, nt)
		c.applyOne(r, apply, acc, nt, opt, nil)
	}
}

func (c *Context) applyOne(r *Report, apply *ssa.Function, acc map[string]*ssa.Function, nt nodeType, optional map[string]bool, setup func(*Engine)) {
	e := c.p.walkEngine(c.base)
	if setup != nil {
		setup(e)
	}
	s, recv := e.recvState(nt)
	ft := apply.Params[1].Type()
	pre, post := VTerm{mkTerm(ft, "pre")}, VTerm{mkTerm(ft, "post")}
	s.facts[pre.T] = Fact{Nil: 2}
	s.facts[post.T] = Fact{Nil: 2}
	goes := mkTerm(types.Typ[types.Bool], "pre(node)")
	goesOn := mkTerm(types.Typ[types.Bool], "post(node)")
	children := c.p.children(nt)
	where := c.p.posOf(apply, nil)
	// a well-formed tree has every child that rendering needs
	required := map[*Term]bool{}
	for _, ch := range children {
		if ch.kind == "one" && !optional[ch.name] {
			required[mkTerm(ch.typ, "."+ch.name, recv)] = true
		}
	}
	general := e.hooks.Decide
	e.hooks.Decide = func(s *State, a Atom) (val, known bool) {
		if a.K == "nil" && required[a.T] {
			return false, true
		}
		return general(s, a)
	}
	e.hooks.Call = func(s *State, cl *Call) bool {
		if cl.Fn != nil || len(cl.Args) != 1 {
			return false
		}
		k := valKey(cl.Recv)
		if k != valKey(pre) && k != valKey(post) {
			return false
		}
		get := func(m string) Val {
			v, _ := s.evalCall(acc[m], cl.Args[0])
			return v
		}
		n := nodeVal(get("Node"))
		parent := get("Parent")
		if k == valKey(pre) {
			s.emit("pre", n, nodeVal(parent), get("Name"), get("Index"))
			if valKey(n) == valKey(recv) {
				s.ret(cl, VTerm{goes})
				return true
			}
			if t, ok := n.(VTerm); ok && !mentionsElem(n) {
				if isNil, known := s.decide(Atom{K: "nil", T: t.T}); optional[fieldRoot(t.T)] && !(known && !isNil) {
					r.find(Finding{"nil child visited", nt.name + "." + fieldRoot(t.T), s.where(), "applies to the child although it may be nil", s.stack()})
				}
			}
			s.ret(cl, VBool{false})
			return true
		}
		s.emit("post", n, nodeVal(parent), get("Name"), get("Index"))
		if valKey(n) == valKey(recv) {
			s.ret(cl, VTerm{goesOn})
		} else {
			s.ret(cl, VBool{true})
		}
		return true
	}
	e.hooks.Panic = func(s *State) {
		r.find(Finding{"panic", nt.name, where, "Apply panics: " + valString(s.panicV), s.trail()})
	}
	exits := 0
	e.hooks.Exit = func(s *State, res []Val) {
		exits++
		r.Counts["paths"]++
		evs := visits(s, s.out)
		if len(evs) == 0 || valKey(evs[0].node) != valKey(recv) {
			r.find(Finding{"pre first", nt.name, where, "does not begin with pre(node)", s.trail()})
			return
		}
		posts := 0
		for i, ev := range s.out {
			if ev.K == "post" {
				posts++
				if valKey(ev.V[0]) != valKey(recv) {
					r.find(Finding{"post of a skipped child", nt.name, where, "post is called for a child whose pre returned false", s.trail()})
				}
				if i != len(s.out)-1 {
					r.find(Finding{"post last", nt.name, where, "goes on after post(node)", s.trail()})
				}
				if len(evs) > 0 && evs[0].parent != nil {
					for k := 1; k < 4; k++ {
						if valKey(ev.V[k]) != valKey([]Val{evs[0].parent, evs[0].name, evs[0].index}[k-1]) {
							r.find(Finding{"post cursor", nt.name, where, "the cursor of post differs from that of pre", s.trail()})
						}
					}
				}
			}
		}
		if valKey(nodeVal(res[0])) != valKey(recv) {
			r.find(Finding{"result", nt.name, where, "returns " + valString(res[0]) + " instead of the root", s.trail()})
		}
		if s.facts[goes].B != 2 {
			if len(evs) != 1 || posts != 0 {
				r.find(Finding{"pre declined", nt.name, where, "goes on after pre returned false", s.trail()})
			}
			return
		}
		if posts != 1 {
			r.find(Finding{"post", nt.name, where, fmt.Sprintf("post is called %d times", posts), s.trail()})
		}
		mid := evs[1:]
		c.coverage(r, s, nt, children, mid, where, "applied to")
		for _, ev := range mid {
			c.cursorOK(r, s, nt, children, ev, where)
		}
	}
	s.push(apply, []Val{VIface{nt.T, recv}, pre, post}, nil, nil)
	if err := e.safeRun(s); err != nil {
		r.undecided("Apply to %s: %v", nt.name, err)
	} else if exits == 0 {
		r.find(Finding{"panic", nt.name, where, "Apply never returns normally", nil})
	}
	isIncomplete(r, e)
}

// cursorOK: parent, name and index address the very place that holds the node.
func (c *Context) cursorOK(r *Report, s *State, nt nodeType, children []childField, ev visitEv, where string) {
	recv := recvTerm(nt)
	r.Counts["cursors"]++
	fld := ""
	t := innerTerm(ev.node)
	if t != nil {
		fld = fieldRoot(t)
	}
	if p, ok := ev.node.(VPtr); ok {
		for _, ch := range children {
			if s.sameAddr(nt, ch, p) {
				fld = ch.name
			}
		}
	}
	at := nt.name + "." + fld
	if valKey(ev.parent) != valKey(recv) {
		r.find(Finding{"cursor parent", at, where, "the cursor's parent is " + valString(ev.parent), s.trail()})
	}
	name, ok := strLit(ev.name)
	if !ok || name != fld {
		r.find(Finding{"cursor name", at, where, "the cursor names the field " + valString(ev.name), s.trail()})
	}
	idx, ok := ev.index.(VInt)
	if !ok {
		r.find(Finding{"cursor index", at, where, "the cursor's index is " + valString(ev.index), s.trail()})
		return
	}
	want := linC(-1)
	if t != nil && mentionsElem(ev.node) && (t.Op == "elem" || strings.HasPrefix(t.Op, "elem.")) {
		want = t.Args[1].(VInt).L
	}
	if d := s.norm(idx.L.add(want, -1)); d.key() != "0" {
		r.find(Finding{"cursor index", at, where, fmt.Sprintf("the cursor's index is %s, want %s", idx.L, want), s.trail()})
	}
}
