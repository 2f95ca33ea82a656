package main

import (
	"crypto/sha256"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Engine interprets SSA functions over the abstract values of val.go. A path
// forks only where a condition is not decided by what is known of it; states
// that reach the same point with the same knowledge are merged.
type Engine struct {
	prog    *Program
	base    map[int]*Obj // objects made by package initialisation
	baseMax int
	objSeq  int
	globals map[*ssa.Global]int
	liveTab map[*ssa.Function]*liveInfo
	// projectDiffs: relations with unknowns nothing refers to are condensed at
	// merge points; keepTerms always count as referred to
	lenFirst     bool // express lengths by other unknowns rather than the reverse
	projectDiffs bool
	keepTerms    []*Term
	reachTab     map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	heads        map[*ssa.BasicBlock]bool
	headsOK      map[*ssa.Function]bool
	hooks        Hooks

	// limits and statistics
	maxStates  int
	maxDepth   int
	states     int
	merged     int
	unmodelled map[string]int
	bounded    map[string]int // loops followed for a bounded number of iterations only
	funcs      map[*ssa.Function]bool
	sites      map[ssa.Instruction]bool
	initMode   bool
	trackText  bool
	frameSeq   int
}

// Hooks lets a client model what lies outside the analysed code and observe
// what happens inside it.
type Hooks struct {
	Call       func(s *State, c *Call) bool
	Decide     func(s *State, a Atom) (val, known bool)
	Assert     func(s *State, a Atom, val bool) (feasible, handled bool)
	BinOp      func(s *State, i *ssa.BinOp, x, y Val) (Val, bool)
	Convert    func(s *State, to types.Type, x Val) (Val, bool)
	IndexAddr  func(s *State, i ssa.Instruction, x, idx Val) (Val, bool)
	Len        func(s *State, x Val) (Val, bool)
	Append     func(s *State, typ types.Type, elem types.Type, x Val, ys []Val) (Val, bool)
	Load       func(s *State, p Val, typ types.Type) (Val, bool)
	Store      func(s *State, i ssa.Instruction, p Val, v Val) bool
	TypeAssert func(s *State, i *ssa.TypeAssert, x Val) (v Val, ok Val, handled bool)
	Slice      func(s *State, i *ssa.Slice, x Val, lo, hi Val) (Val, bool)
	Global     func(s *State, i ssa.Instruction, g *ssa.Global, write bool)
	Exit       func(s *State, res []Val)
	Panic      func(s *State)
	Head       func(s *State) bool // at a loop head; false abandons the path
	ExtraKey   func(s *State, k *keyer)
	Returned   func(s *State)          // a call has returned to the frame on top
	Subst      func(s *State, t *Term) // t was found to equal other terms
	External   func(s *State, c *Call)
	// Lookup decides a lookup of a symbolic key in a large known table.
	Lookup func(s *State, i *ssa.Lookup, m VMap, mc *mapContent, k Val) (v Val, in bool)
	// AssumeNonNil lets a client take a dereferenced symbolic value as valid.
	AssumeNonNil func(s *State, t *Term) bool
	Write        func(s *State, w Val, ps []Piece) (n, err Val)
}

type Call struct {
	Inst   ssa.Instruction
	Common *ssa.CallCommon
	Fn     *ssa.Function // resolved callee, nil when unknown
	Method *types.Func   // interface method, when the receiver is symbolic
	Recv   Val
	Args   []Val // for methods, including the receiver when Fn is known
	Res    *types.Tuple
}

func (c *Call) name() string {
	if c.Fn != nil {
		return c.Fn.String()
	}
	if c.Method != nil {
		return c.Method.FullName()
	}
	return "?"
}

// undecided is thrown when the analysis cannot decide; it fails the check.
type undecided struct{ msg string }

type alt struct {
	label string
	apply func(*State) bool
}
type forkReq struct{ alts []alt }
type abandon struct{}

func newEngine(p *Program) *Engine {
	return &Engine{
		prog: p, base: map[int]*Obj{}, globals: map[*ssa.Global]int{},
		reachTab: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{},
		liveTab:  map[*ssa.Function]*liveInfo{}, heads: map[*ssa.BasicBlock]bool{},
		headsOK: map[*ssa.Function]bool{}, maxStates: 400000, maxDepth: 60,
		unmodelled: map[string]int{}, bounded: map[string]int{}, funcs: map[*ssa.Function]bool{}, sites: map[ssa.Instruction]bool{},
	}
}

func (e *Engine) newState() *State {
	return &State{eng: e, heap: map[int]*Obj{}, lazy: map[*Term]int{}, facts: map[*Term]Fact{}, subst: map[*Term]Lin{}}
}

// ---- facts ----

type Atom struct {
	K   string // nil true type streq ge0 eq0
	T   *Term
	L   Lin
	Typ types.Type
	S   string
}

func (a Atom) String() string {
	switch a.K {
	case "nil":
		return a.T.String() + " == nil"
	case "true":
		return a.T.String()
	case "type":
		return a.T.String() + " is a " + typeName(a.Typ)
	case "streq":
		return fmt.Sprintf("%s == %q", a.T, a.S)
	case "ge0":
		return a.L.String() + " >= 0"
	case "eq0":
		return a.L.String() + " == 0"
	}
	return a.K
}

func lenTerm(v Val) *Term { return mkTerm(types.Typ[types.Int], "len", v) }

func (s *State) norm(l Lin) Lin {
	if len(s.subst) == 0 {
		return l
	}
	for n := 0; n < 50; n++ {
		hit := false
		for _, t := range l.T {
			if r, ok := s.subst[t.T]; ok {
				l = l.add(linT(t.T), -t.K).add(r, t.K)
				hit = true
				break
			}
		}
		if !hit {
			return l
		}
	}
	return l
}

func (s *State) bounds(t *Term) (lo, hi *int64) {
	f := s.facts[t]
	lo, hi = f.Lo, f.Hi
	if (lo == nil || hi == nil) && !t.fresh() {
		if el, eh, ok := s.eng.prog.enumRange(t.Typ); ok {
			if lo == nil {
				lo = &el
			}
			if hi == nil {
				hi = &eh
			}
			return
		}
	}
	if lo == nil {
		nn := t.Op == "len" || t.Op == "fresh:count"
		if b, ok := under(t.Typ).(*types.Basic); t.Typ != nil && ok && b.Info()&types.IsUnsigned != 0 {
			nn = true
		}
		if nn {
			z := int64(0)
			lo = &z
		}
	}
	return
}

func (s *State) linBounds(l Lin) (lo, hi *int64) {
	a, b := l.C, l.C
	lo, hi = &a, &b
	for _, t := range l.T {
		tl, th := s.bounds(t.T)
		if t.K < 0 {
			tl, th = th, tl
		}
		if tl == nil {
			lo = nil
		} else if lo != nil {
			*lo += t.K * *tl
		}
		if th == nil {
			hi = nil
		} else if hi != nil {
			*hi += t.K * *th
		}
	}
	return
}

func (s *State) decide(a Atom) (bool, bool) {
	if s.eng.hooks.Decide != nil {
		if v, ok := s.eng.hooks.Decide(s, a); ok {
			return v, true
		}
	}
	switch a.K {
	case "nil":
		f := s.facts[a.T]
		if f.Nil != 0 {
			return f.Nil == 1, true
		}
		if f.T != nil {
			return false, true
		}
		if a.T.Typ != nil {
			if _, ok := under(a.T.Typ).(*types.Slice); ok {
				// a slice with elements is not nil
				if v, ok := s.decide(Atom{K: "ge0", L: linT(lenTerm(VTerm{a.T})).add(linC(1), -1)}); ok && v {
					return false, true
				}
			}
		}
	case "true":
		if f := s.facts[a.T]; f.B != 0 {
			return f.B == 2, true
		}
	case "type":
		f := s.facts[a.T]
		if f.Nil == 1 {
			return false, true
		}
		if f.T != nil {
			return types.Identical(f.T, a.Typ), true
		}
		for _, t := range f.NotT {
			if types.Identical(t, a.Typ) {
				return false, true
			}
		}
	case "streq":
		f := s.facts[a.T]
		if f.Eq != nil {
			return *f.Eq == a.S, true
		}
		for _, n := range f.Neq {
			if n == a.S {
				return false, true
			}
		}
	case "ge0":
		l := s.norm(a.L)
		if l.isConst() {
			return l.C >= 0, true
		}
		lo, hi := s.linBounds(l)
		if lo != nil && *lo >= 0 {
			return true, true
		}
		if hi != nil && *hi < 0 {
			return false, true
		}
		for _, q := range s.ineqs {
			q = s.norm(q)
			if d := l.add(q, -1); d.isConst() && d.C >= 0 {
				return true, true
			} else if lo, _ := s.linBounds(d); lo != nil && *lo >= 0 {
				return true, true
			}
			d := l.scale(-1).add(linC(-1), 1).add(q, -1)
			if d.isConst() && d.C >= 0 {
				return false, true
			} else if lo, _ := s.linBounds(d); lo != nil && *lo >= 0 {
				return false, true
			}
		}
		if s.eng.projectDiffs {
			return s.diffGE(l)
		}
	case "eq0":
		l := s.norm(a.L)
		if l.isConst() {
			return l.C == 0, true
		}
		lo, hi := s.linBounds(l)
		if lo != nil && *lo > 0 || hi != nil && *hi < 0 {
			return false, true
		}
		if lo != nil && hi != nil && *lo == 0 && *hi == 0 {
			return true, true
		}
		if len(l.T) == 1 && (l.T[0].K == 1 || l.T[0].K == -1) {
			c := -l.C * l.T[0].K
			for _, n := range s.facts[l.T[0].T].NeqI {
				if n == c {
					return false, true
				}
			}
		}
		for _, q := range s.neqs {
			q = s.norm(q)
			if d := l.add(q, -1); d.isConst() && d.C == 0 {
				return false, true
			}
			if d := l.add(q, 1); d.isConst() && d.C == 0 {
				return false, true
			}
		}
		for _, q := range s.ineqs {
			q = s.norm(q)
			// q>=0 and l = q+c, c>0 : l>0.   q>=0 and -l = q+c, c>0: l<0
			if d := l.add(q, -1); d.isConst() && d.C > 0 {
				return false, true
			}
			if d := l.scale(-1).add(q, -1); d.isConst() && d.C > 0 {
				return false, true
			}
		}
	}
	return false, false
}

// assert records that a is val; it reports whether that is possible.
func (s *State) assert(a Atom, val bool) bool {
	if v, ok := s.decide(a); ok {
		return v == val
	}
	if val {
		s.note("%s", a)
	} else {
		s.note("not(%s)", a)
	}
	if s.eng.hooks.Assert != nil {
		if ok, handled := s.eng.hooks.Assert(s, a, val); handled {
			return ok
		}
	}
	switch a.K {
	case "nil":
		f := s.facts[a.T]
		f.Nil = 2
		if val {
			f.Nil = 1
		}
		s.facts[a.T] = f
		if val && a.T.Typ != nil {
			if _, ok := under(a.T.Typ).(*types.Slice); ok {
				return s.assertQuiet(Atom{K: "eq0", L: linT(lenTerm(VTerm{a.T}))}, true)
			}
		}
	case "true":
		f := s.facts[a.T]
		f.B = 1
		if val {
			f.B = 2
		}
		s.facts[a.T] = f
	case "type":
		f := s.facts[a.T]
		if val {
			f.T = a.Typ
			f.Nil = 2
			f.NotT = nil
		} else {
			f.NotT = append(f.NotT[:len(f.NotT):len(f.NotT)], a.Typ)
		}
		s.facts[a.T] = f
	case "streq":
		f := s.facts[a.T]
		if val {
			x := a.S
			f.Eq = &x
			f.Neq = nil
		} else {
			f.Neq = append(f.Neq[:len(f.Neq):len(f.Neq)], a.S)
		}
		s.facts[a.T] = f
	case "ge0":
		l := s.norm(a.L)
		if !val {
			l = l.scale(-1).add(linC(-1), 1)
		}
		return s.addGe0(l)
	case "eq0":
		l := s.norm(a.L)
		if val {
			return s.addEq0(l)
		}
		if len(l.T) == 1 && (l.T[0].K == 1 || l.T[0].K == -1) {
			t := l.T[0].T
			c := -l.C * l.T[0].K
			f := s.facts[t]
			lo, hi := s.bounds(t)
			if lo != nil && *lo == c {
				n := c + 1
				f.Lo = &n
			} else if hi != nil && *hi == c {
				n := c - 1
				f.Hi = &n
			} else {
				f.NeqI = append(f.NeqI[:len(f.NeqI):len(f.NeqI)], c)
			}
			s.facts[t] = f
			if f.Lo != nil && f.Hi != nil {
				if *f.Lo > *f.Hi {
					return false
				}
				if *f.Lo == *f.Hi {
					return s.addEq0(linT(t).add(linC(*f.Lo), -1))
				}
			}
			return true
		}
		// l != 0 together with l >= 0 or l <= 0
		if v, ok := s.decide(Atom{K: "ge0", L: l}); ok {
			if v {
				return s.addGe0(l.add(linC(1), -1))
			}
			return true
		}
		if v, ok := s.decide(Atom{K: "ge0", L: l.scale(-1)}); ok && v {
			return s.addGe0(l.scale(-1).add(linC(1), -1))
		}
		s.neqs = append(s.neqs[:len(s.neqs):len(s.neqs)], l)
	}
	return true
}

func (s *State) addGe0(l Lin) bool {
	if l.isConst() {
		return l.C >= 0
	}
	if len(l.T) == 1 && (l.T[0].K == 1 || l.T[0].K == -1) {
		t := l.T[0].T
		f := s.facts[t]
		if l.T[0].K == 1 {
			n := -l.C
			if f.Lo == nil || *f.Lo < n {
				f.Lo = &n
			}
			for again := true; again; {
				again = false
				for _, x := range f.NeqI {
					if x == *f.Lo {
						m := *f.Lo + 1
						f.Lo = &m
						again = true
					}
				}
			}
		} else {
			n := l.C
			if f.Hi == nil || *f.Hi > n {
				f.Hi = &n
			}
			for again := true; again; {
				again = false
				for _, x := range f.NeqI {
					if x == *f.Hi {
						m := *f.Hi - 1
						f.Hi = &m
						again = true
					}
				}
			}
		}
		s.facts[t] = f
		lo, hi := s.bounds(t)
		if lo != nil && hi != nil {
			if *lo > *hi {
				return false
			}
			if *lo == *hi {
				return s.addEq0(linT(t).add(linC(*lo), -1))
			}
		}
		return true
	}
	s.ineqs = append(s.ineqs[:len(s.ineqs):len(s.ineqs)], l)
	for _, q := range s.ineqs {
		q = s.norm(q)
		if d := q.add(l, 1); d.isConst() {
			if d.C < 0 {
				return false
			}
			if d.C == 0 {
				return s.addEq0(l)
			}
		}
	}
	if _, hi := s.linBounds(l); hi != nil {
		if *hi < 0 {
			return false
		}
		if *hi == 0 {
			return s.addEq0(l)
		}
	}
	return true
}

func (s *State) addEq0(l Lin) bool {
	if l.isConst() {
		return l.C == 0
	}
	best := -1
	for i, t := range l.T {
		if t.K == 1 || t.K == -1 {
			// prefer to substitute lengths and plain unknowns over counters
			if best < 0 || l.T[best].T.Op == "fresh:count" || s.eng.lenFirst && t.T.Op == "len" {
				best = i
			}
		}
	}
	if best < 0 {
		return true
	}
	if s.eng.lenFirst && l.T[best].T.Op != "len" {
		// eliminate the newest unknown, and named ones last
		for i, t := range l.T {
			if (t.K == 1 || t.K == -1) && t.T.fresh() && (!l.T[best].T.fresh() || t.T.id > l.T[best].T.id) {
				best = i
			}
		}
	}
	t, k := l.T[best].T, l.T[best].K
	r := l.add(linT(t), -k).scale(-k)
	lo, hi := s.bounds(t)
	s.subst[t] = r
	if s.eng.hooks.Subst != nil {
		s.eng.hooks.Subst(s, t)
	}
	ok := true
	if lo != nil {
		ok = ok && s.assertQuiet(Atom{K: "ge0", L: r.add(linC(*lo), -1)}, true)
	}
	if hi != nil {
		ok = ok && s.assertQuiet(Atom{K: "ge0", L: r.scale(-1).add(linC(*hi), 1)}, true)
	}
	for _, n := range s.facts[t].NeqI {
		ok = ok && s.assertQuiet(Atom{K: "eq0", L: r.add(linC(n), -1)}, false)
	}
	return ok
}

func (s *State) assertQuiet(a Atom, val bool) bool {
	l := s.log
	ok := s.assert(a, val)
	s.log = l
	return ok
}

// must decides a, forking the path when nothing is known.
func (s *State) must(a Atom) bool {
	if s.eng.hooks.Decide != nil {
		// the client's assumptions hold of every element alike
		if v, ok := s.eng.hooks.Decide(s, a); ok {
			return v
		}
	}
	if v, ok := s.decide(a); ok {
		if s.recs != nil && a.T != nil && !s.facts[a.T].Assumed && mentionsElem(VTerm{a.T}) {
			s.elemUse++
		}
		if a.K == "ge0" && s.recs != nil {
			s.guards = append(s.guards[:len(s.guards):len(s.guards)], guard{a.L, v})
		}
		return v
	}
	panic(forkReq{[]alt{
		{"", func(n *State) bool { return n.assert(a, true) }},
		{"", func(n *State) bool { return n.assert(a, false) }},
	}})
}

func (s *State) isNil(v Val) bool {
	switch v := v.(type) {
	case VNil:
		return true
	case VTerm:
		return s.must(Atom{K: "nil", T: v.T})
	case VTop:
		panic(undecided{"a value that is not known may be nil in " + s.where() + " " + s.top().block.Instrs[s.top().pc].String()})
	case interface{ isNil(*State) bool }:
		return v.isNil(s)
	}
	return false
}

// nilDeref is isNil for a value about to be dereferenced.
func (s *State) nilDeref(v Val) bool {
	if t, ok := v.(VTerm); ok && s.eng.hooks.AssumeNonNil != nil {
		a := Atom{K: "nil", T: t.T}
		if b, ok := s.decide(a); ok {
			return b
		}
		if s.eng.hooks.AssumeNonNil(s, t.T) {
			s.assertQuiet(a, false)
			f := s.facts[t.T]
			f.Assumed = true
			s.facts[t.T] = f
			return false
		}
	}
	return s.isNil(v)
}

func (s *State) truth(v Val) bool {
	switch v := v.(type) {
	case VBool:
		return v.B
	case VTerm:
		return s.must(Atom{K: "true", T: v.T})
	}
	panic(undecided{fmt.Sprintf("condition of unknown value %s in %s", valString(v), s.where())})
}

func (s *State) where() string {
	if len(s.frames) == 0 {
		return "?"
	}
	f := s.top()
	return s.eng.prog.posOf(f.fn, f.block.Instrs[f.pc])
}

// stack renders the call stack of the state.
func (s *State) stack() []string {
	var out []string
	for i := len(s.frames) - 1; i >= 0; i-- {
		f := s.frames[i]
		out = append(out, s.eng.prog.posOf(f.fn, f.block.Instrs[f.pc]))
	}
	return out
}

// ---- running ----

// call starts fn in a new frame.
func (s *State) push(fn *ssa.Function, args, bind []Val, inst ssa.Instruction) *Frame {
	if len(s.frames) >= s.eng.maxDepth {
		panic(undecided{"call depth exceeded at " + fn.String()})
	}
	if fn.Blocks == nil {
		panic(undecided{"no body for " + fn.String()})
	}
	s.eng.frameSeq++
	f := &Frame{fn: fn, block: fn.Blocks[0], env: map[ssa.Value]Val{}, call: inst, id: s.eng.frameSeq}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		} else {
			f.env[p] = VTop{}
		}
	}
	for i, fv := range fn.FreeVars {
		f.env[fv] = bind[i]
	}
	s.eng.funcs[fn] = true
	s.frames = append(s.frames[:len(s.frames):len(s.frames)], f)
	return f
}

// Run explores every path from the initial state until its outermost frame
// returns or panics.
func (e *Engine) Run(init *State) {
	init.eng = e
	work := []*State{init}
	seen := map[[32]byte]bool{}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		work = append(work, e.advance(s, seen)...)
	}
}

func (e *Engine) advance(s *State, seen map[[32]byte]bool) (next []*State) {
	for !s.dead {
		if len(s.frames) == 0 {
			return nil
		}
		f := s.top()
		// merge points: block entries and returns into a caller
		if !e.initMode && f.mark != f.block.Index*1000+f.pc+1 && (e.isFirst(f) || f.mark < 0) {
			if f.mark < 0 && e.hooks.Returned != nil {
				e.hooks.Returned(s)
			}
			joins := f.mark < 0 || !e.isFirst(f) || len(f.block.Preds) != 1
			f.mark = f.block.Index*1000 + f.pc + 1
			if e.isFirst(f) && e.isHead(f.block) && e.hooks.Head != nil && len(f.block.Preds) > 0 && f.prev != nil {
				keep := true
				if forked := s.try(func() { keep = e.hooks.Head(s) }, &next); forked {
					return next
				}
				if !keep {
					return nil
				}
			}
			e.states++
			// a block with one way in cannot join paths
			if joins {
				k := sha256.Sum256([]byte(s.key()))
				if seen[k] {
					e.merged++
					e.states--
					return nil
				}
				seen[k] = true
			}
			if e.states > e.maxStates {
				panic(undecided{fmt.Sprintf("more than %d abstract states (at %s)", e.maxStates, s.where())})
			}
			// forget what is dead
			for i, fr := range s.frames {
				live := e.liveAt(fr, i == len(s.frames)-1 || s.frames[i+1].isDeferred)
				if len(live) < len(fr.env) {
					env := make(map[ssa.Value]Val, len(live))
					for _, v := range live {
						if x, ok := fr.env[v]; ok {
							env[v] = x
						}
					}
					g := *fr
					g.env = env
					s.frames[i] = &g
				}
			}
		}
		if forked := s.try(s.step, &next); forked {
			return next
		}
	}
	return nil
}

// try runs one step; when it asks for a fork, the states in which to run it
// again are added to next.
func (s *State) try(step func(), next *[]*State) (forked bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch r := r.(type) {
		case forkReq:
			forked = true
			for i := len(r.alts) - 1; i >= 0; i-- {
				a := r.alts[i]
				n := s.clone()
				if a.label != "" {
					n.note("%s", a.label)
				}
				if a.apply == nil || a.apply(n) {
					*next = append(*next, n)
				}
			}
		case abandon:
			s.dead = true
		default:
			panic(r)
		}
	}()
	step()
	return
}

func (e *Engine) isFirst(f *Frame) bool {
	if f.pc == 0 {
		return true
	}
	if _, ok := f.block.Instrs[f.pc-1].(*ssa.Phi); ok {
		_, ok := f.block.Instrs[f.pc].(*ssa.Phi)
		return !ok
	}
	return false
}

// isHead reports whether b is the target of a back edge.
func (e *Engine) isHead(b *ssa.BasicBlock) bool {
	fn := b.Parent()
	if !e.headsOK[fn] {
		e.headsOK[fn] = true
		state := map[*ssa.BasicBlock]int{}
		var dfs func(*ssa.BasicBlock)
		dfs = func(x *ssa.BasicBlock) {
			state[x] = 1
			for _, y := range x.Succs {
				if state[y] == 1 {
					e.heads[y] = true
				} else if state[y] == 0 {
					dfs(y)
				}
			}
			state[x] = 2
		}
		dfs(fn.Blocks[0])
	}
	return e.heads[b]
}

func (s *State) jump(to *ssa.BasicBlock) {
	f := s.top()
	from := f.block
	// evaluate the phis together
	var phis []*ssa.Phi
	for _, i := range to.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	vals := make([]Val, len(phis))
	for j, p := range to.Preds {
		if p == from {
			for i, phi := range phis {
				vals[i] = s.eval(phi.Edges[j])
			}
			break
		}
	}
	for i, phi := range phis {
		f.env[phi] = vals[i]
	}
	f.prev = from
	f.block = to
	f.pc = len(phis)
	f.mark = 0
}

func (s *State) eval(v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(v)
	case *ssa.Global:
		return VPtr{Obj: s.eng.globalObj(v)}
	case *ssa.Function:
		return VFunc{Fn: v}
	case *ssa.Builtin:
		return VBuiltin{v.Name()}
	}
	x, ok := s.top().env[v]
	if !ok {
		panic(undecided{fmt.Sprintf("value %s undefined in %s", v.Name(), s.where())})
	}
	return x
}

func (e *Engine) globalObj(g *ssa.Global) int {
	if id, ok := e.globals[g]; ok {
		return id
	}
	pt := under(g.Type()).(*types.Pointer).Elem()
	e.objSeq++
	id := e.objSeq
	var v Val
	if g.Pkg != nil && e.prog.ours(g.Pkg.Pkg) && e.initMode {
		v = zeroVal(pt)
	} else if types.Identical(pt, types.Universe.Lookup("error").Type()) {
		// an error variable of another package holds its own error value
		e.objSeq++
		et := e.prog.errorStringT
		e.base[e.objSeq] = &Obj{Typ: under(et).(*types.Pointer).Elem(), V: VAgg{[]Val{litStr(g.String())}}, Tag: "error " + g.String()}
		v = VIface{et, VPtr{Obj: e.objSeq}}
	} else {
		v = symVal(pt, func(t types.Type, suffix string) *Term {
			return mkTerm(t, "global:"+g.String()+suffix)
		}, "")
	}
	e.base[id] = &Obj{Typ: pt, V: v, Tag: "global " + g.String()}
	e.globals[g] = id
	return id
}

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch {
	case isBool(t):
		return VBool{constant.BoolVal(c.Value)}
	case isInt(t):
		if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return VInt{linC(n)}
		}
		return VConst{c.Value}
	case isString(t):
		return litStr(constant.StringVal(c.Value))
	}
	return VConst{c.Value}
}

func (s *State) set(i ssa.Value, v Val) {
	f := s.top()
	f.env[i] = v
}

func (s *State) load(p Val, typ types.Type) Val {
	if s.eng.hooks.Load != nil {
		if v, ok := s.eng.hooks.Load(s, p, typ); ok {
			return v
		}
	}
	switch p := p.(type) {
	case VPtr:
		o := s.get(p.Obj)
		if o == nil {
			panic(undecided{"load from a forgotten object in " + s.where()})
		}
		return readPath(o.V, p.Path)
	case VTerm:
		id := s.objOf(p.T)
		return s.get(id).V
	case VElem:
		return symVal(typ, func(t types.Type, sfx string) *Term { return mkTerm(t, "elem"+sfx, p.L, p.I) }, "")
	case VTop:
		return freshVal(typ, "load")
	}
	panic(undecided{fmt.Sprintf("load from %s in %s", valString(p), s.where())})
}

func (s *State) store(i ssa.Instruction, p Val, v Val) {
	if s.eng.hooks.Store != nil && s.eng.hooks.Store(s, i, p, v) {
		return
	}
	switch p := p.(type) {
	case VPtr:
		o := s.get(p.Obj)
		if o == nil {
			panic(undecided{"store to a forgotten object in " + s.where()})
		}
		if o.Tag == "copy" {
			panic(undecided{"a rune of a text is changed in " + s.where()})
		}
		n := *o
		n.V = writePath(o.V, p.Path, v)
		s.heap[p.Obj] = &n
		return
	case VTerm:
		id := s.objOf(p.T)
		n := *s.get(id)
		n.V = v
		s.heap[id] = &n
		return
	case VElem, VTop:
		return
	}
	panic(undecided{fmt.Sprintf("store to %s in %s", valString(p), s.where())})
}

// VElem points to an element of a symbolic slice.
type VElem struct{ L, I Val }

func (v VElem) valKey() string { return "E" + valKey(v.L) + "[" + valKey(v.I) + "]" }
func (v VElem) writeKey(k *keyer) {
	k.b.WriteByte('E')
	k.val(v.L)
	k.b.WriteByte('[')
	k.val(v.I)
	k.b.WriteByte(']')
}

// VFault is the value of a run-time panic.
type VFault struct {
	Kind  string
	At    ssa.Instruction
	Fn    *ssa.Function
	Pos   string
	Trail []string
}

func (v VFault) valKey() string { return "fault:" + v.Kind + ":" + v.Pos }

// fault starts a run-time panic at the current instruction.
func (s *State) fault(kind string) {
	f := s.top()
	s.startPanic(VFault{Kind: kind, At: f.block.Instrs[f.pc], Fn: f.fn, Pos: s.where(), Trail: s.stack()})
}

func (s *State) startPanic(v Val) {
	s.panicV = v
	s.top().panicking = true
}

func (s *State) step() {
	s.steps++
	if s.steps > 20000000 {
		panic(undecided{"path too long in " + s.where()})
	}
	f := s.top()
	if f.panicking {
		s.unwind()
		return
	}
	i := f.block.Instrs[f.pc]
	s.exec(f, i)
}

// unwind runs the deferred calls of a panicking frame, or drops it.
func (s *State) unwind() {
	f := s.top()
	if f.recovered {
		f.panicking = false
		f.recovered = false
		s.panicV = nil
		if f.fn.Recover != nil {
			f.prev = nil
			f.block = f.fn.Recover
			f.pc = 0
			f.mark = 0
			return
		}
		var res []Val
		for j := 0; j < f.fn.Signature.Results().Len(); j++ {
			res = append(res, zeroVal(f.fn.Signature.Results().At(j).Type()))
		}
		s.doReturn(res)
		return
	}
	if n := len(f.defers); n > 0 {
		d := f.defers[n-1]
		f.defers = f.defers[:n-1]
		s.callDeferred(d)
		return
	}
	if len(s.frames) == 1 {
		if s.eng.hooks.Panic != nil {
			s.eng.hooks.Panic(s)
		}
		s.dead = true
		return
	}
	below := s.frames[len(s.frames)-2]
	s.frames = s.frames[:len(s.frames)-1]
	if f.isDeferred && below.panicking {
		// a panic in a deferred call replaces the one being unwound
		if below.recovered {
			below = below.clone()
			below.recovered = false
			s.frames[len(s.frames)-1] = below
		}
		return
	}
	below.panicking = true
}

func (s *State) callDeferred(d deferred) {
	switch fn := d.fn.(type) {
	case VFunc:
		if fn.Fn.Blocks != nil && s.eng.prog.analysed(fn.Fn) {
			fr := s.push(fn.Fn, d.args, fn.Bind, d.inst)
			fr.isDeferred = true
			return
		}
		if _, ok := models[fn.Fn.String()]; !ok {
			s.eng.unmodelled[fn.Fn.String()]++
		}
		return
	case VBuiltin:
		return
	}
	panic(undecided{"deferred call of an unknown function in " + s.where()})
}

func (s *State) doReturn(res []Val) {
	f := s.top()
	if len(s.frames) == 1 {
		if s.eng.hooks.Exit != nil {
			s.eng.hooks.Exit(s, res)
		}
		s.dead = true
		return
	}
	s.frames = s.frames[:len(s.frames)-1]
	g := s.top()
	g.mark = -1
	if f.isDeferred {
		return // the frame below continues to run its deferred calls
	}
	s.setResult(g, f.call, res)
}

func (s *State) setResult(g *Frame, call ssa.Instruction, res []Val) {
	if v, ok := call.(ssa.Value); ok {
		if len(res) == 1 {
			g.env[v] = res[0]
		} else {
			g.env[v] = VAgg{res}
		}
	}
	g.pc++
}

func (s *State) exec(f *Frame, i ssa.Instruction) {
	switch i := i.(type) {
	case *ssa.Alloc:
		t := under(i.Type()).(*types.Pointer).Elem()
		s.eng.objSeq++
		id := s.eng.objSeq
		s.heap[id] = &Obj{Typ: t, V: zeroVal(t), Site: i}
		f.env[i] = VPtr{Obj: id}
	case *ssa.Phi:
		panic(undecided{"phi executed out of order"})
	case *ssa.BinOp:
		f.env[i] = s.binop(i, s.eval(i.X), s.eval(i.Y))
	case *ssa.UnOp:
		s.unop(f, i)
		if f.panicking {
			return
		}
	case *ssa.ChangeType:
		f.env[i] = s.eval(i.X)
	case *ssa.ChangeInterface:
		f.env[i] = s.eval(i.X)
	case *ssa.Convert:
		f.env[i] = s.convert(i.X.Type(), i.Type(), s.eval(i.X))
	case *ssa.MakeInterface:
		f.env[i] = VIface{i.X.Type(), s.eval(i.X)}
	case *ssa.MakeClosure:
		var b []Val
		for _, x := range i.Bindings {
			b = append(b, s.eval(x))
		}
		f.env[i] = VFunc{i.Fn.(*ssa.Function), b}
	case *ssa.MakeMap:
		id := s.newObj(i.Type(), nil)
		s.heap[id].Map = &mapContent{KeyV: map[string]Val{}, Elem: map[string]Val{}}
		f.env[i] = VMap{id}
	case *ssa.MakeSlice:
		s.makeSlice(f, i)
	case *ssa.MakeChan, *ssa.Go, *ssa.Select, *ssa.Send:
		panic(undecided{"concurrency in " + s.where()})
	case *ssa.FieldAddr:
		x := s.eval(i.X)
		if s.nilDeref(x) {
			s.fault("nil dereference")
			return
		}
		switch p := x.(type) {
		case VPtr:
			f.env[i] = VPtr{p.Obj, p.Path + fmt.Sprintf(".%d", i.Field)}
		case VTerm:
			f.env[i] = VPtr{s.objOf(p.T), fmt.Sprintf(".%d", i.Field)}
		case VElem:
			f.env[i] = VTop{}
			panic(undecided{"field of an element of an unknown slice of structs in " + s.where()})
		default:
			f.env[i] = VTop{}
		}
	case *ssa.Field:
		switch x := s.eval(i.X).(type) {
		case VAgg:
			f.env[i] = x.F[i.Field]
		default:
			f.env[i] = freshVal(i.Type(), "field")
		}
	case *ssa.IndexAddr:
		s.indexAddr(f, i)
		if f.panicking {
			return
		}
	case *ssa.Index:
		x, idx := s.eval(i.X), s.eval(i.Index)
		if a, ok := x.(VAgg); ok {
			if n, ok := s.constInt(idx); ok && n >= 0 && n < int64(len(a.F)) {
				f.env[i] = a.F[n]
				break
			}
		}
		if l, ok := strLit(x); ok {
			if n, ok := s.constInt(idx); ok && n >= 0 && n < int64(len(l)) {
				f.env[i] = VInt{linC(int64(l[n]))}
				break
			}
		}
		f.env[i] = callVal(i.Type(), "index", x, idx)
	case *ssa.Lookup:
		f.env[i] = s.lookup(i)
	case *ssa.Extract:
		switch x := s.eval(i.Tuple).(type) {
		case VAgg:
			f.env[i] = x.F[i.Index]
		default:
			f.env[i] = freshVal(i.Type(), "extract")
		}
	case *ssa.Slice:
		s.slice(f, i)
		if f.panicking {
			return
		}
	case *ssa.Range:
		f.env[i] = s.rangeIter(s.eval(i.X), i)
	case *ssa.Next:
		s.next(f, i)
	case *ssa.TypeAssert:
		s.typeAssert(f, i)
		if f.panicking {
			return
		}
	case *ssa.Store:
		p := s.eval(i.Addr)
		if s.nilDeref(p) {
			s.fault("nil dereference")
			return
		}
		s.store(i, p, s.eval(i.Val))
	case *ssa.MapUpdate:
		s.mapUpdate(i)
		if f.panicking {
			return
		}
	case *ssa.Call:
		s.call(f, i, &i.Call)
		return
	case *ssa.Defer:
		d := deferred{inst: i}
		if i.Call.IsInvoke() {
			panic(undecided{"deferred interface call in " + s.where()})
		}
		d.fn = s.eval(i.Call.Value)
		for _, a := range i.Call.Args {
			d.args = append(d.args, s.eval(a))
		}
		f.defers = append(f.defers, d)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			s.callDeferred(d)
			return
		}
	case *ssa.If:
		if s.truth(s.eval(i.Cond)) {
			s.jump(f.block.Succs[0])
		} else {
			s.jump(f.block.Succs[1])
		}
		return
	case *ssa.Jump:
		s.jump(f.block.Succs[0])
		return
	case *ssa.Return:
		var res []Val
		for _, r := range i.Results {
			res = append(res, s.eval(r))
		}
		s.doReturn(res)
		return
	case *ssa.Panic:
		s.startPanic(s.eval(i.X))
		return
	case *ssa.DebugRef:
	default:
		panic(undecided{fmt.Sprintf("instruction %T in %s", i, s.where())})
	}
	f.pc++
}

func (s *State) constInt(v Val) (int64, bool) {
	if x, ok := v.(VInt); ok {
		if l := s.norm(x.L); l.isConst() {
			return l.C, true
		}
	}
	return 0, false
}

func (s *State) unop(f *Frame, i *ssa.UnOp) {
	x := s.eval(i.X)
	switch i.Op {
	case token.MUL:
		if g, ok := i.X.(*ssa.Global); ok && s.eng.hooks.Global != nil {
			s.eng.hooks.Global(s, i, g, false)
		}
		if s.nilDeref(x) {
			s.fault("nil dereference")
			return
		}
		f.env[i] = s.load(x, i.Type())
	case token.NOT:
		f.env[i] = VBool{!s.truth(x)}
	case token.SUB:
		if v, ok := x.(VInt); ok {
			f.env[i] = VInt{v.L.scale(-1)}
		} else if c, ok := x.(VConst); ok {
			f.env[i] = VConst{constant.UnaryOp(token.SUB, c.C, 0)}
		} else {
			f.env[i] = callVal(i.Type(), "neg", x)
		}
	case token.XOR:
		f.env[i] = callVal(i.Type(), "compl", x)
	default:
		panic(undecided{"unary operator in " + s.where()})
	}
}

func (s *State) binop(i *ssa.BinOp, x, y Val) Val {
	if s.eng.hooks.BinOp != nil {
		if v, ok := s.eng.hooks.BinOp(s, i, x, y); ok {
			return v
		}
	}
	switch i.Op {
	case token.EQL:
		return VBool{s.equal(x, y)}
	case token.NEQ:
		return VBool{!s.equal(x, y)}
	}
	if a, ok := x.(VInt); ok {
		if b, ok := y.(VInt); ok {
			switch i.Op {
			case token.ADD:
				return VInt{s.norm(a.L).add(s.norm(b.L), 1)}
			case token.SUB:
				return VInt{s.norm(a.L).add(s.norm(b.L), -1)}
			case token.LSS:
				return VBool{!s.must(Atom{K: "ge0", L: a.L.add(b.L, -1)})}
			case token.GEQ:
				return VBool{s.must(Atom{K: "ge0", L: a.L.add(b.L, -1)})}
			case token.GTR:
				return VBool{!s.must(Atom{K: "ge0", L: b.L.add(a.L, -1)})}
			case token.LEQ:
				return VBool{s.must(Atom{K: "ge0", L: b.L.add(a.L, -1)})}
			}
			an, bn := s.norm(a.L), s.norm(b.L)
			if i.Op == token.MUL {
				if an.isConst() {
					return VInt{bn.scale(an.C)}
				}
				if bn.isConst() {
					return VInt{an.scale(bn.C)}
				}
			}
			if an.isConst() && bn.isConst() {
				switch i.Op {
				case token.QUO, token.REM:
					if bn.C != 0 {
						if i.Op == token.QUO {
							return VInt{linC(an.C / bn.C)}
						}
						return VInt{linC(an.C % bn.C)}
					}
				case token.AND:
					return VInt{linC(an.C & bn.C)}
				case token.OR:
					return VInt{linC(an.C | bn.C)}
				case token.XOR:
					return VInt{linC(an.C ^ bn.C)}
				case token.SHL:
					return VInt{linC(an.C << uint(bn.C))}
				case token.SHR:
					return VInt{linC(an.C >> uint(bn.C))}
				case token.AND_NOT:
					return VInt{linC(an.C &^ bn.C)}
				}
			}
		}
	}
	if a, ok := x.(VStr); ok && i.Op == token.ADD {
		if b, ok := y.(VStr); ok {
			return VStr{concatPieces(a.P, b.P)}
		}
	}
	if a, ok := x.(VConst); ok {
		if b, ok := y.(VConst); ok {
			switch i.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				return VBool{constant.Compare(a.C, i.Op, b.C)}
			case token.ADD, token.SUB, token.MUL:
				return VConst{constant.BinaryOp(a.C, i.Op, b.C)}
			}
		}
	}
	if la, ok := strLit(x); ok {
		if lb, ok := strLit(y); ok {
			switch i.Op {
			case token.LSS:
				return VBool{la < lb}
			case token.GTR:
				return VBool{la > lb}
			case token.LEQ:
				return VBool{la <= lb}
			case token.GEQ:
				return VBool{la >= lb}
			}
		}
	}
	return callVal(i.Type(), "op"+i.Op.String(), x, y)
}

// equal decides x == y, forking when it is not known.
func (s *State) equal(x, y Val) bool {
	if _, ok := y.(VNil); ok {
		return s.isNil(x)
	}
	if _, ok := x.(VNil); ok {
		return s.isNil(y)
	}
	switch a := x.(type) {
	case VBool:
		if b, ok := y.(VBool); ok {
			return a.B == b.B
		}
		return s.truth(y) == a.B
	case VInt:
		if b, ok := y.(VInt); ok {
			return s.must(Atom{K: "eq0", L: a.L.add(b.L, -1)})
		}
	case VStr:
		if b, ok := y.(VStr); ok {
			return s.strEqual(a, b)
		}
	case VConst:
		if b, ok := y.(VConst); ok {
			return constant.Compare(a.C, token.EQL, b.C)
		}
	case VPtr:
		switch b := y.(type) {
		case VPtr:
			return a == b
		case VTerm:
			if id, ok := s.lazy[b.T]; ok && id == a.Obj && a.Path == "" {
				return true
			}
		}
	case VTerm:
		switch b := y.(type) {
		case VTerm:
			if a.T == b.T {
				return true
			}
			if isBool(a.T.Typ) {
				return s.truth(x) == s.truth(y)
			}
		case VBool:
			return s.truth(x) == b.B
		case VPtr, VIface:
			return s.equal2(y, x)
		}
	case VIface:
		if b, ok := y.(VIface); ok {
			if !types.Identical(a.T, b.T) {
				return false
			}
			return s.equal(a.V, b.V)
		}
		if b, ok := y.(VTerm); ok {
			return s.equal2(a, b)
		}
	case VAgg:
		if b, ok := y.(VAgg); ok && len(a.F) == len(b.F) {
			for j := range a.F {
				if !s.equal(a.F[j], b.F[j]) {
					return false
				}
			}
			return true
		}
	case VFault:
		_, ok := y.(VFault)
		return ok
	case VFunc, VMap, VSlice, VBytes:
		return false
	}
	kx, ky := valKey(x), valKey(y)
	if kx == ky {
		if _, top := x.(VTop); !top {
			return true
		}
	}
	if kx > ky {
		x, y = y, x
	}
	return s.must(Atom{K: "true", T: mkTerm(types.Typ[types.Bool], "==", x, y)})
}

// equal2 compares a value made on this path with a symbolic one.
func (s *State) equal2(x Val, t Val) bool {
	switch v := x.(type) {
	case VPtr:
		o := s.get(v.Obj)
		if tt := t.(VTerm); o != nil && v.Path == "" && o.Orig == tt.T {
			return true
		}
		if o != nil && o.Orig == nil && v.Obj > s.eng.baseMax {
			if tt := t.(VTerm); !tt.T.fresh() {
				return false // an object made here is none the caller passed in
			}
		}
	case VIface:
		tt := t.(VTerm)
		if f := s.facts[tt.T]; f.T != nil && !types.Identical(f.T, v.T) {
			return false
		}
		if f := s.facts[tt.T]; f.Nil == 1 {
			return false
		}
	}
	return s.must(Atom{K: "true", T: mkTerm(types.Typ[types.Bool], "==", x, t)})
}

func (s *State) strEqual(a, b VStr) bool {
	la, oka := piecesLit(a.P)
	lb, okb := piecesLit(b.P)
	if oka && okb {
		return la == lb
	}
	if valKey(a) == valKey(b) {
		return true
	}
	if okb {
		if t := termOf(a); t != nil {
			return s.must(Atom{K: "streq", T: t, S: lb})
		}
	}
	if oka {
		if t := termOf(b); t != nil {
			return s.must(Atom{K: "streq", T: t, S: la})
		}
	}
	return s.must(Atom{K: "true", T: mkTerm(types.Typ[types.Bool], "==", a, b)})
}

func (s *State) convert(from, to types.Type, x Val) Val {
	if s.eng.hooks.Convert != nil {
		if v, ok := s.eng.hooks.Convert(s, to, x); ok {
			return v
		}
	}
	switch {
	case isInt(from) && isInt(to):
		return x
	case isString(from) && isByteSlice(to):
		if v, ok := x.(VStr); ok {
			return VBytes{v.P}
		}
	case isByteSlice(from) && isString(to):
		switch v := x.(type) {
		case VBytes:
			return VStr{v.P}
		case VNil:
			return VStr{}
		}
	case isString(from) && isString(to):
		return x
	case isInt(from) && isString(to):
		if n, ok := s.constInt(x); ok {
			return litStr(string(rune(n)))
		}
	}
	if v, ok := x.(VSlice); ok && isString(to) {
		// a slice of runes
		var ps []Piece
		for j := 0; j < v.Len; j++ {
			e := readPath(s.get(v.Obj).V, fmt.Sprintf(".%d", v.Off+j))
			ps = concatPieces(ps, s.convert(types.Typ[types.Rune], to, e).(VStr).P)
		}
		return VStr{ps}
	}
	if _, ok := x.(VNil); ok && isString(to) {
		return VStr{}
	}
	return callVal(to, "conv:"+typeName(to), x)
}

func (s *State) makeSlice(f *Frame, i *ssa.MakeSlice) {
	el := under(i.Type()).(*types.Slice).Elem()
	n, ok := s.constInt(s.eval(i.Len))
	if !ok || n > 64 {
		t := freshTerm(i.Type(), "makeslice")
		s.facts[t] = Fact{Nil: 2}
		if l, ok := s.eval(i.Len).(VInt); ok {
			s.addEq0(linT(mkTerm(types.Typ[types.Int], "len", VTerm{t})).add(l.L, -1))
		}
		f.env[i] = VTerm{t}
		return
	}
	if isByteSlice(i.Type()) {
		if n == 0 {
			f.env[i] = VBytes{}
		} else {
			t := freshTerm(i.Type(), "bytes")
			s.facts[t] = Fact{Nil: 2}
			f.env[i] = VTerm{t}
		}
		return
	}
	fs := make([]Val, n)
	for j := range fs {
		fs[j] = zeroVal(el)
	}
	f.env[i] = VSlice{Obj: s.newObj(i.Type(), VAgg{fs}), Len: int(n)}
}

func (s *State) lenOf(x Val) Val {
	if s.eng.hooks.Len != nil {
		if v, ok := s.eng.hooks.Len(s, x); ok {
			return v
		}
	}
	switch v := x.(type) {
	case VNil:
		return VInt{linC(0)}
	case VSlice:
		return VInt{linC(int64(v.Len))}
	case VStr:
		return s.lenPieces(v.P)
	case VBytes:
		return s.lenPieces(v.P)
	case VMap:
		m := s.get(v.Obj).Map
		if !m.Opaque {
			return VInt{linC(int64(len(m.Keys)))}
		}
	case VAgg:
		return VInt{linC(int64(len(v.F)))}
	case VTerm:
		if f := s.facts[v.T]; f.Nil == 1 {
			return VInt{linC(0)}
		}
		return VInt{linT(mkTerm(types.Typ[types.Int], "len", x))}
	}
	return VInt{linT(mkTerm(types.Typ[types.Int], "len", x))}
}

func (s *State) lenPieces(ps []Piece) Val {
	l := Lin{}
	for _, p := range ps {
		if p.T == nil {
			l.C += int64(len(p.Lit))
		} else {
			l = l.add(linT(mkTerm(types.Typ[types.Int], "len", VStr{[]Piece{{T: p.T}}})), 1)
		}
	}
	return VInt{l}
}

func (s *State) indexAddr(f *Frame, i *ssa.IndexAddr) {
	x, idx := s.eval(i.X), s.eval(i.Index)
	if s.eng.hooks.IndexAddr != nil {
		if v, ok := s.eng.hooks.IndexAddr(s, i, x, idx); ok {
			if !f.panicking {
				f.env[i] = v
			}
			return
		}
	}
	if p, ok := x.(VPtr); ok { // pointer to array
		o := s.get(p.Obj)
		a, ok := readPath(o.V, p.Path).(VAgg)
		n, okn := s.constInt(idx)
		if ok && okn {
			if n < 0 || n >= int64(len(a.F)) {
				s.fault("index out of range")
				return
			}
			f.env[i] = VPtr{p.Obj, p.Path + fmt.Sprintf(".%d", n)}
			return
		}
		f.env[i] = VTop{}
		return
	}
	if _, ok := x.(VNil); ok {
		s.fault("index out of range")
		return
	}
	if t, ok := x.(VTerm); ok {
		if _, isPtr := under(t.T.Typ).(*types.Pointer); isPtr && s.nilDeref(x) {
			s.fault("nil dereference")
			return
		}
	}
	iv, ok := idx.(VInt)
	if !ok {
		f.env[i] = VTop{}
		return
	}
	ln := s.lenOf(x).(VInt)
	if !s.must(Atom{K: "ge0", L: iv.L}) || !s.must(Atom{K: "ge0", L: ln.L.add(iv.L, -1).add(linC(1), -1)}) {
		s.fault("index out of range")
		return
	}
	switch v := x.(type) {
	case VSlice:
		n, ok := s.constInt(idx)
		if !ok {
			// fork over the positions
			var alts []alt
			for j := 0; j < v.Len; j++ {
				j := j
				alts = append(alts, alt{fmt.Sprintf("index %d", j), func(n *State) bool {
					return n.assert(Atom{K: "eq0", L: iv.L.add(linC(int64(j)), -1)}, true)
				}})
			}
			panic(forkReq{alts})
		}
		f.env[i] = VPtr{v.Obj, fmt.Sprintf(".%d", v.Off+int(n))}
	case VTerm:
		f.env[i] = VElem{x, VInt{s.norm(iv.L)}}
	default:
		f.env[i] = VTop{}
	}
}

func (s *State) lookup(i *ssa.Lookup) Val {
	x, k := s.eval(i.X), s.eval(i.Index)
	mt, isMap := under(i.X.Type()).(*types.Map)
	if !isMap { // string index
		if l, ok := strLit(x); ok {
			if n, ok := s.constInt(k); ok && n >= 0 && n < int64(len(l)) {
				return VInt{linC(int64(l[n]))}
			}
		}
		return callVal(i.Type(), "index", x, k)
	}
	wrap := func(v Val, ok bool) Val {
		if i.CommaOk {
			return VAgg{[]Val{v, VBool{ok}}}
		}
		return v
	}
	if _, ok := x.(VNil); ok {
		return wrap(zeroVal(mt.Elem()), false)
	}
	m, ok := x.(VMap)
	if ok {
		mc := s.get(m.Obj).Map
		if v, ok := mc.Elem[valKey(k)]; ok {
			return wrap(v, true)
		}
		if !mc.Opaque {
			if fixedKey(k) && allFixed(mc) {
				return wrap(zeroVal(mt.Elem()), false)
			}
			if len(mc.Keys) == 0 {
				return wrap(zeroVal(mt.Elem()), false)
			}
			if s.eng.hooks.Lookup != nil && len(mc.Keys) > 16 {
				v, in := s.eng.hooks.Lookup(s, i, m, mc, k)
				if !in {
					v = zeroVal(mt.Elem())
				}
				return wrap(v, in)
			}
			if in, known := s.inMap(mc, k); known {
				if !in {
					return wrap(zeroVal(mt.Elem()), false)
				}
				if st, ok := under(mt.Elem()).(*types.Struct); ok && st.NumFields() == 0 || len(mc.Keys) > 64 {
					return wrap(freshVal(mt.Elem(), "mapelem"), true)
				}
			}
			for _, mk := range mc.Keys {
				if s.equal(k, mc.KeyV[mk]) {
					return wrap(mc.Elem[mk], true)
				}
			}
			return wrap(zeroVal(mt.Elem()), false)
		}
	}
	t := mkTerm(types.Typ[types.Bool], "inmap", x, k)
	if o, isObj := x.(VMap); isObj && s.get(o.Obj).Map.Opaque {
		t = freshTerm(types.Typ[types.Bool], "inmap")
	}
	if i.CommaOk {
		if s.must(Atom{K: "true", T: t}) {
			return wrap(callVal(mt.Elem(), "mapelem", x, k), true)
		}
		return wrap(zeroVal(mt.Elem()), false)
	}
	return freshVal(mt.Elem(), "mapelem")
}

// inMap lets the client decide membership of a symbolic key in a known map at
// once.
func (s *State) inMap(mc *mapContent, k Val) (in, known bool) {
	if s.eng.prog.inMapHook != nil {
		return s.eng.prog.inMapHook(s, mc, k)
	}
	return false, false
}

// fixedKey tells whether a key is known completely.
func fixedKey(k Val) bool {
	switch k := k.(type) {
	case VStr:
		_, lit := strLit(k)
		return lit
	case VInt:
		return k.L.isConst()
	case VBool:
		return true
	case VAgg:
		for _, f := range k.F {
			if !fixedKey(f) {
				return false
			}
		}
		return true
	}
	return false
}

func allFixed(mc *mapContent) bool {
	for _, k := range mc.Keys {
		if !fixedKey(mc.KeyV[k]) {
			return false
		}
	}
	return true
}

func allLit(mc *mapContent) bool {
	for _, k := range mc.Keys {
		if _, ok := strLit(mc.KeyV[k]); !ok {
			return false
		}
	}
	return true
}

func (s *State) mapUpdate(i *ssa.MapUpdate) {
	x, k, v := s.eval(i.Map), s.eval(i.Key), s.eval(i.Value)
	if s.isNil(x) {
		s.fault("assignment to entry in nil map")
		return
	}
	m, ok := x.(VMap)
	if !ok {
		s.emit("mapupdate", x, k, v)
		return
	}
	o := s.get(m.Obj)
	n := *o
	nm := &mapContent{KeyV: map[string]Val{}, Elem: map[string]Val{}, Opaque: o.Map.Opaque}
	inPlace := s.eng.initMode
	if inPlace {
		nm = o.Map
	} else {
		nm.Keys = append(nm.Keys, o.Map.Keys...)
		for kk, vv := range o.Map.KeyV {
			nm.KeyV[kk] = vv
		}
		for kk, vv := range o.Map.Elem {
			nm.Elem[kk] = vv
		}
	}
	kk := valKey(k)
	if !fixedKey(k) && !inPlace {
		nm = &mapContent{KeyV: map[string]Val{}, Elem: map[string]Val{}, Opaque: true}
	} else {
		if _, ok := nm.Elem[kk]; !ok {
			nm.Keys = append(nm.Keys, kk)
		}
		nm.KeyV[kk] = k
		nm.Elem[kk] = v
	}
	n.Map = nm
	s.heap[m.Obj] = &n
}

func (s *State) rangeIter(x Val, i *ssa.Range) Val {
	switch v := x.(type) {
	case VMap:
		o := s.get(v.Obj)
		if !o.Map.Opaque {
			return VIter{v.Obj, 0}
		}
	case VNil:
		return VNil{}
	}
	return VTerm{freshTerm(i.Type(), "iter")}
}

func (s *State) next(f *Frame, i *ssa.Next) {
	it := s.eval(i.Iter)
	tt := i.Type().(*types.Tuple)
	switch v := it.(type) {
	case VNil:
		f.env[i] = VAgg{[]Val{VBool{false}, zeroVal2(tt.At(1).Type()), zeroVal2(tt.At(2).Type())}}
		return
	case VIter:
		mc := s.get(v.Obj).Map
		keys := append([]string(nil), mc.Keys...)
		sort.Strings(keys)
		if v.Pos >= len(keys) {
			f.env[i] = VAgg{[]Val{VBool{false}, zeroVal2(tt.At(1).Type()), zeroVal2(tt.At(2).Type())}}
		} else {
			k := keys[v.Pos]
			f.env[i] = VAgg{[]Val{VBool{true}, mc.KeyV[k], mc.Elem[k]}}
			f.env[i.Iter] = VIter{v.Obj, v.Pos + 1}
		}
		return
	}
	more := freshTerm(types.Typ[types.Bool], "more")
	_ = more
	panic(forkReq{[]alt{
		{"another iteration", func(n *State) bool {
			g := n.top()
			g.env[i] = VAgg{[]Val{VBool{true}, freshVal2(tt.At(1).Type(), "key"), freshVal2(tt.At(2).Type(), "elem")}}
			g.pc++
			return true
		}},
		{"no more iterations", func(n *State) bool {
			g := n.top()
			g.env[i] = VAgg{[]Val{VBool{false}, zeroVal2(tt.At(1).Type()), zeroVal2(tt.At(2).Type())}}
			g.pc++
			return true
		}},
	}})
}

func zeroVal2(t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return VNil{}
	}
	return zeroVal(t)
}
func freshVal2(t types.Type, w string) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return VNil{}
	}
	return freshVal(t, w)
}

func (s *State) typeAssert(f *Frame, i *ssa.TypeAssert) {
	x := s.eval(i.X)
	finish := func(v Val, ok bool) {
		if i.CommaOk {
			if !ok {
				v = zeroVal(i.AssertedType)
			}
			f.env[i] = VAgg{[]Val{v, VBool{ok}}}
			return
		}
		if !ok {
			s.fault("failed type assertion to " + typeName(i.AssertedType))
			return
		}
		f.env[i] = v
	}
	if s.eng.hooks.TypeAssert != nil {
		if v, okv, handled := s.eng.hooks.TypeAssert(s, i, x); handled {
			finish(v, okv.(VBool).B)
			return
		}
	}
	it, isI := under(i.AssertedType).(*types.Interface)
	switch v := x.(type) {
	case VNil:
		finish(nil, false)
		return
	case VFault:
		finish(x, false)
		return
	case VIface:
		if isI {
			finish(x, types.Implements(v.T, it))
		} else {
			finish(v.V, types.Identical(v.T, i.AssertedType))
		}
		return
	case VTerm:
		if s.isNil(x) {
			finish(nil, false)
			return
		}
		if isI {
			if ft := s.facts[v.T].T; ft != nil {
				finish(x, types.Implements(ft, it))
				return
			}
			if st, ok := under(v.T.Typ).(*types.Interface); ok && types.Implements(v.T.Typ, it) && !st.Empty() {
				finish(x, true)
				return
			}
			if !s.must(Atom{K: "true", T: mkTerm(types.Typ[types.Bool], "implements:"+typeName(i.AssertedType), x)}) {
				finish(nil, false)
				return
			}
			finish(x, true)
			return
		}
		if !s.must(Atom{K: "type", T: v.T, Typ: i.AssertedType}) {
			finish(nil, false)
			return
		}
		r := symVal(i.AssertedType, func(t types.Type, sfx string) *Term {
			return mkTerm(t, "as:"+typeName(i.AssertedType)+sfx, x)
		}, "")
		finish(r, true)
		return
	}
	panic(undecided{fmt.Sprintf("type assertion on %s in %s", valString(x), s.where())})
}

func (s *State) slice(f *Frame, i *ssa.Slice) {
	x := s.eval(i.X)
	var lo, hi Val
	if i.Low != nil {
		lo = s.eval(i.Low)
	}
	if i.High != nil {
		hi = s.eval(i.High)
	}
	if s.eng.hooks.Slice != nil {
		if v, ok := s.eng.hooks.Slice(s, i, x, lo, hi); ok {
			f.env[i] = v
			return
		}
	}
	l, okl := int64(0), true
	if lo != nil {
		l, okl = s.constInt(lo)
	}
	var h int64
	okh := false
	if hi != nil {
		h, okh = s.constInt(hi)
	}
	switch v := x.(type) {
	case VPtr: // pointer to an array
		a, ok := readPath(s.get(v.Obj).V, v.Path).(VAgg)
		if okh && h == 0 && isByteSlice(i.Type()) {
			f.env[i] = VBytes{}
			return
		}
		if ok && v.Path == "" && okl {
			n := int64(len(a.F))
			if hi == nil {
				h, okh = n, true
			}
			if okh {
				if l > h || h > n {
					s.fault("slice bounds out of range")
					return
				}
				f.env[i] = VSlice{v.Obj, int(l), int(h - l)}
				return
			}
		}
	case VSlice:
		if hi == nil {
			h, okh = int64(v.Len), true
		}
		if okl && okh {
			if l > h || h > int64(v.Len) {
				s.fault("slice bounds out of range")
				return
			}
			f.env[i] = VSlice{v.Obj, v.Off + int(l), int(h - l)}
			return
		}
	case VBytes:
		if okl && l == 0 && hi == nil {
			f.env[i] = x
			return
		}
		if okh && h == 0 {
			f.env[i] = VBytes{}
			return
		}
	case VStr:
		if okl && l == 0 && hi == nil {
			f.env[i] = x
			return
		}
		if lit, ok := piecesLit(v.P); ok && okl {
			if hi == nil {
				h, okh = int64(len(lit)), true
			}
			if okh && l <= h && h <= int64(len(lit)) {
				f.env[i] = litStr(lit[l:h])
				return
			}
		}
	case VNil:
		if okl && l == 0 && (hi == nil || okh && h == 0) {
			f.env[i] = x
			return
		}
	}
	nv := func(v Val) Val {
		if v == nil {
			return VNil{}
		}
		return v
	}
	r := callVal(i.Type(), "slice", x, nv(lo), nv(hi))
	f.env[i] = r
}

// ---- calls ----

func (s *State) call(f *Frame, inst ssa.Instruction, c *ssa.CallCommon) {
	cl := &Call{Inst: inst, Common: c, Res: c.Signature().Results()}
	if c.IsInvoke() {
		recv := s.eval(c.Value)
		for _, a := range c.Args {
			cl.Args = append(cl.Args, s.eval(a))
		}
		if s.nilDeref(recv) {
			s.fault("nil dereference")
			return
		}
		cl.Recv = recv
		cl.Method = c.Method
		if iv, ok := recv.(VIface); ok {
			fn := s.eng.prog.ssa.LookupMethod(iv.T, c.Method.Pkg(), c.Method.Name())
			if fn == nil {
				panic(undecided{"no method " + c.Method.Name() + " on " + typeName(iv.T)})
			}
			cl.Fn = fn
			cl.Args = append([]Val{iv.V}, cl.Args...)
		} else if t, ok := recv.(VTerm); ok {
			if ft := s.facts[t.T].T; ft != nil {
				if fn := s.eng.prog.ssa.LookupMethod(ft, c.Method.Pkg(), c.Method.Name()); fn != nil {
					cl.Fn = fn
					r := symVal(ft, func(t types.Type, sfx string) *Term {
						return mkTerm(t, "as:"+typeName(ft)+sfx, recv)
					}, "")
					cl.Args = append([]Val{r}, cl.Args...)
				}
			}
		}
		s.dispatch(f, cl, nil)
		return
	}
	fv := s.eval(c.Value)
	for _, a := range c.Args {
		cl.Args = append(cl.Args, s.eval(a))
	}
	switch fn := fv.(type) {
	case VBuiltin:
		s.builtin(f, inst, c, fn.Name, cl.Args)
	case VFunc:
		cl.Fn = fn.Fn
		s.dispatch(f, cl, fn.Bind)
	case VNil:
		s.fault("call of a nil function")
	case VTerm:
		if s.nilDeref(fn) {
			s.fault("call of a nil function")
			return
		}
		cl.Recv = fn
		s.dispatch(f, cl, nil)
	default:
		panic(undecided{"call of an unknown function in " + s.where()})
	}
}

// ret gives the results of a call that was modelled.
func (s *State) ret(c *Call, res ...Val) {
	s.setResult(s.top(), c.Inst, res)
	s.top().mark = -1
}

func (s *State) dispatch(f *Frame, c *Call, bind []Val) {
	s.eng.sites[c.Inst] = true
	if s.eng.hooks.Call != nil && s.eng.hooks.Call(s, c) {
		return
	}
	if c.Fn != nil {
		if m, ok := models[c.Fn.String()]; ok {
			if m(s, c) {
				return
			}
		} else if c.Fn.Blocks != nil && s.eng.prog.analysed(c.Fn) {
			s.push(c.Fn, c.Args, bind, c.Inst)
			return
		} else if c.Fn.Pkg != nil && c.Fn.Name() == "init" && s.eng.initMode {
			s.ret(c)
			return
		}
	}
	s.external(c)
}

// external is a call of code that is not analysed and has no model: its
// results are unknown.
func (s *State) external(c *Call) {
	s.eng.unmodelled[c.name()]++
	if s.eng.hooks.External != nil {
		s.eng.hooks.External(s, c)
	}
	var res []Val
	for j := 0; j < c.Res.Len(); j++ {
		res = append(res, freshVal(c.Res.At(j).Type(), shortName(c.name())))
	}
	s.ret(c, res...)
}

func shortName(n string) string {
	if i := strings.LastIndexAny(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return n
}

func (s *State) builtin(f *Frame, inst ssa.Instruction, c *ssa.CallCommon, name string, args []Val) {
	set := func(v Val) {
		if iv, ok := inst.(ssa.Value); ok {
			f.env[iv] = v
		}
		f.pc++
	}
	switch name {
	case "len":
		set(s.lenOf(args[0]))
	case "cap":
		set(freshVal(types.Typ[types.Int], "cap"))
	case "append":
		set(s.appendTo(inst.(ssa.Value).Type(), args[0], args[1]))
	case "copy":
		// copy(dst, src): element wise for known slices
		d, ok1 := args[0].(VSlice)
		src, ok2 := args[1].(VSlice)
		if ok1 && ok2 {
			n := d.Len
			if src.Len < n {
				n = src.Len
			}
			o := *s.get(d.Obj)
			for j := 0; j < n; j++ {
				o.V = writePath(o.V, fmt.Sprintf(".%d", d.Off+j), readPath(s.get(src.Obj).V, fmt.Sprintf(".%d", src.Off+j)))
			}
			s.heap[d.Obj] = &o
			set(VInt{linC(int64(n))})
			return
		}
		s.emit("copy", args...)
		set(freshVal(types.Typ[types.Int], "copied"))
	case "recover":
		n := len(s.frames)
		if f.isDeferred && n >= 2 && s.frames[n-2].panicking && !s.frames[n-2].recovered {
			s.frames[n-2] = s.frames[n-2].clone()
			s.frames[n-2].recovered = true
			set(s.panicV)
		} else {
			set(VNil{})
		}
	case "print", "println":
		s.emit("print", args...)
		set(nil)
	case "delete":
		s.emit("mapdelete", args...)
		if m, ok := args[0].(VMap); ok {
			o := *s.get(m.Obj)
			o.Map = &mapContent{KeyV: map[string]Val{}, Elem: map[string]Val{}, Opaque: true}
			s.heap[m.Obj] = &o
		}
		set(nil)
	case "ssa:wrapnilchk":
		if s.nilDeref(args[0]) {
			s.fault("nil dereference")
			return
		}
		set(args[0])
	case "min", "max":
		set(callVal(inst.(ssa.Value).Type(), name, args...))
	default:
		panic(undecided{"builtin " + name + " in " + s.where()})
	}
}

func (s *State) appendTo(typ types.Type, x, y Val) Val {
	elem := under(typ).(*types.Slice).Elem()
	if isByteSlice(typ) {
		var a, b []Piece
		oka, okb := true, true
		switch v := x.(type) {
		case VBytes:
			a = v.P
		case VNil:
		default:
			oka = false
		}
		switch v := y.(type) {
		case VBytes:
			b = v.P
		case VStr:
			b = v.P
		case VNil:
		case VSlice:
			for j := 0; j < v.Len; j++ {
				n, ok := s.constInt(readPath(s.get(v.Obj).V, fmt.Sprintf(".%d", v.Off+j)))
				if !ok {
					okb = false
					break
				}
				b = concatPieces(b, []Piece{{Lit: string([]byte{byte(n)})}})
			}
		default:
			okb = false
		}
		if oka && okb {
			return VBytes{concatPieces(a, b)}
		}
		return callVal(typ, "append", x, y)
	}
	if b, ok := y.(VRunes); ok {
		switch a := x.(type) {
		case VNil:
			return b
		case VRunes:
			return VRunes{concatPieces(a.P, b.P)}
		}
	}
	var ys []Val
	known := true
	switch v := y.(type) {
	case VSlice:
		for j := 0; j < v.Len; j++ {
			ys = append(ys, readPath(s.get(v.Obj).V, fmt.Sprintf(".%d", v.Off+j)))
		}
	case VNil:
	default:
		known = false
	}
	if s.eng.hooks.Append != nil {
		z := ys
		if !known {
			z = nil
		}
		if v, ok := s.eng.hooks.Append(s, typ, elem, x, z); ok {
			return v
		}
	}
	if known {
		switch v := x.(type) {
		case VNil:
			if len(ys) == 0 {
				return x
			}
			return VSlice{Obj: s.newObj(typ, VAgg{ys}), Len: len(ys)}
		case VSlice:
			var xs []Val
			for j := 0; j < v.Len; j++ {
				xs = append(xs, readPath(s.get(v.Obj).V, fmt.Sprintf(".%d", v.Off+j)))
			}
			xs = append(xs, ys...)
			return VSlice{Obj: s.newObj(typ, VAgg{xs}), Len: len(xs)}
		}
	}
	t := freshTerm(typ, "append")
	if len(ys) > 0 {
		s.facts[t] = Fact{Nil: 2}
		one := int64(1)
		s.facts[mkTerm(types.Typ[types.Int], "len", VTerm{t})] = Fact{Lo: &one}
	}
	return VTerm{t}
}
