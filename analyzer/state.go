package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obj is a heap object. Objects are immutable: a store replaces the object.
type Obj struct {
	Typ  types.Type
	V    Val             // content of a cell (struct, array, scalar)
	Map  *mapContent     // content of a map object
	Orig *Term           // the symbolic pointer this object stands for, if any
	Site ssa.Instruction // allocation site
	Tag  string
}

type mapContent struct {
	Keys   []string
	KeyV   map[string]Val
	Elem   map[string]Val
	Opaque bool // contents not known
}

// Fact is what is known of a term on the current path.
type Fact struct {
	Nil    int8 // 1 nil, 2 not nil
	B      int8 // 1 false, 2 true
	T      types.Type
	NotT   []types.Type
	Eq     *string
	Neq    []string
	Lo, Hi *int64
	NeqI   []int64
	// Assumed: the term is taken to be non-nil because it is dereferenced
	Assumed bool
}

type deferred struct {
	fn   Val
	args []Val
	inst ssa.Instruction
}

type Frame struct {
	fn     *ssa.Function
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	env    map[ssa.Value]Val
	defers []deferred
	call   ssa.Instruction // the call (in the frame below) being executed
	// isDeferred: this frame runs a deferred call of the frame below it.
	isDeferred bool
	panicking  bool
	recovered  bool
	onReturn   string // client tag
	mark       int
	id         int // identifies the activation
	// marks are what a client remembers of the loops of this activation, by
	// the index of the loop head. Marks are replaced, never changed.
	marks map[int][]Val
}

type logEntry struct {
	up   *logEntry
	text string
}

type State struct {
	eng     *Engine
	frames  []*Frame
	heap    map[int]*Obj
	lazy    map[*Term]int
	facts   map[*Term]Fact
	ineqs   []Lin
	neqs    []Lin // affine forms that are not zero
	subst   map[*Term]Lin
	panicV  Val // value being panicked with
	out     []Ev
	tape    *Tape
	log     *logEntry
	hist    *histEntry          // loop heads passed on this path
	recs    map[string][]*State // snapshots at loop heads, per loop activation
	gens    map[string]*genLoop
	elemUse int     // decisions taken on properties of list elements
	guards  []guard // comparisons decided so far
	sum     Lin     // ghost: total of the counts reported by writes
	werr    Val     // ghost: the error of the latest write
	steps   int
	passes  int
	extra   int                     // client: repetitions of loops beyond the first
	again   map[*ssa.BasicBlock]int // client: loops repeated on this path (replaced, never changed)
	dead    bool
}

type guard struct {
	l Lin
	v bool
}

type histEntry struct {
	up  *histEntry
	key string
	st  *State
}

// Ev is an observable event on a path (a write, a visit, ...).
type Ev struct {
	K string // kind
	V []Val
	// power: the events of Sub repeated N times, the I-th with I for Idx
	Sub []Ev
	N   Lin
	Idx *Term
	// at is where it happened (not part of its identity)
	at ssa.Instruction
}

func (e Ev) key() string {
	var b strings.Builder
	b.WriteString(e.K)
	b.WriteByte('(')
	for _, v := range e.V {
		writeValKey(&b, v)
		b.WriteByte(',')
	}
	b.WriteByte(')')
	if e.Sub != nil {
		b.WriteByte('[')
		for _, s := range e.Sub {
			b.WriteString(s.key())
		}
		b.WriteString("]^" + e.N.key() + "/" + e.Idx.key)
	}
	return b.String()
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (f *Frame) clone() *Frame {
	g := *f
	g.env = make(map[ssa.Value]Val, len(f.env)+4)
	for k, v := range f.env {
		g.env[k] = v
	}
	g.defers = append([]deferred(nil), f.defers...)
	if f.marks != nil {
		g.marks = make(map[int][]Val, len(f.marks))
		for k, v := range f.marks {
			g.marks[k] = v
		}
	}
	return &g
}

func (s *State) clone() *State {
	n := *s
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		n.frames[i] = f.clone()
	}
	n.heap = make(map[int]*Obj, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.lazy = make(map[*Term]int, len(s.lazy))
	for k, v := range s.lazy {
		n.lazy[k] = v
	}
	n.facts = make(map[*Term]Fact, len(s.facts))
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.ineqs = s.ineqs[:len(s.ineqs):len(s.ineqs)]
	n.neqs = s.neqs[:len(s.neqs):len(s.neqs)]
	n.subst = make(map[*Term]Lin, len(s.subst))
	for k, v := range s.subst {
		n.subst[k] = v
	}
	n.out = s.out[:len(s.out):len(s.out)]
	if s.tape != nil {
		n.tape = s.tape.clone()
	}
	if s.recs != nil {
		n.recs = make(map[string][]*State, len(s.recs))
		for k, v := range s.recs {
			n.recs[k] = v[:len(v):len(v)]
		}
	}
	if s.gens != nil {
		n.gens = make(map[string]*genLoop, len(s.gens))
		for k, v := range s.gens {
			n.gens[k] = v
		}
	}
	return &n
}

func (s *State) note(format string, args ...interface{}) {
	s.log = &logEntry{s.log, fmt.Sprintf(format, args...)}
}

// trail lists the decisions taken on the path, oldest first.
func (s *State) trail() []string {
	var out []string
	for l := s.log; l != nil; l = l.up {
		out = append(out, l.text)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (s *State) emit(k string, vs ...Val) {
	e := Ev{K: k, V: vs}
	if len(s.frames) > 0 {
		f := s.top()
		if f.pc < len(f.block.Instrs) {
			e.at = f.block.Instrs[f.pc]
		}
	}
	s.out = append(s.out[:len(s.out):len(s.out)], e)
}

// ---- heap ----

func (s *State) get(id int) *Obj {
	if o, ok := s.heap[id]; ok {
		return o
	}
	if o, ok := s.eng.base[id]; ok {
		return o
	}
	return nil
}

func (s *State) newObj(t types.Type, v Val) int {
	s.eng.objSeq++
	s.heap[s.eng.objSeq] = &Obj{Typ: t, V: v}
	return s.eng.objSeq
}

func (s *State) setObj(id int, o *Obj) { s.heap[id] = o }

// objOf is the object a symbolic, non-nil pointer points to.
func (s *State) objOf(t *Term) int {
	if id, ok := s.lazy[t]; ok {
		return id
	}
	pt, ok := under(t.Typ).(*types.Pointer)
	if !ok {
		panic(undecided{"dereference of a value that is no pointer: " + t.String()})
	}
	v := symVal(pt.Elem(), func(ft types.Type, suffix string) *Term {
		if suffix == "" {
			suffix = ".*"
		}
		return mkTerm(ft, suffix, VTerm{t})
	}, "")
	s.eng.objSeq++
	id := s.eng.objSeq
	s.heap[id] = &Obj{Typ: pt.Elem(), V: v, Orig: t}
	s.lazy[t] = id
	return id
}

func splitPath(p string) (int, string) {
	// p is ".i.j..."
	n, i := 0, 1
	for i < len(p) && p[i] != '.' {
		n = n*10 + int(p[i]-'0')
		i++
	}
	return n, p[i:]
}

func readPath(v Val, p string) Val {
	for p != "" {
		var i int
		i, p = splitPath(p)
		a, ok := v.(VAgg)
		if !ok {
			return VTop{}
		}
		if i >= len(a.F) {
			return VTop{}
		}
		v = a.F[i]
	}
	return v
}

func writePath(v Val, p string, x Val) Val {
	if p == "" {
		return x
	}
	i, rest := splitPath(p)
	a, ok := v.(VAgg)
	if !ok || i >= len(a.F) {
		return VTop{}
	}
	f := append([]Val(nil), a.F...)
	f[i] = writePath(f[i], rest, x)
	return VAgg{f}
}

// ---- canonical key ----

type keyer struct {
	s      *State
	b      strings.Builder
	objs   map[int]int
	terms  map[*Term]int
	queue  []int
	torder []*Term
}

func (k *keyer) obj(id int) {
	if _, ok := k.s.heap[id]; !ok {
		fmt.Fprintf(&k.b, "G%d", id)
		return
	}
	n, ok := k.objs[id]
	if !ok {
		n = len(k.objs)
		k.objs[id] = n
		k.queue = append(k.queue, id)
	}
	fmt.Fprintf(&k.b, "o%d", n)
}

func (k *keyer) term(t *Term) {
	if n, ok := k.terms[t]; ok {
		fmt.Fprintf(&k.b, "t%d", n)
		return
	}
	n := len(k.terms)
	k.terms[t] = n
	k.torder = append(k.torder, t)
	fmt.Fprintf(&k.b, "t%d=%s", n, t.Op)
	if t.fresh() {
		return
	}
	k.b.WriteByte('(')
	for _, a := range t.Args {
		k.val(a)
		k.b.WriteByte(',')
	}
	k.b.WriteByte(')')
}

func (k *keyer) lin(l Lin) {
	l = k.s.norm(l)
	if len(l.T) == 0 {
		fmt.Fprintf(&k.b, "%d", l.C)
		return
	}
	// order terms by canonical number (encounter order by id is stable enough
	// within one lineage of states)
	fmt.Fprintf(&k.b, "(%d", l.C)
	for _, t := range l.T {
		fmt.Fprintf(&k.b, "%+d*", t.K)
		k.term(t.T)
	}
	k.b.WriteByte(')')
}

func (k *keyer) pieces(ps []Piece) {
	for _, p := range ps {
		if p.T != nil {
			k.b.WriteByte('<')
			k.term(p.T)
			k.b.WriteByte('>')
		} else {
			k.b.WriteString(p.Lit)
		}
	}
}

func (k *keyer) val(v Val) {
	switch v := v.(type) {
	case nil:
		k.b.WriteByte('_')
	case VInt:
		k.lin(v.L)
	case VStr:
		k.b.WriteByte('"')
		k.pieces(v.P)
		k.b.WriteByte('"')
	case VBytes:
		k.b.WriteByte('`')
		k.pieces(v.P)
		k.b.WriteByte('`')
	case VPtr:
		k.b.WriteByte('&')
		k.obj(v.Obj)
		k.b.WriteString(v.Path)
	case VAgg:
		k.b.WriteByte('{')
		for _, f := range v.F {
			k.val(f)
			k.b.WriteByte(',')
		}
		k.b.WriteByte('}')
	case VIface:
		k.b.WriteString("I[" + typeName(v.T) + "]")
		k.val(v.V)
	case VFunc:
		k.b.WriteString("F" + v.Fn.String())
		for _, x := range v.Bind {
			k.b.WriteByte('|')
			k.val(x)
		}
	case VSlice:
		k.b.WriteByte('S')
		k.obj(v.Obj)
		fmt.Fprintf(&k.b, "[%d+%d]", v.Off, v.Len)
	case VMap:
		k.b.WriteByte('M')
		k.obj(v.Obj)
	case VTerm:
		k.term(v.T)
	case VIter:
		k.b.WriteString("it")
		k.obj(v.Obj)
		fmt.Fprintf(&k.b, "@%d", v.Pos)
	case interface{ writeKey(*keyer) }:
		v.writeKey(k)
	default:
		writeValKey(&k.b, v)
	}
}

func (k *keyer) flush() {
	done := 0
	tdone := 0
	for done < len(k.queue) || tdone < len(k.torder) {
		for done < len(k.queue) {
			id := k.queue[done]
			done++
			o := k.s.heap[id]
			fmt.Fprintf(&k.b, ";o%d:", k.objs[id])
			if o.Map != nil {
				if o.Map.Opaque {
					k.b.WriteString("opaque")
				}
				for _, mk := range o.Map.Keys {
					k.val(o.Map.KeyV[mk])
					k.b.WriteByte('=')
					k.val(o.Map.Elem[mk])
					k.b.WriteByte(',')
				}
			} else {
				k.val(o.V)
			}
		}
		for tdone < len(k.torder) {
			t := k.torder[tdone]
			tdone++
			if id, ok := k.s.lazy[t]; ok {
				fmt.Fprintf(&k.b, ";t%d->", k.terms[t])
				k.obj(id)
			}
		}
	}
	// facts about the terms that matter
	for i, t := range k.torder {
		if f, ok := k.s.facts[t]; ok {
			fmt.Fprintf(&k.b, ";f%d:%s", i, f.key())
		}
	}
	if k.s.eng.projectDiffs {
		keep := map[*Term]bool{}
		for t := range k.terms {
			keep[t] = true
		}
		for _, t := range k.s.eng.keepTerms {
			for _, x := range k.s.norm(linT(t)).T {
				keep[x.T] = true
			}
		}
		k.s.project(keep, 0)
	}
	var qs []string
	for _, q := range k.s.ineqs {
		q = k.s.norm(q)
		ok := len(q.T) > 0
		for _, t := range q.T {
			if _, seen := k.terms[t.T]; !seen {
				ok = false
			}
		}
		if ok {
			var b strings.Builder
			fmt.Fprintf(&b, "%d", q.C)
			var ts []string
			for _, t := range q.T {
				ts = append(ts, fmt.Sprintf("%+d*t%d", t.K, k.terms[t.T]))
			}
			sort.Strings(ts)
			qs = append(qs, b.String()+strings.Join(ts, ""))
		}
	}
	for _, q := range k.s.neqs {
		q = k.s.norm(q)
		ok := len(q.T) > 0
		for _, t := range q.T {
			if _, seen := k.terms[t.T]; !seen {
				ok = false
			}
		}
		if ok {
			var ts []string
			for _, t := range q.T {
				ts = append(ts, fmt.Sprintf("%+d*t%d", t.K, k.terms[t.T]))
			}
			sort.Strings(ts)
			qs = append(qs, fmt.Sprintf("!%d%s", q.C, strings.Join(ts, "")))
		}
	}
	sort.Strings(qs)
	last := ""
	for _, q := range qs {
		if q != last {
			k.b.WriteString(";q" + q)
		}
		last = q
	}
}

func (f Fact) key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d%d", f.Nil, f.B)
	if f.T != nil {
		b.WriteString("T" + typeName(f.T))
	}
	if len(f.NotT) > 0 {
		var ns []string
		for _, t := range f.NotT {
			ns = append(ns, typeName(t))
		}
		sort.Strings(ns)
		b.WriteString("N" + strings.Join(ns, ","))
	}
	if f.Eq != nil {
		b.WriteString("=" + *f.Eq)
	}
	if len(f.Neq) > 0 {
		ns := append([]string(nil), f.Neq...)
		sort.Strings(ns)
		b.WriteString("!" + strings.Join(ns, ","))
	}
	if f.Lo != nil {
		fmt.Fprintf(&b, ">%d", *f.Lo)
	}
	if f.Hi != nil {
		fmt.Fprintf(&b, "<%d", *f.Hi)
	}
	if len(f.NeqI) > 0 {
		ns := append([]int64(nil), f.NeqI...)
		sort.Slice(ns, func(i, j int) bool { return ns[i] < ns[j] })
		b.WriteString("/" + fmt.Sprint(ns))
	}
	return b.String()
}

// key is the canonical form of the state: two states with the same key have
// the same continuations.
func (s *State) key() string {
	k := &keyer{s: s, objs: map[int]int{}, terms: map[*Term]int{}}
	for i, f := range s.frames {
		fmt.Fprintf(&k.b, "|%s.%d.%d", f.fn.String(), f.block.Index, f.pc)
		if f.isDeferred {
			k.b.WriteByte('D')
		}
		if f.panicking {
			k.b.WriteByte('P')
		}
		if f.recovered {
			k.b.WriteByte('R')
		}
		k.b.WriteByte(':')
		for _, v := range s.eng.liveAt(f, i == len(s.frames)-1 || s.frames[i+1].isDeferred) {
			if x, ok := f.env[v]; ok {
				k.b.WriteString(v.Name())
				k.b.WriteByte('=')
				k.val(x)
				k.b.WriteByte(' ')
			}
		}
		for _, b := range f.fn.Blocks {
			m, ok := f.marks[b.Index]
			if !ok || !s.eng.reaches(f.block, b) {
				continue
			}
			fmt.Fprintf(&k.b, "mark%d", b.Index)
			for _, v := range m {
				k.val(v)
				k.b.WriteByte(',')
			}
		}
		for _, d := range f.defers {
			k.b.WriteString("defer ")
			k.val(d.fn)
			for _, a := range d.args {
				k.val(a)
			}
		}
	}
	if s.panicV != nil {
		k.b.WriteString("!panic")
		k.val(s.panicV)
	}
	if s.tape != nil {
		s.tape.writeKey(k)
	}
	k.b.WriteString("@")
	for _, e := range s.out {
		k.ev(e)
	}
	if s.eng.hooks.ExtraKey != nil {
		s.eng.hooks.ExtraKey(s, k)
	}
	// writable globals
	var gs []int
	for id := range s.heap {
		if _, isBase := s.eng.base[id]; isBase {
			gs = append(gs, id)
		}
	}
	sort.Ints(gs)
	for _, id := range gs {
		fmt.Fprintf(&k.b, ";g%d", id)
		k.obj(id)
	}
	k.flush()
	return k.b.String()
}

func (k *keyer) ev(e Ev) {
	k.b.WriteString(e.K)
	k.b.WriteByte('(')
	for _, v := range e.V {
		k.val(v)
		k.b.WriteByte(',')
	}
	k.b.WriteByte(')')
	if e.Sub != nil {
		k.b.WriteByte('[')
		for _, x := range e.Sub {
			k.ev(x)
		}
		k.b.WriteString("]^")
		k.lin(e.N)
		k.term(e.Idx)
	}
}

// reaches reports whether control can get from the end of block a to block b,
// or a is b.
func (e *Engine) reaches(a, b *ssa.BasicBlock) bool {
	if a == b {
		return true
	}
	m, ok := e.reachTab[a]
	if !ok {
		m = map[*ssa.BasicBlock]bool{}
		var visit func(x *ssa.BasicBlock)
		visit = func(x *ssa.BasicBlock) {
			for _, y := range x.Succs {
				if !m[y] {
					m[y] = true
					visit(y)
				}
			}
		}
		visit(a)
		e.reachTab[a] = m
	}
	return m[b]
}

// ---- liveness ----

type liveInfo struct {
	in            map[*ssa.BasicBlock]map[ssa.Value]bool
	order         map[ssa.Value]int
	before, after map[ssa.Instruction][]ssa.Value
}

func isLocal(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return true
	case ssa.Instruction:
		return true
	}
	return false
}

func (e *Engine) live(fn *ssa.Function) *liveInfo {
	if li, ok := e.liveTab[fn]; ok {
		return li
	}
	li := &liveInfo{
		in: map[*ssa.BasicBlock]map[ssa.Value]bool{}, order: map[ssa.Value]int{},
		before: map[ssa.Instruction][]ssa.Value{}, after: map[ssa.Instruction][]ssa.Value{},
	}
	n := 0
	for _, p := range fn.Params {
		li.order[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		li.order[p] = n
		n++
	}
	blocks := fn.Blocks
	if fn.Recover != nil {
		found := false
		for _, b := range blocks {
			if b == fn.Recover {
				found = true
			}
		}
		if !found {
			blocks = append(append([]*ssa.BasicBlock(nil), blocks...), fn.Recover)
		}
	}
	for _, b := range blocks {
		li.in[b] = map[ssa.Value]bool{}
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				li.order[v] = n
				n++
			}
		}
	}
	// values the recover block needs are live everywhere
	changed := true
	for changed {
		changed = false
		for bi := len(blocks) - 1; bi >= 0; bi-- {
			b := blocks[bi]
			l := li.out(fn, b)
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				li.transfer(b.Instrs[i], l)
			}
			// phi operands are charged to predecessors, results are defined here
			for v := range l {
				if !li.in[b][v] {
					li.in[b][v] = true
					changed = true
				}
			}
		}
	}
	e.liveTab[fn] = li
	return li
}

func (li *liveInfo) out(fn *ssa.Function, b *ssa.BasicBlock) map[ssa.Value]bool {
	l := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range li.in[s] {
			l[v] = true
		}
		for _, i := range s.Instrs {
			phi, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			for j, p := range s.Preds {
				if p == b && isLocal(phi.Edges[j]) {
					l[phi.Edges[j]] = true
				}
			}
		}
	}
	if fn.Recover != nil && b != fn.Recover {
		for v := range li.in[fn.Recover] {
			l[v] = true
		}
	}
	return l
}

func (li *liveInfo) transfer(i ssa.Instruction, l map[ssa.Value]bool) {
	if v, ok := i.(ssa.Value); ok {
		delete(l, v)
	}
	if _, ok := i.(*ssa.Phi); ok {
		return
	}
	for _, op := range i.Operands(nil) {
		if *op != nil && isLocal(*op) {
			l[*op] = true
		}
	}
}

func (li *liveInfo) list(m map[ssa.Value]bool) []ssa.Value {
	var vs []ssa.Value
	for v := range m {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return li.order[vs[i]] < li.order[vs[j]] })
	return vs
}

// liveAt lists the values a frame still needs: before the instruction it is
// about to run, or, for a frame that waits for a call, after it.
func (e *Engine) liveAt(f *Frame, top bool) []ssa.Value {
	li := e.live(f.fn)
	i := f.block.Instrs[f.pc]
	tab := li.after
	if top {
		tab = li.before
	}
	if vs, ok := tab[i]; ok {
		return vs
	}
	l := li.out(f.fn, f.block)
	for j := len(f.block.Instrs) - 1; j > f.pc; j-- {
		li.transfer(f.block.Instrs[j], l)
	}
	if top {
		li.transfer(i, l)
	} else if v, ok := i.(ssa.Value); ok {
		delete(l, v)
	}
	vs := li.list(l)
	tab[i] = vs
	return vs
}
