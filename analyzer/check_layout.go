package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Layout: white space and comment tokens. The functions that touch the token
// sequence itself are interpreted on token sequences in which every arrangement
// of layout tokens, up to a number, lies around tokens of which nothing is
// known. What such a function does must be what it does on the same sequence
// without the layout. A function for which that is not so is looked at inside
// the functions that call it; an exported function or one that returns a node
// must not depend on the layout.

func init() {
	register("C25", "Every function of the parser that touches the token sequence or an option is interpreted on token sequences with every arrangement of white space, line breaks and comments around unknown tokens, with and without the option that keeps comments: the tokens it returns, the errors, the conditions on tokens and the position it leaves (counted in other tokens) equal those without the layout; where comments are kept, each one passed is recorded once and in order, also if the place is read again; no other parse function compares source positions.", checkLayout)
}

// layCell is a token of a sequence: a letter for the layout, or 'M'.
//
//	W  white space      N  line break
//	C  comment          D  comment of several lines
type laySeq struct {
	cells string
}

type layOutcome struct {
	txt      string
	from, to int // positions
	recorded []string
	listed   bool // in order within each list
	st       *State
	res      []Val
}

type layClient struct {
	*parseClient
	r       *Report
	opts    []string // paths of options
	maps    []string // paths of collections
	calls   map[*ssa.Function]map[*ssa.Function]bool
	err     string
	runs    int
	through bool
	advance *ssa.Function // reads one token
}

func checkLayout(c *Context, r *Report) {
	pc, err := newParseClient(c)
	if err != nil {
		r.undecided("%v", err)
		return
	}
	l := &layClient{parseClient: pc, r: r, calls: map[*ssa.Function]map[*ssa.Function]bool{}}
	limit := 3
	if c.tier == "thorough" {
		limit = 4
	}
	for i := 0; i < pc.st.NumFields(); i++ {
		f := pc.st.Field(i)
		p := fmt.Sprintf(".%d", i)
		switch under(f.Type()).(type) {
		case *types.Basic:
			if isBool(f.Type()) {
				l.opts = append(l.opts, p)
			}
		case *types.Map:
			l.maps = append(l.maps, p)
		}
	}
	for f, m := range pc.graph {
		for g := range m {
			if l.calls[g] == nil {
				l.calls[g] = map[*ssa.Function]bool{}
			}
			l.calls[g][f] = true
		}
	}
	isMethod := map[*ssa.Function]bool{}
	for _, m := range pc.methods {
		isMethod[m] = true
	}
	reach := pc.reach(pc.roots(), nil)
	for _, f := range pc.roots() {
		reach[f] = true
	}
	why := map[*ssa.Function]string{}
	var work []*ssa.Function
	for _, fn := range pc.p.allFuncs() {
		if fn.Pkg != pc.p.parser || !reach[fn] {
			continue
		}
		if w := l.touches(fn); w != "" {
			why[fn] = w
			work = append(work, fn)
		}
	}
	sort.Slice(work, func(i, j int) bool { return work[i].String() < work[j].String() })
	seen := map[*ssa.Function]bool{}
	sensitive := map[*ssa.Function]string{}
	var fine []*ssa.Function
	direct := map[*ssa.Function]bool{}
	for _, fn := range work {
		direct[fn] = true
	}
	for len(work) > 0 && len(r.Findings) == 0 {
		fn := work[0]
		work = work[1:]
		if seen[fn] {
			continue
		}
		seen[fn] = true
		r.Counts["functions"]++
		msg := "is called with arguments that depend on the layout"
		if isMethod[fn] {
			n := limit
			if !direct[fn] && pc.eligible(fn) {
				n = 1
			}
			msg = l.check(fn, n)
		}
		if msg == "" {
			fine = append(fine, fn)
			r.sample(fnName(fn) + ": the same with any layout")
			continue
		}
		sensitive[fn] = msg
		r.sample(fnName(fn) + ": looked at inside its callers, as it " + msg)
		exported := isMethod[fn] && fn.Object() != nil && fn.Object().Exported()
		if exported || pc.eligible(fn) {
			var via []string
			for g := range pc.graph[fn] {
				if m, ok := sensitive[g]; ok {
					via = append(via, fnName(g)+": "+m)
				}
			}
			sort.Strings(via)
			r.find(Finding{Rule: "layout", At: fnName(fn), Where: pc.p.pos(fn.Pos()), Detail: "what it does depends on white space or comments: it " + msg, Path: via})
			continue
		}
		var cs []*ssa.Function
		for g := range l.calls[fn] {
			if g.Pkg == pc.p.parser && reach[g] {
				cs = append(cs, g)
			}
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i].String() < cs[j].String() })
		for _, g := range cs {
			for g.Parent() != nil {
				g = g.Parent()
			}
			work = append(work, g)
		}
	}
	if len(r.Findings) > 0 {
		return
	}
	// positions decide nothing
	inside := map[*ssa.Function]bool{}
	for fn := range seen {
		inside[fn] = true
	}
	for _, fn := range pc.p.allFuncs() {
		if fn.Pkg != pc.p.parser || !reach[fn] || inside[fn] {
			continue
		}
		r.Counts["functions looked at for comparisons of positions"]++
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if op, ok := i.(*ssa.BinOp); ok && l.comparesPos(op) {
					r.find(Finding{Rule: "position", At: fnName(fn), Where: pc.p.posOf(fn, i), Detail: "source positions are compared here, so that what is parsed may depend on the layout"})
				}
			}
		}
	}
	// comments
	if len(l.maps) > 0 {
		for _, fn := range fine {
			if ps := fn.Signature.Params(); ps.Len() == 0 && l.advance == nil {
				if os, err := l.run(fn, "M", 0, false, nil); err == "" && len(os) == 1 && os[0].to == 1 && !l.through {
					l.advance = fn
				}
			}
		}
		if l.advance == nil {
			r.undecided("no function that reads one token was found")
			return
		}
		for _, fn := range fine {
			l.comments(fn, limit)
		}
		for _, fn := range pc.roots() {
			if l.ranges(fn) {
				l.handed(fn, limit)
			}
		}
		r.Minimum["readings that return comments"] = 20
		r.Minimum["readings that record comments"] = 50
	}
	r.Counts["interpretations"] = l.runs
	r.Minimum["functions"] = 3
	r.Minimum["interpretations"] = 1000
	r.Minimum["functions looked at for comparisons of positions"] = 50
	r.Assumptions = append(r.Assumptions, fmt.Sprintf("layout is followed up to %d tokens around one other token and %d around two; the loops that skip it look at one token at a time", limit, limit-1))
}

// touches tells how a function depends on the token sequence, apart from keeping
// a position and returning to it.
func (l *layClient) touches(fn *ssa.Function) string {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			fa, ok := i.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			path, ok := l.fieldPath(fa)
			if !ok {
				continue
			}
			loaded := false
			for _, u := range *fa.Referrers() {
				if un, ok := u.(*ssa.UnOp); ok {
					if path == l.idxPath && l.kept(un, map[ssa.Value]bool{}) {
						continue
					}
					loaded = true
				}
			}
			if !loaded {
				continue
			}
			switch {
			case path == l.tokPath:
				return "reads the tokens"
			case path == l.idxPath:
				return "uses the position"
			}
			for _, o := range l.opts {
				if path == o {
					return "depends on an option"
				}
			}
		}
	}
	return ""
}

// kept tells whether a position is only stored back as the position.
func (l *layClient) kept(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			if !l.kept(u, seen) {
				return false
			}
		case *ssa.Store:
			path, ok := l.fieldPath(u.Addr)
			if !ok || path != l.idxPath || u.Val != v {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// comparesPos recognises comparisons of source positions, or of their parts.
func (l *layClient) comparesPos(op *ssa.BinOp) bool {
	switch op.Op.String() {
	case "==", "!=", "<", "<=", ">", ">=":
	default:
		return false
	}
	var from func(v ssa.Value, d int) bool
	from = func(v ssa.Value, d int) bool {
		if d > 6 {
			return false
		}
		if _, isConst := v.(*ssa.Const); isConst {
			return false
		}
		if types.Identical(v.Type(), l.posT) {
			return true
		}
		switch v := v.(type) {
		case *ssa.UnOp:
			return from(v.X, d+1)
		case *ssa.BinOp:
			return from(v.X, d+1) || from(v.Y, d+1)
		case *ssa.Convert:
			return from(v.X, d+1)
		case *ssa.Field:
			return types.Identical(v.X.Type(), l.posT)
		case *ssa.FieldAddr:
			pt, ok := under(v.X.Type()).(*types.Pointer)
			return ok && types.Identical(pt.Elem(), l.posT)
		}
		return false
	}
	return from(op.X, 0) || from(op.Y, 0)
}

// words lists the arrangements of at most n layout tokens.
func layWords(n int) []string {
	out := []string{""}
	last := out
	for i := 0; i < n; i++ {
		var next []string
		for _, w := range last {
			for _, c := range "WNCD" {
				next = append(next, w+string(c))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

// sequences lists the token sequences with m other tokens and at most n layout
// tokens.
func laySeqs(m, n int) []string {
	ws := layWords(n)
	out := ws
	for i := 0; i < m; i++ {
		var next []string
		for _, a := range out {
			used := len(a) - strings.Count(a, "M")
			for _, w := range ws {
				if used+len(w) <= n {
					next = append(next, a+"M"+w)
				}
			}
		}
		out = next
	}
	return out
}

func logical(cells string, i int) int {
	if i > len(cells) {
		return 1000 + i
	}
	if i < 0 {
		return -1000 + i
	}
	return strings.Count(cells[:i], "M")
}

// check compares what a function does with and without the layout; the result
// says how the two differ.
func (l *layClient) check(fn *ssa.Function, limit int) string {
	base := map[string]string{}
	for m := 0; m <= 2; m++ {
		for n := 0; n <= m; n++ {
			o, err := l.run(fn, strings.Repeat("M", m), n, false, nil)
			if err != "" {
				return "cannot be followed: " + err
			}
			base[fmt.Sprint(m, n)] = outcomeText(o)
		}
	}
	modes := []bool{false}
	if len(l.opts) > 0 && !l.eligible(fn) {
		modes = append(modes, true)
	}
	for m := 0; m <= 2; m++ {
		for _, cells := range laySeqs(m, min(limit, limit+1-m)) {
			for p := 0; p <= len(cells); p++ {
				for _, mode := range modes {
					o, err := l.run(fn, cells, p, mode, nil)
					if err != "" {
						return "cannot be followed: " + err
					}
					if got, want := outcomeText(o), base[fmt.Sprint(m, logical(cells, p))]; got != want {
						return fmt.Sprintf("behaves differently at place %d of the tokens %q (comments kept: %v): %s; without the layout: %s", p, cells, mode, got, want)
					}
				}
			}
		}
	}
	return ""
}

func outcomeText(os []layOutcome) string {
	var ts []string
	seen := map[string]bool{}
	for _, o := range os {
		if !seen[o.txt] {
			seen[o.txt] = true
			ts = append(ts, o.txt)
		}
	}
	sort.Strings(ts)
	return strings.Join(ts, " / ")
}

// comments checks that comments that are passed are recorded once.
func (l *layClient) comments(fn *ssa.Function, limit int) {
	if fn.Signature.Params().Len() > 0 && fn.Signature.Variadic() {
		return
	}
	for m := 0; m <= 2; m++ {
		for _, cells := range laySeqs(m, min(limit, limit+1-m)) {
			for p := 0; p <= len(cells); p++ {
				if p > 0 && cells[p-1] != 'M' {
					continue
				}
				os, err := l.run(fn, cells, p, true, nil)
				if err != "" {
					l.r.undecided("%s: %s", fnName(fn), err)
					return
				}
				for _, o := range os {
					if o.to <= p || strings.HasPrefix(o.txt, "panics") {
						continue
					}
					l.r.Counts["readings that record comments"]++
					l.judge(fn, cells, p, o, "")
					if fn.Signature.Params().Len() == 0 {
						again, err := l.run(fn, cells, p, true, o.st)
						if err != "" {
							l.r.undecided("%s: %s", fnName(fn), err)
							return
						}
						if len(again) == 0 {
							l.r.undecided("%s: the second reading was not followed", fnName(fn))
							return
						}
						l.r.Counts["second readings"]++
						for _, x := range again {
							if x.to >= o.to {
								l.judge(fn, cells, p, x, ", read again,")
							}
						}
					}
				}
			}
		}
	}
}

// ranges tells whether a function goes through a collection of the parser.
func (l *layClient) ranges(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if fa, ok := i.(*ssa.FieldAddr); ok {
				path, _ := l.fieldPath(fa)
				for _, m := range l.maps {
					if path == m {
						return true
					}
				}
			}
		}
	}
	return false
}

// handed checks that an entry point that goes through the comments returns each.
func (l *layClient) handed(fn *ssa.Function, limit int) {
	for m := 0; m <= 2; m++ {
		for _, cells := range laySeqs(m, min(limit, limit+1-m)) {
			os, err := l.run(fn, cells, 0, true, nil)
			if err != "" {
				l.r.undecided("%s: %s", fnName(fn), err)
				return
			}
			for _, o := range os {
				if len(o.res) != 2 {
					continue
				}
				if _, isNil := o.res[1].(VNil); !isNil {
					continue
				}
				l.r.Counts["readings that return comments"]++
				x := layOutcome{to: len(cells), listed: true}
				l.collect(o.st, o.res[0], &x)
				followed := true
				for _, ev := range o.st.out {
					if ev.K == "sort" {
						followed = false // an order that is not followed
					}
				}
				for i := 1; followed && i < len(x.recorded); i++ {
					if len(x.recorded[i]) == 1 && len(x.recorded[i-1]) == 1 && x.recorded[i] <= x.recorded[i-1] {
						x.listed = false
					}
				}
				l.judge(fn, cells, 0, x, ", as returned,")
			}
		}
	}
}

func (l *layClient) judge(fn *ssa.Function, cells string, p int, o layOutcome, how string) {
	var want []string
	for i := p; i < o.to && i < len(cells); i++ {
		if cells[i] == 'C' || cells[i] == 'D' {
			want = append(want, fmt.Sprint(i))
		}
	}
	got := append([]string(nil), o.recorded...)
	sort.Strings(got)
	if strings.Join(got, " ") != strings.Join(want, " ") || !o.listed {
		l.r.find(Finding{Rule: "comments", At: fnName(fn), Where: l.p.pos(fn.Pos()),
			Detail: fmt.Sprintf("passing from place %d to place %d of the tokens %q%s records the comments at %v, not those at %v once and in order", p, o.to, cells, how, o.recorded, want)})
	}
}

// run interprets a function with the parser at place p of a token sequence.
func (l *layClient) run(fn *ssa.Function, cells string, p int, mode bool, from *State) (outs []layOutcome, failed string) {
	pc := l.parseClient
	e := pc.engine()
	e.maxStates = 20000
	e.hooks.Head = nil
	e.hooks.ExtraKey = nil
	e.hooks.Subst = nil
	e.hooks.Returned = nil
	e.hooks.Store = nil
	e.keepTerms = nil
	e.lenFirst, e.projectDiffs = false, false
	pc.e = e
	l.through = false
	l.runs++
	var s *State
	var m0 int
	if from == nil {
		s = e.newState()
		elT := under(pc.tokT).(*types.Slice).Elem()
		var el []Val
		line, col := int64(1), int64(1)
		for i, c := range cells {
			var t *Term
			f := VAgg{F: make([]Val, 4)}
			if c == 'M' {
				t = pc.elem(linC(int64(m0)))
				m0++
			} else {
				t = mkTerm(elT, "layout token", VInt{linC(int64(i))})
			}
			s.facts[t] = Fact{Nil: 2}
			st := under(under(elT).(*types.Pointer).Elem()).(*types.Struct)
			f = zeroVal(under(elT).(*types.Pointer).Elem()).(VAgg)
			fl, fc := line, col
			var txt Val
			kind := int64(-1)
			switch c {
			case 'W':
				col++
				txt, kind = litStr(" "), pc.kinds["Whitespace"]
			case 'N':
				line, col = line+1, 1
				txt, kind = litStr("\n"), pc.kinds["Whitespace"]
			case 'C', 'D':
				col += 5
				if c == 'D' {
					line, col = line+1, 3
				}
				txt, kind = VStr{[]Piece{{T: mkTerm(types.Typ[types.String], "comment", VInt{linC(int64(i))})}}}, pc.kinds["Comment"]
			default:
				col++
			}
			for j := 0; j < st.NumFields(); j++ {
				sf := st.Field(j)
				switch {
				case types.Identical(sf.Type(), pc.kindT):
					if kind >= 0 {
						f.F[j] = VInt{linC(kind)}
					} else {
						f.F[j] = VInt{linT(pc.kindTerm(t))}
					}
				case types.Identical(sf.Type(), pc.posT):
					pl, pcol := fl, fc
					if sf.Name() == "To" {
						pl, pcol = line, col
					}
					f.F[j] = VAgg{[]Val{VInt{linC(pl)}, VInt{linC(pcol)}}}
					if c == 'M' && !mode {
						// it moves with the layout, and is not compared
						in := types.Typ[types.Int]
						f.F[j] = VAgg{[]Val{VInt{linT(mkTerm(in, "."+sf.Name()+".Line", VTerm{t}))}, VInt{linT(mkTerm(in, "."+sf.Name()+".Col", VTerm{t}))}}}
					}
				case sf.Name() == "Value":
					if txt != nil {
						f.F[j] = VIface{types.Typ[types.String], txt}
					} else {
						f.F[j] = VTerm{mkTerm(sf.Type(), ".Value", VTerm{t})}
					}
				}
			}
			id := s.newObj(under(elT).(*types.Pointer).Elem(), f)
			s.heap[id].Orig = t
			s.lazy[t] = id
			el = append(el, VTerm{t})
		}
		arr := s.newObj(types.NewArray(elT, int64(len(cells))), VAgg{el})
		v := zeroVal(pc.ptr.Underlying().(*types.Pointer).Elem())
		v = writePath(v, pc.tokPath, VSlice{arr, 0, len(cells)})
		v = writePath(v, pc.idxPath, VInt{linC(int64(p))})
		for _, o := range l.opts {
			v = writePath(v, o, VBool{mode})
		}
		if mode {
			for _, o := range l.maps {
				id := s.newObj(pc.typeAt(o), nil)
				s.heap[id].Map = &mapContent{KeyV: map[string]Val{}, Elem: map[string]Val{}}
				v = writePath(v, o, VMap{id})
			}
		}
		pc.pobj = s.newObj(under(pc.ptr).(*types.Pointer).Elem(), v)
	} else {
		s = from.clone()
		s.eng = e
		e.objSeq = from.eng.objSeq
		s.frames, s.dead = nil, false
		pc.setIndex(s, linC(int64(p)))
	}
	args := []Val{VPtr{Obj: pc.pobj}}
	ps := fn.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		t := ps.At(i).Type()
		switch {
		case types.Identical(t, pc.kindT):
			args = append(args, VInt{linC(pc.kinds["Semicolon"])})
		case isString(t):
			args = append(args, litStr("ALPHA"))
		case isBool(t):
			args = append(args, VTerm{mkTerm(t, fmt.Sprintf("arg%d", i))})
		case fn.Signature.Variadic() && i == ps.Len()-1 && isString(t.(*types.Slice).Elem()):
			id := s.newObj(types.NewArray(t.(*types.Slice).Elem(), 2), VAgg{[]Val{litStr("ALPHA"), litStr("BETA")}})
			args = append(args, VSlice{id, 0, 2})
		default:
			return nil, "takes a " + t.String()
		}
	}
	e.hooks.Call = func(s *State, c *Call) bool {
		if c.Fn != nil && (c.Fn.String() == "sort.Slice" || c.Fn.String() == "sort.SliceStable") && l.sorted(e, s, c) {
			return true
		}
		if c.Fn == nil || len(s.frames) == 0 || c.Fn == fn && len(s.frames) == 0 || !pc.eligible(c.Fn) {
			return pc.callHook(s, c)
		}
		pv, ok := c.Args[0].(VPtr)
		if !ok || pv.Obj != pc.pobj {
			return false
		}
		l.through = true
		at, ok := s.constInt(VInt{pc.index(s)})
		if !ok {
			panic(undecided{"the position is not known"})
		}
		res := c.Fn.Signature.Results().At(0).Type()
		name := fmt.Sprintf("%s at %d", c.Fn.Name(), logical(cells, int(at)))
		var alts []alt
		if d := strings.Index(cells[min(int(at), len(cells)):], "M"); d >= 0 {
			alts = append(alts, alt{name, func(n *State) bool {
				if mode && l.advance != nil {
					// it keeps the comments in front of what it consumes
					os, err := l.run(l.advance, cells, int(at), true, n)
					l.e = e
					l.through = true
					if err != "" || len(os) != 1 {
						panic(undecided{"reading a token: " + err})
					}
					n.heap = os[0].st.heap
					e.objSeq = os[0].st.eng.objSeq
				}
				pc.setIndex(n, linC(at+int64(d)+1))
				t := mkTerm(res, "parsed "+name)
				n.facts[t] = Fact{Nil: 2}
				n.emit("parsed", litStr(name))
				n.ret(c, VTerm{t}, VNil{})
				return true
			}})
		}
		alts = append(alts, alt{name + " fails", func(n *State) bool {
			n.emit("failed", litStr(name))
			n.ret(c, zeroVal(res), n.newError(name))
			return true
		}})
		panic(forkReq{alts})
	}
	add := func(s *State, txt string, res []Val) {
		o := layOutcome{from: p, st: s, listed: true}
		to, ok := s.constInt(VInt{pc.index(s)})
		if !ok {
			failed = "the position is not known"
			return
		}
		o.to = int(to)
		if !strings.HasPrefix(txt, "panics") {
			txt += fmt.Sprintf(" leaving %d", logical(cells, o.to))
		}
		for _, ev := range s.out {
			if ev.K == "parsed" || ev.K == "failed" {
				txt += " " + ev.K + " " + valKey(ev.V[0])
			}
		}
		o.txt = txt + " if " + l.conditions(s)
		o.res = res
		pv := s.get(pc.pobj).V
		for _, mp := range l.maps {
			l.collect(s, readPath(pv, mp), &o)
		}
		outs = append(outs, o)
	}
	e.hooks.Exit = func(s *State, res []Val) {
		var ts []string
		for _, v := range res {
			ts = append(ts, l.show(s, v, 0))
		}
		add(s, "returns "+strings.Join(ts, ", "), res)
	}
	e.hooks.Panic = func(s *State) { add(s, "panics with "+l.show(s, s.panicV, 0), nil) }
	s.push(fn, args, nil, nil)
	if err := e.safeRun(s); err != nil {
		return nil, err.Error()
	}
	return outs, failed
}

// sorted sorts a known slice by what the comparison it is given returns.
func (l *layClient) sorted(e *Engine, s *State, c *Call) bool {
	sl, ok := unIface(c.Args[0]).(VSlice)
	less, ok2 := c.Args[1].(VFunc)
	if !ok || !ok2 {
		return false
	}
	a, ok := s.get(sl.Obj).V.(VAgg)
	if !ok || sl.Off+sl.Len > len(a.F) {
		return false
	}
	var els []Val
	less2 := func(i, j int) bool {
		e2 := l.engine()
		e2.hooks = Hooks{Decide: l.decideHook}
		e2.objSeq = e.objSeq
		n := s.clone()
		n.eng, n.frames = e2, nil
		var got []bool
		e2.hooks.Exit = func(x *State, res []Val) { got = append(got, x.truth(res[0])) }
		n.push(less.Fn, []Val{VInt{linC(int64(i))}, VInt{linC(int64(j))}}, less.Bind, nil)
		if err := e2.safeRun(n); err != nil || len(got) != 1 {
			panic(undecided{"the comparison of a sort is not followed"})
		}
		return got[0]
	}
	var idx []int
	for i := 0; i < sl.Len; i++ {
		j := len(idx)
		for j > 0 && less2(i, idx[j-1]) {
			j--
		}
		idx = append(idx[:j], append([]int{i}, idx[j:]...)...)
	}
	els = append(els, a.F...)
	for i, j := range idx {
		els[sl.Off+i] = a.F[sl.Off+j]
	}
	o := *s.get(sl.Obj)
	o.V = VAgg{els}
	s.heap[sl.Obj] = &o
	s.ret(c)
	return true
}

// conditions lists what is known of the tokens.
func (l *layClient) conditions(s *State) string {
	var ts []string
	of := func(t *Term) bool { return l.tokElem(t) != nil && l.tokElem(t) != t || strings.HasPrefix(t.Op, "arg") }
	for t, f := range s.facts {
		if of(t) {
			ts = append(ts, t.String()+f.key())
		}
	}
	for t, x := range s.subst {
		if of(t) {
			ts = append(ts, t.String()+"="+x.key())
		}
	}
	for _, x := range s.neqs {
		ts = append(ts, x.key()+"≠0")
	}
	sort.Strings(ts)
	return strings.Join(ts, " & ")
}

// show renders a value so that it can be compared between interpretations.
func (l *layClient) show(s *State, v Val, d int) string {
	if d > 6 {
		return "…"
	}
	switch v := v.(type) {
	case VNil:
		return "nil"
	case VTerm:
		return v.T.String()
	case VIface:
		if types.Implements(v.T, l.errT.Underlying().(*types.Interface)) {
			if p, ok := v.V.(VPtr); ok && s.eng.base[p.Obj] != nil {
				return fmt.Sprintf("error %d", p.Obj)
			}
			return "an error"
		}
		return typeName(v.T) + ":" + l.show(s, v.V, d+1)
	case VPtr:
		if v.Obj == l.pobj {
			return "parser"
		}
		o := s.get(v.Obj)
		if o == nil {
			return "?"
		}
		if o.Orig != nil {
			return o.Orig.String() + v.Path
		}
		if s.eng.base[v.Obj] != nil {
			return fmt.Sprintf("global %d%s", v.Obj, v.Path)
		}
		return "&" + l.show(s, o.V, d+1) + v.Path
	case VAgg:
		var ts []string
		for _, f := range v.F {
			ts = append(ts, l.show(s, f, d+1))
		}
		return "{" + strings.Join(ts, " ") + "}"
	case VSlice:
		var ts []string
		o := s.get(v.Obj)
		if a, ok := o.V.(VAgg); ok {
			for i := v.Off; i < v.Off+v.Len && i < len(a.F); i++ {
				ts = append(ts, l.show(s, a.F[i], d+1))
			}
		}
		return fmt.Sprintf("[%d:%s]", v.Len, strings.Join(ts, " "))
	case VStr:
		if strings.Contains(valKey(v), "fresh") || strings.Contains(valKey(v), "#") {
			return "text"
		}
	}
	return valKey(v)
}

// collect finds the comments below a value.
func (l *layClient) collect(s *State, v Val, o *layOutcome) {
	seen := map[int]bool{}
	var walk func(v Val) int // the last comment in it
	walk = func(v Val) int {
		last := -1
		several := func(vs []Val) {
			prev := -1
			for _, x := range vs {
				if n := walk(x); n >= 0 {
					if n <= prev {
						o.listed = false
					}
					prev = n
				}
			}
			if prev >= 0 {
				last = prev
			}
		}
		switch v := v.(type) {
		case VIface:
			return walk(v.V)
		case VPtr:
			ob := s.get(v.Obj)
			if ob == nil || ob.Orig != nil || seen[v.Obj] {
				return -1
			}
			seen[v.Obj] = true
			return walk(readPath(ob.V, v.Path))
		case VAgg:
			several(v.F)
		case VSlice:
			if a, ok := s.get(v.Obj).V.(VAgg); ok {
				several(a.F[v.Off : v.Off+v.Len])
			}
		case VMap:
			mc := s.get(v.Obj).Map
			if mc.Opaque {
				o.recorded = append(o.recorded, "unknown")
			}
			for _, k := range sortedKeys(mc.Elem) {
				walk(mc.Elem[k])
			}
		case VStr:
			for _, p := range v.P {
				if p.T != nil && p.T.Op == "comment" {
					n, _ := s.constInt(p.T.Args[0])
					o.recorded = append(o.recorded, fmt.Sprint(n))
					last = int(n)
				}
			}
		}
		return last
	}
	walk(v)
}
