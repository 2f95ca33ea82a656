package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", "Every parse entry point and every parse function it can reach is interpreted on a symbolic token sequence, calls of other parse functions standing for every outcome those have been found to have (least fixed point over the call graph): no run-time fault and no explicit panic may leave an exported method of the parser.", checkNoPanic)
	register("C02", "For the same abstract interpretation: between two passes of any loop head the position has advanced (or a counter moves towards its limit), and no cycle of calls between parse functions leaves the position where it was.", checkProgress)
}

// outcome classes of a parse function
const (
	outMoved    = 1 << iota // success, at least one token consumed
	outStill                // success, possibly nothing consumed
	outNilMoved             // no node and no error
	outNilStill
)

type parseFacts struct {
	pc        *parseClient
	keys      []*cutKey
	undecided []string
	faults    map[string]Finding // by class and key
	loops     []Finding
	edges     map[*cutKey]map[*cutKey]Finding // calls without progress
	typedNil  []Finding
	nilNodes  []Finding
	states    int
	exits     int
	loopHeads int
	calls     int
	escapes   map[*cutKey]map[string]Finding
}

// parseFacts interprets all parse functions in the unbounded abstraction.
func (c *Context) parseFacts() (*parseFacts, error) {
	if c.pf != nil {
		return c.pf, nil
	}
	pc, err := newParseClient(c)
	if err != nil {
		return nil, err
	}
	pf := &parseFacts{pc: pc, edges: map[*cutKey]map[*cutKey]Finding{}, escapes: map[*cutKey]map[string]Finding{}}
	roots := pc.roots()
	if len(roots) == 0 {
		return nil, fmt.Errorf("the parser has no entry points")
	}
	for _, fn := range roots {
		pc.key(fn, nil)
	}
	pending := map[*cutKey]bool{}
	callers := map[*cutKey]map[*cutKey]bool{}
	n := 0
	type perKey struct {
		loops, typedNil, nilNodes []Finding
		undecided                 string
		states, exits             int
	}
	got := map[*cutKey]*perKey{}
	rounds := map[*cutKey]int{}
	for {
		for ; n < len(pc.order); n++ {
			pending[pc.order[n]] = true
		}
		var k *cutKey
		for _, x := range pc.order {
			if pending[x] && (k == nil || rounds[x] < rounds[k]) {
				k = x
			}
		}
		if k == nil {
			break
		}
		delete(pending, k)
		rounds[k]++
		if rounds[k] > 40 {
			return nil, fmt.Errorf("the outcomes of %s do not settle", k.name)
		}
		g := &perKey{}
		got[k] = g
		pf.edges[k] = map[*cutKey]Finding{}
		pf.escapes[k] = map[string]Finding{}
		before := k.summary()
		pc.e = pc.engine()
		pc.e.maxStates = 200000
		pc.onExit = func(k *cutKey, s *State, res []Val) {
			g.exits++
			pf.exit(k, s, res, &g.typedNil, &g.nilNodes)
		}
		pc.onPanic = func(k *cutKey, s *State) { pf.panics(k, s) }
		pc.onLoop = func(k *cutKey, s *State, fn string) {
			f := s.top()
			g.loops = append(g.loops, Finding{Rule: "a loop may pass its head twice without consuming a token",
				At: k.name + ", loop of " + fn, Where: pc.p.pos(blockPos(f.block)),
				Detail: "neither the position nor a counter is known to have moved between two passes of the loop head", Path: tail(s.trail(), 25)})
		}
		pc.onCall = func(k *cutKey, s *State, callee *cutKey, at ssa.Instruction, progressed bool) {
			if callers[callee] == nil {
				callers[callee] = map[*cutKey]bool{}
			}
			callers[callee][k] = true
			if !progressed {
				if _, ok := pf.edges[k][callee]; !ok {
					pf.edges[k][callee] = Finding{Where: pc.p.pos(at.Pos()), Path: tail(s.trail(), 25)}
				}
			}
		}
		if err := pc.run(k); err != nil {
			g.undecided = k.name + ": " + err.Error()
		}
		g.states = pc.e.states
		if k.summary() != before {
			for x := range callers[k] {
				pending[x] = true
			}
		}
	}
	for _, k := range pc.order {
		g := got[k]
		pf.keys = append(pf.keys, k)
		pf.loops = append(pf.loops, g.loops...)
		pf.typedNil = append(pf.typedNil, g.typedNil...)
		pf.nilNodes = append(pf.nilNodes, g.nilNodes...)
		pf.states += g.states
		pf.exits += g.exits
		if g.undecided != "" {
			pf.undecided = append(pf.undecided, g.undecided)
		}
		pf.calls += len(callers[k])
	}
	c.pf = pf
	return pf, nil
}

func tail(ss []string, n int) []string {
	if len(ss) > n {
		return append([]string{"..."}, ss[len(ss)-n:]...)
	}
	return ss
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	return b.Parent().Pos()
}

func (k *cutKey) summary() string {
	return fmt.Sprintf("%d/%s", k.out, strings.Join(sortedKeys(k.panics), ";"))
}

// isNilVal reports whether v is nil, is not, or may be either.
func isNilVal(s *State, v Val) (isNil, known bool) {
	switch v := v.(type) {
	case VNil:
		return true, true
	case VTerm:
		return s.decide(Atom{K: "nil", T: v.T})
	case VIface, VPtr, VFunc, VSlice, VMap, VStr:
		return false, true
	}
	return false, false
}

func (pf *parseFacts) exit(k *cutKey, s *State, res []Val, typedNil, nilNodes *[]Finding) {
	if len(res) != 2 {
		return
	}
	if n, known := isNilVal(s, res[1]); known && !n {
		return
	}
	at := pf.pc.index(s)
	moved, known := s.decide(Atom{K: "ge0", L: at.add(linT(pf.pc.start), -1).add(linC(1), -1)})
	moved = moved && known
	if iv, ok := res[0].(VIface); ok {
		if n, known := isNilVal(s, iv.V); !known || n {
			*typedNil = append(*typedNil, Finding{Rule: "a parse function reports success with a nil node", At: k.name, Where: pf.pc.p.pos(k.fn.Pos()),
				Detail: "the node returned is a nil pointer of type " + typeName(iv.T) + " inside an interface", Path: tail(s.trail(), 25)})
		}
	}
	n, nk := isNilVal(s, res[0])
	if !nk || !n {
		if moved {
			k.out |= outMoved
		} else {
			k.out |= outStill
		}
	}
	if !nk || n {
		if moved {
			k.out |= outNilMoved
		} else {
			k.out |= outNilStill
		}
		if _, isSlice := under(k.fn.Signature.Results().At(0).Type()).(*types.Slice); !isSlice {
			*nilNodes = append(*nilNodes, Finding{Rule: "a parse function reports success without a node", At: k.name, Where: pf.pc.p.pos(k.fn.Pos()),
				Detail: "neither a node nor an error is returned", Path: tail(s.trail(), 25)})
		}
	}
}

// panicValue is what is known of the values a parse function panics with.
type panicValue struct {
	v      Val
	nonNil []*Term
}

// panicClass identifies what is panicked with, up to which parts are not nil.
func panicClass(s *State, v Val) (string, *panicValue) {
	switch v := v.(type) {
	case VIface:
		pv := &panicValue{}
		shape, tag := "", ""
		mk := func(t types.Type, sfx string, old Val) Val {
			return symVal(t, func(t types.Type, x string) *Term {
				n := mkTerm(t, "panicked:"+typeName(v.T)+tag+sfx+x)
				return n
			}, "")
		}
		var walk func(t types.Type, sfx string, old Val) Val
		walk = func(t types.Type, sfx string, old Val) Val {
			if st, ok := under(t).(*types.Struct); ok {
				a, isAgg := old.(VAgg)
				out := VAgg{}
				for i := 0; i < st.NumFields(); i++ {
					var o Val
					if isAgg && i < len(a.F) {
						o = a.F[i]
					}
					out.F = append(out.F, walk(st.Field(i).Type(), sfx+"."+st.Field(i).Name(), o))
				}
				return out
			}
			nv := mk(t, sfx, old)
			if nt, ok := nv.(VTerm); ok && mayBeNil(t) && old != nil {
				if n, known := isNilVal(s, old); known && !n {
					pv.nonNil = append(pv.nonNil, nt.T)
					shape += " with" + sfx
				}
			}
			return nv
		}
		walk(v.T, "", v.V)
		tag = shape
		pv.nonNil = nil
		pv.v = VIface{v.T, walk(v.T, "", v.V)}
		shape = tag
		return typeName(v.T) + shape, pv
	case VFault:
		return "fault: " + v.Kind + " in " + fnName(v.Fn), &panicValue{v: v}
	}
	return "value " + valString(v), &panicValue{v: v}
}

func (pf *parseFacts) panics(k *cutKey, s *State) {
	cl, pv := panicClass(s, s.panicV)
	f := Finding{Path: tail(s.trail(), 25)}
	if v, ok := s.panicV.(VFault); ok {
		f.Where = v.Pos
		f.Path = append(f.Path, v.Trail...)
	} else {
		f.Where = pf.pc.p.pos(k.fn.Pos())
	}
	if _, ok := k.panics[cl]; !ok {
		k.panics[cl] = pv
	}
	if _, ok := pf.escapes[k][cl]; !ok {
		pf.escapes[k][cl] = f
	}
}

func checkNoPanic(c *Context, r *Report) {
	pf, err := c.parseFacts()
	if err != nil {
		r.undecided("%v", err)
		return
	}
	pf.report(r)
	for _, k := range pf.keys {
		exported := token.IsExported(k.fn.Name())
		if exported {
			r.Counts["entry points"]++
		}
		for _, cl := range sortedKeys(pf.escapes[k]) {
			f := pf.escapes[k][cl]
			if !exported {
				r.Counts["panics of unexported functions"]++
				continue
			}
			f.Rule = "no panic leaves an entry point"
			f.At = k.name + ": " + cl
			f.Detail = "a panic (" + cl + ") can leave the exported method " + k.fn.Name()
			r.find(f)
		}
	}
	r.Minimum["entry points"] = 5
}

func (pf *parseFacts) report(r *Report) {
	r.Counts["parse functions"] = len(pf.keys)
	r.Counts["abstract states"] = pf.states
	r.Counts["outcomes"] = pf.exits
	r.Minimum["parse functions"] = 35
	r.Assumptions = append(r.Assumptions, "tokens satisfy what the tokenizer guarantees (C10): none is nil, and a token of the word kind carries a word, any other a string",
		"blank and comment tokens are skipped by the token-level helpers (C25)")
	for _, u := range pf.undecided {
		r.undecided("%s", u)
	}
	for _, k := range pf.keys {
		r.sample(k.name)
	}
}

func checkProgress(c *Context, r *Report) {
	pf, err := c.parseFacts()
	if err != nil {
		r.undecided("%v", err)
		return
	}
	pf.report(r)
	for _, f := range pf.loops {
		r.find(f)
	}
	// cycles of calls without progress
	idx := map[*cutKey]int{}
	for i, k := range pf.keys {
		idx[k] = i
	}
	succ := func(k *cutKey) []*cutKey {
		var out []*cutKey
		for c := range pf.edges[k] {
			out = append(out, c)
		}
		sort.Slice(out, func(i, j int) bool { return idx[out[i]] < idx[out[j]] })
		r.Counts["calls without progress"] += len(out)
		return out
	}
	color := map[*cutKey]int{}
	var path []*cutKey
	var visit func(k *cutKey)
	visit = func(k *cutKey) {
		color[k] = 1
		path = append(path, k)
		for _, n := range succ(k) {
			switch color[n] {
			case 0:
				visit(n)
			case 1:
				var names []string
				i := len(path) - 1
				for path[i] != n {
					i--
				}
				// name the cycle from its smallest member
				cyc := append([]*cutKey(nil), path[i:]...)
				best := 0
				for j := range cyc {
					if cyc[j].name < cyc[best].name {
						best = j
					}
				}
				for j := range cyc {
					names = append(names, cyc[(best+j)%len(cyc)].name)
				}
				e := pf.edges[k][n]
				r.find(Finding{Rule: "recursion consumes a token on every cycle", At: strings.Join(names, " -> ") + " -> " + names[0], Where: e.Where,
					Detail: "these calls can lead back to the first without consuming a token", Path: e.Path})
			}
		}
		path = path[:len(path)-1]
		color[k] = 2
	}
	for _, k := range pf.keys {
		if color[k] == 0 {
			visit(k)
		}
	}
}

func mayBeNil(t types.Type) bool {
	switch under(t).(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Slice, *types.Signature:
		return true
	}
	return false
}
