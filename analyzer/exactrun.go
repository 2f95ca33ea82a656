package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"io"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The exact interpretation of all parse functions, by worker processes.

type keySpec struct {
	Fn   string
	Args []string
	Name string
	Out  int
}

type exactJob struct {
	Facts  []keySpec `json:",omitempty"`
	NoCut  []string
	Open   []string
	Seps   map[string]string
	Mode   string
	Key    string
	Budget int
	Max    int
}

func (k *cutKey) spec() (keySpec, bool) {
	sp := keySpec{Fn: k.fn.String(), Name: k.name, Out: k.out}
	for _, a := range k.args {
		switch v := a.(type) {
		case VInt:
			if v.L.isConst() {
				sp.Args = append(sp.Args, fmt.Sprintf("i%d", v.L.C))
				continue
			}
		case VBool:
			sp.Args = append(sp.Args, fmt.Sprintf("b%v", v.B))
			continue
		case VStr:
			if l, ok := strLit(v); ok {
				sp.Args = append(sp.Args, "s"+l)
				continue
			}
		}
		sp.Args = append(sp.Args, "?")
	}
	return sp, true
}

func (pc *parseClient) restore(specs []keySpec) error {
	byName := map[string]*ssa.Function{}
	for _, m := range pc.methods {
		byName[m.String()] = m
	}
	for _, sp := range specs {
		fn := byName[sp.Fn]
		if fn == nil {
			return fmt.Errorf("%s is no method of the parser", sp.Fn)
		}
		var args []Val
		for i, a := range sp.Args {
			pt := fn.Signature.Params().At(i).Type()
			switch a[0] {
			case 'i':
				n := int64(0)
				fmt.Sscan(a[1:], &n)
				args = append(args, VInt{linC(n)})
			case 'b':
				args = append(args, VBool{a[1:] == "true"})
			case 's':
				args = append(args, litStr(a[1:]))
			default:
				args = append(args, argVal(pt, i))
			}
		}
		k := pc.key(fn, args)
		if k.name != sp.Name {
			return fmt.Errorf("%s became %s", sp.Name, k.name)
		}
		k.out = sp.Out
	}
	return nil
}

// exactWorker answers jobs read from standard input.
func exactWorker(repo string) error {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := json.NewEncoder(os.Stdout)
	p, err := loadProgram(repo)
	if err != nil {
		return err
	}
	base := newEngine(p)
	if err := base.runInits(); err != nil {
		return err
	}
	var pc *parseClient
	for {
		line, err := in.ReadBytes('\n')
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}
		var j exactJob
		if err := json.Unmarshal(line, &j); err != nil {
			return err
		}
		if j.Facts != nil {
			if pc, err = newParseClient(&Context{p: p, base: base, tier: "quick"}); err != nil {
				return err
			}
			if err := pc.restore(j.Facts); err != nil {
				return err
			}
		}
		if j.Key == "" {
			continue
		}
		pc.noCut, pc.open = map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
		for _, m := range pc.methods {
			for _, n := range j.NoCut {
				if m.String() == n {
					pc.noCut[m] = true
				}
			}
			for _, n := range j.Open {
				if m.String() == n {
					pc.open[m] = true
				}
			}
		}
		pc.seps = j.Seps
		r := func() (r *ExactResult) {
			defer func() {
				if e := recover(); e != nil {
					r = &ExactResult{Key: j.Key, Undecided: fmt.Sprint(e)}
					if u, ok := e.(undecided); ok {
						r.Undecided = u.msg
					}
				}
			}()
			n := len(pc.order)
			t0 := time.Now()
			r = pc.exactRun(pc.keys[j.Key], j.Mode, j.Budget, j.Max)
			if os.Getenv("SQLVET_TRACE") != "" {
				fmt.Fprintf(os.Stderr, "%s %s: %d states, %d exits, %v, %s\n", j.Mode, j.Key, r.States, r.Exits, time.Since(t0), r.Undecided)
			}
			if len(pc.order) > n && r.Undecided == "" {
				r.Undecided = "it calls " + pc.order[n].name + ", which was not analysed"
			}
			return r
		}()
		if err := out.Encode(r); err != nil {
			return err
		}
	}
}

type exactFacts struct {
	pc          *parseClient
	results     map[string]*ExactResult
	inlined     []string
	limited     map[string]string // functions for which a bound was lowered
	undecided   []string
	rounds      int
	specs       []keySpec
	noCut, open []string
	seps        map[string]string
}

// exact interprets every parse function exactly, and those of which the
// results are no exact images of what they consumed as parts of their callers.
func (c *Context) exact() (*exactFacts, error) {
	if c.ef != nil {
		return c.ef, nil
	}
	pf, err := c.parseFacts()
	if err != nil {
		return nil, err
	}
	pc := pf.pc
	ef := &exactFacts{pc: pc, results: map[string]*ExactResult{}, limited: map[string]string{}}
	var specs []keySpec
	for _, k := range pf.keys {
		sp, _ := k.spec()
		specs = append(specs, sp)
	}
	pool, err := newExactPool(c.p.dir, specs, max(1, min(8, runtime.NumCPU())))
	if err != nil {
		return nil, err
	}
	defer pool.close()
	noCut, open := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	todo := map[string]bool{}
	for _, k := range pf.keys {
		todo[k.name] = true
	}
	limit := 250000
	if c.tier == "thorough" {
		limit = 1500000
	}
	loose := func(fn *ssa.Function) bool {
		pc.noCut = noCut
		defer func() { pc.noCut = map[*ssa.Function]bool{} }()
		return pc.loose(fn)
	}
	last := map[string]int{}
	seps := map[string]string{}
	more, partial := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for round := 0; len(todo) > 0 || len(more) > 0; round++ {
		ef.rounds = round + 1
		var names, opens []string
		for _, fn := range sortedFns(noCut) {
			names = append(names, fn.String())
		}
		for _, fn := range sortedFns(open) {
			opens = append(opens, fn.String())
		}
		ef.noCut, ef.open, ef.seps = names, opens, seps
		ks := sortedKeys(todo)
		// the longest first
		sort.SliceStable(ks, func(i, j int) bool { return last[ks[i]] > last[ks[j]] })
		most := limit
		if round > 0 {
			most = limit * 2 / 5 // they were followed as far as the limit before
		}
		res, err := pool.run(ks, names, opens, seps, most, c.tier)
		if err != nil {
			return nil, err
		}
		was := seps
		seps = map[string]string{}
		for k, s := range was {
			seps[k] = s
		}
		for k, r := range res {
			ef.results[k] = r
			last[k] = r.States
			r.seen = was
			if delete(seps, k); strings.ContainsAny(r.Sep, "<>") {
				seps[k] = r.Sep
			}
		}
		todo = map[string]bool{}
		if round >= maxRounds {
			break
		}
		// which functions are not exact
		more = map[*ssa.Function]bool{}
		inexact := func(k *cutKey) {
			if !token.IsExported(k.fn.Name()) && !noCut[k.fn] {
				more[k.fn] = true
			}
		}
		for _, k := range pf.keys {
			r := ef.results[k.name]
			if noCut[k.fn] {
				continue
			}
			redo := false
			for _, cl := range r.Callees {
				redo = redo || seps[cl] != r.seen[cl]
			}
			if redo && len(r.Mismatches) > 0 {
				todo[k.name] = true
			} else if len(r.Mismatches) > 0 || r.Undecided != "" {
				inexact(k)
			}
			for _, m := range r.Mismatches {
				if m.Cons == "success" {
					partial[k.fn] = true
				}
			}
			for _, m := range r.Mutated {
				if x := pc.keys[m]; x != nil {
					inexact(x)
					open[x.fn], partial[x.fn] = true, true
				}
			}
		}
		for fn := range more {
			if loose(fn) {
				delete(more, fn)
			}
		}
		// first those that call none of the others
		first := map[*ssa.Function]bool{}
		for fn := range more {
			first[fn] = true
		}
		for _, k := range pf.keys {
			for _, cl := range ef.results[k.name].Callees {
				if x := pc.keys[cl]; x != nil && x.fn != k.fn && more[x.fn] {
					delete(first, k.fn)
				}
			}
		}
		if len(first) == 0 {
			// of those that call each other, the ones that build parts of nodes
			for fn := range more {
				if partial[fn] {
					first[fn] = true
				}
			}
		}
		if len(first) == 0 {
			first = more
		}
		more = map[*ssa.Function]bool{}
		for _, fn := range sortedFns(first) {
			if !loose(fn) {
				noCut[fn], more[fn] = true, true
				ef.inlined = append(ef.inlined, fnName(fn))
			}
		}
		for _, k := range pf.keys {
			r := ef.results[k.name]
			if noCut[k.fn] {
				continue
			}
			for _, cl := range r.Callees {
				if x := pc.keys[cl]; x != nil && more[x.fn] {
					todo[k.name] = true
				}
			}
		}
	}
	for _, k := range pf.keys {
		if noCut[k.fn] {
			delete(ef.results, k.name)
		}
	}
	sort.Strings(ef.inlined)
	for n, b := range pool.limited {
		if _, ok := ef.results[n]; ok {
			ef.limited[n] = b
		}
	}
	ef.specs = specs
	c.ef = ef
	return ef, nil
}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

type exactPool struct {
	ws      []*exactProc
	mu      sync.Mutex
	limited map[string]string
	mode    string
}

type exactProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func newExactPool(repo string, specs []keySpec, n int) (*exactPool, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	p := &exactPool{limited: map[string]string{}}
	for i := 0; i < n; i++ {
		w := &exactProc{cmd: exec.Command(exe, "-worker", "-repo", repo)}
		w.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=3GiB")
		w.cmd.Stderr = os.Stderr
		if w.in, err = w.cmd.StdinPipe(); err != nil {
			return nil, err
		}
		o, err := w.cmd.StdoutPipe()
		if err != nil {
			return nil, err
		}
		w.out = bufio.NewReaderSize(o, 1<<20)
		if err := w.cmd.Start(); err != nil {
			return nil, err
		}
		p.ws = append(p.ws, w)
		if err := json.NewEncoder(w.in).Encode(exactJob{Facts: specs}); err != nil {
			return nil, err
		}
	}
	return p, nil
}

func (p *exactPool) close() {
	for _, w := range p.ws {
		w.in.Close()
		w.cmd.Wait()
	}
}

func (w *exactProc) do(j exactJob) (*ExactResult, error) {
	if err := json.NewEncoder(w.in).Encode(j); err != nil {
		return nil, fmt.Errorf("a worker ended: %v", err)
	}
	line, err := w.out.ReadBytes('\n')
	if err != nil {
		return nil, fmt.Errorf("a worker ended: %v", err)
	}
	r := &ExactResult{}
	return r, json.Unmarshal(line, r)
}

// run interprets the keys, lowering the bound on loops of those that need too
// many states.
func (p *exactPool) run(keys, noCut, open []string, seps map[string]string, limit int, tier string) (map[string]*ExactResult, error) {
	var mu sync.Mutex
	res := map[string]*ExactResult{}
	var failed error
	next := 0
	var wg sync.WaitGroup
	top := 0
	if tier == "thorough" {
		top = 1
	}
	for _, w := range p.ws {
		wg.Add(1)
		go func(w *exactProc) {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= len(keys) || failed != nil {
					mu.Unlock()
					return
				}
				k := keys[next]
				next++
				mu.Unlock()
				var r *ExactResult
				var err error
				for b := top; b >= -1; b-- {
					r, err = w.do(exactJob{Mode: p.mode, NoCut: noCut, Open: open, Seps: seps, Key: k, Budget: b, Max: limit})
					if err != nil || !strings.Contains(r.Undecided, "more than ") {
						break
					}
					mu.Lock()
					p.limited[k] = fmt.Sprintf("budget %d exceeds %d states", b, limit)
					mu.Unlock()
				}
				if err == nil && strings.Contains(r.Undecided, "more than ") {
					r.Limited, r.Undecided = true, ""
				}
				mu.Lock()
				if err != nil {
					failed = err
				}
				res[k] = r
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	return res, failed
}

var maxRounds = 12

// again interprets the parse functions once more, to compare something else.
func (c *Context) again(mode string, want func(*cutKey) bool) (map[string]*ExactResult, error) {
	ef, err := c.exact()
	if err != nil {
		return nil, err
	}
	pool, err := newExactPool(c.p.dir, ef.specs, max(1, min(8, runtime.NumCPU())))
	if err != nil {
		return nil, err
	}
	defer pool.close()
	pool.mode = mode
	limit := 250000
	if c.tier == "thorough" {
		limit = 1500000
	}
	noCut, open := append([]string(nil), ef.noCut...), append([]string(nil), ef.open...)
	has := func(l []string, n string) bool {
		for _, x := range l {
			if x == n {
				return true
			}
		}
		return false
	}
	todo := map[string]bool{}
	for _, n := range sortedKeys(ef.results) {
		if want == nil || want(ef.pc.keys[n]) {
			todo[n] = true
		}
	}
	all := map[string]*ExactResult{}
	for round := 0; round < 6 && len(todo) > 0; round++ {
		ks := sortedKeys(todo)
		sort.SliceStable(ks, func(i, j int) bool { return ef.results[ks[i]].States > ef.results[ks[j]].States })
		res, err := pool.run(ks, noCut, open, ef.seps, limit, c.tier)
		if err != nil {
			return nil, err
		}
		for k, r := range res {
			all[k] = r
		}
		// functions of which the nodes are completed by their callers
		done := map[*ssa.Function]bool{}
		for _, n := range sortedKeys(all) {
			for _, m := range all[n].Mutated {
				if k := ef.pc.keys[m]; k != nil && !token.IsExported(k.fn.Name()) && !(has(noCut, k.fn.String()) && has(open, k.fn.String())) {
					done[k.fn] = true
				}
			}
		}
		todo = map[string]bool{}
		for _, fn := range sortedFns(done) {
			noCut, open = append(noCut, fn.String()), append(open, fn.String())
		}
		for _, n := range sortedKeys(all) {
			if done[ef.pc.keys[n].fn] {
				delete(all, n)
				continue
			}
			for _, cl := range all[n].Callees {
				if k := ef.pc.keys[cl]; k != nil && done[k.fn] {
					todo[n] = true
				}
			}
		}
	}
	return all, nil
}
