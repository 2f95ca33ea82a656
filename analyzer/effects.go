package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effects of the library as a whole: what may reach package-level memory, and
// which facilities outside the library are used. Flow-insensitive, over every
// function that the exported API can reach.

func init() {
	register("C24", "No function that the exported API reaches writes memory that a package variable can reach, stores such memory in a syntax tree or token list where it could be modified, starts a goroutine, or lets the result depend on the iteration order of a map.", checkShared)
	register("C26", "No function that the exported API reaches refers to a facility that prints, ends the process, or reads or changes anything outside the objects it was handed: files, environment, clock, random numbers, network, signals; the message of a panic is exempt.", checkSilent)
}

// library lists the functions the exported API of the importable packages can
// reach: exported functions and methods, and from there every function called,
// referred to, or implementing an interface method that is called.
func (p *Program) library() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(fn *ssa.Function) {
		if fn != nil && !seen[fn] && p.analysed(fn) && len(fn.Blocks) > 0 {
			seen[fn] = true
			work = append(work, fn)
		}
	}
	var named []types.Type
	for _, path := range sortedKeys(p.byPath) {
		sp := p.byPath[path]
		if sp.Pkg.Name() == "main" {
			continue
		}
		for _, n := range sortedKeys(sp.Members) {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				if m.Object() != nil && m.Object().Exported() {
					add(m)
				}
			case *ssa.Type:
				if nt, ok := m.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
					named = append(named, nt, types.NewPointer(nt))
				}
			}
		}
	}
	invoked := map[string]bool{}
	method := func(t types.Type, name string) {
		ms := p.ssa.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if o := ms.At(i).Obj(); o.Name() == name {
				add(p.ssa.MethodValue(ms.At(i)))
			}
		}
	}
	for _, t := range named {
		if types.IsInterface(t) {
			continue
		}
		ms := p.ssa.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			// the dump for debugging exists to print; it counts where something else calls it
			if o := ms.At(i).Obj(); o.Exported() && o.Name() != "Debug" {
				add(p.ssa.MethodValue(ms.At(i)))
			}
		}
	}
	var out []*ssa.Function
	for len(work) > 0 {
		fn := work[len(work)-1]
		work = work[:len(work)-1]
		out = append(out, fn)
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					if n := c.Common().Method.Name(); !invoked[n] {
						invoked[n] = true
						for _, t := range named {
							if !types.IsInterface(t) {
								method(t, n)
							}
						}
					}
				}
				for _, op := range i.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						add(f)
					}
				}
			}
		}
	}
	return out
}

// holds reports whether a value of type t can give access to memory that may
// be modified.
func holds(t types.Type) bool { return holdsIn(t, map[types.Type]bool{}) }

func holdsIn(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsIn(u.Field(i).Type(), seen) {
				return true
			}
		}
		return false
	case *types.Array:
		return holdsIn(u.Elem(), seen)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if holdsIn(u.At(i).Type(), seen) {
				return true
			}
		}
		return false
	case *types.Signature:
		return false
	case *types.Interface:
		return !isErrorType(t)
	}
	return true
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// sharedMem is the set of values and places that may lead to package-level memory.
type sharedMem struct {
	p       *Program
	vals    map[ssa.Value]bool
	places  map[string]bool // fields, elements, variables by type
	results map[*ssa.Function]map[int]bool
	byName  map[string][]*ssa.Function // methods
	taken   map[string][]*ssa.Function // functions used as values, by signature
	inLib   map[*ssa.Function]bool
	changed bool
	report  func(fn *ssa.Function, i ssa.Instruction, rule, detail string)
}

func (m *sharedMem) mark(v ssa.Value) {
	if v == nil || m.vals[v] || !holds(v.Type()) {
		return
	}
	m.vals[v] = true
	m.changed = true
}

func (m *sharedMem) is(v ssa.Value) bool {
	if g, ok := v.(*ssa.Global); ok {
		return m.p.ours(g.Pkg.Pkg)
	}
	return m.vals[v]
}

func place(addr ssa.Value) string {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		return fieldPlace(a.X.Type().Underlying().(*types.Pointer).Elem(), a.Field)
	case *ssa.IndexAddr:
		t := a.X.Type().Underlying()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem().Underlying()
		}
		switch t := t.(type) {
		case *types.Slice:
			return "elem " + t.Elem().String()
		case *types.Array:
			return "elem " + t.Elem().String()
		}
	case *ssa.Alloc:
		if !a.Heap {
			return fmt.Sprintf("local %s %s", a.Parent().String(), a.Name())
		}
		if _, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); !ok {
			return fmt.Sprintf("local %s %s", a.Parent().String(), a.Name())
		}
	case *ssa.FreeVar:
		return "deref " + a.Type().String()
	}
	return "deref " + addr.Type().String()
}

func fieldPlace(t types.Type, i int) string {
	return fmt.Sprintf("field %s %d", t.String(), i)
}

func (m *sharedMem) setPlace(k string) {
	if !m.places[k] {
		m.places[k] = true
		m.changed = true
	}
}

// callees of a call within the library.
func (m *sharedMem) callees(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		var out []*ssa.Function
		iface, _ := c.Value.Type().Underlying().(*types.Interface)
		for _, f := range m.byName[c.Method.Name()] {
			rt := f.Signature.Recv()
			if rt == nil || iface == nil || types.Implements(rt.Type(), iface) {
				out = append(out, f)
			}
		}
		return out
	}
	switch f := c.Value.(type) {
	case *ssa.Function:
		if m.inLib[f] {
			return []*ssa.Function{f}
		}
		return nil
	case *ssa.MakeClosure:
		if fn := f.Fn.(*ssa.Function); m.inLib[fn] {
			return []*ssa.Function{fn}
		}
		return nil
	case *ssa.Builtin:
		return nil
	}
	return m.taken[sigKey(c.Signature())]
}

func sigKey(s *types.Signature) string {
	return types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), nil)
}

var readerPkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "errors": true, "fmt": true, "io": true,
	"regexp": true, "math": true, "math/bits": true, "log": true, "cmp": true, "maps": true, "github.com/google/go-cmp/cmp": true, "golang.org/x/xerrors": true}
var safeTypes = map[string]bool{"sync.Mutex": true, "sync.RWMutex": true, "sync.Once": true, "sync.Pool": true, "regexp.Regexp": true, "strings.Replacer": true}

// external decides what a call out of the library does with shared memory.
func (m *sharedMem) external(fn *ssa.Function, i ssa.Instruction, c *ssa.CallCommon) (writes []ssa.Value, fresh bool) {
	f, _ := c.Value.(*ssa.Function)
	if c.IsInvoke() && strings.HasPrefix(c.Method.Name(), "Read") {
		return c.Args, false
	}
	if f == nil || c.IsInvoke() {
		return nil, false // writers, visitors and functions of the user
	}
	if f.Signature.Recv() != nil {
		t := f.Signature.Recv().Type()
		pt, isPtr := t.(*types.Pointer)
		if isPtr {
			t = pt.Elem()
		}
		name := t.String()
		if safeTypes[name] {
			return nil, name == "sync.Pool"
		}
		if name == "reflect.Value" {
			switch n := f.Name(); {
			case strings.HasPrefix(n, "Set"), n == "Clear", n == "Grow", n == "Send":
				return c.Args[:1], false
			}
			return nil, false
		}
		if isPtr && !strings.HasPrefix(f.Name(), "Len") && f.Name() != "String" && f.Name() != "Error" {
			return c.Args[:1], false
		}
		return nil, false
	}
	pkg := ""
	if o := f.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	} else if f.Origin() != nil && f.Origin().Pkg != nil {
		pkg = f.Origin().Pkg.Pkg.Path()
	}
	switch {
	case pkg == "fmt" && strings.HasPrefix(f.Name(), "Fprint"):
		return c.Args[:1], false
	case pkg == "maps" && (f.Name() == "Copy" || f.Name() == "DeleteFunc"):
		return c.Args[:1], false
	case strings.HasPrefix(f.Name(), "Append"), strings.HasPrefix(f.Name(), "Encode"), strings.HasPrefix(f.Name(), "Put"):
		return c.Args[:1], false
	case pkg == "io" && (strings.HasPrefix(f.Name(), "Read") || strings.HasPrefix(f.Name(), "Copy")):
		return c.Args, false
	case pkg == "errors" && f.Name() == "As":
		return c.Args[1:], false
	case readerPkgs[pkg]:
		return nil, false
	case pkg == "reflect":
		if f.Name() == "Copy" || f.Name() == "Append" || f.Name() == "AppendSlice" {
			return c.Args[:1], false
		}
		return nil, false
	case pkg == "bytes" || pkg == "slices" || pkg == "sort":
		switch n := f.Name(); {
		case strings.HasPrefix(n, "Sort"), n == "Reverse", n == "Stable", n == "Slice", n == "SliceStable", strings.HasPrefix(n, "Insert"), strings.HasPrefix(n, "Delete"), strings.HasPrefix(n, "Compact"), n == "Replace" && pkg == "slices", n == "Strings", n == "Ints", n == "NewBuffer":
			return c.Args[:1], false
		}
		return nil, false
	}
	return c.Args, false
}

func (m *sharedMem) step(fn *ssa.Function, i ssa.Instruction) {
	switch i := i.(type) {
	case *ssa.Store:
		if m.is(i.Addr) {
			m.bad(fn, i, "package-level memory is written", "stores through "+i.Addr.Name()+" ("+i.Addr.Type().String()+"), which may lead to a package variable")
		}
		if m.is(i.Val) {
			m.setPlace(place(i.Addr))
			if fa, ok := i.Addr.(*ssa.FieldAddr); ok {
				t := fa.X.Type().Underlying().(*types.Pointer).Elem()
				if n, ok := t.(*types.Named); ok && n.Obj().Pkg() == m.p.sqlast.Pkg && m.p.isTree(t) {
					m.bad(fn, i, "a tree shares package-level memory", "stores memory a package variable leads to in "+n.Obj().Name()+"."+t.Underlying().(*types.Struct).Field(fa.Field).Name())
				}
			}
		}
	case *ssa.MapUpdate:
		if m.is(i.Map) {
			m.bad(fn, i, "package-level memory is written", "updates a map that a package variable leads to")
		}
		if m.is(i.Value) {
			m.setPlace("elem " + i.Map.Type().Underlying().(*types.Map).Elem().String())
		}
	case *ssa.Send:
		if m.is(i.Chan) {
			m.bad(fn, i, "package-level memory is written", "sends on a channel that a package variable leads to")
		}
	case *ssa.Go:
		m.bad(fn, i, "a goroutine is started", "the order of its effects is not determined")
	case *ssa.Select:
		m.bad(fn, i, "a select chooses at random", "its outcome is not determined by the input")
	case *ssa.UnOp:
		if i.Op == token.MUL {
			if m.is(i.X) || m.places[place(i.X)] {
				m.mark(i)
			}
		} else if i.Op == token.ARROW && m.is(i.X) {
			m.mark(i)
		}
	case *ssa.FieldAddr:
		if m.is(i.X) {
			m.mark(i)
		}
	case *ssa.IndexAddr:
		if m.is(i.X) {
			m.mark(i)
		}
	case *ssa.Field:
		if m.is(i.X) || m.places[fieldPlace(i.X.Type(), i.Field)] {
			m.mark(i)
		}
	case *ssa.Index:
		if m.is(i.X) {
			m.mark(i)
		}
	case *ssa.Lookup:
		if m.is(i.X) {
			m.mark(i)
		}
		if mt, ok := i.X.Type().Underlying().(*types.Map); ok && m.places["elem "+mt.Elem().String()] {
			m.mark(i)
		}
	case *ssa.Slice, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.Phi, *ssa.Extract, *ssa.Convert, *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		v := i.(ssa.Value)
		if e, ok := i.(*ssa.Extract); ok {
			if c, ok := e.Tuple.(*ssa.Call); ok {
				// by result
				if fs := m.callees(&c.Call); len(fs) > 0 {
					for _, f := range fs {
						if m.results[f][e.Index] {
							m.mark(v)
						}
					}
					return
				}
			}
		}
		for _, op := range i.Operands(nil) {
			if *op != nil && m.is(*op) {
				m.mark(v)
			}
		}
	case *ssa.Range:
		if m.is(i.X) {
			m.vals[i] = true
		}
	case *ssa.Next:
		if m.vals[i.Iter] {
			m.mark(i)
		}
	case *ssa.MakeClosure:
		f := i.Fn.(*ssa.Function)
		for k, b := range i.Bindings {
			if m.is(b) {
				m.mark(f.FreeVars[k])
			}
			if _, ok := b.(*ssa.Alloc); ok && m.places[place(b)] {
				m.setPlace(place(f.FreeVars[k]))
			}
		}
	case *ssa.Return:
		for k, v := range i.Results {
			if m.is(v) && holds(v.Type()) && !m.results[fn][k] {
				if m.results[fn] == nil {
					m.results[fn] = map[int]bool{}
				}
				m.results[fn][k] = true
				m.changed = true
			}
		}
	case ssa.CallInstruction:
		m.call(fn, i)
	}
}

func (m *sharedMem) bad(fn *ssa.Function, i ssa.Instruction, rule, detail string) {
	if m.report != nil {
		m.report(fn, i, rule, detail)
	}
}

func (m *sharedMem) call(fn *ssa.Function, i ssa.CallInstruction) {
	c := i.Common()
	v, _ := i.(ssa.Value)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if m.is(c.Args[0]) {
				m.bad(fn, i, "package-level memory is written", "appends to a slice that a package variable leads to")
				m.mark(v)
			}
			if len(c.Args) > 1 && m.places["elem "+c.Args[0].Type().Underlying().(*types.Slice).Elem().String()] {
				return
			}
			if len(c.Args) > 1 && m.is(c.Args[1]) {
				if el := c.Args[0].Type().Underlying().(*types.Slice).Elem(); holds(el) {
					m.setPlace("elem " + el.String())
				}
			}
		case "copy", "delete", "clear":
			if m.is(c.Args[0]) {
				m.bad(fn, i, "package-level memory is written", b.Name()+" on memory that a package variable leads to")
			}
			if b.Name() == "copy" && m.is(c.Args[1]) {
				if st, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && holds(st.Elem()) {
					m.setPlace("elem " + st.Elem().String())
				}
			}
		}
		return
	}
	fs := m.callees(c)
	for _, f := range fs {
		args := c.Args
		ps := f.Params
		if c.IsInvoke() {
			if len(ps) > 0 && m.is(c.Value) {
				m.mark(ps[0])
			}
			if len(ps) > 0 {
				ps = ps[1:]
			}
		}
		for k, a := range args {
			if k < len(ps) && m.is(a) {
				m.mark(ps[k])
			}
		}
		if v != nil && f.Signature.Results().Len() == 1 && m.results[f][0] {
			m.mark(v)
		}
	}
	if len(fs) > 0 {
		return
	}
	writes, fresh := m.external(fn, i, c)
	for _, a := range writes {
		if m.is(a) && holds(a.Type()) {
			m.bad(fn, i, "package-level memory is written", "hands memory that a package variable leads to to "+calleeName(c)+", which may modify it")
		}
	}
	if v != nil && !fresh && !c.IsInvoke() {
		for _, a := range c.Args {
			if m.is(a) && holds(a.Type()) {
				m.mark(v)
			}
		}
	}
}

func calleeName(c *ssa.CallCommon) string {
	if f := c.StaticCallee(); f != nil {
		return f.String()
	}
	return c.String()
}

// isTree reports whether t is, or can be part of, a syntax tree: a struct of
// the package of the trees that is a node or a field of one.
func (p *Program) isTree(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return false
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Exported()
}

func checkShared(c *Context, r *Report) {
	p := c.p
	fns := p.library()
	m := &sharedMem{p: p, vals: map[ssa.Value]bool{}, places: map[string]bool{}, results: map[*ssa.Function]map[int]bool{},
		byName: map[string][]*ssa.Function{}, taken: map[string][]*ssa.Function{}, inLib: map[*ssa.Function]bool{}}
	for _, f := range fns {
		m.inLib[f] = true
	}
	takenSeen := map[*ssa.Function]bool{}
	for _, f := range fns {
		if f.Signature.Recv() != nil {
			m.byName[f.Name()] = append(m.byName[f.Name()], f)
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ops := i.Operands(nil)
				if ci, ok := i.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					ops = ops[1:]
				}
				for _, op := range ops {
					if g, ok := (*op).(*ssa.Function); ok && m.inLib[g] && !takenSeen[g] {
						takenSeen[g] = true
						k := sigKey(g.Signature)
						m.taken[k] = append(m.taken[k], g)
					}
				}
			}
		}
	}
	for {
		m.changed = false
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					m.step(f, i)
				}
			}
		}
		if !m.changed {
			break
		}
	}
	m.report = func(fn *ssa.Function, i ssa.Instruction, rule, detail string) {
		r.find(Finding{Rule: rule, At: fnName(fn), Where: p.posOf(fn, i), Detail: detail})
	}
	globals := map[*ssa.Global]bool{}
	for _, f := range fns {
		r.Counts["functions"]++
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch i.(type) {
				case *ssa.Store, *ssa.MapUpdate, *ssa.Send:
					r.Counts["stores"]++
				case ssa.CallInstruction:
					r.Counts["calls"]++
				}
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && p.ours(g.Pkg.Pkg) {
						globals[g] = true
					}
				}
				if rg, ok := i.(*ssa.Range); ok {
					if _, ok := rg.X.Type().Underlying().(*types.Map); ok {
						r.Counts["loops over maps"]++
						if why := mapOrderMatters(f, rg); why != "" {
							r.find(Finding{Rule: "the order of a map decides", At: fnName(f), Where: p.posOf(f, i), Detail: why})
						}
					}
				}
				m.step(f, i)
			}
		}
	}
	r.Counts["package variables used"] = len(globals)
	r.Counts["values that lead to package variables"] = len(m.vals)
	r.Minimum["functions"] = 450
	r.Minimum["stores"] = 600
	r.Minimum["package variables used"] = 3
}

// mapOrderMatters looks for effects in a loop over a map that differ with the
// order: anything but updates of a map, counting, and leaving with a constant.
func mapOrderMatters(f *ssa.Function, rg *ssa.Range) string {
	var next *ssa.Next
	for _, ref := range *rg.Referrers() {
		if n, ok := ref.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return ""
	}
	head := next.Block()
	body := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if body[b] {
			return
		}
		body[b] = true
		if b != head {
			for _, q := range b.Preds {
				back(q)
			}
		}
	}
	for _, q := range head.Preds {
		if head.Dominates(q) {
			body[head] = true
			back(q)
		}
	}
	sorted := false
	for _, b := range f.Blocks {
		if body[b] {
			continue
		}
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && g.Pkg != nil && (g.Pkg.Pkg.Path() == "sort" || g.Pkg.Pkg.Path() == "slices") {
					sorted = true
				}
			}
		}
	}
	if sorted {
		return ""
	}
	for _, b := range f.Blocks {
		if !body[b] {
			continue
		}
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Store:
				return "a loop over a map stores a value that depends on the order"
			case *ssa.Phi:
				if b == head {
					if bt, ok := i.Type().Underlying().(*types.Basic); ok && bt.Info()&(types.IsInteger|types.IsBoolean) != 0 {
						continue
					}
					return "a loop over a map builds a value in the order of iteration"
				}
			case ssa.CallInstruction:
				if bi, ok := i.Common().Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" {
						return "a loop over a map appends in the order of iteration"
					}
					continue
				}
				if g := i.Common().StaticCallee(); g != nil && g.Pkg != nil {
					if pp := g.Pkg.Pkg.Path(); pp == "strings" || pp == "strconv" || pp == "unicode" {
						if g.Signature.Recv() == nil {
							continue
						}
					}
				}
				return "a loop over a map calls " + calleeName(i.Common()) + " in the order of iteration"
			}
		}
		for _, s := range b.Succs {
			if !body[s] && b != head {
				if ret, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return); ok {
					for _, v := range ret.Results {
						if _, ok := v.(*ssa.Const); !ok {
							return "a loop over a map returns at the first match"
						}
					}
				}
			}
		}
	}
	return ""
}

// ---- C26 ----

var denied = map[string]string{
	"os": "the process or the file system", "os/exec": "other processes", "os/signal": "signals", "os/user": "the system", "syscall": "the system",
	"net": "the network", "net/http": "the network", "io/ioutil": "files", "path/filepath": "the file system", "plugin": "other code",
	"math/rand": "random numbers", "math/rand/v2": "random numbers", "crypto/rand": "random numbers", "log": "the standard logger", "log/slog": "the standard logger",
	"log/syslog": "the system log", "testing": "the test driver", "runtime/debug": "the runtime", "hash/maphash": "random seeds", "expvar": "the process", "flag": "the command line", "embed": "",
	"golang.org/x/sys/unix": "the system", "github.com/k0kubun/pp": "standard output", "github.com/mattn/go-colorable": "standard output",
}

// outside says why the use of an object of another package is not allowed.
func outside(o types.Object) string {
	if o == nil || o.Pkg() == nil {
		return ""
	}
	pkg, name := o.Pkg().Path(), o.Name()
	switch pkg {
	case "fmt":
		if strings.HasPrefix(name, "Print") {
			return "prints to standard output"
		}
		if name == "Scan" || name == "Scanln" || name == "Scanf" {
			return "reads standard input"
		}
		return ""
	case "log":
		if strings.HasPrefix(name, "Panic") {
			return ""
		}
	case "path/filepath":
		switch name {
		case "Abs", "Glob", "Walk", "WalkDir", "EvalSymlinks":
		default:
			return ""
		}
	case "os":
		if strings.HasPrefix(name, "Err") {
			return ""
		}
		if name == "Error" {
			return ""
		}
	case "io/ioutil":
		if name == "ReadAll" || name == "Discard" || name == "NopCloser" {
			return ""
		}
	case "time":
		switch name {
		case "Now", "Since", "Until", "Sleep", "After", "AfterFunc", "Tick", "NewTimer", "NewTicker", "LoadLocation", "Local":
			return "depends on the clock"
		}
		return ""
	case "runtime":
		switch name {
		case "Goexit", "GC", "GOMAXPROCS", "Breakpoint", "LockOSThread", "SetFinalizer":
			return "changes the runtime"
		case "NumGoroutine", "NumCPU", "ReadMemStats":
			return "depends on the runtime"
		}
		return ""
	}
	if w, ok := denied[pkg]; ok && w != "" {
		return "uses " + w
	}
	if strings.HasPrefix(pkg, "net/") || strings.HasPrefix(pkg, "database/") {
		return "uses the network"
	}
	return ""
}

func checkSilent(c *Context, r *Report) {
	p := c.p
	for _, f := range p.library() {
		r.Counts["functions"]++
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					r.Counts["calls"]++
					cc := ci.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok && (bi.Name() == "print" || bi.Name() == "println") {
						r.find(Finding{Rule: "acts outside what it was handed", At: fnName(f) + " uses " + bi.Name(), Where: p.posOf(f, i), Detail: "prints to standard error"})
					}
				}
				for _, op := range i.Operands(nil) {
					var o types.Object
					switch v := (*op).(type) {
					case *ssa.Function:
						o = v.Object()
						if p.analysed(v) {
							continue
						}
						r.Counts["uses of other packages"]++
					case *ssa.Global:
						if p.ours(v.Pkg.Pkg) {
							continue
						}
						o = v.Object()
						r.Counts["uses of other packages"]++
					default:
						continue
					}
					if why := outside(o); why != "" {
						r.find(Finding{Rule: "acts outside what it was handed", At: fnName(f) + " uses " + o.Pkg().Path() + "." + o.Name(), Where: p.posOf(f, i), Detail: why})
					}
				}
			}
		}
	}
	r.Minimum["functions"] = 450
	r.Minimum["calls"] = 1500
	r.Minimum["uses of other packages"] = 100
}
