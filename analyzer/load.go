package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked program under analysis, in SSA form.
type Program struct {
	funcsAll  []*ssa.Function
	enums     map[*types.Named]enumInfo
	dir       string
	fset      *token.FileSet
	ssa       *ssa.Program
	pkgs      []*packages.Package
	ourPkgs   map[*types.Package]bool
	byPath    map[string]*ssa.Package
	modPath   string
	inMapHook func(*State, *mapContent, Val) (in, known bool)

	errorStringT types.Type
	sqlast       *ssa.Package
	sqltoken     *ssa.Package
	dialect      *ssa.Package
	parser       *ssa.Package
	sqlastutil   *ssa.Package
}

func loadProgram(dir string) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax | packages.NeedModule,
		Dir:  dir,
		Fset: fset,
		Env:  append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{dir: dir, fset: fset, ssa: prog, pkgs: pkgs, ourPkgs: map[*types.Package]bool{}, byPath: map[string]*ssa.Package{}}
	for _, pk := range pkgs {
		if pk.Module != nil && pk.Module.Main {
			p.modPath = pk.Module.Path
		}
		p.ourPkgs[pk.Types] = true
		sp := prog.Package(pk.Types)
		if sp != nil {
			p.byPath[pk.PkgPath] = sp
		}
	}
	if p.modPath == "" {
		return nil, fmt.Errorf("no main module in %s", dir)
	}
	get := func(sub string) (*ssa.Package, error) {
		path := p.modPath
		if sub != "" {
			path += "/" + sub
		}
		if sp := p.byPath[path]; sp != nil {
			return sp, nil
		}
		return nil, fmt.Errorf("package %s not found", path)
	}
	for _, x := range []struct {
		dst **ssa.Package
		sub string
	}{{&p.parser, ""}, {&p.sqlast, "sqlast"}, {&p.sqltoken, "sqltoken"}, {&p.dialect, "dialect"}, {&p.sqlastutil, "sqlastutil"}} {
		sp, err := get(x.sub)
		if err != nil {
			return nil, err
		}
		*x.dst = sp
	}
	ep := prog.ImportedPackage("errors")
	if ep == nil {
		return nil, fmt.Errorf("package errors not loaded")
	}
	p.errorStringT = types.NewPointer(ep.Pkg.Scope().Lookup("errorString").Type())
	return p, nil
}

func (p *Program) ours(pk *types.Package) bool { return p.ourPkgs[pk] }

// analysed reports whether calls of fn are followed into its body.
func (p *Program) analysed(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return p.ours(fn.Pkg.Pkg)
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return p.ours(o.Pkg())
	}
	if fn.Synthetic != "" && fn.Signature.Recv() != nil {
		t := fn.Signature.Recv().Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return p.ours(n.Obj().Pkg())
		}
	}
	return false
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "-"
	}
	q := p.fset.Position(ps)
	f := q.Filename
	if r, err := filepath.Rel(p.dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (p *Program) posOf(fn *ssa.Function, i ssa.Instruction) string {
	ps := token.NoPos
	if i != nil {
		ps = i.Pos()
		if !ps.IsValid() && i.Block() != nil {
			// the nearest instruction with a position
			b := i.Block()
			seen := false
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				if b.Instrs[j] == i {
					seen = true
				}
				if seen && b.Instrs[j].Pos().IsValid() {
					ps = b.Instrs[j].Pos()
					break
				}
			}
		}
	}
	if !ps.IsValid() {
		ps = fn.Pos()
	}
	return fnName(fn) + " (" + p.pos(ps) + ")"
}

func fnName(fn *ssa.Function) string {
	s := fn.RelString(nil)
	if i := strings.LastIndex(s, "/"); i >= 0 {
		pre := ""
		if strings.HasPrefix(s, "(*") {
			pre = "(*"
		} else if strings.HasPrefix(s, "(") {
			pre = "("
		}
		s = pre + s[i+1:]
	}
	return s
}

// runInits evaluates the package initialisers of the analysed packages, in
// dependency order; what they build is the initial heap of every analysis.
func (e *Engine) runInits() (err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				err = fmt.Errorf("package initialisation: %s", u.msg)
				return
			}
			panic(r)
		}
	}()
	e.initMode = true
	defer func() { e.initMode = false }()
	done := map[*types.Package]bool{}
	st := e.newState()
	var visit func(sp *ssa.Package) error
	visit = func(sp *ssa.Package) error {
		if done[sp.Pkg] {
			return nil
		}
		done[sp.Pkg] = true
		for _, im := range sp.Pkg.Imports() {
			if e.prog.ours(im) {
				if err := visit(e.prog.ssa.Package(im)); err != nil {
					return err
				}
			}
		}
		ini := sp.Func("init")
		if ini == nil {
			return nil
		}
		st.frames = nil
		st.dead = false
		st.push(ini, nil, nil, nil)
		saved := e.hooks
		var after *State
		n := 0
		e.hooks.Exit = func(s *State, _ []Val) { after = s; n++ }
		e.hooks.Panic = func(s *State) { n = -1000 }
		e.Run(st)
		e.hooks = saved
		if n != 1 {
			return fmt.Errorf("package initialisation of %s is not deterministic or panics", sp.Pkg.Path())
		}
		st = after
		st.steps = 0
		return nil
	}
	for _, sp := range []*ssa.Package{e.prog.dialect, e.prog.sqltoken, e.prog.sqlast, e.prog.sqlastutil, e.prog.parser} {
		if err := visit(sp); err != nil {
			return err
		}
	}
	for id, o := range st.heap {
		e.base[id] = o
	}
	e.baseMax = e.objSeq
	return nil
}

type enumInfo struct {
	lo, hi int64
	ok     bool
}

// enumRange is the range of the constants declared for a named integer type of
// the analysed code: values of the type are taken to be among them.
func (p *Program) enumRange(t types.Type) (lo, hi int64, ok bool) {
	n, isNamed := t.(*types.Named)
	if !isNamed || !isInt(t) || n.Obj().Pkg() == nil || !p.ours(n.Obj().Pkg()) {
		return
	}
	if p.enums == nil {
		p.enums = map[*types.Named]enumInfo{}
	}
	if e, seen := p.enums[n]; seen {
		return e.lo, e.hi, e.ok
	}
	var e enumInfo
	sc := n.Obj().Pkg().Scope()
	cnt := 0
	seen := map[int64]bool{}
	for _, name := range sc.Names() {
		c, isC := sc.Lookup(name).(*types.Const)
		if !isC || !types.Identical(c.Type(), t) {
			continue
		}
		v, exact := constant.Int64Val(constant.ToInt(c.Val()))
		if !exact {
			continue
		}
		if !seen[v] {
			cnt++
		}
		seen[v] = true
		if !e.ok || v < e.lo {
			e.lo = v
		}
		if !e.ok || v > e.hi {
			e.hi = v
		}
		e.ok = true
	}
	e.ok = e.ok && int64(cnt) == e.hi-e.lo+1
	p.enums[n] = e
	return e.lo, e.hi, e.ok
}

// allFuncs lists every function of the analysed packages that has a body.
func (p *Program) allFuncs() []*ssa.Function {
	if p.funcsAll == nil {
		for fn := range ssautil.AllFunctions(p.ssa) {
			if fn.Blocks != nil && p.analysed(fn) {
				p.funcsAll = append(p.funcsAll, fn)
			}
		}
		sort.Slice(p.funcsAll, func(i, j int) bool { return p.funcsAll[i].String() < p.funcsAll[j].String() })
	}
	return p.funcsAll
}
