package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// nodeType is an exported AST node type together with the form (pointer or
// value) in which it implements Node.
type nodeType struct {
	name string
	T    types.Type // the implementing type, normally a pointer
	S    *types.Struct
}

func (p *Program) iface(pkg *ssa.Package, name string) (types.Type, *types.Interface, error) {
	o := pkg.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil, nil, fmt.Errorf("type %s.%s not found", pkg.Pkg.Path(), name)
	}
	it, ok := under(o.Type()).(*types.Interface)
	if !ok {
		return nil, nil, fmt.Errorf("%s.%s is no interface", pkg.Pkg.Path(), name)
	}
	return o.Type(), it, nil
}

// nodeTypes lists the exported struct types of sqlast that implement Node.
func (p *Program) nodeTypes() ([]nodeType, error) {
	_, it, err := p.iface(p.sqlast, "Node")
	if err != nil {
		return nil, err
	}
	var out []nodeType
	sc := p.sqlast.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || !tn.Exported() || tn.IsAlias() {
			continue
		}
		st, ok := under(tn.Type()).(*types.Struct)
		if !ok {
			continue
		}
		pt := types.NewPointer(tn.Type())
		if types.Implements(pt, it) {
			out = append(out, nodeType{n, pt, st})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out, nil
}

func (p *Program) method(t types.Type, name string) *ssa.Function {
	return p.ssa.LookupMethod(t, p.sqlast.Pkg, name)
}

// childKind tells how a field holds AST nodes: "" none, "one", "list".
func (p *Program) childKind(t types.Type) string {
	_, it, err := p.iface(p.sqlast, "Node")
	if err != nil {
		return ""
	}
	isNode := func(t types.Type) bool {
		if types.Implements(t, it) {
			return true
		}
		if _, ok := under(t).(*types.Struct); ok {
			return types.Implements(types.NewPointer(t), it)
		}
		return false
	}
	if isNode(t) {
		return "one"
	}
	if sl, ok := under(t).(*types.Slice); ok && isNode(sl.Elem()) {
		return "list"
	}
	return ""
}

type childField struct {
	idx  int
	name string
	typ  types.Type
	kind string
}

// children lists the exported node-holding fields of a node type.
func (p *Program) children(nt nodeType) []childField {
	var out []childField
	for i := 0; i < nt.S.NumFields(); i++ {
		f := nt.S.Field(i)
		if !f.Exported() || f.Embedded() {
			continue
		}
		if k := p.childKind(f.Type()); k != "" {
			out = append(out, childField{i, f.Name(), f.Type(), k})
		}
	}
	return out
}

// isLeaf reports whether values of the node type hold no other nodes.
func (p *Program) isLeaf(t types.Type) bool {
	pt, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	st, ok := under(pt.Elem()).(*types.Struct)
	if !ok {
		return false
	}
	return len(p.children(nodeType{"", t, st})) == 0
}

var rmMethods = map[string]bool{"WriteTo": true, "ToSQLString": true}

// renderEngine interprets the rendering code over symbolic trees, keeping the
// text written.
func (p *Program) renderEngine(base *Engine) *Engine {
	e := newEngine(p)
	e.base, e.baseMax, e.objSeq, e.globals = base.base, base.baseMax, base.objSeq, base.globals
	e.trackText = true
	e.hooks.AssumeNonNil = func(s *State, t *Term) bool { return !t.fresh() }
	e.hooks.Call = p.renderCall
	e.hooks.Head = accelHead
	return e
}

// renderCall models the rendering of children: the text of a child is text(x).
func (p *Program) renderCall(s *State, c *Call) bool {
	name, recv := "", Val(nil)
	switch {
	case c.Method != nil && c.Fn == nil:
		name, recv = c.Method.Name(), c.Recv
		if name == "Write" && len(c.Args) == 1 {
			return s.writerWrite(c, recv, c.Args[0])
		}
		if name == "WriteString" && len(c.Args) == 1 {
			return s.writerWrite(c, recv, c.Args[0])
		}
	case c.Fn != nil && c.Fn.Signature.Recv() != nil && p.analysed(c.Fn) && len(c.Args) > 0:
		name, recv = c.Fn.Name(), c.Args[0]
		t, ok := recv.(VTerm)
		if !ok || !rmMethods[name] && name != "Pos" && name != "End" {
			return false
		}
		if p.childKind(t.T.Typ) == "" || p.isLeaf(t.T.Typ) || t.T.Op == "recv" {
			return false
		}
	default:
		return false
	}
	rv := recv
	if iv, ok := rv.(VIface); ok {
		rv = iv.V
	}
	if _, ok := rv.(VTerm); !ok {
		return false
	}
	if s.nilDeref(rv) {
		s.fault("nil dereference")
		return true
	}
	text := []Piece{{T: mkTerm(types.Typ[types.String], "text", rv)}}
	switch name {
	case "WriteTo":
		w := c.Args[len(c.Args)-1]
		return s.writerWrite(c, w, VStr{text})
	case "ToSQLString":
		s.ret(c, VStr{text})
		return true
	case "Pos", "End":
		s.ret(c, callVal(c.Res.At(0).Type(), name, rv))
		return true
	}
	return false
}

// expandLeaf writes the text of a leaf child out, so that code that renders
// it in place and code that calls its methods agree. Leaf children are
// interpreted in place, so there is nothing to do.

type renderExit struct {
	st   *State
	text []Piece
	n    Val
	err  Val
}

// runWriteTo interprets (*T).WriteTo on a symbolic receiver from the state.
func (p *Program) runWriteTo(e *Engine, s *State, nt nodeType, recv, w Val) (exits []renderExit, panics []*State, err error) {
	fn := p.method(nt.T, "WriteTo")
	if fn == nil {
		return nil, nil, fmt.Errorf("no WriteTo on %s", nt.name)
	}
	wk := valKey(w)
	e.hooks.Exit = func(s *State, res []Val) {
		exits = append(exits, renderExit{s, writtenTo(s, s.out, wk), res[0], res[1]})
	}
	e.hooks.Panic = func(s *State) { panics = append(panics, s) }
	s = s.clone()
	s.out, s.dead, s.frames = nil, false, nil
	s.push(fn, []Val{recv, w}, nil, nil)
	err = e.safeRun(s)
	return
}

func (p *Program) runToSQLString(e *Engine, s *State, nt nodeType, recv Val) (exits []renderExit, panics []*State, err error) {
	fn := p.method(nt.T, "ToSQLString")
	if fn == nil {
		return nil, nil, fmt.Errorf("no ToSQLString on %s", nt.name)
	}
	e.hooks.Exit = func(s *State, res []Val) {
		v, ok := res[0].(VStr)
		if !ok {
			v = VStr{[]Piece{{T: mkTerm(types.Typ[types.String], "str", res[0])}}}
		}
		exits = append(exits, renderExit{s, v.P, nil, nil})
	}
	e.hooks.Panic = func(s *State) { panics = append(panics, s) }
	s = s.clone()
	s.out, s.dead, s.frames = nil, false, nil
	s.recs, s.gens = nil, nil
	s.push(fn, []Val{recv}, nil, nil)
	err = e.safeRun(s)
	return
}

func (e *Engine) safeRun(s *State) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				err = fmt.Errorf("undecided: %s", u.msg)
				return
			}
			panic(r)
		}
	}()
	e.Run(s)
	return nil
}

// parallelLists names lists of a node that belong together element by element.
var parallelLists = [][3]string{
	{"CaseExpr", "Conditions", "Results"}, // the WHEN and the THEN of each branch
}

func recvTerm(nt nodeType) Val { return VTerm{mkTerm(nt.T, "recv")} }

func (e *Engine) recvState(nt nodeType) (*State, Val) {
	s := e.newState()
	r := recvTerm(nt)
	s.facts[r.(VTerm).T] = Fact{Nil: 2}
	for _, pl := range parallelLists {
		if pl[0] == nt.name {
			var ts []*Term
			for i := 0; i < nt.S.NumFields(); i++ {
				if f := nt.S.Field(i); f.Name() == pl[1] || f.Name() == pl[2] {
					ts = append(ts, lenTerm(VTerm{mkTerm(f.Type(), ".*."+f.Name(), r)}), lenTerm(VTerm{mkTerm(f.Type(), "."+f.Name(), r)}))
				}
			}
			if len(ts) == 4 {
				s.addEq0(linT(ts[1]).add(linT(ts[3]), -1))
			}
		}
	}
	return s, r
}

func textKey(s *State, ps []Piece) string {
	return valKey(normPow(s.normVal(VStr{ps})))
}

// normPow renames the bound indices of powers canonically.
func normPow(v Val) Val {
	depth := 0
	var pieces func(ps []Piece) []Piece
	pieces = func(ps []Piece) []Piece {
		var out []Piece
		for _, p := range ps {
			if p.T != nil && p.T.Op == "pow" {
				j := p.T.Args[2].(VTerm).T
				c := mkTerm(types.Typ[types.Int], fmt.Sprintf("bound%d", depth))
				depth++
				sub := substVal(p.T.Args[0], map[*Term]Lin{j: linT(c)}).(VStr)
				q := pieces(sub.P)
				depth--
				out = append(out, Piece{T: mkTerm(p.T.Typ, "pow", VStr{q}, p.T.Args[1], VTerm{c})})
				continue
			}
			out = append(out, p)
		}
		return out
	}
	return VStr{pieces(v.(VStr).P)}
}

func showText(s *State, ps []Piece) string {
	var b strings.Builder
	for _, p := range ps {
		if p.T == nil {
			b.WriteString(p.Lit)
		} else if p.T.Op == "pow" {
			fmt.Fprintf(&b, "{%s}^%s", showText(s, p.T.Args[0].(VStr).P), valString(p.T.Args[1]))
		} else if p.T.Op == "text" {
			fmt.Fprintf(&b, "<%s>", valString(p.T.Args[0]))
		} else {
			fmt.Fprintf(&b, "<%s>", p.T)
		}
	}
	return b.String()
}
