package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract values. All of them are immutable; objects live in State.heap.

type Val interface{}

type (
	VNil   struct{}                   // nil pointer, interface, slice, map, function
	VBool  struct{ B bool }           // known boolean
	VInt   struct{ L Lin }            // integer: an affine form over integer terms
	VStr   struct{ P []Piece }        // string: a concatenation of literals and terms
	VBytes struct{ P []Piece }        // []byte holding a string
	VConst struct{ C constant.Value } // any other constant (floats, ...)
	VPtr   struct {                   // pointer into an object
		Obj  int
		Path string // ".i" per struct field or constant array index
	}
	VAgg   struct{ F []Val } // struct, array or tuple
	VIface struct {          // interface holding a value of known dynamic type
		T types.Type
		V Val
	}
	VFunc struct {
		Fn   *ssa.Function
		Bind []Val
	}
	VBuiltin struct{ Name string }
	VSlice   struct { // slice of a heap array object
		Obj      int
		Off, Len int
	}
	VMap  struct{ Obj int }
	VTerm struct{ T *Term } // symbolic value
	VTop  struct{}          // unknown, not tracked
	VIter struct {          // iterator over a map with known content
		Obj int
		Pos int
	}
)

// Term is a symbolic value: a deterministic function of its arguments, or a
// fresh unknown.
type Term struct {
	Op   string
	Args []Val
	Typ  types.Type
	id   int
	key  string
}

var termTab = map[string]*Term{}
var termSeq int

func mkTerm(typ types.Type, op string, args ...Val) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('(')
	for _, a := range args {
		writeValKey(&b, a)
		b.WriteByte(',')
	}
	b.WriteByte(')')
	if typ != nil {
		b.WriteString(typeName(typ))
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &Term{Op: op, Args: args, Typ: typ, id: termSeq, key: k}
	termTab[k] = t
	return t
}

// freshTerm makes a term equal to nothing else.
func freshTerm(typ types.Type, what string) *Term {
	termSeq++
	t := &Term{Op: "fresh:" + what, Typ: typ, id: termSeq, key: fmt.Sprintf("#%d", termSeq)}
	return t
}

func (t *Term) fresh() bool { return strings.HasPrefix(t.Op, "fresh:") }

func (t *Term) String() string {
	if t.fresh() {
		return fmt.Sprintf("%s#%d", t.Op[6:], t.id)
	}
	if len(t.Args) == 0 {
		return t.Op
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, valString(a))
	}
	if strings.HasPrefix(t.Op, ".") {
		return as[0] + t.Op
	}
	return t.Op + "(" + strings.Join(as, ",") + ")"
}

// Piece is a part of a string: a literal, or a string-typed term.
type Piece struct {
	Lit string
	T   *Term
}

func litStr(s string) VStr {
	if s == "" {
		return VStr{}
	}
	return VStr{[]Piece{{Lit: s}}}
}

func concatPieces(a, b []Piece) []Piece {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	out := make([]Piece, 0, len(a)+len(b))
	out = append(out, a...)
	for _, p := range b {
		if n := len(out); p.T == nil && n > 0 && out[n-1].T == nil {
			out[n-1].Lit += p.Lit
			continue
		}
		out = append(out, p)
	}
	return out
}

func piecesLit(p []Piece) (string, bool) {
	if len(p) == 0 {
		return "", true
	}
	if len(p) == 1 && p[0].T == nil {
		return p[0].Lit, true
	}
	return "", false
}

func strLit(v Val) (string, bool) {
	switch v := v.(type) {
	case VStr:
		return piecesLit(v.P)
	case VBytes:
		return piecesLit(v.P)
	}
	return "", false
}

// Lin is the affine form C + sum coef*term.
type Lin struct {
	C int64
	T []LinTerm
}
type LinTerm struct {
	T *Term
	K int64
}

func linC(c int64) Lin      { return Lin{C: c} }
func linT(t *Term) Lin      { return Lin{T: []LinTerm{{t, 1}}} }
func (l Lin) isConst() bool { return len(l.T) == 0 }

func (l Lin) add(m Lin, k int64) Lin {
	r := Lin{C: l.C + k*m.C}
	i, j := 0, 0
	for i < len(l.T) || j < len(m.T) {
		switch {
		case j == len(m.T) || i < len(l.T) && l.T[i].T.id < m.T[j].T.id:
			r.T = append(r.T, l.T[i])
			i++
		case i == len(l.T) || m.T[j].T.id < l.T[i].T.id:
			r.T = append(r.T, LinTerm{m.T[j].T, k * m.T[j].K})
			j++
		default:
			if c := l.T[i].K + k*m.T[j].K; c != 0 {
				r.T = append(r.T, LinTerm{l.T[i].T, c})
			}
			i++
			j++
		}
	}
	return r
}

func (l Lin) scale(k int64) Lin {
	if k == 0 {
		return Lin{}
	}
	r := Lin{C: l.C * k}
	for _, t := range l.T {
		r.T = append(r.T, LinTerm{t.T, t.K * k})
	}
	return r
}

func (l Lin) key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d", l.C)
	for _, t := range l.T {
		fmt.Fprintf(&b, "%+d*%s", t.K, t.T.key)
	}
	return b.String()
}

func (l Lin) String() string {
	var s []string
	for _, t := range l.T {
		if t.K == 1 {
			s = append(s, t.T.String())
		} else {
			s = append(s, fmt.Sprintf("%d*%s", t.K, t.T))
		}
	}
	if l.C != 0 || len(s) == 0 {
		s = append(s, fmt.Sprint(l.C))
	}
	return strings.Join(s, "+")
}

// writeValKey writes an identity key: equal keys, equal values.
func writeValKey(b *strings.Builder, v Val) {
	switch v := v.(type) {
	case nil:
		b.WriteString("_")
	case VNil:
		b.WriteString("nil")
	case VBool:
		fmt.Fprintf(b, "%v", v.B)
	case VInt:
		b.WriteString(v.L.key())
	case VStr:
		b.WriteByte('"')
		writePieces(b, v.P)
		b.WriteByte('"')
	case VBytes:
		b.WriteByte('`')
		writePieces(b, v.P)
		b.WriteByte('`')
	case VConst:
		b.WriteString("c" + v.C.ExactString())
	case VPtr:
		fmt.Fprintf(b, "&%d%s", v.Obj, v.Path)
	case VAgg:
		b.WriteByte('{')
		for _, f := range v.F {
			writeValKey(b, f)
			b.WriteByte(',')
		}
		b.WriteByte('}')
	case VIface:
		b.WriteString("I[" + typeName(v.T) + "]")
		writeValKey(b, v.V)
	case VFunc:
		b.WriteString("F" + v.Fn.String())
		for _, x := range v.Bind {
			b.WriteByte('|')
			writeValKey(b, x)
		}
	case VBuiltin:
		b.WriteString("B" + v.Name)
	case VSlice:
		fmt.Fprintf(b, "S%d[%d+%d]", v.Obj, v.Off, v.Len)
	case VMap:
		fmt.Fprintf(b, "M%d", v.Obj)
	case VTerm:
		b.WriteString("t" + v.T.key)
	case VTop:
		b.WriteString("T")
	case VIter:
		fmt.Fprintf(b, "it%d@%d", v.Obj, v.Pos)
	case interface{ valKey() string }:
		b.WriteString(v.valKey())
	default:
		panic(fmt.Sprintf("writeValKey: %T", v))
	}
}

func writePieces(b *strings.Builder, ps []Piece) {
	for _, p := range ps {
		if p.T != nil {
			b.WriteString("\x01" + p.T.key + "\x02")
		} else {
			b.WriteString(p.Lit)
		}
	}
}

func valKey(v Val) string {
	var b strings.Builder
	writeValKey(&b, v)
	return b.String()
}

func valString(v Val) string {
	switch v := v.(type) {
	case VTerm:
		return v.T.String()
	case VInt:
		return v.L.String()
	case VIface:
		return typeName(v.T) + ":" + valString(v.V)
	case VStr:
		return piecesString(v.P)
	case VBytes:
		return piecesString(v.P)
	case VAgg:
		var s []string
		for _, f := range v.F {
			s = append(s, valString(f))
		}
		return "{" + strings.Join(s, ",") + "}"
	}
	return valKey(v)
}

func piecesString(ps []Piece) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, p := range ps {
		if p.T != nil {
			b.WriteString("<" + p.T.String() + ">")
		} else {
			b.WriteString(p.Lit)
		}
	}
	b.WriteByte('"')
	return b.String()
}

var typeNames = map[types.Type]string{}

func typeName(t types.Type) string {
	if s, ok := typeNames[t]; ok {
		return s
	}
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	typeNames[t] = s
	return s
}

func under(t types.Type) types.Type { return t.Underlying() }

func isInt(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func nilable(t types.Type) bool {
	switch under(t).(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature, *types.Chan:
		return true
	}
	return false
}

func zeroVal(t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool{false}
		case u.Info()&types.IsInteger != 0:
			return VInt{linC(0)}
		case u.Info()&types.IsString != 0:
			return VStr{}
		case u.Info()&types.IsFloat != 0:
			return VConst{constant.MakeFloat64(0)}
		}
		return VNil{}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = zeroVal(u.Field(i).Type())
		}
		return VAgg{f}
	case *types.Array:
		if u.Len() > 4096 {
			return VTop{}
		}
		f := make([]Val, u.Len())
		for i := range f {
			f[i] = zeroVal(u.Elem())
		}
		return VAgg{f}
	case *types.Tuple:
		f := make([]Val, u.Len())
		for i := range f {
			f[i] = zeroVal(u.At(i).Type())
		}
		return VAgg{f}
	}
	return VNil{}
}

// symVal is an unknown value of type t, identified by the term op(args).
func symVal(t types.Type, mk func(t types.Type, suffix string) *Term, suffix string) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return VInt{linT(mk(t, suffix))}
		case u.Info()&types.IsString != 0:
			return VStr{[]Piece{{T: mk(t, suffix)}}}
		}
		return VTerm{mk(t, suffix)}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = symVal(u.Field(i).Type(), mk, suffix+"."+u.Field(i).Name())
		}
		return VAgg{f}
	case *types.Tuple:
		f := make([]Val, u.Len())
		for i := range f {
			f[i] = symVal(u.At(i).Type(), mk, fmt.Sprintf("%s.%d", suffix, i))
		}
		return VAgg{f}
	case *types.Array:
		if u.Len() > 64 {
			return VTop{}
		}
		f := make([]Val, u.Len())
		for i := range f {
			f[i] = symVal(u.Elem(), mk, fmt.Sprintf("%s.%d", suffix, i))
		}
		return VAgg{f}
	}
	return VTerm{mk(t, suffix)}
}

func freshVal(t types.Type, what string) Val {
	return symVal(t, func(t types.Type, s string) *Term { return freshTerm(t, what+s) }, "")
}

// callVal is the result of a pure function applied to known arguments.
func callVal(t types.Type, op string, args ...Val) Val {
	return symVal(t, func(t types.Type, s string) *Term { return mkTerm(t, op+s, args...) }, "")
}

func termOf(v Val) *Term {
	switch v := v.(type) {
	case VTerm:
		return v.T
	case VStr:
		if len(v.P) == 1 {
			return v.P[0].T
		}
	case VInt:
		if v.L.C == 0 && len(v.L.T) == 1 && v.L.T[0].K == 1 {
			return v.L.T[0].T
		}
	}
	return nil
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
