package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// models describe the effect of the standard-library functions the analysed
// code calls. A model that returns false leaves the call to Engine.external.
var models = map[string]func(*State, *Call) bool{}

func (s *State) newError(what string) Val {
	t := s.eng.prog.errorStringT
	id := s.newObj(under(t).(*types.Pointer).Elem(), VAgg{[]Val{VStr{[]Piece{{T: freshTerm(types.Typ[types.String], "msg")}}}}})
	o := *s.heap[id]
	o.Tag = what
	s.heap[id] = &o
	return VIface{t, VPtr{Obj: id}}
}

// pure registers functions whose results are functions of their arguments and
// that neither panic nor touch anything else.
func pure(names ...string) {
	for _, n := range names {
		n := n
		models[n] = func(s *State, c *Call) bool {
			s.pureCall(n, c)
			return true
		}
	}
}

func (s *State) pureCall(n string, c *Call) {
	args := make([]Val, len(c.Args))
	for i, a := range c.Args {
		args[i] = s.snapshot(a)
	}
	var res []Val
	for j := 0; j < c.Res.Len(); j++ {
		op := n
		if c.Res.Len() > 1 {
			op += fmt.Sprintf("/%d", j)
		}
		res = append(res, callVal(c.Res.At(j).Type(), op, args...))
	}
	s.ret(c, res...)
}

// snapshot replaces slices of the heap by their contents.
func (s *State) snapshot(v Val) Val {
	if sl, ok := v.(VSlice); ok {
		f := []Val{}
		for j := 0; j < sl.Len; j++ {
			f = append(f, readPath(s.get(sl.Obj).V, fmt.Sprintf(".%d", sl.Off+j)))
		}
		return VAgg{f}
	}
	return v
}

func lits(args []Val) ([]string, bool) {
	var out []string
	for _, a := range args {
		l, ok := strLit(a)
		if !ok {
			return nil, false
		}
		out = append(out, l)
	}
	return out, true
}

func strFn1(n string, f func(string) string) {
	models[n] = func(s *State, c *Call) bool {
		if l, ok := lits(c.Args); ok {
			s.ret(c, litStr(f(l[0])))
			return true
		}
		s.pureCall(n, c)
		return true
	}
}

func strPred2(n string, f func(a, b string) bool) {
	models[n] = func(s *State, c *Call) bool {
		if l, ok := lits(c.Args); ok {
			s.ret(c, VBool{f(l[0], l[1])})
			return true
		}
		s.pureCall(n, c)
		return true
	}
}

// decimal is the text of an integer.
func (s *State) decimal(v Val) []Piece {
	if n, ok := s.constInt(v); ok {
		return []Piece{{Lit: strconv.FormatInt(n, 10)}}
	}
	if x, ok := v.(VInt); ok {
		v = VInt{s.norm(x.L)}
	}
	return []Piece{{T: mkTerm(types.Typ[types.String], "decimal", v)}}
}

func init() {
	mkErr := func(s *State, c *Call) bool {
		s.ret(c, s.newError(c.Fn.Name()))
		return true
	}
	for _, n := range []string{"errors.New", "golang.org/x/xerrors.New", "golang.org/x/xerrors.Errorf", "fmt.Errorf"} {
		models[n] = mkErr
	}

	strFn1("strings.ToUpper", strings.ToUpper)
	strFn1("strings.ToLower", strings.ToLower)
	strFn1("strings.TrimSpace", strings.TrimSpace)
	strPred2("strings.Contains", strings.Contains)
	strPred2("strings.HasPrefix", strings.HasPrefix)
	strPred2("strings.HasSuffix", strings.HasSuffix)
	strPred2("strings.EqualFold", strings.EqualFold)
	models["strings.ReplaceAll"] = func(s *State, c *Call) bool {
		if l, ok := lits(c.Args); ok {
			s.ret(c, litStr(strings.ReplaceAll(l[0], l[1], l[2])))
			return true
		}
		s.ret(c, callVal(types.Typ[types.String], "replaceall", c.Args...))
		return true
	}
	models["strings.Replace"] = func(s *State, c *Call) bool {
		if n, ok := s.constInt(c.Args[3]); ok && n < 0 {
			s.ret(c, callVal(types.Typ[types.String], "replaceall", c.Args[:3]...))
			return true
		}
		s.pureCall("strings.Replace", c)
		return true
	}
	pure("strings.ContainsRune", "strings.ContainsAny", "strings.Index", "strings.IndexByte", "strings.IndexRune",
		"strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix",
		"strings.Split", "strings.Fields", "strings.Title", "strings.Repeat", "strings.Count", "strings.Map",
		"bytes.IndexByte", "bytes.Contains", "bytes.ContainsRune", "bytes.Index", "bytes.Equal", "bytes.ContainsAny",
		"strconv.Quote", "strconv.FormatFloat", "strconv.FormatBool", "strconv.ParseFloat", "strconv.ParseBool",
		"strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint",
		"unicode.IsLetter", "unicode.IsDigit", "unicode.IsSpace", "unicode.ToUpper", "unicode.ToLower", "unicode.IsUpper", "unicode.IsLower",
		"unicode/utf8.RuneCountInString", "unicode/utf8.RuneLen", "unicode/utf8.ValidString", "unicode/utf8.RuneCount",
		"(time.Time).Format", "(time.Time).String", "(time.Time).IsZero", "(*text/scanner.Scanner).Pos",
		"math.IsInf", "math.IsNaN", "math.Trunc", "math.Floor",
		"errors.Is", "golang.org/x/xerrors.Is")
	_ = unicode.IsLetter
	_ = utf8.RuneError

	models["strings.Join"] = func(s *State, c *Call) bool {
		if sl, ok := s.snapshot(c.Args[0]).(VAgg); ok {
			var ps []Piece
			sep := c.Args[1].(VStr)
			for i, x := range sl.F {
				if i > 0 {
					ps = concatPieces(ps, sep.P)
				}
				if xs, ok := x.(VStr); ok {
					ps = concatPieces(ps, xs.P)
				} else {
					s.pureCall("strings.Join", c)
					return true
				}
			}
			s.ret(c, VStr{ps})
			return true
		}
		if _, ok := c.Args[0].(VNil); ok {
			s.ret(c, VStr{})
			return true
		}
		s.pureCall("strings.Join", c)
		return true
	}

	models["strconv.Itoa"] = func(s *State, c *Call) bool {
		s.ret(c, VStr{s.decimal(c.Args[0])})
		return true
	}
	fmtInt := func(s *State, c *Call) bool {
		if b, ok := s.constInt(c.Args[1]); ok && b == 10 {
			s.ret(c, VStr{s.decimal(c.Args[0])})
			return true
		}
		s.pureCall(c.Fn.String(), c)
		return true
	}
	models["strconv.FormatInt"] = fmtInt
	models["strconv.FormatUint"] = fmtInt
	appInt := func(s *State, c *Call) bool {
		b, ok := c.Args[2].(VInt)
		dst, ok2 := bytesOf(c.Args[0])
		if n, okc := s.constInt(b); ok && ok2 && okc && n == 10 {
			s.ret(c, VBytes{concatPieces(dst, s.decimal(c.Args[1]))})
			return true
		}
		s.pureCall(c.Fn.String(), c)
		return true
	}
	models["strconv.AppendInt"] = appInt
	models["strconv.AppendUint"] = appInt
	appTerm := func(op string) func(*State, *Call) bool {
		return func(s *State, c *Call) bool {
			dst, ok := bytesOf(c.Args[0])
			if !ok {
				s.pureCall(c.Fn.String(), c)
				return true
			}
			var args []Val
			for _, a := range c.Args[1:] {
				args = append(args, s.snapshot(a))
			}
			s.ret(c, VBytes{concatPieces(dst, []Piece{{T: mkTerm(types.Typ[types.String], op, args...)}})})
			return true
		}
	}
	models["strconv.AppendFloat"] = appTerm("strconv.FormatFloat")
	models["strconv.AppendBool"] = appTerm("strconv.FormatBool")
	models["strconv.AppendQuote"] = appTerm("strconv.Quote")
	models["(time.Time).AppendFormat"] = func(s *State, c *Call) bool {
		dst, ok := bytesOf(c.Args[1])
		if !ok {
			return false
		}
		s.ret(c, VBytes{concatPieces(dst, []Piece{{T: mkTerm(types.Typ[types.String], "(time.Time).Format", c.Args[0], c.Args[2])}})})
		return true
	}

	// writers
	for _, ty := range []string{"strings.Builder", "bytes.Buffer"} {
		ty := ty
		models["(*"+ty+").WriteString"] = func(s *State, c *Call) bool { return s.builderWrite(c, c.Args[1], 2) }
		models["(*"+ty+").Write"] = func(s *State, c *Call) bool { return s.builderWrite(c, c.Args[1], 2) }
		models["(*"+ty+").WriteByte"] = func(s *State, c *Call) bool {
			if n, ok := s.constInt(c.Args[1]); ok {
				return s.builderWrite(c, litStr(string([]byte{byte(n)})), 1)
			}
			return s.builderWrite(c, VStr{[]Piece{{T: mkTerm(types.Typ[types.String], "byte", c.Args[1])}}}, 1)
		}
		models["(*"+ty+").WriteRune"] = func(s *State, c *Call) bool {
			return s.builderWrite(c, s.convert(types.Typ[types.Rune], types.Typ[types.String], c.Args[1]), 2)
		}
		models["(*"+ty+").String"] = func(s *State, c *Call) bool {
			s.ret(c, VStr{s.content(c.Args[0])})
			return true
		}
		models["(*"+ty+").Bytes"] = func(s *State, c *Call) bool {
			s.ret(c, VBytes{s.content(c.Args[0])})
			return true
		}
		models["(*"+ty+").Len"] = func(s *State, c *Call) bool {
			s.ret(c, s.lenPieces(s.content(c.Args[0])))
			return true
		}
		models["(*"+ty+").Grow"] = func(s *State, c *Call) bool { s.ret(c); return true }
		models["(*"+ty+").Reset"] = func(s *State, c *Call) bool {
			s.emit("reset", c.Args[0])
			s.ret(c)
			return true
		}
	}
	models["bytes.NewBuffer"] = func(s *State, c *Call) bool {
		bt := under(c.Res.At(0).Type()).(*types.Pointer).Elem()
		p := VPtr{Obj: s.newObj(bt, zeroVal(bt))}
		if ps, ok := bytesOf(c.Args[0]); ok && len(ps) > 0 {
			s.write(p, ps)
		}
		s.ret(c, p)
		return true
	}
	models["io.WriteString"] = func(s *State, c *Call) bool {
		return s.writerWrite(c, c.Args[0], c.Args[1])
	}
	models["fmt.Fprint"] = func(s *State, c *Call) bool { return s.fprint(c, s.sprint(c.Args[1], "")) }
	models["fmt.Fprintf"] = func(s *State, c *Call) bool { return s.fprint(c, s.sprintf(c.Args[1], c.Args[2])) }
	models["fmt.Fprintln"] = func(s *State, c *Call) bool { return s.fprint(c, nil) }
	models["fmt.Sprintf"] = func(s *State, c *Call) bool {
		if ps := s.sprintf(c.Args[0], c.Args[1]); ps != nil {
			s.ret(c, VStr{ps})
			return true
		}
		s.pureCall("fmt.Sprintf", c)
		return true
	}
	models["fmt.Sprint"] = func(s *State, c *Call) bool {
		if ps := s.sprint(c.Args[0], ""); ps != nil {
			s.ret(c, VStr{ps})
			return true
		}
		s.pureCall("fmt.Sprint", c)
		return true
	}

	// aborting
	for _, n := range []string{"log.Panic", "log.Panicf", "log.Panicln"} {
		n := n
		models[n] = func(s *State, c *Call) bool {
			s.emit("log", litStr(n))
			s.fault(n)
			return true
		}
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit"} {
		n := n
		models[n] = func(s *State, c *Call) bool {
			s.emit("exit", litStr(n))
			s.fault(n)
			return true
		}
	}
	for _, n := range []string{"log.Print", "log.Printf", "log.Println", "fmt.Print", "fmt.Printf", "fmt.Println"} {
		n := n
		models[n] = func(s *State, c *Call) bool {
			s.emit("print", litStr(n))
			var res []Val
			for j := 0; j < c.Res.Len(); j++ {
				res = append(res, freshVal(c.Res.At(j).Type(), n))
			}
			s.ret(c, res...)
			return true
		}
	}
	// sorting permutes the slice; what it holds afterwards is its elements in
	// an order the analysis does not follow
	sorter := func(s *State, c *Call) bool {
		s.emit("sort", s.snapshot(unIface(c.Args[0])))
		s.ret(c)
		return true
	}
	models["sort.Slice"] = sorter
	models["sort.SliceStable"] = sorter
	models["sort.Sort"] = sorter
	models["sort.Strings"] = sorter
}

func unIface(v Val) Val {
	if i, ok := v.(VIface); ok {
		return i.V
	}
	return v
}

func bytesOf(v Val) ([]Piece, bool) {
	switch v := v.(type) {
	case VBytes:
		return v.P, true
	case VStr:
		return v.P, true
	case VNil:
		return nil, true
	}
	if t := termOf(v); t != nil && isByteSlice(t.Typ) {
		return []Piece{{T: t}}, true
	}
	return nil, false
}

// write appends text to a writer.
func (s *State) write(w Val, ps []Piece) {
	if s.eng.trackText {
		s.emit("w", w, VStr{ps})
	}
}

// content is the text written so far to a builder made on this path.
func (s *State) content(w Val) []Piece {
	if !s.eng.trackText {
		return []Piece{{T: freshTerm(types.Typ[types.String], "text")}}
	}
	return writtenTo(s, s.out, valKey(w))
}

// writtenTo collects the text of the write events to w.
func writtenTo(s *State, evs []Ev, w string) []Piece {
	var out []Piece
	for _, e := range evs {
		switch {
		case e.K == "w" && valKey(e.V[0]) == w:
			out = concatPieces(out, e.V[1].(VStr).P)
		case e.K == "reset" && valKey(e.V[0]) == w:
			out = nil
		case e.K == "pow":
			sub := writtenTo(s, e.Sub, w)
			if len(sub) > 0 {
				out = append(out[:len(out):len(out)], Piece{T: mkTerm(types.Typ[types.String], "pow", VStr{sub}, VInt{s.norm(e.N)}, VTerm{e.Idx})})
			}
		}
	}
	return out
}

func (s *State) builderWrite(c *Call, v Val, nres int) bool {
	ps, ok := bytesOf(v)
	if !ok {
		ps = []Piece{{T: mkTerm(types.Typ[types.String], "text-of", v)}}
	}
	if s.nilDeref(c.Args[0]) {
		s.fault("nil dereference")
		return true
	}
	s.write(c.Args[0], ps)
	if nres == 1 {
		s.ret(c, VNil{})
	} else if c.Res.Len() == 2 {
		s.ret(c, s.lenPieces(ps), VNil{})
	} else {
		s.ret(c, s.lenPieces(ps))
	}
	return true
}

// writerWrite is a write of v to an io.Writer.
func (s *State) writerWrite(c *Call, w Val, v Val) bool {
	ps, ok := bytesOf(v)
	if !ok {
		ps = []Piece{{T: mkTerm(types.Typ[types.String], "text-of", v)}}
	}
	if s.nilDeref(w) {
		s.fault("nil dereference")
		return true
	}
	if iw, ok := w.(VIface); ok {
		s.write(iw.V, ps)
		s.ret(c, s.lenPieces(ps), VNil{})
		return true
	}
	if s.eng.hooks.Write != nil {
		n, err := s.eng.hooks.Write(s, w, ps)
		s.ret(c, n, err)
		return true
	}
	s.write(w, ps)
	s.ret(c, s.lenPieces(ps), VNil{})
	return true
}

func (s *State) fprint(c *Call, ps []Piece) bool {
	if ps == nil {
		ps = []Piece{{T: freshTerm(types.Typ[types.String], "printed")}}
	}
	return s.writerWrite(c, c.Args[0], VStr{ps})
}

// sprint formats operands like fmt.Sprint with string operands; nil when some
// operand is not understood.
func (s *State) sprint(list Val, sep string) []Piece {
	var out []Piece
	l, ok := s.snapshot(list).(VAgg)
	if !ok {
		return nil
	}
	for _, x := range l.F {
		ps, ok := s.format('v', x)
		if !ok {
			return nil
		}
		if iv, isI := x.(VIface); !isI || !isString(iv.T) {
			if len(l.F) > 1 {
				return nil // spacing rules
			}
		}
		out = concatPieces(out, ps)
	}
	if out == nil {
		out = []Piece{}
	}
	return out
}

func (s *State) sprintf(f, list Val) []Piece {
	fl, ok := strLit(f)
	if !ok {
		return nil
	}
	var l VAgg
	if _, isNil := list.(VNil); !isNil {
		l, ok = s.snapshot(list).(VAgg)
		if !ok {
			return nil
		}
	}
	out := []Piece{}
	arg := 0
	for i := 0; i < len(fl); i++ {
		if fl[i] != '%' {
			out = concatPieces(out, []Piece{{Lit: fl[i : i+1]}})
			continue
		}
		i++
		if i >= len(fl) {
			return nil
		}
		if fl[i] == '%' {
			out = concatPieces(out, []Piece{{Lit: "%"}})
			continue
		}
		if arg >= len(l.F) {
			return nil
		}
		ps, ok := s.format(rune(fl[i]), l.F[arg])
		if !ok {
			return nil
		}
		arg++
		out = concatPieces(out, ps)
	}
	if arg != len(l.F) {
		return nil
	}
	return out
}

func (s *State) format(verb rune, x Val) ([]Piece, bool) {
	iv, ok := x.(VIface)
	if !ok {
		return nil, false
	}
	// types with methods may format themselves
	if types.NewMethodSet(iv.T).Len() > 0 {
		return nil, false
	}
	switch v := iv.V.(type) {
	case VStr:
		if verb == 's' || verb == 'v' {
			return v.P, true
		}
	case VBytes:
		if verb == 's' {
			return v.P, true
		}
	case VInt:
		if verb == 'd' || verb == 'v' {
			return s.decimal(v), true
		}
	}
	return nil, false
}
