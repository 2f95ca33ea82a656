package main

import (
	"fmt"
	"go/types"
)

// VRefl is a reflect.Value: a location, or a value that has none.
type VRefl struct {
	Ptr Val // address, nil when the value is not addressable
	V   Val // the value, when it is not addressable
	T   types.Type
}

func (v VRefl) valKey() string {
	k := "R"
	if v.Ptr != nil {
		k += "&" + valKey(v.Ptr)
	}
	if v.V != nil {
		k += valKey(v.V)
	}
	return k + typeName(v.T)
}

func (v VRefl) writeKey(k *keyer) {
	k.b.WriteByte('R')
	if v.Ptr != nil {
		k.b.WriteByte('&')
		k.val(v.Ptr)
	}
	if v.V != nil {
		k.val(v.V)
	}
	if v.T != nil {
		k.b.WriteString(typeName(v.T))
	}
}

func (s *State) reflVal(v VRefl) Val {
	if v.Ptr != nil {
		return s.load(v.Ptr, v.T)
	}
	return v.V
}

// reflect.Kind values used by the analysed code
const (
	kindInvalid   = 0
	kindBool      = 1
	kindInt       = 2
	kindInterface = 20
	kindMap       = 21
	kindPtr       = 22
	kindSlice     = 23
	kindString    = 24
	kindStruct    = 25
)

func kindOf(t types.Type) (int64, bool) {
	if t == nil {
		return kindInvalid, true
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		return kindPtr, true
	case *types.Interface:
		return kindInterface, true
	case *types.Slice:
		return kindSlice, true
	case *types.Struct:
		return kindStruct, true
	case *types.Map:
		return kindMap, true
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return kindString, true
		case u.Kind() == types.Bool:
			return kindBool, true
		case u.Kind() == types.Int:
			return kindInt, true
		}
	}
	return 0, false
}

func (s *State) reflOf(v Val) VRefl {
	switch x := v.(type) {
	case VIface:
		return VRefl{V: x.V, T: x.T}
	case VNil:
		return VRefl{}
	case VTerm:
		if f := s.facts[x.T]; f.T != nil {
			return VRefl{V: v, T: f.T}
		}
		if s.isNil(v) {
			return VRefl{}
		}
		// an interface of unknown dynamic type: all nodes are pointers
		return VRefl{V: v, T: types.NewPointer(types.NewStruct(nil, nil))}
	}
	panic(undecided{fmt.Sprintf("reflect.ValueOf(%s) in %s", valString(v), s.where())})
}

func init() {
	rv := func(s *State, v Val) VRefl {
		if r, ok := v.(VRefl); ok {
			return r
		}
		return VRefl{}
	}
	zeroFault := func(s *State, r VRefl, m string) bool {
		if r.T == nil {
			s.fault("reflect: call of " + m + " on zero Value")
			return true
		}
		return false
	}
	models["reflect.ValueOf"] = func(s *State, c *Call) bool {
		s.ret(c, s.reflOf(c.Args[0]))
		return true
	}
	elem := func(s *State, c *Call, m string, strict bool) bool {
		r := rv(s, c.Args[0])
		if r.T == nil {
			if strict {
				s.fault("reflect: call of " + m + " on zero Value")
				return true
			}
			s.ret(c, r)
			return true
		}
		switch u := under(r.T).(type) {
		case *types.Pointer:
			p := s.reflVal(r)
			if s.nilDeref(p) {
				s.ret(c, VRefl{})
				return true
			}
			if t, ok := p.(VTerm); ok {
				if _, isP := under(t.T.Typ).(*types.Pointer); isP {
					p = VPtr{Obj: s.objOf(t.T)}
				}
			}
			s.ret(c, VRefl{Ptr: p, T: u.Elem()})
			return true
		case *types.Interface:
			if !strict {
				break
			}
			x := s.reflVal(r)
			s.ret(c, s.reflOf(x))
			return true
		}
		s.ret(c, r)
		return true
	}
	models["reflect.Indirect"] = func(s *State, c *Call) bool { return elem(s, c, "Indirect", false) }
	models["(reflect.Value).Elem"] = func(s *State, c *Call) bool { return elem(s, c, "reflect.Value.Elem", true) }
	models["(reflect.Value).Kind"] = func(s *State, c *Call) bool {
		r := rv(s, c.Args[0])
		k, ok := kindOf(r.T)
		if !ok {
			panic(undecided{"reflect kind of " + typeName(r.T)})
		}
		s.ret(c, VInt{linC(k)})
		return true
	}
	models["(reflect.Value).IsValid"] = func(s *State, c *Call) bool {
		s.ret(c, VBool{rv(s, c.Args[0]).T != nil})
		return true
	}
	models["(reflect.Value).IsNil"] = func(s *State, c *Call) bool {
		r := rv(s, c.Args[0])
		if zeroFault(s, r, "reflect.Value.IsNil") {
			return true
		}
		v := s.reflVal(r)
		if t, ok := v.(VTerm); ok {
			if _, isI := under(t.T.Typ).(*types.Interface); isI && r.Ptr == nil {
				// the dynamic value of a non-nil interface
				s.ret(c, VBool{s.must(Atom{K: "true", T: mkTerm(types.Typ[types.Bool], "dynnil", v)})})
				return true
			}
		}
		s.ret(c, VBool{s.isNil(v)})
		return true
	}
	models["(reflect.Value).Interface"] = func(s *State, c *Call) bool {
		r := rv(s, c.Args[0])
		if zeroFault(s, r, "reflect.Value.Interface") {
			return true
		}
		v := s.reflVal(r)
		if _, isI := under(r.T).(*types.Interface); isI {
			s.ret(c, v)
			return true
		}
		if t, ok := v.(VTerm); ok {
			if _, isI := under(t.T.Typ).(*types.Interface); isI {
				s.ret(c, v)
				return true
			}
		}
		s.ret(c, VIface{r.T, v})
		return true
	}
	models["(reflect.Value).FieldByName"] = func(s *State, c *Call) bool {
		r := rv(s, c.Args[0])
		if zeroFault(s, r, "reflect.Value.FieldByName") {
			return true
		}
		st, ok := under(r.T).(*types.Struct)
		if !ok {
			s.fault("reflect: FieldByName of a value that is no struct")
			return true
		}
		name, ok := strLit(c.Args[1])
		if !ok {
			panic(undecided{"reflect.Value.FieldByName with a computed name in " + s.where()})
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				if p, ok := r.Ptr.(VPtr); ok {
					s.ret(c, VRefl{Ptr: VPtr{p.Obj, p.Path + fmt.Sprintf(".%d", i)}, T: st.Field(i).Type()})
					return true
				}
				if a, ok := r.V.(VAgg); ok {
					s.ret(c, VRefl{V: a.F[i], T: st.Field(i).Type()})
					return true
				}
				panic(undecided{"reflect.Value.FieldByName of an unknown struct in " + s.where()})
			}
		}
		s.ret(c, VRefl{})
		return true
	}
	models["(reflect.Value).Len"] = func(s *State, c *Call) bool {
		r := rv(s, c.Args[0])
		if zeroFault(s, r, "reflect.Value.Len") {
			return true
		}
		s.ret(c, s.lenOf(s.reflVal(r)))
		return true
	}
	models["(reflect.Value).Index"] = func(s *State, c *Call) bool {
		r := rv(s, c.Args[0])
		if zeroFault(s, r, "reflect.Value.Index") {
			return true
		}
		sl, ok := under(r.T).(*types.Slice)
		if !ok {
			panic(undecided{"reflect.Value.Index of " + typeName(r.T)})
		}
		x := s.reflVal(r)
		iv, ok := c.Args[1].(VInt)
		if !ok {
			panic(undecided{"reflect.Value.Index with an unknown index in " + s.where()})
		}
		ln, ok := s.lenOf(x).(VInt)
		if !ok {
			panic(undecided{"length of a reflected slice in " + s.where()})
		}
		if !s.must(Atom{K: "ge0", L: iv.L}) || !s.must(Atom{K: "ge0", L: ln.L.add(iv.L, -1).add(linC(1), -1)}) {
			s.fault("reflect: slice index out of range")
			return true
		}
		switch v := x.(type) {
		case VTerm:
			s.ret(c, VRefl{Ptr: VElem{x, VInt{s.norm(iv.L)}}, T: sl.Elem()})
			return true
		case VSlice:
			if n, ok := s.constInt(iv); ok {
				s.ret(c, VRefl{Ptr: VPtr{v.Obj, fmt.Sprintf(".%d", v.Off+int(n))}, T: sl.Elem()})
				return true
			}
		}
		panic(undecided{"reflect.Value.Index of an unknown slice in " + s.where()})
	}
}
