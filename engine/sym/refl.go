package sym

// The part of package reflect that the integer readers use, on statically known types.

import (
	"go/token"
	"go/types"
	"reflect"

	"verif/engine/term"
)

// RefV is a reflect.Value: the value v of type t, stored at addr if addressable.
type RefV struct {
	t    types.Type
	v    Value
	addr *Ptr
}

func kindOf(t types.Type) reflect.Kind {
	switch u := under(t).(type) {
	case *types.Basic:
		m := map[types.BasicKind]reflect.Kind{types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16,
			types.Int32: reflect.Int32, types.Int64: reflect.Int64, types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16,
			types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr, types.String: reflect.String}
		if k, ok := m[u.Kind()]; ok {
			return k
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Struct:
		return reflect.Struct
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Signature:
		return reflect.Func
	}
	unsup("reflect kind of %s", t)
	return 0
}

func (r *Run) rtype(t types.Type) Value {
	k := types.TypeString(t, nil)
	if r.rtypes == nil {
		r.rtypes = map[string]types.Type{}
	}
	r.rtypes["rtype:"+k] = t
	return &Iface{Nil: r.C.False, Opq: "rtype:" + k}
}

func dynType(st *State, v Value) (*Iface, types.Type) {
	i := st.force(v).(*Iface)
	if i.T == nil || st.quick(i.Nil) != -1 {
		unsup("reflection on a value of unknown type")
	}
	return i, i.T
}

func init() {
	ref := func(f func(fr *frame, st *State, x *RefV, a []Value, pos token.Pos) []Outcome) native {
		return func(fr *frame, st *State, a []Value, pos token.Pos) []Outcome {
			x, ok := a[0].(*RefV)
			if !ok {
				unsup("reflect.Value %s", valStr(a[0]))
			}
			return f(fr, st, x, a, pos)
		}
	}
	const rv = "(reflect.Value)."
	overflow := func(signed bool) native {
		return ref(func(fr *frame, st *State, x *RefV, a []Value, pos token.Pos) []Outcome {
			C := fr.r.C
			s, _, _ := sortOf(x.t)
			v := a[1].(*term.T)
			w := s.W
			if w == 64 {
				return ret(st, C.False)
			}
			lo := C.Extract(w-1, 0, v)
			if signed {
				return ret(st, C.Not(C.Eq(C.Sext(64, lo), v)))
			}
			return ret(st, C.Not(C.Eq(C.Zext(64, lo), v)))
		})
	}
	set := ref(func(fr *frame, st *State, x *RefV, a []Value, pos token.Pos) []Outcome {
		s, _, ok := sortOf(x.t)
		if x.addr == nil || !ok || s.K != term.BV {
			unsup("reflect set of %s", x.t)
		}
		st.storePtr(x.addr, fr.r.C.Extract(s.W-1, 0, a[1].(*term.T)))
		return ret(st, Tuple{})
	})
	for k, v := range map[string]native{
		"reflect.TypeOf": func(fr *frame, st *State, a []Value, pos token.Pos) []Outcome {
			i := st.force(a[0]).(*Iface)
			if st.quick(i.Nil) == 1 {
				return ret(st, &Iface{Nil: fr.r.C.True})
			}
			_, t := dynType(st, a[0])
			return ret(st, fr.r.rtype(t))
		},
		"reflect.ValueOf": func(fr *frame, st *State, a []Value, pos token.Pos) []Outcome {
			i, t := dynType(st, a[0])
			return ret(st, &RefV{t: t, v: i.V})
		},
		rv + "Kind": ref(func(fr *frame, st *State, x *RefV, a []Value, pos token.Pos) []Outcome {
			return ret(st, fr.r.bv(int64(kindOf(x.t))))
		}),
		rv + "Elem": ref(func(fr *frame, st *State, x *RefV, a []Value, pos token.Pos) []Outcome {
			p, ok := st.force(x.v).(*Ptr)
			pt, ok2 := under(x.t).(*types.Pointer)
			if !ok || !ok2 || p.IsNil() {
				unsup("reflect Elem of %s", x.t)
			}
			return ret(st, &RefV{t: pt.Elem(), v: st.loadPtr(p), addr: p})
		}),
		rv + "OverflowInt":  overflow(true),
		rv + "OverflowUint": overflow(false),
		rv + "SetInt":       set,
		rv + "SetUint":      set,
		rv + "Set": ref(func(fr *frame, st *State, x *RefV, a []Value, pos token.Pos) []Outcome {
			y, ok := a[1].(*RefV)
			if !ok || x.addr == nil {
				unsup("reflect Set")
			}
			if !types.AssignableTo(y.t, x.t) {
				return nilPanic(fr, st, "reflect.Set: value of type "+y.t.String()+" is not assignable to type "+x.t.String(), pos)
			}
			st.storePtr(x.addr, y.v)
			return ret(st, Tuple{})
		}),
	} {
		natives[k] = v
	}
	opaqueMethods["Kind"] = func(fr *frame, st *State, i *Iface, a []Value, pos token.Pos) []Outcome {
		t := fr.r.rtypes[i.Opq]
		if t == nil {
			return nil
		}
		return ret(st, fr.r.bv(int64(kindOf(t))))
	}
	opaqueMethods["Elem"] = func(fr *frame, st *State, i *Iface, a []Value, pos token.Pos) []Outcome {
		t := fr.r.rtypes[i.Opq]
		if t == nil {
			return nil
		}
		p, ok := under(t).(*types.Pointer)
		if !ok {
			return nilPanic(fr, st, "reflect: Elem of invalid type", pos)
		}
		return ret(st, fr.r.rtype(p.Elem()))
	}
}
