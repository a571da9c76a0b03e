// Package sym is a modular symbolic executor for go/ssa that generates and
// discharges verification conditions for functions under contract.
package sym

import (
	"fmt"
	"go/types"
	"strings"

	"verif/engine/term"

	"golang.org/x/tools/go/ssa"
)

// Value is the symbolic counterpart of a Go value:
//
//	*term.T   booleans, integers (bit-vectors of exact width), big.Int (Int sort)
//	*Ptr *Slice *Str *Struct *Arr *Iface *Func Tuple *MapV *Opaque
type Value interface{}

// Obj is an allocation: a variable, a composite or a backing array.
type Obj struct {
	ID    int
	Name  string
	Typ   types.Type
	Input bool // existed before the function under verification was called
	RO    bool // lazily created element of a symbolic container: must not be written
	Glob  *ssa.Global
	Seal  bool
	Ghost bool // allocated by contract code
	grown bool
}

func (o *Obj) String() string {
	if o == nil {
		return "nil"
	}
	return fmt.Sprintf("%s#%d", o.Name, o.ID)
}

type Step struct {
	F   int
	Idx *term.T // nil: field step
}

type Ptr struct {
	Obj  *Obj
	Path []Step
}

func (p *Ptr) IsNil() bool { return p.Obj == nil }

type Slice struct {
	Obj           *Obj
	Path          []Step
	Off, Len, Cap *term.T
	Nil           *term.T
}

type Str struct {
	C   *Content
	Off *term.T
	Len *term.T
}

type Struct struct {
	F []Value
	T types.Type
}

type Arr struct {
	C    *Content
	Len  *term.T
	Elem types.Type
}

// Iface is an interface value. T==nil && Opq=="" means definitely nil when Nil is true.
type Iface struct {
	Nil *term.T
	T   types.Type
	V   Value
	Opq string
}

type Func struct {
	Fn   *ssa.Function
	Free []Value
	Bltn *ssa.Builtin
	Nil  bool
	Nat  string // native closure name
	Args []Value
	Recv Value // bound interface method
	Meth *types.Func
}

type Tuple []Value

// Opaque is a value the engine does not model; only copying is allowed.
type Opaque struct {
	Name string
	T    types.Type
}

// MapV is the content of a map object (concrete small maps with syntactic keys only).
type MapV struct {
	Keys []Value
	Vals []Value
	T    *types.Map
}

// HashV is the abstract state of a hash object: the byte string absorbed so far.
type HashV struct {
	Segs []Seg
}

// Seg is a piece of a byte sequence.
type Seg struct {
	B   *term.T // single byte, or
	C   *Content
	Off *term.T
	Len *term.T
}

// ----------------------------------------------------------------- content

type ckind uint8

const (
	cZero ckind = iota
	cBase
	cVec
	cStore
	cCopy
	cLambda
	cIte
	cFn
)

// Content is an immutable (possibly unbounded) sequence of element values.
type Content struct {
	id    int
	k     ckind
	elem  types.Type
	name  string
	pre   []*term.T
	vec   []Value
	base  *Content
	idx   *term.T // store index / copy destination offset
	val   Value
	n     *term.T // copy length
	src   *Content
	soff  *term.T
	cond  *term.T
	fn    func(st *State, i *term.T) Value
	cache map[*term.T]Value
	be    *BEInfo
	tbl   string
}

// BEInfo marks contents that are big-endian renderings of an integer.
type BEInfo struct {
	X     *term.T // Int
	Fixed int     // >0: fixed width; 0: minimal
}

func under(t types.Type) types.Type { return t.Underlying() }

func isBigInt(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Int" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big"
}

func namedPath(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

func sortOf(t types.Type) (term.Sort, bool, bool) { // sort, signed, ok
	if isBigInt(t) {
		return term.IntS, true, true
	}
	b, ok := under(t).(*types.Basic)
	if !ok {
		return term.Sort{}, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return term.BoolS, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return term.BVS(64), true, true
	case types.Int32, types.UntypedRune:
		return term.BVS(32), true, true
	case types.Int16:
		return term.BVS(16), true, true
	case types.Int8:
		return term.BVS(8), true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return term.BVS(64), false, true
	case types.Uint32:
		return term.BVS(32), false, true
	case types.Uint16:
		return term.BVS(16), false, true
	case types.Uint8:
		return term.BVS(8), false, true
	case types.Float64, types.Float32:
		return term.Sort{}, false, false
	}
	return term.Sort{}, false, false
}

// Unsupported is raised (as a Go panic) when the program leaves the modelled subset.
type Unsupported struct{ Msg string }

func (u Unsupported) Error() string { return "unsupported: " + u.Msg }

func unsup(f string, a ...interface{}) {
	panic(Unsupported{fmt.Sprintf(f, a...)})
}

func valStr(v Value) string {
	switch x := v.(type) {
	case nil:
		return "<none>"
	case *term.T:
		return x.String()
	case *Ptr:
		if x.IsNil() {
			return "nil"
		}
		return "&" + x.Obj.String() + pathStr(x.Path)
	case *Slice:
		if x.Obj == nil {
			return "nilslice"
		}
		return fmt.Sprintf("%s%s[%s:+%s]", x.Obj, pathStr(x.Path), x.Off, x.Len)
	case *Str:
		return fmt.Sprintf("str(%s,%s)", x.C.name, x.Len)
	case *Struct:
		var b []string
		for _, f := range x.F {
			b = append(b, valStr(f))
		}
		return "{" + strings.Join(b, ",") + "}"
	case *Arr:
		return fmt.Sprintf("arr(%d,%s)", x.C.id, x.Len)
	case *Iface:
		if x.T != nil {
			return fmt.Sprintf("iface(%s,%s)", x.T, valStr(x.V))
		}
		return fmt.Sprintf("iface(nil=%s,%s)", x.Nil, x.Opq)
	case Tuple:
		var b []string
		for _, f := range x {
			b = append(b, valStr(f))
		}
		return "(" + strings.Join(b, ",") + ")"
	}
	return fmt.Sprintf("%T", v)
}

func pathStr(p []Step) string {
	s := ""
	for _, x := range p {
		if x.Idx != nil {
			s += "[" + x.Idx.String() + "]"
		} else {
			s += fmt.Sprintf(".%d", x.F)
		}
	}
	return s
}
