package sym

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"os"

	"verif/engine/term"
)

var contentID int64

func (r *Run) nc(c *Content) *Content {
	r.nobj++
	c.id = r.nobj
	return c
}

func (r *Run) zeroC(elem types.Type) *Content { return r.nc(&Content{k: cZero, elem: elem}) }

func (r *Run) baseC(name string, elem types.Type, pre ...*term.T) *Content {
	return r.nc(&Content{k: cBase, elem: elem, name: name, pre: pre})
}
func (r *Run) vecC(elem types.Type, v []Value) *Content {
	return r.nc(&Content{k: cVec, elem: elem, vec: v})
}
func (r *Run) lambdaC(elem types.Type, f func(st *State, i *term.T) Value) *Content {
	return r.nc(&Content{k: cLambda, elem: elem, fn: f})
}

func (r *Run) bv(v int64) *term.T  { return r.C.BVc(64, uint64(v)) }
func (r *Run) bv8(v uint8) *term.T { return r.C.BVc(8, uint64(v)) }

// read returns element i (a 64-bit index) of c.
func (st *State) read(c *Content, i *term.T) Value {
	r := st.r
	C := r.C
	i = st.conc(i)
	switch c.k {
	case cZero:
		return r.zeroVal(c.elem)
	case cBase:
		if v, ok := c.cache[i]; ok {
			return v
		}
		v := r.symElem(c.elem, c.name, append(append([]*term.T{}, c.pre...), i))
		if c.cache == nil {
			c.cache = map[*term.T]Value{}
		}
		c.cache[i] = v
		return v
	case cVec:
		if i.IsConst() {
			if i.U < uint64(len(c.vec)) {
				return c.vec[i.U]
			}
			return r.zeroVal(c.elem)
		}
		return st.readVec(c, i)
	case cStore:
		switch st.quick(C.Eq(i, c.idx)) {
		case 1:
			return c.val
		case -1:
			return st.read(c.base, i)
		}
		r.split(C.Eq(i, c.idx))
		return st.mustMerge(C.Eq(i, c.idx), c.val, st.read(c.base, i))
	case cCopy:
		in := C.Ult(C.Sub(i, c.idx), c.n)
		switch st.quick(in) {
		case 1:
			return st.read(c.src, C.Add(c.soff, C.Sub(i, c.idx)))
		case -1:
			return st.read(c.base, i)
		}
		r.split(in)
		a := st.with(in).read(c.src, C.Add(c.soff, C.Sub(i, c.idx)))
		b := st.with(C.Not(in)).read(c.base, i)
		return st.mustMerge(in, a, b)
	case cLambda:
		return c.fn(st, i)
	case cIte:
		switch st.quick(c.cond) {
		case 1:
			return st.read(c.base, i)
		case -1:
			return st.read(c.src, i)
		}
		r.split(c.cond)
		return st.mustMerge(c.cond, st.read(c.base, i), st.read(c.src, i))
	}
	panic("content kind")
}

// split notes an undecided read condition (used to split goals on it).
func (r *Run) split(c *term.T) {
	if r.splitting && len(r.splits) == 0 {
		r.splits = append(r.splits, c)
	}
}

// proveSplit proves the equality of the two values f computes, splitting on the undecided
// conditions met while reading them.
func (st *State) proveSplit(name, pos string, depth int, f func(st *State) (Value, Value)) bool {
	r := st.r
	sv, ss := r.splitting, r.splits
	r.splitting, r.splits = depth > 0, nil
	a, b := f(st)
	var c *term.T
	if len(r.splits) > 0 {
		c = r.splits[0]
	}
	r.splitting, r.splits = sv, ss
	if c == nil || same(a, b) {
		return st.proveEq(name, pos, a, b)
	}
	ok := true
	if os.Getenv("GV_SPLIT") != "" {
		r.logf("split %s on %s", name, c)
	}
	for _, g := range []*term.T{c, r.C.Not(c)} {
		s := st.clone()
		s.assume(g)
		if s.infeasible() {
			continue
		}
		if !s.proveSplit(name, pos, depth-1, f) {
			ok = false
			if r.quiet > 0 {
				return false
			}
		}
	}
	return ok
}

// with returns a light-weight copy of the state with one more assumption (heap shared, read only).
func (st *State) with(c *term.T) *State {
	s := &State{r: st.r, pc: st.pc, heap: st.heap, pan: st.pan, gh: st.gh, rnd: st.rnd}
	s.eqs = make(map[*term.T]*term.T, len(st.eqs)+1)
	for k, v := range st.eqs {
		s.eqs[k] = v
	}
	s.assume(c)
	return s
}

func (st *State) readVec(c *Content, i *term.T) Value {
	r := st.r
	C := r.C
	if len(c.vec) == 0 {
		return r.zeroVal(c.elem)
	}
	// all equal?
	same := true
	allc := true
	for _, v := range c.vec {
		t, ok := v.(*term.T)
		if !ok || !t.IsConst() {
			allc = false
		}
		if !ok || v != c.vec[0] {
			same = false
		}
	}
	if same {
		return c.vec[0]
	}
	lo, hi := C.Range(i)
	if hi >= uint64(len(c.vec)) {
		hi = uint64(len(c.vec)) - 1
	}
	if allc && len(c.vec) > 8 {
		if c.tbl != "" {
			idx := i
			if len(c.vec) <= 256 && hi < 256 {
				idx = C.Extract(7, 0, i)
			}
			return C.App(c.tbl, term.BVS(c.vec[0].(*term.T).S.W), idx)
		}
		h := sha256.New()
		w := 0
		for _, v := range c.vec {
			t := v.(*term.T)
			w = t.S.W
			fmt.Fprintf(h, "%d,%d;", t.S.W, t.U)
		}
		idx := i
		if len(c.vec) <= 256 && hi < 256 {
			idx = C.Extract(7, 0, i)
		}
		nm := fmt.Sprintf("tbl_%x_%d", h.Sum(nil)[:6], w)
		r.tables[nm] = c
		c.tbl = nm
		return C.App(nm, term.BVS(w), idx)
	}
	if hi-lo > 300 {
		unsup("symbolic index into a vector of %d", len(c.vec))
	}
	v := c.vec[hi]
	for k := int64(hi) - 1; k >= int64(lo); k-- {
		v = st.mustMerge(C.Eq(i, r.bv(k)), c.vec[k], v)
	}
	return v
}

func (r *Run) storeC(st *State, c *Content, i *term.T, v Value) *Content {
	i = st.conc(i)
	if c.k == cVec && i.IsConst() && i.U < uint64(len(c.vec)) {
		if c.vec[i.U] == v {
			return c
		}
		nv := make([]Value, len(c.vec))
		copy(nv, c.vec)
		nv[i.U] = v
		return r.vecC(c.elem, nv)
	}
	if c.k == cStore && c.idx == i {
		return r.nc(&Content{k: cStore, elem: c.elem, base: c.base, idx: i, val: v})
	}
	return r.nc(&Content{k: cStore, elem: c.elem, base: c, idx: i, val: v})
}

// copyC overwrites n elements of base from offset off with src[soff..].
func (r *Run) copyC(st *State, base *Content, off, n *term.T, src *Content, soff *term.T) *Content {
	off, n, soff = st.conc(off), st.conc(n), st.conc(soff)
	if n.IsConst() && n.U == 0 {
		return base
	}
	if n.IsConst() && n.U <= 600 && base.k == cVec && off.IsConst() && off.U+n.U <= uint64(len(base.vec)) {
		nv := make([]Value, len(base.vec))
		copy(nv, base.vec)
		for k := uint64(0); k < n.U; k++ {
			nv[off.U+k] = st.read(src, r.C.Add(soff, r.bv(int64(k))))
		}
		return r.vecC(base.elem, nv)
	}
	// flatten a copy from a copy that covers it entirely
	for src.k == cCopy {
		d := r.C.Sub(soff, src.idx)
		if st.quick(r.C.And(r.C.Ule(d, src.n), r.C.Ule(n, r.C.Sub(src.n, d)))) == 1 {
			soff = r.C.Add(src.soff, d)
			src = src.src
			continue
		}
		break
	}
	return r.nc(&Content{k: cCopy, elem: base.elem, base: base, idx: off, n: n, src: src, soff: soff})
}

func (r *Run) iteC(cond *term.T, a, b *Content) *Content {
	if a == b {
		return a
	}
	return r.nc(&Content{k: cIte, elem: a.elem, cond: cond, base: a, src: b})
}

func (st *State) mustMerge(c *term.T, a, b Value) Value {
	v, ok := st.merge(c, a, b)
	if !ok {
		unsup("cannot merge %s and %s", valStr(a), valStr(b))
	}
	return v
}

// merge builds "if c then a else b".
func (st *State) merge(c *term.T, a, b Value) (Value, bool) {
	r := st.r
	if c.IsTrue() {
		return a, true
	}
	if c.IsFalse() {
		return b, true
	}
	if _, ok := a.(*Tainted); ok {
		return a, true
	}
	if _, ok := b.(*Tainted); ok {
		return b, true
	}
	switch x := a.(type) {
	case *term.T:
		y, ok := b.(*term.T)
		if !ok || x.S != y.S {
			return nil, false
		}
		return r.C.Ite(c, x, y), true
	case *Ptr:
		y, ok := b.(*Ptr)
		if !ok || x.Obj != y.Obj || len(x.Path) != len(y.Path) {
			return nil, false
		}
		np := make([]Step, len(x.Path))
		for i := range x.Path {
			p, q := x.Path[i], y.Path[i]
			if (p.Idx == nil) != (q.Idx == nil) || p.F != q.F {
				return nil, false
			}
			np[i] = p
			if p.Idx != nil {
				np[i].Idx = r.C.Ite(c, p.Idx, q.Idx)
			}
		}
		return &Ptr{Obj: x.Obj, Path: np}, true
	case *Slice:
		y, ok := b.(*Slice)
		if !ok {
			return nil, false
		}
		if x.Obj != y.Obj {
			if x.Obj == nil {
				return &Slice{Obj: y.Obj, Path: y.Path, Off: y.Off, Len: r.C.Ite(c, x.Len, y.Len), Cap: r.C.Ite(c, x.Cap, y.Cap), Nil: r.C.Ite(c, x.Nil, y.Nil)}, true
			}
			if y.Obj == nil {
				return &Slice{Obj: x.Obj, Path: x.Path, Off: x.Off, Len: r.C.Ite(c, x.Len, y.Len), Cap: r.C.Ite(c, x.Cap, y.Cap), Nil: r.C.Ite(c, x.Nil, y.Nil)}, true
			}
			return nil, false
		}
		if !samePath(x.Path, y.Path) {
			return nil, false
		}
		return &Slice{Obj: x.Obj, Path: x.Path, Off: r.C.Ite(c, x.Off, y.Off), Len: r.C.Ite(c, x.Len, y.Len), Cap: r.C.Ite(c, x.Cap, y.Cap), Nil: r.C.Ite(c, x.Nil, y.Nil)}, true
	case *Str:
		y, ok := b.(*Str)
		if !ok {
			return nil, false
		}
		if x.C == y.C {
			return &Str{C: x.C, Off: r.C.Ite(c, x.Off, y.Off), Len: r.C.Ite(c, x.Len, y.Len)}, true
		}
		shift := func(s *Str) *Content {
			if s.Off.IsConst() && s.Off.U == 0 {
				return s.C
			}
			return r.lambdaC(s.C.elem, func(st *State, i *term.T) Value { return st.read(s.C, r.C.Add(s.Off, i)) })
		}
		return &Str{C: r.iteC(c, shift(x), shift(y)), Off: r.bv(0), Len: r.C.Ite(c, x.Len, y.Len)}, true
	case *Struct:
		y, ok := b.(*Struct)
		if !ok || len(x.F) != len(y.F) {
			return nil, false
		}
		nf := make([]Value, len(x.F))
		for i := range x.F {
			v, ok := st.merge(c, x.F[i], y.F[i])
			if !ok {
				return nil, false
			}
			nf[i] = v
		}
		return &Struct{F: nf, T: x.T}, true
	case *Arr:
		y, ok := b.(*Arr)
		if !ok {
			return nil, false
		}
		if x.C == y.C {
			return x, true
		}
		if x.C.k == cVec && y.C.k == cVec && len(x.C.vec) == len(y.C.vec) {
			nv := make([]Value, len(x.C.vec))
			for i := range nv {
				v, ok := st.merge(c, x.C.vec[i], y.C.vec[i])
				if !ok {
					return nil, false
				}
				nv[i] = v
			}
			return &Arr{C: r.vecC(x.C.elem, nv), Len: x.Len, Elem: x.Elem}, true
		}
		return &Arr{C: r.iteC(c, x.C, y.C), Len: r.C.Ite(c, x.Len, y.Len), Elem: x.Elem}, true
	case *Iface:
		y, ok := b.(*Iface)
		if !ok {
			return nil, false
		}
		if x.Nil.IsTrue() && y.Nil.IsTrue() {
			return x, true
		}
		if x.Nil.IsTrue() {
			return &Iface{Nil: r.C.Ite(c, r.C.True, y.Nil), T: y.T, V: y.V, Opq: y.Opq}, true
		}
		if y.Nil.IsTrue() {
			return &Iface{Nil: r.C.Ite(c, x.Nil, r.C.True), T: x.T, V: x.V, Opq: x.Opq}, true
		}
		if x.T == nil && y.T == nil {
			if x.Opq == y.Opq {
				return &Iface{Nil: r.C.Ite(c, x.Nil, y.Nil), Opq: x.Opq}, true
			}
			if isErrOpq(x.Opq) && isErrOpq(y.Opq) {
				return &Iface{Nil: r.C.Ite(c, x.Nil, y.Nil), Opq: "err:?" + r.uniq("m")}, true
			}
			return nil, false
		}
		if x.T != nil && y.T != nil && types.Identical(x.T, y.T) {
			v, ok := st.merge(c, x.V, y.V)
			if ok {
				return &Iface{Nil: r.C.Ite(c, x.Nil, y.Nil), T: x.T, V: v}, true
			}
		}
		return nil, false
	case *Func:
		y, ok := b.(*Func)
		if ok && (x == y || x.Nil && y.Nil || x.Fn == y.Fn && x.Fn != nil && len(x.Free) == 0 && len(y.Free) == 0) {
			return x, true
		}
		return nil, false
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		n := make(Tuple, len(x))
		for i := range x {
			v, ok := st.merge(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			n[i] = v
		}
		return n, true
	case *HashV:
		y, ok := b.(*HashV)
		if ok && sameSegs(x.Segs, y.Segs) {
			return x, true
		}
		return nil, false
	case *Opaque:
		if y, ok := b.(*Opaque); ok && y.Name == x.Name {
			return x, true
		}
		return nil, false
	case *Lazy:
		if y, ok := b.(*Lazy); ok && y.Name == x.Name {
			return x, true
		}
		return nil, false
	case *MapV:
		if a == b {
			return a, true
		}
		return nil, false
	case nil:
		return nil, b == nil
	}
	return nil, false
}

func isErrOpq(s string) bool { return len(s) > 4 && s[:4] == "err:" }

func sameSegs(a, b []Seg) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func samePath(a, b []Step) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].F != b[i].F || a[i].Idx != b[i].Idx {
			return false
		}
	}
	return true
}

// same: structural identity (terms are hash-consed).
func same(a, b Value) bool {
	if x, ok := a.(Tuple); ok {
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	if _, ok := b.(Tuple); ok {
		return false
	}
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *Tainted:
		_, ok := b.(*Tainted)
		return ok
	case *Ptr:
		y, ok := b.(*Ptr)
		return ok && x.Obj == y.Obj && samePath(x.Path, y.Path)
	case *Slice:
		y, ok := b.(*Slice)
		return ok && x.Obj == y.Obj && samePath(x.Path, y.Path) && x.Off == y.Off && x.Len == y.Len && x.Cap == y.Cap && x.Nil == y.Nil
	case *Str:
		y, ok := b.(*Str)
		return ok && sameC(x.C, y.C) && x.Off == y.Off && x.Len == y.Len
	case *Struct:
		y, ok := b.(*Struct)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !same(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case *Arr:
		y, ok := b.(*Arr)
		return ok && x.Len == y.Len && sameC(x.C, y.C)
	case *Iface:
		y, ok := b.(*Iface)
		if !ok || x.Nil != y.Nil || x.Opq != y.Opq {
			return false
		}
		if x.Nil.IsTrue() {
			return true
		}
		if (x.T == nil) != (y.T == nil) {
			return false
		}
		return x.T == nil || types.Identical(x.T, y.T) && same(x.V, y.V)
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	case *Func:
		y, ok := b.(*Func)
		if !ok || x.Fn != y.Fn || x.Nil != y.Nil || x.Nat != y.Nat || len(x.Free) != len(y.Free) || x.Bltn != y.Bltn {
			return false
		}
		for i := range x.Free {
			if !same(x.Free[i], y.Free[i]) {
				return false
			}
		}
		return same(x.Recv, y.Recv)
	case *Lazy:
		y, ok := b.(*Lazy)
		return ok && x.Name == y.Name
	case *Opaque:
		y, ok := b.(*Opaque)
		return ok && x.Name == y.Name
	case *HashV:
		y, ok := b.(*HashV)
		return ok && sameSegs(x.Segs, y.Segs)
	case *MapV:
		y, ok := b.(*MapV)
		if !ok || len(x.Keys) != len(y.Keys) {
			return false
		}
		for i := range x.Keys {
			if !same(x.Keys[i], y.Keys[i]) || !same(x.Vals[i], y.Vals[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func sameC(a, b *Content) bool {
	if a == b {
		return true
	}
	if a.k != b.k {
		return false
	}
	switch a.k {
	case cZero:
		return true
	case cVec:
		if len(a.vec) != len(b.vec) {
			return false
		}
		for i := range a.vec {
			if !same(a.vec[i], b.vec[i]) {
				return false
			}
		}
		return true
	case cStore:
		return a.idx == b.idx && same(a.val, b.val) && sameC(a.base, b.base)
	case cCopy:
		return a.idx == b.idx && a.n == b.n && a.soff == b.soff && sameC(a.base, b.base) && sameC(a.src, b.src)
	case cBase:
		if a.name != b.name || len(a.pre) != len(b.pre) {
			return false
		}
		for i := range a.pre {
			if a.pre[i] != b.pre[i] {
				return false
			}
		}
		return true
	case cIte:
		return a.cond == b.cond && sameC(a.base, b.base) && sameC(a.src, b.src)
	}
	return false
}

// ------------------------------------------------------------ zero / symbolic values

// Lazy is a symbolic value that has not been materialised yet.
type Lazy struct {
	T    types.Type
	Name string
	Args []*term.T
	RO   bool
}

func (r *Run) zeroVal(t types.Type) Value {
	if isBigInt(t) {
		return r.C.IntI(0)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return &Str{C: r.vecC(types.Typ[types.Byte], nil), Off: r.bv(0), Len: r.bv(0)}
		}
		if s, _, ok := sortOf(t); ok {
			if s.K == term.Bool {
				return r.C.False
			}
			return r.C.BVc(s.W, 0)
		}
		return &Opaque{Name: "zero-" + u.String(), T: t}
	case *types.Pointer:
		return &Ptr{}
	case *types.Slice:
		return r.nilSlice()
	case *types.Interface:
		return &Iface{Nil: r.C.True}
	case *types.Signature:
		return &Func{Nil: true}
	case *types.Map, *types.Chan:
		return &Ptr{}
	case *types.Struct:
		if namedPath(t) == "time.Time" {
			return &Opaque{Name: "time.zero", T: t}
		}
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = r.zeroVal(u.Field(i).Type())
		}
		return &Struct{F: f, T: t}
	case *types.Array:
		n := u.Len()
		if n <= 2048 {
			v := make([]Value, n)
			for i := range v {
				v[i] = r.zeroVal(u.Elem())
			}
			return &Arr{C: r.vecC(u.Elem(), v), Len: r.bv(n), Elem: u.Elem()}
		}
		return &Arr{C: r.zeroC(u.Elem()), Len: r.bv(n), Elem: u.Elem()}
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = r.zeroVal(u.At(i).Type())
		}
		return tp
	}
	unsup("zero value of %s", t)
	return nil
}

func (r *Run) nilSlice() *Slice {
	z := r.bv(0)
	return &Slice{Off: z, Len: z, Cap: z, Nil: r.C.True}
}

const maxLen = uint64(1) << 47

// symElem creates the symbolic element name(args...).
func (r *Run) symElem(t types.Type, name string, args []*term.T) Value {
	C := r.C
	if s, _, ok := sortOf(t); ok {
		if len(args) == 0 {
			return C.Var(name, s)
		}
		return C.App(name, s, args...)
	}
	return r.symVal(t, name, args)
}

func argStr(args []*term.T) string {
	s := ""
	for _, a := range args {
		s += fmt.Sprintf("[%d]", a.ID)
		if a.IsConst() && a.S.K == term.BV {
			s = s[:len(s)-len(fmt.Sprintf("[%d]", a.ID))] + fmt.Sprintf("[c%d]", a.U)
		}
	}
	return s
}

// symVal creates an arbitrary value of type t; pointers are non-nil and to fresh (lazily filled) objects.
func (r *Run) symVal(t types.Type, name string, args []*term.T) Value {
	C := r.C
	if isBigInt(t) {
		return r.symElem(t, name, args)
	}
	mk := func(n string, s term.Sort) *term.T {
		if len(args) == 0 {
			return C.Var(n, s)
		}
		return C.App(n, s, args...)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			l := mk(name+".len", term.BVS(64))
			C.Bound[l] = [2]uint64{0, maxLen}
			return &Str{C: r.baseC(name+".b", types.Typ[types.Byte], args...), Off: r.bv(0), Len: l}
		}
		if s, _, ok := sortOf(t); ok {
			return mk(name, s)
		}
		return &Opaque{Name: name + argStr(args), T: t}
	case *types.Pointer:
		key := name + argStr(args)
		o := r.lazyObj[key]
		if o == nil {
			o = r.newObj(key, u.Elem())
			o.Input = true
			o.RO = len(args) > 0
			r.lazyObj[key] = o
			r.lazyVal[key] = &Lazy{T: u.Elem(), Name: name + ".*", Args: args}
		}
		return &Ptr{Obj: o}
	case *types.Slice:
		key := name + argStr(args)
		l := mk(name+".len", term.BVS(64))
		cp := mk(name+".cap", term.BVS(64))
		nl := mk(name+".nil", term.BoolS)
		C.Bound[l] = [2]uint64{0, maxLen}
		C.Bound[cp] = [2]uint64{0, maxLen}
		r.axm[cp] = []*term.T{C.Ule(l, cp), C.Or(C.Not(nl), C.Eq(cp, r.bv(0)))}
		r.axm[l] = []*term.T{C.Ule(l, cp)}
		if r.nilLen == nil {
			r.nilLen = map[*term.T]*term.T{}
		}
		r.nilLen[nl] = l
		r.axm[nl] = []*term.T{C.Or(C.Not(nl), C.And(C.Eq(l, r.bv(0)), C.Eq(cp, r.bv(0))))}
		o := r.lazyObj[key]
		if o == nil {
			o = r.newObj(key, t)
			o.Input = true
			o.RO = len(args) > 0
			r.lazyObj[key] = o
			r.lazyVal[key] = &Arr{C: r.baseC(name, u.Elem(), args...), Len: cp, Elem: u.Elem()}
		}
		return &Slice{Obj: o, Off: r.bv(0), Len: l, Cap: cp, Nil: nl}
	case *types.Struct:
		if namedPath(t) == "time.Time" {
			return &Opaque{Name: name + argStr(args), T: t}
		}
		f := make([]Value, u.NumFields())
		for i := range f {
			ft := u.Field(i).Type()
			fn := name + "." + u.Field(i).Name()
			if _, _, ok := sortOf(ft); ok {
				f[i] = r.symElem(ft, fn, args)
			} else {
				f[i] = &Lazy{T: ft, Name: fn, Args: args}
			}
		}
		return &Struct{F: f, T: t}
	case *types.Array:
		n := u.Len()
		if n <= 256 {
			v := make([]Value, n)
			for i := range v {
				v[i] = r.symElem(u.Elem(), name, append(append([]*term.T{}, args...), r.bv(int64(i))))
			}
			return &Arr{C: r.vecC(u.Elem(), v), Len: r.bv(n), Elem: u.Elem()}
		}
		return &Arr{C: r.baseC(name, u.Elem(), args...), Len: r.bv(n), Elem: u.Elem()}
	case *types.Interface:
		n := mk(name+".isnil", term.BoolS)
		opq := "iface:" + name + argStr(args)
		if types.Implements(t, errorType) && types.Implements(errorType, u) {
			opq = "err:" + name + argStr(args)
		}
		return &Iface{Nil: n, Opq: opq}
	case *types.Signature:
		return &Func{Nat: "opaque:" + name + argStr(args)}
	case *types.Map, *types.Chan:
		return &Opaque{Name: name + argStr(args), T: t}
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = r.symVal(u.At(i).Type(), fmt.Sprintf("%s.%d", name, i), args)
		}
		return tp
	}
	unsup("symbolic value of %s", t)
	return nil
}

var errorType = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

// force materialises lazy values.
func (st *State) force(v Value) Value {
	if l, ok := v.(*Lazy); ok {
		return st.r.symVal(l.T, l.Name, l.Args)
	}
	return v
}

// ------------------------------------------------------------ heap access

func (st *State) objVal(o *Obj) Value {
	if v, ok := st.heap[o]; ok {
		return v
	}
	if v, ok := st.r.lazyVal[o.Name]; ok && st.r.lazyObj[o.Name] == o {
		return st.force(v)
	}
	if v, ok := st.r.initHeap[o]; ok {
		return v
	}
	if o.Glob != nil {
		return st.r.globalInit(o)
	}
	unsup("read of uninitialised object %s", o)
	return nil
}

func (st *State) nav(v Value, path []Step) Value {
	v = st.force(v)
	for _, p := range path {
		if p.Idx != nil {
			a, ok := v.(*Arr)
			if !ok {
				unsup("index into %s", valStr(v))
			}
			v = st.force(st.read(a.C, p.Idx))
			continue
		}
		s, ok := v.(*Struct)
		if !ok {
			unsup("field of %s", valStr(v))
		}
		v = st.force(s.F[p.F])
	}
	return v
}

func (st *State) update(v Value, path []Step, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	v = st.force(v)
	p := path[0]
	if p.Idx != nil {
		a, ok := v.(*Arr)
		if !ok {
			unsup("index store into %s", valStr(v))
		}
		var el Value = nv
		if len(path) > 1 {
			el = st.update(st.read(a.C, p.Idx), path[1:], nv)
		}
		return &Arr{C: st.r.storeC(st, a.C, p.Idx, el), Len: a.Len, Elem: a.Elem}
	}
	s, ok := v.(*Struct)
	if !ok {
		unsup("field store into %s", valStr(v))
	}
	nf := make([]Value, len(s.F))
	copy(nf, s.F)
	nf[p.F] = st.update(s.F[p.F], path[1:], nv)
	return &Struct{F: nf, T: s.T}
}

func (st *State) loadPtr(p *Ptr) Value { return st.nav(st.objVal(p.Obj), p.Path) }

func (st *State) storeAt(o *Obj, path []Step, v Value) {
	if o.RO {
		unsup("write to element of a symbolic container: %s", o)
	}
	st.heap[o] = st.update(st.objVal(o), path, v)
}

func (st *State) storePtr(p *Ptr, v Value) { st.storeAt(p.Obj, p.Path, v) }

func (st *State) backing(s *Slice) *Arr {
	if s.Obj == nil {
		return nil
	}
	a, ok := st.nav(st.objVal(s.Obj), s.Path).(*Arr)
	if !ok {
		unsup("slice backing is not an array")
	}
	return a
}

// at reads s[i].
func (st *State) at(s *Slice, i *term.T) Value {
	a := st.backing(s)
	if a == nil {
		unsup("read from nil slice")
	}
	return st.force(st.read(a.C, st.r.C.Add(s.Off, i)))
}

func (st *State) atOr(s *Slice, i *term.T, elem types.Type) Value {
	if s.Obj == nil {
		return st.r.zeroVal(elem)
	}
	return st.at(s, i)
}

// newSlice allocates a backing array with the given content.
func (st *State) newSlice(name string, c *Content, n, cp *term.T, elem types.Type) *Slice {
	o := st.r.newObj(name, types.NewSlice(elem))
	st.heap[o] = &Arr{C: c, Len: cp, Elem: elem}
	return &Slice{Obj: o, Off: st.r.bv(0), Len: n, Cap: cp, Nil: st.r.C.False}
}

func (r *Run) zeroContent(elem types.Type, n *term.T) *Content {
	if n.IsConst() && n.U <= 2048 {
		v := make([]Value, n.U)
		for i := range v {
			v[i] = r.zeroVal(elem)
		}
		return r.vecC(elem, v)
	}
	return r.zeroC(elem)
}

func (r *Run) strConst(s string) *Str {
	v := make([]Value, len(s))
	for i := range v {
		v[i] = r.bv8(s[i])
	}
	return &Str{C: r.vecC(types.Typ[types.Byte], v), Off: r.bv(0), Len: r.bv(int64(len(s)))}
}

// constStr returns the concrete value of a string if it has one.
func (st *State) constStr(s *Str) (string, bool) {
	n := st.conc(s.Len)
	if !n.IsConst() || n.U > 4096 {
		return "", false
	}
	b := make([]byte, n.U)
	for i := range b {
		t := st.read(s.C, st.r.C.Add(s.Off, st.r.bv(int64(i)))).(*term.T)
		if !t.IsConst() {
			return "", false
		}
		b[i] = byte(t.U)
	}
	return string(b), true
}
