package sym

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"verif/engine/term"

	"golang.org/x/tools/go/ssa"
)

func one(it *item) ([]*item, bool) { return []*item{it}, true }

var dead = []*item{}

// step executes one instruction. split=false: it was updated in place.
func (fr *frame) step(it *item, in ssa.Instruction) (its []*item, split bool) {
	r := fr.r
	st := it.st
	C := r.C
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		nm := x.Comment
		if nm == "" {
			nm = "tmp"
		}
		o := r.newObj(nm, t)
		o.Ghost = fr.ghost
		st.heap[o] = r.zeroVal(t)
		it.env[x] = &Ptr{Obj: o}
	case *ssa.BinOp:
		v, ok := fr.binop(it, x)
		if !ok {
			return dead, true
		}
		it.env[x] = v
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p, ok := fr.val(it, x.X).(*Ptr)
			if !ok {
				unsup("load through %s", valStr(fr.val(it, x.X)))
			}
			if p.IsNil() {
				if fr.ghost {
					unsup("ghost nil dereference")
				}
				fr.panicOut(it, &panRec{val: r.rtErr(), what: "nil dereference at " + r.pos(x.Pos())})
				return dead, true
			}
			if isBigInt(x.Type()) && !fr.ghost {
				unsup("copy of a big.Int value")
			}
			v := st.loadPtr(p)
			it.env[x] = v
		case token.NOT:
			it.env[x] = C.Not(fr.val(it, x.X).(*term.T))
		case token.SUB:
			t, ok := fr.val(it, x.X).(*term.T)
			if !ok {
				unsup("negation of %s", x.X.Type())
			}
			it.env[x] = C.Neg(t)
		case token.XOR:
			it.env[x] = C.Not1(fr.val(it, x.X).(*term.T))
		default:
			unsup("unary %s", x.Op)
		}
	case *ssa.Store:
		p, ok := fr.val(it, x.Addr).(*Ptr)
		if !ok {
			unsup("store through %s", valStr(fr.val(it, x.Addr)))
		}
		if p.IsNil() {
			fr.panicOut(it, &panRec{val: r.rtErr(), what: "nil dereference at " + r.pos(x.Pos())})
			return dead, true
		}
		st.storePtr(p, fr.val(it, x.Val))
	case *ssa.FieldAddr:
		p := fr.val(it, x.X).(*Ptr)
		if p.IsNil() {
			if fr.ghost {
				unsup("ghost nil dereference")
			}
			fr.panicOut(it, &panRec{val: r.rtErr(), what: "nil dereference at " + r.pos(x.Pos())})
			return dead, true
		}
		it.env[x] = &Ptr{Obj: p.Obj, Path: addStep(p.Path, Step{F: x.Field})}
	case *ssa.Field:
		s := st.force(fr.val(it, x.X))
		sv, ok := s.(*Struct)
		if !ok {
			unsup("field of %s", valStr(s))
		}
		it.env[x] = st.force(sv.F[x.Field])
	case *ssa.IndexAddr:
		i := fr.idx64(it, x.Index)
		switch b := fr.val(it, x.X).(type) {
		case *Slice:
			if !fr.check(it, C.Ult(i, b.Len), "index out of range", x.Pos()) {
				return dead, true
			}
			if b.Obj == nil {
				if fr.ghost {
					o := r.newObj("nilelem", nil)
					st.heap[o] = &Arr{C: r.baseC(r.uniq("nilelem"), x.Type().Underlying().(*types.Pointer).Elem()), Len: r.bv(0), Elem: x.Type().Underlying().(*types.Pointer).Elem()}
					it.env[x] = &Ptr{Obj: o, Path: []Step{{Idx: i}}}
					return nil, false
				}
				return dead, true
			}
			it.env[x] = &Ptr{Obj: b.Obj, Path: addStep(b.Path, Step{Idx: C.Add(b.Off, i)})}
		case *Ptr:
			if b.IsNil() {
				fr.panicOut(it, &panRec{val: r.rtErr(), what: "nil dereference at " + r.pos(x.Pos())})
				return dead, true
			}
			n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			if !fr.check(it, C.Ult(i, r.bv(n)), "index out of range", x.Pos()) {
				return dead, true
			}
			it.env[x] = &Ptr{Obj: b.Obj, Path: addStep(b.Path, Step{Idx: i})}
		default:
			unsup("index address of %s", valStr(b))
		}
	case *ssa.Index:
		i := fr.idx64(it, x.Index)
		switch b := st.force(fr.val(it, x.X)).(type) {
		case *Arr:
			if !fr.check(it, C.Ult(i, b.Len), "index out of range", x.Pos()) {
				return dead, true
			}
			it.env[x] = st.force(st.read(b.C, i))
		case *Str:
			if !fr.check(it, C.Ult(i, b.Len), "index out of range", x.Pos()) {
				return dead, true
			}
			it.env[x] = st.read(b.C, C.Add(b.Off, i))
		default:
			unsup("index of %s", valStr(b))
		}
	case *ssa.Lookup:
		switch b := st.force(fr.val(it, x.X)).(type) {
		case *Str:
			i := fr.idx64(it, x.Index)
			if !fr.check(it, C.Ult(i, b.Len), "index out of range", x.Pos()) {
				return dead, true
			}
			it.env[x] = st.read(b.C, C.Add(b.Off, i))
		default:
			return fr.mapLookup(it, x)
		}
	case *ssa.Slice:
		v, ok := fr.slice(it, x)
		if !ok {
			return dead, true
		}
		it.env[x] = v
	case *ssa.MakeSlice:
		n, c := fr.idx64(it, x.Len), fr.idx64(it, x.Cap)
		n, c = st.conc(n), st.conc(c)
		el := x.Type().Underlying().(*types.Slice).Elem()
		lim := r.bv(1 << 47)
		if !fr.check(it, C.And(C.Ule(n, c), C.Ule(n, lim)), "makeslice: len out of range", x.Pos()) {
			return dead, true
		}
		if !fr.check(it, C.Ule(c, lim), "makeslice: cap out of range", x.Pos()) {
			return dead, true
		}
		s := st.newSlice("make", r.zeroContent(el, c), n, c, el)
		s.Obj.Ghost = fr.ghost
		it.env[x] = s
	case *ssa.MakeInterface:
		it.env[x] = &Iface{Nil: C.False, T: x.X.Type(), V: fr.val(it, x.X)}
	case *ssa.MakeClosure:
		f := &Func{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Free = append(f.Free, fr.val(it, b))
		}
		it.env[x] = f
	case *ssa.MakeMap:
		o := r.newObj("map", x.Type())
		st.heap[o] = &MapV{T: x.Type().Underlying().(*types.Map)}
		it.env[x] = &Ptr{Obj: o}
	case *ssa.MapUpdate:
		return fr.mapUpdate(it, x)
	case *ssa.ChangeType:
		it.env[x] = retype(st.force(fr.val(it, x.X)), x.Type())
	case *ssa.ChangeInterface:
		it.env[x] = fr.val(it, x.X)
	case *ssa.Convert:
		v, ok := fr.convert(it, x)
		if !ok {
			return dead, true
		}
		it.env[x] = v
	case *ssa.MultiConvert:
		unsup("multiconvert")
	case *ssa.SliceToArrayPointer:
		s := fr.val(it, x.X).(*Slice)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !fr.check(it, C.Ule(r.bv(n), s.Len), "slice to array conversion", x.Pos()) {
			return dead, true
		}
		// view: only supported as immediate load; create a snapshot object
		v := make([]Value, n)
		for k := range v {
			v[k] = st.at(s, r.bv(int64(k)))
		}
		o := r.newObj("arrview", x.Type().Underlying().(*types.Pointer).Elem())
		el := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Elem()
		st.heap[o] = &Arr{C: r.vecC(el, v), Len: r.bv(n), Elem: el}
		o.RO = true
		it.env[x] = &Ptr{Obj: o}
	case *ssa.Extract:
		t, ok := fr.val(it, x.Tuple).(Tuple)
		if !ok {
			unsup("extract from %s", valStr(fr.val(it, x.Tuple)))
		}
		it.env[x] = st.force(t[x.Index])
	case *ssa.TypeAssert:
		return fr.typeAssert(it, x)
	case *ssa.Range:
		o := r.newObj("range", nil)
		o.Ghost = fr.ghost
		switch b := st.force(fr.val(it, x.X)).(type) {
		case *Str:
			st.heap[o] = r.bv(0)
		case *Ptr:
			st.heap[o] = r.bv(0)
			_ = b
		default:
			unsup("range over %s", valStr(b))
		}
		it.env[x] = &Ptr{Obj: o}
	case *ssa.Next:
		return fr.next(it, x)
	case *ssa.Call:
		return fr.call(it, x, &x.Call, x)
	case *ssa.Defer:
		fv, args := fr.callee(it, &x.Call)
		it.defers = append(it.defers[:len(it.defers):len(it.defers)], &dfr{fn: fv, args: args, pos: x.Pos(), call: &x.Call})
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		unsup("concurrency: %s", in)
	default:
		unsup("instruction %T", in)
	}
	return nil, false
}

func addStep(p []Step, s Step) []Step {
	n := make([]Step, len(p)+1)
	copy(n, p)
	n[len(p)] = s
	return n
}

func retype(v Value, t types.Type) Value {
	if s, ok := v.(*Struct); ok {
		return &Struct{F: s.F, T: t}
	}
	return v
}

// idx64 evaluates an index/length operand as a 64-bit term.
func (fr *frame) idx64(it *item, v ssa.Value) *term.T {
	if v == nil {
		return nil
	}
	t, ok := fr.val(it, v).(*term.T)
	if !ok {
		unsup("index operand")
	}
	_, sg, _ := sortOf(v.Type())
	if t.S.W < 64 {
		if sg {
			return fr.r.C.Sext(64, t)
		}
		return fr.r.C.Zext(64, t)
	}
	return t
}

func (fr *frame) slice(it *item, x *ssa.Slice) (Value, bool) {
	r, st, C := fr.r, it.st, fr.r.C
	lo, hi, mx := fr.idx64(it, x.Low), fr.idx64(it, x.High), fr.idx64(it, x.Max)
	z := r.bv(0)
	if lo == nil {
		lo = z
	}
	switch b := st.force(fr.val(it, x.X)).(type) {
	case *Str:
		if hi == nil {
			hi = b.Len
		}
		if !fr.check(it, C.And(C.Ule(lo, hi), C.Ule(hi, b.Len)), "slice bounds out of range", x.Pos()) {
			return nil, false
		}
		return &Str{C: b.C, Off: C.Add(b.Off, lo), Len: C.Sub(hi, lo)}, true
	case *Slice:
		if hi == nil {
			hi = b.Len
		}
		cp := b.Cap
		cond := C.And(C.Ule(lo, hi), C.Ule(hi, b.Cap))
		if mx != nil {
			cp = mx
			cond = C.And(C.Ule(lo, hi), C.Ule(hi, mx), C.Ule(mx, b.Cap))
		}
		if !fr.check(it, cond, "slice bounds out of range", x.Pos()) {
			return nil, false
		}
		return &Slice{Obj: b.Obj, Path: b.Path, Off: C.Add(b.Off, lo), Len: C.Sub(hi, lo), Cap: C.Sub(cp, lo), Nil: b.Nil}, true
	case *Ptr:
		if b.IsNil() {
			fr.panicOut(it, &panRec{val: r.rtErr(), what: "nil dereference at " + r.pos(x.Pos())})
			return nil, false
		}
		n := r.bv(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if hi == nil {
			hi = n
		}
		cp := n
		cond := C.And(C.Ule(lo, hi), C.Ule(hi, n))
		if mx != nil {
			cp = mx
			cond = C.And(C.Ule(lo, hi), C.Ule(hi, mx), C.Ule(mx, n))
		}
		if !fr.check(it, cond, "slice bounds out of range", x.Pos()) {
			return nil, false
		}
		return &Slice{Obj: b.Obj, Path: b.Path, Off: lo, Len: C.Sub(hi, lo), Cap: C.Sub(cp, lo), Nil: C.False}, true
	}
	unsup("slice of %s", x.X.Type())
	return nil, false
}

func (fr *frame) convert(it *item, x *ssa.Convert) (Value, bool) {
	r, st, C := fr.r, it.st, fr.r.C
	v := st.force(fr.val(it, x.X))
	from, to := under(x.X.Type()), under(x.Type())
	fs, fsg, fok := sortOf(x.X.Type())
	ts, _, tok := sortOf(x.Type())
	if fok && tok {
		t := v.(*term.T)
		switch {
		case fs.W == ts.W:
			return t, true
		case fs.W > ts.W:
			return C.Extract(ts.W-1, 0, t), true
		case fsg:
			return C.Sext(ts.W, t), true
		default:
			return C.Zext(ts.W, t), true
		}
	}
	fb, _ := from.(*types.Basic)
	tb, _ := to.(*types.Basic)
	if s, ok := from.(*types.Slice); ok && tb != nil && tb.Info()&types.IsString != 0 {
		el := under(s.Elem()).(*types.Basic)
		if el.Kind() == types.Byte {
			return st.sliceToStr(v.(*Slice)), true
		}
		unsup("runes to string")
	}
	if s, ok := to.(*types.Slice); ok && fb != nil && fb.Info()&types.IsString != 0 {
		el := under(s.Elem()).(*types.Basic)
		str := v.(*Str)
		if el.Kind() == types.Byte {
			c := r.copyC(st, r.zeroContent(types.Typ[types.Byte], st.conc(str.Len)), r.bv(0), str.Len, str.C, str.Off)
			sl := st.newSlice("bytes", c, str.Len, str.Len, types.Typ[types.Byte])
			sl.Obj.Ghost = fr.ghost
			return sl, true
		}
		unsup("string to runes")
	}
	if fb != nil && tb != nil && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
		return v, true
	}
	if fok && tb != nil && tb.Info()&types.IsString != 0 {
		// string(rune)
		t := v.(*term.T)
		var t64 *term.T
		if t.S.W < 64 {
			t64 = C.Zext(64, t)
		} else {
			t64 = t
		}
		if st.quick(C.Ult(t64, r.bv(0x80))) == 1 {
			return &Str{C: r.vecC(types.Typ[types.Byte], []Value{C.Extract(7, 0, t64)}), Off: r.bv(0), Len: r.bv(1)}, true
		}
		nm := r.uniq("runestr")
		l := C.Var(nm+".len", term.BVS(64))
		C.Bound[l] = [2]uint64{1, 4}
		return &Str{C: r.baseC(nm, types.Typ[types.Byte]), Off: r.bv(0), Len: l}, true
	}
	if fok || tok {
		return &Opaque{Name: r.uniq("conv"), T: x.Type()}, true
	}
	switch from.(type) {
	case *types.Pointer:
		return v, true
	}
	unsup("conversion %s -> %s", x.X.Type(), x.Type())
	return nil, false
}

func (st *State) sliceToStr(s *Slice) *Str {
	r := st.r
	if s.Obj == nil {
		return r.strConst("")
	}
	a := st.backing(s)
	return &Str{C: a.C, Off: s.Off, Len: s.Len}
}

func (fr *frame) binop(it *item, x *ssa.BinOp) (Value, bool) {
	r, st, C := fr.r, it.st, fr.r.C
	a, b := st.force(fr.val(it, x.X)), st.force(fr.val(it, x.Y))
	switch x.Op {
	case token.EQL:
		return fr.eqVals(it, a, b, x.X.Type()), true
	case token.NEQ:
		return C.Not(fr.eqVals(it, a, b, x.X.Type())), true
	}
	if sa, ok := a.(*Str); ok {
		sb := b.(*Str)
		switch x.Op {
		case token.ADD:
			return st.concatStr(sa, sb), true
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			ca, ok1 := st.constStr(sa)
			cb, ok2 := st.constStr(sb)
			if ok1 && ok2 {
				switch x.Op {
				case token.LSS:
					return C.BoolC(ca < cb), true
				case token.GTR:
					return C.BoolC(ca > cb), true
				case token.LEQ:
					return C.BoolC(ca <= cb), true
				default:
					return C.BoolC(ca >= cb), true
				}
			}
			return C.Var(r.uniq("strcmp"), term.BoolS), true
		}
		unsup("string operator %s", x.Op)
	}
	ta, ok1 := a.(*term.T)
	tb, ok2 := b.(*term.T)
	if !ok1 || !ok2 {
		if _, ok := a.(*Opaque); ok {
			if _, _, isn := sortOf(x.Type()); isn {
				return C.Var(r.uniq("opq"), term.BoolS), true
			}
			return &Opaque{Name: r.uniq("opq"), T: x.Type()}, true
		}
		unsup("binary %s on %s", x.Op, x.X.Type())
	}
	_, sg, _ := sortOf(x.X.Type())
	switch x.Op {
	case token.ADD:
		return C.Add(ta, tb), true
	case token.SUB:
		return C.Sub(ta, tb), true
	case token.MUL:
		return C.Mul(ta, tb), true
	case token.QUO, token.REM:
		tb = st.conc(tb)
		if !fr.check(it, C.Not(C.Eq(tb, C.BVc(tb.S.W, 0))), "division by zero", x.Pos()) {
			return nil, false
		}
		if x.Op == token.QUO {
			if sg {
				if st.nonneg(ta) && st.nonneg(tb) {
					return C.UDiv(ta, tb), true
				}
				return C.SDiv(ta, tb), true
			}
			return C.UDiv(ta, tb), true
		}
		if sg {
			if st.nonneg(ta) && st.nonneg(tb) {
				return C.URem(ta, tb), true
			}
			return C.SRem(ta, tb), true
		}
		return C.URem(ta, tb), true
	case token.AND:
		if ta.S.K == term.Bool {
			return C.And(ta, tb), true
		}
		return C.BAnd(ta, tb), true
	case token.OR:
		if ta.S.K == term.Bool {
			return C.Or(ta, tb), true
		}
		return C.BOr(ta, tb), true
	case token.XOR:
		return C.Xor(ta, tb), true
	case token.AND_NOT:
		return C.BAnd(ta, C.Not1(tb)), true
	case token.SHL, token.SHR:
		_, ysg, _ := sortOf(x.Y.Type())
		if ysg && !fr.check(it, C.Not(C.Slt(tb, C.BVc(tb.S.W, 0))), "negative shift amount", x.Pos()) {
			return nil, false
		}
		return fr.shift(st, x.Op, ta, tb, sg), true
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if x.Op == token.GTR || x.Op == token.GEQ {
			ta, tb = tb, ta
		}
		strict := x.Op == token.LSS || x.Op == token.GTR
		switch {
		case sg && strict:
			return C.Slt(ta, tb), true
		case sg:
			return C.Sle(ta, tb), true
		case strict:
			return C.Ult(ta, tb), true
		default:
			return C.Ule(ta, tb), true
		}
	}
	unsup("binary operator %s", x.Op)
	return nil, false
}

func (st *State) nonneg(t *term.T) bool {
	if t.IsConst() {
		return t.Signed() >= 0
	}
	return st.quick(st.r.C.Not(st.r.C.Slt(t, st.r.C.BVc(t.S.W, 0)))) == 1
}

func (fr *frame) shift(st *State, op token.Token, a, n *term.T, signed bool) *term.T {
	C := fr.r.C
	w := a.S.W
	n = st.conc(n)
	if n.IsConst() {
		k := n.U
		if k >= uint64(w) {
			if op == token.SHR && signed {
				return C.AshrK(a, w-1)
			}
			return C.BVc(w, 0)
		}
		if op == token.SHL {
			return C.ShlK(a, int(k))
		}
		if signed {
			return C.AshrK(a, int(k))
		}
		return C.LshrK(a, int(k))
	}
	// symbolic amount: bring to width w, saturating
	var amt, big *term.T
	if n.S.W > w {
		big = C.Ule(C.BVc(n.S.W, uint64(w)), n)
		amt = C.Extract(w-1, 0, n)
	} else {
		amt = C.Zext(w, n)
		big = C.Ule(C.BVc(w, uint64(w)), amt)
		if w <= 8 && n.S.W == w {
			big = C.Ule(C.BVc(w, uint64(w)), n)
		}
	}
	if op == token.SHL {
		return C.Ite(big, C.BVc(w, 0), C.Shl(a, amt))
	}
	if signed {
		return C.Ite(big, C.AshrK(a, w-1), C.Ashr(a, amt))
	}
	return C.Ite(big, C.BVc(w, 0), C.Lshr(a, amt))
}

func (st *State) concatStr(a, b *Str) *Str {
	r := st.r
	la, lb := st.conc(a.Len), st.conc(b.Len)
	if la.IsConst() && la.U == 0 {
		return b
	}
	if lb.IsConst() && lb.U == 0 {
		return a
	}
	n := r.C.Add(la, lb)
	c := r.copyC(st, r.zeroContent(types.Typ[types.Byte], n), r.bv(0), la, a.C, a.Off)
	c = r.copyC(st, c, la, lb, b.C, b.Off)
	return &Str{C: c, Off: r.bv(0), Len: n}
}

// eqVals returns a Bool term for a == b.
func (fr *frame) eqVals(it *item, a, b Value, t types.Type) *term.T {
	return it.st.eq(a, b, t)
}

func (st *State) eq(a, b Value, t types.Type) *term.T {
	r, C := st.r, st.r.C
	a, b = st.force(a), st.force(b)
	switch x := a.(type) {
	case *term.T:
		if y, ok := b.(*term.T); ok {
			return C.Eq(x, y)
		}
	case *Ptr:
		y, ok := b.(*Ptr)
		if !ok {
			break
		}
		if x.Obj != y.Obj {
			return C.False
		}
		if len(x.Path) != len(y.Path) {
			return C.False
		}
		c := C.True
		for i := range x.Path {
			p, q := x.Path[i], y.Path[i]
			if (p.Idx == nil) != (q.Idx == nil) || p.F != q.F {
				return C.False
			}
			if p.Idx != nil {
				c = C.And(c, C.Eq(p.Idx, q.Idx))
			}
		}
		return c
	case *Slice:
		y := b.(*Slice)
		if y.Nil.IsTrue() {
			return x.Nil
		}
		if x.Nil.IsTrue() {
			return y.Nil
		}
	case *Str:
		if y, ok := b.(*Str); ok {
			return st.seqEq(x.C, x.Off, x.Len, y.C, y.Off, y.Len)
		}
	case *Iface:
		y, ok := b.(*Iface)
		if !ok {
			break
		}
		if y.Nil.IsTrue() {
			return x.Nil
		}
		if x.Nil.IsTrue() {
			return y.Nil
		}
		if x.T != nil && y.T != nil {
			if !types.Identical(x.T, y.T) {
				return C.And(x.Nil, y.Nil)
			}
			return C.Or(C.And(x.Nil, y.Nil), C.And(C.Not(x.Nil), C.Not(y.Nil), st.eq(x.V, y.V, x.T)))
		}
		if x.T == nil && y.T == nil && x.Opq != "" && x.Opq == y.Opq {
			return C.Eq(x.Nil, y.Nil)
		}
		if strings.HasPrefix(x.Opq, "rtype:") && strings.HasPrefix(y.Opq, "rtype:") {
			return C.BoolC(x.Opq == y.Opq)
		}
		return C.Or(C.And(x.Nil, y.Nil), C.And(C.Not(x.Nil), C.Not(y.Nil), C.Var(r.uniq("ifeq"), term.BoolS)))
	case *Struct:
		y, ok := b.(*Struct)
		if !ok {
			break
		}
		c := C.True
		u := under(x.T).(*types.Struct)
		for i := range x.F {
			c = C.And(c, st.eq(x.F[i], y.F[i], u.Field(i).Type()))
		}
		return c
	case *Arr:
		y, ok := b.(*Arr)
		if ok && x.Len.IsConst() && x.Len.U <= 256 {
			c := C.True
			for i := int64(0); i < int64(x.Len.U); i++ {
				c = C.And(c, st.eq(st.read(x.C, r.bv(i)), st.read(y.C, r.bv(i)), x.Elem))
			}
			return c
		}
	case *Func:
		y, ok := b.(*Func)
		if ok && (x.Nil || y.Nil) {
			return C.BoolC(x.Nil == y.Nil)
		}
	case *Opaque:
		if y, ok := b.(*Opaque); ok && y.Name == x.Name {
			return C.True
		}
		return C.Var(r.uniq("opqeq"), term.BoolS)
	}
	unsup("comparison of %s and %s", valStr(a), valStr(b))
	return nil
}

// seqEq: equality of two byte sequences, expanded when one length is concrete.
func (st *State) seqEq(c1 *Content, o1, n1 *term.T, c2 *Content, o2, n2 *term.T) *term.T {
	r, C := st.r, st.r.C
	n1, n2 = st.conc(n1), st.conc(n2)
	if sameC(c1, c2) && o1 == o2 {
		if n1 == n2 {
			return C.True
		}
		return C.Eq(n1, n2)
	}
	if n2.IsConst() && !n1.IsConst() {
		c1, o1, n1, c2, o2, n2 = c2, o2, n2, c1, o1, n1
	}
	ln := C.Eq(n1, n2)
	if ln.IsFalse() {
		return ln
	}
	if n1.IsConst() && n1.U <= 300 {
		if st.quick(ln) == -1 {
			return C.False
		}
		s2 := st
		if !ln.IsTrue() {
			s2 = st.with(ln)
		}
		cs := []*term.T{ln}
		for i := int64(0); i < int64(n1.U); i++ {
			a := s2.force(s2.read(c1, C.Add(o1, r.bv(i)))).(*term.T)
			b := s2.force(s2.read(c2, C.Add(o2, r.bv(i)))).(*term.T)
			e := C.Eq(a, b)
			if e.IsFalse() {
				return e
			}
			cs = append(cs, e)
		}
		return C.And(cs...)
	}
	// general: opaque boolean with the consequences available through seqEqs
	nm := fmt.Sprintf("seqeq:%d:%d:%d:%d:%d:%d", c1.id, o1.ID, n1.ID, c2.id, o2.ID, n2.ID)
	v := C.Var(nm, term.BoolS)
	if _, ok := r.seqEqs[v]; ok {
		return v
	}
	r.seqEqs[v] = [6]interface{}{c1, o1, n1, c2, o2, n2}
	r.axm[v] = append(r.axm[v][:0:0], C.Or(C.Not(v), ln))
	b := st.bare()
	r.addFact(&qfact{guard: v, c: c1, lo: o1, hi: C.Add(o1, n1), val: func(i *term.T) *term.T {
		return b.force(b.read(c2, C.Add(o2, C.Sub(i, o1)))).(*term.T)
	}})
	r.addFact(&qfact{guard: v, c: c2, lo: o2, hi: C.Add(o2, n2), val: func(i *term.T) *term.T {
		return b.force(b.read(c1, C.Add(o1, C.Sub(i, o2)))).(*term.T)
	}})
	return v
}

func (fr *frame) next(it *item, x *ssa.Next) ([]*item, bool) {
	r, st, C := fr.r, it.st, fr.r.C
	p := fr.val(it, x.Iter).(*Ptr)
	rg := x.Iter.(*ssa.Range)
	i := st.heap[p.Obj].(*term.T)
	if x.IsString {
		s := fr.val(it, rg.X).(*Str)
		mk := func(n *item, ok *term.T, k, v *term.T) *item {
			n.env[x] = Tuple{ok, k, v}
			return n
		}
		more := C.Ult(i, s.Len)
		z32 := C.BVc(32, 0)
		var res []*item
		switch st.quick(more) {
		case -1:
			return []*item{mk(it, C.False, r.bv(0), z32)}, true
		case 0:
			e := it.clone()
			e.st.assume(C.Not(more))
			res = append(res, mk(e, C.False, r.bv(0), z32))
			st.assume(more)
		}
		bt := st.read(s.C, C.Add(s.Off, i)).(*term.T)
		asc := C.Ult(bt, r.bv8(0x80))
		q := st.quick(asc)
		if q != 1 {
			n := it
			if q == 0 {
				n = it.clone()
				n.st.assume(C.Not(asc))
			}
			nm := r.uniq("rune")
			rv := C.Var(nm, term.BVS(32))
			C.Bound[rv] = [2]uint64{0x80, 0x10FFFF}
			w := C.Var(nm+".w", term.BVS(64))
			C.Bound[w] = [2]uint64{1, 4}
			n.st.assume(C.Ule(w, C.Sub(s.Len, i)))
			n.st.heap[p.Obj] = C.Add(i, w)
			res = append(res, mk(n, C.True, i, rv))
			if q == -1 {
				return res, true
			}
			st.assume(asc)
		}
		st.heap[p.Obj] = C.Add(i, r.bv(1))
		res = append(res, mk(it, C.True, i, C.Zext(32, bt)))
		return res, true
	}
	// map: concrete entries in insertion order (order must not matter; see DESIGN)
	mp := fr.val(it, rg.X).(*Ptr)
	mt := under(rg.X.Type()).(*types.Map)
	if mp.IsNil() {
		it.env[x] = Tuple{C.False, r.zeroVal(mt.Key()), r.zeroVal(mt.Elem())}
		return nil, false
	}
	m := st.objVal(mp.Obj).(*MapV)
	if !i.IsConst() {
		unsup("iteration over a map at a symbolic position")
	}
	if i.U < uint64(len(m.Keys)) {
		it.env[x] = Tuple{C.True, m.Keys[i.U], m.Vals[i.U]}
		st.heap[p.Obj] = C.Add(i, r.bv(1))
	} else {
		it.env[x] = Tuple{C.False, r.zeroVal(mt.Key()), r.zeroVal(mt.Elem())}
	}
	return nil, false
}

func (fr *frame) mapLookup(it *item, x *ssa.Lookup) ([]*item, bool) {
	r, st, C := fr.r, it.st, fr.r.C
	mt := under(x.X.Type()).(*types.Map)
	key := fr.val(it, x.Index)
	ret := func(n *item, v Value, ok *term.T) *item {
		if x.CommaOk {
			n.env[x] = Tuple{v, ok}
		} else {
			n.env[x] = v
		}
		return n
	}
	p, ok := st.force(fr.val(it, x.X)).(*Ptr)
	if !ok {
		unsup("lookup in symbolic map")
	}
	if p.IsNil() {
		ret(it, r.zeroVal(mt.Elem()), C.False)
		return nil, false
	}
	m := st.objVal(p.Obj).(*MapV)
	var res []*item
	cur := it
	for k := range m.Keys {
		e := cur.st.eq(key, m.Keys[k], mt.Key())
		switch cur.st.quick(e) {
		case 1:
			res = append(res, ret(cur, m.Vals[k], C.True))
			return res, true
		case -1:
			continue
		}
		n := cur.clone()
		n.st.assume(e)
		res = append(res, ret(n, m.Vals[k], C.True))
		cur.st.assume(C.Not(e))
	}
	res = append(res, ret(cur, r.zeroVal(mt.Elem()), C.False))
	return res, true
}

func (fr *frame) mapUpdate(it *item, x *ssa.MapUpdate) ([]*item, bool) {
	st := it.st
	p, ok := fr.val(it, x.Map).(*Ptr)
	if !ok {
		unsup("update of symbolic map")
	}
	if p.IsNil() {
		fr.panicOut(it, &panRec{val: fr.r.rtErr(), what: "assignment to nil map at " + fr.r.pos(x.Pos())})
		return dead, true
	}
	m := st.objVal(p.Obj).(*MapV)
	key, v := fr.val(it, x.Key), fr.val(it, x.Value)
	n := &MapV{T: m.T, Keys: append([]Value{}, m.Keys...), Vals: append([]Value{}, m.Vals...)}
	for k := range m.Keys {
		e := st.eq(key, m.Keys[k], m.T.Key())
		switch st.quick(e) {
		case 1:
			n.Vals[k] = v
			st.heap[p.Obj] = n
			return nil, false
		case -1:
			continue
		}
		unsup("map update with undecided key")
	}
	n.Keys = append(n.Keys, key)
	n.Vals = append(n.Vals, v)
	st.heap[p.Obj] = n
	return nil, false
}

func (fr *frame) typeAssert(it *item, x *ssa.TypeAssert) ([]*item, bool) {
	r, st, C := fr.r, it.st, fr.r.C
	iv, ok := st.force(fr.val(it, x.X)).(*Iface)
	if !ok {
		unsup("type assertion on %s", valStr(fr.val(it, x.X)))
	}
	_, toIface := under(x.AssertedType).(*types.Interface)
	good := func(n *item, v Value) *item {
		if x.CommaOk {
			n.env[x] = Tuple{v, C.True}
		} else {
			n.env[x] = v
		}
		return n
	}
	bad := func(n *item) *item {
		if x.CommaOk {
			n.env[x] = Tuple{r.zeroVal(x.AssertedType), C.False}
			return n
		}
		if fr.ghost {
			return nil
		}
		fr.panicOut(n, &panRec{val: r.rtErr(), what: "failed type assertion at " + r.pos(x.Pos())})
		return nil
	}
	var res []*item
	add := func(n *item) {
		if n != nil {
			res = append(res, n)
		}
	}
	switch st.quick(iv.Nil) {
	case 1:
		add(bad(it))
		return res, true
	case 0:
		n := it.clone()
		n.st.assume(iv.Nil)
		add(bad(n))
		st.assume(C.Not(iv.Nil))
	}
	if iv.T != nil {
		m := false
		if toIface {
			m = types.Implements(iv.T, under(x.AssertedType).(*types.Interface))
			if m {
				add(good(it, &Iface{Nil: C.False, T: iv.T, V: iv.V}))
			}
		} else if types.Identical(iv.T, x.AssertedType) {
			m = true
			add(good(it, iv.V))
		}
		if !m {
			add(bad(it))
		}
		return res, true
	}
	// opaque dynamic type: both outcomes, consistent per (value, type)
	is := C.Var("is:"+iv.Opq+":"+x.AssertedType.String(), term.BoolS)
	if isErrOpq(iv.Opq) && iv.Opq == "err:runtime.Error" && x.AssertedType.String() != "runtime.Error" && !toIface {
		is = C.False
	}
	if isErrOpq(iv.Opq) && toIface && types.Implements(errorType, under(x.AssertedType).(*types.Interface)) {
		is = C.True
	}
	q := st.quick(is)
	if q != 1 {
		n := it
		if q == 0 {
			n = it.clone()
			n.st.assume(C.Not(is))
			for _, o := range r.opqTypes[iv.Opq] {
				_ = o
			}
		}
		add(bad(n))
		if q == -1 {
			return res, true
		}
		st.assume(is)
	}
	// dynamic types are exclusive
	for _, o := range r.opqTypes[iv.Opq] {
		if !types.Identical(o, x.AssertedType) && !toIface {
			if _, oi := under(o).(*types.Interface); !oi {
				st.assume(C.Not(C.Var("is:"+iv.Opq+":"+o.String(), term.BoolS)))
			}
		}
	}
	if !toIface {
		known := false
		for _, o := range r.opqTypes[iv.Opq] {
			known = known || types.Identical(o, x.AssertedType)
		}
		if !known {
			r.opqTypes[iv.Opq] = append(r.opqTypes[iv.Opq], x.AssertedType)
		}
	}
	if st.infeasible() {
		return res, true
	}
	if toIface {
		add(good(it, iv))
	} else {
		add(good(it, r.symVal(x.AssertedType, "dyn:"+iv.Opq+":"+x.AssertedType.String(), nil)))
	}
	return res, true
}
