package sym

// math/big: a *big.Int points to an object whose value is an Int term. The operations below are
// the assumed contracts of math/big (see DESIGN.md, "trusted models").

import (
	"fmt"
	"go/token"
	"math/big"

	"verif/engine/term"

	"golang.org/x/tools/go/ssa"
)

var bigNatives map[string]native

const bi = "(*math/big.Int)."

func pow2(k uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), k) }

func nilPanic(fr *frame, st *State, what string, pos token.Pos) []Outcome {
	return []Outcome{{st: st, pan: &panRec{val: fr.r.rtErr(), what: what + " at " + fr.r.pos(pos)}}}
}

// bigArg is the value a *big.Int argument points to (nil for a nil pointer).
func (st *State) bigArg(v Value) *term.T {
	p, ok := st.force(v).(*Ptr)
	if !ok || p.IsNil() {
		return nil
	}
	t, ok := st.loadPtr(p).(*term.T)
	if !ok || t.S.K != term.Int {
		unsup("big.Int value %s", valStr(st.loadPtr(p)))
	}
	return t
}

func (r *Run) newBig(st *State, t *term.T) *Ptr {
	o := r.newObj("big", r.E.bigIntT())
	st.heap[o] = t
	return &Ptr{Obj: o}
}

// bigNat wraps an operation on big.Int arguments: nargs leading pointer arguments (receiver included)
// are checked for nil; xs are their values.
func bigNat(nargs int, f func(fr *frame, st *State, xs []*term.T, a []Value, pos token.Pos) []Outcome) native {
	return func(fr *frame, st *State, a []Value, pos token.Pos) []Outcome {
		xs := make([]*term.T, nargs)
		for i := range xs {
			xs[i] = st.bigArg(a[i])
			if xs[i] == nil {
				return nilPanic(fr, st, "nil *big.Int", pos)
			}
		}
		return f(fr, st, xs, a, pos)
	}
}

// bigOp2 is z.Op(x, y) = f(x, y).
func bigOp2(f func(fr *frame, st *State, x, y *term.T) *term.T) native {
	return bigNat(3, func(fr *frame, st *State, xs []*term.T, a []Value, pos token.Pos) []Outcome {
		st.storePtr(a[0].(*Ptr), f(fr, st, xs[1], xs[2]))
		return ret(st, a[0])
	})
}

func bigOp1(f func(fr *frame, st *State, x *term.T) *term.T) native {
	return bigNat(2, func(fr *frame, st *State, xs []*term.T, a []Value, pos token.Pos) []Outcome {
		st.storePtr(a[0].(*Ptr), f(fr, st, xs[1]))
		return ret(st, a[0])
	})
}

func bigRead(f func(fr *frame, st *State, x *term.T) Value) native {
	return bigNat(1, func(fr *frame, st *State, xs []*term.T, a []Value, pos token.Pos) []Outcome {
		return ret(st, f(fr, st, xs[0]))
	})
}

// bigDiv wraps an operation with a divisor: panics on zero; only positive divisors are modelled.
func bigDiv(trunc bool, f func(fr *frame, st *State, x, y *term.T) *term.T) native {
	return bigNat(3, func(fr *frame, st *State, xs []*term.T, a []Value, pos token.Pos) []Outcome {
		C := fr.r.C
		x, y := st.conc(xs[1]), st.conc(xs[2])
		var outs []Outcome
		zero := C.Eq(y, C.IntI(0))
		if st.quick(zero) != -1 {
			p := st.clone()
			p.assume(zero)
			if !p.infeasible() {
				outs = append(outs, nilPanic(fr, p, "division by zero", pos)...)
			}
			st.assume(C.Not(zero))
			if st.infeasible() {
				return outs
			}
		}
		pos1 := C.ILt(C.IntI(0), y)
		if trunc {
			pos1 = C.And(pos1, C.ILe(C.IntI(0), x))
		}
		if st.quick(pos1) != 1 {
			// other sign combinations: an uninterpreted function of the operands
			n := fmt.Sprintf("bigdiv%v", trunc)
			st.storePtr(a[0].(*Ptr), C.Ite(pos1, f(fr, st, x, y), C.App(n, term.IntS, x, y)))
		} else {
			st.storePtr(a[0].(*Ptr), f(fr, st, x, y))
		}
		return append(outs, Outcome{st: st, ret: a[0]})
	})
}

func (r *Run) iabs(x *term.T) *term.T {
	C := r.C
	lo, hi := C.IRange(x)
	if lo != nil && lo.Sign() >= 0 {
		return x
	}
	if hi != nil && hi.Sign() <= 0 {
		return C.INeg(x)
	}
	return C.Ite(C.ILt(x, C.IntI(0)), C.INeg(x), x)
}

// sabs is |x| simplified under the path condition.
func (st *State) sabs(x *term.T) *term.T {
	C := st.r.C
	t := st.r.iabs(x)
	if t == x {
		return t
	}
	switch st.quick(C.ILt(x, C.IntI(0))) {
	case 1:
		return C.INeg(x)
	case -1:
		return x
	}
	return t
}

var bitlenKs = []uint{0, 7, 8, 31, 32, 63, 64, 255, 256}

// bitlen is the bit length of x >= 0.
func (r *Run) bitlen(x *term.T) *term.T {
	C := r.C
	if x.IsConst() {
		return r.bv(int64(x.C.BitLen()))
	}
	if x.Op == term.OIte {
		return C.Ite(x.A[0], r.bitlen(x.A[1]), r.bitlen(x.A[2]))
	}
	t := C.App("bitlen", term.BVS(64), x)
	if _, ok := r.axm[t]; !ok {
		lo, hi := C.IRange(x)
		b := [2]uint64{0, 1 << 40}
		if hi != nil && hi.Sign() >= 0 {
			b[1] = uint64(hi.BitLen())
		}
		if lo != nil && lo.Sign() > 0 {
			b[0] = uint64(lo.BitLen())
		}
		C.Bound[t] = b
		var ax []*term.T
		for _, k := range bitlenKs {
			if uint64(k) >= b[1] || uint64(k) < b[0] {
				continue
			}
			ax = append(ax, C.Eq(C.ILe(x, C.IntC(new(big.Int).Sub(pow2(k), big.NewInt(1)))), C.Ule(t, r.bv(int64(k)))))
		}
		r.axm[t] = ax
	}
	return t
}

func (r *Run) bytelen(x *term.T) *term.T {
	C := r.C
	return C.LshrK(C.Add(r.bitlen(x), r.bv(7)), 3)
}

// beb is the byte of weight 256^j of x >= 0.
func (st *State) beb(x, j *term.T) *term.T {
	r, C := st.r, st.r.C
	j = st.conc(j)
	if x.IsConst() && j.IsConst() {
		if j.U > 1<<20 {
			return r.bv8(0)
		}
		v := new(big.Int).Rsh(x.C, uint(j.U)*8)
		return r.bv8(uint8(v.Uint64()))
	}
	if x.Op == term.OIte {
		return C.Ite(x.A[0], st.beb(x.A[1], j), st.beb(x.A[2], j))
	}
	if _, hi := C.IRange(x); hi != nil && hi.Sign() >= 0 {
		n := r.bv(int64((hi.BitLen() + 7) / 8))
		if st.quick(C.Ule(n, j)) == 1 {
			return r.bv8(0)
		}
	}
	if w, ok := r.valOf[x]; ok && j.IsConst() {
		if j.U >= uint64(len(w)) {
			return r.bv8(0)
		}
		return w[uint64(len(w))-1-j.U]
	}
	if x.Op == term.OB2I && j.IsConst() {
		y := x.A[0]
		lo := int(j.U) * 8
		if j.U > 16 || lo >= y.W() {
			return r.bv8(0)
		}
		hi := lo + 7
		if hi >= y.W() {
			return C.Zext(8, C.Extract(y.W()-1, lo, y))
		}
		return C.Extract(hi, lo, y)
	}
	t := C.App("beb", term.BVS(8), x, j)
	if _, ok := r.axm[t]; !ok {
		r.axm[t] = []*term.T{C.Implies(C.Ule(r.bytelen(x), j), C.Eq(t, r.bv8(0)))}
	}
	return t
}

// bebOf recognises a byte of an integer.
func bebOf(t *term.T) (x, j *term.T, ok bool) {
	if t.Op == term.OApp && t.Name == "beb" && len(t.A) == 2 {
		return t.A[0], t.A[1], true
	}
	return nil, nil, false
}

// val is the integer with the given big-endian bytes.
func (st *State) val(bs []*term.T) *term.T {
	r, C := st.r, st.r.C
	for len(bs) > 0 && bs[0].IsConst() && bs[0].U == 0 {
		bs = bs[1:]
	}
	m := len(bs)
	allc := true
	for _, b := range bs {
		if !b.IsConst() {
			allc = false
		}
	}
	if allc {
		v := new(big.Int)
		for _, b := range bs {
			v.Lsh(v, 8).Or(v, new(big.Int).SetUint64(b.U))
		}
		return C.IntC(v)
	}
	if m <= 8 {
		return C.B2I(C.Concat(bs...))
	}
	// bytes of one integer
	if x, j, ok := bebOf(bs[m-1]); ok && j.IsConst() && j.U == 0 {
		match := true
		for i, b := range bs {
			y, k, ok := bebOf(b)
			if !ok || y != x || !k.IsConst() || k.U != uint64(m-1-i) {
				match = false
				break
			}
		}
		if match {
			lim := C.IntC(pow2(uint(8 * m)))
			lo, hi := C.IRange(x)
			if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(lim.C) < 0 {
				return x
			}
			if st.quick(C.And(C.ILe(C.IntI(0), x), C.ILt(x, lim))) == 1 {
				return x
			}
			return C.IMod(x, lim)
		}
	}
	// an atom named by its bytes
	var ws []*term.T
	for i := 0; i < m; i += 8 {
		e := i + 8
		if e > m {
			e = m
		}
		ws = append(ws, C.Concat(bs[i:e]...))
	}
	t := C.App(fmt.Sprintf("val%d", m), term.IntS, ws...)
	C.IBound[t] = [2]*big.Int{new(big.Int), new(big.Int).Sub(pow2(uint(8*m)), big.NewInt(1))}
	if r.valOf == nil {
		r.valOf = map[*term.T][]*term.T{}
	}
	r.valOf[t] = append([]*term.T{}, bs...)
	z := C.True
	for _, w := range ws {
		z = C.And(z, C.Eq(w, C.BVc(w.W(), 0)))
	}
	if _, ok := r.axm[t]; !ok {
		r.axm[t] = []*term.T{C.Eq(C.Eq(t, C.IntI(0)), z)}
	}
	return t
}

// bytesOf is the content of x.Bytes() for x >= 0 with L = bytelen(x).
func (st *State) bytesOf(x *term.T) (*Content, *term.T) {
	r, C := st.r, st.r.C
	L := st.conc(r.bytelen(x))
	if x.IsConst() {
		b := x.C.Bytes()
		v := make([]Value, len(b))
		for i := range b {
			v[i] = r.bv8(b[i])
		}
		return r.vecC(byteT, v), r.bv(int64(len(b)))
	}
	c := r.lambdaC(byteT, func(s *State, i *term.T) Value { return s.beb(x, C.Sub(C.Sub(L, r.bv(1)), i)) })
	c.be = &BEInfo{X: x}
	// the leading byte is not zero
	lead := C.App("beb", term.BVS(8), x, C.Sub(L, r.bv(1)))
	if _, ok := r.axm[lead]; !ok {
		bl := r.bitlen(x)
		r.axm[lead] = []*term.T{
			C.Or(C.Eq(x, C.IntI(0)), C.Not(C.Eq(lead, r.bv8(0)))),
			// the top bit of the leading byte is set exactly when the bit length is whole bytes
			C.Or(C.Eq(x, C.IntI(0)), C.Eq(C.Ult(lead, r.bv8(0x80)), C.Not(C.Eq(C.BAnd(bl, r.bv(7)), r.bv(0))))),
		}
	}
	return c, L
}

func (st *State) setBytes(s *Slice) *term.T {
	r, C := st.r, st.r.C
	if s.Obj == nil {
		return C.IntI(0)
	}
	n := st.conc(s.Len)
	b := st.backing(s)
	off := st.conc(s.Off)
	if n.IsConst() && n.U <= 256 {
		bs := make([]*term.T, n.U)
		for i := range bs {
			bs[i] = st.force(st.read(b.C, C.Add(off, r.bv(int64(i))))).(*term.T)
		}
		return st.val(bs)
	}
	// whole run of bytes of one integer: s[k] = beb(X, n-1-k)
	k := C.Var("zz!k", term.BVS(64))
	s2 := st.with(C.Ult(k, n))
	if t, ok := s2.force(s2.read(b.C, C.Add(off, k))).(*term.T); ok {
		if x, j, ok := bebOf(t); ok && j == st.conc(C.Sub(C.Sub(n, r.bv(1)), k)) {
			if n == st.conc(r.bytelen(x)) || st.quick(C.Eq(n, r.bytelen(x))) == 1 {
				return x
			}
		}
	}
	id := st.seqID(b.C, off, n)
	t := C.App("beval", term.IntS, id, n)
	C.INonneg[t] = true
	return t
}

// seqID names a byte sequence of unknown length: equal ids only for equal sequences.
func (st *State) seqID(c *Content, off, n *term.T) *term.T {
	r, C := st.r, st.r.C
	for i, q := range r.seqNames {
		if q.off == off && sameC(q.c, c) || (q.n == n || st.quick(C.Eq(q.n, n)) == 1) && st.seqSame(q.c, q.off, c, off, n) {
			return C.App("seqid", term.IntS, r.bv(int64(i)), C.BVc(64, 0))
		}
	}
	r.seqNames = append(r.seqNames, seqName{c, off, n})
	return C.App("seqid", term.IntS, r.bv(int64(len(r.seqNames)-1)), C.BVc(64, 0))
}

type seqName struct {
	c      *Content
	off, n *term.T
}

// seqSame: syntactically equal elements at an arbitrary position below n.
func (st *State) seqSame(c1 *Content, o1 *term.T, c2 *Content, o2, n *term.T) bool {
	C := st.r.C
	if sameC(c1, c2) && o1 == o2 {
		return true
	}
	k := C.Var("zz!k", term.BVS(64))
	s := st.with(C.Ult(k, n))
	a, ok1 := s.force(s.read(c1, C.Add(o1, k))).(*term.T)
	b, ok2 := s.force(s.read(c2, C.Add(o2, k))).(*term.T)
	if !ok1 || !ok2 || a.S != b.S {
		return false
	}
	return a == b || s.quick(C.Eq(a, b)) == 1
}

// knownPrime: the moduli for which "invertible" is "not zero".
func knownPrime(m *term.T) bool { return m.IsConst() && m.C.BitLen() > 8 && m.C.ProbablyPrime(20) }

func (r *Run) bigUF(n string, xs ...*term.T) *term.T { return r.C.App("big:"+n, term.IntS, xs...) }

func init() {
	add := func(fr *frame, st *State, x, y *term.T) *term.T { return fr.r.C.IAdd(x, y) }
	bigNatives = map[string]native{
		"math/big.NewInt": func(fr *frame, st *State, a []Value, pos token.Pos) []Outcome {
			return ret(st, fr.r.newBig(st, fr.r.C.SB2I(a[0].(*term.T))))
		},
		bi + "Set": bigOp1(func(fr *frame, st *State, x *term.T) *term.T { return x }),
		bi + "Neg": bigOp1(func(fr *frame, st *State, x *term.T) *term.T { return fr.r.C.INeg(x) }),
		bi + "Abs": bigOp1(func(fr *frame, st *State, x *term.T) *term.T { return st.sabs(x) }),
		bi + "Not": bigOp1(func(fr *frame, st *State, x *term.T) *term.T { return fr.r.C.ISub(fr.r.C.IntI(-1), x) }),
		bi + "Add": bigOp2(add),
		bi + "Sub": bigOp2(func(fr *frame, st *State, x, y *term.T) *term.T { return fr.r.C.ISub(x, y) }),
		bi + "Mul": bigOp2(func(fr *frame, st *State, x, y *term.T) *term.T { return fr.r.C.IMul(x, y) }),
		bi + "And": bigOp2(func(fr *frame, st *State, x, y *term.T) *term.T { return fr.r.bigAnd(x, y) }),
		bi + "Or":  bigOp2(func(fr *frame, st *State, x, y *term.T) *term.T { return fr.r.bigSym("or", x, y, (*big.Int).Or) }),
		bi + "Xor": bigOp2(func(fr *frame, st *State, x, y *term.T) *term.T { return fr.r.bigSym("xor", x, y, (*big.Int).Xor) }),
		bi + "Mod": bigDiv(false, func(fr *frame, st *State, x, y *term.T) *term.T { return st.imod(x, y) }),
		bi + "Div": bigDiv(false, func(fr *frame, st *State, x, y *term.T) *term.T { return fr.r.C.IDiv(x, y) }),
		bi + "Rem": bigDiv(true, func(fr *frame, st *State, x, y *term.T) *term.T { return st.imod(x, y) }),
		bi + "Quo": bigDiv(true, func(fr *frame, st *State, x, y *term.T) *term.T { return fr.r.C.IDiv(x, y) }),
		bi + "Lsh": bigNat(2, func(fr *frame, st *State, xs []*term.T, a []Value, pos token.Pos) []Outcome {
			C := fr.r.C
			n := st.conc(a[2].(*term.T))
			var f *term.T
			if n.IsConst() && n.U <= 4096 {
				f = C.IntC(pow2(uint(n.U)))
			} else {
				f = C.App("pow2", term.IntS, n)
				C.INonneg[f] = true
			}
			st.storePtr(a[0].(*Ptr), C.IMul(xs[1], f))
			return ret(st, a[0])
		}),
		bi + "Rsh": bigNat(2, func(fr *frame, st *State, xs []*term.T, a []Value, pos token.Pos) []Outcome {
			C := fr.r.C
			n := st.conc(a[2].(*term.T))
			v := fr.r.bigUF("rsh", xs[1], fr.r.C.B2I(n))
			if n.IsConst() && n.U <= 4096 {
				v = C.IDiv(xs[1], C.IntC(pow2(uint(n.U))))
			}
			st.storePtr(a[0].(*Ptr), v)
			return ret(st, a[0])
		}),
		bi + "SetBit": bigNat(2, func(fr *frame, st *State, xs []*term.T, a []Value, pos token.Pos) []Outcome {
			r, C := fr.r, fr.r.C
			i, b := st.conc(a[2].(*term.T)), st.conc(a[3].(*term.T))
			bad := C.Or(C.Slt(i, r.bv(0)), C.Ult(r.bv(1), b))
			var outs []Outcome
			if st.quick(bad) != -1 {
				p := st.clone()
				p.assume(bad)
				if !p.infeasible() {
					outs = append(outs, nilPanic(fr, p, "SetBit: negative index or bit not 0/1", pos)...)
				}
				st.assume(C.Not(bad))
				if st.infeasible() {
					return outs
				}
			}
			v := r.bigUF("setbit", xs[1], C.B2I(i), C.B2I(b))
			if lo, hi := C.IRange(xs[1]); i.IsConst() && b.IsConst() && i.U < 4096 && b.U == 1 && lo != nil && hi != nil && lo.Sign() >= 0 && hi.BitLen() <= int(i.U) {
				v = C.IAdd(xs[1], C.IntC(pow2(uint(i.U))))
			}
			if xs[1].IsConst() && i.IsConst() && b.IsConst() && i.U < 4096 {
				v = C.IntC(new(big.Int).SetBit(xs[1].C, int(i.U), uint(b.U)))
			}
			st.storePtr(a[0].(*Ptr), v)
			return append(outs, Outcome{st: st, ret: a[0]})
		}),
		bi + "Bit": bigNat(1, func(fr *frame, st *State, xs []*term.T, a []Value, pos token.Pos) []Outcome {
			r, C := fr.r, fr.r.C
			i := st.conc(a[1].(*term.T))
			bad := C.Slt(i, r.bv(0))
			var outs []Outcome
			if st.quick(bad) != -1 {
				p := st.clone()
				p.assume(bad)
				if !p.infeasible() {
					outs = append(outs, nilPanic(fr, p, "Bit: negative index", pos)...)
				}
				st.assume(C.Not(bad))
			}
			v := C.App("big:bit", term.BVS(64), xs[0], C.B2I(i))
			C.Bound[v] = [2]uint64{0, 1}
			return append(outs, Outcome{st: st, ret: v})
		}),
		bi + "SetInt64": func(fr *frame, st *State, a []Value, pos token.Pos) []Outcome {
			st.storePtr(a[0].(*Ptr), fr.r.C.SB2I(a[1].(*term.T)))
			return ret(st, a[0])
		},
		bi + "SetUint64": func(fr *frame, st *State, a []Value, pos token.Pos) []Outcome {
			st.storePtr(a[0].(*Ptr), fr.r.C.B2I(a[1].(*term.T)))
			return ret(st, a[0])
		},
		bi + "SetString": func(fr *frame, st *State, a []Value, pos token.Pos) []Outcome {
			s, ok := st.constStr(a[1].(*Str))
			b := st.conc(a[2].(*term.T))
			if !ok || !b.IsConst() {
				unsup("big.Int.SetString of a symbolic string")
			}
			v, ok := new(big.Int).SetString(s, int(b.Signed()))
			if !ok {
				return ret(st, Tuple{&Ptr{}, fr.r.C.False})
			}
			st.storePtr(a[0].(*Ptr), fr.r.C.IntC(v))
			return ret(st, Tuple{a[0], fr.r.C.True})
		},
		bi + "SetBytes": func(fr *frame, st *State, a []Value, pos token.Pos) []Outcome {
			v := st.setBytes(st.force(a[1]).(*Slice))
			st.storePtr(a[0].(*Ptr), v)
			return ret(st, a[0])
		},
		bi + "Bytes": bigRead(func(fr *frame, st *State, x *term.T) Value {
			c, L := st.bytesOf(st.sabs(st.conc(x)))
			return st.newSlice("bytes", c, L, L, byteT)
		}),
		bi + "FillBytes": bigNat(1, func(fr *frame, st *State, xs []*term.T, a []Value, pos token.Pos) []Outcome {
			r, C := fr.r, fr.r.C
			x := st.sabs(st.conc(xs[0]))
			s := st.force(a[1]).(*Slice)
			n := st.conc(s.Len)
			long := C.Ult(n, r.bytelen(x))
			var outs []Outcome
			if st.quick(long) != -1 {
				p := st.clone()
				p.assume(long)
				if !p.infeasible() {
					outs = append(outs, nilPanic(fr, p, "FillBytes: buffer too small", pos)...)
				}
				st.assume(C.Not(long))
				if st.infeasible() {
					return outs
				}
			}
			if s.Obj != nil {
				st.writeRange(s, r.bv(0), n, r.lambdaC(byteT, func(s *State, i *term.T) Value { return s.beb(x, C.Sub(C.Sub(n, r.bv(1)), i)) }), r.bv(0))
			}
			return append(outs, Outcome{st: st, ret: s})
		}),
		bi + "Sign": bigRead(func(fr *frame, st *State, x *term.T) Value {
			C := fr.r.C
			return C.Ite(C.Eq(x, C.IntI(0)), fr.r.bv(0), C.Ite(C.ILt(x, C.IntI(0)), fr.r.bv(-1), fr.r.bv(1)))
		}),
		bi + "Cmp": bigNat(2, func(fr *frame, st *State, xs []*term.T, a []Value, pos token.Pos) []Outcome {
			return ret(st, fr.r.icmp(xs[0], xs[1]))
		}),
		bi + "CmpAbs": bigNat(2, func(fr *frame, st *State, xs []*term.T, a []Value, pos token.Pos) []Outcome {
			return ret(st, fr.r.icmp(st.sabs(xs[0]), st.sabs(xs[1])))
		}),
		bi + "BitLen": bigRead(func(fr *frame, st *State, x *term.T) Value { return fr.r.bitlen(st.sabs(st.conc(x))) }),
		bi + "Int64":  bigRead(func(fr *frame, st *State, x *term.T) Value { return fr.r.C.I2B(64, x) }),
		bi + "Uint64": bigRead(func(fr *frame, st *State, x *term.T) Value { return fr.r.C.I2B(64, st.sabs(x)) }),
		bi + "IsInt64": bigRead(func(fr *frame, st *State, x *term.T) Value {
			C := fr.r.C
			return C.And(C.ILe(C.IntC(new(big.Int).Neg(pow2(63))), x), C.ILt(x, C.IntC(pow2(63))))
		}),
		bi + "IsUint64": bigRead(func(fr *frame, st *State, x *term.T) Value {
			C := fr.r.C
			return C.And(C.ILe(C.IntI(0), x), C.ILt(x, C.IntC(pow2(64))))
		}),
		bi + "String": bigRead(func(fr *frame, st *State, x *term.T) Value { return fr.r.anyStr("bigstr") }),
		bi + "Text":   bigRead(func(fr *frame, st *State, x *term.T) Value { return fr.r.anyStr("bigstr") }),
		bi + "Exp": func(fr *frame, st *State, a []Value, pos token.Pos) []Outcome {
			x, y := st.bigArg(a[1]), st.bigArg(a[2])
			m := st.bigArg(a[3])
			if x == nil || y == nil {
				return nilPanic(fr, st, "nil *big.Int", pos)
			}
			if m == nil {
				m = fr.r.C.IntI(0)
			}
			st.storePtr(a[0].(*Ptr), fr.r.bigUF("exp", x, y, m))
			return ret(st, a[0])
		},
		bi + "ModInverse": bigNat(3, func(fr *frame, st *State, xs []*term.T, a []Value, pos token.Pos) []Outcome {
			r, C := fr.r, fr.r.C
			q, m := st.conc(xs[1]), st.conc(xs[2])
			if st.quick(C.ILt(C.IntI(0), m)) != 1 {
				// moduli that are not positive: uninterpreted, may fail
				f := C.App("big:coprime", term.BoolS, q, m)
				p := st.clone()
				p.assume(C.Not(f))
				st.assume(f)
				st.storePtr(a[0].(*Ptr), r.bigUF("modinv", q, m))
				return []Outcome{{st: st, ret: a[0]}, {st: p, ret: &Ptr{}}}
			}
			qm := C.IMod(q, m)
			var f *term.T
			if knownPrime(m) {
				f = C.Not(C.Eq(qm, C.IntI(0)))
			} else {
				f = C.App("big:coprime", term.BoolS, qm, m)
			}
			var outs []Outcome
			if st.quick(f) != 1 {
				p := st.clone()
				p.assume(C.Not(f))
				if !p.infeasible() {
					outs = append(outs, Outcome{st: p, ret: &Ptr{}})
				}
				st.assume(f)
				if st.infeasible() {
					return outs
				}
			}
			v := C.Inv(q, m)
			if m.IsConst() {
				C.IBound[v] = [2]*big.Int{new(big.Int), new(big.Int).Sub(m.C, big.NewInt(1))}
			} else {
				C.INonneg[v] = true
			}
			st.storePtr(a[0].(*Ptr), v)
			return append(outs, Outcome{st: st, ret: a[0]})
		}),
	}
	bigIntrinsics["BE"] = func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
		// byte i of the n-byte big-endian rendering of |x|
		r, C := fr.r, fr.r.C
		x := st.bigArg(a[0])
		if x == nil {
			unsup("BE of a nil *big.Int")
		}
		return ret(st, st.beb(st.sabs(st.conc(x)), C.Sub(C.Sub(a[1].(*term.T), r.bv(1)), a[2].(*term.T))))
	}
	bigIntrinsics["Val"] = func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
		return ret(st, fr.r.newBig(st, st.setBytes(st.force(a[0]).(*Slice))))
	}
}

func (r *Run) icmp(x, y *term.T) *term.T {
	C := r.C
	if x == y {
		return r.bv(0)
	}
	return C.Ite(C.Eq(x, y), r.bv(0), C.Ite(C.ILt(x, y), r.bv(-1), r.bv(1)))
}

// imod is x mod y (y > 0), dropping the reduction when x is known to be below y.
func (st *State) imod(x, y *term.T) *term.T {
	C := st.r.C
	t := C.IMod(x, y)
	if t.Op == term.OIMod && len(x.A) < 8 {
		in := C.And(C.ILe(C.IntI(0), x), C.ILt(x, y))
		if st.known(in) == 1 {
			return x
		}
	}
	return t
}

func (r *Run) bigSym(n string, x, y *term.T, f func(z, x, y *big.Int) *big.Int) *term.T {
	if x.IsConst() && y.IsConst() {
		return r.C.IntC(f(new(big.Int), x.C, y.C))
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return r.bigUF(n, x, y)
}

// bigAnd: masks 2^k-1 are remainders.
func (r *Run) bigAnd(x, y *term.T) *term.T {
	for i := 0; i < 2; i++ {
		if y.IsConst() && !x.IsConst() && y.C.Sign() > 0 {
			m := new(big.Int).Add(y.C, big.NewInt(1))
			if m.BitLen()-1 == int(m.TrailingZeroBits()) {
				return r.C.IMod(x, r.C.IntC(m))
			}
		}
		x, y = y, x
	}
	return r.bigSym("and", x, y, (*big.Int).And)
}
