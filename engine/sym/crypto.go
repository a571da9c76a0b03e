package sym

// Trusted models of the cryptographic dependencies of package sm2: the SM3 hash as a function of the byte
// sequence absorbed (its implementation is what C01 and C02 prove), the curve arithmetic of crypto/elliptic
// on the SM2 parameters (a cyclic group of prime order n generated by G), crypto/rand and encoding/asn1.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"verif/engine/term"

	"golang.org/x/tools/go/ssa"
)

// ------------------------------------------------------------------- SM3

func (r *Run) newHash(st *State, v *HashV) *Iface {
	opq := "sm3:" + r.uniq("digest")
	o := r.newObj("sm3digest", nil)
	if r.hash == nil {
		r.hash = map[string]*Obj{}
	}
	r.hash[opq] = o
	st.heap[o] = v
	return &Iface{Nil: r.C.False, Opq: opq}
}

func (r *Run) hashObj(st *State, i *Iface) (*Obj, *HashV) {
	o := r.hash[i.Opq]
	if o == nil {
		return nil, nil
	}
	v, ok := st.objVal(o).(*HashV)
	if !ok {
		unsup("digest state")
	}
	return o, v
}

func (r *Run) anyHash(hint string) *HashV {
	nm := r.uniq("absorbed:" + hint)
	l := r.C.Var(nm+".len", term.BVS(64))
	r.C.Bound[l] = [2]uint64{0, maxLen}
	return &HashV{Segs: []Seg{{C: r.baseC(nm, byteT), Off: r.bv(0), Len: l}}}
}

func hashMeth(f func(fr *frame, st *State, o *Obj, h *HashV, a []Value) []Outcome) func(fr *frame, st *State, i *Iface, a []Value, pos token.Pos) []Outcome {
	return func(fr *frame, st *State, i *Iface, a []Value, pos token.Pos) []Outcome {
		o, h := fr.r.hashObj(st, i)
		if o == nil {
			return nil
		}
		return f(fr, st, o, h, a)
	}
}

// canonSegs flattens a byte sequence: pieces of known length become single bytes, empty pieces go away,
// copies are followed to their sources and adjacent runs of one source are joined.
func (st *State) canonSegs(segs []Seg) []Seg {
	r, C := st.r, st.r.C
	var out []Seg
	var add func(c *Content, off, n *term.T, d int)
	add = func(c *Content, off, n *term.T, d int) {
		n, off = st.conc(n), st.conc(off)
		if n.IsConst() {
			if n.U > 1<<14 {
				unsup("long byte sequence")
			}
			for k := uint64(0); k < n.U; k++ {
				out = append(out, Seg{B: st.force(st.read(c, C.Add(off, r.bv(int64(k))))).(*term.T)})
			}
			return
		}
		if st.quick(C.Eq(n, r.bv(0))) == 1 {
			return
		}
		if d < 20 && c.k == cCopy {
			end, cend := C.Add(off, n), C.Add(c.idx, c.n)
			switch {
			case st.quick(C.And(C.Ule(c.idx, off), C.Ule(end, cend))) == 1:
				add(c.src, C.Add(c.soff, C.Sub(off, c.idx)), n, d+1)
				return
			case st.quick(C.Or(C.Ule(cend, off), C.Ule(end, c.idx))) == 1:
				add(c.base, off, n, d+1)
				return
			case st.quick(C.And(C.Ule(off, c.idx), C.Ule(c.idx, end), C.Ule(cend, end))) == 1:
				add(c.base, off, C.Sub(c.idx, off), d+1)
				add(c.src, c.soff, c.n, d+1)
				add(c.base, cend, C.Sub(end, cend), d+1)
				return
			case st.quick(C.And(C.Ule(off, c.idx), C.Ule(c.idx, end), C.Ule(end, cend))) == 1:
				add(c.base, off, C.Sub(c.idx, off), d+1)
				add(c.src, c.soff, C.Sub(end, c.idx), d+1)
				return
			case st.quick(C.And(C.Ule(c.idx, off), C.Ule(off, cend), C.Ule(cend, end))) == 1:
				add(c.src, C.Add(c.soff, C.Sub(off, c.idx)), C.Sub(cend, off), d+1)
				add(c.base, cend, C.Sub(end, cend), d+1)
				return
			}
		}
		if d < 20 && c.k == cStore {
			end := C.Add(off, n)
			switch {
			case st.quick(C.And(C.Ule(off, c.idx), C.Ult(c.idx, end))) == 1:
				add(c.base, off, C.Sub(c.idx, off), d+1)
				out = append(out, Seg{B: st.force(c.val).(*term.T)})
				add(c.base, C.Add(c.idx, r.bv(1)), C.Sub(end, C.Add(c.idx, r.bv(1))), d+1)
				return
			case st.quick(C.Or(C.Ult(c.idx, off), C.Ule(end, c.idx))) == 1:
				add(c.base, off, n, d+1)
				return
			}
		}
		if k := len(out); k > 0 && out[k-1].B == nil && sameC(out[k-1].C, c) && st.conc(C.Add(out[k-1].Off, out[k-1].Len)) == off {
			out[k-1].Len = st.conc(C.Add(out[k-1].Len, n))
			return
		}
		out = append(out, Seg{C: c, Off: off, Len: n})
	}
	for _, s := range segs {
		if s.B != nil {
			out = append(out, s)
			continue
		}
		add(s.C, s.Off, s.Len, 0)
	}
	return out
}

// seqTerms names a byte sequence: a shape and the terms it depends on.
func (st *State) seqTerms(segs []Seg) (string, []*term.T) {
	C := st.r.C
	var sb strings.Builder
	var ts, run []*term.T
	flush := func() {
		if len(run) == 0 {
			return
		}
		fmt.Fprintf(&sb, "b%d", len(run))
		for i := 0; i < len(run); i += 8 {
			e := i + 8
			if e > len(run) {
				e = len(run)
			}
			ts = append(ts, C.Concat(run[i:e]...))
		}
		run = nil
	}
	for _, s := range st.canonSegs(segs) {
		if s.B != nil {
			run = append(run, s.B)
			continue
		}
		flush()
		sb.WriteString("s")
		ts = append(ts, st.seqID(s.C, s.Off, s.Len), s.Len)
	}
	flush()
	return sb.String(), ts
}

// digest is the SM3 value of the sequence as a 256-bit integer.
func (st *State) digest(segs []Seg) *term.T {
	C := st.r.C
	for i, s := range segs {
		if s.B != nil {
			continue
		}
		// an empty piece is no piece
		z := C.Eq(st.conc(s.Len), st.r.bv(0))
		switch st.quick(z) {
		case 0:
			without := append(append([]Seg{}, segs[:i]...), segs[i+1:]...)
			return C.Ite(z, st.with(z).digest(without), st.with(C.Not(z)).digest(segs))
		}
	}
	sh, ts := st.seqTerms(segs)
	h := C.App("sm3:"+sh, term.IntS, ts...)
	C.IBound[h] = [2]*big.Int{new(big.Int), new(big.Int).Sub(pow2(256), big.NewInt(1))}
	return h
}

func (st *State) digestC(h *term.T) *Content {
	r := st.r
	return r.lambdaC(byteT, func(s *State, i *term.T) Value { return s.beb(h, r.C.Sub(r.bv(31), i)) })
}

// ------------------------------------------------------------------ curve

func hexBig(s string) *big.Int { v, _ := new(big.Int).SetString(s, 16); return v }

// SM2 recommended curve (GB/T 32918.5)
var (
	sm2P  = hexBig("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF")
	sm2A  = hexBig("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFC")
	sm2B  = hexBig("28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93")
	sm2N  = hexBig("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123")
	sm2Gx = hexBig("32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7")
	sm2Gy = hexBig("BC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0")
)

// curveOK: the *elliptic.CurveParams argument carries the SM2 parameters.
func (st *State) curveOK(v Value) (ok, nilp bool) {
	p, k := st.force(v).(*Ptr)
	if !k {
		unsup("curve %s", valStr(v))
	}
	if p.IsNil() {
		return false, true
	}
	s, k := st.force(st.loadPtr(p)).(*Struct)
	if !k {
		unsup("curve parameters %s", valStr(st.loadPtr(p)))
	}
	u := under(s.T).(*types.Struct)
	want := map[string]*big.Int{"P": sm2P, "N": sm2N, "B": sm2B, "Gx": sm2Gx, "Gy": sm2Gy}
	for i := 0; i < u.NumFields(); i++ {
		if w := want[u.Field(i).Name()]; w != nil {
			q, k := st.force(s.F[i]).(*Ptr)
			if !k || q.IsNil() {
				return false, false
			}
			t, k := st.loadPtr(q).(*term.T)
			if !k || !t.IsConst() || t.C.Cmp(w) != 0 {
				return false, false
			}
		}
		if u.Field(i).Name() == "BitSize" {
			t := st.force(s.F[i]).(*term.T)
			if !t.IsConst() || t.U != 256 {
				return false, false
			}
		}
	}
	return true, false
}

// onc: (x,y) is an affine point of the SM2 curve.
func (st *State) onc(x, y *term.T) *term.T {
	r, C := st.r, st.r.C
	if e := pointExp(x, y); e != nil {
		return C.Not(C.Eq(e, C.IntI(0)))
	}
	if x.IsConst() && y.IsConst() {
		in := func(v *big.Int) bool { return v.Sign() >= 0 && v.Cmp(sm2P) < 0 }
		if !in(x.C) || !in(y.C) {
			return C.False
		}
		l := new(big.Int).Mul(y.C, y.C)
		w := new(big.Int).Mul(x.C, x.C)
		w.Add(w, sm2A).Mul(w, x.C).Add(w, sm2B)
		return C.BoolC(l.Sub(l, w).Mod(l, sm2P).Sign() == 0)
	}
	t := C.App("oncurve", term.BoolS, x, y)
	if _, ok := r.axm[t]; !ok {
		p := C.IntC(sm2P)
		z := C.IntI(0)
		r.axm[t] = []*term.T{C.Implies(t, C.And(C.ILe(z, x), C.ILt(x, p), C.ILe(z, y), C.ILt(y, p), C.Not(C.And(C.Eq(x, z), C.Eq(y, z)))))}
	}
	return t
}

// pointExp recognises the coordinates of [e]G.
func pointExp(x, y *term.T) *term.T {
	if x.Op == term.OApp && y.Op == term.OApp && x.Name == "PX" && y.Name == "PY" && x.A[0] == y.A[0] {
		return x.A[0]
	}
	return nil
}

// dlog is the exponent of an affine curve point.
func (st *State) dlog(x, y *term.T) *term.T {
	r, C := st.r, st.r.C
	if e := pointExp(x, y); e != nil {
		return e
	}
	if x.IsConst() && y.IsConst() {
		if x.C.Cmp(sm2Gx) == 0 && y.C.Cmp(sm2Gy) == 0 {
			return C.IntI(1)
		}
	}
	t := C.App("DL", term.IntS, x, y)
	C.IBound[t] = [2]*big.Int{new(big.Int), new(big.Int).Sub(sm2N, big.NewInt(1))}
	if _, ok := r.axm[t]; !ok {
		on := st.onc(x, y)
		px, py := C.App("PX", term.IntS, t), C.App("PY", term.IntS, t)
		r.pointAx(px, py, t)
		r.axm[t] = []*term.T{C.Implies(on, C.And(C.Not(C.Eq(t, C.IntI(0))), C.Eq(px, x), C.Eq(py, y)))}
	}
	return t
}

func (r *Run) pointAx(px, py, e *term.T) {
	C := r.C
	b := [2]*big.Int{new(big.Int), new(big.Int).Sub(sm2P, big.NewInt(1))}
	C.IBound[px], C.IBound[py] = b, b
	if _, ok := r.axm[px]; ok {
		return
	}
	z := C.IntI(0)
	ax := C.Eq(C.And(C.Eq(px, z), C.Eq(py, z)), C.Eq(e, z))
	r.axm[px] = []*term.T{ax}
	r.axm[py] = []*term.T{ax}
}

// nonlinear: a sum with products of non-constant factors.
func nonlinear(t *term.T) bool {
	if t.Op == term.OIMul {
		return true
	}
	if t.Op == term.OIAdd {
		for _, a := range t.A {
			if a.Op == term.OIMul {
				return true
			}
		}
	}
	return false
}

// expPoint gives the coordinates of [e]G ((0,0) for the point at infinity).
func (st *State) expPoint(e *term.T) (x, y *term.T) {
	r, C := st.r, st.r.C
	e = C.IMod(e, C.IntC(sm2N))
	if e.Op == term.OIMod && !nonlinear(e.A[0]) && st.quick(C.And(C.ILe(C.IntI(0), e.A[0]), C.ILt(e.A[0], C.IntC(sm2N)))) == 1 {
		e = e.A[0]
	}
	if e.IsConst() {
		if e.C.Sign() == 0 {
			return C.IntI(0), C.IntI(0)
		}
		if e.C.Cmp(big.NewInt(1)) == 0 {
			return C.IntC(sm2Gx), C.IntC(sm2Gy)
		}
	}
	if e.Op == term.OApp && e.Name == "DL" && st.quick(st.onc(e.A[0], e.A[1])) == 1 {
		return e.A[0], e.A[1]
	}
	x, y = C.App("PX", term.IntS, e), C.App("PY", term.IntS, e)
	r.pointAx(x, y, e)
	return
}

type ptCase struct {
	st  *State
	e   *term.T
	pan bool
}

// pointArg finds the exponent of a point argument: an affine curve point, (0,0) for infinity, anything else panics.
func (st *State) pointArg(x, y *term.T) []ptCase {
	C := st.r.C
	if e := pointExp(x, y); e != nil {
		return []ptCase{{st: st, e: e}}
	}
	inf := C.And(C.Eq(x, C.IntI(0)), C.Eq(y, C.IntI(0)))
	on := st.onc(x, y)
	switch {
	case st.quick(on) == 1:
		return []ptCase{{st: st, e: st.dlog(x, y)}}
	case st.quick(inf) == 1:
		return []ptCase{{st: st, e: C.IntI(0)}}
	}
	var out []ptCase
	a, b := st.clone(), st.clone()
	a.assume(on)
	if !a.infeasible() {
		out = append(out, ptCase{st: a, e: a.dlog(x, y)})
	}
	b.assume(inf)
	if !b.infeasible() {
		out = append(out, ptCase{st: b, e: C.IntI(0)})
	}
	st.assume(C.Not(C.Or(on, inf)))
	if !st.infeasible() {
		out = append(out, ptCase{st: st, pan: true})
	}
	return out
}

func retPoint(st *State, e *term.T) Outcome {
	x, y := st.expPoint(e)
	return Outcome{st: st, ret: Tuple{st.r.newBig(st, x), st.r.newBig(st, y)}}
}

const cpn = "(*crypto/elliptic.CurveParams)."

// curveUF: arithmetic on other curves is not interpreted.
func curveUF(st *State, op string, curve Value, args ...*term.T) []Outcome {
	r, C := st.r, st.r.C
	var ts []*term.T
	if s, ok := st.force(st.loadPtr(st.force(curve).(*Ptr))).(*Struct); ok {
		for _, f := range s.F {
			if p, ok := st.force(f).(*Ptr); ok && !p.IsNil() {
				if t, ok := st.loadPtr(p).(*term.T); ok {
					ts = append(ts, t)
				}
			}
		}
	}
	ts = append(ts, args...)
	return ret(st, Tuple{r.newBig(st, C.App("curve:"+op+".x", term.IntS, ts...)), r.newBig(st, C.App("curve:"+op+".y", term.IntS, ts...))})
}

// curveNat: f gets the SM2 group; nb is the number of *big.Int arguments after the receiver.
func curveNat(op string, nb int, f func(fr *frame, st *State, xs []*term.T, a []Value, pos token.Pos) []Outcome) native {
	return func(fr *frame, st *State, a []Value, pos token.Pos) []Outcome {
		ok, nilp := st.curveOK(a[0])
		if nilp {
			return nilPanic(fr, st, "nil curve", pos)
		}
		xs := make([]*term.T, nb)
		for i := range xs {
			xs[i] = st.bigArg(a[1+i])
			if xs[i] == nil {
				return nilPanic(fr, st, "nil *big.Int", pos)
			}
			xs[i] = st.conc(xs[i])
		}
		if !ok {
			if len(a) > 1+nb {
				xs = append(xs, st.setBytes(st.force(a[1+nb]).(*Slice)))
			}
			return curveUF(st, op, a[0], xs...)
		}
		return f(fr, st, xs, a, pos)
	}
}

// --------------------------------------------------------------- crypto/rand

// draw records the last draw of randomness: its value, the reader and whether it failed.
func (st *State) draw(v *term.T, rd Value, failed bool) {
	r := st.r
	st.heap[r.drawV] = v
	st.heap[r.drawFrom] = r.readerID(st, rd)
	st.heap[r.drawFail] = r.C.BoolC(failed)
}

func (r *Run) initDraws(st *State) {
	C := r.C
	mk := func(n string, v *term.T) *Obj {
		o := r.newObj(n, nil)
		st.heap[o] = v
		return o
	}
	r.drawV = mk("random draw", C.IntI(0))
	r.drawFrom = mk("random source", r.bv(0))
	r.drawFail = mk("random failure", C.False)
}

func (r *Run) readerID(st *State, v Value) *term.T {
	i, ok := st.force(v).(*Iface)
	if !ok {
		unsup("reader %s", valStr(v))
	}
	nm := i.Opq
	if i.T != nil {
		p, ok := st.force(i.V).(*Ptr)
		if !ok {
			unsup("reader of type %s", i.T)
		}
		nm = "obj:" + p.Obj.String() + pathStr(p.Path)
	}
	for k, n := range r.readers {
		if n == nm {
			return r.bv(int64(k + 1))
		}
	}
	r.readers = append(r.readers, nm)
	return r.bv(int64(len(r.readers)))
}

// ------------------------------------------------------------- encoding/asn1

type derField struct {
	i    *term.T // integer, or
	c    *Content
	off  *term.T
	n    *term.T
	kind byte
}

type derRec struct {
	name   string
	args   []*term.T
	c      *Content
	n      *term.T
	fields []derField
}

// derShape: struct types of *big.Int and []byte fields.
func derShape(t types.Type) (string, bool) {
	u, ok := under(t).(*types.Struct)
	if !ok {
		return "", false
	}
	s := ""
	for i := 0; i < u.NumFields(); i++ {
		if u.Tag(i) != "" {
			return "", false
		}
		switch f := under(u.Field(i).Type()).(type) {
		case *types.Pointer:
			if !isBigInt(f.Elem()) {
				return "", false
			}
			s += "I"
		case *types.Slice:
			if b, ok := under(f.Elem()).(*types.Basic); !ok || b.Kind() != types.Uint8 {
				return "", false
			}
			s += "B"
		default:
			return "", false
		}
	}
	return s, true
}

// der is the encoding of a sequence of the given fields.
func (st *State) der(shape string, fs []derField) *derRec {
	r, C := st.r, st.r.C
	name := "der:" + shape
	var args []*term.T
	for _, f := range fs {
		if f.kind == 'I' {
			args = append(args, f.i)
			continue
		}
		sh, ts := st.seqTerms([]Seg{{C: f.c, Off: f.off, Len: f.n}})
		name += "," + sh
		args = append(args, ts...)
	}
	key := name
	for _, a := range args {
		key += fmt.Sprintf(",%d", a.ID)
	}
	if d := r.ders[key]; d != nil {
		return d
	}
	// equal values have one encoding
	for _, d := range r.derList {
		if len(d.fields) != len(fs) || !(d.name == "der:"+shape || strings.HasPrefix(d.name, "der:"+shape+",")) {
			continue
		}
		same := true
		for i, f := range fs {
			if same = st.sameField(f, d.fields[i]); !same {
				break
			}
		}
		if same {
			return d
		}
	}
	n := C.App(name+".len", term.BVS(64), args...)
	C.Bound[n] = [2]uint64{2, maxLen}
	d := &derRec{name: name, args: args, c: r.baseC(name, byteT, args...), n: n, fields: fs}
	if r.ders == nil {
		r.ders = map[string]*derRec{}
	}
	r.ders[key] = d
	r.derList = append(r.derList, d)
	return d
}

// sameField: the two fields are known to be equal.
func (st *State) sameField(f, g derField) bool {
	C := st.r.C
	if f.kind != g.kind {
		return false
	}
	if f.kind == 'I' {
		a, b := st.conc(f.i), st.conc(g.i)
		return a == b || st.quick(C.Eq(a, b)) == 1
	}
	if st.quick(C.Eq(f.n, g.n)) != 1 {
		return false
	}
	k := C.Var("zz!d", term.BVS(64))
	s2 := st.with(C.Ult(k, f.n))
	a, ok1 := s2.force(s2.read(f.c, C.Add(f.off, k))).(*term.T)
	b, ok2 := s2.force(s2.read(g.c, C.Add(g.off, k))).(*term.T)
	if !ok1 || !ok2 {
		return false
	}
	return s2.conc(a) == s2.conc(b) || s2.quick(C.Eq(a, b)) == 1
}

// derOf recognises an encoding made by der.
func (st *State) derOf(s *Slice) *derRec {
	r, C := st.r, st.r.C
	if s.Obj == nil || len(r.ders) == 0 {
		return nil
	}
	k := C.Var("zz!k", term.BVS(64))
	s2 := st.with(C.Ult(k, st.conc(s.Len)))
	t, ok := s2.force(s2.read(s2.backing(s).C, C.Add(s.Off, k))).(*term.T)
	if !ok || t.Op != term.OApp || !strings.HasPrefix(t.Name, "der:") || t.A[len(t.A)-1] != k {
		return nil
	}
	key := t.Name
	for _, a := range t.A[:len(t.A)-1] {
		key += fmt.Sprintf(",%d", a.ID)
	}
	d := r.ders[key]
	if d == nil || st.quick(C.Eq(s.Len, d.n)) != 1 {
		return nil
	}
	return d
}

func asn1Marshal(fr *frame, st *State, a []Value, pos token.Pos) []Outcome {
	r := fr.r
	i := st.force(a[0]).(*Iface)
	if i.T == nil {
		unsup("asn1.Marshal of an opaque value")
	}
	t, v := i.T, st.force(i.V)
	if p, ok := v.(*Ptr); ok && !p.IsNil() {
		t, v = under(t).(*types.Pointer).Elem(), st.force(st.loadPtr(p))
	}
	shape, ok := derShape(t)
	if !ok {
		unsup("asn1.Marshal of %s", t)
	}
	var fs []derField
	for k, f := range v.(*Struct).F {
		f = st.force(f)
		if shape[k] == 'I' {
			x := st.bigArg(f)
			if x == nil {
				return ret(st, Tuple{r.nilSlice(), r.newErr("asn1")})
			}
			fs = append(fs, derField{kind: 'I', i: st.conc(x)})
			continue
		}
		c, off, n := st.sliceSeq(f.(*Slice))
		fs = append(fs, derField{kind: 'B', c: c, off: off, n: n})
	}
	d := st.der(shape, fs)
	return ret(st, Tuple{st.newSlice("der", d.c, d.n, d.n, byteT), &Iface{Nil: r.C.True}})
}

func asn1Unmarshal(fr *frame, st *State, a []Value, pos token.Pos) []Outcome {
	r, C := fr.r, fr.r.C
	in := st.force(a[0]).(*Slice)
	i := st.force(a[1]).(*Iface)
	p, ok := st.force(i.V).(*Ptr)
	if i.T == nil || !ok || p.IsNil() {
		unsup("asn1.Unmarshal into an opaque value")
	}
	t := under(i.T).(*types.Pointer).Elem()
	shape, ok := derShape(t)
	if !ok {
		unsup("asn1.Unmarshal into %s", t)
	}
	put := func(s *State, fs []derField) {
		f := make([]Value, len(fs))
		for k, d := range fs {
			if d.kind == 'I' {
				f[k] = r.newBig(s, d.i)
			} else {
				f[k] = s.newSlice("asn1", r.copyC(s, r.zeroContent(byteT, d.n), r.bv(0), d.n, d.c, d.off), d.n, d.n, byteT)
			}
		}
		s.storePtr(p, &Struct{F: f, T: t})
	}
	if d := st.derOf(in); d != nil && (d.name == "der:"+shape || strings.HasPrefix(d.name, "der:"+shape+",")) {
		put(st, d.fields)
		return ret(st, Tuple{r.nilSlice(), &Iface{Nil: C.True}})
	}
	// any other input: success, the fields and the length consumed are functions of the bytes
	c, off, n := st.sliceSeq(in)
	sh, ts := st.seqTerms([]Seg{{C: c, Off: off, Len: n}})
	nm := "asn1:" + shape + ":" + sh
	good := C.App(nm+".ok", term.BoolS, ts...)
	var fs []derField
	for k := range shape {
		f := derField{kind: shape[k]}
		fn := fmt.Sprintf("%s.%d", nm, k)
		if f.kind == 'I' {
			f.i = C.App(fn, term.IntS, ts...)
		} else {
			f.n = C.App(fn+".len", term.BVS(64), ts...)
			C.Bound[f.n] = [2]uint64{0, maxLen}
			if r.unms == nil {
				r.unms = map[string]*Content{}
			}
			key := fn
			for _, a := range ts {
				key += fmt.Sprintf(",%d", a.ID)
			}
			if r.unms[key] == nil {
				r.unms[key] = r.baseC(fn, byteT, ts...)
			}
			f.c, f.off = r.unms[key], r.bv(0)
		}
		fs = append(fs, f)
	}
	used := C.App(nm+".used", term.BVS(64), ts...)
	C.Bound[used] = [2]uint64{0, maxLen}
	bad := st.clone()
	bad.assume(C.Not(good))
	st.assume(good)
	st.assume(C.Ule(used, n))
	for _, f := range fs {
		if f.kind == 'B' {
			st.assume(C.Ule(f.n, used))
		}
	}
	put(st, fs)
	rest := r.nilSlice()
	if in.Obj != nil {
		rest = &Slice{Obj: in.Obj, Path: in.Path, Off: C.Add(in.Off, used), Len: C.Sub(n, used), Cap: C.Sub(in.Cap, used), Nil: C.False}
	}
	var outs []Outcome
	if !st.infeasible() {
		outs = append(outs, Outcome{st: st, ret: Tuple{rest, &Iface{Nil: C.True}}})
	}
	return append(outs, Outcome{st: bad, ret: Tuple{r.nilSlice(), r.newErr("asn1")}})
}

func init() {
	opaqueMethods["Write"] = hashMeth(func(fr *frame, st *State, o *Obj, h *HashV, a []Value) []Outcome {
		c, off, n := st.sliceSeq(st.force(a[0]).(*Slice))
		segs := append(h.Segs[:len(h.Segs):len(h.Segs)], Seg{C: c, Off: off, Len: n})
		st.heap[o] = &HashV{Segs: segs}
		return ret(st, Tuple{n, &Iface{Nil: fr.r.C.True}})
	})
	opaqueMethods["Reset"] = hashMeth(func(fr *frame, st *State, o *Obj, h *HashV, a []Value) []Outcome {
		st.heap[o] = &HashV{}
		return ret(st, Tuple{})
	})
	opaqueMethods["Size"] = hashMeth(func(fr *frame, st *State, o *Obj, h *HashV, a []Value) []Outcome { return ret(st, fr.r.bv(32)) })
	opaqueMethods["BlockSize"] = hashMeth(func(fr *frame, st *State, o *Obj, h *HashV, a []Value) []Outcome { return ret(st, fr.r.bv(64)) })
	opaqueMethods["Sum"] = hashMeth(func(fr *frame, st *State, o *Obj, h *HashV, a []Value) []Outcome {
		r, C := fr.r, fr.r.C
		d := st.digestC(st.digest(h.Segs))
		in := st.force(a[0]).(*Slice)
		n := st.conc(in.Len)
		if in.Obj == nil {
			return ret(st, st.newSlice("digest", d, r.bv(32), r.bv(32), byteT))
		}
		var outs []Outcome
		nl := C.Add(n, r.bv(32))
		fits := C.Ule(nl, in.Cap)
		if st.quick(fits) != -1 {
			s := st.clone()
			s.assume(fits)
			s.writeRange(in, n, r.bv(32), d, r.bv(0))
			outs = append(outs, Outcome{st: s, ret: &Slice{Obj: in.Obj, Path: in.Path, Off: in.Off, Len: nl, Cap: in.Cap, Nil: C.False}})
		}
		if st.quick(fits) != 1 {
			st.assume(C.Not(fits))
			c := r.copyC(st, r.zeroContent(byteT, nl), r.bv(0), n, st.backing(in).C, in.Off)
			c = r.copyC(st, c, n, r.bv(32), d, r.bv(0))
			outs = append(outs, Outcome{st: st, ret: st.newSlice("digest", c, nl, nl, byteT)})
		}
		return outs
	})
	bigNatives[modPath+"/sm3.New"] = func(fr *frame, st *State, a []Value, pos token.Pos) []Outcome {
		if fr.r.Pkg == "sm3" {
			return nil
		}
		return ret(st, fr.r.newHash(st, &HashV{}))
	}
	bigNatives[modPath+"/sm3.Sum"] = func(fr *frame, st *State, a []Value, pos token.Pos) []Outcome {
		if fr.r.Pkg == "sm3" {
			return nil
		}
		c, off, n := st.sliceSeq(st.force(a[0]).(*Slice))
		return ret(st, &Arr{C: st.digestC(st.digest([]Seg{{C: c, Off: off, Len: n}})), Len: fr.r.bv(32), Elem: byteT})
	}

	bigNatives[cpn+"IsOnCurve"] = func(fr *frame, st *State, a []Value, pos token.Pos) []Outcome {
		ok, nilp := st.curveOK(a[0])
		if nilp {
			return nilPanic(fr, st, "nil curve", pos)
		}
		x, y := st.bigArg(a[1]), st.bigArg(a[2])
		if x == nil || y == nil {
			return nilPanic(fr, st, "nil *big.Int", pos)
		}
		if !ok {
			return ret(st, fr.r.C.Var(fr.r.uniq("oncurve"), term.BoolS))
		}
		return ret(st, st.onc(st.conc(x), st.conc(y)))
	}
	bigNatives[cpn+"ScalarBaseMult"] = curveNat("base", 0, func(fr *frame, st *State, xs []*term.T, a []Value, pos token.Pos) []Outcome {
		return []Outcome{retPoint(st, st.setBytes(st.force(a[1]).(*Slice)))}
	})
	bigNatives[cpn+"ScalarMult"] = curveNat("mult", 2, func(fr *frame, st *State, xs []*term.T, a []Value, pos token.Pos) []Outcome {
		var outs []Outcome
		for _, p := range st.pointArg(xs[0], xs[1]) {
			if p.pan {
				outs = append(outs, nilPanic(fr, p.st, "point not on the curve", pos)...)
				continue
			}
			k := p.st.setBytes(p.st.force(a[3]).(*Slice))
			outs = append(outs, retPoint(p.st, fr.r.C.IMul(k, p.e)))
		}
		return outs
	})
	bigNatives[cpn+"Add"] = curveNat("add", 4, func(fr *frame, st *State, xs []*term.T, a []Value, pos token.Pos) []Outcome {
		var outs []Outcome
		for _, p := range st.pointArg(xs[0], xs[1]) {
			if p.pan {
				outs = append(outs, nilPanic(fr, p.st, "point not on the curve", pos)...)
				continue
			}
			for _, q := range p.st.pointArg(xs[2], xs[3]) {
				if q.pan {
					outs = append(outs, nilPanic(fr, q.st, "point not on the curve", pos)...)
					continue
				}
				outs = append(outs, retPoint(q.st, fr.r.C.IAdd(p.e, q.e)))
			}
		}
		return outs
	})
	bigNatives[cpn+"Double"] = curveNat("double", 2, func(fr *frame, st *State, xs []*term.T, a []Value, pos token.Pos) []Outcome {
		var outs []Outcome
		for _, p := range st.pointArg(xs[0], xs[1]) {
			if p.pan {
				outs = append(outs, nilPanic(fr, p.st, "point not on the curve", pos)...)
				continue
			}
			outs = append(outs, retPoint(p.st, fr.r.C.IAdd(p.e, p.e)))
		}
		return outs
	})
	bigNatives["crypto/rand.Int"] = func(fr *frame, st *State, a []Value, pos token.Pos) []Outcome {
		r, C := fr.r, fr.r.C
		m := st.bigArg(a[1])
		if m == nil {
			return nilPanic(fr, st, "nil *big.Int", pos)
		}
		m = st.conc(m)
		var outs []Outcome
		bad := C.ILe(m, C.IntI(0))
		if st.quick(bad) != -1 {
			p := st.clone()
			p.assume(bad)
			if !p.infeasible() {
				outs = append(outs, nilPanic(fr, p, "rand.Int: argument <= 0", pos)...)
			}
			st.assume(C.Not(bad))
			if st.infeasible() {
				return outs
			}
		}
		f := st.clone()
		f.draw(C.IntI(0), a[0], true)
		outs = append(outs, Outcome{st: f, ret: Tuple{&Ptr{}, r.newErr("rand")}})
		v := C.Var(r.uniq("rand"), term.IntS)
		if m.IsConst() {
			C.IBound[v] = [2]*big.Int{new(big.Int), new(big.Int).Sub(m.C, big.NewInt(1))}
		} else {
			st.assume(C.And(C.ILe(C.IntI(0), v), C.ILt(v, m)))
		}
		st.draw(v, a[0], false)
		return append(outs, Outcome{st: st, ret: Tuple{r.newBig(st, v), &Iface{Nil: C.True}}})
	}
	readFull := func(rd, buf Value, fr *frame, st *State) []Outcome {
		r, C := fr.r, fr.r.C
		s := st.force(buf).(*Slice)
		n := st.conc(s.Len)
		f := st.clone()
		if s.Obj != nil {
			f.writeRange(s, r.bv(0), n, r.baseC(r.uniq("partial read"), byteT), r.bv(0))
		}
		f.draw(C.IntI(0), rd, true)
		got := C.Var(r.uniq("read"), term.BVS(64))
		f.assume(C.Ule(got, n))
		if s.Obj != nil {
			st.writeRange(s, r.bv(0), n, r.baseC(r.uniq("random bytes"), byteT), r.bv(0))
		}
		v := C.IntI(0)
		if n.IsConst() && n.U <= 256 {
			v = st.setBytes(s)
		}
		st.draw(v, rd, false)
		return []Outcome{{st: st, ret: Tuple{n, &Iface{Nil: C.True}}}, {st: f, ret: Tuple{got, r.newErr("read")}}}
	}
	bigNatives["io.ReadFull"] = func(fr *frame, st *State, a []Value, pos token.Pos) []Outcome {
		return readFull(a[0], a[1], fr, st)
	}
	bigNatives["crypto/rand.Read"] = func(fr *frame, st *State, a []Value, pos token.Pos) []Outcome {
		return readFull(&Iface{Nil: fr.r.C.False, Opq: cryptoReader}, a[0], fr, st)
	}
	bigNatives["encoding/asn1.Marshal"] = asn1Marshal
	bigNatives["encoding/asn1.Unmarshal"] = asn1Unmarshal

	// specification vocabulary
	in := intrinsics
	in["SM3"] = func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
		var segs []Seg
		for _, v := range st.variadic(a[0]) {
			c, off, n := st.sliceSeq(st.force(v).(*Slice))
			segs = append(segs, Seg{C: c, Off: off, Len: n})
		}
		return ret(st, &Arr{C: st.digestC(st.digest(segs)), Len: fr.r.bv(32), Elem: byteT})
	}
	in["RequiresSM3"] = func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
		// the hash.Hash is an SM3 digest in any state; the call may change its state
		r := fr.r
		i, ok := st.force(a[0]).(*Iface)
		if !ok {
			unsup("RequiresSM3 of %s", valStr(a[0]))
		}
		o := r.hash[i.Opq]
		if st.gh != nil && st.gh.mode == modeUse {
			if !st.prove("precondition of "+st.gh.name+": an SM3 digest", st.gh.site, r.C.BoolC(o != nil && st.quick(i.Nil) == -1)) {
				return nil
			}
		} else {
			st.assume(r.C.Not(i.Nil))
			if o == nil {
				o = r.newObj("sm3digest", nil)
				if r.hash == nil {
					r.hash = map[string]*Obj{}
				}
				r.hash[i.Opq] = o
			}
			st.heap[o] = r.anyHash("in")
		}
		st.setGh(func(g *ghostCtx) { g.mods = append(g.mods[:len(g.mods):len(g.mods)], modItem{obj: o}) })
		return ret(st, Tuple{})
	}
	big1 := func(f func(st *State, xs []*term.T) Value) intrinsic {
		return func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			var xs []*term.T
			for _, v := range a {
				x := st.bigArg(v)
				if x == nil {
					unsup("nil *big.Int in a specification")
				}
				xs = append(xs, st.conc(x))
			}
			return ret(st, f(st, xs))
		}
	}
	in["PX"] = big1(func(st *State, xs []*term.T) Value { x, _ := st.expPoint(xs[0]); return st.r.newBig(st, x) })
	in["PY"] = big1(func(st *State, xs []*term.T) Value { _, y := st.expPoint(xs[0]); return st.r.newBig(st, y) })
	in["DLog"] = big1(func(st *State, xs []*term.T) Value { return st.r.newBig(st, st.dlog(xs[0], xs[1])) })
	in["OnCurve"] = big1(func(st *State, xs []*term.T) Value { return st.onc(xs[0], xs[1]) })
	in["Draws"] = func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
		r := fr.r
		st.setGh(func(g *ghostCtx) {
			g.mods = append(g.mods[:len(g.mods):len(g.mods)], modItem{obj: r.drawV}, modItem{obj: r.drawFrom}, modItem{obj: r.drawFail})
		})
		return ret(st, Tuple{})
	}
	in["LastDraw"] = func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
		return ret(st, fr.r.newBig(st, st.objVal(fr.r.drawV).(*term.T)))
	}
	in["DrawFailed"] = func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
		return ret(st, st.objVal(fr.r.drawFail))
	}
	in["DrawnFrom"] = func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
		return ret(st, fr.r.C.Eq(st.objVal(fr.r.drawFrom).(*term.T), fr.r.readerID(st, a[0])))
	}
	in["RequiresIs"] = func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
		p := a[0].(*Ptr)
		if st.gh != nil && st.gh.mode == modeUse {
			n := fr.r.nfail
			st.proveEq("precondition of "+st.gh.name, st.gh.site, st.force(st.loadPtr(p)), st.force(a[1]))
			if fr.r.nfail != n {
				return nil
			}
			return ret(st, Tuple{})
		}
		st.storePtr(p, a[1])
		return ret(st, Tuple{})
	}
}

const cryptoReader = "iface:crypto/rand.Reader"

// curveParamsOf finds the *elliptic.CurveParams inside an elliptic.Curve value.
func (st *State) curveParamsOf(v Value) Value {
	i, ok := st.force(v).(*Iface)
	if !ok || i.T == nil {
		return nil
	}
	x := st.force(i.V)
	for d := 0; d < 3; d++ {
		switch y := x.(type) {
		case *Ptr:
			if y.IsNil() {
				return nil
			}
			s, ok := st.force(st.loadPtr(y)).(*Struct)
			if !ok {
				return nil
			}
			if n, ok := types.Unalias(s.T).(*types.Named); ok && n.Obj().Name() == "CurveParams" {
				return y
			}
			x = s
		case *Struct:
			x = st.force(y.F[0])
		default:
			return nil
		}
	}
	return nil
}

func init() {
	// elliptic.GenerateKey reads the source until it has a number below N: the number (any in [0, N)), its point.
	bigNatives["crypto/elliptic.GenerateKey"] = func(fr *frame, st *State, a []Value, pos token.Pos) []Outcome {
		r, C := fr.r, fr.r.C
		cp := st.curveParamsOf(a[0])
		if cp == nil {
			return nil
		}
		if ok, nilp := st.curveOK(cp); !ok || nilp {
			return nil
		}
		f := st.clone()
		f.draw(C.IntI(0), a[1], true)
		v := C.Var(r.uniq("rand"), term.IntS)
		C.IBound[v] = [2]*big.Int{new(big.Int), new(big.Int).Sub(sm2N, big.NewInt(1))}
		st.draw(v, a[1], false)
		c := r.lambdaC(byteT, func(s *State, i *term.T) Value { return s.beb(v, C.Sub(r.bv(31), i)) })
		priv := st.newSlice("priv", c, r.bv(32), r.bv(32), byteT)
		x, y := st.expPoint(v)
		return []Outcome{
			{st: st, ret: Tuple{priv, r.newBig(st, x), r.newBig(st, y), &Iface{Nil: C.True}}},
			{st: f, ret: Tuple{f.newSlice("priv", r.baseC(r.uniq("partial read"), byteT), r.bv(32), r.bv(32), byteT), &Ptr{}, &Ptr{}, r.newErr("read")}},
		}
	}
}
