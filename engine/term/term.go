// Package term implements the hash-consed, simplifying term language in which
// verification conditions are built: booleans, bit-vectors of width 1..64,
// mathematical integers (as multivariate polynomials) and uninterpreted
// functions. All constructors normalise.
package term

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

type Kind uint8

const (
	Bool Kind = iota
	BV
	Int
)

type Sort struct {
	K Kind
	W int
}

func (s Sort) String() string {
	switch s.K {
	case Bool:
		return "Bool"
	case Int:
		return "Int"
	}
	return fmt.Sprintf("(_ BitVec %d)", s.W)
}

var BoolS = Sort{Bool, 0}
var IntS = Sort{Int, 0}

func BVS(w int) Sort { return Sort{BV, w} }

type Op uint8

const (
	OConst Op = iota // bv: U ; bool: U ; int: C
	OVar
	OApp
	ONot
	OAnd
	OIte
	OEq   // bv/bool
	OAdd  // bv: sum K[i]*A[i] + U
	OMul  // bv
	OUDiv // bv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor // A..., U const
	OShl
	OLshr
	OAshr
	OConcat
	OExtract // U = hi<<8|lo
	OSext
	OUlt
	OSlt
	OIAdd // sum KB[i]*A[i] + C
	OIMul
	OIMod
	OIDiv
	OILe0 // A[0] <= 0
	OIEq0 // A[0] == 0
	OB2I  // unsigned value
	OI2B
)

type T struct {
	ID   int
	Op   Op
	S    Sort
	A    []*T
	K    []uint64
	U    uint64
	KB   []*big.Int
	C    *big.Int
	Name string
	lo   uint64 // cached unsigned range
	hi   uint64
	rng  int // number of bounds known when lo, hi were computed, plus one
}

type Ctx struct {
	tab    map[string]*T
	exMemo map[exKey]*T
	next   int
	fresh  int
	// Bound gives unconditional unsigned bounds for variables / applications.
	Bound map[*T][2]uint64
	// BoundEpoch changes when the bounds of a variable already in use are tightened.
	BoundEpoch int
	// INonneg marks integer atoms known to be >= 0
	INonneg map[*T]bool
	// IBound gives unconditional inclusive bounds for integer variables / applications.
	IBound map[*T][2]*big.Int
	// InvOf maps the integer atom inv(q) to (q, modulus)
	InvOf map[*T][2]*T
	// ModRange: modulus is known positive: atoms (mod p m) in [0,m)
	True, False *T
	Terms       []*T
}

func NewCtx() *Ctx {
	c := &Ctx{exMemo: map[exKey]*T{}, tab: map[string]*T{}, Bound: map[*T][2]uint64{}, InvOf: map[*T][2]*T{}, INonneg: map[*T]bool{}, IBound: map[*T][2]*big.Int{}}
	c.False = c.mk(&T{Op: OConst, S: BoolS, U: 0})
	c.True = c.mk(&T{Op: OConst, S: BoolS, U: 1})
	return c
}

func (c *Ctx) mk(t *T) *T {
	var b strings.Builder
	b.Grow(32 + 8*len(t.A))
	b.WriteByte(byte(t.Op) + 33)
	b.WriteByte(byte(t.S.K) + 33)
	b.WriteString(strconv.Itoa(t.S.W))
	b.WriteByte('|')
	if t.U != 0 {
		b.WriteString(strconv.FormatUint(t.U, 36))
	}
	if t.Name != "" {
		b.WriteByte('"')
		b.WriteString(t.Name)
		b.WriteByte('"')
	}
	if t.C != nil {
		b.WriteByte('#')
		b.WriteString(t.C.Text(36))
	}
	for i, a := range t.A {
		b.WriteByte(',')
		b.WriteString(strconv.FormatInt(int64(a.ID), 36))
		if t.K != nil {
			b.WriteByte('*')
			b.WriteString(strconv.FormatUint(t.K[i], 36))
		}
		if t.KB != nil {
			b.WriteByte('*')
			b.WriteString(t.KB[i].Text(36))
		}
	}
	k := b.String()
	if o, ok := c.tab[k]; ok {
		return o
	}
	c.next++
	t.ID = c.next
	c.tab[k] = t
	c.Terms = append(c.Terms, t)
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (t *T) IsConst() bool { return t.Op == OConst }
func (t *T) IsTrue() bool  { return t.Op == OConst && t.S.K == Bool && t.U == 1 }
func (t *T) IsFalse() bool { return t.Op == OConst && t.S.K == Bool && t.U == 0 }
func (t *T) W() int        { return t.S.W }

// Signed returns the signed value of a bit-vector constant.
func (t *T) Signed() int64 {
	w := t.S.W
	if w == 64 {
		return int64(t.U)
	}
	if t.U>>(uint(w)-1)&1 == 1 {
		return int64(t.U | ^mask(w))
	}
	return int64(t.U)
}

func (c *Ctx) BVc(w int, v uint64) *T { return c.mk(&T{Op: OConst, S: BVS(w), U: v & mask(w)}) }
func (c *Ctx) BoolC(b bool) *T {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) IntC(v *big.Int) *T      { return c.mk(&T{Op: OConst, S: IntS, C: new(big.Int).Set(v)}) }
func (c *Ctx) IntI(v int64) *T         { return c.IntC(big.NewInt(v)) }
func (c *Ctx) Var(n string, s Sort) *T { return c.mk(&T{Op: OVar, S: s, Name: n}) }
func (c *Ctx) Fresh(n string, s Sort) *T {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", n, c.fresh), s)
}
func (c *Ctx) FreshName(n string) string {
	c.fresh++
	return fmt.Sprintf("%s!%d", n, c.fresh)
}

// App is an uninterpreted function application; the name must determine the signature.
func (c *Ctx) App(n string, s Sort, args ...*T) *T {
	if len(args) == 0 {
		return c.Var(n, s)
	}
	return c.mk(&T{Op: OApp, S: s, Name: n, A: args})
}

// ---------------------------------------------------------------- booleans

func (c *Ctx) Not(a *T) *T {
	switch a.Op {
	case OConst:
		return c.BoolC(a.U == 0)
	case ONot:
		return a.A[0]
	}
	return c.mk(&T{Op: ONot, S: BoolS, A: []*T{a}})
}

func (c *Ctx) And(as ...*T) *T {
	set := map[*T]bool{}
	var out []*T
	var add func(t *T) bool
	add = func(t *T) bool {
		if t.IsTrue() || set[t] {
			return true
		}
		if t.IsFalse() {
			return false
		}
		if t.Op == OAnd {
			for _, x := range t.A {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if t.Op == ONot && set[t.A[0]] {
			return false
		}
		if t.Op != ONot && set[c.Not(t)] {
			return false
		}
		set[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.False
		}
	}
	// absorption: x and not(and(x,...)) => not(and(...)); drop implied negated conjunctions
	changed := true
	for changed {
		changed = false
		for i, t := range out {
			if t.Op == ONot && t.A[0].Op == OAnd {
				var rest []*T
				red := false
				dead := false
				for _, x := range t.A[0].A {
					if set[x] {
						red = true
						continue
					}
					if set[c.Not(x)] {
						dead = true // inner conjunction false -> t true
						break
					}
					rest = append(rest, x)
				}
				if dead || red {
					nl := append(append([]*T{}, out[:i]...), out[i+1:]...)
					if !dead {
						nl = append(nl, c.Not(c.And(rest...)))
					}
					return c.And(nl...)
				}
			}
		}
	}
	switch len(out) {
	case 0:
		return c.True
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return c.mk(&T{Op: OAnd, S: BoolS, A: out})
}

func (c *Ctx) Or(as ...*T) *T {
	n := make([]*T, len(as))
	for i, a := range as {
		n[i] = c.Not(a)
	}
	return c.Not(c.And(n...))
}
func (c *Ctx) Implies(a, b *T) *T { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(p, a, b *T) *T {
	if p.IsTrue() {
		return a
	}
	if p.IsFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.S != b.S {
		panic(fmt.Sprintf("ite sorts %v %v: %s / %s", a.S, b.S, a, b))
	}
	if p.Op == ONot {
		return c.Ite(p.A[0], b, a)
	}
	if a.S.K == Bool {
		if a.IsConst() || b.IsConst() || a == p || b == p {
			return c.Or(c.And(p, a), c.And(c.Not(p), b))
		}
	}
	if a.Op == OIte && a.A[0] == p {
		a = a.A[1]
	}
	if b.Op == OIte && b.A[0] == p {
		b = b.A[2]
	}
	if a == b {
		return a
	}
	// ite(p, a, ite(q, a, b)) = ite(p or q, a, b)
	if b.Op == OIte && b.A[1] == a {
		return c.Ite(c.Or(p, b.A[0]), a, b.A[2])
	}
	return c.mk(&T{Op: OIte, S: a.S, A: []*T{p, a, b}})
}

func (c *Ctx) Eq(a, b *T) *T {
	if a == b {
		return c.True
	}
	if a.S != b.S {
		panic(fmt.Sprintf("eq sorts %v %v: %s / %s", a.S, b.S, a, b))
	}
	if a.S.K == Int {
		return c.ieq(a, b)
	}
	if a.IsConst() && b.IsConst() {
		return c.False
	}
	if a.S.K == Bool {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return c.Not(a)
		}
		if a.Op == ONot && b.Op == ONot {
			return c.Eq(a.A[0], b.A[0])
		}
		if c.Not(a) == b {
			return c.False
		}
		if a.Op == ONot {
			return c.Not(c.Eq(a.A[0], b))
		}
		if b.Op == ONot {
			return c.Not(c.Eq(a, b.A[0]))
		}
		if a.ID > b.ID {
			a, b = b, a
		}
		return c.mk(&T{Op: OEq, S: BoolS, A: []*T{a, b}})
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		lo, hi := c.Range(a)
		if b.U < lo || b.U > hi {
			return c.False
		}
		if a.Op == OIte {
			x, y := c.Eq(a.A[1], b), c.Eq(a.A[2], b)
			if x.IsConst() || y.IsConst() {
				return c.Ite(a.A[0], x, y)
			}
		}
		if a.Op == OBXor {
			if a.U != 0 {
				return c.Eq(c.XorN(a.A...), c.BVc(a.W(), a.U^b.U))
			}
		}
		if a.Op == OSext {
			x := a.A[0]
			lowc := c.BVc(x.W(), b.U)
			if c.Sext(a.W(), lowc) == b {
				return c.Eq(x, lowc)
			}
			return c.False
		}
	} else {
		if a.Op == OIte {
			x, y := c.eqQuick(a.A[1], b), c.eqQuick(a.A[2], b)
			if x != nil && y != nil {
				return c.Ite(a.A[0], x, y)
			}
		}
		if b.Op == OIte {
			x, y := c.eqQuick(b.A[1], a), c.eqQuick(b.A[2], a)
			if x != nil && y != nil {
				return c.Ite(b.A[0], x, y)
			}
		}
	}
	// split concatenations at common boundaries
	if a.Op == OConcat || b.Op == OConcat {
		cutset := map[int]bool{}
		pos := func(t *T) {
			p := 0
			if t.Op == OConcat {
				for i := len(t.A) - 1; i >= 0; i-- {
					p += t.A[i].W()
					cutset[p] = true
				}
			}
		}
		if b.IsConst() || a.Op == OConcat && b.Op == OConcat {
			pos(a)
			pos(b)
			delete(cutset, a.W())
			var cuts []int
			for k := range cutset {
				cuts = append(cuts, k)
			}
			sort.Ints(cuts)
			cuts = append(cuts, a.W())
			ok := true
			if !b.IsConst() {
				// only split if boundaries agree (avoid blow-up)
				n1, n2 := len(a.A), len(b.A)
				if len(cuts) > n1+2 || len(cuts) > n2+2 {
					ok = false
				}
			}
			if ok {
				var conj []*T
				lo := 0
				for _, h := range cuts {
					conj = append(conj, c.eqAtom(c.Extract(h-1, lo, a), c.Extract(h-1, lo, b)))
					lo = h
				}
				return c.And(conj...)
			}
		}
	}
	return c.eqAtom(a, b)
}

func (c *Ctx) eqQuick(a, b *T) *T {
	if a == b {
		return c.True
	}
	if a.IsConst() && b.IsConst() {
		return c.False
	}
	return nil
}

func (c *Ctx) eqAtom(a, b *T) *T {
	if a == b {
		return c.True
	}
	if a.IsConst() && b.IsConst() {
		return c.BoolC(a.U == b.U)
	}
	if a.Op == OAdd || b.Op == OAdd {
		d := c.Sub(a, b)
		if d.IsConst() {
			return c.BoolC(d.U == 0)
		}
		l := c.lin(d)
		// canonical: left = coefficients "positive", right = the rest
		w := a.W()
		half := uint64(1) << uint(w-1)
		lt, rt := c.newLin(w), c.newLin(w)
		for _, e := range l.es {
			if e.k < half || e.k == half {
				lt.es = append(lt.es, e)
			} else {
				rt.es = append(rt.es, linE{e.t, (-e.k) & mask(w)})
			}
		}
		rt.k = (-l.k) & mask(w)
		// fix the sign by the smallest-id term being on the left
		flip := false
		if len(lt.es) == 0 {
			flip = true
		} else if len(rt.es) > 0 && rt.es[0].t.ID < lt.es[0].t.ID {
			flip = true
		}
		if flip {
			lt.es, rt.es = rt.es, lt.es
			rt.k = l.k
		}
		a, b = c.fromLin(lt), c.fromLin(rt)
		if a == b {
			return c.True
		}
		if a.IsConst() && b.IsConst() {
			return c.BoolC(a.U == b.U)
		}
		// divide by a common power of two when neither side can wrap around
		if x, y, ok := c.divSides(a, b); ok {
			return c.eqAtom(x, y)
		}
	}
	if b.IsConst() {
		lo, hi := c.Range(a)
		if b.U < lo || b.U > hi {
			return c.False
		}
	}
	if a.IsConst() {
		a, b = b, a
	}
	if !b.IsConst() && a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(&T{Op: OEq, S: BoolS, A: []*T{a, b}})
}

// divSides divides both sides of an equation by the largest power of two dividing all coefficients
// and constants; only when neither side can wrap around.
func (c *Ctx) divSides(a, b *T) (*T, *T, bool) {
	var ks uint64
	for _, t := range []*T{a, b} {
		l := c.lin(t)
		ks |= l.k
		for _, e := range l.es {
			ks |= e.k
		}
	}
	p := ks & -ks
	if p <= 1 {
		return nil, nil, false
	}
	w := a.W()
	var r [2]*T
	for i, t := range []*T{a, b} {
		l := c.lin(t)
		sum := new(big.Int).SetUint64(l.k)
		n := c.newLin(w)
		n.k = l.k / p
		for _, e := range l.es {
			_, h := c.Range(e.t)
			x := new(big.Int).SetUint64(h)
			sum.Add(sum, x.Mul(x, new(big.Int).SetUint64(e.k)))
			n.es = append(n.es, linE{e.t, e.k / p})
		}
		if sum.BitLen() > w {
			return nil, nil, false
		}
		r[i] = c.fromLin(n)
	}
	return r[0], r[1], true
}

func (c *Ctx) Neq(a, b *T) *T { return c.Not(c.Eq(a, b)) }

// ---------------------------------------------------------------- bit-vectors

type linE struct {
	t *T
	k uint64
}
type lin struct {
	w  int
	es []linE
	k  uint64
}

func (c *Ctx) newLin(w int) *lin { return &lin{w: w} }

func (c *Ctx) lin(t *T) *lin {
	l := &lin{w: t.W()}
	switch {
	case t.IsConst():
		l.k = t.U
	case t.Op == OAdd:
		l.k = t.U
		for i, a := range t.A {
			l.es = append(l.es, linE{a, t.K[i]})
		}
	default:
		l.es = []linE{{t, 1}}
	}
	return l
}

func (c *Ctx) addLin(a, b *lin, kb uint64) *lin {
	w := a.w
	m := mask(w)
	r := &lin{w: w, k: (a.k + kb*b.k) & m}
	i, j := 0, 0
	for i < len(a.es) || j < len(b.es) {
		switch {
		case j >= len(b.es) || i < len(a.es) && a.es[i].t.ID < b.es[j].t.ID:
			r.es = append(r.es, a.es[i])
			i++
		case i >= len(a.es) || b.es[j].t.ID < a.es[i].t.ID:
			if k := (kb * b.es[j].k) & m; k != 0 {
				r.es = append(r.es, linE{b.es[j].t, k})
			}
			j++
		default:
			if k := (a.es[i].k + kb*b.es[j].k) & m; k != 0 {
				r.es = append(r.es, linE{a.es[i].t, k})
			}
			i++
			j++
		}
	}
	return r
}

func (c *Ctx) fromLin(l *lin) *T {
	if len(l.es) == 0 {
		return c.BVc(l.w, l.k)
	}
	if len(l.es) == 1 && l.es[0].k == 1 && l.k == 0 {
		return l.es[0].t
	}
	t := &T{Op: OAdd, S: BVS(l.w), U: l.k & mask(l.w)}
	for _, e := range l.es {
		t.A = append(t.A, e.t)
		t.K = append(t.K, e.k)
	}
	return c.mk(t)
}

func (c *Ctx) Add(a, b *T) *T {
	if a.S != b.S {
		panic(fmt.Sprintf("add sorts %v %v", a.S, b.S))
	}
	// disjoint concatenation: treat as or
	if !a.IsConst() && !b.IsConst() {
		if r := c.disjointCombine(a, b); r != nil {
			return r
		}
	}
	return c.fromLin(c.addLin(c.lin(a), c.lin(b), 1))
}
func (c *Ctx) Sub(a, b *T) *T {
	return c.fromLin(c.addLin(c.lin(a), c.lin(b), mask(a.W())))
}
func (c *Ctx) Neg(a *T) *T { return c.Sub(c.BVc(a.W(), 0), a) }
func (c *Ctx) MulK(a *T, k uint64) *T {
	return c.fromLin(c.addLin(&lin{w: a.W()}, c.lin(a), k&mask(a.W())))
}
func (c *Ctx) Mul(a, b *T) *T {
	if a.IsConst() {
		return c.MulK(b, a.U)
	}
	if b.IsConst() {
		return c.MulK(a, b.U)
	}
	// x * (y udiv x) = y - (y urem x), for every x and y
	if a.Op == OUDiv && a.A[1] == b {
		return c.Sub(a.A[0], c.URem(a.A[0], b))
	}
	if b.Op == OUDiv && b.A[1] == a {
		return c.Sub(b.A[0], c.URem(b.A[0], a))
	}
	dist := func(s, x *T) *T {
		if s.Op != OAdd {
			return nil
		}
		for _, y := range s.A {
			if y.Op == OUDiv && y.A[1] == x {
				r := c.MulK(x, s.U)
				for i, z := range s.A {
					r = c.Add(r, c.MulK(c.Mul(z, x), s.K[i]))
				}
				return r
			}
		}
		return nil
	}
	if r := dist(a, b); r != nil {
		return r
	}
	if r := dist(b, a); r != nil {
		return r
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(&T{Op: OMul, S: a.S, A: []*T{a, b}})
}

func (c *Ctx) Not1(a *T) *T { return c.Xor(a, c.BVc(a.W(), mask(a.W()))) }

func (c *Ctx) Concat(as ...*T) *T {
	var out []*T
	for _, a := range as {
		if a.W() == 0 {
			continue
		}
		if a.Op == OConcat {
			out = append(out, a.A...)
		} else {
			out = append(out, a)
		}
	}
	// merge
	var m []*T
	for _, a := range out {
		if len(m) > 0 {
			p := m[len(m)-1]
			if p.IsConst() && a.IsConst() && p.W()+a.W() <= 64 {
				m[len(m)-1] = c.BVc(p.W()+a.W(), p.U<<uint(a.W())|a.U)
				continue
			}
			pb, ph, pl := c.exParts(p)
			ab, ah, al := c.exParts(a)
			if pb == ab && pl == ah+1 && !(p.IsConst() || a.IsConst()) {
				if pb.Op != OConcat {
					m[len(m)-1] = c.extractRaw(ph, al, pb)
					continue
				}
			}
		}
		m = append(m, a)
	}
	if len(m) == 1 {
		return m[0]
	}
	w := 0
	for _, a := range m {
		w += a.W()
	}
	if w > 64 {
		panic("concat too wide")
	}
	if len(m) == 2 && m[0].IsConst() && m[0].U == 0 && m[1].Op == OExtract && m[1].U&255 == 0 && m[1].A[0].W() == w {
		if _, hi := c.Range(m[1].A[0]); hi>>uint(m[1].W()) == 0 {
			return m[1].A[0]
		}
	}
	if len(m) == 2 && m[0].IsConst() && m[0].U == 0 && m[1].Op == OAdd {
		if r := c.widenSum(w, m[1]); r != nil {
			return r
		}
	}
	if w == 64 && len(m) == 2 && m[1].IsConst() && m[1].U == 0 && m[0].Op == OExtract && m[0].U&255 == 0 && m[0].A[0].W() == w && c.shlMul(m[0].A[0]) {
		return c.MulK(m[0].A[0], uint64(1)<<uint(m[1].W()))
	}
	return c.mk(&T{Op: OConcat, S: BVS(w), A: m})
}

// widenSum: the zero extension of a sum of truncations of bounded values, when nothing wraps around, is the
// sum of the values.
func (c *Ctx) widenSum(w int, a *T) *T {
	n := a.W()
	half := uint64(1) << uint(n-1)
	sg := func(k uint64) int64 {
		if k >= half {
			return int64(k | ^mask(n))
		}
		return int64(k)
	}
	var lo, hi big.Int
	lo.SetInt64(sg(a.U))
	hi.Set(&lo)
	ws := make([]*T, len(a.A))
	for i, x := range a.A {
		switch {
		case x.Op == OExtract && x.U&255 == 0 && x.A[0].W() == w:
			ws[i] = x.A[0]
		case x.Op == OConcat && x.A[0].IsConst() && x.A[0].U == 0:
			ws[i] = c.Concat(c.BVc(w-n, 0), x)
		default:
			return nil
		}
		l, h := c.Range(ws[i])
		if h > mask(n) {
			return nil
		}
		k := big.NewInt(sg(a.K[i]))
		p, q := new(big.Int).SetUint64(l), new(big.Int).SetUint64(h)
		p.Mul(p, k)
		q.Mul(q, k)
		if k.Sign() < 0 {
			p, q = q, p
		}
		lo.Add(&lo, p)
		hi.Add(&hi, q)
	}
	if lo.Sign() < 0 || hi.Cmp(new(big.Int).SetUint64(mask(n))) > 0 {
		return nil
	}
	r := c.BVc(w, uint64(sg(a.U)))
	for i := range a.A {
		r = c.fromLin(c.addLin(c.lin(r), c.lin(ws[i]), uint64(sg(a.K[i]))&mask(w)))
	}
	return r
}

func (c *Ctx) exParts(t *T) (*T, int, int) {
	if t.Op == OExtract {
		return t.A[0], int(t.U >> 8), int(t.U & 255)
	}
	return t, t.W() - 1, 0
}

func (c *Ctx) extractRaw(hi, lo int, a *T) *T {
	if lo == 0 && hi == a.W()-1 {
		return a
	}
	return c.mk(&T{Op: OExtract, S: BVS(hi - lo + 1), A: []*T{a}, U: uint64(hi)<<8 | uint64(lo)})
}

func (c *Ctx) Extract(hi, lo int, a *T) *T {
	if lo == 0 && hi == a.W()-1 {
		return a
	}
	if hi < lo || hi >= a.W() {
		panic("bad extract")
	}
	w := hi - lo + 1
	switch a.Op {
	case OConst:
		return c.BVc(w, a.U>>uint(lo))
	case OExtract:
		l := int(a.U & 255)
		return c.Extract(hi+l, lo+l, a.A[0])
	}
	key := exKey{a, uint8(hi), uint8(lo)}
	if r, ok := c.exMemo[key]; ok {
		return r
	}
	r := c.extract(hi, lo, a)
	if a.Op != OAdd && a.Op != OVar && a.Op != OApp { // results that depend on bounds set later are not kept
		c.exMemo[key] = r
	}
	return r
}

type exKey struct {
	t      *T
	hi, lo uint8
}

func (c *Ctx) extract(hi, lo int, a *T) *T {
	w := hi - lo + 1
	switch a.Op {
	case OConcat:
		var parts []*T
		p := a.W()
		for _, x := range a.A {
			xl := p - x.W()
			xh := p - 1
			p = xl
			if xl > hi || xh < lo {
				continue
			}
			h, l := xh, xl
			if h > hi {
				h = hi
			}
			if l < lo {
				l = lo
			}
			parts = append(parts, c.Extract(h-xl, l-xl, x))
		}
		return c.Concat(parts...)
	case OSext:
		x := a.A[0]
		if hi < x.W() {
			return c.Extract(hi, lo, x)
		}
		if lo == 0 {
			return c.Sext(w, x)
		}
	case OAdd:
		if lo == 0 {
			r := c.BVc(w, a.U)
			for i, x := range a.A {
				r = c.fromLin(c.addLin(c.lin(r), c.lin(c.Extract(hi, 0, x)), a.K[i]&mask(w)))
			}
			return r
		}
		// all coefficients are multiples of 2^lo: shift out (the low part of the constant never carries)
		if lo > 0 {
			ok := true
			for _, k := range a.K {
				if k&mask(lo) != 0 {
					ok = false
				}
			}
			if ok {
				r := c.BVc(w, a.U>>uint(lo))
				for i, x := range a.A {
					xx := c.Extract(w-1, 0, x)
					if w > x.W() {
						ok = false
						break
					}
					r = c.fromLin(c.addLin(c.lin(r), c.lin(xx), (a.K[i]>>uint(lo))&mask(w)))
				}
				if ok {
					return r
				}
			}
		}
		// high part (multiples of 2^lo) plus a low part that stays below 2^lo: the low part shifts out
		if lo > 0 && lo < 64 && len(a.A) > 1 {
			max := a.U & mask(lo)
			ok, some := true, a.U>>uint(lo) != 0
			var hs []int
			for i, k := range a.K {
				if k&mask(lo) == 0 {
					hs = append(hs, i)
					some = true
					continue
				}
				_, h := c.Range(a.A[i])
				if bits.Len64(k)+bits.Len64(h) > 63 {
					ok = false
					break
				}
				max += k * h
				if max > mask(lo) {
					ok = false
					break
				}
			}
			if ok && some && len(hs) < len(a.A) {
				r := c.BVc(w, a.U>>uint(lo))
				for _, i := range hs {
					r = c.fromLin(c.addLin(c.lin(r), c.lin(c.Extract(w-1, 0, a.A[i])), (a.K[i]>>uint(lo))&mask(w)))
				}
				return r
			}
		}
		if l, h := c.Range(a); h < uint64(1)<<uint(lo) && lo < 64 {
			_ = l
			return c.BVc(w, 0)
		}
	case OMul:
		if lo == 0 {
			return c.Mul(c.Extract(hi, 0, a.A[0]), c.Extract(hi, 0, a.A[1]))
		}
	case OBXor:
		n := make([]*T, len(a.A))
		for i, x := range a.A {
			n[i] = c.Extract(hi, lo, x)
		}
		return c.Xor(c.XorN(n...), c.BVc(w, a.U>>uint(lo)))
	case OBAnd:
		r := c.Extract(hi, lo, a.A[0])
		for _, x := range a.A[1:] {
			r = c.BAnd(r, c.Extract(hi, lo, x))
		}
		return r
	case OBOr:
		r := c.Extract(hi, lo, a.A[0])
		for _, x := range a.A[1:] {
			r = c.BOr(r, c.Extract(hi, lo, x))
		}
		return r
	case OIte:
		if a.A[1].IsConst() || a.A[2].IsConst() {
			return c.Ite(a.A[0], c.Extract(hi, lo, a.A[1]), c.Extract(hi, lo, a.A[2]))
		}
	}
	if lo < 64 {
		if _, h := c.Range(a); lo > 0 && h < uint64(1)<<uint(lo) {
			return c.BVc(w, 0)
		}
	}
	return c.extractRaw(hi, lo, a)
}

func (c *Ctx) Zext(w int, a *T) *T {
	if w == a.W() {
		return a
	}
	return c.Concat(c.BVc(w-a.W(), 0), a)
}

func (c *Ctx) Sext(w int, a *T) *T {
	if w == a.W() {
		return a
	}
	if a.IsConst() {
		return c.BVc(w, uint64(a.Signed()))
	}
	if a.Op == OConcat && a.A[0].IsConst() && a.A[0].U>>(uint(a.A[0].W())-1) == 0 {
		return c.Zext(w, a)
	}
	if a.Op == OSext {
		return c.Sext(w, a.A[0])
	}
	if _, hi := c.Range(a); hi < uint64(1)<<uint(a.W()-1) {
		// top bit known zero
		return c.Concat(c.BVc(w-a.W(), 0), a)
	}
	return c.mk(&T{Op: OSext, S: BVS(w), A: []*T{a}})
}

// zero-bit aware segmentation: list of pieces high to low.
func segs(t *T) []*T {
	if t.Op == OConcat {
		return t.A
	}
	return []*T{t}
}

// zeros is the set of bits evidently zero.
func (c *Ctx) zeros(t *T) uint64 {
	if t.IsConst() {
		return ^t.U & mask(t.W())
	}
	if t.Op != OConcat {
		return 0
	}
	var z uint64
	for _, s := range t.A {
		z <<= uint(s.W())
		if s.IsConst() {
			z |= ^s.U & mask(s.W())
		}
	}
	return z
}

// disjointCombine returns the concatenation equal to a|b (= a^b = a+b) when no
// bit position can be set in both; nil when not evident.
func (c *Ctx) disjointCombine(a, b *T) *T {
	if a.Op != OConcat && b.Op != OConcat {
		return nil
	}
	if a.IsConst() && a.U == 0 {
		return b
	}
	if b.IsConst() && b.U == 0 {
		return a
	}
	w := a.W()
	if c.zeros(a)|c.zeros(b) != mask(w) {
		return nil
	}
	cuts := map[int]bool{w: true}
	add := func(t *T) {
		p := 0
		s := segs(t)
		for i := len(s) - 1; i >= 0; i-- {
			p += s[i].W()
			cuts[p] = true
		}
		if t.IsConst() { // cut constants at bit runs
			for i := 1; i < w; i++ {
				if (t.U>>uint(i))&1 != (t.U>>uint(i-1))&1 {
					cuts[i] = true
				}
			}
		}
	}
	add(a)
	add(b)
	var cs []int
	for k := range cuts {
		cs = append(cs, k)
	}
	sort.Ints(cs)
	if len(cs) > 24 {
		return nil
	}
	parts := make([]*T, len(cs))
	lo := 0
	for i, h := range cs {
		x, y := c.Extract(h-1, lo, a), c.Extract(h-1, lo, b)
		switch {
		case x.IsConst() && x.U == 0:
			parts[len(cs)-1-i] = y
		case y.IsConst() && y.U == 0:
			parts[len(cs)-1-i] = x
		default:
			return nil
		}
		lo = h
	}
	return c.Concat(parts...)
}

func (c *Ctx) Xor(a, b *T) *T { return c.XorN(a, b) }

func (c *Ctx) XorN(as ...*T) *T {
	if len(as) == 0 {
		panic("xor of nothing")
	}
	w := as[0].W()
	cnt := map[*T]int{}
	var k uint64
	var order []*T
	add := func(t *T) {
		if cnt[t] == 0 {
			order = append(order, t)
		}
		cnt[t]++
	}
	for _, a := range as {
		switch a.Op {
		case OConst:
			k ^= a.U
		case OBXor:
			k ^= a.U
			for _, x := range a.A {
				add(x)
			}
		default:
			add(a)
		}
	}
	var out []*T
	for _, t := range order {
		if cnt[t]%2 == 1 {
			out = append(out, t)
		}
	}
	if len(out) == 0 {
		return c.BVc(w, k)
	}
	if len(out) == 1 && k == 0 {
		return out[0]
	}
	// try to combine disjoint pairs
	for i := 0; i < len(out); i++ {
		for j := i + 1; j < len(out); j++ {
			if r := c.disjointCombine(out[i], out[j]); r != nil {
				n := append([]*T{r}, out[:i]...)
				n = append(n, out[i+1:j]...)
				n = append(n, out[j+1:]...)
				n = append(n, c.BVc(w, k))
				return c.XorN(n...)
			}
		}
	}
	if len(out) == 1 && k != 0 && out[0].Op == OConcat {
		// distribute the constant over the segments
		var parts []*T
		p := w
		for _, s := range out[0].A {
			p -= s.W()
			kk := c.BVc(s.W(), k>>uint(p))
			if s.IsConst() {
				parts = append(parts, c.BVc(s.W(), s.U^kk.U))
			} else if kk.U == 0 {
				parts = append(parts, s)
			} else {
				parts = append(parts, c.XorN(s, kk))
			}
		}
		return c.Concat(parts...)
	}
	// xor of concatenations with identical segment boundaries: distribute (keeps
	// byte-wise xors canonical)
	if out[0].Op == OConcat && len(out) > 1 {
		same := true
		for _, t := range out[1:] {
			if t.Op != OConcat || len(t.A) != len(out[0].A) {
				same = false
				break
			}
			for i := range t.A {
				if t.A[i].W() != out[0].A[i].W() {
					same = false
				}
			}
		}
		if same {
			hasConst := false
			for _, t := range out {
				for _, s := range t.A {
					if s.IsConst() {
						hasConst = true
					}
				}
			}
			if hasConst || true {
				parts := make([]*T, len(out[0].A))
				p := w
				for i := range parts {
					p -= out[0].A[i].W()
					xs := []*T{c.BVc(out[0].A[i].W(), k>>uint(p))}
					for _, t := range out {
						xs = append(xs, t.A[i])
					}
					parts[i] = c.XorN(xs...)
				}
				return c.Concat(parts...)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return c.mk(&T{Op: OBXor, S: BVS(w), A: out, U: k})
}

func (c *Ctx) acFlat(op Op, as []*T) []*T {
	set := map[*T]bool{}
	var out []*T
	var add func(t *T)
	add = func(t *T) {
		if t.Op == op {
			for _, x := range t.A {
				add(x)
			}
			return
		}
		if !set[t] {
			set[t] = true
			out = append(out, t)
		}
	}
	for _, a := range as {
		add(a)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

func runs(u uint64, w int) int {
	n := 1
	for i := 1; i < w; i++ {
		if (u>>uint(i))&1 != (u>>uint(i-1))&1 {
			n++
		}
	}
	return n
}

func (c *Ctx) BAnd(a, b *T) *T {
	w := a.W()
	if a == b {
		return a
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if a.IsConst() {
			return c.BVc(w, a.U&b.U)
		}
		if b.U == 0 {
			return b
		}
		if b.U == mask(w) {
			return a
		}
		if runs(b.U, w) <= 8 {
			var parts []*T
			hi := w - 1
			for hi >= 0 {
				bit := (b.U >> uint(hi)) & 1
				lo := hi
				for lo > 0 && (b.U>>uint(lo-1))&1 == bit {
					lo--
				}
				if bit == 1 {
					parts = append(parts, c.Extract(hi, lo, a))
				} else {
					parts = append(parts, c.BVc(hi-lo+1, 0))
				}
				hi = lo - 1
			}
			return c.Concat(parts...)
		}
	}
	if c.Not1(a) == b {
		return c.BVc(w, 0)
	}
	if r := c.segwise(a, b, c.BAnd); r != nil {
		return r
	}
	out := c.acFlat(OBAnd, []*T{a, b})
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&T{Op: OBAnd, S: a.S, A: out})
}

func (c *Ctx) segwise(a, b *T, f func(a, b *T) *T) *T {
	if a.Op != OConcat || (b.Op != OConcat) {
		return nil
	}
	if len(a.A) != len(b.A) {
		return nil
	}
	for i := range a.A {
		if a.A[i].W() != b.A[i].W() {
			return nil
		}
	}
	parts := make([]*T, len(a.A))
	for i := range parts {
		parts[i] = f(a.A[i], b.A[i])
	}
	return c.Concat(parts...)
}

func (c *Ctx) BOr(a, b *T) *T {
	w := a.W()
	if a == b {
		return a
	}
	if a.IsConst() && b.IsConst() {
		return c.BVc(w, a.U|b.U)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.U == 0 {
			return a
		}
		if b.U == mask(w) {
			return b
		}
	}
	if r := c.disjointCombine(a, b); r != nil {
		return r
	}
	if b.IsConst() && runs(b.U, w) <= 8 {
		var parts []*T
		hi := w - 1
		for hi >= 0 {
			bit := (b.U >> uint(hi)) & 1
			lo := hi
			for lo > 0 && (b.U>>uint(lo-1))&1 == bit {
				lo--
			}
			if bit == 0 {
				parts = append(parts, c.Extract(hi, lo, a))
			} else {
				parts = append(parts, c.BVc(hi-lo+1, mask(hi-lo+1)))
			}
			hi = lo - 1
		}
		return c.Concat(parts...)
	}
	if r := c.segwise(a, b, c.BOr); r != nil {
		return r
	}
	out := c.acFlat(OBOr, []*T{a, b})
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&T{Op: OBOr, S: a.S, A: out})
}

// ShlK shifts by a constant.
func (c *Ctx) ShlK(a *T, k int) *T {
	w := a.W()
	if k == 0 {
		return a
	}
	if k >= w {
		return c.BVc(w, 0)
	}
	if a.IsConst() {
		return c.BVc(w, a.U<<uint(k))
	}
	if c.shlMul(a) {
		return c.MulK(a, uint64(1)<<uint(k))
	}
	return c.Concat(c.Extract(w-1-k, 0, a), c.BVc(k, 0))
}

// shlMul: left shifts of a are written as multiplications.
func (c *Ctx) shlMul(a *T) bool {
	_, hi := c.Range(a)
	return a.W() == 64 && a.Op != OConcat && !(bits.Len64(hi) <= 32) || a.Op == OAdd
}

func (c *Ctx) LshrK(a *T, k int) *T {
	w := a.W()
	if k == 0 {
		return a
	}
	if k >= w {
		return c.BVc(w, 0)
	}
	return c.Concat(c.BVc(k, 0), c.Extract(w-1, k, a))
}

func (c *Ctx) AshrK(a *T, k int) *T {
	w := a.W()
	if k == 0 {
		return a
	}
	if k >= w {
		k = w - 1
	}
	if _, hi := c.Range(a); hi < uint64(1)<<uint(w-1) {
		return c.LshrK(a, k)
	}
	return c.Sext(w, c.Extract(w-1, k, a))
}

// Shl etc. with a shift amount of the same width; amounts >= width give 0 (or sign).
func (c *Ctx) Shl(a, n *T) *T {
	if n.IsConst() {
		if n.U >= uint64(a.W()) {
			return c.BVc(a.W(), 0)
		}
		return c.ShlK(a, int(n.U))
	}
	return c.mk(&T{Op: OShl, S: a.S, A: []*T{a, n}})
}
func (c *Ctx) Lshr(a, n *T) *T {
	if n.IsConst() {
		if n.U >= uint64(a.W()) {
			return c.BVc(a.W(), 0)
		}
		return c.LshrK(a, int(n.U))
	}
	return c.mk(&T{Op: OLshr, S: a.S, A: []*T{a, n}})
}
func (c *Ctx) Ashr(a, n *T) *T {
	if n.IsConst() {
		k := a.W() - 1
		if n.U < uint64(k) {
			k = int(n.U)
		}
		return c.AshrK(a, k)
	}
	return c.mk(&T{Op: OAshr, S: a.S, A: []*T{a, n}})
}

func (c *Ctx) UDiv(a, b *T) *T {
	if b.IsConst() && b.U != 0 {
		if a.IsConst() {
			return c.BVc(a.W(), a.U/b.U)
		}
		if b.U&(b.U-1) == 0 {
			return c.LshrK(a, bits.TrailingZeros64(b.U))
		}
	}
	return c.mk(&T{Op: OUDiv, S: a.S, A: []*T{a, b}})
}
func (c *Ctx) URem(a, b *T) *T {
	if b.IsConst() && b.U != 0 {
		if a.IsConst() {
			return c.BVc(a.W(), a.U%b.U)
		}
		if b.U&(b.U-1) == 0 {
			return c.BAnd(a, c.BVc(a.W(), b.U-1))
		}
	}
	return c.mk(&T{Op: OURem, S: a.S, A: []*T{a, b}})
}

// linZ reads t as a linear expression over the integers: exact when t is a sum that does not wrap around,
// else t itself is the atom.
func (c *Ctx) linZ(t *T, sign int64, signed bool, m map[*T]int64, k *int64) bool {
	const lim = int64(1) << 56
	add := func(x *T, v int64) bool {
		m[x] += v
		return v < lim && v > -lim && m[x] < lim && m[x] > -lim
	}
	if t.IsConst() {
		v := int64(t.U)
		if signed {
			v = t.Signed()
		} else if t.U >= uint64(lim) {
			return false
		}
		if v >= lim || v <= -lim {
			return false
		}
		*k += sign * v
		return true
	}
	if t.Op != OAdd {
		// a bare atom of a signed comparison must be read the same way signed and unsigned
		return (!signed || c.topZero(t)) && add(t, sign)
	}
	w := t.W()
	half := uint64(1) << uint(w-1)
	sg := func(k uint64) int64 {
		if k >= half {
			return int64(k | ^mask(w))
		}
		return int64(k)
	}
	var l, h big.Int
	l.SetInt64(sg(t.U))
	h.Set(&l)
	for i, a := range t.A {
		al, ah := c.Range(a)
		kk := big.NewInt(sg(t.K[i]))
		x, y := new(big.Int).SetUint64(al), new(big.Int).SetUint64(ah)
		x.Mul(x, kk)
		y.Mul(y, kk)
		if kk.Sign() < 0 {
			x, y = y, x
		}
		l.Add(&l, x)
		h.Add(&h, y)
	}
	min, max := new(big.Int), new(big.Int).SetUint64(mask(w))
	if signed {
		max.SetUint64(half - 1)
		min.Sub(min, new(big.Int).SetUint64(half))
		// the summands' unsigned values are the ones added
	}
	if l.Cmp(min) < 0 || h.Cmp(max) > 0 {
		return (!signed || c.topZero(t)) && add(t, sign)
	}
	if v := sg(t.U); v >= lim || v <= -lim {
		return false
	}
	*k += sign * sg(t.U)
	for i, a := range t.A {
		if v := sg(t.K[i]); v >= lim || v <= -lim || !add(a, sign*v) {
			return false
		}
	}
	return true
}

// cmpLin: -1 when a < b always, 1 when a >= b always, 0 when not evident.
func (c *Ctx) cmpLin(a, b *T, signed bool) int {
	m := map[*T]int64{}
	var k int64
	if !c.linZ(a, 1, signed, m, &k) || !c.linZ(b, -1, signed, m, &k) {
		return 0
	}
	l, h := big.NewInt(k), big.NewInt(k)
	for x, v := range m {
		if v == 0 {
			continue
		}
		al, ah := c.Range(x)
		p, q := new(big.Int).SetUint64(al), new(big.Int).SetUint64(ah)
		p.Mul(p, big.NewInt(v))
		q.Mul(q, big.NewInt(v))
		if v < 0 {
			p, q = q, p
		}
		l.Add(l, p)
		h.Add(h, q)
	}
	if h.Sign() < 0 {
		return -1
	}
	if l.Sign() >= 0 {
		return 1
	}
	return 0
}

func (c *Ctx) topZero(a *T) bool {
	_, hi := c.Range(a)
	return hi < uint64(1)<<uint(a.W()-1)
}
func (c *Ctx) SDiv(a, b *T) *T {
	if c.topZero(a) && c.topZero(b) {
		return c.UDiv(a, b)
	}
	if a.IsConst() && b.IsConst() && b.U != 0 {
		x, y := a.Signed(), b.Signed()
		if y == -1 {
			return c.Neg(a)
		}
		return c.BVc(a.W(), uint64(x/y))
	}
	return c.mk(&T{Op: OSDiv, S: a.S, A: []*T{a, b}})
}
func (c *Ctx) SRem(a, b *T) *T {
	if c.topZero(a) && c.topZero(b) {
		return c.URem(a, b)
	}
	if a.IsConst() && b.IsConst() && b.U != 0 {
		x, y := a.Signed(), b.Signed()
		if y == -1 {
			return c.BVc(a.W(), 0)
		}
		return c.BVc(a.W(), uint64(x%y))
	}
	return c.mk(&T{Op: OSRem, S: a.S, A: []*T{a, b}})
}

// Range gives sound unsigned bounds.
func (c *Ctx) Range(t *T) (uint64, uint64) {
	if b, ok := c.Bound[t]; ok {
		return b[0], b[1]
	}
	if t.rng == c.BoundEpoch+1 {
		return t.lo, t.hi
	}
	m := mask(t.W())
	lo, hi := uint64(0), m
	switch t.Op {
	case OConst:
		return t.U, t.U
	case OAdd:
		// only when no wrap-around is possible, treating coefficients as signed
		w := t.W()
		half := uint64(1) << uint(w-1)
		var l, h big.Int
		l.SetUint64(t.U)
		if t.U >= half {
			l.Sub(&l, new(big.Int).Lsh(big.NewInt(1), uint(w)))
		}
		h.Set(&l)
		ok := true
		for i, a := range t.A {
			al, ah := c.Range(a)
			k := new(big.Int).SetUint64(t.K[i])
			neg := t.K[i] >= half
			if neg {
				k.Sub(k, new(big.Int).Lsh(big.NewInt(1), uint(w)))
			}
			x, y := new(big.Int).SetUint64(al), new(big.Int).SetUint64(ah)
			x.Mul(x, k)
			y.Mul(y, k)
			if neg {
				x, y = y, x
			}
			l.Add(&l, x)
			h.Add(&h, y)
		}
		mm := new(big.Int).SetUint64(m)
		if l.Sign() < 0 || h.Cmp(mm) > 0 {
			ok = false
		}
		if ok {
			lo, hi = l.Uint64(), h.Uint64()
		}
	case OConcat:
		lo, hi = 0, 0
		for _, a := range t.A {
			al, ah := c.Range(a)
			lo = lo<<uint(a.W()) | al
			hi = hi<<uint(a.W()) | ah
		}
	case OExtract:
		if t.U&255 == 0 {
			_, h := c.Range(t.A[0])
			if h <= m {
				l, _ := c.Range(t.A[0])
				lo, hi = l, h
			}
		} else {
			l, h := c.Range(t.A[0])
			s := uint(t.U & 255)
			if h>>s <= m {
				lo, hi = l>>s, h>>s
			}
		}
	case OIte:
		l1, h1 := c.Range(t.A[1])
		l2, h2 := c.Range(t.A[2])
		lo, hi = l1, h1
		if l2 < lo {
			lo = l2
		}
		if h2 > hi {
			hi = h2
		}
	case OURem:
		if t.A[1].IsConst() && t.A[1].U > 0 {
			hi = t.A[1].U - 1
		}
		if _, h := c.Range(t.A[0]); h < hi {
			hi = h
		}
	case OUDiv:
		if t.A[1].IsConst() && t.A[1].U > 0 {
			l, h := c.Range(t.A[0])
			lo, hi = l/t.A[1].U, h/t.A[1].U
		}
	case OBAnd:
		for _, a := range t.A {
			if _, h := c.Range(a); h < hi {
				hi = h
			}
		}
	case OMul:
		_, h1 := c.Range(t.A[0])
		_, h2 := c.Range(t.A[1])
		x, y := bits.Mul64(h1, h2)
		if x == 0 && y <= m {
			hi = y
		}
	case OLshr:
		_, hi = c.Range(t.A[0])
	}
	t.lo, t.hi, t.rng = lo, hi, c.BoundEpoch+1
	return lo, hi
}

func (c *Ctx) Ult(a, b *T) *T {
	if a == b {
		return c.False
	}
	al, ah := c.Range(a)
	bl, bh := c.Range(b)
	if ah < bl {
		return c.True
	}
	if al >= bh {
		return c.False
	}
	if a.Op == OAdd || b.Op == OAdd {
		if v := c.cmpLin(a, b, false); v != 0 {
			return c.BoolC(v < 0)
		}
	}
	if b.IsConst() && b.U == 1 {
		return c.Eq(a, c.BVc(a.W(), 0))
	}
	if a.Op == OAdd && b.IsConst() {
		// P*y + u < b with b <= P = 2^p: decided by y == 0 and u < b
		var ks uint64
		for _, k := range a.K {
			ks |= k
		}
		p := ks & -ks
		if p > 1 && b.U <= p {
			u := a.U & (p - 1)
			if u >= b.U {
				return c.False
			}
			return c.Eq(c.Sub(a, c.BVc(a.W(), u)), c.BVc(a.W(), 0))
		}
	}
	if a.IsConst() && a.U == 0 {
		return c.Neq(b, c.BVc(a.W(), 0))
	}
	// strip common leading zero bits
	if a.Op == OConcat && b.Op == OConcat && a.A[0].IsConst() && b.A[0].IsConst() && a.A[0].U == 0 && b.A[0].U == 0 {
		z := a.A[0].W()
		if b.A[0].W() < z {
			z = b.A[0].W()
		}
		return c.Ult(c.Extract(a.W()-1-z, 0, a), c.Extract(b.W()-1-z, 0, b))
	}
	if a.Op == OConcat && b.IsConst() && a.A[0].IsConst() && a.A[0].U == 0 {
		z := a.A[0].W()
		if b.U>>uint(a.W()-z) == 0 {
			return c.Ult(c.Extract(a.W()-1-z, 0, a), c.BVc(a.W()-z, b.U))
		}
		return c.True
	}
	if b.Op == OConcat && a.IsConst() && b.A[0].IsConst() && b.A[0].U == 0 {
		z := b.A[0].W()
		if a.U>>uint(b.W()-z) == 0 {
			return c.Ult(c.BVc(b.W()-z, a.U), c.Extract(b.W()-1-z, 0, b))
		}
		return c.False
	}
	if b.IsConst() && a.Op == OIte && (a.A[1].IsConst() || a.A[2].IsConst()) {
		return c.Ite(a.A[0], c.Ult(a.A[1], b), c.Ult(a.A[2], b))
	}
	if a.IsConst() && b.Op == OIte && (b.A[1].IsConst() || b.A[2].IsConst()) {
		return c.Ite(b.A[0], c.Ult(a, b.A[1]), c.Ult(a, b.A[2]))
	}
	return c.mk(&T{Op: OUlt, S: BoolS, A: []*T{a, b}})
}
func (c *Ctx) Ule(a, b *T) *T { return c.Not(c.Ult(b, a)) }

func (c *Ctx) Slt(a, b *T) *T {
	if a == b {
		return c.False
	}
	if a.IsConst() && b.IsConst() {
		return c.BoolC(a.Signed() < b.Signed())
	}
	if c.topZero(a) && c.topZero(b) {
		return c.Ult(a, b)
	}
	if a.Op == OAdd || b.Op == OAdd {
		if v := c.cmpLin(a, b, true); v != 0 {
			return c.BoolC(v < 0)
		}
	}
	if c.topZero(a) && b.IsConst() { // b negative
		return c.False
	}
	if c.topZero(b) && a.IsConst() { // a negative const
		return c.True
	}
	if a.Op == OIte && b.IsConst() && (a.A[1].IsConst() || a.A[2].IsConst()) {
		return c.Ite(a.A[0], c.Slt(a.A[1], b), c.Slt(a.A[2], b))
	}
	if b.Op == OIte && a.IsConst() && (b.A[1].IsConst() || b.A[2].IsConst()) {
		return c.Ite(b.A[0], c.Slt(a, b.A[1]), c.Slt(a, b.A[2]))
	}
	return c.mk(&T{Op: OSlt, S: BoolS, A: []*T{a, b}})
}
func (c *Ctx) Sle(a, b *T) *T { return c.Not(c.Slt(b, a)) }

// ---------------------------------------------------------------- integers

type poly struct {
	m map[string]*mono
	k *big.Int
}
type mono struct {
	as []*T // sorted atoms
	k  *big.Int
}

func mkey(as []*T) string {
	var b strings.Builder
	for _, a := range as {
		b.WriteString(strconv.Itoa(a.ID))
		b.WriteByte('.')
	}
	return b.String()
}

func (c *Ctx) poly(t *T) *poly {
	p := &poly{m: map[string]*mono{}, k: new(big.Int)}
	switch t.Op {
	case OConst:
		p.k.Set(t.C)
	case OIAdd:
		p.k.Set(t.C)
		for i, a := range t.A {
			p.addMono(atomsOf(a), t.KB[i])
		}
	default:
		p.addMono(atomsOf(t), big.NewInt(1))
	}
	return p
}
func atomsOf(t *T) []*T {
	if t.Op == OIMul {
		return t.A
	}
	return []*T{t}
}
func (p *poly) addMono(as []*T, k *big.Int) {
	key := mkey(as)
	if e, ok := p.m[key]; ok {
		e.k = new(big.Int).Add(e.k, k)
		if e.k.Sign() == 0 {
			delete(p.m, key)
		}
		return
	}
	if k.Sign() != 0 {
		p.m[key] = &mono{as, new(big.Int).Set(k)}
	}
}
func (p *poly) add(q *poly, f *big.Int) {
	p.k.Add(p.k, new(big.Int).Mul(q.k, f))
	for _, e := range q.m {
		p.addMono(e.as, new(big.Int).Mul(e.k, f))
	}
}
func mulAtoms(a, b []*T) []*T {
	r := append(append([]*T{}, a...), b...)
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}
func (p *poly) mul(q *poly) *poly {
	r := &poly{m: map[string]*mono{}, k: new(big.Int).Mul(p.k, q.k)}
	for _, e := range p.m {
		if q.k.Sign() != 0 {
			r.addMono(e.as, new(big.Int).Mul(e.k, q.k))
		}
		for _, f := range q.m {
			r.addMono(mulAtoms(e.as, f.as), new(big.Int).Mul(e.k, f.k))
		}
	}
	for _, f := range q.m {
		if p.k.Sign() != 0 {
			r.addMono(f.as, new(big.Int).Mul(f.k, p.k))
		}
	}
	return r
}
func (p *poly) sorted() []*mono {
	var l []*mono
	for _, e := range p.m {
		l = append(l, e)
	}
	sort.Slice(l, func(i, j int) bool {
		a, b := l[i].as, l[j].as
		if len(a) != len(b) {
			return len(a) > len(b)
		}
		for x := range a {
			if a[x].ID != b[x].ID {
				return a[x].ID < b[x].ID
			}
		}
		return false
	})
	return l
}

func (c *Ctx) fromPoly(p *poly) *T {
	if len(p.m) == 0 {
		return c.IntC(p.k)
	}
	l := p.sorted()
	mt := func(m *mono) *T {
		if len(m.as) == 1 {
			return m.as[0]
		}
		return c.mk(&T{Op: OIMul, S: IntS, A: m.as})
	}
	if len(l) == 1 && p.k.Sign() == 0 && l[0].k.Cmp(big.NewInt(1)) == 0 {
		return mt(l[0])
	}
	t := &T{Op: OIAdd, S: IntS, C: new(big.Int).Set(p.k)}
	for _, m := range l {
		t.A = append(t.A, mt(m))
		t.KB = append(t.KB, m.k)
	}
	return c.mk(t)
}

var one = big.NewInt(1)

func (c *Ctx) IAdd(a, b *T) *T {
	p := c.poly(a)
	p.add(c.poly(b), one)
	return c.fromPoly(p)
}
func (c *Ctx) ISub(a, b *T) *T {
	p := c.poly(a)
	p.add(c.poly(b), big.NewInt(-1))
	return c.fromPoly(p)
}
func (c *Ctx) INeg(a *T) *T    { return c.ISub(c.IntI(0), a) }
func (c *Ctx) IMul(a, b *T) *T { return c.fromPoly(c.poly(a).mul(c.poly(b))) }

// Inv is the modular inverse atom of q modulo m (m > 0): a UF with the rewrite
// inv(q)*q = 1 applied under (mod _ m). Only meaningful where gcd(q,m)=1.
func (c *Ctx) Inv(q, m *T) *T {
	q = c.IMod(q, m)
	t := c.App("modinv", IntS, q, m)
	c.InvOf[t] = [2]*T{q, m}
	return t
}

// IMod is the Euclidean remainder; m must be positive wherever it is used.
func (c *Ctx) IMod(a, m *T) *T {
	if m.IsConst() && m.C.Sign() > 0 && a.IsConst() {
		return c.IntC(new(big.Int).Mod(a.C, m.C))
	}
	p := c.poly(a)
	p = c.stripMod(p, m)
	p = c.applyInv(p, m)
	if m.IsConst() && m.C.Sign() > 0 {
		r := &poly{m: map[string]*mono{}, k: new(big.Int).Mod(p.k, m.C)}
		for _, e := range p.m {
			r.addMono(e.as, new(big.Int).Mod(e.k, m.C))
		}
		p = r
	}
	t := c.fromPoly(p)
	if t.IsConst() && m.IsConst() && m.C.Sign() > 0 {
		return c.IntC(new(big.Int).Mod(t.C, m.C))
	}
	if m.IsConst() && m.C.Sign() > 0 {
		if lo, hi := c.IRange(t); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(m.C) < 0 {
			return t
		}
	}
	return c.mk(&T{Op: OIMod, S: IntS, A: []*T{t, m}})
}

func (c *Ctx) stripMod(p *poly, m *T) *poly {
	for iter := 0; iter < 20; iter++ {
		changed := false
		r := &poly{m: map[string]*mono{}, k: new(big.Int).Set(p.k)}
		for _, e := range p.sorted() {
			idx := -1
			for i, a := range e.as {
				if a.Op == OIMod && a.A[1] == m {
					idx = i
					break
				}
			}
			if idx < 0 {
				r.addMono(e.as, e.k)
				continue
			}
			changed = true
			rest := append(append([]*T{}, e.as[:idx]...), e.as[idx+1:]...)
			q := c.poly(e.as[idx].A[0])
			f := &poly{m: map[string]*mono{}, k: new(big.Int)}
			if len(rest) == 0 {
				f.k.Set(e.k)
			} else {
				f.addMono(rest, e.k)
			}
			r.add(q.mul(f), one)
		}
		p = r
		if !changed {
			break
		}
	}
	return p
}

// applyInv rewrites inv(q)*lt(q) -> lc^-1 (1 - inv(q)*rest(q)) modulo m.
func (c *Ctx) applyInv(p *poly, m *T) *poly {
	for iter := 0; iter < 60; iter++ {
		changed := false
		for _, e := range p.sorted() {
			for i, a := range e.as {
				iv, ok := c.InvOf[a]
				if !ok || iv[1] != m {
					continue
				}
				q := c.stripMod(c.poly(iv[0]), m)
				ms := q.sorted()
				if len(ms) == 0 {
					continue
				}
				lt := ms[0]
				neg := false
				if lt.k.Cmp(one) != 0 {
					if lt.k.Cmp(big.NewInt(-1)) == 0 {
						neg = true
					} else if m.IsConst() && new(big.Int).Add(lt.k, one).Cmp(m.C) == 0 {
						neg = true
					} else {
						continue
					}
				}
				// does e.as \ a contain lt.as ?
				rest := append(append([]*T{}, e.as[:i]...), e.as[i+1:]...)
				rest2, ok := removeAtoms(rest, lt.as)
				if !ok {
					continue
				}
				// e = k * inv * lt * rest2 ; inv*lt*lc = 1 - inv*(q-lc*lt)
				r := &poly{m: map[string]*mono{}, k: new(big.Int).Set(p.k)}
				for _, e2 := range p.m {
					if e2 != e {
						r.addMono(e2.as, e2.k)
					}
				}
				sub := &poly{m: map[string]*mono{}, k: big.NewInt(1)}
				qr := &poly{m: map[string]*mono{}, k: new(big.Int).Set(q.k)}
				for _, x := range ms[1:] {
					qr.addMono(x.as, x.k)
				}
				inv := &poly{m: map[string]*mono{}, k: new(big.Int)}
				inv.addMono([]*T{a}, one)
				sub.add(inv.mul(qr), big.NewInt(-1))
				f := &poly{m: map[string]*mono{}, k: new(big.Int)}
				kk := new(big.Int).Set(e.k)
				if neg {
					kk.Neg(kk)
				}
				if len(rest2) == 0 {
					f.k.Set(kk)
				} else {
					f.addMono(rest2, kk)
				}
				r.add(sub.mul(f), one)
				p = r
				changed = true
				break
			}
			if changed {
				break
			}
		}
		if !changed {
			return p
		}
	}
	return p
}

func removeAtoms(as, sub []*T) ([]*T, bool) {
	r := append([]*T{}, as...)
	for _, s := range sub {
		f := -1
		for i, a := range r {
			if a == s {
				f = i
				break
			}
		}
		if f < 0 {
			return nil, false
		}
		r = append(r[:f], r[f+1:]...)
	}
	return r, true
}

// IDiv is floor division by a positive divisor.
func (c *Ctx) IDiv(a, m *T) *T {
	if m.IsConst() && m.C.Sign() > 0 && a.IsConst() {
		q := new(big.Int)
		q.Div(a.C, m.C)
		return c.IntC(q)
	}
	if m.IsConst() && m.C.Cmp(one) == 0 {
		return a
	}
	return c.mk(&T{Op: OIDiv, S: IntS, A: []*T{a, m}})
}

func (c *Ctx) ieq(a, b *T) *T {
	if a.Op == OIte && (a.A[1].IsConst() || a.A[2].IsConst()) && b.IsConst() {
		return c.Ite(a.A[0], c.Eq(a.A[1], b), c.Eq(a.A[2], b))
	}
	if b.Op == OIte && (b.A[1].IsConst() || b.A[2].IsConst()) && a.IsConst() {
		return c.Ite(b.A[0], c.Eq(b.A[1], a), c.Eq(b.A[2], a))
	}
	d := c.ISub(a, b)
	if s := c.stripUnit(d); s != d {
		d = s
	}
	if d.IsConst() {
		return c.BoolC(d.C.Sign() == 0)
	}
	if lo, hi := c.IRange(d); lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
		return c.False
	}
	if d.Op == OIAdd && d.KB[0].Sign() < 0 {
		d = c.INeg(d)
	}
	return c.mk(&T{Op: OIEq0, S: BoolS, A: []*T{d}})
}

// stripUnit: a remainder modulo m all of whose terms contain the same inverse modulo m is zero exactly
// when the remainder without that (invertible) factor is zero.
func (c *Ctx) stripUnit(d *T) *T {
	for iter := 0; iter < 8; iter++ {
		t := d
		if t.Op == OIAdd && len(t.A) == 1 && t.C.Sign() == 0 {
			t = t.A[0]
		}
		if t.Op != OIMod {
			return d
		}
		m := t.A[1]
		p := c.poly(t.A[0])
		if p.k.Sign() != 0 || len(p.m) == 0 {
			return d
		}
		var unit *T
		for _, a := range p.sorted()[0].as {
			if iv, ok := c.InvOf[a]; ok && iv[1] == m {
				all := true
				for _, e := range p.m {
					if _, ok := removeAtoms(e.as, []*T{a}); !ok {
						all = false
						break
					}
				}
				if all {
					unit = a
					break
				}
			}
		}
		if unit == nil {
			return d
		}
		r := &poly{m: map[string]*mono{}, k: new(big.Int)}
		for _, e := range p.m {
			rest, _ := removeAtoms(e.as, []*T{unit})
			if len(rest) == 0 {
				r.k.Add(r.k, e.k)
			} else {
				r.addMono(rest, e.k)
			}
		}
		d = c.IMod(c.fromPoly(r), m)
	}
	return d
}

// IRange gives conservative integer bounds (nil = unbounded).
func (c *Ctx) IRange(t *T) (lo, hi *big.Int) {
	switch t.Op {
	case OConst:
		return t.C, t.C
	case OIMod:
		if t.A[1].IsConst() {
			return new(big.Int), new(big.Int).Sub(t.A[1].C, one)
		}
		return new(big.Int), nil
	case OB2I:
		l, h := c.Range(t.A[0])
		return new(big.Int).SetUint64(l), new(big.Int).SetUint64(h)
	case OIte:
		l1, h1 := c.IRange(t.A[1])
		l2, h2 := c.IRange(t.A[2])
		if l1 != nil && l2 != nil {
			lo = l1
			if l2.Cmp(lo) < 0 {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(hi) > 0 {
				hi = h2
			}
		}
		return
	case OIMul:
		// nonneg product
		lo = big.NewInt(1)
		hi = big.NewInt(1)
		for _, a := range t.A {
			l, h := c.IRange(a)
			if l == nil || l.Sign() < 0 {
				return nil, nil
			}
			if h == nil {
				hi = nil
			} else if hi != nil {
				hi = new(big.Int).Mul(hi, h)
			}
			lo = new(big.Int).Mul(lo, l)
		}
		return
	case OIAdd:
		lo, hi = new(big.Int).Set(t.C), new(big.Int).Set(t.C)
		for i, a := range t.A {
			l, h := c.IRange(a)
			if t.KB[i].Sign() < 0 {
				l, h = h, l
			}
			if l == nil {
				lo = nil
			} else if lo != nil {
				lo = new(big.Int).Add(lo, new(big.Int).Mul(l, t.KB[i]))
			}
			if h == nil {
				hi = nil
			} else if hi != nil {
				hi = new(big.Int).Add(hi, new(big.Int).Mul(h, t.KB[i]))
			}
		}
		return
	}
	if b, ok := c.IBound[t]; ok {
		return b[0], b[1]
	}
	if c.INonneg[t] {
		return new(big.Int), nil
	}
	return nil, nil
}

func (c *Ctx) ILe(a, b *T) *T {
	d := c.ISub(a, b)
	if d.IsConst() {
		return c.BoolC(d.C.Sign() <= 0)
	}
	lo, hi := c.IRange(d)
	if hi != nil && hi.Sign() <= 0 {
		return c.True
	}
	if lo != nil && lo.Sign() > 0 {
		return c.False
	}
	return c.mk(&T{Op: OILe0, S: BoolS, A: []*T{d}})
}
func (c *Ctx) ILt(a, b *T) *T { return c.Not(c.ILe(b, a)) }

func (c *Ctx) B2I(a *T) *T {
	if a.IsConst() {
		return c.IntC(new(big.Int).SetUint64(a.U))
	}
	if a.Op == OConcat {
		// positional sum
		r := c.IntI(0)
		p := a.W()
		for _, s := range a.A {
			p -= s.W()
			f := new(big.Int).Lsh(one, uint(p))
			r = c.IAdd(r, c.IMul(c.IntC(f), c.B2I(s)))
		}
		return r
	}
	if a.Op == OI2B {
		m := new(big.Int).Lsh(one, uint(a.W()))
		return c.IMod(a.A[0], c.IntC(m))
	}
	return c.mk(&T{Op: OB2I, S: IntS, A: []*T{a}})
}

// SB2I is the signed value.
func (c *Ctx) SB2I(a *T) *T {
	if c.topZero(a) {
		return c.B2I(a)
	}
	if a.IsConst() {
		return c.IntI(a.Signed())
	}
	return c.Ite(c.Slt(a, c.BVc(a.W(), 0)), c.ISub(c.B2I(a), c.IntC(new(big.Int).Lsh(one, uint(a.W())))), c.B2I(a))
}
func (c *Ctx) I2B(w int, a *T) *T {
	if a.IsConst() {
		m := new(big.Int).Mod(a.C, new(big.Int).Lsh(one, uint(w)))
		return c.BVc(w, m.Uint64())
	}
	if a.Op == OB2I {
		x := a.A[0]
		if x.W() >= w {
			return c.Extract(w-1, 0, x)
		}
		return c.Zext(w, x)
	}
	if a.Op == OIte {
		return c.Ite(a.A[0], c.I2B(w, a.A[1]), c.I2B(w, a.A[2]))
	}
	return c.mk(&T{Op: OI2B, S: BVS(w), A: []*T{a}})
}

// ---------------------------------------------------------------- printing

var opNames = map[Op]string{ONot: "not", OAnd: "and", OIte: "ite", OEq: "=", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem",
	OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OConcat: "concat", OUlt: "bvult", OSlt: "bvslt", OIMul: "*", OIMod: "mod", OIDiv: "div", OB2I: "bv2nat", OILe0: "le0", OIEq0: "eq0", OSext: "sext", OI2B: "int2bv"}

func (t *T) String() string { return t.str(8) }

func (t *T) str(d int) string {
	if d == 0 && t.Op != OConst && t.Op != OVar {
		return fmt.Sprintf("t%d", t.ID)
	}
	switch t.Op {
	case OConst:
		if t.S.K == Int {
			return t.C.String()
		}
		if t.S.K == Bool {
			return fmt.Sprint(t.U == 1)
		}
		return fmt.Sprintf("0x%x:%d", t.U, t.S.W)
	case OVar:
		return t.Name
	}
	var b strings.Builder
	b.WriteByte('(')
	switch t.Op {
	case OApp:
		b.WriteString(t.Name)
	case OAdd:
		b.WriteByte('+')
		for i, a := range t.A {
			b.WriteByte(' ')
			k := c0(t.W(), t.K[i])
			if k != 1 {
				fmt.Fprintf(&b, "%d*", k)
			}
			b.WriteString(a.str(d - 1))
		}
		if t.U != 0 {
			fmt.Fprintf(&b, " %d", c0(t.W(), t.U))
		}
		b.WriteByte(')')
		return b.String()
	case OIAdd:
		b.WriteByte('+')
		for i, a := range t.A {
			b.WriteByte(' ')
			if t.KB[i].Cmp(one) != 0 {
				fmt.Fprintf(&b, "%s*", t.KB[i])
			}
			b.WriteString(a.str(d - 1))
		}
		fmt.Fprintf(&b, " %s)", t.C)
		return b.String()
	case OExtract:
		fmt.Fprintf(&b, "[%d:%d]", t.U>>8, t.U&255)
	default:
		b.WriteString(opNames[t.Op])
	}
	for _, a := range t.A {
		b.WriteByte(' ')
		b.WriteString(a.str(d - 1))
		if b.Len() > 4000 {
			b.WriteString("...")
			break
		}
	}
	if t.Op == OBXor && t.U != 0 {
		fmt.Fprintf(&b, " 0x%x", t.U)
	}
	b.WriteByte(')')
	return b.String()
}

func c0(w int, u uint64) int64 {
	if w < 64 && u>>(uint(w)-1)&1 == 1 {
		return int64(u | ^mask(w))
	}
	return int64(u)
}

// Mask returns the all-ones value of a width.
func Mask(w int) uint64 { return mask(w) }

// RawUle builds a <= b without using range facts (used to state those facts).
func (c *Ctx) RawUle(a, b *T) *T {
	return c.Not(c.mk(&T{Op: OUlt, S: BoolS, A: []*T{b, a}}))
}

// RawINonneg states x >= 0.
func (c *Ctx) RawINonneg(x *T) *T {
	return c.mk(&T{Op: OILe0, S: BoolS, A: []*T{c.INeg(x)}})
}

// RawILe builds a <= b without range simplification.
func (c *Ctx) RawILe(a, b *T) *T {
	d := c.ISub(a, b)
	if d.IsConst() {
		return c.BoolC(d.C.Sign() <= 0)
	}
	return c.mk(&T{Op: OILe0, S: BoolS, A: []*T{d}})
}

// Rebuild reconstructs t with new arguments through the simplifying constructors.
func (c *Ctx) Rebuild(t *T, as []*T) *T {
	switch t.Op {
	case OConst, OVar:
		return t
	case OApp:
		return c.App(t.Name, t.S, as...)
	case ONot:
		return c.Not(as[0])
	case OAnd:
		return c.And(as...)
	case OIte:
		return c.Ite(as[0], as[1], as[2])
	case OEq:
		return c.Eq(as[0], as[1])
	case OAdd:
		r := c.BVc(t.S.W, t.U)
		for i, a := range as {
			r = c.Add(r, c.MulK(a, t.K[i]))
		}
		return r
	case OMul:
		r := as[0]
		for _, a := range as[1:] {
			r = c.Mul(r, a)
		}
		return r
	case OUDiv:
		return c.UDiv(as[0], as[1])
	case OURem:
		return c.URem(as[0], as[1])
	case OSDiv:
		return c.SDiv(as[0], as[1])
	case OSRem:
		return c.SRem(as[0], as[1])
	case OBAnd:
		r := as[0]
		for _, a := range as[1:] {
			r = c.BAnd(r, a)
		}
		return r
	case OBOr:
		r := as[0]
		for _, a := range as[1:] {
			r = c.BOr(r, a)
		}
		return r
	case OBXor:
		r := append([]*T{}, as...)
		if t.U != 0 {
			r = append(r, c.BVc(t.S.W, t.U))
		}
		return c.XorN(r...)
	case OShl:
		return c.Shl(as[0], as[1])
	case OLshr:
		return c.Lshr(as[0], as[1])
	case OAshr:
		return c.Ashr(as[0], as[1])
	case OConcat:
		return c.Concat(as...)
	case OExtract:
		return c.Extract(int(t.U>>8), int(t.U&255), as[0])
	case OSext:
		return c.Sext(t.S.W, as[0])
	case OUlt:
		return c.Ult(as[0], as[1])
	case OSlt:
		return c.Slt(as[0], as[1])
	case OIAdd:
		r := c.IntC(t.C)
		for i, a := range as {
			r = c.IAdd(r, c.IMul(c.IntC(t.KB[i]), a))
		}
		return r
	case OIMul:
		r := as[0]
		for _, a := range as[1:] {
			r = c.IMul(r, a)
		}
		return r
	case OIMod:
		return c.IMod(as[0], as[1])
	case OIDiv:
		return c.IDiv(as[0], as[1])
	case OILe0:
		return c.ILe(as[0], c.IntI(0))
	case OIEq0:
		return c.Eq(as[0], c.IntI(0))
	case OB2I:
		return c.B2I(as[0])
	case OI2B:
		return c.I2B(t.S.W, as[0])
	}
	panic("term: rebuild")
}

// Subst replaces terms according to m (bottom-up), memoising in memo.
func (c *Ctx) Subst(t *T, m map[*T]*T, memo map[*T]*T) *T {
	if len(m) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	if r, ok := m[t]; ok {
		memo[t] = r
		return r
	}
	if len(t.A) == 0 {
		return t
	}
	ch := false
	as := make([]*T, len(t.A))
	for i, a := range t.A {
		as[i] = c.Subst(a, m, memo)
		if as[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = c.Rebuild(t, as)
		if q, ok := m[r]; ok {
			r = q
		}
	}
	memo[t] = r
	return r
}
