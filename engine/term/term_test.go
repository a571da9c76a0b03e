package term

// Differential test of the term constructors: every term is built together with its meaning (a closure
// over the variable assignment), and the simplified term is evaluated by its operator definitions.

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

type env map[string]*big.Int

func evalT(t *T, e env, memo map[*T]*big.Int) *big.Int {
	if v, ok := memo[t]; ok {
		return v
	}
	v := evalT1(t, e, memo)
	if t.S.K == BV {
		v = new(big.Int).And(v, new(big.Int).SetUint64(mask(t.S.W)))
		if t.S.W > 64 {
			panic("wide")
		}
	}
	memo[t] = v
	return v
}

func b2(b bool) *big.Int {
	if b {
		return big.NewInt(1)
	}
	return big.NewInt(0)
}

func sgn(v *big.Int, w int) *big.Int {
	if v.Bit(w-1) == 1 {
		return new(big.Int).Sub(v, new(big.Int).Lsh(one, uint(w)))
	}
	return v
}

func evalT1(t *T, e env, memo map[*T]*big.Int) *big.Int {
	var a []*big.Int
	for _, x := range t.A {
		a = append(a, evalT(x, e, memo))
	}
	z := new(big.Int)
	w := t.S.W
	switch t.Op {
	case OConst:
		if t.S.K == Int {
			return t.C
		}
		return new(big.Int).SetUint64(t.U)
	case OVar:
		return e[t.Name]
	case ONot:
		return b2(a[0].Sign() == 0)
	case OAnd:
		for _, x := range a {
			if x.Sign() == 0 {
				return b2(false)
			}
		}
		return b2(true)
	case OIte:
		if a[0].Sign() != 0 {
			return a[1]
		}
		return a[2]
	case OEq:
		return b2(a[0].Cmp(a[1]) == 0)
	case OAdd:
		z.SetUint64(t.U)
		for i := range a {
			z.Add(z, new(big.Int).Mul(a[i], new(big.Int).SetUint64(t.K[i])))
		}
		return z
	case OMul:
		z.SetInt64(1)
		for _, x := range a {
			z.Mul(z, x)
		}
		return z
	case OUDiv:
		if a[1].Sign() == 0 {
			return new(big.Int).SetUint64(mask(w))
		}
		return z.Quo(a[0], a[1])
	case OURem:
		if a[1].Sign() == 0 {
			return a[0]
		}
		return z.Rem(a[0], a[1])
	case OSDiv, OSRem:
		x, y := sgn(a[0], w), sgn(a[1], w)
		if y.Sign() == 0 {
			if t.Op == OSRem {
				return a[0]
			}
			if x.Sign() < 0 {
				return big.NewInt(1)
			}
			return new(big.Int).SetUint64(mask(w))
		}
		if t.Op == OSDiv {
			return z.Quo(x, y)
		}
		return z.Rem(x, y)
	case OBAnd:
		z.Set(a[0])
		for _, x := range a[1:] {
			z.And(z, x)
		}
		return z
	case OBOr:
		for _, x := range a {
			z.Or(z, x)
		}
		return z
	case OBXor:
		z.SetUint64(t.U)
		for _, x := range a {
			z.Xor(z, x)
		}
		return z
	case OShl:
		if a[1].Cmp(big.NewInt(int64(w))) >= 0 {
			return z
		}
		return z.Lsh(a[0], uint(a[1].Uint64()))
	case OLshr:
		if a[1].Cmp(big.NewInt(int64(w))) >= 0 {
			return z
		}
		return z.Rsh(a[0], uint(a[1].Uint64()))
	case OAshr:
		s := uint(w)
		if a[1].Cmp(big.NewInt(int64(w))) < 0 {
			s = uint(a[1].Uint64())
		}
		return z.Rsh(sgn(a[0], w), s)
	case OConcat:
		for i, x := range a {
			z.Lsh(z, uint(t.A[i].W()))
			z.Or(z, x)
		}
		return z
	case OExtract:
		z.Rsh(a[0], uint(t.U&255))
		return z.And(z, new(big.Int).SetUint64(mask(w)))
	case OSext:
		return sgn(a[0], t.A[0].W())
	case OUlt:
		return b2(a[0].Cmp(a[1]) < 0)
	case OSlt:
		x := t.A[0].W()
		return b2(sgn(a[0], x).Cmp(sgn(a[1], x)) < 0)
	case OIAdd:
		z.Set(t.C)
		for i := range a {
			z.Add(z, new(big.Int).Mul(a[i], t.KB[i]))
		}
		return z
	case OIMul:
		z.SetInt64(1)
		for _, x := range a {
			z.Mul(z, x)
		}
		return z
	case OIMod:
		return z.Mod(a[0], a[1])
	case OIDiv:
		return z.Div(a[0], a[1])
	case OILe0:
		return b2(a[0].Sign() <= 0)
	case OIEq0:
		return b2(a[0].Sign() == 0)
	case OB2I:
		return a[0]
	case OI2B:
		return z.Mod(a[0], new(big.Int).Lsh(one, uint(w)))
	}
	panic(fmt.Sprint("op ", t.Op))
}

type val struct {
	t *T
	f func(e env) *big.Int
}

type gen struct {
	d   string
	ds  []string
	c   *Ctx
	r   *rand.Rand
	bv  map[int][]val
	bl  []val
	in  []val
	bnd map[string][2]uint64
}

func (g *gen) konst(w int) uint64 {
	m := mask(w)
	switch g.r.Intn(8) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return m
	case 3:
		return m - uint64(g.r.Intn(9))&m
	case 4:
		return (m>>1 + uint64(g.r.Intn(3))) & m
	case 5:
		return uint64(1) << uint(g.r.Intn(w)) & m
	case 6:
		return uint64(g.r.Intn(40)) & m
	}
	return g.r.Uint64() & m
}

func (g *gen) v(w int) val {
	l := g.bv[w]
	if g.r.Intn(4) == 0 || len(l) == 0 {
		u := g.konst(w)
		return val{g.c.BVc(w, u), func(env) *big.Int { return new(big.Int).SetUint64(u) }}
	}
	k := g.r.Intn(len(l))
	if len(l) > 12 && g.r.Intn(2) == 0 {
		k = len(l) - 1 - g.r.Intn(8)
	}
	return l[k]
}

func (g *gen) b() val {
	if len(g.bl) == 0 {
		return val{g.c.True, func(env) *big.Int { return big.NewInt(1) }}
	}
	return g.bl[g.r.Intn(len(g.bl))]
}

func (g *gen) i() val {
	if g.r.Intn(4) == 0 || len(g.in) == 0 {
		u := int64(g.r.Intn(600) - 300)
		return val{g.c.IntI(u), func(env) *big.Int { return big.NewInt(u) }}
	}
	return g.in[g.r.Intn(len(g.in))]
}

var widths = []int{1, 7, 8, 16, 32, 64}

func (g *gen) step() string {
	c := g.c
	w := widths[g.r.Intn(len(widths))]
	if g.r.Intn(3) > 0 {
		w = []int{8, 64}[g.r.Intn(2)]
	}
	M := new(big.Int).SetUint64(mask(w))
	x, y, p := g.v(w), g.v(w), g.b()
	put := func(t *T, f func(e env) *big.Int) {
		if t.S.K != BV {
			panic("sort")
		}
		m := new(big.Int).SetUint64(mask(t.S.W))
		g.bv[t.S.W] = append(g.bv[t.S.W], val{t, func(e env) *big.Int { return new(big.Int).And(f(e), m) }})
	}
	putb := func(t *T, f func(e env) bool) {
		g.bl = append(g.bl, val{t, func(e env) *big.Int { return b2(f(e)) }})
		g.ds = append(g.ds, g.d)
		g.d = ""
	}
	puti := func(t *T, f func(e env) *big.Int) {
		if lo, hi := c.IRange(t); lo != nil && hi != nil && lo.Cmp(hi) > 0 {
			panic("empty range")
		}
		g.in = append(g.in, val{t, f})
	}
	n := g.r.Intn(36)
	switch n {
	case 0, 1:
		put(c.Add(x.t, y.t), func(e env) *big.Int { return new(big.Int).Add(x.f(e), y.f(e)) })
	case 2, 3:
		put(c.Sub(x.t, y.t), func(e env) *big.Int { z := new(big.Int).Sub(x.f(e), y.f(e)); return z.And(z, M) })
	case 4:
		k := g.konst(w)
		put(c.MulK(x.t, k), func(e env) *big.Int { return new(big.Int).Mul(x.f(e), new(big.Int).SetUint64(k)) })
	case 5:
		put(c.Mul(x.t, y.t), func(e env) *big.Int { return new(big.Int).Mul(x.f(e), y.f(e)) })
	case 6:
		put(c.Xor(x.t, y.t), func(e env) *big.Int { return new(big.Int).Xor(x.f(e), y.f(e)) })
	case 7:
		put(c.BAnd(x.t, y.t), func(e env) *big.Int { return new(big.Int).And(x.f(e), y.f(e)) })
	case 8:
		put(c.BOr(x.t, y.t), func(e env) *big.Int { return new(big.Int).Or(x.f(e), y.f(e)) })
	case 9:
		put(c.Not1(x.t), func(e env) *big.Int { return new(big.Int).Xor(x.f(e), M) })
	case 10:
		k := g.r.Intn(w + 1)
		put(c.ShlK(x.t, k), func(e env) *big.Int { return new(big.Int).Lsh(x.f(e), uint(k)) })
	case 11:
		k := g.r.Intn(w + 1)
		put(c.LshrK(x.t, k), func(e env) *big.Int { return new(big.Int).Rsh(x.f(e), uint(k)) })
	case 12:
		k := g.r.Intn(w + 1)
		put(c.AshrK(x.t, k), func(e env) *big.Int { z := new(big.Int).Rsh(sgn(x.f(e), w), uint(k)); return z.And(z, M) })
	case 13, 14, 15:
		var f func(e env) *big.Int
		sh := func(e env) uint {
			if v := y.f(e); v.Cmp(big.NewInt(int64(w))) < 0 {
				return uint(v.Uint64())
			}
			return uint(w)
		}
		var t *T
		switch n {
		case 13:
			t, f = c.Shl(x.t, y.t), func(e env) *big.Int { return new(big.Int).Lsh(x.f(e), sh(e)) }
		case 14:
			t, f = c.Lshr(x.t, y.t), func(e env) *big.Int { return new(big.Int).Rsh(x.f(e), sh(e)) }
		case 15:
			t, f = c.Ashr(x.t, y.t), func(e env) *big.Int { z := new(big.Int).Rsh(sgn(x.f(e), w), sh(e)); return z.And(z, M) }
		}
		put(t, f)
	case 16:
		k := g.konst(w)
		if k == 0 {
			return ""
		}
		kk := new(big.Int).SetUint64(k)
		if g.r.Intn(2) == 0 {
			put(c.UDiv(x.t, c.BVc(w, k)), func(e env) *big.Int { return new(big.Int).Quo(x.f(e), kk) })
		} else {
			put(c.URem(x.t, c.BVc(w, k)), func(e env) *big.Int { return new(big.Int).Rem(x.f(e), kk) })
		}
	case 17:
		k := g.konst(w)
		if k == 0 {
			return ""
		}
		kk := sgn(new(big.Int).SetUint64(k), w)
		if g.r.Intn(2) == 0 {
			put(c.SDiv(x.t, c.BVc(w, k)), func(e env) *big.Int { z := new(big.Int).Quo(sgn(x.f(e), w), kk); return z.And(z, M) })
		} else {
			put(c.SRem(x.t, c.BVc(w, k)), func(e env) *big.Int { z := new(big.Int).Rem(sgn(x.f(e), w), kk); return z.And(z, M) })
		}
	case 18, 19:
		hi := g.r.Intn(w)
		lo := g.r.Intn(hi + 1)
		put(c.Extract(hi, lo, x.t), func(e env) *big.Int {
			z := new(big.Int).Rsh(x.f(e), uint(lo))
			return z.And(z, new(big.Int).SetUint64(mask(hi-lo+1)))
		})
	case 20, 21:
		w2 := widths[g.r.Intn(4)]
		if w+w2 > 64 {
			return ""
		}
		u := g.v(w2)
		put(c.Concat(x.t, u.t), func(e env) *big.Int { z := new(big.Int).Lsh(x.f(e), uint(w2)); return z.Or(z, u.f(e)) })
	case 22:
		w2 := widths[g.r.Intn(len(widths))]
		if w2 < w {
			return ""
		}
		if g.r.Intn(2) == 0 {
			put(c.Zext(w2, x.t), x.f)
		} else {
			m2 := new(big.Int).SetUint64(mask(w2))
			put(c.Sext(w2, x.t), func(e env) *big.Int { return new(big.Int).And(sgn(x.f(e), w), m2) })
		}
	case 23:
		put(c.Ite(p.t, x.t, y.t), func(e env) *big.Int {
			if p.f(e).Sign() != 0 {
				return x.f(e)
			}
			return y.f(e)
		})
	case 24, 25:
		g.d = fmt.Sprint("Eq ", x.t, " , ", y.t)
		putb(c.Eq(x.t, y.t), func(e env) bool { return x.f(e).Cmp(y.f(e)) == 0 })
	case 26, 27:
		g.d = fmt.Sprint("Ult ", x.t, " , ", y.t)
		putb(c.Ult(x.t, y.t), func(e env) bool { return x.f(e).Cmp(y.f(e)) < 0 })
	case 28, 29:
		g.d = fmt.Sprint("Slt ", x.t, " , ", y.t)
		putb(c.Slt(x.t, y.t), func(e env) bool { return sgn(x.f(e), w).Cmp(sgn(y.f(e), w)) < 0 })
	case 30:
		q := g.b()
		switch g.r.Intn(3) {
		case 0:
			putb(c.And(p.t, q.t), func(e env) bool { return p.f(e).Sign() != 0 && q.f(e).Sign() != 0 })
		case 1:
			putb(c.Or(p.t, q.t), func(e env) bool { return p.f(e).Sign() != 0 || q.f(e).Sign() != 0 })
		case 2:
			putb(c.Not(p.t), func(e env) bool { return p.f(e).Sign() == 0 })
		}
	case 31:
		if g.r.Intn(2) == 0 {
			puti(c.B2I(x.t), x.f)
		} else {
			puti(c.SB2I(x.t), func(e env) *big.Int { return sgn(x.f(e), w) })
		}
	case 32:
		a, b := g.i(), g.i()
		switch g.r.Intn(3) {
		case 0:
			puti(c.IAdd(a.t, b.t), func(e env) *big.Int { return new(big.Int).Add(a.f(e), b.f(e)) })
		case 1:
			puti(c.ISub(a.t, b.t), func(e env) *big.Int { return new(big.Int).Sub(a.f(e), b.f(e)) })
		case 2:
			if lo, hi := c.IRange(a.t); lo != nil && hi != nil && lo.BitLen() < 80 && hi.BitLen() < 80 {
				puti(c.IMul(a.t, b.t), func(e env) *big.Int { return new(big.Int).Mul(a.f(e), b.f(e)) })
			}
		}
	case 33:
		a := g.i()
		k := big.NewInt([]int64{1, 2, 3, 7, 16, 256, 65536, 251, 1 << 40}[g.r.Intn(9)])
		if g.r.Intn(2) == 0 {
			puti(c.IMod(a.t, c.IntC(k)), func(e env) *big.Int { return new(big.Int).Mod(a.f(e), k) })
		} else {
			puti(c.IDiv(a.t, c.IntC(k)), func(e env) *big.Int { return new(big.Int).Div(a.f(e), k) })
		}
	case 34:
		a, b := g.i(), g.i()
		g.d = fmt.Sprint("int ", a.t, " , ", b.t)
		if g.r.Intn(2) == 0 {
			putb(c.ILe(a.t, b.t), func(e env) bool { return a.f(e).Cmp(b.f(e)) <= 0 })
		} else {
			putb(c.ieq(a.t, b.t), func(e env) bool { return a.f(e).Cmp(b.f(e)) == 0 })
		}
	case 35:
		a := g.i()
		m2 := new(big.Int).Lsh(one, uint(w))
		put(c.I2B(w, a.t), func(e env) *big.Int { return new(big.Int).Mod(a.f(e), m2) })
	}
	return ""
}

func TestSimplifier(t *testing.T) {
	rounds := 3000
	if s := os.Getenv("GV_ROUNDS"); s != "" {
		rounds, _ = strconv.Atoi(s)
	}
	for seed := 0; seed < rounds; seed++ {
		g := &gen{c: NewCtx(), r: rand.New(rand.NewSource(int64(seed))), bv: map[int][]val{}, bnd: map[string][2]uint64{}}
		vars := map[string]int{}
		for _, w := range widths {
			for k := 0; k < 2; k++ {
				n := fmt.Sprintf("v%d_%d", w, k)
				x := g.c.Var(n, BVS(w))
				vars[n] = w
				if g.r.Intn(2) == 0 {
					a, b := g.konst(w), g.konst(w)
					if a > b {
						a, b = b, a
					}
					if g.r.Intn(2) == 0 {
						a = 0
					}
					if w == 64 && g.r.Intn(2) == 0 {
						a, b = 0, 1<<47
					}
					g.bnd[n] = [2]uint64{a, b}
					g.c.Bound[x] = [2]uint64{a, b}
				}
				g.bv[w] = append(g.bv[w], val{x, func(e env) *big.Int { return e[n] }})
			}
		}
		for k := 0; k < 2; k++ {
			n := fmt.Sprintf("i%d", k)
			x := g.c.Var(n, IntS)
			g.c.IBound[x] = [2]*big.Int{big.NewInt(0), big.NewInt(1000)}
			g.in = append(g.in, val{x, func(e env) *big.Int { return e[n] }})
		}
		for k := 0; k < 60; k++ {
			g.step()
		}
		for trial := 0; trial < 6; trial++ {
			e := env{"i0": big.NewInt(int64(g.r.Intn(1001))), "i1": big.NewInt(int64(g.r.Intn(1001)))}
			for n, w := range vars {
				u := g.konst(w)
				if b, ok := g.bnd[n]; ok && (u < b[0] || u > b[1]) {
					u = b[0]
					if d := b[1] - b[0]; d > 0 {
						switch g.r.Intn(3) {
						case 0:
							u = b[1]
						case 1:
							u = b[0] + g.r.Uint64()%(d+1|1)
							if u < b[0] || u > b[1] {
								u = b[0]
							}
						}
					}
				}
				e[n] = new(big.Int).SetUint64(u)
			}
			memo := map[*T]*big.Int{}
			chk := func(v val) {
				got, want := evalT(v.t, e, memo), v.f(e)
				if got.Cmp(want) != 0 {
					t.Fatalf("seed %d: %s evaluates to %v, want %v under %v bounds %v\n%s", seed, v.t, got, want, e, g.bnd, g.d)
				}
				if v.t.S.K == BV {
					lo, hi := g.c.Range(v.t)
					if u := got.Uint64(); u < lo || u > hi {
						t.Fatalf("seed %d: range [%d,%d] of %s excludes %d", seed, lo, hi, v.t, u)
					}
				}
				if v.t.S.K == Int {
					lo, hi := g.c.IRange(v.t)
					if lo != nil && got.Cmp(lo) < 0 || hi != nil && got.Cmp(hi) > 0 {
						t.Fatalf("seed %d: range [%d,%d] of %s excludes %d", seed, lo, hi, v.t, got)
					}
				}
			}
			for _, l := range g.bv {
				for _, v := range l {
					chk(v)
				}
			}
			for j, v := range g.bl {
				g.d = ""
				if j > 0 && j-len(g.bl)+len(g.ds) >= 0 {
					g.d = g.ds[j-len(g.bl)+len(g.ds)]
				}
				chk(v)
			}
			for _, v := range g.in {
				chk(v)
			}
		}
	}
}
