package util

import (
	"fmt"
	"math/big"
	"testing"
	"time"

	"github.com/ZZMarquis/gm/zzrp"
)

func TestGV_C08(t *testing.T) {
	r := zzrp.New(t, "util", 25*time.Second)
	num := func() *big.Int {
		x := r.Big([]int{16, 64, 128, 256, 300, 520}[r.Intn(6)])
		if r.Intn(4) == 0 {
			x.Neg(x)
		}
		return x
	}
	for r.More() {
		x, y := num(), num()
		switch r.Intn(8) {
		case 0:
			y = x
		case 1:
			y = new(big.Int).Set(x)
		case 2:
			y = new(big.Int).Neg(x)
		}
		n := r.Len(300)
		b := uint(r.Intn(2))
		r.Case(func() string {
			return fmt.Sprintf("x = %v, y = %v (same object: %v), n = %d, b = %d", x, y, x == y, n, b)
		}, func() string {
			x0, y0 := new(big.Int).Set(x), new(big.Int).Set(y)
			type op struct {
				name string
				got  func() *big.Int
				want *big.Int
			}
			z := func() *big.Int { return new(big.Int) }
			ops := []op{
				{"Add", func() *big.Int { return Add(x, y) }, z().Add(x0, y0)},
				{"Sub", func() *big.Int { return Sub(x, y) }, z().Sub(x0, y0)},
				{"Mul", func() *big.Int { return Mul(x, y) }, z().Mul(x0, y0)},
				{"And", func() *big.Int { return And(x, y) }, z().And(x0, y0)},
				{"Lsh", func() *big.Int { return Lsh(x, uint(n)) }, z().Lsh(x0, uint(n))},
				{"SetBit", func() *big.Int { return SetBit(x, n, b) }, z().SetBit(x0, n, b)},
			}
			if y0.Sign() != 0 {
				ops = append(ops, op{"Mod", func() *big.Int { return Mod(x, y) }, z().Mod(x0, y0)})
			}
			if y0.Sign() > 0 && z().GCD(nil, nil, z().Mod(x0, y0), y0).Cmp(big.NewInt(1)) == 0 {
				ops = append(ops, op{"ModInverse", func() *big.Int { return ModInverse(x, y) }, z().ModInverse(x0, y0)})
			}
			var outs []*big.Int
			for _, o := range ops {
				var g *big.Int
				if p := zzrp.Panics(func() { g = o.got() }); p {
					return o.name + " panics"
				}
				if g == nil || g.Cmp(o.want) != 0 {
					return fmt.Sprintf("%s = %v, expected %v", o.name, g, o.want)
				}
				if x.Cmp(x0) != 0 || y.Cmp(y0) != 0 {
					return o.name + " modifies an operand"
				}
				if g == x || g == y {
					return o.name + " returns an operand"
				}
				outs = append(outs, g)
			}
			// writing to the results must not reach the operands
			for i, g := range outs {
				if len(g.Bits()) > 0 {
					g.Bits()[0] ^= 1
				}
				if x.Cmp(x0) != 0 || y.Cmp(y0) != 0 {
					return ops[i].name + ": the result shares memory with an operand"
				}
			}
			for i := range outs {
				for j := 0; j < i; j++ {
					if outs[i] == outs[j] {
						return ops[i].name + " and " + ops[j].name + " return the same object"
					}
				}
			}
			inf := x0.Sign() == 0 && y0.Sign() == 0
			if IsEcPointInfinity(x, y) != inf {
				return fmt.Sprintf("IsEcPointInfinity = %v", !inf)
			}
			zz := ZForAffine(x, y)
			if inf && zz.Sign() != 0 || !inf && zz.Cmp(big.NewInt(1)) != 0 {
				return fmt.Sprintf("ZForAffine = %v", zz)
			}
			return ""
		})
	}
}
