package util

import (
	"math/big"

	gv "github.com/ZZMarquis/gm/zzgv"
)

// The contracts of the big-integer helpers: a number of its own holding the mathematical result; the
// frame condition of gv.Call is that no operand changes. The mathematical operations are math/big's.

//gv:prop C08
func GV_Add(x, y *big.Int) (z *big.Int) {
	want := new(big.Int).Add(x, y)
	gv.Call(func() { z = Add(x, y) })
	gv.Ensure("a number of its own", gv.FreshPtr(z))
	gv.Set(z, *want)
	return
}

//gv:prop C08
func GV_Sub(x, y *big.Int) (z *big.Int) {
	want := new(big.Int).Sub(x, y)
	gv.Call(func() { z = Sub(x, y) })
	gv.Ensure("a number of its own", gv.FreshPtr(z))
	gv.Set(z, *want)
	return
}

//gv:prop C08
func GV_Mul(x, y *big.Int) (z *big.Int) {
	want := new(big.Int).Mul(x, y)
	gv.Call(func() { z = Mul(x, y) })
	gv.Ensure("a number of its own", gv.FreshPtr(z))
	gv.Set(z, *want)
	return
}

// GV_Mod: the Euclidean remainder, for every divisor but zero.
//
//gv:prop C08
func GV_Mod(x, y *big.Int) (z *big.Int) {
	gv.Requires(y.Sign() != 0)
	want := new(big.Int).Mod(x, y)
	gv.Call(func() { z = Mod(x, y) })
	gv.Ensure("a number of its own", gv.FreshPtr(z))
	gv.Set(z, *want)
	return
}

// GV_ModInverse: for every operand that is invertible modulo the (positive) modulus.
//
//gv:prop C08
func GV_ModInverse(x, y *big.Int) (z *big.Int) {
	gv.Requires(y.Sign() > 0)
	want := new(big.Int).ModInverse(x, y)
	gv.Requires(want != nil)
	gv.Call(func() { z = ModInverse(x, y) })
	gv.Ensure("a number of its own", gv.FreshPtr(z))
	gv.Set(z, *want)
	return
}

//gv:prop C08
func GV_Lsh(x *big.Int, n uint) (z *big.Int) {
	want := new(big.Int).Lsh(x, n)
	gv.Call(func() { z = Lsh(x, n) })
	gv.Ensure("a number of its own", gv.FreshPtr(z))
	gv.Set(z, *want)
	return
}

//gv:prop C08
func GV_SetBit(x *big.Int, i int, b uint) (z *big.Int) {
	gv.Requires(i >= 0 && b <= 1)
	want := new(big.Int).SetBit(x, i, b)
	gv.Call(func() { z = SetBit(x, i, b) })
	gv.Ensure("a number of its own", gv.FreshPtr(z))
	gv.Set(z, *want)
	return
}

//gv:prop C08
func GV_And(x, y *big.Int) (z *big.Int) {
	want := new(big.Int).And(x, y)
	gv.Call(func() { z = And(x, y) })
	gv.Ensure("a number of its own", gv.FreshPtr(z))
	gv.Set(z, *want)
	return
}

//gv:prop C08
func GV_IsEcPointInfinity(x, y *big.Int) (r bool) {
	want := gv.And(x.Sign() == 0, y.Sign() == 0)
	gv.Call(func() { r = IsEcPointInfinity(x, y) })
	gv.Ensure("exactly (0,0)", r == want)
	return
}

//gv:prop C08
func GV_ZForAffine(x, y *big.Int) (z *big.Int) {
	inf := gv.And(x.Sign() == 0, y.Sign() == 0)
	gv.Call(func() { z = ZForAffine(x, y) })
	gv.Ensure("a number of its own", gv.FreshPtr(z))
	gv.Ensure("0 at infinity, 1 elsewhere", gv.Ite(inf, z.Sign() == 0, z.Cmp(big.NewInt(1)) == 0))
	return
}

// Prove_C08_SameOperand: the same with both operands the same object.
//
//gv:prop C08
func Prove_C08_SameOperand(x *big.Int) {
	gv.Inline(Add, Sub, Mul, Mod, ModInverse, And, IsEcPointInfinity)
	var a, b, c, d, e *big.Int
	nz := x.Sign() != 0
	gv.Call(func() {
		a = Add(x, x)
		b = Sub(x, x)
		c = Mul(x, x)
		e = And(x, x)
		if nz {
			d = Mod(x, x)
		}
	})
	gv.Ensure("x+x", a.Cmp(new(big.Int).Mul(big.NewInt(2), x)) == 0)
	gv.Ensure("x-x", b.Sign() == 0)
	gv.Ensure("x*x", c.Cmp(new(big.Int).Mul(x, x)) == 0)
	gv.Ensure("x&x", e.Cmp(new(big.Int).And(x, x)) == 0)
	if nz {
		gv.Ensure("x mod x", d.Cmp(new(big.Int).Mod(x, x)) == 0)
	}
}
