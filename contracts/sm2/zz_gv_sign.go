package sm2

import (
	"crypto/rand"
	"hash"
	"math/big"

	gv "github.com/ZZMarquis/gm/zzgv"
)

// gvID is the user id that is signed with: the default one for nil.
func gvID(userId []byte) []byte {
	if userId == nil {
		return []byte("1234567812345678")
	}
	return userId
}

// gvENTL is the bit length of the id, two bytes.
func gvENTL(id []byte) []byte {
	return []byte{byte(len(id) >> 5), byte(len(id) << 3)}
}

// gvZ = SM3(ENTL ‖ ID ‖ a ‖ b ‖ xG ‖ yG ‖ xA ‖ yA)
func gvZ(x, y *big.Int, id []byte) [32]byte {
	return gv.SM3(gvENTL(id), id, gvBytes32(gvA), gvBytes32(gvB), gvBytes32(gvGx), gvBytes32(gvGy), gvBytes32(x), gvBytes32(y))
}

// gvE = SM3(Z ‖ M)
func gvE(x, y *big.Int, id, msg []byte) *big.Int {
	z := gvZ(x, y, id)
	e := gv.SM3(z[:], msg)
	return gv.Val(e[:])
}

func gvFits(x *big.Int) bool { return gv.And(x.Sign() >= 0, x.BitLen() <= 256) }

//gv:prop C11 C12 C17 C18
func GV_getZ(digest hash.Hash, curve *P256V1Curve, pubX *big.Int, pubY *big.Int, userId []byte) (z []byte) {
	gv.RequiresSM3(digest)
	gv.RequiresIs(curve, sm2P256V1)
	gv.Requires(gv.And(gvFits(pubX), gvFits(pubY)))
	gv.Requires(len(userId) < 8192)
	want := gvZ(pubX, pubY, userId)
	gv.Call(func() { z = getZ(digest, curve, pubX, pubY, userId) })
	gv.Ensure("32 bytes of its own", gv.And(len(z) == 32, gv.Fresh(z)))
	gv.EnsureIs("Z", z, 0, 32, func(k int) byte { return want[k] })
	return
}

//gv:prop C11 C12
func GV_calculateE(digest hash.Hash, curve *P256V1Curve, pubX *big.Int, pubY *big.Int, userId []byte, src []byte) (e *big.Int) {
	gv.RequiresSM3(digest)
	gv.RequiresIs(curve, sm2P256V1)
	gv.Requires(gv.And(gvFits(pubX), gvFits(pubY)))
	gv.Requires(len(userId) < 8192)
	want := gvE(pubX, pubY, userId, src)
	gv.Call(func() { e = calculateE(digest, curve, pubX, pubY, userId, src) })
	gv.Ensure("a number of its own", gv.FreshPtr(e))
	gv.Set(e, *want)
	return
}

func gvMod(x *big.Int) *big.Int { return new(big.Int).Mod(x, gvN) }

// Every signature of SignToRS is the standard's (r, s) for a nonce k in [1, n-1] drawn from crypto/rand.
//
//gv:prop C11
func GV_SignToRS(priv *PrivateKey, userId []byte, in []byte) (r, s *big.Int, err error) {
	gv.RequiresIs(&priv.Curve, sm2P256V1)
	gv.Requires(len(userId) < 8192)
	gv.Unroll(0)
	ok := gvScalar(priv.D)
	gv.Draws()
	gv.Call(func() { r, s, err = SignToRS(priv, userId, in) })
	gv.Ensure("an error for a key out of range, or when randomness fails", (err == nil) == gv.And(ok, !gv.DrawFailed()))
	if err != nil {
		return
	}
	gv.Ensure("nonce from crypto/rand", gv.DrawnFrom(rand.Reader))
	k := gv.LastDraw()
	gv.Ensure("nonce in [1, n-1]", gv.And(k.Sign() > 0, k.Cmp(gvN) < 0))
	e := gvE(gv.PX(priv.D), gv.PY(priv.D), gvID(userId), in)
	// r = (e + x1) mod n, s = (1+d)^-1 (k - r d) mod n
	wr := gvMod(new(big.Int).Add(e, gv.PX(k)))
	gv.Ensure("numbers of their own", gv.And(gv.FreshPtr(r), gv.FreshPtr(s)))
	gv.Set(r, *wr)
	inv := new(big.Int).ModInverse(new(big.Int).Add(priv.D, big.NewInt(1)), gvN)
	ws := gvMod(new(big.Int).Mul(inv, new(big.Int).Sub(k, new(big.Int).Mul(wr, priv.D))))
	gv.Set(s, *ws)
	gv.Ensure("r in [1, n-1]", gv.And(r.Sign() > 0, r.Cmp(gvN) < 0))
	gv.Ensure("s in [1, n-1]", gv.And(s.Sign() > 0, s.Cmp(gvN) < 0))
	gv.Ensure("r + k is not n", new(big.Int).Add(r, k).Cmp(gvN) != 0)
	return
}

// gvAccepts is the standard's verification predicate.
func gvAccepts(pub *PublicKey, userId []byte, src []byte, r, s *big.Int) bool {
	if !gv.And(r.Sign() > 0, r.Cmp(gvN) < 0, s.Sign() > 0, s.Cmp(gvN) < 0, gv.OnCurve(pub.X, pub.Y)) {
		return false
	}
	t := gvMod(new(big.Int).Add(r, s))
	if t.Sign() == 0 {
		return false
	}
	// [s]G + [t]P, with P = [x]G
	k := gvMod(new(big.Int).Add(s, new(big.Int).Mul(t, gv.DLog(pub.X, pub.Y))))
	if k.Sign() == 0 {
		return false // the point at infinity has no x coordinate
	}
	e := gvE(pub.X, pub.Y, gvID(userId), src)
	return gvMod(new(big.Int).Add(e, gv.PX(k))).Cmp(r) == 0
}

//gv:prop C12
func GV_VerifyByRS(pub *PublicKey, userId []byte, src []byte, r, s *big.Int) (ok bool) {
	gv.RequiresIs(&pub.Curve, sm2P256V1)
	gv.Requires(len(userId) < 8192)
	want := gvAccepts(pub, userId, src, r, s)
	gv.Call(func() { ok = VerifyByRS(pub, userId, src, r, s) })
	gv.Ensure("accepted exactly when the standard accepts", ok == want)
	return
}

// A signature made with a key verifies under its public key, the same id and message.
//
//gv:prop C11
func Prove_C11_Agreement(priv *PrivateKey, userId []byte, in []byte) {
	gv.RequiresIs(&priv.Curve, sm2P256V1)
	gv.Requires(len(userId) < 8192)
	gv.Requires(gvScalar(priv.D))
	var ok bool
	var err error
	gv.Draws()
	gv.Call(func() {
		var r, s *big.Int
		r, s, err = SignToRS(priv, userId, in)
		if err == nil {
			ok = VerifyByRS(CalculatePubKey(priv), userId, in, r, s)
		}
	})
	if err == nil {
		gv.Ensure("accepted", ok)
	}
}
