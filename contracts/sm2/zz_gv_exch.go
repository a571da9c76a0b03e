package sm2

import (
	"bytes"
	"hash"
	"math/big"

	gv "github.com/ZZMarquis/gm/zzgv"
)

// gvRed(x) = 2^127 + (x mod 2^127)
func gvRed(x *big.Int) *big.Int {
	p := new(big.Int).Lsh(big.NewInt(1), 127)
	return new(big.Int).Add(p, new(big.Int).Mod(x, p))
}

//gv:prop C17 C18
func GV_reduce(x *big.Int, w int) (out *big.Int) {
	gv.Requires(gv.And(w == 127, x.Sign() >= 0))
	gv.Call(func() { out = reduce(x, w) })
	gv.Ensure("own number", gv.FreshPtr(out))
	gv.Set(out, *gvRed(x))
	return
}

// gvU is the exponent of the shared point: (d + red(x of R1)·r1)(dP + red(x of R2)·dR2), R1 = [r1]G.
func gvU(d, r1, px, py, rx, ry *big.Int) *big.Int {
	t1 := new(big.Int).Add(d, new(big.Int).Mul(gvRed(gv.PX(r1)), r1))
	t2 := new(big.Int).Add(gv.DLog(px, py), new(big.Int).Mul(gvRed(rx), gv.DLog(rx, ry)))
	return gvMod(new(big.Int).Mul(t1, t2))
}

//gv:prop C17 C18
func GV_calculateU(w int, selfStaticPriv *PrivateKey, selfEphemeralPriv *PrivateKey, selfEphemeralPub *PublicKey, otherStaticPub *PublicKey, otherEphemeralPub *PublicKey) (x *big.Int, y *big.Int) {
	gv.RequiresIs(&selfStaticPriv.Curve, sm2P256V1)
	gv.Requires(gv.And(w == 127, gvBelow(selfStaticPriv.D, gvN), gvBelow(selfEphemeralPriv.D, gvN)))
	gv.Requires(selfEphemeralPriv.D.Sign() > 0)
	gv.RequiresIs(selfEphemeralPub.X, *gv.PX(selfEphemeralPriv.D))
	gv.Requires(gv.And(gv.OnCurve(otherStaticPub.X, otherStaticPub.Y), gv.OnCurve(otherEphemeralPub.X, otherEphemeralPub.Y)))
	u := gvU(selfStaticPriv.D, selfEphemeralPriv.D, otherStaticPub.X, otherStaticPub.Y, otherEphemeralPub.X, otherEphemeralPub.Y)
	gv.Call(func() {
		x, y = calculateU(w, selfStaticPriv, selfEphemeralPriv, selfEphemeralPub, otherStaticPub, otherEphemeralPub)
	})
	gv.Ensure("own numbers", gv.And(gv.FreshPtr(x), gv.FreshPtr(y)))
	if u.Sign() == 0 {
		gv.Set(x, *big.NewInt(0))
		gv.Set(y, *big.NewInt(0))
	} else {
		gv.Set(x, *gv.PX(u))
		gv.Set(y, *gv.PY(u))
	}
	return
}

// gvXKey is byte i of KDF(xU ‖ yU ‖ ZA ‖ ZB).
func gvXKey(x, y *big.Int, za, zb []byte, i int) byte {
	ct := uint32(i/32 + 1)
	h := gv.SM3(gvBytes32(x), gvBytes32(y), za, zb, []byte{byte(ct >> 24), byte(ct >> 16), byte(ct >> 8), byte(ct)})
	return h[i%32]
}

//gv:prop C17
func GV_kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) (rv []byte) {
	gv.RequiresSM3(digest)
	gv.Requires(gv.And(gvFits(ux), gvFits(uy), len(za) == 32, len(zb) == 32))
	gv.Requires(gv.And(keyBits >= 0, keyBits < 1<<38))
	n := (keyBits + 7) / 8
	gv.Stride(32)
	gv.Loop("whole blocks", func(off int, ct uint32, rv []byte) {
		gv.Inv(off >= 0)
		gv.Inv(off <= n)
		gv.Inv(gv.Or(off == 32*int(ct), off == n))
		gv.InvIs(rv, 0, off, func(k int) byte { return gvXKey(ux, uy, za, zb, k) })
	})
	gv.Call(func() { rv = kdfForExch(digest, ux, uy, za, zb, keyBits) })
	gv.Ensure("the requested length, its own memory", gv.And(len(rv) == n, gv.Fresh(rv)))
	gv.EnsureIs("key stream", rv, 0, n, func(k int) byte { return gvXKey(ux, uy, za, zb, k) })
	return
}

func gvInner(ux *big.Int, za, zb []byte, p1x, p1y, p2x, p2y *big.Int) [32]byte {
	return gv.SM3(gvBytes32(ux), za, zb, gvBytes32(p1x), gvBytes32(p1y), gvBytes32(p2x), gvBytes32(p2y))
}

//gv:prop C17 C18
func GV_calculateInnerHash(digest hash.Hash, ux *big.Int, za, zb []byte, p1x, p1y *big.Int, p2x, p2y *big.Int) (out []byte) {
	gv.RequiresSM3(digest)
	gv.Requires(gv.And(gvFits(ux), gvFits(p1x), gvFits(p1y), gvFits(p2x), gvFits(p2y), len(za) == 32, len(zb) == 32))
	want := gvInner(ux, za, zb, p1x, p1y, p2x, p2y)
	gv.Call(func() { out = calculateInnerHash(digest, ux, za, zb, p1x, p1y, p2x, p2y) })
	gv.Ensure("32 bytes of its own", gv.And(len(out) == 32, gv.Fresh(out)))
	gv.EnsureIs("inner hash", out, 0, 32, func(k int) byte { return want[k] })
	return
}

//gv:prop C17 C18
func GV_s1(digest hash.Hash, uy *big.Int, innerHash []byte) (out []byte) {
	gv.RequiresSM3(digest)
	gv.Requires(gv.And(gvFits(uy), len(innerHash) == 32))
	want := gv.SM3([]byte{2}, gvBytes32(uy), innerHash)
	gv.Call(func() { out = s1(digest, uy, innerHash) })
	gv.Ensure("32 bytes of its own", gv.And(len(out) == 32, gv.Fresh(out)))
	gv.EnsureIs("tag 2", out, 0, 32, func(k int) byte { return want[k] })
	return
}

//gv:prop C17 C18
func GV_s2(digest hash.Hash, uy *big.Int, innerHash []byte) (out []byte) {
	gv.RequiresSM3(digest)
	gv.Requires(gv.And(gvFits(uy), len(innerHash) == 32))
	want := gv.SM3([]byte{3}, gvBytes32(uy), innerHash)
	gv.Call(func() { out = s2(digest, uy, innerHash) })
	gv.Ensure("32 bytes of its own", gv.And(len(out) == 32, gv.Fresh(out)))
	gv.EnsureIs("tag 3", out, 0, 32, func(k int) byte { return want[k] })
	return
}

//gv:prop C17 C18
func GV_CalculateKeyWithConfirmation(initiator bool, keyBits int, confirmationTag []byte, selfStaticPriv *PrivateKey, selfEphemeralPriv *PrivateKey, selfId []byte, otherStaticPub *PublicKey, otherEphemeralPub *PublicKey, otherId []byte) (res *ExchangeResult, err error) {
	gv.RequiresIs(&selfStaticPriv.Curve, sm2P256V1)
	gv.RequiresIs(&selfEphemeralPriv.Curve, sm2P256V1)
	gv.Requires(gv.And(gvScalar(selfStaticPriv.D), gvScalar(selfEphemeralPriv.D)))
	gv.Requires(gv.And(len(selfId) < 8192, len(otherId) < 8192))
	gv.Requires(gv.And(keyBits >= 0, keyBits < 1<<38))
	gv.Option("nomerge")
	gv.Call(func() {
		res, err = CalculateKeyWithConfirmation(initiator, keyBits, confirmationTag, selfStaticPriv, selfEphemeralPriv, selfId, otherStaticPub, otherEphemeralPub, otherId)
	})
	if err != nil {
		gv.Ensure("no result with an error", res == nil)
	}
	px, py, rx, ry := otherStaticPub.X, otherStaticPub.Y, otherEphemeralPub.X, otherEphemeralPub.Y
	if !gv.And(gv.OnCurve(px, py), gv.OnCurve(rx, ry)) {
		gv.Ensure("peer point off the curve", err != nil)
		return
	}
	d, r := selfStaticPriv.D, selfEphemeralPriv.D
	u := gvU(d, r, px, py, rx, ry)
	if u.Sign() == 0 {
		gv.Ensure("shared point at infinity", err != nil)
		return
	}
	ux, uy := gv.PX(u), gv.PY(u)
	zs, zo := gvZ(gv.PX(d), gv.PY(d), selfId), gvZ(px, py, otherId)
	n := (keyBits + 7) / 8
	if initiator {
		inner := gvInner(ux, zs[:], zo[:], gv.PX(r), gv.PY(r), rx, ry)
		t1, t2 := gv.SM3([]byte{2}, gvBytes32(uy), inner[:]), gv.SM3([]byte{3}, gvBytes32(uy), inner[:])
		if err != nil {
			gv.Ensure("refused only for a missing or wrong tag", !bytes.Equal(t1[:], confirmationTag))
			return
		}
		gv.Ensure("the expected tag", bytes.Equal(t1[:], confirmationTag))
		gv.Ensure("key of the requested length", gv.And(len(res.Key) == n, gv.Fresh(res.Key)))
		gv.EnsureIs("key", res.Key, 0, n, func(k int) byte { return gvXKey(ux, uy, zs[:], zo[:], k) })
		gv.Ensure("S2", len(res.S2) == 32)
		gv.EnsureIs("S2", res.S2, 0, 32, func(k int) byte { return t2[k] })
	} else {
		inner := gvInner(ux, zo[:], zs[:], rx, ry, gv.PX(r), gv.PY(r))
		t1, t2 := gv.SM3([]byte{2}, gvBytes32(uy), inner[:]), gv.SM3([]byte{3}, gvBytes32(uy), inner[:])
		gv.Ensure("no error", err == nil)
		if err != nil {
			return
		}
		gv.Ensure("key of the requested length", gv.And(len(res.Key) == n, gv.Fresh(res.Key)))
		gv.EnsureIs("key", res.Key, 0, n, func(k int) byte { return gvXKey(ux, uy, zo[:], zs[:], k) })
		gv.Ensure("S1 and S2", gv.And(len(res.S1) == 32, len(res.S2) == 32))
		gv.EnsureIs("S1", res.S1, 0, 32, func(k int) byte { return t1[k] })
		gv.EnsureIs("S2", res.S2, 0, 32, func(k int) byte { return t2[k] })
	}
	return
}

//gv:prop C17 C18
func GV_ResponderConfirm(responderS2 []byte, initiatorS2 []byte) (ok bool) {
	gv.Call(func() { ok = ResponderConfirm(responderS2, initiatorS2) })
	gv.Ensure("equal tags", ok == bytes.Equal(responderS2, initiatorS2))
	return
}

// Two honest parties agree: same key, and both tags are accepted.
//
//gv:prop C17
func Prove_C17_Agreement(dA, rA, dB, rB *PrivateKey, idA, idB []byte, keyBits int) {
	gv.RequiresIs(&dA.Curve, sm2P256V1)
	gv.RequiresIs(&rA.Curve, sm2P256V1)
	gv.RequiresIs(&dB.Curve, sm2P256V1)
	gv.RequiresIs(&rB.Curve, sm2P256V1)
	gv.Requires(gv.And(gvScalar(dA.D), gvScalar(rA.D), gvScalar(dB.D), gvScalar(rB.D)))
	gv.Requires(gv.And(len(idA) < 8192, len(idB) < 8192, keyBits >= 0, keyBits < 1<<38))
	var a, b *ExchangeResult
	var errA, errB error
	ok := false
	gv.Call(func() {
		pA, qA, pB, qB := CalculatePubKey(dA), CalculatePubKey(rA), CalculatePubKey(dB), CalculatePubKey(rB)
		b, errB = CalculateKeyWithConfirmation(false, keyBits, nil, dB, rB, idB, pA, qA, idA)
		if errB == nil {
			a, errA = CalculateKeyWithConfirmation(true, keyBits, b.S1, dA, rA, idA, pB, qB, idB)
			if errA == nil {
				ok = ResponderConfirm(b.S2, a.S2)
			}
		}
	})
	// the standard restarts the protocol when the shared point is at infinity
	u := gvU(dA.D, rA.D, gv.PX(dB.D), gv.PY(dB.D), gv.PX(rB.D), gv.PY(rB.D))
	if u.Sign() == 0 {
		return
	}
	gv.Ensure("responder succeeds", errB == nil)
	if errB != nil {
		return
	}
	gv.Ensure("initiator accepts the responder's tag", errA == nil)
	if errA != nil {
		return
	}
	gv.Ensure("responder accepts the initiator's tag", ok)
	gv.EnsureEq("same key", a.Key, b.Key)
}
