package sm2

import (
	"bytes"
	"crypto/rand"
	"hash"
	"math/big"

	gv "github.com/ZZMarquis/gm/zzgv"
)

//gv:prop C13 C14
func GV_xor(data []byte, kdfOut []byte, dRemaining int) {
	gv.Requires(gv.And(dRemaining >= 0, dRemaining <= len(data), dRemaining <= len(kdfOut)))
	data0, kdf0 := gv.Snap(data[:cap(data)]), gv.Snap(kdfOut)
	gv.Requires(!gv.Shares(data, kdfOut))
	gv.Modifies(data)
	gv.Loop("xored so far", func(i int) {
		gv.InvIs(data, 0, i, func(k int) byte { return data0[k] ^ kdf0[k] })
		gv.InvIs(data[:cap(data)], i, cap(data), func(k int) byte { return data0[k] })
	})
	gv.Call(func() { xor(data, kdfOut, dRemaining) })
	gv.EnsureIs("xored", data, 0, dRemaining, func(k int) byte { return data0[k] ^ kdf0[k] })
	gv.EnsureIs("the rest", data, dRemaining, len(data), func(k int) byte { return data0[k] })
}

//gv:prop C13
func GV_notEncrypted(encData []byte, in []byte) (same bool) {
	gv.Requires(len(encData) <= len(in))
	gv.Loop("equal so far", func(i int) {
		gv.InvIs(encData, 0, i, func(k int) byte { return in[k] })
	})
	gv.Call(func() { same = notEncrypted(encData, in) })
	if same {
		gv.EnsureEq("true for equal bytes", encData, in[:len(encData)])
	} else {
		gv.Ensure("false for different bytes", !bytes.Equal(encData, in[:len(encData)]))
	}
	return
}

// gvKey is byte i of KDF(x ‖ y): SM3 of the coordinates and the block number from 1, four bytes.
func gvKey(x, y *big.Int, i int) byte {
	ct := uint32(i/32 + 1)
	h := gv.SM3(gvBytes32(x), gvBytes32(y), []byte{byte(ct >> 24), byte(ct >> 16), byte(ct >> 8), byte(ct)})
	return h[i%32]
}

//gv:prop C13 C14
func GV_kdf(digest hash.Hash, c1x *big.Int, c1y *big.Int, encData []byte) {
	gv.RequiresSM3(digest)
	gv.Requires(gv.And(gvFits(c1x), gvFits(c1y)))
	gv.Requires(len(encData) < 1<<36)
	enc0 := gv.Snap(encData[:cap(encData)])
	gv.Modifies(encData)
	gv.Stride(32)
	gv.Loop("whole blocks", func(off int, ct uint32) {
		gv.Inv(off >= 0)
		gv.Inv(off <= len(encData))
		gv.Inv(gv.Or(off == 32*int(ct), off == len(encData)))
		gv.InvIs(encData, 0, off, func(k int) byte { return enc0[k] ^ gvKey(c1x, c1y, k) })
		gv.InvIs(encData[:cap(encData)], off, cap(encData), func(k int) byte { return enc0[k] })
	})
	gv.Call(func() { kdf(digest, c1x, c1y, encData) })
	gv.EnsureIs("xored with the key stream", encData, 0, len(encData), func(k int) byte { return enc0[k] ^ gvKey(c1x, c1y, k) })
}

// gvShared is the number k·d for [k]P with P = [d]G.
func gvShared(k, x, y *big.Int) *big.Int { return gvMod(new(big.Int).Mul(k, gv.DLog(x, y))) }

// gvTag = SM3(x ‖ M ‖ y)
func gvTag(x, y *big.Int, msg []byte) [32]byte {
	return gv.SM3(gvBytes32(x), msg, gvBytes32(y))
}

//gv:prop C13
func GV_Encrypt(pub *PublicKey, in []byte, cipherTextType Sm2CipherTextType) (out []byte, err error) {
	gv.RequiresIs(&pub.Curve, sm2P256V1)
	gv.Requires(len(in) < 1<<36)
	gv.Unroll(0)
	n := len(in)
	gv.Loop("fresh plaintext", func(c2 []byte) {
		gv.InvIs(c2, 0, n, func(i int) byte { return in[i] })
	})
	good := gv.And(gv.OnCurve(pub.X, pub.Y), gv.Or(cipherTextType == C1C2C3, cipherTextType == C1C3C2))
	gv.Draws()
	gv.Call(func() { out, err = Encrypt(pub, in, cipherTextType) })
	if err == nil {
		gv.Ensure("a point of the curve and a known order", good)
		gv.Ensure("randomness did not fail", !gv.DrawFailed())
		gv.Ensure("nonce from crypto/rand", gv.DrawnFrom(rand.Reader))
		k := gv.LastDraw()
		gv.Ensure("nonce in [1, n-1]", gv.And(k.Sign() > 0, k.Cmp(gvN) < 0))
		gv.Ensure("97 bytes more than the message, its own memory", gv.And(len(out) == n+97, gv.Fresh(out)))
		gv.EnsureIs("C1: prefix", out, 0, 1, func(i int) byte { return 4 })
		gv.EnsureIs("C1: x of [k]G", out, 1, 33, func(i int) byte { return gv.BE(gv.PX(k), 32, i-1) })
		gv.EnsureIs("C1: y of [k]G", out, 33, 65, func(i int) byte { return gv.BE(gv.PY(k), 32, i-33) })
		e := gvShared(k, pub.X, pub.Y)
		x2, y2 := gv.PX(e), gv.PY(e)
		tag := gvTag(x2, y2, in)
		if cipherTextType == C1C2C3 {
			gv.EnsureIs("C2 second", out, 65, 65+n, func(i int) byte { return in[i-65] ^ gvKey(x2, y2, i-65) })
			gv.EnsureIs("C3 third", out, 65+n, 97+n, func(i int) byte { return tag[i-65-n] })
		} else {
			gv.EnsureIs("C3 second", out, 65, 97, func(i int) byte { return tag[i-65] })
			gv.EnsureIs("C2 third", out, 97, 97+n, func(i int) byte { return in[i-97] ^ gvKey(x2, y2, i-97) })
		}
	} else {
		gv.Ensure("an error only for a bad point, an unknown order or a failing source", gv.Or(!good, gv.DrawFailed()))
		gv.Ensure("nothing with an error", out == nil)
	}
	return
}

// gvParts splits a ciphertext of at least 97 bytes: C1 coordinates, C2 and C3 for the order.
func gvPoint(in []byte) (x, y *big.Int) { return gv.Val(in[1:33]), gv.Val(in[33:65]) }

// Decryption returns C2 xor KDF of [d]C1 when C1 is a point, the order is known and C3 is the tag
// of exactly that plaintext, and an error in every other case.
//
//gv:prop C13 C14
func GV_Decrypt(priv *PrivateKey, in []byte, cipherTextType Sm2CipherTextType) (out []byte, err error) {
	gv.RequiresIs(&priv.Curve, sm2P256V1)
	gv.Requires(gvScalar(priv.D))
	gv.Requires(len(in) < 1<<36)
	gv.Call(func() { out, err = Decrypt(priv, in, cipherTextType) })
	if err != nil {
		gv.Ensure("nothing with an error", out == nil)
	}
	if len(in) < 97 {
		gv.Ensure("too short", err != nil)
		return
	}
	x1, y1 := gvPoint(in)
	if !gv.And(in[0] == 4, gv.OnCurve(x1, y1), gv.Or(cipherTextType == C1C2C3, cipherTextType == C1C3C2)) {
		gv.Ensure("C1 not a point in uncompressed form, or unknown order", err != nil)
		return
	}
	e := gvShared(priv.D, x1, y1)
	x2, y2 := gv.PX(e), gv.PY(e)
	c2, c3 := in[65:len(in)-32], in[len(in)-32:]
	if cipherTextType == C1C3C2 {
		c3, c2 = in[65:97], in[97:]
	}
	plain := gv.Seq(len(c2), func(i int) byte { return c2[i] ^ gvKey(x2, y2, i) })
	tag := gvTag(x2, y2, plain)
	if err == nil {
		gv.EnsureEq("tag of the returned plaintext", tag[:], c3)
		gv.Ensure("length", gv.And(len(out) == len(in)-97, gv.Fresh(out)))
		gv.EnsureIs("plaintext", out, 0, len(in)-97, func(i int) byte { return plain[i] })
	} else {
		gv.Ensure("refused only for a wrong tag", !bytes.Equal(tag[:], c3))
	}
	return
}

// Decrypting an encrypted message gives the message back.
//
//gv:prop C13
func Prove_C13_RoundTrip(priv *PrivateKey, in []byte, cipherTextType Sm2CipherTextType) {
	gv.RequiresIs(&priv.Curve, sm2P256V1)
	gv.Requires(gvScalar(priv.D))
	gv.Requires(len(in) < 1<<35)
	var out []byte
	var err1, err2 error
	gv.Draws()
	gv.Call(func() {
		var c []byte
		c, err1 = Encrypt(CalculatePubKey(priv), in, cipherTextType)
		if err1 == nil {
			out, err2 = Decrypt(priv, c, cipherTextType)
		}
	})
	if err1 == nil {
		gv.Ensure("decryption succeeds", err2 == nil)
		if err2 == nil {
			gv.EnsureEq("the message", out, in)
		}
	}
}
