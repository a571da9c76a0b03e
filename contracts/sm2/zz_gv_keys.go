package sm2

import (
	"crypto/rand"
	"io"
	"math/big"

	gv "github.com/ZZMarquis/gm/zzgv"
)

// The recommended curve of GB/T 32918.5.
var (
	gvP, _  = new(big.Int).SetString("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF", 16)
	gvA, _  = new(big.Int).SetString("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFC", 16)
	gvB, _  = new(big.Int).SetString("28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93", 16)
	gvN, _  = new(big.Int).SetString("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123", 16)
	gvGx, _ = new(big.Int).SetString("32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7", 16)
	gvGy, _ = new(big.Int).SetString("BC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0", 16)
)

// gvLess: 0 <= x < m
func gvBelow(x, m *big.Int) bool { return gv.And(x.Sign() >= 0, x.Cmp(m) < 0) }

// gvScalar: x is a private scalar, 1 <= x <= n-2.
func gvScalar(x *big.Int) bool {
	return gv.And(x.Sign() > 0, x.Cmp(new(big.Int).Sub(gvN, big.NewInt(2))) <= 0)
}

// gvBytes32: x as 32 big-endian bytes.
func gvBytes32(x *big.Int) []byte {
	return gv.Seq(32, func(k int) byte { return gv.BE(x, 32, k) })
}

// A number below 2^256 becomes exactly 32 big-endian bytes of its own.
//
//gv:prop C09 C11 C12 C13 C14 C15 C17 C18
func GV_bigIntTo32Bytes(bn *big.Int) (out []byte) {
	gv.Requires(gv.And(bn.Sign() >= 0, bn.BitLen() <= 256))
	gv.Call(func() { out = bigIntTo32Bytes(bn) })
	gv.Ensure("32 bytes", len(out) == 32)
	gv.Ensure("own bytes", gv.Fresh(out))
	gv.EnsureIs("big-endian", out, 0, 32, func(k int) byte { return gv.BE(bn, 32, k) })
	return
}

//gv:prop C10
func Prove_C10_Curve() {
	var c P256V1Curve
	gv.Call(func() { c = GetSm2P256V1() })
	gv.Ensure("p", c.P.Cmp(gvP) == 0)
	gv.Ensure("a", c.A.Cmp(gvA) == 0)
	gv.Ensure("b", c.B.Cmp(gvB) == 0)
	gv.Ensure("n", c.N.Cmp(gvN) == 0)
	gv.Ensure("Gx", c.Gx.Cmp(gvGx) == 0)
	gv.Ensure("Gy", c.Gy.Cmp(gvGy) == 0)
	gv.Ensure("bit size", c.BitSize == 256)
}

//gv:prop C10 C17 C18
func GV_CalculatePubKey(priv *PrivateKey) (pub *PublicKey) {
	gv.RequiresIs(&priv.Curve, sm2P256V1)
	gv.Requires(gvBelow(priv.D, gvN))
	gv.Call(func() { pub = CalculatePubKey(priv) })
	gv.Ensure("a key of its own", gv.FreshPtr(pub))
	gv.Set(&pub.Curve, sm2P256V1)
	gv.Ensure("own coordinates", gv.And(gv.FreshPtr(pub.X), gv.FreshPtr(pub.Y)))
	gv.Set(pub.X, *gv.PX(priv.D))
	gv.Set(pub.Y, *gv.PY(priv.D))
	return
}

//gv:prop C10
func GV_GenerateKey(src io.Reader) (priv *PrivateKey, pub *PublicKey, err error) {
	gv.Requires(src != nil)
	gv.Draws()
	gv.Call(func() { priv, pub, err = GenerateKey(src) })
	gv.Ensure("randomness comes from the given source", gv.DrawnFrom(src))
	gv.Ensure("an error exactly when the source fails", (err != nil) == gv.DrawFailed())
	if err != nil {
		gv.Ensure("no key with an error", gv.And(priv == nil, pub == nil))
		return
	}
	gv.Ensure("private scalar in [1, n-2]", gvScalar(priv.D))
	gv.Ensure("public point [d]G", gv.And(pub.X.Cmp(gv.PX(priv.D)) == 0, pub.Y.Cmp(gv.PY(priv.D)) == 0))
	gv.DeepEqual("private key on the SM2 curve", priv.Curve, sm2P256V1)
	gv.DeepEqual("public key on the SM2 curve", pub.Curve, sm2P256V1)
	gv.Ensure("own numbers", gv.And(gv.FreshPtr(priv.D), gv.FreshPtr(pub.X), gv.FreshPtr(pub.Y)))
	return
}

//gv:prop C11 C13
func GV_nextK(rnd io.Reader, max *big.Int) (k *big.Int, err error) {
	gv.Requires(gv.And(rnd != nil, max.Sign() > 0))
	gv.Draws()
	gv.Call(func() { k, err = nextK(rnd, max) })
	gv.Ensure("drawn from the given source", gv.DrawnFrom(rnd))
	gv.Ensure("an error exactly when the source fails", (err != nil) == gv.DrawFailed())
	if err == nil {
		gv.Ensure("own number", gv.FreshPtr(k))
		gv.Set(k, *gv.LastDraw())
		gv.Ensure("in [1, max-1]", gv.And(k.Sign() > 0, k.Cmp(max) < 0))
	}
	return
}

var _ = rand.Reader

//gv:prop C09
func Prove_C09_PrivateEncode(priv *PrivateKey) {
	gv.Requires(gv.And(priv.D.Sign() >= 0, priv.D.BitLen() <= 256))
	var raw []byte
	gv.Call(func() { raw = priv.GetRawBytes() })
	gv.Ensure("32 bytes", len(raw) == 32)
	gv.Ensure("own bytes", gv.Fresh(raw))
	gv.EnsureIs("big-endian", raw, 0, 32, func(k int) byte { return gv.BE(priv.D, 32, k) })
}

//gv:prop C09
func GV_PublicKey_GetUnCompressBytes(pub *PublicKey) (raw []byte) {
	gv.Requires(gv.And(pub.X.Sign() >= 0, pub.X.BitLen() <= 256, pub.Y.Sign() >= 0, pub.Y.BitLen() <= 256))
	gv.Call(func() { raw = pub.GetUnCompressBytes() })
	gv.Ensure("65 bytes", len(raw) == 65)
	gv.Ensure("own bytes", gv.Fresh(raw))
	gv.EnsureIs("prefix", raw, 0, 1, func(k int) byte { return 4 })
	gv.EnsureIs("x", raw, 1, 33, func(k int) byte { return gv.BE(pub.X, 32, k-1) })
	gv.EnsureIs("y", raw, 33, 65, func(k int) byte { return gv.BE(pub.Y, 32, k-33) })
	return
}

//gv:prop C09
func Prove_C09_PublicEncode(pub *PublicKey) {
	gv.Requires(gv.And(pub.X.Sign() >= 0, pub.X.BitLen() <= 256, pub.Y.Sign() >= 0, pub.Y.BitLen() <= 256))
	var raw []byte
	gv.Call(func() { raw = pub.GetRawBytes() })
	gv.Ensure("64 bytes", len(raw) == 64)
	gv.EnsureIs("x", raw, 0, 32, func(k int) byte { return gv.BE(pub.X, 32, k) })
	gv.EnsureIs("y", raw, 32, 64, func(k int) byte { return gv.BE(pub.Y, 32, k-32) })
}

//gv:prop C09
func Prove_C09_PrivateDecode(raw []byte) {
	var priv *PrivateKey
	var err error
	gv.Call(func() { priv, err = RawBytesToPrivateKey(raw) })
	ok := false
	if len(raw) == 32 {
		ok = gvScalar(gv.Val(raw))
	}
	gv.Ensure("accepts exactly 32 bytes of a scalar in [1, n-2]", (err == nil) == ok)
	if err == nil {
		gv.Ensure("the scalar", priv.D.Cmp(gv.Val(raw)) == 0)
		gv.DeepEqual("on the SM2 curve", priv.Curve, sm2P256V1)
	} else {
		gv.Ensure("no key with an error", priv == nil)
	}
}

//gv:prop C09
func Prove_C09_PublicDecode(raw []byte) {
	var pub *PublicKey
	var err error
	gv.Call(func() { pub, err = RawBytesToPublicKey(raw) })
	ok := false
	if len(raw) == 64 {
		ok = gv.OnCurve(gv.Val(raw[:32]), gv.Val(raw[32:]))
	}
	gv.Ensure("accepts exactly 64 bytes of a point of the curve", (err == nil) == ok)
	if err == nil {
		gv.Ensure("the point", gv.And(pub.X.Cmp(gv.Val(raw[:32])) == 0, pub.Y.Cmp(gv.Val(raw[32:])) == 0))
		gv.DeepEqual("on the SM2 curve", pub.Curve, sm2P256V1)
	} else {
		gv.Ensure("no key with an error", pub == nil)
	}
}

// Encoding and decoding are inverse.
//
//gv:prop C09
func Prove_C09_RoundTrip(priv *PrivateKey, pub *PublicKey) {
	gv.Requires(gvScalar(priv.D))
	gv.Requires(gv.OnCurve(pub.X, pub.Y))
	var priv2 *PrivateKey
	var pub2 *PublicKey
	var err1, err2 error
	gv.Call(func() {
		priv2, err1 = RawBytesToPrivateKey(priv.GetRawBytes())
		pub2, err2 = RawBytesToPublicKey(pub.GetRawBytes())
	})
	gv.Ensure("accepted", gv.And(err1 == nil, err2 == nil))
	if err1 == nil && err2 == nil {
		gv.Ensure("same scalar", priv2.D.Cmp(priv.D) == 0)
		gv.Ensure("same point", gv.And(pub2.X.Cmp(pub.X) == 0, pub2.Y.Cmp(pub.Y) == 0))
	}
}
