package sm2

import (
	"bytes"
	"crypto/rand"
	"encoding/asn1"
	"math/big"

	gv "github.com/ZZMarquis/gm/zzgv"
)

// The ASN.1 types of GM/T 0009, stated here and not taken from the code.
type gvSigDER struct{ R, S *big.Int }

type gvCipher132 struct {
	X, Y *big.Int
	C3   []byte
	C2   []byte
}

type gvCipher123 struct {
	X, Y *big.Int
	C2   []byte
	C3   []byte
}

// gvSig is the DER encoding of (r, s).
func gvSig(r, s *big.Int) []byte {
	der, _ := asn1.Marshal(gvSigDER{r, s})
	return der
}

//gv:prop C16
func GV_MarshalSign(r, s *big.Int) (out []byte, err error) {
	want := gvSig(r, s)
	gv.Call(func() { out, err = MarshalSign(r, s) })
	gv.Ensure("no error", err == nil)
	gv.EnsureEq("the DER encoding of r and s", out, want)
	return
}

// gvSigOK decides whether sign is exactly the encoding of a pair, and which.
func gvSigOK(sign []byte) (ok bool, r, s *big.Int) {
	var d gvSigDER
	if _, err := asn1.Unmarshal(sign, &d); err != nil {
		return false, nil, nil
	}
	return bytes.Equal(gvSig(d.R, d.S), sign), d.R, d.S
}

//gv:prop C16
func GV_UnmarshalSign(sign []byte) (r, s *big.Int, err error) {
	ok, wr, ws := gvSigOK(sign)
	gv.Call(func() { r, s, err = UnmarshalSign(sign) })
	gv.Ensure("accepts exactly the encodings of pairs", (err == nil) == ok)
	if err == nil {
		gv.Ensure("numbers of their own", gv.And(gv.FreshPtr(r), gv.FreshPtr(s)))
		gv.Set(r, *wr)
		gv.Set(s, *ws)
	} else {
		gv.Ensure("nothing with an error", gv.And(r == nil, s == nil))
	}
	return
}

//gv:prop C16
func Prove_C16_RoundTrip(r, s *big.Int) {
	var r2, s2 *big.Int
	var err1, err2 error
	gv.Inline(MarshalSign, UnmarshalSign)
	gv.Call(func() {
		var der []byte
		der, err1 = MarshalSign(r, s)
		r2, s2, err2 = UnmarshalSign(der)
	})
	gv.Ensure("no error", gv.And(err1 == nil, err2 == nil))
	if err2 == nil {
		gv.Ensure("same pair", gv.And(r2.Cmp(r) == 0, s2.Cmp(s) == 0))
	}
}

//gv:prop C16
func GV_Sign(priv *PrivateKey, userId []byte, in []byte) (out []byte, err error) {
	gv.RequiresIs(&priv.Curve, sm2P256V1)
	gv.Requires(len(userId) < 8192)
	ok := gvScalar(priv.D)
	gv.Draws()
	gv.Call(func() { out, err = Sign(priv, userId, in) })
	gv.Ensure("an error for a key out of range, or when randomness fails", (err == nil) == gv.And(ok, !gv.DrawFailed()))
	if err != nil {
		gv.Ensure("nothing with an error", out == nil)
		return
	}
	gv.Ensure("nonce from crypto/rand", gv.DrawnFrom(rand.Reader))
	k := gv.LastDraw()
	e := gvE(gv.PX(priv.D), gv.PY(priv.D), gvID(userId), in)
	wr := gvMod(new(big.Int).Add(e, gv.PX(k)))
	inv := new(big.Int).ModInverse(new(big.Int).Add(priv.D, big.NewInt(1)), gvN)
	ws := gvMod(new(big.Int).Mul(inv, new(big.Int).Sub(k, new(big.Int).Mul(wr, priv.D))))
	gv.EnsureEq("the encoding of the computed pair", out, gvSig(wr, ws))
	return
}

//gv:prop C12 C16
func GV_Verify(pub *PublicKey, userId []byte, src []byte, sign []byte) (ok bool) {
	gv.RequiresIs(&pub.Curve, sm2P256V1)
	gv.Requires(len(userId) < 8192)
	good, r, s := gvSigOK(sign)
	want := false
	if good {
		want = gvAccepts(pub, userId, src, r, s)
	}
	gv.Call(func() { ok = Verify(pub, userId, src, sign) })
	gv.Ensure("decodes and verifies", ok == want)
	return
}

// gvCipherDER is the DER form of a raw ciphertext of at least 97 bytes in the given order.
func gvCipherDER(in []byte, cipherTextType Sm2CipherTextType) []byte {
	x, y := gvPoint(in)
	n := len(in)
	var der []byte
	if cipherTextType == C1C2C3 {
		der, _ = asn1.Marshal(gvCipher123{x, y, in[65 : n-32], in[n-32:]})
	} else {
		der, _ = asn1.Marshal(gvCipher132{x, y, in[65:97], in[97:]})
	}
	return der
}

//gv:prop C15
func GV_MarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, err error) {
	gv.Requires(len(in) < 1<<36)
	ok := false
	if len(in) >= 97 {
		ok = gv.And(in[0] == 4, gv.Or(cipherTextType == C1C2C3, cipherTextType == C1C3C2))
	}
	gv.Call(func() { out, err = MarshalCipher(in, cipherTextType) })
	gv.Ensure("an error exactly for the wrong shape or an unknown order", (err == nil) == ok)
	if err == nil {
		gv.EnsureEq("DER form", out, gvCipherDER(in, cipherTextType))
	} else {
		gv.Ensure("nothing with an error", out == nil)
	}
	return
}

//gv:prop C15
func GV_UnmarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, err error) {
	gv.Requires(len(in) < 1<<36)
	var x, y *big.Int
	var c2, c3, der []byte
	ok := false
	if cipherTextType == C1C2C3 {
		var d gvCipher123
		if _, e := asn1.Unmarshal(in, &d); e == nil {
			x, y, c2, c3 = d.X, d.Y, d.C2, d.C3
			der, _ = asn1.Marshal(d)
			ok = bytes.Equal(der, in)
		}
	} else if cipherTextType == C1C3C2 {
		var d gvCipher132
		if _, e := asn1.Unmarshal(in, &d); e == nil {
			x, y, c2, c3 = d.X, d.Y, d.C2, d.C3
			der, _ = asn1.Marshal(d)
			ok = bytes.Equal(der, in)
		}
	}
	if ok {
		ok = gv.And(gvFits(x), gvFits(y), len(c3) == 32)
	}
	gv.Call(func() { out, err = UnmarshalCipher(in, cipherTextType) })
	gv.Ensure("accepts exactly the encodings of ciphertexts", (err == nil) == ok)
	if err != nil {
		gv.Ensure("nothing with an error", out == nil)
		return
	}
	if !ok {
		return
	}
	n := len(c2)
	gv.Ensure("length", gv.And(len(out) == 97+n, gv.Fresh(out)))
	gv.EnsureIs("prefix", out, 0, 1, func(i int) byte { return 4 })
	gv.EnsureIs("x", out, 1, 33, func(i int) byte { return gv.BE(x, 32, i-1) })
	gv.EnsureIs("y", out, 33, 65, func(i int) byte { return gv.BE(y, 32, i-33) })
	if cipherTextType == C1C2C3 {
		gv.EnsureIs("C2 second", out, 65, 65+n, func(i int) byte { return c2[i-65] })
		gv.EnsureIs("C3 third", out, 65+n, 97+n, func(i int) byte { return c3[i-65-n] })
	} else {
		gv.EnsureIs("C3 second", out, 65, 97, func(i int) byte { return c3[i-65] })
		gv.EnsureIs("C2 third", out, 97, 97+n, func(i int) byte { return c2[i-97] })
	}
	return
}

// From raw to DER and back.
//
//gv:prop C15
func Prove_C15_RawRoundTrip(in []byte, cipherTextType Sm2CipherTextType) {
	gv.Requires(gv.And(len(in) >= 97, len(in) < 1<<35))
	gv.Requires(gv.And(in[0] == 4, gv.Or(cipherTextType == C1C2C3, cipherTextType == C1C3C2)))
	var back []byte
	var err1, err2 error
	gv.Inline(MarshalCipher, UnmarshalCipher)
	gv.Call(func() {
		var der []byte
		der, err1 = MarshalCipher(in, cipherTextType)
		back, err2 = UnmarshalCipher(der, cipherTextType)
	})
	gv.Ensure("no error", gv.And(err1 == nil, err2 == nil))
	if err2 == nil {
		gv.Ensure("same length", len(back) == len(in))
		gv.EnsureIs("same prefix", back, 0, 1, func(i int) byte { return in[i] })
		gv.EnsureIs("same x", back, 1, 33, func(i int) byte { return in[i] })
		gv.EnsureIs("same y", back, 33, 65, func(i int) byte { return in[i] })
		gv.EnsureIs("same C2 and C3", back, 65, len(in), func(i int) byte { return in[i] })
	}
}

// From DER to raw and back.
//
//gv:prop C15
func Prove_C15_DERRoundTrip(in []byte, cipherTextType Sm2CipherTextType) {
	gv.Requires(len(in) < 1<<35)
	var back []byte
	var err1, err2 error
	gv.Inline(MarshalCipher, UnmarshalCipher)
	gv.Call(func() {
		var raw []byte
		raw, err1 = UnmarshalCipher(in, cipherTextType)
		if err1 == nil {
			back, err2 = MarshalCipher(raw, cipherTextType)
		}
	})
	if err1 == nil {
		gv.Ensure("no error", err2 == nil)
		if err2 == nil {
			gv.EnsureEq("same encoding", back, in)
		}
	}
}
