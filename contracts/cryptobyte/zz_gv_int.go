package cryptobyte

import (
	"math/big"

	"github.com/ZZMarquis/gm/cryptobyte/asn1"
	gv "github.com/ZZMarquis/gm/zzgv"
)

// ---------------------------------------------------------------- C21, decoding

// gvIntTLV decides whether o starts with a DER integer (minimal two's complement content) with this tag.
func gvIntTLV(o []byte, tag asn1.Tag) (ok bool, h, l int) {
	ok, h, l = gvTLV(o)
	if !ok || o[0] != byte(tag) || l < 1 {
		return false, h, l
	}
	if l > 1 {
		first, second := o[h], o[h+1]
		if first == 0 && second < 0x80 || first == 0xff && second >= 0x80 {
			return false, h, l
		}
	}
	return true, h, l
}

// gvSigned is the value of the l content bytes at o[h:], if it fits 64 bits.
func gvSigned(o []byte, h, l int) (fits bool, v int64) {
	if l > 8 {
		return false, 0
	}
	if o[h] >= 0x80 {
		v = -1
	}
	for i := 0; i < 8; i++ {
		if i < l {
			v = v<<8 | int64(o[h+i])
		}
	}
	return true, v
}

func gvUnsigned(o []byte, h, l int) (fits bool, v uint64) {
	if l > 9 || o[h] >= 0x80 || l == 9 && o[h] != 0 {
		return false, 0
	}
	for i := 0; i < 9; i++ {
		if i < l {
			v = v<<8 | uint64(o[h+i])
		}
	}
	return true, v
}

func gvIntLeft(r bool, s, o []byte, h, l int) {
	if r {
		gv.EnsureEq("remainder", s, o[h+l:])
	} else {
		gv.EnsureEq("a suffix of the string", s, o[len(o)-len(s):])
	}
}

func gvReadSigned(o []byte, bits uint) (ok bool, h, l int, v int64) {
	ok, h, l = gvIntTLV(o, asn1.INTEGER)
	if ok {
		ok, v = gvSigned(o, h, l)
		ok = ok && v == v<<(64-bits)>>(64-bits)
	}
	return
}

func gvReadUnsigned(o []byte, bits uint) (ok bool, h, l int, v uint64) {
	ok, h, l = gvIntTLV(o, asn1.INTEGER)
	if ok {
		ok, v = gvUnsigned(o, h, l)
		ok = ok && v == v<<(64-bits)>>(64-bits)
	}
	return
}

func gvReadInt(s *String, out interface{}, bits uint) (r, ok bool, v int64) {
	gv.Unroll(10)
	o := *s
	gv.Requires(len(o) < 1<<32)
	var h, l int
	ok, h, l, v = gvReadSigned(o, bits)
	gv.Modifies(s, out)
	gv.Call(func() { r = s.ReadASN1Integer(out) })
	gv.Ensure("accepts exactly the minimal encodings in range", r == ok)
	gvIntLeft(r, *s, o, h, l)
	return
}

func gvReadUint(s *String, out interface{}, bits uint) (r, ok bool, v uint64) {
	gv.Unroll(10)
	o := *s
	gv.Requires(len(o) < 1<<32)
	var h, l int
	ok, h, l, v = gvReadUnsigned(o, bits)
	gv.Modifies(s, out)
	gv.Call(func() { r = s.ReadASN1Integer(out) })
	gv.Ensure("accepts exactly the minimal encodings in range", r == ok)
	gvIntLeft(r, *s, o, h, l)
	return
}

//gv:prop C21
func Prove_C21_ReadASN1Integer_int64(s *String, out *int64) {
	r, _, v := gvReadInt(s, out, 64)
	gv.Ensure("value", !r || *out == v)
}

//gv:prop C21
func Prove_C21_ReadASN1Integer_int(s *String, out *int) {
	r, _, v := gvReadInt(s, out, 64)
	gv.Ensure("value", !r || int64(*out) == v)
}

//gv:prop C21
func Prove_C21_ReadASN1Integer_int32(s *String, out *int32) {
	r, _, v := gvReadInt(s, out, 32)
	gv.Ensure("value", !r || int64(*out) == v)
}

//gv:prop C21
func Prove_C21_ReadASN1Integer_int16(s *String, out *int16) {
	r, _, v := gvReadInt(s, out, 16)
	gv.Ensure("value", !r || int64(*out) == v)
}

//gv:prop C21
func Prove_C21_ReadASN1Integer_int8(s *String, out *int8) {
	r, _, v := gvReadInt(s, out, 8)
	gv.Ensure("value", !r || int64(*out) == v)
}

//gv:prop C21
func Prove_C21_ReadASN1Integer_uint64(s *String, out *uint64) {
	r, _, v := gvReadUint(s, out, 64)
	gv.Ensure("value", !r || *out == v)
}

//gv:prop C21
func Prove_C21_ReadASN1Integer_uint(s *String, out *uint) {
	r, _, v := gvReadUint(s, out, 64)
	gv.Ensure("value", !r || uint64(*out) == v)
}

//gv:prop C21
func Prove_C21_ReadASN1Integer_uint32(s *String, out *uint32) {
	r, _, v := gvReadUint(s, out, 32)
	gv.Ensure("value", !r || uint64(*out) == v)
}

//gv:prop C21
func Prove_C21_ReadASN1Integer_uint16(s *String, out *uint16) {
	r, _, v := gvReadUint(s, out, 16)
	gv.Ensure("value", !r || uint64(*out) == v)
}

//gv:prop C21
func Prove_C21_ReadASN1Integer_uint8(s *String, out *uint8) {
	r, _, v := gvReadUint(s, out, 8)
	gv.Ensure("value", !r || uint64(*out) == v)
}

//gv:prop C21
func Prove_C21_ReadASN1Enum(s *String, out *int) {
	gv.Unroll(10)
	o := *s
	gv.Requires(len(o) < 1<<32)
	ok, h, l := gvIntTLV(o, asn1.ENUM)
	v := int64(0)
	if ok {
		ok, v = gvSigned(o, h, l)
	}
	var r bool
	gv.Modifies(s, out)
	gv.Call(func() { r = s.ReadASN1Enum(out) })
	gv.Ensure("accepts exactly the minimal encodings in range", r == ok)
	gvIntLeft(r, *s, o, h, l)
	gv.Ensure("value", !r || int64(*out) == v)
}

// gvBig is the value of the two's complement bytes c (not empty).
func gvBig(c []byte) *big.Int {
	if c[0] < 0x80 {
		return gv.Val(c)
	}
	z := gv.Val(gv.Seq(len(c), func(i int) byte { return ^c[i] }))
	z.Add(z, big.NewInt(1))
	return z.Neg(z)
}

//gv:prop C21
func Prove_C21_ReadASN1Integer_big(s *String, out *big.Int) {
	o := *s
	gv.Requires(len(o) < 1<<32)
	ok, h, l := gvIntTLV(o, asn1.INTEGER)
	gv.Loop("complement, range", func(neg []byte, rangeindex int) {
		gv.Inv(0 <= rangeindex+1 && rangeindex < l)
		gv.InvIs(neg, 0, rangeindex+1, func(k int) byte { return ^o[h+k] })
	})
	gv.Loop("complement, index", func(neg []byte, i int) {
		gv.Inv(0 <= i && i <= l)
		gv.InvIs(neg, 0, i, func(k int) byte { return ^o[h+k] })
	})
	var r bool
	gv.Modifies(s, out)
	gv.Call(func() { r = s.ReadASN1Integer(out) })
	gv.Ensure("accepts exactly the minimal encodings", r == ok)
	gvIntLeft(r, *s, o, h, l)
	if r {
		gv.Ensure("value", out.Cmp(gvBig(o[h:h+l])) == 0)
	}
}

// ---------------------------------------------------------------- C21, encoding

// gvSignedLen is the smallest number of octets whose two's complement range contains v.
func gvSignedLen(v int64) int {
	n := 8
	for i := 7; i >= 1; i-- {
		s := uint(64 - 8*i)
		if v<<s>>s == v {
			n = i
		}
	}
	return n
}

func gvUnsignedLen(v uint64) int {
	n := 9
	for i := 8; i >= 1; i-- {
		if v>>uint(8*i-1) == 0 {
			n = i
		}
	}
	return n
}

// gvShortElem: a builder to which a short element (less than 128 bytes of content) was added.
func gvShortElem(b *Builder, buf, old []byte, off int, fixed bool, tag byte, n int, f func(k int) byte) {
	gvGrown(b, buf, old, off, fixed, false, 2+n, func(k int) byte {
		if k == 0 {
			return tag
		}
		if k == 1 {
			return byte(n)
		}
		return f(k - 2)
	})
}

//gv:prop C21
func Prove_C21_AddASN1Int64(buf []byte, off int, fixed bool, in int, v int64) {
	gv.Unroll(10)
	b := gvB2(buf, off, fixed, in)
	old := gv.Snap(buf)
	gv.Modifies(b, b.inContinuation, buf[:cap(buf)])
	gv.Call(func() { b.AddASN1Int64(v) })
	n := gvSignedLen(v)
	gvShortElem(b, buf, old, off, fixed, 2, n, func(k int) byte { return byte(v >> (8 * uint(n-1-k))) })
}

//gv:prop C21
func Prove_C21_AddASN1Enum(buf []byte, off int, fixed bool, in int, v int64) {
	gv.Unroll(10)
	b := gvB2(buf, off, fixed, in)
	old := gv.Snap(buf)
	gv.Modifies(b, b.inContinuation, buf[:cap(buf)])
	gv.Call(func() { b.AddASN1Enum(v) })
	n := gvSignedLen(v)
	gvShortElem(b, buf, old, off, fixed, 10, n, func(k int) byte { return byte(v >> (8 * uint(n-1-k))) })
}

//gv:prop C21
func Prove_C21_AddASN1Uint64(buf []byte, off int, fixed bool, in int, v uint64) {
	gv.Unroll(10)
	b := gvB2(buf, off, fixed, in)
	old := gv.Snap(buf)
	gv.Modifies(b, b.inContinuation, buf[:cap(buf)])
	gv.Call(func() { b.AddASN1Uint64(v) })
	n := gvUnsignedLen(v)
	gvShortElem(b, buf, old, off, fixed, 2, n, func(k int) byte { return byte(v >> (8 * uint(n-1-k))) })
}

// gvTwos is the minimal big-endian two's complement form of n.
func gvTwos(n *big.Int) []byte {
	if n.Sign() == 0 {
		return make([]byte, 1)
	}
	m, x := n, byte(0)
	if n.Sign() < 0 {
		m, x = new(big.Int).Not(n), 0xff
	}
	b := m.Bytes()
	p := 0
	if len(b) == 0 || b[0]&0x80 != 0 {
		p = 1
	}
	return gv.Seq(p+len(b), func(k int) byte {
		if k < p {
			return x
		}
		return b[k-p] ^ x
	})
}

func gvAddBig(sign, h int, buf []byte, off int, fixed bool, in int, n *big.Int) {
	gv.Requires(n.Sign() == sign)
	content := gvTwos(n)
	gv.Requires(gvLenLen(len(content)) == h)
	m := new(big.Int).Not(n).Bytes()
	gv.Loop("complement", func(bytes []byte, rangeindex int) {
		gv.Inv(0 <= rangeindex+1 && rangeindex < len(m))
		gv.InvIs(bytes, 0, rangeindex+1, func(k int) byte { return ^m[k] })
		gv.InvIs(bytes, rangeindex+1, len(m), func(k int) byte { return m[k] })
	})
	gv.Loop("complement, index", func(bytes []byte, i int) {
		gv.Inv(0 <= i && i <= len(m))
		gv.InvIs(bytes, 0, i, func(k int) byte { return ^m[k] })
		gv.InvIs(bytes, i, len(m), func(k int) byte { return m[k] })
	})
	b := gvB2(buf, off, fixed, in)
	old := gv.Snap(buf)
	gv.Modifies(b, b.inContinuation, buf[:cap(buf)])
	gv.Call(func() { b.AddASN1BigInt(n) })
	gvGrown(b, buf, old, off, fixed, len(content) > 0xfffffffe, 1+h+len(content), func(k int) byte { return gvDERByte(2, h, content, k) })
}

//gv:prop C21
func Prove_C21_AddASN1BigInt_zero(buf []byte, off int, fixed bool, in int, n *big.Int) {
	gvAddBig(0, 1, buf, off, fixed, in, n)
}

//gv:prop C21
func Prove_C21_AddASN1BigInt_pos1(buf []byte, off int, fixed bool, in int, n *big.Int) {
	gvAddBig(1, 1, buf, off, fixed, in, n)
}

//gv:prop C21
func Prove_C21_AddASN1BigInt_pos2(buf []byte, off int, fixed bool, in int, n *big.Int) {
	gvAddBig(1, 2, buf, off, fixed, in, n)
}

//gv:prop C21
func Prove_C21_AddASN1BigInt_pos3(buf []byte, off int, fixed bool, in int, n *big.Int) {
	gvAddBig(1, 3, buf, off, fixed, in, n)
}

//gv:prop C21
func Prove_C21_AddASN1BigInt_pos4(buf []byte, off int, fixed bool, in int, n *big.Int) {
	gvAddBig(1, 4, buf, off, fixed, in, n)
}

//gv:prop C21
func Prove_C21_AddASN1BigInt_neg1(buf []byte, off int, fixed bool, in int, n *big.Int) {
	gvAddBig(-1, 1, buf, off, fixed, in, n)
}

//gv:prop C21
func Prove_C21_AddASN1BigInt_neg2(buf []byte, off int, fixed bool, in int, n *big.Int) {
	gvAddBig(-1, 2, buf, off, fixed, in, n)
}

//gv:prop C21
func Prove_C21_AddASN1BigInt_neg3(buf []byte, off int, fixed bool, in int, n *big.Int) {
	gvAddBig(-1, 3, buf, off, fixed, in, n)
}

//gv:prop C21
func Prove_C21_AddASN1BigInt_neg4(buf []byte, off int, fixed bool, in int, n *big.Int) {
	gvAddBig(-1, 4, buf, off, fixed, in, n)
}
