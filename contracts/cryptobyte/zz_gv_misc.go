package cryptobyte

import (
	encoding_asn1 "encoding/asn1"
	"math/big"

	"github.com/ZZMarquis/gm/cryptobyte/asn1"
	gv "github.com/ZZMarquis/gm/zzgv"
)

// ---------------------------------------------------------------- C25, decoding

func gvTagged(o []byte, tag asn1.Tag) (ok bool, h, l int) {
	ok, h, l = gvTLV(o)
	return ok && o[0] == byte(tag), h, l
}

// gvBool decides whether o starts with a DER boolean.
func gvBool(o []byte) (ok, v bool, h, l int) {
	ok, h, l = gvTagged(o, asn1.BOOLEAN)
	if !ok || l != 1 {
		return false, false, h, l
	}
	return o[h] == 0 || o[h] == 0xff, o[h] == 0xff, h, l
}

//gv:prop C25
func Prove_C25_ReadASN1Boolean(s *String, out *bool) {
	o := *s
	gv.Requires(len(o) < 1<<32)
	ok, v, h, l := gvBool(o)
	var r bool
	gv.Modifies(s, out)
	gv.Call(func() { r = s.ReadASN1Boolean(out) })
	gv.Ensure("accepts exactly 00 and FF", r == ok)
	gvIntLeft(r, *s, o, h, l)
	gv.Ensure("value", !r || *out == v)
}

// gvBits decides whether o starts with a DER bit string, pad is its number of unused bits.
func gvBits(o []byte) (ok bool, h, l int, pad byte) {
	ok, h, l = gvTagged(o, asn1.BIT_STRING)
	if !ok || l < 1 {
		return false, h, l, 0
	}
	pad = o[h]
	if pad > 7 || l == 1 && pad != 0 {
		return false, h, l, pad
	}
	if l > 1 {
		last := o[h+l-1]
		for i := uint(0); i < 7; i++ {
			if i < uint(pad) && last>>i&1 != 0 {
				return false, h, l, pad
			}
		}
	}
	return true, h, l, pad
}

//gv:prop C25
func Prove_C25_ReadASN1BitString(s *String, out *encoding_asn1.BitString) {
	gv.Unroll(8)
	o := *s
	gv.Requires(len(o) < 1<<32)
	ok, h, l, pad := gvBits(o)
	var r bool
	gv.Modifies(s, out)
	gv.Call(func() { r = s.ReadASN1BitString(out) })
	gv.Ensure("accepts exactly the canonical bit strings", r == ok)
	gvIntLeft(r, *s, o, h, l)
	if r {
		gv.Ensure("number of bits", out.BitLength == (l-1)*8-int(pad))
		gv.EnsureEq("bits", out.Bytes, o[h+1:h+l])
	}
}

//gv:prop C25
func Prove_C25_ReadASN1BitStringAsBytes(s *String, out *[]byte) {
	o := *s
	gv.Requires(len(o) < 1<<32)
	ok, h, l := gvTagged(o, asn1.BIT_STRING)
	ok = ok && l > 0 && o[h] == 0
	var r bool
	gv.Modifies(s, out)
	gv.Call(func() { r = s.ReadASN1BitStringAsBytes(out) })
	gv.Ensure("accepts exactly whole-byte bit strings", r == ok)
	gvIntLeft(r, *s, o, h, l)
	if r {
		gv.EnsureEq("bits", *out, o[h+1:h+l])
	}
}

//gv:prop C25
func Prove_C25_ReadOptionalASN1Boolean(s *String, out *bool, dflt bool) {
	o := *s
	gv.Requires(len(o) < 1<<32)
	ok, v, h, l := gvBool(o)
	var r bool
	gv.Modifies(s, out)
	gv.Call(func() { r = s.ReadOptionalASN1Boolean(out, dflt) })
	if !gvPresent(o, asn1.BOOLEAN) {
		gv.Ensure("absent is not an error", r)
		gv.Ensure("default", *out == dflt)
		gv.EnsureEq("absent consumes nothing", *s, o)
		return
	}
	gv.Ensure("accepts exactly 00 and FF", r == ok)
	gvIntLeft(r, *s, o, h, l)
	gv.Ensure("value", !r || *out == v)
}

//gv:prop C25
func Prove_C25_ReadOptionalASN1OctetString(s *String, out *[]byte, present *bool, tag asn1.Tag) {
	o := *s
	gv.Requires(len(o) < 1<<32)
	ok, h, l := gvTagged(o, tag)
	ok2, h2, l2 := false, 0, 0
	if ok {
		ok2, h2, l2 = gvTagged(o[h:h+l], asn1.OCTET_STRING)
		ok2 = ok2 && h2+l2 == l
	}
	var r bool
	gv.Modifies(s, out, present)
	gv.Call(func() { r = s.ReadOptionalASN1OctetString(out, present, tag) })
	if !gvPresent(o, tag) {
		gv.Ensure("absent is not an error", r)
		gv.Ensure("absent is reported", !*present)
		gv.Ensure("nothing", len(*out) == 0)
		gv.EnsureEq("absent consumes nothing", *s, o)
		return
	}
	gv.Ensure("accepts exactly one octet string inside", r == ok2)
	gvIntLeft(r, *s, o, h, l)
	if r {
		gv.Ensure("present is reported", *present)
		gv.EnsureEq("content", *out, o[h+h2:h+h2+l2])
	}
}

//gv:prop C25
func Prove_C25_ReadOptionalASN1OctetString_noPresent(s *String, out *[]byte, tag asn1.Tag) {
	o := *s
	gv.Requires(len(o) < 1<<32)
	var r bool
	gv.Modifies(s, out)
	gv.Call(func() { r = s.ReadOptionalASN1OctetString(out, nil, tag) })
	if !gvPresent(o, tag) {
		gv.Ensure("absent is not an error", r)
		gv.EnsureEq("absent consumes nothing", *s, o)
	}
}

//gv:prop C25
func Prove_C25_ReadOptionalASN1Integer_int64(s *String, out *int64, tag asn1.Tag, dflt int64) {
	gv.Unroll(10)
	o := *s
	gv.Requires(len(o) < 1<<32)
	ok, h, l := gvTagged(o, tag)
	ok2, h2, l2, v := false, 0, 0, int64(0)
	if ok {
		ok2, h2, l2, v = gvReadSigned(o[h:h+l], 64)
		ok2 = ok2 && h2+l2 == l
	}
	var r bool
	gv.Modifies(s, out)
	gv.Call(func() { r = s.ReadOptionalASN1Integer(out, tag, dflt) })
	if !gvPresent(o, tag) {
		gv.Ensure("absent is not an error", r)
		gv.Ensure("default", *out == dflt)
		gv.EnsureEq("absent consumes nothing", *s, o)
		return
	}
	gv.Ensure("accepts exactly one integer in range inside", r == ok2)
	gvIntLeft(r, *s, o, h, l)
	gv.Ensure("value", !r || *out == v)
}

//gv:prop C25
func Prove_C25_ReadOptionalASN1Integer_uint32(s *String, out *uint32, tag asn1.Tag, dflt uint32) {
	gv.Unroll(10)
	o := *s
	gv.Requires(len(o) < 1<<32)
	ok, h, l := gvTagged(o, tag)
	ok2, h2, l2, v := false, 0, 0, uint64(0)
	if ok {
		ok2, h2, l2, v = gvReadUnsigned(o[h:h+l], 32)
		ok2 = ok2 && h2+l2 == l
	}
	var r bool
	gv.Modifies(s, out)
	gv.Call(func() { r = s.ReadOptionalASN1Integer(out, tag, dflt) })
	if !gvPresent(o, tag) {
		gv.Ensure("absent is not an error", r)
		gv.Ensure("default", *out == dflt)
		gv.EnsureEq("absent consumes nothing", *s, o)
		return
	}
	gv.Ensure("accepts exactly one integer in range inside", r == ok2)
	gvIntLeft(r, *s, o, h, l)
	gv.Ensure("value", !r || uint64(*out) == v)
}

//gv:prop C25
func Prove_C25_ReadOptionalASN1Integer_bigAbsent(s *String, out *big.Int, tag asn1.Tag, dflt *big.Int) {
	o := *s
	gv.Requires(len(o) < 1<<32)
	gv.Requires(!gvPresent(o, tag))
	d := new(big.Int).Set(dflt)
	var r bool
	gv.Modifies(s, out)
	gv.Call(func() { r = s.ReadOptionalASN1Integer(out, tag, dflt) })
	gv.Ensure("absent is not an error", r)
	gv.Ensure("default", out.Cmp(d) == 0)
	gv.EnsureEq("absent consumes nothing", *s, o)
}

// ---------------------------------------------------------------- C25, encoding

//gv:prop C25
func Prove_C25_AddASN1Boolean(buf []byte, off int, fixed bool, in int, v bool) {
	b := gvB2(buf, off, fixed, in)
	old := gv.Snap(buf)
	gv.Modifies(b, b.inContinuation, buf[:cap(buf)])
	gv.Call(func() { b.AddASN1Boolean(v) })
	gvShortElem(b, buf, old, off, fixed, 1, 1, func(k int) byte {
		if v {
			return 0xff
		}
		return 0
	})
}

//gv:prop C25
func Prove_C25_AddASN1NULL(buf []byte, off int, fixed bool, in int) {
	b := gvB2(buf, off, fixed, in)
	old := gv.Snap(buf)
	gv.Modifies(b, b.inContinuation, buf[:cap(buf)])
	gv.Call(func() { b.AddASN1NULL() })
	gvShortElem(b, buf, old, off, fixed, 5, 0, func(k int) byte { return 0 })
}

func gvAddStr(bits bool, h int, buf []byte, off int, fixed bool, in int, data []byte) {
	v, tag := gv.Snap(data), byte(4)
	content := v
	if bits {
		tag = 3
		content = gv.Seq(1+len(v), func(k int) byte {
			if k == 0 {
				return 0
			}
			return v[k-1]
		})
	}
	gv.Requires(gvLenLen(len(content)) == h)
	b := gvB2(buf, off, fixed, in)
	old := gv.Snap(buf)
	gv.Modifies(b, b.inContinuation, buf[:cap(buf)])
	gv.Call(func() {
		if bits {
			b.AddASN1BitString(data)
		} else {
			b.AddASN1OctetString(data)
		}
	})
	gvGrown(b, buf, old, off, fixed, len(content) > 0xfffffffe, 1+h+len(content), func(k int) byte { return gvDERByte(tag, h, content, k) })
}

//gv:prop C25
func Prove_C25_AddASN1OctetString_1(buf []byte, off int, fixed bool, in int, data []byte) {
	gvAddStr(false, 1, buf, off, fixed, in, data)
}

//gv:prop C25
func Prove_C25_AddASN1BitString_1(buf []byte, off int, fixed bool, in int, data []byte) {
	gvAddStr(true, 1, buf, off, fixed, in, data)
}

//gv:prop C25
func Prove_C25_AddASN1OctetString_2(buf []byte, off int, fixed bool, in int, data []byte) {
	gvAddStr(false, 2, buf, off, fixed, in, data)
}

//gv:prop C25
func Prove_C25_AddASN1BitString_2(buf []byte, off int, fixed bool, in int, data []byte) {
	gvAddStr(true, 2, buf, off, fixed, in, data)
}

//gv:prop C25
func Prove_C25_AddASN1OctetString_3(buf []byte, off int, fixed bool, in int, data []byte) {
	gvAddStr(false, 3, buf, off, fixed, in, data)
}

//gv:prop C25
func Prove_C25_AddASN1BitString_3(buf []byte, off int, fixed bool, in int, data []byte) {
	gvAddStr(true, 3, buf, off, fixed, in, data)
}

//gv:prop C25
func Prove_C25_AddASN1OctetString_4(buf []byte, off int, fixed bool, in int, data []byte) {
	gvAddStr(false, 4, buf, off, fixed, in, data)
}

//gv:prop C25
func Prove_C25_AddASN1BitString_4(buf []byte, off int, fixed bool, in int, data []byte) {
	gvAddStr(true, 4, buf, off, fixed, in, data)
}

