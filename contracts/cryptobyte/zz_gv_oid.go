package cryptobyte

import (
	encoding_asn1 "encoding/asn1"

	"github.com/ZZMarquis/gm/cryptobyte/asn1"
	gv "github.com/ZZMarquis/gm/zzgv"
)

// gvAt: byte i of o; a continuation byte beyond the end.
func gvAt(o []byte, i int) byte {
	if i < 0 || i >= len(o) {
		return 0x80
	}
	return o[i]
}

// A minimal base-128 number below 2^31 is at most 5 bytes long: every byte but the last has the top bit
// set, and the first is not a padding 0x80. gv128len is its length (9: there is none), gv128val its value.
func gv128len(a, b, c, d, e byte) int {
	n := gv.Ite(a < 0x80, 1, gv.Ite(b < 0x80, 2, gv.Ite(c < 0x80, 3, gv.Ite(d < 0x80, 4, gv.Ite(e < 0x80, 5, 9)))))
	return gv.Ite(gv.Or(a == 0x80, gv.And(n == 5, a >= 0x88)), 9, n)
}

func gv128val(a, b, c, d, e byte) int {
	s7 := func(v int, x byte) int { return v<<7 | int(x&0x7f) }
	v1 := int(a & 0x7f)
	v2 := s7(v1, b)
	v3 := s7(v2, c)
	v4 := s7(v3, d)
	return gv.Ite(a < 0x80, v1, gv.Ite(b < 0x80, v2, gv.Ite(c < 0x80, v3, gv.Ite(d < 0x80, v4, s7(v4, e)))))
}

// gvLen, gvVal: the same for the number o starts with.
func gvLen(o []byte) int {
	return gv128len(gvAt(o, 0), gvAt(o, 1), gvAt(o, 2), gvAt(o, 3), gvAt(o, 4))
}

func gvVal(o []byte) int {
	return gv128val(gvAt(o, 0), gvAt(o, 1), gvAt(o, 2), gvAt(o, 3), gvAt(o, 4))
}

// gvNext: where the number after the one at q starts; -1 if there is none at q.
func gvNext(c []byte, q int) int {
	if q < 0 || q >= len(c) {
		return -1
	}
	n := gvLen(c[q:])
	return gv.Ite(n == 9, -1, q+n)
}

func gvValAt(c []byte, q int) int {
	if q < 0 || q >= len(c) {
		return 0
	}
	return gvVal(c[q:])
}

//gv:prop C24
func GV_String_readBase128Int(s *String, out *int) (r bool) {
	gv.Unroll(10)
	o := *s
	n, v := gvLen(o), gvVal(o)
	gv.Modifies(out)
	gv.Changes(s)
	gv.Call(func() { r = s.readBase128Int(out) })
	gv.Ensure("accepts exactly the minimal numbers below 2^31", r == (n != 9))
	gv.Ensure("fits", gv.Implies(r, gv.And(1 <= n, n <= 5, n <= len(o), 0 <= v)))
	if r {
		gv.Ensure("value", *out == v)
		gv.Set(s, o[n:])
	}
	return
}

// gvPos: where base-128 number i of c starts; -1 once something that is none has been met.
func gvPos(c []byte, l int) []int {
	return gv.Rec("pos", l+2, func(p []int, i int) int {
		if i == 0 {
			return 0
		}
		return gvNext(c, p[i-1])
	})
}

// gvHeader: the length octets of o make a header of hl octets.
func gvHeader(o []byte, hl int) {
	if hl == 2 {
		gv.Requires(o[1] < 0x80)
	} else {
		gv.Requires(o[1] == byte(0x80+hl-2))
	}
}

// Every accepted content is a concatenation of minimal base-128 numbers below 2^31, whose values are the
// components.
//
func gvOid_sound(s *String, out *encoding_asn1.ObjectIdentifier, hl int) {
	gv.Opaque(gvLen, gvVal)
	gv.Option("nomerge")
	o := *s
	gv.Requires(len(o) < 1<<32)
	ok, h, l := gvTagged(o, asn1.OBJECT_IDENTIFIER)
	gv.Requires(ok && l > 0)
	gvHeader(o, hl)
	gv.Requires(h == hl)
	h = hl
	c := o[h : h+l]
	pos := gvPos(c, l)
	gv.Lemma("the first number starts at 0", pos[0] == 0)
	val := gv.Seq(l+1, func(i int) int { return gvValAt(c, pos[i]) })
	gv.Loop("numbers", func(bytes String, components []int, i int) {
		gv.Inv(gv.And(2 <= i, i-1 <= l-len(bytes)))
		gv.Inv(len(bytes) <= l)
		gv.Inv(pos[i-1] == l-len(bytes))
		gv.Inv(gv.Offset(bytes, c) == l-len(bytes))
		gv.Inv(components[0]*40+components[1] == val[0])
		gv.Inv(gv.And(components[0] >= 0, components[0] <= 2, components[1] >= 0, gv.Or(components[0] == 2, components[1] < 40)))
		gv.InvIs(components, 2, i, func(k int) int { return val[k-1] })
	})
	var r bool
	gv.Modifies(s, out)
	gv.Call(func() { r = s.ReadASN1ObjectIdentifier(out) })
	if !r {
		return
	}
	gv.EnsureEq("remainder", *s, o[h+l:])
	m := len(*out) - 1
	gv.Ensure("number of components", gv.And(1 <= m, m <= l))
	gv.Ensure("the numbers fill the content", pos[m] == l)
	gv.EnsureIs("components", *out, 2, m+1, func(k int) int { return val[k-1] })
	a, b := (*out)[0], (*out)[1]
	gv.Ensure("first two components", gv.And(a*40+b == val[0], a >= 0, a <= 2, b >= 0, gv.Or(a == 2, b < 40)))
}

// What is no element with the tag, or has no content, is refused.
//
//gv:prop C24
func Prove_C24_Decode_reject(s *String, out *encoding_asn1.ObjectIdentifier) {
	gv.Opaque(gvLen, gvVal)
	o := *s
	gv.Requires(len(o) < 1<<32)
	ok, _, l := gvTagged(o, asn1.OBJECT_IDENTIFIER)
	gv.Requires(gv.Or(!ok, l == 0))
	var r bool
	gv.Modifies(s, out)
	gv.Call(func() { r = s.ReadASN1ObjectIdentifier(out) })
	gv.Ensure("refused", !r)
}

// Every content that is a concatenation of m minimal base-128 numbers below 2^31 is accepted: p[k] is where
// number k starts, w[k] says that there is one and that number k+1 follows it.
//
func gvOid_complete(s *String, out *encoding_asn1.ObjectIdentifier, p []int, w []bool, m int, hl int) {
	gv.Opaque(gvLen, gvVal)
	gv.Option("nomerge")
	o := *s
	gv.Requires(len(o) < 1<<32)
	ok, h, l := gvTagged(o, asn1.OBJECT_IDENTIFIER)
	gv.Requires(ok && l > 0)
	gvHeader(o, hl)
	gv.Requires(h == hl)
	h = hl
	c := o[h : h+l]
	gv.Requires(gv.And(1 <= m, m < len(p), m < len(w)))
	gv.RequiresEach(w, 0, m, func(k int) bool { return true })
	gv.RequiresEach(w, 0, m, func(k int) bool {
		n := gvNext(c, p[k])
		return gv.And(n >= 0, p[k+1] == n)
	})
	gv.Requires(gv.And(p[0] == 0, p[m] == l))
	gv.Lemma("there is a first number", gv.And(w[0], p[1] == gvNext(c, 0)))
	gv.Loop("numbers", func(bytes String, components []int, i int) {
		gv.Inv(gv.And(2 <= i, i-1 <= m))
		gv.Inv(p[i-1] == l-len(bytes))
		gv.Inv(gv.Or(i-1 == m, w[i-1]))
		gv.Inv(len(bytes) <= l)
		gv.Inv(i-1 <= l-len(bytes))
		gv.Inv(gv.Offset(bytes, c) == l-len(bytes))
	})
	var r bool
	gv.Modifies(s, out)
	gv.Call(func() { r = s.ReadASN1ObjectIdentifier(out) })
	gv.Ensure("accepted", r)
}

//gv:prop C24
func Prove_C24_Decode_sound2(s *String, out *encoding_asn1.ObjectIdentifier) { gvOid_sound(s, out, 2) }

//gv:prop C24
func Prove_C24_Decode_complete2(s *String, out *encoding_asn1.ObjectIdentifier, p []int, w []bool, m int) {
	gvOid_complete(s, out, p, w, m, 2)
}

//gv:prop C24
func Prove_C24_Decode_sound3(s *String, out *encoding_asn1.ObjectIdentifier) { gvOid_sound(s, out, 3) }

//gv:prop C24
func Prove_C24_Decode_complete3(s *String, out *encoding_asn1.ObjectIdentifier, p []int, w []bool, m int) {
	gvOid_complete(s, out, p, w, m, 3)
}

//gv:prop C24
func Prove_C24_Decode_sound4(s *String, out *encoding_asn1.ObjectIdentifier) { gvOid_sound(s, out, 4) }

//gv:prop C24
func Prove_C24_Decode_complete4(s *String, out *encoding_asn1.ObjectIdentifier, p []int, w []bool, m int) {
	gvOid_complete(s, out, p, w, m, 4)
}

//gv:prop C24
func Prove_C24_Decode_sound5(s *String, out *encoding_asn1.ObjectIdentifier) { gvOid_sound(s, out, 5) }

//gv:prop C24
func Prove_C24_Decode_complete5(s *String, out *encoding_asn1.ObjectIdentifier, p []int, w []bool, m int) {
	gvOid_complete(s, out, p, w, m, 5)
}

//gv:prop C24
func Prove_C24_Decode_sound6(s *String, out *encoding_asn1.ObjectIdentifier) { gvOid_sound(s, out, 6) }

//gv:prop C24
func Prove_C24_Decode_complete6(s *String, out *encoding_asn1.ObjectIdentifier, p []int, w []bool, m int) {
	gvOid_complete(s, out, p, w, m, 6)
}

// ---------------------------------------------------------------- encoder

// gvSept is the number of base-128 digits of v >= 0; gvSeptByte the digit k of n.
func gvSept(v int64) int {
	n := 9
	for i := 8; i >= 1; i-- {
		if v>>uint(7*i) == 0 {
			n = i
		}
	}
	return n
}

func gvSeptByte(v int64, n, k int) byte {
	d := byte(v>>(7*uint(n-1-k))) & 0x7f
	return gv.Ite(k < n-1, d|0x80, d)
}

// Every number that is not negative is encoded minimally.
//
//gv:prop C24
func Prove_C24_addBase128Int(buf []byte, off int, fixed bool, in int, v int64) {
	gv.Requires(v >= 0)
	gv.Unroll(10)
	b := gvB2(buf, off, fixed, in)
	old := gv.Snap(buf)
	gv.Modifies(b, b.inContinuation, buf[:cap(buf)])
	gv.Call(func() { b.addBase128Int(v) })
	n := gvSept(v)
	gvGrown(b, buf, old, off, fixed, false, n, func(k int) byte { return gvSeptByte(v, n, k) })
}

// What was encoded is decoded again (up to 2^31).
//
//gv:prop C24
func Prove_C24_number(v int64, rest []byte) {
	gv.Requires(0 <= v && v < 1<<31)
	n := gvSept(v)
	o := gv.Seq(n+len(rest), func(k int) byte {
		if k < n {
			return gvSeptByte(v, n, k)
		}
		return rest[k-n]
	})
	gv.Ensure("length", gvLen(o) == n)
	gv.Ensure("value", gvVal(o) == int(v))
}

// isValidOID: a component w that is negative makes an identifier invalid, whichever it is …
//
//gv:prop C24
func Prove_C24_invalid(oid encoding_asn1.ObjectIdentifier, w int) {
	n := len(oid)
	gv.Requires(0 <= w && w < n)
	gv.Loop("components", func(rangeindex int) { gv.Inv(gv.Or(w > rangeindex, oid[w] >= 0)) })
	gv.Loop("components, index", func(i int) { gv.Inv(gv.Or(w >= i, oid[w] >= 0)) })
	var r bool
	gv.Call(func() { r = isValidOID(oid) })
	gv.Ensure("two components", gv.Implies(r, n >= 2))
	if n < 2 {
		return
	}
	gv.Ensure("first two", gv.Implies(r, gv.And(oid[0] <= 2, gv.Or(oid[0] == 2, oid[1] < 40))))
	gv.Ensure("none negative", gv.Implies(oid[w] < 0, !r))
}

//gv:prop C24
func Prove_C24_short(oid encoding_asn1.ObjectIdentifier) {
	gv.Requires(len(oid) < 2)
	var r bool
	gv.Call(func() { r = isValidOID(oid) })
	gv.Ensure("invalid", !r)
}

// … and without one it is valid.
//
//gv:prop C24
func Prove_C24_valid(oid encoding_asn1.ObjectIdentifier, a []int) {
	n := len(oid)
	gv.Requires(n >= 2 && len(a) == n)
	gv.RequiresEach(oid, 0, n, func(k int) int { return a[k] & (1<<63 - 1) })
	gv.Requires(gv.And(oid[0] <= 2, gv.Or(oid[0] == 2, oid[1] < 40)))
	var r bool
	gv.Call(func() { r = isValidOID(oid) })
	gv.Ensure("valid", r)
}

// gvAddOid: the encoder with an identifier of n components; the numbers are below 2^31.
func gvAddOid(n int, buf []byte, off int, fixed bool, in int, oid encoding_asn1.ObjectIdentifier) {
	gv.Requires(len(oid) == n)
	valid := true
	for _, v := range oid {
		gv.Requires(v < 1<<31-80)
		valid = gv.And(valid, v >= 0)
	}
	valid = gv.And(valid, oid[0] <= 2, gv.Or(oid[0] == 2, oid[1] < 40))
	b := gvB2(buf, off, fixed, in)
	old := gv.Snap(buf)
	gv.Modifies(b, b.inContinuation, buf[:cap(buf)])
	gv.Call(func() { b.AddASN1ObjectIdentifier(oid) })
	if !valid {
		gvGrown(b, buf, old, off, fixed, true, 0, nil)
		return
	}
	x := int64(oid[0])*40 + int64(oid[1])
	lx := gvSept(x)
	if n == 2 {
		gvShortElem(b, buf, old, off, fixed, 6, lx, func(k int) byte { return gvSeptByte(x, lx, k) })
		return
	}
	y := int64(oid[2])
	ly := gvSept(y)
	gvShortElem(b, buf, old, off, fixed, 6, lx+ly, func(k int) byte {
		if k < lx {
			return gvSeptByte(x, lx, k)
		}
		return gvSeptByte(y, ly, k-lx)
	})
}

//gv:prop C24
func Prove_C24_Encode_bounded2(buf []byte, off int, fixed bool, in int, oid encoding_asn1.ObjectIdentifier) {
	gvAddOid(2, buf, off, fixed, in, oid)
}
