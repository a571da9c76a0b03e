package cryptobyte

import (
	"github.com/ZZMarquis/gm/cryptobyte/asn1"
	gv "github.com/ZZMarquis/gm/zzgv"
)

// inside: s is a part of the original string o.
func gvRest(s, o []byte, n int) bool { return len(s) == len(o)-n }

// gvFixed is the common specification of the readers that take n bytes: r is the result, s the string
// afterwards, o the string before.
func gvTaken(r bool, s, o []byte, n int) {
	have := n <= len(o)
	if n == 0 && len(o) == 0 {
		// nothing asked of an empty string: success and failure leave the same string
		gv.Ensure("still empty", len(s) == 0)
		return
	}
	gv.Ensure("succeeds exactly when there are enough bytes", r == (n >= 0 && have))
	if r {
		gv.EnsureEq("remainder", s, o[n:])
	} else {
		gv.Ensure("still inside the string", len(s) <= len(o))
		gv.EnsureEq("a suffix of the string", s, o[len(o)-len(s):])
	}
}

//gv:prop C19
func Prove_C19_Skip(s *String, n int) {
	o := *s
	var r bool
	gv.Modifies(s)
	gv.Call(func() { r = s.Skip(n) })
	gvTaken(r, *s, o, n)
}

//gv:prop C19
func Prove_C19_ReadBytes(s *String, out *[]byte, n int) {
	o := *s
	var r bool
	gv.Modifies(s, out)
	gv.Call(func() { r = s.ReadBytes(out, n) })
	gvTaken(r, *s, o, n)
	if r {
		gv.Ensure("count", len(*out) == n)
		gv.EnsureEq("bytes", *out, o[:n])
	}
}

//gv:prop C19
func Prove_C19_CopyBytes(s *String, out []byte) {
	o := *s
	n := len(out)
	var r bool
	gv.Modifies(s, out)
	gv.Call(func() { r = s.CopyBytes(out) })
	gvTaken(r, *s, o, n)
	if r {
		gv.EnsureEq("bytes", out, o[:n])
	}
}

//gv:prop C19
func Prove_C19_ReadUint8(s *String, out *uint8) {
	o := *s
	var r bool
	gv.Modifies(s, out)
	gv.Call(func() { r = s.ReadUint8(out) })
	gvTaken(r, *s, o, 1)
	if r {
		gv.Ensure("value", *out == o[0])
	}
}

//gv:prop C19
func Prove_C19_ReadUint16(s *String, out *uint16) {
	o := *s
	var r bool
	gv.Modifies(s, out)
	gv.Call(func() { r = s.ReadUint16(out) })
	gvTaken(r, *s, o, 2)
	if r {
		gv.Ensure("value", *out == uint16(o[0])<<8|uint16(o[1]))
	}
}

//gv:prop C19
func Prove_C19_ReadUint24(s *String, out *uint32) {
	o := *s
	var r bool
	gv.Modifies(s, out)
	gv.Call(func() { r = s.ReadUint24(out) })
	gvTaken(r, *s, o, 3)
	if r {
		gv.Ensure("value", *out == gvBE(o, 0, 3))
	}
}

//gv:prop C19
func Prove_C19_ReadUint32(s *String, out *uint32) {
	o := *s
	var r bool
	gv.Modifies(s, out)
	gv.Call(func() { r = s.ReadUint32(out) })
	gvTaken(r, *s, o, 4)
	if r {
		gv.Ensure("value", *out == gvBE(o, 0, 4))
	}
}

// gvBE is the big-endian value of the n bytes of o from position i.
func gvBE(o []byte, i, n int) uint32 {
	v := uint32(0)
	for k := 0; k < n; k++ {
		v = v<<8 | uint32(o[i+k])
	}
	return v
}

// gvPrefixed: a w-byte length followed by that many bytes.
func gvPrefixed(r bool, s, o, out []byte, w int) {
	ok := false
	l := 0
	if len(o) >= w {
		l = int(gvBE(o, 0, w))
		ok = l <= len(o)-w
	}
	gv.Ensure("succeeds exactly when prefix and content are there", r == ok)
	if r {
		gv.Ensure("count", len(out) == l)
		gv.EnsureEq("content", out, o[w:w+l])
		gv.EnsureEq("remainder", s, o[w+l:])
	} else {
		gv.Ensure("still inside the string", len(s) <= len(o))
		gv.EnsureEq("a suffix of the string", s, o[len(o)-len(s):])
	}
}

//gv:prop C19
func Prove_C19_ReadUint8LengthPrefixed(s, out *String) {
	o := *s
	var r bool
	gv.Modifies(s, out)
	gv.Call(func() { r = s.ReadUint8LengthPrefixed(out) })
	gvPrefixed(r, *s, o, *out, 1)
}

//gv:prop C19
func Prove_C19_ReadUint16LengthPrefixed(s, out *String) {
	o := *s
	var r bool
	gv.Modifies(s, out)
	gv.Call(func() { r = s.ReadUint16LengthPrefixed(out) })
	gvPrefixed(r, *s, o, *out, 2)
}

//gv:prop C19
func Prove_C19_ReadUint24LengthPrefixed(s, out *String) {
	o := *s
	var r bool
	gv.Modifies(s, out)
	gv.Call(func() { r = s.ReadUint24LengthPrefixed(out) })
	gvPrefixed(r, *s, o, *out, 3)
}

//gv:prop C19
func Prove_C19_Empty(s String) {
	var r bool
	gv.Call(func() { r = s.Empty() })
	gv.Ensure("empty exactly when no bytes are left", r == (len(s) == 0))
}

// ---------------------------------------------------------------- C20

// gvTLV decides whether o starts with a DER element: low-form tag, minimal definite length of at most
// four octets, content inside o. h is the size of the header, l that of the content.
func gvTLV(o []byte) (ok bool, h, l int) {
	n := len(o)
	if n < 2 || o[0]&0x1f == 0x1f {
		return false, 0, 0
	}
	b := o[1]
	if b < 0x80 {
		return int(b) <= n-2, 2, int(b)
	}
	k := int(b & 0x7f)
	if k < 1 || k > 4 || n < 2+k {
		return false, 0, 0
	}
	v := uint64(0)
	for i := 0; i < 4; i++ {
		if i < k {
			v = v<<8 | uint64(o[2+i])
		}
	}
	// minimal: above 127 and without a leading zero octet
	if v < 0x80 || o[2] == 0 {
		return false, 0, 0
	}
	return v <= uint64(n-2-k), 2 + k, int(v)
}

// gvElem: the specification of the element readers.
func gvElem(r bool, s, o, out []byte, ok bool, h, l int, whole bool) {
	gv.Ensure("accepts exactly the canonical encodings", r == ok)
	if r {
		if whole {
			gv.Ensure("size", len(out) == h+l)
			gv.EnsureEq("element", out, o[:h+l])
		} else {
			gv.Ensure("size", len(out) == l)
			gv.EnsureEq("content", out, o[h:h+l])
		}
		gv.EnsureEq("remainder", s, o[h+l:])
	} else {
		gv.Ensure("still inside the string", len(s) <= len(o))
		gv.EnsureEq("a suffix of the string", s, o[len(o)-len(s):])
	}
}

//gv:prop C20
func Prove_C20_ReadAnyASN1(s, out *String, tag *asn1.Tag) {
	o := *s
	gv.Requires(len(o) < 1<<32)
	ok, h, l := gvTLV(o)
	var r bool
	gv.Modifies(s, out, tag)
	gv.Call(func() { r = s.ReadAnyASN1(out, tag) })
	gvElem(r, *s, o, *out, ok, h, l, false)
	if r {
		gv.Ensure("tag", byte(*tag) == o[0])
	}
}

//gv:prop C20
func Prove_C20_ReadAnyASN1_noTag(s, out *String) {
	o := *s
	gv.Requires(len(o) < 1<<32)
	ok, h, l := gvTLV(o)
	var r bool
	gv.Modifies(s, out)
	gv.Call(func() { r = s.ReadAnyASN1(out, nil) })
	gvElem(r, *s, o, *out, ok, h, l, false)
}

//gv:prop C20
func Prove_C20_ReadAnyASN1Element(s, out *String, tag *asn1.Tag) {
	o := *s
	gv.Requires(len(o) < 1<<32)
	ok, h, l := gvTLV(o)
	var r bool
	gv.Modifies(s, out, tag)
	gv.Call(func() { r = s.ReadAnyASN1Element(out, tag) })
	gvElem(r, *s, o, *out, ok, h, l, true)
	if r {
		gv.Ensure("tag", byte(*tag) == o[0])
	}
}

//gv:prop C20
func Prove_C20_ReadASN1(s, out *String, tag asn1.Tag) {
	o := *s
	gv.Requires(len(o) < 1<<32)
	ok, h, l := gvTLV(o)
	var r bool
	gv.Modifies(s, out)
	gv.Call(func() { r = s.ReadASN1(out, tag) })
	gvElem(r, *s, o, *out, ok && o[0] == byte(tag), h, l, false)
}

// The output may be the string itself: it becomes the content.
//gv:prop C20
func Prove_C20_ReadASN1_inPlace(s *String, tag asn1.Tag) {
	o := *s
	gv.Requires(len(o) < 1<<32)
	ok, h, l := gvTLV(o)
	var r bool
	gv.Modifies(s)
	gv.Call(func() { r = s.ReadASN1(s, tag) })
	gv.Ensure("accepts exactly the canonical encodings", r == (ok && o[0] == byte(tag)))
	if r {
		gv.Ensure("size", len(*s) == l)
		gv.EnsureEq("content", *s, o[h:h+l])
	}
}

//gv:prop C20
func Prove_C20_ReadASN1Element(s, out *String, tag asn1.Tag) {
	o := *s
	gv.Requires(len(o) < 1<<32)
	ok, h, l := gvTLV(o)
	var r bool
	gv.Modifies(s, out)
	gv.Call(func() { r = s.ReadASN1Element(out, tag) })
	gvElem(r, *s, o, *out, ok && o[0] == byte(tag), h, l, true)
}

//gv:prop C20
func Prove_C20_ReadASN1Bytes(s *String, out *[]byte, tag asn1.Tag) {
	o := *s
	gv.Requires(len(o) < 1<<32)
	ok, h, l := gvTLV(o)
	var r bool
	gv.Modifies(s, out)
	gv.Call(func() { r = s.ReadASN1Bytes(out, tag) })
	gvElem(r, *s, o, *out, ok && o[0] == byte(tag), h, l, false)
}

//gv:prop C20
func Prove_C20_SkipASN1(s *String, tag asn1.Tag) {
	o := *s
	gv.Requires(len(o) < 1<<32)
	ok, h, l := gvTLV(o)
	var r bool
	gv.Modifies(s)
	gv.Call(func() { r = s.SkipASN1(tag) })
	gv.Ensure("accepts exactly the canonical encodings", r == (ok && o[0] == byte(tag)))
	if r {
		gv.EnsureEq("remainder", *s, o[h+l:])
	} else {
		gv.EnsureEq("a suffix of the string", *s, o[len(o)-len(*s):])
	}
}

//gv:prop C20
func Prove_C20_PeekASN1Tag(s String, tag asn1.Tag) {
	var r bool
	gv.Call(func() { r = s.PeekASN1Tag(tag) })
	gv.Ensure("true exactly when the next tag is this one", r == (len(s) > 0 && s[0] == byte(tag)))
}

func gvPresent(o []byte, tag asn1.Tag) bool { return len(o) > 0 && o[0] == byte(tag) }

//gv:prop C20
func Prove_C20_ReadOptionalASN1(s, out *String, present *bool, tag asn1.Tag) {
	o, was := *s, *out
	gv.Requires(len(o) < 1<<32)
	ok, h, l := gvTLV(o)
	var r bool
	gv.Modifies(s, out, present)
	gv.Call(func() { r = s.ReadOptionalASN1(out, present, tag) })
	gv.Ensure("reports the presence", *present == gvPresent(o, tag))
	if !gvPresent(o, tag) {
		gv.Ensure("absent is not an error", r)
		gv.EnsureEq("absent consumes nothing", *s, o)
		gv.EnsureEq("absent leaves the output", *out, was)
		return
	}
	gvElem(r, *s, o, *out, ok, h, l, false)
}

//gv:prop C20
func Prove_C20_ReadOptionalASN1_noPresent(s, out *String, tag asn1.Tag) {
	o := *s
	gv.Requires(len(o) < 1<<32)
	ok, h, l := gvTLV(o)
	var r bool
	gv.Modifies(s, out)
	gv.Call(func() { r = s.ReadOptionalASN1(out, nil, tag) })
	if !gvPresent(o, tag) {
		gv.Ensure("absent is not an error", r)
		gv.EnsureEq("absent consumes nothing", *s, o)
		return
	}
	gvElem(r, *s, o, *out, ok, h, l, false)
}

//gv:prop C20
func Prove_C20_SkipOptionalASN1(s *String, tag asn1.Tag) {
	o := *s
	gv.Requires(len(o) < 1<<32)
	ok, h, l := gvTLV(o)
	var r bool
	gv.Modifies(s)
	gv.Call(func() { r = s.SkipOptionalASN1(tag) })
	if !gvPresent(o, tag) {
		gv.Ensure("absent is not an error", r)
		gv.EnsureEq("absent consumes nothing", *s, o)
		return
	}
	gv.Ensure("accepts exactly the canonical encodings", r == ok)
	if r {
		gv.EnsureEq("remainder", *s, o[h+l:])
	}
}
