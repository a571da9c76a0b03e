package cryptobyte

import (
	"github.com/ZZMarquis/gm/cryptobyte/asn1"
	gv "github.com/ZZMarquis/gm/zzgv"
)

// What package cert relies on when it reads elements (its models gvReadASN1, gvReadAnyASN1 and
// gvReadOptionalASN1 assume no more): no panic and no other effect, for strings of any length. Also, an
// element that was read is a part of the string, and so is the remainder, which is at least two bytes shorter.
func gvPartOf(name string, x, o []byte, lo, hi int) {
	gv.Ensure(name+": part of the string", gv.Or(len(x) == 0, gv.And(lo <= gv.Offset(x, o), gv.Offset(x, o) <= hi-len(x), len(x) <= hi)))
}

func gvWeak(r bool, s, o, out []byte) {
	gv.Ensure("remainder", gv.And(len(s) <= len(o), gv.Or(!r, len(s)+2 <= len(o))))
	gvPartOf("remainder", s, o, len(o)-len(s), len(o))
	if r {
		gvPartOf("element", out, o, 2, len(o)-len(s))
	}
}

//gv:prop C27 C29
func Prove_C29_weak_ReadASN1(s, out *String, tag asn1.Tag) {
	o := *s
	var r bool
	gv.Modifies(s, out)
	gv.Call(func() { r = s.ReadASN1(out, tag) })
	gvWeak(r, *s, o, *out)
}

//gv:prop C27 C29
func Prove_C29_weak_ReadAnyASN1(s, out *String, tag *asn1.Tag) {
	o := *s
	var r bool
	gv.Modifies(s, out, tag)
	gv.Call(func() { r = s.ReadAnyASN1(out, tag) })
	gvWeak(r, *s, o, *out)
}

//gv:prop C27 C29
func Prove_C29_weak_ReadOptionalASN1(s, out *String, present *bool, tag asn1.Tag) {
	o, was := *s, *out
	var r bool
	gv.Modifies(s, out, present)
	gv.Call(func() { r = s.ReadOptionalASN1(out, present, tag) })
	if *present {
		gvWeak(r, *s, o, *out)
		return
	}
	gv.Ensure("absent", r)
	gv.EnsureEq("output untouched", *out, was)
	gv.EnsureEq("untouched", *s, o)
}
