package cryptobyte

import (
	encoding_asn1 "encoding/asn1"
	"math/big"

	"github.com/ZZMarquis/gm/cryptobyte/asn1"
	gv "github.com/ZZMarquis/gm/zzgv"
)

// ---------------------------------------------------------------- C23: after an error

func gvFailed(buf []byte, off int, fixed bool, in int, e error) *Builder {
	gv.Requires(e != nil)
	b := gvB2(buf, off, fixed, in)
	b.err = e
	return b
}

// gvStays: the builder still reports an error and its output did not change.
func gvStays(b *Builder, buf, old []byte, off int, fixed bool) {
	gv.Ensure("still an error", b.err != nil)
	gv.Ensure("same kind of builder", b.fixedSize == fixed && b.offset == off && b.child == nil)
	gv.EnsureEq("addition ignored", b.result, old)
	r, err := b.Bytes()
	gv.Ensure("error from Bytes", err != nil && r == nil)
}

//gv:prop C23
func Prove_C23_sticky_values(buf []byte, off int, fixed bool, in int, e error, which int, v uint32, d []byte, t bool, i int64, u uint64) {
	gv.Requires(0 <= which && which <= 11)
	b := gvFailed(buf, off, fixed, in, e)
	old := gv.Snap(buf)
	gv.Modifies(b)
	gv.Call(func() {
		switch which {
		case 0:
			b.AddUint8(uint8(v))
		case 1:
			b.AddUint16(uint16(v))
		case 2:
			b.AddUint24(v)
		case 3:
			b.AddUint32(v)
		case 4:
			b.AddBytes(d)
		case 5:
			b.AddASN1Int64(i)
		case 6:
			b.AddASN1Uint64(u)
		case 7:
			b.AddASN1Enum(i)
		case 8:
			b.AddASN1OctetString(d)
		case 9:
			b.AddASN1BitString(d)
		case 10:
			b.AddASN1Boolean(t)
		case 11:
			b.AddASN1NULL()
		}
	})
	gvStays(b, buf, old, off, fixed)
}

//gv:prop C23
func Prove_C23_sticky_objects(buf []byte, off int, fixed bool, in int, e error, which int, n *big.Int, oid encoding_asn1.ObjectIdentifier) {
	gv.Requires(0 <= which && which <= 1)
	b := gvFailed(buf, off, fixed, in, e)
	old := gv.Snap(buf)
	gv.Modifies(b)
	gv.Call(func() {
		switch which {
		case 0:
			b.AddASN1BigInt(n)
		case 1:
			b.AddASN1ObjectIdentifier(oid)
		}
	})
	gvStays(b, buf, old, off, fixed)
}

//gv:prop C23
func Prove_C23_sticky_nested(buf []byte, off int, fixed bool, in int, e error, which int, tag asn1.Tag) {
	gv.Requires(0 <= which && which <= 4)
	b := gvFailed(buf, off, fixed, in, e)
	old := gv.Snap(buf)
	called := false
	f := func(c *Builder) { called = true }
	gv.Modifies(b)
	gv.Call(func() {
		switch which {
		case 0:
			b.AddUint8LengthPrefixed(f)
		case 1:
			b.AddUint16LengthPrefixed(f)
		case 2:
			b.AddUint24LengthPrefixed(f)
		case 3:
			b.AddUint32LengthPrefixed(f)
		case 4:
			b.AddASN1(tag, f)
		}
	})
	gvStays(b, buf, old, off, fixed)
	gv.Ensure("continuation not called", !called)
}

// gvValue is a marshalling value that adds some bytes and then reports e.
type gvValue struct {
	d []byte
	e error
}

func (v gvValue) Marshal(b *Builder) error {
	b.AddBytes(v.d)
	return v.e
}

//gv:prop C23
func Prove_C23_AddValue_fails(buf []byte, off int, fixed bool, in int, d []byte, e error) {
	gv.Requires(e != nil)
	b := gvB(buf, off, fixed, in)
	gv.Modifies(b, buf[:cap(buf)])
	gv.Call(func() { b.AddValue(gvValue{d, e}) })
	gv.Ensure("the error is reported", b.err != nil)
}

//gv:prop C23
func Prove_C23_AddValue(buf []byte, off int, fixed bool, in int, d []byte) {
	b := gvB(buf, off, fixed, in)
	old, v := gv.Snap(buf), gv.Snap(d)
	gv.Modifies(b, buf[:cap(buf)])
	gv.Call(func() { b.AddValue(gvValue{d, nil}) })
	gvGrown(b, buf, old, off, fixed, false, len(v), func(k int) byte { return v[k] })
}

//gv:prop C23
func Prove_C23_AddValue_after(buf []byte, off int, fixed bool, in int, d []byte, e error, bad bool, e2 error) {
	b := gvFailed(buf, off, fixed, in, e)
	old := gv.Snap(buf)
	x := gvValue{d: d}
	if bad {
		x.e = e2
	}
	gv.Modifies(b)
	gv.Call(func() { b.AddValue(x) })
	gvStays(b, buf, old, off, fixed)
}

//gv:prop C23
func Prove_C23_BytesOrPanic(buf []byte, off int, fixed bool, in int, bad bool, e error) {
	gv.Requires(e != nil)
	b := gvB2(buf, off, fixed, in)
	if bad {
		b.err = e
	}
	var r []byte
	p := gv.Try(func() { r = b.BytesOrPanic() })
	gv.Ensure("panics exactly after an error", p == bad)
	if !bad {
		gv.EnsureEq("output", r, buf[off:])
	}
}

// A continuation's panic with anything but a BuildError is not swallowed.
//gv:prop C23
func Prove_C23_otherPanic(buf []byte, off int, fixed bool, in int, d []byte, which int, tag asn1.Tag) {
	gv.Requires(0 <= which && which <= 4)
	b := gvB(buf, off, fixed, in)
	n := len(buf)
	called := false
	f := func(c *Builder) {
		called = true
		c.AddBytes(d)
		panic("other")
	}
	gv.Modifies(b, b.inContinuation, buf[:cap(buf)])
	p := gv.Try(func() {
		switch which {
		case 0:
			b.AddUint8LengthPrefixed(f)
		case 1:
			b.AddUint16LengthPrefixed(f)
		case 2:
			b.AddUint24LengthPrefixed(f)
		case 3:
			b.AddUint32LengthPrefixed(f)
		case 4:
			b.AddASN1(tag, f)
		}
	})
	gv.Ensure("panics exactly when the continuation was called", p == called)
	if !p {
		gv.Ensure("not called only after an error", b.err != nil)
		gv.Ensure("not called only for a tag or lack of space", fixed && n+5 > cap(buf) || tag&0x1f == 0x1f && which == 4)
	}
}

// ---------------------------------------------------------------- nesting

// A BuildError from deep inside ends up at the outermost builder.
//gv:prop C23
func Prove_C23_deepPanic(buf []byte, off int, fixed bool, d []byte, e error) {
	gv.Requires(e != nil)
	b := gvB(buf, off, fixed, 0)
	gv.Modifies(b, b.inContinuation, buf[:cap(buf)])
	gv.Call(func() {
		b.AddUint16LengthPrefixed(func(c *Builder) {
			c.AddBytes(d)
			c.AddUint8LengthPrefixed(func(g *Builder) {
				g.AddBytes(d)
				panic(BuildError{Err: e})
			})
		})
	})
	gv.Ensure("the error is reported", b.err != nil)
	gv.Ensure("nothing pending", b.child == nil)
}

//gv:prop C22
func Prove_C22_nested(buf []byte, off int, fixed bool, d, i []byte) {
	b := gvB(buf, off, fixed, 0)
	old, v, w := gv.Snap(buf), gv.Snap(d), gv.Snap(i)
	n, m := len(v), len(w)
	gv.Modifies(b, b.inContinuation, buf[:cap(buf)])
	gv.Call(func() {
		b.AddUint16LengthPrefixed(func(c *Builder) {
			c.AddBytes(d)
			c.AddUint8LengthPrefixed(func(g *Builder) {
				g.AddBytes(i)
			})
		})
	})
	l := n + 1 + m
	gvGrown(b, buf, old, off, fixed, m > 0xff || l > 0xffff, 2+l, func(k int) byte {
		if k < 2 {
			return byte(l >> (8 * uint(1-k)))
		}
		if k < 2+n {
			return v[k-2]
		}
		if k == 2+n {
			return byte(m)
		}
		return w[k-3-n]
	})
}
