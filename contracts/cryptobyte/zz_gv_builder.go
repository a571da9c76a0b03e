package cryptobyte

import (
	"errors"

	"github.com/ZZMarquis/gm/cryptobyte/asn1"

	gv "github.com/ZZMarquis/gm/zzgv"
)

// gvB is an arbitrary builder whose output so far is buf[off:], outside (in == 0) or inside a
// continuation.
func gvB(buf []byte, off int, fixed bool, in int) *Builder {
	gv.Inline((*Builder).add)
	return gvB2(buf, off, fixed, in)
}

// gvB2 is the same for proofs that use the contract of add.
func gvB2(buf []byte, off int, fixed bool, in int) *Builder {
	gv.Requires(0 <= off && off <= len(buf))
	b := &Builder{result: buf, offset: off, fixedSize: fixed}
	if in == 1 {
		x := true
		b.inContinuation = &x
	} else if in == 2 {
		x := false
		b.inContinuation = &x
	}
	return b
}

// gvGrown: what a builder must look like after n bytes (given by f) were to be added to its output;
// bad: they cannot be added for another reason than lack of space.
func gvGrown(b *Builder, buf, old []byte, off int, fixed, bad bool, n int, f func(k int) byte) {
	gv.Ensure("same kind of builder", b.fixedSize == fixed && b.offset == off)
	gv.Ensure("nothing pending", b.child == nil)
	if fixed {
		gv.Ensure("same buffer", cap(b.result) == cap(buf) && (gv.Shares(b.result, buf) || cap(buf) == 0))
	}
	if bad || fixed && len(old)+n > cap(buf) {
		gv.Ensure("an error is reported", b.err != nil)
		return
	}
	gv.Ensure("no error", b.err == nil)
	gv.Ensure("size", len(b.result) == len(old)+n)
	gv.EnsureIs("earlier output", b.result, 0, len(old), func(k int) byte { return old[k] })
	gv.EnsureIs("added bytes", b.result, len(old), len(old)+n, func(k int) byte { return f(k - len(old)) })
	r, err := b.Bytes()
	gv.Ensure("no error from Bytes", err == nil)
	gv.EnsureEq("output", r, b.result[off:])
}

// GV_Builder_add is the contract of the one function that writes output. The new output of a growing
// builder is stated by content: whether it still shares the old array is left open (the harnesses below
// that are about aliasing execute add itself).
//
//gv:prop C22 C23
func GV_Builder_add(b *Builder, bytes ...byte) {
	gv.RequiresNil(&b.child)
	old := b.result
	pre, v := gv.Snap(old), gv.Snap(bytes)
	failed, fixed := b.err != nil, b.fixedSize
	n, m := len(pre), len(v)
	if failed {
		gv.Modifies(&b.err)
	} else {
		gv.Modifies(&b.result, &b.err, old[n:cap(old)])
	}
	gv.Call(func() { b.add(bytes...) })
	if failed {
		gv.Ensure("still failed", b.err != nil)
		return
	}
	if fixed && n+m > cap(old) {
		gv.Ensure("an error is reported", b.err != nil)
		gv.Set(&b.result, old)
		return
	}
	gv.Ensure("no error", b.err == nil)
	if fixed {
		gv.Set(&b.result, old[:n+m])
		gv.EnsureIs("added bytes", b.result, n, n+m, func(k int) byte { return v[k-n] })
		return
	}
	gv.Set(&b.result, gv.Seq(n+m, func(k int) byte {
		if k < n {
			return pre[k]
		}
		return v[k-n]
	}))
}

//gv:prop C22 C23
func Prove_C22_AddBytes(buf []byte, off int, fixed bool, in int, v []byte) {
	b := gvB(buf, off, fixed, in)
	old, w := gv.Snap(buf), gv.Snap(v)
	gv.Modifies(b, buf[:cap(buf)])
	gv.Call(func() { b.AddBytes(v) })
	gvGrown(b, buf, old, off, fixed, false, len(w), func(k int) byte { return w[k] })
}

//gv:prop C22 C23
func Prove_C22_AddUint8(buf []byte, off int, fixed bool, in int, v uint8) {
	b := gvB(buf, off, fixed, in)
	old := gv.Snap(buf)
	gv.Modifies(b, buf[:cap(buf)])
	gv.Call(func() { b.AddUint8(v) })
	gvGrown(b, buf, old, off, fixed, false, 1, func(k int) byte { return v })
}

//gv:prop C22 C23
func Prove_C22_AddUint16(buf []byte, off int, fixed bool, in int, v uint16) {
	b := gvB(buf, off, fixed, in)
	old := gv.Snap(buf)
	gv.Modifies(b, buf[:cap(buf)])
	gv.Call(func() { b.AddUint16(v) })
	gvGrown(b, buf, old, off, fixed, false, 2, func(k int) byte { return byte(v >> (8 * (1 - uint(k)))) })
}

//gv:prop C22 C23
func Prove_C22_AddUint24(buf []byte, off int, fixed bool, in int, v uint32) {
	b := gvB(buf, off, fixed, in)
	old := gv.Snap(buf)
	gv.Modifies(b, buf[:cap(buf)])
	gv.Call(func() { b.AddUint24(v) })
	gvGrown(b, buf, old, off, fixed, false, 3, func(k int) byte { return byte(v >> (8 * (2 - uint(k)))) })
}

//gv:prop C22 C23
func Prove_C22_AddUint32(buf []byte, off int, fixed bool, in int, v uint32) {
	b := gvB(buf, off, fixed, in)
	old := gv.Snap(buf)
	gv.Modifies(b, buf[:cap(buf)])
	gv.Call(func() { b.AddUint32(v) })
	gvGrown(b, buf, old, off, fixed, false, 4, func(k int) byte { return byte(v >> (8 * (3 - uint(k)))) })
}

// gvErr is some error.
func gvErr() error { return errors.New("an error") }

// ---------------------------------------------------------------- framing

// What a continuation does to the builder it is given is, by the contracts of every method (above and
// below), to append some bytes or to record an error, and it may panic; gvCont is an arbitrary one.
func gvCont(content []byte, mode int, e error) BuilderContinuation {
	return func(c *Builder) {
		c.AddBytes(content)
		switch mode {
		case 1:
			c.err = e
		case 2:
			panic(BuildError{Err: e})
		}
	}
}

// gvLenLen is the number of octets of the DER length n.
func gvLenLen(n int) int {
	if n < 0x80 {
		return 1
	}
	if n < 0x100 {
		return 2
	}
	if n < 0x10000 {
		return 3
	}
	if n < 0x1000000 {
		return 4
	}
	return 5
}

// gvDERByte is byte k of the DER element with this tag and content (h octets of length).
func gvDERByte(tag byte, h int, content []byte, k int) byte {
	n := len(content)
	if k == 0 {
		return tag
	}
	if k > h {
		return content[k-1-h]
	}
	if h == 1 {
		return byte(n)
	}
	if k == 1 {
		return byte(0x80 | (h - 1))
	}
	return byte(n >> (8 * uint(h-k)))
}

func gvPrefByte(w int, content []byte, k int) byte {
	if k < w {
		return byte(len(content) >> (8 * uint(w-1-k)))
	}
	return content[k-w]
}

// mode: 0 an ordinary continuation, 1 the child ends with an error, 2 it panics with a BuildError
func gvPrefixedCase(w int, buf []byte, off int, fixed bool, in int, content []byte, mode int, e error) {
	gv.Requires(0 <= mode && mode <= 2 && e != nil)
	gv.Requires(!(mode == 2 && in == 1)) // the panic is the business of the outermost call
	b := gvB(buf, off, fixed, in)
	old, v := gv.Snap(buf), gv.Snap(content)
	gv.Modifies(b, b.inContinuation, buf[:cap(buf)])
	f := gvCont(content, mode, e)
	switch w {
	case 1:
		gv.Call(func() { b.AddUint8LengthPrefixed(f) })
	case 2:
		gv.Call(func() { b.AddUint16LengthPrefixed(f) })
	case 3:
		gv.Call(func() { b.AddUint24LengthPrefixed(f) })
	case 4:
		gv.Call(func() { b.AddUint32LengthPrefixed(f) })
	}
	bad := mode != 0 || len(v)>>(8*uint(w)) != 0
	gvGrown(b, buf, old, off, fixed, bad, w+len(v), func(k int) byte { return gvPrefByte(w, v, k) })
	if b.inContinuation != nil {
		gv.Ensure("inside a continuation as before", *b.inContinuation == (in == 1))
	}
}

//gv:prop C22 C23
func Prove_C22_AddUint8LengthPrefixed(buf []byte, off int, fixed bool, in int, content []byte, mode int, e error) {
	gvPrefixedCase(1, buf, off, fixed, in, content, mode, e)
}

//gv:prop C22 C23
func Prove_C22_AddUint16LengthPrefixed(buf []byte, off int, fixed bool, in int, content []byte, mode int, e error) {
	gvPrefixedCase(2, buf, off, fixed, in, content, mode, e)
}

//gv:prop C22 C23
func Prove_C22_AddUint24LengthPrefixed(buf []byte, off int, fixed bool, in int, content []byte, mode int, e error) {
	gvPrefixedCase(3, buf, off, fixed, in, content, mode, e)
}

//gv:prop C22 C23
func Prove_C22_AddUint32LengthPrefixed(buf []byte, off int, fixed bool, in int, content []byte, mode int, e error) {
	gvPrefixedCase(4, buf, off, fixed, in, content, mode, e)
}

func gvASN1Case(h int, buf []byte, off int, fixed bool, in int, tag asn1.Tag, content []byte, mode int, e error) {
	gv.Requires(0 <= mode && mode <= 2 && e != nil)
	gv.Requires(!(mode == 2 && in == 1))
	gv.Requires(gvLenLen(len(content)) == h)
	b := gvB(buf, off, fixed, in)
	old, v := gv.Snap(buf), gv.Snap(content)
	gv.Modifies(b, b.inContinuation, buf[:cap(buf)])
	gv.Call(func() { b.AddASN1(tag, gvCont(content, mode, e)) })
	bad := mode != 0 || tag&0x1f == 0x1f || len(v) > 0xfffffffe
	gvGrown(b, buf, old, off, fixed, bad, 1+h+len(v), func(k int) byte { return gvDERByte(byte(tag), h, v, k) })
	if b.inContinuation != nil {
		gv.Ensure("inside a continuation as before", *b.inContinuation == (in == 1))
	}
}

//gv:prop C22 C23
func Prove_C22_AddASN1_1(buf []byte, off int, fixed bool, in int, tag asn1.Tag, content []byte, mode int, e error) {
	gvASN1Case(1, buf, off, fixed, in, tag, content, mode, e)
}

//gv:prop C22 C23
func Prove_C22_AddASN1_2(buf []byte, off int, fixed bool, in int, tag asn1.Tag, content []byte, mode int, e error) {
	gvASN1Case(2, buf, off, fixed, in, tag, content, mode, e)
}

//gv:prop C22 C23
func Prove_C22_AddASN1_3(buf []byte, off int, fixed bool, in int, tag asn1.Tag, content []byte, mode int, e error) {
	gvASN1Case(3, buf, off, fixed, in, tag, content, mode, e)
}

//gv:prop C22 C23
func Prove_C22_AddASN1_4(buf []byte, off int, fixed bool, in int, tag asn1.Tag, content []byte, mode int, e error) {
	gvASN1Case(4, buf, off, fixed, in, tag, content, mode, e)
}

//gv:prop C22 C23
func Prove_C22_AddASN1_5(buf []byte, off int, fixed bool, in int, tag asn1.Tag, content []byte, mode int, e error) {
	gvASN1Case(5, buf, off, fixed, in, tag, content, mode, e)
}
