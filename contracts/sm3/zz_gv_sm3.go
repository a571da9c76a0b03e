package sm3

import gv "github.com/ZZMarquis/gm/zzgv"

// GV_sm3Digest_processBlock: one application of the compression function.
//
//gv:prop C01
func GV_sm3Digest_processBlock(digest *sm3Digest) {
	v, b := digest.v, digest.inWords
	gv.Modifies(&digest.v, &digest.w, &digest.xOff)
	gv.Call(func() { digest.processBlock() })
	gv.Set(&digest.v, gvCF(v, b))
	gv.Set(&digest.xOff, int32(0))
}

// gvMsg is an arbitrary endless byte sequence: the padded message a history of writes is a prefix of.
func gvMsg() []byte {
	return gv.Seq(1<<60, func(i int) byte { return gv.UFByte("msg", i) })
}

// gvV: word 8*k+c is word c of the chaining value after k blocks of m.
func gvV(m []byte) []uint32 {
	return gv.Rec("V", 1<<57, func(s []uint32, i int) uint32 {
		if i < 8 {
			return gvIV()[i]
		}
		k, c := i>>3-1, i&7
		var v [8]uint32
		var b [16]uint32
		for j := 0; j < 8; j++ {
			v[j] = s[8*k+j]
		}
		for j := 0; j < 16; j++ {
			b[j] = gvBE(m, 64*k+4*j)
		}
		return gvCF(v, b)[c]
	})
}

// gvState is a digest that has taken in the first n = 64*b+4*w+c bytes of m: whatever its buffers hold
// beyond the bytes taken in is arbitrary.
func gvState(m []byte, v []uint32, b, w, c int) *sm3Digest {
	d := gv.Any[*sm3Digest]("digest")
	d.byteCount = int64(64*b + 4*w + c)
	d.xOff = int32(w)
	d.xBufOff = int32(c)
	for i := 0; i < 8; i++ {
		d.v[i] = v[8*b+i]
	}
	for i := 0; i < 16; i++ {
		d.inWords[i] = gv.Ite(i < w, gvBE(m, 64*b+4*i), d.inWords[i])
	}
	for i := 0; i < c; i++ {
		d.xBuf[i] = m[64*b+4*w+i]
	}
	return d
}

// gvWrite: from any state that has taken in n bytes, Write of the next bytes of the message takes
// in exactly them, whatever n and
// however many. One harness per byte position c in the word.
func gvWrite(b, w, c, l int) {
	gv.Requires(b >= 0 && b < 1<<50 && w >= 0 && w < 16 && l >= 0 && l < 1<<50)
	gv.Opaque(gvCF)
	m := gvMsg()
	v := gvV(m)
	d := gvState(m, v, b, w, c)
	n := 64*b + 4*w + c
	p := make([]byte, l)
	copy(p, m[n:n+l])
	gv.Loop("words", func(i int) {
		q := n + i
		gv.Inv(i >= 0 && i <= l && q&3 == 0)
		gv.Inv(d.xOff == int32(q>>2&15))
		gv.Inv(d.xBufOff == 0)
		gv.InvIs(d.inWords[:], 0, q>>2&15, func(k int) uint32 { return gvBE(m, (n+i)&^63+4*k) })
		gv.InvIs(d.v[:], 0, 8, func(k int) uint32 { return v[8*((n+i)>>6)+k] })
	})
	gv.Modifies(d)
	var r int
	var err error
	gv.Call(func() { r, err = d.Write(p) })
	gv.Ensure("returns the length", r == l && err == nil)
	q := n + l
	gv.Ensure("byte count", d.byteCount == int64(q))
	gv.Ensure("word position", d.xOff == int32(q>>2&15))
	gv.Ensure("byte position", d.xBufOff == int32(q&3))
	gv.EnsureIs("chaining value", d.v[:], 0, 8, func(k int) uint32 { return v[8*(q>>6)+k] })
	gv.EnsureIs("words", d.inWords[:], 0, q>>2&15, func(k int) uint32 { return gvBE(m, q&^63+4*k) })
	gv.EnsureIs("bytes", d.xBuf[:], 0, q&3, func(k int) byte { return m[q&^3+k] })
}

//gv:prop C01
func Prove_C01_Write0(b, w, l int) { gvWrite(b, w, 0, l) }

//gv:prop C01
func Prove_C01_Write1(b, w, l int) { gvWrite(b, w, 1, l) }

//gv:prop C01
func Prove_C01_Write2(b, w, l int) { gvWrite(b, w, 2, l) }

//gv:prop C01
func Prove_C01_Write3(b, w, l int) { gvWrite(b, w, 3, l) }

// gvPadByte: byte 64*b+t of the padded message of which the first 64*b+r bytes are those of m and which
// has nb blocks after block b (GB/T 32905, 5.2).
func gvPadByte(m []byte, b, r, nb, t int) byte {
	if t < r {
		return m[64*b+t]
	}
	if t == r {
		return 0x80
	}
	if t < 64*nb-8 {
		return 0
	}
	return byte(uint64(8*(64*b+r)) >> (8 * uint(64*nb-1-t)))
}

// gvDigest: the digest of the first 64*b+r bytes of m; v are the chaining values, r < 64.
func gvDigest(m []byte, v []uint32, b, r int) [32]byte {
	var h [8]uint32
	for k := 0; k < 8; k++ {
		h[k] = v[8*b+k]
	}
	nb := 1
	if r >= 56 {
		nb = 2
	}
	for q := 0; q < nb; q++ {
		var blk [16]uint32
		for j := 0; j < 16; j++ {
			t := 64*q + 4*j
			blk[j] = uint32(gvPadByte(m, b, r, nb, t))<<24 | uint32(gvPadByte(m, b, r, nb, t+1))<<16 |
				uint32(gvPadByte(m, b, r, nb, t+2))<<8 | uint32(gvPadByte(m, b, r, nb, t+3))
		}
		h = gvCF(h, blk)
	}
	var out [32]byte
	for k := 0; k < 32; k++ {
		out[k] = byte(h[k>>2] >> (8 * uint(3-k&3)))
	}
	return out
}

// gvSum: from any state that has taken in n bytes, Sum appends the digest of exactly these bytes and
// leaves the state and the caller's bytes as they are.
func gvSum(b, w, c int, in []byte) {
	gv.Requires(b >= 0 && b < 1<<50 && w >= 0 && w < 16 && len(in) < 1<<40)
	gv.Opaque(gvCF)
	gv.Option("nomerge")
	w = gv.Concrete(w, 0, 15)
	m := gvMsg()
	v := gvV(m)
	d := gvState(m, v, b, w, c)
	want := gvDigest(m, v, b, 4*w+c)
	n := len(in)
	in0 := gv.Snap(in)
	gv.Modifies(in[n:cap(in)])
	var out []byte
	gv.Call(func() { out = d.Sum(in) })
	gv.Ensure("length", len(out) == n+32)
	gv.EnsureIs("caller's bytes", out, 0, n, func(k int) byte { return in0[k] })
	gv.EnsureIs("digest", out, n, n+32, func(k int) byte { return want[k-n] })
}

//gv:prop C01 C02
func Prove_C01_Sum0(b, w int, in []byte) { gvSum(b, w, 0, in) }

//gv:prop C01 C02
func Prove_C01_Sum1(b, w int, in []byte) { gvSum(b, w, 1, in) }

//gv:prop C01 C02
func Prove_C01_Sum2(b, w int, in []byte) { gvSum(b, w, 2, in) }

//gv:prop C01 C02
func Prove_C01_Sum3(b, w int, in []byte) { gvSum(b, w, 3, in) }

// gvOneShot: Sum of l = 64*b+4*w+c bytes is their digest.
func gvOneShot(b, w, c int) {
	gv.Requires(b >= 0 && b < 1<<50 && w >= 0 && w < 16)
	gv.Opaque(gvCF)
	gv.Option("nomerge")
	w = gv.Concrete(w, 0, 15)
	m := gvMsg()
	v := gvV(m)
	l := 64*b + 4*w + c
	data := make([]byte, l)
	copy(data, m[:l])
	gv.Loop("words", func(digest *sm3Digest, i int) {
		gv.Inv(i >= 0 && i <= l && i&3 == 0)
		gv.Inv(digest.xOff == int32(i>>2&15))
		gv.Inv(digest.xBufOff == 0)
		gv.InvIs(digest.inWords[:], 0, i>>2&15, func(k int) uint32 { return gvBE(m, i&^63+4*k) })
		gv.InvIs(digest.v[:], 0, 8, func(k int) uint32 { return v[8*(i>>6)+k] })
	})
	want := gvDigest(m, v, b, 4*w+c)
	gv.Modifies()
	var out [32]byte
	gv.Call(func() { out = Sum(data) })
	gv.EnsureIs("digest", out[:], 0, 32, func(k int) byte { return want[k] })
}

//gv:prop C01
func Prove_C01_OneShot0(b, w int) { gvOneShot(b, w, 0) }

//gv:prop C01
func Prove_C01_OneShot1(b, w int) { gvOneShot(b, w, 1) }

//gv:prop C01
func Prove_C01_OneShot2(b, w int) { gvOneShot(b, w, 2) }

//gv:prop C01
func Prove_C01_OneShot3(b, w int) { gvOneShot(b, w, 3) }

// gvFresh: the object is one that has taken in no bytes.
func gvFresh(d *sm3Digest) {
	gv.Ensure("no bytes taken in", d.byteCount == 0 && d.xOff == 0 && d.xBufOff == 0)
	iv := gvIV()
	gv.EnsureIs("initial value", d.v[:], 0, 8, func(k int) uint32 { return iv[k] })
}

// Prove_C02_New: a new object has taken in no bytes.
//
//gv:prop C01 C02
func Prove_C02_New() {
	gv.Modifies()
	d := New().(*sm3Digest)
	gvFresh(d)
	gv.Ensure("sizes", New().Size() == 32 && New().BlockSize() == 64)
}

// Prove_C02_Reset: Reset of any object whatever leaves one that has taken in no bytes.
//
//gv:prop C02
func Prove_C02_Reset(d *sm3Digest) {
	gv.Requires(d != nil)
	gv.Modifies(d)
	gv.Call(func() { d.Reset() })
	gvFresh(d)
}

// Prove_C02_Sizes: the sizes never depend on the state, and asking for them changes nothing.
//
//gv:prop C02
func Prove_C02_Sizes(d *sm3Digest) {
	gv.Requires(d != nil)
	gv.Modifies()
	var s, b int
	gv.Call(func() { s, b = d.Size(), d.BlockSize() })
	gv.Ensure("sizes", s == 32 && b == 64)
}
