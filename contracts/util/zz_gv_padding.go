package util

import gv "github.com/ZZMarquis/gm/zzgv"

//gv:prop C07
func GV_PKCS5Padding(src []byte, blockSize int) (out []byte) {
	gv.Requires(blockSize >= 1 && blockSize <= 255 && len(src) < 1<<40)
	bs := blockSize
	n := len(src)
	pad := bs - n%bs
	src0 := gv.Snap(src)
	gv.Call(func() { out = PKCS5Padding(src, bs) })
	gv.Ensure("length", len(out) == n+pad)
	gv.Ensure("whole blocks", len(out) == (n/bs+1)*bs)
	gv.EnsureIs("input kept", out, 0, n, func(k int) byte { return src0[k] })
	gv.EnsureIs("padding bytes", out, n, n+pad, func(k int) byte { return byte(pad) })
	return
}

//gv:prop C07
func GV_ZeroPadding(src []byte, blockSize int) (out []byte) {
	gv.Requires(blockSize >= 1 && blockSize <= 255 && len(src) < 1<<40)
	bs := blockSize
	n := len(src)
	pad := bs - n%bs
	src0 := gv.Snap(src)
	gv.Call(func() { out = ZeroPadding(src, bs) })
	gv.Ensure("length", len(out) == n+pad)
	gv.Ensure("whole blocks", len(out) == (n/bs+1)*bs)
	gv.EnsureIs("input kept", out, 0, n, func(k int) byte { return src0[k] })
	gv.EnsureIs("padding bytes", out, n, n+pad, func(k int) byte { return 0 })
	return
}

// GV_PKCS5UnPadding: for every input that ends in a count byte not above its length.
//
//gv:prop C07
func GV_PKCS5UnPadding(src []byte) (out []byte) {
	gv.Requires(len(src) >= 1)
	u := int(src[len(src)-1])
	gv.Requires(u <= len(src))
	src0 := gv.Snap(src)
	gv.Call(func() { out = PKCS5UnPadding(src) })
	gv.Ensure("length", len(out) == len(src)-u)
	gv.EnsureIs("bytes", out, 0, len(src)-u, func(k int) byte { return src0[k] })
	return
}

//gv:prop C07
func GV_UnZeroPadding(src []byte, paddingLen int) (out []byte) {
	gv.Requires(paddingLen >= 0 && paddingLen <= len(src))
	src0 := gv.Snap(src)
	gv.Call(func() { out = UnZeroPadding(src, paddingLen) })
	gv.Ensure("length", len(out) == len(src)-paddingLen)
	gv.EnsureIs("bytes", out, 0, len(src)-paddingLen, func(k int) byte { return src0[k] })
	return
}

// Prove_C07_Inverse: over the contracts, removing the padding gives exactly the input.
//
//gv:prop C07
func Prove_C07_Inverse(src []byte, blockSize int) {
	gv.Requires(blockSize >= 1 && blockSize <= 255 && len(src) < 1<<40)
	bs := blockSize
	src0 := gv.Snap(src)
	p := PKCS5Padding(src, bs)
	u := PKCS5UnPadding(p)
	gv.Ensure("length", len(u) == len(src0))
	gv.EnsureIs("bytes", u, 0, len(src0), func(k int) byte { return src0[k] })
	z := ZeroPadding(src, bs)
	v := UnZeroPadding(z, len(z)-len(src))
	gv.Ensure("length (zero padding)", len(v) == len(src0))
	gv.EnsureIs("bytes (zero padding)", v, 0, len(src0), func(k int) byte { return src0[k] })
}
