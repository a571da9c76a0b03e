package sm4

import (
	"crypto/cipher"

	gv "github.com/ZZMarquis/gm/zzgv"
)

// Prove_C03_Encrypt: one block, any key, any (possibly overlapping) buffers.
//
//gv:prop C03
func Prove_C03_Encrypt(key, dst, src []byte) {
	gv.Requires(len(key) == 16 && len(src) >= 16 && len(dst) >= 16)
	key0 := gv.Snap(key)
	src0 := gv.Snap(src)
	c, err := NewCipher(key)
	gv.Ensure("no error", err == nil)
	gv.Ensure("BlockSize", c.BlockSize() == 16)
	gv.Modifies(dst[:16])
	gv.Call(func() { c.Encrypt(dst, src) })
	e := gvEnc(key0, src0)
	gv.EnsureIs("ciphertext", dst, 0, 16, func(k int) byte { return e[k] })
}

//gv:prop C03
func Prove_C03_Decrypt(key, dst, src []byte) {
	gv.Requires(len(key) == 16 && len(src) >= 16 && len(dst) >= 16)
	key0 := gv.Snap(key)
	src0 := gv.Snap(src)
	c, err := NewCipher(key)
	gv.Ensure("no error", err == nil)
	gv.Modifies(dst[:16])
	gv.Call(func() { c.Decrypt(dst, src) })
	e := gvDec(key0, src0)
	gv.EnsureIs("plaintext", dst, 0, 16, func(k int) byte { return e[k] })
}

// Prove_C03_Overlap: destination and source anywhere in one buffer.
//
//gv:prop C03
func Prove_C03_Overlap(key, buf []byte, a, b int) {
	gv.Requires(len(key) == 16 && 0 <= a && a < 1<<40 && 0 <= b && b < 1<<40 && a+16 <= len(buf) && b+16 <= len(buf))
	key0 := gv.Snap(key)
	src0 := gv.Snap(buf[b : b+16])
	c, _ := NewCipher(key)
	dst, src := buf[a:], buf[b:]
	gv.Modifies(dst[:16])
	enc := gv.Any[bool]("direction")
	var e [16]byte
	if enc {
		gv.Call(func() { c.Encrypt(dst, src) })
		e = gvEnc(key0, src0)
	} else {
		gv.Call(func() { c.Decrypt(dst, src) })
		e = gvDec(key0, src0)
	}
	gv.EnsureIs("result", dst, 0, 16, func(k int) byte { return e[k] })
}

// Prove_C03_Key: the key is copied (later changes do not matter), other lengths are refused.
//
//gv:prop C03
func Prove_C03_Key(key []byte) {
	n := len(key)
	var c cipher.Block
	var err error
	gv.Call(func() { c, err = NewCipher(key) })
	gv.Ensure("error exactly for other key lengths", (err != nil) == (n != 16))
	gv.Ensure("no cipher on error", (c == nil) == (err != nil))
}

//gv:prop C03
func Prove_C03_KeyCopied(key, dst, src []byte) {
	gv.Requires(len(key) == 16 && len(src) == 16 && len(dst) == 16)
	key0 := gv.Snap(key)
	src0 := gv.Snap(src)
	c, _ := NewCipher(key)
	for i := 0; i < 16; i++ {
		key[i] = gv.Any[byte]("later key byte")
	}
	c.Encrypt(dst, src)
	e := gvEnc(key0, src0)
	gv.EnsureIs("ciphertext", dst, 0, 16, func(k int) byte { return e[k] })
	c.Decrypt(dst, src)
	d := gvDec(key0, src0)
	gv.EnsureIs("plaintext", dst, 0, 16, func(k int) byte { return d[k] })
}

// Prove_C04: decryption and encryption are inverse.
//
//gv:prop C04
func Prove_C04_DecEnc(key, src []byte) {
	gv.Requires(len(key) == 16 && len(src) == 16)
	src0 := gv.Snap(src)
	c, _ := NewCipher(key)
	mid, out := make([]byte, 16), make([]byte, 16)
	c.Encrypt(mid, src)
	c.Decrypt(out, mid)
	gv.EnsureIs("decrypted", out, 0, 16, func(k int) byte { return src0[k] })
}

//gv:prop C04
func Prove_C04_EncDec(key, src []byte) {
	gv.Requires(len(key) == 16 && len(src) == 16)
	src0 := gv.Snap(src)
	c, _ := NewCipher(key)
	mid, out := make([]byte, 16), make([]byte, 16)
	c.Decrypt(mid, src)
	c.Encrypt(out, mid)
	gv.EnsureIs("encrypted", out, 0, 16, func(k int) byte { return src0[k] })
}

//gv:prop C05
func GV_ECBEncrypt(key, plainText []byte) (out []byte, err error) {
	bad := len(plainText)%16 != 0 || len(key) != 16
	gv.Stride(16)
	gv.Loop("blocks", func(out []byte, i int) {
		gv.Inv(i >= 0 && i <= len(plainText) && i&15 == 0)
		gv.InvIs(out, 0, i, func(k int) byte { return gvEnc(key, plainText[k&^15 : k&^15+16])[k&15] })
	})
	gv.Call(func() { out, err = ECBEncrypt(key, plainText) })
	gv.Ensure("error exactly for bad lengths", (err != nil) == bad)
	if bad {
		gv.Ensure("no output on error", out == nil)
		return
	}
	gv.Ensure("length", len(out) == len(plainText))
	gv.Ensure("new memory", gv.Fresh(out))
	gv.EnsureIs("blocks", out, 0, len(plainText), func(k int) byte { return gvEnc(key, plainText[k&^15 : k&^15+16])[k&15] })
	return
}

//gv:prop C05
func GV_ECBDecrypt(key, cipherText []byte) (out []byte, err error) {
	bad := len(cipherText)%16 != 0 || len(key) != 16
	gv.Stride(16)
	gv.Loop("blocks", func(out []byte, i int) {
		gv.Inv(i >= 0 && i <= len(cipherText) && i&15 == 0)
		gv.InvIs(out, 0, i, func(k int) byte { return gvDec(key, cipherText[k&^15 : k&^15+16])[k&15] })
	})
	gv.Call(func() { out, err = ECBDecrypt(key, cipherText) })
	gv.Ensure("error exactly for bad lengths", (err != nil) == bad)
	if bad {
		gv.Ensure("no output on error", out == nil)
		return
	}
	gv.Ensure("length", len(out) == len(cipherText))
	gv.Ensure("new memory", gv.Fresh(out))
	gv.EnsureIs("blocks", out, 0, len(cipherText), func(k int) byte { return gvDec(key, cipherText[k&^15 : k&^15+16])[k&15] })
	return
}
