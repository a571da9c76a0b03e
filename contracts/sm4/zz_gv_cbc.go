package sm4

import (
	"crypto/cipher"

	gv "github.com/ZZMarquis/gm/zzgv"
)

// Assumed contract of crypto/cipher's CBC modes (its documentation): a wrong IV length panics,
// CryptBlocks panics unless the input is whole blocks that fit the output, and chains the block cipher.
type gvCBC struct {
	b   cipher.Block
	iv  []byte
	dec bool
}

//gv:model crypto/cipher.NewCBCEncrypter
func gvNewCBCEncrypter(b cipher.Block, iv []byte) cipher.BlockMode {
	if len(iv) != b.BlockSize() {
		panic("cipher.NewCBCEncrypter: IV length must equal block size")
	}
	return &gvCBC{b, gv.Snap(iv), false}
}

//gv:model crypto/cipher.NewCBCDecrypter
func gvNewCBCDecrypter(b cipher.Block, iv []byte) cipher.BlockMode {
	if len(iv) != b.BlockSize() {
		panic("cipher.NewCBCDecrypter: IV length must equal block size")
	}
	return &gvCBC{b, gv.Snap(iv), true}
}

func (x *gvCBC) BlockSize() int { return 16 }

func (x *gvCBC) CryptBlocks(dst, src []byte) {
	n := len(src)
	if n&15 != 0 {
		panic("crypto/cipher: input not full blocks")
	}
	if len(dst) < n {
		panic("crypto/cipher: output smaller than input")
	}
	if n == 0 {
		return
	}
	in := gv.Snap(src)
	iv := x.iv
	var out []byte
	if x.dec {
		out = gv.Seq(n, func(k int) byte {
			j := k &^ 15
			var t [16]byte
			x.b.Decrypt(t[:], in[j:j+16])
			return t[k&15] ^ gvPrev(in, iv, k)
		})
	} else {
		out = gv.Rec("cbc", n, func(s []byte, k int) byte {
			j := k &^ 15
			var t [16]byte
			for i := 0; i < 16; i++ {
				t[i] = in[j+i] ^ gvPrev(s, iv, j+i)
			}
			x.b.Encrypt(t[:], t[:])
			return t[k&15]
		})
	}
	if x.dec {
		x.iv = in[n-16 : n]
	} else {
		x.iv = out[n-16 : n]
	}
	copy(dst, out)
}

// gvPrev is the chaining value of byte k: the IV for the first block, the previous block after it.
func gvPrev(s, iv []byte, k int) byte {
	if k < 16 {
		return iv[k&15]
	}
	return s[k-16]
}

//gv:prop C06
func GV_CBCEncrypt(key, iv, plainText []byte) (out []byte, err error) {
	bad := len(plainText)%16 != 0 || len(key) != 16 || len(iv) != 16
	gv.Stride(16)
	gv.Call(func() { out, err = CBCEncrypt(key, iv, plainText) })
	gv.Ensure("error exactly for bad lengths", (err != nil) == bad)
	if bad {
		gv.Ensure("no output on error", out == nil)
		return
	}
	gv.Ensure("length", len(out) == len(plainText))
	gv.Ensure("new memory", gv.Fresh(out))
	o := gv.Snap(out)
	gv.EnsureIs("chain", out, 0, len(plainText), func(k int) byte { return gvCBCBlock(key, iv, plainText, o, k&^15)[k&15] })
	return
}

// gvCBCBlock: encryption of (input block XOR the previous output block) at offset j.
func gvCBCBlock(key, iv, in, out []byte, j int) [16]byte {
	t := make([]byte, 16)
	for i := 0; i < 16; i++ {
		t[i] = in[j+i] ^ gvPrev(out, iv, j+i)
	}
	return gvEnc(key, t)
}

//gv:prop C06
func GV_CBCDecrypt(key, iv, cipherText []byte) (out []byte, err error) {
	bad := len(cipherText)%16 != 0 || len(key) != 16 || len(iv) != 16
	gv.Stride(16)
	gv.Call(func() { out, err = CBCDecrypt(key, iv, cipherText) })
	gv.Ensure("error exactly for bad lengths", (err != nil) == bad)
	if bad {
		gv.Ensure("no output on error", out == nil)
		return
	}
	gv.Ensure("length", len(out) == len(cipherText))
	gv.Ensure("new memory", gv.Fresh(out))
	gv.EnsureIs("chain", out, 0, len(cipherText), func(k int) byte {
		return gvDec(key, cipherText[k&^15 : k&^15+16])[k&15] ^ gvPrev(cipherText, iv, k)
	})
	return
}

// Prove_C06_Inverse: for one block under the two chain clauses (cipher block = encryption of input block
// XOR chaining value, decrypted block = decryption of cipher block XOR the same chaining value) the
// decrypted block is the input block. Instantiated at every block this is "decryption inverts encryption":
// both clauses take the chaining value from the same place, the IV or the previous cipher block.
//
//gv:prop C06
func Prove_C06_Inverse(key, in, prev []byte) {
	gv.Requires(len(key) == 16 && len(in) == 16 && len(prev) == 16)
	t := make([]byte, 16)
	for i := 0; i < 16; i++ {
		t[i] = in[i] ^ prev[i]
	}
	e := gvEnc(key, t)
	d := gvDec(key, e[:])
	for i := 0; i < 16; i++ {
		gv.Ensure("decrypted block is the input block", d[i]^prev[i] == in[i])
	}
}
