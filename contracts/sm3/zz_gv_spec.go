package sm3

// GB/T 32905: specification functions, written from the standard.

func gvRot(x uint32, n uint) uint32 { return x<<n | x>>(32-n) }

func gvP0(x uint32) uint32 { return x ^ gvRot(x, 9) ^ gvRot(x, 17) }
func gvP1(x uint32) uint32 { return x ^ gvRot(x, 15) ^ gvRot(x, 23) }

// gvCF is the compression function of chaining value v and message block b (16 words).
func gvCF(v [8]uint32, b [16]uint32) [8]uint32 {
	var w [68]uint32
	for j := 0; j < 16; j++ {
		w[j] = b[j]
	}
	for j := 16; j < 68; j++ {
		w[j] = gvP1(w[j-16]^w[j-9]^gvRot(w[j-3], 15)) ^ gvRot(w[j-13], 7) ^ w[j-6]
	}
	x := v
	for j := 0; j < 64; j++ {
		t := uint32(0x79cc4519)
		if j >= 16 {
			t = 0x7a879d8a
		}
		if j%32 != 0 {
			t = gvRot(t, uint(j%32))
		}
		ss1 := gvRot(gvRot(x[0], 12)+x[4]+t, 7)
		ss2 := ss1 ^ gvRot(x[0], 12)
		var ff, gg uint32
		if j < 16 {
			ff = x[0] ^ x[1] ^ x[2]
			gg = x[4] ^ x[5] ^ x[6]
		} else {
			ff = x[0]&x[1] | x[0]&x[2] | x[1]&x[2]
			gg = x[4]&x[5] | ^x[4]&x[6]
		}
		tt1 := ff + x[3] + ss2 + (w[j] ^ w[j+4])
		tt2 := gg + x[7] + ss1 + w[j]
		x[3], x[2], x[1], x[0] = x[2], gvRot(x[1], 9), x[0], tt1
		x[7], x[6], x[5], x[4] = x[6], gvRot(x[5], 19), x[4], gvP0(tt2)
	}
	for i := range x {
		x[i] ^= v[i]
	}
	return x
}

func gvIV() [8]uint32 {
	return [8]uint32{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}
}

// gvBE is the big-endian word of m at offset i.
func gvBE(m []byte, i int) uint32 {
	return uint32(m[i])<<24 | uint32(m[i+1])<<16 | uint32(m[i+2])<<8 | uint32(m[i+3])
}
