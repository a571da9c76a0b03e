package zzorc

// SM3 is GB/T 32905-2016, written from the standard.
func SM3(msg []byte) [32]byte {
	p := append([]byte{}, msg...)
	p = append(p, 0x80)
	for len(p)%64 != 56 {
		p = append(p, 0)
	}
	n := uint64(len(msg)) * 8
	for i := 7; i >= 0; i-- {
		p = append(p, byte(n>>(8*uint(i))))
	}
	v := [8]uint32{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}
	for ; len(p) > 0; p = p[64:] {
		var w [68]uint32
		for j := 0; j < 16; j++ {
			w[j] = uint32(p[4*j])<<24 | uint32(p[4*j+1])<<16 | uint32(p[4*j+2])<<8 | uint32(p[4*j+3])
		}
		for j := 16; j < 68; j++ {
			x := w[j-16] ^ w[j-9] ^ rl(w[j-3], 15)
			w[j] = x ^ rl(x, 15) ^ rl(x, 23) ^ rl(w[j-13], 7) ^ w[j-6]
		}
		a, b, c, d, e, f, g, h := v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]
		for j := 0; j < 64; j++ {
			t, ff, gg := uint32(0x79cc4519), a^b^c, e^f^g
			if j >= 16 {
				t, ff, gg = 0x7a879d8a, a&b|a&c|b&c, e&f|^e&g
			}
			s1 := rl(rl(a, 12)+e+rl(t, uint(j%32)), 7)
			s2 := s1 ^ rl(a, 12)
			t1 := ff + d + s2 + (w[j] ^ w[j+4])
			t2 := gg + h + s1 + w[j]
			d, c, b, a = c, rl(b, 9), a, t1
			h, g, f, e = g, rl(f, 19), e, t2^rl(t2, 9)^rl(t2, 17)
		}
		for i, x := range []uint32{a, b, c, d, e, f, g, h} {
			v[i] ^= x
		}
	}
	var out [32]byte
	for i := range out {
		out[i] = byte(v[i/4] >> (24 - 8*uint(i%4)))
	}
	return out
}
