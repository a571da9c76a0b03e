package sm4

import (
	"bytes"
	"crypto/cipher"
	"fmt"
	"testing"
	"time"

	"github.com/ZZMarquis/gm/zzorc"
	"github.com/ZZMarquis/gm/zzrp"
)

func TestGV_C03(t *testing.T) {
	r := zzrp.New(t, "sm4", 25*time.Second)
	for r.More() {
		kl := 16
		if r.Intn(6) == 0 {
			kl = r.Len(70)
		}
		key := r.Bytes(kl)
		src := r.Bytes(16 + r.Intn(20))
		n := 1 + r.Intn(4)
		mode := r.Intn(3)
		so, do := r.Intn(20), r.Intn(20)
		dirs := r.Intn(16)
		mutKey := r.Intn(3) == 0
		desc := func() string {
			return fmt.Sprintf("NewCipher(%x); %d operations (bit i of %b: decrypt) on %x, mode %d src offset %d dst offset %d, key changed after NewCipher: %v", key, n, dirs, src, mode, so, do, mutKey)
		}
		r.Case(desc, func() string {
			k := zzrp.Copy(key)
			c, err := NewCipher(k)
			if (err != nil) != (len(key) != 16) {
				return fmt.Sprintf("NewCipher: err=%v", err)
			}
			if !bytes.Equal(k, key) {
				return "NewCipher changes the key"
			}
			if err != nil {
				if c != nil {
					return "cipher together with an error"
				}
				return ""
			}
			if c.BlockSize() != 16 {
				return "BlockSize"
			}
			if mutKey {
				for i := range k {
					k[i] ^= 0x5a
				}
			}
			for i := 0; i < n; i++ {
				dec := dirs>>uint(i)&1 == 1
				in := src[:16]
				var buf, s, d []byte
				switch mode {
				case 0:
					s, d = zzrp.Copy(src), make([]byte, 16+r.Intn(30))
					copy(d, r.Bytes(len(d)))
					buf = d
				case 1: // in place
					buf = zzrp.Copy(src)
					s, d = buf, buf
				case 2: // overlapping
					buf = r.Bytes(64)
					copy(buf[so:], in)
					s, d = buf[so:], buf[do:]
				}
				before := zzrp.Copy(buf)
				dOff := 0
				if mode == 2 {
					dOff = do
				}
				want := zzorc.SM4(key, in, dec)
				if dec {
					c.Decrypt(d, s)
				} else {
					c.Encrypt(d, s)
				}
				if !bytes.Equal(d[:16], want) {
					return fmt.Sprintf("operation %d: output %x, standard says %x", i, d[:16], want)
				}
				copy(before[dOff:], want)
				if !bytes.Equal(before, buf) {
					return "bytes outside the output block changed"
				}
				if mode == 0 && !bytes.Equal(s, src) {
					return "source changed"
				}
			}
			return ""
		})
	}
}

func TestGV_C04(t *testing.T) {
	r := zzrp.New(t, "sm4", 20*time.Second)
	for r.More() {
		key, src := r.Bytes(16), r.Bytes(16)
		r.Case(func() string { return fmt.Sprintf("key %x block %x", key, src) }, func() string {
			c, err := NewCipher(key)
			if err != nil {
				return err.Error()
			}
			a, b := make([]byte, 16), make([]byte, 16)
			c.Encrypt(a, src)
			c.Decrypt(b, a)
			if !bytes.Equal(b, src) {
				return fmt.Sprintf("decrypt(encrypt) = %x", b)
			}
			c.Decrypt(a, src)
			c.Encrypt(b, a)
			if !bytes.Equal(b, src) {
				return fmt.Sprintf("encrypt(decrypt) = %x", b)
			}
			return ""
		})
	}
}

func ecbOracle(key, in []byte, dec bool) []byte {
	out := make([]byte, 0, len(in))
	for i := 0; i < len(in); i += 16 {
		out = append(out, zzorc.SM4(key, in[i:i+16], dec)...)
	}
	return out
}

func cbcOracle(key, iv, in []byte, dec bool) []byte {
	out := make([]byte, 0, len(in))
	prev := iv
	for i := 0; i < len(in); i += 16 {
		x := make([]byte, 16)
		if dec {
			y := zzorc.SM4(key, in[i:i+16], true)
			for k := range x {
				x[k] = y[k] ^ prev[k]
			}
			prev = in[i : i+16]
		} else {
			for k := range x {
				x[k] = in[i+k] ^ prev[k]
			}
			x = zzorc.SM4(key, x, false)
			prev = x
		}
		out = append(out, x...)
	}
	return out
}

func msgLen(r *zzrp.R) int {
	n := r.Len(5000)
	if r.Intn(3) > 0 {
		n = n / 16 * 16
	}
	if r.Intn(300) == 0 {
		n = 16 << uint(r.Intn(14))
	}
	return n
}

func TestGV_C05(t *testing.T) {
	r := zzrp.New(t, "sm4", 25*time.Second)
	for r.More() {
		kl := 16
		if r.Intn(8) == 0 {
			kl = r.Len(70)
		}
		key := r.Bytes(kl)
		spare := r.Intn(3) * 20
		n := msgLen(r)
		back := r.Bytes(n + spare)
		dec := r.Intn(2) == 1
		r.Case(func() string {
			return fmt.Sprintf("ECB dec=%v key %x message (%d bytes, capacity %d) %x", dec, key, n, len(back), clip(back[:n]))
		}, func() string {
			k, b := zzrp.Copy(key), zzrp.Copy(back)
			var out []byte
			var err error
			if dec {
				out, err = ECBDecrypt(k, b[:n])
			} else {
				out, err = ECBEncrypt(k, b[:n])
			}
			return verdict(key, k, back, b, nil, nil, n, out, err, n%16 == 0 && len(key) == 16, func() []byte { return ecbOracle(key, back[:n], dec) })
		})
	}
}

func clip(b []byte) []byte {
	if len(b) > 600 {
		return b[:600]
	}
	return b
}

func verdict(key, k, back, b, iv0, iv []byte, n int, out []byte, err error, good bool, want func() []byte) string {
	if !bytes.Equal(key, k) || !bytes.Equal(back, b) || !bytes.Equal(iv, iv0) {
		return "an input was modified"
	}
	if (err == nil) != good {
		return fmt.Sprintf("err = %v", err)
	}
	if err != nil {
		if out != nil {
			return "output together with an error"
		}
		return ""
	}
	if w := want(); !bytes.Equal(w, out) {
		return fmt.Sprintf("wrong output (%d bytes, want %d): %x, want %x", len(out), len(w), clip(out), clip(w))
	}
	for i := range out {
		out[i] ^= 0xff
	}
	if !bytes.Equal(back, b) || !bytes.Equal(iv, iv0) || !bytes.Equal(key, k) {
		return "output shares memory with an input"
	}
	return ""
}

func TestGV_C06(t *testing.T) {
	r := zzrp.New(t, "sm4", 25*time.Second)
	for r.More() {
		kl, il := 16, 16
		if r.Intn(8) == 0 {
			kl = r.Len(70)
		}
		if r.Intn(8) == 0 {
			il = r.Len(70)
		}
		key, iv := r.Bytes(kl), r.Bytes(il)
		spare := r.Intn(3) * 20
		n := msgLen(r)
		back := r.Bytes(n + spare)
		dec := r.Intn(2) == 1
		r.Case(func() string {
			return fmt.Sprintf("CBC dec=%v key %x iv %x message (%d bytes, capacity %d) %x", dec, key, iv, n, len(back), clip(back[:n]))
		}, func() string {
			k, b, v := zzrp.Copy(key), zzrp.Copy(back), zzrp.Copy(iv)
			var out []byte
			var err error
			if dec {
				out, err = CBCDecrypt(k, v, b[:n])
			} else {
				out, err = CBCEncrypt(k, v, b[:n])
			}
			return verdict(key, k, back, b, iv, v, n, out, err, n%16 == 0 && len(key) == 16 && len(iv) == 16, func() []byte { return cbcOracle(key, iv, back[:n], dec) })
		})
	}
}

var _ cipher.Block
