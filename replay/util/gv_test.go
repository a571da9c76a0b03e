package util

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"github.com/ZZMarquis/gm/zzrp"
)

func TestGV_C07(t *testing.T) {
	r := zzrp.New(t, "util", 25*time.Second)
	for r.More() {
		n := r.Len(600)
		bs := 1 + r.Intn(255)
		if r.Intn(3) == 0 {
			bs = []int{1, 8, 16, 255, 128}[r.Intn(5)]
		}
		if r.Intn(3) == 0 {
			n = n / bs * bs
		}
		spare := r.Intn(3) * 150
		back := r.Bytes(n + spare)
		r.Case(func() string {
			return fmt.Sprintf("padding: block size %d, %d bytes %x, capacity %d", bs, n, back[:n], len(back))
		}, func() string {
			for i, f := range []func([]byte, int) []byte{PKCS5Padding, ZeroPadding} {
				name := []string{"PKCS5Padding", "ZeroPadding"}[i]
				b := zzrp.Copy(back)
				var o []byte
				if p := zzrp.Panics(func() { o = f(b[:n], bs) }); p {
					return name + " panics"
				}
				if !bytes.Equal(b, back) {
					return name + " writes to the caller's memory"
				}
				k := bs - n%bs
				v := byte(0)
				if i == 0 {
					v = byte(k)
				}
				w := append(zzrp.Copy(back[:n]), bytes.Repeat([]byte{v}, k)...)
				if !bytes.Equal(o, w) {
					return fmt.Sprintf("%s = %x, expected %x", name, o, w)
				}
				w = zzrp.Copy(w)
				var u []byte
				if p := zzrp.Panics(func() {
					if i == 0 {
						u = PKCS5UnPadding(w)
					} else {
						u = UnZeroPadding(w, k)
					}
				}); p {
					return "removing the padding of " + name + " panics"
				}
				if !bytes.Equal(u, back[:n]) {
					return fmt.Sprintf("removing the padding of %s = %x", name, u)
				}
				if !bytes.Equal(w, o) {
					return "removing the padding of " + name + " writes to the caller's memory"
				}
			}
			return ""
		})
	}
}
