package sm3

import (
	"bytes"
	"fmt"
	"hash"
	"testing"
	"time"

	"github.com/ZZMarquis/gm/zzorc"
	"github.com/ZZMarquis/gm/zzrp"
)

// op is one step on a hash object: write, sum, reset, sizes.
type zzop struct {
	kind byte
	data []byte
	cap  int
}

func (o zzop) String() string {
	switch o.kind {
	case 'w':
		return fmt.Sprintf("Write(%x)", o.data)
	case 's':
		return fmt.Sprintf("Sum(%x, cap %d)", o.data, o.cap)
	case 'r':
		return "Reset()"
	}
	return "Size/BlockSize"
}

func zzrun(r *zzrp.R, ops []zzop) string {
	var h hash.Hash = New()
	var msg []byte
	for i, o := range ops {
		switch o.kind {
		case 'w':
			p := zzrp.Copy(o.data)
			n, err := h.Write(p)
			if n != len(p) || err != nil {
				return fmt.Sprintf("step %d: Write returns %d, %v", i, n, err)
			}
			if !bytes.Equal(p, o.data) {
				return fmt.Sprintf("step %d: Write changes its argument", i)
			}
			msg = append(msg, o.data...)
		case 'r':
			h.Reset()
			msg = nil
		case 's':
			back := make([]byte, o.cap)
			copy(back, o.data)
			in := back[:len(o.data)]
			out := h.Sum(in)
			d := zzorc.SM3(msg)
			if want := append(zzrp.Copy(o.data), d[:]...); !bytes.Equal(out, want) {
				return fmt.Sprintf("step %d: Sum after %d bytes = %x, expected %x", i, len(msg), out, want)
			}
			if !bytes.Equal(in, o.data) {
				return fmt.Sprintf("step %d: Sum changes the caller's bytes", i)
			}
		default:
			if h.Size() != 32 || h.BlockSize() != 64 {
				return fmt.Sprintf("step %d: sizes %d, %d", i, h.Size(), h.BlockSize())
			}
		}
	}
	return ""
}

func zzops(r *zzrp.R, state bool) []zzop {
	n := 1 + r.Intn(6)
	var ops []zzop
	for i := 0; i < n; i++ {
		k := r.Intn(12)
		switch {
		case state && k == 0:
			ops = append(ops, zzop{kind: 'r'})
		case state && k == 1:
			ops = append(ops, zzop{kind: 'z'})
		case state && k < 5:
			b := r.Bytes(r.Len(80))
			ops = append(ops, zzop{'s', b, len(b) + r.Intn(3)*r.Intn(60)})
		default:
			l := r.Len(300)
			switch r.Intn(4) {
			case 0:
				l = r.Intn(10)
			case 1:
				l = []int{0, 1, 3, 4, 5, 55, 56, 57, 59, 60, 61, 63, 64, 65, 119, 120, 127, 128}[r.Intn(18)]
			}
			ops = append(ops, zzop{kind: 'w', data: r.Bytes(l)})
		}
	}
	return append(ops, zzop{'s', nil, 0})
}

func TestGV_C01(t *testing.T) {
	r := zzrp.New(t, "sm3", 25*time.Second)
	for r.More() {
		ops := zzops(r, false)
		r.Case(func() string { return fmt.Sprint("New; ", ops) }, func() string { return zzrun(r, ops) })
		m := r.Bytes(r.Len(1500))
		if r.Intn(40) == 0 {
			m = r.Bytes(1 << uint(10+r.Intn(9)))
		}
		r.Case(func() string { return fmt.Sprintf("sm3.Sum(%x)", m) }, func() string {
			c := zzrp.Copy(m)
			o, w := Sum(c), zzorc.SM3(m)
			if o != w {
				return fmt.Sprintf("digest %x, expected %x", o, w)
			}
			if !bytes.Equal(c, m) {
				return "changes its argument"
			}
			return ""
		})
	}
}

func TestGV_C02(t *testing.T) {
	r := zzrp.New(t, "sm3", 25*time.Second)
	for r.More() {
		ops := zzops(r, true)
		r.Case(func() string { return fmt.Sprint("New; ", ops) }, func() string { return zzrun(r, ops) })
	}
}
