package cryptobyte

import (
	"bytes"
	encoding_asn1 "encoding/asn1"
	"errors"
	"fmt"
	"math/big"
	"testing"
	"time"

	"github.com/ZZMarquis/gm/cryptobyte/asn1"
	"github.com/ZZMarquis/gm/zzrp"
)

// boxed puts b into the middle of a larger array, so that reading outside b can be noticed.
func boxed(r *zzrp.R, b []byte) (box []byte, s String) {
	box = r.Bytes(len(b) + 40)
	copy(box[20:], b)
	k := 20
	if r.Intn(2) == 0 {
		k = 0 // no spare capacity
	}
	return box, String(box[20 : 20+len(b) : 20+len(b)+k])
}

// same: p is the slice box[off:off+n], not only equal bytes.
func inside(p []byte, box []byte, off, n int) bool {
	if len(p) != n {
		return false
	}
	return n == 0 || &p[0] == &box[off]
}

// ---------------------------------------------------------------- C19

func TestGV_C19(t *testing.T) {
	r := zzrp.New(t, "cryptobyte", 20*time.Second)
	for r.More() {
		b := r.Bytes(r.Len(70))
		if len(b) > 2 && r.Intn(2) == 0 {
			b[0] = byte(r.Intn(3))
			b[1] = byte(r.Intn(80))
		}
		if len(b) > 0 && r.Intn(3) == 0 {
			b[0] = byte(len(b) - 2 + r.Intn(3))
		}
		op := r.Intn(13)
		n := r.Intn(len(b)+4) - 2
		if r.Intn(6) == 0 {
			n = []int{-1, -5, 1 << 31, 1<<63 - 1, -1 << 63, 1 << 62}[r.Intn(6)]
		}
		r.Case(func() string { return fmt.Sprintf("string %x, operation %d, count %d", b, op, n) }, func() string {
			box, s := boxed(r, b)
			was := zzrp.Copy(box)
			w, pre := 0, 0 // bytes taken, prefix octets
			var ok, want bool
			var val, wval uint64
			var out String
			var ob []byte
			sl, cpy := false, false
			be := func(k int) (v uint64) {
				if k > len(b) {
					return 0
				}
				for _, x := range b[:k] {
					v = v<<8 | uint64(x)
				}
				return
			}
			pan := zzrp.Panics(func() {
				switch op {
				case 0:
					var v uint8
					ok, w = s.ReadUint8(&v), 1
					val = uint64(v)
				case 1:
					var v uint16
					ok, w = s.ReadUint16(&v), 2
					val = uint64(v)
				case 2:
					var v uint32
					ok, w = s.ReadUint24(&v), 3
					val = uint64(v)
				case 3:
					var v uint32
					ok, w = s.ReadUint32(&v), 4
					val = uint64(v)
				case 4:
					ok, w = s.Skip(n), n
				case 5:
					ok, w, sl = s.ReadBytes(&ob, n), n, true
				case 6:
					if n < 0 || n > 1000 {
						n = 5
					}
					ob = make([]byte, n)
					ok, w, cpy = s.CopyBytes(ob), n, true
				case 7, 8, 9:
					pre = op - 6
					switch pre {
					case 1:
						ok = s.ReadUint8LengthPrefixed(&out)
					case 2:
						ok = s.ReadUint16LengthPrefixed(&out)
					case 3:
						ok = s.ReadUint24LengthPrefixed(&out)
					}
					w = pre + int(be(pre))
					if len(b) < pre {
						w = pre
					}
				case 10:
					ok = s.Empty() == (len(b) == 0)
				case 11:
					ok, w = s.Skip(1), 1
				case 12:
					ok, w, sl = s.ReadBytes(&ob, len(b)), len(b), true
				}
			})
			if pan {
				return "the reader panics"
			}
			if !bytes.Equal(box, was) {
				return "the input was modified"
			}
			want = w >= 0 && w <= len(b)
			if ok != want {
				return fmt.Sprintf("reports %v, expected %v", ok, want)
			}
			if !ok {
				return ""
			}
			if op < 4 {
				if wval = be(w); val != wval {
					return fmt.Sprintf("value %x, expected %x", val, wval)
				}
			}
			if sl && !inside(ob, box, 20, w) {
				return fmt.Sprintf("read %x, expected %x", ob, b[:w])
			}
			if cpy && !bytes.Equal(ob, b[:w]) {
				return fmt.Sprintf("copied %x, expected %x", ob, b[:w])
			}
			if pre > 0 && !inside(out, box, 20+pre, w-pre) {
				return fmt.Sprintf("read %x, expected %x", []byte(out), b[pre:w])
			}
			if !inside(s, box, 20+w, len(b)-w) {
				return fmt.Sprintf("remainder %x, expected %x", []byte(s), b[w:])
			}
			return ""
		})
	}
}

// ---------------------------------------------------------------- reference for DER

func derLen(n int) []byte {
	if n < 0x80 {
		return []byte{byte(n)}
	}
	b := big.NewInt(int64(n)).Bytes()
	return append([]byte{0x80 | byte(len(b))}, b...)
}

func der(tag byte, c []byte) []byte {
	return append(append([]byte{tag}, derLen(len(c))...), c...)
}

// tlv: the reference element parser.
func tlv(b []byte) (ok bool, tag byte, h, l int) {
	if len(b) < 2 || b[0]&0x1f == 0x1f {
		return
	}
	n := big.NewInt(int64(b[1]))
	h = 2
	if b[1] >= 0x80 {
		k := int(b[1] & 0x7f)
		if k == 0 || k > 4 || len(b) < 2+k {
			return
		}
		h += k
		n.SetBytes(b[2:h])
		if n.Cmp(big.NewInt(128)) < 0 || b[2] == 0 {
			return
		}
	}
	if n.Cmp(big.NewInt(int64(len(b)-h))) > 0 {
		return
	}
	return true, b[0], h, int(n.Int64())
}

// elem is something like a DER element with this tag and content, followed by other bytes; often damaged.
func elem(r *zzrp.R, tag byte, c []byte) []byte {
	e := der(tag, c)
	switch r.Intn(8) {
	case 0: // too long a length
		k := len(derLen(len(c)))
		switch {
		case k == 1:
			e = append([]byte{tag, 0x81, byte(len(c))}, c...)
		default:
			e = append([]byte{tag, 0x80 | byte(k), 0}, append(derLen(len(c))[1:], c...)...)
		}
	case 1: // damaged header
		i := r.Intn(2)
		e[i] ^= 1 << uint(r.Intn(8))
	case 2: // truncated
		e = e[:r.Intn(len(e)+1)]
	case 3:
		e = append([]byte{tag, []byte{0x80, 0x84, 0x85, 0x88, 0xff}[r.Intn(5)]}, r.Bytes(r.Intn(12))...)
	case 4:
		e = append([]byte{tag, 0x84, 0xff, 0xff, 0xff, byte(0xf8 + r.Intn(8))}, c...)
	}
	if r.Intn(2) == 0 {
		e = append(e, r.Bytes(r.Intn(10))...)
	}
	return e
}

func size(r *zzrp.R) int {
	switch r.Intn(12) {
	case 0:
		return 120 + r.Intn(20)
	case 1:
		return 250 + r.Intn(20)
	case 2:
		if r.Intn(8) == 0 {
			return 65530 + r.Intn(12)
		}
	}
	return r.Len(40)
}

func TestGV_C20(t *testing.T) {
	r := zzrp.New(t, "cryptobyte", 20*time.Second)
	for r.More() {
		tag := r.Byte()
		if r.Intn(2) == 0 {
			tag = []byte{1, 2, 3, 4, 5, 6, 0x30, 0x31, 0xa0, 0x1e, 0x1f, 0x3f, 0xff}[r.Intn(13)]
		}
		b := elem(r, tag, r.Bytes(size(r)))
		other := tag
		if r.Intn(4) == 0 {
			other = r.Byte()
		}
		op := r.Intn(11)
		r.Case(func() string { return fmt.Sprintf("string %x, operation %d, tag %x", b, op, other) }, func() string {
			box, s := boxed(r, b)
			was := zzrp.Copy(box)
			ok, tg, h, l := tlv(b)
			match := ok && tg == other
			present := len(b) > 0 && b[0] == other
			var got, want, whole, content bool
			var out String
			var gt asn1.Tag
			gtSet, consumes := false, true
			x := asn1.Tag(other)
			if zzrp.Panics(func() {
				switch op {
				case 0:
					got, want, content, gtSet = s.ReadAnyASN1(&out, &gt), ok, true, true
				case 1:
					got, want, whole, gtSet = s.ReadAnyASN1Element(&out, &gt), ok, true, true
				case 2:
					got, want, content = s.ReadASN1(&out, x), match, true
				case 3:
					got, want, whole = s.ReadASN1Element(&out, x), match, true
				case 4:
					var o []byte
					got, want, content = s.ReadASN1Bytes(&o, x), match, true
					out = o
				case 5:
					got, want = s.SkipASN1(x), match
				case 6:
					got, want, consumes = s.PeekASN1Tag(x), present, false
				case 7:
					var p bool
					got = s.ReadOptionalASN1(&out, &p, x)
					want, content, consumes = !present || match, present, present
					if p != present {
						got = !want
					}
				case 8:
					got = s.ReadOptionalASN1(&out, nil, x)
					want, content, consumes = !present || match, present, present
				case 9:
					got = s.SkipOptionalASN1(x)
					want, consumes = !present || match, present
				case 10:
					got, want, content = s.ReadAnyASN1(&out, nil), ok, true
				}
			}) {
				return "panics"
			}
			if !bytes.Equal(box, was) {
				return "the input was modified"
			}
			if got != want {
				return fmt.Sprintf("reports %v, expected %v", got, want)
			}
			if !consumes {
				if !inside(s, box, 20, len(b)) {
					return "moves on although nothing was read"
				}
				return ""
			}
			if !got {
				return ""
			}
			if gtSet && byte(gt) != tg {
				return fmt.Sprintf("tag %x", gt)
			}
			if content && !inside(out, box, 20+h, l) || whole && !inside(out, box, 20, h+l) {
				return fmt.Sprintf("read %x", []byte(out))
			}
			if !inside(s, box, 20+h+l, len(b)-h-l) {
				return fmt.Sprintf("remainder %x", []byte(s))
			}
			return ""
		})
	}
}

// ---------------------------------------------------------------- C21

// twos is the minimal two's complement form.
func twos(n *big.Int) []byte {
	if n.Sign() == 0 {
		return []byte{0}
	}
	if n.Sign() > 0 {
		b := n.Bytes()
		if b[0] >= 0x80 {
			b = append([]byte{0}, b...)
		}
		return b
	}
	k := 1
	for new(big.Int).Add(n, new(big.Int).Lsh(big.NewInt(1), uint(8*k-1))).Sign() < 0 {
		k++
	}
	b := new(big.Int).Add(n, new(big.Int).Lsh(big.NewInt(1), uint(8*k))).Bytes()
	return b
}

// intOf: the reference decoder of integer content.
func intOf(c []byte) (bool, *big.Int) {
	if len(c) == 0 {
		return false, nil
	}
	v := new(big.Int).SetBytes(c)
	if c[0] >= 0x80 {
		v.Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(8*len(c))))
	}
	return bytes.Equal(twos(v), c), v
}

func someInt(r *zzrp.R) *big.Int {
	n := r.Big([]int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 72, 128, 256, 1016, 1024, 1100}[r.Intn(18)])
	if r.Intn(3) == 0 {
		n = new(big.Int).Lsh(big.NewInt(1), uint([]int{0, 7, 8, 15, 16, 31, 32, 55, 56, 63, 64, 71, 72, 127, 128, 248}[r.Intn(16)]))
		n.Add(n, big.NewInt(int64(r.Intn(3)-1)))
	}
	if r.Intn(2) == 0 {
		n.Neg(n)
	}
	return n
}

func inRange(v *big.Int, signed bool, bits uint) bool {
	one := big.NewInt(1)
	if !signed {
		return v.Sign() >= 0 && v.Cmp(new(big.Int).Lsh(one, bits)) < 0
	}
	m := new(big.Int).Lsh(one, bits-1)
	return v.Cmp(m) < 0 && v.Cmp(new(big.Int).Neg(m)) >= 0
}

type reader struct {
	name   string
	signed bool
	bits   uint
	f      func(s *String) (bool, *big.Int)
}

func readers() []reader {
	si := func(v int64) *big.Int { return big.NewInt(v) }
	ui := func(v uint64) *big.Int { return new(big.Int).SetUint64(v) }
	return []reader{
		{"int8", true, 8, func(s *String) (bool, *big.Int) { var v int8; ok := s.ReadASN1Integer(&v); return ok, si(int64(v)) }},
		{"int16", true, 16, func(s *String) (bool, *big.Int) { var v int16; ok := s.ReadASN1Integer(&v); return ok, si(int64(v)) }},
		{"int32", true, 32, func(s *String) (bool, *big.Int) { var v int32; ok := s.ReadASN1Integer(&v); return ok, si(int64(v)) }},
		{"int64", true, 64, func(s *String) (bool, *big.Int) { var v int64; ok := s.ReadASN1Integer(&v); return ok, si(v) }},
		{"int", true, 64, func(s *String) (bool, *big.Int) { var v int; ok := s.ReadASN1Integer(&v); return ok, si(int64(v)) }},
		{"uint8", false, 8, func(s *String) (bool, *big.Int) { var v uint8; ok := s.ReadASN1Integer(&v); return ok, ui(uint64(v)) }},
		{"uint16", false, 16, func(s *String) (bool, *big.Int) { var v uint16; ok := s.ReadASN1Integer(&v); return ok, ui(uint64(v)) }},
		{"uint32", false, 32, func(s *String) (bool, *big.Int) { var v uint32; ok := s.ReadASN1Integer(&v); return ok, ui(uint64(v)) }},
		{"uint64", false, 64, func(s *String) (bool, *big.Int) { var v uint64; ok := s.ReadASN1Integer(&v); return ok, ui(v) }},
		{"uint", false, 64, func(s *String) (bool, *big.Int) { var v uint; ok := s.ReadASN1Integer(&v); return ok, ui(uint64(v)) }},
		{"big", true, 1 << 20, func(s *String) (bool, *big.Int) { v := big.NewInt(77); ok := s.ReadASN1Integer(v); return ok, v }},
	}
}

func TestGV_C21(t *testing.T) {
	r := zzrp.New(t, "cryptobyte", 20*time.Second)
	for r.More() {
		n := someInt(r)
		c := twos(n)
		switch r.Intn(5) {
		case 0:
			c = r.Bytes(r.Len(12))
		case 1:
			c = append([]byte{[]byte{0, 0xff}[r.Intn(2)]}, c...)
		case 2:
			if len(c) > 0 {
				c[r.Intn(len(c))] ^= 1 << uint(r.Intn(8))
			}
		}
		b := elem(r, 2, c)
		rd := readers()[r.Intn(11)]
		r.Case(func() string { return fmt.Sprintf("number %v, string %x, reader %s", n, b, rd.name) }, func() string {
			// encoders
			for k := 0; k < 4; k++ {
				tag := byte(2)
				bl := NewBuilder(nil)
				m := new(big.Int).Set(n)
				switch {
				case k == 0:
					bl.AddASN1BigInt(n)
				case k == 1 && n.IsInt64():
					bl.AddASN1Int64(n.Int64())
				case k == 2 && n.IsInt64():
					bl.AddASN1Enum(n.Int64())
					tag = 10
				case k == 3 && n.IsUint64():
					bl.AddASN1Uint64(n.Uint64())
				default:
					continue
				}
				got, err := bl.Bytes()
				if want := der(tag, twos(m)); err != nil || !bytes.Equal(got, want) {
					return fmt.Sprintf("encoder %d gives %x (%v), expected %x", k, got, err, want)
				}
				if n.Cmp(m) != 0 {
					return "the encoder changes the number"
				}
			}
			// decoders
			dec := func(e []byte, rd reader, tag byte) string {
				box, s := boxed(r, e)
				was := zzrp.Copy(box)
				ok, tg, h, l := tlv(e)
				var v *big.Int
				if ok = ok && tg == tag; ok {
					ok, v = intOf(e[h : h+l])
					ok = ok && inRange(v, rd.signed, rd.bits)
				}
				var got bool
				var gv *big.Int
				if zzrp.Panics(func() { got, gv = rd.f(&s) }) {
					return rd.name + ": the decoder panics"
				}
				if !bytes.Equal(box, was) {
					return "the input was modified"
				}
				if got != ok {
					return fmt.Sprintf("%s: reports %v, expected %v for %x", rd.name, got, ok, e)
				}
				if ok && gv.Cmp(v) != 0 {
					return fmt.Sprintf("%s: value %v, expected %v for %x", rd.name, gv, v, e)
				}
				if ok && !inside(s, box, 20+h+l, len(e)-h-l) {
					return fmt.Sprintf("%s: remainder %x", rd.name, []byte(s))
				}
				return ""
			}
			if e := dec(b, rd, 2); e != "" {
				return e
			}
			if e := dec(der(2, twos(n)), rd, 2); e != "" {
				return e
			}
			en := reader{"enum", true, 64, func(s *String) (bool, *big.Int) {
				var v int
				ok := s.ReadASN1Enum(&v)
				return ok, big.NewInt(int64(v))
			}}
			if len(b) > 0 {
				b[0] ^= 8
			}
			return dec(b, en, 10)
		})
	}
}

// ---------------------------------------------------------------- C22, C23

var errSome = errors.New("some error")

// node is one addition.
type node struct {
	kind int // 0..3: integers, 4: bytes, 5..8: prefixed, 9: ASN.1, 10: error recorded, 11: BuildError panic, 12: NULL, 13: failing AddValue, 14: AddValue
	v    uint32
	b    []byte
	kids []node
}

type marsh struct {
	b []byte
	e error
}

func (m marsh) Marshal(b *Builder) error { b.AddBytes(m.b); return m.e }

func tree(r *zzrp.R, depth int, errs bool) []node {
	var ns []node
	for k := r.Intn(4); k >= 0; k-- {
		n := node{v: uint32(r.Big(32).Uint64())}
		switch x := r.Intn(12); {
		case x < 4:
			n.kind = x
		case x < 7:
			n.kind, n.b = 4, r.Bytes(size(r))
		case x == 7:
			n.kind = 12
		case x == 8:
			n.kind, n.b = 14, r.Bytes(r.Intn(20))
		default:
			if depth == 0 {
				n.kind = 0
				break
			}
			n.kind = 5 + r.Intn(8)
			if n.kind > 9 {
				n.kind = 9
			}
			n.v = uint32([]byte{0x30, 0x31, 0xa0, 4, 0x1e, 0x80}[r.Intn(6)])
			if errs && r.Intn(12) == 0 {
				n.v = 0x1f
			}
			n.kids = tree(r, depth-1, errs)
		}
		if errs && r.Intn(10) == 0 {
			n.kind = []int{10, 11, 13}[r.Intn(3)]
			if n.kind == 11 && depth == 3 {
				n.kind = 10
			}
			n.kids = nil
		}
		ns = append(ns, n)
	}
	return ns
}

func build(b *Builder, ns []node, after *int) {
	for _, n := range ns {
		n := n
		f := func(c *Builder) { build(c, n.kids, after) }
		switch n.kind {
		case 0:
			b.AddUint8(uint8(n.v))
		case 1:
			b.AddUint16(uint16(n.v))
		case 2:
			b.AddUint24(n.v)
		case 3:
			b.AddUint32(n.v)
		case 4:
			b.AddBytes(n.b)
		case 5:
			b.AddUint8LengthPrefixed(f)
		case 6:
			b.AddUint16LengthPrefixed(f)
		case 7:
			b.AddUint24LengthPrefixed(f)
		case 8:
			b.AddUint32LengthPrefixed(f)
		case 9:
			b.AddASN1(asn1.Tag(n.v), f)
		case 10:
			b.MarshalASN1(make(chan int))
		case 11:
			panic(BuildError{Err: errSome})
		case 12:
			b.AddASN1NULL()
		case 13:
			b.AddValue(marsh{n.b, errSome})
		case 14:
			b.AddValue(marsh{n.b, nil})
		}
	}
}

// render is the reference: the bytes and whether everything is possible.
func render(ns []node) (o []byte, ok bool) {
	ok = true
	for _, n := range ns {
		be := func(v uint32, k int) {
			for i := k - 1; i >= 0; i-- {
				o = append(o, byte(v>>uint(8*i)))
			}
		}
		switch n.kind {
		case 0, 1, 2, 3:
			be(n.v, n.kind+1)
		case 4, 14:
			o = append(o, n.b...)
		case 5, 6, 7, 8:
			c, k := render(n.kids)
			w := n.kind - 4
			if !k || w < 4 && len(c) >= 1<<uint(8*w) {
				ok = false
			}
			be(uint32(len(c)), w)
			o = append(o, c...)
		case 9:
			c, k := render(n.kids)
			if !k || n.v&0x1f == 0x1f {
				ok = false
			}
			o = append(o, der(byte(n.v), c)...)
		case 12:
			o = append(o, 5, 0)
		default:
			ok = false
		}
	}
	return
}

func show(ns []node) string {
	s := ""
	for _, n := range ns {
		switch {
		case n.kind < 4:
			s += fmt.Sprintf("uint%d(%x) ", 8*n.kind+8, n.v)
		case n.kind == 4 || n.kind == 13 || n.kind == 14:
			s += fmt.Sprintf("kind%d(%d bytes %.20x) ", n.kind, len(n.b), n.b)
		case n.kind < 9:
			s += fmt.Sprintf("prefixed%d{%s} ", n.kind-4, show(n.kids))
		case n.kind == 9:
			s += fmt.Sprintf("asn1 %x{%s} ", n.v, show(n.kids))
		default:
			s += fmt.Sprintf("kind%d ", n.kind)
		}
	}
	return s
}

// reread reads the output back along the tree.
func reread(s *String, ns []node) bool {
	for _, n := range ns {
		var c String
		ok := true
		switch n.kind {
		case 0, 1, 2, 3:
			ok = s.Skip(n.kind + 1)
		case 4, 14:
			var b []byte
			ok = s.ReadBytes(&b, len(n.b)) && bytes.Equal(b, n.b)
		case 5:
			ok = s.ReadUint8LengthPrefixed(&c) && reread(&c, n.kids)
		case 6:
			ok = s.ReadUint16LengthPrefixed(&c) && reread(&c, n.kids)
		case 7:
			ok = s.ReadUint24LengthPrefixed(&c) && reread(&c, n.kids)
		case 8:
			var l uint32
			var b []byte
			ok = s.ReadUint32(&l) && s.ReadBytes(&b, int(l))
			c = b
			ok = ok && reread(&c, n.kids)
		case 9:
			ok = s.ReadASN1(&c, asn1.Tag(n.v)) && reread(&c, n.kids)
		case 12:
			ok = s.ReadASN1(&c, 5) && c.Empty()
		}
		if !ok {
			return false
		}
	}
	return s.Empty()
}

func builders(t *testing.T, r *zzrp.R, errs bool) {
	for r.More() {
		ns := tree(r, 3, errs)
		pre := r.Bytes(r.Intn(20))
		if r.Intn(40) == 0 && !errs {
			ns = []node{{kind: []int{6, 7, 8, 9}[r.Intn(4)], v: 0x30, kids: []node{{kind: 4, b: make([]byte, 65534+r.Intn(4))}}}}
			if r.Intn(6) == 0 {
				ns[0].kids[0].b = make([]byte, 1<<24-2+r.Intn(4))
			}
		}
		want, ok := render(ns)
		kind := r.Intn(3) // growing, growing with spare room, fixed
		room := r.Len(len(want) + 30)
		if r.Intn(2) == 0 {
			room = len(want) - 4 + r.Intn(9)
			if room < 0 {
				room = 0
			}
		}
		r.Case(func() string {
			return fmt.Sprintf("builder kind %d with %d bytes written and room for %d (needs %d), then %s", kind, len(pre), room, len(want), show(ns))
		}, func() string {
			box := r.Bytes(len(pre) + room + 16)
			copy(box, pre)
			was := zzrp.Copy(box)
			buf := box[: len(pre) : len(pre)+room]
			var b *Builder
			switch kind {
			case 0:
				buf = zzrp.Copy(pre)
				b = NewBuilder(buf[:len(pre):len(pre)])
			case 1:
				b = NewBuilder(buf)
			case 2:
				b = NewFixedBuilder(buf)
			}
			if zzrp.Panics(func() { build(b, ns, nil) }) {
				return "panics"
			}
			if !bytes.Equal(box[len(pre)+room:], was[len(pre)+room:]) {
				return "wrote beyond the capacity of the buffer"
			}
			if !bytes.Equal(box[:len(pre)], pre) {
				return "overwrote what was in the buffer"
			}
			good := ok && (kind != 2 || len(want) <= room)
			got, err := b.Bytes()
			if good && err != nil {
				return fmt.Sprintf("error %v", err)
			}
			if !good && !ok && err == nil {
				return "no error"
			}
			if !good && ok && err == nil {
				return "no error although the fixed buffer is too small"
			}
			if good {
				if exp := append(zzrp.Copy(pre), want...); !bytes.Equal(got, exp) {
					i := 0
					for i < len(got) && i < len(exp) && got[i] == exp[i] {
						i++
					}
					return fmt.Sprintf("output of %d bytes differs from the expected %d bytes at %d", len(got), len(exp), i)
				}
				if kind == 2 && len(got) > 0 && &got[0] != &box[0] {
					return "the fixed builder moved to another buffer"
				}
				s := String(got[len(pre):])
				if !reread(&s, ns) {
					return "reading the output back fails"
				}
				return ""
			}
			// sticky
			called := false
			if zzrp.Panics(func() {
				b.AddUint8(1)
				b.AddBytes([]byte{1, 2})
				b.AddASN1(0x30, func(c *Builder) { called = true })
				b.AddUint8LengthPrefixed(func(c *Builder) { called = true })
				b.AddASN1Int64(5)
				b.AddValue(marsh{nil, nil})
				b.MarshalASN1(5)
			}) {
				return "an addition after the error panics"
			}
			if called {
				return "a continuation is called after the error"
			}
			if _, e := b.Bytes(); e == nil {
				return "the error is forgotten"
			}
			if !zzrp.Panics(func() { b.BytesOrPanic() }) {
				return "BytesOrPanic does not panic"
			}
			return ""
		})
	}
}

func TestGV_C22(t *testing.T) {
	builders(t, zzrp.New(t, "cryptobyte", 20*time.Second), false)
}

func TestGV_C23(t *testing.T) {
	r := zzrp.New(t, "cryptobyte", 25*time.Second)
	r.Case(func() string { return "a continuation that panics with something else" }, func() string {
		for k := 0; k < 3; k++ {
			var v interface{}
			func() {
				defer func() { v = recover() }()
				b := NewBuilder(nil)
				b.AddUint16LengthPrefixed(func(c *Builder) {
					if k > 0 {
						c.AddASN1(0x30, func(d *Builder) { panic("other") })
						return
					}
					panic("other")
				})
			}()
			if v != "other" {
				return fmt.Sprintf("recovered %v", v)
			}
		}
		return ""
	})
	builders(t, r, true)
}

// ---------------------------------------------------------------- C24

func b128(v int) []byte {
	o := []byte{byte(v & 0x7f)}
	for v >>= 7; v > 0; v >>= 7 {
		o = append([]byte{byte(v&0x7f) | 0x80}, o...)
	}
	return o
}

func oidOf(c []byte) (bool, []int) {
	var subs []int
	for len(c) > 0 {
		if c[0] == 0x80 {
			return false, nil
		}
		v, i := 0, 0
		for {
			if i == len(c) || i == 5 {
				return false, nil
			}
			v = v<<7 | int(c[i]&0x7f)
			if i++; c[i-1] < 0x80 {
				break
			}
		}
		if v >= 1<<31 {
			return false, nil
		}
		subs, c = append(subs, v), c[i:]
	}
	if len(subs) == 0 {
		return false, nil
	}
	switch x := subs[0]; {
	case x < 40:
		return true, append([]int{0, x}, subs[1:]...)
	case x < 80:
		return true, append([]int{1, x - 40}, subs[1:]...)
	default:
		return true, append([]int{2, x - 80}, subs[1:]...)
	}
}

func component(r *zzrp.R) int {
	switch r.Intn(4) {
	case 0:
		return r.Intn(50)
	case 1:
		v := 1 << uint(7*r.Intn(5))
		return v + r.Intn(3) - 1
	case 2:
		return 1<<31 - 1 - r.Intn(3)*r.Intn(60)
	}
	return int(r.Big(31).Int64())
}

func TestGV_C24(t *testing.T) {
	r := zzrp.New(t, "cryptobyte", 20*time.Second)
	for r.More() {
		var oid []int
		for k := r.Intn(8); k > 0; k-- {
			oid = append(oid, component(r))
		}
		if len(oid) > 0 && r.Intn(8) > 0 {
			oid[0] %= 3
			if len(oid) > 1 && r.Intn(2) == 0 {
				oid[1] %= 41
			}
		}
		if len(oid) > 0 && r.Intn(10) == 0 {
			oid[r.Intn(len(oid))] = -1 - r.Intn(3)
		}
		valid := len(oid) >= 2 && oid[0] <= 2 && (oid[0] == 2 || oid[1] < 40)
		for _, v := range oid {
			valid = valid && v >= 0
		}
		var enc []byte
		if valid {
			enc = b128(oid[0]*40 + oid[1])
			for _, v := range oid[2:] {
				enc = append(enc, b128(v)...)
			}
		}
		c := zzrp.Copy(enc)
		switch r.Intn(5) {
		case 0:
			c = r.Bytes(r.Len(12))
		case 1:
			if len(c) > 0 {
				c[r.Intn(len(c))] ^= 0x80
			}
		case 2:
			i := r.Intn(len(c) + 1)
			c = append(c[:i:i], append([]byte{0x80}, c[i:]...)...)
		case 3:
			c = append(c, []byte{0x87, 0xff, 0xff, 0xff, 0x7f, 0x88, 0x80, 0x80, 0x80, 0}[5*r.Intn(2):][:5]...)
		}
		b := elem(r, 6, c)
		r.Case(func() string { return fmt.Sprintf("identifier %v, string %x", oid, b) }, func() string {
			bl := NewBuilder(nil)
			if zzrp.Panics(func() { bl.AddASN1ObjectIdentifier(oid) }) {
				return "the encoder panics"
			}
			got, err := bl.Bytes()
			if (err == nil) != valid {
				return fmt.Sprintf("encoder error %v, valid %v", err, valid)
			}
			if valid && !bytes.Equal(got, der(6, enc)) {
				return fmt.Sprintf("encoding %x, expected %x", got, der(6, enc))
			}
			box, s := boxed(r, b)
			was := zzrp.Copy(box)
			ok, tg, h, l := tlv(b)
			var want []int
			if ok = ok && tg == 6; ok {
				ok, want = oidOf(b[h : h+l])
			}
			var o encoding_asn1.ObjectIdentifier
			var res bool
			if zzrp.Panics(func() { res = s.ReadASN1ObjectIdentifier(&o) }) {
				return "the decoder panics"
			}
			if !bytes.Equal(box, was) {
				return "the input was modified"
			}
			if res != ok {
				return fmt.Sprintf("decoder reports %v, expected %v", res, ok)
			}
			if ok {
				if !o.Equal(want) {
					return fmt.Sprintf("decoded %v, expected %v", o, want)
				}
				if !inside(s, box, 20+h+l, len(b)-h-l) {
					return fmt.Sprintf("remainder %x", []byte(s))
				}
			}
			return ""
		})
	}
}

// ---------------------------------------------------------------- C25

func TestGV_C25(t *testing.T) {
	r := zzrp.New(t, "cryptobyte", 20*time.Second)
	for r.More() {
		var c []byte
		tag := []byte{1, 1, 3, 3, 4, 0xa0, 0xa1, 2}[r.Intn(8)]
		switch tag {
		case 1:
			c = []byte{[]byte{0, 0xff, 1, 0xfe, 0x80}[r.Intn(5)]}
			if r.Intn(5) == 0 {
				c = r.Bytes(r.Intn(4))
			}
		case 3:
			c = append([]byte{byte(r.Intn(10))}, r.Bytes(r.Len(20))...)
			if r.Intn(2) == 0 {
				c[0] = 0
			}
			if len(c) > 1 && r.Intn(2) == 0 {
				c[len(c)-1] &^= 1<<(c[0]&15) - 1
			}
			if r.Intn(8) == 0 {
				c = c[:r.Intn(2)]
			}
		case 4:
			c = r.Bytes(r.Len(30))
		default:
			in := []byte{2, 4, 3}[r.Intn(3)]
			d := r.Bytes(1 + r.Intn(10))
			if r.Intn(2) == 0 {
				in = []byte{2, 4}[tag&1]
				d = r.Bytes(1 + r.Intn(8))
			}
			c = der(in, d)
			if r.Intn(4) == 0 {
				c = append(c, r.Bytes(1+r.Intn(3))...)
			}
		}
		b := elem(r, tag, c)
		data := r.Bytes(size(r))
		op := r.Intn(7)
		dflt := int64(r.Intn(2000) - 1000)
		r.Case(func() string {
			return fmt.Sprintf("string %x, operation %d, default %d, data of %d bytes", b, op, dflt, len(data))
		}, func() string {
			for k := 0; k < 5; k++ {
				bl := NewBuilder(nil)
				var want []byte
				switch k {
				case 0, 1:
					bl.AddASN1Boolean(k == 1)
					want = []byte{1, 1, byte(-k)}
				case 2:
					bl.AddASN1OctetString(data)
					want = der(4, data)
				case 3:
					bl.AddASN1BitString(data)
					want = der(3, append([]byte{0}, data...))
				case 4:
					bl.AddASN1NULL()
					want = []byte{5, 0}
				}
				if got, err := bl.Bytes(); err != nil || !bytes.Equal(got, want) {
					return fmt.Sprintf("encoder %d gives %.40x (%v), expected %.40x", k, got, err, want)
				}
			}
			box, s := boxed(r, b)
			was := zzrp.Copy(box)
			ok, tg, h, l := tlv(b)
			var cc []byte
			if ok {
				cc = b[h : h+l]
			}
			present := func(t byte) bool { return len(b) > 0 && b[0] == t }
			var got, want bool
			consumes := true
			bad := ""
			if zzrp.Panics(func() {
				switch op {
				case 0:
					v := dflt&1 == 0
					got = s.ReadASN1Boolean(&v)
					want = ok && tg == 1 && l == 1 && (cc[0] == 0 || cc[0] == 0xff)
					if got && want && v != (cc[0] == 0xff) {
						bad = fmt.Sprintf("value %v", v)
					}
				case 1:
					v := dflt&2 == 0
					d := dflt&1 == 0
					got = s.ReadOptionalASN1Boolean(&v, d)
					if !present(1) {
						want, consumes = true, false
						if v != d {
							bad = "wrong default"
						}
						return
					}
					want = ok && tg == 1 && l == 1 && (cc[0] == 0 || cc[0] == 0xff)
					if got && want && v != (cc[0] == 0xff) {
						bad = fmt.Sprintf("value %v", v)
					}
				case 2:
					var v encoding_asn1.BitString
					got = s.ReadASN1BitString(&v)
					want = ok && tg == 3 && l > 0 && cc[0] <= 7 && (l > 1 || cc[0] == 0) && cc[l-1]&(1<<cc[0]-1)*b2(l > 1) == 0
					if got && want && (v.BitLength != 8*(l-1)-int(cc[0]) || !inside(v.Bytes, box, 20+h+1, l-1)) {
						bad = fmt.Sprintf("value %x (%d bits)", v.Bytes, v.BitLength)
					}
				case 3:
					var v []byte
					got = s.ReadASN1BitStringAsBytes(&v)
					want = ok && tg == 3 && l > 0 && cc[0] == 0
					if got && want && !inside(v, box, 20+h+1, l-1) {
						bad = fmt.Sprintf("value %x", v)
					}
				case 4:
					v, p := []byte{7}, dflt&1 == 0
					got = s.ReadOptionalASN1OctetString(&v, &p, 0xa1)
					if p2 := present(0xa1); p != p2 && (got || !p2) {
						bad = "presence wrong"
					}
					if !present(0xa1) {
						want, consumes = true, false
						if v != nil {
							bad = "wrong default"
						}
						return
					}
					o2, t2, h2, l2 := tlv(cc)
					want = ok && o2 && t2 == 4 && h2+l2 == l
					if got && want && !inside(v, box, 20+h+h2, l2) {
						bad = fmt.Sprintf("value %x", v)
					}
				case 5, 6:
					var num *big.Int
					bits := uint(64)
					if op == 5 {
						v := dflt + 5
						got = s.ReadOptionalASN1Integer(&v, 0xa0, dflt)
						num = big.NewInt(v)
					} else {
						num = big.NewInt(5)
						bits = 1 << 20
						got = s.ReadOptionalASN1Integer(num, 0xa0, big.NewInt(dflt))
					}
					if !present(0xa0) {
						want, consumes = true, false
						if num.Cmp(big.NewInt(dflt)) != 0 {
							bad = "wrong default"
						}
						return
					}
					o2, t2, h2, l2 := tlv(cc)
					want = ok && o2 && t2 == 2 && h2+l2 == l
					var x *big.Int
					if want {
						want, x = intOf(cc[h2:])
						want = want && inRange(x, true, bits)
					}
					if got && want && num.Cmp(x) != 0 {
						bad = fmt.Sprintf("value %v", num)
					}
				}
			}) {
				return "panics"
			}
			if !bytes.Equal(box, was) {
				return "the input was modified"
			}
			if got != want {
				return fmt.Sprintf("reports %v, expected %v", got, want)
			}
			if bad != "" {
				return bad
			}
			if !consumes {
				h, l = 0, 0
			}
			if got && !inside(s, box, 20+h+l, len(b)-h-l) {
				return fmt.Sprintf("remainder %x", []byte(s))
			}
			return ""
		})
	}
}

func b2(b bool) byte {
	if b {
		return 1
	}
	return 0
}
