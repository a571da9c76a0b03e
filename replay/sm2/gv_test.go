package sm2

import (
	"bytes"
	"crypto/rand"
	"encoding/asn1"
	"errors"
	"fmt"
	"io"
	"math/big"
	"testing"
	"time"

	"github.com/ZZMarquis/gm/zzorc"
	"github.com/ZZMarquis/gm/zzrp"
)

const gvT = 25 * time.Second

var gvOne = big.NewInt(1)

// gvShort are scalars m for which a coordinate of [m]G has leading zero bytes.
var gvShort []*big.Int

func gvInit() {
	g := zzorc.SM2G()
	p := g
	for i := int64(1); i < 1500; i++ {
		if p.X.BitLen() <= 248 || p.Y.BitLen() <= 248 {
			gvShort = append(gvShort, big.NewInt(i))
		}
		p = zzorc.SM2Add(p, g)
	}
	// one with two leading zero bytes
	gvShort = append(gvShort, big.NewInt(1), big.NewInt(2))
}

// scalar is a number in [1, n-2].
func gvScalar(r *zzrp.R) *big.Int {
	for {
		var z *big.Int
		switch r.Intn(6) {
		case 0:
			z = new(big.Int).Set(gvShort[r.Intn(len(gvShort))])
		case 1:
			z = new(big.Int).Sub(zzorc.SM2N, big.NewInt(int64(2+r.Intn(4))))
		case 2:
			z = r.Big(256 - 8*r.Intn(4))
		default:
			b := make([]byte, 32)
			r.Read(b)
			z = new(big.Int).SetBytes(b)
		}
		if z.Sign() > 0 && new(big.Int).Sub(zzorc.SM2N, z).Cmp(gvOne) > 0 {
			return z
		}
	}
}

func gvPriv(d *big.Int) *PrivateKey {
	return &PrivateKey{D: new(big.Int).Set(d), Curve: GetSm2P256V1()}
}

func gvPub(p zzorc.Pt) *PublicKey {
	return &PublicKey{X: new(big.Int).Set(p.X), Y: new(big.Int).Set(p.Y), Curve: GetSm2P256V1()}
}

func gvG(d *big.Int) zzorc.Pt { return zzorc.SM2Mul(d, zzorc.SM2G()) }

// gvNonce is a random source that yields the bytes of the given nonces and then fails.
type gvReader struct {
	buf  []byte
	fail error
	one  bool
}

func (g *gvReader) Read(b []byte) (int, error) {
	if len(g.buf) == 0 {
		return 0, g.fail
	}
	if g.one && len(b) > 1 {
		b = b[:1]
	}
	n := copy(b, g.buf)
	g.buf = g.buf[n:]
	return n, nil
}

var gvFail = errors.New("random source failed")

// gvNonces prepares a stream of draws the last of which is k; earlier ones must be rejected.
func gvNonces(r *zzrp.R, k *big.Int) *gvReader {
	g := &gvReader{fail: gvFail, one: r.Intn(4) == 0}
	for r.Intn(3) == 0 {
		switch r.Intn(3) {
		case 0:
			g.buf = append(g.buf, make([]byte, 32)...)
		case 1:
			g.buf = append(g.buf, zzorc.B32(zzorc.SM2N)...)
		default:
			g.buf = append(g.buf, bytes.Repeat([]byte{0xff}, 32)...)
		}
	}
	if k != nil {
		g.buf = append(g.buf, zzorc.B32(k)...)
	} else {
		g.buf = append(g.buf, make([]byte, r.Intn(32))...)
	}
	return g
}

func gvWith(rd io.Reader, f func()) {
	old := rand.Reader
	rand.Reader = rd
	defer func() { rand.Reader = old }()
	f()
}

func gvID(r *zzrp.R) []byte {
	switch r.Intn(5) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return []byte("1234567812345678")
	case 3:
		return r.Bytes(r.Len(200))
	}
	return r.Bytes([]int{31, 32, 33, 55, 56, 63, 64, 255, 256, 1000, 4096, 8190, 8191}[r.Intn(13)])
}

func gvSignID(id []byte) []byte {
	if id == nil {
		return []byte("1234567812345678")
	}
	return id
}

// gvBadPt is a pair that is no point of the curve.
func gvBadPt(r *zzrp.R) zzorc.Pt {
	p := gvG(gvScalar(r))
	switch r.Intn(8) {
	case 0:
		return zzorc.Pt{X: new(big.Int), Y: new(big.Int)}
	case 1:
		p = zzorc.Pt{X: p.X, Y: new(big.Int).Add(p.Y, gvOne)}
	case 2:
		p = zzorc.Pt{X: new(big.Int).Add(p.X, gvOne), Y: p.Y}
	case 3:
		p = zzorc.Pt{X: new(big.Int).Add(p.X, zzorc.SM2P), Y: p.Y}
	case 4:
		p = zzorc.Pt{X: p.X, Y: new(big.Int).Add(p.Y, zzorc.SM2P)}
	case 5:
		p = zzorc.Pt{X: new(big.Int).Neg(p.X), Y: p.Y}
	case 6:
		p = zzorc.Pt{X: p.X, Y: new(big.Int).Neg(p.Y)}
	default:
		p = zzorc.Pt{X: r.Big(256), Y: r.Big(256)}
	}
	if zzorc.SM2On(p.X, p.Y) {
		return zzorc.Pt{X: new(big.Int), Y: new(big.Int)}
	}
	return p
}

// gvPt32 is a pair of coordinates below 2^256 that is a point of the curve about half of the time.
func gvPt32(r *zzrp.R) zzorc.Pt {
	p := gvG(gvScalar(r))
	switch r.Intn(10) {
	case 0:
		p.X = new(big.Int).Add(p.X, gvOne)
	case 1:
		p.Y = new(big.Int).Sub(p.Y, gvOne)
	case 2:
		p = zzorc.Pt{X: p.Y, Y: p.X}
	case 3:
		p = zzorc.Pt{X: r.Big(256), Y: r.Big(256)}
	case 4:
		p = zzorc.Pt{X: new(big.Int), Y: new(big.Int)}
	case 5:
		// the same point with a coordinate not reduced modulo p, where it fits
		if q := new(big.Int).Add(p.X, zzorc.SM2P); q.BitLen() <= 256 {
			p.X = q
		}
	}
	return p
}

func TestGV_C09(t *testing.T) {
	r := zzrp.New(t, "sm2", gvT)
	gvInit()
	type kept struct{ got, want []byte }
	var earlier []kept
	for r.More() {
		d := r.Big(256)
		p := gvPt32(r)
		n := r.Len(200)
		switch r.Intn(4) {
		case 0:
			n = 32
		case 1:
			n = 64
		}
		raw := r.Bytes(n)
		if n == 64 && r.Intn(2) == 0 {
			raw = append(zzorc.B32(p.X), zzorc.B32(p.Y)...)
		}
		if n == 32 && r.Intn(2) == 0 {
			raw = zzorc.B32(new(big.Int).Sub(zzorc.SM2N, big.NewInt(int64(r.Intn(4)))))
		}
		r.Case(func() string { return fmt.Sprintf("d = %x, point = (%x, %x), bytes = %x", d, p.X, p.Y, raw) }, func() string {
			pri, pub := gvPriv(d), gvPub(p)
			var now []kept
			for _, b := range [][]byte{pri.GetRawBytes(), pub.GetRawBytes(), pub.GetUnCompressBytes()} {
				now = append(now, kept{b, zzrp.Copy(b)})
			}
			for _, e := range earlier {
				if !bytes.Equal(e.got, e.want) {
					return fmt.Sprintf("the encoding %x of an earlier key has changed to %x", e.want, e.got)
				}
			}
			earlier = now
			if g := pri.GetRawBytes(); !bytes.Equal(g, zzorc.B32(d)) {
				return fmt.Sprintf("PrivateKey.GetRawBytes = %x", g)
			}
			if g := pub.GetRawBytes(); !bytes.Equal(g, append(zzorc.B32(p.X), zzorc.B32(p.Y)...)) {
				return fmt.Sprintf("PublicKey.GetRawBytes = %x", g)
			}
			if g := pub.GetUnCompressBytes(); !bytes.Equal(g, append(append([]byte{4}, zzorc.B32(p.X)...), zzorc.B32(p.Y)...)) {
				return fmt.Sprintf("GetUnCompressBytes = %x", g)
			}
			if pri.D.Cmp(d) != 0 || pub.X.Cmp(p.X) != 0 || pub.Y.Cmp(p.Y) != 0 {
				return "encoding modifies the key"
			}
			in := zzrp.Copy(raw)
			gp, err := RawBytesToPublicKey(in)
			ok := len(raw) == 64 && zzorc.SM2On(new(big.Int).SetBytes(raw[:32]), new(big.Int).SetBytes(raw[32:]))
			if (err == nil) != ok || (gp != nil) != ok {
				return fmt.Sprintf("RawBytesToPublicKey: err = %v, key %v, expected success: %v", err, gp != nil, ok)
			}
			if ok && (!bytes.Equal(zzorc.B32(gp.X), raw[:32]) || !bytes.Equal(zzorc.B32(gp.Y), raw[32:])) {
				return "RawBytesToPublicKey returns another point"
			}
			gd, err := RawBytesToPrivateKey(in)
			ok = false
			if len(raw) == 32 {
				v := new(big.Int).SetBytes(raw)
				ok = v.Sign() > 0 && v.Cmp(new(big.Int).Sub(zzorc.SM2N, gvOne)) < 0
			}
			if (err == nil) != ok || (gd != nil) != ok {
				return fmt.Sprintf("RawBytesToPrivateKey: err = %v, key %v, expected success: %v", err, gd != nil, ok)
			}
			if ok && !bytes.Equal(zzorc.B32(gd.D), raw) {
				return "RawBytesToPrivateKey returns another scalar"
			}
			if !bytes.Equal(in, raw) {
				return "decoding modifies its input"
			}
			return ""
		})
	}
}

func TestGV_C10(t *testing.T) {
	r := zzrp.New(t, "sm2", gvT)
	gvInit()
	cv := GetSm2P256V1()
	r.Case(func() string { return "curve parameters" }, func() string {
		for _, x := range []struct {
			n    string
			a, b *big.Int
		}{{"p", cv.P, zzorc.SM2P}, {"a", cv.A, zzorc.SM2A}, {"b", cv.B, zzorc.SM2B}, {"n", cv.N, zzorc.SM2N}, {"Gx", cv.Gx, zzorc.SM2Gx}, {"Gy", cv.Gy, zzorc.SM2Gy}} {
			if x.a == nil || x.a.Cmp(x.b) != 0 {
				return fmt.Sprintf("%s = %x, the standard has %x", x.n, x.a, x.b)
			}
		}
		if cv.BitSize != 256 {
			return fmt.Sprintf("BitSize = %d", cv.BitSize)
		}
		return ""
	})
	for r.More() {
		d := gvScalar(r)
		if r.Intn(8) == 0 {
			d = new(big.Int).Sub(zzorc.SM2N, gvOne)
		}
		var seed []byte
		for k := 1 + r.Intn(4); k > 0; k-- {
			switch r.Intn(6) {
			case 0: // the candidate 0 or 1 after the mask of the library
				b := make([]byte, 32)
				b[1] = 0x42
				b[31] = byte(r.Intn(2))
				seed = append(seed, b...)
			case 1:
				b := zzorc.B32(new(big.Int).Sub(zzorc.SM2N, big.NewInt(int64(r.Intn(4)))))
				b[1] ^= 0x42
				seed = append(seed, b...)
			default:
				seed = append(seed, r.Bytes(32)...)
			}
		}
		cut := len(seed)
		if r.Intn(3) == 0 {
			cut = r.Intn(len(seed) + 1)
		}
		one := r.Intn(4) == 0
		d2 := gvScalar(r)
		r.Case(func() string { return fmt.Sprintf("d = %x, random stream of %d bytes: %x", d, cut, seed[:cut]) }, func() string {
			pri := gvPriv(d)
			pub := CalculatePubKey(pri)
			w := gvG(d)
			if pub == nil || pub.X.Cmp(w.X) != 0 || pub.Y.Cmp(w.Y) != 0 {
				return fmt.Sprintf("CalculatePubKey = %+v, expected (%x, %x)", pub, w.X, w.Y)
			}
			if pri.D.Cmp(d) != 0 {
				return "CalculatePubKey modifies the private key"
			}
			// the same key object with another scalar, and writes to the result
			pub.X.SetInt64(1)
			pri.D.Set(d2)
			w = gvG(d2)
			if q := CalculatePubKey(pri); q.X.Cmp(w.X) != 0 || q.Y.Cmp(w.Y) != 0 {
				return fmt.Sprintf("CalculatePubKey of the same object set to %x = (%x, %x), expected (%x, %x)", d2, q.X, q.Y, w.X, w.Y)
			}
			gk, gp, err := GenerateKey(&gvReader{buf: zzrp.Copy(seed[:cut]), fail: gvFail, one: one})
			if err != nil {
				if gk != nil || gp != nil {
					return "GenerateKey returns a key with an error"
				}
				// some draw of the stream must be missing
				if cut >= 32 {
					for i := 0; i+32 <= cut; i += 32 {
						b := zzrp.Copy(seed[i : i+32])
						b[1] ^= 0x42
						v, u := new(big.Int).SetBytes(b), new(big.Int).SetBytes(seed[i:i+32])
						max := new(big.Int).Sub(zzorc.SM2N, gvOne)
						if v.Sign() > 0 && v.Cmp(max) < 0 && u.Sign() > 0 && u.Cmp(max) < 0 {
							return fmt.Sprintf("GenerateKey fails (%v) though the stream has an acceptable draw", err)
						}
					}
				}
				return ""
			}
			if cut < 32 {
				return "GenerateKey succeeds though the random source failed"
			}
			if gk == nil || gp == nil {
				return "GenerateKey returns no key and no error"
			}
			if gk.D.Sign() <= 0 || gk.D.Cmp(new(big.Int).Sub(zzorc.SM2N, gvOne)) >= 0 {
				return fmt.Sprintf("generated scalar out of range: %x", gk.D)
			}
			w = gvG(gk.D)
			if gp.X.Cmp(w.X) != 0 || gp.Y.Cmp(w.Y) != 0 {
				return "the generated public key is not [d]G"
			}
			return ""
		})
	}
}

func TestGV_C11(t *testing.T) {
	r := zzrp.New(t, "sm2", gvT)
	gvInit()
	for r.More() {
		d, k := gvScalar(r), gvScalar(r)
		if r.Intn(10) == 0 {
			k = new(big.Int).Sub(zzorc.SM2N, gvOne)
		}
		id, msg := gvID(r), r.Bytes(r.Len(300))
		rd := gvNonces(r, k)
		if r.Intn(6) == 0 {
			rd = gvNonces(r, nil)
			k = nil
		}
		buf := zzrp.Copy(rd.buf)
		r.Case(func() string {
			return fmt.Sprintf("d = %x, id = %x (nil: %v), message = %x, random stream = %x, then an error", d, id, id == nil, msg, buf)
		}, func() string {
			pri := gvPriv(d)
			id0, m0 := zzrp.Copy(id), zzrp.Copy(msg)
			var gr, gs *big.Int
			var err error
			gvWith(rd, func() { gr, gs, err = SignToRS(pri, id, msg) })
			if pri.D.Cmp(d) != 0 || !bytes.Equal(id, id0) || !bytes.Equal(msg, m0) {
				return "SignToRS modifies its arguments"
			}
			var wr, ws *big.Int
			ok := false
			if k != nil {
				wr, ws, ok = zzorc.SM2Sign(d, gvSignID(id), msg, k)
			}
			if !ok {
				if err == nil {
					return fmt.Sprintf("SignToRS returns (%x, %x) though the random source failed", gr, gs)
				}
				if gr != nil || gs != nil {
					return "SignToRS returns numbers with an error"
				}
				return ""
			}
			if err != nil {
				return fmt.Sprintf("SignToRS fails: %v", err)
			}
			if gr.Cmp(wr) != 0 || gs.Cmp(ws) != 0 {
				return fmt.Sprintf("SignToRS = (%x, %x), expected (%x, %x) for nonce %x", gr, gs, wr, ws, k)
			}
			if !VerifyByRS(gvPub(gvG(d)), id, msg, gr, gs) {
				return "VerifyByRS refuses the signature"
			}
			var der []byte
			gvWith(&gvReader{buf: zzorc.B32(k), fail: gvFail}, func() { der, err = Sign(pri, id, msg) })
			w, _ := asn1.Marshal(struct{ R, S *big.Int }{wr, ws})
			if err != nil || !bytes.Equal(der, w) {
				return fmt.Sprintf("Sign = %x, %v; expected %x", der, err, w)
			}
			return ""
		})
	}
}

func TestGV_C12(t *testing.T) {
	r := zzrp.New(t, "sm2", gvT)
	gvInit()
	for r.More() {
		d, k := gvScalar(r), gvScalar(r)
		p := gvG(d)
		id, msg := gvID(r), r.Bytes(r.Len(300))
		rr, ss, ok := zzorc.SM2Sign(d, gvSignID(id), msg, k)
		if !ok {
			continue
		}
		switch r.Intn(20) {
		case 0:
			rr = new(big.Int).Add(rr, zzorc.SM2N)
		case 1:
			ss = new(big.Int).Add(ss, zzorc.SM2N)
		case 2:
			rr = new(big.Int).Sub(rr, zzorc.SM2N)
		case 3:
			ss = new(big.Int).Sub(ss, zzorc.SM2N)
		case 4:
			rr = new(big.Int)
		case 5:
			ss = new(big.Int)
		case 6:
			ss = new(big.Int).Sub(zzorc.SM2N, rr)
		case 7:
			rr, ss = ss, rr
		case 8:
			rr = new(big.Int).Set(zzorc.SM2N)
		case 9:
			ss = new(big.Int).Set(zzorc.SM2N)
		case 10:
			p = gvBadPt(r)
		case 11:
			msg = append(zzrp.Copy(msg), 0)
		case 12:
			if len(msg) > 0 {
				msg = zzrp.Copy(msg)
				msg[r.Intn(len(msg))] ^= 1 << uint(r.Intn(8))
			}
		case 13:
			id = gvID(r)
		case 14:
			rr, ss = r.Big(300), r.Big(300)
		case 15:
			p = gvG(gvScalar(r))
		case 16:
			// s, t chosen so that [s]G+[t]P is at infinity: s = -t d
			t := gvScalar(r)
			ss = new(big.Int).Mul(t, d)
			ss.Neg(ss)
			ss.Mod(ss, zzorc.SM2N)
			rr = new(big.Int).Sub(t, ss)
			rr.Mod(rr, zzorc.SM2N)
		case 17:
			// r = e mod n with the point at infinity: the equation with x1 = 0
			rr = zzorc.SM2E(gvSignID(id), p, msg)
			rr.Mod(rr, zzorc.SM2N)
			// r + s = t, s + t d = 0  =>  s = -r d / (1+d)
			i := new(big.Int).Add(d, gvOne)
			i.ModInverse(i, zzorc.SM2N)
			ss = new(big.Int).Mul(rr, d)
			ss.Mul(ss, i)
			ss.Neg(ss)
			ss.Mod(ss, zzorc.SM2N)
		}
		r.Case(func() string {
			return fmt.Sprintf("P = (%x, %x), id = %x (nil: %v), message = %x, r = %x, s = %x", p.X, p.Y, id, id == nil, msg, rr, ss)
		}, func() string {
			pub := gvPub(p)
			r0, s0, id0, m0 := new(big.Int).Set(rr), new(big.Int).Set(ss), zzrp.Copy(id), zzrp.Copy(msg)
			w := zzorc.SM2Verify(p, gvSignID(id), msg, rr, ss)
			if g := VerifyByRS(pub, id, msg, rr, ss); g != w {
				return fmt.Sprintf("VerifyByRS = %v, expected %v", g, w)
			}
			if rr.Cmp(r0) != 0 || ss.Cmp(s0) != 0 || !bytes.Equal(id, id0) || !bytes.Equal(msg, m0) || pub.X.Cmp(p.X) != 0 || pub.Y.Cmp(p.Y) != 0 {
				return "VerifyByRS modifies its arguments"
			}
			der, _ := asn1.Marshal(struct{ R, S *big.Int }{rr, ss})
			d0 := zzrp.Copy(der)
			if g := Verify(pub, id, msg, der); g != w {
				return fmt.Sprintf("Verify = %v, expected %v", g, w)
			}
			if !bytes.Equal(der, d0) {
				return "Verify modifies the signature"
			}
			bad := gvMutate(r, der)
			if _, _, ok := gvDecSig(bad); !ok && Verify(pub, id, msg, bad) {
				return fmt.Sprintf("Verify accepts the malformed signature %x", bad)
			}
			return ""
		})
	}
}

// gvMutate damages an encoding.
func gvMutate(r *zzrp.R, der []byte) []byte {
	b := zzrp.Copy(der)
	for k := 1 + r.Intn(2); k > 0; k-- {
		n := len(b)
		switch r.Intn(9) {
		case 0:
			b = append(b, r.Byte())
		case 1:
			b = b[:r.Intn(n+1)]
		case 2:
			if n > 0 {
				b[r.Intn(n)] = r.Byte()
			}
		case 3:
			if n > 0 {
				b[r.Intn(n)] ^= 1 << uint(r.Intn(8))
			}
		case 4: // content with an extra element, length adapted
			if n > 2 && b[1] < 0x70 {
				b = append(b, 5, 0)
				b[1] += 2
			}
		case 5: // long form of the length
			if n > 2 && b[1] < 0x80 {
				b = append([]byte{b[0], 0x81, b[1]}, b[2:]...)
			}
		case 6: // non-minimal first integer
			if n > 4 && b[1] < 0x7f && b[3] < 0x7f {
				x := append([]byte{b[0], b[1] + 1, b[2], b[3] + 1, 0}, b[4:]...)
				b = x
			}
		case 7:
			if n > 0 {
				b[0] = []byte{0x31, 0x10, 0x70, 0xb0, 0x02}[r.Intn(5)]
			}
		case 8:
			b = r.Bytes(r.Len(80))
		}
		if len(b) == 0 {
			break
		}
	}
	return b
}

func gvDecSig(b []byte) (x, y *big.Int, ok bool) {
	var v struct{ R, S *big.Int }
	rest, err := asn1.Unmarshal(b, &v)
	if err != nil || len(rest) != 0 {
		return nil, nil, false
	}
	w, err := asn1.Marshal(v)
	if err != nil || !bytes.Equal(w, b) {
		return nil, nil, false
	}
	return v.R, v.S, true
}

// gvKPair is a key and a nonce such that [k]P often has short coordinates.
func gvKPair(r *zzrp.R) (d, k *big.Int) {
	d = gvScalar(r)
	k = gvScalar(r)
	if r.Intn(3) == 0 {
		k = new(big.Int).ModInverse(d, zzorc.SM2N)
		k.Mul(k, gvShort[r.Intn(len(gvShort))])
		k.Mod(k, zzorc.SM2N)
	} else if r.Intn(10) == 0 {
		k = new(big.Int).Sub(zzorc.SM2N, gvOne)
	}
	return
}

func gvOrder(r *zzrp.R) Sm2CipherTextType {
	switch r.Intn(12) {
	case 0:
		return Sm2CipherTextType([]int32{0, 3, -1, 4, 65537, 257, -2147483648}[r.Intn(7)])
	}
	return Sm2CipherTextType(1 + r.Intn(2))
}

func gvMsgLen(r *zzrp.R) int {
	switch r.Intn(8) {
	case 0:
		return 32 * r.Intn(12)
	case 1:
		return 32*(1+r.Intn(12)) - 1
	case 2:
		return 32*r.Intn(12) + 1
	case 3:
		return 8000 + r.Intn(400)
	}
	return r.Len(200)
}

func TestGV_C13(t *testing.T) {
	r := zzrp.New(t, "sm2", gvT)
	gvInit()
	for r.More() {
		d, k := gvKPair(r)
		p := gvG(d)
		bad := false
		if r.Intn(12) == 0 {
			p = gvBadPt(r)
			bad = true
		}
		msg := r.Bytes(gvMsgLen(r))
		if r.Intn(20) == 0 {
			msg = nil
		}
		o := gvOrder(r)
		if r.N == 40 {
			msg = r.Bytes(65537*32 + 5)
		}
		zero := func(k *big.Int) bool {
			q := zzorc.SM2Mul(k, p)
			for _, x := range zzorc.KDF(zzorc.Cat(zzorc.B32(q.X), zzorc.B32(q.Y)), len(msg)) {
				if x != 0 {
					return false
				}
			}
			return true
		}
		rd := gvNonces(r, k)
		if !bad && len(msg) == 1 && r.Intn(4) == 0 {
			// a nonce whose key stream is zero comes first
			for i := 0; i < 400; i++ {
				if k0 := gvScalar(r); zero(k0) {
					rd.buf = append(zzorc.B32(k0), rd.buf...)
					break
				}
			}
		}
		fail := r.Intn(8) == 0
		if !bad && len(msg) > 0 && len(msg) < 8 && zero(k) {
			fail = true // the nonce must be refused and there is no other
		}
		if fail && (len(msg) == 0 || !zero(k)) {
			rd = gvNonces(r, nil)
		}
		buf := zzrp.Copy(rd.buf)
		r.Case(func() string {
			if len(msg) > 100000 {
				return fmt.Sprintf("d = %x, P = (%x, %x), message of %d bytes", d, p.X, p.Y, len(msg))
			}
			return fmt.Sprintf("d = %x, P = (%x, %x), message (%d bytes) = %x, order = %d, random stream = %x, then an error", d, p.X, p.Y, len(msg), msg, o, buf)
		}, func() string {
			pub := gvPub(p)
			m0 := zzrp.Copy(msg)
			var c []byte
			var err error
			gvWith(rd, func() { c, err = Encrypt(pub, msg, o) })
			if pub.X.Cmp(p.X) != 0 || pub.Y.Cmp(p.Y) != 0 || !bytes.Equal(msg, m0) {
				return "Encrypt modifies its arguments"
			}
			want := !fail && !bad && (o == 1 || o == 2)
			if (err == nil) != want {
				return fmt.Sprintf("Encrypt: err = %v, expected success: %v", err, want)
			}
			if !want {
				if c != nil {
					return "Encrypt returns bytes with an error"
				}
				return ""
			}
			w := zzorc.SM2Enc(p, msg, k, int(o))
			if !bytes.Equal(c, w) {
				if len(msg) > 100000 {
					return "Encrypt returns another ciphertext"
				}
				return fmt.Sprintf("Encrypt = %x, expected %x", c, w)
			}
			pri := gvPriv(d)
			c0 := zzrp.Copy(c)
			g, err := Decrypt(pri, c, o)
			if err != nil || !bytes.Equal(g, msg) {
				if len(g) > 100000 {
					return "Decrypt returns another message"
				}
				return fmt.Sprintf("Decrypt = %x, %v", g, err)
			}
			if !bytes.Equal(c, c0) || pri.D.Cmp(d) != 0 {
				return "Decrypt modifies its arguments"
			}
			return ""
		})
	}
}

func TestGV_C14(t *testing.T) {
	r := zzrp.New(t, "sm2", gvT)
	gvInit()
	for r.More() {
		d, k := gvKPair(r)
		o := gvOrder(r)
		e := int(o)
		if e != 1 && e != 2 || r.Intn(15) == 0 {
			e = 1 + r.Intn(2)
		}
		c := zzorc.SM2Enc(gvG(d), r.Bytes(gvMsgLen(r)), k, e)
		switch r.Intn(9) {
		case 0:
			c = c[:r.Intn(len(c)+1)]
		case 1:
			c = c[:r.Intn(98)]
		case 2:
			c[r.Intn(len(c))] ^= 1 << uint(r.Intn(8))
		case 3:
			c[0] = []byte{0, 1, 2, 3, 5, 6, 7}[r.Intn(7)]
		case 4:
			c = append(c, r.Byte())
		case 5:
			// a point off the curve with a tag made by the same arithmetic where that is possible
			q := gvBadPt(r)
			if q.X.Sign() >= 0 && q.Y.Sign() >= 0 && q.X.BitLen() <= 256 && q.Y.BitLen() <= 256 {
				copy(c[1:33], zzorc.B32(q.X))
				copy(c[33:65], zzorc.B32(q.Y))
				s := zzorc.SM2Mul(d, q)
				x := zzorc.Cat(zzorc.B32(s.X), zzorc.B32(s.Y))
				m := r.Bytes(r.Len(100))
				ks := zzorc.KDF(x, len(m))
				for i := range ks {
					ks[i] ^= m[i]
				}
				tag := zzorc.Hash(zzorc.B32(s.X), m, zzorc.B32(s.Y))
				if e == 1 {
					c = zzorc.Cat(c[:65], ks, tag)
				} else {
					c = zzorc.Cat(c[:65], tag, ks)
				}
			}
		case 6:
			// one bit of the tag
			i := 65 + r.Intn(32)
			if e == 1 {
				i = len(c) - 1 - r.Intn(32)
			}
			c[i] ^= 1 << uint(r.Intn(8))
		case 7:
			c = r.Bytes(r.Len(300))
		}
		r.Case(func() string { return fmt.Sprintf("d = %x, order = %d, input (%d bytes) = %x", d, o, len(c), c) }, func() string {
			pri := gvPriv(d)
			in := zzrp.Copy(c)
			w, ok := zzorc.SM2Dec(d, c, int(o))
			g, err := Decrypt(pri, in, o)
			if (err == nil) != ok {
				return fmt.Sprintf("Decrypt: err = %v, expected success: %v", err, ok)
			}
			if ok && !bytes.Equal(g, w) {
				return fmt.Sprintf("Decrypt = %x, expected %x", g, w)
			}
			if !ok && g != nil {
				return fmt.Sprintf("Decrypt returns %x with an error", g)
			}
			if !bytes.Equal(in, c) || pri.D.Cmp(d) != 0 {
				return "Decrypt modifies its arguments"
			}
			return ""
		})
	}
}

type gv123 struct {
	X, Y *big.Int
	A, B []byte
}

func TestGV_C15(t *testing.T) {
	r := zzrp.New(t, "sm2", gvT)
	num := func() *big.Int {
		x := r.Big(256)
		if r.Intn(3) == 0 {
			x = new(big.Int).SetBytes(r.Bytes(32))
		}
		return x
	}
	for r.More() {
		x, y := num(), num()
		c2, c3 := r.Bytes(gvMsgLen(r)), r.Bytes(32)
		o := gvOrder(r)
		valid := o == 1 || o == 2
		raw := zzorc.Cat([]byte{4}, zzorc.B32(x), zzorc.B32(y), c2, c3)
		der, _ := asn1.Marshal(gv123{x, y, c2, c3})
		if o != 1 {
			raw = zzorc.Cat([]byte{4}, zzorc.B32(x), zzorc.B32(y), c3, c2)
			der, _ = asn1.Marshal(gv123{x, y, c3, c2})
		}
		// malformed inputs
		short := zzrp.Copy(raw)
		switch r.Intn(4) {
		case 0:
			short = short[:r.Intn(97)]
		case 1:
			short[0] = r.Byte()
		case 2:
			short = r.Bytes(r.Len(150))
		default:
			short = short[:r.Intn(len(short)+1)]
		}
		x2, y2, t2 := x, y, c3
		switch r.Intn(8) {
		case 0:
			x2 = new(big.Int).Neg(x)
		case 1:
			y2 = new(big.Int).Neg(y)
		case 2:
			x2 = new(big.Int).Lsh(gvOne, uint(255+r.Intn(3)))
		case 3:
			y2 = new(big.Int).Lsh(gvOne, uint(255+r.Intn(300)))
		case 4:
			t2 = r.Bytes(31 + 2*r.Intn(2))
		case 5:
			t2 = r.Bytes(r.Intn(70))
		}
		bad, _ := asn1.Marshal(gv123{x2, y2, c2, t2})
		if o != 1 {
			bad, _ = asn1.Marshal(gv123{x2, y2, t2, c2})
		}
		if r.Intn(2) == 0 {
			bad = gvMutate(r, bad)
		}
		r.Case(func() string {
			return fmt.Sprintf("order = %d, raw = %x, DER = %x, other raw input = %x, other DER input = %x", o, raw, der, short, bad)
		}, func() string {
			in := zzrp.Copy(raw)
			g, err := MarshalCipher(in, o)
			if (err == nil) != valid || valid && !bytes.Equal(g, der) || !valid && g != nil {
				return fmt.Sprintf("MarshalCipher(raw) = %x, %v; expected %x", g, err, der)
			}
			if !bytes.Equal(in, raw) {
				return "MarshalCipher modifies its input"
			}
			in = zzrp.Copy(der)
			g, err = UnmarshalCipher(in, o)
			if (err == nil) != valid || valid && !bytes.Equal(g, raw) || !valid && g != nil {
				return fmt.Sprintf("UnmarshalCipher(DER) = %x, %v; expected %x", g, err, raw)
			}
			if !bytes.Equal(in, der) {
				return "UnmarshalCipher modifies its input"
			}
			// other raw input
			ok := valid && len(short) >= 97 && short[0] == 4
			g, err = MarshalCipher(zzrp.Copy(short), o)
			if (err == nil) != ok || !ok && g != nil {
				return fmt.Sprintf("MarshalCipher(other) = %x, %v; expected success: %v", g, err, ok)
			}
			if ok {
				s := short
				v := gv123{new(big.Int).SetBytes(s[1:33]), new(big.Int).SetBytes(s[33:65]), s[65 : len(s)-32], s[len(s)-32:]}
				if o == 2 {
					v.A, v.B = s[65:97], s[97:]
				}
				if w, _ := asn1.Marshal(v); !bytes.Equal(w, g) {
					return fmt.Sprintf("MarshalCipher(other) = %x; expected %x", g, w)
				}
				if b, err := UnmarshalCipher(g, o); err != nil || !bytes.Equal(b, s) {
					return fmt.Sprintf("UnmarshalCipher(MarshalCipher(other)) = %x, %v", b, err)
				}
			}
			// other DER input
			var v gv123
			rest, err := asn1.Unmarshal(bad, &v)
			ok = valid && err == nil && len(rest) == 0
			if ok {
				w, err := asn1.Marshal(v)
				ok = err == nil && bytes.Equal(w, bad)
			}
			tag, txt := v.B, v.A
			if o == 2 {
				tag, txt = v.A, v.B
			}
			ok = ok && v.X.Sign() >= 0 && v.Y.Sign() >= 0 && v.X.BitLen() <= 256 && v.Y.BitLen() <= 256 && len(tag) == 32
			g, err = UnmarshalCipher(zzrp.Copy(bad), o)
			if (err == nil) != ok || !ok && g != nil {
				return fmt.Sprintf("UnmarshalCipher(other) = %x, %v; expected success: %v", g, err, ok)
			}
			if ok {
				w := zzorc.Cat([]byte{4}, zzorc.B32(v.X), zzorc.B32(v.Y), txt, tag)
				if o == 2 {
					w = zzorc.Cat([]byte{4}, zzorc.B32(v.X), zzorc.B32(v.Y), tag, txt)
				}
				if !bytes.Equal(g, w) {
					return fmt.Sprintf("UnmarshalCipher(other) = %x; expected %x", g, w)
				}
			}
			return ""
		})
	}
}

func TestGV_C16(t *testing.T) {
	r := zzrp.New(t, "sm2", gvT)
	gvInit()
	num := func() *big.Int {
		x := r.Big([]int{8, 16, 64, 128, 248, 256, 256, 256, 300, 1024, 1100}[r.Intn(11)])
		if r.Intn(4) == 0 {
			x.Neg(x)
		}
		return x
	}
	n := 0
	for r.More() {
		n++
		x, y := num(), num()
		enc, _ := asn1.Marshal(struct{ R, S *big.Int }{x, y})
		bad := gvMutate(r, enc)
		full := n%20 == 0
		d, k := gvScalar(r), gvScalar(r)
		r.Case(func() string {
			return fmt.Sprintf("r = %x, s = %x, other input = %x, d = %x, k = %x", x, y, bad, d, k)
		}, func() string {
			x0, y0 := new(big.Int).Set(x), new(big.Int).Set(y)
			g, err := MarshalSign(x, y)
			if err != nil || !bytes.Equal(g, enc) {
				return fmt.Sprintf("MarshalSign = %x, %v; expected %x", g, err, enc)
			}
			if x.Cmp(x0) != 0 || y.Cmp(y0) != 0 {
				return "MarshalSign modifies its arguments"
			}
			in := zzrp.Copy(enc)
			a, b, err := UnmarshalSign(in)
			if err != nil || a.Cmp(x) != 0 || b.Cmp(y) != 0 {
				return fmt.Sprintf("UnmarshalSign(MarshalSign) = %x, %x, %v", a, b, err)
			}
			if !bytes.Equal(in, enc) {
				return "UnmarshalSign modifies its input"
			}
			u, v, ok := gvDecSig(bad)
			a, b, err = UnmarshalSign(bad)
			if (err == nil) != ok || !ok && (a != nil || b != nil) {
				return fmt.Sprintf("UnmarshalSign(other) = %x, %x, %v; expected success: %v", a, b, err, ok)
			}
			if ok && (a.Cmp(u) != 0 || b.Cmp(v) != 0) {
				return fmt.Sprintf("UnmarshalSign(other) = %x, %x; expected %x, %x", a, b, u, v)
			}
			if full {
				msg := []byte("message")
				wr, ws, ok := zzorc.SM2Sign(d, gvSignID(nil), msg, k)
				if !ok {
					return ""
				}
				w, _ := asn1.Marshal(struct{ R, S *big.Int }{wr, ws})
				var g []byte
				gvWith(&gvReader{buf: zzorc.B32(k), fail: gvFail}, func() { g, err = Sign(gvPriv(d), nil, msg) })
				if err != nil || !bytes.Equal(g, w) {
					return fmt.Sprintf("Sign = %x, %v; expected %x", g, err, w)
				}
				pub := gvPub(gvG(d))
				if !Verify(pub, nil, msg, w) {
					return fmt.Sprintf("Verify refuses %x", w)
				}
				for i := 0; i < 10; i++ {
					m := gvMutate(r, w)
					u, v, ok := gvDecSig(m)
					want := ok && zzorc.SM2Verify(gvG(d), gvSignID(nil), msg, u, v)
					if Verify(pub, nil, msg, m) != want {
						return fmt.Sprintf("Verify(%x) = %v, expected %v", m, !want, want)
					}
				}
				gvWith(&gvReader{fail: gvFail}, func() { g, err = Sign(gvPriv(d), nil, msg) })
				if err == nil || g != nil {
					return fmt.Sprintf("Sign with a failing random source = %x, %v", g, err)
				}
			}
			return ""
		})
	}
}

func TestGV_C17(t *testing.T) {
	r := zzrp.New(t, "sm2", gvT)
	gvInit()
	for r.More() {
		dA, rA, dB, rB := gvScalar(r), gvScalar(r), gvScalar(r), gvScalar(r)
		switch r.Intn(6) {
		case 0:
			// the shared point has short coordinates: tA * tB = m with tB = m / tA, dB = tB - xB rB
			m := new(big.Int).Sub(new(big.Int).Lsh(gvOne, 127), gvOne)
			red := func(x *big.Int) *big.Int {
				z := new(big.Int).And(x, m)
				return z.Add(z, new(big.Int).Lsh(gvOne, 127))
			}
			tA := red(gvG(rA).X)
			tA.Mul(tA, rA)
			tA.Add(tA, dA)
			tA.Mod(tA, zzorc.SM2N)
			if tA.Sign() != 0 {
				tB := tA.ModInverse(tA, zzorc.SM2N)
				tB.Mul(tB, gvShort[r.Intn(len(gvShort))])
				x := red(gvG(rB).X)
				x.Mul(x, rB)
				tB.Sub(tB, x)
				tB.Mod(tB, zzorc.SM2N)
				if tB.Sign() > 0 && new(big.Int).Sub(zzorc.SM2N, tB).Cmp(gvOne) > 0 {
					dB = tB
				}
			}
		case 1:
			dB, rB = dA, rA
		case 2:
			rA = dA
		}
		idA, idB := gvID(r), gvID(r)
		bits := r.Len(3000)
		if r.N == 40 {
			bits = 65537*256 + 1
		}
		r.Case(func() string {
			return fmt.Sprintf("dA = %x, rA = %x, idA = %x, dB = %x, rB = %x, idB = %x, key bits = %d", dA, rA, idA, dB, rB, idB, bits)
		}, func() string {
			pA, eA, pB, eB := gvG(dA), gvG(rA), gvG(dB), gvG(rB)
			key, w1, w2, ok := zzorc.SM2Exch(bits, dA, rA, idA, pB, eB, idB)
			b, err := CalculateKeyWithConfirmation(false, bits, nil, gvPriv(dB), gvPriv(rB), idB, gvPub(pA), gvPub(eA), idA)
			if (err == nil) != ok {
				return fmt.Sprintf("responder: err = %v, expected success: %v", err, ok)
			}
			if !ok {
				return ""
			}
			if bits > 100000 && !bytes.Equal(b.Key, key) {
				return "the key of the responder differs from the standard's"
			}
			if !bytes.Equal(b.Key, key) || !bytes.Equal(b.S1, w1) || !bytes.Equal(b.S2, w2) {
				return fmt.Sprintf("responder: key %x S1 %x S2 %x, expected %x %x %x", b.Key, b.S1, b.S2, key, w1, w2)
			}
			a, err := CalculateKeyWithConfirmation(true, bits, b.S1, gvPriv(dA), gvPriv(rA), idA, gvPub(pB), gvPub(eB), idB)
			if err != nil {
				return fmt.Sprintf("initiator fails: %v", err)
			}
			if !bytes.Equal(a.Key, key) || !bytes.Equal(a.S2, w2) {
				return fmt.Sprintf("initiator: key %x S2 %x, expected %x %x", a.Key, a.S2, key, w2)
			}
			if !ResponderConfirm(b.S2, a.S2) {
				return "ResponderConfirm refuses the tag of the initiator"
			}
			return ""
		})
	}
}

func TestGV_C18(t *testing.T) {
	r := zzrp.New(t, "sm2", gvT)
	gvInit()
	m127 := new(big.Int).Lsh(gvOne, 127)
	for r.More() {
		dA, rA, dB, rB := gvScalar(r), gvScalar(r), gvScalar(r), gvScalar(r)
		pB, eB := gvG(dB), gvG(rB)
		badPt := ""
		switch r.Intn(6) {
		case 0:
			pB = gvBadPt(r)
			badPt = "static point off the curve"
		case 1:
			eB = gvBadPt(r)
			badPt = "ephemeral point off the curve"
		case 2:
			// P + [x]R at infinity
			x := new(big.Int).Mod(eB.X, m127)
			x.Add(x, m127)
			x.Mul(x, rB)
			x.Neg(x)
			x.Mod(x, zzorc.SM2N)
			pB = gvG(x)
			badPt = "shared point at infinity"
		case 3:
			// tA = 0
			x := new(big.Int).Mod(gvG(rA).X, m127)
			x.Add(x, m127)
			x.Mul(x, rA)
			x.Neg(x)
			x.Mod(x, zzorc.SM2N)
			if x.Sign() > 0 && new(big.Int).Sub(zzorc.SM2N, x).Cmp(gvOne) > 0 && r.Intn(2) == 0 {
				dA = x
				badPt = "shared point at infinity"
			}
		}
		idA, idB := gvID(r), gvID(r)
		bits := r.Len(600)
		initiator := r.Intn(3) > 0
		key, w1, w2 := []byte(nil), []byte(nil), []byte(nil)
		if badPt == "" {
			var ok bool
			key, w1, w2, ok = zzorc.SM2Exch(bits, dA, rA, idA, pB, eB, idB)
			if !ok {
				continue
			}
		}
		var tag []byte
		sel := r.Intn(10)
		switch sel {
		case 0:
			tag = nil
		case 1:
			tag = []byte{}
		case 2:
			tag = zzrp.Copy(w2)
		case 3, 4:
			tag = zzrp.Copy(w1)
			if len(tag) > 0 {
				tag[r.Intn(len(tag))] ^= 1 << uint(r.Intn(8))
			}
		case 5:
			tag = append(zzrp.Copy(w1), r.Byte())
		case 6:
			tag = zzrp.Copy(w1)
			tag = tag[:r.Intn(len(tag)+1)]
		case 7:
			tag = r.Bytes(32)
		default:
			tag = zzrp.Copy(w1)
		}
		if tag == nil && sel != 0 {
			tag = []byte{}
		}
		// the final check
		ta, tb := r.Bytes(r.Len(64)), r.Bytes(32)
		switch r.Intn(5) {
		case 0:
			tb = zzrp.Copy(ta)
		case 1:
			tb = zzrp.Copy(ta)
			if len(tb) > 0 {
				tb[r.Intn(len(tb))] ^= 1 << uint(r.Intn(8))
			}
		case 2:
			tb = append(zzrp.Copy(ta), 0)
		case 3:
			tb = ta[:r.Intn(len(ta)+1)]
		}
		r.Case(func() string {
			return fmt.Sprintf("initiator = %v, dSelf = %x, rSelf = %x, idSelf = %x, P = (%x, %x), R = (%x, %x) (%s), idOther = %x, key bits = %d, tag = %x (nil: %v); final check of %x and %x",
				initiator, dA, rA, idA, pB.X, pB.Y, eB.X, eB.Y, badPt, idB, bits, tag, tag == nil, ta, tb)
		}, func() string {
			if g, w := ResponderConfirm(ta, tb), bytes.Equal(ta, tb); g != w {
				return fmt.Sprintf("ResponderConfirm = %v, expected %v", g, w)
			}
			res, err := CalculateKeyWithConfirmation(initiator, bits, tag, gvPriv(dA), gvPriv(rA), idA, gvPub(pB), gvPub(eB), idB)
			want := badPt == "" && (!initiator || tag != nil && bytes.Equal(tag, w1))
			if (err == nil) != want || (res != nil) != want {
				return fmt.Sprintf("err = %v, result %v, expected success: %v", err, res != nil, want)
			}
			if want && initiator && !bytes.Equal(res.Key, key) {
				return fmt.Sprintf("key = %x, expected %x", res.Key, key)
			}
			return ""
		})
	}
}
