package zzorc

import (
	"encoding/binary"
	"math/big"
)

// The recommended curve of GB/T 32918.5, affine arithmetic; the point at infinity is (0,0).

func hx(s string) *big.Int {
	z, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("bad constant")
	}
	return z
}

var (
	SM2P  = hx("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF")
	SM2A  = hx("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFC")
	SM2B  = hx("28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93")
	SM2N  = hx("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123")
	SM2Gx = hx("32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7")
	SM2Gy = hx("BC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0")
)

type Pt struct{ X, Y *big.Int }

func (p Pt) Inf() bool { return p.X.Sign() == 0 && p.Y.Sign() == 0 }

func SM2G() Pt { return Pt{new(big.Int).Set(SM2Gx), new(big.Int).Set(SM2Gy)} }

func SM2On(x, y *big.Int) bool {
	if x == nil || y == nil || x.Sign() < 0 || y.Sign() < 0 || x.Cmp(SM2P) >= 0 || y.Cmp(SM2P) >= 0 {
		return false
	}
	l := new(big.Int).Mul(y, y)
	r := new(big.Int).Mul(x, x)
	r.Mul(r, x)
	r.Add(r, new(big.Int).Mul(SM2A, x))
	r.Add(r, SM2B)
	l.Sub(l, r)
	return l.Mod(l, SM2P).Sign() == 0
}

func SM2Add(p, q Pt) Pt {
	if p.Inf() {
		return q
	}
	if q.Inf() {
		return p
	}
	l := new(big.Int)
	if p.X.Cmp(q.X) == 0 {
		s := new(big.Int).Add(p.Y, q.Y)
		if s.Mod(s, SM2P).Sign() == 0 {
			return Pt{new(big.Int), new(big.Int)}
		}
		l.Mul(p.X, p.X)
		l.Mul(l, big.NewInt(3))
		l.Add(l, SM2A)
		d := new(big.Int).Lsh(p.Y, 1)
		d.Mod(d, SM2P)
		l.Mul(l, d.ModInverse(d, SM2P))
	} else {
		l.Sub(q.Y, p.Y)
		d := new(big.Int).Sub(q.X, p.X)
		d.Mod(d, SM2P)
		l.Mul(l, d.ModInverse(d, SM2P))
	}
	l.Mod(l, SM2P)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, p.X)
	x.Sub(x, q.X)
	x.Mod(x, SM2P)
	y := new(big.Int).Sub(p.X, x)
	y.Mul(y, l)
	y.Sub(y, p.Y)
	y.Mod(y, SM2P)
	return Pt{x, y}
}

func SM2Mul(k *big.Int, p Pt) Pt {
	r := Pt{new(big.Int), new(big.Int)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = SM2Add(r, r)
		if k.Bit(i) == 1 {
			r = SM2Add(r, p)
		}
	}
	return r
}

func B32(x *big.Int) []byte {
	r := make([]byte, 32)
	b := x.Bytes()
	copy(r[32-len(b):], b)
	return r
}

func Cat(parts ...[]byte) []byte {
	var r []byte
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

func Hash(parts ...[]byte) []byte {
	h := SM3(Cat(parts...))
	return h[:]
}

// KDF is the key derivation function of GB/T 32918.
func KDF(z []byte, n int) []byte {
	var r []byte
	for c := uint32(1); len(r) < n; c++ {
		var b [4]byte
		binary.BigEndian.PutUint32(b[:], c)
		r = append(r, Hash(z, b[:])...)
	}
	return r[:n]
}

// SM2Z is the identity hash.
func SM2Z(id []byte, p Pt) []byte {
	var l [2]byte
	binary.BigEndian.PutUint16(l[:], uint16(len(id)*8))
	return Hash(l[:], id, B32(SM2A), B32(SM2B), B32(SM2Gx), B32(SM2Gy), B32(p.X), B32(p.Y))
}

func SM2E(id []byte, p Pt, msg []byte) *big.Int {
	return new(big.Int).SetBytes(Hash(SM2Z(id, p), msg))
}

// SM2Verify is the verification equation.
func SM2Verify(p Pt, id, msg []byte, r, s *big.Int) bool {
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(SM2N) >= 0 || s.Cmp(SM2N) >= 0 || !SM2On(p.X, p.Y) {
		return false
	}
	t := new(big.Int).Add(r, s)
	t.Mod(t, SM2N)
	if t.Sign() == 0 {
		return false
	}
	q := SM2Add(SM2Mul(s, SM2G()), SM2Mul(t, p))
	if q.Inf() {
		return false
	}
	e := SM2E(id, p, msg)
	e.Add(e, q.X)
	e.Mod(e, SM2N)
	return e.Cmp(r) == 0
}

// SM2Sign computes the pair for nonce k; ok is false when the candidate must be retried.
func SM2Sign(d *big.Int, id, msg []byte, k *big.Int) (r, s *big.Int, ok bool) {
	p := SM2Mul(d, SM2G())
	r = SM2E(id, p, msg)
	r.Add(r, SM2Mul(k, SM2G()).X)
	r.Mod(r, SM2N)
	rk := new(big.Int).Add(r, k)
	if r.Sign() == 0 || rk.Cmp(SM2N) == 0 {
		return nil, nil, false
	}
	s = new(big.Int).Mul(r, d)
	s.Sub(k, s)
	i := new(big.Int).Add(d, big.NewInt(1))
	s.Mul(s, i.ModInverse(i, SM2N))
	s.Mod(s, SM2N)
	return r, s, s.Sign() != 0
}

// SM2Dec decrypts c in the order C1C2C3 (order 1) or C1C3C2 (order 2).
func SM2Dec(d *big.Int, c []byte, order int) ([]byte, bool) {
	if len(c) < 97 || c[0] != 4 || (order != 1 && order != 2) {
		return nil, false
	}
	p := Pt{new(big.Int).SetBytes(c[1:33]), new(big.Int).SetBytes(c[33:65])}
	if !SM2On(p.X, p.Y) {
		return nil, false
	}
	q := SM2Mul(d, p)
	var c2, c3 []byte
	if order == 1 {
		c2, c3 = c[65:len(c)-32], c[len(c)-32:]
	} else {
		c3, c2 = c[65:97], c[97:]
	}
	m := KDF(Cat(B32(q.X), B32(q.Y)), len(c2))
	for i := range m {
		m[i] ^= c2[i]
	}
	if string(Hash(B32(q.X), m, B32(q.Y))) != string(c3) {
		return nil, false
	}
	return m, true
}

// SM2Enc encrypts msg under p with nonce k.
func SM2Enc(p Pt, msg []byte, k *big.Int, order int) []byte {
	c := SM2Mul(k, SM2G())
	q := SM2Mul(k, p)
	m := KDF(Cat(B32(q.X), B32(q.Y)), len(msg))
	for i := range m {
		m[i] ^= msg[i]
	}
	t := Hash(B32(q.X), msg, B32(q.Y))
	if order == 1 {
		return Cat([]byte{4}, B32(c.X), B32(c.Y), m, t)
	}
	return Cat([]byte{4}, B32(c.X), B32(c.Y), t, m)
}

// SM2Exch is one side's view of the key exchange: a is the initiator and b the responder; the shared point is
// computed from a's secrets. ok is false when the shared point is at infinity.
func SM2Exch(bits int, dA, rA *big.Int, idA []byte, pB, rB Pt, idB []byte) (key, s1, s2 []byte, ok bool) {
	m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 127), big.NewInt(1))
	red := func(x *big.Int) *big.Int {
		z := new(big.Int).And(x, m)
		return z.Add(z, new(big.Int).Lsh(big.NewInt(1), 127))
	}
	pA, eA := SM2Mul(dA, SM2G()), SM2Mul(rA, SM2G())
	t := red(eA.X)
	t.Mul(t, rA)
	t.Add(t, dA)
	t.Mod(t, SM2N)
	u := SM2Mul(t, SM2Add(pB, SM2Mul(red(rB.X), rB)))
	if u.Inf() {
		return nil, nil, nil, false
	}
	za, zb := SM2Z(idA, pA), SM2Z(idB, pB)
	key = KDF(Cat(B32(u.X), B32(u.Y), za, zb), (bits+7)/8)
	in := Hash(B32(u.X), za, zb, B32(eA.X), B32(eA.Y), B32(rB.X), B32(rB.Y))
	return key, Hash([]byte{2}, B32(u.Y), in), Hash([]byte{3}, B32(u.Y), in), true
}
