// Package zzrp is the frame of the replay drivers: it looks for a failing input on the real code.
package zzrp

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"testing"
	"time"
)

type R struct {
	*rand.Rand
	T      *testing.T
	N      int
	Lits   []int64    // integer literals of the package's sources
	Bigs   []*big.Int // large ones (also from hexadecimal strings)
	Strs   []string
	end    time.Time
	mu     sync.Mutex
	cur    func() string
	since  time.Time
	failed bool
}

// New starts a driver with the given time budget.
func New(t *testing.T, pkg string, d time.Duration) *R {
	seed := int64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	r := &R{Rand: rand.New(rand.NewSource(seed)), T: t, end: time.Now().Add(d)}
	r.harvest(filepath.Join(os.Getenv("GVRP_SRC"), pkg))
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			r.mu.Lock()
			if r.cur != nil && time.Since(r.since) > 20*time.Second {
				d := r.cur()
				r.mu.Unlock()
				out(d + "\n  the call does not return within 20 s")
				os.Exit(1)
			}
			r.mu.Unlock()
		}
	}()
	return r
}

func (r *R) harvest(dir string) {
	fs := token.NewFileSet()
	ms, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, m := range ms {
		if strings.HasSuffix(m, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fs, m, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(f, func(n ast.Node) bool {
			l, ok := n.(*ast.BasicLit)
			if !ok {
				return true
			}
			switch l.Kind {
			case token.INT:
				if b, ok := new(big.Int).SetString(strings.ReplaceAll(l.Value, "_", ""), 0); ok {
					if b.IsInt64() {
						r.Lits = append(r.Lits, b.Int64())
					} else {
						r.Bigs = append(r.Bigs, b)
					}
				}
			case token.CHAR:
				var c rune
				if _, err := fmt.Sscanf(l.Value, "'%c'", &c); err == nil {
					r.Lits = append(r.Lits, int64(c))
				}
			case token.STRING:
				s := strings.Trim(l.Value, "\"`")
				if len(s) < 200 {
					r.Strs = append(r.Strs, s)
				}
				if len(s) >= 16 {
					if b, ok := new(big.Int).SetString(s, 16); ok {
						r.Bigs = append(r.Bigs, b)
					}
				}
			}
			return true
		})
	}
	if len(r.Lits) > 400 {
		// tables of constants: keep a spread
		var k []int64
		seen := map[int64]bool{}
		for _, v := range r.Lits {
			if !seen[v] {
				seen[v] = true
				k = append(k, v)
			}
		}
		r.Lits = k
	}
	r.Lits = append(r.Lits, 0, 1, 2, 255, 256)
}

func out(s string) {
	if p := os.Getenv("GVRP_OUT"); p != "" {
		f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
		if err == nil {
			fmt.Fprintln(f, s)
			f.Close()
		}
	}
	fmt.Println(s)
}

// More reports whether there is time for another case.
func (r *R) More() bool { return !r.failed && time.Now().Before(r.end) }

// Case runs one case: f returns "" or what went wrong. A panic counts as a failure.
func (r *R) Case(desc func() string, f func() string) {
	if r.failed {
		return
	}
	r.N++
	r.mu.Lock()
	r.cur, r.since = desc, time.Now()
	r.mu.Unlock()
	msg := func() (m string) {
		defer func() {
			if x := recover(); x != nil {
				st := strings.Split(string(debug.Stack()), "\n")
				if len(st) > 14 {
					st = st[:14]
				}
				m = fmt.Sprintf("panic: %v\n%s", x, strings.Join(st, "\n"))
			}
		}()
		return f()
	}()
	r.mu.Lock()
	r.cur = nil
	r.mu.Unlock()
	if msg != "" {
		r.failed = true
		out(desc() + "\n  " + msg)
		r.T.FailNow()
	}
}

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return
}

// Len is a length up to max with a preference for boundaries and source literals.
func (r *R) Len(max int) int {
	switch r.Intn(6) {
	case 0:
		return r.Intn(max + 1)
	case 1:
		if n := r.Lits[r.Intn(len(r.Lits))]; n >= 0 {
			for _, d := range []int64{int64(r.Intn(3)) - 1} {
				if n+d >= 0 && n+d <= int64(max) {
					return int(n + d)
				}
			}
		}
	case 2:
		k := 1 << uint(r.Intn(13))
		k += r.Intn(3) - 1
		if k <= max && k >= 0 {
			return k
		}
	case 3:
		k := 16 * r.Intn(20)
		if k <= max {
			return k
		}
	}
	m := max
	if m > 80 {
		m = 80
	}
	return r.Intn(m + 1)
}

// Bytes is a byte string of length n in one of several shapes.
func (r *R) Bytes(n int) []byte {
	b := make([]byte, n)
	switch r.Intn(8) {
	case 0: // zero
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2: // one repeated byte
		v := byte(r.Intn(256))
		for i := range b {
			b[i] = v
		}
	case 3: // sparse
		for k := 0; k < 3 && n > 0; k++ {
			b[r.Intn(n)] = r.Byte()
		}
	case 4: // bytes from literals
		for i := range b {
			b[i] = r.Byte()
		}
	case 5: // leading or trailing zeros
		r.Read(b)
		if n > 0 {
			k := r.Intn(n + 1)
			if k > 4 {
				k = r.Intn(5)
			}
			if r.Intn(2) == 0 {
				for i := 0; i < k; i++ {
					b[i] = 0
				}
			} else {
				for i := 0; i < k; i++ {
					b[n-1-i] = 0
				}
			}
		}
	default:
		r.Read(b)
		if r.Intn(3) == 0 && n > 0 {
			for k := 0; k < 3; k++ {
				b[r.Intn(n)] = r.Byte()
			}
		}
	}
	return b
}

// Byte is a byte with a preference for literals of the source and boundaries.
func (r *R) Byte() byte {
	switch r.Intn(4) {
	case 0:
		return byte(r.Lits[r.Intn(len(r.Lits))])
	case 1:
		return []byte{0, 1, 0x7f, 0x80, 0xff, 0xfe, 0x30, 2}[r.Intn(8)]
	}
	return byte(r.Intn(256))
}

// Copy returns a copy with its own memory.
func Copy(b []byte) []byte { return append([]byte{}, b...) }

// Big is an integer of at most bits bits: small, near a power of two, from the sources or random.
func (r *R) Big(bits int) *big.Int {
	z := new(big.Int)
	switch r.Intn(6) {
	case 0:
		z.SetInt64(int64(r.Intn(5)))
	case 1:
		z.Lsh(big.NewInt(1), uint(r.Intn(bits+1)))
		z.Add(z, big.NewInt(int64(r.Intn(3)-1)))
	case 2:
		if len(r.Bigs) > 0 {
			z.Set(r.Bigs[r.Intn(len(r.Bigs))])
		} else {
			z.SetInt64(r.Lits[r.Intn(len(r.Lits))])
		}
		z.Add(z, big.NewInt(int64(r.Intn(3)-1)))
	case 3:
		z.SetInt64(r.Lits[r.Intn(len(r.Lits))])
		z.Add(z, big.NewInt(int64(r.Intn(3)-1)))
	case 4:
		b := r.Bytes(1 + r.Intn((bits+7)/8))
		z.SetBytes(b)
	default:
		b := make([]byte, (bits+7)/8)
		r.Read(b)
		z.SetBytes(b)
		z.Rsh(z, uint(r.Intn(9)))
	}
	if z.BitLen() > bits || z.Sign() < 0 {
		z.Abs(z)
		z.Rsh(z, uint(z.BitLen()/2))
	}
	return z
}
