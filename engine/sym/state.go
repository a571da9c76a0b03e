package sym

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"verif/engine/smt"
	"verif/engine/term"

	"golang.org/x/tools/go/ssa"
)

// Obl is a proof obligation.
type Obl struct {
	Name    string
	Pos     string
	OK      bool
	Status  string // simplified, proved, refuted, unknown
	Backend string
	Ms      int64
	Detail  string
}

type pcNode struct {
	parent *pcNode
	cond   *term.T
	n      int
	dec    map[*term.T]int8
	list   []*term.T
}

func (p *pcNode) conds() []*term.T {
	if p == nil {
		return nil
	}
	if p.list != nil {
		return p.list
	}
	l := make([]*term.T, 0, p.n)
	for q := p; q != nil && q.cond != nil; q = q.parent {
		l = append(l, q.cond)
	}
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	p.list = l
	return l
}

type panRec struct {
	val       Value
	what      string
	recovered bool
	parent    *panRec
}

// State is a symbolic machine state (path condition + heap).
type State struct {
	r    *Run
	pc   *pcNode
	eqs  map[*term.T]*term.T // known equalities  t -> const
	ors  []*term.T           // undecided disjunctions of equations
	memo map[*term.T]*term.T
	heap map[*Obj]Value
	pan  *panRec
	gh   *ghostCtx
	rnd  int // ghost counter of random draws (uniqueness of streams)
}

func (s *State) clone() *State {
	h := make(map[*Obj]Value, len(s.heap)+4)
	for k, v := range s.heap {
		h[k] = v
	}
	e := make(map[*term.T]*term.T, len(s.eqs))
	for k, v := range s.eqs {
		e[k] = v
	}
	return &State{r: s.r, pc: s.pc, eqs: e, ors: s.ors, heap: h, pan: s.pan, gh: s.gh, rnd: s.rnd}
}

// Run is one verification task (one contract or proof harness).
type Run struct {
	E         *Engine
	C         *term.Ctx
	S         *smt.Solver
	Name      string
	nobj      int
	lazyObj   map[string]*Obj
	lazyVal   map[string]Value
	globals   map[*ssa.Global]*Obj
	Obls      []*Obl
	Contract  *ssa.Function // the contract being checked (nil: harness)
	Target    *ssa.Function
	Used      map[string]bool // contracts used
	Inlined   map[string]bool
	Assumed   map[string]bool
	Natives   map[string]bool
	Covers    int
	steps     int
	Deadline  time.Time
	quiet     int // >0: obligations are not recorded (dry runs)
	trial     int
	noCut     map[string]bool
	mustCut   map[string]int
	templ     []*loopTemplate
	unroll    int
	reqN      int // length of the path condition while it consists of preconditions only
	recDefs   map[*term.T]recDef
	congMemo  map[congKey]bool
	congTrue  map[[2]*term.T]map[*pcNode]bool
	axm       map[*term.T][]*term.T
	valOf     map[*term.T][]*term.T // bytes (big-endian) of the atoms made by val
	seqNames  []seqName
	rtypes    map[string]types.Type
	trace     bool
	inputs    []namedVal
	cnt       map[string]int
	tables    map[string]*Content
	normal    int
	hints     []*term.T
	shared    map[string]*Obj
	loopLog   []string
	opaque    map[*ssa.Function]bool
	Loops     int
	cutMemo   map[string][]bool
	initDone  bool
	initHeap  map[*Obj]Value
	fastFail  bool
	splitting bool
	splits    []*term.T
	noMemo    map[*ssa.Function]bool
	specMemo  map[string]specRes
	stride    int
	Pkg       string
	hash      map[string]*Obj
	readers   []string
	derList   []*derRec
	nilLen    map[*term.T]*term.T // nil flag of a slice parameter -> its length
	ders      map[string]*derRec
	unms      map[string]*Content
	drawV     *Obj
	drawFrom  *Obj
	drawFail  *Obj
	Replay    []string
	inv       invCollector
	nfail     int
	ifLog     map[*term.T]bool
	noUse     map[*ssa.Function]bool
	seqEqs    map[*term.T][6]interface{}
	qfacts    map[*term.T][]*qfact
	qbases    map[string]bool
	opqTypes  map[string][]types.Type
}

type namedVal struct {
	name string
	v    Value
}

func (r *Run) newObj(name string, t types.Type) *Obj {
	r.nobj++
	return &Obj{ID: r.nobj, Name: name, Typ: t}
}

func (r *Run) uniq(n string) string {
	r.cnt[n]++
	if r.cnt[n] == 1 {
		return n
	}
	return fmt.Sprintf("%s~%d", n, r.cnt[n])
}

func (r *Run) budget() {
	r.steps++
	if r.steps&255 < 2 {
		if time.Now().After(r.Deadline) {
			unsup("time budget exhausted")
		}
		if f := r.E.FailedAt.Load(); r.E.FailGrace > 0 && f > 0 && time.Now().UnixNano()-f > int64(r.E.FailGrace) {
			unsup("stopped: another obligation has already failed")
		}
	}
}

func (r *Run) logf(f string, a ...interface{}) {
	if r.trace {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func (s *State) assume(c *term.T) {
	if c.IsTrue() {
		return
	}
	if c.Op == term.OAnd {
		for _, a := range c.A {
			s.assume(a)
		}
		return
	}
	c2 := s.conc(c)
	if c2.IsTrue() {
		return
	}
	if s.known(c) == 1 {
		return
	}
	n := 1
	if s.pc != nil {
		n = s.pc.n + 1
	}
	s.pc = &pcNode{parent: s.pc, cond: c, n: n}
	s.learnEq(c)
	if c2 != c && !c2.IsFalse() {
		s.learnEq(c2)
	}
	if len(s.ors) > 0 && (c.Op == term.OSlt || c.Op == term.OUlt || c.Op == term.ONot || c.Op == term.OEq) {
		s.unitOrs()
	}
	if c.Op == term.ONot && c.A[0].Op == term.OAnd && len(c.A[0].A) <= 3 {
		for _, na := range c.A[0].A {
			if a := s.r.C.Not(na); a.Op == term.OEq && a.A[0].S.K == term.BV {
				s.ors = append(s.ors[:len(s.ors):len(s.ors)], c)
				s.unitOrs()
				break
			}
		}
	}
}

// unitOrs learns the last possible disjunct of a disjunction of equations.
func (s *State) unitOrs() {
	for i := 0; i < len(s.ors); i++ {
		var left *term.T
		n := 0
		for _, na := range s.ors[i].A[0].A {
			a := s.r.C.Not(na)
			b := s.conc(a)
			if b.IsTrue() {
				n, left = 1, nil
				break
			}
			if b.IsFalse() || s.known(b) == -1 {
				continue
			}
			if b.Op == term.OEq && b.A[0].S.K == term.BV {
				x, y := b.A[0], b.A[1]
				C := s.r.C
				if s.known(C.Ult(x, y)) == 1 || s.known(C.Ult(y, x)) == 1 || s.known(C.Slt(x, y)) == 1 || s.known(C.Slt(y, x)) == 1 {
					continue
				}
			}
			n++
			left = a
		}
		if n == 1 {
			s.ors = append(append([]*term.T{}, s.ors[:i]...), s.ors[i+1:]...)
			i--
			if left != nil {
				s.assume(left)
			}
		}
	}
}

func (s *State) learnEq(c *term.T) {
	C := s.r.C
	add := func(a, k *term.T) {
		if a.IsConst() {
			return
		}
		s.eqs[a] = k
		s.memo = nil
	}
	switch c.Op {
	case term.OEq:
		a, b := c.A[0], c.A[1]
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			add(a, b)
			// a = K*x + U with odd K: solve
			if a.Op == term.OAdd && len(a.A) == 1 && a.K[0]&1 == 1 {
				inv := uint64(1)
				for i := 0; i < 6; i++ {
					inv *= 2 - a.K[0]*inv
				}
				add(a.A[0], C.MulK(C.Sub(b, C.BVc(a.S.W, a.U)), inv))
			}
			if a.Op == term.OConcat {
				hi := a.S.W
				for _, x := range a.A {
					w := x.S.W
					if !x.IsConst() {
						add(x, C.Extract(hi-1, hi-w, b))
					}
					hi -= w
				}
			}
		} else if a.S.K == term.BV {
			// x = y + rest: orient var -> expression
			d := C.Sub(a, b)
			if d.Op == term.OAdd && len(d.A) == 2 && d.U == 0 {
				x, y := d.A[0], d.A[1]
				if d.K[0] == 1 && d.K[1] == term.Mask(d.S.W) || d.K[1] == 1 && d.K[0] == term.Mask(d.S.W) {
					if x.ID < y.ID {
						x, y = y, x
					}
					if x.Op == term.OVar {
						add(x, y)
					} else if y.Op == term.OVar && !occurs(y, x, 400) {
						add(y, x)
					}
				}
			}
			if d.Op == term.OAdd && s.conc(d) == d {
				s.solveCounter(d)
			}
			if d.Op == term.OAdd && len(d.A) == 2 {
				// v = k*y + c: the variable has coefficient 1, the other term does not
				for i, x := range d.A {
					if (d.K[i] == 1 || d.K[i] == term.Mask(d.S.W)) && d.K[1-i] != 1 && d.K[1-i] != term.Mask(d.S.W) && x.Op == term.OVar && s.eqs[x] == nil && !occurs(x, d.A[1-i], 400) {
						k := d.K[i] // +-1
						rest := C.Sub(d, C.MulK(x, k))
						add(x, C.MulK(rest, -k&term.Mask(d.S.W)))
					}
				}
			}
		}
	case term.OUlt:
		s.learnSmall(c.A[0], c.A[1])
	case term.OIEq0:
		// linear with single atom
		a := c.A[0]
		if a.Op == term.OVar || a.Op == term.OApp || a.Op == term.OIMod {
			add(a, C.IntI(0))
		}
	case term.OVar, term.OApp:
		add(c, C.True)
		if l := s.r.nilLen[c]; l != nil {
			add(l, C.BVc(l.S.W, 0))
		}
	case term.ONot:
		add(c.A[0], C.False)
		if x := c.A[0]; (x.Op == term.OSlt || x.Op == term.OUlt) && s.known(C.Not(C.Slt(x.A[1], x.A[0]))) == 1 && (x.Op == term.OSlt || s.known(C.Not(C.Ult(x.A[1], x.A[0]))) == 1) {
			s.learnEq(s.conc(C.Eq(x.A[0], x.A[1])))
		}
	}
}

// learnSmall: x < y <= 2^p where the low p bits of x are the constant r: then x == r.
func (s *State) learnSmall(x, y *term.T) {
	C := s.r.C
	if x.Op != term.OAdd {
		return
	}
	top := uint64(0)
	if y.IsConst() {
		top = y.U
	} else if y.Op == term.OIte && y.A[0].Op == term.OUlt || y.Op == term.OIte && y.A[0].Op == term.OSlt {
		// min(k, z): below k either way
		a, b, t, e := y.A[0].A[0], y.A[0].A[1], y.A[1], y.A[2]
		switch {
		case t.IsConst() && a == t && b == e: // k < z ? k : z; a signed comparison needs z >= 0
			if y.A[0].Op == term.OUlt || s.quick(C.Slt(e, C.BVc(e.S.W, 0))) == -1 {
				top = t.U
			}
		case e.IsConst() && b == e && a == t:
			if y.A[0].Op == term.OUlt || s.quick(C.Slt(t, C.BVc(t.S.W, 0))) == -1 {
				top = e.U
			}
		}
	}
	if top == 0 || top > 1<<20 {
		return
	}
	p := 0
	for 1<<uint(p) < top {
		p++
	}
	r := uint64(0)
	if p > 0 {
		l := C.Extract(p-1, 0, x)
		if !l.IsConst() {
			return
		}
		r = l.U
	}
	s.learnEq(C.Eq(x, C.BVc(x.S.W, r)))
	if d := C.Sub(x, C.BVc(x.S.W, r)); d.Op == term.OAdd {
		s.solveCounter(s.conc(d))
	}
}

// solveCounter: d == 0 where d is linear in a loop counter M: without wrap-around M is the quotient.
func (s *State) solveCounter(d *term.T) {
	C := s.r.C
	w := d.S.W
	if w != 64 {
		return
	}
	for i, m := range d.A {
		b, ok := C.Bound[m]
		k := int64(d.K[i])
		if !ok || b[1] > 1<<58 || b[1] < 1<<50 || m.Op != term.OVar || k == 0 || int64(d.U)%k != 0 {
			continue
		}
		max := new(big.Int).SetUint64(b[1])
		max.Mul(max, new(big.Int).Abs(big.NewInt(k)))
		max.Add(max, new(big.Int).Abs(big.NewInt(int64(d.U))))
		good := true
		q := C.BVc(64, uint64(-(int64(d.U) / k)))
		for j, x := range d.A {
			if j == i {
				continue
			}
			_, h := C.Range(x)
			kj := int64(d.K[j])
			if h > 1<<60 && s.quick(C.Ult(x, C.BVc(64, 1<<60))) == 1 {
				h = 1 << 60
			}
			if occurs(m, x, 400) {
				good = false
				break
			}
			v := new(big.Int).SetUint64(h)
			max.Add(max, v.Mul(v, new(big.Int).Abs(big.NewInt(kj))))
			if kj%k == 0 {
				q = C.Add(q, C.MulK(x, uint64(-(kj/k))))
				continue
			}
			// a multiple of a power of two
			p, ka := 0, k
			if ka < 0 {
				ka = -ka
			}
			for ka>>uint(p) > 1 {
				p++
			}
			if ka != 1<<uint(p) || p == 0 || !C.Extract(p-1, 0, x).IsConst() || C.Extract(p-1, 0, x).U != 0 {
				good = false
				break
			}
			y := C.Zext(64, C.Extract(63, p, x))
			if k < 0 {
				kj = -kj
			}
			q = C.Add(q, C.MulK(y, uint64(-kj)))
		}
		if good && max.BitLen() < 64 {
			s.eqs[m] = q
			s.memo = nil
			return
		}
	}
}

// occurs reports whether v is a subterm of t (true also when the search is cut off).
func occurs(v, t *term.T, n int) bool {
	var walk func(t *term.T) bool
	seen := map[*term.T]bool{}
	walk = func(t *term.T) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		if len(seen) > n {
			return true
		}
		for _, a := range t.A {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// conc rewrites t using known equalities.
func (s *State) conc(t *term.T) *term.T {
	if len(s.eqs) == 0 || t.IsConst() {
		return t
	}
	if s.memo == nil {
		s.memo = map[*term.T]*term.T{}
	}
	for i := 0; i < 4; i++ {
		u := s.r.C.Subst(t, s.eqs, s.memo)
		if u == t {
			return t
		}
		t = u
	}
	return t
}

// known: 1 true, -1 false, 0 unknown; no solver involved.
func (s *State) known(c *term.T) int8 {
	if c.IsTrue() {
		return 1
	}
	if c.IsFalse() {
		return -1
	}
	nc := s.r.C.Not(c)
	for p := s.pc; p != nil; p = p.parent {
		if p.cond == c {
			return 1
		}
		if p.cond == nc {
			return -1
		}
		if v, ok := p.dec[c]; ok && (v == 1 || v == -1) {
			return v
		}
		if v, ok := p.dec[nc]; ok && (v == 1 || v == -1) {
			return -v
		}
	}
	return 0
}

func (s *State) record(c *term.T, v int8) {
	if s.pc == nil {
		s.pc = &pcNode{}
	}
	if s.pc.dec == nil {
		s.pc.dec = map[*term.T]int8{}
	}
	s.pc.dec[c] = v
}

const (
	unknownMS = 400
)

// quick decides c under the path condition: 1, -1 or 0 (both possible/unknown).
func (s *State) quick(c *term.T) int8 {
	if c.IsTrue() {
		return 1
	}
	if c.IsFalse() {
		return -1
	}
	if v := s.known(c); v != 0 {
		return v
	}
	c2 := s.conc(c)
	if c2.IsTrue() {
		return 1
	}
	if c2.IsFalse() {
		return -1
	}
	if s.pc != nil && s.pc.dec != nil {
		if v, ok := s.pc.dec[c]; ok && v == 2 {
			return 0
		}
	}
	s.r.budget()
	conds := s.pcList()
	C := s.r.C
	ms := unknownMS
	rT := s.r.S.Check(append(conds[:len(conds):len(conds)], C.Not(c2)), ms)
	if rT == smt.Unsat {
		s.record(c, 1)
		return 1
	}
	rF := s.r.S.Check(append(conds[:len(conds):len(conds)], c2), ms)
	if rF == smt.Unsat {
		s.record(c, -1)
		return -1
	}
	s.record(c, 2)
	return 0
}

func (s *State) pcList() []*term.T {
	if s.pc == nil {
		return nil
	}
	return s.pc.conds()
}

// infeasible reports whether the path condition is contradictory.
func (s *State) infeasible() bool {
	if v, ok := s.decOf(s.r.C.True); ok {
		return v == -1
	}
	res := s.r.S.Check(s.pcList(), unknownMS)
	if res == smt.Unsat {
		s.record(s.r.C.True, -1)
		return true
	}
	s.record(s.r.C.True, 2)
	return false
}

func (s *State) decOf(c *term.T) (int8, bool) {
	if s.pc == nil || s.pc.dec == nil {
		return 0, false
	}
	v, ok := s.pc.dec[c]
	return v, ok
}

// prove discharges an obligation; the condition is assumed afterwards.
func (s *State) prove(name, pos string, c *term.T) bool {
	ok := s.prove1(name, pos, c)
	if !c.IsFalse() {
		s.assume(c)
	}
	return ok
}

func (s *State) prove1(name, pos string, c *term.T) bool {
	if c.Op == term.OAnd {
		ok := true
		for _, a := range c.A {
			if !s.prove1(name, pos, a) {
				ok = false
				if s.r.quiet > 0 {
					return false
				}
			}
		}
		return ok
	}
	r := s.r
	o := &Obl{Name: name, Pos: pos}
	t0 := time.Now()
	switch {
	case c.IsTrue():
		o.OK, o.Status, o.Backend = true, "simplified", "simplifier"
	case s.known(c) == 1 || s.conc(c).IsTrue():
		o.OK, o.Status, o.Backend = true, "simplified", "path-condition"
	default:
		o.OK, o.Status, o.Backend, o.Detail = s.solve(c)
	}
	o.Ms = time.Since(t0).Milliseconds()
	if !o.OK {
		r.nfail++
		if (r.quiet > 0 || os.Getenv("GV_TQ") == "2") && os.Getenv("GV_TQ") != "" {
			r.logf("quiet-fail %s %s: %s\n   under %v", name, o.Status, diffStr(c)+func() (z string) {
				for k, v := range s.eqs {
					z += "\n     eq " + trunc(k.String(), 100) + " -> " + trunc(v.String(), 100)
				}
				return
			}(), func() (l []string) {
				for _, p := range s.pcList() {
					l = append(l, trunc(p.String(), 100))
				}
				return
			}())
		}
	}
	if r.quiet == 0 {
		r.Obls = append(r.Obls, o)
		if !o.OK {
			r.E.FailedAt.CompareAndSwap(0, time.Now().UnixNano())
			r.logf("FAILED %s at %s: %s\n   %s", name, pos, o.Status, o.Detail)
		}
	}
	return o.OK
}

func (s *State) solve(c *term.T) (bool, string, string, string) {
	r := s.r
	r.steps |= 255
	r.budget()
	if c.Op == term.OEq && c.A[0].S.K == term.BV && (hasApp(c.A[0], 8) || hasApp(c.A[1], 8)) {
		if !bigApp(c.A[0], 3) && !bigApp(c.A[1], 3) {
			l := s.pcList()
			if r.S.Check(append(l[:len(l):len(l)], r.C.Not(c)), 250) == smt.Unsat {
				return true, "proved", "z3-incremental", ""
			}
		}
		r.quiet++
		ok := s.congruent(c.A[0], c.A[1], 40)
		r.quiet--
		if ok {
			if os.Getenv("GV_TQ") != "" {
				r.logf("congruent after solver: %s", diffStr(r.C.Eq(s.conc(c.A[0]), s.conc(c.A[1]))))
			}
			return true, "proved", "congruence", ""
		}
	}
	conds := s.pcList()
	q := append(conds[:len(conds):len(conds)], r.C.Not(c))
	ms := 3000
	if r.quiet > 0 {
		ms = 1500
	}
	b0 := r.S.Backends["z3-incremental"]
	res := r.S.Check(q, ms)
	_ = b0
	if res == smt.Unsat {
		return true, "proved", "z3-incremental", ""
	}
	if res == smt.Unknown && r.quiet == 0 {
		d := 25 * time.Second
		if r.fastFail {
			d = 6 * time.Second
		}
		if r.E.FailGrace > 0 && r.E.FailedAt.Load() > 0 {
			d = 3 * time.Second
		}
		if left := time.Until(r.Deadline); left < d {
			d = left
		}
		res2, nm := r.S.OneShot(q, d)
		if res2 == smt.Unsat {
			return true, "proved", nm, ""
		}
		if res2 == smt.Sat {
			return false, "refuted", nm, "negation satisfiable: " + trunc(c.String(), 400)
		}
		return false, "unknown", "none", "no solver decided: " + trunc(c.String(), 400)
	}
	if res == smt.Sat && r.quiet == 0 {
		return false, "refuted", "z3-incremental", "goal " + trunc(c.String(), 400) + "  model: " + s.model(q)
	}
	return false, "unknown", "none", trunc(c.String(), 300)
}

func (s *State) model(q []*term.T) string {
	vars := map[string]*term.T{}
	seen := map[*term.T]bool{}
	var walk func(t *term.T)
	walk = func(t *term.T) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == term.OVar {
			vars[t.Name] = t
		}
		if t.Op == term.OApp && len(t.A) > 0 && t.A[0].IsConst() && len(vars) < 40 {
			vars[t.String()] = t
		}
		for _, a := range t.A {
			walk(a)
		}
	}
	for _, t := range q {
		walk(t)
	}
	var ns []string
	for n := range vars {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	if len(ns) > 24 {
		ns = ns[:24]
	}
	var ts []*term.T
	for _, n := range ns {
		ts = append(ts, vars[n])
	}
	m := s.r.S.Model(q, ts)
	var b []string
	for _, t := range ts {
		b = append(b, t.String()+"="+m[t.String()])
	}
	return strings.Join(b, " ")
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (r *Run) fail(name, pos, detail string) {
	r.nfail++
	if r.quiet > 0 {
		return
	}
	r.logf("FAILED %s at %s: %s", name, pos, detail)
	r.Obls = append(r.Obls, &Obl{Name: name, Pos: pos, Status: "failed", Detail: detail})
}

func (r *Run) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := r.E.Fset.Position(p)
	return r.E.relPos(q.Filename) + ":" + fmt.Sprint(q.Line)
}

// diffStr prints a goal; for an equality the first subterms the two sides differ in.
func diffStr(c *term.T) string {
	for d := 0; d < 60 && c.Op == term.OEq; d++ {
		a, b := c.A[0], c.A[1]
		if a.Op != b.Op || len(a.A) != len(b.A) || a.Name != b.Name || a.U != b.U {
			break
		}
		var x, y *term.T
		n := 0
		for i := range a.A {
			if a.A[i] != b.A[i] {
				if x == nil {
					x, y = a.A[i], b.A[i]
				}
				n++
			}
		}
		if x == nil || n > 40 {
			break
		}
		c = &term.T{Op: term.OEq, A: []*term.T{x, y}, S: c.S}
	}
	if c.Op == term.OEq {
		return trunc(c.A[0].String(), 600) + "\n  ==  " + trunc(c.A[1].String(), 600)
	}
	return trunc(c.String(), 1200)
}
