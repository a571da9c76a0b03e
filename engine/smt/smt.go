// Package smt drives external SMT solvers (z3 incrementally, z3/cvc5 one-shot).
package smt

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"time"

	"verif/engine/term"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// Axioms returns unconditional facts about a term (may be nil).
type AxiomFn func(t *term.T) []*term.T

// Quant supplies instances of quantified facts: a fact is active where its guard occurs, and is instantiated
// for the selections (terms) it matches.
type Quant interface {
	Sel(t *term.T) bool
	Guard(t *term.T) bool
	Make(guard, sel *term.T) *term.T // nil: no match
}

type level struct {
	t            *term.T
	abs          bool
	added        []*term.T // terms whose axioms/bounds were asserted at this level
	sels, guards []*term.T
}

type Solver struct {
	absSat         bool // the last Unknown was a model of the abstraction
	c              *term.Ctx
	cmd            *exec.Cmd
	in             io.WriteCloser
	w              *bufio.Writer
	out            *bufio.Reader
	named          map[*term.T]string
	sigs           map[string]bool
	stack          []level
	asserted       map[*term.T]bool // axioms asserted in the current stack
	ax             AxiomFn
	Q              Quant
	Queries        int
	Time           time.Duration
	tmo            int
	seen           int
	FallbackTime   time.Duration
	Backends       map[string]int
	Dead           bool
	isLIA          bool
	busy           bool    // asserting: the evaluation of axioms and facts can ask questions of its own
	aux            *Solver // answers those
	lia            *Solver
	liaTry, liaWin int
}

var Z3 = "z3-new"

func init() {
	if _, err := exec.LookPath(Z3); err != nil {
		Z3 = "z3"
	}
}

func New(c *term.Ctx, ax AxiomFn) *Solver {
	s := &Solver{c: c, ax: ax, Backends: map[string]int{}}
	s.start()
	return s
}

func (s *Solver) start() {
	s.named = map[*term.T]string{}
	s.sigs = map[string]bool{}
	s.stack = nil
	s.asserted = map[*term.T]bool{}
	s.cmd = exec.Command(Z3, "-in", "-memory:4000")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.w, s.out = in, bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	s.send("(set-option :global-declarations true)")
	s.send("(set-option :print-success false)")
	s.tmo = 0
}

func (s *Solver) Close() {
	if s.lia != nil {
		s.lia.Close()
		s.lia = nil
	}
	if s.aux != nil {
		s.aux.Close()
		s.aux = nil
	}
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) send(x string) {
	s.w.WriteString(x)
	s.w.WriteByte('\n')
}

func q(n string) string { return "|" + strings.ReplaceAll(n, "|", "/") + "|" }

type emitter struct {
	named map[*term.T]string
	sigs  map[string]bool
	out   func(string)
	lia   bool // linear integer translation, see lia.go
	abs   bool // division by symbolic divisors as uninterpreted functions (with axioms, see push)
}

func absDiv(t *term.T) bool {
	return (t.Op == term.OURem || t.Op == term.OUDiv) && t.S.W >= 32 && !t.A[1].IsConst()
}

func bvlit(w int, v uint64) string { return fmt.Sprintf("(_ bv%d %d)", v, w) }

func (e *emitter) name(t *term.T) string {
	if n, ok := e.named[t]; ok {
		return n
	}
	// iterative DFS to avoid deep recursion problems
	type fr struct {
		t *term.T
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if _, ok := e.named[f.t]; ok {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.A) {
			a := f.t.A[f.i]
			f.i++
			if _, ok := e.named[a]; !ok {
				st = append(st, fr{a, 0})
			}
			continue
		}
		if e.lia {
			e.defineLIA(f.t)
		} else {
			e.define(f.t)
		}
		st = st[:len(st)-1]
	}
	return e.named[t]
}

func (e *emitter) define(t *term.T) {
	switch t.Op {
	case term.OConst:
		switch t.S.K {
		case term.Bool:
			e.named[t] = map[bool]string{true: "true", false: "false"}[t.U == 1]
		case term.BV:
			e.named[t] = bvlit(t.S.W, t.U)
		case term.Int:
			if t.C.Sign() < 0 {
				e.named[t] = "(- " + strings.TrimPrefix(t.C.String(), "-") + ")"
			} else {
				e.named[t] = t.C.String()
			}
		}
		return
	case term.OVar:
		n := q(t.Name)
		if !e.sigs[n] {
			e.sigs[n] = true
			e.out(fmt.Sprintf("(declare-fun %s () %s)", n, t.S))
		}
		e.named[t] = n
		return
	}
	as := make([]string, len(t.A))
	for i, a := range t.A {
		as[i] = e.named[a]
	}
	j := strings.Join(as, " ")
	var x string
	switch t.Op {
	case term.OApp:
		var sg strings.Builder
		sg.WriteString(t.Name)
		for _, a := range t.A {
			fmt.Fprintf(&sg, "~%d%d", a.S.K, a.S.W)
		}
		n := q(sg.String())
		if !e.sigs[n] {
			e.sigs[n] = true
			ss := make([]string, len(t.A))
			for i, a := range t.A {
				ss[i] = a.S.String()
			}
			e.out(fmt.Sprintf("(declare-fun %s (%s) %s)", n, strings.Join(ss, " "), t.S))
		}
		x = "(" + n + " " + j + ")"
	case term.ONot:
		x = "(not " + j + ")"
	case term.OAnd:
		x = "(and " + j + ")"
	case term.OIte:
		x = "(ite " + j + ")"
	case term.OEq:
		x = "(= " + j + ")"
	case term.OAdd:
		w := t.S.W
		parts := []string{}
		for i, a := range as {
			switch {
			case t.K[i] == 1:
				parts = append(parts, a)
			case t.K[i]&(t.K[i]-1) == 0:
				sh := 0
				for k := t.K[i]; k > 1; k >>= 1 {
					sh++
				}
				parts = append(parts, fmt.Sprintf("(bvshl %s %s)", a, bvlit(w, uint64(sh))))
			case term.Mask(w)-t.K[i]+1 == 1:
				parts = append(parts, "(bvneg "+a+")")
			default:
				parts = append(parts, fmt.Sprintf("(bvmul %s %s)", bvlit(w, t.K[i]), a))
			}
		}
		if t.U != 0 {
			parts = append(parts, bvlit(w, t.U))
		}
		x = parts[0]
		if len(parts) > 1 {
			x = "(bvadd " + strings.Join(parts, " ") + ")"
		}
	case term.OMul:
		x = "(bvmul " + j + ")"
	case term.OUDiv, term.OURem:
		op := map[term.Op]string{term.OUDiv: "bvudiv", term.OURem: "bvurem"}[t.Op]
		if e.abs && absDiv(t) {
			op = fmt.Sprintf("abs_%s_%d", op, t.S.W)
			if !e.sigs[op] {
				e.sigs[op] = true
				e.out(fmt.Sprintf("(declare-fun %s (%s %s) %s)", op, t.S, t.S, t.S))
			}
		}
		x = "(" + op + " " + j + ")"
	case term.OSDiv:
		x = "(bvsdiv " + j + ")"
	case term.OSRem:
		x = "(bvsrem " + j + ")"
	case term.OBAnd, term.OBOr:
		op := map[term.Op]string{term.OBAnd: "bvand", term.OBOr: "bvor"}[t.Op]
		x = "(" + op + " " + j + ")"
	case term.OBXor:
		if t.U != 0 {
			j += " " + bvlit(t.S.W, t.U)
		}
		x = "(bvxor " + j + ")"
	case term.OShl:
		x = "(bvshl " + j + ")"
	case term.OLshr:
		x = "(bvlshr " + j + ")"
	case term.OAshr:
		x = "(bvashr " + j + ")"
	case term.OConcat:
		x = as[0]
		for _, a := range as[1:] {
			x = "(concat " + x + " " + a + ")"
		}
	case term.OExtract:
		x = fmt.Sprintf("((_ extract %d %d) %s)", t.U>>8, t.U&255, j)
	case term.OSext:
		x = fmt.Sprintf("((_ sign_extend %d) %s)", t.S.W-t.A[0].S.W, j)
	case term.OUlt:
		x = "(bvult " + j + ")"
	case term.OSlt:
		x = "(bvslt " + j + ")"
	case term.OIAdd:
		parts := []string{}
		for i, a := range as {
			if t.KB[i].IsInt64() && t.KB[i].Int64() == 1 {
				parts = append(parts, a)
			} else if t.KB[i].Sign() < 0 {
				parts = append(parts, fmt.Sprintf("(* (- %s) %s)", strings.TrimPrefix(t.KB[i].String(), "-"), a))
			} else {
				parts = append(parts, fmt.Sprintf("(* %s %s)", t.KB[i], a))
			}
		}
		if t.C.Sign() < 0 {
			parts = append(parts, "(- "+strings.TrimPrefix(t.C.String(), "-")+")")
		} else if t.C.Sign() > 0 {
			parts = append(parts, t.C.String())
		}
		x = parts[0]
		if len(parts) > 1 {
			x = "(+ " + strings.Join(parts, " ") + ")"
		}
	case term.OIMul:
		op := "*"
		if e.abs {
			op = fmt.Sprintf("abs_prod_%d", len(as))
			if !e.sigs[op] {
				e.sigs[op] = true
				e.out(fmt.Sprintf("(declare-fun %s (%s) Int)", op, strings.TrimSpace(strings.Repeat(" Int", len(as)))))
			}
		}
		x = "(" + op + " " + j + ")"
	case term.OIMod:
		x = "(mod " + j + ")"
	case term.OIDiv:
		x = "(div " + j + ")"
	case term.OILe0:
		x = "(<= " + j + " 0)"
	case term.OIEq0:
		x = "(= " + j + " 0)"
	case term.OB2I:
		x = "(bv2nat " + j + ")"
	case term.OI2B:
		x = fmt.Sprintf("((_ int2bv %d) %s)", t.S.W, j)
	default:
		panic(fmt.Sprint("smt: op ", t.Op))
	}
	n := fmt.Sprintf("t%d", t.ID)
	e.out(fmt.Sprintf("(define-fun %s () %s %s)", n, t.S, x))
	e.named[t] = n
}

// closure collects the axioms/bounds relevant to t transitively.
func (s *Solver) facts(t *term.T, seen map[*term.T]bool, lv *level, visit func(*term.T)) {
	st := []*term.T{t}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if b, ok := s.c.Bound[x]; ok && x.S.K == term.BV {
			w := x.S.W
			if b[1] < term.Mask(w) {
				visit(s.c.RawUle(x, s.c.BVc(w, b[1])))
			}
			if b[0] > 0 {
				visit(s.c.RawUle(s.c.BVc(w, b[0]), x))
			}
		}
		if s.c.INonneg[x] {
			visit(s.c.RawINonneg(x))
		}
		if b, ok := s.c.IBound[x]; ok {
			if b[0] != nil {
				visit(s.c.RawILe(s.c.IntC(b[0]), x))
			}
			if b[1] != nil {
				visit(s.c.RawILe(x, s.c.IntC(b[1])))
			}
		}
		if s.ax != nil {
			for _, f := range s.ax(x) {
				visit(f)
				st = append(st, f)
			}
		}
		for _, f := range s.instances(x, lv, nil) {
			visit(f)
			st = append(st, f)
		}
		st = append(st, x.A...)
	}
}

// instances gives the quantified facts x takes part in, as selection or as guard.
func (s *Solver) instances(x *term.T, lv *level, below []level) (fs []*term.T) {
	if s.Q == nil {
		return nil
	}
	if s.Q.Guard(x) {
		lv.guards = append(lv.guards, x)
		each := func(l *level) {
			for _, t := range l.sels {
				if f := s.Q.Make(x, t); f != nil {
					fs = append(fs, f)
				}
			}
		}
		for i := range below {
			each(&below[i])
		}
		each(lv)
	}
	if s.Q.Sel(x) {
		n := len(lv.sels)
		for i := range below {
			n += len(below[i].sels)
		}
		if n > 300 {
			return
		}
		lv.sels = append(lv.sels, x)
		each := func(l *level) {
			for _, g := range l.guards {
				if f := s.Q.Make(g, x); f != nil {
					fs = append(fs, f)
				}
			}
		}
		for i := range below {
			each(&below[i])
		}
		each(lv)
	}
	return
}

func (s *Solver) push(t *term.T) {
	e := &emitter{s.named, s.sigs, s.send, s.isLIA, !s.isLIA}
	lv := level{t: t}
	s.busy = true
	defer func() { s.busy = false }()
	s.send("(push 1)")
	// Facts are tracked by a per-stack "seen" set.
	var fs []*term.T
	newSeen := map[*term.T]bool{}
	st := []*term.T{t}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if s.asserted[x] || newSeen[x] {
			continue
		}
		newSeen[x] = true
		lv.added = append(lv.added, x)
		if b, ok := s.c.Bound[x]; ok && x.S.K == term.BV {
			w := x.S.W
			if b[1] < term.Mask(w) {
				fs = append(fs, s.c.RawUle(x, s.c.BVc(w, b[1])))
			}
			if b[0] > 0 {
				fs = append(fs, s.c.RawUle(s.c.BVc(w, b[0]), x))
			}
		}
		if s.c.INonneg[x] {
			fs = append(fs, s.c.RawINonneg(x))
		}
		if b, ok := s.c.IBound[x]; ok {
			if b[0] != nil {
				fs = append(fs, s.c.RawILe(s.c.IntC(b[0]), x))
			}
			if b[1] != nil {
				fs = append(fs, s.c.RawILe(x, s.c.IntC(b[1])))
			}
		}
		if s.ax != nil {
			for _, f := range s.ax(x) {
				fs = append(fs, f)
				st = append(st, f)
			}
		}
		for _, f := range s.instances(x, &lv, s.stack) {
			fs = append(fs, f)
			st = append(st, f)
		}
		st = append(st, x.A...)
	}
	for _, x := range lv.added {
		s.asserted[x] = true
	}
	for _, f := range fs {
		s.send("(assert " + e.name(f) + ")")
	}
	for _, x := range lv.added {
		if s.isLIA {
			e.constrain(x)
		} else if x.Op == term.OIMul {
			// a product of non-constant factors: uninterpreted but for its sign and zeros
			lv.abs = true
			nn, z := "", ""
			for _, a := range x.A {
				nn += " (<= 0 " + e.name(a) + ")"
				z += " (= 0 " + e.name(a) + ")"
			}
			s.send(fmt.Sprintf("(assert (= (= 0 %s) (or%s)))", e.name(x), z))
			s.send(fmt.Sprintf("(assert (=> (and%s) (<= 0 %s)))", nn, e.name(x)))
		} else if absDiv(x) {
			lv.abs = true
			n, a, b := e.name(x), e.name(x.A[0]), e.name(x.A[1])
			s.send(fmt.Sprintf("(assert (or (= %s %s) (bvule %s %s)))", b, bvlit(x.S.W, 0), n, a))
			if x.Op == term.OURem {
				s.send(fmt.Sprintf("(assert (=> (not (= %s %s)) (bvult %s %s)))", b, bvlit(x.S.W, 0), n, b))
			}
		}
	}
	s.send("(assert " + e.name(t) + ")")
	s.stack = append(s.stack, lv)
}

func (s *Solver) sync(pc []*term.T) {
	k := 0
	for k < len(pc) && k < len(s.stack) && s.stack[k].t == pc[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		s.send(fmt.Sprintf("(pop %d)", n))
		for i := len(s.stack) - 1; i >= k; i-- {
			for _, x := range s.stack[i].added {
				delete(s.asserted, x)
			}
		}
		s.stack = s.stack[:k]
	}
	for _, t := range pc[k:] {
		s.push(t)
	}
}

// Check decides satisfiability of the conjunction: bit-vector reasoning first, then the linear integer
// translation, then bit vectors for longer.
func (s *Solver) Check(pc []*term.T, ms int) Result {
	const first = 80
	if ms <= first {
		return s.check(pc, ms)
	}
	// where the translation has been of little use, bit vectors get their full time first
	late := s.liaTry >= 12 && s.liaWin*8 < s.liaTry
	t1 := first
	if late {
		t1 = ms
	} else if s.liaTry >= 12 && s.liaWin*2 > s.liaTry {
		t1 = 20
	}
	s.absSat = false
	r := s.check(pc, t1)
	if r != Unknown || s.absSat {
		return r
	}
	if s.lia == nil {
		s.lia = &Solver{c: s.c, ax: s.ax, Q: s.Q, Backends: map[string]int{}, isLIA: true}
		s.lia.start()
	}
	t0 := time.Now()
	r = s.lia.check(pc, ms/2)
	s.Queries++
	s.liaTry++
	s.Time += time.Since(t0)
	if r == Unsat {
		s.liaWin++
		s.Backends["z3-lia"]++
		return Unsat
	}
	if late {
		return Unknown
	}
	return s.check(pc, ms)
}

func (s *Solver) check(pc []*term.T, ms int) Result {
	if s.busy {
		if s.aux == nil {
			s.aux = &Solver{c: s.c, ax: s.ax, Backends: map[string]int{}, isLIA: s.isLIA}
			s.aux.start()
		}
		s.Queries++
		return s.aux.check(pc, ms)
	}
	t0 := time.Now()
	if qcount {
		defer func() {
			var pcs [24]uintptr
			n := runtime.Callers(2, pcs[:])
			fr := runtime.CallersFrames(pcs[:n])
			k := ""
			for i := 0; i < 9; i++ {
				f, ok := fr.Next()
				k += fmt.Sprintf(" <- %s:%d", f.Function[strings.LastIndex(f.Function, ".")+1:], f.Line)
				if !ok {
					break
				}
			}
			QTime[k] += time.Since(t0)
			QNum[k]++
		}()
	}
	s.Queries++
	if s.Queries%4000 == 0 {
		s.restart()
	}
	s.sync(pc)
	if s.tmo != ms {
		s.send(fmt.Sprintf("(set-option :timeout %d)", ms))
		s.tmo = ms
	}
	s.send("(check-sat)")
	s.w.Flush()
	type rd struct {
		l   string
		err error
	}
	ch := make(chan rd, 1)
	go func() {
		for {
			l, err := s.out.ReadString('\n')
			l = strings.TrimSpace(l)
			if err == nil && l == "" {
				continue
			}
			ch <- rd{l, err}
			return
		}
	}()
	var r rd
	select {
	case r = <-ch:
	case <-time.After(time.Duration(ms)*time.Millisecond*3 + 3*time.Second):
		s.cmd.Process.Kill()
		<-ch
		r = rd{"timeout", fmt.Errorf("hard timeout")}
	}
	s.Time += time.Since(t0)
	if r.err != nil {
		s.restart()
		return Unknown
	}
	if os.Getenv("GV_SLOW") != "" && time.Since(t0) > slowAt {
		if d := os.Getenv("GV_DUMP"); d != "" {
			os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, s.Queries), []byte(s.Script(pc)), 0o644)
		}
		fmt.Fprintf(os.Stderr, "SLOW query %v %v pc=%d last=%s\n", time.Since(t0), r.l, len(pc), pc[len(pc)-1])
	}
	switch r.l {
	case "sat":
		for _, l := range s.stack {
			if l.abs {
				s.absSat = true
				return Unknown
			}
		}
		return Sat
	case "unsat":
		s.Backends["z3-incremental"]++
		return Unsat
	case "unknown", "timeout":
		return Unknown
	}
	if strings.HasPrefix(r.l, "(error") {
		fmt.Fprintln(os.Stderr, "solver error:", r.l)
		s.restart()
	}
	return Unknown
}

// Script renders a self-contained SMT-LIB script for the conjunction.
func (s *Solver) Script(pc []*term.T) string {
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	e := &emitter{map[*term.T]string{}, map[string]bool{}, func(x string) { b.WriteString(x); b.WriteByte('\n') }, false, false}
	seen := map[*term.T]bool{}
	var fs []*term.T
	var lv level
	for _, t := range pc {
		s.facts(t, seen, &lv, func(f *term.T) { fs = append(fs, f) })
	}
	for _, f := range fs {
		n := e.name(f)
		b.WriteString("(assert " + n + ")\n")
	}
	for _, t := range pc {
		n := e.name(t)
		b.WriteString("(assert " + n + ")\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

// OneShot runs several solvers on a fresh script in parallel; the first definite answer wins.
func (s *Solver) OneShot(pc []*term.T, d time.Duration) (Result, string) {
	t0 := time.Now()
	defer func() { s.FallbackTime += time.Since(t0) }()
	sc := s.Script(pc)
	f, err := os.CreateTemp("", "gv*.smt2")
	if err != nil {
		return Unknown, err.Error()
	}
	defer os.Remove(f.Name())
	f.WriteString(sc)
	f.Close()
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	type ans struct {
		r    Result
		name string
	}
	cmds := [][]string{
		{Z3, "-memory:6000", f.Name()},
		{"cvc5", "--bv-solver=bitblast", f.Name()},
		{"z3", "-memory:6000", f.Name()},
	}
	ch := make(chan ans, len(cmds))
	for _, c := range cmds {
		go func(c []string) {
			o, _ := exec.CommandContext(ctx, c[0], c[1:]...).Output()
			l := strings.TrimSpace(string(o))
			switch {
			case strings.HasPrefix(l, "unsat"):
				ch <- ans{Unsat, c[0]}
			case strings.HasPrefix(l, "sat"):
				ch <- ans{Sat, c[0]}
			default:
				ch <- ans{Unknown, c[0]}
			}
		}(c)
	}
	for range cmds {
		a := <-ch
		if a.r != Unknown {
			if a.r == Unsat {
				s.Backends[a.name+"-oneshot"]++
			}
			return a.r, a.name
		}
	}
	return Unknown, "none"
}

// Model returns values of the given terms after a Sat answer for pc.
func (s *Solver) Model(pc []*term.T, ts []*term.T) map[string]string {
	if s.Check(pc, 5000) != Sat {
		return nil
	}
	m := map[string]string{}
	e := &emitter{s.named, s.sigs, s.send, s.isLIA, !s.isLIA}
	for _, t := range ts {
		n := e.name(t)
		s.send(fmt.Sprintf("(eval %s)", n))
		s.w.Flush()
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.restart()
			return m
		}
		m[t.String()] = strings.TrimSpace(l)
	}
	return m
}

// development aid: solver time per call site (GV_QC=1)
var qcount = os.Getenv("GV_QC") != ""

var slowAt = func() time.Duration {
	d, _ := time.ParseDuration(os.Getenv("GV_SLOW"))
	if d == 0 {
		d = 300 * time.Millisecond
	}
	return d
}()

var (
	QTime = map[string]time.Duration{}
	QNum  = map[string]int{}
)
