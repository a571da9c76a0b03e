package sym

import (
	"os"

	"verif/engine/smt"
	"verif/engine/term"
)

// recDef is the defining equation of an element of a recursive ghost sequence: under cond the element is val.
type recDef struct{ cond, val *term.T }

type congKey struct {
	pc   *pcNode
	a, b *term.T
}

func bigApp(t *term.T, d int) bool {
	if t.Op == term.OApp && len(t.A) > 4 {
		return true
	}
	if d > 0 && (t.Op == term.OIte || t.Op == term.OConcat || t.Op == term.OExtract) {
		for _, a := range t.A {
			if bigApp(a, d-1) {
				return true
			}
		}
	}
	return false
}

// congruent proves a == b by decomposition (congruence, unfolding of recursive sequences, case splits);
// leaves go to the solver.
func (s *State) congruent(a, b *term.T, d int) bool {
	if a == b {
		return true
	}
	if a.S != b.S {
		return false
	}
	r := s.r
	key := congKey{s.pc, a, b}
	if v, ok := r.congMemo[key]; ok {
		return v
	}
	// what holds under a prefix of the path condition holds here
	if nodes := r.congTrue[[2]*term.T{a, b}]; len(nodes) > 0 {
		for n := s.pc; n != nil; n = n.parent {
			if nodes[n] {
				return true
			}
		}
	}
	v := s.congruent1(a, b, d)
	if !v && r.trace && os.Getenv("GV_TQ") != "" {
		r.logf("not congruent: %s\n   ==  %s", trunc(a.String(), 1000), trunc(b.String(), 1000))
	}
	if r.congMemo == nil {
		r.congMemo = map[congKey]bool{}
		r.congTrue = map[[2]*term.T]map[*pcNode]bool{}
	}
	r.congMemo[key] = v
	if v {
		k := [2]*term.T{a, b}
		if r.congTrue[k] == nil {
			r.congTrue[k] = map[*pcNode]bool{}
		}
		r.congTrue[k][s.pc] = true
	}
	return v
}

func (s *State) congruent1(a, b *term.T, d int) bool {
	r, C := s.r, s.r.C
	r.budget()
	a, b = s.conc(a), s.conc(b)
	if a == b {
		return true
	}
	if a.IsConst() && b.IsConst() || d <= 0 {
		return false
	}
	for i := 0; i < 2; i++ {
		if a.Op == term.OIte {
			c := a.A[0]
			switch s.quick(c) {
			case 1:
				return s.congruent(a.A[1], b, d-1)
			case -1:
				return s.congruent(a.A[2], b, d-1)
			}
			return s.with(c).congruent(a.A[1], b, d-1) && s.with(C.Not(c)).congruent(a.A[2], b, d-1)
		}
		a, b = b, a
	}
	if a.Op == term.OApp && b.Op == term.OApp && a.Name == b.Name && len(a.A) == len(b.A) && len(a.A) > 0 {
		ok := true
		for i := range a.A {
			if !s.congruent(a.A[i], b.A[i], d-1) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	if a.Op == term.OExtract && b.Op == term.OExtract && a.U == b.U && a.A[0].W() == b.A[0].W() && s.congruent(a.A[0], b.A[0], d-1) {
		return true
	}
	for i := 0; i < 2; i++ {
		if def, ok := r.recDefs[a]; ok && (b.Op != term.OApp || b.Name != a.Name) {
			if s.quick(def.cond) == 1 && s.congruent(def.val, b, d-1) {
				return true
			}
		}
		a, b = b, a
	}
	if a.Op == term.OConcat || b.Op == term.OConcat {
		cuts := map[int]bool{}
		for _, t := range []*term.T{a, b} {
			if t.Op == term.OConcat {
				p := t.W()
				for _, x := range t.A {
					p -= x.W()
					cuts[p] = true
				}
			}
		}
		hi := a.W() - 1
		ok := true
		for p := hi; p >= 0 && ok; p-- {
			if cuts[p] || p == 0 {
				x, y := C.Extract(hi, p, a), C.Extract(hi, p, b)
				if x.W() == a.W() {
					ok = false
					break
				}
				ok = s.congruent(x, y, d-1)
				hi = p - 1
			}
		}
		if ok {
			return true
		}
	}
	if bigApp(a, 3) || bigApp(b, 3) {
		return false
	}
	l := s.pcList()
	q := append(l[:len(l):len(l)], C.Not(C.Eq(a, b)))
	return r.S.Check(q, 1500) == smt.Unsat
}

func hasApp(t *term.T, d int) bool {
	if t.Op == term.OApp {
		return true
	}
	if d > 0 {
		for _, a := range t.A {
			if hasApp(a, d-1) {
				return true
			}
		}
	}
	return false
}
