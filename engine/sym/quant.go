package sym

import (
	"verif/engine/term"
)

// Quantified facts: where the guard holds, element idx of the base content is val(idx) for lo <= idx < hi.
// They are instantiated for the elements a query mentions.
type qfact struct {
	guard  *term.T
	c      *Content
	lo, hi *term.T // unsigned, absolute positions
	val    func(idx *term.T) *term.T
	memo   map[*term.T]*term.T
}

type quantHook struct{ r *Run }

// selOf gives the position a term selects from base content c.
func selOf(c *Content, t *term.T) *term.T {
	if t.Op != term.OApp || t.Name != c.name || len(t.A) != len(c.pre)+1 {
		return nil
	}
	for i, p := range c.pre {
		if t.A[i] != p {
			return nil
		}
	}
	return t.A[len(t.A)-1]
}

func (q quantHook) Sel(t *term.T) bool {
	return t.Op == term.OApp && q.r.qbases[t.Name]
}

func (q quantHook) Guard(t *term.T) bool {
	return t.Op == term.OVar && t.S.K == term.Bool && len(q.r.qfacts[t]) > 0
}

func (q quantHook) Make(g, t *term.T) *term.T {
	r := q.r
	C := r.C
	var cs []*term.T
	for _, f := range r.qfacts[g] {
		i := selOf(f.c, t)
		if i == nil {
			continue
		}
		k, ok := f.memo[t]
		if !ok {
			f.memo[t] = nil // not again while it is being evaluated
			if v := f.eval(i); v != nil {
				k = C.Or(C.Not(g), C.Ult(i, f.lo), C.Ule(f.hi, i), C.Eq(t, v))
			}
			f.memo[t] = k
		}
		if k != nil {
			cs = append(cs, k)
		}
	}
	if len(cs) == 0 {
		return nil
	}
	return C.And(cs...)
}

func (f *qfact) eval(i *term.T) (v *term.T) {
	defer func() {
		if e := recover(); e != nil {
			if _, u := e.(Unsupported); u {
				v = nil
				return
			}
			panic(e)
		}
	}()
	return f.val(i)
}

func (r *Run) addFact(f *qfact) {
	if f.c.k != cBase {
		return
	}
	if _, _, ok := sortOf(f.c.elem); !ok {
		return
	}
	if r.qfacts == nil {
		r.qfacts = map[*term.T][]*qfact{}
		r.qbases = map[string]bool{}
	}
	f.memo = map[*term.T]*term.T{}
	r.qfacts[f.guard] = append(r.qfacts[f.guard], f)
	r.qbases[f.c.name] = true
}

// bare is a state without a path condition: what it reads holds on every path.
func (st *State) bare() *State {
	s := st.clone()
	s.pc, s.eqs = nil, map[*term.T]*term.T{}
	return s
}

// assumeElems assumes s[k] == f(k) for lo <= k < hi without giving up what is known of s.
func (st *State) assumeElems(s *Slice, lo, hi *term.T, f Value) {
	r, C := st.r, st.r.C
	if s.Obj == nil {
		return
	}
	a := st.backing(s)
	if a.C.k != cBase {
		return
	}
	g := C.Var(r.uniq("inv"), term.BoolS)
	st.assume(g)
	snap := st.clone()
	from := C.Add(s.Off, lo)
	to := C.Ite(C.Slt(lo, hi), C.Add(s.Off, hi), from)
	r.addFact(&qfact{guard: g, c: a.C, lo: from, hi: to, val: func(i *term.T) *term.T {
		return snap.force(r.evalGhost(snap.clone(), f, C.Sub(i, s.Off))).(*term.T)
	}})
}
