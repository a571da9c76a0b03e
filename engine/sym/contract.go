package sym

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"verif/engine/smt"
	"verif/engine/term"

	"golang.org/x/tools/go/ssa"
)

const gvPath = "github.com/ZZMarquis/gm/zzgv"

type gmode int

const (
	modeCheck gmode = iota
	modeUse
)

type modItem struct {
	obj  *Obj
	path []Step
	sl   *Slice     // slice range, or nil
	set  bool       // a Set: the reference here is given by the contract
	all  types.Type // Changes: references too
}

// ghostCtx is the dynamic context of a contract being checked or used (immutable: copied on write).
type ghostCtx struct {
	mode       gmode
	name       string
	outer      *ghostCtx
	inCall     bool
	entered    bool
	allowPanic bool
	sets       []modItem
	mods       []modItem
	called     bool
	pre        *State // snapshot at gv.Call
	preObj     int
	site       string
	templ      []*loopTemplate
}

type loopTemplate struct {
	name string
	f    *Func
	st   *State
}

func (st *State) setGh(f func(g *ghostCtx)) {
	g := ghostCtx{}
	if st.gh != nil {
		g = *st.gh
	}
	f(&g)
	st.gh = &g
}

type intrinsic func(fr *frame, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome

var intrinsics map[string]intrinsic

func strArg(st *State, v Value) string {
	s, ok := st.constStr(v.(*Str))
	if !ok {
		return "?"
	}
	return s
}

func (r *Run) oblName(st *State, n string) string {
	if st.gh != nil && st.gh.mode == modeUse {
		return "requires of " + st.gh.name + ": " + n
	}
	return n
}

func init() {
	intrinsics = map[string]intrinsic{
		"Requires": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			c := a[0].(*term.T)
			if st.gh != nil && st.gh.mode == modeUse {
				if !st.prove("precondition of "+st.gh.name, st.gh.site, c) {
					if c.IsFalse() {
						return nil
					}
				}
			} else {
				if st.gh != nil && (strings.HasPrefix(st.gh.name, "Prove_") || strings.HasPrefix(st.gh.name, "GV_")) {
					fr.r.inputBounds(st, c)
				}
				top := len(st.pcList()) == fr.r.reqN
				st.assume(c)
				if c.IsFalse() || st.infeasible() {
					return nil
				}
				if top {
					fr.r.reqN = len(st.pcList())
				}
			}
			return ret(st, Tuple{})
		},
		"RequiresNil": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			p := st.force(a[0].(*Iface).V).(*Ptr)
			v := st.force(st.loadPtr(p))
			if st.gh != nil && st.gh.mode == modeUse {
				q, ok := v.(*Ptr)
				nl := fr.r.C.False
				if ok && q.Obj == nil {
					nl = fr.r.C.True
				}
				if !st.prove("precondition of "+st.gh.name, st.gh.site, nl) {
					return nil
				}
				return ret(st, Tuple{})
			}
			q, ok := v.(*Ptr)
			if !ok {
				unsup("RequiresNil of %s", valStr(v))
			}
			_ = q
			st.storePtr(p, &Ptr{})
			return ret(st, Tuple{})
		},
		"Assume": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			why := strArg(st, a[1])
			fr.r.Assumed[why] = true
			c := a[0].(*term.T)
			st.assume(c)
			if c.IsFalse() || st.infeasible() {
				return nil
			}
			return ret(st, Tuple{})
		},
		"Ensure": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			c := st.unseq(a[1].(*term.T))
			if st.gh != nil && st.gh.mode == modeUse {
				st.assume(c)
				if c.IsFalse() || st.infeasible() {
					return nil
				}
			} else {
				st.proveGoal(strArg(st, a[0]), fr.r.pos(pos), c)
			}
			return ret(st, Tuple{})
		},
		"Lemma": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			c := st.unseq(a[1].(*term.T))
			st.proveGoal(strArg(st, a[0]), fr.r.pos(pos), c)
			return ret(st, Tuple{})
		},
		"EnsureIs": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			s := st.force(a[1]).(*Slice)
			st.sliceIs(strArg(st, a[0]), fr.r.pos(pos), s, a[2].(*term.T), a[3].(*term.T), a[4], st.gh != nil && st.gh.mode == modeUse)
			return ret(st, Tuple{})
		},
		"RequiresEach": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			s := st.force(a[0]).(*Slice)
			if st.gh == nil || st.gh.mode == modeUse || s.Obj == nil || st.backing(s).C.k != cBase {
				unsup("RequiresEach is for the inputs of a harness")
			}
			st.assumeElems(s, a[1].(*term.T), a[2].(*term.T), a[3])
			return ret(st, Tuple{})
		},
		"EnsureEq": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			r := fr.r
			x, y := st.force(a[1]).(*Slice), st.force(a[2]).(*Slice)
			use := st.gh != nil && st.gh.mode == modeUse
			ln := r.C.Eq(x.Len, y.Len)
			if use {
				st.assume(ln)
				if x.Obj != nil && y.Obj != nil {
					bx := st.backing(x)
					c := r.copyC(st, bx.C, x.Off, y.Len, st.backing(y).C, y.Off)
					st.storeAt(x.Obj, x.Path, &Arr{C: c, Len: bx.Len, Elem: bx.Elem})
				}
				return ret(st, Tuple{})
			}
			st.proveGoal(strArg(st, a[0])+" (length)", r.pos(pos), ln)
			st.proveSeq(strArg(st, a[0]), r.pos(pos), x, y)
			return ret(st, Tuple{})
		},
		"Set": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			p := a[0].(*Ptr)
			if st.gh != nil && st.gh.mode == modeUse {
				st.storePtr(p, a[1])
				return ret(st, Tuple{})
			}
			if st.gh != nil {
				m := modItem{obj: p.Obj, path: p.Path, set: true}
				st.setGh(func(g *ghostCtx) { g.sets = append(g.sets[:len(g.sets):len(g.sets)], m) })
			}
			st.proveEq("value set by contract", fr.r.pos(pos), st.force(st.loadPtr(p)), st.force(a[1]))
			return ret(st, Tuple{})
		},
		"Modifies": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			for _, v := range st.variadic(a[0]) {
				i := v.(*Iface)
				var m modItem
				switch x := st.force(i.V).(type) {
				case *Ptr:
					m = modItem{obj: x.Obj, path: x.Path}
				case *Slice:
					if x.Obj == nil {
						continue
					}
					m = modItem{obj: x.Obj, path: x.Path, sl: x}
				default:
					unsup("Modifies of %s", valStr(i.V))
				}
				st.setGh(func(g *ghostCtx) { g.mods = append(g.mods[:len(g.mods):len(g.mods)], m) })
			}
			return ret(st, Tuple{})
		},
		"Changes": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			for _, v := range st.variadic(a[0]) {
				i := v.(*Iface)
				var m modItem
				switch x := st.force(i.V).(type) {
				case *Ptr:
					m = modItem{obj: x.Obj, path: x.Path, all: under(i.T).(*types.Pointer).Elem()}
				default:
					unsup("Modifies of %s", valStr(i.V))
				}
				st.setGh(func(g *ghostCtx) { g.mods = append(g.mods[:len(g.mods):len(g.mods)], m) })
			}
			return ret(st, Tuple{})
		},
		"Call": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			return fr.r.gvCall(fr, st, a[0], pos, false)
		},
		"Try": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			return fr.r.gvCall(fr, st, a[0], pos, true)
		},
		"Snap": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			s := st.force(a[0]).(*Slice)
			if s.Obj == nil {
				return ret(st, s)
			}
			b := st.backing(s)
			o := fr.r.newObj("snap", types.NewSlice(b.Elem))
			o.Ghost = true
			st.heap[o] = b
			return ret(st, &Slice{Obj: o, Off: s.Off, Len: s.Len, Cap: s.Cap, Nil: s.Nil})
		},
		"Seq": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			n := a[0].(*term.T)
			el := under(fn.Signature.Results().At(0).Type()).(*types.Slice).Elem()
			c := fr.r.ghostLambda(st, el, a[1])
			s := st.newSlice("seq", c, n, n, el)
			s.Obj.Ghost = true
			return ret(st, s)
		},
		"Rec": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			// the sequence defined by s[i] == f(s, i): reading an element yields an uninterpreted
			// term together with its defining equation (one unfolding)
			r := fr.r
			n := a[1].(*term.T)
			el := under(fn.Signature.Results().At(0).Type()).(*types.Slice).Elem()
			srt, _, ok := sortOf(el)
			if !ok {
				unsup("Rec of %s", el)
			}
			nm := r.uniq("rec:" + strArg(st, a[0]))
			f := a[2]
			snap := st.clone()
			raw := r.lambdaC(el, func(cur *State, i *term.T) Value { return r.C.App(nm, srt, i) })
			rawS := snap.newSlice("recself", raw, n, n, el)
			rawS.Obj.Ghost = true
			c := r.lambdaC(el, func(cur *State, i *term.T) Value {
				t := r.C.App(nm, srt, i)
				if _, ok := r.axm[t]; !ok {
					r.axm[t] = nil
					// evaluated under the facts known at the definition only: the equation is global
					v := r.evalGhost(snap.clone(), f, rawS, i).(*term.T)
					r.axm[t] = []*term.T{r.C.Implies(r.C.Ult(i, n), r.C.Eq(t, v))}
					if r.recDefs == nil {
						r.recDefs = map[*term.T]recDef{}
					}
					r.recDefs[t] = recDef{r.C.Ult(i, n), v}
				}
				return t
			})
			s := st.newSlice("rec", c, n, n, el)
			s.Obj.Ghost = true
			return ret(st, s)
		},
		"Stride": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			fr.r.stride = int(a[0].(*term.T).U)
			return ret(st, Tuple{})
		},
		"Loop": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			i := a[1].(*Iface)
			t := &loopTemplate{name: strArg(st, a[0]), f: i.V.(*Func), st: st.clone()}
			st.setGh(func(g *ghostCtx) { g.templ = append(g.templ[:len(g.templ):len(g.templ)], t) })
			return ret(st, Tuple{})
		},
		"Inv": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			ic := fr.r.inv
			if ic == nil {
				unsup("Inv outside of a loop invariant")
			}
			ic.pred(st, a[0].(*term.T))
			return ret(st, Tuple{})
		},
		"InvIs": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			ic := fr.r.inv
			if ic == nil {
				unsup("InvIs outside of a loop invariant")
			}
			ic.is(st, st.force(a[0]).(*Slice), a[1].(*term.T), a[2].(*term.T), a[3])
			return ret(st, Tuple{})
		},
		"And": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			var cs []*term.T
			for _, v := range st.variadic(a[0]) {
				cs = append(cs, v.(*term.T))
			}
			return ret(st, fr.r.C.And(cs...))
		},
		"Or": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			var cs []*term.T
			for _, v := range st.variadic(a[0]) {
				cs = append(cs, v.(*term.T))
			}
			return ret(st, fr.r.C.Or(cs...))
		},
		"Implies": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			return ret(st, fr.r.C.Implies(a[0].(*term.T), a[1].(*term.T)))
		},
		"Ite": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			return ret(st, st.mustMerge(a[0].(*term.T), st.force(a[1]), st.force(a[2])))
		},
		"Any": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			nm := fr.r.uniq("any:" + strArg(st, a[0]))
			return ret(st, fr.r.symVal(fn.Signature.Results().At(0).Type(), nm, nil))
		},
		"Havoc": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			// *p becomes an arbitrary value of its type
			i := st.force(a[0]).(*Iface)
			p, ok := st.force(i.V).(*Ptr)
			if i.T == nil || !ok || p.IsNil() {
				unsup("Havoc of an opaque value")
			}
			st.storePtr(p, fr.r.symVal(under(i.T).(*types.Pointer).Elem(), fr.r.uniq("havoc"), nil))
			return ret(st, Tuple{})
		},
		"Known": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			// of two equal numbers, one that is known if there is one
			if a[0].(*term.T).IsConst() {
				return ret(st, a[0])
			}
			return ret(st, a[1])
		},
		"Unroll": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			fr.r.unroll = int(a[0].(*term.T).U)
			return ret(st, Tuple{})
		},
		"Option": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			fr.r.noCut[strArg(st, a[0])] = true
			return ret(st, Tuple{})
		},
		"Inline": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			for _, v := range st.variadic(a[0]) {
				f := v.(*Iface).V.(*Func)
				fr.r.noUse[f.Fn] = true
			}
			return ret(st, Tuple{})
		},
		"Opaque": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			for _, v := range st.variadic(a[0]) {
				f := v.(*Iface).V.(*Func)
				fr.r.opaque[f.Fn] = true
			}
			return ret(st, Tuple{})
		},
		"Reveal": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			for _, v := range st.variadic(a[0]) {
				f := v.(*Iface).V.(*Func)
				delete(fr.r.opaque, f.Fn)
			}
			return ret(st, Tuple{})
		},
		"Cover": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			if st.infeasible() {
				fr.r.fail("cover: "+strArg(st, a[0]), fr.r.pos(pos), "unreachable")
			} else {
				fr.r.Covers++
			}
			return ret(st, Tuple{})
		},
		"Fresh": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			s := st.force(a[0]).(*Slice)
			ok := s.Obj == nil || !s.Obj.Input && st.gh != nil && s.Obj.ID > st.gh.preObj && fr.r.initHeap[s.Obj] == nil && s.Obj.Glob == nil
			if st.gh != nil && st.gh.mode == modeUse {
				return ret(st, fr.r.C.True)
			}
			return ret(st, fr.r.C.BoolC(ok))
		},
		"FreshPtr": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			if st.gh != nil && st.gh.mode == modeUse {
				return ret(st, fr.r.C.True)
			}
			p, k := st.force(a[0]).(*Ptr)
			ok := k && !p.IsNil() && !p.Obj.Input && st.gh != nil && p.Obj.ID > st.gh.preObj && fr.r.initHeap[p.Obj] == nil && p.Obj.Glob == nil
			return ret(st, fr.r.C.BoolC(ok))
		},
		"Shares": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			x, y := st.force(a[0]).(*Slice), st.force(a[1]).(*Slice)
			C := fr.r.C
			if x.Obj == nil || x.Obj != y.Obj || !samePath(x.Path, y.Path) {
				return ret(st, C.False)
			}
			return ret(st, C.Eq(x.Off, y.Off))
		},
		"Offset": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			// position of x's first element in y's backing array relative to y
			x, y := st.force(a[0]).(*Slice), st.force(a[1]).(*Slice)
			C := fr.r.C
			if x.Obj == nil || x.Obj != y.Obj || !samePath(x.Path, y.Path) {
				return ret(st, fr.r.bv(-1))
			}
			return ret(st, C.Sub(x.Off, y.Off))
		},
		"StrOffset": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			x, y := st.force(a[0]).(*Str), st.force(a[1]).(*Str)
			if !sameC(x.C, y.C) {
				return ret(st, fr.r.bv(-1))
			}
			return ret(st, fr.r.C.Sub(x.Off, y.Off))
		},
		"UFBool": ufIntr, "UFByte": ufIntr, "UFU32": ufIntr, "UFU64": ufIntr, "UFInt": ufIntr,
		"CopyState": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			// shallow copy of *p into a fresh ghost object
			p := a[0].(*Ptr)
			o := fr.r.newObj("copy", nil)
			o.Ghost = true
			st.heap[o] = st.force(st.loadPtr(p))
			return ret(st, &Ptr{Obj: o})
		},
		"Concrete": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			return fr.r.caseSplit(st, a[0].(*term.T), a[1].(*term.T), a[2].(*term.T))
		},
		"DeepEqual": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			st.proveEq(strArg(st, a[0]), fr.r.pos(pos), st.force(a[1].(*Iface).V), st.force(a[2].(*Iface).V))
			return ret(st, Tuple{})
		},
		"IsType": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			x, y := st.force(a[0]).(*Iface), st.force(a[1]).(*Iface)
			return ret(st, fr.r.C.BoolC(x.T != nil && y.T != nil && types.Identical(x.T, y.T)))
		},
		"SameObj": func(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
			x, y := st.force(a[0].(*Iface).V), st.force(a[1].(*Iface).V)
			p, ok1 := x.(*Ptr)
			q, ok2 := y.(*Ptr)
			return ret(st, fr.r.C.BoolC(ok1 && ok2 && p.Obj == q.Obj && samePath(p.Path, q.Path)))
		},
	}
	for k, v := range bigIntrinsics {
		intrinsics[k] = v
	}
}

func ufIntr(fr *frame, st *State, fn *ssa.Function, a []Value, pos token.Pos) []Outcome {
	r := fr.r
	nm := strArg(st, a[0])
	var ts []*term.T
	for _, v := range st.variadic(a[1]) {
		ts = r.flatten(st, ts, v)
	}
	return ret(st, r.ufResult("uf:"+nm, fn.Signature.Results(), ts))
}

// caseSplit forks on the concrete values lo..hi of x (and one residual path).
func (r *Run) caseSplit(st *State, x, lo, hi *term.T) []Outcome {
	x = st.conc(x)
	if x.IsConst() {
		return ret(st, x)
	}
	var outs []Outcome
	cur := st
	for v := lo.Signed(); v <= hi.Signed(); v++ {
		e := r.C.Eq(x, r.bv(v))
		switch cur.quick(e) {
		case 1:
			return append(outs, Outcome{st: cur, ret: r.bv(v)})
		case -1:
			continue
		}
		n := cur.clone()
		n.assume(e)
		outs = append(outs, Outcome{st: n, ret: r.bv(v)})
		cur.assume(r.C.Not(e))
	}
	if !cur.infeasible() {
		outs = append(outs, Outcome{st: cur, ret: x})
	}
	return outs
}

// variadic lists the elements of a variadic slice argument.
func (st *State) variadic(v Value) []Value {
	s := v.(*Slice)
	if s.Obj == nil {
		return nil
	}
	n := st.conc(s.Len)
	if !n.IsConst() {
		unsup("variadic arguments")
	}
	var r []Value
	for i := int64(0); i < int64(n.U); i++ {
		r = append(r, st.at(s, st.r.bv(i)))
	}
	return r
}

func (r *Run) ghostLambda(st *State, el types.Type, f Value) *Content {
	snap := st.clone()
	return r.lambdaC(el, func(cur *State, i *term.T) Value {
		s := snap.clone()
		s.pc = cur.pc
		s.eqs = cur.eqs
		s.memo = nil
		c := s.clone()
		c.pc, c.heap = cur.pc, snap.heap
		return r.evalGhost(c, f, i)
	})
}

// sliceIs proves (or assumes) s[k] == f(k) for lo <= k < hi.
func (st *State) sliceIs(name, pos string, s *Slice, lo, hi *term.T, f Value, assume bool) {
	r, C := st.r, st.r.C
	if assume {
		if s.Obj == nil {
			return
		}
		a := st.backing(s)
		lam := r.ghostLambda(st, a.Elem, f)
		n := C.Ite(C.Slt(lo, hi), C.Sub(hi, lo), r.bv(0))
		if st.quick(C.Sle(lo, hi)) == 1 {
			n = C.Sub(hi, lo)
		}
		c := r.copyC(st, a.C, C.Add(s.Off, lo), n, lam, lo)
		st.storeAt(s.Obj, s.Path, &Arr{C: c, Len: a.Len, Elem: a.Elem})
		return
	}
	lo, hi = st.conc(lo), st.conc(hi)
	if d := C.Sub(hi, lo); d.IsConst() && d.Signed() <= 64 {
		for i := int64(0); i < d.Signed(); i++ {
			if s.Obj == nil {
				r.fail(name, pos, "nil slice")
				return
			}
			k := C.Add(lo, r.bv(i))
			nm := fmt.Sprintf("%s[%d]", name, i)
			if lo.IsConst() {
				nm = fmt.Sprintf("%s[%d]", name, lo.Signed()+i)
			}
			n0 := r.nfail
			st.proveEq(nm, pos, st.at(s, k), r.evalGhost(st, f, k))
			if r.nfail != n0 && r.quiet > 0 {
				return
			}
		}
		return
	}
	if s.Obj != nil && lo.IsConst() {
		if a := st.backing(s); a.C.k == cVec && len(a.C.vec) <= 32 && s.Off.IsConst() {
			for k := lo.Signed(); k < int64(len(a.C.vec))-s.Off.Signed(); k++ {
				s2 := st.with(C.Slt(r.bv(k), hi))
				n0 := r.nfail
				s2.proveEq(fmt.Sprintf("%s[%d]", name, k), pos, s2.at(s, r.bv(k)), r.evalGhost(s2, f, r.bv(k)))
				if r.nfail != n0 && r.quiet > 0 {
					return
				}
			}
			return
		}
	}
	one := func(name string, k *term.T) {
		s2 := st.clone()
		if lo.IsConst() || r.stride > 1 {
			s2.assume(C.Sle(lo, k))
			s2.assume(C.Slt(k, hi))
		} else {
			// positions relative to lo: k stands for the offset
			s2.assume(C.Sle(lo, hi))
			s2.assume(C.Ult(k, C.Sub(hi, lo)))
			k = C.Add(lo, k)
		}
		if s2.infeasible() {
			s2.prove1(name, pos, C.True)
			return
		}
		if s.Obj == nil {
			r.fail(name, pos, "nil slice")
			return
		}
		s2.proveSplit(name, pos, 6, func(x *State) (Value, Value) { return x.at(s, k), r.evalGhost(x, f, k) })
	}
	if r.stride > 1 {
		// split the index into block number and position inside the block
		j := C.Fresh("j", term.BVS(64))
		C.Bound[j] = [2]uint64{0, 1 << 58}
		for x := 0; x < r.stride; x++ {
			n0 := r.nfail
			one(fmt.Sprintf("%s[%d mod %d]", name, x, r.stride), C.Add(C.MulK(j, uint64(r.stride)), r.bv(int64(x))))
			if r.nfail != n0 && r.quiet > 0 {
				return
			}
		}
		return
	}
	one(name, C.Fresh("k", term.BVS(64)))
}

func (st *State) proveSeq(name, pos string, x, y *Slice) bool {
	r, C := st.r, st.r.C
	if x.Obj == nil || y.Obj == nil {
		return true // lengths proved equal; nil slices are empty
	}
	cx, cy := st.backing(x), st.backing(y)
	n := st.conc(x.Len)
	if sameC(cx.C, cy.C) && x.Off == y.Off {
		return st.prove1(name, pos, C.True)
	}
	if n.IsConst() && n.U <= 64 {
		ok := true
		for k := int64(0); k < int64(n.U); k++ {
			if !st.proveEq(fmt.Sprintf("%s[%d]", name, k), pos, st.at(x, r.bv(k)), st.at(y, r.bv(k))) {
				ok = false
			}
		}
		return ok
	}
	k := C.Fresh("k", term.BVS(64))
	s2 := st.clone()
	s2.assume(C.Ult(k, n))
	if s2.infeasible() {
		return st.prove1(name, pos, C.True)
	}
	return s2.proveSplit(name, pos, 6, func(s *State) (Value, Value) { return s.at(x, k), s.at(y, k) })
}

// proveEq proves deep equality of two values.
func (st *State) proveEq(name, pos string, a, b Value) bool {
	r, C := st.r, st.r.C
	a, b = st.force(a), st.force(b)
	if same(a, b) {
		return st.prove1(name, pos, C.True)
	}
	switch x := a.(type) {
	case *term.T:
		if y, ok := b.(*term.T); ok && x.S == y.S {
			return st.proveGoal(name, pos, C.Eq(x, y))
		}
	case *Struct:
		y, ok := b.(*Struct)
		if ok && len(y.F) == len(x.F) {
			okk := true
			for i := range x.F {
				fn := ""
				if s, ok := under(x.T).(*types.Struct); ok {
					fn = "." + s.Field(i).Name()
				}
				if !st.proveEq(name+fn, pos, x.F[i], y.F[i]) {
					okk = false
				}
			}
			return okk
		}
	case *Arr:
		y, ok := b.(*Arr)
		if !ok {
			break
		}
		if sameC(x.C, y.C) {
			return st.prove1(name, pos, C.True)
		}
		if x.Len.IsConst() && x.Len.U <= 256 {
			okk := true
			for i := int64(0); i < int64(x.Len.U); i++ {
				if !st.proveEq(fmt.Sprintf("%s[%d]", name, i), pos, st.read(x.C, r.bv(i)), st.read(y.C, r.bv(i))) {
					okk = false
				}
			}
			return okk
		}
		k := C.Fresh("k", term.BVS(64))
		s2 := st.clone()
		s2.assume(C.Ult(k, x.Len))
		if s2.infeasible() {
			return st.prove1(name, pos, C.True)
		}
		return s2.proveEq(name, pos, s2.read(x.C, k), s2.read(y.C, k))
	case *Slice:
		y, ok := b.(*Slice)
		if ok && x.Obj == y.Obj && samePath(x.Path, y.Path) {
			return st.proveGoal(name, pos, C.And(C.Eq(x.Off, y.Off), C.Eq(x.Len, y.Len), C.Eq(x.Cap, y.Cap), C.Eq(x.Nil, y.Nil)))
		}
		if ok {
			// equal contents in different arrays
			if !st.proveGoal(name+" (length)", pos, C.Eq(x.Len, y.Len)) {
				return false
			}
			return st.proveSeq(name, pos, x, y)
		}
	case *Str:
		if y, ok := b.(*Str); ok {
			if !st.proveGoal(name+" (length)", pos, C.Eq(x.Len, y.Len)) {
				return false
			}
			n := st.conc(x.Len)
			if n.IsConst() && n.U <= 256 {
				return st.proveGoal(name, pos, st.seqEq(x.C, x.Off, n, y.C, y.Off, n))
			}
			k := C.Fresh("k", term.BVS(64))
			s2 := st.clone()
			s2.assume(C.Ult(k, n))
			if s2.infeasible() {
				return true
			}
			return s2.proveSplit(name, pos, 6, func(s *State) (Value, Value) {
				return s.read(x.C, C.Add(x.Off, k)), s.read(y.C, C.Add(y.Off, k))
			})
		}
	case *Ptr:
		if y, ok := b.(*Ptr); ok {
			return st.proveGoal(name, pos, st.eq(x, y, nil))
		}
	case *Iface:
		if y, ok := b.(*Iface); ok {
			if !st.proveGoal(name+" (nil)", pos, C.Eq(x.Nil, y.Nil)) {
				return false
			}
			if st.quick(x.Nil) == 1 {
				return true
			}
			if x.T != nil && y.T != nil && types.Identical(x.T, y.T) {
				return st.proveEq(name, pos, x.V, y.V)
			}
			if x.T == nil && y.T == nil && x.Opq == y.Opq {
				return true
			}
		}
	case Tuple:
		if y, ok := b.(Tuple); ok && len(x) == len(y) {
			okk := true
			for i := range x {
				okk = st.proveEq(name, pos, x[i], y[i]) && okk
			}
			return okk
		}
	case *HashV:
		if y, ok := b.(*HashV); ok {
			return st.prove1(name, pos, C.BoolC(sameSegs(st.canonSegs(x.Segs), st.canonSegs(y.Segs))))
		}
	}
	r.fail(name, pos, fmt.Sprintf("cannot relate %s and %s", trunc(valStr(a), 200), trunc(valStr(b), 200)))
	return false
}

// unseq replaces opaque sequence equalities in goal position by skolem instances (see proveGoal).
func (st *State) unseq(c *term.T) *term.T { return c }

// proveGoal proves a boolean goal, splitting conjunctions and sequence equalities.
func (st *State) proveGoal(name, pos string, c *term.T) bool {
	r, C := st.r, st.r.C
	if c.Op == term.OAnd {
		ok := true
		for _, a := range c.A {
			ok = st.proveGoal(name, pos, a) && ok
		}
		return ok
	}
	if q, ok := r.seqEqs[c]; ok {
		c1, o1, n1 := q[0].(*Content), q[1].(*term.T), q[2].(*term.T)
		c2, o2, n2 := q[3].(*Content), q[4].(*term.T), q[5].(*term.T)
		if st.known(c) == 1 {
			return st.prove1(name, pos, C.True)
		}
		if !st.prove1(name+" (length)", pos, C.Eq(n1, n2)) {
			return false
		}
		k := C.Fresh("k", term.BVS(64))
		s2 := st.clone()
		s2.assume(C.Ult(k, n1))
		if s2.infeasible() {
			return true
		}
		ok := s2.proveSplit(name, pos, 6, func(s *State) (Value, Value) { return s.read(c1, C.Add(o1, k)), s.read(c2, C.Add(o2, k)) })
		if ok {
			st.assume(c)
		}
		return ok
	}
	ok := st.prove1(name, pos, c)
	if !c.IsFalse() {
		st.assume(c)
	}
	return ok
}

// gvCall runs the call under contract.
func (r *Run) gvCall(fr *frame, st *State, f Value, pos token.Pos, try bool) []Outcome {
	mkRet := func(s *State, p *term.T) Outcome {
		if try {
			return Outcome{st: s, ret: p}
		}
		return Outcome{st: s, ret: Tuple{}}
	}
	if st.gh != nil && st.gh.mode == modeUse {
		r.havocCall(st, f.(*Func))
		if try {
			p := r.C.Var(r.uniq("panics"), term.BoolS)
			return []Outcome{mkRet(st, p)}
		}
		return []Outcome{mkRet(st, r.C.False)}
	}
	pre := st.clone()
	st.setGh(func(g *ghostCtx) {
		g.inCall = true
		g.entered = false
		g.allowPanic = try
		g.pre = pre
		g.preObj = r.nobj
		g.called = true
	})
	outs := r.callValue(fr, st, f, nil, pos, false)
	var res []Outcome
	for _, o := range outs {
		if o.st.infeasible() {
			continue
		}
		if o.pan != nil && !try {
			if o.st.confirmInfeasible() {
				continue
			}
			if r.quiet == 0 {
				r.fail("no panic", r.pos(pos), "the call can panic: "+o.pan.what+"  "+o.st.model(o.st.pcList()))
			}
			continue
		}
		if o.pan == nil {
			r.normal++
		}
		o.st.setGh(func(g *ghostCtx) { g.inCall = false; g.allowPanic = false })
		o.st.frameCheck(pre, r.pos(pos))
		if o.pan != nil {
			res = append(res, mkRet(o.st, r.C.True))
		} else {
			res = append(res, mkRet(o.st, r.C.False))
		}
	}
	return fr.mergeOutcomes(res, nil)
}

// confirmInfeasible retries a path that may only be feasible because the solver gave up.
func (st *State) confirmInfeasible() bool {
	r := st.r
	q := st.pcList()
	switch r.S.Check(q, 4000) {
	case smt.Unsat:
		return true
	case smt.Sat:
		return false
	}
	res, _ := r.S.OneShot(q, 10e9)
	return res == smt.Unsat
}

// frameCheck proves that nothing outside the modifies clause changed.
func (st *State) frameCheck(pre *State, pos string) {
	r := st.r
	for o, v := range st.heap {
		if o.Ghost {
			continue
		}
		_, was := pre.heap[o]
		if !was && !o.Input && o.Glob == nil && r.initHeap[o] == nil {
			continue
		}
		pv := pre.objVal(o)
		if same(pv, v) {
			continue
		}
		st.frameDiff(pos, o, nil, pv, v)
	}
}

// refsKept: callers take references in modified memory to be kept, unless the contract sets them.
func (st *State) refsKept(pos string, o *Obj, path []Step, pv, v Value) {
	pv, v = st.force(pv), st.force(v)
	if same(pv, v) {
		return
	}
	for _, m := range st.gh.sets {
		if m.obj == o && len(m.path) <= len(path) && samePath(m.path, path[:len(m.path)]) {
			return
		}
	}
	for _, m := range st.gh.mods {
		if m.obj == o && m.all != nil && len(m.path) <= len(path) && samePath(m.path, path[:len(m.path)]) {
			return
		}
	}
	switch x := v.(type) {
	case *Struct:
		if y, ok := pv.(*Struct); ok {
			for i := range x.F {
				st.refsKept(pos, o, addStep(path, Step{F: i}), y.F[i], x.F[i])
			}
		}
	case *Slice, *Ptr, *Func:
		st.proveEq("reference "+o.Name+pathStr(path)+" kept or set by the contract", pos, pv, v)
	}
}

func (st *State) frameDiff(pos string, o *Obj, path []Step, pv, v Value) {
	r, C := st.r, st.r.C
	pv, v = st.force(pv), st.force(v)
	if same(pv, v) {
		return
	}
	for _, m := range st.gh.mods {
		if m.obj == o && m.sl == nil && len(m.path) <= len(path) && samePath(m.path, path[:len(m.path)]) {
			return
		}
	}
	name := "frame: " + o.Name + pathStr(path) + " unchanged"
	switch x := v.(type) {
	case *Struct:
		y, ok := pv.(*Struct)
		if ok {
			for i := range x.F {
				st.frameDiff(pos, o, addStep(path, Step{F: i}), y.F[i], x.F[i])
			}
			return
		}
	case *Arr:
		y, ok := pv.(*Arr)
		if !ok {
			break
		}
		var sls []*Slice
		for _, m := range st.gh.mods {
			if m.obj == o && m.sl != nil && samePath(m.path, path) {
				sls = append(sls, m.sl)
			}
		}
		if x.Len.IsConst() && x.Len.U <= 300 {
			for i := int64(0); i < int64(x.Len.U); i++ {
				in := C.False
				for _, m := range sls {
					in = C.Or(in, C.Ult(C.Sub(r.bv(i), m.Off), m.Len))
				}
				if st.quick(in) == 1 {
					continue
				}
				s2 := st.clone()
				s2.assume(C.Not(in))
				s2.frameDiff(pos, o, addStep(path, Step{Idx: r.bv(i)}), s2.read(y.C, r.bv(i)), s2.read(x.C, r.bv(i)))
			}
			return
		}
		k := C.Fresh("fk", term.BVS(64))
		s2 := st.clone()
		s2.assume(C.Ult(k, x.Len))
		for _, m := range sls {
			s2.assume(C.Not(C.Ult(C.Sub(k, m.Off), m.Len)))
		}
		if s2.infeasible() {
			return
		}
		s2.proveSplit(name, pos, 6, func(s *State) (Value, Value) { return s.read(y.C, k), s.read(x.C, k) })
		return
	case *Tainted:
		return
	}
	st.proveEq(name, pos, pv, v)
}

// havocCall havocs results captured by the closure and the modifies set (use mode).
func (r *Run) havocCall(st *State, f *Func) {
	fn := f.Fn
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			for i, fv := range fn.FreeVars {
				if s.Addr == ssa.Value(fv) {
					p := f.Free[i].(*Ptr)
					t := fv.Type().Underlying().(*types.Pointer).Elem()
					st.storePtr(p, r.havocVal(st, t, r.uniq("res:"+st.gh.name+":"+fv.Name())))
				}
			}
		}
	}
	for _, m := range st.gh.mods {
		if m.sl != nil {
			a := st.backing(m.sl)
			st.writeRange(m.sl, r.bv(0), m.sl.Len, r.baseC(r.uniq("havoc:"+m.obj.Name), a.Elem), r.bv(0))
			continue
		}
		p := &Ptr{Obj: m.obj, Path: m.path}
		if m.all != nil {
			st.storePtr(p, r.symVal(m.all, r.uniq("havoc:"+m.obj.Name), nil))
			continue
		}
		st.storePtr(p, st.havocLike(st.force(st.loadPtr(p)), r.uniq("havoc:"+m.obj.Name), typeAt(m.obj.Typ, m.path)))
	}
}

// havocVal: an arbitrary result value; slices and pointers refer to fresh memory.
func (r *Run) havocVal(st *State, t types.Type, name string) Value {
	switch u := under(t).(type) {
	case *types.Slice:
		v := r.symVal(t, name, nil).(*Slice)
		o := r.newObj(name, t)
		st.heap[o] = &Arr{C: r.baseC(name, u.Elem()), Len: v.Cap, Elem: u.Elem()}
		return &Slice{Obj: o, Off: v.Off, Len: v.Len, Cap: v.Cap, Nil: v.Nil}
	case *types.Pointer:
		o := r.newObj(name, u.Elem())
		st.heap[o] = r.havocVal(st, u.Elem(), name+".*")
		return &Ptr{Obj: o}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = r.havocVal(st, u.Field(i).Type(), name+"."+u.Field(i).Name())
		}
		if namedPath(t) == "time.Time" || isBigInt(t) {
			return r.symVal(t, name, nil)
		}
		return &Struct{F: f, T: t}
	}
	return r.symVal(t, name, nil)
}

// typeAt: the type of the part of a t that path leads to.
func typeAt(t types.Type, path []Step) types.Type {
	for _, s := range path {
		switch u := under(t).(type) {
		case *types.Struct:
			t = u.Field(s.F).Type()
		case *types.Array:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		}
	}
	return t
}

// checkRefs: see refsKept; at the end of a contract.
func (st *State) checkRefs(pos string) {
	if st.gh == nil || st.gh.pre == nil {
		return
	}
	for _, m := range st.gh.mods {
		if m.sl != nil || m.all != nil {
			continue
		}
		p := &Ptr{Obj: m.obj, Path: m.path}
		st.refsKept(pos, m.obj, m.path, st.gh.pre.loadPtr(p), st.loadPtr(p))
	}
}

// havocLike: same shape, arbitrary scalars; references are kept (contracts Set them, see refsKept), but
// interfaces are arbitrary.
func (st *State) havocLike(v Value, name string, t types.Type) Value {
	r := st.r
	switch x := v.(type) {
	case *Iface:
		return r.symVal(t, name, nil)
	case *term.T:
		return r.C.Var(name, x.S)
	case *Struct:
		f := make([]Value, len(x.F))
		for i := range f {
			f[i] = st.havocLike(st.force(x.F[i]), fmt.Sprintf("%s.%d", name, i), under(x.T).(*types.Struct).Field(i).Type())
		}
		return &Struct{F: f, T: x.T}
	case *Arr:
		if x.C.k == cVec {
			nv := make([]Value, len(x.C.vec))
			for i := range nv {
				nv[i] = st.havocLike(st.force(x.C.vec[i]), fmt.Sprintf("%s[%d]", name, i), x.Elem)
			}
			return &Arr{C: r.vecC(x.Elem, nv), Len: x.Len, Elem: x.Elem}
		}
		return &Arr{C: r.baseC(name, x.Elem), Len: x.Len, Elem: x.Elem}
	case *HashV:
		return r.anyHash(name)
	}
	return v
}

// useContract applies the contract of fn at a call site.
func (r *Run) useContract(fr *frame, st *State, fn, ctr *ssa.Function, args []Value, pos token.Pos) []Outcome {
	r.Used[fnName(fn)] = true
	outer := st.gh
	st.gh = &ghostCtx{mode: modeUse, name: strings.TrimPrefix(ctr.Name(), "GV_"), outer: outer, site: r.pos(pos), preObj: r.nobj}
	outs := r.callFn(fr, st, ctr, args, nil, pos, false)
	for i := range outs {
		outs[i].st.gh = outer
		if outs[i].pan != nil {
			unsup("contract %s panics: %s", ctr.Name(), outs[i].pan.what)
		}
	}
	return outs
}

// inputBounds records constant bounds an unconditional precondition puts on input variables.
func (r *Run) inputBounds(st *State, c *term.T) {
	if len(st.pcList()) != r.reqN {
		return
	}
	C := r.C
	lo, hi := map[*term.T]int64{}, map[*term.T]int64{}
	var walk func(t *term.T)
	walk = func(t *term.T) {
		neg := false
		if t.Op == term.OAnd {
			for _, a := range t.A {
				walk(a)
			}
			return
		}
		if t.Op == term.ONot {
			neg, t = true, t.A[0]
		}
		if t.Op != term.OSlt && t.Op != term.OUlt {
			return
		}
		a, b := t.A[0], t.A[1]
		if t.Op == term.OUlt {
			if !neg && a.Op == term.OVar && b.IsConst() && b.U > 0 && b.U < 1<<62 {
				lo[a], hi[a] = 0, int64(b.U)-1
			}
			if neg && b.Op == term.OVar && a.IsConst() && a.U < 1<<62 { // b <= a
				lo[b], hi[b] = 0, int64(a.U)
			}
			return
		}
		switch {
		case a.Op == term.OVar && b.IsConst() && a.S.W == 64:
			if neg {
				lo[a] = b.Signed()
			} else {
				hi[a] = b.Signed() - 1
			}
		case b.Op == term.OVar && a.IsConst() && b.S.W == 64:
			if neg {
				hi[b] = a.Signed()
			} else {
				lo[b] = a.Signed() + 1
			}
		}
	}
	walk(c)
	for v, h := range hi {
		l, ok := lo[v]
		if !ok || l < 0 || h < l {
			continue
		}
		if b, ok := C.Bound[v]; ok {
			if uint64(l) < b[0] {
				l = int64(b[0])
			}
			if uint64(h) > b[1] {
				h = int64(b[1])
			}
		}
		if l <= h {
			C.Bound[v] = [2]uint64{uint64(l), uint64(h)}
			C.BoundEpoch++
		}
	}
}
