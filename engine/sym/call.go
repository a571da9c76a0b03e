package sym

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"verif/engine/term"

	"golang.org/x/tools/go/ssa"
)

func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

// callee evaluates the function value and arguments of a call.
func (fr *frame) callee(it *item, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	for _, a := range c.Args {
		args = append(args, fr.val(it, a))
	}
	if c.IsInvoke() {
		rv := it.st.force(fr.val(it, c.Value))
		return &Func{Recv: rv, Meth: c.Method}, args
	}
	f := it.st.force(fr.val(it, c.Value))
	return f, args
}

func (fr *frame) call(it *item, in ssa.Instruction, c *ssa.CallCommon, res ssa.Value) ([]*item, bool) {
	r := fr.r
	fv, args := fr.callee(it, c)
	f, ok := fv.(*Func)
	if !ok {
		unsup("call of %s", valStr(fv))
	}
	pos := in.Pos()
	if f.Bltn != nil {
		return fr.builtin(it, f.Bltn.Name(), args, c, res, pos)
	}
	if f.Nil || f.Recv != nil && func() bool { i, ok := f.Recv.(*Iface); return ok && i.Nil.IsTrue() }() {
		fr.panicOut(it, &panRec{val: r.rtErr(), what: "nil function or interface call at " + r.pos(pos)})
		return dead, true
	}
	if i, ok := f.Recv.(*Iface); ok && !i.Nil.IsFalse() {
		if !fr.check(it, r.C.Not(i.Nil), "nil interface method call", pos) {
			return dead, true
		}
	}
	saved := fr.catch
	fr.catch = len(it.defers) > 0
	outs := r.callValue(fr, it.st, f, args, pos, false)
	fr.catch = saved
	outs = fr.mergeOutcomes(outs, f.Fn)
	var its []*item
	for k, o := range outs {
		var n *item
		if k == len(outs)-1 {
			n = &item{st: o.st, env: it.env, b: it.b, defers: it.defers}
		} else {
			e := make(map[ssa.Value]Value, len(it.env)+4)
			for kk, v := range it.env {
				e[kk] = v
			}
			n = &item{st: o.st, env: e, b: it.b, defers: it.defers}
		}
		if o.pan != nil {
			fr.panicOut(n, o.pan)
			continue
		}
		if res != nil {
			n.env[res] = o.ret
		}
		its = append(its, n)
	}
	return its, true
}

// callValue calls any function value.
func (r *Run) callValue(fr *frame, st *State, fv Value, args []Value, pos token.Pos, defPan bool) []Outcome {
	f := fv.(*Func)
	switch {
	case f.Recv != nil:
		i, ok := st.force(f.Recv).(*Iface)
		if !ok {
			unsup("invoke on %s", valStr(f.Recv))
		}
		if i.T != nil {
			m := r.E.method(i.T, f.Meth)
			if m == nil {
				unsup("method %s of %s", f.Meth.Name(), i.T)
			}
			return r.callFn(fr, st, m, append([]Value{i.V}, args...), nil, pos, defPan)
		}
		return r.opaqueMethod(fr, st, i, f.Meth, args, pos)
	case f.Fn != nil:
		return r.callFn(fr, st, f.Fn, args, f.Free, pos, defPan)
	case f.Nat != "":
		return r.opaqueFunc(fr, st, f, args, pos)
	case f.Bltn != nil && f.Bltn.Name() == "recover":
		return []Outcome{{st: st, ret: r.recover(fr, st)}}
	}
	unsup("call of function value %s", valStr(fv))
	return nil
}

func ret(st *State, v Value) []Outcome { return []Outcome{{st: st, ret: v}} }

func (r *Run) callFn(fr *frame, st *State, fn *ssa.Function, args []Value, free []Value, pos token.Pos, defPan bool) []Outcome {
	r.budget()
	name := fnName(fn)
	if fn.Name() == "init" && fn.Synthetic != "" && fn.Signature.Recv() == nil && (len(fn.Blocks) == 0 || !r.E.inRepo(fn) || strings.HasPrefix(name, gvPath)) {
		return ret(st, Tuple{}) // initialisation of an imported package (see initPackages)
	}
	if strings.HasPrefix(name, gvPath+".") && fn.Parent() == nil {
		base := strings.TrimPrefix(name, gvPath+".")
		h, ok := intrinsics[base]
		if !ok {
			unsup("unknown intrinsic %s", name)
		}
		return h(fr, st, fn, args, pos)
	}
	// a package's own contract of a function of another package goes before the built-in one; it counts
	// for calls from that package only
	if m := r.E.models[name]; m != nil && fr != nil && fr.fn.Pkg != nil && fr.fn.Pkg == m.Pkg && fr.fn != m {
		r.Natives["model:"+name] = true
		return r.callFn(fr, st, m, args, nil, pos, defPan)
	}
	if h, ok := natives[name]; ok {
		if fr == nil || !fr.ghost {
			r.Natives[name] = true
		}
		if o := h(fr, st, args, pos); o != nil {
			return o
		}
	}
	if r.E.isGhost(fn) && r.opaque[fn] {
		return ret(st, r.opaqueSpec(st, fn, args))
	}
	if fn.Parent() == nil && strings.HasPrefix(fn.Name(), "gv") && r.E.isGhost(fn) {
		if v, ok := r.specCall(st, fn, args); ok {
			return ret(st, v)
		}
	}
	if c := r.E.Contract(fn); c != nil && !r.isEntry(st, fn) && !r.noUse[fn] {
		return r.useContract(fr, st, fn, c, args, pos)
	}
	if st.gh != nil && st.gh.inCall && r.isEntry(st, fn) {
		g := *st.gh
		g.entered = true
		st.gh = &g
	}
	if len(fn.Blocks) == 0 {
		r.E.build(fn)
	}
	if len(fn.Blocks) == 0 {
		unsup("no body and no model for %s", name)
	}
	if !r.E.inRepo(fn) && !r.E.isGhost(fn) {
		if !r.E.inlineOK(fn) {
			unsup("no model for external function %s", name)
		}
		r.Natives["source:"+name] = true
	}
	return r.execFunc(fr, st, fn, args, free, pos, defPan)
}

// isEntry: the call under verification itself (its body is what is being checked).
func (r *Run) isEntry(st *State, fn *ssa.Function) bool {
	return st.gh != nil && st.gh.mode == modeCheck && st.gh.inCall && !st.gh.entered && fn == r.Target
}

func (r *Run) recover(fr *frame, st *State) Value {
	p := st.pan
	if p == nil || p.recovered || fr == nil || !fr.defPan {
		return &Iface{Nil: r.C.True}
	}
	st.pan = &panRec{val: p.val, what: p.what, recovered: true, parent: p.parent}
	if i, ok := p.val.(*Iface); ok {
		return i
	}
	return &Iface{Nil: r.C.False, Opq: "err:panic"}
}

func (fr *frame) builtin(it *item, name string, args []Value, c *ssa.CallCommon, res ssa.Value, pos token.Pos) ([]*item, bool) {
	r, st, C := fr.r, it.st, fr.r.C
	set := func(v Value) ([]*item, bool) {
		if res != nil {
			it.env[res] = v
		}
		return nil, false
	}
	for i := range args {
		args[i] = st.force(args[i])
	}
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case *Slice:
			if name == "len" {
				return set(st.conc(x.Len))
			}
			return set(x.Cap)
		case *Str:
			return set(st.conc(x.Len))
		case *Arr:
			return set(x.Len)
		case *Ptr:
			if at, ok := under(c.Args[0].Type()).(*types.Pointer); ok {
				return set(r.bv(at.Elem().Underlying().(*types.Array).Len()))
			}
			if x.IsNil() {
				return set(r.bv(0))
			}
			if m, ok := st.objVal(x.Obj).(*MapV); ok {
				return set(r.bv(int64(len(m.Keys))))
			}
		}
		unsup("%s of %s", name, valStr(args[0]))
	case "append":
		return fr.append(it, args, c, res, pos)
	case "copy":
		d := args[0].(*Slice)
		var sc *Content
		var so, sn *term.T
		switch s := args[1].(type) {
		case *Slice:
			if s.Obj == nil {
				return set(r.bv(0))
			}
			sc, so, sn = st.backing(s).C, s.Off, s.Len
		case *Str:
			sc, so, sn = s.C, s.Off, s.Len
		}
		if d.Obj == nil {
			return set(r.bv(0))
		}
		dl, sl := st.conc(d.Len), st.conc(sn)
		var n *term.T
		switch st.quick(C.Ule(sl, dl)) {
		case 1:
			n = sl
		case -1:
			n = dl
		default:
			n = C.Ite(C.Ule(sl, dl), sl, dl)
		}
		st.writeRange(d, r.bv(0), n, sc, so)
		return set(n)
	case "recover":
		return set(r.recover(fr, st))
	case "ssa:wrapnilchk":
		return set(args[0])
	case "print", "println":
		return set(nil)
	case "min", "max":
		v := args[0].(*term.T)
		_, sg, ok := sortOf(c.Args[0].Type())
		if !ok {
			unsup("min/max")
		}
		for _, a := range args[1:] {
			b := a.(*term.T)
			var lt *term.T
			if sg {
				lt = C.Slt(b, v)
			} else {
				lt = C.Ult(b, v)
			}
			if name == "max" {
				if sg {
					lt = C.Slt(v, b)
				} else {
					lt = C.Ult(v, b)
				}
			}
			v = C.Ite(lt, b, v)
		}
		return set(v)
	case "delete":
		p := args[0].(*Ptr)
		if p.IsNil() {
			return set(nil)
		}
		m := st.objVal(p.Obj).(*MapV)
		n := &MapV{T: m.T}
		for k := range m.Keys {
			switch st.quick(st.eq(args[1], m.Keys[k], m.T.Key())) {
			case 1:
			case -1:
				n.Keys = append(n.Keys, m.Keys[k])
				n.Vals = append(n.Vals, m.Vals[k])
			default:
				unsup("delete with undecided key")
			}
		}
		st.heap[p.Obj] = n
		return set(nil)
	case "clear":
		s, ok := args[0].(*Slice)
		if !ok {
			unsup("clear")
		}
		if s.Obj != nil {
			a := st.backing(s)
			st.writeRange(s, r.bv(0), s.Len, r.zeroC(a.Elem), r.bv(0))
		}
		return set(nil)
	}
	unsup("builtin %s", name)
	return nil, false
}

// writeRange overwrites s[at:at+n] with src[so:].
func (st *State) writeRange(s *Slice, at, n *term.T, src *Content, so *term.T) {
	if s.Obj == nil {
		return
	}
	n = st.conc(n)
	if n.IsConst() && n.U == 0 {
		return
	}
	a := st.backing(s)
	c := st.r.copyC(st, a.C, st.r.C.Add(s.Off, at), n, src, so)
	st.storeAt(s.Obj, s.Path, &Arr{C: c, Len: a.Len, Elem: a.Elem})
}

func (fr *frame) append(it *item, args []Value, c *ssa.CallCommon, res ssa.Value, pos token.Pos) ([]*item, bool) {
	r, st, C := fr.r, it.st, fr.r.C
	a := args[0].(*Slice)
	elem := under(c.Args[0].Type()).(*types.Slice).Elem()
	var sc *Content
	var so, sn *term.T
	switch s := args[1].(type) {
	case *Slice:
		sn = st.conc(s.Len)
		if s.Obj != nil {
			sc, so = st.backing(s).C, s.Off
		} else {
			sc, so, sn = r.zeroC(elem), r.bv(0), r.bv(0)
		}
	case *Str:
		sc, so, sn = s.C, s.Off, st.conc(s.Len)
	}
	set := func(n *item, v Value) *item {
		n.env[res] = v
		return n
	}
	if sn.IsConst() && sn.U == 0 {
		return []*item{set(it, a)}, true
	}
	if a.Obj == nil && !sn.IsConst() {
		z := C.Eq(sn, r.bv(0))
		switch st.quick(z) {
		case 1:
			return []*item{set(it, a)}, true
		case 0:
			// nil result for empty data; an allocated slice otherwise
			e := it.clone()
			e.st.assume(z)
			set(e, a)
			st.assume(C.Not(z))
			its, _ := fr.appendTo(it, a, elem, sc, so, sn, set)
			return append([]*item{e}, its...), true
		}
	}
	return fr.appendTo(it, a, elem, sc, so, sn, set)
}

func (fr *frame) appendTo(it *item, a *Slice, elem types.Type, sc *Content, so, sn *term.T, set func(*item, Value) *item) ([]*item, bool) {
	r, st, C := fr.r, it.st, fr.r.C
	al := st.conc(a.Len)
	nl := C.Add(al, sn)
	fits := C.Ule(nl, a.Cap)
	if a.Obj == nil {
		fits = C.False
	}
	q := int8(0)
	if !(r.noCut["fewcands"] && a.Obj != nil && a.Obj.grown && !a.Obj.Input && len(a.Path) == 0) {
		q = st.quick(fits)
	}
	inplace := func(n *item) *item {
		n.st.writeRange(a, al, sn, sc, so)
		return set(n, &Slice{Obj: a.Obj, Path: a.Path, Off: a.Off, Len: nl, Cap: a.Cap, Nil: C.And(a.Nil, C.Eq(sn, r.bv(0)))})
	}
	realloc := func(n *item) *item {
		var oc *Content
		if a.Obj != nil {
			oc = n.st.backing(a).C
		}
		cp := C.Var(r.uniq("cap"), term.BVS(64))
		C.Bound[cp] = [2]uint64{0, maxLen}
		r.axm[cp] = []*term.T{C.Ule(nl, cp)}
		n.st.assume(C.Ule(nl, cp))
		base := r.zeroContent(elem, nl)
		if oc != nil {
			base = r.copyC(n.st, base, r.bv(0), al, oc, a.Off)
		}
		base = r.copyC(n.st, base, al, sn, sc, so)
		s := n.st.newSlice("append", base, nl, cp, elem)
		s.Obj.Ghost = fr.ghost
		s.Obj.grown = true
		return set(n, s)
	}
	switch q {
	case 1:
		return []*item{inplace(it)}, true
	case -1:
		return []*item{realloc(it)}, true
	}
	if fr.ghost || a.Obj.grown && !a.Obj.Input && len(a.Path) == 0 && !r.noCut["notaint"] {
		// The spare capacity of a slice that append itself allocated is unknown: the result is
		// represented by a new object; the old one becomes inaccessible (any later access through
		// it is reported as unsupported), so aliasing between the two is never misjudged.
		if !fr.ghost {
			n := realloc(it)
			n.st.heap[a.Obj] = &Tainted{}
			return []*item{n}, true
		}
		return []*item{realloc(it)}, true
	}
	e := it.clone()
	e.st.assume(C.Not(fits))
	st.assume(fits)
	return []*item{inplace(it), realloc(e)}, true
}

// Tainted marks an object that must not be accessed any more.
type Tainted struct{}

func (r *Run) opaqueFunc(fr *frame, st *State, f *Func, args []Value, pos token.Pos) []Outcome {
	if h, ok := nativeClosures[strings.SplitN(f.Nat, ":", 2)[0]]; ok {
		return h(fr, st, f, args, pos)
	}
	unsup("call of opaque function %s", f.Nat)
	return nil
}

func (r *Run) opaqueMethod(fr *frame, st *State, i *Iface, m *types.Func, args []Value, pos token.Pos) []Outcome {
	name := m.Name()
	if name == "Error" || name == "String" {
		nm := "errstr:" + i.Opq
		l := r.C.Var(nm+".len", term.BVS(64))
		r.C.Bound[l] = [2]uint64{0, 4096}
		return ret(st, &Str{C: r.baseC(nm, types.Typ[types.Byte]), Off: r.bv(0), Len: l})
	}
	if h, ok := opaqueMethods[name]; ok {
		if o := h(fr, st, i, args, pos); o != nil {
			return o
		}
	}
	unsup("method %s of opaque value %s", name, i.Opq)
	return nil
}

// evalGhost evaluates a ghost closure as a pure expression.
func (r *Run) evalGhost(st *State, f Value, args ...Value) Value {
	s := st.clone()
	base := s.pc
	r.quiet++
	outs := r.callValue(&frame{r: r, ghost: true, fn: f.(*Func).Fn}, s, f, args, token.NoPos, false)
	r.quiet--
	var v Value
	first := true
	for _, o := range outs {
		if o.pan != nil {
			continue
		}
		if first {
			v, first = o.ret, false
			continue
		}
		_, da, _ := pcDiff(o.st.pc, base)
		v = st.mustMerge(r.C.And(da...), o.ret, v)
	}
	if first {
		unsup("ghost expression has no value")
	}
	return v
}

type specRes struct {
	v  Value
	ok bool
}

// specCall evaluates a specification function (name gv…, scalar or array result) once per argument
// tuple, independently of the current path.
func (r *Run) specCall(st *State, fn *ssa.Function, args []Value) (Value, bool) {
	if r.noMemo[fn] {
		return nil, false
	}
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		switch under(res.At(i).Type()).(type) {
		case *types.Basic, *types.Array:
		default:
			r.noMemo[fn] = true
			return nil, false
		}
	}
	if len(args) == 0 {
		return nil, false
	}
	s := &State{r: r, heap: map[*Obj]Value{}, eqs: map[*term.T]*term.T{}, gh: &ghostCtx{mode: modeCheck, name: fn.Name()}}
	key := fn.Name()
	nargs := make([]Value, len(args))
	for i, a := range args {
		switch x := st.force(a).(type) {
		case *term.T:
			x = st.conc(x)
			nargs[i] = x
			key += fmt.Sprintf(",%d", x.ID)
		case *Arr, *Slice:
			var c *Content
			var off *term.T
			var n uint64
			var el types.Type
			if y, ok := x.(*Arr); ok {
				if !y.Len.IsConst() {
					return nil, false
				}
				c, off, n, el = y.C, r.bv(0), y.Len.U, y.Elem
			} else {
				y := x.(*Slice)
				ln := st.conc(y.Len)
				if !ln.IsConst() {
					return nil, false
				}
				if n = ln.U; n == 0 {
					return nil, false
				}
				b := st.backing(y)
				c, off, el = b.C, y.Off, b.Elem
			}
			if _, _, ok := sortOf(el); !ok || n > 256 {
				return nil, false
			}
			vec := make([]Value, n)
			key += fmt.Sprintf(",#%d", n)
			for k := range vec {
				t := st.conc(st.read(c, r.C.Add(off, r.bv(int64(k)))).(*term.T))
				vec[k] = t
				key += fmt.Sprintf(",%d", t.ID)
			}
			if _, ok := x.(*Arr); ok {
				nargs[i] = &Arr{C: r.vecC(el, vec), Len: r.bv(int64(n)), Elem: el}
			} else {
				l := r.bv(int64(n))
				sl := s.newSlice("spec", r.vecC(el, vec), l, l, el)
				sl.Obj.Ghost = true
				nargs[i] = sl
			}
		default:
			return nil, false
		}
	}
	if m, ok := r.specMemo[key]; ok {
		return m.v, m.ok
	}
	r.quiet++
	outs := r.execFunc(&frame{r: r, ghost: true, fn: fn}, s, fn, nargs, nil, token.NoPos, false)
	r.quiet--
	m := specRes{}
	if len(outs) == 1 && outs[0].pan == nil && (outs[0].st.pc == nil || len(outs[0].st.pcList()) == 0) {
		m = specRes{outs[0].ret, true}
	}
	r.specMemo[key] = m
	return m.v, m.ok
}

// opaqueSpec applies a spec function as an uninterpreted symbol.
func (r *Run) opaqueSpec(st *State, fn *ssa.Function, args []Value) Value {
	var ts []*term.T
	for _, a := range args {
		ts = r.flatten(st, ts, a)
	}
	return r.ufResult(fn.Name(), fn.Signature.Results(), ts)
}

func (r *Run) ufResult(name string, res *types.Tuple, ts []*term.T) Value {
	if res.Len() == 1 {
		return r.ufVal(name, res.At(0).Type(), ts)
	}
	tp := make(Tuple, res.Len())
	for i := range tp {
		tp[i] = r.ufVal(fmt.Sprintf("%s.%d", name, i), res.At(i).Type(), ts)
	}
	return tp
}

func (r *Run) ufVal(name string, t types.Type, ts []*term.T) Value {
	if s, _, ok := sortOf(t); ok {
		return r.C.App(name, s, ts...)
	}
	switch u := under(t).(type) {
	case *types.Array:
		v := make([]Value, u.Len())
		for i := range v {
			v[i] = r.ufVal(fmt.Sprintf("%s.%d", name, i), u.Elem(), ts)
		}
		return &Arr{C: r.vecC(u.Elem(), v), Len: r.bv(u.Len()), Elem: u.Elem()}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = r.ufVal(name+"."+u.Field(i).Name(), u.Field(i).Type(), ts)
		}
		return &Struct{F: f, T: t}
	}
	unsup("uninterpreted result of type %s", t)
	return nil
}

// flatten turns a value into the list of scalar terms it consists of (bytes are packed into words).
func (r *Run) flatten(st *State, ts []*term.T, v Value) []*term.T {
	C := r.C
	switch x := st.force(v).(type) {
	case *term.T:
		return append(ts, x)
	case *Arr:
		if !x.Len.IsConst() {
			unsup("flatten array of symbolic length")
		}
		return r.flattenSeq(st, ts, x.C, r.bv(0), x.Len.U, x.Elem)
	case *Slice:
		n := st.conc(x.Len)
		if !n.IsConst() {
			// a part of contents nothing has been stored into: which contents, from where, how many
			if x.Obj != nil {
				if a := st.backing(x); a.C.k == cBase {
					return append(ts, r.bv(1<<40+int64(a.C.id)), x.Off, x.Len)
				}
			}
			unsup("flatten slice of symbolic length")
		}
		if n.U == 0 {
			return append(ts, r.bv(0))
		}
		a := st.backing(x)
		return r.flattenSeq(st, append(ts, n), a.C, x.Off, n.U, a.Elem)
	case *Struct:
		for _, f := range x.F {
			ts = r.flatten(st, ts, f)
		}
		return ts
	case *Ptr:
		if isBigPtr(st, x) {
			return append(ts, st.loadPtr(x).(*term.T))
		}
	case *Iface:
		if x.T != nil {
			return r.flatten(st, ts, x.V)
		}
	case *Str:
		n := st.conc(x.Len)
		if n.IsConst() {
			return r.flattenSeq(st, append(ts, n), x.C, x.Off, n.U, types.Typ[types.Byte])
		}
	}
	_ = C
	unsup("flatten %s", valStr(v))
	return nil
}

func isBigPtr(st *State, p *Ptr) bool {
	if p.IsNil() {
		return false
	}
	t, ok := st.loadPtr(p).(*term.T)
	return ok && t.S.K == term.Int
}

func (r *Run) flattenSeq(st *State, ts []*term.T, c *Content, off *term.T, n uint64, elem types.Type) []*term.T {
	s, _, ok := sortOf(elem)
	if ok && s.K == term.BV && s.W == 8 {
		for i := uint64(0); i < n; i += 8 {
			var ps []*term.T
			for k := i; k < i+8 && k < n; k++ {
				ps = append(ps, st.read(c, r.C.Add(off, r.bv(int64(k)))).(*term.T))
			}
			ts = append(ts, r.C.Concat(ps...))
		}
		return ts
	}
	for i := uint64(0); i < n; i++ {
		ts = r.flatten(st, ts, st.read(c, r.C.Add(off, r.bv(int64(i)))))
	}
	return ts
}
