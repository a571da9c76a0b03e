package sym

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"verif/engine/term"

	"golang.org/x/tools/go/ssa"
)

// invCollector receives the clauses of a loop template.
type invCollector interface {
	pred(st *State, c *term.T)
	is(st *State, s *Slice, lo, hi *term.T, f Value)
}

const maxConcreteTrips = 1300

func (fr *frame) execLoop(l *Loop, items []*item) []*item {
	r := fr.r
	key := fmt.Sprintf("%s#%s#%d", fr.site, fnName(fr.fn), l.idx)
	var exits []*item
	for _, it := range items {
		if r.mustCut[key] < 2 && (r.unroll > 0 || r.E.isGhost(fr.fn)) {
			ex, ok := fr.trial(l, it, key)
			if ok {
				exits = append(exits, ex...)
				continue
			}
			r.mustCut[key]++
		}
		exits = append(exits, fr.cutLoop(l, it, key)...)
	}
	return exits
}

func (fr *frame) trial(l *Loop, it *item, key string) ([]*item, bool) {
	r := fr.r
	nObl, nOut := len(r.Obls), len(fr.outs)
	var exits []*item
	cur := []*item{it.clone()}
	und := 0
	guarded := false
	if f, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); ok {
		_ = f
		guarded = !l.blocks[l.header.Succs[0]] || !l.blocks[l.header.Succs[1]]
	}
	for iter := 0; iter < maxConcreteTrips; iter++ {
		hu, tk := map[*ssa.BasicBlock]bool{}, map[*ssa.BasicBlock]int{}
		hu0, tk0 := fr.hdrUnd, fr.took
		fr.hdrUnd, fr.took = hu, tk
		outs0 := len(fr.outs)
		ex, backs := fr.execRegion(l, cur)
		fr.hdrUnd, fr.took = hu0, tk0
		exits = append(exits, ex...)
		if len(backs) == 0 {
			return fr.mergeByBlock(exits), true
		}
		if guarded {
			if hu[l.header] || tk[l.header] == 3 {
				und++
			}
		} else if len(ex) > 0 || len(fr.outs) > outs0 {
			und++
		}
		if und > r.unroll {
			break
		}
		cur = fr.mergeItems(backs)
		if len(cur) > 64 {
			break
		}
	}
	r.Obls = r.Obls[:nObl]
	fr.outs = fr.outs[:nOut]
	return nil, false
}

func (fr *frame) mergeByBlock(its []*item) []*item {
	by := map[*ssa.BasicBlock][]*item{}
	var order []*ssa.BasicBlock
	for _, i := range its {
		if by[i.b] == nil {
			order = append(order, i.b)
		}
		by[i.b] = append(by[i.b], i)
	}
	var res []*item
	for _, b := range order {
		res = append(res, fr.mergeItems(by[b])...)
	}
	return res
}

// cut holds the abstraction of one loop.
type cut struct {
	fr    *frame
	r     *Run
	l     *Loop
	key   string
	phis  []*ssa.Phi
	entry *item
	H     *item
	vars  map[*term.T]bool // loop variables
	conts map[*Content]bool
	lobjs map[*Obj]bool // loop objects
	from  map[*Obj]*Obj // loop object -> the object it was generalised from (unusable since)
	ros   map[*Obj]bool // arbitrary read-only memory
	nv    int
	M     *term.T
	taint []*Obj
	atoms map[*term.T]bool // branch conditions seen in the body
}

func (c *cut) fresh(s term.Sort, hint string) *term.T {
	c.nv++
	v := c.r.C.Var(c.r.uniq(fmt.Sprintf("L%d.%s", c.l.idx, hint)), s)
	c.vars[v] = true
	return v
}

func (c *cut) freshC(elem types.Type, hint string) *Content {
	x := c.r.baseC(c.r.uniq(fmt.Sprintf("L%d.%s", c.l.idx, hint)), elem)
	c.conts[x] = true
	return x
}

// widen generalises header value h so that it also covers b.
func (c *cut) widen(h, b Value, hint string, bst *State) Value {
	C := c.r.C
	if same(h, b) {
		return h
	}
	if _, ok := b.(*Lazy); ok {
		b = bst.force(b)
		if same(h, b) {
			return h
		}
	}
	switch x := h.(type) {
	case *term.T:
		if c.vars[x] {
			return h
		}
		y, ok := b.(*term.T)
		if !ok || y.S != x.S {
			break
		}
		return c.fresh(x.S, hint)
	case *Lazy:
		return c.widen(c.H.st.force(h), bst.force(b), hint, bst)
	case *Tainted:
		return h
	case *Slice:
		y, ok := b.(*Slice)
		if !ok {
			break
		}
		if _, t := b.(*Tainted); t {
			break
		}
		wt := func(a, b *term.T, n string) *term.T {
			if a == b || c.vars[a] {
				return a
			}
			return c.fresh(a.S, hint+n)
		}
		if x.Obj == y.Obj && samePath(x.Path, y.Path) {
			return &Slice{Obj: x.Obj, Path: x.Path, Off: wt(x.Off, y.Off, ".off"), Len: wt(x.Len, y.Len, ".len"), Cap: wt(x.Cap, y.Cap, ".cap"), Nil: wt(x.Nil, y.Nil, ".nil")}
		}
		if x.Obj != nil && c.lobjs[x.Obj] {
			if y.Obj == nil || !y.Obj.Input && c.isNew(y.Obj) || c.from[x.Obj] == y.Obj {
				return &Slice{Obj: x.Obj, Path: x.Path, Off: x.Off, Len: wt(x.Len, y.Len, ".len"), Cap: wt(x.Cap, y.Cap, ".cap"), Nil: wt(x.Nil, y.Nil, ".nil")}
			}
			break
		}
		if x.Obj != nil && y.Obj != nil && x.Obj != y.Obj && c.pristine(c.H.st, x.Obj) && c.pristine(bst, y.Obj) {
			// different memory that was never written: some memory that may only be read
			if c.ros[x.Obj] {
				return &Slice{Obj: x.Obj, Path: x.Path, Off: x.Off, Len: x.Len, Cap: x.Cap, Nil: x.Nil}
			}
			elem := c.H.st.backing(x).Elem
			n := c.r.symVal(types.NewSlice(elem), c.r.uniq(fmt.Sprintf("L%d.%s", c.l.idx, hint)), nil).(*Slice)
			n.Obj.RO = true
			if c.ros == nil {
				c.ros = map[*Obj]bool{}
			}
			c.ros[n.Obj] = true
			c.vars[n.Len], c.vars[n.Cap], c.vars[n.Nil] = true, true, true
			off := c.fresh(term.BVS(64), hint+".off")
			C.Bound[off] = [2]uint64{0, maxLen}
			n.Off = off
			return n
		}
		if (x.Obj == nil || !x.Obj.Input) && (y.Obj == nil || !y.Obj.Input) {
			// reallocated in the loop
			if y.Obj != nil && !c.isNew(y.Obj) && x.Obj != nil {
				break
			}
			var elem types.Type
			if x.Obj != nil {
				elem = c.H.st.backing(x).Elem
			} else {
				elem = bst.backing(y).Elem
			}
			lo := c.r.newObj("loopobj", types.NewSlice(elem))
			c.lobjs[lo] = true
			lo.grown = true
			cp := c.fresh(term.BVS(64), hint+".cap")
			ln := c.fresh(term.BVS(64), hint+".len")
			C.Bound[cp] = [2]uint64{0, maxLen}
			C.Bound[ln] = [2]uint64{0, maxLen}
			c.r.axm[cp] = []*term.T{C.Ule(ln, cp)}
			c.r.axm[ln] = []*term.T{C.Ule(ln, cp)}
			c.H.st.heap[lo] = &Arr{C: c.freshC(elem, hint), Len: cp, Elem: elem}
			if x.Obj != nil {
				// x.Obj stays unusable from here on, so that a second path of the same iteration
				// may still carry it: nobody reads it through another name
				if c.from == nil {
					c.from = map[*Obj]*Obj{}
				}
				c.from[lo] = x.Obj
				c.H.st.heap[x.Obj] = &Tainted{}
				c.taint = append(c.taint, x.Obj)
			}
			return &Slice{Obj: lo, Off: c.r.bv(0), Len: ln, Cap: cp, Nil: c.fresh(term.BoolS, hint+".nil")}
		}
	case *Str:
		y, ok := b.(*Str)
		if !ok {
			break
		}
		n := &Str{C: x.C, Off: x.Off, Len: x.Len}
		if !sameC(x.C, y.C) {
			if c.conts[x.C] {
				n.Off = c.r.bv(0)
			} else {
				n.C = c.freshC(types.Typ[types.Byte], hint)
				n.Off = c.r.bv(0)
			}
		} else if x.Off != y.Off && !c.vars[x.Off] {
			n.Off = c.fresh(x.Off.S, hint+".off")
		}
		if x.Len != y.Len && !c.vars[x.Len] {
			n.Len = c.fresh(x.Len.S, hint+".len")
			C.Bound[n.Len] = [2]uint64{0, maxLen}
		}
		return n
	case *Struct:
		y, ok := b.(*Struct)
		if !ok || len(y.F) != len(x.F) {
			break
		}
		f := make([]Value, len(x.F))
		su, _ := under(x.T).(*types.Struct)
		for i := range f {
			nm := fmt.Sprint(i)
			if su != nil {
				nm = su.Field(i).Name()
			}
			f[i] = c.widen(x.F[i], y.F[i], hint+"."+nm, bst)
		}
		return &Struct{F: f, T: x.T}
	case *Arr:
		y, ok := b.(*Arr)
		if !ok {
			break
		}
		if c.conts[x.C] {
			return h
		}
		if sameC(x.C, y.C) {
			return h
		}
		if x.C.k == cVec && y.C.k == cVec && len(x.C.vec) == len(y.C.vec) && len(x.C.vec) <= 300 && x.Len.IsConst() && len(x.C.vec) <= 128 {
			nv := make([]Value, len(x.C.vec))
			for i := range nv {
				nv[i] = c.widen(x.C.vec[i], y.C.vec[i], fmt.Sprintf("%s[%d]", hint, i), bst)
			}
			return &Arr{C: c.r.vecC(x.Elem, nv), Len: x.Len, Elem: x.Elem}
		}
		if x.Len.IsConst() && x.Len.U <= 128 && x.C.k == cVec {
			// symbolic store into a small array: every element becomes a loop variable
			if s, _, ok := sortOf(x.Elem); ok {
				nv := make([]Value, len(x.C.vec))
				for i := range nv {
					if t, ok := x.C.vec[i].(*term.T); ok && c.vars[t] {
						nv[i] = t
					} else {
						nv[i] = c.fresh(s, fmt.Sprintf("%s[%d]", hint, i))
					}
				}
				allv := true
				for i := range nv {
					if nv[i] != x.C.vec[i] {
						allv = false
					}
				}
				if allv {
					return h
				}
				return &Arr{C: c.r.vecC(x.Elem, nv), Len: x.Len, Elem: x.Elem}
			}
		}
		return &Arr{C: c.freshC(x.Elem, hint), Len: x.Len, Elem: x.Elem}
	case *Iface:
		y, ok := b.(*Iface)
		if !ok {
			break
		}
		if strings.HasPrefix(x.Opq, "err:loop:") && y.T == nil {
			if c.vars[x.Nil] || x.Nil == y.Nil {
				return h
			}
		}
		if x.T == nil && y.T == nil && (x.Opq == "" || isErrOpq(x.Opq)) && (y.Opq == "" || isErrOpq(y.Opq)) {
			return &Iface{Nil: c.fresh(term.BoolS, hint+".nil"), Opq: "err:loop:" + c.r.uniq(hint)}
		}
	case *Ptr:
		y, ok := b.(*Ptr)
		if ok && x.Obj == y.Obj && len(x.Path) == len(y.Path) {
			np := make([]Step, len(x.Path))
			okk := true
			for i := range np {
				np[i] = x.Path[i]
				q := y.Path[i]
				if (np[i].Idx == nil) != (q.Idx == nil) || np[i].F != q.F {
					okk = false
					break
				}
				if np[i].Idx != nil && np[i].Idx != q.Idx && !c.vars[np[i].Idx] {
					np[i].Idx = c.fresh(np[i].Idx.S, hint+".idx")
				}
			}
			if okk {
				return &Ptr{Obj: x.Obj, Path: np}
			}
		}
		if ok {
			// different objects: the header value may not be used
			return &Tainted{}
		}
	case *HashV:
		if len(x.Segs) == 1 && x.Segs[0].C != nil && c.conts[x.Segs[0].C] {
			return h
		}
		if _, ok := b.(*HashV); ok {
			l := c.fresh(term.BVS(64), hint+".absorbed")
			C.Bound[l] = [2]uint64{0, maxLen}
			return &HashV{Segs: []Seg{{C: c.freshC(byteT, hint+".absorbed"), Off: c.r.bv(0), Len: l}}}
		}
	}
	switch h.(type) {
	case *Slice, *Iface, *Ptr:
		// unrelated memory: the header value may not be used
		return &Tainted{}
	}
	unsup("cannot generalise %s over loop iterations: %s vs %s", hint, trunc(valStr(h), 120), trunc(valStr(b), 120))
	return nil
}

// pristine: an arbitrary object that has not been written to.
func (c *cut) pristine(st *State, o *Obj) bool {
	if !o.Input || c.r.lazyObj[o.Name] != o {
		return false
	}
	v, ok := st.heap[o]
	return !ok || v == c.r.lazyVal[o.Name]
}

func (c *cut) isNew(o *Obj) bool {
	if _, ok := c.r.initHeap[o]; ok {
		return false
	}
	_, ok := c.entry.st.heap[o]
	return !ok && !o.Input && o.Glob == nil
}

// dry executes one iteration from the current header without recording anything.
func (c *cut) dry() (exits, backs []*item) {
	r, fr := c.r, c.fr
	nObl, nOut := len(r.Obls), len(fr.outs)
	r.quiet++
	saved := r.ifLog
	r.ifLog = c.atoms
	h := c.H.clone()
	exits, backs = fr.execRegion(c.l, []*item{h})
	r.ifLog = saved
	if saved != nil {
		for k := range c.atoms {
			saved[k] = true
		}
	}
	r.quiet--
	r.Obls = r.Obls[:nObl]
	fr.outs = fr.outs[:nOut]
	return
}

func (c *cut) phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func (c *cut) generalise() []*item {
	for round := 0; ; round++ {
		if round > 12 {
			unsup("loop generalisation does not converge in %s", c.fr.fn)
		}
		_, backs := c.dry()
		changed := false
		for _, b := range backs {
			for _, p := range c.phis {
				w := c.widen(c.H.env[p], b.env[p], c.phiName(p), b.st)
				if !same(w, c.H.env[p]) {
					c.H.env[p] = w
					changed = true
				}
			}
			var objs []*Obj
			for o := range b.st.heap {
				objs = append(objs, o)
			}
			sort.Slice(objs, func(i, j int) bool { return objs[i].ID < objs[j].ID })
			for _, o := range objs {
				bv := b.st.heap[o]
				hv, ok := c.H.st.heap[o]
				if !ok {
					if c.isNew(o) {
						continue // allocated in the iteration
					}
					hv = c.H.st.objVal(o)
				}
				if c.lobjs[o] {
					continue // arbitrary content already
				}
				if _, t := bv.(*Tainted); t {
					if _, t2 := hv.(*Tainted); !t2 {
						c.H.st.heap[o] = bv
						changed = true
					}
					continue
				}
				w := c.widen(hv, bv, o.Name, b.st)
				if !same(w, hv) {
					c.H.st.heap[o] = w
					changed = true
				}
			}
			c.checkAlias(b)
		}
		if !changed {
			return backs
		}
	}
}

// checkAlias: a newly allocated object may be held by one position only.
func (c *cut) checkAlias(b *item) {
	cnt := map[*Obj]int{}
	var walk func(h, v Value)
	walk = func(h, v Value) {
		if _, ok := h.(*Tainted); ok {
			return // not usable in the next iteration
		}
		switch x := v.(type) {
		case *Slice:
			if x.Obj != nil && c.isNew(x.Obj) && !c.lobjs[x.Obj] {
				cnt[x.Obj]++
			}
		case *Ptr:
			if x.Obj != nil && c.isNew(x.Obj) && !c.lobjs[x.Obj] {
				cnt[x.Obj] += 2
			}
		case *Struct:
			hs, _ := h.(*Struct)
			for i, f := range x.F {
				var hf Value
				if hs != nil && len(hs.F) == len(x.F) {
					hf = hs.F[i]
				}
				walk(hf, f)
			}
		}
	}
	for _, p := range c.phis {
		walk(c.H.env[p], b.env[p])
	}
	for o, v := range b.st.heap {
		if !c.isNew(o) {
			walk(c.H.st.heap[o], v)
		}
	}
	for o, n := range cnt {
		if n > 1 {
			unsup("object %s allocated in a loop escapes through several references", o)
		}
	}
}

// positions of loop variables
type posVal struct {
	v  *term.T // header term (a loop variable)
	el bool    // an array element
	at func(it *item) *term.T
}

func (c *cut) collect(hv Value, get func(it *item) Value, out *[]posVal) {
	switch x := hv.(type) {
	case *term.T:
		if c.vars[x] {
			*out = append(*out, posVal{v: x, at: func(it *item) *term.T {
				v := it.st.force(get(it))
				t, ok := v.(*term.T)
				if !ok {
					unsup("loop position")
				}
				return t
			}})
		}
	case *Struct:
		for i := range x.F {
			i := i
			c.collect(x.F[i], func(it *item) Value { return it.st.force(it.st.force(get(it)).(*Struct).F[i]) }, out)
		}
	case *Arr:
		if x.C.k == cVec {
			n0 := len(*out)
			for i := range x.C.vec {
				i := i
				c.collect(x.C.vec[i], func(it *item) Value {
					return it.st.read(it.st.force(get(it)).(*Arr).C, c.r.bv(int64(i)))
				}, out)
			}
			for i := n0; i < len(*out); i++ {
				(*out)[i].el = true
			}
		}
	case *Slice:
		c.collect(x.Off, func(it *item) Value { return get(it).(*Slice).Off }, out)
		c.collect(x.Len, func(it *item) Value { return get(it).(*Slice).Len }, out)
		c.collect(x.Cap, func(it *item) Value { return get(it).(*Slice).Cap }, out)
		c.collect(x.Nil, func(it *item) Value { return get(it).(*Slice).Nil }, out)
	case *Str:
		c.collect(x.Off, func(it *item) Value { return get(it).(*Str).Off }, out)
		c.collect(x.Len, func(it *item) Value { return get(it).(*Str).Len }, out)
	case *Iface:
		c.collect(x.Nil, func(it *item) Value { return get(it).(*Iface).Nil }, out)
	case *Ptr:
		for i, p := range x.Path {
			if p.Idx != nil {
				i := i
				c.collect(p.Idx, func(it *item) Value { return get(it).(*Ptr).Path[i].Idx }, out)
			}
		}
	}
}

func (c *cut) positions() []posVal {
	var out []posVal
	for _, p := range c.phis {
		p := p
		c.collect(c.H.env[p], func(it *item) Value { return it.env[p] }, &out)
	}
	var objs []*Obj
	for o := range c.H.st.heap {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].ID < objs[j].ID })
	for _, o := range objs {
		o := o
		if c.lobjs[o] {
			continue
		}
		c.collect(c.H.st.heap[o], func(it *item) Value { return it.st.objVal(o) }, &out)
	}
	return out
}

// substV substitutes loop variables in a value.
func (c *cut) substV(v Value, m map[*term.T]*term.T, memo map[*term.T]*term.T) Value {
	S := func(t *term.T) *term.T { return c.r.C.Subst(t, m, memo) }
	switch x := v.(type) {
	case *term.T:
		return S(x)
	case *Struct:
		f := make([]Value, len(x.F))
		for i := range f {
			f[i] = c.substV(x.F[i], m, memo)
		}
		return &Struct{F: f, T: x.T}
	case *Arr:
		if x.C.k == cVec {
			nv := make([]Value, len(x.C.vec))
			ch := false
			for i := range nv {
				nv[i] = c.substV(x.C.vec[i], m, memo)
				if nv[i] != x.C.vec[i] {
					ch = true
				}
			}
			if ch {
				return &Arr{C: c.r.vecC(x.Elem, nv), Len: S(x.Len), Elem: x.Elem}
			}
		}
		return &Arr{C: x.C, Len: S(x.Len), Elem: x.Elem}
	case *Slice:
		return &Slice{Obj: x.Obj, Path: x.Path, Off: S(x.Off), Len: S(x.Len), Cap: S(x.Cap), Nil: S(x.Nil)}
	case *Str:
		return &Str{C: x.C, Off: S(x.Off), Len: S(x.Len)}
	case *Iface:
		return &Iface{Nil: S(x.Nil), T: x.T, V: x.V, Opq: x.Opq}
	case *Ptr:
		np := make([]Step, len(x.Path))
		for i := range np {
			np[i] = x.Path[i]
			if np[i].Idx != nil {
				np[i].Idx = S(np[i].Idx)
			}
		}
		return &Ptr{Obj: x.Obj, Path: np}
	}
	return v
}

func (c *cut) substH(m map[*term.T]*term.T) {
	memo := map[*term.T]*term.T{}
	for _, p := range c.phis {
		c.H.env[p] = c.substV(c.H.env[p], m, memo)
	}
	for o, v := range c.H.st.heap {
		nv := c.substV(v, m, memo)
		if !same(nv, v) {
			c.H.st.heap[o] = nv
		}
	}
}

// candidate invariants
type cand struct {
	name string
	t    *term.T // predicate over header vocabulary, or
	// template clause
	tpl   *boundTemplate
	idx   int
	alive bool
	mod   bool // about elements the loop writes
}

type boundTemplate struct {
	t    *loopTemplate
	bind []func(it *item) Value
	desc string
}

type clause struct {
	c      *term.T
	s      *Slice
	lo, hi *term.T
	f      Value
}

type clauseList struct{ l []clause }

func (k *clauseList) pred(st *State, c *term.T) { k.l = append(k.l, clause{c: c}) }
func (k *clauseList) is(st *State, s *Slice, lo, hi *term.T, f Value) {
	k.l = append(k.l, clause{s: s, lo: lo, hi: hi, f: f})
}

// clauses evaluates a bound template at an item. ok=false: the template does not apply.
func (c *cut) clauses(b *boundTemplate, it *item) (res []clause, st *State, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, u := e.(Unsupported); u {
				ok = false
				return
			}
			panic(e)
		}
	}()
	r := c.r
	var args []Value
	for _, f := range b.bind {
		args = append(args, f(it))
	}
	k := &clauseList{}
	saved, nm := r.inv, r.noCut["nomerge"]
	r.inv = k
	r.quiet++
	r.noCut["nomerge"] = false
	defer func() { r.noCut["nomerge"] = nm }()
	s := it.st.clone()
	outs := r.callValue(&frame{r: r, ghost: true, fn: b.t.f.Fn, caller: c.fr, depth: c.fr.depth, site: c.fr.site}, s, b.t.f, args, 0, false)
	r.quiet--
	r.inv = saved
	if len(outs) != 1 || outs[0].pan != nil {
		return nil, nil, false
	}
	return k.l, outs[0].st, true
}

// modified reports whether the elements of s change in the loop.
func (c *cut) modified(s *Slice) bool {
	if s.Obj == nil {
		return false
	}
	a := c.H.st.backing(s)
	if c.conts[a.C] || c.lobjs[s.Obj] {
		return true
	}
	if a.C.k == cVec {
		for _, v := range a.C.vec {
			if t, ok := v.(*term.T); ok && mentionsAny(t, c.vars, nil) {
				return true
			}
		}
	}
	return false
}

func (c *cut) loopPositions() map[*term.T]func(it *item) *term.T { return nil }

// importObjs makes the ghost objects a template evaluation allocated known to st.
func importObjs(st, from *State) {
	for o, v := range from.heap {
		if _, ok := st.heap[o]; !ok && !o.Input && o.Glob == nil {
			st.heap[o] = v
		}
	}
}

// cutLoop replaces the loop by an inductive invariant found by Houdini over candidates.
func (fr *frame) cutLoop(l *Loop, it *item, key string) []*item {
	r, C := fr.r, fr.r.C
	c := &cut{fr: fr, r: r, l: l, key: key, entry: it, vars: map[*term.T]bool{}, conts: map[*Content]bool{}, lobjs: map[*Obj]bool{}, atoms: map[*term.T]bool{}}
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		c.phis = append(c.phis, p)
	}
	c.H = it.clone()
	backs := c.generalise()

	// induction variables
	pos := c.positions()
	M := C.Fresh("M", term.BVS(64))
	C.Bound[M] = [2]uint64{0, 1 << 56}
	c.M = M
	sub := map[*term.T]*term.T{}
	for _, p := range pos {
		if p.v.S.K != term.BV {
			continue
		}
		x0 := p.at(it)
		var step *term.T
		ok := len(backs) > 0
		for _, b := range backs {
			d := C.Sub(p.at(b), p.v)
			if !d.IsConst() || step != nil && d != step {
				ok = false
				break
			}
			step = d
		}
		if !ok {
			continue
		}
		w := p.v.S.W
		m := M
		if w < 64 {
			m = C.Extract(w-1, 0, M)
		}
		sub[p.v] = C.Add(x0, C.MulK(m, step.U))
	}
	c.substH(sub)
	memo := map[*term.T]*term.T{}
	if len(sub) > 0 {
		na := map[*term.T]bool{}
		for a := range c.atoms {
			na[C.Subst(a, sub, memo)] = true
		}
		c.atoms = na
	}
	var free []posVal
	for _, p := range pos {
		if _, ok := sub[p.v]; !ok {
			free = append(free, p)
		}
	}
	at := func(b *item, first bool) map[*term.T]*term.T {
		m := map[*term.T]*term.T{}
		for _, p := range free {
			m[p.v] = p.at(b)
		}
		if first {
			m[M] = r.bv(0)
		} else {
			m[M] = C.Add(M, r.bv(1))
		}
		return m
	}

	// candidates
	var cands []*cand
	seen := map[*term.T]bool{}
	addT := func(n string, t *term.T) {
		if t.IsConst() || seen[t] {
			return
		}
		seen[t] = true
		cands = append(cands, &cand{name: n, t: t, alive: true})
	}
	mentions := func(t *term.T) bool { return mentionsAny(t, c.vars, M) }
	// with many loop variables, only those the control flow depends on get candidates
	var tested map[*term.T]bool
	if len(free) > 24 {
		tested = map[*term.T]bool{}
		seen := map[*term.T]bool{}
		var walk func(t *term.T)
		walk = func(t *term.T) {
			if seen[t] {
				return
			}
			seen[t] = true
			if c.vars[t] {
				tested[t] = true
			}
			for _, a := range t.A {
				walk(a)
			}
		}
		for a := range c.atoms {
			walk(a)
		}
	}
	for _, p := range free {
		if r.noCut["fewcands"] || p.el && len(free) > 8 || tested != nil && !tested[p.v] {
			continue
		}
		if p.v.S.K == term.BV {
			x0 := p.at(it)
			z := C.BVc(p.v.S.W, 0)
			addT("nonneg", C.Sle(z, p.v))
			addT("lower", C.Sle(x0, p.v))
			addT("upper", C.Sle(p.v, x0))
			addT("lowerU", C.Ule(x0, p.v))
			addT("upperU", C.Ule(p.v, x0))
		} else if p.v.S.K == term.Bool {
			addT("bool", p.v)
			addT("bool", C.Not(p.v))
		}
	}
	var atoms []*term.T
	for a := range c.atoms {
		atoms = append(atoms, a)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].ID < atoms[j].ID })
	nAt := 0
	var addAtom func(a *term.T)
	addAtom = func(a *term.T) {
		switch a.Op {
		case term.ONot:
			addAtom(a.A[0])
		case term.OAnd:
			for _, x := range a.A {
				addAtom(x)
			}
		case term.OUlt, term.OSlt, term.OEq:
			if !mentions(a) || a.A[0].S.K != term.BV || nAt > 30 {
				return
			}
			nAt++
			x, y := a.A[0], a.A[1]
			addT("atom", C.Sle(x, y))
			addT("atom", C.Sle(y, x))
			addT("atomU", C.Ule(x, y))
			addT("atomU", C.Ule(y, x))
			addT("atom", C.Not(C.Eq(x, y)))
			if a.Op != term.OEq {
				addT("atom", a)
				addT("atom", C.Not(a))
			}
		}
	}
	for _, a := range atoms {
		if !r.noCut["fewcands"] {
			addAtom(a)
		}
	}
	// slices: stay inside their array; end of slice preserved
	for _, p := range c.phis {
		if s, ok := c.H.env[p].(*Slice); ok && s.Obj != nil {
			if s0, ok := it.env[p].(*Slice); ok && s0.Obj == s.Obj {
				addT("end", C.Eq(C.Add(s.Off, s.Len), C.Add(s0.Off, s0.Len)))
				addT("endcap", C.Eq(C.Add(s.Off, s.Cap), C.Add(s0.Off, s0.Cap)))
				addT("lencap", C.Ule(s.Len, s.Cap))
				addT("lenle", C.Ule(s.Len, s0.Len))
				addT("caple", C.Ule(s.Cap, s0.Cap))
				addT("offge", C.Ule(s0.Off, s.Off))
			}
		}
	}
	for _, t := range fr.templates(it) {
		for _, b := range c.bindings(t) {
			cl, _, ok := c.clauses(b, c.H)
			if !ok {
				r.logf("  template %s%s does not apply", t.name, b.desc)
				continue
			}
			for i := range cl {
				if s := cl[i].s; s != nil && !c.modified(s) && (s.Obj == nil || c.H.st.backing(s).C.k != cBase) {
					continue
				}
				cands = append(cands, &cand{name: t.name + b.desc, tpl: b, idx: i, alive: true, mod: cl[i].s != nil && c.modified(cl[i].s)})
			}
		}
	}

	prove := func(cd *cand, b *item, first bool, record bool) bool {
		if !record {
			r.quiet++
			defer func() { r.quiet-- }()
		}
		nm := "loop invariant " + cd.name
		if first {
			nm += " (entry)"
		} else {
			nm += " (preserved)"
		}
		pos := r.pos(l.header.Instrs[0].Pos())
		if cd.t != nil {
			t := C.Subst(cd.t, at(b, first), map[*term.T]*term.T{})
			return b.st.prove1(nm, pos, t)
		}
		cl, cst, ok := c.clauses(cd.tpl, b)
		if !ok || cd.idx >= len(cl) {
			return false
		}
		k := cl[cd.idx]
		n0 := r.nfail
		s2 := b.st.clone()
		importObjs(s2, cst)
		if k.c != nil {
			s2.proveGoal(nm, pos, k.c)
		} else {
			s2.sliceIs(nm, pos, k.s, k.lo, k.hi, k.f, false)
		}
		return r.nfail == n0
	}
	assumeAll := func(h *item) {
		for _, cd := range cands {
			if cd.alive && cd.t != nil {
				h.st.assume(cd.t)
			}
		}
		done := map[*boundTemplate]bool{}
		for _, cd := range cands {
			if !cd.alive || cd.tpl == nil || done[cd.tpl] {
				continue
			}
			done[cd.tpl] = true
			for _, cd2 := range cands {
				if cd2.alive && cd2.tpl == cd.tpl {
					cl, cst, ok := c.clauses(cd.tpl, h)
					if !ok || cd2.idx >= len(cl) {
						unsup("loop template no longer applies")
					}
					k := cl[cd2.idx]
					if k.c != nil {
						h.st.assume(k.c)
					} else {
						importObjs(h.st, cst)
						if cd2.mod {
							h.st.sliceIs("", "", k.s, k.lo, k.hi, k.f, true)
						} else {
							h.st.assumeElems(k.s, k.lo, k.hi, k.f)
						}
					}
				}
			}
		}
	}
	for _, cd := range cands {
		if !prove(cd, it, true, false) {
			cd.alive = false
			if r.trace && cd.tpl != nil {
				r.logf("  template clause %s %d false on entry", cd.name, cd.idx)
			}
		}
	}
	base := c.H
	for round := 0; ; round++ {
		if round > 25 {
			unsup("loop invariant inference does not converge in %s", fr.fn)
		}
		c.H = base.clone()
		assumeAll(c.H)
		dead := false
		if len(cands) > 0 && !c.H.st.infeasible() {
			_, backs := c.dry()
			// template clauses are judged only once the automatic candidates are stable: under hypotheses that
			// are too strong a goal takes shapes that are needlessly hard
			var order []*boundTemplate
			for _, cd := range cands {
				if cd.tpl != nil && (len(order) == 0 || order[len(order)-1] != cd.tpl) {
					order = append(order, cd.tpl)
				}
			}
			order = append(order, nil)
			for o := len(order) - 1; o >= 0 && !dead; o-- {
				for _, b := range backs {
					for _, cd := range cands {
						if cd.alive && cd.tpl == order[o] && !prove(cd, b, false, false) {
							cd.alive = false
							dead = true
						}
					}
				}
			}
		}
		if !dead {
			break
		}
	}
	r.Loops++
	// final, recorded run
	for _, cd := range cands {
		if cd.alive {
			prove(cd, it, true, true)
		}
	}
	h := base.clone()
	assumeAll(h)
	if r.trace {
		for _, cd := range cands {
			if cd.t != nil {
				r.logf("  cand %v %s %s", cd.alive, cd.name, trunc(cd.t.String(), 150))
			} else {
				r.logf("  cand %v %s clause %d", cd.alive, cd.name, cd.idx)
			}
		}
	}
	if r.trace {
		na := 0
		for _, cd := range cands {
			if cd.alive {
				na++
			}
		}
		r.logf("  loop %s %s: %d variables, %d candidates, %d kept, %d back edges", fr.fn, r.pos(l.header.Instrs[0].Pos()), len(free), len(cands), na, len(backs))
	}
	if h.st.infeasible() {
		r.logf("loop header infeasible in %s", fr.fn)
		return nil
	}
	var exits []*item
	exits, backs = fr.execRegion(l, []*item{h})
	for _, b := range backs {
		for _, cd := range cands {
			if cd.alive {
				prove(cd, b, false, true)
			}
		}
	}
	return exits
}

func mentionsAny(t *term.T, vars map[*term.T]bool, m *term.T) bool {
	seen := map[*term.T]bool{}
	var w func(t *term.T) bool
	w = func(t *term.T) bool {
		if t == m || vars[t] {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.A {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

func (fr *frame) templates(it *item) []*loopTemplate {
	var ts []*loopTemplate
	if it.st.gh != nil {
		ts = append(ts, it.st.gh.templ...)
	}
	return ts
}

// bindings enumerates the ways template parameters can be bound to values at the loop header.
func (c *cut) bindings(t *loopTemplate) []*boundTemplate {
	fn := t.f.Fn
	type src struct {
		name string
		v    ssa.Value
		typ  types.Type
		prio int
		load bool
	}
	var srcs []src
	for _, p := range c.phis {
		srcs = append(srcs, src{c.phiName(p), p, p.Type(), 0, false})
	}
	for _, p := range c.fr.fn.Params {
		srcs = append(srcs, src{p.Name(), p, p.Type(), 1, false})
	}
	names := debugNames(c.fr.fn)
	var others []ssa.Value
	for v := range c.entry.env {
		if _, ok := v.(*ssa.Parameter); ok {
			continue
		}
		isPhi := false
		for _, p := range c.phis {
			if v == ssa.Value(p) {
				isPhi = true
			}
		}
		if isPhi {
			continue
		}
		if _, ok := names[v]; ok {
			others = append(others, v)
		} else if _, ok := v.(*ssa.Alloc); ok {
			others = append(others, v)
		}
	}
	sort.Slice(others, func(i, j int) bool { return others[i].Name() < others[j].Name() })
	for v := range c.entry.env {
		if rg, ok := v.(*ssa.Range); ok {
			if _, isStr := rg.X.Type().Underlying().(*types.Basic); isStr {
				// the position of a range over a string: the bytes before it have been visited
				srcs = append(srcs, src{"rangepos", v, types.Typ[types.Int], 3, false})
			}
		}
	}
	for _, v := range others {
		nm := names[v]
		if a, ok := v.(*ssa.Alloc); ok {
			nm = a.Comment
			// a variable that lives in memory: its current value
			if c.entry.st.heap != nil {
				srcs = append(srcs, src{nm, v, v.Type().(*types.Pointer).Elem(), -1, true})
			}
		}
		srcs = append(srcs, src{nm, v, v.Type(), 2, false})
	}
	np := len(fn.Params)
	opts := make([][]src, np)
	for i, p := range fn.Params {
		var o []src
		for _, s := range srcs {
			if types.Identical(s.typ, p.Type()) {
				o = append(o, s)
			}
		}
		sort.SliceStable(o, func(a, b int) bool {
			an, bn := o[a].name == p.Name(), o[b].name == p.Name()
			if an != bn {
				return an
			}
			return o[a].prio < o[b].prio
		})
		// an exact name match is used alone when it exists
		if len(o) > 0 && o[0].name == p.Name() {
			k := 1
			for k < len(o) && o[k].name == p.Name() && (o[0].prio > 0 || o[k].prio == o[0].prio) {
				k++
			}
			o = o[:k]
		}
		if len(o) == 0 {
			return nil
		}
		if len(o) > 8 {
			o = o[:8]
		}
		opts[i] = o
	}
	var res []*boundTemplate
	cur := make([]src, np)
	var rec func(i int)
	rec = func(i int) {
		if len(res) >= 40 {
			return
		}
		if i == np {
			b := &boundTemplate{t: t}
			var d []string
			for k := range cur {
				v, load := cur[k].v, cur[k].load
				b.bind = append(b.bind, func(it *item) Value {
					x := it.st.force(it.env[v])
					if _, ok := v.(*ssa.Range); ok {
						return it.st.heap[x.(*Ptr).Obj]
					}
					if p, ok := x.(*Ptr); load && ok && p.Obj != nil {
						return it.st.force(it.st.loadPtr(p))
					} else if load {
						unsup("template parameter bound to a pointer that may be nil")
					}
					return x
				})
				d = append(d, cur[k].name)
			}
			b.desc = "(" + strings.Join(d, ",") + ")"
			res = append(res, b)
			return
		}
		for _, s := range opts[i] {
			dup := false
			for k := 0; k < i; k++ {
				if cur[k].v == s.v {
					dup = true
				}
			}
			if dup {
				continue
			}
			cur[i] = s
			rec(i + 1)
		}
	}
	rec(0)
	return res
}

func debugNames(fn *ssa.Function) map[ssa.Value]string {
	m := map[ssa.Value]string{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.DebugRef); ok && !d.IsAddr {
				if o := d.Object(); o != nil {
					if _, ok := m[d.X]; !ok {
						m[d.X] = o.Name()
					}
				}
			}
		}
	}
	return m
}
