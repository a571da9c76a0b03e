package sym

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"

	"verif/engine/term"

	"golang.org/x/tools/go/ssa"
)

// Outcome of a call: normal return or panic.
type Outcome struct {
	st  *State
	ret Value
	pan *panRec
}

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	idx    int
}

type fnInfo struct {
	rpo   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]*Loop
}

var infoMu sync.Mutex
var infoTab = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	infoMu.Lock()
	defer infoMu.Unlock()
	if i, ok := infoTab[fn]; ok {
		return i
	}
	fi := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*Loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
		if fn.Recover != nil && !seen[fn.Recover] {
			dfs(fn.Recover)
		}
	}
	for i, b := range post {
		fi.rpo[b] = len(post) - i
	}
	for _, b := range fn.Blocks {
		if !seen[b] {
			continue
		}
		for _, h := range b.Succs {
			if h.Dominates(b) {
				l := fi.loops[h]
				if l == nil {
					l = &Loop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					fi.loops[h] = l
				}
				var st []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range x.Preds {
						if !l.blocks[p] && seen[p] {
							l.blocks[p] = true
							st = append(st, p)
						}
					}
				}
			} else if fi.rpo[h] <= fi.rpo[b] {
				// retreating edge that is not a back edge: irreducible
				fi.loops[h] = &Loop{header: nil}
			}
		}
	}
	var hs []*Loop
	for _, l := range fi.loops {
		if l.header != nil {
			hs = append(hs, l)
		}
	}
	sort.Slice(hs, func(i, j int) bool { return fi.rpo[hs[i].header] < fi.rpo[hs[j].header] })
	for i, l := range hs {
		l.idx = i
	}
	infoTab[fn] = fi
	return fi
}

type dfr struct {
	fn   Value
	args []Value
	pos  token.Pos
	call *ssa.CallCommon
}

type item struct {
	st     *State
	env    map[ssa.Value]Value
	b      *ssa.BasicBlock
	defers []*dfr
}

func (it *item) clone() *item {
	e := make(map[ssa.Value]Value, len(it.env)+8)
	for k, v := range it.env {
		e[k] = v
	}
	return &item{st: it.st.clone(), env: e, b: it.b, defers: it.defers}
}

type frame struct {
	r      *Run
	fn     *ssa.Function
	info   *fnInfo
	caller *frame
	depth  int
	outs   []Outcome
	ghost  bool
	catch  bool
	defPan bool // this frame is a deferred call running during panicking
	site   string
	curPos token.Pos
	hdrUnd map[*ssa.BasicBlock]bool
	took   map[*ssa.BasicBlock]int // branches taken out of the block
}

func (fr *frame) catching() bool {
	for f := fr; f != nil; f = f.caller {
		if f.catch {
			return true
		}
	}
	return false
}

func (r *Run) execFunc(caller *frame, st *State, fn *ssa.Function, args []Value, free []Value, pos token.Pos, defPan bool) []Outcome {
	fr := &frame{r: r, fn: fn, info: infoOf(fn), caller: caller, defPan: defPan}
	if caller != nil {
		fr.depth = caller.depth + 1
		fr.site = fmt.Sprintf("%s/%d", caller.site, pos)
	}
	if fr.depth > 80 {
		unsup("call depth")
	}
	fr.ghost = r.E.isGhost(fn)
	if !fr.ghost && r.E.inRepo(fn) {
		r.Inlined[fnName(fn)] = true
	}
	it := &item{st: st, env: map[ssa.Value]Value{}, b: fn.Blocks[0]}
	if len(args) != len(fn.Params) {
		unsup("arity mismatch calling %s", fn)
	}
	for i, p := range fn.Params {
		it.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		it.env[p] = free[i]
	}
	fr.execRegion(nil, []*item{it})
	return fr.outs
}

// execRegion runs items inside region (a loop body, or the whole function when loop==nil).
func (fr *frame) execRegion(loop *Loop, start []*item) (exits, backs []*item) {
	pending := map[*ssa.BasicBlock][]*item{}
	route := func(it *item) {
		switch {
		case loop != nil && it.b == loop.header:
			backs = append(backs, it)
		case loop != nil && !loop.blocks[it.b]:
			exits = append(exits, it)
		default:
			pending[it.b] = append(pending[it.b], it)
		}
	}
	for _, it := range start {
		pending[it.b] = append(pending[it.b], it)
	}
	first := loop != nil
	for len(pending) > 0 {
		var b *ssa.BasicBlock
		for x := range pending {
			if b == nil || fr.info.rpo[x] < fr.info.rpo[b] {
				b = x
			}
		}
		items := pending[b]
		delete(pending, b)
		items = fr.mergeItems(items)
		if l := fr.info.loops[b]; l != nil && !(first && b == loop.header) {
			if l.header == nil {
				unsup("irreducible control flow in %s", fr.fn)
			}
			for _, e := range fr.execLoop(l, items) {
				route(e)
			}
			continue
		}
		first = false
		if len(items) > 400 && !(fr.r.noCut["morepaths"] && len(items) < 4000) {
			unsup("path explosion in %s (%d paths)", fr.fn, len(items))
		}
		for _, it := range items {
			for _, n := range fr.execBlock(it) {
				route(n)
			}
		}
	}
	return
}

// jump moves it along the edge from its block to succ, evaluating phis.
func (fr *frame) jump(it *item, succ *ssa.BasicBlock) *item {
	pi := -1
	for i, p := range succ.Preds {
		if p == it.b {
			pi = i
			break
		}
	}
	var nv []Value
	var ph []*ssa.Phi
	for _, in := range succ.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ph = append(ph, p)
		nv = append(nv, fr.val(it, p.Edges[pi]))
	}
	for i, p := range ph {
		it.env[p] = nv[i]
	}
	it.b = succ
	return it
}

func (fr *frame) execBlock(it *item) []*item {
	fr.r.budget()
	i := 0
	for i < len(it.b.Instrs) {
		if _, ok := it.b.Instrs[i].(*ssa.Phi); !ok {
			break
		}
		i++
	}
	return fr.run(it, i)
}

func (fr *frame) run(it *item, i int) []*item {
	r := fr.r
	for ; i < len(it.b.Instrs); i++ {
		in := it.b.Instrs[i]
		if p := in.Pos(); p.IsValid() {
			fr.curPos = p
		}
		switch x := in.(type) {
		case *ssa.Jump:
			return []*item{fr.jump(it, it.b.Succs[0])}
		case *ssa.If:
			c := fr.val(it, x.Cond).(*term.T)
			if os.Getenv("GV_IFS") != "" && !c.IsConst() {
				r.logf("IF %s %s", r.pos(fr.curPos), trunc(c.String(), 200))
			}
			if r.ifLog != nil && !c.IsConst() && !fr.ghost {
				r.ifLog[c] = true
			}
			switch it.st.quick(c) {
			case 1:
				if fr.took != nil {
					fr.took[it.b] |= 1
				}
				return []*item{fr.jump(it, it.b.Succs[0])}
			case -1:
				if fr.took != nil {
					fr.took[it.b] |= 2
				}
				return []*item{fr.jump(it, it.b.Succs[1])}
			}
			if fr.hdrUnd != nil {
				fr.hdrUnd[it.b] = true
			}
			e := it.clone()
			it.st.assume(c)
			e.st.assume(r.C.Not(c))
			b := it.b
			return []*item{fr.jump(it, b.Succs[0]), fr.jump(e, b.Succs[1])}
		case *ssa.Return:
			var rv Value
			if len(x.Results) == 1 {
				rv = fr.val(it, x.Results[0])
			} else {
				t := make(Tuple, len(x.Results))
				for k, y := range x.Results {
					t[k] = fr.val(it, y)
				}
				rv = t
			}
			fr.out(Outcome{st: it.st, ret: rv})
			return nil
		case *ssa.Panic:
			fr.panicOut(it, &panRec{val: fr.val(it, x.X), what: "panic statement at " + r.pos(x.Pos())})
			return nil
		case *ssa.RunDefers:
			its := fr.runDefers(it)
			if len(its) == 1 && its[0] == it {
				continue
			}
			var res []*item
			for _, n := range its {
				res = append(res, fr.run(n, i+1)...)
			}
			return res
		}
		its, split := fr.step(it, in)
		if !split {
			continue
		}
		if len(its) == 1 {
			it = its[0]
			continue
		}
		var res []*item
		for _, n := range its {
			res = append(res, fr.run(n, i+1)...)
		}
		return res
	}
	unsup("block without terminator")
	return nil
}

func (fr *frame) out(o Outcome) {
	fr.outs = append(fr.outs, o)
	if len(fr.outs) > 3000 {
		unsup("too many outcomes of %s", fr.fn)
	}
}

// panicOut unwinds the frame with a panic.
func (fr *frame) panicOut(it *item, p *panRec) {
	st := it.st
	if len(it.defers) == 0 {
		fr.out(Outcome{st: st, pan: p})
		return
	}
	p2 := &panRec{val: p.val, what: p.what, parent: st.pan}
	st.pan = p2
	type w struct {
		it *item
	}
	cur := []*item{it}
	for len(cur[0].defers) > 0 {
		var next []*item
		for _, c := range cur {
			d := c.defers[len(c.defers)-1]
			rest := c.defers[:len(c.defers)-1]
			for _, o := range fr.r.callValue(fr, c.st, d.fn, d.args, d.pos, true) {
				n := &item{st: o.st, env: c.env, b: c.b, defers: rest}
				if o.pan != nil {
					n.st.pan = &panRec{val: o.pan.val, what: o.pan.what, parent: p2.parent}
				}
				next = append(next, n)
			}
		}
		if len(next) == 0 {
			return
		}
		cur = next
	}
	for _, c := range cur {
		pr := c.st.pan
		c.st.pan = pr.parent
		if !pr.recovered {
			fr.out(Outcome{st: c.st, pan: &panRec{val: pr.val, what: pr.what}})
			continue
		}
		if fr.fn.Recover == nil {
			fr.out(Outcome{st: c.st, ret: fr.r.zeroVal(fr.fn.Signature.Results())})
			continue
		}
		n := c.clone()
		n.defers = nil
		n.b = fr.fn.Recover
		for _, x := range fr.run(n, 0) {
			_ = x
			unsup("control flow after recover in %s", fr.fn)
		}
	}
}

func (fr *frame) runDefers(it *item) []*item {
	cur := []*item{it}
	for len(cur) > 0 && len(cur[0].defers) > 0 {
		var next []*item
		for _, c := range cur {
			d := c.defers[len(c.defers)-1]
			rest := c.defers[:len(c.defers)-1]
			saved := fr.catch
			fr.catch = len(rest) > 0
			outs := fr.r.callValue(fr, c.st, d.fn, d.args, d.pos, false)
			fr.catch = saved
			for k, o := range outs {
				n := c
				if k < len(outs)-1 {
					n = c.clone()
				}
				n = &item{st: o.st, env: n.env, b: c.b, defers: rest}
				if o.pan != nil {
					fr.panicOut(n, o.pan)
					continue
				}
				next = append(next, n)
			}
		}
		cur = next
	}
	return cur
}

// check enforces an implicit run-time check. It returns false when the path is dead.
func (fr *frame) check(it *item, cond *term.T, what string, pos token.Pos) bool {
	r := fr.r
	if fr.ghost {
		return true
	}
	switch it.st.quick(cond) {
	case 1:
		if r.quiet == 0 {
			r.Obls = append(r.Obls, &Obl{Name: "no panic: " + what, Pos: r.pos(pos), OK: true, Status: "proved", Backend: "z3-incremental"})
		}
		return true
	case -1:
		fr.panicOut(it.clone(), &panRec{val: r.rtErr(), what: what + " at " + r.pos(pos)})
		return false
	}
	catching := fr.catching() || it.st.gh != nil && it.st.gh.allowPanic
	if !catching {
		r.quiet++
		ok := it.st.prove1("", "", cond)
		r.quiet--
		if ok {
			it.st.assume(cond)
			if r.quiet == 0 {
				r.Obls = append(r.Obls, &Obl{Name: "no panic: " + what, Pos: r.pos(pos), OK: true, Status: "proved", Backend: "z3-incremental"})
			}
			return true
		}
	}
	e := it.clone()
	e.st.assume(r.C.Not(cond))
	fr.panicOut(e, &panRec{val: r.rtErr(), what: what + " at " + r.pos(pos)})
	it.st.assume(cond)
	return true
}

func (r *Run) rtErr() Value { return &Iface{Nil: r.C.False, Opq: "err:runtime.Error"} }

// ------------------------------------------------------------ merging

// noMerge: paths are kept apart (option "nomerge"), except in specification functions of scalar value.
func (fr *frame) noMerge() bool { return fr.r.noMerge(fr.fn) }

func (r *Run) noMerge(fn *ssa.Function) bool {
	if !r.noCut["nomerge"] {
		return false
	}
	if fn != nil && r.E.isGhost(fn) && strings.HasPrefix(fn.Name(), "gv") && fn.Parent() == nil && fn.Signature.Results().Len() == 1 {
		if _, _, ok := sortOf(fn.Signature.Results().At(0).Type()); ok {
			return false
		}
	}
	return true
}

func (fr *frame) mergeItems(items []*item) []*item {
	if len(items) < 2 || fr.noMerge() {
		return items
	}
	var res []*item
	for _, it := range items {
		done := false
		for k := len(res) - 1; k >= 0 && k >= len(res)-4; k-- {
			if m := fr.mergeTwo(res[k], it); m != nil {
				res[k] = m
				done = true
				break
			}
		}
		if !done {
			res = append(res, it)
		}
	}
	if len(res) > 1 && len(res) < len(items) {
		// merged pairs may now merge among themselves
		n := len(res)
		res2 := fr.mergeItems(res)
		if len(res2) < n {
			return res2
		}
	}
	return res
}

// pcDiff finds the common ancestor of two path conditions.
func pcDiff(a, b *pcNode) (anc *pcNode, da, db []*term.T) {
	dep := func(p *pcNode) int {
		if p == nil {
			return 0
		}
		return p.n
	}
	for a != b {
		if dep(a) >= dep(b) && a != nil {
			if a.cond != nil {
				da = append([]*term.T{a.cond}, da...)
			}
			a = a.parent
		} else {
			if b.cond != nil {
				db = append([]*term.T{b.cond}, db...)
			}
			b = b.parent
		}
	}
	return a, da, db
}

type mergeBudget struct{ n int }

// canMerge says whether two differing values are cheap to merge with ite.
func canMerge(a, b Value, bud *mergeBudget) bool {
	if same(a, b) {
		return true
	}
	bud.n--
	if bud.n < 0 {
		return false
	}
	if _, ok := a.(*Tainted); ok {
		return true
	}
	if _, ok := b.(*Tainted); ok {
		return true
	}
	switch x := a.(type) {
	case *term.T:
		y, ok := b.(*term.T)
		return ok && x.S == y.S && x.S.K != term.Int
	case *Slice:
		y, ok := b.(*Slice)
		return ok && x.Obj == y.Obj && x.Obj != nil && samePath(x.Path, y.Path)
	case *Struct:
		y, ok := b.(*Struct)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !canMerge(x.F[i], y.F[i], bud) {
				return false
			}
		}
		return true
	case *Iface:
		y, ok := b.(*Iface)
		if !ok {
			return false
		}
		if x.T != nil || y.T != nil {
			return false
		}
		return isErrOpq(x.Opq) && isErrOpq(y.Opq)
	case *Arr:
		y, ok := b.(*Arr)
		if !ok || x.C.k != cVec || y.C.k != cVec || len(x.C.vec) != len(y.C.vec) || len(x.C.vec) > 128 {
			return false
		}
		for i := range x.C.vec {
			if !canMerge(x.C.vec[i], y.C.vec[i], bud) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !canMerge(x[i], y[i], bud) {
				return false
			}
		}
		return true
	}
	return false
}

func (fr *frame) mergeTwo(a, b *item) *item {
	if len(a.defers) != len(b.defers) || a.b != b.b {
		return nil
	}
	for i := range a.defers {
		if a.defers[i] != b.defers[i] {
			return nil
		}
	}
	bud := &mergeBudget{24}
	var keys []ssa.Value
	for k, va := range a.env {
		vb, ok := b.env[k]
		if !ok {
			continue
		}
		if in, ok := k.(ssa.Instruction); ok {
			db := in.Block()
			if db != a.b && !db.Dominates(a.b) {
				continue
			}
		}
		keys = append(keys, k)
		if !same(va, vb) && !canMerge(va, vb, bud) {
			return nil
		}
	}
	st := fr.r.mergeStates(a.st, b.st, bud)
	if st == nil {
		return nil
	}
	env := make(map[ssa.Value]Value, len(keys))
	for _, k := range keys {
		va, vb := a.env[k], b.env[k]
		if same(va, vb) {
			env[k] = va
			continue
		}
		v, ok := st.st.merge(st.cond, va, vb)
		if !ok {
			return nil
		}
		env[k] = v
	}
	return &item{st: st.st, env: env, b: a.b, defers: a.defers}
}

type mergedState struct {
	st   *State
	cond *term.T
}

func (r *Run) mergeStates(a, b *State, bud *mergeBudget) *mergedState {
	if a.pan != b.pan || a.gh != b.gh || a.rnd != b.rnd {
		return nil
	}
	for o, va := range a.heap {
		vb, ok := b.heap[o]
		if !ok {
			if o.Input || r.initHeap[o] != nil || o.Glob != nil {
				vb = b.objVal(o)
			} else {
				continue
			}
		}
		if !same(va, vb) && !canMerge(va, vb, bud) {
			return nil
		}
	}
	for o, vb := range b.heap {
		if _, ok := a.heap[o]; !ok && (o.Input || r.initHeap[o] != nil || o.Glob != nil) {
			va := a.objVal(o)
			if !same(va, vb) && !canMerge(va, vb, bud) {
				return nil
			}
		}
	}
	anc, da, db := pcDiff(a.pc, b.pc)
	cond := r.C.And(da...)
	if len(da) > 0 && len(db) > 0 && r.C.Not(da[0]) == db[0] {
		cond = da[0]
	}
	h := make(map[*Obj]Value, len(a.heap))
	st := &State{r: r, pc: anc, heap: h, pan: a.pan, gh: a.gh, rnd: a.rnd, eqs: map[*term.T]*term.T{}}
	for k, v := range a.eqs {
		if b.eqs[k] == v {
			st.eqs[k] = v
		}
	}
	st.assume(r.C.Or(r.C.And(da...), r.C.And(db...)))
	for o, va := range a.heap {
		vb, ok := b.heap[o]
		if !ok {
			if !o.Input && r.initHeap[o] == nil && o.Glob == nil {
				h[o] = va
				continue
			}
			vb = b.objVal(o)
		}
		if same(va, vb) {
			h[o] = va
			continue
		}
		v, ok := st.merge(cond, va, vb)
		if !ok {
			return nil
		}
		h[o] = v
	}
	for o, vb := range b.heap {
		if _, ok := a.heap[o]; !ok {
			if !o.Input && r.initHeap[o] == nil && o.Glob == nil {
				h[o] = vb
				continue
			}
			va := a.objVal(o)
			if same(va, vb) {
				h[o] = vb
				continue
			}
			v, ok := st.merge(cond, va, vb)
			if !ok {
				return nil
			}
			h[o] = v
		}
	}
	return &mergedState{st, cond}
}

// mergeOutcomes reduces the outcomes of an inlined call.
func (fr *frame) mergeOutcomes(outs []Outcome, callee *ssa.Function) []Outcome {
	if len(outs) < 2 || fr.r.noMerge(callee) {
		return outs
	}
	var res []Outcome
	for _, o := range outs {
		done := false
		if o.pan == nil {
			for k := len(res) - 1; k >= 0; k-- {
				if res[k].pan != nil {
					continue
				}
				bud := &mergeBudget{16}
				if !same(res[k].ret, o.ret) && !canMerge(res[k].ret, o.ret, bud) {
					continue
				}
				ms := fr.r.mergeStates(res[k].st, o.st, bud)
				if ms == nil {
					continue
				}
				v, ok := ms.st.merge(ms.cond, res[k].ret, o.ret)
				if !ok {
					continue
				}
				res[k] = Outcome{st: ms.st, ret: v}
				done = true
				break
			}
		}
		if !done {
			res = append(res, o)
		}
	}
	return res
}

// ------------------------------------------------------------ values

func (fr *frame) val(it *item, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return fr.r.constVal(x)
	case *ssa.Global:
		return &Ptr{Obj: fr.r.globalObj(x)}
	case *ssa.Function:
		return &Func{Fn: x}
	case *ssa.Builtin:
		return &Func{Bltn: x}
	}
	r, ok := it.env[v]
	if !ok {
		unsup("undefined value %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (r *Run) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return r.zeroVal(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		unsup("type parameter constant %s", tp)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return r.C.BoolC(constant.BoolVal(c.Value))
	case constant.String:
		return r.strConst(constant.StringVal(c.Value))
	case constant.Int, constant.Float:
		s, _, ok := sortOf(t)
		if !ok {
			return &Opaque{Name: "const" + c.Value.ExactString(), T: t}
		}
		iv := constant.ToInt(c.Value)
		if u, ok := constant.Uint64Val(iv); ok {
			return r.C.BVc(s.W, u)
		}
		if i, ok := constant.Int64Val(iv); ok {
			return r.C.BVc(s.W, uint64(i))
		}
	}
	unsup("constant %s", c)
	return nil
}

func (r *Run) bigC(b *big.Int) *term.T { return r.C.IntC(b) }
