package sym

import (
	"go/token"
	"go/types"

	"verif/engine/term"
)

type native func(fr *frame, st *State, a []Value, pos token.Pos) []Outcome

var natives map[string]native
var nativeClosures = map[string]func(fr *frame, st *State, f *Func, a []Value, pos token.Pos) []Outcome{}
var opaqueMethods = map[string]func(fr *frame, st *State, i *Iface, a []Value, pos token.Pos) []Outcome{}
var bigIntrinsics = map[string]intrinsic{}

func (r *Run) newErr(hint string) Value {
	return &Iface{Nil: r.C.False, Opq: "err:" + r.uniq(hint)}
}

func (r *Run) anyStr(hint string) *Str {
	nm := r.uniq(hint)
	l := r.C.Var(nm+".len", term.BVS(64))
	r.C.Bound[l] = [2]uint64{0, 1 << 20}
	return &Str{C: r.baseC(nm, types.Typ[types.Byte]), Off: r.bv(0), Len: l}
}

func errNative(fr *frame, st *State, a []Value, pos token.Pos) []Outcome {
	return ret(st, fr.r.newErr("e@"+fr.r.pos(pos)))
}

func strNative(fr *frame, st *State, a []Value, pos token.Pos) []Outcome {
	return ret(st, fr.r.anyStr("str"))
}

func init() {
	natives = map[string]native{
		"errors.New":      errNative,
		"fmt.Errorf":      errNative,
		"fmt.Sprintf":     strNative,
		"fmt.Sprint":      strNative,
		"strconv.Itoa":    strNative,
		"strconv.Quote":   strNative,
		"bytes.Repeat":    bytesRepeat,
		"bytes.Equal":     bytesEqual,
		"bytes.Compare":   bytesCompare,
		"bytes.HasPrefix": bytesHasPrefix,
		"fmt.Print": func(fr *frame, st *State, a []Value, pos token.Pos) []Outcome {
			return ret(st, Tuple{fr.r.bv(0), &Iface{Nil: fr.r.C.True}})
		},
		"fmt.Printf": func(fr *frame, st *State, a []Value, pos token.Pos) []Outcome {
			return ret(st, Tuple{fr.r.bv(0), &Iface{Nil: fr.r.C.True}})
		},
	}
	for k, v := range bigNatives {
		natives[k] = v
	}
}

var byteT = types.Typ[types.Byte]

func bytesRepeat(fr *frame, st *State, a []Value, pos token.Pos) []Outcome {
	r, C := fr.r, fr.r.C
	b := st.force(a[0]).(*Slice)
	n := st.conc(a[1].(*term.T))
	bl := st.conc(b.Len)
	neg := C.Slt(n, r.bv(0))
	var outs []Outcome
	if st.quick(neg) != -1 {
		p := st.clone()
		p.assume(neg)
		if !p.infeasible() {
			outs = append(outs, Outcome{st: p, pan: &panRec{val: r.rtErr(), what: "bytes.Repeat: negative count at " + r.pos(pos)}})
		}
		st.assume(C.Not(neg))
	}
	if !bl.IsConst() {
		unsup("bytes.Repeat of a slice of unknown length")
	}
	if bl.U == 0 {
		return append(outs, Outcome{st: st, ret: st.newSlice("repeat", r.zeroContent(byteT, r.bv(0)), r.bv(0), r.bv(0), byteT)})
	}
	tot := C.MulK(n, bl.U)
	big := C.Ult(r.bv(1<<47), n)
	if st.quick(big) != -1 {
		p := st.clone()
		p.assume(big)
		outs = append(outs, Outcome{st: p, pan: &panRec{val: r.rtErr(), what: "bytes.Repeat: output too long at " + r.pos(pos)}})
		st.assume(C.Not(big))
	}
	var c *Content
	if bl.U == 1 {
		v := st.at(b, r.bv(0))
		if tot.IsConst() && tot.U <= 512 {
			vs := make([]Value, tot.U)
			for i := range vs {
				vs[i] = v
			}
			c = r.vecC(byteT, vs)
		} else {
			c = r.lambdaC(byteT, func(*State, *term.T) Value { return v })
		}
	} else {
		bc := st.backing(b)
		off := b.Off
		c = r.lambdaC(byteT, func(s *State, i *term.T) Value { return s.read(bc.C, C.Add(off, C.URem(i, bl))) })
	}
	return append(outs, Outcome{st: st, ret: st.newSlice("repeat", c, tot, tot, byteT)})
}

func (st *State) sliceSeq(s *Slice) (*Content, *term.T, *term.T) {
	if s.Obj == nil {
		return st.r.vecC(byteT, nil), st.r.bv(0), st.r.bv(0)
	}
	return st.backing(s).C, s.Off, s.Len
}

func (st *State) sliceEq(a, b *Slice) *term.T {
	c1, o1, n1 := st.sliceSeq(a)
	c2, o2, n2 := st.sliceSeq(b)
	return st.seqEq(c1, o1, n1, c2, o2, n2)
}

func bytesEqual(fr *frame, st *State, a []Value, pos token.Pos) []Outcome {
	return ret(st, st.sliceEq(st.force(a[0]).(*Slice), st.force(a[1]).(*Slice)))
}

func bytesCompare(fr *frame, st *State, a []Value, pos token.Pos) []Outcome {
	r, C := fr.r, fr.r.C
	e := st.sliceEq(st.force(a[0]).(*Slice), st.force(a[1]).(*Slice))
	lt := C.Var(r.uniq("cmp"), term.BoolS)
	return ret(st, C.Ite(e, r.bv(0), C.Ite(lt, r.bv(-1), r.bv(1))))
}

func bytesHasPrefix(fr *frame, st *State, a []Value, pos token.Pos) []Outcome {
	C := fr.r.C
	x, y := st.force(a[0]).(*Slice), st.force(a[1]).(*Slice)
	fit := C.Ule(y.Len, x.Len)
	if st.quick(fit) == -1 {
		return ret(st, C.False)
	}
	c1, o1, _ := st.sliceSeq(x)
	c2, o2, n2 := st.sliceSeq(y)
	return ret(st, C.And(fit, st.with(fit).seqEq(c1, o1, n2, c2, o2, n2)))
}
