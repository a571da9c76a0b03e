package smt

// Translation of bit-vector queries to linear integer arithmetic. A bit vector of width w becomes an
// integer in [0, 2^w); sums wrap explicitly, other operations are opaque. Every model of the bit-vector
// formula is one of the translation, so "unsat" carries over; the other answers are not used.

import (
	"fmt"
	"math/big"
	"strings"

	"verif/engine/term"
)

func p2(n int) string { return new(big.Int).Lsh(big.NewInt(1), uint(n)).String() }

func kstr(k uint64, w int) string {
	if w == 64 && int64(k) < 0 {
		return fmt.Sprintf("(- %d)", -int64(k))
	}
	if w < 64 && k >= 1<<uint(w-1) {
		return fmt.Sprintf("(- %d)", int64(1)<<uint(w)-int64(k))
	}
	return fmt.Sprint(k)
}

func lsort(s term.Sort) string {
	if s.K == term.BV {
		return "Int"
	}
	return s.String()
}

func (e *emitter) declare(n, s string) string {
	if !e.sigs[n] {
		e.sigs[n] = true
		e.out(fmt.Sprintf("(declare-fun %s () %s)", n, s))
	}
	return n
}

func signed(x string, w int) string {
	return fmt.Sprintf("(ite (< %s %s) %s (- %s %s))", x, p2(w-1), x, x, p2(w))
}

// defineLIA names t; constrain gives the constraints that belong to the name.
func (e *emitter) defineLIA(t *term.T) {
	as := make([]string, len(t.A))
	for i, a := range t.A {
		as[i] = e.named[a]
	}
	j := strings.Join(as, " ")
	bv := t.S.K == term.BV
	var x string
	switch t.Op {
	case term.OConst:
		if bv {
			e.named[t] = fmt.Sprint(t.U)
			return
		}
		e.define(t)
		return
	case term.OVar:
		e.named[t] = e.declare(q(t.Name), lsort(t.S))
		return
	case term.OApp:
		var sg strings.Builder
		sg.WriteString(t.Name)
		for _, a := range t.A {
			fmt.Fprintf(&sg, "~%d%d", a.S.K, a.S.W)
		}
		n := q(sg.String())
		if !e.sigs[n] {
			e.sigs[n] = true
			ss := make([]string, len(t.A))
			for i, a := range t.A {
				ss[i] = lsort(a.S)
			}
			e.out(fmt.Sprintf("(declare-fun %s (%s) %s)", n, strings.Join(ss, " "), lsort(t.S)))
		}
		x = "(" + n + " " + j + ")"
	case term.OIte:
		x = "(ite " + j + ")"
	case term.OEq:
		x = "(= " + j + ")"
	case term.OUlt:
		x = "(< " + j + ")"
	case term.OSlt:
		w := t.A[0].S.W
		x = "(< " + signed(as[0], w) + " " + signed(as[1], w) + ")"
	case term.OConcat:
		x = as[0]
		for i, a := range as[1:] {
			x = fmt.Sprintf("(+ (* %s %s) %s)", p2(t.A[i+1].S.W), x, a)
		}
	case term.OSext:
		w0 := t.A[0].S.W
		d := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(t.S.W)), new(big.Int).Lsh(big.NewInt(1), uint(w0)))
		x = fmt.Sprintf("(ite (< %s %s) %s (+ %s %s))", as[0], p2(w0-1), as[0], as[0], d)
	case term.OB2I:
		e.named[t] = as[0]
		return
	default:
		if bv {
			e.named[t] = e.declare(fmt.Sprintf("t%d", t.ID), "Int")
			return
		}
		e.define(t)
		return
	}
	n := fmt.Sprintf("t%d", t.ID)
	e.out(fmt.Sprintf("(define-fun %s () %s %s)", n, lsort(t.S), x))
	e.named[t] = n
}

func (e *emitter) constrain(t *term.T) {
	if t.S.K != term.BV || t.Op == term.OConst || t.Op == term.OIte || t.Op == term.OConcat || t.Op == term.OSext {
		return
	}
	n := e.name(t)
	w := t.S.W
	e.out(fmt.Sprintf("(assert (and (<= 0 %s) (< %s %s)))", n, n, p2(w)))
	aux := func(s, lim string) string {
		v := e.declare(fmt.Sprintf("%s_t%d", s, t.ID), "Int")
		if lim != "" {
			e.out(fmt.Sprintf("(assert (and (<= 0 %s) (< %s %s)))", v, v, lim))
		}
		return v
	}
	switch t.Op {
	case term.OAdd:
		var ps []string
		for i, a := range t.A {
			if t.K[i] == 1 {
				ps = append(ps, e.name(a))
			} else {
				ps = append(ps, fmt.Sprintf("(* %s %s)", kstr(t.K[i], w), e.name(a)))
			}
		}
		ps = append(ps, kstr(t.U, w), fmt.Sprintf("(* (- %s) %s)", p2(w), aux("w", "")))
		e.out(fmt.Sprintf("(assert (= %s (+ %s)))", n, strings.Join(ps, " ")))
	case term.OExtract:
		hi, lo := int(t.U>>8), int(t.U&255)
		s := []string{fmt.Sprintf("(* %s %s)", p2(lo), n)}
		if lo > 0 {
			s = append(s, aux("l", p2(lo)))
		}
		if hi+1 < t.A[0].S.W {
			s = append(s, fmt.Sprintf("(* %s %s)", p2(hi+1), aux("h", p2(t.A[0].S.W-hi-1))))
		}
		s = append(s, "0")
		e.out(fmt.Sprintf("(assert (= %s (+ %s)))", e.name(t.A[0]), strings.Join(s, " ")))
	case term.OI2B:
		e.out(fmt.Sprintf("(assert (= %s (+ %s (* %s %s))))", e.name(t.A[0]), n, p2(w), aux("q", "")))
	}
}
