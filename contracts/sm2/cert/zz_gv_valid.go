package cert

import (
	gv "github.com/ZZMarquis/gm/zzgv"
)

// isIA5String: a byte at w that is not 7-bit makes it fail, whichever it is …
//
//gv:prop C29
func Prove_C29_IA5_bad(s string, w int) {
	gv.Requires(0 <= w && w < len(s))
	gv.Loop("position", func(rangepos int) { gv.Inv(gv.Or(w >= rangepos, s[w] < 0x80)) })
	gv.Loop("index", func(i int) { gv.Inv(gv.Or(w >= i, s[w] < 0x80)) })
	var err error
	gv.Inline(isIA5String)
	gv.Call(func() { err = isIA5String(s) })
	gv.Ensure("refused", gv.Implies(s[w] >= 0x80, err != nil))
}

// … and without one it succeeds.
//
//gv:prop C29
func Prove_C29_IA5_good(s []byte, a []byte) {
	gv.Requires(len(a) == len(s))
	gv.RequiresEach(s, 0, len(s), func(k int) byte { return a[k] & 0x7f })
	var err error
	str := string(s)
	gv.Inline(isIA5String)
	gv.Call(func() { err = isIA5String(str) })
	gv.Ensure("accepted", err == nil)
}

// gvOnes: the bits of b are a run of ones followed by zeros.
func gvOnes(b byte) bool { return ^b&(^b+1) == 0 }

// isValidIPMask: a one bit after a zero bit, in the byte at v or between the bytes at v and w, is refused …
//
//gv:prop C29
func Prove_C29_IPMask_bad(mask []byte, v, w int) {
	gv.Requires(0 <= v && v <= w && w < len(mask))
	gv.Loop("position", func(rangeindex int, seenZero bool) {
		gv.Inv(gv.Or(w > rangeindex, gvOnes(mask[w])))
		gv.Inv(gv.Or(v > rangeindex, seenZero, mask[v] == 0xff))
		gv.Inv(gv.Or(v > rangeindex, w > rangeindex, w == v, mask[v] == 0xff, mask[w] == 0))
	})
	gv.Loop("index", func(i int, seenZero bool) {
		gv.Inv(gv.Or(w >= i, gvOnes(mask[w])))
		gv.Inv(gv.Or(v >= i, seenZero, mask[v] == 0xff))
		gv.Inv(gv.Or(v >= i, w >= i, w == v, mask[v] == 0xff, mask[w] == 0))
	})
	var r bool
	gv.Inline(isValidIPMask)
	gv.Call(func() { r = isValidIPMask(mask) })
	gv.Ensure("byte", gv.Implies(!gvOnes(mask[w]), !r))
	gv.Ensure("bytes", gv.Implies(gv.And(v < w, mask[v] != 0xff, mask[w] != 0), !r))
}

// … and a mask of n one bytes, one mixed byte and zero bytes is accepted.
//
//gv:prop C29
func Prove_C29_IPMask_good(mask []byte, n int, b byte) {
	gv.Requires(0 <= n && n <= len(mask) && gvOnes(b))
	gv.RequiresEach(mask, 0, len(mask), func(k int) byte { return gv.Ite(k < n, 0xff, gv.Ite(k == n, b, 0)) })
	gv.Loop("position", func(rangeindex int, seenZero bool) {
		gv.Inv(gv.Implies(seenZero, rangeindex >= n))
	})
	gv.Loop("index", func(i int, seenZero bool) {
		gv.Inv(gv.Implies(seenZero, i > n))
	})
	var r bool
	gv.Inline(isValidIPMask)
	gv.Call(func() { r = isValidIPMask(mask) })
	gv.Ensure("accepted", r)
}

// Assumed contract of bytes.Contains: some answer.
//
//gv:model bytes.Contains
func gvContains(b, sub []byte) bool { return gv.Any[bool]("contains") }

// Assumed contract of strings.Contains: some answer.
//
//gv:model strings.Contains
func gvStrContains(s, sub string) bool { return gv.Any[bool]("contains") }

// Assumed contract of strings.LastIndexByte: the last place of c in s; -1 if there is none.
//
//gv:model strings.LastIndexByte
func gvLastIndexByte(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

// domainToReverseLabels does not panic, whatever the domain is.
//
//gv:prop C29
func GV_domainToReverseLabels(domain string) (labels []string, ok bool) {
	n := len(domain)
	gv.Loop("labels", func(domain string, reverseLabels []string) {
		gv.Inv(gv.Or(n > 0, gv.And(len(domain) == 0, len(reverseLabels) == 0)))
	})
	gv.Call(func() { labels, ok = domainToReverseLabels(domain) })
	gv.Ensure("nothing", gv.Implies(len(domain) == 0, gv.And(ok, len(labels) == 0)))
	return
}

// gvDomain: up to n bytes (bounded), ok is exactly: empty, or no empty label and no character outside 33..126.
func gvDomain(s string, n int) {
	gv.Requires(len(s) <= n)
	gv.Unroll(n + 2)
	gv.Inline(domainToReverseLabels)
	want := true
	prev := byte('.')
	for i := 0; i < len(s); i++ {
		c := s[i]
		want = gv.And(want, c >= 33, c <= 126, gv.Or(c != '.', prev != '.'))
		prev = c
	}
	want = gv.Or(len(s) == 0, gv.And(want, prev != '.'))
	var ok bool
	gv.Call(func() { _, ok = domainToReverseLabels(s) })
	gv.Ensure("exactly the domains", ok == want)
}

//gv:prop C29
func Prove_C29_Domain_bounded4(s string) { gvDomain(s, 4) }

// parseRFC2821Mailbox: no panic, and a mailbox that is accepted ends in '@' and its non-empty domain.
//
//gv:prop C29
func GV_parseRFC2821Mailbox(in string) (m rfc2821Mailbox, ok bool) {
	in0 := in
	gv.Loop("rest", func(in string) {
		p := gv.StrOffset(in, in0)
		gv.Inv(gv.And(0 <= p, p <= len(in0), p+len(in) == len(in0)))
	})
	gv.Call(func() { m, ok = parseRFC2821Mailbox(in) })
	gv.Ensure("nothing from nothing", gv.Implies(len(in) == 0, !ok))
	if ok {
		n := len(in) - len(m.domain)
		gv.Ensure("domain", gv.And(len(m.domain) > 0, n >= 1))
		gv.Ensure("after an at-sign", in[n-1] == '@')
		gv.Ensure("domain is the rest of the input", m.domain == in[n:])
	}
	return
}

// The validators do not panic, whatever they are given.
//
//gv:prop C29
func GV_isIA5String(s string) (err error) {
	gv.Call(func() { err = isIA5String(s) })
	gv.Ensure("nothing", gv.Implies(len(s) == 0, err == nil))
	return
}

//gv:prop C29
func GV_isValidIPMask(mask []byte) (r bool) {
	gv.Call(func() { r = isValidIPMask(mask) })
	gv.Ensure("nothing", gv.Implies(len(mask) == 0, r))
	return
}
