// Package zzgv declares the specification vocabulary. The bodies are placeholders: the verifier
// interprets every one of these functions itself and never executes them.
package zzgv

import "math/big"

// Requires states a precondition of the function under contract.
func Requires(c bool) {}

// RequiresNil: the pointer *p is nil (p is a pointer to a pointer).
func RequiresNil(p interface{}) {}

// Assume adds an unchecked assumption; every use is listed in the evidence.
func Assume(c bool, why string) {}

// Ensure states a postcondition (proved in the body's proof, assumed at call sites).
func Ensure(name string, c bool) {}

// Lemma is proved wherever it stands and then available.
func Lemma(name string, c bool) {}

// EnsureIs: s[k] == f(k) for every lo <= k < hi.
func EnsureIs[T any](name string, s []T, lo, hi int, f func(int) T) {}

// EnsureEq: a and b have the same length and elements.
func EnsureEq[T any](name string, a, b []T) {}

// Set: *p == v afterwards.
func Set[T any](p *T, v T) {}

// Modifies lists pointers and slices the call may write to; everything else must stay unchanged.
func Modifies(xs ...interface{}) {}

// Changes: like Modifies for pointers, and the references in what they point to may become any others.
func Changes(xs ...interface{}) {}

// Call performs the call under contract; it must not panic.
func Call(f func()) {}

// Try performs the call under contract and reports whether it panicked.
func Try(f func()) bool { return false }

// Snap is the slice content at this point.
func Snap[T any](s []T) []T { return s }

// RequiresEach assumes s[k] == f(k) for lo <= k < hi.
func RequiresEach[T any](s []T, lo, hi int, f func(int) T) {}

// Seq is the ghost sequence f(0), …, f(n-1).
func Seq[T any](n int, f func(int) T) []T { return nil }

// Rec is the sequence of length n with s[i] == f(s, i), f using earlier elements only.
func Rec[T any](name string, n int, f func(s []T, i int) T) []T { return nil }

// Stride splits quantified indices into i = n*j + c.
func Stride(n int) {}

// Loop offers a loop invariant template to the loops met during the proof.
func Loop(name string, f interface{}) {}

// Inv is one clause of a loop invariant template.
func Inv(c bool) {}

// InvIs is one clause of a loop invariant template: s[k] == f(k) for lo <= k < hi.
func InvIs[T any](s []T, lo, hi int, f func(int) T) {}

// And, Or, Implies and Ite are the strict logical connectives (no branching).
func And(cs ...bool) bool         { return true }
func Or(cs ...bool) bool          { return true }
func Implies(a, b bool) bool      { return true }
func Ite[T any](c bool, a, b T) T { return a }

// Any is an arbitrary value.
func Any[T any](name string) (t T) { return }

// Known: x or y, which are equal; the one the verifier knows the value of, if there is one.
func Known(x, y int) int { return x }

// Havoc: *p is an arbitrary value from here on.
func Havoc(p interface{}) {}

func Unroll(n int)                {}
func Option(name string)          {}
func Inline(fs ...interface{})    {}
func Opaque(fs ...interface{})    {}
func Reveal(fs ...interface{})    {}
func Cover(name string)           {}
func Fresh[T any](s []T) bool     { return true }
func Shares[T any](a, b []T) bool { return true }
func Offset[T any](x, y []T) int  { return 0 }

// StrOffset: position of x within the string y it was cut from (-1: it was not).
func StrOffset(x, y string) int { return 0 }

// UF… apply an uninterpreted function to the scalars its arguments consist of.
func UFBool(name string, args ...interface{}) bool  { return false }
func UFByte(name string, args ...interface{}) byte  { return 0 }
func UFU32(name string, args ...interface{}) uint32 { return 0 }
func UFU64(name string, args ...interface{}) uint64 { return 0 }
func UFInt(name string, args ...interface{}) int    { return 0 }

// CopyState is a copy of the state p points to.
func CopyState[T any](p *T) *T { return p }

// Concrete splits the proof on the values lo..hi of x.
func Concrete(x, lo, hi int) int { return x }

func DeepEqual(name string, a, b interface{}) {}
func IsType(a, b interface{}) bool            { return true }
func SameObj(a, b interface{}) bool           { return true }

// BE is byte i of the n-byte big-endian rendering of |x|.
func BE(x *big.Int, n, i int) byte { return 0 }

// Val is the integer with the big-endian bytes b.
func Val(b []byte) *big.Int { return nil }

// FreshPtr: p points to memory the call allocated.
func FreshPtr[T any](p *T) bool { return true }

// RequiresIs: *p holds v (the same objects).
func RequiresIs[T any](p *T, v T) {}

// RequiresSM3: the hash.Hash is an SM3 digest, in any state; the call may change that state.
func RequiresSM3(h interface{}) {}

// SM3 is the SM3 hash of the concatenation of its arguments.
func SM3(parts ...[]byte) (d [32]byte) { return }

// PX, PY are the coordinates of [k]G on the SM2 curve, (0,0) for the point at infinity.
func PX(k *big.Int) *big.Int { return nil }
func PY(k *big.Int) *big.Int { return nil }

// OnCurve: (x,y) is an affine point of the SM2 curve, with coordinates in [0,p).
func OnCurve(x, y *big.Int) bool { return true }

// DLog is the k with [k]G = (x,y).
func DLog(x, y *big.Int) *big.Int { return nil }

// Draws: the function under contract may draw randomness.
func Draws() {}

// LastDraw is the value last drawn, DrawnFrom whether it came from that source, DrawFailed whether the source failed.
func LastDraw() *big.Int             { return nil }
func DrawnFrom(src interface{}) bool { return true }
func DrawFailed() bool               { return true }
