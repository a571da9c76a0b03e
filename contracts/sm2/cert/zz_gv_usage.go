package cert

import (
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"

	gv "github.com/ZZMarquis/gm/zzgv"
)

// gvBitsOf: bit 7-i of the result is bit i of b (X.680: the first named bit is the top bit of an octet).
func gvMirror(b byte) byte {
	var r byte
	for i := 0; i < 8; i++ {
		r |= b >> uint(i) & 1 << uint(7-i)
	}
	return r
}

//gv:prop C28
func GV_reverseBitsInAByte(in byte) (r byte) {
	gv.Call(func() { r = reverseBitsInAByte(in) })
	gv.Ensure("bits in reverse order", r == gvMirror(in))
	return
}

// gvUsage: the named bit string is u's: bit i of the string is bit i of u, below 16, up to the last one bit and no
// further.
func gvUsage(b asn1.BitString, u int) {
	n := len(b.Bytes)
	gv.Ensure("one or two octets", n == 1 || n == 2)
	if n != 1 && n != 2 {
		return
	}
	w := int(b.Bytes[0]) << 8
	if n == 2 {
		w |= int(b.Bytes[1])
	}
	same := true
	top := 0
	for i := 0; i < 16; i++ {
		same = gv.And(same, w>>uint(15-i)&1 == u>>uint(i)&1)
		top = gv.Ite(u>>uint(i)&1 == 1, i+1, top)
	}
	gv.Ensure("the bits", same)
	gv.Ensure("up to the last one bit", b.BitLength == top)
	gv.Ensure("no octet too many", gv.Or(n == 1, top > 8))
}

// The extension built for a key usage.
//
//gv:prop C28 C30
func Prove_C28_build(t *x509.Certificate, subjectIsEmpty bool) {
	gvBare(t, true)
	gv.Changes(&gvBitString)
	gv.Unroll(9)
	var exts []pkix.Extension
	var err error
	gv.Call(func() { exts, err = buildExtensions(t, subjectIsEmpty, nil) })
	if err != nil {
		return
	}
	if t.KeyUsage == 0 {
		gv.Ensure("none", len(exts) == 0)
		return
	}
	gv.Ensure("one", len(exts) == 1)
	if len(exts) != 1 {
		return
	}
	gv.Ensure("critical key usage", gv.And(gvOidCE(exts[0].Id, 15), exts[0].Critical))
	gvUsage(gvBitString, int(t.KeyUsage))
}

// gvOidCE: 2.5.29.x
func gvOidCE(o asn1.ObjectIdentifier, x int) bool {
	if len(o) != 4 {
		return false
	}
	return gv.And(o[0] == 2, o[1] == 5, o[2] == 29, o[3] == x)
}

// gvBare: nothing is configured, except maybe a key usage.
func gvBare(t *x509.Certificate, usage bool) {
	if !usage {
		gv.Requires(t.KeyUsage == 0)
	}
	gvNoLists(t)
	gv.Requires(len(t.ExtraExtensions) == 0)
}

func gvNoLists(t *x509.Certificate) {
	gv.Requires(!t.BasicConstraintsValid)
	gv.Requires(len(t.ExtKeyUsage) == 0)
	gv.Requires(len(t.UnknownExtKeyUsage) == 0)
	gv.Requires(len(t.SubjectKeyId) == 0)
	gv.Requires(len(t.OCSPServer) == 0)
	gv.Requires(len(t.IssuingCertificateURL) == 0)
	gv.Requires(len(t.DNSNames) == 0)
	gv.Requires(len(t.EmailAddresses) == 0)
	gv.Requires(len(t.IPAddresses) == 0)
	gv.Requires(len(t.URIs) == 0)
	gv.Requires(len(t.PolicyIdentifiers) == 0)
	gv.Requires(len(t.PermittedDNSDomains) == 0)
	gv.Requires(len(t.ExcludedDNSDomains) == 0)
	gv.Requires(len(t.PermittedIPRanges) == 0)
	gv.Requires(len(t.ExcludedIPRanges) == 0)
	gv.Requires(len(t.PermittedEmailAddresses) == 0)
	gv.Requires(len(t.ExcludedEmailAddresses) == 0)
	gv.Requires(len(t.PermittedURIDomains) == 0)
	gv.Requires(len(t.ExcludedURIDomains) == 0)
	gv.Requires(len(t.CRLDistributionPoints) == 0)
}

//gv:prop C28
func Prove_C28_bitLength_zero(b []byte) {
	n := len(b)
	gv.Requires(n < 1<<40)
	gv.RequiresEach(b, 0, n, func(k int) byte { return 0 })
	var l int
	gv.Inline(asn1BitLength)
	gv.Call(func() { l = asn1BitLength(b) })
	gv.Ensure("none", l == 0)
}

// gvEku: the extended key usage an OID is registered for (RFC 5280, 4.2.1.12 and its vendors); -1 if it is none.
func gvEku(o asn1.ObjectIdentifier) int {
	n := len(o)
	if n < 5 || n > 10 {
		return -1
	}
	if n == 5 {
		return gv.Ite(gv.And(o[0] == 2, o[1] == 5, o[2] == 29, o[3] == 37, o[4] == 0), int(x509.ExtKeyUsageAny), -1)
	}
	if n == 7 {
		return gv.Ite(gv.And(o[0] == 2, o[1] == 16, o[2] == 840, o[3] == 1, o[4] == 113730, o[5] == 4, o[6] == 1), int(x509.ExtKeyUsageNetscapeServerGatedCrypto), -1)
	}
	if n == 9 {
		// id-kp 1..9 in the order of crypto/x509's constants
		kp := gv.And(o[0] == 1, o[1] == 3, o[2] == 6, o[3] == 1, o[4] == 5, o[5] == 5, o[6] == 7, o[7] == 3)
		return gv.Ite(gv.And(kp, 1 <= o[8], o[8] <= 9), o[8], -1)
	}
	if n == 10 {
		ms := gv.And(o[0] == 1, o[1] == 3, o[2] == 6, o[3] == 1, o[4] == 4, o[5] == 1, o[6] == 311)
		if ms && o[7] == 10 && o[8] == 3 && o[9] == 3 {
			return int(x509.ExtKeyUsageMicrosoftServerGatedCrypto)
		}
		if ms && o[7] == 2 && o[8] == 1 && o[9] == 22 {
			return int(x509.ExtKeyUsageMicrosoftCommercialCodeSigning)
		}
		if ms && o[7] == 61 && o[8] == 1 && o[9] == 1 {
			return int(x509.ExtKeyUsageMicrosoftKernelCodeSigning)
		}
	}
	return -1
}

//gv:prop C28
func GV_extKeyUsageFromOID(oid asn1.ObjectIdentifier) (eku x509.ExtKeyUsage, ok bool) {
	w := gvEku(oid)
	gv.Call(func() { eku, ok = extKeyUsageFromOID(oid) })
	gv.Ensure("defined", ok == (w >= 0))
	gv.Ensure("usage", gv.Implies(ok, int(eku) == w))
	return
}

//gv:prop C28
func GV_oidFromExtKeyUsage(eku x509.ExtKeyUsage) (oid asn1.ObjectIdentifier, ok bool) {
	gv.Call(func() { oid, ok = oidFromExtKeyUsage(eku) })
	gv.Ensure("defined", ok == (0 <= eku && eku <= 13))
	gv.Ensure("registered", gv.Implies(ok, gvEku(oid) == int(eku)))
	return
}

// x509's own numbering is what the two tables above take it to be.
//
//gv:prop C28
func Prove_C28_numbering() {
	gv.Ensure("id-kp", x509.ExtKeyUsageServerAuth == 1 && x509.ExtKeyUsageClientAuth == 2 && x509.ExtKeyUsageCodeSigning == 3 &&
		x509.ExtKeyUsageEmailProtection == 4 && x509.ExtKeyUsageIPSECEndSystem == 5 && x509.ExtKeyUsageIPSECTunnel == 6 &&
		x509.ExtKeyUsageIPSECUser == 7 && x509.ExtKeyUsageTimeStamping == 8 && x509.ExtKeyUsageOCSPSigning == 9)
}

// The key usage read from a certificate whose only extension it is.
//
//gv:prop C28
func Prove_C28_parse(in *certificate) {
	gvBitsOK(in.SignatureValue)
	gvBitsOK(in.TBSCertificate.PublicKey.PublicKey)
	exts := in.TBSCertificate.Extensions
	gv.Requires(len(exts) == 1 && gvOidCE(exts[0].Id, 15))
	gv.Changes(&gvBitsRead, &gvOID, &gvOIDRest)
	gv.Unroll(9)
	var c *x509.Certificate
	var err error
	gv.Inline(parseCertificate)
	gv.Call(func() { c, err = parseCertificate(in) })
	if err != nil {
		return
	}
	u := 0
	for i := 0; i < 9; i++ {
		u |= gvBitAt(gvBitsRead, i) << uint(i)
	}
	gv.Ensure("the nine bits", int(c.KeyUsage) == u)
	gv.Ensure("no unhandled extension", len(c.UnhandledCriticalExtensions) == 0)
}
