package cert

import (
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"net"
	"net/url"

	"github.com/ZZMarquis/gm/sm2"
	gv "github.com/ZZMarquis/gm/zzgv"
)

// parseSANExtension, forEachSAN: no panic, whatever the bytes are.
//
//gv:prop C29
func GV_parseSANExtension(value []byte) (dns, emails []string, ips []net.IP, uris []*url.URL, err error) {
	gv.Call(func() { dns, emails, ips, uris, err = parseSANExtension(value) })
	return
}

//gv:prop C29
func GV_parseNameConstraintsExtension(out *x509.Certificate, e pkix.Extension) (unhandled bool, err error) {
	gv.Changes(&out.PermittedDNSDomainsCritical,
		&out.PermittedDNSDomains, &out.PermittedIPRanges, &out.PermittedEmailAddresses, &out.PermittedURIDomains,
		&out.ExcludedDNSDomains, &out.ExcludedIPRanges, &out.ExcludedEmailAddresses, &out.ExcludedURIDomains)
	gv.Option("fewcands")
	gv.Unroll(0)
	gv.Call(func() { unhandled, err = parseNameConstraintsExtension(out, e) })
	return
}

// parsePublicKey: the parameters are the OID of the SM2 curve and nothing else, and the key is a point of that
// curve, the one in the bit string.
//
//gv:prop C27
func GV_parsePublicKey(keyData *publicKeyInfo) (k interface{}, err error) {
	gvBitsOK(keyData.PublicKey)
	gv.Changes(&gvBitsRead, &gvOID, &gvOIDRest)
	gv.Call(func() { k, err = parsePublicKey(keyData) })
	if err != nil {
		gv.Ensure("nothing with an error", k == nil)
		return
	}
	gv.Ensure("the curve's OID, alone", gv.And(gvOidIs(gvOID, 301), gvOIDRest == 0))
	pub, ok := k.(*sm2.PublicKey)
	gv.Ensure("an SM2 key", ok)
	if !ok {
		return
	}
	gv.Ensure("a point of it", gv.OnCurve(pub.X, pub.Y))
	if b := keyData.PublicKey; b.BitLength&7 == 0 {
		gv.Ensure("uncompressed", len(b.Bytes) == 65 && b.Bytes[0] == 4)
		gv.Ensure("x", pub.X.Cmp(gv.Val(b.Bytes[1:33])) == 0)
		gv.Ensure("y", pub.Y.Cmp(gv.Val(b.Bytes[33:65])) == 0)
	}
	return
}

// The key has the curve of package sm2.
//
//gv:prop C27
func Prove_C27_parsePublicKey_curve(keyData *publicKeyInfo) {
	gvBitsOK(keyData.PublicKey)
	gv.Changes(&gvBitsRead, &gvOID, &gvOIDRest)
	gv.Inline(parsePublicKey)
	var k interface{}
	var err error
	gv.Call(func() { k, err = parsePublicKey(keyData) })
	if pub, ok := k.(*sm2.PublicKey); ok && err == nil {
		gv.Set(&pub.Curve, sm2.GetSm2P256V1())
	}
}

// gvBitsOK: what encoding/asn1 guarantees of a bit string.
func gvBitsOK(b asn1.BitString) {
	pad := 8*len(b.Bytes) - b.BitLength
	gv.Requires(gv.And(len(b.Bytes) < 1<<40, 0 <= pad, pad <= 7, gv.Or(pad == 0, len(b.Bytes) > 0)))
}

// parseCertificate: what parseCertificate lets pass, for every decoded certificate.
//
//gv:prop C27
func GV_parseCertificate(in *certificate) (c *x509.Certificate, err error) {
	gvBitsOK(in.SignatureValue)
	gvBitsOK(in.TBSCertificate.PublicKey.PublicKey)
	gv.Unroll(0)
	gv.Option("fewcands")
	gv.Changes(&gvBitsRead, &gvOID, &gvOIDRest)
	gv.Call(func() { c, err = parseCertificate(in) })
	if err != nil {
		gv.Ensure("nothing with an error", c == nil)
		return
	}
	gvCertOK(in, c)
	return
}

func gvCertOK(in *certificate, c *x509.Certificate) {
	t := &in.TBSCertificate
	gv.Ensure("signature algorithm", gv.And(gvOidIs(in.SignatureAlgorithm.Algorithm, 501), gvOidIs(t.SignatureAlgorithm.Algorithm, 501)))
	gv.Ensure("key algorithm", gvIsECKey(t.PublicKey.Algorithm.Algorithm))
	gv.Ensure("curve", gv.And(gvOidIs(gvOID, 301), gvOIDRest == 0))
	pub, ok := c.PublicKey.(*sm2.PublicKey)
	gv.Ensure("an SM2 key", ok)
	if ok {
		gv.Ensure("a point of the curve", gv.OnCurve(pub.X, pub.Y))
		if b := t.PublicKey.PublicKey; b.BitLength&7 == 0 {
			gv.Ensure("uncompressed", len(b.Bytes) == 65 && b.Bytes[0] == 4)
			gv.Ensure("x", pub.X.Cmp(gv.Val(b.Bytes[1:33])) == 0)
			gv.Ensure("y", pub.Y.Cmp(gv.Val(b.Bytes[33:65])) == 0)
		}
	}
	gv.EnsureEq("raw", c.Raw, in.Raw)
	gv.EnsureEq("raw to-be-signed part", c.RawTBSCertificate, t.Raw)
	gv.EnsureEq("raw key", c.RawSubjectPublicKeyInfo, t.PublicKey.Raw)
	gv.EnsureEq("raw subject", c.RawSubject, t.Subject.FullBytes)
	gv.EnsureEq("raw issuer", c.RawIssuer, t.Issuer.FullBytes)
	if in.SignatureValue.BitLength&7 == 0 {
		gv.EnsureEq("signature", c.Signature, in.SignatureValue.Bytes)
	}
}

// gvIsECKey: 1.2.840.10045.2.1
func gvIsECKey(o asn1.ObjectIdentifier) bool {
	if len(o) != 6 {
		return false
	}
	return gv.And(o[0] == 1, o[1] == 2, o[2] == 840, o[3] == 10045, o[4] == 2, o[5] == 1)
}

// ParseCertificate: what is accepted was the whole of the input.
//
//gv:prop C27
func Prove_C27_ParseCertificate(b []byte) {
	var c *x509.Certificate
	var err error
	gv.Changes(&gvBitsRead, &gvOID, &gvOIDRest, &gvCert, &gvRest)
	gv.Call(func() { c, err = ParseCertificate(b) })
	if err != nil {
		gv.Ensure("nothing with an error", c == nil)
		return
	}
	gv.Ensure("the whole input", gvRest == 0)
	gvCertOK(&gvCert, c)
}

// gvOidIs: 1.2.156.10197.1.x
func gvOidIs(o asn1.ObjectIdentifier, x int) bool {
	if len(o) != 6 {
		return false
	}
	return gv.And(o[0] == 1, o[1] == 2, o[2] == 156, o[3] == 10197, o[4] == 1, o[5] == x)
}

// parseRawAttributes, parseCSRExtensions: no panic, whatever was decoded.
//
//gv:prop C27
func GV_parseRawAttributes(rawAttributes []asn1.RawValue) (attrs []pkix.AttributeTypeAndValueSET) {
	gv.Unroll(0)
	gv.Option("fewcands")
	gv.Call(func() { attrs = parseRawAttributes(rawAttributes) })
	return
}

//gv:prop C27
func GV_parseCSRExtensions(rawAttributes []asn1.RawValue) (exts []pkix.Extension, err error) {
	gv.Unroll(0)
	gv.Option("fewcands")
	gv.Call(func() { exts, err = parseCSRExtensions(rawAttributes) })
	return
}

// parseCertificateRequest: what it lets pass, for every decoded request.
//
//gv:prop C27
func GV_parseCertificateRequest(in *certificateRequest) (c *x509.CertificateRequest, err error) {
	gvBitsOK(in.SignatureValue)
	gvBitsOK(in.TBSCSR.PublicKey.PublicKey)
	gv.Unroll(0)
	gv.Option("fewcands")
	gv.Changes(&gvBitsRead, &gvOID, &gvOIDRest)
	gv.Call(func() { c, err = parseCertificateRequest(in) })
	if err != nil {
		gv.Ensure("nothing with an error", c == nil)
		return
	}
	gvReqOK(in, c)
	return
}

func gvReqOK(in *certificateRequest, c *x509.CertificateRequest) {
	t := &in.TBSCSR
	gv.Ensure("signature algorithm", gvOidIs(in.SignatureAlgorithm.Algorithm, 501))
	gv.Ensure("key algorithm", gvIsECKey(t.PublicKey.Algorithm.Algorithm))
	gv.Ensure("curve", gv.And(gvOidIs(gvOID, 301), gvOIDRest == 0))
	pub, ok := c.PublicKey.(*sm2.PublicKey)
	gv.Ensure("an SM2 key", ok)
	if ok {
		gv.Ensure("a point of the curve", gv.OnCurve(pub.X, pub.Y))
		if b := t.PublicKey.PublicKey; b.BitLength&7 == 0 {
			gv.Ensure("uncompressed", len(b.Bytes) == 65 && b.Bytes[0] == 4)
			gv.Ensure("x", pub.X.Cmp(gv.Val(b.Bytes[1:33])) == 0)
			gv.Ensure("y", pub.Y.Cmp(gv.Val(b.Bytes[33:65])) == 0)
		}
	}
	gv.EnsureEq("raw", c.Raw, in.Raw)
	gv.EnsureEq("raw to-be-signed part", c.RawTBSCertificateRequest, t.Raw)
	gv.EnsureEq("raw key", c.RawSubjectPublicKeyInfo, t.PublicKey.Raw)
	gv.EnsureEq("raw subject", c.RawSubject, t.Subject.FullBytes)
	if in.SignatureValue.BitLength&7 == 0 {
		gv.EnsureEq("signature", c.Signature, in.SignatureValue.Bytes)
	}
}

// ParseCertificateRequest: what is accepted was the whole of the input.
//
//gv:prop C27
func Prove_C27_ParseCertificateRequest(b []byte) {
	var c *x509.CertificateRequest
	var err error
	gv.Changes(&gvBitsRead, &gvOID, &gvOIDRest, &gvCSR, &gvRest)
	gv.Call(func() { c, err = ParseCertificateRequest(b) })
	if err != nil {
		gv.Ensure("nothing with an error", c == nil)
		return
	}
	gv.Ensure("the whole input", gvRest == 0)
	gvReqOK(&gvCSR, c)
}
