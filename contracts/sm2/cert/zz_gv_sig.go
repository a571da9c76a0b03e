package cert

import (
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"errors"
	"time"

	"github.com/ZZMarquis/gm/sm2"
	gv "github.com/ZZMarquis/gm/zzgv"
)

// What package sm2 was asked for last. That Sign's result verifies, and that Verify decides, are C11 and C12.
var (
	gvKey  *sm2.PrivateKey
	gvPub  *sm2.PublicKey
	gvId   []byte
	gvMsg  []byte
	gvSig  []byte
	gvGood bool
)

//gv:model github.com/ZZMarquis/gm/sm2.Sign
func gvSign(priv *sm2.PrivateKey, userId []byte, in []byte) ([]byte, error) {
	if gv.Any[bool]("sign error") {
		return nil, errors.New("sign")
	}
	s := gv.Any[[]byte]("signature")
	gv.Assume(0 < len(s) && len(s) < 1<<16, "sm2.Sign")
	gvKey, gvId, gvMsg, gvSig = priv, userId, in, s
	return s, nil
}

//gv:model github.com/ZZMarquis/gm/sm2.Verify
func gvVerify(pub *sm2.PublicKey, userId []byte, src []byte, sign []byte) bool {
	gvPub, gvId, gvMsg, gvSig = pub, userId, src, sign
	gvGood = gv.Any[bool]("verified")
	return gvGood
}

// VerifyCSRSign is sm2.Verify of the to-be-signed bytes under the request's own key.
//
//gv:prop C26
func Prove_C26_VerifyCSRSign(csr *x509.CertificateRequest, userId []byte) {
	var ok bool
	gv.Changes(&gvPub, &gvId, &gvMsg, &gvSig, &gvGood)
	gvPub = nil
	gv.Call(func() { ok = VerifyCSRSign(csr, userId) })
	pub, is := csr.PublicKey.(*sm2.PublicKey)
	if !is || pub == nil {
		gv.Ensure("false without an SM2 key", !ok)
		return
	}
	gv.Ensure("asked", gvPub != nil)
	if gvPub == nil {
		return
	}
	gv.Ensure("its own key", gvPub == pub)
	gv.EnsureEq("the id", gvId, userId)
	gv.EnsureEq("the to-be-signed bytes", gvMsg, csr.RawTBSCertificateRequest)
	gv.EnsureEq("the signature", gvSig, csr.Signature)
	gv.Ensure("the answer", ok == gvGood)
}

// VerifyDERCSRSign is the same of the request that was parsed.
//
//gv:prop C26
func Prove_C26_VerifyDERCSRSign(b []byte, userId []byte) {
	var ok bool
	var err error
	gv.Changes(&gvPub, &gvId, &gvMsg, &gvSig, &gvGood, &gvOID, &gvOIDRest, &gvCSR, &gvRest, &gvBitsRead)
	gvPub = nil
	gv.Call(func() { ok, err = VerifyDERCSRSign(b, userId) })
	if err != nil {
		gv.Ensure("false with an error", !ok)
		return
	}
	gv.Ensure("asked", gvPub != nil)
	gv.EnsureEq("the id", gvId, userId)
	gv.EnsureEq("the to-be-signed bytes", gvMsg, gvCSR.TBSCSR.Raw)
	if s := gvCSR.SignatureValue; s.BitLength&7 == 0 {
		gv.EnsureEq("the signature", gvSig, s.Bytes)
	}
	gv.Ensure("the answer", ok == gvGood)
}

// gvSigAlg: 1.2.156.10197.1.501 without parameters.
func gvSigAlg(a pkix.AlgorithmIdentifier) {
	gv.Ensure("signature algorithm", gvOidIs(a.Algorithm, 501))
	gv.Ensure("no parameters", len(a.Parameters.FullBytes) == 0)
}

// CreateCertificate: the structure given, the signature given.
//
//gv:prop C26
func Prove_C26_CreateCertificate(cinfo *TBSCertificate, signature []byte) {
	gv.Requires(len(signature) < 1<<40)
	gv.Changes(&gvOutCert, &gvDER)
	var der []byte
	var err error
	gv.Call(func() { der, err = CreateCertificate(cinfo, signature) })
	if err != nil {
		gv.Ensure("nothing with an error", der == nil)
		return
	}
	gvIssued(der, cinfo, signature)
}

func gvIssued(der []byte, cinfo *TBSCertificate, signature []byte) {
	gv.EnsureEq("the encoding of the certificate", der, gvDER)
	gv.DeepEqual("the to-be-signed structure", gvOutCert.TBSCertificate, *cinfo)
	gvSigAlg(gvOutCert.SignatureAlgorithm)
	gv.EnsureEq("the signature", gvOutCert.SignatureValue.Bytes, signature)
	gv.Ensure("all of it", gvOutCert.SignatureValue.BitLength == 8*len(signature))
}

// IssueCertificateBySoftCAKey: the signature is of the structure's bytes, by the key, for the id.
//
//gv:prop C26
func Prove_C26_Issue(cinfo *TBSCertificate, caPri *sm2.PrivateKey, userId []byte) {
	gv.Changes(&gvOutCert, &gvDER, &gvKey, &gvId, &gvMsg, &gvSig)
	var der []byte
	var err error
	gv.Call(func() { der, err = IssueCertificateBySoftCAKey(cinfo, caPri, userId) })
	if err != nil {
		gv.Ensure("nothing with an error", der == nil)
		return
	}
	gv.Ensure("the key", gvKey == caPri)
	gv.EnsureEq("the id", gvId, userId)
	gv.EnsureEq("the structure's bytes", gvMsg, cinfo.Raw)
	gvIssued(der, cinfo, gvSig)
}

//gv:model (crypto/x509/pkix.Name).ToRDNSequence
func gvToRDN(n pkix.Name) pkix.RDNSequence { return gv.Any[pkix.RDNSequence]("rdn") }

//gv:model (time.Time).UTC
func gvUTC(t time.Time) time.Time { return t }

// CreateCertificateInfo: the structure carries its own encoding and is labelled SM3 with SM2. (Templates whose
// only extensions are a key usage and one of the caller's; the others are C30's.)
//
//gv:prop C26
func Prove_C26_CreateCertificateInfo_bounded(t, parent *x509.Certificate, csr *x509.CertificateRequest) {
	gvNoLists(t)
	gv.Requires(len(t.ExtraExtensions) <= 1)
	gv.Changes(&gvOutTBS, &gvDER, &gvBitString)
	gv.Unroll(17)
	var c *TBSCertificate
	var err error
	gv.Call(func() { c, err = CreateCertificateInfo(t, parent, csr) })
	if err != nil {
		gv.Ensure("nothing with an error", c == nil)
		return
	}
	gv.EnsureEq("its encoding", c.Raw, gvDER)
	gv.Ensure("the encoding is of this", gvOutTBS.SerialNumber == c.SerialNumber && gvOutTBS.Version == c.Version)
	gv.Ensure("of the serial number", c.SerialNumber == t.SerialNumber)
	gv.EnsureEq("of this subject", gvOutTBS.Subject.FullBytes, c.Subject.FullBytes)
	gv.EnsureEq("of this issuer", gvOutTBS.Issuer.FullBytes, c.Issuer.FullBytes)
	gv.EnsureEq("of this key", gvOutTBS.PublicKey.PublicKey.Bytes, c.PublicKey.PublicKey.Bytes)
	gv.Ensure("of these extensions", len(gvOutTBS.Extensions) == len(c.Extensions))
	gvSigAlg(c.SignatureAlgorithm)
	gvSigAlg(gvOutTBS.SignatureAlgorithm)
}

// CreateCertificateRequest: what is embedded is what was signed.
//
//gv:prop C26
func Prove_C26_CreateCertificateRequest_bounded(t *x509.CertificateRequest, pub *sm2.PublicKey, pri *sm2.PrivateKey, userId []byte) {
	gv.Requires(pub.X.Sign() >= 0 && pub.X.BitLen() <= 256 && pub.Y.Sign() >= 0 && pub.Y.BitLen() <= 256)
	gv.Requires(len(t.DNSNames) <= 1 && len(t.EmailAddresses) == 0 && len(t.IPAddresses) == 0 && len(t.URIs) == 0)
	gv.Requires(len(t.ExtraExtensions) <= 1 && len(t.Attributes) <= 1)
	for _, a := range t.Attributes {
		gv.Requires(len(a.Value) <= 1)
		for _, v := range a.Value {
			gv.Requires(len(v) <= 1)
		}
	}
	gv.Changes(&gvOutCSR, &gvOutTBSCSR, &gvTBSDER, &gvDER, &gvKey, &gvId, &gvMsg, &gvSig)
	var der []byte
	var err error
	gv.Call(func() { der, err = CreateCertificateRequest(t, pub, pri, userId) })
	if err != nil {
		gv.Ensure("nothing with an error", der == nil)
		return
	}
	gv.EnsureEq("the encoding of the request", der, gvDER)
	gv.Ensure("the key", gvKey == pri)
	gv.EnsureEq("the id", gvId, userId)
	gv.EnsureEq("signed: the encoding of the structure", gvMsg, gvTBSDER)
	gv.EnsureEq("embedded: what was signed", gvOutCSR.TBSCSR.Raw, gvMsg)
	gv.EnsureEq("the structure's key", gvOutTBSCSR.PublicKey.PublicKey.Bytes, gvOutCSR.TBSCSR.PublicKey.PublicKey.Bytes)
	gvSigAlg(gvOutCSR.SignatureAlgorithm)
	gv.EnsureEq("the signature", gvOutCSR.SignatureValue.Bytes, gvSig)
	gv.Ensure("all of it", gvOutCSR.SignatureValue.BitLength == 8*len(gvSig))
}

//gv:model (encoding/asn1.ObjectIdentifier).String
func gvOidString(o asn1.ObjectIdentifier) string { return gv.Any[string]("oid") }
