package cert

import (
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"errors"
	"net"
	"net/url"

	"github.com/ZZMarquis/gm/cryptobyte"
	cryptobyte_asn1 "github.com/ZZMarquis/gm/cryptobyte/asn1"
	gv "github.com/ZZMarquis/gm/zzgv"
)

// What buildExtensions needs of others: that they do not panic, not what they encode.

//gv:model (*github.com/ZZMarquis/gm/cryptobyte.Builder).AddASN1
func gvAddASN1(b *cryptobyte.Builder, tag cryptobyte_asn1.Tag, f cryptobyte.BuilderContinuation) {
	f(new(cryptobyte.Builder))
}

//gv:model (*github.com/ZZMarquis/gm/cryptobyte.Builder).AddBytes
func gvAddBytes(b *cryptobyte.Builder, v []byte) {}

//gv:model (*github.com/ZZMarquis/gm/cryptobyte.Builder).Bytes
func gvBytes(b *cryptobyte.Builder) ([]byte, error) {
	if gv.Any[bool]("build error") {
		return nil, errors.New("build")
	}
	return gv.Any[[]byte]("built"), nil
}

//gv:model (net.IP).Mask
func gvMask(ip net.IP, mask net.IPMask) net.IP {
	r := gv.Any[net.IP]("masked")
	gv.Assume(len(r) <= 16, "net.IP.Mask")
	return r
}

//gv:model (net.IP).To4
func gvTo4(ip net.IP) net.IP {
	r := gv.Any[net.IP]("ip4")
	gv.Assume(len(r) <= 4, "net.IP.To4")
	return r
}

//gv:model (*net/url.URL).String
func gvURLString(u *url.URL) string { return gv.Any[string]("url") }

// gvCount: how many of the extensions have the identifier 2.5.29.x (x > 0), or that of authority information access.
func gvCount(exts []pkix.Extension, x int) (n int, crit bool) {
	for i := 0; i < len(exts); i++ {
		e := exts[i]
		is := gv.Ite(x > 0, gvOidCE(e.Id, x), gvOidAIA(e.Id))
		n += gv.Ite(is, 1, 0)
		crit = gv.Or(crit, gv.And(is, e.Critical))
	}
	return
}

func gvOidAIA(o asn1.ObjectIdentifier) bool {
	if len(o) != 9 {
		return false
	}
	return gv.And(o[0] == 1, o[1] == 3, o[2] == 6, o[3] == 1, o[4] == 5, o[5] == 5, o[6] == 7, o[7] == 1, o[8] == 1)
}

func gvExt(exts []pkix.Extension, what string, x int, configured, critical bool) {
	n, crit := gvCount(exts, x)
	gv.Ensure(what+": one if it is configured, else none", n == gv.Ite(configured, 1, 0))
	gv.Ensure(what+": criticality", crit == gv.And(configured, critical))
}

// Every combination of attributes, lists of at most one element, no extension of the caller's; in four parts.
//
//gv:prop C30
func Prove_C30_combinations1_bounded1(t *x509.Certificate, subjectIsEmpty bool, akid []byte) {
	gv.Requires(t.BasicConstraintsValid && len(t.DNSNames) == 1)
	gvCombinations(t, subjectIsEmpty, akid)
}

//gv:prop C30
func Prove_C30_combinations2_bounded1(t *x509.Certificate, subjectIsEmpty bool, akid []byte) {
	gv.Requires(!t.BasicConstraintsValid && len(t.DNSNames) == 1)
	gvCombinations(t, subjectIsEmpty, akid)
}

//gv:prop C30
func Prove_C30_combinations3_bounded1(t *x509.Certificate, subjectIsEmpty bool, akid []byte) {
	gv.Requires(t.BasicConstraintsValid && len(t.DNSNames) == 0)
	gvCombinations(t, subjectIsEmpty, akid)
}

//gv:prop C30
func Prove_C30_combinations4_bounded1(t *x509.Certificate, subjectIsEmpty bool, akid []byte) {
	gv.Requires(!t.BasicConstraintsValid && len(t.DNSNames) == 0)
	gvCombinations(t, subjectIsEmpty, akid)
}

func gvCombinations(t *x509.Certificate, subjectIsEmpty bool, akid []byte) {
	gv.Requires(len(t.ExtKeyUsage) <= 1 && len(t.UnknownExtKeyUsage) == 0)
	if len(t.ExtKeyUsage) == 1 {
		gv.Requires(t.ExtKeyUsage[0] == x509.ExtKeyUsageServerAuth)
	}
	gv.Requires(len(t.OCSPServer) <= 1 && len(t.IssuingCertificateURL) == 0)
	gv.Requires(len(t.DNSNames) <= 1 && len(t.EmailAddresses) == 0 && len(t.IPAddresses) == 0 && len(t.URIs) == 0)
	gv.Requires(len(t.PolicyIdentifiers) <= 1)
	gv.Requires(len(t.PermittedDNSDomains) <= 1 && len(t.ExcludedDNSDomains) == 0 && len(t.PermittedIPRanges) == 0 && len(t.ExcludedIPRanges) == 0)
	gv.Requires(len(t.PermittedEmailAddresses) == 0 && len(t.ExcludedEmailAddresses) == 0 && len(t.PermittedURIDomains) == 0 && len(t.ExcludedURIDomains) == 0)
	gv.Requires(len(t.CRLDistributionPoints) <= 1 && len(t.ExtraExtensions) == 0)
	gv.Requires(t.KeyUsage <= 1)
	gv.Changes(&gvBitString)
	gv.Unroll(17)
	gv.Option("morepaths")
	var exts []pkix.Extension
	var err error
	gv.Call(func() { exts, err = buildExtensions(t, subjectIsEmpty, akid) })
	if err != nil {
		return
	}
	gvExt(exts, "key usage", 15, t.KeyUsage != 0, true)
	gvExt(exts, "extended key usage", 37, len(t.ExtKeyUsage) > 0, false)
	gvExt(exts, "basic constraints", 19, t.BasicConstraintsValid, true)
	gvExt(exts, "subject key id", 14, len(t.SubjectKeyId) > 0, false)
	gvExt(exts, "authority key id", 35, len(akid) > 0, false)
	gvExt(exts, "authority information access", 0, len(t.OCSPServer) > 0, false)
	gvExt(exts, "alternative names", 17, len(t.DNSNames) > 0, subjectIsEmpty)
	gvExt(exts, "policies", 32, len(t.PolicyIdentifiers) > 0, false)
	gvExt(exts, "name constraints", 30, len(t.PermittedDNSDomains) > 0, t.PermittedDNSDomainsCritical)
	gvExt(exts, "CRL distribution points", 31, len(t.CRLDistributionPoints) > 0, false)
	gv.Ensure("no others", len(exts) == gvOne(t.KeyUsage != 0)+gvOne(len(t.ExtKeyUsage) > 0)+gvOne(t.BasicConstraintsValid)+
		gvOne(len(t.SubjectKeyId) > 0)+gvOne(len(akid) > 0)+gvOne(len(t.OCSPServer) > 0)+gvOne(len(t.DNSNames) > 0)+
		gvOne(len(t.PolicyIdentifiers) > 0)+gvOne(len(t.PermittedDNSDomains) > 0)+gvOne(len(t.CRLDistributionPoints) > 0))
}

func gvOne(b bool) int { return gv.Ite(b, 1, 0) }

func gvConstrained(t *x509.Certificate) bool {
	return len(t.PermittedDNSDomains) > 0 || len(t.ExcludedDNSDomains) > 0 || len(t.PermittedIPRanges) > 0 || len(t.ExcludedIPRanges) > 0 ||
		len(t.PermittedEmailAddresses) > 0 || len(t.ExcludedEmailAddresses) > 0 || len(t.PermittedURIDomains) > 0 || len(t.ExcludedURIDomains) > 0
}

// gvAlone: the extension x (see gvCount), the only one configured if it is, next to the caller's extensions.
func gvAlone(t *x509.Certificate, subjectIsEmpty bool, akid []byte, x int, configured, critical bool) {
	gv.Requires(len(t.ExtraExtensions) <= 2)
	gv.Changes(&gvBitString)
	gv.Unroll(17)
	gv.Option("morepaths")
	extra, _ := gvCount(t.ExtraExtensions, x)
	m := len(t.ExtraExtensions)
	var exts []pkix.Extension
	var err error
	gv.Call(func() { exts, err = buildExtensions(t, subjectIsEmpty, akid) })
	if err != nil {
		return
	}
	own := configured && extra == 0
	gv.Ensure("generated unless the caller gives it", len(exts) == m+gv.Ite(own, 1, 0))
	if own && len(exts) > 0 {
		n, crit := gvCount(exts[:1], x)
		gv.Ensure("its identifier", n == 1)
		gv.Ensure("its criticality", crit == critical)
	}
	for i := 0; i < m && len(exts) >= m; i++ {
		g, w := exts[len(exts)-m+i], t.ExtraExtensions[i]
		gv.Ensure("the caller's criticality", g.Critical == w.Critical)
		gv.EnsureEq("the caller's identifier", g.Id, w.Id)
		gv.EnsureEq("the caller's value", g.Value, w.Value)
	}
}

//gv:prop C30
func Prove_C30_keyUsage_bounded2(t *x509.Certificate, subjectIsEmpty bool, akid []byte) {
	gv.Requires(len(t.ExtKeyUsage) == 0 && len(t.UnknownExtKeyUsage) == 0 && !t.BasicConstraintsValid && len(t.SubjectKeyId) == 0 && len(t.OCSPServer) == 0 && len(t.IssuingCertificateURL) == 0 && len(t.DNSNames) == 0 && len(t.EmailAddresses) == 0 && len(t.IPAddresses) == 0 && len(t.URIs) == 0 && len(t.PolicyIdentifiers) == 0 && len(t.PermittedDNSDomains) == 0 && len(t.ExcludedDNSDomains) == 0 && len(t.PermittedIPRanges) == 0 && len(t.ExcludedIPRanges) == 0 && len(t.PermittedEmailAddresses) == 0 && len(t.ExcludedEmailAddresses) == 0 && len(t.PermittedURIDomains) == 0 && len(t.ExcludedURIDomains) == 0 && len(t.CRLDistributionPoints) == 0 && len(akid) == 0)
	gvAlone(t, subjectIsEmpty, akid, 15, t.KeyUsage != 0, true)
}

//gv:prop C30
func Prove_C30_extKeyUsage_bounded2(t *x509.Certificate, subjectIsEmpty bool, akid []byte) {
	gv.Requires(t.KeyUsage == 0 && !t.BasicConstraintsValid && len(t.SubjectKeyId) == 0 && len(t.OCSPServer) == 0 && len(t.IssuingCertificateURL) == 0 && len(t.DNSNames) == 0 && len(t.EmailAddresses) == 0 && len(t.IPAddresses) == 0 && len(t.URIs) == 0 && len(t.PolicyIdentifiers) == 0 && len(t.PermittedDNSDomains) == 0 && len(t.ExcludedDNSDomains) == 0 && len(t.PermittedIPRanges) == 0 && len(t.ExcludedIPRanges) == 0 && len(t.PermittedEmailAddresses) == 0 && len(t.ExcludedEmailAddresses) == 0 && len(t.PermittedURIDomains) == 0 && len(t.ExcludedURIDomains) == 0 && len(t.CRLDistributionPoints) == 0 && len(akid) == 0)
	gv.Requires(len(t.ExtKeyUsage) <= 2 && len(t.UnknownExtKeyUsage) <= 2)
	gvAlone(t, subjectIsEmpty, akid, 37, len(t.ExtKeyUsage) > 0 || len(t.UnknownExtKeyUsage) > 0, false)
}

//gv:prop C30
func Prove_C30_basicConstraints_bounded2(t *x509.Certificate, subjectIsEmpty bool, akid []byte) {
	gv.Requires(t.KeyUsage == 0 && len(t.ExtKeyUsage) == 0 && len(t.UnknownExtKeyUsage) == 0 && len(t.SubjectKeyId) == 0 && len(t.OCSPServer) == 0 && len(t.IssuingCertificateURL) == 0 && len(t.DNSNames) == 0 && len(t.EmailAddresses) == 0 && len(t.IPAddresses) == 0 && len(t.URIs) == 0 && len(t.PolicyIdentifiers) == 0 && len(t.PermittedDNSDomains) == 0 && len(t.ExcludedDNSDomains) == 0 && len(t.PermittedIPRanges) == 0 && len(t.ExcludedIPRanges) == 0 && len(t.PermittedEmailAddresses) == 0 && len(t.ExcludedEmailAddresses) == 0 && len(t.PermittedURIDomains) == 0 && len(t.ExcludedURIDomains) == 0 && len(t.CRLDistributionPoints) == 0 && len(akid) == 0)
	gvAlone(t, subjectIsEmpty, akid, 19, t.BasicConstraintsValid, true)
}

//gv:prop C30
func Prove_C30_subjectKeyId_bounded2(t *x509.Certificate, subjectIsEmpty bool, akid []byte) {
	gv.Requires(t.KeyUsage == 0 && len(t.ExtKeyUsage) == 0 && len(t.UnknownExtKeyUsage) == 0 && !t.BasicConstraintsValid && len(t.OCSPServer) == 0 && len(t.IssuingCertificateURL) == 0 && len(t.DNSNames) == 0 && len(t.EmailAddresses) == 0 && len(t.IPAddresses) == 0 && len(t.URIs) == 0 && len(t.PolicyIdentifiers) == 0 && len(t.PermittedDNSDomains) == 0 && len(t.ExcludedDNSDomains) == 0 && len(t.PermittedIPRanges) == 0 && len(t.ExcludedIPRanges) == 0 && len(t.PermittedEmailAddresses) == 0 && len(t.ExcludedEmailAddresses) == 0 && len(t.PermittedURIDomains) == 0 && len(t.ExcludedURIDomains) == 0 && len(t.CRLDistributionPoints) == 0 && len(akid) == 0)
	gvAlone(t, subjectIsEmpty, akid, 14, len(t.SubjectKeyId) > 0, false)
}

//gv:prop C30
func Prove_C30_authorityKeyId_bounded2(t *x509.Certificate, subjectIsEmpty bool, akid []byte) {
	gv.Requires(t.KeyUsage == 0 && len(t.ExtKeyUsage) == 0 && len(t.UnknownExtKeyUsage) == 0 && !t.BasicConstraintsValid && len(t.SubjectKeyId) == 0 && len(t.OCSPServer) == 0 && len(t.IssuingCertificateURL) == 0 && len(t.DNSNames) == 0 && len(t.EmailAddresses) == 0 && len(t.IPAddresses) == 0 && len(t.URIs) == 0 && len(t.PolicyIdentifiers) == 0 && len(t.PermittedDNSDomains) == 0 && len(t.ExcludedDNSDomains) == 0 && len(t.PermittedIPRanges) == 0 && len(t.ExcludedIPRanges) == 0 && len(t.PermittedEmailAddresses) == 0 && len(t.ExcludedEmailAddresses) == 0 && len(t.PermittedURIDomains) == 0 && len(t.ExcludedURIDomains) == 0 && len(t.CRLDistributionPoints) == 0)
	gvAlone(t, subjectIsEmpty, akid, 35, len(akid) > 0, false)
}

//gv:prop C30
func Prove_C30_infoAccess_bounded2(t *x509.Certificate, subjectIsEmpty bool, akid []byte) {
	gv.Requires(t.KeyUsage == 0 && len(t.ExtKeyUsage) == 0 && len(t.UnknownExtKeyUsage) == 0 && !t.BasicConstraintsValid && len(t.SubjectKeyId) == 0 && len(t.DNSNames) == 0 && len(t.EmailAddresses) == 0 && len(t.IPAddresses) == 0 && len(t.URIs) == 0 && len(t.PolicyIdentifiers) == 0 && len(t.PermittedDNSDomains) == 0 && len(t.ExcludedDNSDomains) == 0 && len(t.PermittedIPRanges) == 0 && len(t.ExcludedIPRanges) == 0 && len(t.PermittedEmailAddresses) == 0 && len(t.ExcludedEmailAddresses) == 0 && len(t.PermittedURIDomains) == 0 && len(t.ExcludedURIDomains) == 0 && len(t.CRLDistributionPoints) == 0 && len(akid) == 0)
	gv.Requires(len(t.OCSPServer) <= 2 && len(t.IssuingCertificateURL) <= 2)
	gvAlone(t, subjectIsEmpty, akid, 0, len(t.OCSPServer) > 0 || len(t.IssuingCertificateURL) > 0, false)
}

//gv:prop C30
func Prove_C30_altNames_bounded2(t *x509.Certificate, subjectIsEmpty bool, akid []byte) {
	gv.Requires(t.KeyUsage == 0 && len(t.ExtKeyUsage) == 0 && len(t.UnknownExtKeyUsage) == 0 && !t.BasicConstraintsValid && len(t.SubjectKeyId) == 0 && len(t.OCSPServer) == 0 && len(t.IssuingCertificateURL) == 0 && len(t.PolicyIdentifiers) == 0 && len(t.PermittedDNSDomains) == 0 && len(t.ExcludedDNSDomains) == 0 && len(t.PermittedIPRanges) == 0 && len(t.ExcludedIPRanges) == 0 && len(t.PermittedEmailAddresses) == 0 && len(t.ExcludedEmailAddresses) == 0 && len(t.PermittedURIDomains) == 0 && len(t.ExcludedURIDomains) == 0 && len(t.CRLDistributionPoints) == 0 && len(akid) == 0)
	gv.Requires(len(t.DNSNames) <= 1 && len(t.EmailAddresses) <= 1 && len(t.IPAddresses) <= 1 && len(t.URIs) <= 1)
	for _, u := range t.URIs {
		gv.Requires(u != nil)
	}
	gvAlone(t, subjectIsEmpty, akid, 17, len(t.DNSNames) > 0 || len(t.EmailAddresses) > 0 || len(t.IPAddresses) > 0 || len(t.URIs) > 0, subjectIsEmpty)
}

//gv:prop C30
func Prove_C30_policies_bounded2(t *x509.Certificate, subjectIsEmpty bool, akid []byte) {
	gv.Requires(t.KeyUsage == 0 && len(t.ExtKeyUsage) == 0 && len(t.UnknownExtKeyUsage) == 0 && !t.BasicConstraintsValid && len(t.SubjectKeyId) == 0 && len(t.OCSPServer) == 0 && len(t.IssuingCertificateURL) == 0 && len(t.DNSNames) == 0 && len(t.EmailAddresses) == 0 && len(t.IPAddresses) == 0 && len(t.URIs) == 0 && len(t.PermittedDNSDomains) == 0 && len(t.ExcludedDNSDomains) == 0 && len(t.PermittedIPRanges) == 0 && len(t.ExcludedIPRanges) == 0 && len(t.PermittedEmailAddresses) == 0 && len(t.ExcludedEmailAddresses) == 0 && len(t.PermittedURIDomains) == 0 && len(t.ExcludedURIDomains) == 0 && len(t.CRLDistributionPoints) == 0 && len(akid) == 0)
	gv.Requires(len(t.PolicyIdentifiers) <= 2)
	gvAlone(t, subjectIsEmpty, akid, 32, len(t.PolicyIdentifiers) > 0, false)
}

//gv:prop C30
func Prove_C30_nameConstraints_bounded2(t *x509.Certificate, subjectIsEmpty bool, akid []byte) {
	gv.Requires(t.KeyUsage == 0 && len(t.ExtKeyUsage) == 0 && len(t.UnknownExtKeyUsage) == 0 && !t.BasicConstraintsValid && len(t.SubjectKeyId) == 0 && len(t.OCSPServer) == 0 && len(t.IssuingCertificateURL) == 0 && len(t.DNSNames) == 0 && len(t.EmailAddresses) == 0 && len(t.IPAddresses) == 0 && len(t.URIs) == 0 && len(t.PolicyIdentifiers) == 0 && len(t.CRLDistributionPoints) == 0 && len(akid) == 0)
	gv.Requires(len(t.PermittedDNSDomains) <= 1 && len(t.ExcludedDNSDomains) <= 1 && len(t.PermittedIPRanges) <= 1 && len(t.ExcludedIPRanges) <= 1 && len(t.PermittedEmailAddresses) <= 1 && len(t.ExcludedEmailAddresses) <= 1 && len(t.PermittedURIDomains) <= 1 && len(t.ExcludedURIDomains) <= 1)
	for _, n := range t.PermittedIPRanges {
		gv.Requires(n != nil && len(n.Mask) < 1<<20)
	}
	for _, n := range t.ExcludedIPRanges {
		gv.Requires(n != nil && len(n.Mask) < 1<<20)
	}
	gvAlone(t, subjectIsEmpty, akid, 30, gvConstrained(t), t.PermittedDNSDomainsCritical)
}

//gv:prop C30
func Prove_C30_distributionPoints_bounded2(t *x509.Certificate, subjectIsEmpty bool, akid []byte) {
	gv.Requires(t.KeyUsage == 0 && len(t.ExtKeyUsage) == 0 && len(t.UnknownExtKeyUsage) == 0 && !t.BasicConstraintsValid && len(t.SubjectKeyId) == 0 && len(t.OCSPServer) == 0 && len(t.IssuingCertificateURL) == 0 && len(t.DNSNames) == 0 && len(t.EmailAddresses) == 0 && len(t.IPAddresses) == 0 && len(t.URIs) == 0 && len(t.PolicyIdentifiers) == 0 && len(t.PermittedDNSDomains) == 0 && len(t.ExcludedDNSDomains) == 0 && len(t.PermittedIPRanges) == 0 && len(t.ExcludedIPRanges) == 0 && len(t.PermittedEmailAddresses) == 0 && len(t.ExcludedEmailAddresses) == 0 && len(t.PermittedURIDomains) == 0 && len(t.ExcludedURIDomains) == 0 && len(akid) == 0)
	gv.Requires(len(t.CRLDistributionPoints) <= 2)
	gvAlone(t, subjectIsEmpty, akid, 31, len(t.CRLDistributionPoints) > 0, false)
}

// CreateCertificateInfo: when the alternative names are critical, and which authority key id is used.
//
//gv:prop C30
func Prove_C30_CreateCertificateInfo_bounded(t, parent *x509.Certificate, csr *x509.CertificateRequest) {
	gv.Requires(t.KeyUsage == 0 && len(t.ExtKeyUsage) == 0 && len(t.UnknownExtKeyUsage) == 0 && !t.BasicConstraintsValid && len(t.SubjectKeyId) == 0 && len(t.OCSPServer) == 0 && len(t.IssuingCertificateURL) == 0 && len(t.EmailAddresses) == 0 && len(t.IPAddresses) == 0 && len(t.URIs) == 0 && len(t.PolicyIdentifiers) == 0 && !gvConstrained(t) && len(t.CRLDistributionPoints) == 0)
	gv.Requires(len(t.DNSNames) <= 1 && len(t.ExtraExtensions) == 0)
	gv.Changes(&gvOutTBS, &gvDER, &gvBitString)
	gv.Unroll(17)
	var c *TBSCertificate
	var err error
	gv.Call(func() { c, err = CreateCertificateInfo(t, parent, csr) })
	if err != nil {
		return
	}
	sub, iss := c.Subject.FullBytes, c.Issuer.FullBytes
	if len(t.RawSubject) > 0 {
		gv.EnsureEq("the subject", sub, t.RawSubject)
	}
	if len(parent.RawSubject) > 0 {
		gv.EnsureEq("the issuer", iss, parent.RawSubject)
	}
	empty := false
	if len(sub) == 2 {
		empty = gv.And(sub[0] == 0x30, sub[1] == 0)
	}
	gvExt(gvOutTBS.Extensions, "alternative names", 17, len(t.DNSNames) > 0, empty)
	n, crit := gvCount(gvOutTBS.Extensions, 35)
	gv.Ensure("authority key id: not critical", !crit)
	if len(t.AuthorityKeyId) > 0 {
		gv.Ensure("authority key id of the template", n == 1)
	}
	if len(t.AuthorityKeyId) == 0 && len(parent.SubjectKeyId) == 0 {
		gv.Ensure("no authority key id", n == 0)
	}
	if len(sub) != len(iss) && len(parent.SubjectKeyId) > 0 {
		gv.Ensure("authority key id of the parent", n == 1)
	}
	gv.Ensure("no others", len(gvOutTBS.Extensions) == n+gvOne(len(t.DNSNames) > 0))
}
