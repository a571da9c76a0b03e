package cert

import (
	"bytes"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/hex"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/zzorc"
	"github.com/ZZMarquis/gm/zzrp"
)

var (
	gvEC     = asn1.ObjectIdentifier{1, 2, 840, 10045, 2, 1}
	gvCurve  = asn1.ObjectIdentifier{1, 2, 156, 10197, 1, 301}
	gvAlg    = asn1.ObjectIdentifier{1, 2, 156, 10197, 1, 501}
	gvSAN    = asn1.ObjectIdentifier{2, 5, 29, 17}
	gvExtReq = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 14}
)

// our own view of what is encoded
type gvObj struct {
	TBS asn1.RawValue
	Alg pkix.AlgorithmIdentifier
	Sig asn1.BitString
}

type gvSPKI struct {
	Alg gvAlgID
	Key asn1.BitString
}

type gvAlgID struct {
	Oid    asn1.ObjectIdentifier
	Params asn1.RawValue `asn1:"optional"`
}

type gvTBS struct {
	Version    int `asn1:"optional,explicit,default:0,tag:0"`
	Serial     *big.Int
	Alg        pkix.AlgorithmIdentifier
	Issuer     asn1.RawValue
	Validity   asn1.RawValue
	Subject    asn1.RawValue
	SPKI       gvSPKI
	Extensions []pkix.Extension `asn1:"optional,explicit,tag:3"`
}

type gvTBSReq struct {
	Version int
	Subject asn1.RawValue
	SPKI    gvSPKI
	Attrs   asn1.RawValue
}

func gvMust(v interface{}) []byte {
	b, err := asn1.Marshal(v)
	if err != nil {
		panic("asn1.Marshal in the driver: " + err.Error())
	}
	return b
}

func gvKeyPair(r *zzrp.R) (*sm2.PrivateKey, *sm2.PublicKey, zzorc.Pt) {
	for {
		pri, pub, err := sm2.GenerateKey(rand.Reader)
		if err == nil {
			return pri, pub, zzorc.Pt{X: pub.X, Y: pub.Y}
		}
		if !r.More() {
			panic("no key")
		}
	}
}

func gvVerified(p zzorc.Pt, id, tbs, sig []byte) bool {
	var rs struct{ R, S *big.Int }
	rest, err := asn1.Unmarshal(sig, &rs)
	return err == nil && len(rest) == 0 && zzorc.SM2Verify(p, id, tbs, rs.R, rs.S)
}

func gvExtension(r *zzrp.R) pkix.Extension {
	ids := []asn1.ObjectIdentifier{{2, 5, 29, 17}, {2, 5, 29, 15}, {1, 2, 3, 4}, {2, 5, 29, 19}, {2, 5, 29, 14}, {2, 5, 29, 37}, {2, 5, 29, 30}, {2, 5, 29, 32}, {2, 5, 29, 31}, {2, 5, 29, 35}, {1, 3, 6, 1, 5, 5, 7, 1, 1}}
	id := ids[r.Intn(len(ids))]
	switch r.Intn(6) {
	case 0:
		id = gvNear(r, id)
	}
	return pkix.Extension{Id: id, Critical: r.Intn(2) == 0, Value: r.Bytes(1 + r.Intn(8))}
}

// gvNear is an OID close to o.
func gvNear(r *zzrp.R, o asn1.ObjectIdentifier) asn1.ObjectIdentifier {
	n := append(asn1.ObjectIdentifier(nil), o...)
	switch r.Intn(4) {
	case 0:
		n[len(n)-1] += 1 + r.Intn(3)
	case 1:
		n = n[:len(n)-1]
	case 2:
		n = append(n, r.Intn(3))
	case 3:
		n[2+r.Intn(len(n)-2)] ^= 1
	}
	return n
}

func gvReqTemplate(r *zzrp.R) *x509.CertificateRequest {
	t := &x509.CertificateRequest{Subject: pkix.Name{CommonName: "a", Organization: []string{"b"}}}
	if r.Intn(2) == 0 {
		t.RawSubject = gvMust(pkix.Name{CommonName: "raw"}.ToRDNSequence())
	}
	if r.Intn(2) == 0 {
		t.DNSNames = []string{"x.example"}
	}
	if r.Intn(3) == 0 {
		t.IPAddresses = []net.IP{net.IPv4(1, 2, 3, 4), net.ParseIP("2001:db8::1")}
	}
	for i := r.Intn(3); i > 0; i-- {
		t.ExtraExtensions = append(t.ExtraExtensions, gvExtension(r))
	}
	for i := r.Intn(3); i > 0; i-- {
		a := pkix.AttributeTypeAndValueSET{Type: gvExtReq}
		if r.Intn(2) == 0 {
			a.Type = asn1.ObjectIdentifier{1, 2, 3, 5}
		}
		in := make([]pkix.AttributeTypeAndValue, 0, 4)
		for j := 1 + r.Intn(2); j > 0; j-- {
			in = append(in, pkix.AttributeTypeAndValue{Type: asn1.ObjectIdentifier{1, 2, 3, j}, Value: r.Bytes(3)})
		}
		a.Value = [][]pkix.AttributeTypeAndValue{in}
		t.Attributes = append(t.Attributes, a)
	}
	return t
}

func gvDeep(v interface{}) string { return gvShow(reflect.ValueOf(v), 0) }

// gvShow prints everything reachable, slices with their spare capacity.
func gvShow(v reflect.Value, d int) string {
	if d > 12 {
		return "…"
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return "&" + gvShow(v.Elem(), d+1)
	case reflect.Struct:
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			s += gvShow(v.Field(i), d+1) + ","
		}
		return s + "}"
	case reflect.Slice:
		if v.IsNil() {
			return "nil"
		}
		n := v.Len()
		s := fmt.Sprint(n, "[")
		v = v.Slice(0, v.Cap())
		for i := 0; i < v.Len(); i++ {
			s += gvShow(v.Index(i), d+1) + ","
		}
		return s + "]"
	case reflect.Array:
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += gvShow(v.Index(i), d+1) + ","
		}
		return s + "]"
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprint(v.Uint())
	}
	return v.Kind().String()
}

func gvID(r *zzrp.R) []byte {
	if r.Intn(2) == 0 {
		return nil
	}
	return r.Bytes(1 + r.Intn(40))
}

func gvCheckObj(der, id []byte, p zzorc.Pt) (gvObj, string) {
	var o gvObj
	rest, err := asn1.Unmarshal(der, &o)
	if err != nil || len(rest) != 0 {
		return o, "the result is not one DER object"
	}
	if !o.Alg.Algorithm.Equal(gvAlg) {
		return o, "the signature algorithm is " + o.Alg.Algorithm.String()
	}
	if o.Sig.BitLength != 8*len(o.Sig.Bytes) {
		return o, "the signature has unused bits"
	}
	if id == nil {
		id = []byte("1234567812345678")
	}
	if !gvVerified(p, id, o.TBS.FullBytes, o.Sig.Bytes) {
		return o, fmt.Sprintf("the embedded signature %x is not one of the embedded structure %x", o.Sig.Bytes, o.TBS.FullBytes)
	}
	return o, ""
}

func TestGV_C26(t *testing.T) {
	r := zzrp.New(t, "sm2/cert", 40*time.Second)
	for r.More() {
		pri, pub, p := gvKeyPair(r)
		id := gvID(r)
		tm := gvReqTemplate(r)
		before := gvDeep(tm)
		flip := r.Intn(1 << 20)
		r.Case(func() string {
			return fmt.Sprintf("CreateCertificateRequest: key d=%x, id %x, template %s", pri.D, id, before)
		}, func() string {
			var der []byte
			var err error
			if zzrp.Panics(func() { der, err = CreateCertificateRequest(tm, pub, pri, id) }) {
				return "CreateCertificateRequest panics"
			}
			if gvDeep(tm) != before {
				return "the template is modified: " + gvDeep(tm)
			}
			if err != nil {
				return ""
			}
			o, s := gvCheckObj(der, id, p)
			if s != "" {
				return s
			}
			if ok, err := VerifyDERCSRSign(der, id); err == nil && !ok {
				return fmt.Sprintf("VerifyDERCSRSign of the created CSR = %v, %v", ok, err)
			}
			// another signature: the answer is the one of SM2
			o.Sig.Bytes = append([]byte(nil), o.Sig.Bytes...)
			o.Sig.Bytes[flip%len(o.Sig.Bytes)] ^= 1 << uint(flip%8)
			wid := id
			if wid == nil {
				wid = []byte("1234567812345678")
			}
			want := gvVerified(p, wid, o.TBS.FullBytes, o.Sig.Bytes)
			bad := gvMust(o)
			if ok, err := VerifyDERCSRSign(bad, id); err == nil && ok != want {
				return fmt.Sprintf("VerifyDERCSRSign(%x) = %v, SM2 verification = %v", bad, ok, want)
			}
			c, err := ParseCertificateRequest(der)
			if err != nil {
				return "" // an extension of the template's, say
			}
			c1 := *c
			c1.Signature = append(append([]byte(nil), c.Signature...), make([]byte, 1+flip%3)...)
			if VerifyCSRSign(&c1, id) != gvVerified(p, wid, c.RawTBSCertificateRequest, c1.Signature) {
				return fmt.Sprintf("VerifyCSRSign accepts the signature %x", c1.Signature)
			}
			if VerifyCSRSign(c, append([]byte("not "), wid...)) {
				return "VerifyCSRSign accepts another id"
			}
			raw := append([]byte(nil), c.RawTBSCertificateRequest...)
			raw[flip%len(raw)] ^= 1 << uint(flip%8)
			c2 := *c
			c2.RawTBSCertificateRequest = raw
			if VerifyCSRSign(&c2, id) {
				return fmt.Sprintf("VerifyCSRSign accepts the changed to-be-signed bytes %x", raw)
			}
			c2 = *c
			c2.PublicKey = nil
			got := false
			if zzrp.Panics(func() { got = VerifyCSRSign(&c2, id) }) || got {
				return "VerifyCSRSign without a public key is not false"
			}
			return gvIssue(r, pri, p, id, c)
		})
	}
}

func gvIssue(r *zzrp.R, pri *sm2.PrivateKey, p zzorc.Pt, id []byte, csr *x509.CertificateRequest) string {
	tm := gvTemplate(r)
	parent := gvTemplate(r)
	if r.Intn(3) == 0 {
		parent = tm
	}
	b1, b2, b3 := gvDeep(tm), gvDeep(parent), gvDeep(csr)
	what := "; certificate template " + b1
	var ci *TBSCertificate
	var err error
	if zzrp.Panics(func() { ci, err = CreateCertificateInfo(tm, parent, csr) }) {
		return "CreateCertificateInfo panics" + what
	}
	if gvDeep(tm) != b1 || gvDeep(parent) != b2 || gvDeep(csr) != b3 {
		return "CreateCertificateInfo modifies the template, the parent or the CSR" + what
	}
	if err != nil {
		return ""
	}
	der, err := IssueCertificateBySoftCAKey(ci, pri, id)
	if err != nil {
		return "issuing: " + err.Error() + what
	}
	o, s := gvCheckObj(der, id, p)
	if s != "" {
		return s + what
	}
	if !bytes.Equal(o.TBS.FullBytes, ci.Raw) {
		return "the certificate does not embed the given structure" + what
	}
	var tbs gvTBS
	if rest, err := asn1.Unmarshal(o.TBS.FullBytes, &tbs); err != nil || len(rest) != 0 {
		return fmt.Sprint("the to-be-signed structure does not decode: ", err, what)
	}
	if !tbs.Alg.Algorithm.Equal(gvAlg) {
		return "the structure is labelled " + tbs.Alg.Algorithm.String() + what
	}
	if tbs.Serial.Cmp(tm.SerialNumber) != 0 {
		return "another serial number" + what
	}
	sig := r.Bytes(r.Intn(80))
	der, err = CreateCertificate(ci, sig)
	if err != nil {
		return "CreateCertificate: " + err.Error() + what
	}
	if _, err := asn1.Unmarshal(der, &o); err != nil {
		return "the assembled certificate does not decode" + what
	}
	if !bytes.Equal(o.TBS.FullBytes, ci.Raw) || !bytes.Equal(o.Sig.Bytes, sig) || o.Sig.BitLength != 8*len(sig) || !o.Alg.Algorithm.Equal(gvAlg) {
		return fmt.Sprintf("assembling with the signature %x gives %x%s", sig, der, what)
	}
	return ""
}

// gvTemplate is a template that can be issued.
func gvTemplate(r *zzrp.R) *x509.Certificate {
	t := &x509.Certificate{
		SerialNumber: new(big.Int).SetBytes(r.Bytes(1 + r.Intn(12))),
		NotBefore:    time.Unix(1500000000+r.Int63n(1<<28), 0),
		NotAfter:     time.Unix(1900000000+r.Int63n(1<<28), 0),
	}
	if r.Intn(3) > 0 {
		t.Subject = pkix.Name{CommonName: "c", Country: []string{"CN"}}
	}
	if r.Intn(4) == 0 {
		t.RawSubject = gvMust(pkix.Name{CommonName: "raw"}.ToRDNSequence())
		if r.Intn(2) == 0 {
			t.RawSubject = []byte{0x30, 0}
		}
	}
	h := func() bool { return r.Intn(2) == 0 }
	if h() {
		t.KeyUsage = x509.KeyUsage(r.Intn(512))
	}
	if h() {
		for i := 1 + r.Intn(3); i > 0; i-- {
			t.ExtKeyUsage = append(t.ExtKeyUsage, x509.ExtKeyUsage(r.Intn(14)))
		}
	}
	if h() {
		t.UnknownExtKeyUsage = []asn1.ObjectIdentifier{{1, 2, 3}, {2, 59, 1}}
	}
	if h() {
		t.BasicConstraintsValid, t.IsCA = true, h()
		if t.IsCA {
			t.MaxPathLen = r.Intn(4) - 1
			t.MaxPathLenZero = t.MaxPathLen == 0
		} else {
			t.MaxPathLen = -1
		}
	}
	if h() {
		t.SubjectKeyId = r.Bytes(1 + r.Intn(20))
	}
	if h() {
		t.AuthorityKeyId = r.Bytes(1 + r.Intn(20))
	}
	if h() {
		t.OCSPServer = []string{"http://o.example", "http://p.example"}[:1+r.Intn(2)]
	}
	if h() {
		t.IssuingCertificateURL = []string{"http://i.example"}
	}
	if h() {
		t.DNSNames = []string{"a.example", "b.example"}[:1+r.Intn(2)]
	}
	if r.Intn(3) == 0 {
		t.EmailAddresses = []string{"a@b.example"}
	}
	if r.Intn(3) == 0 {
		t.IPAddresses = []net.IP{net.IPv4(1, 2, 3, 4), net.ParseIP("2001:db8::1")}
	}
	if r.Intn(3) == 0 {
		t.URIs = []*url.URL{{Scheme: "http", Host: "u.example", Path: "/p"}}
	}
	if h() {
		t.PolicyIdentifiers = []asn1.ObjectIdentifier{{1, 2, 3}, {2, 5, 29, 32, 0}}[:1+r.Intn(2)]
	}
	if h() {
		t.PermittedDNSDomainsCritical = h()
		if h() {
			t.PermittedDNSDomains = []string{"example", ".sub.example"}
		}
		if h() {
			t.ExcludedDNSDomains = []string{"bad.example"}
		}
		if h() {
			t.PermittedIPRanges = []*net.IPNet{{IP: net.IPv4(10, 0, 0, 0).To4(), Mask: net.CIDRMask(8, 32)}}
		}
		if h() {
			t.ExcludedIPRanges = []*net.IPNet{{IP: net.ParseIP("2001:db8::"), Mask: net.CIDRMask(r.Intn(129), 128)}}
		}
		if h() {
			t.PermittedEmailAddresses = []string{"a@b.example"}
		}
		if h() {
			t.ExcludedEmailAddresses = []string{"c.example"}
		}
		if h() {
			t.PermittedURIDomains = []string{"uri.example"}
		}
		if h() {
			t.ExcludedURIDomains = []string{".uri.example"}
		}
	}
	if h() {
		t.CRLDistributionPoints = []string{"http://d.example", "http://e.example"}[:1+r.Intn(2)]
	}
	for i := r.Intn(3) * r.Intn(2); i > 0; i-- {
		t.ExtraExtensions = append(t.ExtraExtensions, gvExtension(r))
	}
	return t
}

func gvName(cn string) asn1.RawValue {
	return asn1.RawValue{FullBytes: gvMust(pkix.Name{CommonName: cn}.ToRDNSequence())}
}

// gvMake builds an object from parts; kind 0: certificate, 1: request.
func gvMake(kind int, alg, inner, keyAlg asn1.ObjectIdentifier, params []byte, key asn1.BitString, sig asn1.BitString) (der, tbs []byte) {
	sp := gvSPKI{gvAlgID{keyAlg, asn1.RawValue{FullBytes: params}}, key}
	if kind == 0 {
		v := gvMust(struct{ A, B time.Time }{time.Unix(1500000000, 0).UTC(), time.Unix(1900000000, 0).UTC()})
		tbs = gvMust(gvTBS{Version: 2, Serial: big.NewInt(77), Alg: pkix.AlgorithmIdentifier{Algorithm: inner}, Issuer: gvName("i"), Validity: asn1.RawValue{FullBytes: v}, Subject: gvName("s"), SPKI: sp})
	} else {
		tbs = gvMust(gvTBSReq{0, gvName("s"), sp, asn1.RawValue{Class: 2, Tag: 0, IsCompound: true}})
	}
	return gvMust(gvObj{asn1.RawValue{FullBytes: tbs}, pkix.AlgorithmIdentifier{Algorithm: alg}, sig}), tbs
}

func TestGV_C27(t *testing.T) {
	r := zzrp.New(t, "sm2/cert", 30*time.Second)
	r.Case(func() string { return "key generation" }, func() string { return "" })
	_, pub, _ := gvKeyPair(r)
	for r.More() {
		kind := r.Intn(2)
		alg, inner, keyAlg := gvAlg, gvAlg, gvEC
		params := gvMust(gvCurve)
		kb := append(append([]byte{4}, zzorc.B32(pub.X)...), zzorc.B32(pub.Y)...)
		if r.Intn(10) == 0 {
			_, pub, _ = gvKeyPair(r)
		}
		sb := r.Bytes(1 + r.Intn(80))
		want := true
		change := func(o asn1.ObjectIdentifier) asn1.ObjectIdentifier { return gvNear(r, o) }
		tail := []byte(nil)
		what := "genuine"
		switch r.Intn(12) {
		case 0:
			alg, want, what = change(alg), false, "changed signature algorithm"
		case 1:
			inner, what = change(inner), "changed inner signature algorithm"
			want = kind == 1
		case 2:
			keyAlg, want, what = change(keyAlg), false, "changed key algorithm"
		case 3:
			params, want, what = gvMust(change(gvCurve)), false, "changed curve"
		case 4:
			params, want, what = []byte{5, 0}, false, "NULL parameters"
		case 5:
			kb[1+r.Intn(64)] ^= 1 << uint(r.Intn(8))
			want, what = false, "changed point"
			x, y := new(big.Int).SetBytes(kb[1:33]), new(big.Int).SetBytes(kb[33:])
			if zzorc.SM2On(x, y) && x.Cmp(zzorc.SM2P) < 0 && y.Cmp(zzorc.SM2P) < 0 {
				want = true
			}
		case 6:
			kb[0] = byte(r.Intn(256))
			want, what = kb[0] == 4, "changed point format"
			if kb[0] == 4 {
				what = "genuine"
			}
		case 7:
			kb, want, what = kb[:r.Intn(65)], false, "short point"
		case 8:
			kb, want, what = append(kb, 0), false, "long point"
		case 9:
			tail, want, what = r.Bytes(1+r.Intn(3)), false, "trailing bytes"
			if r.Intn(2) == 0 {
				tail = make([]byte, 1+r.Intn(40))
			}
		}
		der, tbs := gvMake(kind, alg, inner, keyAlg, params, asn1.BitString{Bytes: kb, BitLength: 8 * len(kb)}, asn1.BitString{Bytes: sb, BitLength: 8 * len(sb)})
		der = append(der, tail...)
		name := []string{"ParseCertificate", "ParseCertificateRequest"}[kind]
		mangled := r.Intn(3) == 0
		if mangled {
			der[r.Intn(len(der))] ^= 1 << uint(r.Intn(8))
			if r.Intn(3) == 0 {
				der = der[:r.Intn(len(der))]
			}
			what = "mangled"
		}
		r.Case(func() string { return name + " of the " + what + " object " + hex.EncodeToString(der) }, func() string {
			var c *x509.Certificate
			var q *x509.CertificateRequest
			var err error
			if zzrp.Panics(func() {
				if kind == 0 {
					c, err = ParseCertificate(der)
				} else {
					q, err = ParseCertificateRequest(der)
				}
			}) {
				return "panics"
			}
			if mangled {
				return ""
			}
			if (err == nil) != want {
				return fmt.Sprintf("gives %v", err)
			}
			if err != nil {
				if c != nil || q != nil {
					return "gives an object with an error"
				}
				return ""
			}
			var raw, rt, sg []byte
			var k interface{}
			if kind == 0 {
				raw, rt, sg, k = c.Raw, c.RawTBSCertificate, c.Signature, c.PublicKey
			} else {
				raw, rt, sg, k = q.Raw, q.RawTBSCertificateRequest, q.Signature, q.PublicKey
			}
			pk, ok := k.(*sm2.PublicKey)
			if !ok || pk == nil {
				return "gives no SM2 key"
			}
			if !bytes.Equal(zzorc.B32(pk.X), kb[1:33]) || !bytes.Equal(zzorc.B32(pk.Y), kb[33:]) {
				return fmt.Sprintf("gives the key %x, %x", pk.X, pk.Y)
			}
			if !bytes.Equal(raw, der) || !bytes.Equal(rt, tbs) || !bytes.Equal(sg, sb) {
				return fmt.Sprintf("raw %x, to be signed %x, signature %x", raw, rt, sg)
			}
			return ""
		})
	}
}

// gvUsageDER is the named bit string of nine bits.
func gvUsageDER(u int) []byte {
	n := 0
	w := 0
	for i := 0; i < 16; i++ {
		if u>>uint(i)&1 == 1 {
			n = i + 1
			w |= 0x8000 >> uint(i)
		}
	}
	o := (n + 7) / 8
	if n == 0 {
		return nil
	}
	return append([]byte{3, byte(1 + o), byte(8*o - n)}, []byte{byte(w >> 8), byte(w)}[:o]...)
}

var gvEKU = map[string]x509.ExtKeyUsage{
	"2.5.29.37.0": x509.ExtKeyUsageAny, "1.3.6.1.5.5.7.3.1": x509.ExtKeyUsageServerAuth, "1.3.6.1.5.5.7.3.2": x509.ExtKeyUsageClientAuth,
	"1.3.6.1.5.5.7.3.3": x509.ExtKeyUsageCodeSigning, "1.3.6.1.5.5.7.3.4": x509.ExtKeyUsageEmailProtection,
	"1.3.6.1.5.5.7.3.5": x509.ExtKeyUsageIPSECEndSystem, "1.3.6.1.5.5.7.3.6": x509.ExtKeyUsageIPSECTunnel, "1.3.6.1.5.5.7.3.7": x509.ExtKeyUsageIPSECUser,
	"1.3.6.1.5.5.7.3.8": x509.ExtKeyUsageTimeStamping, "1.3.6.1.5.5.7.3.9": x509.ExtKeyUsageOCSPSigning,
	"1.3.6.1.4.1.311.10.3.3": x509.ExtKeyUsageMicrosoftServerGatedCrypto, "2.16.840.1.113730.4.1": x509.ExtKeyUsageNetscapeServerGatedCrypto,
	"1.3.6.1.4.1.311.2.1.22": x509.ExtKeyUsageMicrosoftCommercialCodeSigning, "1.3.6.1.4.1.311.61.1.1": x509.ExtKeyUsageMicrosoftKernelCodeSigning,
}

// gvOID is an OID close to one of an extended key usage, and whether it is one.
func gvOID(r *zzrp.R) (asn1.ObjectIdentifier, bool) {
	all := []asn1.ObjectIdentifier{{2, 5, 29, 37, 0}, {1, 3, 6, 1, 5, 5, 7, 3, 1}, {1, 3, 6, 1, 5, 5, 7, 3, 9}, {1, 3, 6, 1, 4, 1, 311, 10, 3, 3},
		{2, 16, 840, 1, 113730, 4, 1}, {1, 3, 6, 1, 4, 1, 311, 2, 1, 22}, {1, 3, 6, 1, 4, 1, 311, 61, 1, 1}}
	w := gvNear(r, all[r.Intn(len(all))])
	_, ok := gvEKU[w.String()]
	return w, ok
}

func gvCSR(r *zzrp.R) (*x509.CertificateRequest, *sm2.PrivateKey) {
	_, pub, _ := gvKeyPair(r)
	kb := append(append([]byte{4}, zzorc.B32(pub.X)...), zzorc.B32(pub.Y)...)
	raw := gvMust(gvSPKI{gvAlgID{gvEC, asn1.RawValue{FullBytes: gvMust(gvCurve)}}, asn1.BitString{Bytes: kb, BitLength: 8 * len(kb)}})
	return &x509.CertificateRequest{RawSubjectPublicKeyInfo: raw, PublicKey: pub}, nil
}

func gvBuildParse(tm *x509.Certificate, csr *x509.CertificateRequest) (exts []pkix.Extension, c *x509.Certificate, err error, perr error) {
	ci, err := CreateCertificateInfo(tm, tm, csr)
	if err != nil {
		return nil, nil, err, nil
	}
	var tbs gvTBS
	if _, err := asn1.Unmarshal(ci.Raw, &tbs); err != nil {
		return nil, nil, nil, err
	}
	der, err := CreateCertificate(ci, []byte{0x30, 0})
	if err != nil {
		return tbs.Extensions, nil, err, nil
	}
	c, perr = ParseCertificate(der)
	return tbs.Extensions, c, nil, perr
}

func TestGV_C28(t *testing.T) {
	r := zzrp.New(t, "sm2/cert", 30*time.Second)
	csr, _ := gvCSR(r)
	u := 0
	for r.More() {
		u = (u + 1) % 512
		tm := &x509.Certificate{SerialNumber: big.NewInt(5), Subject: pkix.Name{CommonName: "x"}, NotBefore: time.Unix(1500000000, 0), NotAfter: time.Unix(1900000000, 0), KeyUsage: x509.KeyUsage(u)}
		e := x509.ExtKeyUsage(r.Intn(20) - 3)
		if r.Intn(2) == 0 {
			tm.ExtKeyUsage = []x509.ExtKeyUsage{e}
		}
		bad := len(tm.ExtKeyUsage) > 0 && (e < 0 || e > 13)
		unknown := ""
		if !bad && r.Intn(2) == 0 {
			if w, ok := gvOID(r); !ok {
				tm.UnknownExtKeyUsage = []asn1.ObjectIdentifier{w}
				unknown = w.String()
			}
		}
		r.Case(func() string {
			return fmt.Sprintf("key usage %#x, extended key usages %v %v", u, tm.ExtKeyUsage, tm.UnknownExtKeyUsage)
		}, func() string {
			var exts []pkix.Extension
			var c *x509.Certificate
			var err, perr error
			if zzrp.Panics(func() { exts, c, err, perr = gvBuildParse(tm, csr) }) {
				return "panics"
			}
			if bad {
				if err == nil {
					return "an unknown extended key usage gives no error"
				}
				return ""
			}
			if err != nil || perr != nil {
				return fmt.Sprint("gives an error: ", err, perr)
			}
			for _, x := range exts {
				if x.Id.String() == "2.5.29.15" && !bytes.Equal(x.Value, gvUsageDER(u)) {
					return fmt.Sprintf("encoded as %x, expected %x", x.Value, gvUsageDER(u))
				}
				if x.Id.String() == "2.5.29.37" {
					var os []asn1.ObjectIdentifier
					if _, err := asn1.Unmarshal(x.Value, &os); err != nil || len(os) != len(tm.ExtKeyUsage)+len(tm.UnknownExtKeyUsage) {
						return fmt.Sprintf("extended key usages encoded as %x", x.Value)
					}
					if len(tm.ExtKeyUsage) > 0 {
						if w, ok := gvEKU[os[0].String()]; !ok || w != e {
							return "extended key usage encoded as " + os[0].String()
						}
					}
				}
			}
			if int(c.KeyUsage) != u {
				return fmt.Sprintf("decoded key usage %#x", int(c.KeyUsage))
			}
			if len(c.ExtKeyUsage) != len(tm.ExtKeyUsage) || len(c.ExtKeyUsage) == 1 && c.ExtKeyUsage[0] != e || len(c.UnknownExtKeyUsage) != len(tm.UnknownExtKeyUsage) ||
				unknown != "" && c.UnknownExtKeyUsage[0].String() != unknown {
				return fmt.Sprint("decoded extended key usages ", c.ExtKeyUsage, c.UnknownExtKeyUsage)
			}
			return ""
		})
	}
}

func gvPrintable(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < 33 || s[i] > 126 {
			return false
		}
	}
	return true
}

func gvDomainOK(s string) ([]string, bool) {
	ls := strings.Split(s, ".")
	for _, l := range ls {
		if l == "" || !gvPrintable(l) {
			return nil, false
		}
	}
	return ls, true
}

func gvText(r *zzrp.R) string {
	al := []string{"a", "b", ".", "@", "\"", "\\", "<", ">", " ", "\t", "-", "é", "\xff", "\x80", "\x7f", "\x00", "~", "!", "ex", "\r"}
	s := ""
	for i := r.Intn(12); i > 0; i-- {
		s += al[r.Intn(len(al))]
	}
	if r.Intn(3) == 0 {
		s = "a@b" + s
	}
	return s
}

func TestGV_C29(t *testing.T) {
	r := zzrp.New(t, "sm2/cert", 30*time.Second)
	for r.More() {
		s := gvText(r)
		mask := r.Bytes(r.Intn(17))
		if r.Intn(2) == 0 {
			n := 4
			if r.Intn(2) == 0 {
				n = 16
			}
			mask = net.CIDRMask(r.Intn(8*n+1), 8*n)
			if r.Intn(2) == 0 {
				mask[r.Intn(n)] ^= 1 << uint(r.Intn(8))
			}
		}
		r.Case(func() string { return fmt.Sprintf("string %q, mask %x", s, mask) }, func() (res string) {
			if zzrp.Panics(func() { res = gvValidators(s, mask) }) {
				return "a validator panics"
			}
			return
		})
		// extensions
		var v []byte
		nc := r.Intn(2) == 0
		if nc {
			v = gvConstraints(r)
		} else {
			var raws []asn1.RawValue
			for i := r.Intn(3); i >= 0; i-- {
				raws = append(raws, asn1.RawValue{Class: 2, Tag: []int{1, 2, 6, 7, 3}[r.Intn(5)], Bytes: gvElem(r)})
			}
			v = gvMust(raws)
		}
		if r.Intn(2) == 0 && len(v) > 0 {
			v[r.Intn(len(v))] ^= 1 << uint(r.Intn(8))
			if r.Intn(3) == 0 {
				v = v[:r.Intn(len(v))]
			}
		}
		r.Case(func() string { return fmt.Sprintf("extension (name constraints: %v) %x", nc, v) }, func() string {
			if zzrp.Panics(func() {
				if nc {
					parseNameConstraintsExtension(new(x509.Certificate), pkix.Extension{Value: v, Critical: true})
				} else {
					parseSANExtension(v)
				}
			}) {
				return "the parser panics"
			}
			return ""
		})
	}
}

func gvElem(r *zzrp.R) []byte {
	switch r.Intn(3) {
	case 0:
		return []byte(gvText(r))
	case 1:
		return r.Bytes([]int{0, 4, 8, 16, 32, 5}[r.Intn(6)])
	}
	return []byte([]string{"a@b", "http://[::1]/", "//", ".a", "a.", "..", "@", "http://1.2.3.4:x/"}[r.Intn(8)])
}

func gvConstraints(r *zzrp.R) []byte {
	part := func(tag int) []byte {
		var in []byte
		for i := r.Intn(3); i > 0; i-- {
			e := gvMust(asn1.RawValue{Class: 2, Tag: []int{1, 2, 6, 7, 3}[r.Intn(5)], Bytes: gvElem(r)})
			in = append(in, gvMust(asn1.RawValue{Tag: 16, IsCompound: true, Bytes: e})...)
		}
		return gvMust(asn1.RawValue{Class: 2, Tag: tag, IsCompound: true, Bytes: in})
	}
	var in []byte
	if r.Intn(3) > 0 {
		in = append(in, part(0)...)
	}
	if r.Intn(2) > 0 {
		in = append(in, part(1)...)
	}
	return gvMust(asn1.RawValue{Tag: 16, IsCompound: true, Bytes: in})
}

func gvValidators(s string, mask []byte) string {
	want := false
	if ones, bits := net.IPMask(mask).Size(); (len(mask) == 4 || len(mask) == 16) && bits > 0 {
		_ = ones
		want = true
	}
	if (len(mask) == 4 || len(mask) == 16) && isValidIPMask(mask) != want {
		return fmt.Sprintf("isValidIPMask = %v", !want)
	}
	ls, ok := gvDomainOK(s)
	if s != "" {
		g, gok := domainToReverseLabels(s)
		if gok != ok {
			return fmt.Sprintf("domainToReverseLabels = %q, %v", g, gok)
		}
		for i := range g {
			if gok && (len(g) != len(ls) || g[i] != ls[len(ls)-1-i]) {
				return fmt.Sprintf("domainToReverseLabels = %q", g)
			}
		}
	}
	ia5 := true
	for i := 0; i < len(s); i++ {
		ia5 = ia5 && s[i] < 0x80
	}
	if (isIA5String(s) == nil) != ia5 {
		return fmt.Sprintf("isIA5String accepts: %v", !ia5)
	}
	m, ok := parseRFC2821Mailbox(s)
	if ok && (m.domain == "" || !strings.HasSuffix(s, "@"+m.domain)) {
		return fmt.Sprintf("parseRFC2821Mailbox accepts it with the domain %q", m.domain)
	}
	return ""
}

func TestGV_C30(t *testing.T) {
	r := zzrp.New(t, "sm2/cert", 30*time.Second)
	csr, _ := gvCSR(r)
	for r.More() {
		tm := gvTemplate(r)
		r.Case(func() string { return "template " + gvDeep(tm) }, func() string {
			var ci *TBSCertificate
			var err error
			if zzrp.Panics(func() { ci, err = CreateCertificateInfo(tm, tm, csr) }) {
				return "CreateCertificateInfo panics"
			}
			if err != nil {
				return "gives an error: " + err.Error()
			}
			var tbs gvTBS
			if _, err := asn1.Unmarshal(ci.Raw, &tbs); err != nil {
				return "the structure does not decode"
			}
			empty := bytes.Equal(tbs.Subject.FullBytes, []byte{0x30, 0})
			want := map[string]string{}
			add := func(c bool, id string, crit bool) {
				if c {
					want[id] = fmt.Sprint(crit)
				}
			}
			add(tm.KeyUsage != 0, "2.5.29.15", true)
			add(len(tm.ExtKeyUsage)+len(tm.UnknownExtKeyUsage) > 0, "2.5.29.37", false)
			add(tm.BasicConstraintsValid, "2.5.29.19", true)
			add(len(tm.SubjectKeyId) > 0, "2.5.29.14", false)
			add(len(tm.AuthorityKeyId) > 0, "2.5.29.35", false)
			add(len(tm.OCSPServer)+len(tm.IssuingCertificateURL) > 0, "1.3.6.1.5.5.7.1.1", false)
			add(len(tm.DNSNames)+len(tm.EmailAddresses)+len(tm.IPAddresses)+len(tm.URIs) > 0, "2.5.29.17", empty)
			add(len(tm.PolicyIdentifiers) > 0, "2.5.29.32", false)
			add(len(tm.PermittedDNSDomains)+len(tm.ExcludedDNSDomains)+len(tm.PermittedIPRanges)+len(tm.ExcludedIPRanges)+len(tm.PermittedEmailAddresses)+
				len(tm.ExcludedEmailAddresses)+len(tm.PermittedURIDomains)+len(tm.ExcludedURIDomains) > 0, "2.5.29.30", tm.PermittedDNSDomainsCritical)
			add(len(tm.CRLDistributionPoints) > 0, "2.5.29.31", false)
			for _, x := range tm.ExtraExtensions {
				delete(want, x.Id.String())
			}
			n := len(tbs.Extensions) - len(tm.ExtraExtensions)
			if n != len(want) {
				return fmt.Sprintf("%d extensions are generated, expected %v", n, want)
			}
			for i, x := range tm.ExtraExtensions {
				g := tbs.Extensions[n+i]
				if !g.Id.Equal(x.Id) || g.Critical != x.Critical || !bytes.Equal(g.Value, x.Value) {
					return fmt.Sprintf("the caller's extension %v became %v", x, g)
				}
			}
			for _, g := range tbs.Extensions[:n] {
				w, ok := want[g.Id.String()]
				if !ok {
					return "extension " + g.Id.String() + " is not expected, or twice"
				}
				if w != fmt.Sprint(g.Critical) {
					return fmt.Sprintf("extension %v has criticality %v", g.Id, g.Critical)
				}
				delete(want, g.Id.String())
			}
			return ""
		})
	}
}
