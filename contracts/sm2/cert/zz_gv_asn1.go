package cert

import (
	"crypto/x509/pkix"
	"encoding/asn1"
	"errors"
	"net"
	"net/url"

	"github.com/ZZMarquis/gm/cryptobyte"
	cryptobyte_asn1 "github.com/ZZMarquis/gm/cryptobyte/asn1"
	gv "github.com/ZZMarquis/gm/zzgv"
)

// Assumed contracts of the standard library, as far as this package relies on them.

// gvPart: a place inside [lo, hi].
func gvPart(lo, hi int) int {
	n := gv.Any[int]("part")
	gv.Assume(gv.And(lo <= n, n <= hi), "encoding/asn1 returns parts of its input")
	return n
}

// Unmarshal: an error, or some value of the type, decoded from the whole of a non-empty prefix; the rest is
// returned. A RawValue is the prefix itself.
//
//gv:model encoding/asn1.Unmarshal
func gvUnmarshal(b []byte, val interface{}) (rest []byte, err error) {
	gv.Havoc(val)
	if len(b) < 2 || gv.Any[bool]("asn1 error") {
		return nil, errors.New("asn1")
	}
	n := gvPart(2, len(b))
	if v, ok := val.(*asn1.RawValue); ok {
		v.FullBytes = b[:n]
		v.Bytes = b[gvPart(2, n):n]
	}
	if v, ok := val.(*asn1.BitString); ok {
		gvBits(v)
		gvBitsRead = *v
	}
	if v, ok := val.(*certificate); ok {
		gvBits(&v.SignatureValue)
		gvBits(&v.TBSCertificate.PublicKey.PublicKey)
		gvCert, gvRest = *v, len(b)-n
	}
	if v, ok := val.(*certificateRequest); ok {
		gvBits(&v.SignatureValue)
		gvBits(&v.TBSCSR.PublicKey.PublicKey)
		gvCSR, gvRest = *v, len(b)-n
	}
	if v, ok := val.(*asn1.ObjectIdentifier); ok {
		gvOID, gvOIDRest = *v, len(b)-n
	}
	return b[n:], nil
}

// gvBits: what Unmarshal guarantees of a bit string.
func gvBits(v *asn1.BitString) {
	pad := gv.Any[int]("pad")
	gv.Assume(gv.And(len(v.Bytes) < 1<<40, 0 <= pad, pad <= 7, gv.Or(pad == 0, len(v.Bytes) > 0), v.BitLength == 8*len(v.Bytes)-pad), "asn1.BitString")
}

// the object decoded last, and how much was left after it
var (
	gvCert certificate
	gvCSR  certificateRequest
	gvRest int

	gvOID     asn1.ObjectIdentifier
	gvOIDRest int

	gvBitsRead asn1.BitString

	// the value of a type that was encoded last
	gvBitString asn1.BitString
	gvOutCert   certificate
	gvOutTBS    TBSCertificate
	gvOutCSR    certificateRequest
	gvOutTBSCSR tbsCertificateRequest
	gvTBSDER    []byte
	gvDER       []byte
)

// Marshal: an error, or some encoding of the value, in memory of its own.
//
//gv:model encoding/asn1.Marshal
func gvMarshal(val interface{}) ([]byte, error) {
	if gv.Any[bool]("asn1 error") {
		return nil, errors.New("asn1")
	}
	if v, ok := val.(asn1.BitString); ok {
		gvBitString = v
	}
	n := gv.Any[int]("der length")
	gv.Assume(gv.And(2 <= n, n < 1<<32), "encoding/asn1.Marshal")
	s := gv.Any[[]byte]("der")
	gv.Assume(len(s) == n, "encoding/asn1.Marshal")
	if v, ok := val.(certificate); ok {
		gvOutCert, gvDER = v, s
	}
	if v, ok := val.(TBSCertificate); ok {
		gvOutTBS, gvDER = v, s
	}
	if v, ok := val.(certificateRequest); ok {
		gvOutCSR, gvDER = v, s
	}
	if v, ok := val.(tbsCertificateRequest); ok {
		gvOutTBSCSR, gvTBSDER = v, s
	}
	return s, nil
}

//gv:model (encoding/asn1.ObjectIdentifier).Equal
func gvOidEqual(oi, other asn1.ObjectIdentifier) bool {
	if len(oi) != len(other) {
		return false
	}
	eq := true
	n := gv.Known(len(oi), len(other))
	for i := 0; i < n; i++ {
		eq = gv.And(eq, oi[i] == other[i])
	}
	return eq
}

//gv:model (encoding/asn1.BitString).RightAlign
func gvRightAlign(b asn1.BitString) []byte {
	shift := 8 - b.BitLength&7
	if shift == 8 || len(b.Bytes) == 0 {
		return b.Bytes
	}
	return gv.Any[[]byte]("shifted")
}

//gv:model (encoding/asn1.BitString).At
func gvBitAt(b asn1.BitString, i int) int {
	if i < 0 || i >= b.BitLength {
		return 0
	}
	return int(b.Bytes[i/8]>>(7-uint(i&7))) & 1
}

//gv:model (*crypto/x509/pkix.Name).FillFromRDNSequence
func gvFill(n *pkix.Name, rdns *pkix.RDNSequence) { gv.Havoc(n) }

//gv:model net/url.Parse
func gvParseURL(s string) (*url.URL, error) {
	if gv.Any[bool]("url error") {
		return nil, errors.New("url")
	}
	u := new(url.URL)
	gv.Havoc(u)
	return u, nil
}

//gv:model net.ParseIP
func gvParseIP(s string) net.IP { return gv.Any[net.IP]("ip") }

// The elements package cert reads: all that matters here of the contracts of package cryptobyte is that the
// readers do not panic, which is proved there for every string (Prove_C29_weak_*); what they read is arbitrary.

//gv:model (*github.com/ZZMarquis/gm/cryptobyte.String).ReadASN1
func gvReadASN1(s, out *cryptobyte.String, tag cryptobyte_asn1.Tag) bool {
	gv.Havoc(s)
	gv.Havoc(out)
	return gv.Any[bool]("read")
}

//gv:model (*github.com/ZZMarquis/gm/cryptobyte.String).ReadAnyASN1
func gvReadAnyASN1(s, out *cryptobyte.String, tag *cryptobyte_asn1.Tag) bool {
	gv.Havoc(tag)
	return gvReadASN1(s, out, 0)
}

//gv:model (*github.com/ZZMarquis/gm/cryptobyte.String).ReadOptionalASN1
func gvReadOptionalASN1(s, out *cryptobyte.String, present *bool, tag cryptobyte_asn1.Tag) bool {
	gv.Havoc(present)
	return gvReadASN1(s, out, tag)
}
