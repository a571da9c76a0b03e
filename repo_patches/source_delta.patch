From a6b51df3a90f32e16a3bdc11784a0f37d3efc4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:27 +0000
Subject: [PATCH 01/27] fix: sm2 key exchange derives keys of any length

---
 sm2/keyexchange.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index 66ae995..45e16f5 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -44,8 +44,8 @@ func calculateU(w int, selfStaticPriv *PrivateKey, selfEphemeralPriv *PrivateKey
 
 func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) []byte {
 	bufSize := 4
-	if bufSize < digest.BlockSize() {
-		bufSize = digest.BlockSize()
+	if bufSize < digest.Size() {
+		bufSize = digest.Size()
 	}
 	buf := make([]byte, bufSize)
 
@@ -68,6 +68,9 @@ func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) [
 		copy(buf[:bufSize], tmp[:bufSize])
 
 		copyLen := rvLen - off
+		if copyLen > digest.Size() {
+			copyLen = digest.Size()
+		}
 		copy(rv[off:off+copyLen], buf[:copyLen])
 		off += copyLen
 	}
-- 
2.43.0


From a95b75bb3a0cadde58df67d098a78475a7027c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:56 +0000
Subject: [PATCH 02/27] fix: sm3 Write accepts an empty slice

---
 sm3/sm3.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 141a4e7..1f44136 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -86,7 +86,6 @@ func (digest *sm3Digest) Reset() {
 }
 
 func (digest *sm3Digest) Write(p []byte) (n int, err error) {
-	_ = p[0]
 	inLen := len(p)
 
 	i := 0
-- 
2.43.0


From fe1b9f38741161e75dc56cc6b49cfaed08ca4f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:56 +0000
Subject: [PATCH 03/27] fix: sm3 Sum works on a copy of the hash state

---
 sm3/sm3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 1f44136..3836e59 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -39,7 +39,7 @@ func New() hash.Hash {
 }
 
 func (digest *sm3Digest) Sum(b []byte) []byte {
-	d1 := digest
+	d1 := *digest
 	h := d1.checkSum()
 	return append(b, h[:]...)
 }
-- 
2.43.0


From 1f38538ccea2a13670fa9a23169a83b80f449dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:56 +0000
Subject: [PATCH 04/27] fix: sm3 reports the block size of SM3, 64 bytes

---
 sm3/sm3.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 3836e59..256384f 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -9,7 +9,9 @@ import (
 
 const (
 	DigestLength = 32
-	BlockSize    = 16
+	BlockSize    = 64
+
+	blockWords = BlockSize / 4
 )
 
 var gT = []uint32{
@@ -24,7 +26,7 @@ var gT = []uint32{
 
 type sm3Digest struct {
 	v         [DigestLength / 4]uint32
-	inWords   [BlockSize]uint32
+	inWords   [blockWords]uint32
 	xOff      int32
 	w         [68]uint32
 	xBuf      [4]byte
@@ -226,14 +228,14 @@ func (digest *sm3Digest) processWord(in []byte, inOff int32) {
 }
 
 func (digest *sm3Digest) processLength(bitLength int64) {
-	if digest.xOff > (BlockSize - 2) {
+	if digest.xOff > (blockWords - 2) {
 		digest.inWords[digest.xOff] = 0
 		digest.xOff++
 
 		digest.processBlock()
 	}
 
-	for ; digest.xOff < (BlockSize - 2); digest.xOff++ {
+	for ; digest.xOff < (blockWords - 2); digest.xOff++ {
 		digest.inWords[digest.xOff] = 0
 	}
 
-- 
2.43.0


From e1af1bdbe72ae6aadfd9867bf2d2d79764476998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:56 +0000
Subject: [PATCH 05/27] fix: sm3 Write handles a slice of 2 GiB and more

---
 sm3/sm3.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 256384f..bdfdece 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -106,7 +106,7 @@ func (digest *sm3Digest) Write(p []byte) (n int, err error) {
 
 	limit := ((inLen - i) & ^3) + i
 	for ; i < limit; i += 4 {
-		digest.processWord(p, int32(i))
+		digest.processWord(p, i)
 	}
 
 	for i < inLen {
@@ -216,7 +216,7 @@ func (digest *sm3Digest) processBlock() {
 	digest.xOff = 0
 }
 
-func (digest *sm3Digest) processWord(in []byte, inOff int32) {
+func (digest *sm3Digest) processWord(in []byte, inOff int) {
 	n := binary.BigEndian.Uint32(in[inOff : inOff+4])
 
 	digest.inWords[digest.xOff] = n
-- 
2.43.0


From 5ca7948b1082cdf20dbfa60f767f8819bf361460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:56 +0000
Subject: [PATCH 06/27] fix: sm4 CBC returns an error for a wrong IV length

---
 sm4/sm4.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sm4/sm4.go b/sm4/sm4.go
index 872f716..0333f16 100644
--- a/sm4/sm4.go
+++ b/sm4/sm4.go
@@ -271,6 +271,9 @@ func CBCEncrypt(key, iv, plainText []byte) (cipherText []byte, err error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(iv) != BlockSize {
+		return nil, errors.New("IV length must equal block size")
+	}
 	encrypter := cipher.NewCBCEncrypter(c, iv)
 	cipherText = make([]byte, plainTextLen)
 	encrypter.CryptBlocks(cipherText, plainText)
@@ -289,6 +292,9 @@ func CBCDecrypt(key, iv, cipherText []byte) (plainText []byte, err error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(iv) != BlockSize {
+		return nil, errors.New("IV length must equal block size")
+	}
 	decrypter := cipher.NewCBCDecrypter(c, iv)
 	plainText = make([]byte, len(cipherText))
 	decrypter.CryptBlocks(plainText, cipherText)
-- 
2.43.0


From 18879a0fae3b4dae5f707befaa36efc07b335e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:56 +0000
Subject: [PATCH 07/27] fix: util padding does not write into the caller's
 spare capacity

---
 util/padding.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/padding.go b/util/padding.go
index a1862c7..78ca4ca 100644
--- a/util/padding.go
+++ b/util/padding.go
@@ -5,7 +5,7 @@ import "bytes"
 func PKCS5Padding(src []byte, blockSize int) []byte {
 	padding := blockSize - len(src)%blockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(src, padtext...)
+	return append(src[:len(src):len(src)], padtext...)
 }
 
 func PKCS5UnPadding(src []byte) []byte {
@@ -17,7 +17,7 @@ func PKCS5UnPadding(src []byte) []byte {
 func ZeroPadding(src []byte, blockSize int) []byte {
 	padding := blockSize - len(src)%blockSize
 	padtext := bytes.Repeat([]byte{0}, padding)
-	return append(src, padtext...)
+	return append(src[:len(src):len(src)], padtext...)
 }
 
 // UnZeroPadding
-- 
2.43.0


From 6c6419edcfb83ba5d4e282af2fa9678cd2702486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:27 +0000
Subject: [PATCH 08/27] fix: sm2 key exchange hashes coordinates as 32 bytes

---
 sm2/keyexchange.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index 45e16f5..3cb365b 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -51,8 +51,8 @@ func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) [
 
 	rv := make([]byte, (keyBits+7)/8)
 	rvLen := len(rv)
-	uxBytes := ux.Bytes()
-	uyBytes := uy.Bytes()
+	uxBytes := bigIntTo32Bytes(ux)
+	uyBytes := bigIntTo32Bytes(uy)
 	off := 0
 	ct := uint32(0)
 	for off < rvLen {
@@ -79,20 +79,20 @@ func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) [
 
 func calculateInnerHash(digest hash.Hash, ux *big.Int, za, zb []byte, p1x, p1y *big.Int, p2x, p2y *big.Int) []byte {
 	digest.Reset()
-	digest.Write(ux.Bytes())
+	digest.Write(bigIntTo32Bytes(ux))
 	digest.Write(za)
 	digest.Write(zb)
-	digest.Write(p1x.Bytes())
-	digest.Write(p1y.Bytes())
-	digest.Write(p2x.Bytes())
-	digest.Write(p2y.Bytes())
+	digest.Write(bigIntTo32Bytes(p1x))
+	digest.Write(bigIntTo32Bytes(p1y))
+	digest.Write(bigIntTo32Bytes(p2x))
+	digest.Write(bigIntTo32Bytes(p2y))
 	return digest.Sum(nil)
 }
 
 func s1(digest hash.Hash, uy *big.Int, innerHash []byte) []byte {
 	digest.Reset()
 	digest.Write([]byte{0x02})
-	digest.Write(uy.Bytes())
+	digest.Write(bigIntTo32Bytes(uy))
 	digest.Write(innerHash)
 	return digest.Sum(nil)
 }
@@ -100,7 +100,7 @@ func s1(digest hash.Hash, uy *big.Int, innerHash []byte) []byte {
 func s2(digest hash.Hash, uy *big.Int, innerHash []byte) []byte {
 	digest.Reset()
 	digest.Write([]byte{0x03})
-	digest.Write(uy.Bytes())
+	digest.Write(bigIntTo32Bytes(uy))
 	digest.Write(innerHash)
 	return digest.Sum(nil)
 }
-- 
2.43.0


From d1cb2a73efa0c3a3bc4b829b8d42b1d3462bc27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:27 +0000
Subject: [PATCH 09/27] fix: sm2 Encrypt terminates for an empty message

---
 sm2/sm2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index f958e88..1375d77 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -276,7 +276,7 @@ func Encrypt(pub *PublicKey, in []byte, cipherTextType Sm2CipherTextType) ([]byt
 		kPBx, kPBy = pub.Curve.ScalarMult(pub.X, pub.Y, kBytes)
 		kdf(digest, kPBx, kPBy, c2)
 
-		if !notEncrypted(c2, in) {
+		if len(in) == 0 || !notEncrypted(c2, in) {
 			break
 		}
 	}
-- 
2.43.0


From 5cca194c3218e9db347fec484ff1a0f772da42e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:27 +0000
Subject: [PATCH 10/27] fix: sm2 Decrypt returns an error for short input and
 invalid C1

---
 sm2/sm2.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 1375d77..713e64b 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -307,9 +307,15 @@ func Encrypt(pub *PublicKey, in []byte, cipherTextType Sm2CipherTextType) ([]byt
 
 func Decrypt(priv *PrivateKey, in []byte, cipherTextType Sm2CipherTextType) ([]byte, error) {
 	c1Len := ((priv.Curve.BitSize+7)>>3)*2 + 1
+	if len(in) < c1Len+sm3.DigestLength {
+		return nil, errors.New("cipher text too short")
+	}
 	c1 := make([]byte, c1Len)
 	copy(c1, in[:c1Len])
 	c1x, c1y := elliptic.Unmarshal(priv.Curve, c1)
+	if c1x == nil {
+		return nil, errors.New("C1 is not a point of the curve")
+	}
 	sx, sy := priv.Curve.ScalarMult(c1x, c1y, sm2H.Bytes())
 	if util.IsEcPointInfinity(sx, sy) {
 		return nil, errors.New("[h]C1 at infinity")
-- 
2.43.0


From fdb4aa6b4645f3b79a9fd1335f3474863a125794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:27 +0000
Subject: [PATCH 11/27] fix: sm2 MarshalCipher/UnmarshalCipher refuse malformed
 input

---
 sm2/sm2.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 713e64b..ff58d4c 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -353,6 +353,9 @@ func Decrypt(priv *PrivateKey, in []byte, cipherTextType Sm2CipherTextType) ([]b
 
 func MarshalCipher(in []byte, cipherTextType Sm2CipherTextType) ([]byte, error) {
 	byteLen := (sm2P256V1.Params().BitSize + 7) >> 3
+	if len(in) < 1+byteLen*2+sm3.DigestLength || in[0] != UnCompress {
+		return nil, errors.New("invalid cipher text")
+	}
 	c1x := make([]byte, byteLen)
 	c1y := make([]byte, byteLen)
 	c2Len := len(in) - (1 + byteLen*2) - sm3.DigestLength
@@ -390,13 +393,36 @@ func MarshalCipher(in []byte, cipherTextType Sm2CipherTextType) ([]byte, error)
 	}
 }
 
+// unmarshalExact decodes in into ptr and refuses anything that is not exactly the DER encoding of the decoded value.
+func unmarshalExact(in []byte, ptr interface{}, value func() interface{}) error {
+	_, err := asn1.Unmarshal(in, ptr)
+	if err != nil {
+		return err
+	}
+	der, err := asn1.Marshal(value())
+	if err != nil {
+		return err
+	}
+	if !bytes.Equal(der, in) {
+		return errors.New("trailing data or non-canonical encoding")
+	}
+	return nil
+}
+
+func validCipherParts(x, y *big.Int, c3 []byte) bool {
+	return x.Sign() >= 0 && x.BitLen() <= BitSize && y.Sign() >= 0 && y.BitLen() <= BitSize && len(c3) == sm3.DigestLength
+}
+
 func UnmarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, err error) {
 	if cipherTextType == C1C2C3 {
 		cipher := new(sm2CipherC1C2C3)
-		_, err = asn1.Unmarshal(in, cipher)
+		err = unmarshalExact(in, cipher, func() interface{} { return *cipher })
 		if err != nil {
 			return nil, err
 		}
+		if !validCipherParts(cipher.X, cipher.Y, cipher.C3) {
+			return nil, errors.New("invalid cipher text")
+		}
 		c1xBytes := bigIntTo32Bytes(cipher.X)
 		c1yBytes := bigIntTo32Bytes(cipher.Y)
 		c1xLen := len(c1xBytes)
@@ -417,10 +443,13 @@ func UnmarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, e
 		return result, nil
 	} else if cipherTextType == C1C3C2 {
 		cipher := new(sm2CipherC1C3C2)
-		_, err = asn1.Unmarshal(in, cipher)
+		err = unmarshalExact(in, cipher, func() interface{} { return *cipher })
 		if err != nil {
 			return nil, err
 		}
+		if !validCipherParts(cipher.X, cipher.Y, cipher.C3) {
+			return nil, errors.New("invalid cipher text")
+		}
 		c1xBytes := bigIntTo32Bytes(cipher.X)
 		c1yBytes := bigIntTo32Bytes(cipher.Y)
 		c1xLen := len(c1xBytes)
-- 
2.43.0


From 89e0dc3ad9e77037818a3fe7af9386a9a2d56e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:27 +0000
Subject: [PATCH 12/27] fix: sm2 UnmarshalSign refuses trailing data

---
 sm2/sm2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index ff58d4c..e7817e7 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -513,7 +513,7 @@ func MarshalSign(r, s *big.Int) ([]byte, error) {
 
 func UnmarshalSign(sign []byte) (r, s *big.Int, err error) {
 	sm2Sign := new(sm2Signature)
-	_, err = asn1.Unmarshal(sign, sm2Sign)
+	err = unmarshalExact(sign, sm2Sign, func() interface{} { return *sm2Sign })
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From 5698ad636e529a6e365897e7b3ecb4090a2883ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:27 +0000
Subject: [PATCH 13/27] fix: sm2 refuses public keys that are not on the curve

---
 sm2/sm2.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index e7817e7..5c386f7 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -119,6 +119,9 @@ func RawBytesToPublicKey(bytes []byte) (*PublicKey, error) {
 	publicKey.Curve = sm2P256V1
 	publicKey.X = new(big.Int).SetBytes(bytes[:KeyBytes])
 	publicKey.Y = new(big.Int).SetBytes(bytes[KeyBytes:])
+	if !publicKey.Curve.IsOnCurve(publicKey.X, publicKey.Y) {
+		return nil, errors.New("public key is not a point of the curve")
+	}
 	return publicKey, nil
 }
 
@@ -260,6 +263,9 @@ func notEncrypted(encData []byte, in []byte) bool {
 }
 
 func Encrypt(pub *PublicKey, in []byte, cipherTextType Sm2CipherTextType) ([]byte, error) {
+	if !pub.Curve.IsOnCurve(pub.X, pub.Y) {
+		return nil, errors.New("public key is not a point of the curve")
+	}
 	c2 := make([]byte, len(in))
 	copy(c2, in)
 	var c1 []byte
@@ -583,6 +589,9 @@ func VerifyByRS(pub *PublicKey, userId []byte, src []byte, r, s *big.Int) bool {
 	if s.Cmp(intOne) == -1 || s.Cmp(pub.Curve.N) >= 0 {
 		return false
 	}
+	if !pub.Curve.IsOnCurve(pub.X, pub.Y) {
+		return false
+	}
 
 	digest := sm3.New()
 	if userId == nil {
-- 
2.43.0


From aa570c2f24f90eddedc429e6caa35970d7f808e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:28 +0000
Subject: [PATCH 14/27] fix: sm2 private keys are in [1, n-2]

---
 sm2/sm2.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 5c386f7..abd0902 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -97,13 +97,21 @@ func GetSm2P256V1() P256V1Curve {
 }
 
 func GenerateKey(rand io.Reader) (*PrivateKey, *PublicKey, error) {
-	priv, x, y, err := elliptic.GenerateKey(sm2P256V1, rand)
-	if err != nil {
-		return nil, nil, err
-	}
 	privateKey := new(PrivateKey)
 	privateKey.Curve = sm2P256V1
-	privateKey.D = new(big.Int).SetBytes(priv)
+	var x, y *big.Int
+	for {
+		var priv []byte
+		var err error
+		priv, x, y, err = elliptic.GenerateKey(sm2P256V1, rand)
+		if err != nil {
+			return nil, nil, err
+		}
+		privateKey.D = new(big.Int).SetBytes(priv)
+		if privateKey.inRange() {
+			break
+		}
+	}
 	publicKey := new(PublicKey)
 	publicKey.Curve = sm2P256V1
 	publicKey.X = x
@@ -132,9 +140,18 @@ func RawBytesToPrivateKey(bytes []byte) (*PrivateKey, error) {
 	privateKey := new(PrivateKey)
 	privateKey.Curve = sm2P256V1
 	privateKey.D = new(big.Int).SetBytes(bytes)
+	if !privateKey.inRange() {
+		return nil, errors.New("private key out of range")
+	}
 	return privateKey, nil
 }
 
+// inRange reports whether D is in [1, n-2]
+func (pri *PrivateKey) inRange() bool {
+	max := util.Sub(pri.Curve.N, new(big.Int).SetInt64(2))
+	return pri.D.Sign() > 0 && pri.D.Cmp(max) <= 0
+}
+
 func (pub *PublicKey) GetUnCompressBytes() []byte {
 	xBytes := bigIntTo32Bytes(pub.X)
 	yBytes := bigIntTo32Bytes(pub.Y)
@@ -527,6 +544,9 @@ func UnmarshalSign(sign []byte) (r, s *big.Int, err error) {
 }
 
 func SignToRS(priv *PrivateKey, userId []byte, in []byte) (r, s *big.Int, err error) {
+	if !priv.inRange() {
+		return nil, nil, errors.New("private key out of range")
+	}
 	digest := sm3.New()
 	pubX, pubY := priv.Curve.ScalarBaseMult(priv.D.Bytes())
 	if userId == nil {
-- 
2.43.0


From 4a2f2daae443481dc46245aeeaeafe4914383ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:28 +0000
Subject: [PATCH 15/27] fix: sm2 key exchange refuses invalid peer points and a
 shared point at infinity

---
 sm2/keyexchange.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index 3cb365b..00636d3 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -118,6 +118,11 @@ func CalculateKeyWithConfirmation(initiator bool, keyBits int, confirmationTag [
 		return nil, errors.New("if initiating, confirmationTag must be set")
 	}
 
+	curve := selfStaticPriv.Curve
+	if !curve.IsOnCurve(otherStaticPub.X, otherStaticPub.Y) || !curve.IsOnCurve(otherEphemeralPub.X, otherEphemeralPub.Y) {
+		return nil, errors.New("peer public key is not a point of the curve")
+	}
+
 	selfStaticPub := CalculatePubKey(selfStaticPriv)
 	digest := sm3.New()
 	za := getZ(digest, &selfStaticPriv.Curve, selfStaticPub.X, selfStaticPub.Y, selfId)
@@ -126,6 +131,9 @@ func CalculateKeyWithConfirmation(initiator bool, keyBits int, confirmationTag [
 	w := selfStaticPriv.Curve.BitSize/2 - 1
 	selfEphemeralPub := CalculatePubKey(selfEphemeralPriv)
 	ux, uy := calculateU(w, selfStaticPriv, selfEphemeralPriv, selfEphemeralPub, otherStaticPub, otherEphemeralPub)
+	if util.IsEcPointInfinity(ux, uy) {
+		return nil, errors.New("shared point at infinity")
+	}
 	if initiator {
 		rv := kdfForExch(digest, ux, uy, za, zb, keyBits)
 		innerHash := calculateInnerHash(digest, ux, za, zb, selfEphemeralPub.X, selfEphemeralPub.Y,
-- 
2.43.0


From 41ffc5b61f385697a4b93c96e652383fe529192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:57 +0000
Subject: [PATCH 16/27] fix: cryptobyte reads refuse a negative count

---
 cryptobyte/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptobyte/string.go b/cryptobyte/string.go
index db3d738..cf7ac86 100644
--- a/cryptobyte/string.go
+++ b/cryptobyte/string.go
@@ -24,7 +24,7 @@ type String []byte
 // read advances a String by n bytes and returns them. If less than n bytes
 // remain, it returns nil.
 func (s *String) read(n int) []byte {
-	if len(*s) < n {
+	if n < 0 || len(*s) < n {
 		return nil
 	}
 	v := (*s)[:n]
-- 
2.43.0


From 2446fb47a695891117fc523eb52f3e816ce125fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:59 +0000
Subject: [PATCH 17/27] fix: cryptobyte reads booleans with the BOOLEAN tag,
 optional ones too

---
 cryptobyte/asn1.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index 431d14e..e2d2c0d 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -226,7 +226,7 @@ func (b *Builder) AddASN1(tag asn1.Tag, f BuilderContinuation) {
 
 func (s *String) ReadASN1Boolean(out *bool) bool {
 	var bytes String
-	if !s.ReadASN1(&bytes, asn1.INTEGER) || len(bytes) != 1 {
+	if !s.ReadASN1(&bytes, asn1.BOOLEAN) || len(bytes) != 1 {
 		return false
 	}
 
@@ -645,13 +645,7 @@ func (s *String) ReadOptionalASN1OctetString(out *[]byte, outPresent *bool, tag
 // ReadOptionalASN1Boolean sets *out to the value of the next ASN.1 BOOLEAN or,
 // if the next bytes are not an ASN.1 BOOLEAN, to the value of defaultValue.
 func (s *String) ReadOptionalASN1Boolean(out *bool, defaultValue bool) bool {
-	var present bool
-	var child String
-	if !s.ReadOptionalASN1(&child, &present, asn1.BOOLEAN) {
-		return false
-	}
-
-	if !present {
+	if !s.PeekASN1Tag(asn1.BOOLEAN) {
 		*out = defaultValue
 		return true
 	}
-- 
2.43.0


From 2679daabf0f0bec385c1a511dfab11aa1c3f6eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:00 +0000
Subject: [PATCH 18/27] fix: cryptobyte AddASN1BigInt encodes -1

---
 cryptobyte/asn1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index e2d2c0d..c8bc322 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -75,7 +75,7 @@ func (b *Builder) AddASN1BigInt(n *big.Int) {
 			for i := range bytes {
 				bytes[i] ^= 0xff
 			}
-			if bytes[0]&0x80 == 0 {
+			if len(bytes) == 0 || bytes[0]&0x80 == 0 {
 				c.add(0xff)
 			}
 			c.add(bytes...)
-- 
2.43.0


From 54474803d24b1848bc1a5f642ff58c8a4974a0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:01 +0000
Subject: [PATCH 19/27] fix: cryptobyte fixed builders keep the content of
 length-prefixed children

---
 cryptobyte/builder.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cryptobyte/builder.go b/cryptobyte/builder.go
index 29b4c76..2c31c04 100644
--- a/cryptobyte/builder.go
+++ b/cryptobyte/builder.go
@@ -268,9 +268,7 @@ func (b *Builder) flushChild() {
 		return
 	}
 
-	if !b.fixedSize {
-		b.result = child.result // In case child reallocated result.
-	}
+	b.result = child.result
 }
 
 func (b *Builder) add(bytes ...byte) {
-- 
2.43.0


From c63639a103bd0800f32276d1925e39a005eb9fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:02 +0000
Subject: [PATCH 20/27] fix: cryptobyte fixed builders report an error when a
 length does not fit

---
 cryptobyte/builder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cryptobyte/builder.go b/cryptobyte/builder.go
index 2c31c04..8374f1e 100644
--- a/cryptobyte/builder.go
+++ b/cryptobyte/builder.go
@@ -176,6 +176,9 @@ func (b *Builder) addLengthPrefixed(lenLen int, isASN1 bool, f BuilderContinuati
 
 	offset := len(b.result)
 	b.add(make([]byte, lenLen)...)
+	if b.err != nil {
+		return
+	}
 
 	if b.inContinuation == nil {
 		b.inContinuation = new(bool)
@@ -251,6 +254,10 @@ func (b *Builder) flushChild() {
 		extraBytes := int(lenLen - 1)
 		if extraBytes != 0 {
 			child.add(make([]byte, extraBytes)...)
+			if child.err != nil {
+				b.err = child.err
+				return
+			}
 			childStart := child.offset + child.pendingLenLen
 			copy(child.result[childStart+extraBytes:], child.result[childStart:])
 		}
-- 
2.43.0


From 0fbc9d3a287bed3f93d2c938922853bac12833f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:03 +0000
Subject: [PATCH 21/27] fix: cryptobyte object identifiers up to 2^31-1,
 minimal encodings only

---
 cryptobyte/asn1.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index c8bc322..1929ada 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -377,11 +377,14 @@ func (s *String) ReadASN1Enum(out *int) bool {
 func (s *String) readBase128Int(out *int) bool {
 	ret := 0
 	for i := 0; len(*s) > 0; i++ {
-		if i == 4 {
+		if i == 5 || ret >= 1<<(31-7) {
 			return false
 		}
 		ret <<= 7
 		b := s.read(1)[0]
+		if i == 0 && b == 0x80 {
+			return false // not minimal (X.690 section 8.19.2)
+		}
 		ret |= int(b & 0x7f)
 		if b&0x80 == 0 {
 			*out = ret
-- 
2.43.0


From c1a68a3e0202026b3ca7e6026cfe2035dbadaa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:53 +0000
Subject: [PATCH 22/27] fix: cert CreateCertificateRequest does not modify the
 template's attributes

---
 sm2/cert/gmx509.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index f9fe844..3fec990 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -97,7 +97,11 @@ func CreateCertificateRequest(template *x509.CertificateRequest, pub *sm2.Public
 	extensions = append(extensions, template.ExtraExtensions...)
 
 	var attributes []pkix.AttributeTypeAndValueSET
-	attributes = append(attributes, template.Attributes...)
+	for _, atvSet := range template.Attributes {
+		// The extensions below may be added to a value: leave the template's own alone.
+		atvSet.Value = append([][]pkix.AttributeTypeAndValue(nil), atvSet.Value...)
+		attributes = append(attributes, atvSet)
+	}
 
 	if len(extensions) > 0 {
 		// specifiedExtensions contains all the extensions that we
@@ -138,7 +142,7 @@ func CreateCertificateRequest(template *x509.CertificateRequest, pub *sm2.Public
 				continue
 			}
 
-			atvSet.Value[0] = append(atvSet.Value[0], atvs...)
+			atvSet.Value[0] = append(atvSet.Value[0][:len(atvSet.Value[0]):len(atvSet.Value[0])], atvs...)
 			appended = true
 			break
 		}
-- 
2.43.0


From 7c07e5b1793b5fb0e9e52b5a45ee31ce17706e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:54 +0000
Subject: [PATCH 23/27] fix: cert VerifyCSRSign is false for a CSR without an
 SM2 key

---
 sm2/cert/gmx509.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index 3fec990..500ef61 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -538,7 +538,10 @@ func VerifyDERCSRSign(asn1Data []byte, userId []byte) (bool, error) {
 }
 
 func VerifyCSRSign(csr *x509.CertificateRequest, userId []byte) bool {
-	pub := csr.PublicKey.(*sm2.PublicKey)
+	pub, ok := csr.PublicKey.(*sm2.PublicKey)
+	if !ok || pub == nil {
+		return false
+	}
 	return sm2.Verify(pub, userId, csr.RawTBSCertificateRequest, csr.Signature)
 }
 
-- 
2.43.0


From 4aa00fedc48b26f5e80e9235b48bc9703837f768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:56 +0000
Subject: [PATCH 24/27] fix: cert ParseCertificate checks the signature
 algorithm inside the signed part too

---
 sm2/cert/gmx509.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index 500ef61..a6b469c 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -1087,7 +1087,8 @@ func parseCertificate(in *certificate) (*x509.Certificate, error) {
 	out.SignatureAlgorithm = 0
 	out.PublicKeyAlgorithm = 0
 
-	if !oidSignatureSM3WithSM2.Equal(in.SignatureAlgorithm.Algorithm) {
+	if !oidSignatureSM3WithSM2.Equal(in.SignatureAlgorithm.Algorithm) ||
+		!oidSignatureSM3WithSM2.Equal(in.TBSCertificate.SignatureAlgorithm.Algorithm) {
 		return nil, errors.New("x509: illegal signature algorithm OID")
 	}
 	if !oidPublicKeyECDSA.Equal(in.TBSCertificate.PublicKey.Algorithm.Algorithm) {
-- 
2.43.0


From 9d220af375924f4b1a445a71c519fc967ea9839a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:57 +0000
Subject: [PATCH 25/27] fix: cert returns an error for an unknown extended key
 usage

---
 sm2/cert/gmx509.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index a6b469c..3be44c6 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -730,7 +730,7 @@ func buildExtensions(template *x509.Certificate, subjectIsEmpty bool, authorityK
 			if oid, ok := oidFromExtKeyUsage(u); ok {
 				oids = append(oids, oid)
 			} else {
-				panic("internal error")
+				return nil, errors.New("x509: unknown extended key usage")
 			}
 		}
 
-- 
2.43.0


From 18aa75a026d35ad2c2635a03d47aa16b6c96bf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:59 +0000
Subject: [PATCH 26/27] fix: cert refuses domain names with an empty first
 label

---
 sm2/cert/gmx509.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index 3be44c6..58eb634 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -471,6 +471,10 @@ func domainToReverseLabels(domain string) (reverseLabels []string, ok bool) {
 		} else {
 			reverseLabels = append(reverseLabels, domain[i+1:])
 			domain = domain[:i]
+			if i == 0 {
+				// A leading period: the first label is empty.
+				reverseLabels = append(reverseLabels, "")
+			}
 		}
 	}
 
-- 
2.43.0


From 577b775dc70dcf879f2c86dfcc1a71c49b6cc759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:00 +0000
Subject: [PATCH 27/27] fix: cert refuses mailboxes with an empty domain

---
 sm2/cert/gmx509.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index 58eb634..90bd6cf 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -1633,7 +1633,7 @@ func parseRFC2821Mailbox(in string) (mailbox rfc2821Mailbox, ok bool) {
 	// The RFC species a format for domains, but that's known to be
 	// violated in practice so we accept that anything after an '@' is the
 	// domain part.
-	if _, ok := domainToReverseLabels(in); !ok {
+	if _, ok := domainToReverseLabels(in); !ok || len(in) == 0 {
 		return mailbox, false
 	}
 
-- 
2.43.0

