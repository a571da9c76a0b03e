#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so that the long texts stay reviewable).
import json,os
P=[]
def p(id,title,stmt,over,quant,why,files,mech,observe,state=()):
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":quant},
      "why_tests_cant":why,"anchors":{"files":files,
      "state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
      "mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":observe,"hook_needed":None}})

p("C01","SM3 digest equals GB/T 32905 for every message and every way of writing it",
 "The digest returned for a message equals the SM3 function of GB/T 32905 of exactly that message, whether it is hashed in one call or fed through the streaming interface. The sequence of writes, including empty writes and any split position, never influences the result.",
 ["inputs","histories"],"every byte string shorter than 2^56 bytes and every sequence of writes (any chunk sizes, including zero) that concatenates to it",
 "The tests hash three fixed messages in one or two fixed write patterns; padding boundaries, partial-word buffers and all 2^512 block values are never covered.",
 ["sm3/sm3.go"],[("streaming write / word buffering","sm3.(*sm3Digest).Write, processWord"),("padding and length","sm3.(*sm3Digest).finish, processLength"),("compression function","sm3.(*sm3Digest).processBlock, p0/p1/ff/gg, gT")],
 ["sm3.Sum","sm3.New().Write/Sum"],[("v","chaining value after the whole blocks absorbed so far","sm3.go sm3Digest.v"),("inWords/xOff","words of the current partial block","sm3.go"),("xBuf/xBufOff","bytes of the current partial word","sm3.go"),("byteCount","message length so far","sm3.go")])
p("C02","SM3 hash object obeys the hash.Hash contract",
 "Taking the digest appends exactly 32 bytes to the caller's slice, keeps the slice's existing bytes, and leaves the hash state untouched so that writing may continue and the digest may be taken again. Reset makes the object indistinguishable from a new one, and the reported output size and block size are those of SM3 (32 and 64 bytes), so that generic constructions such as HMAC compute the standard value.",
 ["histories","inputs"],"every reachable state of a hash object and every slice given to Sum",
 "The tests take one digest per object and never look at the object afterwards; interleavings of Write, Sum and Reset are unbounded.",
 ["sm3/sm3.go"],[("Sum works on a copy","sm3.(*sm3Digest).Sum"),("Reset","sm3.(*sm3Digest).Reset"),("sizes","sm3.(*sm3Digest).Size, BlockSize")],["sm3.New()"])
p("C03","SM4 block transform equals GB/T 32907 and touches only its output block",
 "For every 16-byte key and block, encrypting and decrypting one block produces exactly the block that GB/T 32907 defines; a key of any other length is refused with an error. The operation writes only the first 16 bytes of the destination, works in place, and changes neither key, source nor cipher object, so one cipher object can be used any number of times.",
 ["inputs","histories"],"every key, every block, every destination slice of at least 16 bytes including the source itself, any number of calls",
 "The tests use two key/plaintext pairs out of 2^256; S-box entries, round constants and word order errors that need particular bytes are invisible.",
 ["sm4/sm4.go"],[("key schedule","sm4.expandKey, encRound, decRound, tau, lAp"),("rounds","sm4.processBlock, f0..f3, t, l, r"),("length guards","sm4.NewCipher, (*sm4Cipher).Encrypt/Decrypt")],["cipher.Block returned by sm4.NewCipher"],
 [("enc/dec","round keys in encryption and decryption order","sm4.go sm4Cipher")])
p("C04","SM4 decryption inverts encryption for every key and block",
 "For every key and every 16-byte block, decrypting an encrypted block gives the block back, and encrypting a decrypted block gives the block back.",
 ["inputs"],"all 2^128 keys and 2^128 blocks",
 "Round trips are sampled on two keys.",["sm4/sm4.go"],[("reversed round keys","sm4.expandKey"),("final reversal","sm4.processBlock, r")],["sm4.NewCipher(key).Encrypt/Decrypt"])
p("C05","SM4-ECB: every block is transformed independently, for every length",
 "For any message that is a whole number of blocks, including the empty message, ECB encryption and decryption return a new slice of the same length whose i-th block is the SM4 image of the i-th input block, so that decryption inverts encryption. Any other message length or key length yields an error and no output; inputs are never modified and nothing panics.",
 ["inputs"],"every key slice and every message slice of any length and content",
 "Tests run one or two blocks; long messages, empty messages and all bad lengths are untested.",
 ["sm4/sm4.go"],[("block loop","sm4.ECBEncrypt, sm4.ECBDecrypt")],["sm4.ECBEncrypt","sm4.ECBDecrypt"])
p("C06","SM4-CBC: standard chaining for every length, errors instead of panics",
 "For any whole-block message and a 16-byte IV, CBC encryption returns a new slice in which each block is the SM4 encryption of the input block XOR the previous output block (the IV first), and CBC decryption inverts it. A message that is not whole blocks, a bad key length or a bad IV length yields an error, never a panic, and inputs are never modified.",
 ["inputs"],"every key, IV and message slice of any length and content",
 "Tests run a few fixed blocks with a valid IV.",
 ["sm4/sm4.go"],[("mode wrapper","sm4.CBCEncrypt, sm4.CBCDecrypt")],["sm4.CBCEncrypt","sm4.CBCDecrypt"])
p("C07","Padding fills whole blocks, is invertible and spares the caller's memory",
 "For every input and block size 1..255, padding returns the input followed by between 1 and blockSize bytes of the scheme's padding value so that the total is a multiple of the block size, and removing the padding (with the known count for zero padding) returns exactly the input. Neither padding function writes to memory of the caller's slice, including its spare capacity.",
 ["inputs"],"every byte slice (any length, any spare capacity) and every block size from 1 to 255",
 "The tests pad one or two fixed strings; alignment, full extra blocks and shared backing arrays are not explored.",
 ["util/padding.go"],[("padding","util.PKCS5Padding, util.ZeroPadding"),("unpadding","util.PKCS5UnPadding, util.UnZeroPadding")],["util.PKCS5Padding","util.ZeroPadding","util.PKCS5UnPadding","util.UnZeroPadding"])
p("C08","Big-integer helpers return the mathematical result and never modify operands",
 "Every big-integer helper (addition, subtraction, modulus, modular inverse, product, shift, bit set, and) returns a fresh number equal to the mathematical result and leaves its operands unchanged, even when operands are the same object. The point-at-infinity test is true exactly for (0,0).",
 ["inputs"],"all integers of any size and sign in each operation's domain",
 "The tests add 1+1.",["util/bigint.go","util/ec.go"],[("fresh receiver","util.Add, Sub, Mod, ModInverse, Mul, Lsh, SetBit, And"),("infinity test","util.IsEcPointInfinity, util.ZForAffine")],["package util"])
p("C09","SM2 key encodings are fixed width, canonical and lossless",
 "A private key in [0, 2^256) is always encoded in exactly 32 big-endian bytes and a public key in exactly 64 bytes (65 with the 0x04 prefix), including values with leading zero bytes, and decoding the encoding yields the same key. Decoding refuses any other length, any public point that is not on the SM2 curve and any private scalar outside [1, n-2], with an error and not a panic.",
 ["inputs"],"every private scalar, every public point, every byte slice of any length",
 "A random key has a leading zero byte with probability 1/256 and the tests encode a handful of random keys.",
 ["sm2/sm2.go"],[("left padding","sm2.bigIntTo32Bytes, GetUnCompressBytes, GetRawBytes"),("decoding","sm2.RawBytesToPublicKey, RawBytesToPrivateKey")],["sm2.(*PublicKey).GetRawBytes/GetUnCompressBytes","sm2.(*PrivateKey).GetRawBytes","sm2.RawBytesToPublicKey/RawBytesToPrivateKey"])
p("C10","Generated and derived public keys are the private key times the SM2 base point",
 "Key generation returns a private scalar d and the public point [d]G on the SM2 recommended curve (with the parameters fixed by GB/T 32918.5), and deriving a public key from a private key returns that same point without changing the private key. Failure of the random source is returned as an error together with no key.",
 ["inputs","fault_sequences"],"every random stream (including failing ones) and every private scalar in [1, n-1]",
 "Tests generate a few keys from a good random source.",
 ["sm2/sm2.go"],[("generation","sm2.GenerateKey"),("derivation","sm2.CalculatePubKey"),("curve constants","sm2.initSm2P256V1")],["sm2.GenerateKey","sm2.CalculatePubKey","sm2.GetSm2P256V1"])
p("C11","SM2 signatures follow GB/T 32918.2 and are always accepted by verification",
 "Signing returns r=(e+x1) mod n and s=((1+d)^-1 (k-r d)) mod n for the hash e bound to signer id, curve and public key and for a nonce k drawn fresh from [1,n-1], both in [1,n-1]; every such signature is accepted by verification with the matching public key, id and message. Candidates with r=0, r+k=n or s=0 are retried and never returned, a random-source failure is returned as an error, and key, id and message are not modified.",
 ["inputs","fault_sequences"],"every private scalar in [1,n-2], id shorter than 8192 bytes, message and nonce stream",
 "Tests sign a few random messages and check they verify; the retry conditions and the leading-zero cases have probability around 2^-8 to 2^-256.",
 ["sm2/sm2.go"],[("signing equation","sm2.SignToRS, Sign"),("nonce","sm2.nextK"),("Z and e","sm2.getZ, calculateE")],["sm2.SignToRS","sm2.Sign","sm2.VerifyByRS"])
p("C12","SM2 verification accepts exactly the standard's equation and never panics",
 "Verification returns true if and only if r and s are in [1,n-1], t=(r+s) mod n is not 0, and (e+x1) mod n = r for (x1,y1)=[s]G+[t]P, with e computed from exactly the given id (or the default id when none is given), public key and message. For any r, s, signature bytes or public point, including malformed or off-curve ones, it returns a boolean and does not panic or modify its arguments.",
 ["inputs"],"all integers r,s, all signature byte strings, all ids shorter than 8192 bytes, all messages, all public points",
 "Tests only check that genuine signatures verify; rejection is a statement about every other triple.",
 ["sm2/sm2.go"],[("range and equation checks","sm2.VerifyByRS, Verify"),("Z and e","sm2.getZ, calculateE")],["sm2.VerifyByRS","sm2.Verify"])
p("C13","SM2 decryption recovers every encrypted message in both layouts",
 "Encrypting any message, including the empty one, yields C1=[k]G, C2=M xor KDF(x2||y2), C3=SM3(x2||M||y2) for [k]P=(x2,y2) laid out in the requested order, and decrypting it with the matching private key and order returns exactly the message. An unknown order or a failing random source yields an error, and neither key nor message is modified.",
 ["inputs","fault_sequences"],"every key pair with private scalar in [1,n-2], every message below 2^35 bytes, nonce stream and requested order (2^36 bytes for encryption alone)",
 "Tests use short fixed messages; KDF block boundaries, leading-zero coordinates and empty messages are not sampled.",
 ["sm2/sm2.go"],[("KDF","sm2.kdf, xor"),("assembly","sm2.Encrypt"),("parsing","sm2.Decrypt")],["sm2.Encrypt","sm2.Decrypt"])
p("C14","SM2 decryption rejects malformed and inauthentic ciphertexts with an error",
 "For any byte string whatsoever, decryption either returns the message M for which C3 = SM3(x2||M||y2) holds for the point (x2,y2)=[d]C1 and all of C1, C2 and C3 present in the input, or returns an error. It never panics, never uses a C1 that is not on the curve, and never returns plaintext when the tag does not match.",
 ["inputs"],"every ciphertext byte string below 2^36 bytes, every order value, every private scalar in [1,n-2]",
 "Tests decrypt only ciphertexts they have just produced.",
 ["sm2/sm2.go"],[("length, point and tag checks","sm2.Decrypt")],["sm2.Decrypt"])
p("C15","SM2 ciphertext DER conversion is lossless and total",
 "Converting a raw ciphertext to its DER form keeps every component in the field the requested order assigns to it (GM/T 0009), with fixed 32-byte coordinates restored on the way back, so that the two conversions are inverse on every well-formed raw ciphertext. Input of the wrong shape, over-wide or negative coordinates or a wrong-size hash yields an error, never a panic and never a ciphertext of another length.",
 ["inputs"],"every byte string below 2^36 bytes in either direction (2^35 for the round trip), both orders and unknown orders",
 "Tests convert a few ciphertexts with random coordinates; coordinates with leading zero bytes and all malformed inputs are not covered.",
 ["sm2/sm2.go"],[("DER packing","sm2.MarshalCipher"),("DER unpacking","sm2.UnmarshalCipher")],["sm2.MarshalCipher","sm2.UnmarshalCipher"])
p("C16","SM2 signature DER encoding is unambiguous",
 "Encoding r and s and decoding the result returns the same r and s, and decoding refuses anything that is not exactly one such encoding: truncated data, other structures, or trailing bytes. Signing in DER form returns exactly the encoding of the computed pair, and verification of DER signatures agrees with verification of the decoded pair and is false when decoding fails.",
 ["inputs"],"all integer pairs and all byte strings",
 "Tests decode only encodings they have just produced.",
 ["sm2/sm2.go"],[("DER","sm2.MarshalSign, UnmarshalSign"),("wrappers","sm2.Sign, Verify")],["sm2.MarshalSign","sm2.UnmarshalSign","sm2.Verify"])
p("C17","SM2 key exchange: both sides derive the standard's key and confirmation tags",
 "For every pair of honest parties, both sides compute the same shared point, the same key of exactly the requested length and the same confirmation tags, all equal to the values of GB/T 32918.3, in which every coordinate is hashed as 32 bytes; so the initiator accepts the responder's tag and the responder accepts the initiator's. This holds for any key length and any pair of ids.",
 ["inputs"],"all static and ephemeral key pairs with scalars in [1,n-2] whose shared point is not at infinity, all ids shorter than 8192 bytes, all key lengths from 0 to 2^38-1 bits (rounded up to whole bytes)",
 "The test runs one exchange with random keys and a 128-bit key.",
 ["sm2/keyexchange.go"],[("shared point","sm2.reduce, calculateU"),("KDF","sm2.kdfForExch"),("tags","sm2.calculateInnerHash, s1, s2"),("role order","sm2.CalculateKeyWithConfirmation")],["sm2.CalculateKeyWithConfirmation","sm2.ResponderConfirm"])
p("C18","SM2 key exchange refuses wrong confirmation tags and invalid peer points",
 "The initiator obtains a key only if the given confirmation tag equals the expected one bit for bit; a missing or different tag gives an error and no key. Peer public or ephemeral points that are not on the curve, and a shared point at infinity, give an error and no key, never a panic, and the responder's final check is true exactly when the tags are equal.",
 ["inputs"],"every tag byte string, every peer point pair, every own scalar in [1,n-2], ids shorter than 8192 bytes",
 "The test only passes genuine tags and points.",
 ["sm2/keyexchange.go"],[("checks","sm2.CalculateKeyWithConfirmation, ResponderConfirm")],["sm2.CalculateKeyWithConfirmation","sm2.ResponderConfirm"])
p("C19","Byte-string readers stay in bounds and consume exactly what they return",
 "Every fixed-size and length-prefixed read either succeeds, returning exactly the next bytes of the input with their big-endian value and leaving exactly the remainder, or fails without panicking, whatever the bytes and whatever count is asked for. No reader ever exposes bytes outside the string it was given or modifies the input.",
 ["inputs"],"every byte string, every requested length including negative ones, every reader",
 "There are no tests for this package; truncation at each position is a statement about all lengths.",
 ["cryptobyte/string.go"],[("bounds check","cryptobyte.(*String).read"),("prefix decoding","readLengthPrefixed, readUnsigned")],["cryptobyte.String"])
p("C20","DER element parsing accepts exactly canonical tag-length-value encodings",
 "Reading an element succeeds if and only if the input starts with a low-form tag and a minimally encoded definite length of at most four octets whose content lies wholly inside the input; it then returns exactly that tag, content or whole element, and remainder. Anything else, or an element with a different tag than asked for, is refused without panic; skipping, peeking and optional reads behave consistently with this.",
 ["inputs"],"every byte string below 4 GiB and every tag",
 "There are no tests for this package; the length encodings of interest (0x80, 0x81 0x7f, leading zeros, 2^32 wraparound) are rare points of the input space.",
 ["cryptobyte/asn1.go"],[("header parsing","cryptobyte.(*String).readASN1"),("wrappers","ReadASN1, ReadASN1Element, ReadAnyASN1, ReadAnyASN1Element, ReadASN1Bytes, SkipASN1, PeekASN1Tag, ReadOptionalASN1, SkipOptionalASN1")],["cryptobyte.String"])
p("C21","DER integers round-trip and decode only minimal in-range encodings",
 "Encoding any 64-bit signed or unsigned integer or big integer and decoding it with any reader whose range contains it returns the same value, and the encoding is minimal two's complement. Decoding refuses empty, non-minimal and out-of-range encodings without panicking and without truncating or wrapping the value.",
 ["inputs"],"all 64-bit signed and unsigned integers, all big integers below 16 MiB; all byte strings below 4 GiB",
 "There are no tests for this package; sign and length boundaries are sparse in 2^64 values.",
 ["cryptobyte/asn1.go"],[("encoders","addASN1Signed, AddASN1Uint64, AddASN1BigInt"),("decoders","checkASN1Integer, asn1Signed, asn1Unsigned, readASN1BigInt, ReadASN1Integer, ReadASN1Enum")],["cryptobyte.Builder","cryptobyte.String"])
p("C22","Builders frame nested content with the exact length, for every content size",
 "After a length-prefixed or ASN.1 element is built from any content, the output is the previous output followed by the tag or fixed-width prefix, the exact minimal DER or fixed-width big-endian length, and the content unchanged; content that does not fit its prefix gives an error. Reading the output back yields the content, at any nesting, for growing and fixed buffers alike.",
 ["inputs","programs"],"every content length and bytes, every prefix width, nested builders, growing and fixed buffers of any capacity",
 "There are no tests for this package; length-class boundaries (127/128, 255/256, 65535/65536, 2^24) and buffer reallocations are not reached.",
 ["cryptobyte/builder.go"],[("framing","addLengthPrefixed, flushChild"),("appending","add")],["cryptobyte.Builder"],[("pendingLenLen/offset","where the child's length will be written","builder.go Builder")])
p("C23","Builder errors are sticky and fixed buffers are never exceeded or reallocated",
 "Once any error has occurred, a builder reports that an error happened and ignores every later addition; a fixed builder never writes beyond the capacity of the buffer it was given and never moves to another one, reporting an error instead of panicking or truncating. A continuation that panics with a build error turns into that error, any other panic propagates.",
 ["inputs","programs","histories"],"every sequence of additions, every buffer capacity",
 "There are no tests for this package.",
 ["cryptobyte/builder.go"],[("error checks","add, addLengthPrefixed, flushChild, callContinuation, Bytes")],["cryptobyte.Builder"])
p("C24","Object identifiers round-trip through DER",
 "Every valid object identifier whose sub-identifiers (the first is 40*a+b) are below 2^31 encodes to minimal base-128 DER and decodes to the same components; invalid identifiers are refused by the encoder, and truncated, overlong, non-minimal or overflowing encodings are refused by the decoder, without panics.",
 ["inputs"],"every component list; every byte string below 4 GiB",
 "There are no tests for this package.",
 ["cryptobyte/asn1.go"],[("encoder","AddASN1ObjectIdentifier, addBase128Int, isValidOID"),("decoder","ReadASN1ObjectIdentifier, readBase128Int")],["cryptobyte.Builder","cryptobyte.String"])
p("C25","DER booleans, bit strings, octet strings and optional fields round-trip strictly",
 "Booleans, whole-byte bit strings, octet strings and optional integers, octet strings and booleans decode to exactly what was encoded, and an absent optional field yields the default and consumes nothing. Encodings DER forbids (boolean other than 00/FF, bad or non-zero padding bits, wrong tags, trailing content) are refused without panics.",
 ["inputs"],"all values below 16 MiB and all byte strings below 4 GiB",
 "There are no tests for this package.",
 ["cryptobyte/asn1.go"],[("boolean","AddASN1Boolean, ReadASN1Boolean, ReadOptionalASN1Boolean"),("bit/octet strings","AddASN1BitString, ReadASN1BitString, ReadASN1BitStringAsBytes, AddASN1OctetString, ReadOptionalASN1OctetString")],["cryptobyte.Builder","cryptobyte.String"])
p("C26","CSRs and certificates carry a signature over exactly the bytes they embed",
 "A created CSR or soft-issued certificate embeds a to-be-signed structure and a signature, labelled SM3-with-SM2, of exactly the encoding that is embedded, made with the given key and id; assembling a certificate from an external signature embeds exactly the given structure and signature. Checking a CSR's signature is true exactly when SM2 verification of its embedded to-be-signed bytes under its own public key succeeds, and creation does not modify the template, parent or CSR given to it.",
 ["inputs","configurations"],"every template without nil elements, key, id shorter than 8192 bytes and extension configuration",
 "The tests issue one fixed template.",
 ["sm2/cert/gmx509.go"],[("CSR","CreateCertificateRequest, VerifyCSRSign, VerifyDERCSRSign"),("certificate","CreateCertificateInfo, IssueCertificateBySoftCAKey, CreateCertificate")],["cert.CreateCertificateRequest","cert.IssueCertificateBySoftCAKey","cert.VerifyCSRSign"])
p("C27","Certificate and CSR parsing accept only whole SM2/SM3 objects with valid keys",
 "A certificate or CSR is accepted only if the whole input is one DER object whose signature algorithm is SM3-with-SM2, whose key algorithm is EC public key on the SM2 curve, and whose public point decodes to a point of that curve; the parsed object then carries exactly the embedded raw bytes, signature and key. Everything else gives an error and never a panic.",
 ["inputs"],"every byte string; every decoded structure",
 "The tests parse two genuine objects.",
 ["sm2/cert/gmx509.go"],[("gates","ParseCertificate, parseCertificate, ParseCertificateRequest, parseCertificateRequest, parsePublicKey")],["cert.ParseCertificate","cert.ParseCertificateRequest"])
p("C28","Key-usage bits and extended key usages survive encoding and decoding",
 "Every combination of the nine key-usage bits is encoded as the DER named bit string with those bits and minimal length and is decoded to the same combination; every defined extended key usage maps to its registered OID and back, and undefined ones give an error rather than a panic or a wrong OID.",
 ["inputs"],"all 2^9 usage combinations (and all int values), all extended key usage values, all OIDs",
 "The tests use at most one usage combination.",
 ["sm2/cert/gmx509.go"],[("bit order","reverseBitsInAByte, asn1BitLength, buildExtensions, parseCertificate"),("table","extKeyUsageOIDs, oidFromExtKeyUsage, extKeyUsageFromOID")],["cert.CreateCertificateInfo","cert.ParseCertificate"])
p("C29","Name-constraint and SAN validators decide their syntax exactly and never panic",
 "IP masks are accepted exactly when they are a run of one bits followed by zero bits; domain names exactly when they split into non-empty printable labels; IA5 strings exactly when all characters are 7-bit; mailboxes are parsed without panicking for any input and only with a non-empty domain after an at-sign. Constraint and SAN extension parsing returns an error rather than panicking on any malformed value.",
 ["inputs"],"every byte string",
 "No test exercises these parsers with malformed input.",
 ["sm2/cert/gmx509.go"],[("validators","isValidIPMask, domainToReverseLabels, isIA5String, parseRFC2821Mailbox"),("extension parsers","parseNameConstraintsExtension, parseSANExtension, forEachSAN")],["cert.ParseCertificate","cert.ParseCertificateRequest"])
p("C30","Certificate extensions: built once, right criticality, overridable",
 "Every configured certificate attribute yields exactly one extension with its registered OID and required criticality (key usage and basic constraints critical, alternative names critical exactly when the subject is empty), attributes that are not configured yield none, and an extension of the same OID supplied by the caller replaces the generated one. Building never panics.",
 ["configurations","inputs"],"every template without nil elements",
 "The tests build one fixed template.",
 ["sm2/cert/gmx509.go"],[("builder","buildExtensions, oidInExtensions")],["cert.CreateCertificateInfo"])
p("C31","Parsing an issued certificate returns the attributes of its template",
 "For every template that can be issued, parsing the issued certificate returns the template's serial number, validity, names, usages, constraints, key identifiers and distribution points.",
 ["configurations","inputs"],"every template that issuance accepts",
 "The tests compare one template by eye.",
 ["sm2/cert/gmx509.go"],[("create and parse","CreateCertificateInfo, parseCertificate")],["cert.CreateCertificateInfo","cert.ParseCertificate"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for r in P: f.write(json.dumps(r,ensure_ascii=False)+"\n")
