From 2df9fe43a4d14e2d80c0aa9121b56970f7fa2b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:02 +0000
Subject: [PATCH 01/68] fix: resolve inherited resources over the whole chain
 of issuers

The walk never advanced past the grandparent, and claims left unresolved
at the trust anchor were accepted.
---
 validator/pki/pki.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 53ba3df..ea88499 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -515,10 +515,14 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 		validIPs = append(validIPs, validTmp...)
 		invalidIPs = append(invalidIPs, invalidTmp...)
 		checkParent = checkParentTmp
+		parentCert = chainCert
 		chain = chain.Parent
 	}
+	// Nothing explicit was found up to the trust anchor
+	invalidIPs = append(invalidIPs, checkParent...)
 
 	// Check ASNs
+	parentCert, _ = parent.Resource.(*librpki.RPKICertificate)
 	validASNs, invalidASNs, checkParentASN := cert.ValidateASNCertificate(parentCert)
 	chain = parent.Parent
 	for chain != nil && len(checkParentASN) > 0 {
@@ -535,8 +539,10 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 		validASNs = append(validASNs, validTmp...)
 		invalidASNs = append(invalidASNs, invalidTmp...)
 		checkParentASN = checkParentTmp
+		parentCert = chainCert
 		chain = chain.Parent
 	}
+	invalidASNs = append(invalidASNs, checkParentASN...)
 
 	if len(invalidIPs) > 0 || len(invalidASNs) > 0 {
 		//return errors.New(fmt.Sprintf("%x contains invalid ASNs: %v", ski, invalidsASN))
-- 
2.43.0


From d0e973f9d76e69217a11c03c7def542784b5a988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 02/68] fix: reject address blocks with an unknown family or
 too many bits

Decoding errors were dropped, leaving nil networks in the certificate that
crash the validation, or prefixes with a nil mask.
---
 validator/lib/cert.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/validator/lib/cert.go b/validator/lib/cert.go
index fec9fd5..5db72b4 100644
--- a/validator/lib/cert.go
+++ b/validator/lib/cert.go
@@ -252,6 +252,9 @@ func DecodeIP(addrfamily []byte, addr asn1.BitString) (*net.IPNet, error) {
 		if addrfamily[1] == 2 {
 			size = 16
 		}
+		if addr.BitLength > size*8 {
+			return nil, fmt.Errorf("IP address has %d bits, more than %d", addr.BitLength, size*8)
+		}
 		ipaddr := make([]byte, size)
 		copy(ipaddr, addr.Bytes)
 		mask := net.CIDRMask(addr.BitLength, size*8)
@@ -271,6 +274,9 @@ func DecodeIPMinMax(addrfamily []byte, addr asn1.BitString, max bool) (net.IP, e
 		if addrfamily[1] == 2 {
 			size = 16
 		}
+		if addr.BitLength > size*8 {
+			return nil, fmt.Errorf("IP address has %d bits, more than %d", addr.BitLength, size*8)
+		}
 		ipaddr := make([]byte, size)
 		copy(ipaddr, addr.Bytes)
 		if max {
@@ -328,7 +334,10 @@ func DecodeIPAddressBlock(data []byte) ([]IPCertificateInformation, error) {
 						return ipaddresses, err
 					}
 
-					a, _ := DecodeIP(ipaddrfam.AddressFamily, addrRange)
+					a, err := DecodeIP(ipaddrfam.AddressFamily, addrRange)
+					if err != nil {
+						return ipaddresses, err
+					}
 					ipaddresses = append(ipaddresses, &IPNet{
 						IPNet: a,
 					})
@@ -344,8 +353,14 @@ func DecodeIPAddressBlock(data []byte) ([]IPCertificateInformation, error) {
 						return ipaddresses, err
 					}
 
-					a, _ := DecodeIPMinMax(ipaddrfam.AddressFamily, addrRange.Min, false)
+					a, err := DecodeIPMinMax(ipaddrfam.AddressFamily, addrRange.Min, false)
+					if err != nil {
+						return ipaddresses, err
+					}
 					b, err := DecodeIPMinMax(ipaddrfam.AddressFamily, addrRange.Max, true)
+					if err != nil {
+						return ipaddresses, err
+					}
 					ipaddresses = append(ipaddresses, &IPAddressRange{
 						Min: a,
 						Max: b,
-- 
2.43.0


From f9171e66fc187fe1c158dd8cbcbf598517111d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 03/68] fix: do not match IPv4 addresses against IPv6 resources

net.IPNet.Contains treats ::ffff:0:0/96 as the IPv4 address space, so a
certificate holding an IPv4-mapped IPv6 prefix could delegate IPv4 prefixes.
---
 validator/lib/cert.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/validator/lib/cert.go b/validator/lib/cert.go
index 5db72b4..aa9535e 100644
--- a/validator/lib/cert.go
+++ b/validator/lib/cert.go
@@ -49,6 +49,10 @@ func (ipn *IPNet) String() string {
 }
 
 func (ipn *IPNet) IsIPInRange(ip net.IP) (bool, bool) {
+	// An IPv4-mapped IPv6 prefix does not hold IPv4 addresses
+	if len(ip) != len(ipn.IPNet.IP) {
+		return false, false
+	}
 	return ipn.IPNet.Contains(ip), false
 }
 
-- 
2.43.0


From a211d5c9281c97ac5082b248f6905a09e2bd52cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 04/68] fix: check that a CRL belongs to its publication point
 before using it

A CRL whose issuer is unknown crashed the validation, and a CRL found in
another publication point was rejected only after its revocations applied.
---
 validator/pki/pki.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index ea88499..897a8b1 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -355,10 +355,11 @@ func (v *Validator) AddResource(pkifile *PKIFile, data []byte) (bool, []*PKIFile
 		if err != nil {
 			return false, nil, nil, err
 		}
-		valid, res, err := v.AddCRL(crl)
-		if pkifile.Parent.Parent.Path != res.Parent.File.Path {
-			return false, nil, nil, fmt.Errorf("CRL %s does not match with the parent %s", pkifile.Path, pkifile.Parent.Parent.Path)
+		if issuer := v.getCRLIssuer(crl); issuer == nil || issuer.File == nil ||
+			pkifile.Parent == nil || pkifile.Parent.Parent == nil || pkifile.Parent.Parent.Path != issuer.File.Path {
+			return false, nil, nil, fmt.Errorf("CRL %s does not match with the parent", pkifile.Path)
 		}
+		valid, res, err := v.AddCRL(crl)
 		if res == nil {
 			return valid, nil, res, fmt.Errorf("Resource is empty: %v", err)
 		}
@@ -639,7 +640,7 @@ func (v *Validator) AddManifest(pkifile *PKIFile, mft *librpki.RPKIManifest) (bo
 	return valid, pathCert, res_mft, err
 }
 
-func (v *Validator) AddCRL(crl *pkix.CertificateList) (bool, *Resource, error) {
+func getCRLAuthority(crl *pkix.CertificateList) []byte {
 	var aki []byte
 	for _, ext := range crl.TBSCertList.Extensions {
 		if ext.Id.Equal(librpki.AuthorityKeyIdentifier) {
@@ -648,6 +649,15 @@ func (v *Validator) AddCRL(crl *pkix.CertificateList) (bool, *Resource, error) {
 			}
 		}
 	}
+	return aki
+}
+
+func (v *Validator) getCRLIssuer(crl *pkix.CertificateList) *Resource {
+	return v.Objects[string(getCRLAuthority(crl))]
+}
+
+func (v *Validator) AddCRL(crl *pkix.CertificateList) (bool, *Resource, error) {
+	aki := getCRLAuthority(crl)
 
 	_, hasParentValid := v.ValidObjects[string(aki)]
 	parent, hasParent := v.Objects[string(aki)]
-- 
2.43.0


From 7b52e71b95f9c0b9588036ffd2db48a9f8596b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 05/68] fix: do not crash on signed objects without signers

---
 validator/lib/cms.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/validator/lib/cms.go b/validator/lib/cms.go
index a1a87a9..8cb2f1e 100644
--- a/validator/lib/cms.go
+++ b/validator/lib/cms.go
@@ -330,6 +330,9 @@ func (cms *CMS) CheckSignaturesMatch() (bool, error) {
 
 // Won't validate if signedattributes is empty
 func (cms *CMS) Validate(encap []byte, cert *x509.Certificate) error {
+	if len(cms.SignedData.SignerInfos) == 0 {
+		return errors.New("CMS has no signer")
+	}
 	signedAttributes := cms.SignedData.SignerInfos[0].SignedAttrs
 
 	var messageDigest []byte
@@ -417,6 +420,9 @@ func (cms *CMS) GetRPKICertificate() (*RPKICertificate, error) {
 
 func (cms *CMS) GetSigningTime() (time.Time, error) {
 	var signingTime time.Time
+	if len(cms.SignedData.SignerInfos) == 0 {
+		return signingTime, errors.New("CMS has no signer")
+	}
 	signedAttributes := cms.SignedData.SignerInfos[0].SignedAttrs
 	for _, sAttr := range signedAttributes {
 		if sAttr.AttrType.Equal(SigningTime) && len(sAttr.AttrValue) > 0 {
-- 
2.43.0


From 478e86751c1312e7a55e4f945fc20081b41ee464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 06/68] fix: verify the PKCS#1 v1.5 padding of CMS signatures
 strictly

Garbage in the padding, after or inside the DigestInfo was ignored, which
makes signatures of low-exponent keys forgeable.
---
 validator/lib/cms.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/validator/lib/cms.go b/validator/lib/cms.go
index 8cb2f1e..6e4b51a 100644
--- a/validator/lib/cms.go
+++ b/validator/lib/cms.go
@@ -61,18 +61,19 @@ func RSAPublicDecrypt(pubKey *rsa.PublicKey, data []byte) []byte {
 	m.SetBytes(data)
 	e := big.NewInt(int64(pubKey.E))
 	c.Exp(m, e, pubKey.N)
+	// 0x00 0x01 0xff ... 0xff 0x00 data (the leading zero is not in Bytes)
 	out := c.Bytes()
-	skip := 0
-	for i := 2; i < len(out); i++ {
-		if i+1 >= len(out) {
-			break
-		}
-		if out[i] == 0xff && out[i+1] == 0 {
-			skip = i + 2
-			break
-		}
+	if len(out)+1 != (pubKey.N.BitLen()+7)/8 || len(data) != len(out)+1 || out[0] != 1 {
+		return nil
+	}
+	skip := 1
+	for skip < len(out) && out[skip] == 0xff {
+		skip++
 	}
-	return out[skip:]
+	if skip < 9 || skip >= len(out) || out[skip] != 0 {
+		return nil
+	}
+	return out[skip+1:]
 }
 
 func PrivateEncrypt(priv *rsa.PrivateKey, data []byte) (enc []byte, err error) {
@@ -156,6 +157,17 @@ func DecryptSignatureRSA(signature []byte, pubKey *rsa.PublicKey) ([]byte, error
 	if err != nil {
 		return nil, err
 	}
+	// Nothing but the digest may be in the block (PKCS#1 v1.5)
+	expected, err := asn1.Marshal(SignatureDecoded{
+		Inner: SignatureInner{OID: SHA256OID, Null: asn1.NullRawValue},
+		Hash:  signDec.Hash,
+	})
+	if err != nil {
+		return nil, err
+	}
+	if !bytes.Equal(expected, dataDecrypted) {
+		return nil, errors.New("signature block is not a SHA-256 PKCS#1 v1.5 encoding")
+	}
 	return signDec.Hash, nil
 }
 
-- 
2.43.0


From 8617e9e9eedc14e8e680d2ae11ab3ab671f05b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 07/68] fix: drop manifests of invalidated certificates from
 the valid set

---
 validator/pki/pki.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 897a8b1..5708aac 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -389,6 +389,7 @@ func (v *Validator) InvalidateObject(keyid []byte) {
 		res, hasCert := v.Objects[ski]
 		delete(v.ValidObjects, ski)
 		delete(v.ValidROA, ski)
+		delete(v.ValidManifest, ski)
 		delete(v.ValidCRL, ski)
 		invalidated[ski] = true
 
-- 
2.43.0


From a5c07b835e0535a49b23fcaee7a03194ee63c502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 08/68] fix: judge manifest currency at the validation time

Certificates are checked against Validator.Time but manifests were checked
against the wall clock.
---
 validator/pki/pki.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 5708aac..d45f929 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -888,7 +888,7 @@ func (sm *SimpleManager) Explore(notMFT bool, addInvalidChilds bool) int {
 					if ok && res != nil && res.Resource != nil {
 						cert, ok := res.Resource.(*librpki.RPKIManifest)
 						if ok {
-							if time.Now().After(cert.Content.NextUpdate) || time.Now().Before(cert.Content.ThisUpdate) {
+							if sm.Validator.Time.After(cert.Content.NextUpdate) || sm.Validator.Time.Before(cert.Content.ThisUpdate) {
 								sm.InvalidateManifestParent(file, nil)
 							}
 						} else {
-- 
2.43.0


From 4427a23c48113620065d952ef7447be0c0445294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 09/68] fix: verify the self-signature of trust anchor
 certificates

Only the key of the certificate was compared with the TAL: anybody able to
replace the file could rewrite resources and dates of the trust anchor.
---
 validator/pki/pki.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index d45f929..92a03ec 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -473,6 +473,10 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 	}
 
 	if trust {
+		err = cert.Validate(cert)
+		if err != nil {
+			return NewCertificateErrorParent(cert, nil, err)
+		}
 		return nil
 	}
 
-- 
2.43.0


From a933f8db9357a79f5cadae96e9325822df51fd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:58 +0000
Subject: [PATCH 10/68] fix: reject ROAs with an AS number out of range

Negative and larger than 32-bit AS numbers were published as they are.
---
 validator/lib/roa.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/validator/lib/roa.go b/validator/lib/roa.go
index 2952d3b..fd78196 100644
--- a/validator/lib/roa.go
+++ b/validator/lib/roa.go
@@ -4,6 +4,7 @@ import (
 	"encoding/asn1"
 	"errors"
 	"fmt"
+	"math"
 	"net"
 	"sort"
 	"time"
@@ -198,6 +199,7 @@ func ValidateIPRoaCertificateList(entries []*ROAEntry, cert *RPKICertificate) ([
 		err, min, max := GetRangeIP(entry.IPNet)
 		if err != nil {
 			invalids = append(invalids, entry)
+			continue
 		}
 		valid, checkParent := cert.IsIPRangeInCertificate(min, max)
 		if valid {
@@ -218,6 +220,9 @@ func (roa *RPKIROA) ValidateIPRoaCertificate(cert *RPKICertificate) ([]*ROAEntry
 func ConvertROAEntries(roacontent ROAContent) ([]*ROAEntry, int, error) {
 	entries := make([]*ROAEntry, 0)
 	asn := roacontent.ASID
+	if asn < 0 || int64(asn) > math.MaxUint32 {
+		return entries, asn, fmt.Errorf("AS number %d out of range", asn)
+	}
 	//fmt.Printf("ROAContent %v %v AS: %v\n", len(fullbytes), err, roacontent.ASID)
 	for _, addrblock := range roacontent.IpAddrBlocks {
 		for _, addr := range addrblock.Addresses {
-- 
2.43.0


From a8ba7ddbe64b2dcaddd627a10cff10566dc5f186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 11/68] fix: encode IPv4 ranges held as 4-byte addresses

DecodeIPAddressBlock yields such ranges; encoding them again crashed.
---
 validator/lib/cert.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/validator/lib/cert.go b/validator/lib/cert.go
index aa9535e..140474b 100644
--- a/validator/lib/cert.go
+++ b/validator/lib/cert.go
@@ -109,14 +109,13 @@ func (ipr *IPAddressRange) GetRange() (net.IP, net.IP, bool) {
 }
 
 func IPToBitString(ip net.IP) asn1.BitString {
-	blen := 32
-	bitsplit := 12
-	if ip.To4() == nil {
-		blen = 128
-		bitsplit = 0
+	blen := 128
+	if ip4 := ip.To4(); ip4 != nil {
+		blen = 32
+		ip = ip4
 	}
 	return asn1.BitString{
-		Bytes:     []byte(ip)[bitsplit:],
+		Bytes:     []byte(ip),
 		BitLength: blen,
 	}
 }
-- 
2.43.0


From 6ead045cf42b48f7b0a8b6b4cbfb4e58597ef8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 12/68] fix: make encoded TALs decodable and usable to check
 certificates

The key was encoded without base64 padding, which DecodeTAL rejects, and
CheckCertificate crashed on TALs made by CreateTAL.
---
 validator/lib/tal.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/validator/lib/tal.go b/validator/lib/tal.go
index 58658e8..dc3ed2e 100644
--- a/validator/lib/tal.go
+++ b/validator/lib/tal.go
@@ -63,8 +63,14 @@ func (tal *RPKITAL) CheckCertificate(cert *x509.Certificate) bool {
 	if tal.Algorithm == cert.PublicKeyAlgorithm {
 		switch tal.Algorithm {
 		case x509.RSA:
-			a := tal.PublicKey.(*rsa.PublicKey)
-			b := cert.PublicKey.(*rsa.PublicKey)
+			a, okA := tal.PublicKey.(*rsa.PublicKey)
+			if v, ok := tal.PublicKey.(rsa.PublicKey); ok { // from CreateTAL
+				a, okA = &v, true
+			}
+			b, okB := cert.PublicKey.(*rsa.PublicKey)
+			if !okA || !okB || a.N == nil {
+				return false
+			}
 			if a.N.Cmp(b.N) == 0 && a.E == b.E {
 				return true
 			}
@@ -170,7 +176,7 @@ func EncodeTALSize(tal *RPKITAL, split int) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	key := base64.RawStdEncoding.EncodeToString(keyBytesData)
+	key := base64.StdEncoding.EncodeToString(keyBytesData)
 	if split > 0 {
 		keySplit := make([]string, len(key)/split+1)
 		for i := 0; i < len(key)/split+1; i++ {
-- 
2.43.0


From e4b8f98787d5e8f913fce359a95c0d000e62943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 13/68] fix: encode TALs obtained from DecodeTAL

EncodeTAL crashed on the pointer keys DecodeTAL returns.
---
 validator/lib/tal.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/validator/lib/tal.go b/validator/lib/tal.go
index dc3ed2e..c221206 100644
--- a/validator/lib/tal.go
+++ b/validator/lib/tal.go
@@ -145,7 +145,13 @@ func EncodeTALSize(tal *RPKITAL, split int) ([]byte, error) {
 	var bs asn1.BitString
 	var err error
 	if tal.OID.Equal(RSA) {
-		keyRaw := tal.PublicKey.(rsa.PublicKey)
+		keyRaw, ok := tal.PublicKey.(rsa.PublicKey)
+		if p, isPtr := tal.PublicKey.(*rsa.PublicKey); isPtr && p != nil { // from DecodeTAL
+			keyRaw, ok = *p, true
+		}
+		if !ok || keyRaw.N == nil {
+			return nil, errors.New("TAL does not contain a RSA key")
+		}
 		bs, err = BundleRSAPublicKey(keyRaw)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From ef65bc87c975998fd066fdc82a1c1d2921cbe2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 14/68] fix: revoke every certificate with a listed serial
 number, of that CA only

Only the last certificate seen with a serial number was invalidated, and
the serial was appended to the key identifier without a separator, so a CA
with a crafted key identifier could revoke certificates of another one.
---
 validator/pki/pki.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 92a03ec..7a8c0f4 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -7,6 +7,7 @@ import (
 	"encoding/asn1"
 	"errors"
 	"fmt"
+	"math/big"
 	"strings"
 	"time"
 
@@ -423,6 +424,12 @@ func (v *Validator) AddTAL(tal *librpki.RPKITAL) ([]*PKIFile, *Resource, error)
 	return files, res, nil
 }
 
+// serialKey identifies a certificate by issuer and serial number. The
+// separator keeps key identifiers of different lengths apart.
+func serialKey(aki []byte, serial *big.Int) string {
+	return string(aki) + ":" + serial.String()
+}
+
 func (v *Validator) AddCert(cert *librpki.RPKICertificate, trust bool) (bool, []*PKIFile, *Resource, error) {
 	pathCert := ExtractPathCert(cert)
 
@@ -454,7 +461,7 @@ func (v *Validator) AddCert(cert *librpki.RPKICertificate, trust bool) (bool, []
 	if hasParent && parent != nil && valid {
 		parent.Childs = append(parent.Childs, res)
 
-		v.CertsSerial[aki+cert.Certificate.SerialNumber.String()] = res
+		v.CertsSerial[serialKey(cert.Certificate.AuthorityKeyId, cert.Certificate.SerialNumber)] = res
 	}
 
 	if valid {
@@ -497,7 +504,7 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 	}
 
 	// Check presence in revocation lists
-	_, revoked := v.Revoked[string(aki)+cert.Certificate.SerialNumber.String()]
+	_, revoked := v.Revoked[serialKey(aki, cert.Certificate.SerialNumber)]
 	if revoked {
 		return NewCertificateErrorRevocation(cert)
 	}
@@ -690,16 +697,14 @@ func (v *Validator) AddCRL(crl *pkix.CertificateList) (bool, *Resource, error) {
 		} else {
 			v.ValidCRL[string(aki)] = res
 			for _, revoked := range crl.TBSCertList.RevokedCertificates {
-				key := string(aki) + revoked.SerialNumber.String()
-				child, found := v.CertsSerial[key]
-				if found {
-					childConv := child.Resource.(*librpki.RPKICertificate)
-					if childConv.Certificate.SerialNumber.Cmp(revoked.SerialNumber) == 0 {
-						v.InvalidateObject(childConv.Certificate.SubjectKeyId)
-					}
+				v.Revoked[serialKey(aki, revoked.SerialNumber)] = true
+			}
+			// A serial number may have been used more than once
+			for _, child := range parent.Childs {
+				childConv, ok := child.Resource.(*librpki.RPKICertificate)
+				if ok && v.Revoked[serialKey(aki, childConv.Certificate.SerialNumber)] {
+					v.InvalidateObject(childConv.Certificate.SubjectKeyId)
 				}
-
-				v.Revoked[key] = true
 			}
 			parent.Childs = append(parent.Childs, res)
 		}
-- 
2.43.0


From 19c03c45632786cbe30be378415c7ac287d4e674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 15/68] fix: do not let invalid certificates shadow valid ones

Any CA could publish a bogus certificate with the key identifier of
another CA, whose certificate was then rejected as a conflict.
---
 validator/pki/pki.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 7a8c0f4..1fefa75 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -466,8 +466,9 @@ func (v *Validator) AddCert(cert *librpki.RPKICertificate, trust bool) (bool, []
 
 	if valid {
 		v.ValidObjects[ski] = res
+		// Invalid certificates must not take the place of the real one
+		v.Objects[ski] = res
 	}
-	v.Objects[ski] = res
 
 	return valid, pathCert, res, err
 }
-- 
2.43.0


From 11c689c802848ffa5b93c8240ca91c963e611936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 16/68] fix: explore only files inside rsync repositories

The manifest, repository and CRL locations of a certificate, and the names
in a nested manifest, were used as they are, so a CA could have any file of
the machine read.
---
 validator/pki/pki.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 1fefa75..e0081b7 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -839,6 +839,12 @@ func (sm *SimpleManager) InvalidateCRLParent(file *PKIFile, crlError error) {
 	}
 }
 
+// Only rsync URIs map into the local cache. Anything else, or a reference to
+// a parent directory, would designate another file of this machine.
+func isRepositoryURI(uri string) bool {
+	return strings.HasPrefix(uri, "rsync://") && !strings.Contains(uri, "../") && !strings.Contains(uri, "..\\")
+}
+
 func (sm *SimpleManager) ExploreAdd(file *PKIFile, data *SeekFile, addInvalidChilds bool) {
 	sm.Explored[file.ComputePath()] = true
 	valid, subFiles, res, err := sm.Validator.AddResource(file, data.Data)
@@ -861,11 +867,17 @@ func (sm *SimpleManager) ExploreAdd(file *PKIFile, data *SeekFile, addInvalidChi
 	if !valid && err == nil {
 		sm.reportErrorFile(err, file, data)
 	}
+	repoFiles := make([]*PKIFile, 0, len(subFiles))
 	for _, subFile := range subFiles {
 		subFile.Parent = file
+		if path := subFile.ComputePath(); isRepositoryURI(path) {
+			repoFiles = append(repoFiles, subFile)
+		} else {
+			sm.reportErrorFile(NewFileError(fmt.Errorf("%q is not in an rsync repository", path)), subFile, nil)
+		}
 	}
 	if addInvalidChilds || valid {
-		sm.PutFiles(subFiles)
+		sm.PutFiles(repoFiles)
 		sm.PathOfResource[res] = file
 		sm.ResourceOfPath[file] = res
 	}
-- 
2.43.0


From 40fc5bfb6176db778d165a023a64429756497852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:51 +0000
Subject: [PATCH 17/68] fix: do not keep the certificate of an invalid signed
 object

A copy of a ROA or manifest with a broken signature took the place of the
original, which was then rejected as a conflict.
---
 validator/pki/pki.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index e0081b7..447c355 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -567,6 +567,16 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 	return nil
 }
 
+// forgetCert removes the end-entity certificate of a signed object that turned
+// out to be invalid: the certificate may have been copied from another object.
+func (v *Validator) forgetCert(res *Resource) {
+	ski := string(res.Resource.(*librpki.RPKICertificate).Certificate.SubjectKeyId)
+	if v.Objects[ski] == res {
+		delete(v.Objects, ski)
+		delete(v.ValidObjects, ski)
+	}
+}
+
 func (v *Validator) AddROA(pkifile *PKIFile, roa *librpki.RPKIROA) (bool, *Resource, error) {
 	valid, _, res, err := v.AddCert(roa.Certificate, false)
 	if res == nil {
@@ -586,6 +596,10 @@ func (v *Validator) AddROA(pkifile *PKIFile, roa *librpki.RPKIROA) (bool, *Resou
 		err = errors.New(fmt.Sprintf("ROA inner validity error: %v", roa.InnerValidityError))
 	}
 
+	if !valid {
+		v.forgetCert(res)
+	}
+
 	res_roa := ObjectToResource(roa)
 	res_roa.Type = TYPE_ROA
 	res_roa.File = pkifile
@@ -633,6 +647,10 @@ func (v *Validator) AddManifest(pkifile *PKIFile, mft *librpki.RPKIManifest) (bo
 		err = errors.New(fmt.Sprintf("Manifest inner validity error: %v", mft.InnerValidityError))
 	}
 
+	if !valid {
+		v.forgetCert(res)
+	}
+
 	res_mft := ObjectToResource(mft)
 	res_mft.Type = TYPE_MFT
 	res_mft.File = pkifile
-- 
2.43.0


From 067794ff84e91fad7bf146cf088dc975a193cecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 18/68] fix: do not crash without a logger when a parent cannot
 be invalidated

---
 validator/pki/pki.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 447c355..6178a3e 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -117,6 +117,12 @@ func (sm *SimpleManager) Close() {
 	close(sm.Errors)
 }
 
+func (sm *SimpleManager) debugf(format string, args ...interface{}) {
+	if sm.Log != nil {
+		sm.Log.Debugf(format, args...)
+	}
+}
+
 func (sm *SimpleManager) reportError(err error) {
 	if sm.ReportErrors {
 		sm.Errors <- err
@@ -828,10 +834,10 @@ func (sm *SimpleManager) InvalidateManifestParent(file *PKIFile, mftError error)
 				sm.reportErrorFile(err, file.Parent.Parent, nil)
 
 			} else {
-				sm.Log.Debugf("Could not invalidate certificate because incorrect resource")
+				sm.debugf("Could not invalidate certificate because incorrect resource")
 			}
 		} else {
-			sm.Log.Debugf("Could not invalidate certificate because not found in list")
+			sm.debugf("Could not invalidate certificate because not found in list")
 		}
 	}
 }
@@ -849,10 +855,10 @@ func (sm *SimpleManager) InvalidateCRLParent(file *PKIFile, crlError error) {
 				sm.reportErrorFile(err, file.Parent.Parent, nil)
 
 			} else {
-				sm.Log.Debugf("Could not invalidate certificate because incorrect resource")
+				sm.debugf("Could not invalidate certificate because incorrect resource")
 			}
 		} else {
-			sm.Log.Debugf("Could not invalidate certificate because not found in list")
+			sm.debugf("Could not invalidate certificate because not found in list")
 		}
 	}
 }
@@ -932,10 +938,10 @@ func (sm *SimpleManager) Explore(notMFT bool, addInvalidChilds bool) int {
 								sm.InvalidateManifestParent(file, nil)
 							}
 						} else {
-							sm.Log.Debugf("Resource is not a manifest, not invalidating")
+							sm.debugf("Resource is not a manifest, not invalidating")
 						}
 					} else {
-						sm.Log.Debugf("Could not fetch Parent Resource, not invalidating")
+						sm.debugf("Could not fetch Parent Resource, not invalidating")
 					}
 				}
 				if bytes.Compare(data.Sha256, file.ManifestHash) != 0 {
-- 
2.43.0


From 8ae2ad2eb16de32a51370c4607afcec657634108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 19/68] fix: explore a file again when its first reference did
 not validate it

Each path was explored once, on behalf of whichever CA referred to it
first: a CA listing the files of another one could make them be rejected,
or have a CRL ignored.
---
 validator/pki/pki.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 6178a3e..9d54874 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -138,14 +138,18 @@ func (sm *SimpleManager) reportErrorFile(err error, file *PKIFile, seek *SeekFil
 func (sm *SimpleManager) PutFiles(fileList []*PKIFile) {
 	for _, file := range fileList {
 		path := file.ComputePath()
+		ref := path
+		if file.Parent != nil {
+			ref += " " + file.Parent.ComputePath()
+		}
 		_, ok1 := sm.Explored[path]
-		_, ok2 := sm.ToExploreUnique[path]
+		_, ok2 := sm.ToExploreUnique[ref]
 		if ok1 || ok2 {
 			if sm.Log != nil {
 				sm.Log.Debugf("Skipping %v, already been explored", path)
 			}
 		} else {
-			sm.ToExploreUnique[path] = true
+			sm.ToExploreUnique[ref] = true
 			sm.ToExplore = append(sm.ToExplore, file)
 		}
 	}
@@ -870,8 +874,12 @@ func isRepositoryURI(uri string) bool {
 }
 
 func (sm *SimpleManager) ExploreAdd(file *PKIFile, data *SeekFile, addInvalidChilds bool) {
-	sm.Explored[file.ComputePath()] = true
 	valid, subFiles, res, err := sm.Validator.AddResource(file, data.Data)
+	// A file which is not valid where it was found first (any CA can refer to
+	// any file) is explored again when another one refers to it.
+	if valid {
+		sm.Explored[file.ComputePath()] = true
+	}
 
 	if err != nil {
 		switch err.(type) {
@@ -924,6 +932,10 @@ func (sm *SimpleManager) Explore(notMFT bool, addInvalidChilds bool) int {
 		} else {
 			count++
 		}
+		if _, explored := sm.Explored[file.ComputePath()]; explored {
+			hasMore = sm.HasMore()
+			continue
+		}
 		if !notMFT || file.Type != TYPE_MFT {
 			data, err := sm.GetNextFile(file)
 
-- 
2.43.0


From 1bb83e48609290a9e2ab2bc9349ad5c2208ffc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 20/68] fix: bound the BER decoder

Truncated tags and lengths crashed it, deep nesting exhausted the stack,
elements could overrun their container and an empty indefinite-length
value was rejected. Looking for its terminator scanned the whole input.
---
 validator/lib/ber.go | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/validator/lib/ber.go b/validator/lib/ber.go
index 32c81b5..7f40254 100644
--- a/validator/lib/ber.go
+++ b/validator/lib/ber.go
@@ -64,7 +64,7 @@ func BER2DER(ber []byte) ([]byte, error) {
 	//fmt.Printf("--> ber2der: Transcoding %d bytes\n", len(ber))
 	out := new(bytes.Buffer)
 
-	obj, _, err := readObject(ber, 0)
+	obj, _, err := readObject(ber, 0, 0)
 	if err != nil {
 		return nil, err
 	}
@@ -135,7 +135,16 @@ func encodeLength(out *bytes.Buffer, length int) (err error) {
 	return
 }
 
-func readObject(ber []byte, offset int) (asn1Object, int, error) {
+// maxDepth is far above what any RPKI object needs
+const maxDepth = 1000
+
+func readObject(ber []byte, offset int, depth int) (asn1Object, int, error) {
+	if depth > maxDepth {
+		return nil, 0, errors.New("ber2der: BER nesting too deep")
+	}
+	if len(ber) <= offset {
+		return nil, 0, errors.New("ber2der: BER tag is missing")
+	}
 	//fmt.Printf("\n====> Starting readObject at offset: %d\n\n", offset)
 	tagStart := offset
 	b := ber[offset]
@@ -143,10 +152,13 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 	tag := b & 0x1F // last 5 bits
 	if tag == 0x1F {
 		tag = 0
-		for ber[offset] >= 0x80 {
+		for offset < len(ber) && ber[offset] >= 0x80 {
 			tag = tag*128 + ber[offset] - 0x80
 			offset++
 		}
+		if len(ber) <= offset {
+			return nil, 0, errors.New("ber2der: BER tag is truncated")
+		}
 		tag = tag*128 + ber[offset] - 0x80
 		offset++
 	}
@@ -174,6 +186,9 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 		if numberOfBytes > 4 { // int is only guaranteed to be 32bit
 			return nil, 0, errors.New("ber2der: BER tag length too long")
 		}
+		if offset+numberOfBytes > len(ber) {
+			return nil, 0, errors.New("ber2der: BER tag length is truncated")
+		}
 		if numberOfBytes == 4 && (int)(ber[offset]) > 0x7F {
 			return nil, 0, errors.New("ber2der: BER tag length is negative")
 		}
@@ -212,15 +227,12 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 		}
 	} else {
 		var subObjects []asn1Object
+		// the content has to end where its container does
+		container := ber
+		if !indefinite {
+			container = ber[:contentEnd]
+		}
 		for (offset < contentEnd) || indefinite {
-			var subObj asn1Object
-			var err error
-			subObj, offset, err = readObject(ber, offset)
-			if err != nil {
-				return nil, 0, err
-			}
-			subObjects = append(subObjects, subObj)
-
 			if indefinite {
 				terminated, err := isIndefiniteTermination(ber, offset)
 				if err != nil {
@@ -231,6 +243,14 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 					break
 				}
 			}
+
+			var subObj asn1Object
+			var err error
+			subObj, offset, err = readObject(container, offset, depth+1)
+			if err != nil {
+				return nil, 0, err
+			}
+			subObjects = append(subObjects, subObj)
 		}
 		obj = asn1Structured{
 			tagBytes: ber[tagStart:tagEnd],
@@ -251,5 +271,5 @@ func isIndefiniteTermination(ber []byte, offset int) (bool, error) {
 		return false, errors.New("ber2der: Invalid BER format")
 	}
 
-	return bytes.Index(ber[offset:], []byte{0x0, 0x0}) == 0, nil
+	return ber[offset] == 0 && ber[offset+1] == 0, nil
 }
-- 
2.43.0


From faa2fe1c78d8305a8bbd64978d5c3c69b017ca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:11 +0000
Subject: [PATCH 21/68] fix: resolve IPv4-mapped IPv6 resources in the IPv6
 family

They were looked up in what the issuer inherits for IPv4.
---
 validator/lib/cert.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/validator/lib/cert.go b/validator/lib/cert.go
index 140474b..a2066c9 100644
--- a/validator/lib/cert.go
+++ b/validator/lib/cert.go
@@ -152,9 +152,9 @@ func (ipan *IPAddressNull) String() string {
 }
 
 func (ipan *IPAddressNull) IsIPInRange(ip net.IP) (bool, bool) {
-	if ipan.GetAfi() == 1 && ip.To4() != nil {
+	if ipan.GetAfi() == 1 && len(ip) == net.IPv4len {
 		return false, true
-	} else if ipan.GetAfi() == 2 && ip.To4() == nil && ip.To16() != nil {
+	} else if ipan.GetAfi() == 2 && len(ip) == net.IPv6len {
 		return false, true
 	}
 	return false, false
-- 
2.43.0


From 82c3b8f008116a925bf2d8497dfbbf2ad5dd39b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 22/68] fix: accept manifests only from the certificate that
 refers to them

---
 validator/pki/pki.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 9d54874..2438874 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -348,6 +348,16 @@ func (v *Validator) AddResource(pkifile *PKIFile, data []byte) (bool, []*PKIFile
 		if err != nil {
 			return false, nil, nil, err
 		}
+		ca := pkifile.Parent
+		if ca != nil && ca.Type == TYPE_MFT {
+			ca = ca.Parent
+		}
+		if ca != nil {
+			issuer := v.Objects[string(mft.Certificate.Certificate.AuthorityKeyId)]
+			if issuer == nil || issuer.File == nil || issuer.File.ComputePath() != ca.ComputePath() {
+				return false, nil, nil, fmt.Errorf("Manifest %s was not issued by the certificate referring to it", pkifile.Path)
+			}
+		}
 		valid, pathCert, res, err := v.AddManifest(pkifile, mft)
 		if res == nil {
 			return valid, nil, res, fmt.Errorf("Resource is empty: %v", err)
-- 
2.43.0


From 1e8e2c787775b88b56edbaa7656dcaecc2ecedc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 23/68] fix: find IPv4-mapped addresses inside IPv6 prefixes

---
 validator/lib/cert.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/validator/lib/cert.go b/validator/lib/cert.go
index a2066c9..d35df0b 100644
--- a/validator/lib/cert.go
+++ b/validator/lib/cert.go
@@ -53,7 +53,8 @@ func (ipn *IPNet) IsIPInRange(ip net.IP) (bool, bool) {
 	if len(ip) != len(ipn.IPNet.IP) {
 		return false, false
 	}
-	return ipn.IPNet.Contains(ip), false
+	err, min, max := GetRangeIP(ipn.IPNet)
+	return err == nil && bytes.Compare(ip, min) >= 0 && bytes.Compare(ip, max) <= 0, false
 }
 
 func (ipn *IPNet) GetAfi() uint8 {
-- 
2.43.0


From c8abd57226517d595a08da55d6be089f447afe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 24/68] fix: reject unknown address families and negative max
 lengths

---
 validator/lib/cert.go | 4 ++--
 validator/lib/roa.go  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/validator/lib/cert.go b/validator/lib/cert.go
index d35df0b..ff6f563 100644
--- a/validator/lib/cert.go
+++ b/validator/lib/cert.go
@@ -251,7 +251,7 @@ func (an *ASNull) ASN1() ([]byte, error) {
 }
 
 func DecodeIP(addrfamily []byte, addr asn1.BitString) (*net.IPNet, error) {
-	if len(addrfamily) >= 2 && (addrfamily[1] == 1 || addrfamily[1] == 2) {
+	if len(addrfamily) >= 2 && addrfamily[0] == 0 && (addrfamily[1] == 1 || addrfamily[1] == 2) {
 		size := 4
 		if addrfamily[1] == 2 {
 			size = 16
@@ -273,7 +273,7 @@ func DecodeIP(addrfamily []byte, addr asn1.BitString) (*net.IPNet, error) {
 }
 
 func DecodeIPMinMax(addrfamily []byte, addr asn1.BitString, max bool) (net.IP, error) {
-	if len(addrfamily) >= 2 && (addrfamily[1] == 1 || addrfamily[1] == 2) {
+	if len(addrfamily) >= 2 && addrfamily[0] == 0 && (addrfamily[1] == 1 || addrfamily[1] == 2) {
 		size := 4
 		if addrfamily[1] == 2 {
 			size = 16
diff --git a/validator/lib/roa.go b/validator/lib/roa.go
index fd78196..7184e1d 100644
--- a/validator/lib/roa.go
+++ b/validator/lib/roa.go
@@ -232,7 +232,7 @@ func ConvertROAEntries(roacontent ROAContent) ([]*ROAEntry, int, error) {
 			}
 
 			maxlength := addr.MaxLength
-			if maxlength < 0 {
+			if maxlength == -1 {
 				maxlength, _ = ip.Mask.Size()
 			}
 			//fmt.Printf(" - %v %v\n", ip, err)
-- 
2.43.0


From 0671d5bb89500abfa2170ff5342afb6b29fa880f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:46 +0000
Subject: [PATCH 25/68] fix: encode IPv4 prefixes held as 16-byte addresses

---
 validator/lib/cert.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/validator/lib/cert.go b/validator/lib/cert.go
index ff6f563..f79b970 100644
--- a/validator/lib/cert.go
+++ b/validator/lib/cert.go
@@ -127,9 +127,14 @@ func IPNetToBitString(ipnet net.IPNet) asn1.BitString {
 	if size%8 > 0 {
 		sizeBytes++
 	}
+	ip := ipnet.IP
+	if ip4 := ip.To4(); ip4 != nil && len(ipnet.Mask) == net.IPv4len {
+		// an IPv4 address may be held in 16 bytes
+		ip = ip4
+	}
 	prefixBytes := make([]byte, sizeBytes)
-	for i := 0; i < len(ipnet.IP) && i < sizeBytes; i++ {
-		prefixBytes[i] = ipnet.IP[i] & ipnet.Mask[i]
+	for i := 0; i < len(ip) && i < sizeBytes; i++ {
+		prefixBytes[i] = ip[i] & ipnet.Mask[i]
 	}
 
 	return asn1.BitString{
-- 
2.43.0


From 5f71afe9925bc7464e6e06fdda7277510a3f241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 26/68] fix: never match a route with an AS 0 authorization

---
 ov/ov.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ov/ov.go b/ov/ov.go
index 8206b67..9961cf4 100644
--- a/ov/ov.go
+++ b/ov/ov.go
@@ -70,7 +70,8 @@ func (cv *curValidation) Filter(payload int64) bool {
 	// Specs https://tools.ietf.org/html/rfc6811
 	if cv.state != STATE_VALID {
 		mask, _ := cv.route.GetPrefix().Mask.Size()
-		if cv.route.GetASN() == roa.GetASN() && mask <= roa.GetMaxLen() {
+		// no route can be matched by AS 0
+		if roa.GetASN() != 0 && cv.route.GetASN() == roa.GetASN() && mask <= roa.GetMaxLen() {
 			cv.state = STATE_VALID
 		} else {
 			cv.state = STATE_INVALID
-- 
2.43.0


From f835e5e418437102f9daa106bfee041b00acfcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 27/68] fix: check RRDP documents against their notification

---
 sync/lib/rrdp.go | 139 ++++++++++++++++++++---------------------------
 1 file changed, 58 insertions(+), 81 deletions(-)

diff --git a/sync/lib/rrdp.go b/sync/lib/rrdp.go
index c47eb12..6b45864 100644
--- a/sync/lib/rrdp.go
+++ b/sync/lib/rrdp.go
@@ -2,10 +2,13 @@ package syncpki
 
 import (
 	"bytes"
+	"crypto/sha256"
 	"encoding/base64"
+	"encoding/hex"
 	"encoding/xml"
 	"errors"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"net/http"
 	"strings"
@@ -65,89 +68,76 @@ func (f *HTTPFetcher) GetXML(url string) (string, error) {
 	return string(data), nil
 }
 
-func ParseRoot(data string) (Notification, error) {
-	n := Notification{}
-
-	r := bytes.NewBufferString(data)
-	decoder := xml.NewDecoder(r)
+// parseDocument decodes the root element, which has to be one of those
+// given. The document has to be complete and well-formed.
+func parseDocument(data string, roots map[string]interface{}) error {
+	decoder := xml.NewDecoder(bytes.NewBufferString(data))
 
+	found := false
 	for {
-		t, _ := decoder.Token()
-		if t == nil {
-			// EOF
+		t, err := decoder.Token()
+		if err == io.EOF {
 			break
 		}
+		if err != nil {
+			return fmt.Errorf("XML is not well-formed: %v", err)
+		}
 
 		switch se := t.(type) {
 		case xml.StartElement:
-			name := se.Name.Local
-			switch name {
-			case "notification":
-				err := decoder.DecodeElement(&n, &se)
-				if err != nil {
-					return n, errors.New("XML does not conform to schema")
-				}
+			v, ok := roots[se.Name.Local]
+			if !ok || found {
+				return fmt.Errorf("unexpected XML element %q", se.Name.Local)
+			}
+			found = true
+			if err := decoder.DecodeElement(v, &se); err != nil {
+				return errors.New("XML does not conform to schema")
+			}
+		case xml.CharData:
+			if len(bytes.TrimSpace(se)) > 0 {
+				return errors.New("XML is not well-formed: text outside of the root element")
 			}
 		}
 	}
-	return n, nil
+	if !found {
+		return errors.New("XML does not conform to schema")
+	}
+	return nil
+}
+
+func ParseRoot(data string) (Notification, error) {
+	n := Notification{}
+	err := parseDocument(data, map[string]interface{}{"notification": &n})
+	return n, err
 }
 
 func ParseNode(data string) ([]Cert, []Cert, error) {
-	var publish []Cert
-	var withdraw []Cert
 	d := Delta{}
 	s := Snapshot{}
+	err := parseDocument(data, map[string]interface{}{"delta": &d, "snapshot": &s})
+	return append(d.Publish, s.Publish...), append(d.Withdraw, s.Withdraw...), err
+}
 
-	byteStr := bytes.NewBufferString(data)
-	decoder := xml.NewDecoder(byteStr)
-
-	for {
-		t, _ := decoder.Token()
-		if t == nil {
-			break
-		}
-
-		switch se := t.(type) {
-		case xml.StartElement:
-			name := se.Name.Local
-			switch name {
-			case "delta":
-				err := decoder.DecodeElement(&d, &se)
-
-				for _, v := range d.Publish {
-					publish = append(publish, v)
-				}
-
-				if (len(d.Withdraw)) > 0 {
-					for _, v := range d.Withdraw {
-						withdraw = append(withdraw, v)
-					}
-				}
-
-				if err != nil {
-					return publish, withdraw, errors.New("XML does not conform to schema")
-				}
-			case "snapshot":
-				err := decoder.DecodeElement(&s, &se)
-
-				for _, v := range s.Publish {
-					publish = append(publish, v)
-				}
-
-				if (len(s.Withdraw)) > 0 {
-					for _, v := range s.Withdraw {
-						withdraw = append(withdraw, v)
-					}
-				}
-
-				if err != nil {
-					return publish, withdraw, errors.New("XML does not conform to schema")
-				}
-			}
+// getNode fetches the snapshot or the delta announced in the notification.
+func (s *RRDPSystem) getNode(el ElNode, kind string) ([]Cert, []Cert, error) {
+	data, err := s.Fetcher.GetXML(el.URI)
+	if err != nil {
+		return nil, nil, err
+	}
+	if el.Hash != "" {
+		sum := sha256.Sum256([]byte(data))
+		if !strings.EqualFold(strings.TrimSpace(el.Hash), hex.EncodeToString(sum[:])) {
+			return nil, nil, fmt.Errorf("%s %s does not have the hash of the notification", kind, el.URI)
 		}
 	}
-	return publish, withdraw, nil
+	if kind == "snapshot" {
+		n := Snapshot{}
+		err = parseDocument(data, map[string]interface{}{kind: &n})
+		return n.Publish, n.Withdraw, err
+	}
+	n := Delta{}
+	err = parseDocument(data, map[string]interface{}{kind: &n})
+	return n.Publish, n.Withdraw, err
 }
 
 type RRDPFile func(main string, url string, path string, data []byte, withdraw bool, snapshot bool, curId int64, args ...interface{}) error
@@ -242,23 +232,17 @@ func (s *RRDPSystem) FetchRRDP(cbArgs ...interface{}) error {
 			s.Log.Infof("RRDP: %s downloading snapshot at: %s", s.Path, root.Snapshot.URI)
 		}
 
-		data, err := s.Fetcher.GetXML(root.Snapshot.URI)
+		publish, withdraw, err := s.getNode(root.Snapshot, "snapshot")
 		if err != nil {
 			sHub.CaptureException(err)
 			return err
 		}
+
 		sHub.AddBreadcrumb(&sentry.Breadcrumb{
 			Level:    sentry.LevelInfo,
 			Message:  fmt.Sprintf("GET | %s", root.Snapshot.URI),
 			Category: "http",
 		}, nil)
-
-		publish, withdraw, err := ParseNode(data)
-		if err != nil {
-			sHub.CaptureException(err)
-			return err
-		}
-
 		sHub.AddBreadcrumb(&sentry.Breadcrumb{
 			Level:    sentry.LevelInfo,
 			Message:  "Parse Node",
@@ -310,7 +294,7 @@ func (s *RRDPSystem) FetchRRDP(cbArgs ...interface{}) error {
 				s.Log.Debugf("RRDP: Fetching serial: %d (%s) for %s", serial, elNode.URI, s.Path)
 			}
 			s.fetches = append(s.fetches, elNode.URI)
-			data, err := s.Fetcher.GetXML(elNode.URI)
+			deltaPublish, deltaWithdraw, err := s.getNode(elNode, "delta")
 			if err != nil {
 				sHub.CaptureException(err)
 				return err
@@ -321,13 +305,6 @@ func (s *RRDPSystem) FetchRRDP(cbArgs ...interface{}) error {
 				Message:  fmt.Sprintf("GET | %s", elNode.URI),
 				Category: "http",
 			}, nil)
-
-			deltaPublish, deltaWithdraw, err := ParseNode(data)
-			if err != nil {
-				sHub.CaptureException(err)
-				return err
-			}
-
 			sHub.AddBreadcrumb(&sentry.Breadcrumb{
 				Level:    sentry.LevelInfo,
 				Message:  "Parse node",
-- 
2.43.0


From 1ec1c61e7c13c77318ed21d62949bdfe876acf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 28/68] fix: notice failed RRDP withdrawals

---
 sync/lib/rrdp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/lib/rrdp.go b/sync/lib/rrdp.go
index 6b45864..e826b91 100644
--- a/sync/lib/rrdp.go
+++ b/sync/lib/rrdp.go
@@ -328,7 +328,7 @@ func (s *RRDPSystem) FetchRRDP(cbArgs ...interface{}) error {
 					if err != nil {
 						return err
 					}
-					s.Callback(s.Path, root.Snapshot.URI, v.URI, vdec, true, false, elNode.Serial, cbArgs...)
+					err = s.Callback(s.Path, root.Snapshot.URI, v.URI, vdec, true, false, elNode.Serial, cbArgs...)
 					if err != nil {
 						return err
 					}
-- 
2.43.0


From 0abc33ebc39889ed424a18a37bc4913df2fc350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 29/68] fix: use the RRDP snapshot when the serial went back

---
 sync/lib/rrdp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/lib/rrdp.go b/sync/lib/rrdp.go
index e826b91..ffdad42 100644
--- a/sync/lib/rrdp.go
+++ b/sync/lib/rrdp.go
@@ -227,7 +227,7 @@ func (s *RRDPSystem) FetchRRDP(cbArgs ...interface{}) error {
 		}
 	}
 
-	if lastSerial == 0 || lastSessionID != curSessionID || missingFiles {
+	if lastSerial == 0 || lastSessionID != curSessionID || curSerial < lastSerial || missingFiles {
 		if s.Log != nil {
 			s.Log.Infof("RRDP: %s downloading snapshot at: %s", s.Path, root.Snapshot.URI)
 		}
-- 
2.43.0


From d2c526d276ea70203ad0865c3894cac17081ac5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 30/68] fix: accept tabs in RRDP content

---
 sync/lib/rrdp.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sync/lib/rrdp.go b/sync/lib/rrdp.go
index ffdad42..9f015bb 100644
--- a/sync/lib/rrdp.go
+++ b/sync/lib/rrdp.go
@@ -164,6 +164,7 @@ func (s *RRDPSystem) SetSentryScope(scope *sentry.Scope) {
 
 func DecodeRRDPBase64(value string) ([]byte, error) {
 	value = strings.Replace(value, " ", "", -1)
+	value = strings.Replace(value, "\t", "", -1)
 	value = strings.Replace(value, "\n", "", -1)
 	value = strings.Replace(value, "\r", "", -1)
 	return base64.StdEncoding.DecodeString(value)
-- 
2.43.0


From 2d533c7fececc1d07dc2666063c3602ecfa77acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:21 +0000
Subject: [PATCH 31/68] fix: accept RRDP documents declared as US-ASCII

---
 sync/lib/rrdp.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sync/lib/rrdp.go b/sync/lib/rrdp.go
index 9f015bb..ba449b3 100644
--- a/sync/lib/rrdp.go
+++ b/sync/lib/rrdp.go
@@ -72,6 +72,13 @@ func (f *HTTPFetcher) GetXML(url string) (string, error) {
 // given. The document has to be complete and well-formed.
 func parseDocument(data string, roots map[string]interface{}) error {
 	decoder := xml.NewDecoder(bytes.NewBufferString(data))
+	decoder.CharsetReader = func(charset string, input io.Reader) (io.Reader, error) {
+		// RFC8182 documents are encoded in US-ASCII
+		if strings.EqualFold(charset, "US-ASCII") {
+			return input, nil
+		}
+		return nil, fmt.Errorf("unexpected encoding %q", charset)
+	}
 
 	found := false
 	for {
-- 
2.43.0


From 0f01ec02100985029e69ffb058a6bf0afedbbf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 32/68] fix: refuse to run rsync on other URLs

---
 sync/lib/rsync.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sync/lib/rsync.go b/sync/lib/rsync.go
index 030e595..1e88b2c 100644
--- a/sync/lib/rsync.go
+++ b/sync/lib/rsync.go
@@ -63,6 +63,9 @@ func RunRsync(ctx context.Context, uri string, bin string, dirPath string) ([]*F
 	if bin == "" {
 		return nil, errors.New("rsync binary missing")
 	}
+	if !isRsyncURL(uri) {
+		return nil, fmt.Errorf("%q is not an rsync URL", uri)
+	}
 
 	err := os.MkdirAll(dirPath, os.ModePerm)
 	if err != nil {
-- 
2.43.0


From c5d8cda7c13ad632d3b7c2b736da86a99ff6a432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 33/68] fix: do not stall rsync on long output lines

---
 sync/lib/rsync.go | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/sync/lib/rsync.go b/sync/lib/rsync.go
index 1e88b2c..4031289 100644
--- a/sync/lib/rsync.go
+++ b/sync/lib/rsync.go
@@ -89,16 +89,13 @@ func RunRsync(ctx context.Context, uri string, bin string, dirPath string) ([]*F
 	}
 
 	go func() {
-		scanner := bufio.NewScanner(stderr)
-		for scanner.Scan() {
-			errorStr := scanner.Text()
-			log.Error(errorStr)
-
-			err := scanner.Err()
+		reader := bufio.NewReader(stderr)
+		for {
+			errorStr, err := readLine(reader)
 			if err != nil {
-				log.Errorf("%v: %v", uri, err)
 				return
 			}
+			log.Error(errorStr)
 		}
 	}()
 
@@ -112,9 +109,12 @@ func RunRsync(ctx context.Context, uri string, bin string, dirPath string) ([]*F
 
 	files := make([]*FileStat, 0)
 
-	scanner := bufio.NewScanner(stdout)
-	for scanner.Scan() {
-		line := scanner.Text()
+	reader := bufio.NewReader(stdout)
+	for {
+		line, err := readLine(reader)
+		if err != nil {
+			break
+		}
 
 		match := wantedFileExtensionRE.MatchString(line)
 		log.Debugf("Rsync received from %v: %v (match=%v)", uri, line, match)
@@ -130,13 +130,18 @@ func RunRsync(ctx context.Context, uri string, bin string, dirPath string) ([]*F
 				Deleted: deleted,
 			})
 		}
-
-		if err != nil {
-			return files, err
-		}
 	}
 
-	err = scanner.Err()
 	err = cmd.Wait()
 	return files, err
 }
+
+// readLine reads a line of any length. Not reading what rsync has to say
+// would block it.
+func readLine(r *bufio.Reader) (string, error) {
+	line, err := r.ReadString('\n')
+	if err != nil && line == "" {
+		return "", err
+	}
+	return strings.TrimSuffix(strings.TrimSuffix(line, "\n"), "\r"), nil
+}
-- 
2.43.0


From 9237c02ca1a0c222f3d611f2ec1b728d63ca0a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 34/68] fix: map URIs to directories deterministically

---
 sync/lib/fetch.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/sync/lib/fetch.go b/sync/lib/fetch.go
index be2fed2..13d41d6 100644
--- a/sync/lib/fetch.go
+++ b/sync/lib/fetch.go
@@ -35,14 +35,22 @@ func (s *LocalFetch) SetRepositories(repositories map[string]time.Time) {
 func GetLocalPath(pathRep string, replace map[string]string) string {
 	sep := fmt.Sprintf("%c", os.PathSeparator)
 
-	for repKey, repVal := range replace {
-		if !strings.HasSuffix(repVal, sep) {
-			repVal += sep
+	// The most specific mapping applies, whatever the order of the map.
+	longest, found := "", false
+	for repKey := range replace {
+		if strings.HasPrefix(pathRep, repKey) && (!found || len(repKey) > len(longest)) {
+			longest, found = repKey, true
 		}
+	}
+	if !found {
+		return pathRep
+	}
 
-		pathRep = strings.Replace(pathRep, repKey, repVal, -1)
+	repVal := replace[longest]
+	if !strings.HasSuffix(repVal, sep) {
+		repVal += sep
 	}
-	return pathRep
+	return repVal + strings.TrimPrefix(pathRep, longest)
 }
 
 func ReplacePath(file *pki.PKIFile, replace map[string]string) string {
-- 
2.43.0


From 5faed43bf362ee299968285d0f7ec8b60facba5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 35/68] fix: read the mapped directory of a repository

---
 sync/lib/fetch.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sync/lib/fetch.go b/sync/lib/fetch.go
index 13d41d6..8debac6 100644
--- a/sync/lib/fetch.go
+++ b/sync/lib/fetch.go
@@ -126,9 +126,9 @@ func (s *LocalFetch) GetFileConv(file *pki.PKIFile, derEncoding bool) (*pki.Seek
 
 func (s *LocalFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplore) error {
 	newPath := GetLocalPath(file.Repo, s.MapDirectory)
-	files, err := ioutil.ReadDir(file.Repo)
+	files, err := ioutil.ReadDir(newPath)
 	if err != nil {
-		return fmt.Errorf("Unable to read dir %q: %v", file.Repo, err)
+		return fmt.Errorf("Unable to read dir %q: %v", newPath, err)
 	}
 
 	for _, fileDir := range files {
-- 
2.43.0


From f387b107dbeac8ce7f4021b56f315c8be91e9157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 36/68] fix: write the ROAs in the same order on every run

---
 cmd/localrpki/localrpki.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cmd/localrpki/localrpki.go b/cmd/localrpki/localrpki.go
index f734efe..3f572eb 100644
--- a/cmd/localrpki/localrpki.go
+++ b/cmd/localrpki/localrpki.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"runtime"
+	"sort"
 	"strconv"
 	"strings"
 	"time"
@@ -98,7 +99,15 @@ func main() {
 
 		manager.Explore(!*UseManifest, false)
 
-		for _, roa := range manager.Validator.ValidROA {
+		// the order of the output does not depend on the order of the map
+		keys := make([]string, 0, len(manager.Validator.ValidROA))
+		for key := range manager.Validator.ValidROA {
+			keys = append(keys, key)
+		}
+		sort.Strings(keys)
+
+		for _, key := range keys {
+			roa := manager.Validator.ValidROA[key]
 			d := roa.Resource.(*librpki.RPKIROA)
 			for _, entry := range d.Valids {
 				oroa := OutputROA{
-- 
2.43.0


From bc283d15b35548696f42a45312304011d700211e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:04 +0000
Subject: [PATCH 37/68] fix: compute the paths of files found without manifests

---
 sync/lib/fetch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/lib/fetch.go b/sync/lib/fetch.go
index 8debac6..44dc0bb 100644
--- a/sync/lib/fetch.go
+++ b/sync/lib/fetch.go
@@ -162,7 +162,7 @@ func (s *LocalFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplo
 				Parent: file,
 				Type:   extension,
 				Repo:   file.Repo,
-				Path:   file.Repo + fileDir.Name(),
+				Path:   fileDir.Name(),
 			},
 			&pki.SeekFile{
 				File:   file.Path,
-- 
2.43.0


From 722cdabcd000c6e6fd25e77434797efdff6758bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:54 +0000
Subject: [PATCH 38/68] fix: remove withdrawn RRDP objects from the cache

---
 cmd/octorpki/octorpki.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index a4b2d6b..efc2b6a 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -342,6 +342,22 @@ func (s *OctoRPKI) WriteRsyncFileOnDisk(rsyncURL string, data []byte) error {
 	return nil
 }
 
+func (s *OctoRPKI) removeRsyncFileOnDisk(rsyncURL string) error {
+	filePath := mustExtractFilePathFromRsyncURL(rsyncURL)
+
+	// GHSA-8459-6rc9-8vf8: Prevent parent directory writes outside of Basepath
+	if strings.Contains(filePath, "../") || strings.Contains(filePath, "..\\") {
+		return fmt.Errorf("Path %q contains illegal path element", filePath)
+	}
+
+	err := os.Remove(filepath.Join(*Basepath, filePath))
+	if err != nil && !os.IsNotExist(err) {
+		return err
+	}
+
+	return nil
+}
+
 func mustMkdirAll(fPath string) {
 	err := os.MkdirAll(filepath.Join(*Basepath, fPath), os.ModePerm)
 	if err != nil {
@@ -358,6 +374,14 @@ func (s *OctoRPKI) ReceiveRRDPFileCallback(main string, url string, path string,
 		}
 	}
 
+	if withdraw {
+		err := s.removeRsyncFileOnDisk(path)
+		if err != nil {
+			return fmt.Errorf("Unable to remove withdrawn file %q from disk: %v", path, err)
+		}
+		return nil
+	}
+
 	err := s.WriteRsyncFileOnDisk(path, data)
 	if err != nil {
 		return fmt.Errorf("Unable to write sync file %q on disk: %v", path, err)
-- 
2.43.0


From a260754cd0f3b99656c64854bc1ba19bddb14099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 39/68] fix: bind RRDP objects to the rsync host of their
 repository

---
 cmd/octorpki/octorpki.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index efc2b6a..de83a0b 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -368,7 +368,7 @@ func mustMkdirAll(fPath string) {
 func (s *OctoRPKI) ReceiveRRDPFileCallback(main string, url string, path string, data []byte, withdraw bool, snapshot bool, serial int64, args ...interface{}) error {
 	if len(args) > 0 {
 		rsync, ok := args[0].(string)
-		if ok && !strings.Contains(path, rsync) {
+		if ok && !strings.HasPrefix(path, rsync) {
 			log.Errorf("rrdp: %s is outside directory %s", path, rsync)
 			return nil
 		}
-- 
2.43.0


From 05c2b151b88cd3327eea7bcdedf36eccdbaf8ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 40/68] fix: do not stop on URLs that cannot be stored in the
 cache

---
 cmd/octorpki/octorpki.go | 72 +++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 41 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index de83a0b..109dc93 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -324,17 +324,17 @@ func ExtractRsyncDomain(rsyncURL string) (string, error) {
 }
 
 func (s *OctoRPKI) WriteRsyncFileOnDisk(rsyncURL string, data []byte) error {
-	fPath := mustExtractFoldersPathFromRsyncURL(rsyncURL)
-	mustMkdirAll(fPath)
-	filePath := mustExtractFilePathFromRsyncURL(rsyncURL)
+	fp, err := cachePath(rsyncURL)
+	if err != nil {
+		return err
+	}
 
-	// GHSA-8459-6rc9-8vf8: Prevent parent directory writes outside of Basepath
-	if strings.Contains(filePath, "../") || strings.Contains(filePath, "..\\") {
-		return fmt.Errorf("Path %q contains illegal path element", filePath)
+	err = os.MkdirAll(filepath.Dir(fp), os.ModePerm)
+	if err != nil {
+		return fmt.Errorf("Unable to create directories for %q: %v", fp, err)
 	}
 
-	fp := filepath.Join(*Basepath, filePath)
-	err := ioutil.WriteFile(fp, data, 0600)
+	err = ioutil.WriteFile(fp, data, 0600)
 	if err != nil {
 		return fmt.Errorf("Unable to write file %q: %v", fp, err)
 	}
@@ -342,15 +342,28 @@ func (s *OctoRPKI) WriteRsyncFileOnDisk(rsyncURL string, data []byte) error {
 	return nil
 }
 
-func (s *OctoRPKI) removeRsyncFileOnDisk(rsyncURL string) error {
-	filePath := mustExtractFilePathFromRsyncURL(rsyncURL)
+// cachePath returns where the cache keeps what is at an rsync URL.
+func cachePath(rsyncURL string) (string, error) {
+	filePath, err := syncpki.ExtractFilePathFromRsyncURL(rsyncURL)
+	if err != nil {
+		return "", fmt.Errorf("Unable to extract file path from rsync url: %v", err)
+	}
 
 	// GHSA-8459-6rc9-8vf8: Prevent parent directory writes outside of Basepath
-	if strings.Contains(filePath, "../") || strings.Contains(filePath, "..\\") {
-		return fmt.Errorf("Path %q contains illegal path element", filePath)
+	if strings.Contains(filePath, "../") || strings.Contains(filePath, "..\\") || filepath.Base(filePath) == ".." {
+		return "", fmt.Errorf("Path %q contains illegal path element", filePath)
 	}
 
-	err := os.Remove(filepath.Join(*Basepath, filePath))
+	return filepath.Join(*Basepath, filePath), nil
+}
+
+func (s *OctoRPKI) removeRsyncFileOnDisk(rsyncURL string) error {
+	fp, err := cachePath(rsyncURL)
+	if err != nil {
+		return err
+	}
+
+	err = os.Remove(fp)
 	if err != nil && !os.IsNotExist(err) {
 		return err
 	}
@@ -358,13 +371,6 @@ func (s *OctoRPKI) removeRsyncFileOnDisk(rsyncURL string) error {
 	return nil
 }
 
-func mustMkdirAll(fPath string) {
-	err := os.MkdirAll(filepath.Join(*Basepath, fPath), os.ModePerm)
-	if err != nil {
-		log.Fatalf("Failed to create directories: %v", err)
-	}
-}
-
 func (s *OctoRPKI) ReceiveRRDPFileCallback(main string, url string, path string, data []byte, withdraw bool, snapshot bool, serial int64, args ...interface{}) error {
 	if len(args) > 0 {
 		rsync, ok := args[0].(string)
@@ -553,24 +559,6 @@ func (s *OctoRPKI) mainRsync(pSpan opentracing.Span) {
 	MetricOperationTime.With(prometheus.Labels{"type": "rsync"}).Observe(float64(t2.Sub(t1).Seconds()))
 }
 
-func mustExtractFoldersPathFromRsyncURL(rsyncURL string) string {
-	downloadPath, err := syncpki.ExtractFoldersPathFromRsyncURL(rsyncURL)
-	if err != nil {
-		log.Fatalf("Failed to extract folder path from rsync URL: %v", err)
-	}
-
-	return downloadPath
-}
-
-func mustExtractFilePathFromRsyncURL(rsyncURL string) string {
-	fPath, err := syncpki.ExtractFilePathFromRsyncURL(rsyncURL)
-	if err != nil {
-		log.Fatalf("Unable to extract file path from rsync url: %v", err)
-	}
-
-	return fPath
-}
-
 func (s *OctoRPKI) fetchRsync(uri string, span opentracing.Span) {
 	rSpan := s.tracer.StartSpan("sync", opentracing.ChildOf(span.Context()))
 	defer rSpan.Finish()
@@ -578,9 +566,11 @@ func (s *OctoRPKI) fetchRsync(uri string, span opentracing.Span) {
 	rSpan.SetTag("type", "rsync")
 
 	log.Infof("Rsync sync %v", uri)
-	downloadPath := mustExtractFilePathFromRsyncURL(uri)
-
-	path := filepath.Join(*Basepath, downloadPath)
+	path, err := cachePath(uri)
+	if err != nil {
+		s.rsyncError(uri, uri, err, rSpan)
+		return
+	}
 	ctxRsync, cancelRsync := context.WithTimeout(context.Background(), *RsyncTimeout)
 	defer cancelRsync()
 
-- 
2.43.0


From eed7bda871a64e4dfd2d74a6cd92596cdfcaf984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 41/68] fix: only accept rsync URLs of a host and a module as
 repositories

---
 sync/lib/utils.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sync/lib/utils.go b/sync/lib/utils.go
index dfb7ca2..5ea1fcc 100644
--- a/sync/lib/utils.go
+++ b/sync/lib/utils.go
@@ -22,10 +22,18 @@ type SubMap struct {
 
 func ExtractRsyncDomainModule(rsync string) (string, string, error) {
 	if len(rsync) > len("rsync://") {
+		if !isRsyncURL(rsync) {
+			return "", "", fmt.Errorf("%q is not an rsync URL", rsync)
+		}
 		rsyncDomain := strings.Split(rsync[8:], "/")
 		if len(rsyncDomain) < 2 {
 			return "", "", errors.New("rsync url does not contain module")
 		}
+		for _, name := range rsyncDomain[:2] {
+			if name == "" || name == "." || name == ".." {
+				return "", "", fmt.Errorf("%q does not name a host and a module", rsync)
+			}
+		}
 		return fmt.Sprintf("rsync://%s/%s", rsyncDomain[0], rsyncDomain[1]), fmt.Sprintf("rsync://%s/", rsyncDomain[0]), nil
 	} else {
 		return "", "", errors.New("Wrong size")
-- 
2.43.0


From a74f7d0e13284482a05e1136a7208c2eeab93aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 42/68] fix: ignore symbolic links that lead out of a
 repository

---
 sync/lib/rsync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/lib/rsync.go b/sync/lib/rsync.go
index 4031289..5d94d8d 100644
--- a/sync/lib/rsync.go
+++ b/sync/lib/rsync.go
@@ -72,7 +72,7 @@ func RunRsync(ctx context.Context, uri string, bin string, dirPath string) ([]*F
 		return nil, err
 	}
 
-	cmd := exec.CommandContext(ctx, bin, "-vrlt", uri, dirPath)
+	cmd := exec.CommandContext(ctx, bin, "-vrlt", "--safe-links", uri, dirPath)
 	log.Debugf("Command ran: %v", cmd)
 
 	stdout, err := cmd.StdoutPipe()
-- 
2.43.0


From 2f6182165a55391bf3633da97fabd4ca95b28ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:58 +0000
Subject: [PATCH 43/68] fix: store trust anchor certificates fetched with rsync
 where they are read

---
 cmd/octorpki/octorpki.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 109dc93..e98ae05 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -566,11 +566,20 @@ func (s *OctoRPKI) fetchRsync(uri string, span opentracing.Span) {
 	rSpan.SetTag("type", "rsync")
 
 	log.Infof("Rsync sync %v", uri)
+	module, _, err := syncpki.ExtractRsyncDomainModule(uri)
+	if err != nil {
+		s.rsyncError(uri, uri, err, rSpan)
+		return
+	}
 	path, err := cachePath(uri)
 	if err != nil {
 		s.rsyncError(uri, uri, err, rSpan)
 		return
 	}
+	// A single file (trust anchor certificate) goes to the directory it is in.
+	if uri != module && !strings.HasSuffix(uri, "/") {
+		path = filepath.Dir(path)
+	}
 	ctxRsync, cancelRsync := context.WithTimeout(context.Background(), *RsyncTimeout)
 	defer cancelRsync()
 
-- 
2.43.0


From 7ae97bc9dca1324d81553e531f0e53436b9a9044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 44/68] fix: list only directories inside rsync repositories

---
 validator/pki/pki.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 2438874..1bb5c60 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -191,6 +191,10 @@ func (sm *SimpleManager) GetNextRepository(curExplore *PKIFile, callback Callbac
 		return errors.New(fmt.Sprintf("Path %v already explored", curExplore.Repo))
 	}
 
+	if !isRepositoryURI(curExplore.Repo) {
+		return fmt.Errorf("%q is not an rsync repository", curExplore.Repo)
+	}
+
 	if sm.FileSeeker != nil {
 		err := sm.FileSeeker.GetRepository(curExplore, callback)
 		return err
@@ -880,7 +884,7 @@ func (sm *SimpleManager) InvalidateCRLParent(file *PKIFile, crlError error) {
 // Only rsync URIs map into the local cache. Anything else, or a reference to
 // a parent directory, would designate another file of this machine.
 func isRepositoryURI(uri string) bool {
-	return strings.HasPrefix(uri, "rsync://") && !strings.Contains(uri, "../") && !strings.Contains(uri, "..\\")
+	return strings.HasPrefix(uri, "rsync://") && !strings.Contains(uri+"/", "../") && !strings.Contains(uri, "..\\")
 }
 
 func (sm *SimpleManager) ExploreAdd(file *PKIFile, data *SeekFile, addInvalidChilds bool) {
-- 
2.43.0


From 449993412cd89264a1b7393b4eef7e03db19c78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 45/68] fix: refuse URLs of the cache directory itself

---
 cmd/octorpki/octorpki.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index e98ae05..57f6745 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -350,9 +350,12 @@ func cachePath(rsyncURL string) (string, error) {
 	}
 
 	// GHSA-8459-6rc9-8vf8: Prevent parent directory writes outside of Basepath
-	if strings.Contains(filePath, "../") || strings.Contains(filePath, "..\\") || filepath.Base(filePath) == ".." {
+	if strings.Contains(filePath+"/", "../") || strings.Contains(filePath, "..\\") {
 		return "", fmt.Errorf("Path %q contains illegal path element", filePath)
 	}
+	if filepath.Clean("/"+filePath) == "/" {
+		return "", fmt.Errorf("Path %q does not name a file", filePath)
+	}
 
 	return filepath.Join(*Basepath, filePath), nil
 }
-- 
2.43.0


From c6981ab598f25642424aa7c0c1c3cb48f0374d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 46/68] fix: decide in each round which repositories need rsync

---
 cmd/octorpki/octorpki.go | 71 ++++++++++++++++++++++++++++++----------
 1 file changed, 53 insertions(+), 18 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 57f6745..ea543f7 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -477,8 +477,8 @@ func (s *OctoRPKI) fetchRRDP(path string, rsyncURL string, span opentracing.Span
 		return
 	}
 
-	log.Debugf("Success fetching %s, removing rsync %s", path, rsyncURL)
-	s.rsyncFetchJobManager.delete(rsyncURL)
+	log.Debugf("Success fetching %s, no need for rsync %s", path, rsyncURL)
+	s.rsyncFetchJobManager.setRRDPDone(path)
 
 	rSpan.LogKV("event", "rrdp", "type", "success", "message", "rrdp successfully fetched")
 	sentry.WithScope(func(scope *sentry.Scope) {
@@ -539,7 +539,7 @@ func (s *OctoRPKI) rrdpError(rsyncURL string, path string, err error, rSpan open
 	} else {
 		log.Errorf("Error when processing %v (for %v): %v.Skipping failover to rsync.", path, rsyncURL, err)
 		rSpan.LogKV("event", "rrdp failure", "type", "skipping failover to rsync", "message", err)
-		s.rsyncFetchJobManager.delete(rsyncURL)
+		s.rsyncFetchJobManager.setRRDPDone(path)
 	}
 
 	MetricRRDPErrors.With(prometheus.Labels{"address": path}).Inc()
@@ -551,7 +551,7 @@ func (s *OctoRPKI) mainRsync(pSpan opentracing.Span) {
 	defer span.Finish()
 
 	fetcher := newRsyncFetcher(s, int(*MaxConcurrentRetrievals), span)
-	for rsyncURL := range s.rsyncFetchJobManager.get() {
+	for _, rsyncURL := range s.rsyncFetchJobManager.take() {
 		fetcher.fetch(rsyncURL)
 	}
 
@@ -667,7 +667,7 @@ func (s *OctoRPKI) fetchTAL(path string, tal *librpki.RPKITAL, span opentracing.
 	if *RRDPFailover && tal.HasRsync() {
 		rsync := tal.GetRsyncURI()
 		log.Infof("Root certificate for %s will be downloaded using rsync: %s", path, rsync)
-		s.rsyncFetchJobManager.set(rsync, "")
+		s.rsyncFetchJobManager.setOnce(rsync)
 		tSpan.SetTag("failover-rsync", true)
 		return
 	}
@@ -1067,6 +1067,7 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 		ia[i] = make([]SIA, 0)
 	}
 	iatmp := make(map[string]*SIA)
+	rsyncJobs := make(map[string]map[string]bool) // rsync URL -> RRDP endpoints
 
 	span := s.tracer.StartSpan("validation", opentracing.ChildOf(pSpan.Context()))
 	defer span.Finish()
@@ -1129,7 +1130,10 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 				s.setRRDPDomain(rrdpGeneralName, gnExtractedDomain)
 				s.setRRDPFetch(rrdpGeneralName, gnExtracted)
 			}
-			s.rsyncFetchJobManager.set(gnExtracted, rrdpGeneralName)
+			if rsyncJobs[gnExtracted] == nil {
+				rsyncJobs[gnExtracted] = make(map[string]bool)
+			}
+			rsyncJobs[gnExtracted][rrdpGeneralName] = true
 			s.CurrentRepos[gnExtracted] = time.Now()
 			count++
 
@@ -1156,6 +1160,10 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 		}
 	}
 
+	for rsyncURL, endpoints := range rsyncJobs {
+		s.rsyncFetchJobManager.set(rsyncURL, endpoints)
+	}
+
 	s.setInfoAuthorities(ia)
 	s.setROAList(s.generateROAList(pkiManagers, span))
 
@@ -1517,40 +1525,67 @@ func NewOctoRPKI(tals []*pki.PKIFile, talNames []string) *OctoRPKI {
 }
 
 type rsyncFetchJobManager struct {
-	rsyncFetchJobs   map[string]string
+	rsyncFetchJobs   map[string]map[string]bool // rsync URL -> RRDP endpoints ("" without)
+	rsyncFetchOnce   map[string]bool            // fetched in this round only
+	rrdpDone         map[string]bool            // RRDP endpoints that need no rsync in this round
 	rsyncFetchJobsMu sync.RWMutex
 }
 
 func newRsyncFetchJobManager() *rsyncFetchJobManager {
 	return &rsyncFetchJobManager{
-		rsyncFetchJobs: make(map[string]string),
+		rsyncFetchJobs: make(map[string]map[string]bool),
+		rsyncFetchOnce: make(map[string]bool),
+		rrdpDone:       make(map[string]bool),
 	}
 }
 
-func (r *rsyncFetchJobManager) delete(job string) {
+// setRRDPDone notes that an RRDP endpoint needs no rsync in this round.
+func (r *rsyncFetchJobManager) setRRDPDone(endpoint string) {
 	r.rsyncFetchJobsMu.Lock()
 	defer r.rsyncFetchJobsMu.Unlock()
 
-	delete(r.rsyncFetchJobs, job)
+	r.rrdpDone[endpoint] = true
 }
 
-func (r *rsyncFetchJobManager) get() map[string]string {
-	r.rsyncFetchJobsMu.RLock()
-	defer r.rsyncFetchJobsMu.RUnlock()
+// take returns what has to be fetched with rsync in this round: the
+// repositories without RRDP and those of an endpoint that was not fetched.
+func (r *rsyncFetchJobManager) take() []string {
+	r.rsyncFetchJobsMu.Lock()
+	defer r.rsyncFetchJobsMu.Unlock()
 
-	ret := make(map[string]string, len(r.rsyncFetchJobs))
-	for k, v := range r.rsyncFetchJobs {
-		ret[k] = v
+	ret := make([]string, 0, len(r.rsyncFetchJobs)+len(r.rsyncFetchOnce))
+	for job := range r.rsyncFetchOnce {
+		if _, ok := r.rsyncFetchJobs[job]; !ok {
+			ret = append(ret, job)
+		}
+	}
+	for job, endpoints := range r.rsyncFetchJobs {
+		for endpoint := range endpoints {
+			if !r.rrdpDone[endpoint] {
+				ret = append(ret, job)
+				break
+			}
+		}
 	}
 
+	r.rsyncFetchOnce = make(map[string]bool)
+	r.rrdpDone = make(map[string]bool)
+
 	return ret
 }
 
-func (r *rsyncFetchJobManager) set(key, value string) {
+func (r *rsyncFetchJobManager) setOnce(job string) {
+	r.rsyncFetchJobsMu.Lock()
+	defer r.rsyncFetchJobsMu.Unlock()
+
+	r.rsyncFetchOnce[job] = true
+}
+
+func (r *rsyncFetchJobManager) set(job string, endpoints map[string]bool) {
 	r.rsyncFetchJobsMu.Lock()
 	defer r.rsyncFetchJobsMu.Unlock()
 
-	r.rsyncFetchJobs[key] = value
+	r.rsyncFetchJobs[job] = endpoints
 }
 
 func newROAList() *prefixfile.ROAList {
-- 
2.43.0


From 9248675075daf7b9e9e2ccf4fd47be1b1dc8944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 47/68] fix: keep the RRDP state by endpoint

---
 cmd/octorpki/octorpki.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index ea543f7..b5c606d 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -223,7 +223,7 @@ type OctoRPKI struct {
 
 	rsyncFetchJobManager *rsyncFetchJobManager
 
-	RRDPInfo   map[string]RRDPInfo
+	RRDPInfo   map[string]RRDPInfo // by RRDP endpoint
 	RRDPInfoMu sync.RWMutex
 
 	ROAList   *prefixfile.ROAList
@@ -410,10 +410,14 @@ func (s *OctoRPKI) LoadRRDPInfo(file string) error {
 	defer s.RRDPInfoMu.Unlock()
 
 	s.RRDPInfo = make(map[string]RRDPInfo)
-	err = json.Unmarshal(fc, &s.RRDPInfo)
+	infos := make(map[string]RRDPInfo)
+	err = json.Unmarshal(fc, &infos)
 	if err != nil {
 		return fmt.Errorf("JSON unmarshal failed: %v", err)
 	}
+	for _, info := range infos {
+		s.RRDPInfo[info.Path] = info
+	}
 
 	return nil
 }
@@ -495,7 +499,7 @@ func (s *OctoRPKI) fetchRRDP(path string, rsyncURL string, span opentracing.Span
 	s.RRDPInfoMu.Lock()
 	defer s.RRDPInfoMu.Unlock()
 
-	s.RRDPInfo[rsyncURL] = RRDPInfo{
+	s.RRDPInfo[path] = RRDPInfo{
 		RsyncURL:  rsyncURL,
 		Path:      path,
 		SessionID: rrdpSystem.SessionID,
@@ -507,12 +511,17 @@ func (s *OctoRPKI) newRRDPSystem(path string, rsync string) *syncpki.RRDPSystem
 	s.RRDPInfoMu.RLock()
 	defer s.RRDPInfoMu.RUnlock()
 
+	info := s.RRDPInfo[path]
+	if _, domain, err := syncpki.ExtractRsyncDomainModule(rsync); err != nil || !strings.HasPrefix(info.RsyncURL, domain) {
+		info = RRDPInfo{} // what was fetched for another host is not in the cache
+	}
+
 	return &syncpki.RRDPSystem{
 		Callback:  s.ReceiveRRDPFileCallback,
 		Path:      path,
 		Fetcher:   s.HTTPFetcher,
-		SessionID: s.RRDPInfo[rsync].SessionID,
-		Serial:    s.RRDPInfo[rsync].Serial,
+		SessionID: info.SessionID,
+		Serial:    info.Serial,
 		Log:       log.StandardLogger(),
 	}
 }
-- 
2.43.0


From dc61313b4d54802293551da4586b213de67d9d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:20 +0000
Subject: [PATCH 48/68] fix: download trust anchor certificates again that are
 not valid

---
 validator/pki/pki.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 1bb5c60..4a32bcb 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -311,6 +311,7 @@ func (v *Validator) AddResource(pkifile *PKIFile, data []byte) (bool, []*PKIFile
 		if err != nil {
 			return false, nil, nil, err
 		}
+		var fromTAL *Resource
 		if pkifile != nil && pkifile.Parent != nil && pkifile.Parent.Type == TYPE_TAL {
 			talComp, ok := v.TALs[pkifile.Path]
 			if ok {
@@ -318,11 +319,14 @@ func (v *Validator) AddResource(pkifile *PKIFile, data []byte) (bool, []*PKIFile
 				if !talValidation {
 					return false, nil, nil, errors.New("Certificate was not validated against TAL")
 				}
-				v.TALs[pkifile.Path].CertTALValid = true // indicates that we can skip downloading
+				fromTAL = talComp
 			}
 		}
 
 		valid, pathCert, res, err := v.AddCert(cert, pkifile.Trust)
+		if valid && fromTAL != nil {
+			fromTAL.CertTALValid = true // indicates that we can skip downloading
+		}
 		if res == nil {
 			return valid, pathCert, res, fmt.Errorf("Resource is empty: %v", err)
 		}
-- 
2.43.0


From 39aa465d66e833c083f1b4bd0604d1c4ef7889e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:20 +0000
Subject: [PATCH 49/68] fix: try the next location when a download is not the
 certificate of the TAL

---
 cmd/octorpki/octorpki.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index b5c606d..b31e9ef 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -769,6 +769,16 @@ func (s *OctoRPKI) fetchTALurl(tal *librpki.RPKITAL, uri string, path string, tS
 		return false, ""
 	}
 
+	err = checkTALCertificate(tal, data)
+	if err != nil {
+		tfSpan.SetTag("error", true)
+		tfSpan.SetTag("message", err)
+
+		log.Errorf("unusable root certificate: %s: %v", uri, err)
+		sHub.CaptureException(err)
+		return false, ""
+	}
+
 	// Plan option to store everything in memory
 	err = s.WriteRsyncFileOnDisk(tal.GetRsyncURI(), data)
 	if err != nil {
@@ -788,6 +798,22 @@ func (s *OctoRPKI) fetchTALurl(tal *librpki.RPKITAL, uri string, path string, tS
 	return true, uri
 }
 
+// checkTALCertificate says whether data is a certificate with the key of a TAL.
+func checkTALCertificate(tal *librpki.RPKITAL, data []byte) error {
+	der, err := librpki.BER2DER(data)
+	if err != nil {
+		return err
+	}
+	cert, err := librpki.DecodeCertificate(der)
+	if err != nil {
+		return err
+	}
+	if !tal.CheckCertificate(cert.Certificate) {
+		return fmt.Errorf("the certificate does not have the key of the TAL")
+	}
+	return nil
+}
+
 func logCollector(sm *pki.SimpleManager, tal *pki.PKIFile, tSpan opentracing.Span) {
 	for err := range sm.Errors {
 		tSpan.SetTag("error", true)
-- 
2.43.0


From 543a4e04218c962b77907739d9b702b9430a792d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 50/68] fix: treat IPv4-mapped prefixes in ROAs as IPv6

---
 validator/lib/roa.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/validator/lib/roa.go b/validator/lib/roa.go
index 7184e1d..7107eba 100644
--- a/validator/lib/roa.go
+++ b/validator/lib/roa.go
@@ -62,7 +62,7 @@ func GroupEntries(entries []*ROAEntry) map[byte][]*ROAEntry {
 	mapIps := make(map[byte][]*ROAEntry)
 	for _, entry := range entries {
 		afi := byte(2)
-		if entry.IPNet.IP.To4() != nil {
+		if len(entry.IPNet.Mask) == net.IPv4len {
 			afi = 1
 		}
 
@@ -164,7 +164,7 @@ func (entry *ROAEntry) Validate() error {
 		return fmt.Errorf("max length (%d) is less than 0", entry.MaxLength)
 	}
 
-	if entry.IPNet.IP.To4() != nil && entry.MaxLength > 32 { // If IPv4
+	if len(entry.IPNet.Mask) == net.IPv4len && entry.MaxLength > 32 { // If IPv4
 		return fmt.Errorf("max length (%d) too small for IPv4 prefix", entry.MaxLength)
 	} else if entry.MaxLength > 128 { // If IPv6
 		return fmt.Errorf("max length (%d) too small for IPv6 prefix", entry.MaxLength)
-- 
2.43.0


From 8a0c4d00bd98f59009909afd63cae422c16f6504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 51/68] fix: write IPv4-mapped prefixes as IPv6

---
 cmd/localrpki/localrpki.go |  2 +-
 cmd/octorpki/octorpki.go   | 10 +++++-----
 validator/lib/cert.go      | 20 +++++++++++++++++++-
 3 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/cmd/localrpki/localrpki.go b/cmd/localrpki/localrpki.go
index 3f572eb..0a8dd8c 100644
--- a/cmd/localrpki/localrpki.go
+++ b/cmd/localrpki/localrpki.go
@@ -112,7 +112,7 @@ func main() {
 			for _, entry := range d.Valids {
 				oroa := OutputROA{
 					ASN:       fmt.Sprintf("AS%v", d.ASN),
-					Prefix:    entry.IPNet.String(),
+					Prefix:    librpki.PrefixString(entry.IPNet),
 					MaxLength: entry.MaxLength,
 					Path:      manager.PathOfResource[roa].ComputePath(),
 				}
diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index b31e9ef..8cd8c86 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -919,13 +919,13 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 					case *librpki.IPAddressRange:
 						ipRes = &schemas.OutputIP{
 							Range: []string{
-								ipc.Min.String(),
-								ipc.Max.String(),
+								librpki.IPString(ipc.Min),
+								librpki.IPString(ipc.Max),
 							},
 						}
 					case *librpki.IPNet:
 						ipRes = &schemas.OutputIP{
-							Prefix: ipc.IPNet.String(),
+							Prefix: librpki.PrefixString(ipc.IPNet),
 						}
 					case *librpki.IPAddressNull:
 						ipRes = &schemas.OutputIP{
@@ -985,7 +985,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 			for _, entry := range roa.Valids {
 				oroa := prefixfile.ROAJson{
 					ASN:    fmt.Sprintf("AS%v", roa.ASN),
-					Prefix: entry.IPNet.String(),
+					Prefix: librpki.PrefixString(entry.IPNet),
 					Length: uint8(entry.MaxLength),
 					TA:     talname,
 				}
@@ -994,7 +994,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 				counttal++
 
 				curResource.ROAs = append(curResource.ROAs, &schemas.OutputROA{
-					Prefix:    entry.IPNet.String(),
+					Prefix:    librpki.PrefixString(entry.IPNet),
 					MaxLength: entry.MaxLength,
 				})
 			}
diff --git a/validator/lib/cert.go b/validator/lib/cert.go
index f79b970..fc1ddd6 100644
--- a/validator/lib/cert.go
+++ b/validator/lib/cert.go
@@ -45,7 +45,25 @@ type IPNet struct {
 }
 
 func (ipn *IPNet) String() string {
-	return ipn.IPNet.String()
+	return PrefixString(ipn.IPNet)
+}
+
+// PrefixString writes a prefix. Unlike net.IPNet.String, it does not turn
+// IPv4-mapped IPv6 prefixes into (shorter) IPv4 prefixes.
+func PrefixString(ipnet *net.IPNet) string {
+	if ip4 := ipnet.IP.To4(); ip4 != nil && len(ipnet.Mask) == net.IPv6len {
+		size, _ := ipnet.Mask.Size()
+		return fmt.Sprintf("::ffff:%v/%d", ip4, size)
+	}
+	return ipnet.String()
+}
+
+// IPString writes an address; 16-byte addresses are IPv6.
+func IPString(ip net.IP) string {
+	if ip4 := ip.To4(); ip4 != nil && len(ip) == net.IPv6len {
+		return fmt.Sprintf("::ffff:%v", ip4)
+	}
+	return ip.String()
 }
 
 func (ipn *IPNet) IsIPInRange(ip net.IP) (bool, bool) {
-- 
2.43.0


From 7dc19707c599ef6afa1bde8c37df6ab0d101632a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:29 +0000
Subject: [PATCH 52/68] fix: list the repositories of every trust anchor on the
 information page

---
 cmd/octorpki/octorpki.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 8cd8c86..dc15c93 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1101,7 +1101,6 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 	for i := 0; i < len(ia); i++ {
 		ia[i] = make([]SIA, 0)
 	}
-	iatmp := make(map[string]*SIA)
 	rsyncJobs := make(map[string]map[string]bool) // rsync URL -> RRDP endpoints
 
 	span := s.tracer.StartSpan("validation", opentracing.ChildOf(pSpan.Context()))
@@ -1141,6 +1140,7 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 			count++
 		}
 
+		iatmp := make(map[string]int) // index in ia[i]
 		for _, pkiResource := range pkiManagers[i].Validator.ValidObjects {
 			if pkiResource.Type != pki.TYPE_CER {
 				continue
@@ -1173,18 +1173,15 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 			count++
 
 			// map the rrdp and rsync by TAL for info page
-			sia, ok := iatmp[gnExtracted]
+			j, ok := iatmp[gnExtracted]
 			if !ok {
-				tmpSIA := SIA{
-					gnExtracted,
-					rrdpGeneralName,
-				}
-				ia[i] = append(ia[i], tmpSIA)
-				sia = &(ia[i][len(ia[i])-1])
-				iatmp[gnExtracted] = sia
+				j = len(ia[i])
+				iatmp[gnExtracted] = j
+				ia[i] = append(ia[i], SIA{Rsync: gnExtracted})
+			}
+			if rrdpGeneralName != "" {
+				ia[i][j].RRDP = rrdpGeneralName
 			}
-			sia.Rsync = gnExtracted
-			sia.RRDP = rrdpGeneralName
 		}
 		sm.Close()
 		tSpan.LogKV("count-valid", count, "count-total", countExplore)
-- 
2.43.0


From eb19f6e98880d6a9797aa34d4e13525db848ec88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:29 +0000
Subject: [PATCH 53/68] fix: fetch repositories with rsync when another host
 claimed their RRDP endpoint

---
 cmd/octorpki/octorpki.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index dc15c93..7c57eb2 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1160,10 +1160,11 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 				prev, ok := s.getRRDPDomain(rrdpGeneralName)
 				if ok && prev != gnExtractedDomain {
 					log.Errorf("rrdp %s tries to override %s with %s", rrdpGeneralName, prev, gnExtractedDomain)
-					continue
+					rrdpGeneralName = "" // only rsync
+				} else {
+					s.setRRDPDomain(rrdpGeneralName, gnExtractedDomain)
+					s.setRRDPFetch(rrdpGeneralName, gnExtracted)
 				}
-				s.setRRDPDomain(rrdpGeneralName, gnExtractedDomain)
-				s.setRRDPFetch(rrdpGeneralName, gnExtracted)
 			}
 			if rsyncJobs[gnExtracted] == nil {
 				rsyncJobs[gnExtracted] = make(map[string]bool)
-- 
2.43.0


From 35b61d1ac361d3478878c93af4e0b2643071b8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:20 +0000
Subject: [PATCH 54/68] fix: keep the previous result until the next one is
 complete

---
 cmd/octorpki/octorpki.go | 61 +++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 19 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 7c57eb2..620c176 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -829,7 +829,7 @@ func logCollector(sm *pki.SimpleManager, tal *pki.PKIFile, tSpan opentracing.Spa
 	}
 }
 
-func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentracing.Span) *prefixfile.ROAList {
+func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentracing.Span) *validationResult {
 	roalist := &prefixfile.ROAList{
 		Data: make([]prefixfile.ROAJson, 0),
 	}
@@ -839,7 +839,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 	}
 	resourcesMap := make(map[string]*schemas.OutputRes)
 	resourcesjson.Metadata.Generated = int(time.Now().UTC().UnixNano() / 1000000000)
-	s.stats.ROAsTALsCount = make([]ROAsTAL, 0)
+	roasTALsCount := make([]ROAsTAL, 0)
 	for i, tal := range s.Tals {
 		eSpan := s.tracer.StartSpan("extract", opentracing.ChildOf(span.Context()))
 		eSpan.SetTag("tal", tal.Path)
@@ -1002,7 +1002,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 			resourcesjson.Resources = append(resourcesjson.Resources, curResource)
 		}
 
-		s.stats.ROAsTALsCount = append(s.stats.ROAsTALsCount, ROAsTAL{TA: talname, Count: counttal})
+		roasTALsCount = append(roasTALsCount, ROAsTAL{TA: talname, Count: counttal})
 		MetricROAsCount.With(prometheus.Labels{"ta": talname}).Set(float64(counttal))
 
 		// Complete: Manifests
@@ -1075,11 +1075,11 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 		s.signROAList(roalist, span)
 	}
 
-	s.ResourcesMu.Lock()
-	defer s.ResourcesMu.Unlock()
-	s.Resources = resourcesjson
-
-	return roalist
+	return &validationResult{
+		roaList:       roalist,
+		resources:     resourcesjson,
+		roasTALsCount: roasTALsCount,
+	}
 }
 
 func (s *OctoRPKI) signROAList(roaList *prefixfile.ROAList, span opentracing.Span) {
@@ -1095,7 +1095,15 @@ func (s *OctoRPKI) signROAList(roaList *prefixfile.ROAList, span opentracing.Spa
 	roaList.Metadata.SignatureDate = signdate
 }
 
-func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
+// validationResult is the outcome of a validation round
+type validationResult struct {
+	roaList       *prefixfile.ROAList
+	resources     *schemas.ResourcesJSON
+	roasTALsCount []ROAsTAL
+	ctData        [][]*pki.PKIFile
+}
+
+func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) *validationResult {
 	t1 := time.Now()
 	ia := make([][]SIA, len(s.Tals))
 	for i := 0; i < len(ia); i++ {
@@ -1198,14 +1206,15 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 	}
 
 	s.setInfoAuthorities(ia)
-	s.setROAList(s.generateROAList(pkiManagers, span))
+	result := s.generateROAList(pkiManagers, span)
+	result.ctData = ctData
 
 	t2 := time.Now()
 	s.stats.ValidationDuration = t2.Sub(t1)
 	MetricOperationTime.With(prometheus.Labels{"type": "validation"}).Observe(float64(s.stats.ValidationDuration.Seconds()))
 	MetricLastValidation.Set(float64(s.LastComputed.Unix()))
 
-	return ctData
+	return result
 }
 
 func (s *OctoRPKI) ct(pkiManagers []*pki.SimpleManager, i int) [][]*pki.PKIFile {
@@ -1253,11 +1262,17 @@ func (s *OctoRPKI) setInfoAuthorities(ia [][]SIA) {
 	s.InfoAuthorities = ia
 }
 
-func (s *OctoRPKI) setROAList(roaList *prefixfile.ROAList) {
+// setResult makes the outcome of a validation round available
+func (s *OctoRPKI) setResult(result *validationResult) {
+	s.ResourcesMu.Lock()
+	s.Resources = result.resources
+	s.ResourcesMu.Unlock()
+
 	s.ROAListMu.Lock()
 	defer s.ROAListMu.Unlock()
 
-	s.ROAList = roaList
+	s.ROAList = result.roaList
+	s.stats.ROAsTALsCount = result.roasTALsCount
 }
 
 func (s *OctoRPKI) getROAList() *prefixfile.ROAList {
@@ -1654,12 +1669,21 @@ func (s *OctoRPKI) validationLoop() {
 
 		s.mainRsync(span)
 
-		ctData := s.mainValidation(span)
+		result := s.mainValidation(span)
 
 		// Reduce
 		changed := s.MainReduce()
-		s.Stable.Store(!changed && s.stats.iterations.Load() > 1)
-		s.HasPreviousStable.Store(s.Stable.Load())
+		stable := !changed && s.stats.iterations.Load() > 1
+
+		// GHSA-g5gj-9ggf-9vmq: Prevent infinite repository traversal
+		limitReached := iterationsUntilStable > *MaxIterations
+
+		// An incomplete result must not replace the previous one
+		if stable || limitReached || !*WaitStable {
+			s.setResult(result)
+		}
+		s.Stable.Store(stable)
+		s.HasPreviousStable.Store(stable)
 
 		if *Mode == "oneoff" && (s.Stable.Load() || !*WaitStable) {
 			s.mustOutput()
@@ -1668,8 +1692,7 @@ func (s *OctoRPKI) validationLoop() {
 		span.SetTag("stable", s.Stable.Load())
 		span.Finish()
 
-		// GHSA-g5gj-9ggf-9vmq: Prevent infinite repository traversal
-		if iterationsUntilStable > *MaxIterations {
+		if limitReached {
 			// GHSA-pmw9-567p-68pc: Do not crash when MaxIterations is reached
 			log.Warning("Max iterations has been reached. Defining current state as stable and stoppping deeper validation. This number can be adjusted with -max.iterations")
 			s.Stable.Store(true)
@@ -1684,7 +1707,7 @@ func (s *OctoRPKI) validationLoop() {
 		if s.DoCT && (s.Stable.Load() || !*WaitStable) {
 			t1 := time.Now().UTC()
 
-			s.SendCertificateTransparency(span, ctData, *CertTransparencyThreads, *CertTransparencyTimeout)
+			s.SendCertificateTransparency(span, result.ctData, *CertTransparencyThreads, *CertTransparencyTimeout)
 
 			t2 := time.Now().UTC()
 			MetricOperationTime.With(
-- 
2.43.0


From bc56236f2435bf4ace84963e0e3bde85aa022731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:22 +0000
Subject: [PATCH 55/68] fix: count the entries of the ROA list that are
 published

---
 cmd/octorpki/octorpki.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 620c176..5b59e97 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -833,7 +833,6 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 	roalist := &prefixfile.ROAList{
 		Data: make([]prefixfile.ROAJson, 0),
 	}
-	var counts int
 	resourcesjson := &schemas.ResourcesJSON{
 		Resources: make([]*schemas.OutputRes, 0),
 	}
@@ -990,7 +989,6 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 					TA:     talname,
 				}
 				roalist.Data = append(roalist.Data, oroa)
-				counts++
 				counttal++
 
 				curResource.ROAs = append(curResource.ROAs, &schemas.OutputROA{
@@ -1060,17 +1058,17 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 	curTime := time.Now()
 	s.LastComputed = curTime
 	validTime := curTime.Add(*ValidityDuration)
-	roalist.Metadata = prefixfile.MetaData{
-		Counts:    counts,
-		Generated: int(curTime.Unix()),
-		Valid:     int(validTime.Unix()),
-	}
 
 	if s.Filter {
 		roalist.Data = FilterInvalidPrefixLen(FilterDuplicates(roalist.Data))
 	}
 
 	roalist.Data = filterDuplicates(roalist.Data)
+	roalist.Metadata = prefixfile.MetaData{
+		Counts:    len(roalist.Data),
+		Generated: int(curTime.Unix()),
+		Valid:     int(validTime.Unix()),
+	}
 	if *Sign {
 		s.signROAList(roalist, span)
 	}
-- 
2.43.0


From 40233b9e2cb67cdee6f855bdc6962276b10972ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:22 +0000
Subject: [PATCH 56/68] fix: describe the ROA list that is served in its Etag
 and max-age

---
 cmd/octorpki/octorpki.go | 43 +++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 5b59e97..779481c 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -226,8 +226,9 @@ type OctoRPKI struct {
 	RRDPInfo   map[string]RRDPInfo // by RRDP endpoint
 	RRDPInfoMu sync.RWMutex
 
-	ROAList   *prefixfile.ROAList
-	ROAListMu sync.RWMutex
+	ROAList     *prefixfile.ROAList
+	ROAListETag string
+	ROAListMu   sync.RWMutex
 
 	InfoAuthorities     [][]SIA
 	InfoAuthoritiesLock sync.RWMutex
@@ -1266,18 +1267,32 @@ func (s *OctoRPKI) setResult(result *validationResult) {
 	s.Resources = result.resources
 	s.ResourcesMu.Unlock()
 
+	etag := etagOf(result.roaList)
+
 	s.ROAListMu.Lock()
 	defer s.ROAListMu.Unlock()
 
 	s.ROAList = result.roaList
+	s.ROAListETag = etag
 	s.stats.ROAsTALsCount = result.roasTALsCount
 }
 
-func (s *OctoRPKI) getROAList() *prefixfile.ROAList {
+func (s *OctoRPKI) getROAList() (*prefixfile.ROAList, string) {
 	s.ROAListMu.RLock()
 	defer s.ROAListMu.RUnlock()
 
-	return s.ROAList
+	return s.ROAList, s.ROAListETag
+}
+
+// etagOf identifies the exact content of a ROA list
+func etagOf(roaList *prefixfile.ROAList) string {
+	etag := sha256.New()
+	err := json.NewEncoder(etag).Encode(roaList)
+	if err != nil {
+		log.Error(err)
+		return ""
+	}
+	return hex.EncodeToString(etag.Sum(nil))
 }
 
 func (s *OctoRPKI) ServeROAs(w http.ResponseWriter, r *http.Request) {
@@ -1287,7 +1302,14 @@ func (s *OctoRPKI) ServeROAs(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	upTo := s.LastComputed.Add(*ValidityDuration)
+	roaList, etag := s.getROAList()
+	if roaList.Metadata.Generated == 0 { // nothing has been validated yet
+		w.WriteHeader(http.StatusServiceUnavailable)
+		w.Write([]byte("File not ready yet"))
+		return
+	}
+
+	upTo := time.Unix(int64(roaList.Metadata.Valid), 0)
 	maxAge := int(upTo.Sub(time.Now()).Seconds())
 
 	w.Header().Set("Content-Type", "application/json")
@@ -1296,21 +1318,14 @@ func (s *OctoRPKI) ServeROAs(w http.ResponseWriter, r *http.Request) {
 		w.Header().Set("Cache-Control", fmt.Sprintf("max-age=%v", maxAge))
 	}
 
-	roaList := s.getROAList()
-
-	etag := sha256.New()
-	etag.Write([]byte(fmt.Sprintf("%v/%v", roaList.Metadata.Generated, roaList.Metadata.Counts)))
-	etagSum := etag.Sum(nil)
-	etagSumHex := hex.EncodeToString(etagSum)
-
 	if match := r.Header.Get("If-None-Match"); match != "" {
-		if match == etagSumHex {
+		if match == etag {
 			w.WriteHeader(http.StatusNotModified)
 			return
 		}
 	}
 
-	w.Header().Set("Etag", etagSumHex)
+	w.Header().Set("Etag", etag)
 	enc := json.NewEncoder(w)
 	enc.Encode(roaList)
 }
-- 
2.43.0


From 5bbe407bc3bec3395997d128ce67533339b4b88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:28 +0000
Subject: [PATCH 57/68] fix: read the counts of the information page under
 their lock

---
 cmd/octorpki/octorpki.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 779481c..174c2b4 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1407,10 +1407,15 @@ func (s *OctoRPKI) ServeInfo(w http.ResponseWriter, r *http.Request) {
 		})
 	}
 
+	s.ROAListMu.RLock()
+	roaCount := len(s.ROAList.Data)
+	roasTALsCount := s.stats.ROAsTALsCount
+	s.ROAListMu.RUnlock()
+
 	ir := InfoResult{
 		TAs:                ias,
-		ROACount:           len(s.ROAList.Data),
-		ROAsTALs:           s.stats.ROAsTALsCount,
+		ROACount:           roaCount,
+		ROAsTALs:           roasTALsCount,
 		Stable:             s.Stable.Load(),
 		LastValidation:     int(s.LastComputed.Unix()),
 		ValidationDuration: s.stats.ValidationDuration.Seconds(),
-- 
2.43.0


From 561d7b2bd01b2c318e9f73bd3a190fdfe848e762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:54 +0000
Subject: [PATCH 58/68] fix: compute file hashes over the API and report broken
 listings

Files read over the API came without their SHA-256, so manifest hashes and
the strict rules were never enforced, and an error in the middle of a
listing was taken for its end.
---
 sync/api/fetch.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/sync/api/fetch.go b/sync/api/fetch.go
index bb5b14c..167090f 100644
--- a/sync/api/fetch.go
+++ b/sync/api/fetch.go
@@ -2,7 +2,9 @@ package cfrpki
 
 import (
 	"context"
+	"crypto/sha256"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"strings"
 
@@ -16,18 +18,25 @@ type APIFetch struct {
 }
 
 func FetchFile(client RPKIAPIClient, ctx context.Context, path string) ([]byte, error) {
+	data, _, err := fetchFile(client, ctx, path)
+	return data, err
+}
+
+// fetchFile also returns the SHA-256 of what was received.
+func fetchFile(client RPKIAPIClient, ctx context.Context, path string) ([]byte, []byte, error) {
 	resource, err := client.GetResource(ctx, &ResourceQuery{
 		Path: path,
 	})
 
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
+	hash := sha256.Sum256(resource.Data)
 	data, err := librpki.BER2DER(resource.Data)
 	if err != nil {
-		return resource.Data, err
+		return resource.Data, hash[:], err
 	}
-	return data, err
+	return data, hash[:], err
 }
 
 func (s *APIFetch) GetFile(file *pki.PKIFile) (*pki.SeekFile, error) {
@@ -45,14 +54,15 @@ func (s *APIFetch) GetFile(file *pki.PKIFile) (*pki.SeekFile, error) {
 
 	path := file.ComputePath()
 
-	data, err := FetchFile(s.Client, s.Ctx, path)
+	data, hash, err := fetchFile(s.Client, s.Ctx, path)
 	if err != nil {
 		return nil, fmt.Errorf("FetchFile failed: %v", err)
 	}
 
 	return &pki.SeekFile{
-		File: path,
-		Data: data,
+		File:   path,
+		Data:   data,
+		Sha256: hash,
 	}, nil
 }
 
@@ -81,6 +91,7 @@ func (s *APIFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplore
 			}
 		}
 
+		hash := sha256.Sum256(resource.Data)
 		data, _ := librpki.BER2DER(resource.Data)
 
 		callback(
@@ -91,11 +102,15 @@ func (s *APIFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplore
 				Path:   resource.Path,
 			},
 			&pki.SeekFile{
-				File: resource.Path,
-				Data: data,
+				File:   resource.Path,
+				Data:   data,
+				Sha256: hash[:],
 			}, false)
 
 		resource, err = resources.Recv()
 	}
-	return nil
+	if err == io.EOF {
+		return nil
+	}
+	return err
 }
-- 
2.43.0


From 300365a5539f83e575c5eb8cc2851e6d0403ad65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:54 +0000
Subject: [PATCH 59/68] fix: refuse messages followed by other content

The decoders stopped at the end of the first element, so text or further
messages after it were silently accepted.
---
 ca/xml.go | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/ca/xml.go b/ca/xml.go
index 259e23e..83431e5 100644
--- a/ca/xml.go
+++ b/ca/xml.go
@@ -3,6 +3,7 @@ package ca
 import (
 	"bytes"
 	"encoding/xml"
+	"errors"
 	"io"
 )
 
@@ -88,19 +89,43 @@ func DecodeInner(inner []byte) ([]Content, error) {
 	return innerContent, err
 }
 
+// decodeMessage decodes a message, which has to be a single XML element: text
+// or other elements that follow it make the message invalid.
+func decodeMessage(message []byte, msg interface{}) error {
+	dec := xml.NewDecoder(bytes.NewReader(message))
+	if err := dec.Decode(msg); err != nil {
+		return err
+	}
+	for {
+		token, err := dec.Token()
+		if err == io.EOF {
+			return nil
+		}
+		if err != nil {
+			return err
+		}
+		switch t := token.(type) {
+		case xml.Comment, xml.ProcInst:
+		case xml.CharData:
+			if len(bytes.TrimSpace(t)) == 0 {
+				continue
+			}
+			return errors.New("unexpected text after the end of the message")
+		default:
+			return errors.New("unexpected element after the end of the message")
+		}
+	}
+}
+
 func DecodeXML(message []byte) (*XMLMessage, error) {
 	var msg XMLMessage
-	buf := bytes.NewBuffer(message)
-	dec := xml.NewDecoder(buf)
-	err := dec.Decode(&msg)
+	err := decodeMessage(message, &msg)
 	return &msg, err
 }
 
 func DecodeXMLFull(message []byte) (*XMLMessage, []Content, error) {
 	var msg XMLMessage
-	buf := bytes.NewBuffer(message)
-	dec := xml.NewDecoder(buf)
-	err := dec.Decode(&msg)
+	err := decodeMessage(message, &msg)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -110,9 +135,7 @@ func DecodeXMLFull(message []byte) (*XMLMessage, []Content, error) {
 
 func DecodeXMLCRFull(message []byte) (*XMLMessageChildRequest, []Content, error) {
 	var msg XMLMessageChildRequest
-	buf := bytes.NewBuffer(message)
-	dec := xml.NewDecoder(buf)
-	err := dec.Decode(&msg)
+	err := decodeMessage(message, &msg)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -122,9 +145,7 @@ func DecodeXMLCRFull(message []byte) (*XMLMessageChildRequest, []Content, error)
 
 func DecodeXMLPRFull(message []byte) (*XMLMessageParentResponse, []Content, error) {
 	var msg XMLMessageParentResponse
-	buf := bytes.NewBuffer(message)
-	dec := xml.NewDecoder(buf)
-	err := dec.Decode(&msg)
+	err := decodeMessage(message, &msg)
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From 8127d251530728f3290e4ebd84c31ab2247362d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:54 +0000
Subject: [PATCH 60/68] fix: submit every chain in ctrpki

The workers were stopped while chains were still queued, chains were
submitted again for every TAL, and a missing file left a truncated chain.
---
 cmd/ctrpki/ctrpki.go | 134 +++++++++++++++++--------------------------
 1 file changed, 54 insertions(+), 80 deletions(-)

diff --git a/cmd/ctrpki/ctrpki.go b/cmd/ctrpki/ctrpki.go
index 9cfbe10..16cbee2 100644
--- a/cmd/ctrpki/ctrpki.go
+++ b/cmd/ctrpki/ctrpki.go
@@ -2,12 +2,13 @@ package main
 
 import (
 	"context"
-	"encoding/hex"
 	"flag"
+	"fmt"
 	"net/http"
 	"runtime"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	syncpki "github.com/cloudflare/cfrpki/sync/lib"
@@ -29,20 +30,43 @@ var (
 	CertificateTransparencyThreads = flag.Int("ct.threads", 50, "Number of threads to send to the CT Log")
 )
 
-func BatchCertificateTransparency(ctclient *client.LogClient, chain chan []ct.ASN1Cert, q chan bool) {
+func BatchCertificateTransparency(ctclient *client.LogClient, chain chan []ct.ASN1Cert) {
 	log.Debugf("Starting BatchCertificateTransparency")
-	for {
-		select {
-		case msg := <-chain:
-			_, err := ctclient.AddChain(context.Background(), msg)
+	for msg := range chain {
+		_, err := ctclient.AddChain(context.Background(), msg)
+		if err != nil {
+			log.Error(err)
+		}
+	}
+	log.Debugf("Closing thread")
+}
+
+// certificateChain returns the certificates in the files.
+func certificateChain(s *syncpki.LocalFetch, certs []*pki.PKIFile) ([]ct.ASN1Cert, error) {
+	chain := make([]ct.ASN1Cert, 0)
+
+	for _, cert := range certs {
+		data, err := s.GetFile(cert)
+		if err != nil {
+			return nil, err
+		}
+		if data == nil {
+			return nil, fmt.Errorf("%s is not available", cert.ComputePath())
+		}
+
+		dataBytes := data.Data
+		if cert.Type == pki.TYPE_ROA || cert.Type == pki.TYPE_MFT {
+			cms, err := librpki.DecodeCMS(data.Data)
 			if err != nil {
-				log.Error(err)
+				return nil, err
 			}
-		case <-q:
-			log.Debugf("Closing thread")
-			return
+			dataBytes = cms.SignedData.Certificates.Bytes
 		}
+
+		chain = append(chain, ct.ASN1Cert{Data: dataBytes})
 	}
+
+	return chain, nil
 }
 
 func main() {
@@ -82,23 +106,18 @@ func main() {
 
 	threads := *CertificateTransparencyThreads
 
-	qList := make([]chan bool, threads)
-	dataChan := make(chan []ct.ASN1Cert, threads)
-	if threads > 0 {
-		for i := 0; i < threads; i++ {
-			q := make(chan bool)
-			qList[i] = q
-			go BatchCertificateTransparency(ctclient, dataChan, q)
-		}
+	dataChan := make(chan []ct.ASN1Cert)
+	var workers sync.WaitGroup
+	for i := 0; i < threads; i++ {
+		workers.Add(1)
+		go func() {
+			defer workers.Done()
+			BatchCertificateTransparency(ctclient, dataChan)
+		}()
 	}
 
-	defer func() {
-		if threads > 0 {
-			for i := 0; i < threads; i++ {
-				qList[i] <- true
-			}
-		}
-	}()
+	defer workers.Wait()
+	defer close(dataChan)
 
 	rootTALs := strings.Split(*RootTAL, ",")
 	ctData := make([][]*pki.PKIFile, 0)
@@ -116,68 +135,23 @@ func main() {
 		})
 
 		manager.Explore(!*UseManifest, false)
+	}
 
-		skiToAki := make(map[string]string)
-		skiToPath := make(map[string]*pki.PKIFile)
-		for _, obj := range manager.Validator.ValidObjects {
-			res := obj.Resource.(*librpki.RPKICertificate)
-			ski := hex.EncodeToString(res.Certificate.SubjectKeyId)
-			aki := hex.EncodeToString(res.Certificate.AuthorityKeyId)
-			skiToAki[ski] = aki
-			skiToPath[ski] = obj.File
-		}
-
-		pathCT := make([][]*pki.PKIFile, 0)
-		for ski, aki := range skiToAki {
-			skiDone := make(map[string]bool)
-			skiDone[ski] = true
-
-			curAki := aki
-			curPath := skiToPath[ski]
-			curPathCT := make([]*pki.PKIFile, 1)
-			curPathCT[0] = curPath
-
-			var ok bool
-			for curAki != "" && !ok {
-				ok = skiDone[curAki]
-				skiDone[curAki] = true
-
-				curPath = skiToPath[curAki]
-				if curAki != "" {
-					curPathCT = append(curPathCT, curPath)
-				}
-				curAki = skiToAki[curAki]
-			}
-			pathCT = append(pathCT, curPathCT)
+	for _, obj := range validator.ValidObjects {
+		curPathCT := make([]*pki.PKIFile, 0)
+		for res := obj; res != nil; res = res.Parent {
+			curPathCT = append(curPathCT, res.File)
 		}
-
-		ctData = append(ctData, pathCT...)
+		ctData = append(ctData, curPathCT)
 	}
 
 	log.Infof("Sending %v certificate chains to log %v using %v threads", len(ctData), *CertificateTransparency, *CertificateTransparencyThreads)
 	var itera int
 	for _, certs := range ctData {
-		chain := make([]ct.ASN1Cert, 0)
-
-		for _, cert := range certs {
-			var dataBytes []byte
-			data, err := s.GetFile(cert)
-			if cert.Type == pki.TYPE_ROA || cert.Type == pki.TYPE_MFT {
-				cms, err := librpki.DecodeCMS(data.Data)
-				if err != nil {
-					log.Error(err)
-					continue
-				}
-				dataBytes = cms.SignedData.Certificates.Bytes
-			} else {
-				dataBytes = data.Data
-			}
-
-			if err != nil {
-				log.Error(err)
-				continue
-			}
-			chain = append(chain, ct.ASN1Cert{Data: dataBytes})
+		chain, err := certificateChain(&s, certs)
+		if err != nil {
+			log.Error(err)
+			continue
 		}
 
 		if threads > 0 {
-- 
2.43.0


From 29bfb888a1e1f695f8bab6f3a625b7b736ea88a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:54 +0000
Subject: [PATCH 61/68] fix: submit complete chains to the CT log

Chains were followed by key identifiers, which lost or crashed on issuers
of objects with missing or equal identifiers; a file that could not be read
left a truncated chain or crashed; nothing was submitted in one-off mode and
the last chains were still being sent when the function returned.
---
 cmd/octorpki/ct.go       | 65 ++++++++++++++++++++++++++--------------
 cmd/octorpki/octorpki.go | 45 +++++++---------------------
 2 files changed, 53 insertions(+), 57 deletions(-)

diff --git a/cmd/octorpki/ct.go b/cmd/octorpki/ct.go
index e2c19cd..475f996 100644
--- a/cmd/octorpki/ct.go
+++ b/cmd/octorpki/ct.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"net/http"
+	"sync"
 	"time"
 
 	"github.com/cloudflare/cfrpki/validator/pki"
@@ -32,6 +33,7 @@ func SingleSendCertificateTransparency(httpclient *http.Client, path string, msg
 
 	resp, err := httpclient.Post(fmt.Sprintf("%v/ct/v1/add-chain", path), "application/json", buf)
 	if err == nil {
+		defer resp.Body.Close()
 		respStr, _ := io.ReadAll(resp.Body)
 		log.Debugf("Sent %v certs %v %v %v", len(msg.Chain), path, string(respStr), err)
 	}
@@ -50,6 +52,34 @@ func BatchCertificateTransparency(httpclient *http.Client, path string, d chan *
 	}
 }
 
+// certificateChain returns the certificates in the files.
+func (s *OctoRPKI) certificateChain(certs []*pki.PKIFile) ([][]byte, error) {
+	chain := make([][]byte, 0)
+
+	for _, cert := range certs {
+		data, err := s.Fetcher.GetFile(cert)
+		if err != nil {
+			return nil, err
+		}
+		if data == nil {
+			return nil, fmt.Errorf("%s is not available", cert.ComputePath())
+		}
+
+		dataBytes := data.Data
+		if cert.Type == pki.TYPE_ROA || cert.Type == pki.TYPE_MFT {
+			cms, err := librpki.DecodeCMS(data.Data)
+			if err != nil {
+				return nil, err
+			}
+			dataBytes = cms.SignedData.Certificates.Bytes
+		}
+
+		chain = append(chain, dataBytes)
+	}
+
+	return chain, nil
+}
+
 func (s *OctoRPKI) SendCertificateTransparency(pSpan opentracing.Span, ctData [][]*pki.PKIFile, threads int, timeout int) {
 	tracer := opentracing.GlobalTracer()
 	span := tracer.StartSpan(
@@ -65,36 +95,25 @@ func (s *OctoRPKI) SendCertificateTransparency(pSpan opentracing.Span, ctData []
 	}
 
 	dataChan := make(chan *ct.AddChainRequest)
+
+	var workers sync.WaitGroup
+	defer workers.Wait()
 	defer close(dataChan)
 
 	for i := 0; i < threads; i++ {
-		go BatchCertificateTransparency(httpclient, s.CTPath, dataChan)
+		workers.Add(1)
+		go func() {
+			defer workers.Done()
+			BatchCertificateTransparency(httpclient, s.CTPath, dataChan)
+		}()
 	}
 
 	var iterations int
 	for _, certs := range ctData {
-		chain := make([][]byte, 0)
-
-		for _, cert := range certs {
-			var dataBytes []byte
-			data, err := s.Fetcher.GetFile(cert)
-			if cert.Type == pki.TYPE_ROA || cert.Type == pki.TYPE_MFT {
-				cms, err := librpki.DecodeCMS(data.Data)
-				if err != nil {
-					log.Error(err)
-					continue
-				}
-				dataBytes = cms.SignedData.Certificates.Bytes
-			} else {
-				dataBytes = data.Data
-			}
-
-			if err != nil {
-				log.Error(err)
-				continue
-			}
-
-			chain = append(chain, dataBytes)
+		chain, err := s.certificateChain(certs)
+		if err != nil {
+			log.Error(err)
+			continue
 		}
 
 		dataChan <- &ct.AddChainRequest{
diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 174c2b4..98f29a5 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1216,37 +1216,14 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) *validationResult {
 	return result
 }
 
+// ct returns for every valid object its file followed by those of its issuers
+// up to the trust anchor.
 func (s *OctoRPKI) ct(pkiManagers []*pki.SimpleManager, i int) [][]*pki.PKIFile {
-	skiToAki := make(map[string]string)
-	skiToPath := make(map[string]*pki.PKIFile)
-	for _, obj := range pkiManagers[i].Validator.ValidObjects {
-		res := obj.Resource.(*librpki.RPKICertificate)
-		ski := hex.EncodeToString(res.Certificate.SubjectKeyId)
-		aki := hex.EncodeToString(res.Certificate.AuthorityKeyId)
-		skiToAki[ski] = aki
-		skiToPath[ski] = obj.File
-	}
-
 	pathCT := make([][]*pki.PKIFile, 0)
-	for ski, aki := range skiToAki {
-		skiDone := make(map[string]bool)
-		skiDone[ski] = true
-
-		curAki := aki
-		curPath := skiToPath[ski]
-		curPathCT := make([]*pki.PKIFile, 1)
-		curPathCT[0] = curPath
-
-		var ok bool
-		for curAki != "" && !ok {
-			ok = skiDone[curAki]
-			skiDone[curAki] = true
-
-			curPath = skiToPath[curAki]
-			if curAki != "" {
-				curPathCT = append(curPathCT, curPath)
-			}
-			curAki = skiToAki[curAki]
+	for _, obj := range pkiManagers[i].Validator.ValidObjects {
+		curPathCT := make([]*pki.PKIFile, 0)
+		for res := obj; res != nil; res = res.Parent {
+			curPathCT = append(curPathCT, res.File)
 		}
 		pathCT = append(pathCT, curPathCT)
 	}
@@ -1716,11 +1693,6 @@ func (s *OctoRPKI) validationLoop() {
 			s.Stable.Store(true)
 		}
 
-		if *Mode == "oneoff" && s.Stable.Load() {
-			log.Info("Stable, terminating")
-			break
-		}
-
 		// Certificate Transparency
 		if s.DoCT && (s.Stable.Load() || !*WaitStable) {
 			t1 := time.Now().UTC()
@@ -1735,6 +1707,11 @@ func (s *OctoRPKI) validationLoop() {
 				Observe(float64(t2.Sub(t1).Seconds()))
 		}
 
+		if *Mode == "oneoff" && s.Stable.Load() {
+			log.Info("Stable, terminating")
+			break
+		}
+
 		if s.Stable.Load() {
 			MetricLastStableValidation.Set(float64(s.LastComputed.Unix()))
 			MetricState.Set(float64(1))
-- 
2.43.0


From b51ec727f6b95bc3081eba1f114c523dfb346b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:54 +0000
Subject: [PATCH 62/68] fix: do not crash when a validated file cannot be read
 any more

---
 cmd/octorpki/octorpki.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 98f29a5..414d530 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -861,7 +861,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 				if obj.File != nil {
 					path = obj.File.ComputePath()
 					resData, err := s.Fetcher.GetFileConv(obj.File, false)
-					if err == nil {
+					if err == nil && resData != nil {
 						hashBytes := sha256.Sum256(resData.Data)
 						hash = hex.EncodeToString(hashBytes[:])
 					}
@@ -949,7 +949,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 			if obj.File != nil {
 				path = obj.File.ComputePath()
 				resData, err := s.Fetcher.GetFileConv(obj.File, false)
-				if err == nil {
+				if err == nil && resData != nil {
 					hashBytes := sha256.Sum256(resData.Data)
 					hash = hex.EncodeToString(hashBytes[:])
 				}
@@ -1013,7 +1013,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 			if obj.File != nil {
 				path = obj.File.ComputePath()
 				resData, err := s.Fetcher.GetFileConv(obj.File, false)
-				if err == nil {
+				if err == nil && resData != nil {
 					hashBytes := sha256.Sum256(resData.Data)
 					hash = hex.EncodeToString(hashBytes[:])
 				}
-- 
2.43.0


From 7011cb30947f1577995c001124ce79c98527f1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:33 +0000
Subject: [PATCH 63/68] fix: fetch the repository of a CA whose manifest cannot
 be used

What the cache holds (a manifest which expired while the program was down, a
listed file which is missing after a crash or an inconsistent transfer)
invalidates the CA, and then nothing was fetched for it any more: after a
restart the program stayed without it, for a trust anchor without anything.
---
 cmd/octorpki/octorpki.go | 20 +++++++++++++++++++-
 validator/pki/pki.go     |  8 ++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 414d530..a5c7630 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1147,8 +1147,23 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) *validationResult {
 			count++
 		}
 
-		iatmp := make(map[string]int) // index in ia[i]
+		// What a repository holds can make its own CA invalid. It still has to
+		// be fetched, or this could never be repaired.
+		objects := make([]*pki.Resource, 0, len(pkiManagers[i].Validator.ValidObjects))
 		for _, pkiResource := range pkiManagers[i].Validator.ValidObjects {
+			objects = append(objects, pkiResource)
+		}
+		valid := len(objects)
+		for pkiResource := range pkiManagers[i].InvalidManifests {
+			cer := pkiResource.Resource.(*librpki.RPKICertificate)
+			parent := pkiManagers[i].Validator.ValidObjects[string(cer.Certificate.AuthorityKeyId)]
+			if pkiResource.Parent == nil || pkiResource.Parent == parent {
+				objects = append(objects, pkiResource)
+			}
+		}
+
+		iatmp := make(map[string]int) // index in ia[i]
+		for n, pkiResource := range objects {
 			if pkiResource.Type != pki.TYPE_CER {
 				continue
 			}
@@ -1178,6 +1193,9 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) *validationResult {
 			}
 			rsyncJobs[gnExtracted][rrdpGeneralName] = true
 			s.CurrentRepos[gnExtracted] = time.Now()
+			if n >= valid {
+				continue
+			}
 			count++
 
 			// map the rrdp and rsync by TAL for info page
diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 4a32bcb..3e1e451 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -99,6 +99,9 @@ type SimpleManager struct {
 
 	StrictManifests bool
 	StrictHash      bool
+
+	// CA certificates invalidated because of their manifest
+	InvalidManifests map[*Resource]bool
 }
 
 func NewSimpleManager() *SimpleManager {
@@ -110,6 +113,8 @@ func NewSimpleManager() *SimpleManager {
 		Errors:          make(chan error, 50),
 		StrictManifests: true,
 		StrictHash:      true,
+
+		InvalidManifests: make(map[*Resource]bool),
 	}
 }
 
@@ -851,6 +856,9 @@ func (sm *SimpleManager) InvalidateManifestParent(file *PKIFile, mftError error)
 			cert, ok := res.Resource.(*librpki.RPKICertificate)
 			if ok {
 				sm.Validator.InvalidateObject(cert.Certificate.SubjectKeyId)
+				if sm.InvalidManifests != nil {
+					sm.InvalidManifests[res] = true
+				}
 
 				err := NewCertificateErrorManifestRevocation(cert, mftError, file.Parent, file)
 				sm.reportErrorFile(err, file.Parent.Parent, nil)
-- 
2.43.0


From 2abebec474fa6426c4554814cd0c53ae008f681a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:21 +0000
Subject: [PATCH 64/68] fix: take up reissued trust anchor certificates

The certificate of a trust anchor was only fetched while the one in the
cache was not valid, so a reissued one, with other resources or another
repository, went unnoticed until then (RFC 8630, section 2.3). Fetch it
over https in every round, and store only what is valid.
---
 cmd/octorpki/octorpki.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index a5c7630..836bacf 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -204,6 +204,7 @@ func ReadKey(key []byte, isPem bool) (*ecdsa.PrivateKey, error) {
 type OctoRPKI struct {
 	Tals         []*pki.PKIFile
 	TalsFetch    map[string]*librpki.RPKITAL
+	talsValid    map[string]bool // whether the certificate in the cache is valid
 	TalNames     []string
 	LastComputed time.Time
 	Key          *ecdsa.PrivateKey
@@ -673,6 +674,11 @@ func (s *OctoRPKI) fetchTAL(path string, tal *librpki.RPKITAL, span opentracing.
 		return
 	}
 
+	// rsync would replace the certificate by whatever it gets
+	if s.talsValid[path] {
+		return
+	}
+
 	// Fail over to rsync
 	if *RRDPFailover && tal.HasRsync() {
 		rsync := tal.GetRsyncURI()
@@ -799,7 +805,8 @@ func (s *OctoRPKI) fetchTALurl(tal *librpki.RPKITAL, uri string, path string, tS
 	return true, uri
 }
 
-// checkTALCertificate says whether data is a certificate with the key of a TAL.
+// checkTALCertificate says whether data is a valid certificate with the key of
+// a TAL.
 func checkTALCertificate(tal *librpki.RPKITAL, data []byte) error {
 	der, err := librpki.BER2DER(data)
 	if err != nil {
@@ -812,7 +819,11 @@ func checkTALCertificate(tal *librpki.RPKITAL, data []byte) error {
 	if !tal.CheckCertificate(cert.Certificate) {
 		return fmt.Errorf("the certificate does not have the key of the TAL")
 	}
-	return nil
+	err = cert.Validate(cert)
+	if err != nil {
+		return err
+	}
+	return cert.ValidateTime(time.Now())
 }
 
 func logCollector(sm *pki.SimpleManager, tal *pki.PKIFile, tSpan opentracing.Span) {
@@ -1141,9 +1152,9 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) *validationResult {
 		var count int
 		for _, obj := range pkiManagers[i].Validator.TALs {
 			tal := obj.Resource.(*librpki.RPKITAL)
-			if !obj.CertTALValid {
-				s.TalsFetch[obj.File.Path] = tal
-			}
+			// A valid certificate can have been reissued, too (RFC8630, 2.3)
+			s.TalsFetch[obj.File.Path] = tal
+			s.talsValid[obj.File.Path] = obj.CertTALValid
 			count++
 		}
 
@@ -1565,6 +1576,7 @@ func main() {
 func NewOctoRPKI(tals []*pki.PKIFile, talNames []string) *OctoRPKI {
 	return &OctoRPKI{
 		TalsFetch:            make(map[string]*librpki.RPKITAL),
+		talsValid:            make(map[string]bool),
 		Tals:                 tals,
 		TalNames:             talNames,
 		RRDPInfo:             make(map[string]RRDPInfo),
-- 
2.43.0


From c806c67b353b2d60cde9d0e51205e92cd0242358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:49 +0000
Subject: [PATCH 65/68] fix: end all processes of rsync after its timeout

---
 sync/lib/rsync.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/sync/lib/rsync.go b/sync/lib/rsync.go
index 5d94d8d..77a6550 100644
--- a/sync/lib/rsync.go
+++ b/sync/lib/rsync.go
@@ -9,12 +9,17 @@ import (
 	"os/exec"
 	"regexp"
 	"strings"
+	"syscall"
+	"time"
 
 	log "github.com/sirupsen/logrus"
 )
 
 const (
 	RsyncProtoPrefix = "rsync://"
+
+	// rsyncWaitDelay is how long rsync has to end after a timeout.
+	rsyncWaitDelay = 5 * time.Second
 )
 
 var (
@@ -73,6 +78,10 @@ func RunRsync(ctx context.Context, uri string, bin string, dirPath string) ([]*F
 	}
 
 	cmd := exec.CommandContext(ctx, bin, "-vrlt", "--safe-links", uri, dirPath)
+	// rsync runs as several processes. It ends the others on SIGTERM: after
+	// SIGKILL they would go on, wait for the server and keep the output open.
+	cmd.Cancel = func() error { return cmd.Process.Signal(syscall.SIGTERM) }
+	cmd.WaitDelay = rsyncWaitDelay
 	log.Debugf("Command ran: %v", cmd)
 
 	stdout, err := cmd.StdoutPipe()
@@ -88,6 +97,22 @@ func RunRsync(ctx context.Context, uri string, bin string, dirPath string) ([]*F
 		return nil, err
 	}
 
+	finished := make(chan struct{})
+	defer close(finished)
+	go func() {
+		select {
+		case <-finished:
+			return
+		case <-ctx.Done():
+		}
+		select {
+		case <-finished:
+		case <-time.After(rsyncWaitDelay):
+			stdout.Close()
+			stderr.Close()
+		}
+	}()
+
 	go func() {
 		reader := bufio.NewReader(stderr)
 		for {
-- 
2.43.0


From c9db69b3b9569ac33bbba2fd4866319280c88fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:21 +0000
Subject: [PATCH 66/68] fix: write the list of a one-off run that reaches the
 iteration limit

---
 cmd/octorpki/octorpki.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 836bacf..5b08d47 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1710,7 +1710,7 @@ func (s *OctoRPKI) validationLoop() {
 		s.Stable.Store(stable)
 		s.HasPreviousStable.Store(stable)
 
-		if *Mode == "oneoff" && (s.Stable.Load() || !*WaitStable) {
+		if *Mode == "oneoff" && (stable || limitReached || !*WaitStable) {
 			s.mustOutput()
 		}
 
-- 
2.43.0


From 80627a0fc438fbb1a078d39f79e00f6adc737e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:47 +0000
Subject: [PATCH 67/68] fix: do not hold the lock of the resources while a
 client reads them

---
 cmd/octorpki/octorpki.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 5b08d47..9bf104e 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1346,9 +1346,11 @@ func (s *OctoRPKI) ServeResources(w http.ResponseWriter, r *http.Request) {
 	w.Header().Set("Content-Type", "application/json")
 	enc := json.NewEncoder(w)
 
+	// The lock must not be held while a client takes its time to read
 	s.ResourcesMu.RLock()
-	defer s.ResourcesMu.RUnlock()
-	enc.Encode(s.Resources)
+	resources := s.Resources
+	s.ResourcesMu.RUnlock()
+	enc.Encode(resources)
 }
 
 func (s *OctoRPKI) ServeHealth(w http.ResponseWriter, r *http.Request) {
-- 
2.43.0


From 140ca0556b0989d5ca172c2255c7060e7ce03907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:06 +0000
Subject: [PATCH 68/68] fix: read the times on the info page under the lock

---
 cmd/octorpki/octorpki.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 9bf104e..165e969 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1068,7 +1068,9 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 		eSpan.Finish()
 	}
 	curTime := time.Now()
+	s.ROAListMu.Lock()
 	s.LastComputed = curTime
+	s.ROAListMu.Unlock()
 	validTime := curTime.Add(*ValidityDuration)
 
 	if s.Filter {
@@ -1238,8 +1240,11 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) *validationResult {
 	result.ctData = ctData
 
 	t2 := time.Now()
-	s.stats.ValidationDuration = t2.Sub(t1)
-	MetricOperationTime.With(prometheus.Labels{"type": "validation"}).Observe(float64(s.stats.ValidationDuration.Seconds()))
+	duration := t2.Sub(t1)
+	s.ROAListMu.Lock()
+	s.stats.ValidationDuration = duration
+	s.ROAListMu.Unlock()
+	MetricOperationTime.With(prometheus.Labels{"type": "validation"}).Observe(float64(duration.Seconds()))
 	MetricLastValidation.Set(float64(s.LastComputed.Unix()))
 
 	return result
@@ -1418,6 +1423,8 @@ func (s *OctoRPKI) ServeInfo(w http.ResponseWriter, r *http.Request) {
 	s.ROAListMu.RLock()
 	roaCount := len(s.ROAList.Data)
 	roasTALsCount := s.stats.ROAsTALsCount
+	lastComputed := s.LastComputed
+	validationDuration := s.stats.ValidationDuration
 	s.ROAListMu.RUnlock()
 
 	ir := InfoResult{
@@ -1425,8 +1432,8 @@ func (s *OctoRPKI) ServeInfo(w http.ResponseWriter, r *http.Request) {
 		ROACount:           roaCount,
 		ROAsTALs:           roasTALsCount,
 		Stable:             s.Stable.Load(),
-		LastValidation:     int(s.LastComputed.Unix()),
-		ValidationDuration: s.stats.ValidationDuration.Seconds(),
+		LastValidation:     int(lastComputed.Unix()),
+		ValidationDuration: validationDuration.Seconds(),
 		Iteration:          int(s.stats.iterations.Load()),
 	}
 	enc := json.NewEncoder(w)
-- 
2.43.0

