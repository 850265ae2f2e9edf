From 5460d1b6b919b12f2f218d44bcf1759d5b933bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:05 +0000
Subject: [PATCH 01/16] fix: resolve inherited resources along the issuer
 chain, refuse unresolved ones

ValidateCertificate looked up the same ancestor in every iteration of the
walk up the chain, so resources inherited over more than one level were
compared with the wrong certificate, and resources that no ancestor settled
were silently accepted.
---
 validator/pki/pki.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 53ba3df..f75696f 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -498,9 +498,10 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 
 	// Check IPs
 	validIPs, invalidIPs, checkParent := cert.ValidateIPCertificate(parentCert)
+	issuer := parentCert
 	chain := parent.Parent
 	for chain != nil && len(checkParent) > 0 {
-		key := parentCert.Certificate.AuthorityKeyId
+		key := issuer.Certificate.AuthorityKeyId
 		upperCert, found := v.ValidObjects[string(key)]
 		if !found {
 			//return errors.New(fmt.Sprintf("One of the parents (%x) of %x is not valid", key, ski))
@@ -515,14 +516,18 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 		validIPs = append(validIPs, validTmp...)
 		invalidIPs = append(invalidIPs, invalidTmp...)
 		checkParent = checkParentTmp
+		issuer = chainCert
 		chain = chain.Parent
 	}
+	// What is still unresolved at the top of the chain is held by nobody
+	invalidIPs = append(invalidIPs, checkParent...)
 
 	// Check ASNs
 	validASNs, invalidASNs, checkParentASN := cert.ValidateASNCertificate(parentCert)
+	issuer = parentCert
 	chain = parent.Parent
 	for chain != nil && len(checkParentASN) > 0 {
-		key := parentCert.Certificate.AuthorityKeyId
+		key := issuer.Certificate.AuthorityKeyId
 		upperCert, found := v.ValidObjects[string(key)]
 		if !found {
 			return NewCertificateErrorParent(cert, parentCert, errors.New(fmt.Sprintf("ancestor %x is not valid", key)))
@@ -535,8 +540,10 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 		validASNs = append(validASNs, validTmp...)
 		invalidASNs = append(invalidASNs, invalidTmp...)
 		checkParentASN = checkParentTmp
+		issuer = chainCert
 		chain = chain.Parent
 	}
+	invalidASNs = append(invalidASNs, checkParentASN...)
 
 	if len(invalidIPs) > 0 || len(invalidASNs) > 0 {
 		//return errors.New(fmt.Sprintf("%x contains invalid ASNs: %v", ski, invalidsASN))
-- 
2.43.0


From b713d8d0bb8c0d04c51a97f0546d594ef87feae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:05 +0000
Subject: [PATCH 02/16] fix: drop invalidated manifests from the set of valid
 manifests

InvalidateObject removed certificates, ROAs and CRLs issued below the
invalidated certificate but left manifests in ValidManifest.
---
 validator/pki/pki.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index f75696f..2ee0a9f 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -389,6 +389,7 @@ func (v *Validator) InvalidateObject(keyid []byte) {
 		delete(v.ValidObjects, ski)
 		delete(v.ValidROA, ski)
 		delete(v.ValidCRL, ski)
+		delete(v.ValidManifest, ski)
 		invalidated[ski] = true
 
 		if hasCert {
-- 
2.43.0


From 8a0b4c0df7b17a91cdf1ba1c6c1707d51cf8538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 03/16] fix: refuse a CRL of an unknown issuer instead of
 crashing

AddResource dereferenced the parent of the CRL and its file without checking
that they exist: any CRL naming an unknown authority key ended the process.
---
 validator/pki/pki.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 2ee0a9f..9f47be8 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -356,12 +356,15 @@ func (v *Validator) AddResource(pkifile *PKIFile, data []byte) (bool, []*PKIFile
 			return false, nil, nil, err
 		}
 		valid, res, err := v.AddCRL(crl)
-		if pkifile.Parent.Parent.Path != res.Parent.File.Path {
-			return false, nil, nil, fmt.Errorf("CRL %s does not match with the parent %s", pkifile.Path, pkifile.Parent.Parent.Path)
-		}
 		if res == nil {
 			return valid, nil, res, fmt.Errorf("Resource is empty: %v", err)
 		}
+		if pkifile.Parent == nil || pkifile.Parent.Parent == nil || res.Parent == nil || res.Parent.File == nil {
+			return false, nil, nil, fmt.Errorf("CRL %s has no known parent", pkifile.Path)
+		}
+		if pkifile.Parent.Parent.Path != res.Parent.File.Path {
+			return false, nil, nil, fmt.Errorf("CRL %s does not match with the parent %s", pkifile.Path, pkifile.Parent.Parent.Path)
+		}
 		res.File = pkifile
 
 		v.ObjectsPath[pkifile.Path] = res
-- 
2.43.0


From 4bbb51b6f10cd581c68e19d4054a28ce1c744326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 04/16] fix: keep serial numbers of different issuers apart

The indexes of accepted and revoked certificates were keyed by the key
identifier followed directly by the decimal serial, so that an issuer whose
key identifier extends another one's by digits could revoke certificates of
that other issuer.
---
 validator/pki/pki.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 9f47be8..54a0600 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -7,6 +7,7 @@ import (
 	"encoding/asn1"
 	"errors"
 	"fmt"
+	"math/big"
 	"strings"
 	"time"
 
@@ -408,6 +409,12 @@ func (v *Validator) InvalidateObject(keyid []byte) {
 
 }
 
+// serialKey identifies a certificate by issuer and serial number. The serial
+// comes first as key identifiers are arbitrary bytes of any length.
+func serialKey(aki []byte, serial *big.Int) string {
+	return serial.String() + "/" + string(aki)
+}
+
 func (v *Validator) AddTAL(tal *librpki.RPKITAL) ([]*PKIFile, *Resource, error) {
 	uri := tal.GetRsyncURI()
 	files := []*PKIFile{
@@ -456,7 +463,7 @@ func (v *Validator) AddCert(cert *librpki.RPKICertificate, trust bool) (bool, []
 	if hasParent && parent != nil && valid {
 		parent.Childs = append(parent.Childs, res)
 
-		v.CertsSerial[aki+cert.Certificate.SerialNumber.String()] = res
+		v.CertsSerial[serialKey(cert.Certificate.AuthorityKeyId, cert.Certificate.SerialNumber)] = res
 	}
 
 	if valid {
@@ -495,7 +502,7 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 	}
 
 	// Check presence in revocation lists
-	_, revoked := v.Revoked[string(aki)+cert.Certificate.SerialNumber.String()]
+	_, revoked := v.Revoked[serialKey(aki, cert.Certificate.SerialNumber)]
 	if revoked {
 		return NewCertificateErrorRevocation(cert)
 	}
@@ -680,7 +687,7 @@ func (v *Validator) AddCRL(crl *pkix.CertificateList) (bool, *Resource, error) {
 		} else {
 			v.ValidCRL[string(aki)] = res
 			for _, revoked := range crl.TBSCertList.RevokedCertificates {
-				key := string(aki) + revoked.SerialNumber.String()
+				key := serialKey(aki, revoked.SerialNumber)
 				child, found := v.CertsSerial[key]
 				if found {
 					childConv := child.Resource.(*librpki.RPKICertificate)
-- 
2.43.0


From 7eaa5b80c25d60a4ec74629e43c1e1fbf82b2812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 05/16] fix: refuse truncated and too deeply nested BER instead
 of crashing

---
 validator/lib/ber.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/validator/lib/ber.go b/validator/lib/ber.go
index 32c81b5..94945de 100644
--- a/validator/lib/ber.go
+++ b/validator/lib/ber.go
@@ -12,6 +12,9 @@ import (
 
 var encodeIndent = 0
 
+// Objects nested deeper than this are refused: both parsing and encoding recurse.
+const maxNesting = 1000
+
 type asn1Object interface {
 	encodeTo(writer *bytes.Buffer) error
 }
@@ -136,17 +139,30 @@ func encodeLength(out *bytes.Buffer, length int) (err error) {
 }
 
 func readObject(ber []byte, offset int) (asn1Object, int, error) {
+	return readNestedObject(ber, offset, 0)
+}
+
+func readNestedObject(ber []byte, offset int, depth int) (asn1Object, int, error) {
 	//fmt.Printf("\n====> Starting readObject at offset: %d\n\n", offset)
+	if depth > maxNesting {
+		return nil, 0, errors.New("ber2der: BER objects are nested too deeply")
+	}
+	if offset >= len(ber) {
+		return nil, 0, errors.New("ber2der: BER tag is missing")
+	}
 	tagStart := offset
 	b := ber[offset]
 	offset++
 	tag := b & 0x1F // last 5 bits
 	if tag == 0x1F {
 		tag = 0
-		for ber[offset] >= 0x80 {
+		for offset < len(ber) && ber[offset] >= 0x80 {
 			tag = tag*128 + ber[offset] - 0x80
 			offset++
 		}
+		if offset >= len(ber) {
+			return nil, 0, errors.New("ber2der: BER tag is truncated")
+		}
 		tag = tag*128 + ber[offset] - 0x80
 		offset++
 	}
@@ -174,6 +190,9 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 		if numberOfBytes > 4 { // int is only guaranteed to be 32bit
 			return nil, 0, errors.New("ber2der: BER tag length too long")
 		}
+		if numberOfBytes > len(ber)-offset {
+			return nil, 0, errors.New("ber2der: BER tag length is truncated")
+		}
 		if numberOfBytes == 4 && (int)(ber[offset]) > 0x7F {
 			return nil, 0, errors.New("ber2der: BER tag length is negative")
 		}
@@ -215,7 +234,7 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 		for (offset < contentEnd) || indefinite {
 			var subObj asn1Object
 			var err error
-			subObj, offset, err = readObject(ber, offset)
+			subObj, offset, err = readNestedObject(ber, offset, depth+1)
 			if err != nil {
 				return nil, 0, err
 			}
-- 
2.43.0


From 1f5ed8aa1be6d2fe03d4b022a86b188edd18614d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 06/16] fix: refuse address encodings that do not fit their
 family

---
 validator/lib/cert.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/validator/lib/cert.go b/validator/lib/cert.go
index fec9fd5..6c3f5d2 100644
--- a/validator/lib/cert.go
+++ b/validator/lib/cert.go
@@ -252,6 +252,9 @@ func DecodeIP(addrfamily []byte, addr asn1.BitString) (*net.IPNet, error) {
 		if addrfamily[1] == 2 {
 			size = 16
 		}
+		if addr.BitLength > size*8 {
+			return nil, errors.New(fmt.Sprintf("Error converting ip address %v %v", addr.BitLength, size))
+		}
 		ipaddr := make([]byte, size)
 		copy(ipaddr, addr.Bytes)
 		mask := net.CIDRMask(addr.BitLength, size*8)
@@ -271,15 +274,15 @@ func DecodeIPMinMax(addrfamily []byte, addr asn1.BitString, max bool) (net.IP, e
 		if addrfamily[1] == 2 {
 			size = 16
 		}
+		if addr.BitLength > size*8 {
+			return nil, errors.New(fmt.Sprintf("Error converting ip address %v %v", addr.BitLength, size))
+		}
 		ipaddr := make([]byte, size)
 		copy(ipaddr, addr.Bytes)
 		if max {
 			for i := addr.BitLength/8 + 1; i < len(ipaddr); i++ {
 				ipaddr[i] = 0xFF
 			}
-			if addr.BitLength/8 > len(ipaddr) {
-				return nil, errors.New(fmt.Sprintf("Error converting ip address %v %v", addr.BitLength, len(ipaddr)))
-			}
 			if addr.BitLength/8 < len(ipaddr) {
 				ipaddr[addr.BitLength/8] |= 0xFF >> uint(8-(8*(addr.BitLength/8+1)-addr.BitLength))
 			}
@@ -328,7 +331,10 @@ func DecodeIPAddressBlock(data []byte) ([]IPCertificateInformation, error) {
 						return ipaddresses, err
 					}
 
-					a, _ := DecodeIP(ipaddrfam.AddressFamily, addrRange)
+					a, err := DecodeIP(ipaddrfam.AddressFamily, addrRange)
+					if err != nil {
+						return ipaddresses, err
+					}
 					ipaddresses = append(ipaddresses, &IPNet{
 						IPNet: a,
 					})
@@ -344,8 +350,14 @@ func DecodeIPAddressBlock(data []byte) ([]IPCertificateInformation, error) {
 						return ipaddresses, err
 					}
 
-					a, _ := DecodeIPMinMax(ipaddrfam.AddressFamily, addrRange.Min, false)
+					a, err := DecodeIPMinMax(ipaddrfam.AddressFamily, addrRange.Min, false)
+					if err != nil {
+						return ipaddresses, err
+					}
 					b, err := DecodeIPMinMax(ipaddrfam.AddressFamily, addrRange.Max, true)
+					if err != nil {
+						return ipaddresses, err
+					}
 					ipaddresses = append(ipaddresses, &IPAddressRange{
 						Min: a,
 						Max: b,
-- 
2.43.0


From cacc906ed424b4307069c81f6b0ab9b141953b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 07/16] fix: list a ROA entry with a malformed mask only once

---
 validator/lib/roa.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/validator/lib/roa.go b/validator/lib/roa.go
index 2952d3b..e614a25 100644
--- a/validator/lib/roa.go
+++ b/validator/lib/roa.go
@@ -198,6 +198,7 @@ func ValidateIPRoaCertificateList(entries []*ROAEntry, cert *RPKICertificate) ([
 		err, min, max := GetRangeIP(entry.IPNet)
 		if err != nil {
 			invalids = append(invalids, entry)
+			continue
 		}
 		valid, checkParent := cert.IsIPRangeInCertificate(min, max)
 		if valid {
-- 
2.43.0


From bf109c22f85bce0318f969c054c903bde1c4a812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 08/16] fix: refuse a signed message without signer instead of
 crashing

---
 validator/lib/cms.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/validator/lib/cms.go b/validator/lib/cms.go
index a1a87a9..8cb2f1e 100644
--- a/validator/lib/cms.go
+++ b/validator/lib/cms.go
@@ -330,6 +330,9 @@ func (cms *CMS) CheckSignaturesMatch() (bool, error) {
 
 // Won't validate if signedattributes is empty
 func (cms *CMS) Validate(encap []byte, cert *x509.Certificate) error {
+	if len(cms.SignedData.SignerInfos) == 0 {
+		return errors.New("CMS has no signer")
+	}
 	signedAttributes := cms.SignedData.SignerInfos[0].SignedAttrs
 
 	var messageDigest []byte
@@ -417,6 +420,9 @@ func (cms *CMS) GetRPKICertificate() (*RPKICertificate, error) {
 
 func (cms *CMS) GetSigningTime() (time.Time, error) {
 	var signingTime time.Time
+	if len(cms.SignedData.SignerInfos) == 0 {
+		return signingTime, errors.New("CMS has no signer")
+	}
 	signedAttributes := cms.SignedData.SignerInfos[0].SignedAttrs
 	for _, sAttr := range signedAttributes {
 		if sAttr.AttrType.Equal(SigningTime) && len(sAttr.AttrValue) > 0 {
-- 
2.43.0


From 99bab2840cfb30d4c0056a3070952268a972262e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:18 +0000
Subject: [PATCH 09/16] fix: check the padding of signatures over signed
 attributes

---
 validator/lib/cms.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/validator/lib/cms.go b/validator/lib/cms.go
index 8cb2f1e..2bbc7c9 100644
--- a/validator/lib/cms.go
+++ b/validator/lib/cms.go
@@ -370,12 +370,10 @@ func (cms *CMS) Validate(encap []byte, cert *x509.Certificate) error {
 		return errors.New("Public key is not RSA")
 	}
 
-	decryptedHash, err := DecryptSignatureRSA(cms.SignedData.SignerInfos[0].Signature, pubKey)
+	// The padding counts: a signature that merely contains the digest can be computed without the private key
+	err = rsa.VerifyPKCS1v15(pubKey, crypto.SHA256, signedAttributesHash, cms.SignedData.SignerInfos[0].Signature)
 	if err != nil {
-		return errors.New(fmt.Sprintf("CMS signature decoding error: %v", err))
-	}
-	if !bytes.Equal(signedAttributesHash, decryptedHash) {
-		return errors.New(fmt.Sprintf("CMS encrypted digest (%x) and calculated digest (%x) are different", decryptedHash, signedAttributesHash))
+		return errors.New(fmt.Sprintf("CMS signature over calculated digest (%x) is not valid: %v", signedAttributesHash, err))
 	}
 
 	return nil
-- 
2.43.0


From b06ddf6045bc316b0e637e594d2267f0b4f07f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 10/16] fix: skip payloads whose prefix does not parse instead
 of crashing

---
 cmd/octorpki/filter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/octorpki/filter.go b/cmd/octorpki/filter.go
index 4800b53..65fbc7e 100644
--- a/cmd/octorpki/filter.go
+++ b/cmd/octorpki/filter.go
@@ -6,6 +6,9 @@ func FilterInvalidPrefixLen(roalist []prefixfile.ROAJson) []prefixfile.ROAJson {
 	validROAs := make([]prefixfile.ROAJson, 0)
 	for _, roa := range roalist {
 		prefix := roa.GetPrefix()
+		if prefix == nil { // Not a prefix
+			continue
+		}
 		prefixLen, _ := prefix.Mask.Size()
 		if prefix.IP.To4() != nil {
 			if prefixLen <= 24 {
-- 
2.43.0


From eb887fbd78e329de61801f324f9af16d30e6bf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 11/16] fix: refuse addresses that are not rsync addresses when
 splitting

---
 sync/lib/utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sync/lib/utils.go b/sync/lib/utils.go
index dfb7ca2..434430d 100644
--- a/sync/lib/utils.go
+++ b/sync/lib/utils.go
@@ -21,6 +21,9 @@ type SubMap struct {
 }
 
 func ExtractRsyncDomainModule(rsync string) (string, string, error) {
+	if !isRsyncURL(rsync) {
+		return "", "", fmt.Errorf("%q is not an rsync URL", rsync)
+	}
 	if len(rsync) > len("rsync://") {
 		rsyncDomain := strings.Split(rsync[8:], "/")
 		if len(rsyncDomain) < 2 {
-- 
2.43.0


From b075569a53088cc37cd87e5dc7e7b3e490039b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:26 +0000
Subject: [PATCH 12/16] fix: compare a created TAL's key with a certificate's
 instead of crashing

---
 validator/lib/tal.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/validator/lib/tal.go b/validator/lib/tal.go
index 58658e8..e9d8378 100644
--- a/validator/lib/tal.go
+++ b/validator/lib/tal.go
@@ -63,9 +63,9 @@ func (tal *RPKITAL) CheckCertificate(cert *x509.Certificate) bool {
 	if tal.Algorithm == cert.PublicKeyAlgorithm {
 		switch tal.Algorithm {
 		case x509.RSA:
-			a := tal.PublicKey.(*rsa.PublicKey)
-			b := cert.PublicKey.(*rsa.PublicKey)
-			if a.N.Cmp(b.N) == 0 && a.E == b.E {
+			a, ok1 := rsaPublicKey(tal.PublicKey)
+			b, ok2 := rsaPublicKey(cert.PublicKey)
+			if ok1 && ok2 && a.N.Cmp(b.N) == 0 && a.E == b.E {
 				return true
 			}
 		}
@@ -73,6 +73,17 @@ func (tal *RPKITAL) CheckCertificate(cert *x509.Certificate) bool {
 	return false
 }
 
+// A decoded TAL holds a pointer to its key, a created one the key itself.
+func rsaPublicKey(key interface{}) (*rsa.PublicKey, bool) {
+	switch keyc := key.(type) {
+	case *rsa.PublicKey:
+		return keyc, true
+	case rsa.PublicKey:
+		return &keyc, true
+	}
+	return nil, false
+}
+
 func DeleteLineEnd(line string) string {
 	if len(line) > 1 && line[len(line)-2] == 0xd {
 		line = line[0 : len(line)-2]
-- 
2.43.0


From a4b2905c4b20c493ce88c78a85ed87ae4c93a908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:17 +0000
Subject: [PATCH 13/16] fix: stop an RRDP update when a withdraw of a delta
 cannot be handed over

---
 sync/lib/rrdp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/lib/rrdp.go b/sync/lib/rrdp.go
index c47eb12..eb154d2 100644
--- a/sync/lib/rrdp.go
+++ b/sync/lib/rrdp.go
@@ -351,7 +351,7 @@ func (s *RRDPSystem) FetchRRDP(cbArgs ...interface{}) error {
 					if err != nil {
 						return err
 					}
-					s.Callback(s.Path, root.Snapshot.URI, v.URI, vdec, true, false, elNode.Serial, cbArgs...)
+					err = s.Callback(s.Path, root.Snapshot.URI, v.URI, vdec, true, false, elNode.Serial, cbArgs...)
 					if err != nil {
 						return err
 					}
-- 
2.43.0


From e8e9de958619d900c2ef27857b97ebd69f23159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:28 +0000
Subject: [PATCH 14/16] fix: refuse a bad rsync address before creating
 directories and without ending the process

---
 cmd/octorpki/octorpki.go | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index a4b2d6b..ef37403 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -324,29 +324,33 @@ func ExtractRsyncDomain(rsyncURL string) (string, error) {
 }
 
 func (s *OctoRPKI) WriteRsyncFileOnDisk(rsyncURL string, data []byte) error {
-	fPath := mustExtractFoldersPathFromRsyncURL(rsyncURL)
-	mustMkdirAll(fPath)
-	filePath := mustExtractFilePathFromRsyncURL(rsyncURL)
+	filePath, err := syncpki.ExtractFilePathFromRsyncURL(rsyncURL)
+	if err != nil {
+		return fmt.Errorf("Unable to extract file path from rsync URL: %v", err)
+	}
 
 	// GHSA-8459-6rc9-8vf8: Prevent parent directory writes outside of Basepath
-	if strings.Contains(filePath, "../") || strings.Contains(filePath, "..\\") {
+	if strings.Contains(filePath+"/", "../") || strings.Contains(filePath, "..\\") {
 		return fmt.Errorf("Path %q contains illegal path element", filePath)
 	}
 
-	fp := filepath.Join(*Basepath, filePath)
-	err := ioutil.WriteFile(fp, data, 0600)
+	fPath, err := syncpki.ExtractFoldersPathFromRsyncURL(rsyncURL)
 	if err != nil {
-		return fmt.Errorf("Unable to write file %q: %v", fp, err)
+		return fmt.Errorf("Unable to extract folder path from rsync URL: %v", err)
 	}
 
-	return nil
-}
+	err = os.MkdirAll(filepath.Join(*Basepath, fPath), os.ModePerm)
+	if err != nil {
+		return fmt.Errorf("Unable to create directories for %q: %v", filePath, err)
+	}
 
-func mustMkdirAll(fPath string) {
-	err := os.MkdirAll(filepath.Join(*Basepath, fPath), os.ModePerm)
+	fp := filepath.Join(*Basepath, filePath)
+	err = ioutil.WriteFile(fp, data, 0600)
 	if err != nil {
-		log.Fatalf("Failed to create directories: %v", err)
+		return fmt.Errorf("Unable to write file %q: %v", fp, err)
 	}
+
+	return nil
 }
 
 func (s *OctoRPKI) ReceiveRRDPFileCallback(main string, url string, path string, data []byte, withdraw bool, snapshot bool, serial int64, args ...interface{}) error {
@@ -529,15 +533,6 @@ func (s *OctoRPKI) mainRsync(pSpan opentracing.Span) {
 	MetricOperationTime.With(prometheus.Labels{"type": "rsync"}).Observe(float64(t2.Sub(t1).Seconds()))
 }
 
-func mustExtractFoldersPathFromRsyncURL(rsyncURL string) string {
-	downloadPath, err := syncpki.ExtractFoldersPathFromRsyncURL(rsyncURL)
-	if err != nil {
-		log.Fatalf("Failed to extract folder path from rsync URL: %v", err)
-	}
-
-	return downloadPath
-}
-
 func mustExtractFilePathFromRsyncURL(rsyncURL string) string {
 	fPath, err := syncpki.ExtractFilePathFromRsyncURL(rsyncURL)
 	if err != nil {
-- 
2.43.0


From 4b0d76ced9a866f938ac26d7f925c17d59952c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:28 +0000
Subject: [PATCH 15/16] fix: accept RRDP content only for addresses that start
 with the registered rsync host

---
 cmd/octorpki/octorpki.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index ef37403..d5b6a61 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -356,7 +356,7 @@ func (s *OctoRPKI) WriteRsyncFileOnDisk(rsyncURL string, data []byte) error {
 func (s *OctoRPKI) ReceiveRRDPFileCallback(main string, url string, path string, data []byte, withdraw bool, snapshot bool, serial int64, args ...interface{}) error {
 	if len(args) > 0 {
 		rsync, ok := args[0].(string)
-		if ok && !strings.Contains(path, rsync) {
+		if ok && !strings.HasPrefix(path, rsync) {
 			log.Errorf("rrdp: %s is outside directory %s", path, rsync)
 			return nil
 		}
-- 
2.43.0


From 76b7d507b2144d9fb573131911d184e3713b180c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:42 +0000
Subject: [PATCH 16/16] fix: a state declared stable after the maximum of
 iterations counts as stable in the following run

---
 cmd/octorpki/octorpki.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index d5b6a61..c2ed325 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1560,7 +1560,6 @@ func (s *OctoRPKI) validationLoop() {
 		// Reduce
 		changed := s.MainReduce()
 		s.Stable.Store(!changed && s.stats.iterations.Load() > 1)
-		s.HasPreviousStable.Store(s.Stable.Load())
 
 		if *Mode == "oneoff" && (s.Stable.Load() || !*WaitStable) {
 			s.mustOutput()
@@ -1575,6 +1574,7 @@ func (s *OctoRPKI) validationLoop() {
 			log.Warning("Max iterations has been reached. Defining current state as stable and stoppping deeper validation. This number can be adjusted with -max.iterations")
 			s.Stable.Store(true)
 		}
+		s.HasPreviousStable.Store(s.Stable.Load())
 
 		if *Mode == "oneoff" && s.Stable.Load() {
 			log.Info("Stable, terminating")
-- 
2.43.0

