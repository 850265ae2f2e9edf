// The store of certificates, revocations and signed objects (validator/pki/pki.go).
package pki = github.com/cloudflare/cfrpki/validator/pki
package x509 = crypto/x509
package pkix = crypto/x509/pkix
package time = time
package strs = strings

pure (time.Time).After (time.Time).Before (*x509.Certificate).CheckSignatureFrom (*x509.Certificate).CheckCRLSignature (*big.Int).String
noeffect runtime.Callers fmt.Errorf fmt.Sprintf errors.New

// ---- what makes a certificate acceptable ----
define certTimeOK(v, cert) = !cert.Certificate.NotBefore.After(v.Time) && !v.Time.After(cert.Certificate.NotAfter)
// the key under which an issuer's serial is filed: injective, as the contract of serialKey shows
fun skey(string, string) string
axiom skeyIs(a:string, n:string): skey(a, n) == n + "/" + a
fun skeyN(string) string
fun skeyA(string) string
axiom skeyParts(k:string): skeyN(k) == k[:strs.Index(k, "/")] && skeyA(k) == k[strs.Index(k, "/")+1:]
define keyOf(cert) = skey(string(cert.Certificate.AuthorityKeyId), cert.Certificate.SerialNumber.String())
define certOf(res) = as(res.Resource, *lib.RPKICertificate)
define akiOf(cert) = string(cert.Certificate.AuthorityKeyId)
define skiOf(cert) = string(cert.Certificate.SubjectKeyId)
define issuerOf(v, cert) = certOf(v.ValidObjects[akiOf(cert)])
define hasIssuer(v, cert) = in(akiOf(cert), v.ValidObjects) && is(v.ValidObjects[akiOf(cert)].Resource, *lib.RPKICertificate)

// a claim is settled if the first certificate up the chain, starting at cert, that does not inherit it contains it
rec ipSettled(v, x, cert:*lib.RPKICertificate) bool = ite(ipCls(x, cert.IPAddresses, 0) == 0, true,
    ite(ipCls(x, cert.IPAddresses, 0) == 1, false, hasIssuer(v, cert) && ipSettled(issuerOf(v, cert))))
rec asSettled(v, x, cert:*lib.RPKICertificate) bool = ite(asCls(x, cert.ASNums, 0) == 0, true,
    ite(asCls(x, cert.ASNums, 0) == 1, false, hasIssuer(v, cert) && asSettled(issuerOf(v, cert))))

func (*lib.RPKICertificate).ValidateTime(cert, comp) (err)
  props C02
  modifies nothing
  ensures window: (err == nil) == (cert.Certificate != nil && !cert.Certificate.NotBefore.After(comp) && !comp.After(cert.Certificate.NotAfter))

func (*lib.RPKICertificate).Validate(cert, parent) (err)
  props C02
  modifies nothing
  ensures signature: (err == nil) == (cert.Certificate != nil && parent.Certificate != nil && cert.Certificate.CheckSignatureFrom(parent.Certificate) == nil)

// verdict(cert) tells how the last validation of cert ended: 1 for accepted, plus 2 if it was treated as a trust anchor
ghostheap verdict int

func (*pki.Validator).ValidateCertificate(v, cert, trust) (err)
  props C02
  sets verdict(cert) = ite(err == nil, 1, 0) + ite(trust, 2, 0)
  opt qunfold ipSettled asSettled
  opt qrange ipCls asCls
  opt slim yes
  opt absidx yes
  modifies nothing
  ensures time: err == nil ==> cert.Certificate != nil && certTimeOK(v, cert)
  ensures issuer-valid: err == nil && !trust ==> hasIssuer(v, cert)
  ensures signature: err == nil && !trust ==> cert.Certificate.CheckSignatureFrom(issuerOf(v, cert).Certificate) == nil
  ensures not-revoked: err == nil && !trust ==> !in(keyOf(cert), v.Revoked)
  ensures ip-settled: err == nil && !trust ==> forall(i, 0, len(cert.IPAddresses), old(ipSettled(v, cert.IPAddresses[i], issuerOf(v, cert))))
  ensures as-settled: err == nil && !trust ==> forall(i, 0, len(cert.ASNums), old(asSettled(v, cert.ASNums[i], issuerOf(v, cert))))
  invariant [$c!:*lib.RPKICertificate, $rest!:[]lib.IPCertificateInformation, $bad!:[]lib.IPCertificateInformation] len($bad) == 0 ==> forall(i, 0, len(cert.IPAddresses),
    old(ipSettled(v, cert.IPAddresses[i], issuerOf(v, cert))) || exists(j, 0, len($rest), $rest[j] == old(cert.IPAddresses[i])
    && old(ipCls(cert.IPAddresses[i], $c.IPAddresses, 0)) == 2 && old(ipSettled(v, cert.IPAddresses[i], $c)) == old(ipSettled(v, cert.IPAddresses[i], issuerOf(v, cert)))))
  invariant [$c!:*lib.RPKICertificate, $rest!:[]lib.ASNCertificateInformation, $bad!:[]lib.ASNCertificateInformation] len($bad) == 0 ==> forall(i, 0, len(cert.ASNums),
    old(asSettled(v, cert.ASNums[i], issuerOf(v, cert))) || exists(j, 0, len($rest), $rest[j] == old(cert.ASNums[i])
    && old(asCls(cert.ASNums[i], $c.ASNums, 0)) == 2 && old(asSettled(v, cert.ASNums[i], $c)) == old(asSettled(v, cert.ASNums[i], issuerOf(v, cert)))))

pure strings.Index
func pki.serialKey(aki, serial) (k)
  props C05 C02 C03
  strings
  modifies nothing
  opt axioms decimal skeyIs skeyParts
  ensures key: k == skey(string(aki), serial.String())
  ensures injective-serial: forallof(a, string, forallof(n, *big.Int, skeyN(skey(a, n.String())) == n.String()))
  ensures injective-issuer: forallof(a, string, forallof(n, *big.Int, skeyA(skey(a, n.String())) == a))
axiom decimal(n:*big.Int): strs.Index(n.String(), "/") == -1

// ---- the store ----
// every map exists, no two share storage, and what is valid is known
define storeMaps(v) = v.Objects != nil && v.ValidObjects != nil && v.CertsSerial != nil && v.Revoked != nil && v.ValidCRL != nil && v.CRL != nil
    && v.ValidROA != nil && v.ROA != nil && v.ValidManifest != nil && v.Manifest != nil && v.ObjectsPath != nil && v.TALs != nil
define storeApart(v) = v.Objects != v.ValidObjects && v.Objects != v.CertsSerial && v.Objects != v.ValidCRL && v.Objects != v.CRL && v.Objects != v.ValidROA
    && v.Objects != v.ROA && v.Objects != v.ValidManifest && v.Objects != v.Manifest && v.ValidObjects != v.CertsSerial && v.ValidObjects != v.ValidCRL
    && v.ValidObjects != v.CRL && v.ValidObjects != v.ValidROA && v.ValidObjects != v.ROA && v.ValidObjects != v.ValidManifest && v.ValidObjects != v.Manifest
    && v.CertsSerial != v.ValidCRL && v.CertsSerial != v.CRL && v.CertsSerial != v.ValidROA && v.CertsSerial != v.ROA && v.CertsSerial != v.ValidManifest
    && v.CertsSerial != v.Manifest && v.ValidCRL != v.CRL && v.ValidCRL != v.ValidROA && v.ValidCRL != v.ROA && v.ValidCRL != v.ValidManifest && v.ValidCRL != v.Manifest
    && v.CRL != v.ValidROA && v.CRL != v.ROA && v.CRL != v.ValidManifest && v.CRL != v.Manifest && v.ValidROA != v.ROA && v.ValidROA != v.ValidManifest
    && v.ValidROA != v.Manifest && v.ROA != v.ValidManifest && v.ROA != v.Manifest && v.ValidManifest != v.Manifest
define validKnown(v) = forallof(k, string, in(k, v.ValidObjects) ==> in(k, v.Objects) && v.ValidObjects[k] == v.Objects[k])
define resourcesSet(v) = forallof(k, string, in(k, v.Objects) ==> v.Objects[k] != nil && allocated(v.Objects[k]))

rec objOf(v, k:string) *pki.Resource = v.Objects[k]
define childs(v, k) = objOf(v, k).Childs
// every indexed entry is a certificate filed under its own issuer and serial
define indexOK(v) = forallof(s, string, in(s, v.CertsSerial) ==> v.CertsSerial[s] != nil && allocated(v.CertsSerial[s]) && is(v.CertsSerial[s].Resource, *lib.RPKICertificate)
    && s == keyOf(certOf(v.CertsSerial[s])))

define childsSet(v) = forallof(k, string, in(k, v.Objects) ==> allocated(v.Objects[k].Childs) && forall(j, 0, len(v.Objects[k].Childs), v.Objects[k].Childs[j] != nil && allocated(v.Objects[k].Childs[j])))

func pki.NewValidator() (v)
  props C03
  ensures maps: storeMaps(v) && storeApart(v)
  ensures empty: validKnown(v) && resourcesSet(v)
  ensures empty2: indexOK(v) && childsSet(v)

// new files that nobody trusts
define newFilesOnly(files) = forall(i, 0, len(files), files[i] != nil && fresh(files[i]) && allocated(files[i]) && !files[i].Trust)

func pki.ExtractPathCert(cert) (files)
  props C03 C09
  opt absidx yes
  modifies nothing
  ensures new: fresh(files) || len(files) == 0
  ensures [C09] untrusted: newFilesOnly(files)
  invariant [$a:[]*pki.PKIFile] newFilesOnly($a)

func (*pki.Validator).AddCert(v, cert, trust) (valid, paths, res, err)
  opt qunfold objOf
  props C03 C02
  requires maps: storeMaps(v) && storeApart(v)
  requires known: validKnown(v) && resourcesSet(v)
  requires indexed: indexOK(v) && childsSet(v)
  modifies v.Objects[*], v.ValidObjects[*], v.CertsSerial[*], v.Objects[akiOf(cert)].Childs, elems(v.Objects[akiOf(cert)].Childs), ghost verdict(cert)
  ensures maps: storeMaps(v) && storeApart(v)
  ensures known: validKnown(v) && resourcesSet(v)
  ensures index: indexOK(v)
  ensures children: childsSet(v)
  ensures paths: (fresh(paths) || len(paths) == 0) && newFilesOnly(paths)
  ensures childless: fresh(res.Childs) && len(res.Childs) == 0 && cap(res.Childs) == 0
  ensures [C03] resource: fresh(res) && certOf(res) == cert && is(res.Resource, *lib.RPKICertificate)
  ensures [C03] conflict-rejected: old(in(skiOf(cert), v.Objects)) ==> !valid && err != nil
  ensures [C03] verdict: !old(in(skiOf(cert), v.Objects)) ==> valid == (verdict(cert) == ite(trust, 3, 1)) && valid == (err == nil)
  ensures [C03] objects: forallof(k, string, (in(k, v.Objects) <==> (old(in(k, v.Objects)) || k == skiOf(cert))) && (old(in(k, v.Objects)) ==> v.Objects[k] == old(v.Objects[k])))
  ensures [C03] stored: !old(in(skiOf(cert), v.Objects)) ==> v.Objects[skiOf(cert)] == res
  ensures [C03 C02] valid-objects: forallof(k, string, (in(k, v.ValidObjects) <==> (old(in(k, v.ValidObjects)) || valid && k == skiOf(cert))) && (old(in(k, v.ValidObjects)) ==> v.ValidObjects[k] == old(v.ValidObjects[k])))
  ensures [C03 C02] valid-stored: valid ==> v.ValidObjects[skiOf(cert)] == res
  ensures [C03] parent: !old(in(skiOf(cert), v.Objects)) && old(in(akiOf(cert), v.Objects)) ==> res.Parent == old(v.Objects[akiOf(cert)])
  ensures [C03] child: valid && old(in(akiOf(cert), v.Objects)) ==> len(res.Parent.Childs) == old(len(v.Objects[akiOf(cert)].Childs)) + 1
    && res.Parent.Childs[len(res.Parent.Childs)-1] == res && forall(i, 0, len(res.Parent.Childs)-1, res.Parent.Childs[i] == old(v.Objects[akiOf(cert)].Childs[i]))
  ensures [C03] no-child: !valid && old(in(akiOf(cert), v.Objects)) ==> old(v.Objects[akiOf(cert)]).Childs == old(v.Objects[akiOf(cert)].Childs)
  ensures [C03] serials: forallof(k, string, k != keyOf(cert) || !(valid && old(in(akiOf(cert), v.Objects))) ==>
    (in(k, v.CertsSerial) <==> old(in(k, v.CertsSerial))) && v.CertsSerial[k] == old(v.CertsSerial[k]))
  ensures [C03] indexed: valid && old(in(akiOf(cert), v.Objects)) ==> in(keyOf(cert), v.CertsSerial)
    && v.CertsSerial[keyOf(cert)] == res
  ensures [C02] gate: valid ==> verdict(cert) == ite(trust, 3, 1)

// ---- invalidation ----
define hasId(r) = is(r.Resource, *lib.RPKICertificate) || is(r.Resource, *lib.RPKIROA) || is(r.Resource, *lib.RPKIManifest)
define idOf(r) = ite(is(r.Resource, *lib.RPKICertificate), string(as(r.Resource, *lib.RPKICertificate).Certificate.SubjectKeyId),
    ite(is(r.Resource, *lib.RPKIROA), string(as(r.Resource, *lib.RPKIROA).Certificate.Certificate.SubjectKeyId),
    string(as(r.Resource, *lib.RPKIManifest).Certificate.Certificate.SubjectKeyId)))
rec cHas(r:*pki.Resource) bool = hasId(r)
rec cId(r:*pki.Resource) string = idOf(r)
define notValid(v, k) = !in(k, v.ValidObjects) && !in(k, v.ValidROA) && !in(k, v.ValidCRL) && !in(k, v.ValidManifest)
define sameValid(v, k) = (in(k, v.ValidObjects) <==> old(in(k, v.ValidObjects))) && v.ValidObjects[k] == old(v.ValidObjects[k])
    && (in(k, v.ValidROA) <==> old(in(k, v.ValidROA))) && v.ValidROA[k] == old(v.ValidROA[k])
    && (in(k, v.ValidCRL) <==> old(in(k, v.ValidCRL))) && v.ValidCRL[k] == old(v.ValidCRL[k])
    && (in(k, v.ValidManifest) <==> old(in(k, v.ValidManifest))) && v.ValidManifest[k] == old(v.ValidManifest[k])
// an arbitrary set of identifiers: nothing outside it may change if it is closed under the links
fun inSet(string) bool
define setClosed(v) = forallof(k, string, inSet(k) && in(k, v.Objects) ==> forall(j, 0, len(childs(v, k)), cHas(childs(v, k)[j]) ==> inSet(cId(childs(v, k)[j]))))
define listed(l, s) = exists(i, 0, len(l), string(l[i]) == s)

func (*pki.Resource).GetIdentifier(res) (has, id)
  props C04
  modifies nothing
  ensures has: has == cHas(res)
  ensures id: has ==> string(id) == cId(res)

func (*pki.Validator).InvalidateObject(v, keyid)
  opt mapentry no
  props C04
  opt absidx yes
  requires maps: storeMaps(v) && storeApart(v)
  requires known: resourcesSet(v)
  modifies v.ValidObjects[*], v.ValidROA[*], v.ValidCRL[*], v.ValidManifest[*]
  ensures closed: existsof(m, map[string]bool, in(string(keyid), m) && forallof(k, string, in(k, m) ==> notValid(v, k))
    && forallof(k, string, in(k, m) && old(in(k, v.Objects)) ==> forall(j, 0, len(old(childs(v, k))), cHas(old(childs(v, k))[j]) ==> in(cId(old(childs(v, k))[j]), m))))
  ensures minimal: old(setClosed(v)) && inSet(string(keyid)) ==> forallof(k, string, !inSet(k) ==> sameValid(v, k))
  ensures only-removed: forallof(k, string, sameValid(v, k) || notValid(v, k))
  invariant [$m:map[string]bool, $l:[][]byte] in(string(keyid), $m) || listed($l, string(keyid))
  invariant [$m:map[string]bool] forallof(k, string, in(k, $m) ==> notValid(v, k))
  invariant [$m:map[string]bool, $l:[][]byte] forallof(k, string, in(k, $m) && old(in(k, v.Objects)) ==> forall(j, 0, len(old(childs(v, k))), cHas(old(childs(v, k))[j]) ==>
    in(cId(old(childs(v, k))[j]), $m) || listed($l, cId(old(childs(v, k))[j]))))
  invariant [$m:map[string]bool, $l:[][]byte, $s:string] forallof(k, string, in(k, $m) && old(in(k, v.Objects)) && k != $s ==> forall(j, 0, len(old(childs(v, k))), cHas(old(childs(v, k))[j]) ==>
    in(cId(old(childs(v, k))[j]), $m) || listed($l, cId(old(childs(v, k))[j]))))
  invariant [$m:map[string]bool, $l:[][]byte, $s:string, $i:int] forall(j, 0, $i, cHas(old(childs(v, $s))[j]) ==>
    in(cId(old(childs(v, $s))[j]), $m) || listed($l, cId(old(childs(v, $s))[j])))
  invariant [$l:[][]byte] old(setClosed(v)) && inSet(string(keyid)) ==> forall(i, 0, len($l), inSet(string($l[i])))
  invariant [$m:map[string]bool] old(setClosed(v)) && inSet(string(keyid)) ==> forallof(k, string, in(k, $m) ==> inSet(k))
  invariant [$s:string] old(setClosed(v)) && inSet(string(keyid)) ==> inSet($s)
  invariant [$m:map[string]bool] forallof(k, string, in(k, $m) || sameValid(v, k))
  invariant forallof(k, string, sameValid(v, k) || notValid(v, k))

// ---- revocation lists ----
package asn1 = encoding/asn1
pure (asn1.ObjectIdentifier).Equal (*big.Int).Cmp
axiom cmpString(a:*big.Int, b:*big.Int): (a.Cmp(b) == 0) == (a.String() == b.String())

// the issuer a revocation list names: the last authority key identifier extension counts
rec crlAki(crl, n:int) string = ite(n <= 0, "", ite(crl.TBSCertList.Extensions[n-1].Id.Equal(lib.AuthorityKeyIdentifier) && len(crl.TBSCertList.Extensions[n-1].Value) > 4,
    string(crl.TBSCertList.Extensions[n-1].Value[4:]), crlAki(n-1)))
define crlIssuer(crl) = crlAki(crl, len(crl.TBSCertList.Extensions))
define crlKey(crl, j) = skey(crlIssuer(crl), crl.TBSCertList.RevokedCertificates[j].SerialNumber.String())
define crlLen(crl) = len(crl.TBSCertList.RevokedCertificates)
func (*pki.Validator).AddCRL(v, crl) (valid, res, err)
  props C05
  opt absidx yes
  opt qunfold objOf cHas cId
  opt axioms cmpString
  requires maps: storeMaps(v) && storeApart(v)
  requires known: validKnown(v) && resourcesSet(v)
  requires indexed: indexOK(v) && childsSet(v)
  modifies v.ValidObjects[*], v.ValidROA[*], v.ValidCRL[*], v.ValidManifest[*], v.CRL[*], v.Revoked[*], v.Objects[crlIssuer(crl)].Childs, elems(v.Objects[crlIssuer(crl)].Childs)
  ensures maps: storeMaps(v) && storeApart(v)
  ensures known: validKnown(v) && resourcesSet(v)
  ensures index: indexOK(v)
  ensures children: childsSet(v)
  ensures new: fresh(res)
  ensures gate: valid ==> old(in(crlIssuer(crl), v.ValidObjects) && is(v.ValidObjects[crlIssuer(crl)].Resource, *lib.RPKICertificate)
    && certOf(v.ValidObjects[crlIssuer(crl)]).Certificate.CheckCRLSignature(crl) == nil)
  ensures no-effect: !valid ==> forallof(k, string, sameValid(v, k)) && forallof(s, string, in(s, v.Revoked) <==> old(in(s, v.Revoked)))
  ensures revoked: valid ==> forall(j, 0, crlLen(crl), in(crlKey(crl, j), v.Revoked))
  ensures kept: forallof(s, string, old(in(s, v.Revoked)) ==> in(s, v.Revoked))
  ensures only-listed: forallof(s, string, in(s, v.Revoked) ==> old(in(s, v.Revoked)) || exists(j, 0, crlLen(crl), s == old(crlKey(crl, j))))
  ensures invalidated: valid ==> forall(j, 0, crlLen(crl), in(crlKey(crl, j), v.CertsSerial) ==> notValid(v, skiOf(certOf(v.CertsSerial[crlKey(crl, j)]))))
  ensures minimal: valid && old(setClosed(v)) && forall(j, 0, crlLen(crl), old(in(crlKey(crl, j), v.CertsSerial)) ==> inSet(old(skiOf(certOf(v.CertsSerial[crlKey(crl, j)])))))
    ==> forallof(k, string, !inSet(k) && k != old(crlIssuer(crl)) ==> sameValid(v, k))
  invariant [$a:[]byte, $i:int] string($a) == crlAki(crl, $i)
  invariant [$i:int] forall(j, 0, $i, in(old(crlKey(crl, j)), v.Revoked))
  invariant forallof(s, string, old(in(s, v.Revoked)) ==> in(s, v.Revoked))
  invariant forallof(s, string, in(s, v.Revoked) ==> old(in(s, v.Revoked)) || exists(j, 0, crlLen(crl), s == old(crlKey(crl, j))))
  invariant [$i:int] forall(j, 0, $i, old(in(crlKey(crl, j), v.CertsSerial)) ==> notValid(v, old(skiOf(certOf(v.CertsSerial[crlKey(crl, j)])))))
  invariant old(setClosed(v)) && forall(j, 0, crlLen(crl), old(in(crlKey(crl, j), v.CertsSerial)) ==> inSet(old(skiOf(certOf(v.CertsSerial[crlKey(crl, j)])))))
    ==> forallof(k, string, !inSet(k) && k != old(crlIssuer(crl)) ==> sameValid(v, k))
  invariant forallof(k, string, (in(k, v.Objects) <==> old(in(k, v.Objects))) && objOf(v, k) == old(objOf(v, k)))
  invariant forallof(k, string, in(k, v.Objects) ==> childs(v, k) == old(childs(v, k)))
  invariant forallof(k, string, in(k, v.Objects) ==> forall(j, 0, len(childs(v, k)), cHas(childs(v, k)[j]) == old(cHas(childs(v, k)[j])) && cId(childs(v, k)[j]) == old(cId(childs(v, k)[j]))))
  invariant old(setClosed(v)) ==> setClosed(v)
  invariant validKnown(v)
