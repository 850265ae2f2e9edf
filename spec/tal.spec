// Trust anchor locators (validator/lib/tal.go) and the acceptance of a fetched file (validator/pki/pki.go).
package rsa = crypto/rsa
noeffect crypto/sha1.Sum

// the key of a locator, held by pointer (decoded) or by value (created)
define isRSA(k) = is(k, *rsa.PublicKey) || is(k, rsa.PublicKey)
define keyN(k) = ite(is(k, *rsa.PublicKey), as(k, *rsa.PublicKey).N, as(k, rsa.PublicKey).N)
define keyE(k) = ite(is(k, *rsa.PublicKey), as(k, *rsa.PublicKey).E, as(k, rsa.PublicKey).E)
define sameKey(a, b) = isRSA(a) && isRSA(b) && keyN(a).Cmp(keyN(b)) == 0 && keyE(a) == keyE(b)

func (*lib.RPKITAL).CheckCertificate(tal, cert) (r)
  props C09
  modifies nothing
  ensures same-key: r == (tal.Algorithm == x509.RSA && cert.PublicKeyAlgorithm == x509.RSA && sameKey(tal.PublicKey, cert.PublicKey))

define talOf(res) = as(res.Resource, *lib.RPKITAL)
define talsSet(v) = v.TALs != v.ObjectsPath && forallof(k, string, in(k, v.TALs) ==> v.TALs[k] != nil && allocated(v.TALs[k]) && is(v.TALs[k].Resource, *lib.RPKITAL))
define talsApart(v) = v.TALs != v.Objects && v.TALs != v.ValidObjects && v.TALs != v.CertsSerial && v.TALs != v.ValidCRL && v.TALs != v.CRL && v.TALs != v.ValidROA && v.TALs != v.ROA && v.TALs != v.ValidManifest && v.TALs != v.Manifest
    && v.ObjectsPath != v.Objects && v.ObjectsPath != v.ValidObjects && v.ObjectsPath != v.CertsSerial && v.ObjectsPath != v.ValidCRL && v.ObjectsPath != v.CRL && v.ObjectsPath != v.ValidROA && v.ObjectsPath != v.ROA && v.ObjectsPath != v.ValidManifest && v.ObjectsPath != v.Manifest

func (*pki.Validator).AddTAL(v, tal) (files, res, err)
  props C09
  requires storeMaps(v) && storeApart(v) && talsSet(v) && talsApart(v)
  modifies v.TALs[*]
  ensures no-error: err == nil && fresh(res) && res.Resource == tal && is(res.Resource, *lib.RPKITAL)
  ensures one-file: fresh(files) && len(files) == 1 && fresh(files[0]) && files[0] != nil && allocated(files[0])
  ensures trusted: files[0].Trust && files[0].Type == pki.TYPE_CER && files[0].ManifestHash == nil
  ensures bound: in(files[0].Path, v.TALs) && v.TALs[files[0].Path] == res
  ensures others: forallof(k, string, k != files[0].Path ==> (in(k, v.TALs) <==> old(in(k, v.TALs))) && v.TALs[k] == old(v.TALs[k]))
  ensures tals: talsSet(v)

func lib.DecodeTAL(data) (tal, err)
  trusted decoder: reads its input
  determined err == nil ==> tal != nil && fresh(tal)
func lib.DecodeCertificate(data) (cert, err)
  trusted decoder: reads its input
  determined err == nil ==> cert != nil && fresh(cert) && cert.Certificate != nil && fresh(cert.Certificate)
func (*lib.DecoderConfig).DecodeROA(cfg, data) (roa, err)
  trusted decoder: reads its input
  determined err == nil ==> roa != nil && fresh(roa)
func (*lib.DecoderConfig).DecodeManifest(cfg, data) (mft, err)
  trusted decoder: reads its input
  determined err == nil ==> mft != nil && fresh(mft)

define storeOK(v) = v != nil && storeMaps(v) && storeApart(v) && talsApart(v) && validKnown(v) && resourcesSet(v) && indexOK(v) && childsSet(v) && talsSet(v)
define underTAL(v, f) = f.Type == pki.TYPE_CER && f.Parent != nil && f.Parent.Type == pki.TYPE_TAL && in(f.Path, v.TALs)
define pinned(v, f, cert) = talOf(v.TALs[f.Path]).Algorithm == x509.RSA && cert.Certificate.PublicKeyAlgorithm == x509.RSA && sameKey(talOf(v.TALs[f.Path]).PublicKey, cert.Certificate.PublicKey)
define storeSame(v) = mapSame(v.TALs) && mapSame(v.ObjectsPath) && mapSame(v.Objects) && mapSame(v.ValidObjects) && mapSame(v.CertsSerial) && mapSame(v.ValidCRL) && mapSame(v.CRL)
    && mapSame(v.ValidROA) && mapSame(v.ROA) && mapSame(v.ValidManifest) && mapSame(v.Manifest)

func (*pki.Validator).AddResource(v, pkifile, data) (valid, files, res, err)
  props C09 C10
  opt slim yes
  opt absidx yes
  requires file: pkifile != nil && allocated(pkifile)
  requires maps: v != nil && storeMaps(v) && storeApart(v) && talsApart(v)
  requires known: validKnown(v) && resourcesSet(v) && talsSet(v)
  requires indexed: indexOK(v) && childsSet(v)
  modifies v.TALs[*], v.ObjectsPath[*], v.Objects[*], v.ValidObjects[*], v.CertsSerial[*], v.Revoked[*], v.ValidCRL[*], v.CRL[*], v.ValidROA[*], v.ROA[*], v.ValidManifest[*], v.Manifest[*],
    any(pki.Resource.Childs), any(pki.Resource.CertTALValid), anyelems(*pki.Resource), ghost verdict
  ensures [C09 C10] maps: storeMaps(v) && storeApart(v) && talsApart(v)
  ensures [C09 C10] known: validKnown(v) && resourcesSet(v)
  ensures [C09 C10] tals: talsSet(v)
  ensures [C09 C10] index: indexOK(v)
  ensures [C09 C10] children: childsSet(v)
  ensures [C09 C10] files: (fresh(files) || len(files) == 0) && forall(i, 0, len(files), files[i] != nil && fresh(files[i]) && allocated(files[i]) && files[i].Parent == pkifile)
  ensures [C09] pinned: underTAL(v, pkifile) && res != nil ==> pinned(v, pkifile, certOf(res))
  ensures [C09] refused: pkifile.Type == pki.TYPE_CER && res == nil ==> !valid && storeSame(v)
  ensures [C09] trust: pkifile.Type == pki.TYPE_CER && valid ==> verdict(certOf(res)) == ite(pkifile.Trust, 3, 1)
  ensures [C09] only-locators: pkifile.Type != pki.TYPE_TAL ==> forall(i, 0, len(files), !files[i].Trust)
  invariant [$i:int, $a:[]*pki.PKIFile] forall(j, 0, $i, $a[j].Parent == pkifile)
