// Manifests: the listed files and the store's acceptance (validator/pki/pki.go).
pure strings.Contains
define stepsUp(s) = strs.Contains(s, "../") || strs.Contains(s, "..\\")
define ext(p, s) = len(p) > 4 && p[len(p)-4:] == s
rec typeOf(p:string) int = ite(ext(p, ".cer"), pki.TYPE_CER, ite(ext(p, ".mft"), pki.TYPE_MFT, ite(ext(p, ".crl"), pki.TYPE_CRL, ite(ext(p, ".roa"), pki.TYPE_ROA, pki.TYPE_UNKNOWN))))

func pki.DetermineType(path) (t)
  props C07
  strings
  nopanic
  modifies nothing
  ensures type: t == typeOf(path)

define listName(mft, i) = mft.Content.FileList[i].Name
define fileOf(f, mft, i) = f != nil && f.Path == listName(mft, i) && f.Type == typeOf(listName(mft, i)) && f.ManifestHash == mft.Content.FileList[i].Hash.Bytes && !f.Trust && f.Repo == ""

func pki.ExtractPathManifest(mft) (files, err)
  props C07
  opt absidx yes
  modifies nothing
  ensures refused: (err != nil) == exists(i, 0, len(mft.Content.FileList), stepsUp(listName(mft, i)))
  ensures none: err != nil ==> files == nil
  ensures listed: err == nil ==> len(files) == len(mft.Content.FileList) && forall(i, 0, len(files), fileOf(files[i], mft, i))
  ensures new: err == nil ==> (fresh(files) || len(files) == 0) && newFilesOnly(files)
  invariant [$i:int] forall(j, 0, $i, !stepsUp(listName(mft, j)))
  invariant [$i:int, $a:[]*pki.PKIFile] len($a) == $i && forall(j, 0, $i, allocated($a[j]) && fresh($a[j]) && fileOf($a[j], mft, j))

func (*pki.Validator).AddManifest(v, pkifile, mft) (valid, paths, res, err)
  props C07
  opt qunfold objOf
  requires maps: storeMaps(v) && storeApart(v)
  requires known: validKnown(v) && resourcesSet(v)
  requires indexed: indexOK(v) && childsSet(v)
  modifies v.Objects[*], v.ValidObjects[*], v.CertsSerial[*], v.ValidManifest[*], v.Manifest[*], v.Objects[akiOf(mft.Certificate)].Childs, elems(v.Objects[akiOf(mft.Certificate)].Childs), ghost verdict(mft.Certificate)
  ensures maps: storeMaps(v) && storeApart(v)
  ensures known: validKnown(v) && resourcesSet(v)
  ensures index: indexOK(v)
  ensures children: childsSet(v)
  ensures gate: valid ==> verdict(mft.Certificate) == 1 && mft.InnerValid
  ensures new-certificate: valid ==> !old(in(skiOf(mft.Certificate), v.Objects))
  ensures refused: exists(i, 0, len(mft.Content.FileList), stepsUp(listName(mft, i))) ==> !valid && err != nil && len(paths) == 0 && res == nil
    && mapSame(v.Objects) && mapSame(v.ValidObjects) && mapSame(v.CertsSerial) && mapSame(v.ValidManifest) && mapSame(v.Manifest)
  ensures new: (fresh(paths) || len(paths) == 0) && newFilesOnly(paths) && (res != nil ==> fresh(res))
  ensures files: !exists(i, 0, len(mft.Content.FileList), stepsUp(listName(mft, i))) ==> len(paths) == len(mft.Content.FileList)
    && forall(i, 0, len(paths), fileOf(paths[i], mft, i))
  ensures only: forallof(k, string, (in(k, v.ValidManifest) <==> (old(in(k, v.ValidManifest)) || valid && k == skiOf(mft.Certificate)))
    && (k != skiOf(mft.Certificate) || !valid ==> v.ValidManifest[k] == old(v.ValidManifest[k])))
  ensures stored: valid ==> v.ValidManifest[skiOf(mft.Certificate)] == res && res.Resource == mft
  ensures reported: !valid ==> err != nil
