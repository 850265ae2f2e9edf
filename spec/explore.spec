// Exploration of the repositories (validator/pki/pki.go).

// ---- paths ----
define fromManifest(f) = f.Parent != nil && f.Parent.Type == pki.TYPE_MFT
rec pathOf(f:*pki.PKIFile) string = ite(fromManifest(f), ite(strs.HasSuffix(f.Parent.Repo, "/"), f.Parent.Repo + f.Path, f.Parent.Repo + "/" + f.Path), f.Path)

func (*pki.PKIFile).ComputePath(f) (p)
  props C11
  strings
  nopanic
  requires f != nil
  modifies nothing
  ensures path: p == pathOf(f)

// logging changes nothing
func (pki.Log).Debugf(l, format, args) ()
  trusted logging
func (pki.Log).Printf(l, format, args) ()
  trusted logging
func (pki.Log).Errorf(l, format, args) ()
  trusted logging
func (pki.Log).Warnf(l, format, args) ()
  trusted logging

// ---- the queue ----
define seen(sm, k) = in(k, sm.Explored) || in(k, sm.ToExploreUnique)
// a file of the list is queued if its path was not seen and no file before it in the list has the same
rec isNewFile(sm, list, k) bool = !seen(sm, pathOf(list[k])) && forall(m, 0, k, pathOf(list[m]) != pathOf(list[k]))
rec newFiles(sm, list, n) int = ite(n <= 0, 0, newFiles(n-1) + ite(isNewFile(sm, list, n-1), 1, 0))
define queueSet(sm) = sm.Explored != nil && sm.ToExploreUnique != nil && sm.Explored != sm.ToExploreUnique
define filesSet(list) = forall(i, 0, len(list), list[i] != nil && allocated(list[i]))

// everything queued was seen, nothing is queued twice
define queueOK(sm) = filesSet(sm.ToExplore) && allocated(sm.ToExplore) && forall(i, 0, len(sm.ToExplore), in(pathOf(sm.ToExplore[i]), sm.ToExploreUnique))
    && forall(i, 0, len(sm.ToExplore), forall(j, 0, i, pathOf(sm.ToExplore[i]) != pathOf(sm.ToExplore[j])))

define unlisted(sm, k) = forall(i, 0, len(sm.ToExplore), pathOf(sm.ToExplore[i]) != k)

define newlyQueued(sm, list, n, i) = exists(j, 0, n, sm.ToExplore[i] == old(list[j]) && !old(in(pathOf(list[j]), sm.ToExploreUnique)))
func (*pki.SimpleManager).PutFiles(sm, fileList)
  props C11
  opt absidx yes
  requires set: queueSet(sm) && filesSet(fileList)
  requires apart: ref(fileList) != ref(sm.ToExplore) || cap(sm.ToExplore) == 0 || len(fileList) == 0
  modifies sm.ToExplore, elems(sm.ToExplore), sm.ToExploreUnique[*]
  ensures queued: len(sm.ToExplore) == old(len(sm.ToExplore)) + old(newFiles(sm, fileList, len(fileList)))
  ensures kept: forall(i, 0, old(len(sm.ToExplore)), sm.ToExplore[i] == old(sm.ToExplore[i]))
  ensures in-order: forall(j, 0, len(fileList), 0 <= old(newFiles(sm, fileList, j)) && (old(isNewFile(sm, fileList, j)) ==>
    old(newFiles(sm, fileList, j)) < old(newFiles(sm, fileList, len(fileList))) && sm.ToExplore[old(len(sm.ToExplore)) + old(newFiles(sm, fileList, j))] == old(fileList[j])))
  ensures marked: forallof(k, string, in(k, sm.ToExploreUnique) <==> old(in(k, sm.ToExploreUnique)) || !old(in(k, sm.Explored)) && exists(j, 0, len(fileList), old(pathOf(fileList[j])) == k))
  ensures apart: (ref(sm.ToExplore) == old(ref(sm.ToExplore)) || fresh(sm.ToExplore)) && (old(allocated(sm.ToExplore)) ==> allocated(sm.ToExplore)) && len(sm.ToExplore) >= old(len(sm.ToExplore))
  ensures new: forall(i, old(len(sm.ToExplore)), len(sm.ToExplore), newlyQueued(sm, fileList, len(fileList), i))
  ensures distinct: old(queueOK(sm)) ==> queueOK(sm)
  invariant (old(allocated(sm.ToExplore)) ==> allocated(sm.ToExplore))
  invariant [$i:int] forall(i, old(len(sm.ToExplore)), len(sm.ToExplore), newlyQueued(sm, fileList, $i, i))
  invariant old(queueOK(sm)) ==> queueOK(sm)
  invariant [$i:int] len(sm.ToExplore) == old(len(sm.ToExplore)) + old(newFiles(sm, fileList, $i))
  invariant forall(i, 0, old(len(sm.ToExplore)), sm.ToExplore[i] == old(sm.ToExplore[i]))
  invariant [$i:int] forall(j, 0, $i, 0 <= old(newFiles(sm, fileList, j)) && (old(isNewFile(sm, fileList, j)) ==>
    old(newFiles(sm, fileList, j)) < old(newFiles(sm, fileList, $i)) && sm.ToExplore[old(len(sm.ToExplore)) + old(newFiles(sm, fileList, j))] == old(fileList[j])))
  invariant [$i:int] forallof(k, string, in(k, sm.ToExploreUnique) <==> old(in(k, sm.ToExploreUnique)) || !old(in(k, sm.Explored)) && exists(j, 0, $i, old(pathOf(fileList[j])) == k))
  invariant ref(sm.ToExplore) == old(ref(sm.ToExplore)) && cap(sm.ToExplore) == old(cap(sm.ToExplore)) || fresh(sm.ToExplore)
  invariant len(sm.ToExplore) >= old(len(sm.ToExplore))
  invariant forall(j, 0, len(fileList), fileList[j] == old(fileList[j]))

func (*pki.SimpleManager).HasMore(sm) (more)
  props C11
  modifies nothing
  ensures more: more == (len(sm.ToExplore) > 0)

func (*pki.SimpleManager).GetNextExplore(sm) (file, more, err)
  props C11
  opt absidx yes
  opt qunfold pathOf
  modifies sm.ToExplore
  ensures end: (err != nil) == (old(len(sm.ToExplore)) == 0)
  ensures first: err == nil ==> file == old(sm.ToExplore[0]) && len(sm.ToExplore) == old(len(sm.ToExplore)) - 1
  ensures rest: err == nil ==> forall(i, 0, len(sm.ToExplore), sm.ToExplore[i] == old(sm.ToExplore[i+1]))
  ensures same: ref(sm.ToExplore) == old(ref(sm.ToExplore))
  ensures unlisted: forallof(k, string, old(unlisted(sm, k)) ==> unlisted(sm, k))
  ensures taken: err == nil && old(queueOK(sm)) ==> unlisted(sm, pathOf(file))
  ensures empty: err != nil ==> sm.ToExplore == old(sm.ToExplore)
  ensures more: more == (len(sm.ToExplore) > 0)

// ---- fetching ----
// how often the fetcher was asked for a file; whether nothing usable came back; whether it came from a manifest outside its window
ghostheap asked int
ghostheap bad bool
ghostheap late bool
ghostheap invalidated bool
pure time.Now
noeffect runtime.Callers

func (pki.FileSeeker).GetFile(fs, file) (data, err)
  trusted a fetcher reads files and does not touch the manager or its validator
  sets asked(file) = old(asked(file)) + 1
  determined data != nil ==> allocated(data)

define hashed(sm, file, data) = sm.StrictHash && data.Sha256 != nil && file.ManifestHash != nil
define manifestOf(sm, file) = as(sm.ResourceOfPath[file.Parent].Resource, *lib.RPKIManifest)
define inManifest(sm, file) = fromManifest(file) && in(file.Parent, sm.ResourceOfPath) && sm.ResourceOfPath[file.Parent] != nil && is(sm.ResourceOfPath[file.Parent].Resource, *lib.RPKIManifest)
define outside(mft) = time.Now().After(mft.Content.NextUpdate) || time.Now().Before(mft.Content.ThisUpdate)

func (*pki.SimpleManager).GetNextFile(sm, curExplore) (data, err)
  props C11 C10
  requires curExplore != nil
  modifies ghost asked(curExplore), ghost bad(curExplore), ghost late(curExplore)
  sets bad(curExplore) = old(bad(curExplore)) || err != nil || data == nil || hashed(sm, curExplore, data) && string(data.Sha256) != string(curExplore.ManifestHash)
  sets late(curExplore) = old(late(curExplore)) || err == nil && data != nil && hashed(sm, curExplore, data) && inManifest(sm, curExplore) && outside(manifestOf(sm, curExplore))
  ensures [C11] refused: in(pathOf(curExplore), sm.Explored) ==> err != nil && data == nil && asked(curExplore) == old(asked(curExplore))
  ensures [C11] asked: !in(pathOf(curExplore), sm.Explored) && sm.FileSeeker != nil ==> asked(curExplore) == old(asked(curExplore)) + 1
  ensures [C11] at-most-once: asked(curExplore) <= old(asked(curExplore)) + 1
  ensures [C11 C10] data: data != nil ==> allocated(data)

define issuedBy(f) = fromManifest(f) && f.Parent.Parent != nil && f.Parent.Parent.Type == pki.TYPE_CER
define issuer(sm, f) = sm.ResourceOfPath[f.Parent.Parent]
define hasIssuerCert(sm, f) = issuedBy(f) && in(f.Parent.Parent, sm.ResourceOfPath) && issuer(sm, f) != nil && is(issuer(sm, f).Resource, *lib.RPKICertificate)

func (*pki.SimpleManager).InvalidateManifestParent(sm, file, mftError)
  props C10
  requires maps: sm.Validator != nil && storeMaps(sm.Validator) && storeApart(sm.Validator)
  requires known: resourcesSet(sm.Validator)
  modifies sm.Validator.ValidObjects[*], sm.Validator.ValidROA[*], sm.Validator.ValidCRL[*], sm.Validator.ValidManifest[*], ghost invalidated(file),
    any(pki.CertificateError.File), any(pki.CertificateError.SeekFile), any(pki.FileError.File), any(pki.FileError.SeekFile), any(pki.ResourceError.File), any(pki.ResourceError.SeekFile)
  sets invalidated(file) = true
  ensures invalidated: file != nil && hasIssuerCert(sm, file) ==> notValid(sm.Validator, skiOf(certOf(issuer(sm, file))))
  ensures only-removed: forallof(k, string, sameValid(sm.Validator, k) || notValid(sm.Validator, k))

// reporting an error notes the file in the error and sends it on
func (*pki.SimpleManager).reportErrorFile(sm, err, file, seek)
  props C10 C11
  modifies any(pki.CertificateError.File), any(pki.CertificateError.SeekFile), any(pki.FileError.File), any(pki.FileError.SeekFile), any(pki.ResourceError.File), any(pki.ResourceError.SeekFile)

func (*pki.SimpleManager).InvalidateCRLParent(sm, file, crlError)
  props C10 C11
  requires maps: sm.Validator != nil && storeMaps(sm.Validator) && storeApart(sm.Validator)
  requires known: resourcesSet(sm.Validator)
  modifies sm.Validator.ValidObjects[*], sm.Validator.ValidROA[*], sm.Validator.ValidCRL[*], sm.Validator.ValidManifest[*],
    any(pki.CertificateError.File), any(pki.CertificateError.SeekFile), any(pki.FileError.File), any(pki.FileError.SeekFile), any(pki.ResourceError.File), any(pki.ResourceError.SeekFile)
  ensures only-removed: forallof(k, string, sameValid(sm.Validator, k) || notValid(sm.Validator, k))

define managerOK(sm) = sm != nil && queueSet(sm) && sm.Validator != nil && storeMaps(sm.Validator) && storeApart(sm.Validator) && talsApart(sm.Validator)
    && sm.Explored != sm.Validator.Revoked && sm.ToExploreUnique != sm.Validator.Revoked
define storeKnown(v) = validKnown(v) && resourcesSet(v) && talsSet(v)
define storeIndexed(v) = indexOK(v) && childsSet(v)

func (*pki.SimpleManager).ExploreAdd(sm, file, data, addInvalidChilds)
  props C10 C11
  opt slim yes
  opt absidx yes
  opt qunfold pathOf
  requires file: file != nil && allocated(file) && data != nil && allocated(data)
  requires matches: hashed(sm, file, data) ==> string(data.Sha256) == string(file.ManifestHash)
  requires maps: managerOK(sm) && sm.PathOfResource != nil && sm.ResourceOfPath != nil
  requires known: storeKnown(sm.Validator)
  requires indexed: storeIndexed(sm.Validator)
  requires queue: queueOK(sm)
  modifies sm.Explored[*], sm.ToExplore, elems(sm.ToExplore), sm.ToExploreUnique[*], sm.PathOfResource[*], sm.ResourceOfPath[*],
    sm.Validator.TALs[*], sm.Validator.ObjectsPath[*], sm.Validator.Objects[*], sm.Validator.ValidObjects[*], sm.Validator.CertsSerial[*], sm.Validator.Revoked[*], sm.Validator.ValidCRL[*],
    sm.Validator.CRL[*], sm.Validator.ValidROA[*], sm.Validator.ROA[*], sm.Validator.ValidManifest[*], sm.Validator.Manifest[*],
    any(pki.Resource.Childs), any(pki.Resource.CertTALValid), anyelems(*pki.Resource), ghost verdict,
    any(pki.CertificateError.File), any(pki.CertificateError.SeekFile), any(pki.FileError.File), any(pki.FileError.SeekFile), any(pki.ResourceError.File), any(pki.ResourceError.SeekFile)
  ensures maps: managerOK(sm)
  ensures known: storeKnown(sm.Validator)
  ensures indexed: storeIndexed(sm.Validator)
  ensures [C11] explored: forallof(k, string, in(k, sm.Explored) <==> old(in(k, sm.Explored)) || k == old(pathOf(file)))
  ensures [C11] queue: queueOK(sm)
  ensures [C11] kept: len(sm.ToExplore) >= old(len(sm.ToExplore)) && forall(i, 0, old(len(sm.ToExplore)), sm.ToExplore[i] == old(sm.ToExplore[i]))
  ensures [C11] new: forall(i, old(len(sm.ToExplore)), len(sm.ToExplore), fresh(sm.ToExplore[i]) && forallof(k, string, old(in(k, sm.ToExploreUnique)) ==> pathOf(sm.ToExplore[i]) != k))
  ensures [C11] seen: forallof(k, string, old(in(k, sm.ToExploreUnique)) ==> in(k, sm.ToExploreUnique))
  ensures [C11] apart: ref(sm.ToExplore) == old(ref(sm.ToExplore)) || fresh(sm.ToExplore)
  ensures [C11] unlisted: forallof(k, string, old(in(k, sm.ToExploreUnique)) && old(unlisted(sm, k)) ==> unlisted(sm, k))
  ensures [C11] kept-paths: forall(i, 0, old(len(sm.ToExplore)), pathOf(sm.ToExplore[i]) == old(pathOf(sm.ToExplore[i])))

// reading whole repositories without manifests is outside: Explore must not get there unless told to
func (pki.FileSeeker).GetRepository(fs, file, callback) (err)
  trusted excluded by its precondition
  requires excluded: false

define askedNow(f) = asked(f) > old(asked(f))
func (*pki.SimpleManager).Explore(sm, notMFT, addInvalidChilds) (count)
  props C10 C11
  opt slim yes
  opt absidx yes
  opt qunfold pathOf
  requires whole: !notMFT
  requires maps: managerOK(sm) && sm.PathOfResource != nil && sm.ResourceOfPath != nil
  requires known: storeKnown(sm.Validator)
  requires indexed: storeIndexed(sm.Validator)
  requires queue: queueOK(sm)
  requires settled: forallof(f, *pki.PKIFile, (bad(f) || late(f)) && sm.StrictManifests ==> invalidated(f))
  modifies sm.Explored[*], sm.ToExplore, anyelems(*pki.PKIFile), sm.ToExploreUnique[*], sm.PathOfResource[*], sm.ResourceOfPath[*],
    sm.Validator.TALs[*], sm.Validator.ObjectsPath[*], sm.Validator.Objects[*], sm.Validator.ValidObjects[*], sm.Validator.CertsSerial[*], sm.Validator.Revoked[*], sm.Validator.ValidCRL[*],
    sm.Validator.CRL[*], sm.Validator.ValidROA[*], sm.Validator.ROA[*], sm.Validator.ValidManifest[*], sm.Validator.Manifest[*],
    any(pki.Resource.Childs), any(pki.Resource.CertTALValid), anyelems(*pki.Resource), ghost verdict, ghost asked, ghost bad, ghost late, ghost invalidated,
    any(pki.CertificateError.File), any(pki.CertificateError.SeekFile), any(pki.FileError.File), any(pki.FileError.SeekFile), any(pki.ResourceError.File), any(pki.ResourceError.SeekFile)
  ensures [C10] manifest: forallof(f, *pki.PKIFile, bad(f) && sm.StrictManifests ==> invalidated(f))
  ensures [C10] window: forallof(f, *pki.PKIFile, late(f) && sm.StrictManifests ==> invalidated(f))
  ensures [C11] drained: !(len(sm.ToExplore) > 0)
  ensures [C11] once: forallof(f, *pki.PKIFile, asked(f) <= old(asked(f)) + 1)
  ensures [C11] once-per-path: forallof(f, *pki.PKIFile, forallof(g, *pki.PKIFile, askedNow(f) && askedNow(g) && f != g ==> pathOf(f) != pathOf(g)))
  invariant managerOK(sm) && queueOK(sm)
  invariant storeKnown(sm.Validator)
  invariant storeIndexed(sm.Validator)
  invariant forallof(f, *pki.PKIFile, (bad(f) || late(f)) && sm.StrictManifests ==> invalidated(f))
  invariant forallof(f, *pki.PKIFile, asked(f) <= old(asked(f)) + 1)
  invariant forallof(f, *pki.PKIFile, askedNow(f) ==> f != nil && allocated(f))
  invariant forallof(f, *pki.PKIFile, askedNow(f) ==> in(pathOf(f), sm.ToExploreUnique))
  invariant forallof(f, *pki.PKIFile, askedNow(f) ==> unlisted(sm, pathOf(f)))
  invariant forallof(f, *pki.PKIFile, forallof(g, *pki.PKIFile, askedNow(f) && askedNow(g) && f != g ==> pathOf(f) != pathOf(g)))
  invariant [$h:bool] $h == (len(sm.ToExplore) > 0)
