// RRDP updates (sync/lib/rrdp.go).
package sentry = github.com/getsentry/sentry-go
// ---- what happened so far: the files asked for, what was handed over of the last file parsed ----
ghost nfetch int
ghostheap fURL string
ghostheap fData string
ghostheap fFailed bool
ghost parsed string
ghost toPub int
ghost toWd int
ghost donePub int
ghost doneWd int
ghost handFailed bool

// what a notification and a snapshot or delta file say
fun rSession(string) string
fun rSerial(string) int64
fun rSnapshot(string) string
fun nDeltas(string) int
fun dSerial(string, int) int64
fun dURI(string, int) string
fun nPub(string) int
fun pubURI(string, int) string
fun pubValue(string, int) string
fun nWd(string) int
fun wdURI(string, int) string
fun wdValue(string, int) string
fun base64Of(string) string
// the last of the first k deltas listed with serial n
rec deltaOf(D, n, k) int = ite(k <= 0, -1, ite(dSerial(D, k-1) == n, k-1, deltaOf(k-1)))
define listedDelta(D, n) = deltaOf(D, n, nDeltas(D)) >= 0
define complete() = donePub == toPub && doneWd == toWd && !handFailed

noeffect (*sentry.Hub).ConfigureScope (*sentry.Hub).Clone sentry.CurrentHub (*sentry.Hub).AddBreadcrumb (*sentry.Hub).CaptureException (*sentry.Hub).CaptureMessage
noeffect (syncpki.Logger).Infof (syncpki.Logger).Info (syncpki.Logger).Debugf (syncpki.Logger).Debug (syncpki.Logger).Errorf (syncpki.Logger).Error

func syncpki.ParseRoot(data) (root, err)
  trusted decoder: the notification is a function of the bytes
  sets parsed = data
  sets toPub = 0
  sets toWd = 0
  sets donePub = 0
  sets doneWd = 0
  determined err == nil ==> root.RootNode.SessionID == rSession(data) && root.RootNode.Serial == rSerial(data) && root.Snapshot.URI == rSnapshot(data) && len(root.Deltas) == nDeltas(data)
    && forall(i, 0, len(root.Deltas), root.Deltas[i].Serial == dSerial(data, i) && root.Deltas[i].URI == dURI(data, i))

func syncpki.ParseNode(data) (publish, withdraw, err)
  trusted decoder: the elements are a function of the bytes
  sets parsed = data
  sets toPub = nPub(data)
  sets toWd = nWd(data)
  sets donePub = 0
  sets doneWd = 0
  determined err == nil ==> len(publish) == nPub(data) && forall(i, 0, len(publish), publish[i].URI == pubURI(data, i) && publish[i].Value == pubValue(data, i))
  determined err == nil ==> len(withdraw) == nWd(data) && forall(i, 0, len(withdraw), withdraw[i].URI == wdURI(data, i) && withdraw[i].Value == wdValue(data, i))

func syncpki.DecodeRRDPBase64(value) (data, err)
  trusted decoder: the bytes are a function of the text
  determined err == nil ==> string(data) == base64Of(value)

func (syncpki.RRDPFetcher).GetXML(f, url) (data, err)
  trusted a fetcher does not touch the state of the update
  requires previous-file-handed-over: complete()
  sets fURL(old(nfetch)) = url
  sets fData(old(nfetch)) = data
  sets fFailed(old(nfetch)) = err != nil
  sets nfetch = old(nfetch) + 1

func (syncpki.RRDPFile).call(fn, main, url, path, data, withdraw, snapshot, curId, args) (err)
  trusted the receiver of the elements does not touch the state of the update
  requires from-the-last-file: nfetch > 0 && parsed == fData(nfetch-1) && !handFailed
  requires published: !withdraw ==> donePub < toPub && path == pubURI(parsed, donePub) && string(data) == base64Of(pubValue(parsed, donePub))
  requires withdrawn: withdraw ==> doneWd < toWd && path == wdURI(parsed, doneWd)
  sets donePub = ite(withdraw, old(donePub), old(donePub) + 1)
  sets doneWd = ite(withdraw, old(doneWd) + 1, old(doneWd))
  sets handFailed = old(handFailed) || err != nil

define rootOf() = fData(old(nfetch))
define uriOf(D, n) = dURI(D, deltaOf(D, n, nDeltas(D)))
define tookSnapshot(s) = nfetch == old(nfetch) + 2 && fURL(old(nfetch) + 1) == rSnapshot(rootOf()) && s.Serial == rSerial(rootOf())
define tookDeltas(s) = old(s.Serial) != 0 && old(s.SessionID) == rSession(rootOf())
    && forall(n, old(s.Serial), rSerial(rootOf()) + 1, listedDelta(rootOf(), n))
    && nfetch == old(nfetch) + 1 + ite(rSerial(rootOf()) > old(s.Serial), rSerial(rootOf()) - old(s.Serial), 0)
    && forall(n, old(s.Serial) + 1, rSerial(rootOf()) + 1, fURL(old(nfetch) + (n - old(s.Serial))) == uriOf(rootOf(), n))
    && s.Serial == ite(rSerial(rootOf()) > old(s.Serial), rSerial(rootOf()), old(s.Serial))
func (*syncpki.RRDPSystem).FetchRRDP(s, cbArgs) (err)
  props C15
  requires s != nil && s.Callback != nil && s.Fetcher != nil
  requires start: complete() && nfetch >= 0
  opt qunfold deltaOf
  modifies s.Serial, s.SessionID, s.fetches, ghost nfetch, ghost fURL, ghost fData, ghost fFailed, ghost parsed, ghost toPub, ghost toWd, ghost donePub, ghost doneWd, ghost handFailed
  ensures failed: err != nil ==> s.Serial == old(s.Serial) && s.SessionID == old(s.SessionID)
  ensures notification: err == nil ==> nfetch > old(nfetch) && fURL(old(nfetch)) == s.Path && forall(j, old(nfetch), nfetch, !fFailed(j))
  ensures session: err == nil ==> s.SessionID == rSession(fData(old(nfetch)))
  ensures handed-over: err == nil ==> complete() && parsed == fData(nfetch-1)
  ensures snapshot-or-deltas: err == nil ==> tookSnapshot(s) || tookDeltas(s)
  invariant [$l:[]string] fresh($l)
  invariant fresh(s.fetches)
  invariant !handFailed
  invariant nfetch > old(nfetch) && parsed == fData(nfetch-1)
  invariant complete()
  invariant forall(j, old(nfetch), nfetch, !fFailed(j))
  invariant fURL(old(nfetch)) == s.Path
  invariant [$d:string] $d == fData(old(nfetch))
  invariant [$i:int] donePub == $i + 1 && donePub <= toPub && doneWd == 0
  invariant [$i:int] donePub == toPub && doneWd == $i + 1 && doneWd <= toWd
  invariant [$k:int64] nfetch == old(nfetch) + ($k - old(s.Serial))
  invariant [$k:int64, $t:int64] $t == $k - 1
  invariant [$k:int64] old(s.Serial) < $k && ($k <= rSerial(rootOf()) + 1 || $k == old(s.Serial) + 1)
  invariant [$k:int64] forall(n, old(s.Serial) + 1, $k, fURL(old(nfetch) + (n - old(s.Serial))) == uriOf(rootOf(), n))
  invariant [$m:map[int64]syncpki.ElNode, $i:int] forallof(q, int64, in(q, $m) ==> deltaOf(rootOf(), q, $i + 1) >= 0)
  invariant [$m:map[int64]syncpki.ElNode, $i:int] forallof(q, int64, deltaOf(rootOf(), q, $i + 1) >= 0 ==> in(q, $m))
  invariant [$m:map[int64]syncpki.ElNode, $i:int] forallof(q, int64, in(q, $m) ==> $m[q].URI == dURI(rootOf(), deltaOf(rootOf(), q, $i + 1)))
  invariant [$k:int64] forall(q, old(s.Serial), $k, deltaOf(rootOf(), q, nDeltas(rootOf())) >= 0)
