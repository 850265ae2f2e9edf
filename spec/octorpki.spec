// The published list, repository bookkeeping and serving gate (cmd/octorpki).
package main = github.com/cloudflare/cfrpki/cmd/octorpki
package prefixfile = github.com/cloudflare/gortr/prefixfile
package logrus = github.com/sirupsen/logrus
package net = net

// ---- filters ----
// the text of a payload and its parsed prefix depend on its fields alone
fun payText(string, uint8, any) string
fun payParses(string) bool
fun payLen(string) int
fun payV4(string) bool
define keyOfPay(r) = payText(r.Prefix, r.Length, r.ASN)

func (*prefixfile.ROAJson).String(roa) (s)
  trusted formatting of the payload's fields
  determined s == payText(roa.Prefix, roa.Length, roa.ASN)

func (*prefixfile.ROAJson).GetPrefix(roa) (p)
  trusted net.ParseCIDR of the payload's prefix
  determined (p != nil) == payParses(roa.Prefix)
  determined p != nil ==> res0(p.Mask.Size()) == payLen(roa.Prefix) && (p.IP.To4() != nil) == payV4(roa.Prefix)

// a payload is new if none before it has the same text
rec payKey(list, k) string = keyOfPay(list[k])
rec isNew(list, k) bool = forall(m, 0, k, payKey(list, m) != payKey(list, k))
rec newCnt(list, n) int = ite(n <= 0, 0, newCnt(n-1) + ite(isNew(list, n-1), 1, 0))
define newLands(list, out, n) = forall(j, 0, n, 0 <= old(newCnt(list, j)) && (old(isNew(list, j)) ==> old(newCnt(list, j)) < len(out) && out[old(newCnt(list, j))] == old(list[j])))

func main.FilterDuplicates(roalist) (r)
  props C18
  nopanic
  modifies nothing
  ensures count: len(r) == old(newCnt(roalist, len(roalist)))
  ensures kept-in-order: newLands(roalist, r, len(roalist))
  invariant [$i:int, $a:[]prefixfile.ROAJson] len($a) == old(newCnt(roalist, $i))
  invariant [$i:int, $a:[]prefixfile.ROAJson] newLands(roalist, $a, $i)
  invariant [$i:int, $m:map[string]struct{}] forallof(k, string, in(k, $m) <==> exists(j, 0, $i, old(payKey(roalist, j)) == k))

func main.filterDuplicates(roalist) (r)
  props C18
  nopanic
  modifies nothing
  ensures count: len(r) == old(newCnt(roalist, len(roalist)))
  ensures kept-in-order: newLands(roalist, r, len(roalist))
  invariant [$i:int, $a:[]prefixfile.ROAJson] len($a) == old(newCnt(roalist, $i))
  invariant [$i:int, $a:[]prefixfile.ROAJson] newLands(roalist, $a, $i)
  invariant [$i:int, $m:map[string]bool] forallof(k, string, in(k, $m) <==> exists(j, 0, $i, old(payKey(roalist, j)) == k))

rec routable(list, k) bool = payParses(list[k].Prefix) && payLen(list[k].Prefix) <= ite(payV4(list[k].Prefix), 24, 48)
rec routCnt(list, n) int = ite(n <= 0, 0, routCnt(n-1) + ite(routable(list, n-1), 1, 0))
define routLands(list, out, n) = forall(j, 0, n, 0 <= old(routCnt(list, j)) && (old(routable(list, j)) ==> old(routCnt(list, j)) < len(out) && out[old(routCnt(list, j))] == old(list[j])))

func main.FilterInvalidPrefixLen(roalist) (r)
  props C18
  nopanic
  modifies nothing
  ensures count: len(r) == old(routCnt(roalist, len(roalist)))
  ensures kept-in-order: routLands(roalist, r, len(roalist))
  invariant [$i:int, $a:[]prefixfile.ROAJson] len($a) == old(routCnt(roalist, $i))
  invariant [$i:int, $a:[]prefixfile.ROAJson] routLands(roalist, $a, $i)

// ---- repositories seen so far ----
func (*main.OctoRPKI).MainReduce(s) (changed)
  props C21
  requires apart: s.PrevRepos != s.CurrentRepos && s.PrevRepos != nil
  modifies s.PrevRepos[*], any(syncpki.LocalFetch.repositories)
  ensures exactly: changed == !old(sameKeys(s.PrevRepos, s.CurrentRepos))
  ensures equal: !changed ==> sameKeys(s.PrevRepos, s.CurrentRepos)
  ensures remembers: forallof(k, string, in(k, s.PrevRepos) <==> old(in(k, s.PrevRepos)) || in(k, s.CurrentRepos))
  ensures first-seen: forallof(k, string, s.PrevRepos[k] == ite(old(in(k, s.PrevRepos)), old(s.PrevRepos[k]), ite(in(k, s.CurrentRepos), s.CurrentRepos[k], old(s.PrevRepos[k]))))
  ensures told: s.Fetcher.repositories == s.CurrentRepos
  invariant [$h!:bool] $h <==> existsof(k, string, visited(k) && !old(in(k, s.PrevRepos)))
  invariant forallof(k, string, in(k, s.PrevRepos) <==> old(in(k, s.PrevRepos)) || visited(k))
  invariant forallof(k, string, s.PrevRepos[k] == ite(old(in(k, s.PrevRepos)) || !visited(k), old(s.PrevRepos[k]), s.CurrentRepos[k]))
  invariant forallof(k, string, visited(k) ==> in(k, s.CurrentRepos))
