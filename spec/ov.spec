// Route origin validation (ov/ov.go).
package ov = github.com/cloudflare/cfrpki/ov
package patricia = github.com/kentik/patricia
package tree = github.com/kentik/patricia/int64_tree
pure (ov.AbstractROA).GetASN (ov.AbstractROA).GetMaxLen (ov.AbstractROA).GetPrefix (ov.AbstractRoute).GetPrefix (ov.AbstractRoute).GetASN (net.IPMask).Size

// prefixes as the tree library sees them
fun parses(*net.IPNet) bool
fun isV4(*net.IPNet) bool
fun addr4(*net.IPNet) uint32
fun left6(*net.IPNet) uint64
fun right6(*net.IPNet) uint64
fun bits(*net.IPNet) uint
// the first prefix covers the second
fun cov4(uint32, uint, uint32, uint) bool
fun cov6(uint64, uint64, uint, uint64, uint64, uint) bool

func patricia.ParseFromIPAddr(n) (v4, v6, err)
  trusted library: converts a prefix to the tree's key
  determined (err == nil) == parses(n)
  determined (v4 != nil) == (parses(n) && isV4(n)) && (v6 != nil) == (parses(n) && !isV4(n))
  determined v4 != nil ==> v4.Address == addr4(n) && v4.Length == bits(n)
  determined v6 != nil ==> v6.Left == left6(n) && v6.Right == right6(n) && v6.Length == bits(n)

// the content of a tree: which tags are found for an address
ghostheap t4 int
ghostheap t6 int
fun empty4() int
fun empty6() int
fun add4(int, uint32, uint, int64) int
fun add6(int, uint64, uint64, uint, int64) int
fun found4(int, uint32, uint, int64) bool
fun found6(int, uint64, uint64, uint, int64) bool
axiom none4(a:uint32, l:uint, i:int64): !found4(empty4(), a, l, i)
axiom none6(a:uint64, b:uint64, l:uint, i:int64): !found6(empty6(), a, b, l, i)
axiom more4(t:int, b:uint32, m:uint, j:int64, a:uint32, l:uint, i:int64): found4(add4(t, b, m, j), a, l, i) == (found4(t, a, l, i) || i == j && cov4(b, m, a, l))
axiom more6(t:int, b:uint64, c:uint64, m:uint, j:int64, a:uint64, d:uint64, l:uint, i:int64): found6(add6(t, b, c, m, j), a, d, l, i) == (found6(t, a, d, l, i) || i == j && cov6(b, c, m, a, d, l))
// ... in some order
fun num4(int, uint32, uint) int
fun num6(int, uint64, uint64, uint) int
fun tag4(int, uint32, uint, int) int64
fun tag6(int, uint64, uint64, uint, int) int64
fun pos4(int, uint32, uint, int64) int
fun pos6(int, uint64, uint64, uint, int64) int
axiom listed4(t:int, a:uint32, l:uint, k:int): 0 <= k && k < num4(t, a, l) ==> found4(t, a, l, tag4(t, a, l, k))
axiom listed6(t:int, a:uint64, b:uint64, l:uint, k:int): 0 <= k && k < num6(t, a, b, l) ==> found6(t, a, b, l, tag6(t, a, b, l, k))
axiom lists4(t:int, a:uint32, l:uint, i:int64): found4(t, a, l, i) ==> 0 <= pos4(t, a, l, i) && pos4(t, a, l, i) < num4(t, a, l) && tag4(t, a, l, pos4(t, a, l, i)) == i
axiom lists6(t:int, a:uint64, b:uint64, l:uint, i:int64): found6(t, a, b, l, i) ==> 0 <= pos6(t, a, b, l, i) && pos6(t, a, b, l, i) < num6(t, a, b, l) && tag6(t, a, b, l, pos6(t, a, b, l, i)) == i

func tree.NewTreeV4() (t)
  trusted library: an empty tree
  determined t != nil && fresh(t) && t4(t) == empty4()

func tree.NewTreeV6() (t)
  trusted library: an empty tree
  determined t != nil && fresh(t) && t6(t) == empty6()

func (*tree.TreeV4).Add(t, address, tag, matchFunc) (added, n)
  trusted library: adds the tag at the address
  requires keeps-all: matchFunc == nil
  sets t4(t) = add4(old(t4(t)), address.Address, address.Length, tag)

func (*tree.TreeV6).Add(t, address, tag, matchFunc) (added, n)
  trusted library: adds the tag at the address
  requires keeps-all: matchFunc == nil
  sets t6(t) = add6(old(t6(t)), address.Left, address.Right, address.Length, tag)

func (*tree.TreeV4).FindTagsWithFilter(t, address, filterFunc) (r)
  trusted library: calls the filter for every tag whose prefix covers the address
  iterates filterFunc(tag4(t4(t), address.Address, address.Length, calls)) count num4(t4(t), address.Address, address.Length)

func (*tree.TreeV6).FindTagsWithFilter(t, address, filterFunc) (r)
  trusted library: calls the filter for every tag whose prefix covers the address
  iterates filterFunc(tag6(t6(t), address.Left, address.Right, address.Length, calls)) count num6(t6(t), address.Left, address.Right, address.Length)

// ---- the validator ----
define routeLen(r) = res0(r.GetPrefix().Mask.Size())
// payload i matches the route; its prefix is seen as one covering the address
rec matches(vrp, route, i) bool = route.GetASN() == vrp[i].GetASN() && routeLen(route) <= vrp[i].GetMaxLen()
rec on4(vrp, a, l, i) bool = parses(vrp[i].GetPrefix()) && isV4(vrp[i].GetPrefix()) && cov4(addr4(vrp[i].GetPrefix()), bits(vrp[i].GetPrefix()), a, l)
rec on6(vrp, a, b, l, i) bool = parses(vrp[i].GetPrefix()) && !isV4(vrp[i].GetPrefix()) && cov6(left6(vrp[i].GetPrefix()), right6(vrp[i].GetPrefix()), bits(vrp[i].GetPrefix()), a, b, l)
define payCovers(v, i, route) = parses(route.GetPrefix()) && ite(isV4(route.GetPrefix()), on4(v.vrp, addr4(route.GetPrefix()), bits(route.GetPrefix()), i),
    on6(v.vrp, left6(route.GetPrefix()), right6(route.GetPrefix()), bits(route.GetPrefix()), i))
define at4(vrp, n, tr) = forallof(a, uint32, forallof(l, uint, forallof(i, int, found4(tr, a, l, i) <==> 0 <= i && i < n && on4(vrp, a, l, i))))
define at6(vrp, n, tr) = forallof(a, uint64, forallof(b, uint64, forallof(l, uint, forallof(i, int, found6(tr, a, b, l, i) <==> 0 <= i && i < n && on6(vrp, a, b, l, i)))))
define indexed(v) = v != nil && at4(v.vrp, len(v.vrp), t4(v.t4)) && at6(v.vrp, len(v.vrp), t6(v.t6))

func ov.NewOV(vrp) (v)
  props C17
  opt axioms none4 none6 more4 more6
  opt qunfold on4 on6
  modifies nothing
  ensures payloads: v != nil && v.vrp == vrp
  ensures index4: at4(vrp, len(vrp), t4(v.t4))
  ensures index6: at6(vrp, len(vrp), t6(v.t6))
  invariant [$i:int, $t:*tree.TreeV4] at4(vrp, $i, t4($t))
  invariant [$i:int, $t:*tree.TreeV6] at6(vrp, $i, t6($t))

func (*ov.curValidation).Filter(cv, payload) (r)
  props C17
  requires state: cv.state == ov.STATE_UNKNOWN || cv.state == ov.STATE_INVALID || cv.state == ov.STATE_VALID
  modifies cv.state, cv.matching, elems(cv.matching)
  ensures go-on: r
  ensures state: cv.state == ite(old(cv.state) == ov.STATE_VALID || matches(cv.ov.vrp, cv.route, payload), ov.STATE_VALID, ov.STATE_INVALID)
  ensures longer: len(cv.matching) == old(len(cv.matching)) + 1
  ensures keeps: forall(j, 0, old(len(cv.matching)), cv.matching[j] == old(cv.matching[j]))
  ensures adds: cv.matching[old(len(cv.matching))] == old(cv.ov.vrp[payload])
  ensures apart: ref(cv.matching) == old(ref(cv.matching)) || fresh(cv.matching)

define tagAt(v, route, k) = ite(isV4(route.GetPrefix()), tag4(t4(v.t4), addr4(route.GetPrefix()), bits(route.GetPrefix()), k), tag6(t6(v.t6), left6(route.GetPrefix()), right6(route.GetPrefix()), bits(route.GetPrefix()), k))

func (*ov.OriginValidator).Validate(v, route) (matching, state, err)
  props C17
  opt axioms listed4 listed6 lists4 lists6
  opt absidx yes
  requires indexed(v)
  modifies nothing
  ensures error: (err == nil) == parses(route.GetPrefix()) && (err != nil ==> state == ov.STATE_UNKNOWN && len(matching) == 0)
  ensures valid: err == nil ==> (state == ov.STATE_VALID) == exists(i, 0, len(v.vrp), payCovers(v, i, route) && matches(v.vrp, route, i))
  ensures unknown: err == nil ==> (state == ov.STATE_UNKNOWN) == !exists(i, 0, len(v.vrp), payCovers(v, i, route))
  ensures states: state == ov.STATE_UNKNOWN || state == ov.STATE_INVALID || state == ov.STATE_VALID
  ensures complete: err == nil ==> forall(i, 0, len(v.vrp), payCovers(v, i, route) ==> exists(k, 0, len(matching), matching[k] == v.vrp[i]))
  ensures sound: err == nil ==> forall(k, 0, len(matching), exists(i, 0, len(v.vrp), payCovers(v, i, route) && matching[k] == v.vrp[i]))
  iterinv same: target.ov == v && target.route == route && fresh(target.matching)
  iterinv state: target.state == ite(exists(k, 0, calls, matches(v.vrp, route, tagAt(v, route, k))), ov.STATE_VALID, ite(calls == 0, ov.STATE_UNKNOWN, ov.STATE_INVALID))
  iterinv matching: len(target.matching) == calls && forall(k, 0, calls, target.matching[k] == v.vrp[tagAt(v, route, k)])
