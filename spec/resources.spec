// Containment of IP and AS resources (validator/lib/cert.go).
package lib = github.com/cloudflare/cfrpki/validator/lib
package net = net
package rsa = crypto/rsa
package bytes = bytes
package big = math/big

// The dynamic methods of a decoded resource block depend on the block alone: nothing in the repository writes to a block after
// it has been built.  Each implementation has its own contract below.
pure (lib.IPCertificateInformation).IsIPInRange (lib.IPCertificateInformation).GetRange (lib.IPCertificateInformation).GetAfi
pure (lib.ASNCertificateInformation).IsASNInRange (lib.ASNCertificateInformation).GetRange
pure bytes.Compare bytes.Equal (net.IP).To4 (net.IP).To16 (*net.IPNet).Contains

// the first decisive block from k on: 0 none, 1 contained in one block, 2 an inherit block of the family came first
rec ipDec(blocks, min, max, k) int = ite(k >= len(blocks), 0, ite(ipIn(blocks[k], min) && ipIn(blocks[k], max), 1,
    ite(ipAsk(blocks[k], min) || ipAsk(blocks[k], max), 2, ipDec(k+1))))
define ipIn(b, ip) = res0(b.IsIPInRange(ip))
define ipAsk(b, ip) = res1(b.IsIPInRange(ip))
// the same for ends given by their bytes
rec ipDecB(blocks, lo, hi, k) int = ite(k >= len(blocks), 0, ite(ipIn(blocks[k], bytes(lo)) && ipIn(blocks[k], bytes(hi)), 1,
    ite(ipAsk(blocks[k], bytes(lo)) || ipAsk(blocks[k], bytes(hi)), 2, ipDecB(k+1))))
rec asDec(blocks, min, max, k) int = ite(k >= len(blocks), 0, ite(asIn(blocks[k], min) && asIn(blocks[k], max), 1,
    ite(asAsk(blocks[k], min) || asAsk(blocks[k], max), 2, asDec(k+1))))
define asIn(b, n) = res0(b.IsASNInRange(n))
define asAsk(b, n) = res1(b.IsASNInRange(n))

func (*lib.RPKICertificate).IsIPRangeInCertificate(cert, min, max) (ok, ask)
  props C01
  modifies nothing
  ensures contained: ok == (ipDec(cert.IPAddresses, min, max, 0) == 1)
  ensures ask-issuer: ask == (ipDec(cert.IPAddresses, min, max, 0) == 2)
  ensures same-bytes: min != nil && max != nil ==> ipDecB(cert.IPAddresses, string(min), string(max), 0) == ipDec(cert.IPAddresses, min, max, 0)
  invariant [$i:int] min != nil && max != nil ==> ipDecB(cert.IPAddresses, string(min), string(max), $i) == ipDecB(cert.IPAddresses, string(min), string(max), 0)
  invariant [$i:int] ipDec(cert.IPAddresses, min, max, $i) == ipDec(cert.IPAddresses, min, max, 0)

func (*lib.RPKICertificate).IsASRangeInCertificate(cert, min, max) (ok, ask)
  props C01
  modifies nothing
  ensures contained: ok == (asDec(cert.ASNums, min, max, 0) == 1)
  ensures ask-issuer: ask == (asDec(cert.ASNums, min, max, 0) == 2)
  invariant [$i:int] asDec(cert.ASNums, min, max, $i) == asDec(cert.ASNums, min, max, 0)

// class of a child's entry: 0 valid, 1 invalid, 2 to be resolved further up
rec ipCls(x, blocks, k) int = ite(res2(x.GetRange()), 0, ite(ipDec(blocks, res0(x.GetRange()), res1(x.GetRange()), 0) == 1, 0,
    ite(ipDec(blocks, res0(x.GetRange()), res1(x.GetRange()), 0) == 2, 2, 1)))
rec ipCnt(list, blocks, cls, n) int = ite(n <= 0, 0, ipCnt(n-1) + ite(ipCls(list[n-1], blocks, 0) == cls, 1, 0))
rec asCls(x, blocks, k) int = ite(res2(x.GetRange()), 0, ite(asDec(blocks, res0(x.GetRange()), res1(x.GetRange()), 0) == 1, 0,
    ite(asDec(blocks, res0(x.GetRange()), res1(x.GetRange()), 0) == 2, 2, 1)))
rec asCnt(list, blocks, cls, n) int = ite(n <= 0, 0, asCnt(n-1) + ite(asCls(list[n-1], blocks, 0) == cls, 1, 0))

define sep(a, b) = ref(a) != ref(b) || cap(a) == 0 || cap(b) == 0

// every entry of class c is found in the output of that class at the position given by the number of such entries before it
define ipLands(list, blocks, out, c, n) = forall(j, 0, n, 0 <= old(ipCnt(list, blocks, c, j)) && (old(ipCls(list[j], blocks, 0)) == c ==>
    old(ipCnt(list, blocks, c, j)) < len(out) && out[old(ipCnt(list, blocks, c, j))] == old(list[j])))
define asLands(list, blocks, out, c, n) = forall(j, 0, n, 0 <= old(asCnt(list, blocks, c, j)) && (old(asCls(list[j], blocks, 0)) == c ==>
    old(asCnt(list, blocks, c, j)) < len(out) && out[old(asCnt(list, blocks, c, j))] == old(list[j])))

func lib.ValidateIPCertificateList(list, parent) (valids, invalids, checks)
  props C01
  modifies nothing
  ensures separate: fresh(valids) && fresh(invalids) && fresh(checks) && sep(valids, invalids) && sep(valids, checks) && sep(invalids, checks)
  ensures count-valid: len(valids) == old(ipCnt(list, parent.IPAddresses, 0, len(list)))
  ensures count-invalid: len(invalids) == old(ipCnt(list, parent.IPAddresses, 1, len(list)))
  ensures count-check: len(checks) == old(ipCnt(list, parent.IPAddresses, 2, len(list)))
  ensures entries-valid: ipLands(list, parent.IPAddresses, valids, 0, len(list))
  ensures entries-invalid: ipLands(list, parent.IPAddresses, invalids, 1, len(list))
  ensures entries-check: ipLands(list, parent.IPAddresses, checks, 2, len(list))
  invariant [$i:int, $a:[]lib.IPCertificateInformation] len($a) == old(ipCnt(list, parent.IPAddresses, 0, $i))
  invariant [$i:int, $a:[]lib.IPCertificateInformation] len($a) == old(ipCnt(list, parent.IPAddresses, 1, $i))
  invariant [$i:int, $a:[]lib.IPCertificateInformation] len($a) == old(ipCnt(list, parent.IPAddresses, 2, $i))
  invariant [$i:int, $a:[]lib.IPCertificateInformation] ipLands(list, parent.IPAddresses, $a, 0, $i)
  invariant [$i:int, $a:[]lib.IPCertificateInformation] ipLands(list, parent.IPAddresses, $a, 1, $i)
  invariant [$i:int, $a:[]lib.IPCertificateInformation] ipLands(list, parent.IPAddresses, $a, 2, $i)

func lib.ValidateASNCertificateList(list, parent) (valids, invalids, checks)
  props C01
  modifies nothing
  ensures separate: fresh(valids) && fresh(invalids) && fresh(checks) && sep(valids, invalids) && sep(valids, checks) && sep(invalids, checks)
  ensures count-valid: len(valids) == old(asCnt(list, parent.ASNums, 0, len(list)))
  ensures count-invalid: len(invalids) == old(asCnt(list, parent.ASNums, 1, len(list)))
  ensures count-check: len(checks) == old(asCnt(list, parent.ASNums, 2, len(list)))
  ensures entries-valid: asLands(list, parent.ASNums, valids, 0, len(list))
  ensures entries-invalid: asLands(list, parent.ASNums, invalids, 1, len(list))
  ensures entries-check: asLands(list, parent.ASNums, checks, 2, len(list))
  invariant [$i:int, $a:[]lib.ASNCertificateInformation] len($a) == old(asCnt(list, parent.ASNums, 0, $i))
  invariant [$i:int, $a:[]lib.ASNCertificateInformation] len($a) == old(asCnt(list, parent.ASNums, 1, $i))
  invariant [$i:int, $a:[]lib.ASNCertificateInformation] len($a) == old(asCnt(list, parent.ASNums, 2, $i))
  invariant [$i:int, $a:[]lib.ASNCertificateInformation] asLands(list, parent.ASNums, $a, 0, $i)
  invariant [$i:int, $a:[]lib.ASNCertificateInformation] asLands(list, parent.ASNums, $a, 1, $i)
  invariant [$i:int, $a:[]lib.ASNCertificateInformation] asLands(list, parent.ASNums, $a, 2, $i)

// ---- the block types ----


func (*lib.IPNet).IsIPInRange(ipn, ip) (in, ask)
  props C01
  modifies nothing
  requires ipn != nil && ipn.IPNet != nil
  ensures in == ipn.IPNet.Contains(ip) && !ask

func (*lib.IPAddressRange).IsIPInRange(ipr, ip) (in, ask)
  props C01
  modifies nothing
  ensures range: in == (len(ip) == len(ipr.Min) && len(ip) == len(ipr.Max) && bytes.Compare(ipr.Min, ip) <= 0 && bytes.Compare(ip, ipr.Max) <= 0)
  ensures no-ask: !ask

func (*lib.IPAddressNull).IsIPInRange(ipan, ip) (in, ask)
  props C01
  modifies nothing
  ensures never-contains: !in
  ensures same-family: ask == (ipan.Family == 1 && ip.To4() != nil || ipan.Family == 2 && ip.To4() == nil && ip.To16() != nil)

func (*lib.IPAddressNull).GetAfi(ipan) (r)
  props C01
  modifies nothing
  ensures r == ipan.Family

func (*lib.IPAddressNull).GetRange(ipan) (min, max, inherit)
  props C01 C13
  modifies nothing
  ensures inherit && min == nil && max == nil

func (*lib.IPAddressRange).GetRange(ipr) (min, max, inherit)
  props C01 C13
  modifies nothing
  ensures !inherit && min == ipr.Min && max == ipr.Max

func (*lib.IPNet).GetRange(ipn) (min, max, inherit)
  props C01 C13
  mode bv
  modifies nothing
  requires ipn != nil && ipn.IPNet != nil
  ensures not-inherit: !inherit
  ensures no-range: min == nil && max == nil || len(ipn.IPNet.Mask) >= len(ipn.IPNet.IP)
  ensures ranged: len(ipn.IPNet.Mask) >= len(ipn.IPNet.IP) ==> min != nil && max != nil
  ensures first: min != nil ==> len(min) == len(ipn.IPNet.IP) && forall(i, 0, len(min), min[i] == ipn.IPNet.IP[i] & ipn.IPNet.Mask[i])
  ensures last: max != nil ==> len(max) == len(ipn.IPNet.IP) && forall(i, 0, len(max), max[i] == ipn.IPNet.IP[i] | (255 ^ ipn.IPNet.Mask[i]))

fun loBytes(string, string) string
fun hiBytes(string, string) string
func lib.GetRangeIP(ipnet) (err, begin, end)
  props C01 C13
  mode bv
  nopanic
  modifies nothing
  requires ipnet != nil
  ensures refused: (err != nil) == (len(ipnet.Mask) < len(ipnet.IP))
  ensures none: err != nil ==> begin == nil && end == nil
  ensures lengths: err == nil ==> begin != nil && end != nil && len(begin) == len(ipnet.IP) && len(end) == len(ipnet.IP)
  ensures first: err == nil ==> forall(i, 0, len(begin), begin[i] == ipnet.IP[i] & ipnet.Mask[i])
  ensures last: err == nil ==> forall(i, 0, len(end), end[i] == ipnet.IP[i] | (255 ^ ipnet.Mask[i]))
  ensures distinct: fresh(begin) || err != nil
  determined err == nil ==> string(begin) == loBytes(string(ipnet.IP), string(ipnet.Mask)) && string(end) == hiBytes(string(ipnet.IP), string(ipnet.Mask))
  invariant [$i:int,$a:[]byte] forall(j, 0, $i, $a[j] == ipnet.IP[j] & ipnet.Mask[j])
  invariant [$i:int,$a:[]byte] forall(j, 0, $i, $a[j] == ipnet.IP[j] | (255 ^ ipnet.Mask[j]))

func (*lib.ASNRange).IsASNInRange(ar, asn) (in, ask)
  props C01
  modifies nothing
  ensures in == (ar.Min <= asn && asn <= ar.Max) && !ask
func (*lib.ASNRange).GetRange(ar) (min, max, inherit)
  props C01
  modifies nothing
  ensures !inherit && min == ar.Min && max == ar.Max
func (*lib.ASN).IsASNInRange(a, asn) (in, ask)
  props C01
  modifies nothing
  ensures in == (asn == a.ASN) && !ask
func (*lib.ASN).GetRange(a) (min, max, inherit)
  props C01
  modifies nothing
  ensures !inherit && min == a.ASN && max == a.ASN
func (*lib.ASNull).IsASNInRange(an, asn) (in, ask)
  props C01
  modifies nothing
  ensures !in && ask
func (*lib.ASNull).GetRange(an) (min, max, inherit)
  props C01
  modifies nothing
  ensures inherit
func (*lib.RPKICertificate).ValidateIPCertificate(cert, parent) (valids, invalids, checks)
  props C01
  modifies nothing
  ensures separate: fresh(valids) && fresh(invalids) && fresh(checks) && sep(valids, invalids) && sep(valids, checks) && sep(invalids, checks)
  ensures count-valid: len(valids) == old(ipCnt(cert.IPAddresses, parent.IPAddresses, 0, len(cert.IPAddresses)))
  ensures count-invalid: len(invalids) == old(ipCnt(cert.IPAddresses, parent.IPAddresses, 1, len(cert.IPAddresses)))
  ensures count-check: len(checks) == old(ipCnt(cert.IPAddresses, parent.IPAddresses, 2, len(cert.IPAddresses)))
  ensures entries-valid: ipLands(cert.IPAddresses, parent.IPAddresses, valids, 0, len(cert.IPAddresses))
  ensures entries-invalid: ipLands(cert.IPAddresses, parent.IPAddresses, invalids, 1, len(cert.IPAddresses))
  ensures entries-check: ipLands(cert.IPAddresses, parent.IPAddresses, checks, 2, len(cert.IPAddresses))
func (*lib.RPKICertificate).ValidateASNCertificate(cert, parent) (valids, invalids, checks)
  props C01
  modifies nothing
  ensures separate: fresh(valids) && fresh(invalids) && fresh(checks) && sep(valids, invalids) && sep(valids, checks) && sep(invalids, checks)
  ensures count-valid: len(valids) == old(asCnt(cert.ASNums, parent.ASNums, 0, len(cert.ASNums)))
  ensures count-invalid: len(invalids) == old(asCnt(cert.ASNums, parent.ASNums, 1, len(cert.ASNums)))
  ensures count-check: len(checks) == old(asCnt(cert.ASNums, parent.ASNums, 2, len(cert.ASNums)))
  ensures entries-valid: asLands(cert.ASNums, parent.ASNums, valids, 0, len(cert.ASNums))
  ensures entries-invalid: asLands(cert.ASNums, parent.ASNums, invalids, 1, len(cert.ASNums))
  ensures entries-check: asLands(cert.ASNums, parent.ASNums, checks, 2, len(cert.ASNums))
