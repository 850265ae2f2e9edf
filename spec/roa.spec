// Entries of a ROA (validator/lib/roa.go) and the store's acceptance of ROAs (validator/pki/pki.go).
pure (net.IPMask).Size

func (*lib.ROAEntry).Validate(entry) (err)
  props C06
  modifies nothing
  ensures limits: (err == nil) == (res0(entry.IPNet.Mask.Size()) <= entry.MaxLength && 0 <= entry.MaxLength
    && entry.MaxLength <= ite(entry.IPNet.IP.To4() != nil, 32, 128))

define entryOK(e) = res0(e.IPNet.Mask.Size()) <= e.MaxLength && 0 <= e.MaxLength && e.MaxLength <= ite(e.IPNet.IP.To4() != nil, 32, 128)

func (*lib.RPKIROA).ValidateEntries(roa) (err)
  props C06
  opt absidx yes
  modifies nothing
  ensures entries: (err == nil) == forall(i, 0, len(roa.Entries), entryOK(roa.Entries[i]))
  invariant [$i:int] forall(j, 0, $i, entryOK(roa.Entries[j]))

// class of an entry: 0 usable, 1 unusable, 2 undecided
define netLo(n) = loBytes(string(n.IP), string(n.Mask))
define netHi(n) = hiBytes(string(n.IP), string(n.Mask))
rec roaCls(blocks, e:*lib.ROAEntry) int = ite(len(e.IPNet.Mask) < len(e.IPNet.IP), 1, ite(ipDecB(blocks, netLo(e.IPNet), netHi(e.IPNet), 0) == 1, 0,
    ite(ipDecB(blocks, netLo(e.IPNet), netHi(e.IPNet), 0) == 2, 2, 1)))
rec roaCnt(list, blocks, cls, n) int = ite(n <= 0, 0, roaCnt(n-1) + ite(roaCls(blocks, list[n-1]) == cls, 1, 0))
define roaLands(list, blocks, out, c, n) = forall(j, 0, n, 0 <= old(roaCnt(list, blocks, c, j)) && (old(roaCls(blocks, list[j])) == c ==>
    old(roaCnt(list, blocks, c, j)) < len(out) && out[old(roaCnt(list, blocks, c, j))] == old(list[j])))

func lib.ValidateIPRoaCertificateList(entries, cert) (valids, invalids, checks)
  props C06
  requires entries: forall(i, 0, len(entries), entries[i].IPNet != nil)
  modifies nothing
  ensures separate: fresh(valids) && fresh(invalids) && fresh(checks) && sep(valids, invalids) && sep(valids, checks) && sep(invalids, checks)
  ensures count-valid: len(valids) == old(roaCnt(entries, cert.IPAddresses, 0, len(entries)))
  ensures count-invalid: len(invalids) == old(roaCnt(entries, cert.IPAddresses, 1, len(entries)))
  ensures count-check: len(checks) == old(roaCnt(entries, cert.IPAddresses, 2, len(entries)))
  ensures entries-valid: roaLands(entries, cert.IPAddresses, valids, 0, len(entries))
  ensures entries-invalid: roaLands(entries, cert.IPAddresses, invalids, 1, len(entries))
  ensures entries-check: roaLands(entries, cert.IPAddresses, checks, 2, len(entries))
  invariant [$i:int, $a:[]*lib.ROAEntry] len($a) == old(roaCnt(entries, cert.IPAddresses, 0, $i))
  invariant [$i:int, $a:[]*lib.ROAEntry] len($a) == old(roaCnt(entries, cert.IPAddresses, 1, $i))
  invariant [$i:int, $a:[]*lib.ROAEntry] len($a) == old(roaCnt(entries, cert.IPAddresses, 2, $i))
  invariant [$i:int, $a:[]*lib.ROAEntry] roaLands(entries, cert.IPAddresses, $a, 0, $i)
  invariant [$i:int, $a:[]*lib.ROAEntry] roaLands(entries, cert.IPAddresses, $a, 1, $i)
  invariant [$i:int, $a:[]*lib.ROAEntry] roaLands(entries, cert.IPAddresses, $a, 2, $i)

func (*lib.RPKIROA).ValidateIPRoaCertificate(roa, cert) (valids, invalids, checks)
  props C06
  requires entries: forall(i, 0, len(roa.Entries), roa.Entries[i].IPNet != nil)
  modifies nothing
  ensures separate: fresh(valids) && fresh(invalids) && fresh(checks)
  ensures count-valid: len(valids) == old(roaCnt(roa.Entries, cert.IPAddresses, 0, len(roa.Entries)))
  ensures count-invalid: len(invalids) == old(roaCnt(roa.Entries, cert.IPAddresses, 1, len(roa.Entries)))
  ensures count-check: len(checks) == old(roaCnt(roa.Entries, cert.IPAddresses, 2, len(roa.Entries)))
  ensures entries-valid: roaLands(roa.Entries, cert.IPAddresses, valids, 0, len(roa.Entries))
  ensures entries-invalid: roaLands(roa.Entries, cert.IPAddresses, invalids, 1, len(roa.Entries))
  ensures entries-check: roaLands(roa.Entries, cert.IPAddresses, checks, 2, len(roa.Entries))

// ---- the store accepts a ROA ----
define mapSame(m) = forallof(k, string, (in(k, m) <==> old(in(k, m))) && m[k] == old(m[k]))

func (*pki.Validator).ValidateROA(v, roa) (err)
  props C06
  modifies nothing
  ensures entries: (err == nil) == forall(i, 0, len(roa.Entries), entryOK(roa.Entries[i]))

func (*pki.Validator).AddROA(v, pkifile, roa) (valid, res, err)
  props C06
  opt qunfold objOf
  opt absidx yes
  requires maps: storeMaps(v) && storeApart(v)
  requires known: validKnown(v) && resourcesSet(v)
  requires indexed: indexOK(v) && childsSet(v)
  modifies v.Objects[*], v.ValidObjects[*], v.CertsSerial[*], v.ValidROA[*], v.ROA[*], v.Objects[akiOf(roa.Certificate)].Childs, elems(v.Objects[akiOf(roa.Certificate)].Childs), ghost verdict(roa.Certificate)
  ensures maps: storeMaps(v) && storeApart(v)
  ensures known: validKnown(v) && resourcesSet(v)
  ensures index: indexOK(v)
  ensures children: childsSet(v)
  ensures new: fresh(res)
  ensures gate: valid ==> verdict(roa.Certificate) == 1 && roa.InnerValid && forall(i, 0, len(roa.Entries), entryOK(roa.Entries[i]))
  ensures new-certificate: valid ==> !old(in(skiOf(roa.Certificate), v.Objects))
  ensures only: forallof(k, string, (in(k, v.ValidROA) <==> (old(in(k, v.ValidROA)) || valid && k == skiOf(roa.Certificate)))
    && (k != skiOf(roa.Certificate) || !valid ==> v.ValidROA[k] == old(v.ValidROA[k])))
  ensures stored: valid ==> v.ValidROA[skiOf(roa.Certificate)] == res && res.Resource == roa
  ensures reported: !valid ==> err != nil
