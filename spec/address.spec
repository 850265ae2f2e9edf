// Address encodings (validator/lib/cert.go): a bit string of n bits is n leading bits of an address.
package asn1 = encoding/asn1

// a bit string as the standard decoder delivers it: as many bytes as the bits need, unused trailing bits zero
define wellBits(b) = 0 <= b.BitLength && b.BitLength <= 1099511627776 && len(b.Bytes) == (b.BitLength + 7) / 8 && (b.BitLength % 8 != 0 ==> int(b.Bytes[len(b.Bytes)-1]) & (255 >> uint(b.BitLength % 8)) == 0)
// byte i of a mask of n leading ones
define maskAt(n, i) = ite(8*i + 8 <= n, 255, ite(8*i >= n, 0, 255 ^ (255 >> uint(n - 8*i))))
// byte i of the bits of b, filled up with zeros
define bitsAt(b, i) = ite(i < len(b.Bytes), int(b.Bytes[i]), 0)
define isMask(m, n) = forall(i, 0, len(m), int(m[i]) == maskAt(n, i))
define famOK(f) = len(f) >= 2 && (f[1] == 1 || f[1] == 2)
define famSize(f) = ite(f[1] == 2, 16, 4)

func net.CIDRMask(ones, bits) (m)
  trusted documented behaviour of the standard library
  ensures (m != nil) == ((bits == 32 || bits == 128) && 0 <= ones && ones <= bits)
  ensures m != nil ==> fresh(m) && len(m) == bits / 8 && isMask(m, ones)

func lib.DecodeIP(addrfamily, addr) (ipnet, err)
  props C13
  mode bv
  nopanic
  modifies nothing
  requires wellBits(addr)
  ensures accepted: (err == nil) == (famOK(addrfamily) && addr.BitLength <= 8 * famSize(addrfamily))
  ensures refused: err != nil ==> ipnet == nil
  ensures family: err == nil ==> ipnet != nil && len(ipnet.IP) == famSize(addrfamily) && len(ipnet.Mask) == famSize(addrfamily)
  ensures bits: err == nil ==> forall(i, 0, len(ipnet.IP), int(ipnet.IP[i]) == bitsAt(addr, i))
  ensures length: err == nil ==> isMask(ipnet.Mask, addr.BitLength)

func lib.DecodeIPMinMax(addrfamily, addr, max) (ip, err)
  props C13
  mode bv
  nopanic
  modifies nothing
  requires wellBits(addr)
  ensures accepted: (err == nil) == (famOK(addrfamily) && addr.BitLength <= 8 * famSize(addrfamily))
  ensures refused: err != nil ==> ip == nil
  ensures size: err == nil ==> ip != nil && len(ip) == famSize(addrfamily)
  ensures lower: err == nil && !max ==> forall(i, 0, len(ip), int(ip[i]) == bitsAt(addr, i))
  ensures upper: err == nil && max ==> forall(i, 0, len(ip), int(ip[i]) == (bitsAt(addr, i) | (255 ^ maskAt(addr.BitLength, i))))
  invariant [$i:int,$a:[]byte] forall(j, 0, $i, j < 16 && j > addr.BitLength / 8 ==> int($a[j]) == 255)
  invariant [$i:int,$a:[]byte] forall(j, 0, len($a), j >= $i || j <= addr.BitLength / 8 ==> int($a[j]) == bitsAt(addr, j))

func (net.IPMask).Size(m) (ones, bits)
  puref
  trusted documented behaviour of the standard library: the number of leading ones, or 0, 0 when the mask is not ones followed by zeros
  determined bits == 0 && ones == 0 || bits == 8 * len(m) && 0 <= ones && ones <= bits && isMask(m, ones)

func lib.IPNetToBitString(ipnet) (b)
  props C13
  mode bv
  nopanic
  modifies nothing
  requires len(ipnet.Mask) <= 4096
  ensures length: b.BitLength == res0(ipnet.Mask.Size())
  ensures bytes: b.BitLength >= 0 && len(b.Bytes) == (b.BitLength + 7) / 8
  ensures bits: forall(i, 0, len(b.Bytes), i < len(ipnet.IP) ==> b.Bytes[i] == ipnet.IP[i] & ipnet.Mask[i])
  invariant [$i:int,$a:[]byte] 0 <= $i && forall(j, 0, $i, $a[j] == ipnet.IP[j] & ipnet.Mask[j])
