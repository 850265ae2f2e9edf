package librpki

import (
	"bytes"
	"fmt"
	"math/rand"
	"net"
	"testing"
)

func vvIP(r *rand.Rand) net.IP {
	if r.Intn(2) == 0 {
		return net.IP{10, byte(r.Intn(2)), byte(r.Intn(4)), byte(r.Intn(256))}
	}
	ip := make(net.IP, 16)
	copy(ip, []byte{0x20, 1, 0xd, 0xb8})
	ip[4], ip[15] = byte(r.Intn(3)), byte(r.Intn(256))
	return ip
}

func vvBlock(r *rand.Rand) IPCertificateInformation {
	switch r.Intn(5) {
	case 0:
		return &IPAddressNull{Family: uint8(1 + r.Intn(2))}
	case 1:
		a := vvIP(r)
		b := append(net.IP{}, a...)
		b[len(b)-1] |= byte(r.Intn(256))
		if r.Intn(2) == 0 {
			b[len(b)-2] |= byte(r.Intn(3))
		}
		return &IPAddressRange{Min: a, Max: b}
	default:
		ip := vvIP(r)
		n := 32 - r.Intn(17)
		if len(ip) == 16 {
			n = 128 - r.Intn(97)
		}
		m := net.CIDRMask(n, 8*len(ip))
		return &IPNet{IPNet: &net.IPNet{IP: ip.Mask(m), Mask: m}}
	}
}

// oracle: the range of a block, computed independently of the code under test
func vvRange(b IPCertificateInformation) (lo, hi net.IP, inherit bool, fam int) {
	switch x := b.(type) {
	case *IPAddressNull:
		return nil, nil, true, map[uint8]int{1: 4, 2: 16}[x.Family]
	case *IPAddressRange:
		return x.Min, x.Max, false, len(x.Min)
	case *IPNet:
		ones, _ := x.IPNet.Mask.Size()
		lo, hi = make(net.IP, len(x.IPNet.IP)), make(net.IP, len(x.IPNet.IP))
		for i := range lo {
			for k := 0; k < 8; k++ {
				bit := byte(0x80 >> uint(k))
				if i*8+k < ones {
					lo[i] |= x.IPNet.IP[i] & bit
					hi[i] |= x.IPNet.IP[i] & bit
				} else {
					hi[i] |= bit
				}
			}
		}
		return lo, hi, false, len(lo)
	}
	return nil, nil, false, 0
}
func vvHas(b IPCertificateInformation, ip net.IP) (in, ask bool) {
	lo, hi, inh, fam := vvRange(b)
	if inh {
		return false, len(ip) == fam
	}
	return len(ip) == fam && bytes.Compare(lo, ip) <= 0 && bytes.Compare(ip, hi) <= 0, false
}
func vvContained(blocks []IPCertificateInformation, min, max net.IP) (bool, bool) {
	for _, b := range blocks {
		i1, a1 := vvHas(b, min)
		i2, a2 := vvHas(b, max)
		if i1 && i2 {
			return true, false
		}
		if a1 || a2 {
			return false, true
		}
	}
	return false, false
}
func vvShow(l []IPCertificateInformation) string {
	s := "["
	for _, b := range l {
		lo, hi, inh, fam := vvRange(b)
		if inh {
			s += fmt.Sprintf(" inherit/%d", fam)
		} else {
			s += fmt.Sprintf(" %v-%v", lo, hi)
		}
	}
	return s + " ]"
}
func vvSameIP(a, b []IPCertificateInformation) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func TestVV_C01(t *testing.T) {
	r := vvRand()
	for it := 0; it < vvN(60000); it++ {
		var blocks, list []IPCertificateInformation
		for i := r.Intn(5); i > 0; i-- {
			blocks = append(blocks, vvBlock(r))
		}
		for i := r.Intn(5); i > 0; i-- {
			if len(blocks) > 0 && r.Intn(3) == 0 {
				list = append(list, blocks[r.Intn(len(blocks))])
			} else {
				list = append(list, vvBlock(r))
			}
		}
		parent := &RPKICertificate{IPAddresses: blocks}
		in := "parent " + vvShow(blocks) + " child " + vvShow(list)
		vvGuard(t, "C01", in, func() {
			min, max := vvIP(r), vvIP(r)
			if r.Intn(3) > 0 {
				max = append(net.IP{}, min...)
				max[len(max)-1] |= byte(r.Intn(256))
			}
			w1, w2 := vvContained(blocks, min, max)
			if g1, g2 := parent.IsIPRangeInCertificate(min, max); g1 != w1 || g2 != w2 {
				vvFail(t, "C01", "IsIPRangeInCertificate(%v,%v) = %v,%v, want %v,%v; %s", min, max, g1, g2, w1, w2, in)
			}
			var wv, wi, wc []IPCertificateInformation
			for _, x := range list {
				lo, hi, inh, _ := vvRange(x)
				v, c := vvContained(blocks, lo, hi)
				if gl, gh, gi := x.GetRange(); gi != inh || !bytes.Equal(gl, lo) || !bytes.Equal(gh, hi) {
					vvFail(t, "C01", "GetRange = %v %v %v, want %v %v %v", gl, gh, gi, lo, hi, inh)
				}
				switch {
				case inh || v:
					wv = append(wv, x)
				case c:
					wc = append(wc, x)
				default:
					wi = append(wi, x)
				}
			}
			gv, gi, gc := ValidateIPCertificateList(list, parent)
			if !vvSameIP(gv, wv) || !vvSameIP(gi, wi) || !vvSameIP(gc, wc) {
				vvFail(t, "C01", "ValidateIPCertificateList = %s %s %s, want %s %s %s; %s", vvShow(gv), vvShow(gi), vvShow(gc), vvShow(wv), vvShow(wi), vvShow(wc), in)
			}
		})
	}
	for it := 0; it < vvN(60000); it++ {
		mk := func() ASNCertificateInformation {
			switch r.Intn(4) {
			case 0:
				return &ASNull{}
			case 1:
				return &ASN{ASN: r.Intn(12)}
			}
			a := r.Intn(12)
			return &ASNRange{Min: a, Max: a + r.Intn(6)}
		}
		rng := func(x ASNCertificateInformation) (int, int, bool) {
			switch y := x.(type) {
			case *ASN:
				return y.ASN, y.ASN, false
			case *ASNRange:
				return y.Min, y.Max, false
			}
			return 0, 0, true
		}
		var blocks, list []ASNCertificateInformation
		for i := r.Intn(5); i > 0; i-- {
			blocks = append(blocks, mk())
		}
		for i := r.Intn(5); i > 0; i-- {
			list = append(list, mk())
		}
		show := func(l []ASNCertificateInformation) string {
			s := "["
			for _, x := range l {
				a, b, n := rng(x)
				s += fmt.Sprintf(" %d-%d/%v", a, b, n)
			}
			return s + " ]"
		}
		cont := func(lo, hi int) (bool, bool) {
			for _, b := range blocks {
				a, z, inh := rng(b)
				if inh {
					return false, true
				}
				if a <= lo && lo <= z && a <= hi && hi <= z {
					return true, false
				}
			}
			return false, false
		}
		parent := &RPKICertificate{ASNums: blocks}
		in := "parent " + show(blocks) + " child " + show(list)
		vvGuard(t, "C01", in, func() {
			lo := r.Intn(14)
			hi := lo + r.Intn(4)
			w1, w2 := cont(lo, hi)
			if g1, g2 := parent.IsASRangeInCertificate(lo, hi); g1 != w1 || g2 != w2 {
				vvFail(t, "C01", "IsASRangeInCertificate(%v,%v) = %v,%v, want %v,%v; %s", lo, hi, g1, g2, w1, w2, in)
			}
			var want [3][]ASNCertificateInformation
			for _, x := range list {
				a, b, inh := rng(x)
				v, c := cont(a, b)
				k := 1
				if inh || v {
					k = 0
				} else if c {
					k = 2
				}
				want[k] = append(want[k], x)
			}
			g0, g1, g2 := ValidateASNCertificateList(list, parent)
			for k, g := range [][]ASNCertificateInformation{g0, g1, g2} {
				ok := len(g) == len(want[k])
				for i := range g {
					ok = ok && g[i] == want[k][i]
				}
				if !ok {
					vvFail(t, "C01", "ValidateASNCertificateList class %d = %s, want %s; %s", k, show(g), show(want[k]), in)
				}
			}
		})
	}
}
