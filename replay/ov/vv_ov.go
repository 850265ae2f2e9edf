package ov

import (
	"fmt"
	"net"
	"testing"
)

type vvPay struct {
	asn    uint32
	maxLen int
	prefix *net.IPNet
}

func (p *vvPay) GetASN() uint32        { return p.asn }
func (p *vvPay) GetMaxLen() int        { return p.maxLen }
func (p *vvPay) GetPrefix() *net.IPNet { return p.prefix }
func (p *vvPay) String() string        { return fmt.Sprintf("%v-%d AS%d", p.prefix, p.maxLen, p.asn) }

func vvBits(n *net.IPNet) (v4 bool, bits []byte, length int) {
	l, _ := n.Mask.Size()
	ip := []byte(n.IP)
	if len(n.Mask) == 4 {
		v4 = true
		ip = n.IP.To4()
	}
	for i := 0; i < l; i++ {
		bits = append(bits, ip[i/8]>>(7-uint(i%8))&1)
	}
	return v4, bits, l
}

func vvCovers(p, r *net.IPNet) bool {
	v4p, bp, lp := vvBits(p)
	v4r, br, lr := vvBits(r)
	if v4p != v4r || lp > lr {
		return false
	}
	for i := range bp {
		if bp[i] != br[i] {
			return false
		}
	}
	return true
}

func TestVV_C17(t *testing.T) {
	rnd := vvRand()
	pfx := func() *net.IPNet {
		var ip net.IP
		var n, max int
		if rnd.Intn(2) == 0 {
			ip, max = net.IP{byte(10 + rnd.Intn(2)), byte(rnd.Intn(2) * 128), byte(rnd.Intn(4) * 64), byte(rnd.Intn(256))}, 32
		} else {
			ip, max = make(net.IP, 16), 128
			ip[0], ip[1], ip[2], ip[8], ip[15] = 0x20, byte(rnd.Intn(2)), byte(rnd.Intn(3)*64), byte(rnd.Intn(3)), byte(rnd.Intn(256))
		}
		switch rnd.Intn(3) {
		case 0:
			n = rnd.Intn(max + 1)
		case 1:
			n = 8 * rnd.Intn(max/8+1)
		default:
			n = 6 + rnd.Intn(12)
		}
		m := net.CIDRMask(n, max)
		return &net.IPNet{IP: ip.Mask(m), Mask: m}
	}
	for it := 0; it < vvN(6000); it++ {
		var vrp []AbstractROA
		n := rnd.Intn(12)
		for i := 0; i < n; i++ {
			p := &vvPay{asn: uint32(rnd.Intn(3)), prefix: pfx()}
			if i > 0 && rnd.Intn(4) == 0 {
				p.prefix = vrp[rnd.Intn(i)].GetPrefix()
			}
			l, max := p.prefix.Mask.Size()
			p.maxLen = l
			if rnd.Intn(2) == 0 {
				p.maxLen += rnd.Intn(max - l + 1)
			} else if rnd.Intn(4) == 0 {
				p.maxLen = rnd.Intn(max + 1)
			}
			vrp = append(vrp, p)
		}
		var route *vvPay
		desc := fmt.Sprint(vrp)
		vvGuard(t, "C17", desc, func() {
			o := NewOV(vrp)
			for k := 0; k < 6; k++ {
				route = &vvPay{asn: uint32(rnd.Intn(3)), prefix: pfx()}
				if n > 0 && rnd.Intn(2) == 0 { // below or at a payload
					b := vrp[rnd.Intn(n)].GetPrefix()
					l, max := b.Mask.Size()
					m := net.CIDRMask(l+rnd.Intn(max-l+1), max)
					route.prefix = &net.IPNet{IP: b.IP.Mask(m), Mask: m}
				}
				rl, _ := route.prefix.Mask.Size()
				want := STATE_UNKNOWN
				cover := map[AbstractROA]int{}
				for _, r := range vrp {
					if vvCovers(r.GetPrefix(), route.prefix) {
						cover[r]++
						if want == STATE_UNKNOWN {
							want = STATE_INVALID
						}
						if r.GetASN() == route.asn && rl <= r.GetMaxLen() {
							want = STATE_VALID
						}
					}
				}
				got, state, err := o.Validate(route)
				if err != nil || state != want {
					vvFail(t, "C17", "route %v against %s: state %d instead of %d, error %v", route, desc, state, want, err)
				}
				for _, r := range got {
					cover[r]--
				}
				for r, c := range cover {
					if c != 0 {
						vvFail(t, "C17", "route %v against %s: covering payload %v returned %d times too few", route, desc, r, c)
					}
				}
				if len(got) != len(cover) && want != STATE_UNKNOWN && len(got) < len(cover) {
					vvFail(t, "C17", "route %v against %s: %v returned", route, desc, got)
				}
			}
		})
	}
}
