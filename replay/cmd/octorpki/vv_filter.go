package main

import (
	"fmt"
	"net"
	"strings"
	"testing"

	"github.com/cloudflare/gortr/prefixfile"
)

func TestVV_C18(t *testing.T) {
	rnd := vvRand()
	pick := []string{"10.0.0.0/8", "10.0.0.0/24", "10.0.0.0/25", "10.0.0.128/25", "0.0.0.0/0", "2001:db8::/32", "2001:db8::/48", "2001:db8::/49", "::/0",
		"::ffff:0:0/96", "::/25", "::/40", "", "10.0.0.0", "10.0.0.0/33", "x/24", "2001:db8::/129", "192.0.2.1/32", "100::/24", "100::/64", "2001:db8::1.2.3.4/32", "10.0.0.0/1", "10.0.0.0/11", "10.0.0.0/2"}
	asns := []interface{}{"AS1", "AS2", 1, 1.0, "1", nil, uint32(1)}
	for it := 0; it < vvN(4000); it++ {
		n := rnd.Intn(12)
		var list []prefixfile.ROAJson
		for i := 0; i < n; i++ {
			r := prefixfile.ROAJson{Prefix: pick[rnd.Intn(len(pick))], Length: []uint8{0, 1, 2, 12, 24, 25, 48, 49, 112}[rnd.Intn(9)], ASN: asns[rnd.Intn(len(asns))], TA: fmt.Sprint("ta", rnd.Intn(3))}
			if rnd.Intn(4) == 0 {
				if rnd.Intn(2) == 0 {
					r.Prefix = fmt.Sprintf("%d.%d.0.0/%d", rnd.Intn(3), rnd.Intn(3), rnd.Intn(33))
				} else {
					r.Prefix = fmt.Sprintf("2001:%d::/%d", rnd.Intn(3), rnd.Intn(129))
				}
			}
			if i > 0 && rnd.Intn(3) == 0 {
				r = list[rnd.Intn(i)]
				if rnd.Intn(2) == 0 {
					r.TA = "other"
				}
			}
			list = append(list, r)
		}
		in := append([]prefixfile.ROAJson(nil), list...)
		desc := fmt.Sprintf("%#v", in)
		var wantD, wantF []prefixfile.ROAJson
		seen := map[string]bool{}
		for _, r := range in {
			k := fmt.Sprintf("%v/%v/%v", r.Prefix, r.Length, r.ASN)
			if !seen[k] {
				seen[k] = true
				wantD = append(wantD, r)
			}
			if _, p, err := net.ParseCIDR(r.Prefix); err == nil {
				l, _ := p.Mask.Size()
				if strings.Contains(p.String(), ":") && l <= 48 || !strings.Contains(p.String(), ":") && l <= 24 {
					wantF = append(wantF, r)
				}
			}
		}
		check := func(name string, f func([]prefixfile.ROAJson) []prefixfile.ROAJson, want []prefixfile.ROAJson) {
			vvGuard(t, "C18", desc, func() {
				got := f(list)
				if fmt.Sprintf("%#v", []prefixfile.ROAJson(got)) != fmt.Sprintf("%#v", append([]prefixfile.ROAJson{}, want...)) {
					vvFail(t, "C18", "%s of %s\n gives %#v\n instead of %#v", name, desc, got, want)
				}
			})
			for i := range in {
				if list[i] != in[i] {
					vvFail(t, "C18", "%s changed its input %s", name, desc)
				}
			}
		}
		check("FilterDuplicates", FilterDuplicates, wantD)
		check("filterDuplicates", filterDuplicates, wantD)
		check("FilterInvalidPrefixLen", FilterInvalidPrefixLen, wantF)
	}
}
