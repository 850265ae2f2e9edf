package main

import (
	"math/rand"
	"testing"
)

// vvURL draws an address, mostly one that nearly is an rsync address.
func vvURL(rnd *rand.Rand) string {
	part := func() string {
		p := []string{"", "a", "host", "host:873", "x%2f", "..", ".", "rsync:", "rsync://", "é", "a b", "\x00", "?", "A"}
		s := p[rnd.Intn(len(p))]
		if rnd.Intn(4) == 0 {
			s += p[rnd.Intn(len(p))]
		}
		return s
	}
	s := []string{"rsync://", "rsync://", "rsync://", "rsync://", "rsync:/", "RSYNC://", "http://", " rsync://", "", "rsync:", "rsync//", "rsync:///"}[rnd.Intn(12)]
	for i, n := 0, rnd.Intn(5); i < n; i++ {
		if i > 0 {
			s += "/"
		}
		s += part()
	}
	if rnd.Intn(6) == 0 {
		s += "/"
	}
	if rnd.Intn(12) == 0 && len(s) > 0 {
		s = s[:rnd.Intn(len(s))]
	}
	return s
}

func vvCut(s string) (string, string, bool) {
	for i := 0; i < len(s); i++ {
		if s[i] == '/' {
			return s[:i], s[i+1:], true
		}
	}
	return s, "", false
}

func vvRest(u string) (string, bool) {
	if len(u) >= 8 && u[:8] == "rsync://" {
		return u[8:], true
	}
	return "", false
}

func TestVV_C20(t *testing.T) {
	rnd := vvRand()
	for it := 0; it < vvN(40000); it++ {
		u := vvURL(rnd)
		rest, ok := vvRest(u)
		host, _, _ := vvCut(rest)
		vvGuard(t, "C20", u, func() {
			h, err := ExtractRsyncDomain(u)
			if (err == nil) != ok || h != host {
				vvFail(t, "C20", "ExtractRsyncDomain(%q) = %q, %v", u, h, err)
			}
		})
	}
}
