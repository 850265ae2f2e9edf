package syncpki

import (
	"math/rand"
	"testing"
)

// vvURL draws an address, mostly one that nearly is an rsync address.
func vvURL(rnd *rand.Rand) string {
	part := func() string {
		p := []string{"", "a", "host", "host:873", "x%2f", "..", ".", "rsync:", "rsync://", "é", "a b", "\x00", "?", "A"}
		s := p[rnd.Intn(len(p))]
		if rnd.Intn(4) == 0 {
			s += p[rnd.Intn(len(p))]
		}
		return s
	}
	s := []string{"rsync://", "rsync://", "rsync://", "rsync://", "rsync:/", "RSYNC://", "http://", " rsync://", "", "rsync:", "rsync//", "rsync:///"}[rnd.Intn(12)]
	for i, n := 0, rnd.Intn(5); i < n; i++ {
		if i > 0 {
			s += "/"
		}
		s += part()
	}
	if rnd.Intn(6) == 0 {
		s += "/"
	}
	if rnd.Intn(12) == 0 && len(s) > 0 {
		s = s[:rnd.Intn(len(s))]
	}
	return s
}

func vvCut(s string) (string, string, bool) {
	for i := 0; i < len(s); i++ {
		if s[i] == '/' {
			return s[:i], s[i+1:], true
		}
	}
	return s, "", false
}

func vvRest(u string) (string, bool) {
	if len(u) >= 8 && u[:8] == "rsync://" {
		return u[8:], true
	}
	return "", false
}

func TestVV_C20(t *testing.T) {
	rnd := vvRand()
	for it := 0; it < vvN(40000); it++ {
		u := vvURL(rnd)
		rest, ok := vvRest(u)
		vvGuard(t, "C20", u, func() {
			host, after, has := vvCut(rest)
			mod, _, _ := vvCut(after)
			gm, gh, err := ExtractRsyncDomainModule(u)
			if (err == nil) != (ok && has) {
				vvFail(t, "C20", "ExtractRsyncDomainModule(%q): error %v", u, err)
			}
			if err == nil && (gh != "rsync://"+host+"/" || gm != "rsync://"+host+"/"+mod) {
				vvFail(t, "C20", "ExtractRsyncDomainModule(%q) = %q, %q", u, gm, gh)
			}
			if err != nil && (gm != "" || gh != "") {
				vvFail(t, "C20", "ExtractRsyncDomainModule(%q) refuses and returns %q, %q", u, gm, gh)
			}
			p, err := ExtractFilePathFromRsyncURL(u)
			if (err == nil) != ok || p != rest {
				vvFail(t, "C20", "ExtractFilePathFromRsyncURL(%q) = %q, %v", u, p, err)
			}
			dir := ""
			for i := len(rest) - 1; i >= 0; i-- {
				if rest[i] == '/' {
					dir = rest[:i]
					break
				}
			}
			p, err = ExtractFoldersPathFromRsyncURL(u)
			if (err == nil) != ok || p != dir {
				vvFail(t, "C20", "ExtractFoldersPathFromRsyncURL(%q) = %q, %v", u, p, err)
			}
		})
	}
}
