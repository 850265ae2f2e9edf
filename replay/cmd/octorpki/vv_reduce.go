package main

import (
	"fmt"
	"testing"
	"time"

	syncpki "github.com/cloudflare/cfrpki/sync/lib"
)

func TestVV_C21(t *testing.T) {
	rnd := vvRand()
	for it := 0; it < vvN(4000); it++ {
		mk := func() map[string]time.Time {
			m := map[string]time.Time{}
			for i, n := 0, rnd.Intn(5); i < n; i++ {
				m[fmt.Sprintf("rsync://h%d/m", rnd.Intn(5))] = time.Unix(int64(rnd.Intn(100)), 0)
			}
			return m
		}
		s := &OctoRPKI{PrevRepos: mk(), CurrentRepos: mk(), Fetcher: syncpki.NewLocalFetch("/nonexistent")}
		if rnd.Intn(3) == 0 {
			s.PrevRepos = map[string]time.Time{}
			for k, v := range s.CurrentRepos {
				s.PrevRepos[k] = v
			}
			if rnd.Intn(2) == 0 {
				for k := range s.CurrentRepos {
					delete(s.PrevRepos, k)
					break
				}
			}
		}
		prev, cur := map[string]time.Time{}, map[string]time.Time{}
		for k, v := range s.PrevRepos {
			prev[k] = v
		}
		for k, v := range s.CurrentRepos {
			cur[k] = v
		}
		same := len(prev) == len(cur)
		for k := range cur {
			if _, ok := prev[k]; !ok {
				same = false
			}
		}
		desc := fmt.Sprintf("before %v now %v", prev, cur)
		vvGuard(t, "C21", desc, func() {
			if changed := s.MainReduce(); changed == same {
				vvFail(t, "C21", "changed=%v for %s", changed, desc)
			}
			for k, v := range cur {
				if _, ok := prev[k]; !ok {
					prev[k] = v
				}
			}
			if fmt.Sprint(prev) != fmt.Sprint(s.PrevRepos) || fmt.Sprint(cur) != fmt.Sprint(s.CurrentRepos) {
				vvFail(t, "C21", "remembers %v for %s", s.PrevRepos, desc)
			}
		})
	}
}
