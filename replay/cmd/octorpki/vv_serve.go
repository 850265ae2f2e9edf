package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"testing"
	"time"

	"github.com/cloudflare/cfrpki/api/schemas"
	"github.com/cloudflare/gortr/prefixfile"
)

func TestVV_C19(t *testing.T) {
	rnd := vvRand()
	tag := func(gen, n int) string { return fmt.Sprintf("%x", sha256.Sum256([]byte(fmt.Sprintf("%d/%d", gen, n)))) }
	for it := 0; it < vvN(6000); it++ {
		s := &OctoRPKI{ROAList: &prefixfile.ROAList{}, Resources: &schemas.ResourcesJSON{}}
		stable, prev, wait, hdr := rnd.Intn(2) == 0, rnd.Intn(2) == 0, rnd.Intn(2) == 0, rnd.Intn(2) == 0
		s.Stable.Store(stable)
		s.HasPreviousStable.Store(prev)
		*WaitStable, *CacheHeader = wait, hdr
		s.LastComputed = time.Now().Add(time.Duration(rnd.Intn(10)-5) * time.Hour)
		*ValidityDuration = time.Duration(rnd.Intn(4)) * time.Hour
		m := &s.ROAList.Metadata
		m.Generated, m.Counts = rnd.Intn(3)*1000+rnd.Intn(2), rnd.Intn(30)
		m.Valid, m.Serial = rnd.Intn(3), rnd.Intn(3)
		for i := 0; i < rnd.Intn(3); i++ {
			s.ROAList.Data = append(s.ROAList.Data, prefixfile.ROAJson{Prefix: fmt.Sprintf("10.0.%d.0/24", i), ASN: float64(it)})
		}
		own := tag(m.Generated, m.Counts)
		method := []string{"GET", "HEAD"}[rnd.Intn(2)]
		r := httptest.NewRequest(method, "/x", nil)
		match := []string{"", own, own, own + " ", "\"" + own + "\"", tag(m.Counts, m.Generated), tag(m.Generated, m.Counts+1), tag(m.Generated+1, m.Counts), "*", own[:63], own + ", " + own}[rnd.Intn(11)]
		if match != "" {
			r.Header.Set("If-None-Match", match)
		}
		in := fmt.Sprintf("stable %v, stable before %v, wait %v, cache header %v, generated %d, count %d, %s with If-None-Match %q (tag of the list %s)", stable, prev, wait, hdr, m.Generated, m.Counts, method, match, own)
		ready := stable || prev
		call := func(f func(http.ResponseWriter, *http.Request)) *httptest.ResponseRecorder {
			w := httptest.NewRecorder()
			vvGuard(t, "C19", in, func() { f(w, r) })
			return w
		}
		if w := call(s.ServeHealth); (w.Code == 200) != ready || (w.Code == 503) == ready {
			vvFail(t, "C19", "health answers %d; %s", w.Code, in)
		}
		w := call(s.ServeResources)
		if (w.Code == 503) != (wait && !ready) || w.Code != 503 && (w.Code != 200 || w.Body.Len() == 0) {
			vvFail(t, "C19", "resources answers %d with %d bytes; %s", w.Code, w.Body.Len(), in)
		}
		w = call(s.ServeROAs)
		switch {
		case wait && !ready:
			if w.Code != 503 {
				vvFail(t, "C19", "payloads answers %d; %s", w.Code, in)
			}
		case w.Code == 304:
			if match != own || w.Body.Len() != 0 {
				vvFail(t, "C19", "payloads answers 304 with %d bytes; %s", w.Body.Len(), in)
			}
		case w.Code == 200:
			var l prefixfile.ROAList
			if json.Unmarshal(w.Body.Bytes(), &l) != nil || l.Metadata != *m || len(l.Data) != len(s.ROAList.Data) {
				vvFail(t, "C19", "payloads answers with %q; %s", w.Body.String(), in)
			}
			if w.Header().Get("Etag") != own {
				vvFail(t, "C19", "payloads answers with tag %q; %s", w.Header().Get("Etag"), in)
			}
		default:
			vvFail(t, "C19", "payloads answers %d; %s", w.Code, in)
		}
	}
}
