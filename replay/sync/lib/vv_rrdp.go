package syncpki

import (
	"encoding/base64"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"
)

type vvElem struct {
	uri      string
	data     string
	withdraw bool
}

type vvServer struct {
	files map[string]string
	elems map[string][]vvElem
	fail  int // index of the fetch that fails, or -1
	log   []string
	n     int
	at    []int // number of elements handed over when each fetch was made
	got   []vvElem
	cbErr int // index of the callback that fails, or -1
}

func (s *vvServer) GetXML(u string) (string, error) {
	s.log = append(s.log, u)
	s.at = append(s.at, len(s.got))
	i := s.n
	s.n++
	if i == s.fail {
		return "", errors.New("fetch failed")
	}
	d, ok := s.files[u]
	if !ok {
		return "", errors.New("no such file")
	}
	return d, nil
}

func vvFileXML(kind, session string, serial int64, els []vvElem, badB64 int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "<?xml version=\"1.0\"?>\n<%s xmlns=\"http://www.ripe.net/rpki/rrdp\" version=\"1\" session_id=%q serial=\"%d\">\n", kind, session, serial)
	for i, e := range els {
		if e.withdraw {
			fmt.Fprintf(&b, "<withdraw uri=%q hash=\"00\"/>\n", e.uri)
			continue
		}
		v := base64.StdEncoding.EncodeToString([]byte(e.data))
		if i%2 == 1 && len(v) > 4 {
			v = "\n  " + v[:4] + "\n  " + v[4:] + "\r\n"
		}
		if i == badB64 {
			v = "%%%"
		}
		fmt.Fprintf(&b, "<publish uri=%q>%s</publish>\n", e.uri, v)
	}
	fmt.Fprintf(&b, "</%s>\n", kind)
	return b.String()
}

func vvElems(r *rand.Rand, tag string) []vvElem {
	var els []vvElem
	for i := r.Intn(4); i > 0; i-- {
		e := vvElem{uri: fmt.Sprintf("rsync://h/%s/%d.cer", tag, i), data: fmt.Sprintf("%s-%d-%d", tag, i, r.Intn(100))}
		if r.Intn(3) == 0 {
			e.withdraw, e.data = true, ""
		}
		els = append(els, e)
	}
	return els
}

func TestVV_C15(t *testing.T) {
	r := vvRand()
	for it := 0; it < vvN(1500); it++ {
		s := &RRDPSystem{Path: "https://h/notification.xml"}
		if r.Intn(3) > 0 {
			s.SessionID, s.Serial = fmt.Sprint("s", r.Intn(2)), int64(r.Intn(5))
		}
		hist := ""
		for step := 0; step < 4; step++ {
			srv := &vvServer{files: map[string]string{}, elems: map[string][]vvElem{}, fail: -1, cbErr: -1}
			session, serial := fmt.Sprint("s", r.Intn(2)), int64(1+r.Intn(7))
			if r.Intn(2) == 0 {
				session, serial = s.SessionID, s.Serial+int64(r.Intn(4))
			}
			bad := -1
			if r.Intn(8) == 0 {
				bad = r.Intn(3)
			}
			tag := fmt.Sprintf("%d-%d-%d", it, step, r.Intn(1000))
			snap := "https://h/" + tag + "/snapshot.xml"
			srv.elems[snap] = vvElems(r, tag+"/snap")
			srv.files[snap] = vvFileXML("snapshot", session, serial, srv.elems[snap], bad)
			listed := map[int64][]string{}
			type del struct {
				n   int64
				uri string
			}
			var dels []del
			lo := serial - int64(r.Intn(6))
			gap := int64(-1)
			if r.Intn(3) == 0 {
				gap = lo + int64(r.Intn(6))
			}
			for n := lo; n <= serial; n++ {
				if n == gap {
					continue
				}
				reps := 1
				if r.Intn(12) == 0 {
					reps = 2
				}
				for k := 0; k < reps; k++ {
					u := fmt.Sprintf("https://h/%s/delta-%d-%d.xml", tag, n, k)
					srv.elems[u] = vvElems(r, fmt.Sprintf("%s/d%d-%d", tag, n, k))
					srv.files[u] = vvFileXML("delta", session, n, srv.elems[u], bad)
					dels = append(dels, del{n, u})
					listed[n] = append(listed[n], u)
				}
			}
			switch r.Intn(3) {
			case 0:
				sort.Slice(dels, func(i, j int) bool { return dels[i].n > dels[j].n })
			case 1:
				r.Shuffle(len(dels), func(i, j int) { dels[i], dels[j] = dels[j], dels[i] })
			}
			var b strings.Builder
			fmt.Fprintf(&b, "<notification xmlns=\"http://www.ripe.net/rpki/rrdp\" version=\"1\" session_id=%q serial=\"%d\">\n<snapshot uri=%q hash=\"00\"/>\n", session, serial, snap)
			for _, d := range dels {
				fmt.Fprintf(&b, "<delta serial=\"%d\" uri=%q hash=\"00\"/>\n", d.n, d.uri)
			}
			b.WriteString("</notification>\n")
			srv.files[s.Path] = b.String()
			if r.Intn(5) == 0 {
				srv.fail = r.Intn(5)
			}
			if r.Intn(5) == 0 {
				srv.cbErr = r.Intn(6)
			}
			oldSession, oldSerial := s.SessionID, s.Serial
			hist += fmt.Sprintf(" [known %s/%d, announced %s/%d, deltas %v, failing fetch %d, failing element %d, undecodable element %d]", oldSession, oldSerial, session, serial, dels, srv.fail, srv.cbErr, bad)
			s.Fetcher = srv
			cbFailed := false
			s.Callback = func(main, url, path string, data []byte, withdraw, snapshot bool, cur int64, args ...interface{}) error {
				i := len(srv.got)
				e := vvElem{path, string(data), withdraw}
				if withdraw {
					e.data = ""
				}
				srv.got = append(srv.got, e)
				if i == srv.cbErr {
					cbFailed = true
					return errors.New("refused")
				}
				return nil
			}
			var err error
			vvGuard(t, "C15", hist, func() { err = s.FetchRRDP("x") })
			if err != nil {
				if s.SessionID != oldSession || s.Serial != oldSerial {
					vvFail(t, "C15", "failed update (%v) changed the state from %s/%d to %s/%d; history%s", err, oldSession, oldSerial, s.SessionID, s.Serial, hist)
				}
				continue
			}
			bads := ""
			if cbFailed || srv.fail >= 0 && srv.n > srv.fail {
				bads = "success although a fetch or an element failed"
			}
			if len(srv.log) == 0 || srv.log[0] != s.Path {
				vvFail(t, "C15", "the notification was not fetched first: %v; history%s", srv.log, hist)
			}
			if s.SessionID != session {
				bads = fmt.Sprintf("remembered session %q, announced %q", s.SessionID, session)
			}
			rest := srv.log[1:]
			if len(rest) == 1 && rest[0] == snap {
				if s.Serial != serial {
					bads = fmt.Sprintf("remembered serial %d after the snapshot of %d", s.Serial, serial)
				}
			} else {
				if oldSerial == 0 || oldSession != session {
					bads = "deltas used without an earlier state of the session"
				}
				for n := oldSerial; n <= serial; n++ {
					if len(listed[n]) == 0 {
						bads = fmt.Sprintf("deltas used although serial %d is not listed", n)
					}
				}
				want := oldSerial + int64(len(rest))
				if serial > oldSerial && want != serial || serial <= oldSerial && len(rest) > 0 {
					bads = fmt.Sprintf("%d deltas fetched from %d to %d: %v", len(rest), oldSerial, serial, rest)
				}
				for i, u := range rest {
					ok := false
					for _, x := range listed[oldSerial+1+int64(i)] {
						ok = ok || x == u
					}
					if !ok {
						bads = fmt.Sprintf("fetched %s as delta %d", u, oldSerial+1+int64(i))
					}
				}
				if bads == "" && s.Serial != want {
					bads = fmt.Sprintf("remembered serial %d, applied up to %d", s.Serial, want)
				}
			}
			// every element of every file, while that file was the last one fetched
			for i, u := range rest {
				lo, hi := srv.at[i+1], len(srv.got)
				if i+2 < len(srv.at) {
					hi = srv.at[i+2]
				}
				cnt := map[vvElem]int{}
				for _, e := range srv.elems[u] {
					cnt[e]++
				}
				for _, e := range srv.got[lo:hi] {
					cnt[e]--
				}
				for e, c := range cnt {
					if c != 0 {
						bads = fmt.Sprintf("element %+v of %s handed over %+d times too few", e, u, c)
					}
				}
				if bad >= 0 && bad < len(srv.elems[u]) && !srv.elems[u][bad].withdraw {
					bads = fmt.Sprintf("success although element %d of %s cannot be decoded", bad, u)
				}
			}
			if bads != "" {
				vvFail(t, "C15", "%s; history%s", bads, hist)
			}
		}
	}
}
