package pki

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"errors"
	"fmt"
	"math/big"
	mrand "math/rand"
	"net"
	"strings"
	"testing"
	"time"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
)

// ---- a tree of real, signed objects ----

type vvEntry struct {
	name  string
	hash  []byte
	fault string
}
type vvCA struct {
	ski, path, repo, mft string
	key, parent          int
	late                 bool
	entries              []vvEntry
	tmpl                 *x509.Certificate
}
type vvTree struct {
	files map[string][]byte
	fetch map[string]string // path -> fault of the fetcher
	cas   []*vvCA
	roas  int
}

func vvRes() []pkix.Extension {
	ip, err := librpki.EncodeIPAddressBlock([]librpki.IPCertificateInformation{vvNet("0.0.0.0/0"), vvNet("::/0")})
	vvMust(err)
	as, err := librpki.EncodeASN([]librpki.ASNCertificateInformation{&librpki.ASNRange{Min: 0, Max: 1<<31 - 1}}, nil)
	vvMust(err)
	return []pkix.Extension{*ip, *as}
}

var vvSerial int64 = 100

func vvMake(subKey, issKey int, ski, aki string, ca bool, from, to time.Time, exts []pkix.Extension, parent *x509.Certificate) (*x509.Certificate, []byte) {
	vvSerial++
	t := &x509.Certificate{Version: 3, SerialNumber: big.NewInt(vvSerial), Subject: pkix.Name{CommonName: ski}, SubjectKeyId: []byte(ski), AuthorityKeyId: []byte(aki),
		NotBefore: from, NotAfter: to, BasicConstraintsValid: true, IsCA: ca, KeyUsage: x509.KeyUsageDigitalSignature, ExtraExtensions: exts}
	if ca {
		t.KeyUsage = x509.KeyUsageCertSign | x509.KeyUsageCRLSign
	}
	if parent == nil {
		parent = t
	}
	der, err := x509.CreateCertificate(rand.Reader, t, parent, vvKeys[subKey].Public(), vvKeys[issKey])
	vvMust(err)
	return t, der
}

func vvMakeTree(r *mrand.Rand, faults bool) *vvTree {
	vvBase(0, 0, 1)
	now := time.Now().UTC()
	from, to := now.Add(-time.Hour), now.Add(100*time.Hour)
	tr := &vvTree{files: map[string][]byte{}, fetch: map[string]string{}}
	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		ca := &vvCA{ski: fmt.Sprintf("ca%d", i), key: r.Intn(5), parent: -1, repo: fmt.Sprintf("rsync://h/m/r%d/", i)}
		if i > 0 {
			ca.parent = r.Intn(i)
			if r.Intn(3) == 0 {
				ca.repo = tr.cas[ca.parent].repo // a repository shared with the issuer
			}
		}
		if r.Intn(3) == 0 {
			ca.repo = strings.TrimSuffix(ca.repo, "/")
		}
		ca.mft = fmt.Sprintf("%s/m%d.mft", strings.TrimSuffix(ca.repo, "/"), i)
		ca.late = faults && r.Intn(4) == 0
		tr.cas = append(tr.cas, ca)
	}
	join := func(repo, name string) string { return strings.TrimSuffix(repo, "/") + "/" + name }
	for i, ca := range tr.cas {
		sia, err := librpki.EncodeSIA([]*librpki.SIA{{AccessMethod: librpki.CertRepository, GeneralName: []byte(ca.repo)}, {AccessMethod: librpki.SIAManifest, GeneralName: []byte(ca.mft)}})
		vvMust(err)
		exts := append(vvRes(), *sia)
		if i == 0 {
			t, der := vvMake(ca.key, ca.key, ca.ski, "", true, from, to, exts, nil)
			ca.tmpl, ca.path = t, "rsync://h/m/root.cer"
			tr.files[ca.path] = der
			continue
		}
		p := tr.cas[ca.parent]
		t, der := vvMake(ca.key, p.key, ca.ski, p.ski, true, from, to, exts, p.tmpl)
		ca.tmpl, ca.path = t, join(p.repo, ca.ski+".cer")
		tr.files[ca.path] = der
		p.entries = append(p.entries, vvEntry{name: ca.ski + ".cer"})
	}
	for i, ca := range tr.cas {
		crl, err := librpki.CreateCRL(ca.tmpl, rand.Reader, vvKeys[ca.key], nil, from, to, big.NewInt(1))
		vvMust(err)
		tr.files[join(ca.repo, fmt.Sprintf("c%d.crl", i))] = crl
		ca.entries = append(ca.entries, vvEntry{name: fmt.Sprintf("c%d.crl", i)})
		for j := r.Intn(3); j >= 0; j-- {
			name := fmt.Sprintf("r%d_%d.roa", i, j)
			_, pre, _ := net.ParseCIDR(fmt.Sprintf("10.%d.%d.0/24", i, j))
			content, err := librpki.EncodeROAEntries(65001, []*librpki.ROAEntry{{IPNet: pre, MaxLength: 24}})
			vvMust(err)
			ee := r.Intn(5)
			_, der := vvMake(ee, ca.key, fmt.Sprintf("ee-%s", name), ca.ski, false, from, to, vvRes(), ca.tmpl)
			cms, err := librpki.EncodeCMS(nil, content, from)
			vvMust(err)
			enc, err := librpki.ROAToEncap(content)
			vvMust(err)
			vvMust(cms.Sign(rand.Reader, []byte("ee-"+name), enc, vvKeys[ee], der))
			b, err := asn1.Marshal(*cms)
			vvMust(err)
			tr.files[join(ca.repo, name)] = b
			tr.roas++
			ca.entries = append(ca.entries, vvEntry{name: name})
		}
		r.Shuffle(len(ca.entries), func(a, b int) { ca.entries[a], ca.entries[b] = ca.entries[b], ca.entries[a] })
		if r.Intn(3) == 0 {
			ca.entries = append(ca.entries, ca.entries[r.Intn(len(ca.entries))])
		}
		if r.Intn(3) == 0 && ca.parent >= 0 && strings.TrimSuffix(ca.repo, "/") == strings.TrimSuffix(tr.cas[ca.parent].repo, "/") {
			p := tr.cas[ca.parent]
			ca.entries = append(ca.entries, vvEntry{name: p.entries[r.Intn(len(p.entries))].name}) // a path its issuer listed too
		}
		var list []librpki.File
		for k := range ca.entries {
			e := &ca.entries[k]
			path := join(ca.repo, e.name)
			sum := sha256.Sum256(tr.files[path])
			e.hash = append([]byte{}, sum[:]...)
			if faults && r.Intn(6) == 0 {
				switch r.Intn(5) {
				case 4:
					e.hash = [][]byte{e.hash[:16], append(e.hash, 0), {0}}[r.Intn(3)]
				case 0:
					e.hash[r.Intn(32)] ^= 1 << uint(r.Intn(8))
				case 1:
					tr.fetch[path] = "missing"
				case 2:
					tr.fetch[path] = "error"
				case 3:
					tr.fetch[path] = "changed"
				}
			}
			list = append(list, librpki.File{Name: e.name, Hash: asn1.BitString{Bytes: e.hash, BitLength: 8 * len(e.hash)}})
		}
		c := librpki.ManifestContent{ManifestNumber: big.NewInt(1), ThisUpdate: from, NextUpdate: to, FileHashAlg: librpki.SHA256OID, FileList: list}
		if ca.late {
			if r.Intn(2) == 0 {
				c.NextUpdate = now.Add(-time.Minute)
			} else {
				c.ThisUpdate = now.Add(50 * time.Hour)
			}
		}
		content, err := librpki.EncodeManifestContent(c)
		vvMust(err)
		ee := r.Intn(5)
		_, der := vvMake(ee, ca.key, "mft-"+ca.ski, ca.ski, false, from, to, vvRes(), ca.tmpl)
		cms, err := librpki.EncodeCMS(nil, content, from)
		vvMust(err)
		enc, err := librpki.ManifestToEncap(content)
		vvMust(err)
		vvMust(cms.Sign(rand.Reader, []byte("mft-"+ca.ski), enc, vvKeys[ee], der))
		b, err := asn1.Marshal(*cms)
		vvMust(err)
		tr.files[ca.mft] = b
	}
	tal, err := librpki.CreateTAL([]string{tr.cas[0].path}, vvKeys[tr.cas[0].key].Public())
	vvMust(err)
	b, err := librpki.EncodeTAL(tal)
	vvMust(err)
	tr.files["rsync://h/m/x.tal"] = b
	return tr
}

// vvPath is the resolved path of a file, computed apart from the code.
func vvPath(f *PKIFile) string {
	if f.Parent == nil || f.Parent.Type != TYPE_MFT {
		return f.Path
	}
	if strings.HasSuffix(f.Parent.Repo, "/") {
		return f.Parent.Repo + f.Path
	}
	return f.Parent.Repo + "/" + f.Path
}

type vvCall struct {
	f    *PKIFile
	path string
	data *SeekFile
	err  error
}
type vvSeeker struct {
	tr    *vvTree
	calls []vvCall
}

func (s *vvSeeker) GetRepository(*PKIFile, CallbackExplore) error { return errors.New("no") }
func (s *vvSeeker) GetFile(f *PKIFile) (sf *SeekFile, err error) {
	p := vvPath(f)
	data, ok := s.tr.files[p]
	switch s.tr.fetch[p] {
	case "missing":
		ok = false
	case "error":
		err = errors.New("unreadable")
		ok = false
	case "changed":
		data = append(append([]byte{}, data...), 0)
	}
	if ok {
		sum := sha256.Sum256(data)
		sf = &SeekFile{Repo: "", File: f.Path, Data: data, Sha256: sum[:]}
		if f.Type == TYPE_TAL {
			sf.Sha256 = nil
		}
	}
	s.calls = append(s.calls, vvCall{f, p, sf, err})
	return sf, err
}

func (tr *vvTree) String() string {
	s := ""
	for i, ca := range tr.cas {
		s += fmt.Sprintf(" CA %d (issuer %d, repository %s, manifest outside its window: %v) lists", i, ca.parent, ca.repo, ca.late)
		for _, e := range ca.entries {
			s += " " + e.name
		}
		s += ";"
	}
	return s + fmt.Sprintf(" fetch faults %v", tr.fetch)
}

func vvExplore(t *testing.T, prop string, quick int) {
	r := vvRand()
	for it := 0; it < vvN(quick); it++ {
		faults := it > 0
		tr := vvMakeTree(r, faults)
		v := NewValidator()
		v.DecoderConfig.ValidateStrict = false
		v.Time = time.Now().UTC()
		sm := NewSimpleManager()
		sk := &vvSeeker{tr: tr}
		sm.Validator, sm.FileSeeker = v, sk
		sm.Log = vvQuiet{}
		if faults {
			sm.StrictHash, sm.StrictManifests = r.Intn(5) > 0, r.Intn(5) > 0
		}
		sm.AddInitial([]*PKIFile{{Path: "rsync://h/m/x.tal", Type: TYPE_TAL}})
		vvGuard(t, prop, tr.String(), func() { sm.Explore(false, false) })
		ctx := fmt.Sprintf("exploring%s (strict hash %v, strict manifests %v)", tr, sm.StrictHash, sm.StrictManifests)
		if !faults && len(v.ValidROA) != tr.roas {
			vvFail(t, prop, "%s: %d of %d payload objects are valid although nothing is wrong", ctx, len(v.ValidROA), tr.roas)
		}
		if prop == "C11" {
			seen := map[string]bool{}
			for _, c := range sk.calls {
				if seen[c.path] {
					vvFail(t, prop, "%s: %s is fetched twice", ctx, c.path)
				}
				seen[c.path] = true
			}
			if len(sm.ToExplore) > 0 {
				vvFail(t, prop, "%s: %d files are left", ctx, len(sm.ToExplore))
			}
			continue
		}
		for _, c := range sk.calls {
			f := c.f
			miss := c.data == nil || c.err != nil
			differs := !miss && sm.StrictHash && f.ManifestHash != nil && c.data.Sha256 != nil && !bytes.Equal(f.ManifestHash, c.data.Sha256)
			late := false
			var issuer *vvCA
			if f.Parent != nil && f.Parent.Type == TYPE_MFT && f.Parent.Parent != nil && f.Parent.Parent.Type == TYPE_CER {
				for _, ca := range tr.cas {
					if ca.mft == f.Parent.Path {
						issuer = ca
						late = !miss && sm.StrictHash && ca.late
					}
				}
			}
			if differs {
				for k, res := range v.ObjectsPath {
					if res.File == f {
						vvFail(t, "C10", "%s: %s has another digest than listed and is processed (stored under %s)", ctx, c.path, k)
					}
				}
				if sm.Explored[c.path] {
					vvFail(t, "C10", "%s: %s has another digest than listed and is processed", ctx, c.path)
				}
			}
			if issuer != nil && sm.StrictManifests && (miss || differs || late) {
				if _, ok := v.ValidObjects[issuer.ski]; ok {
					vvFail(t, "C10", "%s: %s (nothing usable: %v, digest differs: %v, manifest outside its window: %v), but its issuer %s is still valid", ctx, c.path, miss, differs, late, issuer.ski)
				}
			}
		}
	}
}

type vvQuiet struct{}

func (vvQuiet) Debugf(string, ...interface{}) {}
func (vvQuiet) Printf(string, ...interface{}) {}
func (vvQuiet) Errorf(string, ...interface{}) {}
func (vvQuiet) Warnf(string, ...interface{})  {}

func TestVV_C10(t *testing.T) { vvExplore(t, "C10", 120) }

func TestVV_C11(t *testing.T) {
	vvExplore(t, "C11", 25)
	// histories of queueing and dequeueing against a reference queue
	r := vvRand()
	repos := []string{"rsync://h/m", "rsync://h/m/", "rsync://h/", ""}
	names := []string{"a", "b", "/a", "m/a", "a/"}
	for it := 0; it < vvN(3000); it++ {
		sm := NewSimpleManager()
		var mfts []*PKIFile
		for _, p := range repos {
			mfts = append(mfts, &PKIFile{Type: TYPE_MFT, Repo: p}, &PKIFile{Type: TYPE_CER, Repo: p})
		}
		hist := ""
		var queue []*PKIFile
		seen := map[string]bool{}
		for n := 0; n < 12; n++ {
			switch r.Intn(3) {
			case 0, 1:
				var l []*PKIFile
				for k := r.Intn(4); k > 0; k-- {
					f := &PKIFile{Path: names[r.Intn(len(names))]}
					if r.Intn(3) > 0 {
						f.Parent = mfts[r.Intn(len(mfts))]
					} else if r.Intn(3) == 0 {
						f.Path = repos[r.Intn(len(repos))] + f.Path
					}
					l = append(l, f)
					if r.Intn(4) == 0 {
						l = append(l, f)
					}
				}
				hist += " put["
				for _, f := range l {
					p := vvPath(f)
					hist += " " + p
					if got := f.ComputePath(); got != p {
						vvFail(t, "C11", "file %q of a manifest (%v) in repository %q resolves to %q, not %q", f.Path, f.Parent != nil && f.Parent.Type == TYPE_MFT, f.Parent.Repo, got, p)
					}
					if !seen[p] {
						queue = append(queue, f)
					}
					seen[p] = true
				}
				hist += " ]"
				sm.PutFiles(l)
			default:
				hist += " next"
				f, more, err := sm.GetNextExplore()
				if len(queue) == 0 {
					if err == nil {
						vvFail(t, "C11", "history%s: a file %v comes out of an empty queue", hist, f)
					}
					continue
				}
				if err != nil || f != queue[0] || more != (len(queue) > 1) {
					vvFail(t, "C11", "history%s: got %v more=%v err=%v, want %s more=%v", hist, f, more, err, vvPath(queue[0]), len(queue) > 1)
				}
				queue = queue[1:]
				if r.Intn(2) == 0 {
					sm.Explored[vvPath(f)] = true
				}
			}
			if len(sm.ToExplore) != len(queue) {
				vvFail(t, "C11", "history%s: %d files queued, want %d", hist, len(sm.ToExplore), len(queue))
			}
			for i := range queue {
				if sm.ToExplore[i] != queue[i] {
					vvFail(t, "C11", "history%s: position %d of the queue is %s, want %s", hist, i, vvPath(sm.ToExplore[i]), vvPath(queue[i]))
				}
			}
		}
	}
}

func TestVV_C09(t *testing.T) {
	r := vvRand()
	vvBase(0, 0, 1)
	ec, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	vvMust(err)
	now := time.Now().UTC()
	for it := 0; it < vvN(150); it++ {
		talKey := r.Intn(3)
		tal, err := librpki.CreateTAL([]string{"rsync://h/m/root.cer"}, vvKeys[talKey].Public())
		vvMust(err)
		data, err := librpki.EncodeTAL(tal)
		vvMust(err)
		v := NewValidator()
		v.Time = now
		tf := &PKIFile{Path: "x.tal", Type: TYPE_TAL}
		ok, files, _, err := v.AddResource(tf, data)
		if !ok || err != nil || len(files) != 1 || !files[0].Trust || files[0].Type != TYPE_CER || files[0].Path != "rsync://h/m/root.cer" {
			vvFail(t, "C09", "a locator introduces %v (%v, %v)", files, ok, err)
		}
		desc := "contacts of one locator"
		for contact := 0; contact < 1+r.Intn(3); contact++ {
			k := r.Intn(3)
			pub := interface{}(vvKeys[k].Public())
			same := k == talKey
			desc += fmt.Sprintf("; locator key %d, certificate key %d", talKey, k)
			switch r.Intn(4) {
			case 0:
				e := []int{3, 17, 1<<24 + 1, 65539}[r.Intn(4)]
				pub, same = &rsa.PublicKey{N: vvKeys[k].N, E: e}, false
				desc += fmt.Sprintf(" with exponent %d", e)
			case 1:
				pub, same = ec.Public(), false
				desc += ", an ECDSA key"
			}
			vvSerial++
			tm := &x509.Certificate{Version: 3, SerialNumber: big.NewInt(vvSerial), Subject: pkix.Name{CommonName: "root"}, SubjectKeyId: []byte(fmt.Sprintf("root%d", vvSerial)), NotBefore: now.Add(-time.Hour), NotAfter: now.Add(time.Hour),
				BasicConstraintsValid: true, IsCA: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageCRLSign, ExtraExtensions: vvRes()}
			if r.Intn(3) > 0 {
				l := []*librpki.SIA{{AccessMethod: librpki.CertRepository, GeneralName: []byte("rsync://h/m/")}}
				if r.Intn(3) > 0 {
					l = append(l, &librpki.SIA{AccessMethod: librpki.SIAManifest, GeneralName: []byte("rsync://h/m/a.mft")})
				}
				sia, err := librpki.EncodeSIA(l)
				vvMust(err)
				tm.ExtraExtensions = append(tm.ExtraExtensions, *sia)
			}
			if r.Intn(3) > 0 {
				tm.CRLDistributionPoints = []string{"rsync://h/m/root.crl"}
			}
			der, err := x509.CreateCertificate(rand.Reader, tm, tm, pub, vvKeys[k])
			vvMust(err)
			vvGuard(t, "C09", desc, func() {
				pre, np := vvSnap(v), len(v.ObjectsPath)
				ok, sub, res, err := v.AddResource(files[0], der)
				if same != (ok && err == nil && res != nil) {
					vvFail(t, "C09", "%s: accepted=%v error=%v", desc, ok, err)
				}
				if !same {
					if d := pre.same(vvSnap(v)); d != "" || len(v.ObjectsPath) != np {
						vvFail(t, "C09", "%s: refused, but the store changes: %s", desc, d)
					}
				}
				for _, f := range sub {
					if f.Trust {
						vvFail(t, "C09", "%s: the file %s a certificate names counts as trusted", desc, f.Path)
					}
				}
			})
		}
	}
}
