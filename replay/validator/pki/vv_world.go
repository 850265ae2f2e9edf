package pki

import (
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"math/big"
	mrand "math/rand"
	"net"
	"sort"
	"strings"
	"testing"
	"time"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
)

var (
	vvT0    = time.Date(2024, 3, 1, 12, 0, 0, 0, time.UTC)
	vvKeys  []*rsa.PrivateKey
	vvCerts = map[[3]int]*x509.Certificate{}
	vvCrls  = map[int]*pkix.CertificateList{}
)

func vvMust(err error) {
	if err != nil {
		panic(err)
	}
}

// a certificate of key ks signed by key ki; everything but the signature is set by the caller on the copy
func vvBase(ki, ks, ca int) x509.Certificate {
	if vvKeys == nil {
		vvKeys = CreateKeys()
	}
	k := [3]int{ki, ks, ca}
	if c, ok := vvCerts[k]; ok {
		return *c
	}
	tmpl := &x509.Certificate{Version: 3, SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: fmt.Sprintf("k%d", ks)},
		NotBefore: vvT0, NotAfter: vvT0, BasicConstraintsValid: true, IsCA: ca == 1, KeyUsage: x509.KeyUsageDigitalSignature}
	if ca == 1 {
		tmpl.KeyUsage = x509.KeyUsageCertSign | x509.KeyUsageCRLSign
	}
	par := &x509.Certificate{Version: 3, SerialNumber: big.NewInt(2), Subject: pkix.Name{CommonName: fmt.Sprintf("k%d", ki)}}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, par, vvKeys[ks].Public(), vvKeys[ki])
	vvMust(err)
	c, err := x509.ParseCertificate(der)
	vvMust(err)
	vvCerts[k] = c
	return *c
}

// a CRL signed by key k whose issuer and entries are set by the caller
func vvCRL(k int, aki string, serials []int64) *pkix.CertificateList {
	vvBase(0, 0, 1)
	if vvCrls[k] == nil {
		der, err := librpki.CreateCRL(&x509.Certificate{SubjectKeyId: []byte("x")}, rand.Reader, vvKeys[k], nil, vvT0, vvT0, big.NewInt(1))
		vvMust(err)
		c, err := x509.ParseDERCRL(der)
		vvMust(err)
		vvCrls[k] = c
	}
	c := *vvCrls[k]
	c.TBSCertList.Extensions = nil
	if aki != "-" {
		id, err := asn1.Marshal(librpki.CRLAuthKeyId{Id: []byte(aki)})
		vvMust(err)
		c.TBSCertList.Extensions = []pkix.Extension{{Id: librpki.AuthorityKeyIdentifier, Value: id}}
	}
	c.TBSCertList.RevokedCertificates = nil
	for _, s := range serials {
		c.TBSCertList.RevokedCertificates = append(c.TBSCertList.RevokedCertificates, pkix.RevokedCertificate{SerialNumber: big.NewInt(s), RevocationTime: vvT0})
	}
	return &c
}

type vvSpec struct {
	Ski, Aki       string
	SubKey, IssKey int
	CA             int
	Serial         int64
	From, To       time.Duration
	IPs            []librpki.IPCertificateInformation
	ASNs           []librpki.ASNCertificateInformation
}

func (s vvSpec) String() string {
	return fmt.Sprintf("{%s<-%s keys %d<-%d ca%d serial %d from %v to %v ips %s asns %s}", s.Ski, s.Aki, s.SubKey, s.IssKey, s.CA, s.Serial, s.From, s.To, vvIPs(s.IPs), vvASs(s.ASNs))
}
func (s vvSpec) Cert() *librpki.RPKICertificate {
	c := vvBase(s.IssKey, s.SubKey, s.CA)
	c.SubjectKeyId, c.AuthorityKeyId = []byte(s.Ski), []byte(s.Aki)
	c.SerialNumber = big.NewInt(s.Serial)
	c.NotBefore, c.NotAfter = vvT0.Add(s.From), vvT0.Add(s.To)
	return &librpki.RPKICertificate{Certificate: &c, IPAddresses: s.IPs, ASNums: s.ASNs}
}

func vvNet(s string) *librpki.IPNet {
	_, n, err := net.ParseCIDR(s)
	vvMust(err)
	return &librpki.IPNet{IPNet: n}
}

var vvIPPool = []librpki.IPCertificateInformation{
	vvNet("10.0.0.0/8"), vvNet("10.0.0.0/9"), vvNet("10.128.0.0/9"), vvNet("10.1.0.0/16"), vvNet("2001:db8::/32"), vvNet("2001:db8:1::/48"), vvNet("0.0.0.0/0"), vvNet("::/0"),
	&librpki.IPAddressNull{Family: 1}, &librpki.IPAddressNull{Family: 2}, &librpki.IPAddressNull{Family: 1},
	&librpki.IPAddressRange{Min: net.IP{10, 0, 0, 0}, Max: net.IP{10, 200, 0, 0}},
}
var vvASPool = []librpki.ASNCertificateInformation{&librpki.ASN{ASN: 1}, &librpki.ASN{ASN: 5}, &librpki.ASNRange{Min: 1, Max: 5}, &librpki.ASNRange{Min: 3, Max: 9}, &librpki.ASNull{}, &librpki.ASNull{}}

func vvIPs(l []librpki.IPCertificateInformation) string {
	s := "["
	for _, x := range l {
		switch x := x.(type) {
		case *librpki.IPAddressNull:
			s += fmt.Sprintf(" inherit/%d", x.Family)
		case *librpki.IPNet:
			s += " " + x.IPNet.String()
		case *librpki.IPAddressRange:
			s += fmt.Sprintf(" %v-%v", x.Min, x.Max)
		}
	}
	return s + "]"
}
func vvASs(l []librpki.ASNCertificateInformation) string {
	s := "["
	for _, x := range l {
		switch x := x.(type) {
		case *librpki.ASNull:
			s += " inherit"
		case *librpki.ASN:
			s += fmt.Sprintf(" %d", x.ASN)
		case *librpki.ASNRange:
			s += fmt.Sprintf(" %d-%d", x.Min, x.Max)
		}
	}
	return s + "]"
}

// independent range of a claim: family (4, 6, 0 for AS numbers), bytes of both ends, inherit
func vvEnds(x interface{}) (fam int, lo, hi []byte, inherit bool) {
	switch x := x.(type) {
	case *librpki.IPAddressNull:
		return map[uint8]int{1: 4, 2: 6}[x.Family], nil, nil, true
	case *librpki.IPNet:
		lo, hi = append([]byte{}, x.IPNet.IP...), append([]byte{}, x.IPNet.IP...)
		for i, m := range x.IPNet.Mask {
			lo[i] &= m
			hi[i] |= ^m
		}
		if len(lo) == 4 {
			return 4, lo, hi, false
		}
		return 6, lo, hi, false
	case *librpki.IPAddressRange:
		return map[int]int{4: 4, 16: 6}[len(x.Min)], x.Min, x.Max, false
	case *librpki.ASNull:
		return 0, nil, nil, true
	case *librpki.ASN:
		b := []byte{byte(x.ASN)}
		return 0, b, b, false
	case *librpki.ASNRange:
		return 0, []byte{byte(x.Min)}, []byte{byte(x.Max)}, false
	}
	panic("kind")
}

// class of a claim against a certificate's blocks: 0 settled, 1 refused, 2 ask the issuer
func vvClass(x interface{}, blocks []interface{}) int {
	fam, lo, hi, inh := vvEnds(x)
	if inh {
		return 0
	}
	for _, b := range blocks {
		bf, bl, bh, bi := vvEnds(b)
		if bf != fam {
			continue
		}
		if bi {
			return 2
		}
		if bytes.Compare(bl, lo) <= 0 && bytes.Compare(hi, bh) <= 0 {
			return 0
		}
	}
	return 1
}
func vvBlocks(c *librpki.RPKICertificate) (ip, as []interface{}) {
	for _, x := range c.IPAddresses {
		ip = append(ip, x)
	}
	for _, x := range c.ASNums {
		as = append(as, x)
	}
	return
}

type vvState struct {
	m       map[string]map[string]*Resource
	revoked map[string]bool
	childs  map[*Resource][]*Resource
	verdict bool // of certificate validation, in this state, for the certificate about to be added
}

func vvSnap(v *Validator) vvState {
	s := vvState{m: map[string]map[string]*Resource{}, revoked: map[string]bool{}, childs: map[*Resource][]*Resource{}}
	for n, m := range map[string]map[string]*Resource{"TALs": v.TALs, "ValidObjects": v.ValidObjects, "Objects": v.Objects, "CertsSerial": v.CertsSerial,
		"ValidCRL": v.ValidCRL, "CRL": v.CRL, "ValidROA": v.ValidROA, "ROA": v.ROA, "ValidManifest": v.ValidManifest, "Manifest": v.Manifest, "ObjectsPath": v.ObjectsPath} {
		c := map[string]*Resource{}
		for k, x := range m {
			c[k] = x
			if x != nil {
				s.childs[x] = append([]*Resource{}, x.Childs...)
			}
		}
		s.m[n] = c
	}
	for k := range v.Revoked {
		s.revoked[k] = true
	}
	return s
}

// the keys at which two snapshots of a map differ
func vvDiff(a, b map[string]*Resource) []string {
	var d []string
	for k, x := range a {
		if y, ok := b[k]; !ok || x != y {
			d = append(d, k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			d = append(d, k)
		}
	}
	sort.Strings(d)
	return d
}
func (s vvState) same(o vvState, except ...string) string {
	for n, m := range s.m {
		skip := false
		for _, e := range except {
			skip = skip || e == n
		}
		if d := vvDiff(m, o.m[n]); !skip && len(d) > 0 {
			return fmt.Sprintf("%s changed at %q", n, d)
		}
	}
	return ""
}

// vvWorld performs operations on a validator and checks each against its property, independently of the code under test.
type vvWorld struct {
	t       *testing.T
	prop    string
	r       *mrand.Rand
	v       *Validator
	log     []string
	revoked map[string]bool // issuer and serial
	serials map[string][]*librpki.RPKICertificate
	specs   []vvSpec
}

func (w *vvWorld) bad(prop, f string, a ...interface{}) {
	w.t.Helper()
	if prop == w.prop {
		vvFail(w.t, prop, "%s; history: %s", fmt.Sprintf(f, a...), strings.Join(w.log, "; "))
	}
}
func (w *vvWorld) step(prop, f string, a ...interface{}) {
	w.log = append(w.log, fmt.Sprintf(f, a...))
}

func (w *vvWorld) guard(prop string, f func()) bool {
	ok := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if strings.Contains(fmt.Sprintf("%v", r), "Goexit") {
					panic(r)
				}
				w.bad(prop, "crash: %v", r)
			}
		}()
		f()
		ok = true
	}()
	return ok
}

// oracle of certificate validation
func (w *vvWorld) accept(c *librpki.RPKICertificate, trust bool, valid map[string]*Resource) (bool, string) {
	x := c.Certificate
	if x.NotBefore.After(w.v.Time) || w.v.Time.After(x.NotAfter) {
		return false, "outside its validity period"
	}
	if trust {
		return true, ""
	}
	iss, ok := valid[string(x.AuthorityKeyId)]
	if !ok {
		return false, "issuer is not valid"
	}
	ic, ok := iss.Resource.(*librpki.RPKICertificate)
	if !ok {
		return false, "issuer is not a certificate"
	}
	if x.CheckSignatureFrom(ic.Certificate) != nil {
		return false, "signature does not verify"
	}
	if w.revoked[string(x.AuthorityKeyId)+"/"+x.SerialNumber.String()] {
		return false, "revoked"
	}
	ip, as := vvBlocks(c)
	for _, cl := range append(ip, as...) {
		cur := ic
		for n := 0; ; n++ {
			bi, ba := vvBlocks(cur)
			if fam, _, _, _ := vvEnds(cl); fam == 0 {
				bi = ba
			}
			k := vvClass(cl, bi)
			if k == 0 {
				break
			}
			up, ok := valid[string(cur.Certificate.AuthorityKeyId)]
			if k == 1 || !ok || n > 50 {
				return false, fmt.Sprintf("claim %v is settled by nobody", cl)
			}
			cur, ok = up.Resource.(*librpki.RPKICertificate)
			if !ok {
				return false, "ancestor is not a certificate"
			}
		}
	}
	return true, ""
}

func (w *vvWorld) randSpec() vvSpec {
	r := w.r
	s := vvSpec{Serial: int64(1 + r.Intn(4)), CA: 1, From: -time.Hour, To: time.Hour}
	s.Ski = string([]byte{byte('A' + r.Intn(9))})
	if r.Intn(4) == 0 {
		s.Ski += "/1"
	}
	key := func(id string) int {
		if id == "" {
			return 0
		}
		return int(id[0]) % 4
	}
	s.SubKey = key(s.Ski)
	if n := len(w.specs); n > 0 && r.Intn(6) > 0 {
		s.Aki = w.specs[r.Intn(n)].Ski
	} else if r.Intn(3) == 0 {
		s.Aki = string([]byte{byte('A' + r.Intn(9))})
	}
	s.IssKey = key(s.Aki)
	if r.Intn(12) == 0 {
		s.IssKey = r.Intn(4)
	}
	if r.Intn(12) == 0 {
		s.CA = 0
	}
	switch r.Intn(14) {
	case 0:
		s.From = 0
	case 1:
		s.From = time.Second
	case 2:
		s.To = 0
	case 3:
		s.To = -time.Second
	}
	for n := r.Intn(3); n > 0; n-- {
		s.IPs = append(s.IPs, vvIPPool[r.Intn(len(vvIPPool))])
	}
	for n := r.Intn(3); n > 0; n-- {
		s.ASNs = append(s.ASNs, vvASPool[r.Intn(len(vvASPool))])
	}
	return s
}

func vvHasRes(l []*Resource, x *Resource) int {
	n := 0
	for _, y := range l {
		if x == y {
			n++
		}
	}
	return n
}

// the part of adding any certificate that every operation shares; the conditions are those of C02 and C03
func (w *vvWorld) checkAdded(cert *librpki.RPKICertificate, trust bool, pre vvState, valid bool, isErr bool, res *Resource, what string) {
	x := cert.Certificate
	ski, aki := string(x.SubjectKeyId), string(x.AuthorityKeyId)
	post := vvSnap(w.v)
	if _, known := pre.m["Objects"][ski]; known {
		if valid || !isErr {
			w.bad("C03", "%s: a certificate with a known key identifier is not rejected", what)
		}
		for _, n := range []string{"Objects", "ValidObjects", "CertsSerial"} {
			if d := vvDiff(pre.m[n], post.m[n]); len(d) > 0 {
				w.bad("C03", "%s: rejected, but %s changed at %q", what, n, d)
			}
		}
		for k, p := range pre.m["Objects"] {
			if len(p.Childs) != len(pre.childs[p]) {
				w.bad("C03", "%s: rejected, but the children of %q changed", what, k)
			}
		}
		return
	}
	want, why := w.accept(cert, trust, pre.m["ValidObjects"])
	got, has := post.m["ValidObjects"][ski]
	if has && !want {
		w.bad("C02", "%s: accepted although %s", what, why)
	}
	if d := vvDiff(pre.m["ValidObjects"], post.m["ValidObjects"]); len(d) > 1 || (len(d) == 1 && d[0] != ski) {
		w.bad("C03", "%s: other valid objects changed: %q", what, d)
	}
	if d := vvDiff(pre.m["Objects"], post.m["Objects"]); len(d) != 1 || d[0] != ski {
		w.bad("C03", "%s: the known objects changed at %q", what, d)
	}
	if has != pre.verdict {
		w.bad("C03", "%s: valid %v, but validation says %v", what, has, pre.verdict)
	}
	k := post.m["Objects"][ski]
	if k == nil || k.Resource != interface{}(cert) || (has && got != k) || (res != nil && k != res) {
		w.bad("C03", "%s: the stored resource is not the certificate", what)
		return
	}
	par, hasPar := pre.m["Objects"][aki]
	if k.Parent != par {
		w.bad("C03", "%s: parent link wrong", what)
	}
	attach := has && hasPar
	for pk, p := range pre.m["Objects"] {
		want := len(pre.childs[p])
		if attach && p == par {
			want++
			if len(p.Childs) != want || p.Childs[want-1] != k {
				w.bad("C03", "%s: not attached to its issuer %q", what, pk)
			}
		} else if len(p.Childs) != want {
			w.bad("C03", "%s: the children of %q changed", what, pk)
		}
		for i, c := range pre.childs[p] {
			if p.Childs[i] != c {
				w.bad("C03", "%s: a child of %q was replaced", what, pk)
			}
		}
	}
	d := vvDiff(pre.m["CertsSerial"], post.m["CertsSerial"])
	if attach && (len(d) != 1 || post.m["CertsSerial"][d[0]] != k) || !attach && len(d) != 0 {
		w.bad("C03", "%s: serial index changed at %q (attached %v)", what, d, attach)
	}
	if attach {
		key := aki + "/" + x.SerialNumber.String()
		w.serials[key] = append(w.serials[key], cert)
	}
}

func (w *vvWorld) opCert() {
	s := w.randSpec()
	trust := w.r.Intn(5) == 0 || len(w.specs) == 0
	c := s.Cert()
	what := fmt.Sprintf("AddCert(%v, %v)", s, trust)
	w.step("", "%s", what)
	pre := vvSnap(w.v)
	// the decision itself, without the store
	want, why := w.accept(c, trust, pre.m["ValidObjects"])
	if w.guard("C02", func() {
		err := w.v.ValidateCertificate(c, trust)
		pre.verdict = err == nil
		if pre.verdict && !want {
			w.bad("C02", "ValidateCertificate accepts although %s", why)
		}
		if d := pre.same(vvSnap(w.v)); d != "" {
			w.bad("C02", "ValidateCertificate: %s", d)
		}
	}) {
		w.guard("C03", func() {
			valid, _, res, err := w.v.AddCert(c, trust)
			if _, known := pre.m["Objects"][s.Ski]; !known {
				w.specs = append(w.specs, s)
				if valid != (w.v.ValidObjects[s.Ski] != nil) {
					w.bad("C03", "%s: reported valid %v", what, valid)
				}
			}
			if d := pre.same(vvSnap(w.v), "Objects", "ValidObjects", "CertsSerial"); d != "" {
				w.bad("C03", "%s: %s", what, d)
			}
			w.checkAdded(c, trust, pre, valid, err != nil, res, what)
		})
	}
}

// everything reachable from a key identifier
func vvReach(objs map[string]*Resource, id string) map[string]bool {
	seen := map[string]bool{}
	todo := []string{id}
	for len(todo) > 0 {
		k := todo[0]
		todo = todo[1:]
		if seen[k] {
			continue
		}
		seen[k] = true
		if o := objs[k]; o != nil {
			for _, c := range o.Childs {
				switch x := c.Resource.(type) {
				case *librpki.RPKICertificate:
					todo = append(todo, string(x.Certificate.SubjectKeyId))
				case *librpki.RPKIROA:
					todo = append(todo, string(x.Certificate.Certificate.SubjectKeyId))
				case *librpki.RPKIManifest:
					todo = append(todo, string(x.Certificate.Certificate.SubjectKeyId))
				}
			}
		}
	}
	return seen
}

func (w *vvWorld) checkGone(prop string, pre, post vvState, gone map[string]bool, what string) {
	for _, n := range []string{"ValidObjects", "ValidROA", "ValidCRL", "ValidManifest"} {
		for k, x := range pre.m[n] {
			y, ok := post.m[n][k]
			if gone[k] && ok {
				w.bad(prop, "%s: %q is still in %s", what, k, n)
			}
			if !gone[k] && (!ok || x != y) {
				w.bad(prop, "%s: %q was removed from %s or replaced", what, k, n)
			}
		}
		for k := range post.m[n] {
			if _, ok := pre.m[n][k]; !ok {
				w.bad(prop, "%s: %q appeared in %s", what, k, n)
			}
		}
	}
}

func (w *vvWorld) invalidate(id string, prop string) bool {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		w.v.InvalidateObject([]byte(id))
	}()
	select {
	case r := <-done:
		if r != nil {
			w.bad(prop, "InvalidateObject(%q) crashes: %v", id, r)
			return false
		}
	case <-time.After(10 * time.Second):
		w.bad(prop, "InvalidateObject(%q) does not end", id)
		return false
	}
	return true
}

func (w *vvWorld) opInvalidate() {
	id := string([]byte{byte('A' + w.r.Intn(9))})
	if n := len(w.specs); n > 0 && w.r.Intn(4) > 0 {
		id = w.specs[w.r.Intn(n)].Ski
	}
	w.step("", "InvalidateObject(%q)", id)
	pre := vvSnap(w.v)
	gone := vvReach(w.v.Objects, id)
	if w.invalidate(id, "C04") {
		post := vvSnap(w.v)
		w.checkGone("C04", pre, post, gone, fmt.Sprintf("InvalidateObject(%q)", id))
		if d := pre.same(post, "ValidObjects", "ValidROA", "ValidCRL", "ValidManifest"); d != "" {
			w.bad("C04", "InvalidateObject(%q): %s", id, d)
		}
	}
}

func (w *vvWorld) opCRL() {
	r := w.r
	aki := "-"
	if n := len(w.specs); n > 0 && r.Intn(6) > 0 {
		aki = w.specs[r.Intn(n)].Ski
	} else if r.Intn(2) == 0 {
		aki = "Z"
	}
	key := int(aki[0]) % 4
	if r.Intn(5) == 0 {
		key = r.Intn(4)
	}
	var serials []int64
	for n := r.Intn(4); n > 0; n-- {
		serials = append(serials, int64(1+r.Intn(4)))
	}
	crl := vvCRL(key, aki, serials)
	for i := range crl.TBSCertList.RevokedCertificates {
		crl.TBSCertList.RevokedCertificates[i].RevocationTime = vvT0.Add(time.Duration(r.Intn(5)-2) * time.Hour)
	}
	crl.TBSCertList.ThisUpdate = vvT0.Add(time.Duration(r.Intn(5)-2) * time.Hour)
	crl.TBSCertList.NextUpdate = vvT0.Add(time.Duration(r.Intn(5)-2) * time.Hour)
	for i := r.Intn(3); i > 0; i-- {
		x := pkix.Extension{Id: asn1.ObjectIdentifier{2, 5, 29, 20}, Value: []byte{2, 1, byte(i), 4, 'B'}}
		if r.Intn(2) == 0 {
			crl.TBSCertList.Extensions = append(crl.TBSCertList.Extensions, x)
		} else {
			crl.TBSCertList.Extensions = append([]pkix.Extension{x}, crl.TBSCertList.Extensions...)
		}
	}
	id := aki
	if aki == "-" {
		id = ""
	}
	what := fmt.Sprintf("AddCRL(issuer %q key %d serials %v)", id, key, serials)
	w.step("", "%s", what)
	pre := vvSnap(w.v)
	effective := false
	if p, ok := pre.m["ValidObjects"][id]; ok {
		if c, ok := p.Resource.(*librpki.RPKICertificate); ok {
			effective = c.Certificate.CheckCRLSignature(crl) == nil
		}
	}
	gone := map[string]bool{}
	if effective {
		for _, s := range serials {
			// reachability over the children that existed before and after agree: a CRL is no certificate
			for _, c := range w.serials[fmt.Sprintf("%s/%d", id, s)] {
				for k := range vvReach(w.v.Objects, string(c.Certificate.SubjectKeyId)) {
					gone[k] = true
				}
			}
		}
	}
	w.guard("C05", func() {
		valid, _, _ := w.v.AddCRL(crl)
		post := vvSnap(w.v)
		for k := range pre.revoked {
			if !post.revoked[k] {
				w.bad("C05", "%s: an earlier revocation was forgotten", what)
			}
		}
		if !effective {
			if valid {
				w.bad("C05", "%s: reported valid", what)
			}
			if len(post.revoked) != len(pre.revoked) {
				w.bad("C05", "%s: revokes although its issuer is not valid or its signature does not verify", what)
			}
			if d := pre.same(post, "CRL"); d != "" {
				w.bad("C05", "%s: without effect, but %s", what, d)
			}
			return
		}
		if !valid {
			w.bad("C05", "%s: refused", what)
		}
		if d := pre.same(post, "CRL", "ValidObjects", "ValidROA", "ValidCRL", "ValidManifest"); d != "" {
			w.bad("C05", "%s: %s", what, d)
		}
		// the list itself is recorded, and may be removed again if it revokes its own issuer
		delete(pre.m["ValidCRL"], id)
		delete(post.m["ValidCRL"], id)
		// the index holds one certificate per issuer and serial: the last one accepted
		last := map[string]bool{}
		for _, s := range serials {
			if l := w.serials[fmt.Sprintf("%s/%d", id, s)]; len(l) > 0 {
				for k := range vvReach(w.v.Objects, string(l[len(l)-1].Certificate.SubjectKeyId)) {
					last[k] = true
				}
			}
		}
		for _, n := range []string{"ValidObjects", "ValidROA", "ValidCRL", "ValidManifest"} {
			for k, x := range pre.m[n] {
				y, ok := post.m[n][k]
				if last[k] && ok {
					w.bad("C05", "%s: %q is still in %s", what, k, n)
				}
				if !gone[k] && (!ok || x != y) {
					w.bad("C05", "%s: %q was removed from %s", what, k, n)
				}
			}
			for k := range post.m[n] {
				if _, ok := pre.m[n][k]; !ok {
					w.bad("C05", "%s: %q appeared in %s", what, k, n)
				}
			}
		}
		for _, s := range serials {
			w.revoked[fmt.Sprintf("%s/%d", id, s)] = true
		}
		if len(post.revoked) != len(w.revoked) {
			w.bad("C05", "%s: %d revocations recorded, want %d", what, len(post.revoked), len(w.revoked))
		}
		// for this issuer only: fresh certificates of every valid issuer are refused exactly if their serial was listed
		for n := 0; n < 6; n++ {
			i := w.specs[w.r.Intn(len(w.specs))]
			c := vvSpec{Ski: "probe", Aki: i.Ski, SubKey: 0, IssKey: i.SubKey, Serial: int64(1 + w.r.Intn(4)), From: -time.Hour, To: time.Hour}.Cert()
			want, why := w.accept(c, false, w.v.ValidObjects)
			if (w.v.ValidateCertificate(c, false) == nil) != want {
				w.bad("C05", "%s: afterwards a certificate of %q with serial %v is judged %v (%s)", what, i.Ski, c.Certificate.SerialNumber, !want, why)
			}
		}
	})
}

func (w *vvWorld) eeSpec() vvSpec {
	s := w.randSpec()
	s.CA = 0
	s.Ski = fmt.Sprintf("e%d", w.r.Intn(30))
	if w.r.Intn(6) == 0 && len(w.specs) > 0 {
		s.Ski = w.specs[w.r.Intn(len(w.specs))].Ski
	}
	return s
}

func (w *vvWorld) opROA() {
	r := w.r
	s := w.eeSpec()
	roa := &librpki.RPKIROA{ASN: r.Intn(5), Certificate: s.Cert(), InnerValid: r.Intn(4) > 0}
	if !roa.InnerValid {
		roa.InnerValidityError = fmt.Errorf("no")
	}
	good := true
	desc := ""
	for n := r.Intn(4); n > 0; n-- {
		bits := []int{32, 128}[r.Intn(2)]
		ones := r.Intn(bits + 1)
		ip := make(net.IP, bits/8)
		for i := range ip {
			ip[i] = byte(1 + r.Intn(255))
		}
		ml := ones + r.Intn(bits-ones+1)
		switch r.Intn(8) {
		case 0:
			ml = bits + 1 + r.Intn(3)
		case 1:
			ml = ones - 1
		case 2:
			ml = bits
		case 3:
			ml = ones
		}
		m := net.CIDRMask(ones, bits)
		if k := len(roa.Entries); k > 0 && r.Intn(3) == 0 { // the same prefix again
			p := roa.Entries[k-1].IPNet
			ones, bits = p.Mask.Size()
			ip, m = p.IP, p.Mask
			ml = ones + r.Intn(3) + (r.Intn(4)/3)*(bits+1)
		}
		if ml < ones || ml > bits {
			good = false
		}
		roa.Entries = append(roa.Entries, &librpki.ROAEntry{IPNet: &net.IPNet{IP: ip.Mask(m), Mask: m}, MaxLength: ml})
		desc += fmt.Sprintf(" %v/%d max %d", ip.Mask(m), ones, ml)
	}
	what := fmt.Sprintf("AddROA(%v inner %v entries%s)", s, roa.InnerValid, desc)
	w.step("", "%s", what)
	pre := vvSnap(w.v)
	_, known := pre.m["Objects"][s.Ski]
	cert, why := w.accept(roa.Certificate, false, pre.m["ValidObjects"])
	w.guard("C02", func() { pre.verdict = w.v.ValidateCertificate(roa.Certificate, false) == nil })
	want := !known && cert && roa.InnerValid && good
	w.guard("C06", func() {
		valid, res, err := w.v.AddROA(&PKIFile{Path: "f.roa", Type: TYPE_ROA}, roa)
		post := vvSnap(w.v)
		if valid && !want {
			w.bad("C06", "%s: reported valid (known %v, certificate %v %s, entries %v)", what, known, cert, why, good)
		}
		for k, x := range post.m["ValidROA"] {
			if y, ok := pre.m["ValidROA"][k]; ok && x == y {
				continue
			}
			if !want || k != s.Ski || x.Resource != interface{}(roa) {
				w.bad("C06", "%s: in the valid ROAs at %q (known %v, certificate %v %s, entries %v)", what, k, known, cert, why, good)
			}
		}
		if d := pre.same(post, "Objects", "ValidObjects", "CertsSerial", "ROA", "ValidROA"); d != "" {
			w.bad("C06", "%s: %s", what, d)
		}
		if !known {
			w.checkAdded(roa.Certificate, false, pre, false, err != nil, nil, what)
		} else if d := pre.same(post, "ROA"); d != "" {
			w.bad("C03", "%s: %s", what, d)
		}
		_ = res
	})
}

func (w *vvWorld) opMFT() {
	r := w.r
	s := w.eeSpec()
	mft := &librpki.RPKIManifest{Certificate: s.Cert(), InnerValid: r.Intn(4) > 0}
	names := []string{"a.roa", "b.cer", "c.crl", "d.mft", "e.txt", "sub/x.roa", "roa", ".roa", "x.ROA", "a.cer.", "..a.roa", "../a.roa", "x/../a.roa", "..\\a.cer", "a..cer", "aaaa", "b..", "a.cerb.crl"}
	refuse := false
	var files []librpki.File
	for n := r.Intn(5); n > 0; n-- {
		nm := names[r.Intn(len(names))]
		for _, part := range strings.FieldsFunc(nm+"|", func(c rune) bool { return c == '|' }) {
			segs := strings.FieldsFunc(part, func(c rune) bool { return c == '/' || c == '\\' })
			for i, sg := range segs {
				if sg == ".." && (i < len(segs)-1) {
					refuse = true
				}
			}
		}
		h := make([]byte, 32)
		r.Read(h)
		files = append(files, librpki.File{Name: nm, Hash: asn1.BitString{Bytes: h, BitLength: 256}})
	}
	mft.Content.FileList = files
	var list []string
	for _, f := range files {
		list = append(list, f.Name)
	}
	what := fmt.Sprintf("AddManifest(%v inner %v files %q)", s, mft.InnerValid, list)
	w.step("", "%s", what)
	pre := vvSnap(w.v)
	_, known := pre.m["Objects"][s.Ski]
	cert, why := w.accept(mft.Certificate, false, pre.m["ValidObjects"])
	w.guard("C02", func() { pre.verdict = w.v.ValidateCertificate(mft.Certificate, false) == nil })
	want := !known && cert && mft.InnerValid && !refuse
	w.guard("C07", func() {
		valid, paths, _, err := w.v.AddManifest(&PKIFile{Path: "f.mft", Type: TYPE_MFT}, mft)
		post := vvSnap(w.v)
		if refuse {
			if err == nil || valid || len(paths) > 0 {
				w.bad("C07", "%s: a step to the parent directory is not refused", what)
			}
			if d := pre.same(post); d != "" {
				w.bad("C07", "%s: refused, but %s", what, d)
			}
			return
		}
		for k, x := range post.m["ValidManifest"] {
			if y, ok := pre.m["ValidManifest"][k]; ok && x == y {
				continue
			}
			if !want || k != s.Ski || x.Resource != interface{}(mft) {
				w.bad("C07", "%s: in the valid manifests at %q (known %v, certificate %v %s)", what, k, known, cert, why)
			}
		}
		if valid && !want {
			w.bad("C07", "%s: reported valid", what)
		}
		if d := pre.same(post, "Objects", "ValidObjects", "CertsSerial", "Manifest", "ValidManifest"); d != "" {
			w.bad("C07", "%s: %s", what, d)
		}
		if len(paths) != len(files) {
			w.bad("C07", "%s: %d files queued for %d listed", what, len(paths), len(files))
			return
		}
		for i, p := range paths {
			ty := TYPE_UNKNOWN
			if n := p.Path; len(n) > 4 {
				ty = map[string]int{".cer": TYPE_CER, ".mft": TYPE_MFT, ".crl": TYPE_CRL, ".roa": TYPE_ROA}[n[len(n)-4:]]
			}
			if p.Path != files[i].Name || !bytes.Equal(p.ManifestHash, files[i].Hash.Bytes) || p.Type != ty || p.Trust || p.Repo != "" || p.Parent != nil {
				w.bad("C07", "%s: file %d queued as %q type %d hash %x trust %v", what, i, p.Path, p.Type, p.ManifestHash, p.Trust)
			}
		}
		if !known {
			w.checkAdded(mft.Certificate, false, pre, false, err != nil, nil, what)
		}
	})
}

func vvNewWorld(t *testing.T, prop string, r *mrand.Rand) *vvWorld {
	v := NewValidator()
	v.Time = vvT0
	return &vvWorld{t: t, prop: prop, r: r, v: v, revoked: map[string]bool{}, serials: map[string][]*librpki.RPKICertificate{}}
}

func vvDrive(t *testing.T, prop string, weights [5]int) {
	r := vvRand()
	end := time.Now().Add(25 * time.Second)
	if vvN(1) > 1 {
		end = time.Now().Add(110 * time.Second)
	}
	total := 0
	for _, n := range weights {
		total += n
	}
	for it := 0; it < vvN(2500) && time.Now().Before(end); it++ {
		w := vvNewWorld(t, prop, r)
		for n := 4 + r.Intn(30); n > 0; n-- {
			k := r.Intn(total)
			for i, f := range []func(){w.opCert, w.opInvalidate, w.opCRL, w.opROA, w.opMFT} {
				if k < weights[i] {
					f()
					break
				}
				k -= weights[i]
			}
		}
	}
}

func TestVV_C02(t *testing.T) { vvDrive(t, "C02", [5]int{8, 1, 2, 2, 2}); vvChains(t) }
func TestVV_C03(t *testing.T) { vvDrive(t, "C03", [5]int{8, 1, 1, 2, 2}) }
func TestVV_C04(t *testing.T) { vvGraphs(t); vvDrive(t, "C04", [5]int{8, 4, 2, 3, 3}) }
func TestVV_C05(t *testing.T) { vvDrive(t, "C05", [5]int{8, 1, 6, 2, 2}); vvStrangers(t) }
func TestVV_C06(t *testing.T) { vvDrive(t, "C06", [5]int{5, 1, 1, 8, 1}) }
func TestVV_C07(t *testing.T) { vvDrive(t, "C07", [5]int{5, 1, 1, 1, 8}) }

// long chains of inheriting issuers
func vvChains(t *testing.T) {
	r := vvRand()
	for it := 0; it < vvN(1500); it++ {
		w := vvNewWorld(t, "C02", r)
		n := 2 + r.Intn(5)
		var last string
		for i := 0; i < n; i++ {
			s := vvSpec{Ski: fmt.Sprintf("c%d", i), Aki: last, SubKey: i % 4, IssKey: (i + 3) % 4, CA: 1, Serial: int64(i + 1), From: -time.Hour, To: time.Hour}
			switch r.Intn(5) {
			case 0:
				s.IPs = []librpki.IPCertificateInformation{vvIPPool[r.Intn(len(vvIPPool))]}
				s.ASNs = []librpki.ASNCertificateInformation{vvASPool[r.Intn(len(vvASPool))]}
			case 1:
				s.IPs = []librpki.IPCertificateInformation{vvIPPool[8], vvIPPool[r.Intn(4)], vvIPPool[9]}
				s.ASNs = []librpki.ASNCertificateInformation{vvASPool[2], vvASPool[4]}
			default:
				s.IPs = []librpki.IPCertificateInformation{vvIPPool[8], vvIPPool[9]}
				s.ASNs = []librpki.ASNCertificateInformation{vvASPool[4]}
			}
			if i == 0 && r.Intn(4) > 0 {
				s.IPs = []librpki.IPCertificateInformation{vvIPPool[r.Intn(8)], vvIPPool[r.Intn(8)]}
				s.ASNs = []librpki.ASNCertificateInformation{vvASPool[r.Intn(4)]}
			}
			trust := i == 0 || i < n-1 && r.Intn(3) > 0
			if i == n-1 {
				for k := r.Intn(3); k > 0; k-- {
					s.IPs = append(s.IPs, vvIPPool[r.Intn(len(vvIPPool))])
					s.ASNs = append(s.ASNs, vvASPool[r.Intn(len(vvASPool))])
				}
			}
			c := s.Cert()
			pre := vvSnap(w.v)
			w.step("", "AddCert(%v, %v)", s, trust)
			want, why := w.accept(c, trust, pre.m["ValidObjects"])
			w.guard("C02", func() {
				if _, _, _, err := w.v.AddCert(c, trust); err == nil && !want {
					w.bad("C02", "accepted although %s", why)
				}
				if _, has := w.v.ValidObjects[s.Ski]; has && !want {
					w.bad("C02", "valid although %s", why)
				}
			})
			last = s.Ski
		}
	}
}

// arbitrary link structures, cycles included
func vvGraphs(t *testing.T) {
	r := vvRand()
	for it := 0; it < vvN(4000); it++ {
		w := vvNewWorld(t, "C04", r)
		n := 1 + r.Intn(9)
		v := w.v
		id := func(i int) string { return fmt.Sprintf("n%d", i) }
		var nodes []*Resource
		for i := 0; i < n; i++ {
			c := vvSpec{Ski: id(i), Serial: 1}.Cert()
			res := ObjectToResource(c)
			nodes = append(nodes, res)
			if r.Intn(8) > 0 {
				v.Objects[id(i)] = res
			}
			if r.Intn(6) > 0 {
				v.ValidObjects[id(i)] = res
			}
			leaf := func(x interface{}) *Resource { return ObjectToResource(x) }
			if r.Intn(3) == 0 {
				x := leaf(&librpki.RPKIROA{Certificate: c})
				v.ValidROA[id(i)], v.ROA[id(i)] = x, x
				res.Childs = append(res.Childs, x)
			}
			if r.Intn(3) == 0 {
				x := leaf(&librpki.RPKIManifest{Certificate: c})
				v.ValidManifest[id(i)], v.Manifest[id(i)] = x, x
				res.Childs = append(res.Childs, x)
			}
			if r.Intn(3) == 0 {
				x := leaf(vvCRL(0, id(i), nil))
				v.ValidCRL[id(i)], v.CRL[id(i)] = x, x
				res.Childs = append(res.Childs, x)
			}
			if r.Intn(6) == 0 {
				// a signed object filed under another certificate's identifier
				x := leaf(&librpki.RPKIROA{Certificate: vvSpec{Ski: id(r.Intn(n))}.Cert()})
				res.Childs = append(res.Childs, x)
			}
		}
		for e := r.Intn(2*n + 1); e > 0; e-- {
			a, b := r.Intn(n), r.Intn(n)
			nodes[a].Childs = append(nodes[a].Childs, nodes[b])
			w.step("", "n%d->n%d", a, b)
		}
		start := id(r.Intn(n))
		w.step("", "InvalidateObject(%q)", start)
		pre := vvSnap(v)
		gone := vvReach(v.Objects, start)
		if !w.invalidate(start, "C04") {
			return
		}
		post := vvSnap(v)
		w.checkGone("C04", pre, post, gone, "InvalidateObject")
		if d := pre.same(post, "ValidObjects", "ValidROA", "ValidCRL", "ValidManifest"); d != "" {
			w.bad("C04", "InvalidateObject: %s", d)
		}
	}
}

// revocation lists arriving as files, their issuer known or not
func vvStrangers(t *testing.T) {
	for it := 0; it < 4; it++ {
		w := vvNewWorld(t, "C05", vvRand())
		der, err := librpki.CreateCRL(&x509.Certificate{SubjectKeyId: []byte("unknown")}, rand.Reader, CreateKeys()[0], nil, vvT0, vvT0, big.NewInt(1))
		vvMust(err)
		f := &PKIFile{Path: "x.crl", Type: TYPE_CRL}
		if it > 0 {
			f.Parent = &PKIFile{Type: TYPE_MFT, Path: "x.mft"}
		}
		if it > 1 {
			f.Parent.Parent = &PKIFile{Type: TYPE_CER, Path: "x.cer"}
		}
		w.step("", "AddResource of a CRL of an unknown issuer, %d ancestors", it)
		w.guard("C05", func() {
			if ok, _, _, err := w.v.AddResource(f, der); ok || err == nil {
				w.bad("C05", "taken")
			}
		})
		if len(w.v.Revoked) > 0 || len(w.v.ValidCRL) > 0 {
			w.bad("C05", "took effect")
		}
	}
}
