package librpki

import (
	"bytes"
	"crypto"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"math/big"
	"math/rand"
	"net"
	"strings"
	"testing"
	"time"
)

// ---- C12 ----

// vvDER checks that b is one DER-shaped element with minimal lengths throughout; it returns the rest.
func vvDER(b []byte, depth int) ([]byte, error) {
	if len(b) < 1 {
		return nil, fmt.Errorf("empty")
	}
	con := b[0]&0x20 != 0
	i := 1
	if b[0]&0x1f == 0x1f {
		for i < len(b) && b[i] >= 0x80 {
			i++
		}
		i++
	}
	if i >= len(b) {
		return nil, fmt.Errorf("no length")
	}
	l := int(b[i])
	i++
	if l >= 0x80 {
		n := l - 0x80
		l = 0
		if n == 0 || n > 8 || i+n > len(b) || b[i] == 0 {
			return nil, fmt.Errorf("length form %x is not minimal", b[i-1])
		}
		for k := 0; k < n; k++ {
			l = l<<8 | int(b[i+k])
		}
		i += n
		if l < 128 {
			return nil, fmt.Errorf("long form for length %d", l)
		}
	}
	if i+l > len(b) {
		return nil, fmt.Errorf("length %d, %d bytes follow", l, len(b)-i)
	}
	body := b[i : i+l]
	if con {
		for len(body) > 0 {
			var err error
			if body, err = vvDER(body, depth+1); err != nil {
				return nil, err
			}
		}
	}
	return b[i+l:], nil
}

func vvBER(r *rand.Rand, depth int) []byte {
	tag := byte(r.Intn(4)<<6 | r.Intn(31))
	tags := []byte{tag}
	con := depth > 0 && r.Intn(2) == 0
	if con {
		tags[0] |= 0x20
	}
	if r.Intn(8) == 0 {
		tags[0] |= 0x1f
		for r.Intn(2) == 0 {
			tags = append(tags, 0x80|byte(r.Intn(128)))
		}
		tags = append(tags, byte(r.Intn(128)))
	}
	var body []byte
	if con {
		for n := r.Intn(4); n > 0; n-- {
			body = append(body, vvBER(r, depth-1)...)
		}
	} else {
		n := r.Intn(6)
		switch r.Intn(12) {
		case 0:
			n = 120 + r.Intn(20)
		case 1:
			n = 250 + r.Intn(12)
		case 2:
			n = 65530 + r.Intn(12)
		}
		body = make([]byte, n)
		r.Read(body)
	}
	out := append([]byte{}, tags...)
	switch {
	case con && len(body) > 0 && r.Intn(3) == 0:
		return append(append(append(out, 0x80), body...), 0, 0)
	case len(body) < 128 && r.Intn(3) > 0:
		out = append(out, byte(len(body)))
	default:
		var l []byte
		for n := len(body); n > 0; n >>= 8 {
			l = append([]byte{byte(n)}, l...)
		}
		if len(l) == 0 {
			out = append(out, 0)
			break
		}
		out = append(append(out, 0x80|byte(len(l))), l...)
	}
	return append(out, body...)
}

func vvHex(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("%x… (%d bytes)", b[:60], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func TestVV_C12(t *testing.T) {
	r := vvRand()
	try := func(in []byte) {
		defer func() {
			if x := recover(); x != nil {
				vvFail(t, "C12", "BER2DER(%s) crashes: %v", vvHex(in), x)
			}
		}()
		in = in[:len(in):len(in)]
		out, err := BER2DER(in)
		if err != nil {
			return
		}
		rest, err := vvDER(out, 0)
		if err != nil || len(rest) > 0 {
			vvFail(t, "C12", "BER2DER(%s) = %s: %v, %d bytes left over", vvHex(in), vvHex(out), err, len(rest))
		}
	}
	small := []byte{0, 1, 2, 4, 5, 0x1f, 0x24, 0x30, 0x3f, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x88, 0xff}
	var rec func(p []byte, n int)
	rec = func(p []byte, n int) {
		try(append([]byte{}, p...))
		if n > 0 {
			for _, b := range small {
				rec(append(append([]byte{}, p...), b), n-1)
			}
		}
	}
	rec(nil, 4)
	for it := 0; it < vvN(4000); it++ {
		b := vvBER(r, 4)
		try(b)
		for k := 0; k < 3 && len(b) > 0; k++ {
			c := append([]byte{}, b...)
			switch r.Intn(3) {
			case 0:
				c = c[:r.Intn(len(c))]
			case 1:
				c[r.Intn(vvMin(len(c), 40))] = small[r.Intn(len(small))]
			default:
				i := r.Intn(len(c))
				c = append(c[:i], c[vvMin(len(c), i+1+r.Intn(3)):]...)
			}
			try(c)
		}
	}
	for _, n := range []int{0, 1, 127, 128, 255, 256, 257, 65535, 65536, 1 << 24, 1<<24 - 1} {
		var out bytes.Buffer
		if err := encodeLength(&out, n); err != nil {
			continue
		}
		var want []byte
		if n < 128 {
			want = []byte{byte(n)}
		} else {
			be := big.NewInt(int64(n)).Bytes()
			want = append([]byte{0x80 | byte(len(be))}, be...)
		}
		if !bytes.Equal(out.Bytes(), want) {
			vvFail(t, "C12", "length %d is written as %x, want %x", n, out.Bytes(), want)
		}
	}
	// deep nesting must end with an answer; a stack overflow cannot be recovered and ends the test binary
	deep := bytes.Repeat([]byte{0x30, 0x80}, 3<<20)
	fmt.Println("VVNOTE C12 deep nesting")
	try(deep)
}

// ---- C13 ----

// the first address of one bit string and the last of another, for addresses of size bytes
func vvEnds(x, y asn1.BitString, size int) string {
	if x.BitLength > size*8 || y.BitLength > size*8 {
		return ""
	}
	lo, hi := make([]byte, size), make([]byte, size)
	for i := 0; i < size*8; i++ {
		if i < x.BitLength {
			lo[i/8] |= byte(x.At(i)) << uint(7-i%8)
		}
		if i >= y.BitLength || y.At(i) == 1 {
			hi[i/8] |= 1 << uint(7-i%8)
		}
	}
	return fmt.Sprintf(" %x-%x", lo, hi)
}

func TestVV_C13(t *testing.T) {
	r := vvRand()
	bits := func(n int) asn1.BitString {
		b := make([]byte, (n+7)/8)
		r.Read(b)
		if n%8 != 0 {
			b[len(b)-1] &= byte(0xff << uint(8-n%8))
		}
		return asn1.BitString{Bytes: b, BitLength: n}
	}
	bitOf := func(b []byte, i int) byte { return b[i/8] >> uint(7-i%8) & 1 }
	for it := 0; it < vvN(60000); it++ {
		fam, size := []byte{0, 1}, 4
		if r.Intn(2) == 0 {
			fam, size = []byte{0, 2}, 16
		}
		known := true
		switch r.Intn(8) {
		case 0:
			fam = [][]byte{{}, {0}, {1}, {0, 0}, {0, 3}, {0, 16}}[r.Intn(6)]
			known = false
		case 1:
			fam = append(append([]byte{}, fam...), byte(r.Intn(3)))
		}
		n := r.Intn(size*8 + 1)
		if r.Intn(6) == 0 {
			n = size*8 + 1 + r.Intn(20)
		}
		bs := bits(n)
		in := fmt.Sprintf("family %x, %d bits %x", fam, n, bs.Bytes)
		ok := known && n <= size*8
		want := func(fill byte) []byte {
			w := make([]byte, size)
			for i := 0; i < size*8; i++ {
				v := fill
				if i < n {
					v = bitOf(bs.Bytes, i)
				}
				w[i/8] |= v << uint(7-i%8)
			}
			return w
		}
		vvGuard(t, "C13", in, func() {
			p, err := DecodeIP(fam, bs)
			if (err == nil) != ok {
				vvFail(t, "C13", "DecodeIP: error %v, want accepted=%v; %s", err, ok, in)
			}
			lo, err1 := DecodeIPMinMax(fam, bs, false)
			hi, err2 := DecodeIPMinMax(fam, bs, true)
			if (err1 == nil) != ok || (err2 == nil) != ok {
				vvFail(t, "C13", "DecodeIPMinMax: errors %v, %v, want accepted=%v; %s", err1, err2, ok, in)
			}
			if !ok {
				return
			}
			w0, w1 := want(0), want(1)
			ones, total := p.Mask.Size()
			if !bytes.Equal(p.IP, w0) || ones != n || total != size*8 {
				vvFail(t, "C13", "DecodeIP = %v (%d/%d); %s", p, ones, total, in)
			}
			if !bytes.Equal(lo, w0) || !bytes.Equal(hi, w1) {
				vvFail(t, "C13", "DecodeIPMinMax = %v, %v, want %v, %v; %s", lo, hi, net.IP(w0), net.IP(w1), in)
			}
			// a host address of the prefix: first and last address, and the way back
			host := &net.IPNet{IP: append(net.IP{}, w0...), Mask: p.Mask}
			for i := n; i < size*8; i++ {
				host.IP[i/8] |= byte(r.Intn(2)) << uint(7-i%8)
			}
			e, a, b := GetRangeIP(host)
			if e != nil || !bytes.Equal(a, w0) || !bytes.Equal(b, w1) {
				vvFail(t, "C13", "GetRangeIP(%v) = %v, %v, %v; %s", host, e, a, b, in)
			}
			g0, g1, inh := (&IPNet{IPNet: p}).GetRange()
			if inh || !bytes.Equal(g0, w0) || !bytes.Equal(g1, w1) {
				vvFail(t, "C13", "IPNet.GetRange(%v) = %v, %v, %v; %s", p, g0, g1, inh, in)
			}
			back := IPNetToBitString(*host)
			if back.BitLength != n || !bytes.Equal(back.Bytes, bs.Bytes) {
				vvFail(t, "C13", "IPNetToBitString(%v) = %d bits %x; %s", host, back.BitLength, back.Bytes, in)
			}
		})
	}
	// whole blocks: refused when one of the addresses is refused
	for it := 0; it < vvN(3000); it++ {
		type fam struct {
			AddressFamily []byte
			Choice        asn1.RawValue
		}
		type rng struct{ Min, Max asn1.BitString }
		var fams []fam
		bad := false
		var want []string
		for k := r.Intn(3); k >= 0; k-- {
			f, size := []byte{0, 1}, 4
			if r.Intn(2) == 0 {
				f, size = []byte{0, 2}, 16
			}
			if r.Intn(8) == 0 {
				f[1] = 3
			}
			var els []asn1.RawValue
			for j := r.Intn(4); j > 0; j-- {
				n, m := r.Intn(size*8+1), r.Intn(size*8+1)
				if r.Intn(10) == 0 {
					n += 8 * size
				}
				if r.Intn(10) == 0 {
					m += 8 * size
				}
				var e []byte
				x, y := bits(n), bits(m)
				if r.Intn(2) == 0 {
					e, _ = asn1.Marshal(x)
					bad = bad || n > size*8 || f[1] == 3
					want = append(want, "net"+vvEnds(x, x, size))
				} else {
					e, _ = asn1.Marshal(rng{x, y})
					bad = bad || n > size*8 || m > size*8 || f[1] == 3
					want = append(want, "range"+vvEnds(x, y, size))
				}
				els = append(els, asn1.RawValue{FullBytes: e})
			}
			ch, _ := asn1.Marshal(els)
			if len(els) == 0 {
				ch = []byte{5, 0}
				want = append(want, fmt.Sprint("inherit ", map[byte]int{1: 1, 2: 2}[f[1]]))
			}
			fams = append(fams, fam{f, asn1.RawValue{FullBytes: ch}})
		}
		data, err := asn1.Marshal(fams)
		if err != nil {
			t.Fatal(err)
		}
		vvGuard(t, "C13", data, func() {
			l, err := DecodeIPAddressBlock(data)
			if bad != (err != nil) {
				vvFail(t, "C13", "DecodeIPAddressBlock(%x): error %v, want refused=%v", data, err, bad)
			}
			if err != nil {
				return
			}
			var got []string
			for _, x := range l {
				switch y := x.(type) {
				case *IPNet:
					lo, hi, _ := y.GetRange()
					got = append(got, fmt.Sprintf("net %x-%x", []byte(lo), []byte(hi)))
				case *IPAddressRange:
					lo, hi, _ := y.GetRange()
					got = append(got, fmt.Sprintf("range %x-%x", []byte(lo), []byte(hi)))
				case *IPAddressNull:
					got = append(got, fmt.Sprint("inherit ", y.Family))
				}
			}
			if strings.Join(got, " ") != strings.Join(want, " ") {
				vvFail(t, "C13", "DecodeIPAddressBlock(%x) = %v, want %v", data, got, want)
			}
		})
	}
}

// ---- C06: the entries of a ROA ----

func TestVV_C06(t *testing.T) {
	r := vvRand()
	for it := 0; it < vvN(60000); it++ {
		var blocks []IPCertificateInformation
		for i := r.Intn(4); i > 0; i-- {
			blocks = append(blocks, vvBlock(r))
		}
		cert := &RPKICertificate{IPAddresses: blocks}
		var es []*ROAEntry
		var wv, wi, wc []*ROAEntry
		in := "certificate " + vvShow(blocks) + " entries"
		okAll := true
		for i := r.Intn(5); i > 0; i-- {
			ip := vvIP(r)
			n := len(ip)*8 - r.Intn(12)
			m := net.CIDRMask(n, len(ip)*8)
			if r.Intn(10) == 0 {
				m = net.IPMask{255}
			}
			if k := len(es); k > 0 && r.Intn(4) == 0 { // the same prefix again
				ip, m = es[k-1].IPNet.IP, es[k-1].IPNet.Mask
				n, _ = m.Size()
			}
			e := &ROAEntry{IPNet: &net.IPNet{IP: ip, Mask: m}, MaxLength: n + r.Intn(12) - 3}
			switch r.Intn(12) {
			case 0:
				e.MaxLength = 33 + r.Intn(100)
			case 1:
				e.MaxLength = -r.Intn(3)
			}
			es = append(es, e)
			in += fmt.Sprintf(" %v/%d-%d", e.IPNet.IP, n, e.MaxLength)
			if len(m) < len(ip) {
				wi = append(wi, e)
				continue
			}
			lo, hi, _, _ := vvRange(&IPNet{IPNet: e.IPNet})
			v, c := vvContained(blocks, lo, hi)
			switch {
			case v:
				wv = append(wv, e)
			case c:
				wc = append(wc, e)
			default:
				wi = append(wi, e)
			}
			good := e.MaxLength >= n && e.MaxLength <= 8*len(ip)
			okAll = okAll && good
			if g := e.Validate() == nil; g != good {
				vvFail(t, "C06", "entry %v maximum length %d: accepted=%v", e.IPNet, e.MaxLength, g)
			}
		}
		eq := func(a, b []*ROAEntry) bool {
			if len(a) != len(b) {
				return false
			}
			for i := range a {
				if a[i] != b[i] {
					return false
				}
			}
			return true
		}
		vvGuard(t, "C06", in, func() {
			roa := &RPKIROA{Entries: es}
			gv, gi, gc := roa.ValidateIPRoaCertificate(cert)
			if !eq(gv, wv) || !eq(gi, wi) || !eq(gc, wc) {
				vvFail(t, "C06", "usable/unusable/undecided sizes %d/%d/%d, want %d/%d/%d (or other members); %s", len(gv), len(gi), len(gc), len(wv), len(wi), len(wc), in)
			}
			if !okAll && roa.ValidateEntries() == nil {
				vvFail(t, "C06", "ValidateEntries accepts; %s", in)
			}
		})
	}
}

// ---- signed objects ----

var vvKeys = map[string]*rsa.PrivateKey{}

func vvKey(name string) *rsa.PrivateKey {
	if vvKeys[name] == nil {
		k, err := rsa.GenerateKey(crand.Reader, 2048)
		if err != nil {
			panic(err)
		}
		vvKeys[name] = k
	}
	return vvKeys[name]
}

func vvEE(pub, signer *rsa.PrivateKey, exts []pkix.Extension) []byte {
	c := &x509.Certificate{SerialNumber: big.NewInt(42), Subject: pkix.Name{CommonName: "ee"}, SubjectKeyId: []byte{1, 2, 3, 4, 5, 1, 2, 3, 4, 5, 1, 2, 3, 4, 5, 1, 2, 3, 4, 5},
		NotBefore: time.Unix(1500000000, 0), NotAfter: time.Unix(1900000000, 0), ExtraExtensions: exts}
	b, err := x509.CreateCertificate(crand.Reader, c, c, &pub.PublicKey, signer)
	if err != nil {
		panic(err)
	}
	return b
}

// vvObject builds a signed ROA, manifest or XML message the way the module's own tools do.
func vvObject(kind string, change func(*CMS)) []byte {
	k := vvKey("ee")
	_, prefix, _ := net.ParseCIDR("10.0.0.0/20")
	_, p6, _ := net.ParseCIDR("2001:db8::/32")
	ips, _ := EncodeIPAddressBlock([]IPCertificateInformation{&IPNet{IPNet: prefix}, &IPNet{IPNet: p6}, &IPAddressRange{Min: net.ParseIP("10.1.0.0"), Max: net.ParseIP("10.1.0.255")}})
	asn, _ := EncodeASN([]ASNCertificateInformation{&ASN{ASN: 65001}, &ASNRange{Min: 1, Max: 9}}, nil)
	sia, _ := EncodeSIA([]*SIA{{AccessMethod: CertRepository, GeneralName: []byte("rsync://a/b/")}})
	cert := vvEE(k, k, []pkix.Extension{*ips, *asn, *sia})
	var enc interface{}
	var ec []byte
	switch kind {
	case "roa":
		e, err := EncodeROAEntries(65001, []*ROAEntry{{IPNet: prefix, MaxLength: 22}, {IPNet: p6, MaxLength: 48}})
		if err != nil {
			panic(err)
		}
		enc = e
		ec, _ = EContentToEncap(e.EContent.FullBytes)
	case "mft":
		e, err := EncodeManifestContent(ManifestContent{ManifestNumber: big.NewInt(7), ThisUpdate: time.Unix(1500000000, 0).UTC(), NextUpdate: time.Unix(1900000000, 0).UTC(), FileHashAlg: SHA256OID,
			FileList: []File{{Name: "a.roa", Hash: asn1.BitString{Bytes: make([]byte, 32), BitLength: 256}}, {Name: "b.crl", Hash: asn1.BitString{Bytes: make([]byte, 32), BitLength: 256}}}})
		if err != nil {
			panic(err)
		}
		enc = e
		ec, _ = EContentToEncap(e.EContent.FullBytes)
	case "xml":
		e, err := EncodeXMLData([]byte("<msg>hello, world</msg>"))
		if err != nil {
			panic(err)
		}
		enc = e
		ec, _ = EContentToEncapBF(e.EContent.FullBytes, true)
	}
	cms, err := EncodeCMS(nil, enc, time.Unix(1600000000, 0).UTC())
	if err != nil {
		panic(err)
	}
	if err := cms.Sign(crand.Reader, []byte{1, 2, 3}, ec, k, cert); err != nil {
		panic(err)
	}
	if change != nil {
		change(cms)
	}
	b, err := asn1.Marshal(*cms)
	if err != nil {
		panic(err)
	}
	return b
}

// vvIntact decides independently whether digest and signature cover the content.
func vvIntact(c *CMS, content []byte, cert *x509.Certificate) bool {
	if len(c.SignedData.SignerInfos) == 0 {
		return false
	}
	si := c.SignedData.SignerInfos[0]
	var md []byte
	for _, a := range si.SignedAttrs {
		if a.AttrType.Equal(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 4}) && len(a.AttrValue) == 1 {
			md = a.AttrValue[0].Bytes
		}
	}
	h := sha256.Sum256(content)
	if !bytes.Equal(md, h[:]) {
		return false
	}
	b, err := asn1.Marshal(SignedAttributesDigest{SignedAttrs: si.SignedAttrs})
	if err != nil || len(b) < 2 {
		return false
	}
	d := sha256.Sum256(b[2:])
	pub, ok := cert.PublicKey.(*rsa.PublicKey)
	return ok && rsa.VerifyPKCS1v15(pub, crypto.SHA256, d[:], si.Signature) == nil
}

type vvDecoded struct {
	name    string
	err     error
	ok      bool
	cert    *RPKICertificate
	content []byte
}

func vvDecodeAll(data []byte) []vvDecoded {
	var out []vvDecoded
	for _, strict := range []bool{true, false} {
		cf := &DecoderConfig{ValidateStrict: strict}
		if roa, err := cf.DecodeROA(data); true {
			d := vvDecoded{name: fmt.Sprintf("roa strict=%v", strict), err: err}
			if roa != nil {
				d.ok, d.cert = roa.InnerValid, roa.Certificate
			}
			out = append(out, d)
		}
		if m, err := cf.DecodeManifest(data); true {
			d := vvDecoded{name: fmt.Sprintf("mft strict=%v", strict), err: err}
			if m != nil {
				d.ok, d.cert = m.InnerValid, m.Certificate
			}
			out = append(out, d)
		}
	}
	if x, err := DecodeXML(data); true {
		d := vvDecoded{name: "xml", err: err}
		if x != nil {
			d.ok, d.cert, d.content = x.InnerValid, x.Certificate, x.Content
		}
		out = append(out, d)
	}
	return out
}

// the content of the envelope, found independently of the decoders
func vvContent(c *CMS, kind string) []byte {
	var e struct {
		OID asn1.ObjectIdentifier
		EC  asn1.RawValue `asn1:"tag:0,explicit,optional"`
	}
	if _, err := asn1.Unmarshal(c.SignedData.EncapContentInfo.FullBytes, &e); err != nil && kind != "roa" {
		return nil
	}
	var inner asn1.RawValue
	if _, err := asn1.Unmarshal(e.EC.Bytes, &inner); err != nil {
		return nil
	}
	if kind == "xml" {
		return inner.Bytes
	}
	var out []byte
	rest := inner.Bytes
	var first asn1.RawValue
	if _, err := asn1.Unmarshal(rest, &first); err != nil {
		return nil
	}
	if first.Tag == asn1.TagOctetString {
		for len(rest) > 0 {
			var x []byte
			r2, err := asn1.Unmarshal(rest, &x)
			if err != nil {
				return nil
			}
			out, rest = append(out, x...), r2
		}
	} else {
		out = first.FullBytes
	}
	if kind == "mft" {
		out, _ = BER2DER(out)
	}
	return out
}

func vvCheckObject(t *testing.T, prop string, data []byte) {
	defer func() {
		if x := recover(); x != nil {
			vvFail(t, "C14", "decoding crashes: %v; input %x", x, data)
		}
	}()
	for _, d := range vvDecodeAll(data) {
		if !d.ok || prop != "C08" {
			continue
		}
		c, err := DecodeCMS(data)
		if err != nil || d.cert == nil {
			vvFail(t, "C08", "%s inner-valid without envelope or certificate; input %x", d.name, data)
		}
		if !vvIntact(c, vvContent(c, d.name[:3]), d.cert.Certificate) {
			vvFail(t, "C08", "%s inner-valid although digest or signature do not cover the content; input %x", d.name, data)
		}
		if strings.HasSuffix(d.name, "strict=true") {
			if m, err := c.CheckSignaturesMatch(); err != nil || !m {
				vvFail(t, "C08", "%s accepted though the algorithms do not match; input %x", d.name, data)
			}
			if !vvAlgs(c) {
				vvFail(t, "C08", "%s accepted though the algorithms differ; input %x", d.name, data)
			}
		}
	}
}

// the signature algorithm of certificate and message, compared independently
func vvAlgs(c *CMS) bool {
	var cert struct {
		TBS struct {
			Raw asn1.RawContent
			V   int `asn1:"optional,explicit,default:0,tag:0"`
			SN  asn1.RawValue
			Alg asn1.RawValue
		}
		Alg asn1.RawValue
		Sig asn1.RawValue
	}
	if _, err := asn1.Unmarshal(c.SignedData.Certificates.Bytes, &cert); err != nil {
		return false
	}
	return len(c.SignedData.SignerInfos) > 0 && bytes.Equal(cert.TBS.Alg.FullBytes, c.SignedData.SignerInfos[0].SignatureAlgorithm.FullBytes)
}

// vvMutate changes one element of a nested encoding and rebuilds all lengths above it.
func vvMutate(r *rand.Rand, b []byte, depth int) []byte {
	var v asn1.RawValue
	rest, err := asn1.Unmarshal(b, &v)
	if err != nil || len(v.FullBytes) == 0 {
		return b
	}
	head := v.FullBytes[0]
	body := append([]byte{}, v.Bytes...)
	wrap := func(tag byte, c []byte) []byte {
		n, _ := asn1.Marshal(asn1.RawValue{Class: int(tag >> 6), Tag: int(tag & 0x1f), IsCompound: tag&0x20 != 0, Bytes: c})
		return n
	}
	if v.Tag >= 31 {
		return b
	}
	var kids [][]byte
	if v.IsCompound || (depth < 9 && head == 4 && len(body) > 2 && r.Intn(2) == 0) {
		for x := body; len(x) > 0; {
			var k asn1.RawValue
			y, err := asn1.Unmarshal(x, &k)
			if err != nil {
				kids = nil
				break
			}
			kids = append(kids, k.FullBytes)
			x = y
		}
	}
	if len(kids) > 0 && r.Intn(6) > 0 {
		i := r.Intn(len(kids))
		switch r.Intn(12) {
		case 0:
			kids = append(kids[:i:i], kids[i+1:]...)
		case 1:
			kids = append(kids[:i+1:i+1], kids[i:]...)
		case 2:
			kids = nil
		default:
			kids[i] = vvMutate(r, kids[i], depth+1)
		}
		return append(wrap(head, bytes.Join(kids, nil)), rest...)
	}
	switch r.Intn(8) {
	case 0:
		body = nil
	case 1:
		if len(body) > 0 {
			body = body[:r.Intn(len(body))]
		}
	case 2:
		body = append(body, byte(r.Intn(256)))
	case 3, 4:
		if len(body) > 0 {
			body[r.Intn(len(body))] ^= 1 << uint(r.Intn(8))
		}
	case 5:
		head = byte([]int{2, 3, 4, 5, 6, 0x30, 0x31, 0xa0, 0x80, 0x81, 1}[r.Intn(11)])
	case 6:
		if len(body) > 0 {
			body[0] = byte([]int{0, 1, 2, 3, 7, 8, 0x7f, 0x80, 0xff}[r.Intn(9)])
		}
	case 7:
		body = bytes.Repeat([]byte{byte(r.Intn(256))}, r.Intn(40))
	}
	return append(wrap(head, body), rest...)
}

func vvObjects(r *rand.Rand, quick int, f func([]byte)) {
	var base [][]byte
	for _, k := range []string{"roa", "mft", "xml"} {
		b := vvObject(k, nil)
		base = append(base, b)
		f(b)
		base = append(base, vvObject(k, func(c *CMS) { c.SignedData.SignerInfos = nil }))
		// the algorithm of the certificate, for strict decoding
		base = append(base, vvObject(k, vvMatchAlg))
		base = append(base, vvObject(k, func(c *CMS) {
			vvMatchAlg(c)
			c.SignedData.SignerInfos[0].Signature = bytes.Repeat([]byte{7}, 256)
		}))
		base = append(base, vvObject(k, func(c *CMS) {
			vvMatchAlg(c)
			c.SignedData.SignerInfos = append(c.SignedData.SignerInfos, c.SignedData.SignerInfos[0])
			c.SignedData.SignerInfos[0].Signature = []byte{}
		}))
	}
	for _, b := range base {
		f(b)
	}
	for it := 0; it < vvN(quick); it++ {
		b := base[r.Intn(len(base))]
		for n := 1 + r.Intn(2); n > 0; n-- {
			b = vvMutate(r, b, 0)
		}
		f(b)
	}
}

func vvMatchAlg(c *CMS) {
	alg, _ := asn1.Marshal(struct {
		OID  asn1.ObjectIdentifier
		Null asn1.RawValue
	}{asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 1, 11}, asn1.NullRawValue})
	c.SignedData.SignerInfos[0].SignatureAlgorithm = asn1.RawValue{FullBytes: alg}
}

func TestVV_C14(t *testing.T) {
	r := vvRand()
	vvObjects(r, 9000, func(b []byte) { vvCheckObject(t, "C14", b) })
	// resource extensions and certificates on their own
	k := vvKey("ee")
	_, p, _ := net.ParseCIDR("10.0.0.0/20")
	ips, _ := EncodeIPAddressBlock([]IPCertificateInformation{&IPNet{IPNet: p}, &IPAddressRange{Min: net.ParseIP("10.1.0.0"), Max: net.ParseIP("10.1.0.255")}, &IPAddressNull{Family: 2}})
	asn, _ := EncodeASN([]ASNCertificateInformation{&ASN{ASN: 65001}, &ASNRange{Min: 1, Max: 9}}, []ASNCertificateInformation{&ASNull{}})
	use := func(l []IPCertificateInformation) {
		c := &RPKICertificate{IPAddresses: l}
		for _, x := range l {
			x.GetRange()
			c.IsIPRangeInCertificate(net.IP{10, 0, 0, 1}, net.IP{10, 0, 0, 9})
		}
	}
	for it := 0; it < vvN(20000); it++ {
		a, b := vvMutate(r, ips.Value, 0), vvMutate(r, asn.Value, 0)
		if r.Intn(2) == 0 {
			a, b = vvMutate(r, a, 0), vvMutate(r, b, 0)
		}
		vvGuard(t, "C14", a, func() {
			l, err := DecodeIPAddressBlock(a)
			if err == nil {
				use(l)
			}
		})
		vvGuard(t, "C14", b, func() { DecodeASN(b); DecodeSubjectInformationAccess(b); DecodeKeyAuthority(b); DecodeKeyIdentifier(b) })
		if it%40 == 0 {
			c := vvEE(k, k, []pkix.Extension{{Id: IpAddrBlock, Value: a}, {Id: AutonomousSysIds, Value: b}})
			vvGuard(t, "C14", c, func() {
				if rc, err := DecodeCertificate(c); err == nil {
					use(rc.IPAddresses)
				}
			})
			roa := vvObject("roa", func(m *CMS) {
				vvMatchAlg(m)
				var inner asn1.RawValue
				asn1.Unmarshal(c, &inner)
				cm, _ := asn1.MarshalWithParams([]asn1.RawValue{inner}, "tag:0,optional")
				m.SignedData.Certificates = asn1.RawValue{FullBytes: cm}
			})
			vvCheckObject(t, "C14", roa)
		}
	}
}

// ---- C08 ----

func TestVV_C08(t *testing.T) {
	r := vvRand()
	vvObjects(r, 4000, func(b []byte) { vvCheckObject(t, "C08", b) })
	// unchanged objects of the module's own making are intact
	for _, k := range []string{"roa", "mft", "xml"} {
		b := vvObject(k, vvMatchAlg)
		seen := false
		for _, d := range vvDecodeAll(b) {
			seen = seen || d.name[:3] == k && d.ok
		}
		if !seen {
			vvFail(t, "C08", "an intact %s is not marked as inner-valid", k)
		}
	}
	// a signature block that only looks like one: with exponent 3 anybody can compute it
	forge(t)
}

// forge computes, without the private key, a value whose cube carries the expected digest behind arbitrary padding.
func forge(t *testing.T) {
	var priv *rsa.PrivateKey
	for priv == nil {
		p, _ := crand.Prime(crand.Reader, 1024)
		q, _ := crand.Prime(crand.Reader, 1024)
		one := big.NewInt(1)
		phi := new(big.Int).Mul(new(big.Int).Sub(p, one), new(big.Int).Sub(q, one))
		d := new(big.Int).ModInverse(big.NewInt(3), phi)
		if d == nil {
			continue
		}
		priv = &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: new(big.Int).Mul(p, q), E: 3}, D: d, Primes: []*big.Int{p, q}}
		priv.Precompute()
	}
	content := []byte("payload")
	h := sha256.Sum256(content)
	hd, _ := asn1.Marshal(h[:])
	c := &CMS{SignedData: CmsSignedData{SignerInfos: []SignerInfo{{SignedAttrs: []Attribute{{AttrType: MessageDigest, AttrValue: []asn1.RawValue{{FullBytes: hd, Bytes: h[:]}}}}}}}}
	b, _ := asn1.Marshal(SignedAttributesDigest{SignedAttrs: c.SignedData.SignerInfos[0].SignedAttrs})
	d := sha256.Sum256(b[2:])
	info, _ := asn1.Marshal(SignatureDecoded{Inner: SignatureInner{OID: SHA256OID, Null: asn1.NullRawValue}, Hash: d[:]})
	// 00 01 ff ff 00 | digest info | anything: take the cube root, rounded up
	blk := append([]byte{0, 1, 0xff, 0xff, 0}, info...)
	blk = append(blk, make([]byte, 256-len(blk))...)
	x := new(big.Int).SetBytes(blk)
	lo, hi := big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), 700)
	for lo.Cmp(hi) < 0 {
		mid := new(big.Int).Rsh(new(big.Int).Add(lo, hi), 1)
		if new(big.Int).Exp(mid, big.NewInt(3), nil).Cmp(x) < 0 {
			lo = mid.Add(mid, big.NewInt(1))
		} else {
			hi = mid
		}
	}
	c.SignedData.SignerInfos[0].Signature = lo.Bytes()
	cert := &x509.Certificate{PublicKey: &priv.PublicKey}
	if err := c.Validate(content, cert); err == nil && !vvIntact(c, content, cert) {
		vvFail(t, "C08", "Validate accepts a signature computed without the private key (RSA exponent 3, padding not checked): modulus %x signature %x", priv.N, lo.Bytes())
	}
}

// ---- C09: the key pinned by a locator ----

func TestVV_C09(t *testing.T) {
	r := vvRand()
	a, b := vvKey("a"), vvKey("b")
	keys := []*rsa.PublicKey{&a.PublicKey, &b.PublicKey, {N: a.N, E: 3}, {N: a.N, E: a.E + 1<<16}, {N: new(big.Int).Add(a.N, big.NewInt(2)), E: a.E}, {N: new(big.Int).Neg(a.N), E: a.E}}
	for it := 0; it < vvN(2000); it++ {
		x, y := keys[r.Intn(len(keys))], keys[r.Intn(len(keys))]
		tal := &RPKITAL{Algorithm: x509.RSA, OID: RSA, PublicKey: x}
		c := &x509.Certificate{PublicKeyAlgorithm: x509.RSA, PublicKey: &rsa.PublicKey{N: new(big.Int).Set(y.N), E: y.E}}
		want := x.N.Cmp(y.N) == 0 && x.E == y.E
		if r.Intn(5) == 0 {
			c.PublicKeyAlgorithm = x509.ECDSA
			want = false
		}
		vvGuard(t, "C09", fmt.Sprintf("%v %v", x, y), func() {
			if got := tal.CheckCertificate(c); got != want {
				vvFail(t, "C09", "locator key %x/%d, certificate key %x/%d algorithm %v: accepted=%v", x.N, x.E, y.N, y.E, c.PublicKeyAlgorithm, got)
			}
		})
	}
}

func vvMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}
