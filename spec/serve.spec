// Answers of the HTTP endpoints (cmd/octorpki/octorpki.go).
package http = net/http
package atomic = sync/atomic
package hash = hash
package io = io
package fmt = fmt
package prefixfile = github.com/cloudflare/gortr/prefixfile
package schemas = github.com/cloudflare/cfrpki/api/schemas
package sha256 = crypto/sha256
package hex = encoding/hex
package json = encoding/json
package octo = github.com/cloudflare/cfrpki/cmd/octorpki

// the status of the answer given so far (0: none yet), and whether it has content
ghostheap status int
ghostheap content bool

func (*atomic.Bool).Load(x) (v)
  trusted standard library
  modifies nothing
  determined v == x.v

func (http.ResponseWriter).WriteHeader(w, code) ()
  trusted standard library: only the first status counts
  modifies ghost status(w)
  sets status(w) = ite(old(status(w)) == 0, code, old(status(w)))
func (http.ResponseWriter).Write(w, b) (n, err)
  trusted standard library: content comes with status 200 unless another was given
  modifies ghost status(w), ghost content(w)
  sets status(w) = ite(old(status(w)) == 0, 200, old(status(w)))
  sets content(w) = true

define flag(b) = b.v
define isReady(s) = flag(s.Stable) || flag(s.HasPreviousStable)
define waiting(s) = *octo.WaitStable && !isReady(s)

// headers: those of the request do not change, of those of the answer only the tag matters
fun headerOf(http.ResponseWriter) http.Header
ghostheap etag string
func (http.ResponseWriter).Header(w) (h)
  trusted standard library
  modifies nothing
  determined h == headerOf(w)
func (http.Header).Set(h, key, value) ()
  trusted standard library
  modifies ghost etag(h)
  sets etag(h) = ite(key == "Etag" || key == "ETag", value, old(etag(h)))
fun askedFor(http.Header, string) string
func (http.Header).Get(h, key) (v)
  trusted standard library: the headers of a request do not change
  modifies nothing
  determined v == askedFor(h, key)

// digests
ghostheap fed string
fun digestOf(string) string
fun hexOf(string) string
fun decOf(int) string
func sha256.New() (h)
  trusted standard library
  modifies nothing
  determined h != nil && fresh(h) && fed(h) == ""
func (io.Writer).Write(w, p) (n, err)
  trusted standard library: a writer is a digest or an answer
  modifies ghost fed(w), ghost status(w), ghost content(w)
  sets fed(w) = old(fed(w)) + string(p)
  sets status(w) = ite(old(status(w)) == 0, 200, old(status(w)))
  sets content(w) = true
func io.WriteString(w, text) (n, err)
  trusted standard library: a writer is a digest or an answer
  modifies ghost fed(w), ghost status(w), ghost content(w)
  sets fed(w) = old(fed(w)) + text
  sets status(w) = ite(old(status(w)) == 0, 200, old(status(w)))
  sets content(w) = true
func fmt.Fprintf(w, format, a) (n, err)
  trusted standard library: a writer is a digest or an answer; what is written is left open
  modifies ghost fed(w), ghost status(w), ghost content(w)
  sets status(w) = ite(old(status(w)) == 0, 200, old(status(w)))
  sets content(w) = true
func fmt.Fprint(w, a) (n, err)
  trusted standard library: a writer is a digest or an answer; what is written is left open
  modifies ghost fed(w), ghost status(w), ghost content(w)
  sets status(w) = ite(old(status(w)) == 0, 200, old(status(w)))
  sets content(w) = true
func fmt.Fprintln(w, a) (n, err)
  trusted standard library: a writer is a digest or an answer; what is written is left open
  modifies ghost fed(w), ghost status(w), ghost content(w)
  sets status(w) = ite(old(status(w)) == 0, 200, old(status(w)))
  sets content(w) = true
func http.Error(w, text, code) ()
  trusted standard library: an answer with the given status and text
  modifies ghost status(w), ghost content(w)
  sets status(w) = ite(old(status(w)) == 0, code, old(status(w)))
  sets content(w) = true
func (hash.Hash).Write(w, p) (n, err)
  trusted standard library
  modifies ghost fed(w)
  sets fed(w) = old(fed(w)) + string(p)
func (hash.Hash).Sum(w, b) (r)
  trusted standard library
  modifies nothing
  determined len(b) == 0 ==> string(r) == digestOf(fed(w))
func hex.EncodeToString(src) (r)
  trusted standard library
  modifies nothing
  determined r == hexOf(string(src))

// content
ghostheap sent any
fun writerOf(*json.Encoder) io.Writer
func json.NewEncoder(w) (enc)
  trusted standard library
  modifies nothing
  determined enc != nil && writerOf(enc) == w
func (*json.Encoder).Encode(enc, v) (err)
  trusted standard library: content comes with status 200 unless another was given
  modifies ghost status(writerOf(enc)), ghost content(writerOf(enc)), ghost sent(writerOf(enc))
  sets status(writerOf(enc)) = ite(old(status(writerOf(enc))) == 0, 200, old(status(writerOf(enc))))
  sets content(writerOf(enc)) = true
  sets sent(writerOf(enc)) = v

define tagOf(l) = hexOf(digestOf(decOf(l.Metadata.Generated) + "/" + decOf(l.Metadata.Counts)))
define wanted(r) = askedFor(r.Header, "If-None-Match")
func (*main.OctoRPKI).ServeROAs(s, w, r) ()
  props C19
  strings
  requires set: s != nil && w != nil && r != nil && status(w) == 0 && !content(w) && s.ROAList != nil
  modifies ghost status, ghost content, ghost sent, ghost etag, ghost fed
  ensures waiting: waiting(s) ==> status(w) == 503
  ensures ready: !waiting(s) ==> status(w) == 200 && content(w) || status(w) == 304
  ensures list: status(w) == 200 ==> is(sent(w), *prefixfile.ROAList) && as(sent(w), *prefixfile.ROAList) == s.ROAList
  ensures unchanged: status(w) == 304 ==> !content(w) && wanted(r) == tagOf(s.ROAList)
  ensures tag: status(w) == 200 ==> etag(headerOf(w)) == tagOf(s.ROAList)

func (*main.OctoRPKI).ServeResources(s, w, r) ()
  props C19
  requires set: s != nil && w != nil && status(w) == 0 && !content(w)
  modifies ghost status, ghost content, ghost sent, ghost etag
  ensures waiting: waiting(s) ==> status(w) == 503
  ensures ready: !waiting(s) ==> status(w) == 200 && content(w)
  ensures resources: status(w) == 200 ==> is(sent(w), *schemas.ResourcesJSON) && as(sent(w), *schemas.ResourcesJSON) == s.Resources

func (*main.OctoRPKI).ServeHealth(s, w, r) ()
  props C19
  nopanic
  requires set: s != nil && w != nil && status(w) == 0
  modifies ghost status(w), ghost content(w)
  ensures ready: isReady(s) ==> status(w) == 200
  ensures waiting: !isReady(s) ==> status(w) == 503
