// Reading files from the local cache (sync/lib/fetch.go).
package sha256 = crypto/sha256
package ioutil = io/ioutil

fun shaByte(string, int) uint8
fun derOf(string) string
define shaIs(sum, raw) = len(sum) == 32 && forall(i, 0, 32, sum[i] == shaByte(raw, i))
func sha256.Sum256(data) (r)
  trusted standard library: the digest of its argument
  determined forall(i, 0, 32, r[i] == shaByte(string(data), i))
  determined string(r) == digestOf(string(data))
func ioutil.ReadFile(name) (data, err)
  trusted reads a file
  determined err == nil ==> fresh(data) || len(data) == 0
func lib.BER2DER(ber) (der, err)
  trusted conversion (its own property is C12)
  determined err == nil ==> string(der) == derOf(string(ber))

// the digest is the one of the bytes of which the returned data is the content
func syncpki.FetchFile(path, derEncoding) (data, sum, err)
  props C10
  modifies nothing
  ensures digest: err == nil ==> existsof(raw, string, shaIs(sum, raw) && string(data) == ite(derEncoding, derOf(raw), raw))
  ensures nothing: err != nil ==> data == nil && sum == nil

func (*syncpki.LocalFetch).GetFile(s, file) (r, err)
  props C10
  modifies nothing
  ensures digest: err == nil && r != nil ==> existsof(raw, string, shaIs(r.Sha256, raw) && string(r.Data) == ite(file.Type != pki.TYPE_TAL, derOf(raw), raw))
  ensures new: r != nil ==> fresh(r)
