// Splitting rsync addresses (sync/lib/utils.go, sync/lib/rsync.go, cmd/octorpki/octorpki.go).
pure strings.HasPrefix strings.HasSuffix
package syncpki = github.com/cloudflare/cfrpki/sync/lib

// strings.Split and strings.Join around a slash
rec joined(list, n) string = ite(n <= 0, "", ite(n == 1, list[0], joined(n-1) + "/" + list[n-1]))
define hasSlash(s) = strs.Contains(s, "/")
define upto(s) = ite(hasSlash(s), s[:strs.Index(s, "/")], s)
define after(s) = s[strs.Index(s, "/")+1:]

// the position of the last slash
fun lastSlash(string) int
axiom lastSlashIs(s:string): ite(hasSlash(s), 0 <= lastSlash(s) && lastSlash(s) < len(s) && s[lastSlash(s):lastSlash(s)+1] == "/" && !hasSlash(s[lastSlash(s)+1:]), lastSlash(s) == -1)
define dir(s) = ite(hasSlash(s), s[:lastSlash(s)], "")

func strings.LastIndex(s, sep) (i)
  trusted standard library: the start of the last occurrence
  determined sep == "/" ==> i == lastSlash(s)

func strings.Split(s, sep) (r)
  trusted standard library: the parts between separators
  determined fresh(r) && len(r) >= 0 && (sep != "" ==> len(r) >= 1)
  determined sep == "/" ==> r[0] == upto(s) && (len(r) == 1 <==> !hasSlash(s))
  determined sep == "/" && hasSlash(s) ==> r[1] == upto(after(s)) && (len(r) == 2 <==> !hasSlash(after(s)))
  determined sep == "/" ==> joined(r, len(r)) == s && !hasSlash(r[len(r)-1]) && joined(r, len(r)-1) == dir(s)

func strings.Join(elems, sep) (r)
  trusted standard library: the elements with separators between them
  determined sep == "/" ==> r == joined(elems, len(elems))

define isRsync(u) = strs.HasPrefix(u, "rsync://")
define rest(u) = u[8:]

func syncpki.ExtractRsyncDomainModule(rsync) (module, host, err)
  props C20
  strings
  nopanic
  modifies nothing
  ensures refused: (err == nil) == (isRsync(rsync) && hasSlash(rest(rsync)))
  ensures host: err == nil ==> host == "rsync://" + upto(rest(rsync)) + "/"
  ensures module: err == nil ==> module == "rsync://" + upto(rest(rsync)) + "/" + upto(after(rest(rsync)))
  ensures nothing: err != nil ==> module == "" && host == ""

func main.ExtractRsyncDomain(rsyncURL) (host, err)
  props C20
  strings
  nopanic
  modifies nothing
  ensures refused: (err == nil) == isRsync(rsyncURL)
  ensures host: err == nil ==> host == upto(rest(rsyncURL))
  ensures nothing: err != nil ==> host == ""

func syncpki.ExtractFilePathFromRsyncURL(url) (path, err)
  props C20
  strings
  nopanic
  modifies nothing
  ensures refused: (err == nil) == isRsync(url)
  ensures path: err == nil ==> path == rest(url)
  ensures nothing: err != nil ==> path == ""

func syncpki.ExtractFoldersPathFromRsyncURL(url) (path, err)
  props C20
  strings
  nopanic
  modifies nothing
  ensures refused: (err == nil) == isRsync(url)
  ensures directory: err == nil ==> path == dir(rest(url))
  ensures nothing: err != nil ==> path == ""
