// Storing what RRDP delivers (cmd/octorpki/octorpki.go).
package os = os
package octo = github.com/cloudflare/cfrpki/cmd/octorpki
package filepath = path/filepath
package prometheus = github.com/prometheus/client_golang/prometheus
package ioutil = io/ioutil

// which directories were created and which files written
ghost nMade int
ghostheap madeAt string
ghost nWrote int
ghostheap wroteAt string
ghostheap wroteWhat string

func os.MkdirAll(path, perm) (err)
  trusted creates directories
  modifies ghost madeAt(nMade), ghost nMade
  sets madeAt(old(nMade)) = path
  sets nMade = old(nMade) + 1
func ioutil.WriteFile(name, data, perm) (err)
  trusted writes a file
  modifies ghost wroteAt(nWrote), ghost wroteWhat(nWrote), ghost nWrote
  sets wroteAt(old(nWrote)) = name
  sets wroteWhat(old(nWrote)) = string(data)
  sets nWrote = old(nWrote) + 1
func os.WriteFile(name, data, perm) (err)
  trusted writes a file
  modifies ghost wroteAt(nWrote), ghost wroteWhat(nWrote), ghost nWrote
  sets wroteAt(old(nWrote)) = name
  sets wroteWhat(old(nWrote)) = string(data)
  sets nWrote = old(nWrote) + 1
func os.Mkdir(path, perm) (err)
  trusted creates a directory
  modifies ghost madeAt(nMade), ghost nMade
  sets madeAt(old(nMade)) = path
  sets nMade = old(nMade) + 1
func os.Create(name) (f, err)
  trusted creates a file
  modifies ghost wroteAt(nWrote), ghost wroteWhat(nWrote), ghost nWrote
  sets wroteAt(old(nWrote)) = name
  sets nWrote = old(nWrote) + 1
func os.OpenFile(name, flag, perm) (f, err)
  trusted creates a file
  modifies ghost wroteAt(nWrote), ghost wroteWhat(nWrote), ghost nWrote
  sets wroteAt(old(nWrote)) = name
  sets nWrote = old(nWrote) + 1
fun below(string, string) string
func filepath.Join(elem) (r)
  trusted standard library: a path below its first element, which the other has no step out of
  determined len(elem) == 2 ==> r == below(elem[0], elem[1])

func (*prometheus.GaugeVec).With(v, labels) (g)
  trusted a metric; counting changes nothing the property speaks of
  determined g != nil
func (*prometheus.CounterVec).With(v, labels) (g)
  trusted a metric; counting changes nothing the property speaks of
  determined g != nil

// a step to a parent directory, with either kind of slash after it
define leavesCache(p) = p == ".." || strs.HasPrefix(p, "../") || strs.Contains(p, "/../") || strs.HasSuffix(p, "/..")
define quiet() = nMade == old(nMade) && nWrote == old(nWrote)

func (*main.OctoRPKI).WriteRsyncFileOnDisk(s, rsyncURL, data) (err)
  props C16
  strings
  nopanic
  nofatal
  modifies ghost nMade, ghost madeAt, ghost nWrote, ghost wroteAt, ghost wroteWhat
  requires Basepath: octo.Basepath != nil
  ensures not-rsync: !isRsync(rsyncURL) ==> err != nil && quiet()
  ensures steps: isRsync(rsyncURL) && leavesCache(rest(rsyncURL)) ==> err != nil && quiet()
  ensures one-file: old(nWrote) <= nWrote && nWrote <= old(nWrote) + 1
  ensures file: nWrote > old(nWrote) ==> wroteAt(old(nWrote)) == below(*octo.Basepath, rest(rsyncURL))
  ensures content: nWrote > old(nWrote) ==> wroteWhat(old(nWrote)) == string(data)
  ensures one-directory: old(nMade) <= nMade && nMade <= old(nMade) + 1
  ensures directory: nMade > old(nMade) ==> madeAt(old(nMade)) == below(*octo.Basepath, dir(rest(rsyncURL)))
  ensures stored: err == nil ==> nWrote == old(nWrote) + 1

func (*main.OctoRPKI).ReceiveRRDPFileCallback(s, main, url, path, data, withdraw, snapshot, serial, args) (err)
  props C16
  strings
  nopanic
  nofatal
  modifies ghost nMade, ghost madeAt, ghost nWrote, ghost wroteAt, ghost wroteWhat
  requires Basepath: octo.Basepath != nil
  ensures outside: len(args) > 0 && is(args[0], string) && !strs.HasPrefix(path, as(args[0], string)) ==> quiet()
  ensures not-rsync: !isRsync(path) ==> quiet()
  ensures steps: isRsync(path) && leavesCache(rest(path)) ==> quiet()
  ensures reported: !isRsync(path) && !(len(args) > 0 && is(args[0], string) && !strs.HasPrefix(path, as(args[0], string))) ==> err != nil
  ensures one-file: old(nWrote) <= nWrote && nWrote <= old(nWrote) + 1
  ensures file: nWrote > old(nWrote) ==> wroteAt(old(nWrote)) == below(*octo.Basepath, rest(path)) && wroteWhat(old(nWrote)) == string(data)
  ensures one-directory: old(nMade) <= nMade && nMade <= old(nMade) + 1
  ensures directory: nMade > old(nMade) ==> madeAt(old(nMade)) == below(*octo.Basepath, dir(rest(path)))
