package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	log "github.com/sirupsen/logrus"
)

// TestVV_C16 stores RRDP objects as an unprivileged user whose only writable directory is a scratch directory.
func TestVV_C16(t *testing.T) {
	if os.Getenv("VV_INNER") == "1" {
		vvStore(t)
		return
	}
	dir, err := os.MkdirTemp("/tmp", "vvstore")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	os.Chmod(dir, 0711)
	work := filepath.Join(dir, "w")
	os.Mkdir(work, 0700)
	const nobody = 65534
	if err := os.Chown(work, nobody, nobody); err != nil {
		t.Skip("no unprivileged user here: ", err)
	}
	self, _ := os.Executable()
	in, err := os.Open(self)
	if err != nil {
		t.Fatal(err)
	}
	bin := filepath.Join(dir, "test")
	out, err := os.OpenFile(bin, os.O_CREATE|os.O_WRONLY, 0755)
	if err != nil {
		t.Fatal(err)
	}
	io.Copy(out, in)
	in.Close()
	out.Close()
	os.Chmod(bin, 0755)
	cmd := exec.Command(bin, "-test.run", "^TestVV_C16$")
	cmd.Dir = work
	cmd.Env = []string{"VV_INNER=1", "VV_WORK=" + work, "HOME=" + work, "TMPDIR=" + work, "VV_SEED=" + os.Getenv("VV_SEED"), "VV_TIER=" + os.Getenv("VV_TIER")}
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}, Pdeathsig: syscall.SIGKILL}
	timer := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
	defer timer.Stop()
	b, err := cmd.CombinedOutput()
	if i := bytes.Index(b, []byte("VVFAIL")); i >= 0 || err != nil {
		if i < 0 && !bytes.Contains(b, []byte("FAIL")) {
			t.Skip("cannot run as an unprivileged user: ", err)
		}
		fmt.Printf("\n%s\n", b)
		if i < 0 {
			fmt.Printf("\nVVFAIL C16: the process ended\n")
		}
		t.FailNow()
	}
}

func vvTree(root string) []string {
	var l []string
	filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err == nil && p != root {
			x, _ := filepath.Rel(root, p)
			if i.IsDir() {
				x += "/"
			} else {
				b, _ := os.ReadFile(p)
				x += "=" + string(b)
			}
			l = append(l, x)
		}
		return nil
	})
	sort.Strings(l)
	return l
}

func vvStore(t *testing.T) {
	rnd := vvRand()
	work := os.Getenv("VV_WORK")
	s := &OctoRPKI{}
	log.SetOutput(io.Discard)
	for it := 0; it < vvN(2500); it++ {
		root := filepath.Join(work, "r")
		base := filepath.Join(root, "d1/d2/d3/d4/cache")
		if err := os.MkdirAll(base, 0700); err != nil {
			t.Fatal(err)
		}
		os.Chdir(base)
		b := base
		if rnd.Intn(2) == 0 {
			b += "/"
		}
		*Basepath = b
		before := vvTree(root)
		parts := []string{"a", "b.cer", "host", "x%2f", "..", "..", ".", "a..", "..a", "%2e%2e", "..%2f", "..\\", "é", "", "..."}
		u := []string{"rsync://", "rsync://", "rsync://", "rsync://", "rsync://", "https://", "RSYNC://", "rsync:/", ""}[rnd.Intn(9)] + "host" + []string{"", "", "2", ".x"}[rnd.Intn(4)]
		ups := 0
		for i := rnd.Intn(5); i > 0; i-- {
			p := parts[rnd.Intn(len(parts))]
			if strings.Contains(p, "..") {
				if ups++; ups > 3 {
					p = "c"
				}
			}
			u += "/" + p
		}
		var args []interface{}
		inside := true
		if rnd.Intn(2) == 0 {
			d := []string{"rsync://host", "rsync://host/", "rsync://host2", "rsync://host.x", "rsync://other", "rsync://host/a"}[rnd.Intn(6)]
			args = append(args, d)
			inside = strings.HasPrefix(u, d)
			if !inside && rnd.Intn(2) == 0 {
				u += "/" + d + "/a"
				inside = strings.HasPrefix(u, d)
			}
		}
		data := []byte(fmt.Sprint(it))
		withdraw, snapshot := rnd.Intn(2) == 0, rnd.Intn(2) == 0
		in := fmt.Sprintf("address %q, registered host %v, cache %q, withdraw %v, snapshot %v", u, args, b, withdraw, snapshot)
		var err error
		vvGuard(t, "C16", in, func() {
			if args == nil && rnd.Intn(2) == 0 {
				err = s.WriteRsyncFileOnDisk(u, data)
			} else {
				err = s.ReceiveRRDPFileCallback("main", "url", u, data, withdraw, snapshot, int64(rnd.Intn(12)), args...)
			}
		})
		after := vvTree(root)
		path := strings.TrimPrefix(u, "rsync://")
		isR := path != u
		up := false
		for _, p := range strings.Split(path, "/") {
			up = up || p == ".."
		}
		if !isR && inside && err == nil {
			vvFail(t, "C16", "no error; %s", in)
		}
		if !isR || up || !inside {
			if strings.Join(after, "\n") != strings.Join(before, "\n") {
				vvFail(t, "C16", "a refused address left %q where there was %q; %s", after, before, in)
			}
		} else {
			had := map[string]bool{}
			for _, x := range before {
				had[x] = true
			}
			want := filepath.Clean(path)
			for _, x := range after {
				if had[x] {
					continue
				}
				y := strings.TrimPrefix(x, "d1/d2/d3/d4/cache/")
				if y == x || !(y == want+"="+string(data) && !strings.HasSuffix(path, "/") || strings.HasSuffix(y, "/") && strings.HasPrefix(want+"/", y)) {
					vvFail(t, "C16", "wrote %q; %s", x, in)
				}
			}
			if got, e := os.ReadFile(filepath.Join(base, path)); err == nil && inside && (e != nil || string(got) != string(data)) {
				vvFail(t, "C16", "no error, yet the file is not there: %v; %s", e, in)
			}
		}
		os.Chdir(work)
		os.RemoveAll(root)
	}
}
