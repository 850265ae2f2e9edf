package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var verbose bool

func loadProg(repo string, db *SpecDB) (*Prog, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=vendor", "GOPROXY=off", "GOTOOLCHAIN=local")
	if os.Getenv("GOCACHE") == "" && os.Getenv("HOME") == "" {
		env = append(env, "GOCACHE=/root/.cache/go-build", "HOME=/root")
	}
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repo, Env: env, Tests: false}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %s", p.PkgPath, e.Error())
		}
	}
	sp, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	sp.Build()
	p := &Prog{ssa: sp, pkgs: pkgs, ssaPkgs: spkgs, db: db, byPath: map[string]*types.Package{}, repoPkg: map[string]bool{}, funcs: map[string]*ssa.Function{}, fset: sp.Fset}
	for i, k := range pkgs {
		if spkgs[i] == nil {
			continue
		}
		p.repoPkg[k.PkgPath] = true
		addDeps(p.byPath, k.Types)
	}
	for fn := range ssautil.AllFunctions(sp) {
		if fn.Synthetic != "" || fn.Object() == nil {
			continue
		}
		if fn.Pkg == nil || !p.repoPkg[fn.Pkg.Pkg.Path()] {
			continue
		}
		if o, ok := fn.Object().(*types.Func); ok {
			p.funcs[o.FullName()] = fn
		}
	}
	for _, spk := range spkgs {
		if spk == nil {
			continue
		}
		var names []string
		for n := range spk.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			m := spk.Members[n]
			if fn, ok := m.(*ssa.Function); ok {
				if o, ok := fn.Object().(*types.Func); ok {
					p.funcs[o.FullName()] = fn
				}
			}
			if t, ok := m.(*ssa.Type); ok {
				if _, isI := t.Type().Underlying().(*types.Interface); !isI {
					p.named = append(p.named, t.Type())
				}
				if nt, ok := t.Type().(*types.Named); ok {
					for i := 0; i < nt.NumMethods(); i++ {
						if fn := sp.FuncValue(nt.Method(i)); fn != nil {
							p.funcs[nt.Method(i).FullName()] = fn
						}
					}
				}
			}
		}
	}
	return p, nil
}

func addDeps(m map[string]*types.Package, t *types.Package) {
	if t == nil || m[t.Path()] != nil {
		return
	}
	m[t.Path()] = t
	for _, i := range t.Imports() {
		addDeps(m, i)
	}
}

type Known struct {
	Property   string `json:"property"`
	Unit       string `json:"unit"`
	Obligation string `json:"obligation"`
	What       string `json:"what"`
}

func has(l []string, x string) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

func specProps(sp *FuncSpec) []string {
	m := map[string]bool{}
	for _, p := range sp.Props {
		m[p] = true
	}
	for _, c := range sp.Ensures {
		for _, p := range c.Props {
			m[p] = true
		}
	}
	var out []string
	for p := range m {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

func main() {
	var prop, tier, repo, root, unitPat, statusOut string
	var saveHints, noHints, noReplay bool
	fs := flag.NewFlagSet("vverif", flag.ExitOnError)
	fs.StringVar(&prop, "prop", "", "property id (all when empty)")
	fs.StringVar(&tier, "tier", "quick", "quick or thorough")
	fs.StringVar(&repo, "repo", "/repo", "repository")
	fs.StringVar(&root, "root", "/verif", "verification directory")
	fs.StringVar(&unitPat, "unit", "", "only functions whose name contains this")
	fs.StringVar(&statusOut, "status", "", "write unit status")
	fs.BoolVar(&saveHints, "save-hints", false, "record surviving invariants")
	fs.BoolVar(&noHints, "no-hints", false, "ignore recorded invariants")
	fs.BoolVar(&noReplay, "no-replay", false, "skip the replay harness")
	fs.BoolVar(&verbose, "v", false, "verbose")
	fs.Parse(os.Args[1:])
	t0 := time.Now()
	var err error
	scratch, err = os.MkdirTemp("", "vverif")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	code := run(prop, tier, repo, root, unitPat, saveHints, noHints, noReplay, t0)
	os.RemoveAll(scratch)
	os.Exit(code)
}

func run(prop, tier, repo, root, unitPat string, saveHints, noHints, noReplay bool, t0 time.Time) int {
	db := LoadSpecs(filepath.Join(root, "spec"))
	p, err := loadProg(repo, db)
	if err != nil {
		fmt.Println("cannot load the repository:", err)
		if prop != "" {
			return violation(root, prop, "the repository does not load: "+err.Error(), nil, false, "")
		}
		return 1
	}
	if verbose {
		fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", time.Since(t0).Seconds())
	}
	hints := map[string][]string{}
	hf := filepath.Join(root, "hints.json")
	if b, err := os.ReadFile(hf); err == nil {
		json.Unmarshal(b, &hints)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))

	var mu sync.Mutex
	units := map[string]*Unit{}
	direct := map[string]bool{}
	var queue []string
	for _, k := range db.Order {
		sp := db.Funcs[k]
		if sp.Trusted || sp.Inline && len(sp.Ensures) == 0 {
			continue
		}
		if unitPat != "" && !strings.Contains(k, unitPat) {
			continue
		}
		if prop == "" || has(specProps(sp), prop) {
			direct[k] = true
			queue = append(queue, k)
		}
	}
	// the bounded stand-in runs beside the proofs; once it has a failing input the verifier gets a little more time to
	// name the obligations that fail, and the check reports
	limit := 11 * time.Minute
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	rep := make(chan repOut, 1)
	if !noReplay && prop != "" {
		go func() {
			out, found := replay(root, repo, prop, tier)
			rep <- repOut{out, found}
			if found {
				time.Sleep(time.Minute)
				cancel()
			}
		}()
	} else {
		noReplay = true
	}
	for len(queue) > 0 {
		var wg sync.WaitGroup
		sem := make(chan struct{}, 4)
		var batch []*Unit
		for _, k := range queue {
			if units[k] != nil {
				continue
			}
			u := &Unit{Key: k, Spec: db.Funcs[k]}
			units[k] = u
			batch = append(batch, u)
		}
		for _, u := range batch {
			u := u
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				var h map[string]bool
				if hs, ok := hints[u.Key]; ok && !noHints {
					h = map[string]bool{}
					for _, x := range hs {
						h[x] = true
					}
				}
				u.Run(ctx, p, h)
				if verbose {
					mu.Lock()
					printUnit(u)
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		queue = nil
		if unitPat != "" {
			break
		}
		for _, u := range batch {
			if u.E == nil {
				continue
			}
			for k := range u.E.usedCon {
				if units[k] == nil && !has(queue, k) {
					queue = append(queue, k)
				}
			}
		}
		sort.Strings(queue)
	}
	if saveHints {
		for k, u := range units {
			if u.Fail == "" && u.open() == 0 {
				if len(u.Kept) > 0 {
					hints[k] = u.minimal(ctx)
				} else {
					delete(hints, k)
				}
			}
		}
		b, _ := json.MarshalIndent(hints, "", " ")
		os.WriteFile(hf, append(b, '\n'), 0644)
	}
	return report(p, root, repo, prop, tier, seed, units, direct, t0, noReplay, rep)
}

type repOut struct {
	out   string
	found bool
}

// minimal is the set of invariants recorded as a starting point for later runs.
func (u *Unit) minimal(ctx context.Context) []string { return u.Kept }

func printUnit(u *Unit) {
	st := "ok"
	if u.Fail != "" {
		st = "FAIL " + u.Fail
	} else if n := u.open(); n > 0 {
		st = fmt.Sprintf("OPEN %d", n)
	}
	nc, na := 0, 0
	if u.E != nil {
		nc, na = len(u.E.cands), len(u.Kept)
	}
	fmt.Fprintf(os.Stderr, "%-70s %s  obl=%d cands=%d kept=%d rounds=%d %.1fs\n", shortName(u.Key), st, len(u.Obls), nc, na, u.Rounds, u.Wall)
	if u.open() > 0 {
		for _, o := range u.Obls {
			if o.Res != "unsat" && o.Kind != "cover" || o.Res == "vacuous" {
				fmt.Fprintf(os.Stderr, "    %s %s at %s: %s (%s) %.1fs %s\n", o.Kind, o.Name, o.Pos, o.Res, o.By, o.Time, o.Note)
			}
		}
	}
}

// relevant reports whether an obligation decides the property in this unit.
func relevant(o *Obl, prop string, directUnit bool, sp *FuncSpec) bool {
	if prop == "" || !directUnit {
		return true
	}
	if len(o.Props) == 0 {
		return true
	}
	if o.Kind != "ensures" {
		return true
	}
	return has(o.Props, prop)
}

func report(p *Prog, root, repo, prop, tier string, seed int, units map[string]*Unit, direct map[string]bool, t0 time.Time, noReplay bool, rep chan repOut) int {
	var keys []string
	for k := range units {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	if len(keys) == 0 {
		fmt.Println("no function under contract for", prop)
		return 1
	}
	known := []Known{}
	if b, err := os.ReadFile(filepath.Join(root, "known-findings.json")); err == nil {
		var kf struct {
			Findings []Known `json:"findings"`
		}
		json.Unmarshal(b, &kf)
		known = kf.Findings
	}
	total, done := 0, 0
	by := map[string]int{}
	var failed []string
	var knownHit []Known
	type row map[string]interface{}
	var rows []row
	trusted := map[string]bool{}
	ext := map[string]bool{}
	asm := map[string]bool{}
	inl := map[string]bool{}
	for _, k := range keys {
		u := units[k]
		r := row{"function": k, "direct": direct[k]}
		if u.Fail != "" {
			r["failure"] = u.Fail
			failed = append(failed, k+": "+u.Fail)
			rows = append(rows, r)
			total++
			continue
		}
		for _, dt := range u.Spec.Dets {
			asm["deterministic function of the listed arguments, named for the specification: "+shortName(k)+": "+dt.Src] = true
		}
		for _, x := range strings.Fields(u.Spec.Opts["axioms"]) {
			for _, ax := range p.db.Axioms {
				if ax.Name == x {
					asm["axiom "+x+": "+ax.Src] = true
				}
			}
		}
		if !u.Spec.BV {
			asm["64-bit integer arithmetic is treated as mathematical except in functions verified in bit-vector mode"] = true
		}
		n, d := 0, 0
		var open []string
		for _, o := range u.Obls {
			if !relevant(o, prop, direct[k], u.Spec) {
				continue
			}
			n++
			good := o.Res == "unsat"
			if o.Kind == "cover" {
				good = o.Res == "ok"
			}
			if good {
				d++
				if o.Kind != "cover" {
					by[o.By]++
				}
				continue
			}
			line := fmt.Sprintf("%s: %s %q at %s: solver answers %s", shortName(k), o.Kind, o.Name, o.Pos, o.Res)
			if o.Kind == "cover" {
				line = fmt.Sprintf("%s: %s at %s: the contract or the code makes this unreachable", shortName(k), o.Name, o.Pos)
			}
			kn := false
			for _, f := range known {
				if f.Property == prop && f.Unit == k && f.Obligation == o.Kind+" "+o.Name {
					kn = true
					knownHit = append(knownHit, f)
				}
			}
			open = append(open, line)
			if !kn {
				failed = append(failed, line)
			}
		}
		total += n
		done += d
		r["obligations"], r["discharged"] = n, d
		r["invariants"] = u.Kept
		r["open"] = open
		r["seconds"] = u.Wall
		if u.Spec.BV {
			r["arithmetic"] = "bit-vectors"
		} else {
			r["arithmetic"] = "integers with 64/32/8-bit wrap-around"
		}
		rows = append(rows, r)
		for x := range u.E.usedTr {
			trusted[x] = true
		}
		for x := range u.E.extern {
			ext[x] = true
		}
		for x := range u.E.assume {
			asm[x] = true
		}
		for x := range u.E.inlined {
			inl[x] = true
		}
	}
	if prop == "" {
		fmt.Printf("obligations %d discharged %d by %v; functions %d; %.1fs solver %.1fs\n", total, done, by, len(keys), time.Since(t0).Seconds(), float64(atomic.LoadInt64(&solverNano))/1e9)
		for _, f := range failed {
			fmt.Println("open:", f)
		}
		if len(failed) > 0 {
			return 1
		}
		return 0
	}
	viol := 0
	if len(failed) > 0 {
		viol = 1
	}
	var tb []string
	tb = append(tb, "the verification-condition generator in /verif/engine (weakest-precondition style symbolic execution of Go SSA)",
		"golang.org/x/tools/go/ssa and go/types as the reading of the source", "Go's memory safety (no data races, no unsafe)",
		"z3-new 5.3.2, z3 4.8.12, cvc5 1.1.2 answers 'unsat'")
	for _, x := range sorted(trusted) {
		why := ""
		if sp := p.db.Funcs[x]; sp != nil {
			why = " (" + sp.Reason + ")"
		}
		tb = append(tb, "assumed contract: "+x+why)
	}
	for x := range ext {
		asm["external function without contract, result arbitrary: "+x] = true
	}
	asm["partial correctness: what is shown holds whenever the function returns; paths that panic or end the process are excluded except in functions marked nopanic/nofatal"] = true
	asm["no concurrent goroutine changes the same objects while the function runs"] = true
	asm["pointers handed in are well formed: non-nil pointers refer to objects allocated before the call"] = true
	cov := map[string]interface{}{
		"obligations": total, "discharged": done,
		"checker_cmd":  fmt.Sprintf("bash /verif/check.sh %s %s", prop, tier),
		"trusted_base": tb,
		"backends":     by, "functions": rows, "inlined": sorted(inl),
		"solver_seconds": float64(atomic.LoadInt64(&solverNano)) / 1e9,
	}
	if tier == "thorough" {
		if s := thoroughNote; s != "" {
			cov["thorough"] = s
		}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": sorted(asm), "wall_s": time.Since(t0).Seconds(), "violations": viol,
	}
	writeEvidence(root, prop, ev)
	for _, f := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.What)
	}
	fmt.Printf("%s: %d functions under contract, %d obligations, %d discharged %v, solver %.1fs, wall %.1fs\n", prop, len(keys), total, done, by, float64(atomic.LoadInt64(&solverNano))/1e9, time.Since(t0).Seconds())
	out, found := "", false
	if !noReplay {
		r := <-rep
		out, found = r.out, r.found
		b := map[string]interface{}{"what": "bounded: seeded random inputs run against the real code and compared with an independent oracle; covers what the contracts assume (dependencies, parsing), never counted as proved",
			"command": "bash /verif/replay.sh " + prop + " " + tier, "failing_input_found": found}
		if !found && !strings.Contains(out, "ok  \t") {
			b["not_run"] = out[:min(len(out), 1500)]
		}
		cov["bounded_stand_in"] = b
	}
	if len(failed) == 0 && !found {
		ev["wall_s"] = time.Since(t0).Seconds()
		writeEvidence(root, prop, ev)
		return 0
	}
	if len(failed) == 0 {
		failed = []string{"none: every obligation was discharged; the bounded stand-in found a failing input in what the contracts assume or leave out"}
		ev["violations"] = 1
	}
	ev["wall_s"] = time.Since(t0).Seconds()
	writeEvidence(root, prop, ev)
	return violation(root, prop, strings.Join(failed, "\n"), units, found, out)
}

var thoroughNote string

func writeEvidence(root, prop string, ev map[string]interface{}) {
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0644)
}

func sorted(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func replay(root, repo, prop, tier string) (string, bool) {
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "bash", filepath.Join(root, "replay.sh"), prop, tier)
	cmd.Env = append(os.Environ(), "VV_REPO="+repo)
	b, _ := cmd.CombinedOutput()
	s := string(b)
	return s, strings.Contains(s, "VVFAIL")
}

func violation(root, prop, what string, units map[string]*Unit, found bool, out string) int {
	dir := filepath.Join(root, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	f := filepath.Join(dir, prop+".txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\n\nfailed obligations:\n%s\n\n", prop, what)
	if found {
		fmt.Fprintf(&sb, "failing input, run against the real code (bash /verif/replay.sh %s):\n%s\n", prop, out)
	} else {
		fmt.Fprintf(&sb, "the replay harness found no failing input; its output:\n%s\n", out)
	}
	os.WriteFile(f, []byte(sb.String()), 0644)
	fmt.Print(sb.String())
	if found {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, f)
	}
	return 1
}
