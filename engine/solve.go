package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------- solver back ends ----------

var (
	nWorkers   = 8
	slots      = make(chan struct{}, 8)
	scratch    string
	scriptN    int64
	solverNano int64
	dumpDir    = os.Getenv("VV_DUMP")
	slowFactor = 1.0
)

type backend struct {
	name string
	args func(file string, sec float64) []string
}

var zNew = backend{"z3-new", func(f string, s float64) []string {
	return []string{"z3-new", fmt.Sprintf("-T:%d", int(s)+1), f}
}}

// Without extensionality axioms z3 keeps every inference that matters here but does not drown in difference witnesses;
// it can then only prove less, so "unsat" remains sound, while its "sat" is not trusted.
var zNoExt = backend{"z3-new", func(f string, s float64) []string {
	return []string{"z3-new", fmt.Sprintf("-T:%d", int(s)+1), "smt.array.extensional=false", f}
}}

// The older arithmetic core, without extensionality: takes a different path through the search.
var zArith2 = backend{"z3-new", func(f string, s float64) []string {
	return []string{"z3-new", fmt.Sprintf("-T:%d", int(s)+1), "smt.array.extensional=false", "smt.arith.solver=2", f}
}}

// zSeed gives short runs with different random choices: on quantified queries an answer mostly comes at once or never.
func zSeed(i int) backend {
	return backend{"z3-new", func(f string, s float64) []string {
		a := []string{"z3-new", fmt.Sprintf("-T:%d", int(s)+1), "smt.array.extensional=false", fmt.Sprintf("smt.random_seed=%d", i), fmt.Sprintf("sat.random_seed=%d", i)}
		if i%2 == 1 {
			a = append(a, "smt.relevancy=1")
		}
		if i%3 == 2 {
			a = append(a, "smt.arith.solver=2")
		}
		return append(a, f)
	}}
}

// seeds tries n short runs of a query (with its time limit inside) and reports whether one of them proves it.
func seeds(ctx context.Context, script string, n int) bool {
	for i := 0; i < n && ctx.Err() == nil; i++ {
		if r, _ := runScript(ctx, zSeed(i), script, 2*slowFactor); len(r) > 0 && r[0] == "unsat" {
			return true
		}
	}
	return false
}

var zOld = backend{"z3", func(f string, s float64) []string {
	return []string{"z3", fmt.Sprintf("-T:%d", int(s)+1), "smt.array.extensional=false", f}
}}
var cvc = backend{"cvc5", func(f string, s float64) []string {
	return []string{"cvc5", "--arrays-exp", "--incremental", fmt.Sprintf("--tlimit=%d", int(s*1000)), f}
}}
var cvcEnum = backend{"cvc5", func(f string, s float64) []string {
	return []string{"cvc5", "--arrays-exp", "--incremental", "--enum-inst", "--strings-exp", fmt.Sprintf("--tlimit=%d", int(s*1000)), f}
}}

// runScript writes and runs one script, returning the answers in order.
func runScript(ctx context.Context, b backend, script string, sec float64) ([]string, string) {
	n := atomic.AddInt64(&scriptN, 1)
	file := filepath.Join(scratch, fmt.Sprintf("q%d.smt2", n))
	if err := os.WriteFile(file, []byte(script), 0644); err != nil {
		return nil, err.Error()
	}
	defer os.Remove(file)
	slots <- struct{}{}
	defer func() { <-slots }()
	if ctx.Err() != nil {
		return nil, "cancelled"
	}
	a := b.args(file, sec)
	c2, cancel := context.WithTimeout(ctx, time.Duration((sec+5)*float64(time.Second)))
	defer cancel()
	cmd := exec.CommandContext(c2, a[0], a[1:]...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	atomic.AddInt64(&solverNano, int64(time.Since(t0)))
	var res []string
	for _, l := range strings.Split(out.String(), "\n") {
		switch l = strings.TrimSpace(l); l {
		case "sat", "unsat", "unknown":
			res = append(res, l)
		case "timeout":
			res = append(res, "unknown")
		}
		if strings.HasPrefix(l, "(error") && !strings.Contains(l, "model is not available") {
			if os.Getenv("VV_DEBUG") != "" {
				os.WriteFile(filepath.Join(os.TempDir(), "vv-error.smt2"), []byte(script), 0644)
			}
			return res, l
		}
	}
	return res, out.String()
}

const header = "(set-logic ALL)\n(set-option :produce-models false)\n(set-option :smt.mbqi false)\n"

// baseAsserts collects the assumptions available to an obligation.
func (u *Unit) baseAsserts(nf int, at *pnode, extra ...*Term) []*Term {
	e := u.E
	var facts []*Term
	for i, f := range e.facts[:nf] {
		if cd := e.factCand[i]; cd != nil && cd.dead {
			continue
		}
		if at != nil && i < len(e.factNode) && e.factNode[i] != nil && !at.ancestors()[e.factNode[i]] {
			continue
		}
		facts = append(facts, f)
	}
	used := map[*Term]bool{}
	seen := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if len(t.args) == 0 {
			if t.decl != "" {
				used[t] = true
			}
			return
		}
		for _, a := range t.args {
			mark(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				mark(x)
			}
		}
	}
	for _, f := range facts {
		mark(f)
	}
	for _, f := range extra {
		mark(f)
	}
	bg := e.background(0)
	var out []*Term
	pend := bg
	for changed := true; changed; {
		changed = false
		var rest []*Term
		for _, a := range pend {
			ls := u.leaves(a)
			hit := len(ls) == 0
			if ab := e.axAbout[a]; ab != nil && ab != a && at != nil && u.Spec.Opts["slim"] != "" {
				hit = seen[ab]
				ls = nil
			}
			for _, l := range ls {
				if used[l] {
					hit = true
					break
				}
			}
			if hit {
				out = append(out, a)
				mark(a)
				changed = true
			} else {
				rest = append(rest, a)
			}
		}
		pend = rest
	}
	return append(out, facts...)
}

func (u *Unit) leaves(t *Term) []*Term {
	if l, ok := u.leafCache[t]; ok {
		return l
	}
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if len(t.args) == 0 && t.decl != "" && t != u.E.top0 {
			out = append(out, t)
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	u.leafCache[t] = out
	return out
}

// Unit is one function under contract with its obligations.
type Unit struct {
	Key       string
	E         *Engine
	Spec      *FuncSpec
	Fail      string
	leafCache map[*Term][]*Term
	Obls      []*Obl // final obligations
	Kept      []string
	Queries   int
	Wall      float64
	Rounds    int
}

func (u *Unit) script(nf int, at *pnode, pre []*Term, goals []*Term, ms int) string {
	all := append([]*Term{}, pre...)
	all = append(all, goals...)
	base := u.baseAsserts(nf, at, all...)
	base = append(base, pre...)
	// build with push/pop around the negated goals
	p := u.E.c
	neg := make([]*Term, len(goals))
	for i, g := range goals {
		neg[i] = p.Not(g)
	}
	return p.ScriptInc(header+fmt.Sprintf("(set-option :timeout %d)\n", ms), base, neg)
}

// houdini finds the largest subset of candidate invariants that is inductive.
func (u *Unit) houdini(ctx context.Context) {
	e := u.E
	type group struct {
		nf    int
		node  *pnode
		reach *Term
		obls  []*Obl
	}
	for {
		u.Rounds++
		var groups []*group
		idx := map[string]*group{}
		for _, o := range e.obls {
			if o.cand == nil || o.cand.dead {
				continue
			}
			if o.goal.isTrue() {
				continue
			}
			k := fmt.Sprintf("%d/%d/%p", o.nf, o.reach.id, o.node)
			g := idx[k]
			if g == nil || len(g.obls) >= 12 {
				g = &group{nf: o.nf, node: o.node, reach: o.reach}
				idx[k] = g
				groups = append(groups, g)
			}
			g.obls = append(g.obls, o)
		}
		type res struct {
			o  *Obl
			ok bool
		}
		var mu sync.Mutex
		var bad []*Cand
		var wg sync.WaitGroup
		e.background(0)
		for _, g := range groups {
			g := g
			var goals []*Term
			for _, o := range g.obls {
				goals = append(goals, o.goal)
			}
			scr := u.script(g.nf, g.node, []*Term{g.reach}, goals, int(1500*slowFactor))
			u.Queries += len(goals)
			retry := make([]string, len(goals))
			again := make([]string, len(goals))
			ms := int(700 * slowFactor)
			if u.Spec.Str {
				ms *= 2
			}
			for i, o := range g.obls {
				if o.cand.hinted && !u.E.bv {
					again[i] = u.script(g.nf, g.node, []*Term{g.reach}, []*Term{o.goal}, ms)
					retry[i] = u.script(g.nf, g.node, []*Term{g.reach}, []*Term{o.goal}, 5000)
					continue
				}
				if !u.E.bv && (o.cand.user || strings.Contains(o.cand.key, "|frame")) {
					again[i] = u.script(g.nf, g.node, []*Term{g.reach}, []*Term{o.goal}, ms)
				}
				if u.E.bv || o.cand.user || strings.Contains(o.cand.key, "|frame") {
					retry[i] = u.script(g.nf, g.node, []*Term{g.reach}, []*Term{o.goal}, 2000)
				}
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				r, raw := runScript(ctx, zNoExt, scr, 60)
				for len(r) < len(g.obls) {
					r = append(r, "unknown")
				}
				for i := range g.obls {
					if r[i] == "unsat" {
						continue
					}
					if again[i] != "" {
						n := 5
						if g.obls[i].cand.hinted {
							n = 16
						}
						if seeds(ctx, again[i], n) {
							r[i] = "unsat"
						} else if r2, _ := runScript(ctx, zNew, strings.Replace(again[i], fmt.Sprintf(":timeout %d)", ms), fmt.Sprintf(":timeout %d)", 2*ms), 1), 5*slowFactor); len(r2) > 0 && r2[0] == "unsat" {
							r[i] = "unsat"
						}
						if r[i] == "unsat" {
							continue
						}
					}
					if retry[i] == "" {
						continue
					}
					if r2, _ := runScript(ctx, cvc, cvcScript(retry[i]), 6*slowFactor); len(r2) > 0 && r2[0] == "unsat" {
						r[i] = "unsat"
					}
				}
				mu.Lock()
				defer mu.Unlock()
				for i, o := range g.obls {
					if i >= len(r) || r[i] != "unsat" {
						if i >= len(r) && strings.Contains(raw, "error") {
							fmt.Fprintln(os.Stderr, "solver error:", raw[:min(len(raw), 300)])
						}
						bad = append(bad, o.cand)
						if os.Getenv("VV_CANDS") != "" && o.cand.user {
							fmt.Fprintln(os.Stderr, "   fail", u.Rounds, o.cand.key, o.Kind, o.Pos)
						}
						if k := os.Getenv("VV_DUMPCAND"); k != "" && k == fmt.Sprintf("%d %s", u.Rounds, o.cand.key) {
							os.WriteFile("/tmp/cand.smt2", []byte(u.script(g.nf, g.node, []*Term{g.reach}, []*Term{o.goal}, 10000)), 0644)
						}
					}
				}
			}()
		}
		wg.Wait()
		// recorded invariants are only given up when nothing else fails
		n, other := 0, false
		for _, cd := range bad {
			if !cd.hinted {
				other = true
			}
		}
		for _, cd := range bad {
			if !cd.dead && !(other && cd.hinted) {
				if os.Getenv("VV_CANDS") != "" {
					fmt.Fprintln(os.Stderr, "   drop", u.Rounds, cd.key)
				}
				cd.dead = true
				n++
			}
		}
		if verbose {
			al := 0
			for _, cd := range e.cands {
				if !cd.dead {
					al++
				}
			}
			fmt.Fprintf(os.Stderr, "  houdini round %d: dropped %d, alive %d\n", u.Rounds, n, al)
		}
		if n == 0 || ctx.Err() != nil {
			return
		}
	}
}

// prove checks the given obligations with the whole portfolio.
func (u *Unit) prove(ctx context.Context, obls []*Obl) {
	type group struct {
		nf    int
		node  *pnode
		reach *Term
		obls  []*Obl
	}
	var groups []*group
	idx := map[string]*group{}
	for _, o := range obls {
		o.Res = ""
		if o.goal.isTrue() || o.reach.isFalse() {
			o.Res, o.By = "unsat", "simplifier"
			continue
		}
		k := fmt.Sprintf("%d/%d/%p", o.nf, o.reach.id, o.node)
		g := idx[k]
		if g == nil || len(g.obls) >= 6 {
			g = &group{nf: o.nf, node: o.node, reach: o.reach}
			idx[k] = g
			groups = append(groups, g)
		}
		g.obls = append(g.obls, o)
	}
	var wg sync.WaitGroup
	for _, g := range groups {
		g := g
		var goals []*Term
		for _, o := range g.obls {
			goals = append(goals, o.goal)
		}
		scr := u.script(g.nf, g.node, []*Term{g.reach}, goals, int(4000*slowFactor))
		singles := map[*Obl]string{}
		fulls := map[*Obl]string{}
		shorts := map[*Obl]string{}
		for _, o := range g.obls {
			singles[o] = u.script(o.nf, o.node, []*Term{o.reach}, []*Term{o.goal}, int(1000*u.limit()))
			shorts[o] = u.script(o.nf, o.node, []*Term{o.reach}, []*Term{o.goal}, int(800*slowFactor))
			fulls[o] = u.script(o.nf, nil, []*Term{o.reach}, []*Term{o.goal}, int(1000*u.limit()))
		}
		u.Queries += len(goals)
		wg.Add(1)
		go func() {
			defer wg.Done()
			t0 := time.Now()
			var r []string
			var raw string
			if !u.Spec.Str {
				r, raw = runScript(ctx, zNoExt, scr, 60)
			}
			for i, o := range g.obls {
				if i < len(r) {
					o.Res, o.By = r[i], "z3-new"
					if r[i] == "sat" {
						o.Res = "unknown"
					}
				} else {
					o.Res = "unknown"
					o.Note = raw[:min(len(raw), 300)]
				}
				o.Time = time.Since(t0).Seconds()
			}
			var w2 sync.WaitGroup
			for _, o := range g.obls {
				if o.Res == "unsat" {
					continue
				}
				o := o
				w2.Add(1)
				go func() {
					defer w2.Done()
					u.portfolio(ctx, o, singles[o], fulls[o], shorts[o])
				}()
			}
			w2.Wait()
		}()
	}
	wg.Wait()
}

func (u *Unit) limit() float64 {
	t := 20.0
	if u.Spec.Timeout > 0 {
		t = float64(u.Spec.Timeout)
	}
	return t * slowFactor
}

func (u *Unit) portfolio(ctx context.Context, o *Obl, scr, full, short string) {
	t0 := time.Now()
	if dumpDir != "" {
		os.WriteFile(filepath.Join(dumpDir, sanitize(u.Key+"_"+o.Kind+"_"+o.Name+"_"+o.Pos)+".smt2"), []byte(scr), 0644)
	}
	c2, cancel := context.WithCancel(ctx)
	defer cancel()
	type ans struct{ by, r string }
	ch := make(chan ans, 8)
	lim := u.limit()
	if !u.E.bv && !u.Spec.Str && seeds(ctx, short, 8) {
		o.Res, o.By = "unsat", "z3-new"
		o.Time += time.Since(t0).Seconds()
		return
	}
	variants := []struct {
		b backend
		s string
	}{
		{zNoExt, scr},
		{zArith2, scr},
		{zNew, scr},
		{cvc, cvcScript(scr)},
		{zOld, scr},
		{zNew, strings.Replace(full, "(set-option :smt.mbqi false)\n", "", 1)},
		{cvc, cvcScript(full)},
	}
	if u.E.bv {
		variants[0].s = strings.Replace(scr, "(set-option :smt.mbqi false)\n", "", 1)
		variants = append(variants[:1], variants[3:5]...)
	}
	for _, v := range variants {
		v := v
		go func() {
			r, raw := runScript(c2, v.b, v.s, lim)
			if len(r) > 0 {
				by := v.b.name
				if r[0] == "sat" && strings.Contains(strings.Join(v.b.args("", 1), " "), "extensional=false") {
					by = "noext"
				}
				ch <- ans{by, r[0]}
			} else {
				if verbose && !strings.Contains(raw, "cancelled") && strings.TrimSpace(raw) != "" {
					fmt.Fprintln(os.Stderr, v.b.name, raw[:min(len(raw), 200)])
				}
				ch <- ans{v.b.name, "unknown"}
			}
		}()
	}
	sat := false
	for range variants {
		a := <-ch
		if a.r == "unsat" {
			o.Res, o.By = "unsat", a.by
			break
		}
		if a.r == "sat" && a.by != "noext" {
			sat = true
			o.By = a.by
			break
		}
	}
	if o.Res != "unsat" {
		if sat {
			o.Res = "sat"
		} else {
			o.Res = "unknown"
		}
	}
	o.Time += time.Since(t0).Seconds()
}

var reOpt = regexp.MustCompile(`(?m)^\(set-option [^)]*\)\n`)

func cvcScript(s string) string { return reOpt.ReplaceAllString(s, "") }

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

// coversAll adds a cover per return and call, for auditing contracts by hand.
var coversAll = os.Getenv("VV_COVERS") != ""

// covers checks that the contract is not vacuous.
func (u *Unit) covers(ctx context.Context, obls []*Obl) {
	var wg sync.WaitGroup
	for _, o := range obls {
		o := o
		scr := u.script(o.nf, o.node, []*Term{o.reach}, []*Term{u.E.c.Bool(false)}, 1500)
		wg.Add(1)
		go func() {
			defer wg.Done()
			r, _ := runScript(ctx, zNew, scr, 10)
			if d := os.Getenv("VV_COVERS"); strings.HasPrefix(d, "/") && len(r) > 0 && r[0] == "unsat" {
				os.WriteFile(d+"/"+sanitize(u.Key+o.Name+o.Pos)+".smt2", []byte(scr), 0o644)
			}
			o.By = "z3-new"
			if len(r) > 0 && r[0] == "unsat" {
				o.Res = "vacuous"
			} else {
				o.Res = "ok"
			}
		}()
	}
	wg.Wait()
}

// Run verifies the unit.
func (u *Unit) Run(ctx context.Context, p *Prog, hints map[string]bool) {
	t0 := time.Now()
	defer func() { u.Wall = time.Since(t0).Seconds() }()
	var audits []*Obl
	defer func() {
		if len(audits) == 0 {
			return
		}
		u.covers(ctx, audits)
		for _, o := range audits {
			if o.Res == "vacuous" {
				fmt.Fprintln(os.Stderr, "AUDIT unreachable:", shortName(u.Key), o.Name, o.Pos)
			}
		}
	}()
	u.leafCache = map[*Term][]*Term{}
	fn := p.funcs[u.Key]
	if fn == nil || fn.Blocks == nil {
		u.Fail = "function not found in the current source"
		return
	}
	u.E, u.Fail = generate(p, u.Spec, fn)
	if u.Fail != "" {
		return
	}
	e := u.E
	var main, cov, audit []*Obl
	for _, o := range e.obls {
		if o.Kind == "audit" {
			audit = append(audit, o)
			continue
		}
		if o.cand != nil {
			continue
		}
		if o.Kind == "cover" {
			cov = append(cov, o)
		} else {
			main = append(main, o)
		}
	}
	u.Obls = append(main, cov...)
	audits = audit
	if hints != nil && len(e.cands) > 0 {
		hit := false
		for _, cd := range e.cands {
			if hints[cd.key] {
				hit = true
				cd.hinted = true
			} else {
				cd.dead = true
			}
		}
		for stage := 0; hit && stage < 2; stage++ {
			if stage == 1 {
				// the recorded invariants, with frame conditions for the heaps that had none
				n := 0
				covered := map[string]bool{}
				for _, cd := range e.cands {
					if l, h, ok := frameKey(cd.key); ok && cd.hinted {
						covered[l+h] = true
					}
				}
				for _, cd := range e.cands {
					l, h, fr := frameKey(cd.key)
					fr = fr && !covered[l+h]
					if fr && !cd.hinted {
						n++
					}
					cd.dead = !cd.hinted && !fr
				}
				if n == 0 {
					break
				}
			}
			u.houdini(ctx)
			u.prove(ctx, main)
			u.covers(ctx, cov)
			if u.open() == 0 {
				u.keep()
				return
			}
		}
		for _, cd := range e.cands {
			cd.dead = false
		}
		if verbose {
			fmt.Fprintln(os.Stderr, "  hints insufficient, full search", u.Key)
		}
	}
	if len(e.cands) > 0 {
		u.houdini(ctx)
	}
	u.prove(ctx, main)
	u.covers(ctx, cov)
	u.keep()
}

// frameKey splits the name of a frame condition into the loop and the heap it is about.
func frameKey(k string) (loop, heap string, ok bool) {
	i := strings.Index(k, "|frame")
	if i < 0 {
		return
	}
	j := strings.Index(k[i:], "(")
	if j < 0 {
		return
	}
	return k[:i], k[i+j:], true
}

func (u *Unit) open() int {
	n := 0
	for _, o := range u.Obls {
		if o.Kind == "cover" {
			if o.Res == "vacuous" {
				n++
			}
		} else if o.Res != "unsat" {
			n++
		}
	}
	return n
}

func (u *Unit) keep() {
	for _, cd := range u.E.cands {
		if !cd.dead {
			u.Kept = append(u.Kept, cd.key)
		}
	}
	sort.Strings(u.Kept)
	for _, o := range u.E.obls {
		if o.cand != nil && !o.cand.dead {
			o.Res, o.By = "unsat", "z3-new"
			u.Obls = append(u.Obls, o)
		}
	}
}
