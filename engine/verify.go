package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var bigOne = big.NewInt(1)

func bigInt(k int64) *big.Int { return big.NewInt(k) }

// UnitResult collects what happened to one function under contract.
type UnitResult struct {
	Spec    *FuncSpec
	E       *Engine
	Fail    string // unsupported construct or specification error
	Obls    []*Obl
	Cands   int
	Kept    []string
	Queries int
	SolverS float64
}

// generate runs symbolic execution until the modified sets of all loops are stable.
func generate(p *Prog, sp *FuncSpec, fn *ssa.Function) (e *Engine, fail string) {
	loops := map[string]*LoopRec{}
	for it := 0; it < 40; it++ {
		e = NewEngine(p, sp, fn, loops)
		fail = e.runUnit()
		if fail != "" || !e.grown {
			if os.Getenv("VV_MODS") != "" {
				for k, r := range loops {
					fmt.Fprintln(os.Stderr, "MODS", k, r.mod)
				}
			}
			return
		}
	}
	return e, "loop analysis did not stabilise"
}

func (e *Engine) runUnit() (fail string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				fail = "unsupported: " + x.msg
			case specErr:
				fail = "specification: " + x.msg
			default:
				panic(r)
			}
		}
	}()
	c := e.c
	fn, sp := e.fn, e.unit
	st := NewState()
	e.entry = NewState()
	f := &Frame{fn: fn, env: map[ssa.Value]Value{}, path: "u"}
	e.unitEnv = &SEnv{e: e, st: e.entry, old: e.entry, vars: map[string]Value{}}
	if len(sp.Params) != len(fn.Params) {
		return fmt.Sprintf("specification: contract has %d parameters, function %d", len(sp.Params), len(fn.Params))
	}
	e.rawFact(c.Le(c.Int(0), e.top0))
	for i, p := range fn.Params {
		v := Value{T: p.Type()}
		for _, k := range e.flat(p.Type()) {
			v.C = append(v.C, c.Const("p."+sp.Params[i]+k.Name, k.Sort))
		}
		for _, t := range e.typeFacts(v, e.top0) {
			e.rawFact(t)
		}
		f.env[p] = v
		e.unitEnv.vars[sp.Params[i]] = v
	}
	for _, r := range sp.Requires {
		e.rawFact(e.unitEnv.evalBool(r.Expr))
	}
	o := e.obl("cover", "precondition-satisfiable", sp.Props, c.Bool(true), c.Bool(false), fn.Pos())
	_ = o
	e.runBody(f, st, c.Bool(true))
	if len(f.rets) == 0 && !sp.NoReturn {
		return "unsupported: function has no normal return"
	}
	var reaches []*Term
	var nodes []*pnode
	for _, r := range f.rets {
		reaches = append(reaches, r.cond)
		e.node = r.node
		nodes = append(nodes, r.node)
		post := &SEnv{e: e, st: r.st, old: e.entry, vars: map[string]Value{}}
		for k, v := range e.unitEnv.vars {
			post.vars[k] = v
		}
		for i, n := range sp.Results {
			if i < len(r.vals) {
				post.vars[n] = r.vals[i]
			}
		}
		if r.vals != nil || fn.Signature.Results().Len() == 0 {
			e.applySets(sp, post)
		}
		for i, en := range sp.Ensures {
			nm := en.Name
			if nm == "" {
				nm = fmt.Sprintf("ensures-%d", i+1)
			}
			pr := en.Props
			if pr == nil {
				pr = sp.Props
			}
			if r.vals == nil && fn.Signature.Results().Len() > 0 {
				continue
			}
			t := post.evalBool(en.Expr)
			if t.op == "and" && len(t.args) <= 12 {
				for _, x := range t.args {
					e.obl("ensures", nm, pr, r.cond, x, r.pos)
				}
				continue
			}
			e.obl("ensures", nm, pr, r.cond, t, r.pos)
		}
		e.frameObls(r.st, r.cond, r)
		if coversAll {
			e.obl("audit", "return", sp.Props, r.cond, c.Bool(false), r.pos)
		}
	}
	e.at(nodes...)
	e.obl("cover", "return-reachable", sp.Props, c.Or(reaches...), c.Bool(false), fn.Pos())
	return ""
}

// applySets performs the ghost assignments of a contract in the state of env.
func (e *Engine) applySets(sp *FuncSpec, env *SEnv) {
	for _, s := range sp.Sets {
		g := e.p.db.Ghosts[s.Mod.Sel]
		if g == nil {
			panic(serr("sets: no ghost %s", s.Mod.Sel))
		}
		t := e.p.resolveType(g.Type)
		v := env.conc(env.eval(s.Val), t)
		for i, k := range e.flat(t) {
			key := "X|" + g.Name + "|" + k.Name
			if s.Mod.Kind == "ghost" {
				e.keySort[key] = k.Sort
				env.st.m[key] = v.C[i]
				continue
			}
			srt := ArrSort(SInt, k.Sort)
			e.keySort[key] = srt
			env.st.m[key] = e.c.Store(e.get(env.st, key, srt), env.eval(s.Mod.Expr).C[0], v.C[i])
		}
	}
}

// frameObls: nothing outside the modifies clause changes.
func (e *Engine) frameObls(st *State, reach *Term, r retRec) {
	if !e.unit.HasMod {
		return
	}
	c := e.c
	var keys []string
	for k := range st.m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		t := st.m[k]
		if strings.HasPrefix(k, "C|") || strings.HasPrefix(k, "R|") || k == "top" {
			continue
		}
		if k == "epoch" {
			all := false
			for _, m := range e.unit.Mods {
				if m.Kind == "all" {
					all = true
				}
			}
			if !all {
				e.obl("frame", "unknown-effects", e.unit.Props, reach, c.Bool(false), r.pos)
			}
			continue
		}
		o := e.initial(k, t.sort)
		if o == t {
			continue
		}
		if strings.HasPrefix(k, "G|") || !isArr(t.sort) {
			if strings.HasPrefix(k, "X|") {
				if _, all := e.allowedRefs(k); all {
					continue
				}
			}
			e.obl("frame", "unchanged "+keyLabel(k), e.unit.Props, reach, c.Eq(o, t), r.pos)
			continue
		}
		allow, all := e.allowedRefs(k)
		if all {
			continue
		}
		if strings.HasPrefix(k, "ML|") {
			continue // the length follows from the domain
		}
		x := c.Const("fr:"+k, SInt)
		conds := []*Term{c.Le(c.Int(1), x), c.Le(x, e.top0)}
		for _, a := range allow {
			conds = append(conds, c.Not(c.Eq(x, a)))
		}
		e.obl("frame", "unchanged "+keyLabel(k), e.unit.Props, c.And(append(conds, reach)...), c.Eq(c.Select(t, x), c.Select(o, x)), r.pos)
	}
}

func keyLabel(k string) string { return strings.ReplaceAll(k, "github.com/cloudflare/cfrpki/", "") }

// prelude builds the background axioms for a set of terms.
func (e *Engine) background(na int) []*Term {
	c := e.c
	out := append([]*Term{}, e.axioms...)
	if !e.strSMT && len(e.litOrder) > 1 {
		var ls []*Term
		for _, s := range e.litOrder {
			ls = append(ls, e.lits[s])
		}
		out = append(out, c.mk("distinct", SBool, ls...))
	}
	if !e.strSMT && !e.bv {
		// the empty string is the only one of length 0
		if em, ok := e.lits[""]; ok {
			x := c.mk("q.s.len", "Str")
			x.free = true
			l := c.App("strlen", SInt, x)
			out = append(out, c.Forall([]*Term{x}, [][]*Term{{l}}, c.Eq(c.Eq(l, c.Int(0)), c.Eq(x, em))))
		}
		for _, s := range e.litOrder {
			out = append(out, c.Eq(c.App("strlen", SInt, e.lits[s]), c.Int(int64(len(s)))))
		}
	}
	for _, a := range e.userAxioms() {
		out = append(out, a)
	}
	return out
}

func (e *Engine) userAxioms() []*Term {
	if e.uaxDone {
		return e.uax
	}
	e.uaxDone = true
	for _, a := range e.p.db.Axioms {
		s := &SEnv{e: e, st: e.entry, old: e.entry, vars: map[string]Value{}}
		var bs []*Term
		if only := e.unit.Opts["axioms"]; only != "" && !strings.Contains(" "+only+" ", " "+a.Name+" ") {
			continue
		} else if only == "" {
			continue
		}
		for _, v := range a.Vars {
			t := e.p.resolveType(v.Type)
			val, b := s.bvarOf(v.Name, t)
			s = s.with(v.Name, val)
			bs = append(bs, b...)
		}
		s.ql++
		body := s.evalBool(a.Expr)
		if len(bs) > 0 {
			body = e.c.Forall(bs, nil, body)
		}
		e.uax = append(e.uax, body)
		e.usedTr["axiom "+a.Name] = true
	}
	return e.uax
}

var _ = types.Typ
