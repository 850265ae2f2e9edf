package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- candidate loop invariants ----------

// bindable: something a metavariable of a template can stand for.
type bindable struct {
	name string
	t    types.Type
	get  func(st *State, phi map[*ssa.Phi]Value) Value
}

func (e *Engine) addCand(lc *loopCtx, key string, user bool, ev func(f *Frame, st *State, phi map[*ssa.Phi]Value) *Term) {
	key = lc.key + "|" + key
	cd := e.candBy[key]
	if cd == nil {
		cd = &Cand{key: key, act: e.c.Const("act:"+key, SBool), user: user, loop: lc.key}
		e.candBy[key] = cd
		e.cands = append(e.cands, cd)
	}
	lc.inv = append(lc.inv, &invInst{cand: cd, eval: ev})
}

// invariantIn reports whether v is defined outside the loop (so its value does not change in it).
func invariantIn(lc *loopCtx, v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Function:
		return true
	}
	if ins, ok := v.(ssa.Instruction); ok {
		return !lc.body[ins.Block()]
	}
	return false
}

func (e *Engine) makeInvariants(f *Frame, lc *loopCtx, ent, cur map[*ssa.Phi]Value) {
	try := func(fn func() *Term) (t *Term, ok bool) {
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case specErr, unsupported:
					t, ok = nil, false
				default:
					panic(r)
				}
			}
		}()
		return fn(), true
	}
	add := func(key string, user bool, ev func(f *Frame, st *State, phi map[*ssa.Phi]Value) *Term) {
		a, ok := try(func() *Term { return ev(f, lc.entry, ent) })
		if !ok || a.isFalse() {
			return
		}
		b, ok := try(func() *Term { return ev(f, lc.hdr, cur) })
		if !ok || b.isTrue() || b == a {
			return
		}
		e.addCand(lc, key, user, ev)
	}
	if !e.unit.NoAuto {
		e.autoInvariants(f, lc, ent, cur, add)
	}
	// user templates
	binds := e.bindables(f, lc)
	vis := ""
	for _, b := range f.fn.Blocks {
		for _, ins := range b.Instrs {
			if nx, ok := ins.(*ssa.Next); ok && lc.body[b] && !nx.IsString {
				inner := false
				for h, o := range f.lp {
					_ = h
					if o != lc && o.body[b] && len(o.body) < len(lc.body) {
						inner = true
					}
				}
				if v, ok := f.env[nx.Iter]; ok && !inner {
					vis = "R|" + v.Iter + "|visited"
				}
			}
		}
	}
	for ti, tm := range e.unit.Inv {
		tm := tm
		var combos [][]bindable
		combos = append(combos, nil)
		for _, tv := range tm.Vars {
			t := e.p.resolveType(tv.Type)
			var next [][]bindable
			for _, cb := range combos {
				for _, b := range binds {
					if typeStr(b.t) != typeStr(t) && !(isInteger(t) && isInteger(b.t) && typeStr(t) == "int" && typeStr(b.t.Underlying()) == "int") {
						continue
					}
					if tv.Phi && (strings.HasPrefix(b.name, "reg:") || strings.HasPrefix(b.name, "^")) {
						continue
					}
					dup := false
					for _, x := range cb {
						if x.name == b.name {
							dup = true
						}
					}
					if dup {
						continue
					}
					next = append(next, append(append([]bindable{}, cb...), b))
				}
			}
			combos = next
		}
		if len(combos) > 400 {
			combos = combos[:400]
		}
		for _, cb := range combos {
			cb := cb
			var names []string
			for _, b := range cb {
				names = append(names, b.name)
			}
			ev := func(f *Frame, st *State, phi map[*ssa.Phi]Value) *Term {
				s := &SEnv{e: e, st: st, old: e.entry, ent: lc.entry, vars: map[string]Value{}, entv: map[string]Value{}}
				for k, v := range e.unitEnv.vars {
					s.vars[k] = v
					s.entv[k] = v
				}
				for i, b := range cb {
					s.vars[tm.Vars[i].Name] = b.get(st, phi)
					s.entv[tm.Vars[i].Name] = b.get(lc.entry, ent)
				}
				if vis != "" {
					if t, ok := st.m[vis]; ok {
						s.vars["ǂvisited"] = Value{C: []*Term{t}}
					}
				}
				return s.evalBool(tm.Expr)
			}
			add(fmt.Sprintf("t%d(%s)", ti, strings.Join(names, ",")), true, ev)
		}
	}
}

func (e *Engine) bindables(f *Frame, lc *loopCtx) []bindable {
	var out []bindable
	addPhi := func(l *loopCtx, pf *Frame, own bool) {
		for _, ph := range l.phis {
			ph := ph
			v := pf.env[ph]
			if v.Loc != nil || v.Fn != nil || v.Tup != nil || v.Iter != "" {
				continue
			}
			fixed := v
			get := func(st *State, phi map[*ssa.Phi]Value) Value {
				if own {
					return phi[ph]
				}
				return fixed
			}
			nm := ph.Name()
			if !own {
				nm = "^" + nm
			}
			out = append(out, bindable{nm, ph.Type(), get})
			if isInteger(ph.Type()) {
				out = append(out, bindable{nm + "+1", ph.Type(), func(st *State, phi map[*ssa.Phi]Value) Value {
					v := get(st, phi)
					return Value{T: v.T, C: []*Term{e.c.Add(v.C[0], e.constOne(v))}}
				}})
			}
		}
	}
	addPhi(lc, f, true)
	for o := lc.outer; o != nil; o = o.outer {
		addPhi(o, f, false)
	}
	for pf := f.parent; pf != nil; pf = pf.parent {
		for _, o := range pf.lp {
			addPhi(o, pf, false)
		}
	}
	// cells changed by the loop
	var cells []string
	seen := map[string]bool{}
	for k := range lc.hdr.m {
		if strings.HasPrefix(k, "C|") {
			id := strings.Split(k, "|")[1]
			if !seen[id] {
				seen[id] = true
				cells = append(cells, id)
			}
		}
	}
	sort.Strings(cells)
	for _, id := range cells {
		for k, ci := range e.cellInfo {
			if strings.HasPrefix(k, "C|"+id+"|0") && ci.i == 0 {
				l := &Loc{Kind: 'C', ID: id, Root: ci.T, T: ci.T}
				var get func(st *State, phi map[*ssa.Phi]Value) Value
				get = func(st *State, phi map[*ssa.Phi]Value) Value { return e.load(st, l) }
				out = append(out, bindable{"cell:" + id, ci.T, get})
				if st, ok := ci.T.Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						fl := e.fieldLoc(l, ci.T, i)
						out = append(out, bindable{"cell:" + id + "." + st.Field(i).Name(), st.Field(i).Type(), func(s *State, phi map[*ssa.Phi]Value) Value { return e.load(s, fl) }})
					}
				}
			}
		}
	}
	// values defined before the loop
	var regs []ssa.Value
	for v := range f.env {
		if !invariantIn(lc, v) {
			continue
		}
		switch v.(type) {
		case *ssa.Phi:
			if ph := v.(*ssa.Phi); ph.Block() == lc.head {
				continue
			}
		}
		x := f.env[v]
		if x.Loc != nil || x.Fn != nil || x.Tup != nil || x.Iter != "" {
			continue
		}
		if isInteger(v.Type()) && e.unit.Opts["intregs"] == "" {
			continue
		}
		if len(x.C) == 0 {
			continue
		}
		regs = append(regs, v)
	}
	sort.Slice(regs, func(i, j int) bool { return regs[i].Name() < regs[j].Name() })
	dup := map[string]bool{}
	for _, v := range regs {
		x := f.env[v]
		key := typeStr(v.Type())
		for _, t := range x.C {
			key += fmt.Sprintf(",%d", t.id)
		}
		if dup[key] {
			continue
		}
		dup[key] = true
		out = append(out, bindable{"reg:" + v.Name(), v.Type(), func(st *State, phi map[*ssa.Phi]Value) Value { return x }})
	}
	return out
}

func (e *Engine) constOne(v Value) *Term {
	if isBV(v.C[0].sort) {
		return e.c.BV(bigOne, bvWidth(v.C[0].sort))
	}
	return e.c.Int(1)
}

func (e *Engine) autoInvariants(f *Frame, lc *loopCtx, ent, cur map[*ssa.Phi]Value, add func(string, bool, func(*Frame, *State, map[*ssa.Phi]Value) *Term)) {
	c := e.c
	// integer phis against their entry value and against comparison bounds
	for _, ph := range lc.phis {
		ph := ph
		v := cur[ph]
		if isInteger(ph.Type()) && len(v.C) == 1 {
			sg := signedT(ph.Type())
			e0 := ent[ph].C[0]
			add("ge-entry("+ph.Name()+")", false, func(_ *Frame, _ *State, phi map[*ssa.Phi]Value) *Term { return e.lesseq(e0, phi[ph].C[0], sg) })
			add("le-entry("+ph.Name()+")", false, func(_ *Frame, _ *State, phi map[*ssa.Phi]Value) *Term { return e.lesseq(phi[ph].C[0], e0, sg) })
			if sg {
				z := e.zeroSort(e0.sort)
				add("ge-0("+ph.Name()+")", false, func(_ *Frame, _ *State, phi map[*ssa.Phi]Value) *Term { return e.lesseq(z, phi[ph].C[0], sg) })
			}
		}
		if _, ok := ph.Type().Underlying().(*types.Slice); ok && len(v.C) == 4 {
			te := e.top(lc.entry)
			ev := ent[ph]
			add("fresh-slice("+ph.Name()+")", false, func(_ *Frame, _ *State, phi map[*ssa.Phi]Value) *Term {
				x := phi[ph]
				return c.Or(c.Lt(te, x.C[0]), c.And(c.Eq(x.C[0], ev.C[0]), c.Eq(x.C[1], ev.C[1]), c.Eq(x.C[2], ev.C[2]), c.Eq(x.C[3], ev.C[3])))
			})
			add("fresh0-slice("+ph.Name()+")", false, func(_ *Frame, _ *State, phi map[*ssa.Phi]Value) *Term {
				x := phi[ph]
				return c.Or(c.Lt(e.top0, x.C[0]), c.Eq(x.C[3], e.idx(0)))
			})
			add("same-backing("+ph.Name()+")", false, func(_ *Frame, _ *State, phi map[*ssa.Phi]Value) *Term {
				x := phi[ph]
				return c.Eq(x.C[0], ev.C[0])
			})
			add("off0("+ph.Name()+")", false, func(_ *Frame, _ *State, phi map[*ssa.Phi]Value) *Term {
				return c.Eq(phi[ph].C[1], ev.C[1])
			})
			add("shrink("+ph.Name()+")", false, func(_ *Frame, _ *State, phi map[*ssa.Phi]Value) *Term {
				x := phi[ph]
				return c.And(c.Eq(x.C[0], ev.C[0]), c.Eq(c.Add(x.C[1], x.C[2]), c.Add(ev.C[1], ev.C[2])), c.Eq(c.Add(x.C[1], x.C[3]), c.Add(ev.C[1], ev.C[3])), c.Le(ev.C[1], x.C[1]))
			})
			add("samelen("+ph.Name()+")", false, func(_ *Frame, _ *State, phi map[*ssa.Phi]Value) *Term {
				x := phi[ph]
				return c.And(c.Eq(x.C[2], ev.C[2]))
			})
			for _, p2 := range lc.phis {
				p2 := p2
				if p2 == ph || typeStr(p2.Type()) != typeStr(ph.Type()) || p2.Name() < ph.Name() {
					continue
				}
				add("distinct("+ph.Name()+","+p2.Name()+")", false, func(_ *Frame, _ *State, phi map[*ssa.Phi]Value) *Term {
					a, b := phi[ph], phi[p2]
					return c.Or(c.Not(c.Eq(a.C[0], b.C[0])), c.Eq(a.C[0], c.Int(0)), c.Eq(a.C[3], e.idx(0)), c.Eq(b.C[3], e.idx(0)))
				})
			}
		}
		if _, ok := ph.Type().Underlying().(*types.Interface); ok && len(v.C) == 1 {
			add("nil-phi("+ph.Name()+")", false, func(_ *Frame, _ *State, phi map[*ssa.Phi]Value) *Term { return c.Eq(phi[ph].C[0], c.Int(0)) })
		}
		if isPointerLike(ph.Type()) && len(v.C) == 1 {
			add("nonnil-phi("+ph.Name()+")", false, func(_ *Frame, _ *State, phi map[*ssa.Phi]Value) *Term {
				return c.Not(c.Eq(phi[ph].C[0], c.Int(0)))
			})
		}
	}
	// comparison bounds
	type bnd struct {
		ph *ssa.Phi
		d  int64
		b  ssa.Value
	}
	asPhi := func(v ssa.Value) (*ssa.Phi, int64, bool) {
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == lc.head {
			return ph, 0, true
		}
		if bo, ok := v.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
			if ph, ok := bo.X.(*ssa.Phi); ok && ph.Block() == lc.head {
				if k, ok := bo.Y.(*ssa.Const); ok && k.Value != nil {
					d := k.Int64()
					if bo.Op == token.SUB {
						d = -d
					}
					return ph, d, true
				}
			}
		}
		return nil, 0, false
	}
	seen := map[string]bool{}
	for b := range lc.body {
		for _, ins := range b.Instrs {
			bo, ok := ins.(*ssa.BinOp)
			if !ok || !isInteger(bo.X.Type()) {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			for _, pr := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
				ph, d, ok := asPhi(pr[0])
				if !ok {
					continue
				}
				other := pr[1]
				var bv func(st *State, phi map[*ssa.Phi]Value) (*Term, bool)
				if invariantIn(lc, other) {
					x, ok := e.tryVal(f, other)
					if !ok || len(x.C) != 1 {
						continue
					}
					bv = func(st *State, phi map[*ssa.Phi]Value) (*Term, bool) { return x.C[0], true }
				} else if cl, ok := other.(*ssa.Call); ok {
					// len(x) of a loop-invariant or loop-carried slice
					if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
						a := cl.Call.Args[0]
						if p2, ok := a.(*ssa.Phi); ok && p2.Block() == lc.head {
							if _, isSl := p2.Type().Underlying().(*types.Slice); !isSl {
								continue
							}
							bv = func(st *State, phi map[*ssa.Phi]Value) (*Term, bool) { return phi[p2].C[2], true }
						} else if invariantIn(lc, a) {
							x, ok := e.tryVal(f, a)
							if !ok {
								continue
							}
							bv = func(st *State, phi map[*ssa.Phi]Value) (*Term, bool) {
								s := &SEnv{e: e, st: st, old: st}
								return s.length(x), true
							}
						} else if ld, ok := a.(*ssa.UnOp); ok && ld.Op == token.MUL {
							if fa, ok := ld.X.(*ssa.FieldAddr); ok && invariantIn(lc, fa.X) {
								if x, ok := e.tryVal(f, fa.X); ok {
									stt := fa.X.Type().Underlying().(*types.Pointer).Elem()
									l := e.fieldLoc(e.deref(x), stt, fa.Field)
									bv = func(st *State, phi map[*ssa.Phi]Value) (*Term, bool) {
										s := &SEnv{e: e, st: st, old: st}
										return s.length(e.load(st, l)), true
									}
								}
							}
						}
					}
				}
				if bv == nil {
					continue
				}
				sg := signedT(ph.Type())
				key := fmt.Sprintf("%s%+d~%s", ph.Name(), d, other.Name())
				if seen[key] {
					continue
				}
				seen[key] = true
				for _, k := range []int64{-1, 0, 1} {
					k := k
					add(fmt.Sprintf("bound(%s%+d<=%s)", ph.Name(), k, other.Name()), false, func(_ *Frame, st *State, phi map[*ssa.Phi]Value) *Term {
						p := phi[ph].C[0]
						t, _ := bv(st, phi)
						if p.sort != t.sort {
							return c.Bool(true)
						}
						return e.lesseq(c.Add(p, e.smallConst(p, k)), t, sg)
					})
					add(fmt.Sprintf("bound(%s<=%s%+d)", other.Name(), ph.Name(), k), false, func(_ *Frame, st *State, phi map[*ssa.Phi]Value) *Term {
						p := phi[ph].C[0]
						t, _ := bv(st, phi)
						if p.sort != t.sort {
							return c.Bool(true)
						}
						return e.lesseq(t, c.Add(p, e.smallConst(p, k)), sg)
					})
				}
			}
		}
	}
	// heap frames
	var mods []string
	for k := range lc.rec.mod {
		mods = append(mods, k)
	}
	sort.Strings(mods)
	for _, k := range mods {
		k := k
		if !(strings.HasPrefix(k, "H|") || strings.HasPrefix(k, "E|") || strings.HasPrefix(k, "M") || strings.HasPrefix(k, "X|")) {
			if k == "epoch" {
				continue
			}
			continue
		}
		srt, ok := e.keySort[k]
		if !ok || !isArr(srt) {
			if strings.HasPrefix(k, "X|") && ok {
				h0 := e.get(lc.entry, k, srt)
				add("ghost-same("+k+")", false, func(_ *Frame, st *State, _ map[*ssa.Phi]Value) *Term { return c.Eq(e.get(st, k, srt), h0) })
			}
			continue
		}
		entH := e.get(lc.entry, k, srt)
		te := e.top(lc.entry)
		r := c.mk("q.fr."+string(SInt), SInt)
		r.free = true
		frame := func(name string, bound *Term, base *Term, except []*Term) {
			add(name+"("+k+")", false, func(_ *Frame, st *State, _ map[*ssa.Phi]Value) *Term {
				h := e.get(st, k, srt)
				if h == base {
					return c.Bool(true)
				}
				conds := []*Term{c.Le(r, bound)}
				for _, x := range except {
					conds = append(conds, c.Not(c.Eq(r, x)))
				}
				sel := c.Select(h, r)
				return c.Forall([]*Term{r}, [][]*Term{{sel}}, c.Imp(c.And(conds...), c.Eq(sel, c.Select(base, r))))
			})
		}
		frame("frame", te, entH, nil)
		var exc []*Term
		for _, ph := range lc.phis {
			if v := ent[ph]; len(v.C) == 4 {
				exc = append(exc, v.C[0])
			}
		}
		if len(exc) > 0 {
			frame("frame-exc", te, entH, exc)
		}
		if allow, all := e.allowedRefs(k); !all {
			h0 := e.initial(k, srt)
			if h0 != entH || te != e.top0 || len(allow) > 0 {
				frame("frame0", e.top0, h0, allow)
			}
			if len(allow) > 0 {
				frame("frameE", te, entH, allow)
			}
		}
	}
	for _, k := range mods {
		k := k
		if strings.HasPrefix(k, "C|") {
			t0, ok := lc.entry.m[k]
			if !ok {
				continue
			}
			if ci, ok := e.cellInfo[k]; ok {
				cs := e.flat(ci.T)
				kd := cs[ci.i].Kind
				if kd == "int" {
					sg := true
					if b, ok := cs[ci.i].T.Underlying().(*types.Basic); ok {
						_, sg, _ = intInfo(b)
					}
					add("cell-ge("+k+")", false, func(_ *Frame, st *State, _ map[*ssa.Phi]Value) *Term { return e.lesseq(t0, st.m[k], sg) })
				}
				add("cell-same("+k+")", false, func(_ *Frame, st *State, _ map[*ssa.Phi]Value) *Term { return c.Eq(t0, st.m[k]) })
			}
		}
	}
}

func (e *Engine) smallConst(like *Term, k int64) *Term {
	if isBV(like.sort) {
		return e.c.BV(bigInt(k), bvWidth(like.sort))
	}
	return e.c.Int(k)
}

func (e *Engine) tryVal(f *Frame, v ssa.Value) (x Value, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsupported); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	return e.val(f, v), true
}

// allowedRefs: objects the unit's modifies clause lets change under this heap key (entry state).
func (e *Engine) allowedRefs(key string) ([]*Term, bool) {
	if !e.unit.HasMod {
		return nil, true
	}
	var out []*Term
	env := *e.unitEnv
	env.st, env.old = e.entry, e.entry
	for _, m := range e.unit.Mods {
		switch m.Kind {
		case "all":
			return nil, true
		case "field":
			l := e.modField(&env, m)
			n := len(e.flat(l.T))
			if l.Kind == 'H' {
				for i := 0; i < n; i++ {
					if e.hkey(l.Root, l.Lo+i) == key {
						out = append(out, l.Ref)
					}
				}
			}
		case "obj":
			l := e.deref(env.eval(m.Expr))
			if l.Kind == 'H' {
				for i := range e.flat(l.Root) {
					if e.hkey(l.Root, i) == key {
						out = append(out, l.Ref)
					}
				}
			}
		case "map":
			v := env.eval(m.Expr)
			mt := v.T.Underlying().(*types.Map)
			dk, vks, lk, _, _ := e.mapKeys(mt)
			if key == dk || key == lk {
				out = append(out, v.C[0])
			}
			for _, k := range vks {
				if k == key {
					out = append(out, v.C[0])
				}
			}
		case "elems":
			v := env.eval(m.Expr)
			el := v.T.Underlying().(*types.Slice).Elem()
			for i := range e.flat(el) {
				if e.ekey(el, i) == key {
					out = append(out, v.C[0])
				}
			}
		case "anyelems":
			t := e.p.resolveType(m.Expr)
			for i := range e.flat(t) {
				if e.ekey(t, i) == key {
					return nil, true
				}
			}
		case "any":
			if e.anyKeys(m)[key] {
				return nil, true
			}
		case "anymap":
			mt := e.p.resolveType(m.Expr).Underlying().(*types.Map)
			dk, vks, lk, _, _ := e.mapKeys(mt)
			if key == dk || key == lk {
				return nil, true
			}
			for _, k := range vks {
				if k == key {
					return nil, true
				}
			}
		case "ghost", "ghostat":
			g := e.p.db.Ghosts[m.Sel]
			if strings.HasPrefix(key, "X|"+g.Name+"|") {
				if m.Kind == "ghost" {
					return nil, true
				}
				out = append(out, env.eval(m.Expr).C[0])
			}
		}
	}
	return out, false
}
