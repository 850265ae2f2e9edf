package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callArgs evaluates callee and arguments.
func (e *Engine) callArgs(f *Frame, cc *ssa.CallCommon) (Value, []Value) {
	var fnv Value
	if cc.IsInvoke() {
		fnv = e.val(f, cc.Value)
	} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
		fnv = e.val(f, cc.Value)
	}
	var args []Value
	for _, a := range cc.Args {
		args = append(args, e.val(f, a))
	}
	return fnv, args
}

func (e *Engine) callInstr(f *Frame, site ssa.Instruction, cc *ssa.CallCommon, st *State, reach *Term) ([]Value, *Term) {
	fnv, args := e.callArgs(f, cc)
	return e.doCall(f, site, cc, fnv, args, st, reach)
}

func methodFull(cc *ssa.CallCommon) string { return cc.Method.FullName() }

func (e *Engine) doCall(f *Frame, site ssa.Instruction, cc *ssa.CallCommon, fnv Value, args []Value, st *State, reach *Term) ([]Value, *Term) {
	c := e.c
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return e.builtin(f, site, b, cc, args, st, reach)
	}
	if cc.IsInvoke() {
		full := methodFull(cc)
		reach = e.safety("nil-interface-call", reach, c.Not(c.Eq(fnv.C[0], c.Int(0))), site.Pos())
		if sp := e.p.db.Funcs[full]; sp != nil {
			return e.applyContract(sp, cc.Signature(), append([]Value{fnv}, args...), st, reach, site)
		}
		if e.p.db.Pures[full] {
			s := &SEnv{e: e, st: st, old: e.entry}
			vs := e.pureResult(full, cc.Signature(), s, append([]Value{fnv}, args...))
			return e.factResults(vs, st, reach), reach
		}
		if o := cc.Method.Pkg(); o != nil && e.p.repoPkg[o.Path()] && !e.p.db.NoEff[full] {
			switch n := types.Unalias(cc.Value.Type()).(type) {
			case *types.Named, *types.Interface:
				return e.dispatch(f, site, cc, n, fnv, args, st, reach)
			}
		}
		e.extern["interface method "+full] = true
		return e.externCall(f, site, full, cc, append([]Value{fnv}, args...), st, reach)
	}
	fn := cc.StaticCallee()
	var bind []Value
	if fnv.Fn != nil {
		fn = fnv.Fn
		bind = fnv.Bind
	}
	if fn == nil {
		// call of an unknown function value: contract by the named function type or field
		nm := "funcval " + typeStr(cc.Value.Type())
		if sp := e.p.db.Funcs["("+typeStr(cc.Value.Type())+").call"]; sp != nil {
			return e.applyContract(sp, cc.Signature(), append([]Value{fnv}, args...), st, reach, site)
		}
		e.extern[nm] = true
		e.assume["a call through a function value ("+typeStr(cc.Value.Type())+") may change anything the program can reach and return anything"] = true
		e.havocAll(st, reach)
		return e.arbResults(cc.Signature(), st, reach), reach
	}
	return e.callFn(f, site, fn, bind, args, st, reach, cc)
}

func fullName(fn *ssa.Function) string {
	if o, ok := fn.Object().(*types.Func); ok {
		return o.FullName()
	}
	if fn.Origin() != nil {
		if o, ok := fn.Origin().Object().(*types.Func); ok {
			return o.FullName()
		}
	}
	return fn.String()
}

func (e *Engine) callFn(f *Frame, site ssa.Instruction, fn *ssa.Function, bind, args []Value, st *State, reach *Term, cc *ssa.CallCommon) ([]Value, *Term) {
	full := fullName(fn)
	sp := e.p.db.Funcs[full]
	if sp != nil && !sp.Inline && (fn.Synthetic == "" || fn.Blocks == nil) {
		return e.applyContract(sp, fn.Signature, args, st, reach, site)
	}
	if e.p.db.Pures[full] {
		s := &SEnv{e: e, st: st, old: e.entry}
		vs := e.pureResult(full, fn.Signature, s, args)
		return e.factResults(vs, st, reach), reach
	}
	inRepo := fn.Blocks != nil && (fn.Pkg != nil && e.p.repoPkg[fn.Pkg.Pkg.Path()] || fn.Pkg == nil || fn.Parent() != nil)
	if inRepo {
		for p := f; p != nil; p = p.parent {
			if p.fn == fn {
				panic(unsup("recursion through %s without a contract", full))
			}
		}
		if f.depth > 10 {
			panic(unsup("inlining too deep at %s", full))
		}
		return e.inline(f, fn, bind, args, st, reach)
	}
	if v, ok := e.model(full, args, st, reach); ok {
		return v, reach
	}
	if full == "fmt.Sprintf" && e.strSMT && cc != nil {
		if t := e.sprintf(f, cc); t != nil {
			return []Value{e.strV(t)}, reach
		}
	}
	e.extern[full] = true
	return e.externCall(f, site, full, cc, args, st, reach)
}

func (e *Engine) inline(f *Frame, fn *ssa.Function, bind, args []Value, st *State, reach *Term) ([]Value, *Term) {
	base := f.path + "/" + fn.Name()
	e.ninst[base]++
	nf := &Frame{fn: fn, env: map[ssa.Value]Value{}, path: fmt.Sprintf("%s#%d", base, e.ninst[base]), parent: f, depth: f.depth + 1}
	for i, p := range fn.Params {
		v := args[i]
		v.T = p.Type()
		nf.env[p] = v
	}
	for i, fv := range fn.FreeVars {
		nf.env[fv] = bind[i]
	}
	e.inlined[fullName(fn)] = true
	e.runBody(nf, st.clone(), reach)
	e.curFrame = f
	var nodes []*pnode
	for _, r := range nf.rets {
		nodes = append(nodes, r.node)
	}
	e.at(nodes...)
	if len(nf.rets) == 0 {
		var vs []Value
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			vs = append(vs, e.zero(fn.Signature.Results().At(i).Type()))
		}
		return vs, e.c.Bool(false)
	}
	var conds []*Term
	var sts []*State
	for _, r := range nf.rets {
		conds = append(conds, r.cond)
		sts = append(sts, r.st)
	}
	m := e.mergeStates(conds, sts)
	// drop the callee's cells
	for k := range m.m {
		if strings.HasPrefix(k, "C|"+nf.path+":") {
			delete(m.m, k)
		}
	}
	*st = *m
	var vals []Value
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		var vs []Value
		for _, r := range nf.rets {
			vs = append(vs, r.vals[i])
		}
		v := e.mergeVals(conds, vs)
		v.T = fn.Signature.Results().At(i).Type()
		vals = append(vals, v)
	}
	return vals, e.c.Or(conds...)
}

func (e *Engine) dispatch(f *Frame, site ssa.Instruction, cc *ssa.CallCommon, n types.Type, recv Value, args []Value, st *State, reach *Term) ([]Value, *Term) {
	c := e.c
	it := n.Underlying().(*types.Interface)
	var conds, outs []*Term
	var sts []*State
	var valss [][]Value
	var tids []*Term
	for _, ct := range e.p.named {
		for _, t := range []types.Type{ct, types.NewPointer(ct)} {
			if !types.Implements(t, it) {
				continue
			}
			if _, isPtr := t.(*types.Pointer); isPtr && types.Implements(ct, it) {
				// pointer to a value implementing the interface is a further dynamic type; rarely used
			}
			ms := e.p.ssa.MethodSets.MethodSet(t)
			sel := ms.Lookup(cc.Method.Pkg(), cc.Method.Name())
			fn := e.p.ssa.MethodValue(sel)
			if fn == nil {
				continue
			}
			id := e.typeID(t)
			g := c.And(reach, c.Eq(e.typeof(recv.C[0]), id))
			tids = append(tids, c.Eq(e.typeof(recv.C[0]), id))
			s2 := st.clone()
			rv := e.unbox(s2, recv, t)
			for _, tf := range e.typeFacts(rv, e.top(s2)) {
				e.fact(g, tf)
			}
			vals, r2 := e.callFn(f, site, fn, nil, append([]Value{rv}, args...), s2, g, cc)
			conds = append(conds, g)
			outs = append(outs, r2)
			sts = append(sts, s2)
			valss = append(valss, vals)
		}
	}
	if len(conds) == 0 {
		panic(unsup("no implementation of %s in the repository", typeStr(n)))
	}
	e.assume["dynamic types of "+typeStr(n)+" are those declared in the repository"] = true
	e.fact(reach, c.Or(tids...))
	m := e.mergeStates(conds, sts)
	*st = *m
	var vals []Value
	for i := range valss[0] {
		var vs []Value
		for _, x := range valss {
			vs = append(vs, x[i])
		}
		v := e.mergeVals(conds, vs)
		v.T = cc.Signature().Results().At(i).Type()
		vals = append(vals, v)
	}
	// normal return: some implementation returned
	var rr []*Term
	same := true
	for i := range outs {
		if outs[i] != conds[i] {
			same = false
		}
		rr = append(rr, outs[i])
	}
	if same {
		return vals, reach
	}
	return vals, c.Or(rr...)
}

func (e *Engine) factResults(vs []Value, st *State, reach *Term) []Value {
	for _, v := range vs {
		for _, t := range e.typeFacts(v, e.top(st)) {
			e.fact(e.c.Bool(true), t)
		}
	}
	return vs
}

func (e *Engine) arbResults(sig *types.Signature, st *State, reach *Term) []Value {
	var out []Value
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, e.arbitrary("ret", sig.Results().At(i).Type(), st, reach))
	}
	return out
}

func pkgOfFull(full string) string {
	s := strings.TrimLeft(full, "(*")
	i := strings.LastIndex(s, "/")
	j := strings.Index(s[i+1:], ".")
	if j < 0 {
		return s
	}
	return s[:i+1+j]
}

var noEffectPkgs = map[string]bool{"fmt": true, "errors": true, "strings": true, "strconv": true, "time": true, "log": true,
	"github.com/sirupsen/logrus": true, "bytes": true, "path": true, "path/filepath": true, "net": true, "net/url": true, "os": true,
	"encoding/hex": true, "encoding/base64": true, "crypto/sha256": true, "crypto/sha1": true, "crypto/x509": true, "crypto/rsa": true, "math": true, "unicode": true,
	"crypto/x509/pkix": true, "net/http": true, "crypto": true, "regexp": true, "context": true, "runtime": true, "sync": true, "math/big": true, "sort": false, "os/exec": true,
	"github.com/prometheus/client_golang/prometheus": true, "go.uber.org/atomic": true, "github.com/opentracing/opentracing-go": true, "github.com/getsentry/sentry-go": true,
}

func (e *Engine) externCall(f *Frame, site ssa.Instruction, full string, cc *ssa.CallCommon, args []Value, st *State, reach *Term) ([]Value, *Term) {
	c := e.c
	if full == "log.Fatal" || full == "log.Fatalf" || full == "os.Exit" || strings.HasSuffix(full, "logrus.Fatalf") || strings.HasSuffix(full, "logrus.Fatal") || full == "(*github.com/sirupsen/logrus.Logger).Fatalf" || full == "(*github.com/sirupsen/logrus.Logger).Fatal" {
		if e.unit.Fatal {
			e.obl("safety", "no-process-exit", e.unit.Props, reach, c.Bool(false), site.Pos())
		}
		return e.arbResults(cc.Signature(), st, reach), c.Bool(false)
	}
	noeff := e.p.db.NoEff[full] || noEffectPkgs[pkgOfFull(full)]
	hasFn := false
	for _, a := range args {
		if a.Fn != nil {
			hasFn = true
		}
	}
	if hasFn && !e.p.db.NoEff[full] {
		e.assume["an external function that receives a callback ("+full+") may change anything"] = true
		e.havocAll(st, reach)
	} else if !noeff {
		var sargs []ssa.Value
		if cc.IsInvoke() {
			sargs = append(sargs, nil)
		}
		sargs = append(sargs, cc.Args...)
		for i, a := range args {
			var sv ssa.Value
			if i < len(sargs) {
				sv = sargs[i]
			}
			e.havocArg(f, a, sv, st, reach)
		}
	}
	if full == "errors.New" || full == "fmt.Errorf" {
		v := e.arbitrary("err", cc.Signature().Results().At(0).Type(), st, reach)
		e.fact(c.Bool(true), c.Lt(e.top0, v.C[0]))
		e.errFresh(v.C[0])
		return []Value{v}, reach
	}
	return e.arbResults(cc.Signature(), st, reach), reach
}

// errFresh: errors built by the standard library have a dynamic type outside the repository
func (e *Engine) errFresh(r *Term) {
	e.fact(e.c.Bool(true), e.c.Lt(e.typeof(r), e.c.Int(0)))
}

func (e *Engine) havocArg(f *Frame, a Value, sv ssa.Value, st *State, reach *Term) {
	if sv != nil {
		if mi, ok := sv.(*ssa.MakeInterface); ok {
			if v, ok := f.env[mi.X]; ok {
				e.havocArg(f, v, mi.X, st, reach)
			}
			return
		}
	}
	switch u := a.T.Underlying().(type) {
	case *types.Pointer:
		if a.Loc == nil && len(a.C) == 0 {
			return
		}
		l := e.deref(a)
		v := e.freshVal("hv", l.T)
		e.store(st, l, v)
		e.bumpTop(st)
		for _, t := range e.typeFacts(v, e.top(st)) {
			e.fact(e.c.Bool(true), t)
		}
	case *types.Slice:
		e.havocRow(st, u.Elem(), a.C[0])
	case *types.Map:
		e.havocMap(st, u, a.C[0])
	}
}

func (e *Engine) bumpTop(st *State) {
	nt := e.c.Fresh("top", SInt)
	e.fact(e.c.Bool(true), e.c.Le(e.top(st), nt))
	e.keySort["top"] = SInt
	st.m["top"] = nt
}

func (e *Engine) havocRow(st *State, el types.Type, ref *Term) {
	for i, k := range e.flat(el) {
		key := e.ekey(el, i)
		s := ArrSort(SInt, ArrSort(e.idxSort(), k.Sort))
		h := e.heapTerm(st, key, s, k.Kind, true)
		e.keySort[key] = s
		st.m[key] = e.c.Store(h, ref, e.c.Fresh("row", ArrSort(e.idxSort(), k.Sort)))
	}
}
func (e *Engine) havocMap(st *State, mt *types.Map, ref *Term) {
	dk, vks, lk, ks, vcs := e.mapKeys(mt)
	c := e.c
	ds := ArrSort(SInt, ArrSort(ks, SBool))
	h := e.get(st, dk, ds)
	e.keySort[dk] = ds
	st.m[dk] = c.Store(h, ref, c.Fresh("dom", ArrSort(ks, SBool)))
	for i, vc := range vcs {
		vs := ArrSort(SInt, ArrSort(ks, vc.Sort))
		hv := e.get(st, vks[i], vs)
		e.keySort[vks[i]] = vs
		st.m[vks[i]] = c.Store(hv, ref, c.Fresh("mval", ArrSort(ks, vc.Sort)))
	}
	ls := ArrSort(SInt, SInt)
	hl := e.get(st, lk, ls)
	e.keySort[lk] = ls
	nl := c.Fresh("mlen", SInt)
	e.fact(c.Bool(true), c.Le(c.Int(0), nl))
	st.m[lk] = c.Store(hl, ref, nl)
}

// havocAll forgets every heap (cells whose address never escapes are kept).
func (e *Engine) havocAll(st *State, reach *Term) {
	keys := map[string]bool{}
	for k := range e.keySort {
		keys[k] = true
	}
	for k := range st.m {
		keys[k] = true
	}
	var ks []string
	for k := range keys {
		if strings.HasPrefix(k, "H|") || strings.HasPrefix(k, "E|") || strings.HasPrefix(k, "M") || strings.HasPrefix(k, "X|") {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		var s Sort
		if t, ok := st.m[k]; ok {
			s = t.sort
		} else {
			s = e.keySort[k]
		}
		st.m[k] = e.c.Fresh("hv."+k, s)
	}
	// keys first touched later must not read as the initial heap
	st.m["epoch"] = e.c.Fresh("epoch", SInt)
	e.keySort["epoch"] = SInt
	e.bumpTop(st)
	e.allHavoc = true
}

// ---------- contracts ----------

func (e *Engine) applyContract(sp *FuncSpec, sig *types.Signature, args []Value, st *State, reach *Term, site ssa.Instruction) ([]Value, *Term) {
	v, r := e.applyContract1(sp, sig, args, st, reach, site)
	if coversAll {
		pos := token.NoPos
		if site != nil {
			pos = site.Pos()
		}
		e.obl("audit", "after call of "+shortName(sp.Key), sp.Props, r, e.c.Bool(false), pos)
	}
	return v, r
}

func (e *Engine) applyContract1(sp *FuncSpec, sig *types.Signature, args []Value, st *State, reach *Term, site ssa.Instruction) ([]Value, *Term) {
	c := e.c
	if sp.Trusted {
		e.usedTr[sp.Key] = true
	} else {
		e.usedCon[sp.Key] = true
	}
	if sp.Inline && !sp.Trusted {
		panic("inline contract applied")
	}
	if sp.BV != e.bv && !sp.Trusted {
		// contracts are stated over Go values, both modes describe the same integers
		e.assume["contract of "+sp.Key+" is used across arithmetic modes"] = true
	}
	env := &SEnv{e: e, st: st, old: st, vars: map[string]Value{}}
	if len(sp.Params) != len(args) {
		panic(unsup("contract %s has %d parameters, call has %d", sp.Key, len(sp.Params), len(args)))
	}
	cb := Value{}
	for i, p := range sp.Params {
		v := args[i]
		if sp.Iter != nil && p == sp.Iter.Fn {
			cb = v
		}
		if v.Fn != nil {
			v = Value{T: v.T, C: []*Term{e.funcRef(st, v)}}
		}
		env.vars[p] = v
	}
	for i, r := range sp.Requires {
		t := env.evalBool(r.Expr)
		nm := r.Name
		if nm == "" {
			nm = fmt.Sprint(i + 1)
		}
		if t.isTrue() {
			continue
		}
		e.obl("requires", shortName(sp.Key)+":"+nm, e.unit.Props, reach, t, site.Pos())
		e.fact(reach, t)
	}
	if sp.NoReturn {
		return e.arbResults(sig, st, reach), c.Bool(false)
	}
	pre := st.clone()
	penv := *env
	penv.st, penv.old = pre, pre
	if !sp.HasMod && !sp.Trusted && !sp.Pure {
		e.havocAll(st, reach)
	}
	e.havocMods(sp, &penv, st, reach)
	if sp.Iter != nil {
		reach = e.iterate(sp, &penv, cb, st, reach, site)
	}
	var vals []Value
	post := &SEnv{e: e, st: st, old: pre, vars: map[string]Value{}}
	for k, v := range env.vars {
		post.vars[k] = v
	}
	if sp.Pure {
		s := &SEnv{e: e, st: pre, old: pre}
		vals = e.factResults(e.pureResult(sp.Key, sig, s, args), st, reach)
	} else {
		needTop := len(sp.Mods) > 0
		for i := 0; i < sig.Results().Len(); i++ {
			for _, k := range e.flat(sig.Results().At(i).Type()) {
				if k.Kind == "ref" || k.Kind == "iface" || k.Kind == "slref" {
					needTop = true
				}
			}
		}
		if needTop {
			e.bumpTop(st)
		}
		for i := 0; i < sig.Results().Len(); i++ {
			v := e.freshVal("r."+shortName(sp.Key), sig.Results().At(i).Type())
			for _, t := range e.typeFacts(v, e.top(st)) {
				e.fact(c.Bool(true), t)
			}
			vals = append(vals, v)
		}
	}
	for i, r := range sp.Results {
		if i < len(vals) {
			post.vars[r] = vals[i]
		}
	}
	e.applySets(sp, post)
	for _, en := range sp.Ensures {
		e.fact(reach, post.evalBool(en.Expr))
	}
	for _, d := range sp.Dets {
		e.fact(reach, post.evalBool(d.Expr))
	}
	return vals, reach
}

// iterate: the rule for a function that calls a callback some number of times and does nothing else. The unit's iteration
// invariants (over "calls", the number of calls made, and "target", what the callback is bound to) must hold before the first
// call and be preserved by the callback's contract; they hold afterwards.
func (e *Engine) iterate(sp *FuncSpec, env *SEnv, cb Value, st *State, reach *Term, site ssa.Instruction) *Term {
	c := e.c
	if cb.Fn == nil {
		panic(unsup("callback of %s is not known", sp.Key))
	}
	full := fullName(cb.Fn)
	cs := e.p.db.Funcs[full]
	if cs == nil || !cs.HasMod {
		panic(unsup("callback %s of %s has no contract", full, sp.Key))
	}
	if len(cs.Params) != len(cb.Bind)+len(sp.Iter.Args) {
		panic(unsup("callback %s: %d parameters", full, len(cs.Params)))
	}
	inv := func(s *State, n *Term) []*Term {
		x := &SEnv{e: e, st: s, old: e.entry, vars: map[string]Value{}}
		for k, v := range e.unitEnv.vars {
			x.vars[k] = v
		}
		x.vars["calls"] = e.intV(n)
		if len(cb.Bind) > 0 {
			x.vars["target"] = cb.Bind[0]
		}
		var out []*Term
		for _, i := range e.unit.IterInv {
			out = append(out, x.evalBool(i.Expr))
		}
		return out
	}
	check := func(what string, s *State, n, r *Term) {
		for i, t := range inv(s, n) {
			nm := e.unit.IterInv[i].Name
			if nm == "" {
				nm = fmt.Sprint(i + 1)
			}
			e.obl("callback-invariant", nm+" "+what, e.unit.Props, r, t, site.Pos())
		}
	}
	args := func(s *State, n *Term) []Value {
		out := append([]Value{}, cb.Bind...)
		x := *env
		x.st = s
		x.vars = map[string]Value{}
		for k, v := range env.vars {
			x.vars[k] = v
		}
		x.vars["calls"] = e.intV(n)
		sig := cb.Fn.Signature
		for i, a := range sp.Iter.Args {
			out = append(out, x.conc(x.eval(a), sig.Params().At(i).Type()))
		}
		return out
	}
	// the state after some calls
	after := func(r *Term) *State {
		s := st.clone()
		m := &SEnv{e: e, st: st, old: st, vars: map[string]Value{}}
		for i, v := range args(st, e.idx(0)) {
			m.vars[cs.Params[i]] = v
		}
		e.havocMods(cs, m, s, r)
		e.bumpTop(s)
		return s
	}
	count := func() *Term { x := *env; return x.evalInt(sp.Iter.Count) }()
	e.fact(reach, c.Le(e.idx(0), count))
	check("before the first call", st, e.idx(0), reach)
	side := c.Fresh("midway", SBool)
	r1 := c.And(reach, side)
	n := c.Fresh("calls", e.idxSort())
	s1 := after(r1)
	e.fact(r1, c.And(c.Le(e.idx(0), n), c.Lt(n, count)))
	for _, t := range inv(s1, n) {
		e.fact(r1, t)
	}
	_, r2 := e.applyContract(cs, cb.Fn.Signature, args(s1, n), s1, r1, site)
	check("after a call", s1, c.Add(n, e.idx(1)), r2)
	s2 := after(reach)
	reach = c.And(reach, c.Not(side))
	for _, t := range inv(s2, count) {
		e.fact(reach, t)
	}
	st.m = s2.m
	return reach
}

func shortName(k string) string {
	i := strings.LastIndex(k, "/")
	s := k[i+1:]
	if strings.HasPrefix(k, "(*") && !strings.HasPrefix(s, "(*") {
		s = "(*" + s
	}
	return s
}

func (e *Engine) modField(env *SEnv, m ModClause) *Loc {
	v := env.eval(m.Expr)
	pt, ok := v.T.Underlying().(*types.Pointer)
	if !ok {
		panic(serr("modifies %s: not a pointer", m.Src))
	}
	stt := pt.Elem()
	l := e.deref(v)
	ss, ok := stt.Underlying().(*types.Struct)
	if !ok {
		panic(serr("modifies %s: not a struct", m.Src))
	}
	for i := 0; i < ss.NumFields(); i++ {
		if ss.Field(i).Name() == m.Sel {
			return e.fieldLoc(l, stt, i)
		}
	}
	panic(serr("modifies %s: no such field", m.Src))
}

func (e *Engine) anyKeys(m ModClause) map[string]bool {
	t := e.p.resolveType(m.Expr)
	out := map[string]bool{}
	ss := t.Underlying().(*types.Struct)
	for i := 0; i < ss.NumFields(); i++ {
		if ss.Field(i).Name() == m.Sel || m.Sel == "*" {
			lo, n := e.fieldRange(t, i)
			for j := lo; j < lo+n; j++ {
				out[e.hkey(t, j)] = true
			}
		}
	}
	if len(out) == 0 {
		panic(serr("modifies %s: no such field", m.Src))
	}
	return out
}

func (e *Engine) havocMods(sp *FuncSpec, env *SEnv, st *State, reach *Term) {
	c := e.c
	for _, m := range sp.Mods {
		switch m.Kind {
		case "all":
			e.havocAll(st, reach)
		case "field":
			l := e.modField(env, m)
			v := e.freshVal("m."+m.Sel, l.T)
			e.store(st, l, v)
			for _, t := range e.typeFacts(v, nil) {
				e.fact(c.Bool(true), t)
			}
		case "obj":
			v := env.eval(m.Expr)
			l := e.deref(v)
			nv := e.freshVal("m.obj", l.T)
			e.store(st, l, nv)
			for _, t := range e.typeFacts(nv, nil) {
				e.fact(c.Bool(true), t)
			}
		case "map":
			v := env.eval(m.Expr)
			e.havocMap(st, v.T.Underlying().(*types.Map), v.C[0])
		case "elems":
			v := env.eval(m.Expr)
			e.havocRow(st, v.T.Underlying().(*types.Slice).Elem(), v.C[0])
		case "anyelems":
			t := e.p.resolveType(m.Expr)
			for i, k := range e.flat(t) {
				key := e.ekey(t, i)
				s := ArrSort(SInt, ArrSort(e.idxSort(), k.Sort))
				e.keySort[key] = s
				st.m[key] = c.Fresh("m."+key, s)
			}
		case "any":
			for key := range e.anyKeys(m) {
				t := e.p.resolveType(m.Expr)
				for j, k := range e.flat(t) {
					if e.hkey(t, j) == key {
						s := ArrSort(SInt, k.Sort)
						e.keySort[key] = s
						st.m[key] = c.Fresh("m."+key, s)
					}
				}
			}
		case "anymap":
			mt := e.p.resolveType(m.Expr).Underlying().(*types.Map)
			dk, vks, lk, ks, vcs := e.mapKeys(mt)
			e.keySort[dk] = ArrSort(SInt, ArrSort(ks, SBool))
			st.m[dk] = c.Fresh("m."+dk, e.keySort[dk])
			for i, vc := range vcs {
				e.keySort[vks[i]] = ArrSort(SInt, ArrSort(ks, vc.Sort))
				st.m[vks[i]] = c.Fresh("m."+vks[i], e.keySort[vks[i]])
			}
			e.keySort[lk] = ArrSort(SInt, SInt)
			st.m[lk] = c.Fresh("m."+lk, e.keySort[lk])
		case "ghost", "ghostat":
			g := e.p.db.Ghosts[m.Sel]
			if g == nil {
				panic(serr("modifies: no ghost %s", m.Sel))
			}
			t := e.p.resolveType(g.Type)
			for _, k := range e.flat(t) {
				key := "X|" + g.Name + "|" + k.Name
				if !g.Heap {
					e.keySort[key] = k.Sort
					st.m[key] = c.Fresh("m."+g.Name, k.Sort)
					continue
				}
				s := ArrSort(SInt, k.Sort)
				h := e.get(st, key, s)
				e.keySort[key] = s
				if m.Kind == "ghost" {
					st.m[key] = c.Fresh("m."+g.Name, s)
				} else {
					r := env.eval(m.Expr)
					st.m[key] = c.Store(h, r.C[0], c.Fresh("m."+g.Name, k.Sort))
				}
			}
		}
	}
}

// ---------- builtins and fixed library models ----------

type mapLen struct{ ok, dom, len *Term }

func (e *Engine) cardFacts(a, b mapLen) {
	c := e.c
	sub := func(a, b mapLen) *Term {
		q := c.BVar("k", idxSortOf(a.dom.sort))
		return c.Forall([]*Term{q}, [][]*Term{{c.Select(a.dom, q)}, {c.Select(b.dom, q)}}, c.Imp(c.And(a.ok, c.Select(a.dom, q)), c.And(b.ok, c.Select(b.dom, q))))
	}
	e.fact(c.Bool(true), c.Imp(sub(a, b), c.And(c.Le(a.len, b.len), c.Imp(c.Le(b.len, a.len), sub(b, a)))))
}

func (e *Engine) builtin(f *Frame, site ssa.Instruction, b *ssa.Builtin, cc *ssa.CallCommon, args []Value, st *State, reach *Term) ([]Value, *Term) {
	c := e.c
	switch b.Name() {
	case "len":
		s := &SEnv{e: e, st: st, old: st}
		t := s.length(args[0])
		if mt, ok := args[0].T.Underlying().(*types.Map); ok {
			e.fact(c.Bool(true), c.Le(c.Int(0), t))
			// len == 0 means an empty domain
			dom := e.mapDom(st, mt, args[0].C[0])
			ks := idxSortOf(dom.sort)
			q := c.BVar("k", ks)
			e.fact(c.Bool(true), c.Imp(c.Eq(t, c.Int(0)), c.Forall([]*Term{q}, [][]*Term{{c.Select(dom, q)}}, c.Not(c.Select(dom, q)))))
			t = c.Ite(c.Eq(args[0].C[0], c.Int(0)), c.Int(0), t)
			if e.bv {
				panic(unsup("map length in bit-vector mode"))
			}
			// sets of keys are finite: a subset is not larger, and not smaller only if it is the whole set
			m := mapLen{c.Not(c.Eq(args[0].C[0], c.Int(0))), dom, t}
			for _, o := range e.mapLens {
				if o.dom.sort == dom.sort && (o.dom != dom || o.len != t) {
					e.cardFacts(o, m)
					e.cardFacts(m, o)
				}
			}
			e.mapLens = append(e.mapLens, m)
		}
		return []Value{e.intV(t)}, reach
	case "cap":
		if len(args[0].C) == 4 {
			return []Value{e.intV(args[0].C[3])}, reach
		}
		return e.oneArb(types.Typ[types.Int], st, reach), reach
	case "append":
		return []Value{e.appendModel(cc, args, st, reach)}, reach
	case "copy":
		return e.copyModel(args, st, reach), reach
	case "delete":
		mt := args[0].T.Underlying().(*types.Map)
		// delete on a nil map is a no-op: ref 0 is never a real map
		e.mapDelete(st, mt, args[0].C[0], e.mapKeyTerm(args[1]))
		return nil, reach
	case "close", "print", "println":
		return nil, reach
	case "recover":
		return e.oneArb(cc.Signature().Results().At(0).Type(), st, reach), reach
	case "min", "max":
		v := args[0]
		for _, a := range args[1:] {
			g := e.less(v.C[0], a.C[0], signedT(v.T))
			if b.Name() == "max" {
				g = e.less(a.C[0], v.C[0], signedT(v.T))
			}
			v = Value{T: v.T, C: []*Term{c.Ite(g, v.C[0], a.C[0])}}
		}
		return []Value{v}, reach
	case "clear":
		switch u := args[0].T.Underlying().(type) {
		case *types.Map:
			r := args[0].C[0]
			e.newMap(st, u, r)
			return nil, reach
		}
	case "ssa:wrapnilchk":
		return []Value{args[0]}, reach
	}
	panic(unsup("builtin %s", b.Name()))
}

func (e *Engine) oneArb(t types.Type, st *State, reach *Term) []Value {
	return []Value{e.arbitrary("b", t, st, reach)}
}

func (e *Engine) appendModel(cc *ssa.CallCommon, args []Value, st *State, reach *Term) Value {
	c := e.c
	s := args[0]
	stt := s.T.Underlying().(*types.Slice)
	el := stt.Elem()
	if len(args) == 1 {
		return s
	}
	y := args[1]
	isStr := isString(y.T)
	var yl *Term
	if isStr {
		yl = e.strLen(y.C[0])
	} else {
		yl = y.C[2]
	}
	ref, off, ln, cp := s.C[0], s.C[1], s.C[2], s.C[3]
	nl := c.Add(ln, yl)
	if yl.val != nil && yl.val.Sign() == 0 {
		return s
	}
	fits := e.c.Le(nl, cp)
	if isBV(nl.sort) {
		fits = c.cmpop("bvsle", nl, cp)
	}
	fr := e.alloc(st)
	// appending nothing keeps the slice
	nref := c.Ite(fits, ref, fr)
	ncap := c.Fresh("cap", e.idxSort())
	e.fact(c.Bool(true), c.And(c.Le(nl, ncap), c.Le(ncap, e.idx(1<<48))))
	cap2 := c.Ite(fits, cp, ncap)
	for i, k := range e.flat(el) {
		key := e.ekey(el, i)
		srt := ArrSort(SInt, ArrSort(e.idxSort(), k.Sort))
		h := e.heapTerm(st, key, srt, k.Kind, true)
		row := c.Select(h, ref)
		e.keySort[key] = srt
		if !isStr && yl.val != nil && yl.val.IsInt64() && yl.val.Int64() <= 8 {
			yrow := c.Select(h, y.C[0])
			nr := row
			for j := int64(0); j < yl.val.Int64(); j++ {
				nr = c.Store(nr, c.Add(off, c.Add(ln, e.idx(j))), c.Select(yrow, c.Add(y.C[1], e.idx(j))))
			}
			st.m[key] = c.Store(h, nref, nr)
			continue
		}
		nr := c.Fresh("arow", ArrSort(e.idxSort(), k.Sort))
		q := c.BVar("i", e.idxSort())
		sel := c.Select(nr, q)
		at := c.Add(off, ln)
		e.fact(c.Bool(true), c.Forall([]*Term{q}, [][]*Term{{sel}}, c.Imp(e.less(q, at, true), c.Eq(sel, c.Select(row, q)))))
		inNew := c.And(c.Le(at, q), e.less(q, c.Add(at, yl), true))
		if isStr {
			e.fact(c.Bool(true), c.Forall([]*Term{q}, [][]*Term{{sel}}, c.Imp(inNew, c.Eq(sel, c.App("strat", e.byteSort(), y.C[0], c.Sub(q, at))))))
		} else {
			yrow := c.Select(h, y.C[0])
			e.fact(c.Bool(true), c.Forall([]*Term{q}, [][]*Term{{sel}}, c.Imp(inNew, c.Eq(sel, c.Select(yrow, c.Add(c.Sub(q, at), y.C[1]))))))
		}
		// beyond the new end: unchanged when in place
		e.fact(c.Bool(true), c.Forall([]*Term{q}, [][]*Term{{sel}}, c.Imp(c.And(fits, c.Le(c.Add(at, yl), q)), c.Eq(sel, c.Select(row, q)))))
		if k.Kind == "int" || k.Name == "" {
			if b, ok := el.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				e.appendViews(nr, row, off, ln, y, yl, isStr, st, h)
			}
		}
		st.m[key] = c.Store(h, nref, nr)
	}
	// with a variable number of new elements, appending none keeps a nil slice nil
	if yl.val == nil {
		z := c.Eq(yl, e.idx(0))
		return Value{T: s.T, C: []*Term{c.Ite(z, ref, nref), off, nl, c.Ite(z, cp, cap2)}}
	}
	return Value{T: s.T, C: []*Term{nref, off, nl, cap2}}
}

// appendViews relates the string views of byte slices before and after an append.
func (e *Engine) appendViews(nr, row, off, ln *Term, y Value, yl *Term, isStr bool, st *State, h *Term) {
	c := e.c
	var ys *Term
	if isStr {
		ys = y.C[0]
	} else {
		ys = e.strOf(c.Select(h, y.C[0]), y.C[1], y.C[2])
	}
	if e.bv {
		return
	}
	e.fact(c.Bool(true), c.Eq(e.strOf(nr, off, c.Add(ln, yl)), e.strCat(e.strOf(row, off, ln), ys)))
	if !e.strSMT {
		e.addAxiom(c.Eq(e.strLen(e.strCat(e.strOf(row, off, ln), ys)), c.Add(ln, yl)), nr)
		em := e.strLit("")
		e.addAxiom(c.Imp(c.Eq(ln, c.Int(0)), c.Eq(e.strCat(e.strOf(row, off, ln), ys), ys)), nr)
		_ = em
	}
}

func (e *Engine) copyModel(args []Value, st *State, reach *Term) []Value {
	c := e.c
	d, s := args[0], args[1]
	el := d.T.Underlying().(*types.Slice).Elem()
	var sl *Term
	isStr := isString(s.T)
	if isStr {
		sl = e.strLen(s.C[0])
	} else {
		sl = s.C[2]
	}
	n := c.Ite(e.less(d.C[2], sl, true), d.C[2], sl)
	for i, k := range e.flat(el) {
		key := e.ekey(el, i)
		srt := ArrSort(SInt, ArrSort(e.idxSort(), k.Sort))
		h := e.heapTerm(st, key, srt, k.Kind, true)
		e.keySort[key] = srt
		row := c.Select(h, d.C[0])
		nr := c.Fresh("crow", ArrSort(e.idxSort(), k.Sort))
		q := c.BVar("i", e.idxSort())
		sel := c.Select(nr, q)
		in := c.And(c.Le(d.C[1], q), e.less(q, c.Add(d.C[1], n), true))
		var src *Term
		if isStr {
			src = c.App("strat", e.byteSort(), s.C[0], c.Sub(q, d.C[1]))
		} else {
			src = c.Select(c.Select(h, s.C[0]), c.Add(c.Sub(q, d.C[1]), s.C[1]))
		}
		e.fact(c.Bool(true), c.Forall([]*Term{q}, [][]*Term{{sel}}, c.Eq(sel, c.Ite(in, src, c.Select(row, q)))))
		// ground instances for small fixed-size targets
		if d.C[2].val != nil && d.C[2].val.IsInt64() && d.C[2].val.Int64() <= 32 && !isStr {
			for j := int64(0); j < d.C[2].val.Int64(); j++ {
				jt := c.Add(d.C[1], e.idx(j))
				inj := e.less(e.idx(j), n, true)
				e.fact(c.Bool(true), c.Eq(c.Select(nr, jt), c.Ite(inj, c.Select(c.Select(h, s.C[0]), c.Add(s.C[1], e.idx(j))), c.Select(row, jt))))
			}
		}
		st.m[key] = c.Store(h, d.C[0], nr)
	}
	return []Value{e.intV(n)}
}

// model gives exact meaning to a few library functions.
func (e *Engine) model(full string, a []Value, st *State, reach *Term) ([]Value, bool) {
	s := &SEnv{e: e, st: st, old: st}
	switch full {
	case "bytes.Equal", "bytes.Compare", "strings.Compare":
		v, ok := e.builtinPure(full, s, a)
		if ok {
			e.factResults(v, st, reach)
		}
		return v, ok
	}
	if e.strSMT {
		v, ok := e.builtinPure(full, s, a)
		return v, ok
	}
	return nil, false
}

// sprintf: a constant format of literal text, %s and %v (%d) whose arguments are all strings (or ints) is the concatenation of
// their texts.
func (e *Engine) sprintf(f *Frame, cc *ssa.CallCommon) *Term {
	if len(cc.Args) != 2 {
		return nil
	}
	k, ok := cc.Args[0].(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.String {
		return nil
	}
	format := constant.StringVal(k.Value)
	sl, ok := cc.Args[1].(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return nil
	}
	args := map[int64]Value{}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		ix, ok := ia.Index.(*ssa.Const)
		if !ok || ia.Referrers() == nil {
			return nil
		}
		for _, r2 := range *ia.Referrers() {
			so, ok := r2.(*ssa.Store)
			if !ok {
				return nil
			}
			mi, ok := so.Val.(*ssa.MakeInterface)
			if !ok {
				return nil
			}
			if b, ok := types.Unalias(mi.X.Type()).(*types.Basic); !ok || b.Kind() != types.String && b.Kind() != types.Int {
				return nil
			}
			if _, dup := args[ix.Int64()]; dup {
				return nil
			}
			args[ix.Int64()] = e.val(f, mi.X)
		}
	}
	var parts []*Term
	lit := ""
	n := int64(0)
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			lit += string(format[i])
			continue
		}
		i++
		if i >= len(format) {
			return nil
		}
		switch format[i] {
		case '%':
			lit += "%"
		case 's', 'v', 'd':
			a, ok := args[n]
			if !ok || isString(a.T) && format[i] == 'd' || !isString(a.T) && format[i] == 's' {
				return nil
			}
			if !isString(a.T) { // the decimal text of a number
				a = Value{T: types.Typ[types.String], C: []*Term{e.c.App("fn.decOf", e.strSort(), a.C[0])}}
			}
			n++
			if lit != "" {
				parts = append(parts, e.strLit(lit))
				lit = ""
			}
			parts = append(parts, a.C[0])
		default:
			return nil
		}
	}
	if n != int64(len(args)) {
		return nil
	}
	if lit != "" {
		parts = append(parts, e.strLit(lit))
	}
	if len(parts) == 0 {
		return e.strLit("")
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return e.c.mk("str.++", parts[0].sort, parts...)
}
