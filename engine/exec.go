package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- verification-condition generation for one function ----------

type Obl struct {
	Name  string
	Kind  string // ensures requires frame safety inv-init inv-step cover
	Props []string
	nf    int // number of facts available
	na    int
	reach *Term
	goal  *Term
	node  *pnode
	cand  *Cand
	Pos   string
	Res   string
	Time  float64
	By    string
	Note  string
}
type Cand struct {
	key    string
	act    *Term
	user   bool
	dead   bool
	loop   string
	hinted bool
}

type LoopRec struct {
	mod     map[string]bool
	srt     map[string]Sort
	badphi  map[string]bool
	visited bool
}

type Engine struct {
	node      *pnode
	factNode  []*pnode
	axAbout   map[*Term]*Term
	p         *Prog
	c         *Ctx
	bv        bool
	strSMT    bool
	flatCache map[string][]Comp
	keySort   map[string]Sort
	axDone    map[*Term]bool
	axioms    []*Term
	top0      *Term
	lits      map[string]*Term
	litOrder  []string
	recs      map[string]*recInst
	recByOp   map[string]*recInst
	recQL     map[string]int
	recUsed   map[int][]bool
	cmpAx     bool
	typeIDs   map[string]int
	typeList  []types.Type

	unit     *FuncSpec
	fn       *ssa.Function
	facts    []*Term
	obls     []*Obl
	cands    []*Cand
	candBy   map[string]*Cand
	factCand map[int]*Cand
	loops    map[string]*LoopRec
	grown    bool
	mapLens  []mapLen
	ninst    map[string]int
	depth    int
	iterN    int
	boxN     int

	unitEnv  *SEnv // parameters at entry
	entry    *State
	usedCon  map[string]bool
	usedTr   map[string]bool
	inlined  map[string]bool
	extern   map[string]bool
	assume   map[string]bool
	curFrame *Frame
	rangeLoc map[string]*iterInfo
	cellInfo map[string]cellI
	allHavoc bool
	uaxDone  bool
	uax      []*Term
}

type iterInfo struct {
	mt    *types.Map
	ref   *Term
	isStr bool
	str   *Term
	dom0  *Term
}

func NewEngine(p *Prog, unit *FuncSpec, fn *ssa.Function, loops map[string]*LoopRec) *Engine {
	e := &Engine{p: p, c: NewCtx(), unit: unit, fn: fn, loops: loops,
		flatCache: map[string][]Comp{}, keySort: map[string]Sort{}, axDone: map[*Term]bool{}, lits: map[string]*Term{},
		recs: map[string]*recInst{}, typeIDs: map[string]int{}, candBy: map[string]*Cand{}, factCand: map[int]*Cand{}, ninst: map[string]int{},
		usedCon: map[string]bool{}, usedTr: map[string]bool{}, inlined: map[string]bool{}, extern: map[string]bool{}, assume: map[string]bool{}, rangeLoc: map[string]*iterInfo{}, cellInfo: map[string]cellI{}}
	e.bv = unit.BV
	e.strSMT = unit.Str
	e.keySort["top"] = SInt
	e.top0 = e.c.Const("top@0", SInt)
	return e
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	path   string
	parent *Frame
	defers []deferred
	rets   []retRec
	depth  int
	lp     map[*ssa.BasicBlock]*loopCtx
	recov  bool
}
type deferred struct {
	cond *Term
	call *ssa.CallCommon
	args []Value
	fnv  Value
	site ssa.Instruction
}
type retRec struct {
	cond *Term
	st   *State
	vals []Value
	pos  token.Pos
	node *pnode
}
type loopCtx struct {
	head    *ssa.BasicBlock
	body    map[*ssa.BasicBlock]bool
	key     string
	rec     *LoopRec
	hdr     *State // state at header after havoc
	entry   *State
	reach   *Term
	phis    []*ssa.Phi
	inv     []*invInst
	cells   map[string]bool
	outer   *loopCtx
	entVals map[string]Value
}
type invInst struct {
	cand *Cand
	eval func(f *Frame, st *State, phi map[*ssa.Phi]Value) *Term
}

type edge struct {
	cond *Term
	st   *State
	from *ssa.BasicBlock
	node *pnode
}

func (e *Engine) fact(reach, t *Term) {
	f := e.c.Imp(reach, t)
	if !f.isTrue() {
		e.rawFact(f)
	}
}

func (e *Engine) rawFact(f *Term) {
	for len(e.factNode) < len(e.facts) {
		e.factNode = append(e.factNode, nil)
	}
	e.facts = append(e.facts, f)
	e.factNode = append(e.factNode, e.node)
}

// pnode is a point of the (loop-free, inlined) control flow; facts recorded at a point that cannot precede an
// obligation are left out of it.
type pnode struct {
	preds []*pnode
	anc   map[*pnode]bool
}

func (e *Engine) at(preds ...*pnode) { e.node = &pnode{preds: preds} }

func (n *pnode) ancestors() map[*pnode]bool {
	if n.anc == nil {
		n.anc = map[*pnode]bool{n: true}
		st := []*pnode{n}
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			for _, p := range x.preds {
				if p != nil && !n.anc[p] {
					n.anc[p] = true
					st = append(st, p)
				}
			}
		}
	}
	return n.anc
}

func (e *Engine) obl(kind, name string, props []string, reach, goal *Term, pos token.Pos) *Obl {
	o := &Obl{Name: name, Kind: kind, Props: props, nf: len(e.facts), na: len(e.axioms), reach: reach, goal: goal, node: e.node}
	if pos.IsValid() {
		ps := e.p.fset.Position(pos)
		o.Pos = fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, "/repo/"), ps.Line)
	}
	e.obls = append(e.obls, o)
	return o
}

func (e *Engine) typeof(r *Term) *Term { return e.c.App("typeof", SInt, r) }
func (e *Engine) typeID(t types.Type) *Term {
	k := typeStr(t)
	id, ok := e.typeIDs[k]
	if !ok {
		id = len(e.typeIDs) + 1
		e.typeIDs[k] = id
		e.typeList = append(e.typeList, t)
	}
	return e.c.Int(int64(id))
}

// box turns a concrete value into an interface value.
func (e *Engine) box(st *State, v Value, reach *Term) *Term {
	c := e.c
	if v.Loc != nil {
		panic(unsup("interface holding an interior pointer"))
	}
	id := e.typeID(v.T)
	if v.Fn != nil {
		r := e.alloc(st)
		e.fact(c.Bool(true), c.Eq(e.typeof(r), id))
		return r
	}
	if isPointerLike(v.T) {
		p := v.C[0]
		tn := c.Int(-id.val.Int64() - 1)
		e.fact(c.Bool(true), c.Imp(c.Not(c.Eq(p, c.Int(0))), c.Eq(e.typeof(p), id)))
		e.addAxiom(c.Eq(e.typeof(tn), id), tn)
		return c.Ite(c.Eq(p, c.Int(0)), tn, p)
	}
	// deterministic box per value: equal values give an equal reference
	var r *Term
	if len(v.C) == 0 {
		r = c.App("box."+typeStr(v.T), SInt, id)
	} else {
		r = c.App("box."+typeStr(v.T), SInt, v.C...)
	}
	if !e.axDone[r] {
		e.axDone[r] = true
		if !r.free {
			e.axioms = append(e.axioms, c.Eq(e.typeof(r), id), c.Lt(r, c.Int(-1000000)))
			for i, k := range e.flat(v.T) {
				e.axioms = append(e.axioms, c.Eq(c.App("unbox."+typeStr(v.T)+fmt.Sprintf(".%d", i), k.Sort, r), v.C[i]))
			}
		}
	}
	return r
}

// unbox extracts the dynamic value assuming the dynamic type is t.
func (e *Engine) unbox(st *State, v Value, t types.Type) Value {
	c := e.c
	if isIface(t) {
		return Value{T: t, C: v.C}
	}
	if isPointerLike(t) {
		return Value{T: t, C: []*Term{c.Ite(c.Lt(v.C[0], c.Int(0)), c.Int(0), v.C[0])}}
	}
	out := Value{T: t}
	for i, k := range e.flat(t) {
		out.C = append(out.C, c.App("unbox."+typeStr(t)+fmt.Sprintf(".%d", i), k.Sort, v.C[0]))
	}
	return out
}

// implements reports which known dynamic types satisfy an interface.
func (e *Engine) ifaceOK(st *State, v Value, t types.Type) *Term {
	c := e.c
	it := t.Underlying().(*types.Interface)
	nn := c.Not(c.Eq(v.C[0], c.Int(0)))
	if it.NumMethods() == 0 {
		return nn
	}
	if src, ok := v.T.Underlying().(*types.Interface); ok && types.AssignableTo(src, it) {
		return nn
	}
	r := c.App("impl."+typeStr(t), SBool, e.typeof(v.C[0]))
	for _, ct := range e.typeList {
		id := e.typeID(ct)
		e.addAxiom(c.Eq(c.App("impl."+typeStr(t), SBool, id), c.Bool(types.Implements(ct, it))), r)
	}
	return c.And(nn, r)
}

// ---------- CFG helpers ----------

type cfgInfo struct {
	order []*ssa.BasicBlock
	back  map[[2]int]bool
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	ord   map[*ssa.BasicBlock]int
}

var cfgCache = map[*ssa.Function]*cfgInfo{}

func cfg(f *ssa.Function) *cfgInfo {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	ci := &cfgInfo{back: map[[2]int]bool{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, ord: map[*ssa.BasicBlock]int{}}
	for i := len(post) - 1; i >= 0; i-- {
		ci.order = append(ci.order, post[i])
	}
	for i, b := range ci.order {
		ci.ord[b] = i
	}
	for _, b := range ci.order {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				ci.back[[2]int{b.Index, s.Index}] = true
				body := ci.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					ci.loops[s] = body
				}
				var st []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range x.Preds {
						if !body[p] && seen[p] {
							body[p] = true
							st = append(st, p)
						}
					}
				}
			} else if ci.ord[s] <= ci.ord[b] {
				panic(unsup("irreducible control flow in %s", f.Name()))
			}
		}
	}
	return ci
}

// isCell reports whether an Alloc can be kept as a local cell (its address does not escape).
func isCell(a *ssa.Alloc) bool {
	var ok func(v ssa.Value, d int) bool
	ok = func(v ssa.Value, d int) bool {
		if v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch u := r.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				if u.Op != token.MUL {
					return false
				}
			case *ssa.Store:
				if u.Val == v {
					return false
				}
			case *ssa.FieldAddr:
				if !ok(u, d+1) {
					return false
				}
			case *ssa.IndexAddr:
				if u.X != v || !ok(u, d+1) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return ok(a, 0)
}

// ---------- value access ----------

func (e *Engine) val(f *Frame, v ssa.Value) Value {
	switch u := v.(type) {
	case *ssa.Const:
		return e.constOf(u)
	case *ssa.Global:
		o, _ := u.Object().(*types.Var)
		pt := u.Type().Underlying().(*types.Pointer)
		id := u.Name()
		if o != nil {
			id = o.Pkg().Path() + "." + o.Name()
		} else if u.Pkg != nil {
			id = u.Pkg.Pkg.Path() + "." + u.Name()
		}
		return Value{T: u.Type(), Loc: &Loc{Kind: 'G', ID: id, Root: pt.Elem(), T: pt.Elem()}}
	case *ssa.Function:
		return Value{T: u.Type(), Fn: u}
	case *ssa.Builtin:
		return Value{T: u.Type()}
	}
	x, ok := f.env[v]
	if !ok {
		panic(unsup("value %s of %s not available", v.Name(), f.fn.Name()))
	}
	return x
}

func (e *Engine) constOf(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return e.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Value{T: t, C: []*Term{e.c.Bool(constant.BoolVal(k.Value))}}
		case u.Info()&types.IsInteger != 0:
			n, _ := new(big.Int).SetString(constant.ToInt(k.Value).ExactString(), 10)
			return Value{T: t, C: []*Term{e.constInt(n, t)}}
		case u.Info()&types.IsString != 0:
			return Value{T: t, C: []*Term{e.strLit(constant.StringVal(k.Value))}}
		case u.Info()&types.IsFloat != 0:
			return Value{T: t, C: []*Term{e.c.Const("float:"+k.Value.ExactString(), SInt)}}
		}
	}
	panic(unsup("constant %s", k))
}

// ---------- running a function body ----------

func (e *Engine) runBody(f *Frame, st0 *State, reach0 *Term) {
	ci := cfg(f.fn)
	in := map[*ssa.BasicBlock][]edge{}
	in[f.fn.Blocks[0]] = []edge{{reach0, st0, nil, e.node}}
	f.lp = map[*ssa.BasicBlock]*loopCtx{}
	for _, b := range ci.order {
		es := in[b]
		var live []edge
		for _, x := range es {
			if !x.cond.isFalse() {
				live = append(live, x)
			}
		}
		if len(live) == 0 {
			continue
		}
		var conds []*Term
		var sts []*State
		var nodes []*pnode
		for _, x := range live {
			conds = append(conds, x.cond)
			sts = append(sts, x.st)
			nodes = append(nodes, x.node)
		}
		e.at(nodes...)
		reach := e.c.Or(conds...)
		st := e.mergeStates(conds, sts)
		phis := map[*ssa.Phi]Value{}
		var phiList []*ssa.Phi
		for _, ins := range b.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			phiList = append(phiList, ph)
		}
		if body, isLoop := ci.loops[b]; isLoop {
			reach, st = e.loopHeader(f, ci, b, body, live, reach, st, phiList)
		} else {
			for _, ph := range phiList {
				var vs []Value
				var cs []*Term
				for _, x := range live {
					vs = append(vs, e.val(f, ph.Edges[predIdx(b, x.from)]))
					cs = append(cs, x.cond)
				}
				v := e.mergeVals(cs, vs)
				v.T = ph.Type()
				phis[ph] = v
			}
			for ph, v := range phis {
				f.env[ph] = v
			}
		}
		reach2 := reach
		done := false
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Phi); ok {
				continue
			}
			e.curFrame = f
			switch u := ins.(type) {
			case *ssa.If:
				cv := e.val(f, u.Cond).C[0]
				e.out(f, ci, in, b, 0, e.c.And(reach2, cv), st)
				e.out(f, ci, in, b, 1, e.c.And(reach2, e.c.Not(cv)), st)
				done = true
			case *ssa.Jump:
				e.out(f, ci, in, b, 0, reach2, st)
				done = true
			case *ssa.Return:
				var vals []Value
				for _, r := range u.Results {
					vals = append(vals, e.val(f, r))
				}
				f.rets = append(f.rets, retRec{reach2, st, vals, u.Pos(), e.node})
				done = true
			case *ssa.Panic:
				if e.unit.NoPanic {
					e.obl("safety", "no-panic", e.unit.Props, reach2, e.c.Bool(false), u.Pos())
				}
				done = true
			default:
				r := e.instr(f, ins, st, reach2)
				if r != nil {
					reach2 = r
				}
			}
			if done || reach2.isFalse() {
				break
			}
		}
	}
}

func predIdx(b, from *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == from {
			return i
		}
	}
	panic("pred")
}

func (e *Engine) out(f *Frame, ci *cfgInfo, in map[*ssa.BasicBlock][]edge, b *ssa.BasicBlock, k int, cond *Term, st *State) {
	s := b.Succs[k]
	if cond.isFalse() {
		return
	}
	// both successors the same block: keep distinct edges
	if ci.back[[2]int{b.Index, s.Index}] {
		e.backEdge(f, s, b, cond, st)
		return
	}
	for i := range in[s] {
		if in[s][i].from == b {
			in[s][i].cond = e.c.Or(in[s][i].cond, cond)
			return
		}
	}
	in[s] = append(in[s], edge{cond, st.clone(), b, e.node})
}

func (e *Engine) loopHeader(f *Frame, ci *cfgInfo, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, live []edge, reach *Term, st *State, phis []*ssa.Phi) (*Term, *State) {
	c := e.c
	key := fmt.Sprintf("%s/%d", f.path, ci.loopOrd(b))
	rec := e.loops[key]
	if rec == nil {
		rec = &LoopRec{mod: map[string]bool{}, srt: map[string]Sort{}, badphi: map[string]bool{}}
		e.loops[key] = rec
		e.grown = true
	}
	lc := &loopCtx{head: b, body: body, key: key, rec: rec, entry: st, reach: reach, phis: phis}
	// enclosing loop
	for h, o := range f.lp {
		if o.body[b] && h != b && (lc.outer == nil || len(o.body) < len(lc.outer.body)) {
			lc.outer = o
		}
	}
	f.lp[b] = lc
	// entry values of phis
	ent := map[*ssa.Phi]Value{}
	for _, ph := range phis {
		var vs []Value
		var cs []*Term
		for _, x := range live {
			vs = append(vs, e.val(f, ph.Edges[predIdx(b, x.from)]))
			cs = append(cs, x.cond)
		}
		v := e.mergeVals(cs, vs)
		v.T = ph.Type()
		ent[ph] = v
	}
	hdr := st.clone()
	var mods []string
	for k := range rec.mod {
		mods = append(mods, k)
	}
	sort.Strings(mods)
	for _, k := range mods {
		var s Sort
		if t, ok := st.m[k]; ok {
			s = t.sort
		} else if ks, ok := rec.srt[k]; ok {
			// not read or written before the loop: havocked all the same
			s = ks
			e.keySort[k] = ks
		} else {
			panic(unsup("loop-modified state of unknown sort: " + k))
		}
		if strings.HasPrefix(k, "C|") {
			if _, ok := st.m[k]; !ok {
				continue
			}
		}
		hdr.m[k] = c.Fresh("L"+k, s)
	}
	if rec.mod["top"] {
		e.fact(c.Bool(true), c.Le(e.top(st), hdr.m["top"]))
	}
	phv := map[*ssa.Phi]Value{}
	for _, ph := range phis {
		ev := ent[ph]
		if (ev.Loc != nil || ev.Fn != nil || ev.Iter != "") && !rec.badphi[ph.Name()] {
			phv[ph] = ev // checked unchanged on the back edge
			continue
		}
		if ev.Loc != nil || ev.Fn != nil {
			panic(unsup("loop-carried address or function value"))
		}
		v := e.freshVal("phi."+ph.Name(), ph.Type())
		phv[ph] = v
		for _, t := range e.typeFacts(v, e.top(hdr)) {
			e.fact(c.Bool(true), t)
		}
	}
	for ph, v := range phv {
		f.env[ph] = v
	}
	// facts about havocked cells
	for _, k := range mods {
		if strings.HasPrefix(k, "C|") {
			if h, ok := hdr.m[k]; ok {
				e.cellFacts(f, k, h, hdr)
			}
		}
	}
	lc.hdr = hdr.clone()
	e.makeInvariants(f, lc, ent, phv)
	// initialisation obligations, then assumptions
	for _, iv := range lc.inv {
		t := iv.eval(f, st, ent)
		o := e.obl("inv-init", iv.cand.key, e.unit.Props, c.And(reach), t, b.Instrs[0].Pos())
		o.cand = iv.cand
	}
	for _, iv := range lc.inv {
		t := iv.eval(f, hdr, phv)
		n := len(e.facts)
		e.fact(reach, t)
		if len(e.facts) > n {
			e.factCand[n] = iv.cand
		}
	}
	return reach, hdr
}

func (ci *cfgInfo) loopOrd(b *ssa.BasicBlock) int {
	n := 0
	for _, x := range ci.order {
		if x == b {
			return n
		}
		if ci.loops[x] != nil {
			n++
		}
	}
	return -1
}

// cellFacts adds type facts for a havocked local cell.
func (e *Engine) cellFacts(f *Frame, key string, t *Term, st *State) {
	info, ok := e.cellInfo[key]
	if !ok {
		return
	}
	cs := e.flat(info.T)
	k := cs[info.i]
	switch k.Kind {
	case "int":
		if !isBV(t.sort) {
			if b, ok := k.T.Underlying().(*types.Basic); ok {
				w, s, _ := intInfo(b)
				e.fact(e.c.Bool(true), e.rangeFact(t, w, s))
			}
		}
	case "ref":
		e.fact(e.c.Bool(true), e.c.And(e.c.Le(e.c.Int(0), t), e.c.Le(t, e.top(st))))
	case "iface":
		e.fact(e.c.Bool(true), e.c.Le(t, e.top(st)))
	case "slref":
		// component order .ref .off .len .cap
		C := make([]*Term, len(cs))
		okAll := true
		for j := 0; j < 4; j++ {
			kk := strings.Replace(key, fmt.Sprintf("|%d%s", info.i, cs[info.i].Name), fmt.Sprintf("|%d%s", info.i+j, cs[info.i+j].Name), 1)
			tt, ok := st.m[kk]
			if !ok {
				okAll = false
				break
			}
			C[info.i+j] = tt
		}
		if okAll {
			for _, ft := range e.compFacts(cs[info.i:info.i+4], C[info.i:info.i+4], e.top(st)) {
				e.fact(e.c.Bool(true), ft)
			}
		}
	}
}

func (e *Engine) backEdge(f *Frame, h, b *ssa.BasicBlock, cond *Term, st *State) {
	lc := f.lp[h]
	c := e.c
	// growth of the modified set
	for k, t := range st.m {
		o, ok := lc.hdr.m[k]
		if !ok {
			if strings.HasPrefix(k, "C|") || strings.HasPrefix(k, "R|") {
				continue
			}
			o = e.initialIn(lc.hdr, k, t.sort)
		}
		if o != t && !lc.rec.mod[k] {
			lc.rec.mod[k] = true
			lc.rec.srt[k] = t.sort
			e.grown = true
		}
	}
	bk := map[*ssa.Phi]Value{}
	for _, ph := range lc.phis {
		v := e.val(f, ph.Edges[predIdx(h, b)])
		v.T = ph.Type()
		bk[ph] = v
		cur := f.env[ph]
		if cur.Loc != nil || cur.Fn != nil || cur.Iter != "" {
			if !sameVal(cur, v) {
				lc.rec.badphi[ph.Name()] = true
				e.grown = true
			}
		}
	}
	for _, iv := range lc.inv {
		t := iv.eval(f, st, bk)
		o := e.obl("inv-step", iv.cand.key, e.unit.Props, cond, t, h.Instrs[0].Pos())
		o.cand = iv.cand
	}
	_ = c
}

// ---------- instructions ----------

func (e *Engine) safety(name string, reach, ok *Term, pos token.Pos) *Term {
	if ok.isTrue() {
		return reach
	}
	if e.unit.NoPanic {
		e.obl("safety", name, e.unit.Props, reach, ok, pos)
	}
	return e.c.And(reach, ok)
}

func (e *Engine) setVal(f *Frame, v ssa.Value, x Value, st *State, reach *Term) {
	x.T = v.Type()
	f.env[v] = x
}

func (e *Engine) nonNilBase(f *Frame, v Value, st *State, reach *Term, pos token.Pos) *Term {
	if v.Loc != nil || len(v.C) == 0 {
		return reach
	}
	return e.safety("nil-dereference", reach, e.c.Not(e.c.Eq(v.C[0], e.c.Int(0))), pos)
}

type cellI struct {
	T types.Type
	i int
}

func (e *Engine) instr(f *Frame, ins ssa.Instruction, st *State, reach *Term) *Term {
	c := e.c
	switch u := ins.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		el := u.Type().Underlying().(*types.Pointer).Elem()
		if isCell(u) {
			id := fmt.Sprintf("%s:%s", f.path, u.Name())
			l := &Loc{Kind: 'C', ID: id, Root: el, T: el}
			e.store(st, l, e.zero(el))
			for i, k := range e.flat(el) {
				e.cellInfo[fmt.Sprintf("C|%s|%d%s", id, i, k.Name)] = cellI{el, i}
			}
			f.env[u] = Value{T: u.Type(), Loc: l}
			return nil
		}
		r := e.alloc(st)
		v := Value{T: u.Type(), C: []*Term{r}}
		z := e.zero(el)
		e.store(st, e.deref(v), z)
		e.initGhosts(st, el, r)
		f.env[u] = v
	case *ssa.BinOp:
		x, y := e.val(f, u.X), e.val(f, u.Y)
		if (u.Op == token.QUO || u.Op == token.REM) && isInteger(u.X.Type()) {
			if y.C[0].val == nil || y.C[0].val.Sign() == 0 {
				reach = e.safety("division-by-zero", reach, c.Not(c.Eq(y.C[0], e.zeroSort(y.C[0].sort))), u.Pos())
			}
		}
		if (u.Op == token.SHL || u.Op == token.SHR) && signedT(u.Y.Type()) && y.C[0].val == nil {
			reach = e.safety("negative-shift", reach, c.Le(e.zeroSort(y.C[0].sort), y.C[0]), u.Pos())
		}
		e.setVal(f, u, e.binop(u.Op, x, y, u.Type()), st, reach)
		return reach
	case *ssa.UnOp:
		x := e.val(f, u.X)
		switch u.Op {
		case token.MUL:
			reach = e.nonNilBase(f, x, st, reach, u.Pos())
			v := e.load(st, e.deref(x))
			for _, t := range e.typeFacts(v, e.top(st)) {
				e.fact(reach, t)
			}
			f.env[u] = v
			return reach
		case token.NOT:
			f.env[u] = Value{T: u.Type(), C: []*Term{c.Not(x.C[0])}}
		case token.SUB:
			f.env[u] = Value{T: u.Type(), C: []*Term{e.wrapOr(c.Sub(e.zeroSort(x.C[0].sort), x.C[0]), u.Type())}}
		case token.XOR:
			if e.bv {
				f.env[u] = Value{T: u.Type(), C: []*Term{c.mk("bvnot", x.C[0].sort, x.C[0])}}
			} else {
				b := u.Type().Underlying().(*types.Basic)
				w, s, _ := intInfo(b)
				m := c.Int(-1)
				if !s {
					m = c.IntB(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1)))
				}
				f.env[u] = Value{T: u.Type(), C: []*Term{c.Sub(m, x.C[0])}}
			}
		case token.ARROW:
			e.assume["channel receive yields an arbitrary value"] = true
			if u.CommaOk {
				tt := u.Type().(*types.Tuple)
				v := e.arbitrary("recv", tt.At(0).Type(), st, reach)
				ok := e.arbitrary("recvok", types.Typ[types.Bool], st, reach)
				f.env[u] = Value{T: u.Type(), Tup: []Value{v, ok}}
			} else {
				f.env[u] = e.arbitrary("recv", u.Type(), st, reach)
			}
		default:
			panic(unsup("unary %s", u.Op))
		}
	case *ssa.ChangeType:
		v := e.val(f, u.X)
		v.T = u.Type()
		f.env[u] = v
	case *ssa.ChangeInterface:
		v := e.val(f, u.X)
		v.T = u.Type()
		f.env[u] = v
	case *ssa.Convert:
		f.env[u] = e.convert(f, u, st, reach)
	case *ssa.MakeInterface:
		v := e.val(f, u.X)
		f.env[u] = Value{T: u.Type(), C: []*Term{e.box(st, v, reach)}}
	case *ssa.TypeAssert:
		return e.typeAssert(f, u, st, reach)
	case *ssa.Extract:
		t := e.val(f, u.Tuple)
		v := t.Tup[u.Index]
		v.T = u.Type()
		f.env[u] = v
	case *ssa.Field:
		x := e.val(f, u.X)
		lo, n := e.fieldRange(u.X.Type(), u.Field)
		f.env[u] = Value{T: u.Type(), C: x.C[lo : lo+n]}
	case *ssa.FieldAddr:
		x := e.val(f, u.X)
		reach = e.nonNilBase(f, x, st, reach, u.Pos())
		st_ := u.X.Type().Underlying().(*types.Pointer).Elem()
		f.env[u] = Value{T: u.Type(), Loc: e.fieldLoc(e.deref(x), st_, u.Field)}
		return reach
	case *ssa.Index:
		x := e.val(f, u.X)
		ix := e.val(f, u.Index)
		i := e.toIdx(ix)
		if isString(u.X.Type()) {
			reach = e.safety("index-out-of-range", reach, c.And(c.Le(e.idx(0), i), c.Lt(i, e.strLen(x.C[0]))), u.Pos())
			f.env[u] = Value{T: u.Type(), C: []*Term{e.strAt(x.C[0], i)}}
			return reach
		}
		at := u.X.Type().Underlying().(*types.Array)
		reach = e.safety("index-out-of-range", reach, c.And(c.Le(e.idx(0), i), c.Lt(i, e.idx(at.Len()))), u.Pos())
		v := Value{T: u.Type()}
		for _, t := range x.C {
			v.C = append(v.C, c.Select(t, i))
		}
		f.env[u] = v
		return reach
	case *ssa.IndexAddr:
		x := e.val(f, u.X)
		ix := e.val(f, u.Index)
		i := e.toIdx(ix)
		switch xt := u.X.Type().Underlying().(type) {
		case *types.Slice:
			reach = e.safety("index-out-of-range", reach, c.And(c.Le(e.idx(0), i), c.Lt(i, x.C[2])), u.Pos())
			f.env[u] = Value{T: u.Type(), Loc: &Loc{Kind: 'E', Ref: x.C[0], Idx: c.Add(x.C[1], i), Root: xt.Elem(), T: xt.Elem()}}
		case *types.Pointer:
			at := xt.Elem().Underlying().(*types.Array)
			reach = e.safety("index-out-of-range", reach, c.And(c.Le(e.idx(0), i), c.Lt(i, e.idx(at.Len()))), u.Pos())
			l := e.deref(x)
			if l.Kind == 'A' {
				f.env[u] = Value{T: u.Type(), Loc: &Loc{Kind: 'E', Ref: l.Ref, Idx: i, Root: at.Elem(), T: at.Elem()}}
			} else {
				n := *l
				n.Arr = append(append([]*Term{}, l.Arr...), i)
				n.T = at.Elem()
				f.env[u] = Value{T: u.Type(), Loc: &n}
			}
		default:
			panic(unsup("IndexAddr on %s", u.X.Type()))
		}
		return reach
	case *ssa.Lookup:
		x := e.val(f, u.X)
		if isString(u.X.Type()) {
			i := e.toIdx(e.val(f, u.Index))
			reach = e.safety("index-out-of-range", reach, c.And(c.Le(e.idx(0), i), c.Lt(i, e.strLen(x.C[0]))), u.Pos())
			f.env[u] = Value{T: u.Type(), C: []*Term{e.strAt(x.C[0], i)}}
			return reach
		}
		mt := u.X.Type().Underlying().(*types.Map)
		k := e.val(f, u.Index)
		kt := e.mapKeyTerm(k)
		dom := c.Select(e.mapDom(st, mt, x.C[0]), kt)
		// a nil map has an empty domain
		dom = c.And(c.Not(c.Eq(x.C[0], c.Int(0))), dom)
		v := e.mapVal(st, mt, x.C[0], kt)
		e.mapLoadFacts(v)
		z := e.zero(mt.Elem())
		for j := range v.C {
			v.C[j] = c.Ite(dom, v.C[j], z.C[j])
		}
		for _, t := range e.typeFacts(v, e.top(st)) {
			e.fact(reach, t)
		}
		if u.CommaOk {
			f.env[u] = Value{T: u.Type(), Tup: []Value{v, e.boolV(dom)}}
		} else {
			f.env[u] = v
		}
	case *ssa.MapUpdate:
		x := e.val(f, u.Map)
		mt := u.Map.Type().Underlying().(*types.Map)
		reach = e.safety("nil-map-write", reach, c.Not(c.Eq(x.C[0], c.Int(0))), u.Pos())
		v := e.val(f, u.Value)
		e.needPlain(v)
		e.mapUpdate(st, mt, x.C[0], e.mapKeyTerm(e.val(f, u.Key)), v)
		return reach
	case *ssa.MakeMap:
		r := e.alloc(st)
		mt := u.Type().Underlying().(*types.Map)
		e.newMap(st, mt, r)
		f.env[u] = Value{T: u.Type(), C: []*Term{r}}
	case *ssa.MakeChan:
		r := e.alloc(st)
		f.env[u] = Value{T: u.Type(), C: []*Term{r}}
	case *ssa.MakeSlice:
		n, k := e.toIdx(e.val(f, u.Len)), e.toIdx(e.val(f, u.Cap))
		reach = e.safety("makeslice-length", reach, c.And(c.Le(e.idx(0), n), c.Le(n, k)), u.Pos())
		el := u.Type().Underlying().(*types.Slice).Elem()
		r := e.alloc(st)
		e.zeroRow(st, el, r)
		f.env[u] = Value{T: u.Type(), C: []*Term{r, e.idx(0), n, k}}
		return reach
	case *ssa.MakeClosure:
		var bs []Value
		for _, b := range u.Bindings {
			bs = append(bs, e.val(f, b))
		}
		f.env[u] = Value{T: u.Type(), Fn: u.Fn.(*ssa.Function), Bind: bs}
	case *ssa.Slice:
		return e.slice(f, u, st, reach)
	case *ssa.Store:
		p := e.val(f, u.Addr)
		reach = e.nonNilBase(f, p, st, reach, u.Pos())
		v := e.val(f, u.Val)
		if v.Loc != nil && v.Loc.Kind == 'H' && v.Loc.Lo == 0 && len(v.Loc.Arr) == 0 && false {
			panic("")
		}
		if v.Fn != nil {
			v = Value{T: v.T, C: []*Term{e.funcRef(st, v)}}
		}
		e.needPlain(v)
		e.store(st, e.deref(p), v)
		return reach
	case *ssa.Range:
		e.rangeInstr(f, u, st, reach)
	case *ssa.Next:
		e.nextInstr(f, u, st, reach)
	case *ssa.Call:
		vals, r2 := e.callInstr(f, u, &u.Call, st, reach)
		e.bindResults(f, u, vals)
		return r2
	case *ssa.Defer:
		d := deferred{cond: reach, call: &u.Call, site: u}
		d.fnv, d.args = e.callArgs(f, &u.Call)
		for lb := range f.lp {
			if f.lp[lb].body[u.Block()] {
				panic(unsup("defer inside a loop"))
			}
		}
		f.defers = append(f.defers, d)
	case *ssa.RunDefers:
		for i := len(f.defers) - 1; i >= 0; i-- {
			d := f.defers[i]
			g := d.cond
			if g == reach || !e.condMay(reach, g) {
				// same path condition
			}
			s2 := st.clone()
			_, r2 := e.doCall(f, d.site, d.call, d.fnv, d.args, s2, e.c.And(reach, g))
			if g == reach {
				*st = *s2
				reach = r2
			} else {
				m := e.mergeStates([]*Term{g, c.Bool(true)}, []*State{s2, st.clone()})
				*st = *m
			}
		}
		return reach
	case *ssa.Go:
		e.assume["goroutines started with go are not followed"] = true
	case *ssa.Send:
		e.assume["channel sends have no effect on the modelled state"] = true
	case *ssa.Select:
		e.assume["select chooses arbitrarily"] = true
		tt := u.Type().(*types.Tuple)
		var vs []Value
		for i := 0; i < tt.Len(); i++ {
			vs = append(vs, e.arbitrary("select", tt.At(i).Type(), st, reach))
		}
		n := int64(len(u.States))
		lo := int64(0)
		if !u.Blocking {
			lo = -1
		}
		e.fact(reach, c.And(c.Le(e.idx(lo), vs[0].C[0]), c.Lt(vs[0].C[0], e.idx(n))))
		f.env[u] = Value{T: u.Type(), Tup: vs}
	default:
		panic(unsup("instruction %T", ins))
	}
	return reach
}

func (e *Engine) condMay(a, b *Term) bool { return true }

func (e *Engine) wrapOr(t *Term, ty types.Type) *Term {
	if isInteger(ty) {
		return e.wrap(t, ty)
	}
	return t
}

func (e *Engine) needPlain(v Value) {
	if v.Loc != nil {
		panic(unsup("interior address stored or passed as a value (%s)", typeStr(v.T)))
	}
	if v.Fn != nil || v.Tup != nil {
		panic(unsup("function value stored"))
	}
}
func (e *Engine) funcRef(st *State, v Value) *Term {
	name := "func:" + v.Fn.String()
	r := e.c.Const(name, SInt)
	e.addAxiom(e.c.And(e.c.Lt(e.c.Int(0), r), e.c.Le(r, e.top0)), r)
	return r
}

func (e *Engine) mapKeyTerm(k Value) *Term {
	if len(k.C) != 1 {
		panic(unsup("map key of %d components", len(k.C)))
	}
	return k.C[0]
}

func (e *Engine) toIdx(v Value) *Term {
	if e.bv {
		return e.convInt(v.C[0], v.T, types.Typ[types.Int])
	}
	return v.C[0]
}

func (e *Engine) newMap(st *State, mt *types.Map, r *Term) {
	dk, vks, lk, ks, vcs := e.mapKeys(mt)
	c := e.c
	ds := ArrSort(SInt, ArrSort(ks, SBool))
	h := e.get(st, dk, ds)
	e.keySort[dk] = ds
	st.m[dk] = c.Store(h, r, c.ConstArr(ArrSort(ks, SBool), c.Bool(false)))
	_ = vks
	_ = vcs
	ls := ArrSort(SInt, SInt)
	e.keySort[lk] = ls
	st.m[lk] = c.Store(e.get(st, lk, ls), r, c.Int(0))
}

func (e *Engine) zeroRow(st *State, el types.Type, r *Term) {
	for i, k := range e.flat(el) {
		key := e.ekey(el, i)
		s := ArrSort(SInt, ArrSort(e.idxSort(), k.Sort))
		h := e.heapTerm(st, key, s, k.Kind, true)
		e.keySort[key] = s
		st.m[key] = e.c.Store(h, r, e.c.ConstArr(ArrSort(e.idxSort(), k.Sort), e.zeroComp(k)))
	}
}

// initGhosts: ghost heaps of new objects start at their zero value
func (e *Engine) initGhosts(st *State, t types.Type, r *Term) {}

func (e *Engine) arbitrary(prefix string, t types.Type, st *State, reach *Term) Value {
	if tt, ok := t.(*types.Tuple); ok {
		v := Value{T: t}
		for i := 0; i < tt.Len(); i++ {
			v.Tup = append(v.Tup, e.arbitrary(prefix, tt.At(i).Type(), st, reach))
		}
		return v
	}
	v := e.freshVal(prefix, t)
	// new objects may have been allocated
	nt := e.c.Fresh("top", SInt)
	hasRef := false
	for _, k := range e.flat(t) {
		if k.Kind == "ref" || k.Kind == "iface" || k.Kind == "slref" {
			hasRef = true
		}
	}
	if hasRef {
		e.fact(e.c.Bool(true), e.c.Le(e.top(st), nt))
		e.keySort["top"] = SInt
		st.m["top"] = nt
	}
	for _, x := range e.typeFacts(v, e.top(st)) {
		e.fact(e.c.Bool(true), x)
	}
	return v
}

func (e *Engine) bindResults(f *Frame, u *ssa.Call, vals []Value) {
	tt := u.Call.Signature().Results()
	switch {
	case tt.Len() == 0:
		f.env[u] = Value{T: u.Type()}
	case tt.Len() == 1 && len(vals) == 1:
		v := vals[0]
		v.T = u.Type()
		f.env[u] = v
	default:
		f.env[u] = Value{T: u.Type(), Tup: vals}
	}
	if _, ok := u.Call.Value.(*ssa.Builtin); ok && len(vals) == 1 {
		v := vals[0]
		v.T = u.Type()
		f.env[u] = v
	}
}

func (e *Engine) convert(f *Frame, u *ssa.Convert, st *State, reach *Term) Value {
	c := e.c
	x := e.val(f, u.X)
	from, to := u.X.Type(), u.Type()
	switch {
	case isInteger(from) && isInteger(to):
		return Value{T: to, C: []*Term{e.convInt(x.C[0], from, to)}}
	case isString(to) && isByteSlice(from):
		return Value{T: to, C: []*Term{e.bytesView(st, x)}}
	case isString(to) && isInteger(from):
		return Value{T: to, C: []*Term{c.App("runestr", e.strSort(), x.C[0])}}
	case isString(to) && isString(from):
		return Value{T: to, C: x.C}
	case isByteSlice(to) && isString(from):
		r := e.alloc(st)
		el := types.Typ[types.Uint8]
		key := e.ekey(el, 0)
		s := ArrSort(SInt, ArrSort(e.idxSort(), e.byteSort()))
		h := e.heapTerm(st, key, s, "int", true)
		row := c.App("rowOf", ArrSort(e.idxSort(), e.byteSort()), x.C[0])
		e.keySort[key] = s
		st.m[key] = c.Store(h, r, row)
		ln := e.strLen(x.C[0])
		if e.strSMT {
			ln = c.mk("str.len", SInt, x.C[0])
		}
		e.addAxiom(c.Eq(e.strOf(row, e.idx(0), ln), x.C[0]), row)
		if lv, ok := e.litVal(x.C[0]); ok && len(lv) <= 64 && !e.strSMT {
			for i := 0; i < len(lv); i++ {
				e.addAxiom(c.Eq(c.Select(row, e.idx(int64(i))), e.constInt(big.NewInt(int64(lv[i])), el)), row)
			}
		}
		return Value{T: to, C: []*Term{r, e.idx(0), ln, ln}}
	case isString(from) || isString(to):
		return e.arbitrary("conv", to, st, reach)
	}
	if _, ok := to.Underlying().(*types.Basic); ok {
		if len(x.C) == 1 {
			fs := e.flat(to)
			if fs[0].Sort == x.C[0].sort && !isInteger(to) {
				return Value{T: to, C: []*Term{c.App("fconv."+typeStr(from)+"."+typeStr(to), fs[0].Sort, x.C[0])}}
			}
		}
		return e.arbitrary("conv", to, st, reach)
	}
	if len(e.flat(from)) == len(e.flat(to)) {
		return Value{T: to, C: x.C, Loc: x.Loc}
	}
	panic(unsup("conversion %s to %s", from, to))
}

func (e *Engine) typeAssert(f *Frame, u *ssa.TypeAssert, st *State, reach *Term) *Term {
	c := e.c
	x := e.val(f, u.X)
	var ok *Term
	if isIface(u.AssertedType) {
		ok = e.ifaceOK(st, x, u.AssertedType)
	} else {
		ok = c.And(c.Not(c.Eq(x.C[0], c.Int(0))), c.Eq(e.typeof(x.C[0]), e.typeID(u.AssertedType)))
		// constant folding for values boxed in this function
	}
	v := e.unbox(st, x, u.AssertedType)
	if !u.CommaOk {
		reach = e.safety("type-assertion", reach, ok, u.Pos())
		for _, t := range e.typeFacts(v, e.top(st)) {
			e.fact(reach, t)
		}
		f.env[u] = v
		return reach
	}
	z := e.zero(u.AssertedType)
	out := Value{T: u.AssertedType}
	for i := range v.C {
		out.C = append(out.C, c.Ite(ok, v.C[i], z.C[i]))
	}
	for _, t := range e.typeFacts(v, e.top(st)) {
		e.fact(c.And(reach, ok), t)
	}
	f.env[u] = Value{T: u.Type(), Tup: []Value{out, e.boolV(ok)}}
	return reach
}

func (e *Engine) slice(f *Frame, u *ssa.Slice, st *State, reach *Term) *Term {
	c := e.c
	x := e.val(f, u.X)
	lo := e.idx(0)
	if u.Low != nil {
		lo = e.toIdx(e.val(f, u.Low))
	}
	if isString(u.X.Type()) {
		hi := e.strLen(x.C[0])
		if u.High != nil {
			hi = e.toIdx(e.val(f, u.High))
		}
		reach = e.safety("slice-bounds", reach, c.And(c.Le(e.idx(0), lo), c.Le(lo, hi), c.Le(hi, e.strLen(x.C[0]))), u.Pos())
		f.env[u] = Value{T: u.Type(), C: []*Term{e.strSub(x.C[0], lo, hi)}}
		return reach
	}
	var ref, off, ln, cp *Term
	switch xt := u.X.Type().Underlying().(type) {
	case *types.Slice:
		ref, off, ln, cp = x.C[0], x.C[1], x.C[2], x.C[3]
	case *types.Pointer:
		at := xt.Elem().Underlying().(*types.Array)
		if x.Loc != nil {
			panic(unsup("slice of an embedded array"))
		}
		reach = e.nonNilBase(f, x, st, reach, u.Pos())
		ref, off, ln, cp = x.C[0], e.idx(0), e.idx(at.Len()), e.idx(at.Len())
	default:
		panic(unsup("slice of %s", u.X.Type()))
	}
	hi := ln
	if u.High != nil {
		hi = e.toIdx(e.val(f, u.High))
	}
	mx := cp
	if u.Max != nil {
		mx = e.toIdx(e.val(f, u.Max))
	}
	var conds []*Term
	if !(lo.val != nil && lo.val.Sign() == 0) {
		conds = append(conds, c.Le(e.idx(0), lo))
	}
	conds = append(conds, c.Le(lo, hi))
	if hi != ln {
		conds = append(conds, c.Le(hi, mx))
	}
	if mx != cp {
		conds = append(conds, c.Le(mx, cp))
	}
	reach = e.safety("slice-bounds", reach, c.And(conds...), u.Pos())
	f.env[u] = Value{T: u.Type(), C: []*Term{ref, c.Add(off, lo), c.Sub(hi, lo), c.Sub(mx, lo)}}
	return reach
}

func (e *Engine) rangeInstr(f *Frame, u *ssa.Range, st *State, reach *Term) {
	x := e.val(f, u.X)
	c := e.c
	id := fmt.Sprintf("%s:%s", f.path, u.Name())
	if isString(u.X.Type()) {
		key := "R|" + id + "|pos"
		e.keySort[key] = e.idxSort()
		st.m[key] = e.idx(0)
		e.rangeLoc[id] = &iterInfo{isStr: true, str: x.C[0]}
		f.env[u] = Value{T: u.Type(), Iter: id}
		return
	}
	mt := u.X.Type().Underlying().(*types.Map)
	_, _, _, ks, _ := e.mapKeys(mt)
	key := "R|" + id + "|visited"
	s := ArrSort(ks, SBool)
	e.keySort[key] = s
	st.m[key] = c.ConstArr(s, c.Bool(false))
	e.rangeLoc[id] = &iterInfo{mt: mt, ref: x.C[0], dom0: e.mapDom(st, mt, x.C[0])}
	f.env[u] = Value{T: u.Type(), Iter: id}
}

func (e *Engine) nextInstr(f *Frame, u *ssa.Next, st *State, reach *Term) {
	c := e.c
	it := e.val(f, u.Iter)
	ii := e.rangeLoc[it.Iter]
	tt := u.Type().(*types.Tuple)
	if ii.isStr {
		key := "R|" + it.Iter + "|pos"
		p := e.get(st, key, e.idxSort())
		ok := c.Lt(p, e.strLen(ii.str))
		w := c.Fresh("runew", e.idxSort())
		e.fact(c.Bool(true), c.And(c.Le(e.idx(1), w), c.Le(w, e.idx(4))))
		e.fact(reach, c.Imp(ok, c.Le(c.Add(p, w), e.strLen(ii.str))))
		r := e.freshVal("rune", types.Typ[types.Int32])
		for _, t := range e.typeFacts(r, nil) {
			e.fact(c.Bool(true), t)
		}
		st.m[key] = c.Ite(ok, c.Add(p, w), p)
		f.env[u] = Value{T: u.Type(), Tup: []Value{e.boolV(ok), e.intV(p), r}}
		return
	}
	key := "R|" + it.Iter + "|visited"
	vis := st.m[key]
	dom := e.mapDom(st, ii.mt, ii.ref)
	ok := c.Fresh("nextok", SBool)
	k := e.freshVal("key", ii.mt.Key())
	kt := k.C[0]
	e.fact(reach, c.Imp(ok, c.And(c.Select(dom, kt), c.Not(c.Select(vis, kt)), c.Not(c.Eq(ii.ref, c.Int(0))))))
	q := c.BVar("k", kt.sort)
	e.fact(reach, c.Imp(c.Not(ok), c.Imp(c.Not(c.Eq(ii.ref, c.Int(0))), c.Forall([]*Term{q}, [][]*Term{{c.Select(dom, q)}}, c.Imp(c.And(c.Select(dom, q), c.Select(ii.dom0, q)), c.Select(vis, q))))))
	for _, t := range e.typeFacts(k, e.top(st)) {
		e.fact(c.Imp(ok, reach), t)
	}
	v := e.mapVal(st, ii.mt, ii.ref, kt)
	e.mapLoadFacts(v)
	for _, t := range e.typeFacts(v, e.top(st)) {
		e.fact(c.And(reach, ok), t)
	}
	st.m[key] = c.Ite(ok, c.Store(vis, kt, c.Bool(true)), vis)
	vals := []Value{e.boolV(ok), k, v}
	for i := 1; i < 3; i++ {
		if b, isB := tt.At(i).Type().(*types.Basic); isB && b.Kind() == types.Invalid {
			continue
		}
	}
	f.env[u] = Value{T: u.Type(), Tup: vals}
}

var _ = ast.NewIdent
