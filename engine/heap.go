package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// ---------- symbolic state: heaps, cells, ghosts ----------

type State struct{ m map[string]*Term }

func NewState() *State { return &State{m: map[string]*Term{}} }
func (s *State) clone() *State {
	n := NewState()
	for k, v := range s.m {
		n.m[k] = v
	}
	return n
}

func (e *Engine) get(s *State, key string, sort Sort) *Term {
	if t, ok := s.m[key]; ok {
		return t
	}
	return e.initialIn(s, key, sort)
}

// initialIn: the value of a key a state has not touched (since the last time everything was forgotten).
func (e *Engine) initialIn(s *State, key string, srt Sort) *Term {
	if ep, ok := s.m["epoch"]; ok && !strings.HasPrefix(key, "G|") && !strings.HasPrefix(key, "C|") && key != "top" && key != "epoch" {
		t := e.c.Const(fmt.Sprintf("%s@e%d", key, ep.id), srt)
		e.keySort[key] = srt
		return t
	}
	return e.initial(key, srt)
}

// initial returns the entry value of a state key.
func (e *Engine) initial(key string, srt Sort) *Term {
	t := e.c.Const(key+"@0", srt)
	e.keySort[key] = srt
	return t
}

func (e *Engine) hkey(root types.Type, i int) string {
	cs := e.flat(root)
	return fmt.Sprintf("H|%s|%s", typeStr(root), cs[i].Name)
}
func (e *Engine) ekey(el types.Type, i int) string {
	cs := e.flat(el)
	return fmt.Sprintf("E|%s|%s", e.elemStr(el), cs[i].Name)
}

// elemStr: named byte-like element types share storage with their underlying basic type
func (e *Engine) elemStr(t types.Type) string { return typeStr(t) }

func (e *Engine) heapAxiom(key string, t *Term, kind string, two bool) {
	if e.axDone[t] {
		return
	}
	e.axDone[t] = true
	c := e.c
	if kind != "ref" && kind != "iface" && kind != "slref" {
		return
	}
	r := c.BVar("r", SInt)
	top0 := e.top0
	if !two {
		s := c.Select(t, r)
		body := c.Le(s, top0)
		if kind != "iface" {
			body = c.And(c.Le(c.Int(0), s), body)
		}
		e.axioms = append(e.axioms, c.Forall([]*Term{r}, [][]*Term{{s}}, c.Imp(c.Le(r, top0), body)))
		return
	}
	i := c.BVar("i", e.idxSort())
	s := c.Select(c.Select(t, r), i)
	body := c.Le(s, top0)
	if kind != "iface" {
		body = c.And(c.Le(c.Int(0), s), body)
	}
	e.axioms = append(e.axioms, c.Forall([]*Term{r, i}, [][]*Term{{s}}, c.Imp(c.Le(r, top0), body)))
}

func (e *Engine) heapTerm(s *State, key string, srt Sort, kind string, two bool) *Term {
	if t, ok := s.m[key]; ok {
		return t
	}
	t := e.initialIn(s, key, srt)
	if _, ok := s.m["epoch"]; !ok {
		e.heapAxiom(key, t, kind, two)
	}
	return t
}

func subIdx(c *Ctx, t *Term, arr []*Term) *Term {
	for _, a := range arr {
		t = c.Select(t, a)
	}
	return t
}
func subStore(c *Ctx, t *Term, arr []*Term, v *Term) *Term {
	if len(arr) == 0 {
		return v
	}
	inner := subStore(c, c.Select(t, arr[0]), arr[1:], v)
	return c.Store(t, arr[0], inner)
}

// load reads the value at loc.
func (e *Engine) load(s *State, l *Loc) Value {
	n := len(e.flat(l.T))
	v := Value{T: l.T}
	c := e.c
	switch l.Kind {
	case 'H':
		cs := e.flat(l.Root)
		for i := 0; i < n; i++ {
			k := cs[l.Lo+i]
			h := e.heapTerm(s, e.hkey(l.Root, l.Lo+i), ArrSort(SInt, k.Sort), k.Kind, false)
			v.C = append(v.C, subIdx(c, c.Select(h, l.Ref), l.Arr))
		}
	case 'E':
		cs := e.flat(l.Root)
		for i := 0; i < n; i++ {
			k := cs[l.Lo+i]
			h := e.heapTerm(s, e.ekey(l.Root, l.Lo+i), ArrSort(SInt, ArrSort(e.idxSort(), k.Sort)), k.Kind, true)
			v.C = append(v.C, subIdx(c, c.Select(c.Select(h, l.Ref), l.Idx), l.Arr))
		}
	case 'A': // whole array object
		el := l.Root.Underlying().(*types.Array).Elem()
		cs := e.flat(el)
		for i := range cs {
			h := e.heapTerm(s, e.ekey(el, i), ArrSort(SInt, ArrSort(e.idxSort(), cs[i].Sort)), cs[i].Kind, true)
			v.C = append(v.C, c.Select(h, l.Ref))
		}
	case 'C', 'G':
		cs := e.flat(l.Root)
		for i := 0; i < n; i++ {
			k := cs[l.Lo+i]
			t := e.get(s, fmt.Sprintf("%c|%s|%d%s", l.Kind, l.ID, l.Lo+i, k.Name), k.Sort)
			v.C = append(v.C, subIdx(c, t, l.Arr))
		}
	default:
		panic("load kind")
	}
	return v
}

// store writes v at loc, mutating s.
func (e *Engine) store(s *State, l *Loc, v Value) {
	c := e.c
	n := len(e.flat(l.T))
	if len(v.C) != n {
		panic(unsup("store of %s into %s (%d/%d comps)", typeStr(v.T), typeStr(l.T), len(v.C), n))
	}
	switch l.Kind {
	case 'H':
		cs := e.flat(l.Root)
		for i := 0; i < n; i++ {
			k := cs[l.Lo+i]
			key := e.hkey(l.Root, l.Lo+i)
			h := e.heapTerm(s, key, ArrSort(SInt, k.Sort), k.Kind, false)
			nv := subStore(c, c.Select(h, l.Ref), l.Arr, v.C[i])
			e.keySort[key] = h.sort
			s.m[key] = c.Store(h, l.Ref, nv)
		}
	case 'E':
		cs := e.flat(l.Root)
		for i := 0; i < n; i++ {
			k := cs[l.Lo+i]
			key := e.ekey(l.Root, l.Lo+i)
			h := e.heapTerm(s, key, ArrSort(SInt, ArrSort(e.idxSort(), k.Sort)), k.Kind, true)
			row := c.Select(h, l.Ref)
			nv := subStore(c, c.Select(row, l.Idx), l.Arr, v.C[i])
			e.keySort[key] = h.sort
			s.m[key] = c.Store(h, l.Ref, c.Store(row, l.Idx, nv))
		}
	case 'A':
		el := l.Root.Underlying().(*types.Array).Elem()
		cs := e.flat(el)
		for i := range cs {
			key := e.ekey(el, i)
			h := e.heapTerm(s, key, ArrSort(SInt, ArrSort(e.idxSort(), cs[i].Sort)), cs[i].Kind, true)
			e.keySort[key] = h.sort
			s.m[key] = c.Store(h, l.Ref, v.C[i])
		}
	case 'C', 'G':
		cs := e.flat(l.Root)
		for i := 0; i < n; i++ {
			k := cs[l.Lo+i]
			key := fmt.Sprintf("%c|%s|%d%s", l.Kind, l.ID, l.Lo+i, k.Name)
			t := v.C[i]
			if len(l.Arr) > 0 {
				t = subStore(c, e.get(s, key, k.Sort), l.Arr, t)
			}
			e.keySort[key] = k.Sort
			s.m[key] = t
		}
	}
}

// deref turns a pointer value into a location.
func (e *Engine) deref(p Value) *Loc {
	if p.Loc != nil {
		return p.Loc
	}
	pt, ok := p.T.Underlying().(*types.Pointer)
	if !ok {
		panic(unsup("deref of non-pointer %s", typeStr(p.T)))
	}
	el := pt.Elem()
	if len(p.C) == 0 {
		panic(unsup("deref of empty value %s", typeStr(p.T)))
	}
	if _, ok := el.Underlying().(*types.Array); ok {
		return &Loc{Kind: 'A', Ref: p.C[0], Root: el, T: el}
	}
	return &Loc{Kind: 'H', Ref: p.C[0], Root: el, T: el}
}

func (e *Engine) fieldLoc(l *Loc, st types.Type, i int) *Loc {
	lo, _ := e.fieldRange(st, i)
	n := *l
	n.Lo += lo
	n.T = st.Underlying().(*types.Struct).Field(i).Type()
	return &n
}

// map heaps
func (e *Engine) mapKeys(mt *types.Map) (dk string, vks []string, lk string, ks Sort, vcs []Comp) {
	kc := e.flat(mt.Key())
	if len(kc) != 1 {
		panic(unsup("map key type %s", typeStr(mt.Key())))
	}
	ks = kc[0].Sort
	base := typeStr(mt.Key()) + ">" + typeStr(mt.Elem())
	dk = "MD|" + base
	lk = "ML|" + base
	vcs = e.flat(mt.Elem())
	for _, c := range vcs {
		vks = append(vks, "MV|"+base+"|"+c.Name)
	}
	return
}
func (e *Engine) mapDom(s *State, mt *types.Map, ref *Term) *Term {
	dk, _, _, ks, _ := e.mapKeys(mt)
	h := e.get(s, dk, ArrSort(SInt, ArrSort(ks, SBool)))
	return e.c.Select(h, ref)
}
func (e *Engine) mapVal(s *State, mt *types.Map, ref, k *Term) Value {
	_, vks, _, ks, vcs := e.mapKeys(mt)
	v := Value{T: mt.Elem()}
	for i, c := range vcs {
		h := e.get(s, vks[i], ArrSort(SInt, ArrSort(ks, c.Sort)))
		v.C = append(v.C, e.c.Select(e.c.Select(h, ref), k))
	}
	return v
}
func (e *Engine) mapLen(s *State, mt *types.Map, ref *Term) *Term {
	_, _, lk, _, _ := e.mapKeys(mt)
	h := e.get(s, lk, ArrSort(SInt, SInt))
	return e.c.Select(h, ref)
}
func (e *Engine) mapUpdate(s *State, mt *types.Map, ref, k *Term, v Value) {
	dk, vks, lk, ks, vcs := e.mapKeys(mt)
	c := e.c
	ds := ArrSort(SInt, ArrSort(ks, SBool))
	h := e.get(s, dk, ds)
	row := c.Select(h, ref)
	had := c.Select(row, k)
	e.keySort[dk] = ds
	s.m[dk] = c.Store(h, ref, c.Store(row, k, c.Bool(true)))
	for i, vc := range vcs {
		vs := ArrSort(SInt, ArrSort(ks, vc.Sort))
		hv := e.get(s, vks[i], vs)
		e.keySort[vks[i]] = vs
		s.m[vks[i]] = c.Store(hv, ref, c.Store(c.Select(hv, ref), k, v.C[i]))
	}
	ls := ArrSort(SInt, SInt)
	hl := e.get(s, lk, ls)
	e.keySort[lk] = ls
	l := c.Select(hl, ref)
	s.m[lk] = c.Store(hl, ref, c.Ite(had, l, c.Add(l, c.Int(1))))
}
func (e *Engine) mapDelete(s *State, mt *types.Map, ref, k *Term) {
	dk, _, lk, ks, _ := e.mapKeys(mt)
	c := e.c
	ds := ArrSort(SInt, ArrSort(ks, SBool))
	h := e.get(s, dk, ds)
	row := c.Select(h, ref)
	had := c.Select(row, k)
	e.keySort[dk] = ds
	s.m[dk] = c.Store(h, ref, c.Store(row, k, c.Bool(false)))
	ls := ArrSort(SInt, SInt)
	hl := e.get(s, lk, ls)
	e.keySort[lk] = ls
	l := c.Select(hl, ref)
	s.m[lk] = c.Store(hl, ref, c.Ite(had, c.Sub(l, c.Int(1)), l))
}

func (e *Engine) top(s *State) *Term { return e.get(s, "top", SInt) }

// alloc returns a fresh reference.
func (e *Engine) alloc(s *State) *Term {
	t := e.c.Add(e.top(s), e.c.Int(1))
	e.keySort["top"] = SInt
	s.m["top"] = t
	return t
}

func (e *Engine) sortOfKey(k string) Sort {
	if s, ok := e.keySort[k]; ok {
		return s
	}
	panic("no sort for key " + k)
}

// mergeStates merges (cond_i, state_i).
func (e *Engine) mergeStates(conds []*Term, sts []*State) *State {
	if len(sts) == 1 {
		return sts[0].clone()
	}
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s.m {
			keys[k] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := NewState()
	for _, k := range ks {
		var cur *Term
		miss := false
		for i := len(sts) - 1; i >= 0; i-- {
			t, ok := sts[i].m[k]
			if !ok {
				if strings.HasPrefix(k, "C|") || strings.HasPrefix(k, "R|") {
					miss = true // cell not live on this path
					continue
				}
				t = e.initialIn(sts[i], k, e.sortOfKey(k))
			}
			if cur == nil {
				cur = t
			} else if cur != t {
				cur = e.c.Ite(conds[i], t, cur)
			}
		}
		_ = miss
		out.m[k] = cur
	}
	return out
}

func (e *Engine) mergeVals(conds []*Term, vs []Value) Value {
	if len(vs) == 1 {
		return vs[0]
	}
	same := true
	for _, v := range vs[1:] {
		if !sameVal(v, vs[0]) {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	out := Value{T: vs[0].T}
	if vs[0].Tup != nil {
		for i := range vs[0].Tup {
			var sub []Value
			for _, v := range vs {
				sub = append(sub, v.Tup[i])
			}
			out.Tup = append(out.Tup, e.mergeVals(conds, sub))
		}
		return out
	}
	n := len(e.flat(vs[0].T))
	for _, v := range vs {
		if v.Loc != nil || len(v.C) != n {
			panic(unsup("merge of address or function values of type %s", typeStr(v.T)))
		}
	}
	for i := 0; i < n; i++ {
		cur := vs[len(vs)-1].C[i]
		for j := len(vs) - 2; j >= 0; j-- {
			if vs[j].C[i] != cur {
				cur = e.c.Ite(conds[j], vs[j].C[i], cur)
			}
		}
		out.C = append(out.C, cur)
	}
	return out
}
func sameVal(a, b Value) bool {
	if len(a.C) != len(b.C) || a.Fn != b.Fn || len(a.Tup) != len(b.Tup) || len(a.Bind) != len(b.Bind) || a.Iter != b.Iter {
		return false
	}
	if (a.Loc == nil) != (b.Loc == nil) {
		return false
	}
	if a.Loc != nil && !sameLoc(a.Loc, b.Loc) {
		return false
	}
	for i := range a.C {
		if a.C[i] != b.C[i] {
			return false
		}
	}
	for i := range a.Tup {
		if !sameVal(a.Tup[i], b.Tup[i]) {
			return false
		}
	}
	for i := range a.Bind {
		if !sameVal(a.Bind[i], b.Bind[i]) {
			return false
		}
	}
	return true
}
func sameLoc(a, b *Loc) bool {
	if a.Kind != b.Kind || a.Ref != b.Ref || a.Idx != b.Idx || a.ID != b.ID || a.Lo != b.Lo || len(a.Arr) != len(b.Arr) || typeStr(a.Root) != typeStr(b.Root) || typeStr(a.T) != typeStr(b.T) {
		return false
	}
	for i := range a.Arr {
		if a.Arr[i] != b.Arr[i] {
			return false
		}
	}
	return true
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) unsupported { return unsupported{fmt.Sprintf(f, a...)} }
