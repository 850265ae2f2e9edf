package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// ---------- hash-consed SMT terms ----------

type Sort string

const (
	SBool Sort = "Bool"
	SInt  Sort = "Int"
)

func ArrSort(i, e Sort) Sort { return Sort("(Array " + string(i) + " " + string(e) + ")") }

// elemSort returns the element sort of an array sort.
func elemSort(s Sort) Sort {
	_, e := splitArr(s)
	return e
}
func idxSortOf(s Sort) Sort {
	i, _ := splitArr(s)
	return i
}
func splitArr(s Sort) (Sort, Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	str = str[7 : len(str)-1]
	depth := 0
	for i := 0; i < len(str); i++ {
		switch str[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(str[:i]), Sort(str[i+1:])
			}
		}
	}
	panic("bad sort " + string(s))
}
func isArr(s Sort) bool { return strings.HasPrefix(string(s), "(Array ") }
func isBV(s Sort) bool  { return strings.HasPrefix(string(s), "(_ BitVec ") }
func bvWidth(s Sort) int {
	var w int
	fmt.Sscanf(string(s), "(_ BitVec %d)", &w)
	return w
}
func BVSort(w int) Sort { return Sort(fmt.Sprintf("(_ BitVec %d)", w)) }

type Term struct {
	id    int
	op    string
	args  []*Term
	sort  Sort
	bvars []*Term   // quantifier variables
	pats  [][]*Term // quantifier patterns
	val   *big.Int  // integer / bv literal
	free  bool      // contains a free bound variable
	decl  string    // leaf constants: declaration
}

type Ctx struct {
	tab   map[string]*Term
	n     int
	funs  map[string]string // declared functions: name -> declaration
	order []string
	fresh map[string]int
}

func NewCtx() *Ctx {
	return &Ctx{tab: map[string]*Term{}, funs: map[string]string{}, fresh: map[string]int{}}
}

func (c *Ctx) mk(op string, s Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(string(s))
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.n++
	t := &Term{id: c.n, op: op, args: args, sort: s}
	for _, a := range args {
		if a.free {
			t.free = true
		}
	}
	c.tab[k] = t
	return t
}

func quoteSym(s string) string {
	ok := true
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if !(ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' || strings.IndexByte("_.$@!-", ch) >= 0) {
			ok = false
		}
	}
	if ok && len(s) > 0 && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	s = strings.ReplaceAll(s, "|", "/")
	s = strings.ReplaceAll(s, "\\", "/")
	return "|" + s + "|"
}

// Const declares (or returns) a constant with that exact name.
func (c *Ctx) Const(name string, s Sort) *Term {
	q := quoteSym(name)
	t := c.mk(q, s)
	if t.decl == "" {
		t.decl = fmt.Sprintf("(declare-const %s %s)", q, s)
	}
	return t
}

// Fresh returns a new constant.
func (c *Ctx) Fresh(prefix string, s Sort) *Term {
	c.fresh[prefix]++
	return c.Const(fmt.Sprintf("%s!%d", prefix, c.fresh[prefix]), s)
}

func (c *Ctx) BVar(prefix string, s Sort) *Term {
	c.fresh["?"+prefix]++
	t := c.mk(quoteSym(fmt.Sprintf("q.%s.%d", prefix, c.fresh["?"+prefix])), s)
	t.free = true
	return t
}

// Fun declares an uninterpreted function and applies it.
func (c *Ctx) App(name string, res Sort, args ...*Term) *Term {
	q := quoteSym(name)
	if len(args) == 0 {
		return c.Const(name, res)
	}
	if _, ok := c.funs[q]; !ok {
		var as []string
		for _, a := range args {
			as = append(as, string(a.sort))
		}
		c.funs[q] = fmt.Sprintf("(declare-fun %s (%s) %s)", q, strings.Join(as, " "), res)
		c.order = append(c.order, q)
	}
	return c.mk(q, res, args...)
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.mk("true", SBool)
	}
	return c.mk("false", SBool)
}
func (t *Term) isTrue() bool  { return t.op == "true" }
func (t *Term) isFalse() bool { return t.op == "false" }

func (c *Ctx) IntB(v *big.Int) *Term {
	var op string
	if v.Sign() < 0 {
		op = "(- " + new(big.Int).Neg(v).String() + ")"
	} else {
		op = v.String()
	}
	t := c.mk(op, SInt)
	t.val = new(big.Int).Set(v)
	return t
}
func (c *Ctx) Int(v int64) *Term { return c.IntB(big.NewInt(v)) }
func (c *Ctx) BV(v *big.Int, w int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	x := new(big.Int).Mod(v, m)
	t := c.mk(fmt.Sprintf("(_ bv%s %d)", x.String(), w), BVSort(w))
	t.val = x
	return t
}

func (c *Ctx) Not(a *Term) *Term {
	if a.isTrue() {
		return c.Bool(false)
	}
	if a.isFalse() {
		return c.Bool(true)
	}
	if a.op == "not" {
		return a.args[0]
	}
	return c.mk("not", SBool, a)
}
func (c *Ctx) And(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		if x.isFalse() {
			return x
		}
		if x.isTrue() || seen[x] {
			continue
		}
		if x.op == "and" {
			for _, y := range x.args {
				if !seen[y] {
					seen[y] = true
					out = append(out, y)
				}
			}
			continue
		}
		seen[x] = true
		out = append(out, x)
	}
	for _, x := range out {
		if seen[c.Not(x)] {
			return c.Bool(false)
		}
	}
	if len(out) == 0 {
		return c.Bool(true)
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("and", SBool, out...)
}
func (c *Ctx) Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		if x.isTrue() {
			return x
		}
		if x.isFalse() || seen[x] {
			continue
		}
		if x.op == "or" {
			for _, y := range x.args {
				if !seen[y] {
					seen[y] = true
					out = append(out, y)
				}
			}
			continue
		}
		seen[x] = true
		out = append(out, x)
	}
	for _, x := range out {
		if seen[c.Not(x)] {
			return c.Bool(true)
		}
	}
	if len(out) == 0 {
		return c.Bool(false)
	}
	if len(out) == 1 {
		return out[0]
	}
	// (a&b) | (a&!b)  ->  a
	if len(out) == 2 {
		if r := c.absorb(out[0], out[1]); r != nil {
			return r
		}
	}
	return c.mk("or", SBool, out...)
}
func conj(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}
func (c *Ctx) absorb(a, b *Term) *Term {
	ca, cb := conj(a), conj(b)
	if len(ca) != len(cb) {
		return nil
	}
	in := map[*Term]bool{}
	for _, x := range cb {
		in[x] = true
	}
	var common []*Term
	var da *Term
	for _, x := range ca {
		if in[x] {
			common = append(common, x)
		} else if da == nil {
			da = x
		} else {
			return nil
		}
	}
	if da == nil {
		return a
	}
	if in[c.Not(da)] && len(common) == len(cb)-1 {
		return c.And(common...)
	}
	return nil
}
func (c *Ctx) Imp(a, b *Term) *Term {
	if a.isTrue() {
		return b
	}
	if a.isFalse() || b.isTrue() {
		return c.Bool(true)
	}
	if b.isFalse() {
		return c.Not(a)
	}
	return c.mk("=>", SBool, a, b)
}
func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g.isTrue() || a == b {
		return a
	}
	if g.isFalse() {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s vs %s: %s / %s", a.sort, b.sort, a.op, b.op))
	}
	if a.sort == SBool {
		if a.isTrue() && b.isFalse() {
			return g
		}
		if a.isFalse() && b.isTrue() {
			return c.Not(g)
		}
		if a.isTrue() {
			return c.Or(g, b)
		}
		if a.isFalse() {
			return c.And(c.Not(g), b)
		}
		if b.isFalse() {
			return c.And(g, a)
		}
		if b.isTrue() {
			return c.Or(c.Not(g), a)
		}
	}
	if g.op == "not" {
		return c.Ite(g.args[0], b, a)
	}
	return c.mk("ite", a.sort, g, a, b)
}

// base+offset decomposition of integer terms
func (c *Ctx) decomp(t *Term) (*Term, *big.Int) {
	if t.val != nil && t.sort == SInt {
		return nil, t.val
	}
	if t.op == "+" && len(t.args) == 2 && t.args[1].val != nil {
		return t.args[0], t.args[1].val
	}
	return t, big.NewInt(0)
}
func (c *Ctx) Add(a, b *Term) *Term {
	if isBV(a.sort) {
		return c.bvop("bvadd", a, b)
	}
	ab, ao := c.decomp(a)
	bb, bo := c.decomp(b)
	off := new(big.Int).Add(ao, bo)
	var base *Term
	switch {
	case ab == nil && bb == nil:
		return c.IntB(off)
	case ab == nil:
		base = bb
	case bb == nil:
		base = ab
	default:
		if ab.op == "-1*" && ab.args[0] == bb || bb.op == "-1*" && bb.args[0] == ab {
			return c.IntB(off)
		}
		base = c.mk("+", SInt, ab, bb)
	}
	if off.Sign() == 0 {
		return base
	}
	return c.mk("+", SInt, base, c.IntB(off))
}
func (c *Ctx) Sub(a, b *Term) *Term {
	if isBV(a.sort) {
		if a == b {
			return c.BV(big.NewInt(0), bvWidth(a.sort))
		}
		return c.bvop("bvsub", a, b)
	}
	if b.val != nil {
		return c.Add(a, c.IntB(new(big.Int).Neg(b.val)))
	}
	ab, ao := c.decomp(a)
	bb, bo := c.decomp(b)
	d := new(big.Int).Sub(ao, bo)
	if ab == bb {
		return c.IntB(d)
	}
	if bb != nil && ab != nil {
		if ab.op == "+" && len(ab.args) == 2 {
			if ab.args[0] == bb {
				return c.Add(ab.args[1], c.IntB(d))
			}
			if ab.args[1] == bb {
				return c.Add(ab.args[0], c.IntB(d))
			}
		}
		return c.Add(c.mk("-", SInt, ab, bb), c.IntB(d))
	}
	return c.mk("-", SInt, a, b)
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if isBV(a.sort) {
		return c.bvop("bvmul", a, b)
	}
	if a.val != nil && b.val != nil {
		return c.IntB(new(big.Int).Mul(a.val, b.val))
	}
	if a.val != nil && a.val.IsInt64() && a.val.Int64() == 1 {
		return b
	}
	if b.val != nil && b.val.IsInt64() && b.val.Int64() == 1 {
		return a
	}
	return c.mk("*", SInt, a, b)
}
func (c *Ctx) bvop(op string, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("bvop %s: %s vs %s", op, a.sort, b.sort))
	}
	w := bvWidth(a.sort)
	z := func(t *Term) bool { return t.val != nil && t.val.Sign() == 0 }
	if a.val != nil && b.val != nil {
		r := new(big.Int)
		m := new(big.Int).Lsh(big.NewInt(1), uint(w))
		switch op {
		case "bvadd":
			return c.BV(r.Add(a.val, b.val), w)
		case "bvsub":
			return c.BV(r.Sub(a.val, b.val), w)
		case "bvmul":
			return c.BV(r.Mul(a.val, b.val), w)
		case "bvand":
			return c.BV(r.And(a.val, b.val), w)
		case "bvor":
			return c.BV(r.Or(a.val, b.val), w)
		case "bvxor":
			return c.BV(r.Xor(a.val, b.val), w)
		case "bvshl":
			if b.val.Cmp(big.NewInt(int64(w))) >= 0 {
				return c.BV(r, w)
			}
			return c.BV(r.Mod(r.Lsh(a.val, uint(b.val.Int64())), m), w)
		case "bvlshr":
			if b.val.Cmp(big.NewInt(int64(w))) >= 0 {
				return c.BV(r, w)
			}
			return c.BV(r.Rsh(a.val, uint(b.val.Int64())), w)
		}
	}
	switch op {
	case "bvadd":
		if z(a) {
			return b
		}
		if z(b) {
			return a
		}
		if a.val != nil {
			a, b = b, a
		}
		if b.val != nil && a.op == "bvadd" && a.args[1].val != nil {
			return c.bvop("bvadd", a.args[0], c.bvop("bvadd", a.args[1], b))
		}
	case "bvsub":
		if z(b) {
			return a
		}
		if b.val != nil {
			return c.bvop("bvadd", a, c.BV(new(big.Int).Neg(b.val), w))
		}
	case "bvor", "bvxor", "bvshl", "bvlshr":
		if z(b) {
			return a
		}
		if z(a) && op == "bvor" {
			return b
		}
	case "bvand":
		if z(a) {
			return a
		}
		if z(b) {
			return b
		}
	}
	return c.mk(op, a.sort, a, b)
}
func sgn(v *big.Int, w int) *big.Int {
	if v.Bit(w-1) == 1 {
		return new(big.Int).Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(w)))
	}
	return v
}
func (c *Ctx) cmpop(op string, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("cmp %s: sorts %s vs %s (%s / %s)", op, a.sort, b.sort, a.op, b.op))
	}
	if isBV(a.sort) {
		w := bvWidth(a.sort)
		if a.val != nil && b.val != nil {
			x, y := a.val, b.val
			if op[2] == 's' {
				x, y = sgn(x, w), sgn(y, w)
			}
			switch op[3:] {
			case "lt":
				return c.Bool(x.Cmp(y) < 0)
			case "le":
				return c.Bool(x.Cmp(y) <= 0)
			}
		}
		if a == b {
			return c.Bool(op[3:] == "le")
		}
		return c.mk(op, SBool, a, b)
	}
	ab, ao := c.decomp(a)
	bb, bo := c.decomp(b)
	if ab == bb {
		if op == "<" {
			return c.Bool(ao.Cmp(bo) < 0)
		}
		return c.Bool(ao.Cmp(bo) <= 0)
	}
	return c.mk(op, SBool, a, b)
}
func (c *Ctx) Lt(a, b *Term) *Term {
	if isBV(a.sort) {
		return c.cmpop("bvslt", a, b)
	}
	return c.cmpop("<", a, b)
}
func (c *Ctx) Le(a, b *Term) *Term {
	if isBV(a.sort) {
		return c.cmpop("bvsle", a, b)
	}
	return c.cmpop("<=", a, b)
}
func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.Bool(true)
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s vs %s: %s / %s", a.sort, b.sort, a.op, b.op))
	}
	if a.val != nil && b.val != nil {
		return c.Bool(a.val.Cmp(b.val) == 0)
	}
	if a.sort == SInt {
		ab, ao := c.decomp(a)
		bb, bo := c.decomp(b)
		if ab == bb {
			return c.Bool(ao.Cmp(bo) == 0)
		}
	}
	if a.sort == SBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
	}
	if strings.HasPrefix(a.op, "\"") && strings.HasPrefix(b.op, "\"") {
		return c.Bool(false)
	}
	// ite(c, k1, k2) = k3 with literals
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		x, y := p[0], p[1]
		if x.op == "ite" && y.val != nil && (x.args[1].val != nil || x.args[2].val != nil) {
			return c.Ite(x.args[0], c.Eq(x.args[1], y), c.Eq(x.args[2], y))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", SBool, a, b)
}

// surelyDistinct: syntactic disequality of indices.
func (c *Ctx) surelyDistinct(a, b *Term) bool {
	e := c.Eq(a, b)
	return e.isFalse()
}
func (c *Ctx) Select(a, i *Term) *Term {
	for {
		if a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			if c.surelyDistinct(a.args[1], i) {
				a = a.args[0]
				continue
			}
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		break
	}
	if a.op == "ite" && (a.args[1].op == "store" || a.args[2].op == "store" || a.args[1].op == "ite" || a.args[2].op == "ite") {
		x := c.selDeep(a.args[1], i, 6)
		y := c.selDeep(a.args[2], i, 6)
		if x != nil && y != nil {
			return c.Ite(a.args[0], x, y)
		}
	}
	return c.mk("select", elemSort(a.sort), a, i)
}

// selDeep pushes a select through stores/ites when it fully simplifies cheaply.
func (c *Ctx) selDeep(a, i *Term, d int) *Term {
	if d == 0 {
		return nil
	}
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if !c.surelyDistinct(a.args[1], i) {
			return nil
		}
		a = a.args[0]
	}
	if a.op == "ite" {
		x := c.selDeep(a.args[1], i, d-1)
		y := c.selDeep(a.args[2], i, d-1)
		if x == nil || y == nil {
			return nil
		}
		return c.Ite(a.args[0], x, y)
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	return c.mk("select", elemSort(a.sort), a, i)
}
func (c *Ctx) Store(a, i, v *Term) *Term {
	if v.sort != elemSort(a.sort) {
		panic(fmt.Sprintf("store: %s into %s", v.sort, a.sort))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return c.mk("store", a.sort, a, i, v)
}
func (c *Ctx) ConstArr(s Sort, v *Term) *Term { return c.mk("constarr", s, v) }

func (c *Ctx) Quant(q string, vars []*Term, pats [][]*Term, body *Term) *Term {
	if len(vars) == 0 || body.isTrue() || body.isFalse() {
		return body
	}
	if body.op == q && len(pats) == 0 {
		// directly nested: one quantifier, so that patterns can cover every variable
		inner := body.bvars
		for _, p := range body.pats {
			n := map[*Term]bool{}
			for _, x := range p {
				boundIn(x, n, map[*Term]bool{})
			}
			all := true
			for _, v := range vars {
				all = all && n[v]
			}
			if all {
				pats = append(pats, p)
			}
		}
		return c.Quant(q, append(append([]*Term{}, vars...), inner...), pats, body.args[0])
	}
	var sb strings.Builder
	sb.WriteString(q)
	for _, v := range vars {
		fmt.Fprintf(&sb, " %d", v.id)
	}
	sb.WriteByte('#')
	for _, p := range pats {
		for _, x := range p {
			fmt.Fprintf(&sb, " %d", x.id)
		}
		sb.WriteByte(';')
	}
	fmt.Fprintf(&sb, "@%d", body.id)
	k := sb.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.n++
	t := &Term{id: c.n, op: q, args: []*Term{body}, sort: SBool, bvars: vars, pats: pats}
	// free if body has other bound variables
	bound := map[*Term]bool{}
	for _, v := range vars {
		bound[v] = true
	}
	t.free = hasFree(body, bound, map[*Term]bool{})
	c.tab[k] = t
	return t
}

// boundIn collects the bound variables occurring in t.
func boundIn(t *Term, out, seen map[*Term]bool) {
	if !t.free || seen[t] {
		return
	}
	seen[t] = true
	if len(t.args) == 0 {
		out[t] = true
		return
	}
	for _, a := range t.args {
		boundIn(a, out, seen)
	}
}
func hasFree(t *Term, bound map[*Term]bool, seen map[*Term]bool) bool {
	if !t.free || seen[t] {
		return false
	}
	seen[t] = true
	if len(t.args) == 0 {
		return !bound[t]
	}
	if len(t.bvars) > 0 {
		nb := map[*Term]bool{}
		for k := range bound {
			nb[k] = true
		}
		for _, v := range t.bvars {
			nb[v] = true
		}
		return hasFree(t.args[0], nb, map[*Term]bool{})
	}
	for _, a := range t.args {
		if hasFree(a, bound, seen) {
			return true
		}
	}
	return false
}
func (c *Ctx) Forall(vars []*Term, pats [][]*Term, body *Term) *Term {
	return c.Quant("forall", vars, pats, body)
}
func (c *Ctx) Exists(vars []*Term, body *Term) *Term { return c.Quant("exists", vars, nil, body) }

// ---------- printing ----------

type printer struct {
	c     *Ctx
	names map[*Term]string
	uses  map[*Term]int
	out   *strings.Builder
	decls map[string]bool
	dlist []string
	funs  map[string]bool
}

// ScriptInc asserts base and then checks each goal in its own scope.
func (c *Ctx) ScriptInc(logic string, asserts, goals []*Term) string {
	var tail []string
	return c.script(logic, asserts, goals, &tail)
}
func (c *Ctx) Script(logic string, asserts []*Term) string {
	return c.script(logic, asserts, nil, nil)
}
func (c *Ctx) script(logic string, asserts, goals []*Term, _ *[]string) string {
	p := &printer{c: c, names: map[*Term]string{}, uses: map[*Term]int{}, out: &strings.Builder{}, decls: map[string]bool{}, funs: map[string]bool{}}
	for _, a := range asserts {
		p.count(a)
	}
	for _, a := range goals {
		p.count(a)
	}
	var body strings.Builder
	p.out = &body
	for _, a := range asserts {
		p.emitDefs(a)
		body.WriteString("(assert ")
		p.expr(a, &body, true)
		body.WriteString(")\n")
	}
	for _, a := range goals {
		p.emitDefs(a)
	}
	for _, a := range goals {
		if len(goals) > 1 {
			body.WriteString("(push 1)\n")
		}
		body.WriteString("(assert ")
		p.expr(a, &body, true)
		body.WriteString(")\n(check-sat)\n")
		if len(goals) > 1 {
			body.WriteString("(pop 1)\n")
		}
	}
	var sb strings.Builder
	sb.WriteString(logic)
	usesStr := false
	for _, d := range p.dlist {
		if strings.Contains(d, "Str)") || strings.Contains(d, "Str ") || strings.HasSuffix(d, "Str") {
			usesStr = true
		}
	}
	var fl []string
	for f := range p.funs {
		fl = append(fl, c.funs[f])
		if strings.Contains(c.funs[f], "Str") {
			usesStr = true
		}
	}
	if usesStr {
		sb.WriteString("(declare-sort Str 0)\n")
	}
	sort.Strings(p.dlist)
	for _, d := range p.dlist {
		sb.WriteString(d + "\n")
	}
	sort.Strings(fl)
	for _, d := range fl {
		sb.WriteString(d + "\n")
	}
	sb.WriteString(body.String())
	return sb.String()
}

func (p *printer) count(t *Term) {
	p.uses[t]++
	if p.uses[t] > 1 {
		return
	}
	if t.decl != "" && !p.decls[t.decl] {
		p.decls[t.decl] = true
		p.dlist = append(p.dlist, t.decl)
	}
	if _, ok := p.c.funs[t.op]; ok && len(t.args) > 0 {
		p.funs[t.op] = true
	}
	for _, a := range t.args {
		p.count(a)
	}
	for _, ps := range t.pats {
		for _, x := range ps {
			p.count(x)
		}
	}
}

func (p *printer) emitDefs(t *Term) {
	// post-order definition of shared closed subterms
	type fr struct {
		t *Term
		i int
	}
	if p.names[t] != "" {
		return
	}
	stack := []fr{{t, 0}}
	onst := map[*Term]bool{t: true}
	for len(stack) > 0 {
		f := &stack[len(stack)-1]
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if p.names[a] == "" && len(a.args) > 0 && !onst[a] {
				onst[a] = true
				stack = append(stack, fr{a, 0})
			}
			continue
		}
		x := f.t
		stack = stack[:len(stack)-1]
		if p.uses[x] > 1 && !x.free && len(x.args) > 0 && p.names[x] == "" {
			nm := fmt.Sprintf("d!%d", x.id)
			fmt.Fprintf(p.out, "(define-fun %s () %s ", nm, x.sort)
			p.expr(x, p.out, true)
			p.out.WriteString(")\n")
			p.names[x] = nm
		}
	}
}

func (p *printer) expr(t *Term, w *strings.Builder, top bool) {
	if n := p.names[t]; n != "" {
		w.WriteString(n)
		return
	}
	if len(t.bvars) > 0 {
		w.WriteString("(" + t.op + " (")
		for _, v := range t.bvars {
			fmt.Fprintf(w, "(%s %s)", v.op, v.sort)
		}
		w.WriteString(") ")
		if len(t.pats) > 0 {
			w.WriteString("(! ")
		}
		p.expr(t.args[0], w, false)
		if len(t.pats) > 0 {
			for _, ps := range t.pats {
				w.WriteString(" :pattern (")
				for i, x := range ps {
					if i > 0 {
						w.WriteByte(' ')
					}
					p.expr(x, w, false)
				}
				w.WriteString(")")
			}
			w.WriteString(")")
		}
		w.WriteString(")")
		return
	}
	if len(t.args) == 0 {
		w.WriteString(t.op)
		return
	}
	if t.op == "constarr" {
		fmt.Fprintf(w, "((as const %s) ", t.sort)
		p.expr(t.args[0], w, false)
		w.WriteString(")")
		return
	}
	w.WriteString("(" + t.op)
	for _, a := range t.args {
		w.WriteByte(' ')
		p.expr(a, w, false)
	}
	w.WriteString(")")
}

// String is a debugging representation.
func (t *Term) String() string {
	if len(t.args) == 0 {
		return t.op
	}
	var sb strings.Builder
	sb.WriteString("(" + t.op)
	for _, a := range t.args {
		sb.WriteString(" " + a.String())
	}
	sb.WriteString(")")
	return sb.String()
}

// Subst rebuilds t with leaves replaced by m and applications rewritten by fn.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term, fn func(op string, args []*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if r, ok := memo[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if len(t.bvars) > 0 {
			var pats [][]*Term
			for _, p := range t.pats {
				var q []*Term
				for _, x := range p {
					q = append(q, rec(x))
				}
				pats = append(pats, q)
			}
			r := c.Quant(t.op, t.bvars, pats, rec(t.args[0]))
			memo[t] = r
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		var r *Term
		if fn != nil {
			r = fn(t.op, args)
		}
		if r == nil {
			if !ch {
				r = t
			} else {
				r = c.rebuild(t, args)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "not":
		return c.Not(a[0])
	case "and":
		return c.And(a...)
	case "or":
		return c.Or(a...)
	case "=>":
		return c.Imp(a[0], a[1])
	case "ite":
		return c.Ite(a[0], a[1], a[2])
	case "+":
		if len(a) == 2 {
			return c.Add(a[0], a[1])
		}
	case "-":
		if len(a) == 2 {
			return c.Sub(a[0], a[1])
		}
	case "*":
		return c.Mul(a[0], a[1])
	case "=":
		return c.Eq(a[0], a[1])
	case "<":
		return c.Lt(a[0], a[1])
	case "<=":
		return c.Le(a[0], a[1])
	case "select":
		return c.Select(a[0], a[1])
	case "store":
		return c.Store(a[0], a[1], a[2])
	}
	return c.mk(t.op, t.sort, a...)
}
