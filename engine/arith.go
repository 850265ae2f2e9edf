package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
)

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (e *Engine) boolV(t *Term) Value { return Value{T: types.Typ[types.Bool], C: []*Term{t}} }
func (e *Engine) intV(t *Term) Value  { return Value{T: types.Typ[types.Int], C: []*Term{t}} }
func (e *Engine) strV(t *Term) Value  { return Value{T: types.Typ[types.String], C: []*Term{t}} }

// wrap reduces an Int-mode result to the range of t (small and unsigned types only).
func (e *Engine) wrap(t *Term, ty types.Type) *Term {
	b := ty.Underlying().(*types.Basic)
	w, s, _ := intInfo(b)
	if e.bv {
		return t
	}
	if t.val != nil {
		return e.c.IntB(wrapBig(t.val, w, s))
	}
	if w == 64 {
		return t // 64-bit arithmetic is treated as mathematical (recorded assumption)
	}
	m := e.c.IntB(new(big.Int).Lsh(big.NewInt(1), uint(w)))
	if !s {
		return e.c.mk("mod", SInt, t, m)
	}
	h := e.c.IntB(new(big.Int).Lsh(big.NewInt(1), uint(w-1)))
	return e.c.Sub(e.c.mk("mod", SInt, e.c.Add(t, h), m), h)
}
func wrapBig(v *big.Int, w int, s bool) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	r := new(big.Int).Mod(v, m)
	if s && r.Bit(w-1) == 1 {
		r.Sub(r, m)
	}
	return r
}

func (e *Engine) strLen(s *Term) *Term {
	if e.strSMT {
		if n, ok := e.litVal(s); ok {
			return e.idx(int64(len(n)))
		}
		return e.c.mk("str.len", SInt, s)
	}
	if n, ok := e.litVal(s); ok {
		return e.idx(int64(len(n)))
	}
	t := e.c.App("strlen", e.idxSort(), s)
	e.addAxiom(e.c.Le(e.idx(0), t), t)
	e.addAxiom(e.c.Le(t, e.idx(1<<48)), t)
	return t
}
func (e *Engine) litVal(s *Term) (string, bool) {
	for k, v := range e.lits {
		if v == s {
			return k, true
		}
	}
	return "", false
}
func (e *Engine) strCat(a, b *Term) *Term {
	if e.strSMT {
		return e.c.mk("str.++", "String", a, b)
	}
	return e.c.App("strcat", "Str", a, b)
}
func (e *Engine) strAt(s, i *Term) *Term {
	if e.strSMT {
		return e.c.mk("str.to_code", SInt, e.c.mk("str.at", "String", s, i))
	}
	t := e.c.App("strat", e.byteSort(), s, i)
	if !e.bv {
		e.addAxiom(e.c.And(e.c.Le(e.c.Int(0), t), e.c.Lt(t, e.c.Int(256))), t)
	}
	return t
}
func (e *Engine) strSub(s, lo, hi *Term) *Term {
	if e.strSMT {
		return e.c.mk("str.substr", "String", s, lo, e.c.Sub(hi, lo))
	}
	if lo.val != nil && lo.val.Sign() == 0 && hi == e.strLen(s) {
		return s
	}
	t := e.c.App("strsub", "Str", s, lo, hi)
	if !t.free {
		n := e.c.App("strlen", e.idxSort(), t)
		e.addAxiom(e.c.Imp(e.c.And(e.c.Le(e.idx(0), lo), e.c.Le(lo, hi), e.c.Le(hi, e.strLen(s))), e.c.Eq(n, e.c.Sub(hi, lo))), t)
	}
	return t
}

// strOf is the string view of a byte range.
func (e *Engine) strOf(arr, off, ln *Term) *Term {
	t := e.c.App("strOf", e.strSort(), arr, off, ln)
	if !t.free {
		n := e.strLen(t)
		e.addAxiom(e.c.Imp(e.c.Le(e.idx(0), ln), e.c.Eq(n, ln)), t)
		e.addAxiom(e.c.Eq(e.c.Eq(ln, e.idx(0)), e.c.Eq(t, e.strLit(""))), t)
	}
	return t
}

func (e *Engine) bytesView(s *State, v Value) *Term {
	if v.Str != nil {
		return v.Str
	}
	if v.Row != nil {
		return e.strOf(v.Row[0], v.C[1], v.C[2])
	}
	el := types.Typ[types.Uint8]
	h := e.heapTerm(s, e.ekey(el, 0), ArrSort(SInt, ArrSort(e.idxSort(), e.byteSort())), "int", true)
	return e.strOf(e.c.Select(h, v.C[0]), v.C[1], v.C[2])
}

// addAxiom records a definitional fact once per term.
func (e *Engine) addAxiom(f *Term, about *Term) {
	if f.isTrue() || f.free || about.free {
		return
	}
	if e.axDone[f] {
		return
	}
	e.axDone[f] = true
	e.axioms = append(e.axioms, f)
	if e.axAbout == nil {
		e.axAbout = map[*Term]*Term{}
	}
	e.axAbout[f] = about
}

func (e *Engine) constInt(v *big.Int, t types.Type) *Term {
	b := t.Underlying().(*types.Basic)
	if e.bv {
		w, _, _ := intInfo(b)
		return e.c.BV(v, w)
	}
	return e.c.IntB(v)
}

func signedT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return true
	}
	_, s, _ := intInfo(b)
	return s
}

func (e *Engine) less(a, b *Term, signed bool) *Term {
	if isBV(a.sort) && !signed {
		return e.c.cmpop("bvult", a, b)
	}
	return e.c.Lt(a, b)
}
func (e *Engine) lesseq(a, b *Term, signed bool) *Term {
	if isBV(a.sort) && !signed {
		return e.c.cmpop("bvule", a, b)
	}
	return e.c.Le(a, b)
}

// eqVals compares two values of comparable types.
func (e *Engine) eqVals(x, y Value) *Term {
	c := e.c
	isNil := func(v Value) bool {
		b, ok := v.T.(*types.Basic)
		return ok && b.Kind() == types.UntypedNil
	}
	if isNil(x) {
		x, y = y, x
	}
	if isNil(y) {
		if isNil(x) {
			return c.Bool(true)
		}
		if x.Loc != nil || x.Fn != nil {
			return c.Bool(false)
		}
		return c.Eq(x.C[0], c.Int(0))
	}
	if x.Loc != nil || y.Loc != nil {
		if x.Loc != nil && y.Loc != nil && sameLoc(x.Loc, y.Loc) {
			return c.Bool(true)
		}
		o := y
		if x.Loc == nil {
			o = x
		}
		if len(o.C) == 1 && o.C[0].val != nil && o.C[0].val.Sign() == 0 {
			return c.Bool(false)
		}
		panic(unsup("comparison of interior pointers"))
	}
	if _, ok := x.T.Underlying().(*types.Slice); ok {
		// only against a nil constant
		if y.C[0].val != nil && y.C[0].val.Sign() == 0 {
			return c.Eq(x.C[0], c.Int(0))
		}
		if x.C[0].val != nil && x.C[0].val.Sign() == 0 {
			return c.Eq(y.C[0], c.Int(0))
		}
	}
	if isIface(x.T) && isIface(y.T) {
		a, b := x.C[0], y.C[0]
		if a.val != nil || b.val != nil {
			return c.Eq(a, b)
		}
		q := c.Eq(a, b)
		if q.isTrue() {
			return q
		}
		r := c.App("ifaceEq", SBool, a, b)
		e.addAxiom(c.Imp(c.Eq(a, b), r), r)
		return r
	}
	var cs []*Term
	if len(x.C) != len(y.C) {
		panic(unsup("comparison of %s with %s", typeStr(x.T), typeStr(y.T)))
	}
	for i := range x.C {
		cs = append(cs, c.Eq(x.C[i], y.C[i]))
	}
	return c.And(cs...)
}

// maskAnd computes x & m for a constant mask in Int mode (x >= 0).
func (e *Engine) maskAnd(x *Term, m *big.Int) *Term {
	c := e.c
	var sum *Term = c.Int(0)
	bit := 0
	for bit < m.BitLen() {
		if m.Bit(bit) == 0 {
			bit++
			continue
		}
		st := bit
		for m.Bit(bit) == 1 {
			bit++
		}
		lo := new(big.Int).Lsh(big.NewInt(1), uint(st))
		span := new(big.Int).Lsh(big.NewInt(1), uint(bit-st))
		t := x
		if st > 0 {
			t = c.mk("div", SInt, x, c.IntB(lo))
		}
		t = c.mk("mod", SInt, t, c.IntB(span))
		if st > 0 {
			t = c.Mul(t, c.IntB(lo))
		}
		sum = c.Add(sum, t)
	}
	return sum
}

func (e *Engine) quo(x, y *Term) *Term {
	c := e.c
	if x.val != nil && y.val != nil && y.val.Sign() != 0 {
		return c.IntB(new(big.Int).Quo(x.val, y.val))
	}
	if y.val != nil && y.val.Sign() > 0 {
		return c.Ite(c.Le(c.Int(0), x), c.mk("div", SInt, x, y), c.Sub(c.Int(0), c.mk("div", SInt, c.Sub(c.Int(0), x), y)))
	}
	return c.App("goquo", SInt, x, y)
}
func (e *Engine) rem(x, y *Term) *Term {
	c := e.c
	if x.val != nil && y.val != nil && y.val.Sign() != 0 {
		return c.IntB(new(big.Int).Rem(x.val, y.val))
	}
	if y.val != nil && y.val.Sign() > 0 {
		return c.Ite(c.Le(c.Int(0), x), c.mk("mod", SInt, x, y), c.Sub(c.Int(0), c.mk("mod", SInt, c.Sub(c.Int(0), x), y)))
	}
	return c.App("gorem", SInt, x, y)
}

// binop evaluates a Go binary operator; div-by-zero is the caller's obligation.
func (e *Engine) binop(op token.Token, x, y Value, rt types.Type) Value {
	c := e.c
	bl := func(t *Term) Value { return Value{T: rt, C: []*Term{t}} }
	switch op {
	case token.EQL:
		return bl(e.eqVals(x, y))
	case token.NEQ:
		return bl(c.Not(e.eqVals(x, y)))
	}
	if isString(x.T) {
		switch op {
		case token.ADD:
			return Value{T: rt, C: []*Term{e.strCat(x.C[0], y.C[0])}}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			a, b := x.C[0], y.C[0]
			if op == token.GTR || op == token.GEQ {
				a, b = b, a
			}
			if e.strSMT {
				o := "str.<"
				if op == token.LEQ || op == token.GEQ {
					o = "str.<="
				}
				return bl(c.mk(o, SBool, a, b))
			}
			r := c.App("strlt", SBool, a, b)
			if op == token.LEQ || op == token.GEQ {
				r = c.Not(c.App("strlt", SBool, b, a))
			}
			return bl(r)
		}
	}
	if isBoolT(x.T) {
		switch op {
		case token.AND, token.LAND:
			return bl(c.And(x.C[0], y.C[0]))
		case token.OR, token.LOR:
			return bl(c.Or(x.C[0], y.C[0]))
		}
	}
	if !isInteger(x.T) {
		// floats and others: uninterpreted
		switch op {
		case token.LSS:
			return bl(c.Lt(x.C[0], y.C[0]))
		case token.GTR:
			return bl(c.Lt(y.C[0], x.C[0]))
		case token.LEQ:
			return bl(c.Le(x.C[0], y.C[0]))
		case token.GEQ:
			return bl(c.Le(y.C[0], x.C[0]))
		}
		return Value{T: rt, C: []*Term{c.App("fop"+op.String(), SInt, x.C[0], y.C[0])}}
	}
	a, b := x.C[0], y.C[0]
	sg := signedT(x.T)
	w, _, _ := intInfo(x.T.Underlying().(*types.Basic))
	num := func(t *Term) Value { return Value{T: rt, C: []*Term{t}} }
	switch op {
	case token.LSS:
		return bl(e.less(a, b, sg))
	case token.GTR:
		return bl(e.less(b, a, sg))
	case token.LEQ:
		return bl(e.lesseq(a, b, sg))
	case token.GEQ:
		return bl(e.lesseq(b, a, sg))
	case token.ADD:
		return num(e.wrap(c.Add(a, b), x.T))
	case token.SUB:
		return num(e.wrap(c.Sub(a, b), x.T))
	case token.MUL:
		return num(e.wrap(c.Mul(a, b), x.T))
	}
	if e.bv {
		// shift counts may have another width
		if op == token.SHL || op == token.SHR {
			bw := bvWidth(b.sort)
			var sh *Term
			var big_ *Term = c.Bool(false)
			if bw > w {
				sh = c.extract(b, w-1, 0)
				big_ = c.Not(c.cmpop("bvult", b, c.BV(big.NewInt(int64(w)), bw)))
			} else {
				sh = c.zext(b, w)
			}
			o := "bvshl"
			if op == token.SHR {
				o = "bvlshr"
				if sg {
					o = "bvashr"
				}
			}
			var ov *Term = c.BV(big.NewInt(0), w)
			if o == "bvashr" {
				ov = c.bvop("bvashr", a, c.BV(big.NewInt(int64(w-1)), w))
			}
			return num(c.Ite(big_, ov, c.bvop(o, a, sh)))
		}
		switch op {
		case token.AND:
			return num(c.bvop("bvand", a, b))
		case token.OR:
			return num(c.bvop("bvor", a, b))
		case token.XOR:
			return num(c.bvop("bvxor", a, b))
		case token.AND_NOT:
			return num(c.bvop("bvand", a, c.mk("bvnot", b.sort, b)))
		case token.QUO:
			if b.val != nil && sg {
				// division by a positive power of two of a possibly negative number: bvsdiv
				return num(c.bvop("bvsdiv", a, b))
			}
			if sg {
				return num(c.bvop("bvsdiv", a, b))
			}
			return num(c.bvop("bvudiv", a, b))
		case token.REM:
			if sg {
				return num(c.bvop("bvsrem", a, b))
			}
			return num(c.bvop("bvurem", a, b))
		}
		panic(unsup("bv operator %s", op))
	}
	// Int mode
	bitop := func(smt string) Value {
		if a.val != nil && b.val != nil && a.val.Sign() >= 0 && b.val.Sign() >= 0 {
			r := new(big.Int)
			switch smt {
			case "bvand":
				r.And(a.val, b.val)
			case "bvor":
				r.Or(a.val, b.val)
			case "bvxor":
				r.Xor(a.val, b.val)
			}
			return num(c.IntB(r))
		}
		r := c.App(fmt.Sprintf("int.%s.%d", smt, w), SInt, a, b)
		if !r.free {
			e.addAxiom(e.rangeFact(r, w, sg), r)
		}
		return num(r)
	}
	switch op {
	case token.AND:
		if a.val != nil && b.val == nil {
			a, b = b, a
		}
		if b.val != nil && b.val.Sign() >= 0 && (!sg || true) {
			if !sg {
				return num(e.maskAnd(a, b.val))
			}
		}
		return bitop("bvand")
	case token.OR:
		return bitop("bvor")
	case token.XOR:
		return bitop("bvxor")
	case token.AND_NOT:
		if b.val != nil && !sg {
			return num(c.Sub(a, e.maskAnd(a, b.val)))
		}
		return bitop("bvandn")
	case token.SHL:
		if b.val != nil {
			return num(e.wrap(c.Mul(a, c.IntB(new(big.Int).Lsh(big.NewInt(1), uint(b.val.Int64())))), x.T))
		}
		return bitop("shl")
	case token.SHR:
		if b.val != nil {
			return num(c.mk("div", SInt, a, c.IntB(new(big.Int).Lsh(big.NewInt(1), uint(b.val.Int64())))))
		}
		return bitop("shr")
	case token.QUO:
		return num(e.quo(a, b))
	case token.REM:
		return num(e.rem(a, b))
	}
	panic(unsup("operator %s", op))
}

func (c *Ctx) extract(t *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == bvWidth(t.sort) {
		return t
	}
	if t.val != nil {
		return c.BV(new(big.Int).Rsh(t.val, uint(lo)), w)
	}
	return c.mk(fmt.Sprintf("(_ extract %d %d)", hi, lo), BVSort(w), t)
}
func (c *Ctx) zext(t *Term, w int) *Term {
	k := w - bvWidth(t.sort)
	if k == 0 {
		return t
	}
	if t.val != nil {
		return c.BV(t.val, w)
	}
	return c.mk(fmt.Sprintf("(_ zero_extend %d)", k), BVSort(w), t)
}
func (c *Ctx) sext(t *Term, w int) *Term {
	ow := bvWidth(t.sort)
	k := w - ow
	if k == 0 {
		return t
	}
	if t.val != nil {
		return c.BV(sgn(t.val, ow), w)
	}
	return c.mk(fmt.Sprintf("(_ sign_extend %d)", k), BVSort(w), t)
}

// convInt converts between integer types.
func (e *Engine) convInt(t *Term, from, to types.Type) *Term {
	fb := from.Underlying().(*types.Basic)
	tb := to.Underlying().(*types.Basic)
	fw, fs, _ := intInfo(fb)
	tw, ts, _ := intInfo(tb)
	c := e.c
	if e.bv {
		switch {
		case tw < fw:
			return c.extract(t, tw-1, 0)
		case tw > fw:
			if fs {
				return c.sext(t, tw)
			}
			return c.zext(t, tw)
		}
		return t
	}
	if t.val != nil {
		return c.IntB(wrapBig(t.val, tw, ts))
	}
	// source range included in target range?
	if fs == ts && fw <= tw || !fs && ts && fw < tw {
		return t
	}
	m := c.IntB(new(big.Int).Lsh(big.NewInt(1), uint(tw)))
	if !ts {
		return c.mk("mod", SInt, t, m)
	}
	h := c.IntB(new(big.Int).Lsh(big.NewInt(1), uint(tw-1)))
	return c.Sub(c.mk("mod", SInt, c.Add(t, h), m), h)
}
