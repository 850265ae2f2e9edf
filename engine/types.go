package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- flattening of Go types to SMT components ----------

type Comp struct {
	Name string
	Sort Sort
	Kind string     // bool int ref iface str slref sloff sllen slcap opaque arr map func float chan
	T    types.Type // Go type of the leaf
}

type Value struct {
	T    types.Type
	C    []*Term
	Loc  *Loc
	Fn   *ssa.Function
	Bind []Value
	Tup  []Value
	Iter string  // range iterator key
	Str  *Term   // specification: a byte slice given by its content
	Row  []*Term // specification parameters: the backing array passed by value
}

type Loc struct {
	Kind byte // 'H' heap object, 'E' slice/array element, 'C' local cell, 'G' global
	Ref  *Term
	Idx  *Term
	Root types.Type
	ID   string
	Lo   int
	T    types.Type
	Arr  []*Term // index into embedded array components
}

// opaque types: named types given their own components
type opaque struct{ comps []Comp }

func qual(p *types.Package) string { return p.Path() }

func typeStr(t types.Type) string {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.Basic:
		return types.Typ[u.Kind()].Name()
	case *types.Pointer:
		return "*" + typeStr(u.Elem())
	case *types.Slice:
		return "[]" + typeStr(u.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), typeStr(u.Elem()))
	case *types.Map:
		return "map[" + typeStr(u.Key()) + "]" + typeStr(u.Elem())
	case *types.Named:
		o := u.Obj()
		s := o.Name()
		if o.Pkg() != nil {
			s = o.Pkg().Path() + "." + s
			if o.Parent() != nil && o.Parent() != o.Pkg().Scope() {
				s += fmt.Sprintf("#%d", int(o.Pos()))
			}
		}
		if ta := u.TypeArgs(); ta != nil && ta.Len() > 0 {
			s += "["
			for i := 0; i < ta.Len(); i++ {
				s += typeStr(ta.At(i)) + ","
			}
			s += "]"
		}
		return s
	}
	return types.TypeString(t, qual)
}

func (e *Engine) idxSort() Sort {
	if e.bv {
		return BVSort(64)
	}
	return SInt
}
func (e *Engine) strSort() Sort {
	if e.strSMT {
		return "String"
	}
	return "Str"
}

func intInfo(b *types.Basic) (w int, signed bool, ok bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func (e *Engine) intSort(b *types.Basic) Sort {
	if e.bv {
		w, _, _ := intInfo(b)
		return BVSort(w)
	}
	return SInt
}

func (e *Engine) flat(t types.Type) []Comp {
	k := typeStr(t)
	if r, ok := e.flatCache[k]; ok {
		return r
	}
	r := e.flat0(t, 0)
	e.flatCache[k] = r
	return r
}

func (e *Engine) flat0(t types.Type, depth int) []Comp {
	t = types.Unalias(t)
	if depth > 12 {
		panic("flatten depth " + typeStr(t))
	}
	if n, ok := t.(*types.Named); ok {
		if o, ok := e.opaqueComps(typeStr(n)); ok {
			return o
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Comp{{"", SBool, "bool", t}}
		case u.Info()&types.IsInteger != 0:
			return []Comp{{"", e.intSort(u), "int", t}}
		case u.Info()&types.IsString != 0:
			return []Comp{{"", e.strSort(), "str", t}}
		case u.Info()&types.IsFloat != 0:
			return []Comp{{"", SInt, "float", t}}
		case u.Kind() == types.UnsafePointer:
			return []Comp{{"", SInt, "ref", t}}
		case u.Kind() == types.UntypedNil:
			return []Comp{{"", SInt, "ref", t}}
		}
		return []Comp{{"", SInt, "opaque", t}}
	case *types.Pointer:
		return []Comp{{"", SInt, "ref", t}}
	case *types.Chan:
		return []Comp{{"", SInt, "ref", t}}
	case *types.Signature:
		return []Comp{{"", SInt, "ref", t}}
	case *types.Map:
		return []Comp{{"", SInt, "ref", t}}
	case *types.Interface:
		return []Comp{{"", SInt, "iface", t}}
	case *types.Slice:
		return []Comp{{".ref", SInt, "slref", t}, {".off", e.idxSort(), "sloff", t}, {".len", e.idxSort(), "sllen", t}, {".cap", e.idxSort(), "slcap", t}}
	case *types.Array:
		var out []Comp
		for _, c := range e.flat0(u.Elem(), depth+1) {
			out = append(out, Comp{"[]" + c.Name, ArrSort(e.idxSort(), c.Sort), "arr", t})
		}
		return out
	case *types.Struct:
		var out []Comp
		for i := 0; i < u.NumFields(); i++ {
			for _, c := range e.flat0(u.Field(i).Type(), depth+1) {
				c.Name = "." + u.Field(i).Name() + c.Name
				out = append(out, c)
			}
		}
		return out
	case *types.Tuple:
		var out []Comp
		for i := 0; i < u.Len(); i++ {
			out = append(out, e.flat0(u.At(i).Type(), depth+1)...)
		}
		return out
	case *types.TypeParam:
		return []Comp{{"", SInt, "opaque", t}}
	}
	panic("flatten: " + typeStr(t))
}

func (e *Engine) opaqueComps(name string) ([]Comp, bool) {
	switch name {
	case "time.Time", "math/big.Int":
		return []Comp{{"", SInt, "opaque", nil}}, true
	case "bytes.Buffer":
		return []Comp{{".gdata", ArrSort(e.idxSort(), e.byteSort()), "arr", nil}, {".glen", e.idxSort(), "sllen", nil}}, true
	case "sync.Mutex", "sync.RWMutex", "sync.WaitGroup", "sync.Once", "sync/atomic.noCopy":
		return nil, true
	case "sync/atomic.Bool":
		return []Comp{{".v", SBool, "bool", nil}}, true
	case "sync/atomic.Uint64", "sync/atomic.Int64":
		return []Comp{{".v", SInt, "opaque", nil}}, true
	case "net/http.Client", "net/http.Response", "encoding/xml.Decoder", "encoding/json.Encoder",
		"encoding/json.Decoder", "bufio.Scanner", "encoding/xml.Encoder", "net/url.URL", "os/exec.Cmd", "regexp.Regexp", "net/http.Transport":
		return []Comp{{".opq", SInt, "opaque", nil}}, true
	case "reflect.Value":
		return []Comp{{".opq", SInt, "opaque", nil}}, true
	}
	return nil, false
}
func (e *Engine) byteSort() Sort {
	if e.bv {
		return BVSort(8)
	}
	return SInt
}

// fieldRange returns component offset and count of field i in struct type t.
func (e *Engine) fieldRange(t types.Type, i int) (int, int) {
	st := t.Underlying().(*types.Struct)
	lo := 0
	for j := 0; j < i; j++ {
		lo += len(e.flat(st.Field(j).Type()))
	}
	return lo, len(e.flat(st.Field(i).Type()))
}

func (e *Engine) zeroComp(c Comp) *Term {
	switch c.Kind {
	case "bool":
		return e.c.Bool(false)
	case "str":
		return e.strLit("")
	case "arr":
		i, el := splitArr(c.Sort)
		_ = i
		return e.c.ConstArr(c.Sort, e.zeroSort(el))
	}
	return e.zeroSort(c.Sort)
}
func (e *Engine) zeroSort(s Sort) *Term {
	switch {
	case s == SBool:
		return e.c.Bool(false)
	case s == SInt:
		return e.c.Int(0)
	case isBV(s):
		return e.c.BV(big.NewInt(0), bvWidth(s))
	case s == "String" || s == "Str":
		return e.strLit("")
	case isArr(s):
		return e.c.ConstArr(s, e.zeroSort(elemSort(s)))
	}
	panic("zero of sort " + string(s))
}
func (e *Engine) zero(t types.Type) Value {
	cs := e.flat(t)
	v := Value{T: t}
	for _, c := range cs {
		v.C = append(v.C, e.zeroComp(c))
	}
	return v
}

func (e *Engine) strLit(s string) *Term {
	if e.strSMT {
		var sb strings.Builder
		sb.WriteByte('"')
		for i := 0; i < len(s); i++ {
			ch := s[i]
			if ch == '"' {
				sb.WriteString("\"\"")
			} else if ch >= 32 && ch < 127 && ch != '\\' {
				sb.WriteByte(ch)
			} else {
				fmt.Fprintf(&sb, "\\u{%x}", ch)
			}
		}
		sb.WriteByte('"')
		t := e.c.mk(sb.String(), "String")
		return t
	}
	if t, ok := e.lits[s]; ok {
		return t
	}
	t := e.c.Const(fmt.Sprintf("lit:%q", s), "Str")
	e.lits[s] = t
	e.litOrder = append(e.litOrder, s)
	return t
}

// freshVal creates a fresh symbolic value of type t.
func (e *Engine) freshVal(prefix string, t types.Type) Value {
	v := Value{T: t}
	for _, c := range e.flat(t) {
		v.C = append(v.C, e.c.Fresh(prefix+c.Name, c.Sort))
	}
	return v
}

// idx makes an index constant.
func (e *Engine) idx(n int64) *Term {
	if e.bv {
		return e.c.BV(big.NewInt(n), 64)
	}
	return e.c.Int(n)
}

// typeFacts returns facts that hold for every well-typed value.
func (e *Engine) typeFacts(v Value, top *Term) []*Term {
	var out []*Term
	if v.Loc != nil || v.Fn != nil || v.Tup != nil {
		return nil
	}
	cs := e.flat(v.T)
	if len(cs) != len(v.C) {
		panic(fmt.Sprintf("typeFacts %s: %d comps vs %d", typeStr(v.T), len(cs), len(v.C)))
	}
	return append(out, e.compFacts(cs, v.C, top)...)
}

func (e *Engine) compFacts(cs []Comp, C []*Term, top *Term) []*Term {
	var out []*Term
	c := e.c
	for i, k := range cs {
		t := C[i]
		switch k.Kind {
		case "int":
			if isBV(t.sort) || t.val != nil {
				continue
			}
			b, ok := k.T.Underlying().(*types.Basic)
			if !ok {
				continue
			}
			w, s, _ := intInfo(b)
			out = append(out, e.rangeFact(t, w, s))
		case "ref":
			if t.val == nil {
				out = append(out, c.Le(c.Int(0), t))
				if top != nil {
					out = append(out, c.Le(t, top))
				}
			}
		case "iface":
			if t.val == nil && top != nil {
				out = append(out, c.Le(t, top))
			}
		case "slref":
			ln, cp, off := C[i+2], C[i+3], C[i+1]
			if t.val == nil {
				out = append(out, c.Le(c.Int(0), t))
				if top != nil {
					out = append(out, c.Le(t, top))
				}
			}
			z := e.idx(0)
			big40 := e.idx(1 << 48)
			if ln.val == nil {
				out = append(out, c.Le(z, ln), c.Le(ln, cp))
			}
			if off.val == nil {
				out = append(out, c.Le(z, off))
			}
			if cp.val == nil || off.val == nil {
				out = append(out, c.Le(cp, big40), c.Le(off, big40))
			}
			if t.val == nil && !(cp.val != nil && cp.val.Sign() == 0) {
				out = append(out, c.Imp(c.Eq(t, c.Int(0)), c.Eq(cp, z)))
			}
		case "sllen":
			if k.T == nil && t.val == nil {
				out = append(out, c.Le(e.idx(0), t), c.Le(t, e.idx(1<<48)))
			}
		case "str":
			if e.strSMT && t.val == nil && !strings.HasPrefix(t.op, "\"") {
				out = append(out, c.Le(c.mk("str.len", SInt, t), c.Int(1<<48)))
			}
		}
	}
	return out
}

func (e *Engine) rangeFact(t *Term, w int, s bool) *Term {
	c := e.c
	one := big.NewInt(1)
	if s {
		hi := new(big.Int).Lsh(one, uint(w-1))
		lo := new(big.Int).Neg(hi)
		return c.And(c.Le(c.IntB(lo), t), c.Le(t, c.IntB(new(big.Int).Sub(hi, one))))
	}
	hi := new(big.Int).Lsh(one, uint(w))
	return c.And(c.Le(c.Int(0), t), c.Le(t, c.IntB(new(big.Int).Sub(hi, one))))
}

func isPointerLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}
func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}
