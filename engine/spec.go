package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// ---------- specification files ----------

type Clause struct {
	Name  string
	Src   string
	Expr  ast.Expr
	Props []string
}
type TVar struct {
	Name string
	Type ast.Expr
	Phi  bool // only variables the loop itself changes
}
type Template struct {
	Vars []TVar
	Expr ast.Expr
	Src  string
}
type ModClause struct {
	Kind string // field, map, elems, any, anymap, ghost, ghostat, all
	Expr ast.Expr
	Sel  string
	Src  string
}
type SetClause struct {
	Mod ModClause
	Val ast.Expr
}

type FuncSpec struct {
	Sets     []SetClause
	Key      string // full function name
	File     string
	Params   []string
	Results  []string
	Props    []string
	Trusted  bool
	BV       bool
	Str      bool
	NoPanic  bool
	Fatal    bool // log.Fatal reachable is a violation
	Pure     bool
	Inline   bool
	NoAuto   bool
	NoReturn bool
	Total    bool // may never fail to return; informational
	Requires []Clause
	Ensures  []Clause
	Dets     []Clause
	Asserts  []Clause
	Mods     []ModClause
	HasMod   bool
	Inv      []Template
	Iter     *IterClause
	IterInv  []Clause
	Reason   string
	Timeout  int
	Opts     map[string]string
}

// IterClause: a trusted function calls its callback so often, with these arguments.
type IterClause struct {
	Fn    string
	Args  []ast.Expr
	Count ast.Expr
}
type Macro struct {
	Name   string
	Params []string
	Body   ast.Expr
}
type RecDef struct {
	Name   string
	Params []string
	Res    ast.Expr
	Body   ast.Expr
}
type FunDef struct {
	Name string
	Args []ast.Expr
	Res  ast.Expr
}
type AxiomDef struct {
	Name string
	Vars []TVar
	Expr ast.Expr
	Src  string
}
type GhostDef struct {
	Name string
	Type ast.Expr
	Heap bool
}

type SpecDB struct {
	Alias  map[string]string
	Funcs  map[string]*FuncSpec
	Order  []string
	Macros map[string]*Macro
	Recs   map[string]*RecDef
	Funs   map[string]*FunDef
	Axioms []*AxiomDef
	Ghosts map[string]*GhostDef
	Pures  map[string]bool
	NoEff  map[string]bool
	Units  map[string]bool
}

func NewSpecDB() *SpecDB {
	return &SpecDB{Alias: map[string]string{}, Funcs: map[string]*FuncSpec{}, Macros: map[string]*Macro{}, Recs: map[string]*RecDef{},
		Funs: map[string]*FunDef{}, Ghosts: map[string]*GhostDef{}, Pures: map[string]bool{}, NoEff: map[string]bool{}}
}

// rewriteImp rewrites a ==> b and a <==> b into imp(a,b) and iff(a,b).
func rewriteImp(s string) string {
	// split groups recursively
	var out strings.Builder
	var rec func(s string) string
	rec = func(s string) string {
		// process nested groups first
		var b strings.Builder
		i := 0
		for i < len(s) {
			ch := s[i]
			switch ch {
			case '"', '`', '\'':
				j := i + 1
				for j < len(s) && s[j] != ch {
					if s[j] == '\\' && ch != '`' {
						j++
					}
					j++
				}
				b.WriteString(s[i : j+1])
				i = j + 1
			case '(', '[', '{':
				cl := map[byte]byte{'(': ')', '[': ']', '{': '}'}[ch]
				d := 0
				j := i
				for ; j < len(s); j++ {
					if s[j] == '"' {
						j++
						for j < len(s) && s[j] != '"' {
							if s[j] == '\\' {
								j++
							}
							j++
						}
						continue
					}
					if s[j] == '\'' {
						j++
						for j < len(s) && s[j] != '\'' {
							if s[j] == '\\' {
								j++
							}
							j++
						}
						continue
					}
					if s[j] == ch {
						d++
					} else if s[j] == cl {
						d--
						if d == 0 {
							break
						}
					}
				}
				if j >= len(s) {
					panic("unbalanced: " + s)
				}
				inner := s[i+1 : j]
				parts := splitTop(inner, ",")
				for k := range parts {
					parts[k] = rec(parts[k])
				}
				b.WriteByte(ch)
				b.WriteString(strings.Join(parts, ","))
				b.WriteByte(cl)
				i = j + 1
			default:
				b.WriteByte(ch)
				i++
			}
		}
		s = b.String()
		if p := splitTop(s, "<==>"); len(p) == 2 {
			return "iff(" + rec2(p[0]) + "," + rec2(p[1]) + ")"
		}
		return rec2(s)
	}
	out.WriteString(rec(s))
	return out.String()
}
func rec2(s string) string {
	p := splitTop(s, "==>")
	if len(p) == 1 {
		return s
	}
	r := p[len(p)-1]
	for i := len(p) - 2; i >= 0; i-- {
		r = "imp(" + p[i] + "," + r + ")"
	}
	return r
}
func splitTop(s, sep string) []string {
	var out []string
	d := 0
	last := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"':
			i++
			for i < len(s) && s[i] != '"' {
				if s[i] == '\\' {
					i++
				}
				i++
			}
			continue
		case '\'':
			i++
			for i < len(s) && s[i] != '\'' {
				if s[i] == '\\' {
					i++
				}
				i++
			}
			continue
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		}
		if d == 0 && strings.HasPrefix(s[i:], sep) {
			if sep == "==>" && i > 0 && s[i-1] == '<' {
				continue
			}
			out = append(out, s[last:i])
			i += len(sep) - 1
			last = i + 1
		}
	}
	return append(out, s[last:])
}

func parseExpr(src, where string) ast.Expr {
	src = strings.ReplaceAll(src, "$", "ǂ")
	x, err := parser.ParseExpr(rewriteImp(src))
	if err != nil {
		panic(fmt.Sprintf("%s: cannot parse %q: %v", where, src, err))
	}
	return x
}

func parseParams(s string) []string {
	s = strings.TrimSpace(s)
	if s == "" {
		return nil
	}
	var out []string
	for _, p := range strings.Split(s, ",") {
		out = append(out, strings.TrimSpace(p))
	}
	return out
}
func parseTVars(s, where string) []TVar {
	var out []TVar
	for _, p := range splitTop(s, ",") {
		p = strings.TrimSpace(p)
		if p == "" {
			continue
		}
		i := strings.IndexAny(p, ": ")
		name := strings.TrimSpace(p[:i])
		ty := strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(p[i:]), ":"))
		phi := strings.HasSuffix(name, "!")
		name = strings.TrimSuffix(name, "!")
		out = append(out, TVar{strings.ReplaceAll(name, "$", "ǂ"), parseExpr(ty, where), phi})
	}
	return out
}

// logical lines: a line starting in column 0 (or with two blanks, for clauses) starts a directive; deeper lines continue.
func specLines(src string) []struct {
	n   int
	txt string
} {
	var out []struct {
		n   int
		txt string
	}
	for i, l := range strings.Split(src, "\n") {
		if k := strings.Index(l, "//"); k >= 0 && (k == 0 || l[k-1] == ' ' || l[k-1] == '\t') {
			l = l[:k]
		}
		l = strings.TrimRight(l, " \t")
		if strings.TrimSpace(l) == "" {
			continue
		}
		ind := len(l) - len(strings.TrimLeft(l, " "))
		if ind >= 4 && len(out) > 0 {
			out[len(out)-1].txt += " " + strings.TrimSpace(l)
			continue
		}
		out = append(out, struct {
			n   int
			txt string
		}{i + 1, l})
	}
	return out
}

func (db *SpecDB) expandName(n string) string {
	// (*pki.Validator).AddCert or lib.DecodeIP
	for a, p := range db.Alias {
		for _, pre := range []string{"(*", "(", ""} {
			if strings.HasPrefix(n, pre+a+".") {
				return pre + p + "." + n[len(pre+a+"."):]
			}
		}
	}
	return n
}

func LoadSpecs(dir string) *SpecDB {
	db := NewSpecDB()
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		for _, ln := range specLines(string(b)) {
			w := strings.Fields(ln.txt)
			if w[0] == "package" {
				db.Alias[w[1]] = w[3]
			}
		}
	}
	for _, f := range files {
		b, _ := os.ReadFile(f)
		db.parseFile(filepath.Base(f), string(b))
	}
	return db
}

func cutHead(s string) (string, string) {
	s = strings.TrimSpace(s)
	i := strings.IndexAny(s, " \t:")
	if i < 0 {
		return s, ""
	}
	return s[:i], strings.TrimSpace(s[i:])
}

func (db *SpecDB) parseFile(file, src string) {
	var cur *FuncSpec
	for _, ln := range specLines(src) {
		where := fmt.Sprintf("%s:%d", file, ln.n)
		head, rest := cutHead(ln.txt)
		clause := func() Clause {
			c := Clause{}
			r := rest
			if strings.HasPrefix(r, "[") {
				if i := strings.Index(r, "]"); i > 0 && !strings.ContainsAny(r[1:i], "(.:=") {
					c.Props = strings.Fields(strings.ReplaceAll(r[1:i], ",", " "))
					r = strings.TrimSpace(r[i+1:])
				}
			}
			if i := strings.Index(r, ":"); i > 0 {
				nm := strings.TrimSpace(r[:i])
				ok := nm != ""
				for _, ch := range nm {
					if !(ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' || ch == '-' || ch == '_') {
						ok = false
					}
				}
				if ok {
					c.Name = nm
					r = strings.TrimSpace(r[i+1:])
				}
			}
			c.Src = r
			c.Expr = parseExpr(r, where)
			return c
		}
		switch head {
		case "define", "rec", "fun", "ghost", "ghostheap":
			// names are global: a second definition would silently change the contracts that use the first
			nm := strings.FieldsFunc(rest, func(r rune) bool { return r == '(' || r == ' ' })[0]
			if db.Macros[nm] != nil || db.Recs[nm] != nil || db.Funs[nm] != nil || db.Ghosts[nm] != nil {
				panic(fmt.Sprintf("%v: %s is defined twice", where, nm))
			}
		}
		switch head {
		case "package":
			cur = nil
		case "define":
			i := strings.Index(rest, "(")
			j := matchParen(rest, i)
			k := strings.Index(rest[j:], "=") + j
			m := &Macro{Name: strings.TrimSpace(rest[:i]), Params: parseParams(rest[i+1 : j])}
			m.Body = parseExpr(rest[k+1:], where)
			db.Macros[m.Name] = m
		case "rec":
			i := strings.Index(rest, "(")
			j := matchParen(rest, i)
			k := strings.Index(rest[j:], "=") + j
			m := &RecDef{Name: strings.TrimSpace(rest[:i]), Params: parseParams(rest[i+1 : j])}
			m.Res = parseExpr(strings.TrimSpace(rest[j+1:k]), where)
			m.Body = parseExpr(rest[k+1:], where)
			db.Recs[m.Name] = m
		case "fun":
			i := strings.Index(rest, "(")
			j := matchParen(rest, i)
			m := &FunDef{Name: strings.TrimSpace(rest[:i])}
			for _, p := range splitTop(rest[i+1:j], ",") {
				if strings.TrimSpace(p) != "" {
					m.Args = append(m.Args, parseExpr(strings.TrimSpace(p), where))
				}
			}
			m.Res = parseExpr(strings.TrimSpace(rest[j+1:]), where)
			db.Funs[m.Name] = m
		case "ghost", "ghostheap":
			f := strings.Fields(rest)
			db.Ghosts[f[0]] = &GhostDef{Name: f[0], Type: parseExpr(strings.Join(f[1:], " "), where), Heap: head == "ghostheap"}
		case "axiom":
			i := strings.Index(rest, "(")
			j := matchParen(rest, i)
			k := strings.Index(rest[j:], ":") + j
			a := &AxiomDef{Name: strings.TrimSpace(rest[:i]), Vars: parseTVars(rest[i+1:j], where), Src: rest[k+1:]}
			a.Expr = parseExpr(rest[k+1:], where)
			db.Axioms = append(db.Axioms, a)
		case "pure":
			for _, n := range strings.Fields(rest) {
				db.Pures[db.expandName(n)] = true
			}
		case "noeffect":
			for _, n := range strings.Fields(rest) {
				db.NoEff[db.expandName(n)] = true
			}
		case "func":
			// name(params) (results)
			i := 0
			if strings.HasPrefix(rest, "(") {
				i = matchParen(rest, 0) + 1
			}
			p := strings.Index(rest[i:], "(") + i
			q := matchParen(rest, p)
			cur = &FuncSpec{Key: db.expandName(strings.TrimSpace(rest[:p])), Params: parseParams(rest[p+1 : q]), File: where, Opts: map[string]string{}}
			r := strings.TrimSpace(rest[q+1:])
			if strings.HasPrefix(r, "(") {
				cur.Results = parseParams(r[1:matchParen(r, 0)])
			}
			if db.Funcs[cur.Key] != nil {
				panic(where + ": duplicate contract for " + cur.Key)
			}
			db.Funcs[cur.Key] = cur
			db.Order = append(db.Order, cur.Key)
		case "props":
			cur.Props = append(cur.Props, strings.Fields(rest)...)
		case "trusted":
			cur.Trusted = true
			cur.Reason = rest
		case "mode":
			cur.BV = rest == "bv"
		case "strings":
			cur.Str = true
		case "nopanic":
			cur.NoPanic = true
		case "nofatal":
			cur.Fatal = true
		case "noreturn":
			cur.NoReturn = true
		case "puref":
			cur.Pure = true
		case "inline":
			cur.Inline = true
		case "noauto":
			cur.NoAuto = true
		case "timeout":
			cur.Timeout, _ = strconv.Atoi(rest)
		case "opt":
			f := strings.Fields(rest)
			cur.Opts[f[0]] = strings.Join(f[1:], " ")
		case "requires":
			cur.Requires = append(cur.Requires, clause())
		case "determined":
			// a result that depends on the given arguments alone, named by an uninterpreted function: assumed at callers
			cur.Dets = append(cur.Dets, Clause{Name: "determined", Src: rest, Expr: parseExpr(rest, where)})
		case "ensures":
			cur.Ensures = append(cur.Ensures, clause())
		case "result":
			k := strings.Index(rest, "=")
			nm := strings.TrimSpace(rest[:k])
			e := strings.TrimSpace(rest[k+1:])
			cur.Ensures = append(cur.Ensures, Clause{Name: "result-" + nm, Src: rest, Expr: parseExpr(nm+" == ("+e+")", where)})
		case "modifies":
			cur.HasMod = true
			for _, m := range splitTop(rest, ",") {
				m = strings.TrimSpace(m)
				switch {
				case m == "nothing":
				case m == "*":
					cur.Mods = append(cur.Mods, ModClause{Kind: "all", Src: m})
				case strings.HasSuffix(m, "[*]"):
					cur.Mods = append(cur.Mods, ModClause{Kind: "map", Expr: parseExpr(m[:len(m)-3], where), Src: m})
				case strings.HasPrefix(m, "elems("):
					cur.Mods = append(cur.Mods, ModClause{Kind: "elems", Expr: parseExpr(m[6:len(m)-1], where), Src: m})
				case strings.HasPrefix(m, "anyelems("):
					cur.Mods = append(cur.Mods, ModClause{Kind: "anyelems", Expr: parseExpr(m[9:len(m)-1], where), Src: m})
				case strings.HasPrefix(m, "any("):
					s := m[4 : len(m)-1]
					k := strings.LastIndex(s, ".")
					cur.Mods = append(cur.Mods, ModClause{Kind: "any", Expr: parseExpr(s[:k], where), Sel: s[k+1:], Src: m})
				case strings.HasPrefix(m, "obj("):
					cur.Mods = append(cur.Mods, ModClause{Kind: "obj", Expr: parseExpr(m[4:len(m)-1], where), Src: m})
				case strings.HasPrefix(m, "anymap("):
					cur.Mods = append(cur.Mods, ModClause{Kind: "anymap", Expr: parseExpr(m[7:len(m)-1], where), Src: m})
				case strings.HasPrefix(m, "ghost "):
					r := strings.TrimSpace(m[6:])
					if i := strings.Index(r, "("); i > 0 {
						cur.Mods = append(cur.Mods, ModClause{Kind: "ghostat", Sel: r[:i], Expr: parseExpr(r[i+1:len(r)-1], where), Src: m})
					} else {
						cur.Mods = append(cur.Mods, ModClause{Kind: "ghost", Sel: r, Src: m})
					}
				default:
					x := parseExpr(m, where)
					se, ok := x.(*ast.SelectorExpr)
					if !ok {
						panic(where + ": bad modifies " + m)
					}
					cur.Mods = append(cur.Mods, ModClause{Kind: "field", Expr: se.X, Sel: se.Sel.Name, Src: m})
				}
			}
		case "sets":
			// ghost assignment on return
			k := strings.Index(rest, "=")
			nm, val := strings.TrimSpace(rest[:k]), parseExpr(strings.TrimSpace(rest[k+1:]), where)
			m := ModClause{Kind: "ghost", Sel: nm, Src: "ghost " + nm}
			if i := strings.Index(nm, "("); i > 0 {
				m = ModClause{Kind: "ghostat", Sel: nm[:i], Expr: parseExpr(nm[i+1:len(nm)-1], where), Src: "ghost " + nm}
			}
			cur.Mods = append(cur.Mods, m)
			cur.Sets = append(cur.Sets, SetClause{Mod: m, Val: val})
		case "iterates":
			// iterates CALLBACK(arg, ...) count EXPR: the function calls the callback with these arguments, in terms of the
			// number of earlier calls ("calls"), that many times, and does nothing else
			k := strings.Index(rest, " count ")
			call := parseExpr(rest[:k], where).(*ast.CallExpr)
			cur.Iter = &IterClause{Fn: call.Fun.(*ast.Ident).Name, Args: call.Args, Count: parseExpr(rest[k+7:], where)}
		case "iterinv":
			cur.IterInv = append(cur.IterInv, clause())
		case "invariant":
			t := Template{Src: rest}
			r := rest
			if strings.HasPrefix(r, "[") {
				d := 0
				j := 0
				for j = range r {
					if r[j] == '[' {
						d++
					} else if r[j] == ']' {
						d--
						if d == 0 {
							break
						}
					}
				}
				t.Vars = parseTVars(r[1:j], where)
				r = r[j+1:]
			}
			t.Expr = parseExpr(r, where)
			cur.Inv = append(cur.Inv, t)
		default:
			panic(where + ": unknown directive " + head)
		}
	}
}
func matchParen(s string, i int) int {
	d := 0
	for j := i; j < len(s); j++ {
		if s[j] == '(' {
			d++
		} else if s[j] == ')' {
			d--
			if d == 0 {
				return j
			}
		}
	}
	panic("unbalanced parenthesis in " + s)
}

// ---------- evaluation ----------

type Prog struct {
	ssa     *ssa.Program
	pkgs    []*packages.Package
	ssaPkgs []*ssa.Package
	byPath  map[string]*types.Package
	db      *SpecDB
	repoPkg map[string]bool
	funcs   map[string]*ssa.Function
	named   []types.Type // all concrete named types of the repository
	fset    *token.FileSet
}

type SEnv struct {
	e     *Engine
	st    *State
	old   *State
	ent   *State
	vars  map[string]Value
	entv  map[string]Value
	depth int
	ql    int    // quantifier nesting level (canonical bound names)
	self  string // rec placeholder
	selfT types.Type
}

func (s *SEnv) with(n string, v Value) *SEnv {
	n2 := *s
	n2.vars = map[string]Value{}
	for k, x := range s.vars {
		n2.vars[k] = x
	}
	n2.vars[n] = v
	return &n2
}

type specErr struct{ msg string }

func serr(f string, a ...interface{}) specErr { return specErr{fmt.Sprintf(f, a...)} }

func (p *Prog) resolveType(x ast.Expr) types.Type {
	switch u := x.(type) {
	case *ast.Ident:
		switch u.Name {
		case "error":
			return types.Universe.Lookup("error").Type()
		case "any":
			return types.Universe.Lookup("any").Type()
		}
		for _, b := range types.Typ {
			if b.Name() == u.Name {
				return b
			}
		}
		if u.Name == "byte" {
			return types.Typ[types.Uint8]
		}
		if u.Name == "rune" {
			return types.Typ[types.Int32]
		}
		if u.Name == "ref" {
			return types.Typ[types.UnsafePointer]
		}
	case *ast.StarExpr:
		return types.NewPointer(p.resolveType(u.X))
	case *ast.ParenExpr:
		return p.resolveType(u.X)
	case *ast.ArrayType:
		if u.Len == nil {
			return types.NewSlice(p.resolveType(u.Elt))
		}
		n, _ := strconv.Atoi(u.Len.(*ast.BasicLit).Value)
		return types.NewArray(p.resolveType(u.Elt), int64(n))
	case *ast.MapType:
		return types.NewMap(p.resolveType(u.Key), p.resolveType(u.Value))
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	case *ast.StructType:
		return types.NewStruct(nil, nil)
	case *ast.SelectorExpr:
		id, ok := u.X.(*ast.Ident)
		if ok {
			if tp := p.pkgOf(id.Name); tp != nil {
				o := tp.Scope().Lookup(u.Sel.Name)
				if tn, ok := o.(*types.TypeName); ok {
					return tn.Type()
				}
				panic(serr("no type %s.%s", id.Name, u.Sel.Name))
			}
		}
	}
	panic(serr("cannot resolve type %s", exprStr(x)))
}
func (p *Prog) pkgOf(alias string) *types.Package {
	if path, ok := p.db.Alias[alias]; ok {
		if tp := p.byPath[path]; tp != nil {
			return tp
		}
		panic(serr("package %s (%s) is not loaded", alias, path))
	}
	return nil
}

func exprStr(x ast.Expr) string { return strings.ReplaceAll(types.ExprString(x), "ǂ", "$") }

func (s *SEnv) evalBool(x ast.Expr) *Term {
	v := s.eval(x)
	if len(v.C) != 1 || v.C[0].sort != SBool {
		panic(serr("not boolean: %s", exprStr(x)))
	}
	return v.C[0]
}

func untyped(v *big.Int) Value {
	return Value{T: types.Typ[types.UntypedInt], C: nil, Iter: v.String()}
}
func isUntyped(v Value) bool {
	b, ok := v.T.(*types.Basic)
	return ok && b.Kind() == types.UntypedInt && v.C == nil
}
func (s *SEnv) conc(v Value, t types.Type) Value {
	if !isUntyped(v) {
		return v
	}
	n, _ := new(big.Int).SetString(v.Iter, 10)
	if t == nil || !isInteger(t) {
		t = types.Typ[types.Int]
	}
	if s.e.bv {
		return Value{T: t, C: []*Term{s.e.constInt(n, t)}}
	}
	return Value{T: t, C: []*Term{s.e.c.IntB(n)}}
}
func (s *SEnv) evalInt(x ast.Expr) *Term {
	v := s.conc(s.eval(x), types.Typ[types.Int])
	if len(v.C) != 1 {
		panic(serr("not an integer: %s", exprStr(x)))
	}
	if s.e.bv && isBV(v.C[0].sort) && bvWidth(v.C[0].sort) != 64 {
		return s.e.convInt(v.C[0], v.T, types.Typ[types.Int])
	}
	return v.C[0]
}

func (s *SEnv) constVal(o *types.Const) Value {
	switch o.Val().Kind() {
	case constant.Int:
		n, _ := new(big.Int).SetString(o.Val().ExactString(), 10)
		if b, ok := o.Type().Underlying().(*types.Basic); ok && b.Kind() != types.UntypedInt && b.Kind() != types.UntypedRune {
			return Value{T: o.Type(), C: []*Term{s.e.constInt(n, o.Type())}}
		}
		return untyped(n)
	case constant.String:
		return s.e.strV(s.e.strLit(constant.StringVal(o.Val())))
	case constant.Bool:
		return s.e.boolV(s.e.c.Bool(constant.BoolVal(o.Val())))
	}
	panic(serr("constant %s", o.Name()))
}

func (e *Engine) globalLoc(o *types.Var) *Loc {
	return &Loc{Kind: 'G', ID: o.Pkg().Path() + "." + o.Name(), Root: o.Type(), T: o.Type()}
}

func (s *SEnv) selectField(v Value, name string) Value {
	e := s.e
	t := v.T
	ptr := false
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		ptr = true
	}
	obj, path, _ := types.LookupFieldOrMethod(t, true, nil, name)
	if obj == nil {
		// unexported: look up by package
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					path = []int{i}
					obj = st.Field(i)
				}
			}
		}
	}
	if _, ok := obj.(*types.Var); !ok {
		panic(serr("no field %s in %s", name, typeStr(t)))
	}
	for _, i := range path {
		if p, ok := t.Underlying().(*types.Pointer); ok && !ptr {
			t = p.Elem()
			ptr = true
		}
		ft := t.Underlying().(*types.Struct).Field(i).Type()
		if typeStr(t) == "sync/atomic.Bool" {
			ft = types.Typ[types.Bool] // held as a truth value
		}
		if ptr {
			l := e.fieldLoc(e.deref(v), t, i)
			l.T = ft
			v = e.load(s.st, l)
			e.entryLoadFacts(v)
			ptr = false
		} else {
			lo, n := e.fieldRange(t, i)
			v = Value{T: ft, C: v.C[lo : lo+n]}
		}
		t = ft
	}
	return v
}

// entryLoadFacts: what is stored in the heap at entry is well-formed (references are allocated, lengths fit).
func (e *Engine) entryLoadFacts(v Value) {
	if v.Loc != nil || v.Fn != nil || v.Tup != nil || len(v.C) == 0 {
		return
	}
	for _, t := range v.C {
		if t.op != "select" {
			return
		}
		b := t
		for b.op == "select" {
			b = b.args[0]
		}
		if t.free || len(b.args) > 0 || !strings.HasSuffix(strings.Trim(b.op, "|"), "@0") {
			return
		}
	}
	if len(e.flat(v.T)) != len(v.C) {
		return
	}
	for _, f := range e.typeFacts(v, nil) {
		e.addAxiom(f, f)
	}
	// what an object holds existed at entry only if the object did
	b := v.C[0]
	for b.args[0].op == "select" {
		b = b.args[0]
	}
	g := e.c.Le(b.args[1], e.top0)
	for _, f := range e.typeFacts(v, e.top0) {
		f = e.c.Imp(g, f)
		e.addAxiom(f, f)
	}
}

// mapLoadFacts: the same for a value read out of a map ("opt mapentry no" leaves them out).
func (e *Engine) mapLoadFacts(v Value) {
	if e.unit.Opts["mapentry"] != "no" {
		e.entryLoadFacts(v)
	}
}

func (s *SEnv) index(v Value, ix Value) Value {
	e := s.e
	switch u := v.T.Underlying().(type) {
	case *types.Slice:
		i := s.conc(ix, types.Typ[types.Int]).C[0]
		if v.Row != nil {
			out := Value{T: u.Elem()}
			for _, r := range v.Row {
				out.C = append(out.C, e.c.Select(r, e.c.Add(v.C[1], i)))
			}
			return out
		}
		x := e.load(s.st, &Loc{Kind: 'E', Ref: v.C[0], Idx: e.c.Add(v.C[1], i), Root: u.Elem(), T: u.Elem()})
		e.entryLoadFacts(x)
		return x
	case *types.Map:
		k := s.conc(ix, u.Key())
		val := e.mapVal(s.st, u, v.C[0], k.C[0])
		e.mapLoadFacts(val)
		dom := e.c.And(e.c.Not(e.c.Eq(v.C[0], e.c.Int(0))), e.c.Select(e.mapDom(s.st, u, v.C[0]), k.C[0]))
		z := e.zero(u.Elem())
		for j := range val.C {
			val.C[j] = e.c.Ite(dom, val.C[j], z.C[j])
		}
		return val
	case *types.Array:
		i := s.conc(ix, types.Typ[types.Int]).C[0]
		out := Value{T: u.Elem()}
		for _, t := range v.C {
			out.C = append(out.C, e.c.Select(t, i))
		}
		return out
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			i := s.conc(ix, types.Typ[types.Int]).C[0]
			return Value{T: types.Typ[types.Uint8], C: []*Term{e.strAt(v.C[0], i)}}
		}
	}
	panic(serr("cannot index %s", typeStr(v.T)))
}

func (s *SEnv) length(v Value) *Term {
	e := s.e
	switch u := v.T.Underlying().(type) {
	case *types.Slice:
		return v.C[2]
	case *types.Map:
		return e.c.Ite(e.c.Eq(v.C[0], e.c.Int(0)), e.idx(0), e.mapLen(s.st, u, v.C[0]))
	case *types.Array:
		return e.idx(u.Len())
	case *types.Basic:
		return e.strLen(v.C[0])
	}
	panic(serr("len of %s", typeStr(v.T)))
}

func (s *SEnv) eval(x ast.Expr) Value {
	e := s.e
	c := e.c
	s.depth++
	if s.depth > 400 {
		panic(serr("specification recursion too deep"))
	}
	defer func() { s.depth-- }()
	switch u := x.(type) {
	case *ast.ParenExpr:
		return s.eval(u.X)
	case *ast.BasicLit:
		switch u.Kind {
		case token.INT:
			n, ok := new(big.Int).SetString(u.Value, 0)
			if !ok {
				panic(serr("bad integer %s", u.Value))
			}
			return untyped(n)
		case token.CHAR:
			r, _, _, _ := strconv.UnquoteChar(u.Value[1:len(u.Value)-1], '\'')
			return untyped(big.NewInt(int64(r)))
		case token.STRING:
			q, err := strconv.Unquote(u.Value)
			if err != nil {
				panic(serr("bad string %s", u.Value))
			}
			return e.strV(e.strLit(q))
		}
	case *ast.Ident:
		switch u.Name {
		case "true":
			return e.boolV(c.Bool(true))
		case "false":
			return e.boolV(c.Bool(false))
		case "nil":
			return Value{T: types.Typ[types.UntypedNil], C: []*Term{c.Int(0)}}
		}
		if v, ok := s.vars[u.Name]; ok {
			return v
		}
		if g, ok := e.p.db.Ghosts[u.Name]; ok && !g.Heap {
			t := e.p.resolveType(g.Type)
			cs := e.flat(t)
			v := Value{T: t}
			for _, k := range cs {
				key := "X|" + g.Name + "|" + k.Name
				v.C = append(v.C, e.get(s.st, key, k.Sort))
			}
			return v
		}
		if m, ok := e.p.db.Macros[u.Name]; ok && len(m.Params) == 0 {
			n2 := *s
			n2.vars = map[string]Value{}
			return n2.eval(m.Body)
		}
		panic(serr("unknown name %s", strings.ReplaceAll(u.Name, "ǂ", "$")))
	case *ast.SelectorExpr:
		if id, ok := u.X.(*ast.Ident); ok {
			if _, isVar := s.vars[id.Name]; !isVar {
				if tp := e.p.pkgOf(id.Name); tp != nil {
					switch o := tp.Scope().Lookup(u.Sel.Name).(type) {
					case *types.Const:
						return s.constVal(o)
					case *types.Var:
						return e.load(s.st, e.globalLoc(o))
					}
					panic(serr("unknown %s.%s", id.Name, u.Sel.Name))
				}
			}
		}
		return s.selectField(s.eval(u.X), u.Sel.Name)
	case *ast.StarExpr:
		v := s.eval(u.X)
		return e.load(s.st, e.deref(v))
	case *ast.TypeAssertExpr:
		v := s.eval(u.X)
		return e.unbox(s.st, v, e.p.resolveType(u.Type))
	case *ast.IndexExpr:
		return s.index(s.eval(u.X), s.eval(u.Index))
	case *ast.SliceExpr:
		v := s.eval(u.X)
		var lo, hi *Term
		if u.Low != nil {
			lo = s.evalInt(u.Low)
		} else {
			lo = e.idx(0)
		}
		if u.High != nil {
			hi = s.evalInt(u.High)
		} else {
			hi = s.length(v)
		}
		if isString(v.T) {
			return e.strV(e.strSub(v.C[0], lo, hi))
		}
		return Value{T: v.T, Row: v.Row, C: []*Term{v.C[0], c.Add(v.C[1], lo), c.Sub(hi, lo), c.Sub(v.C[3], lo)}}
	case *ast.UnaryExpr:
		switch u.Op {
		case token.NOT:
			return e.boolV(c.Not(s.evalBool(u.X)))
		case token.SUB:
			v := s.eval(u.X)
			if isUntyped(v) {
				n, _ := new(big.Int).SetString(v.Iter, 10)
				return untyped(n.Neg(n))
			}
			return Value{T: v.T, C: []*Term{c.Sub(e.zeroSort(v.C[0].sort), v.C[0])}}
		}
	case *ast.BinaryExpr:
		return s.binary(u)
	case *ast.CallExpr:
		return s.call(u)
	}
	panic(serr("unsupported specification expression %s", exprStr(x)))
}

func (s *SEnv) binary(u *ast.BinaryExpr) Value {
	e := s.e
	c := e.c
	switch u.Op {
	case token.LAND:
		a := s.evalBool(u.X)
		if a.isFalse() {
			return e.boolV(a)
		}
		return e.boolV(c.And(a, s.evalBool(u.Y)))
	case token.LOR:
		a := s.evalBool(u.X)
		if a.isTrue() {
			return e.boolV(a)
		}
		return e.boolV(c.Or(a, s.evalBool(u.Y)))
	}
	x, y := s.eval(u.X), s.eval(u.Y)
	if isUntyped(x) && isUntyped(y) {
		x = s.conc(x, types.Typ[types.Int])
		y = s.conc(y, types.Typ[types.Int])
	} else if isUntyped(x) {
		x = s.conc(x, y.T)
	} else if isUntyped(y) {
		y = s.conc(y, x.T)
	}
	switch u.Op {
	case token.EQL, token.NEQ:
		var t *Term
		if len(x.C) == 1 && len(y.C) == 1 && x.C[0].sort == y.C[0].sort && !isIface(x.T) {
			t = c.Eq(x.C[0], y.C[0])
		} else if isIface(x.T) && isIface(y.T) {
			t = c.Eq(x.C[0], y.C[0])
		} else if len(x.C) == 1 && len(y.C) == 1 && x.C[0].sort == y.C[0].sort {
			t = c.Eq(x.C[0], y.C[0])
		} else if _, ok := y.T.(*types.Basic); ok && y.T.(*types.Basic).Kind() == types.UntypedNil {
			t = c.Eq(x.C[0], c.Int(0))
		} else if len(x.C) == len(y.C) {
			var cs []*Term
			for i := range x.C {
				cs = append(cs, c.Eq(x.C[i], y.C[i]))
			}
			t = c.And(cs...)
		} else {
			panic(serr("cannot compare %s (%s) and %s (%s)", exprStr(u.X), typeStr(x.T), exprStr(u.Y), typeStr(y.T)))
		}
		if u.Op == token.NEQ {
			t = c.Not(t)
		}
		return e.boolV(t)
	}
	if isString(x.T) {
		return e.binop(u.Op, x, y, x.T)
	}
	if e.bv {
		if x.C[0].sort != y.C[0].sort {
			panic(serr("bit-width mismatch in %s", exprStr(u)))
		}
		r := e.binop(u.Op, x, y, x.T)
		if r.C[0].sort == SBool {
			r.T = types.Typ[types.Bool]
		}
		return r
	}
	a, b := x.C[0], y.C[0]
	switch u.Op {
	case token.LSS:
		return e.boolV(c.Lt(a, b))
	case token.LEQ:
		return e.boolV(c.Le(a, b))
	case token.GTR:
		return e.boolV(c.Lt(b, a))
	case token.GEQ:
		return e.boolV(c.Le(b, a))
	case token.ADD:
		return e.intV(c.Add(a, b))
	case token.SUB:
		return e.intV(c.Sub(a, b))
	case token.MUL:
		return e.intV(c.Mul(a, b))
	case token.QUO:
		return e.intV(c.mk("div", SInt, a, b))
	case token.REM:
		return e.intV(c.mk("mod", SInt, a, b))
	}
	r := e.binop(u.Op, x, y, x.T)
	return r
}

// quantified variables of Go type t
func (s *SEnv) bvarOf(name string, t types.Type) (Value, []*Term) {
	v := Value{T: t}
	for _, k := range s.e.flat(t) {
		t := s.e.c.mk(quoteSym(fmt.Sprintf("q.%s%s.%d.%s", strings.ReplaceAll(name, "ǂ", "_"), k.Name, s.ql, strings.Trim(string(k.Sort), "()"))), k.Sort)
		t.free = true
		v.C = append(v.C, t)
	}
	return v, v.C
}

func (s *SEnv) call(u *ast.CallExpr) Value {
	e := s.e
	c := e.c
	name := ""
	switch f := u.Fun.(type) {
	case *ast.Ident:
		name = f.Name
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			if _, isVar := s.vars[id.Name]; !isVar {
				if tp := e.p.pkgOf(id.Name); tp != nil {
					if tn, ok := tp.Scope().Lookup(f.Sel.Name).(*types.TypeName); ok {
						v := s.eval(u.Args[0])
						if isUntyped(v) {
							return s.conc(v, tn.Type())
						}
						return Value{T: tn.Type(), C: v.C}
					}
					var args []Value
					for _, a := range u.Args {
						args = append(args, s.eval(a))
					}
					fo, ok := tp.Scope().Lookup(f.Sel.Name).(*types.Func)
					if !ok {
						panic(serr("no function %s", exprStr(u.Fun)))
					}
					return s.pureCall(fo, args)
				}
			}
		}
		// method call: pure functions only
		recv := s.eval(f.X)
		var args []Value
		for _, a := range u.Args {
			args = append(args, s.eval(a))
		}
		obj, _, _ := types.LookupFieldOrMethod(recv.T, true, nil, f.Sel.Name)
		fo, ok := obj.(*types.Func)
		if !ok {
			panic(serr("no method %s on %s", f.Sel.Name, typeStr(recv.T)))
		}
		return s.pureCall(fo, append([]Value{recv}, args...))
	default:
		// conversion like []byte(x): unsupported
		panic(serr("call of %s", exprStr(u.Fun)))
	}
	quant := func(q string) Value {
		// forall(i, lo, hi, body)
		id := u.Args[0].(*ast.Ident).Name
		lo, hi := s.evalInt(u.Args[1]), s.evalInt(u.Args[2])
		v, bs := s.bvarOf(id, types.Typ[types.Int])
		sq := s.with(id, v)
		sq.ql++
		body := sq.evalBool(u.Args[3])
		rng := c.And(c.Le(lo, bs[0]), c.Lt(bs[0], hi))
		var pats [][]*Term
		if len(u.Args) > 4 {
			var p []*Term
			for _, a := range u.Args[4:] {
				pv := sq.eval(a)
				p = append(p, pv.C...)
			}
			pats = append(pats, p)
		}
		if len(pats) == 0 {
			if nb, off, m := e.absIdx(bs[0], body); nb != nil {
				body = c.Subst(body, m, nil)
				bs = []*Term{nb}
				rng = c.And(c.Le(c.Add(lo, off), nb), c.Lt(nb, c.Add(hi, off)))
			}
		}
		if q == "forall" {
			return e.boolV(c.Forall(bs, pats, c.Imp(rng, body)))
		}
		return e.boolV(c.Exists(bs, c.And(rng, body)))
	}
	switch name {
	case "imp":
		a := s.evalBool(u.Args[0])
		if a.isFalse() {
			return e.boolV(c.Bool(true))
		}
		return e.boolV(c.Imp(a, s.evalBool(u.Args[1])))
	case "iff":
		return e.boolV(c.Eq(s.evalBool(u.Args[0]), s.evalBool(u.Args[1])))
	case "ite":
		g := s.evalBool(u.Args[0])
		if g.isTrue() {
			return s.eval(u.Args[1])
		}
		if g.isFalse() {
			return s.eval(u.Args[2])
		}
		a, b := s.eval(u.Args[1]), s.eval(u.Args[2])
		if isUntyped(a) && isUntyped(b) {
			a, b = s.conc(a, nil), s.conc(b, nil)
		} else if isUntyped(a) {
			a = s.conc(a, b.T)
		} else if isUntyped(b) {
			b = s.conc(b, a.T)
		}
		out := Value{T: a.T}
		for i := range a.C {
			out.C = append(out.C, c.Ite(g, a.C[i], b.C[i]))
		}
		return out
	case "old":
		n2 := *s
		n2.st = s.old
		return n2.eval(u.Args[0])
	case "entry":
		n2 := *s
		if s.ent != nil {
			n2.st = s.ent
		}
		if s.entv != nil {
			n2.vars = s.entv
		}
		return n2.eval(u.Args[0])
	case "now": // evaluate in the state of the enclosing clause (inside old)
		return s.eval(u.Args[0])
	case "forall", "exists":
		return quant(name)
	case "forallof", "existsof":
		id := u.Args[0].(*ast.Ident).Name
		v, bs := s.bvarOf(id, e.p.resolveType(u.Args[1]))
		sq := s.with(id, v)
		sq.ql++
		body := sq.evalBool(u.Args[2])
		var pats [][]*Term
		if len(u.Args) > 3 {
			var p []*Term
			for _, a := range u.Args[3:] {
				p = append(p, sq.eval(a).C...)
			}
			pats = append(pats, p)
		}
		if name == "forallof" {
			return e.boolV(c.Forall(bs, pats, body))
		}
		return e.boolV(c.Exists(bs, body))
	case "len":
		return e.intV(s.length(s.eval(u.Args[0])))
	case "cap":
		return e.intV(s.eval(u.Args[0]).C[3])
	case "in":
		m := s.eval(u.Args[1])
		mt, ok := m.T.Underlying().(*types.Map)
		if !ok {
			panic(serr("in: not a map: %s", exprStr(u.Args[1])))
		}
		k := s.conc(s.eval(u.Args[0]), mt.Key())
		return e.boolV(c.And(c.Not(c.Eq(m.C[0], c.Int(0))), c.Select(e.mapDom(s.st, mt, m.C[0]), k.C[0])))
	case "sameKeys": // two maps have the same keys; brings in how that relates to their sizes
		a, b := s.eval(u.Args[0]), s.eval(u.Args[1])
		mt, ok := a.T.Underlying().(*types.Map)
		if !ok {
			panic(serr("sameKeys: not a map: %s", exprStr(u.Args[0])))
		}
		da, db := e.mapDom(s.st, mt, a.C[0]), e.mapDom(s.st, mt, b.C[0])
		_, _, _, ks, _ := e.mapKeys(mt)
		k := c.mk("q.sk."+strings.Trim(string(ks), "()"), ks)
		k.free = true
		nn := func(m Value) *Term { return c.Not(c.Eq(m.C[0], c.Int(0))) }
		ina, inb := c.And(nn(a), c.Select(da, k)), c.And(nn(b), c.Select(db, k))
		ab, ba := c.Forall([]*Term{k}, nil, c.Imp(ina, inb)), c.Forall([]*Term{k}, nil, c.Imp(inb, ina))
		if !a.C[0].free && !b.C[0].free {
			la := c.Ite(nn(a), e.mapLen(s.st, mt, a.C[0]), e.idx(0))
			lb := c.Ite(nn(b), e.mapLen(s.st, mt, b.C[0]), e.idx(0))
			e.fact(c.Bool(true), c.And(c.Imp(ab, c.Le(la, lb)), c.Imp(ba, c.Le(lb, la)),
				c.Imp(c.And(ab, c.Eq(la, lb)), ba), c.Imp(c.And(ba, c.Eq(la, lb)), ab)))
		}
		return e.boolV(c.And(ab, ba))
	case "is":
		v := s.eval(u.Args[0])
		t := e.p.resolveType(u.Args[1])
		return e.boolV(c.And(c.Not(c.Eq(v.C[0], c.Int(0))), c.Eq(e.typeof(v.C[0]), e.typeID(t))))
	case "as":
		return e.unbox(s.st, s.eval(u.Args[0]), e.p.resolveType(u.Args[1]))
	case "bytes":
		v := s.conc(s.eval(u.Args[0]), types.Typ[types.String])
		n := e.strLen(v.C[0])
		return Value{T: types.NewSlice(types.Typ[types.Uint8]), C: []*Term{e.c.Int(1), e.idx(0), n, n}, Str: v.C[0]}
	case "str", "string":
		v := s.eval(u.Args[0])
		if isString(v.T) {
			return e.strV(v.C[0])
		}
		if a, ok := v.T.Underlying().(*types.Array); ok {
			return e.strV(e.strOf(v.C[0], e.idx(0), e.idx(a.Len())))
		}
		return e.strV(e.bytesView(s.st, v))
	case "int", "uint8", "byte", "uint16", "uint32", "uint64", "int64", "uint", "int32":
		t := e.p.resolveType(u.Fun)
		v := s.eval(u.Args[0])
		if isUntyped(v) {
			return s.conc(v, t)
		}
		return Value{T: t, C: []*Term{e.convInt(v.C[0], v.T, t)}}
	case "ref":
		v := s.eval(u.Args[0])
		return Value{T: types.Typ[types.UnsafePointer], C: []*Term{v.C[0]}}
	case "off":
		v := s.eval(u.Args[0])
		return e.intV(v.C[1])
	case "row": // the backing array of a slice, as a value to compare
		v := s.eval(u.Args[0])
		sl := v.T.Underlying().(*types.Slice)
		l := &Loc{Kind: 'A', Ref: v.C[0], Root: types.NewArray(sl.Elem(), 1), T: types.NewArray(sl.Elem(), 1)}
		return e.load(s.st, l)
	case "fresh": // not allocated at entry
		v := s.eval(u.Args[0])
		return e.boolV(c.Lt(e.get(s.old, "top", SInt), v.C[0]))
	case "allocated":
		v := s.eval(u.Args[0])
		return e.boolV(c.Le(v.C[0], e.get(s.st, "top", SInt)))
	case "visited":
		// visited(k): some enclosing map iteration has produced k; handled through templates
		v, ok := s.vars["ǂvisited"]
		if !ok {
			panic(serr("visited outside a map iteration"))
		}
		return e.boolV(c.Select(v.C[0], s.eval(u.Args[0]).C[0]))
	case "res0", "res1", "res2", "res3":
		v := s.eval(u.Args[0])
		i := int(name[3] - '0')
		if v.Tup == nil || i >= len(v.Tup) {
			panic(serr("%s of %s", name, exprStr(u.Args[0])))
		}
		return v.Tup[i]
	case "typed": // typed(x, T): reinterpret a component list
		v := s.eval(u.Args[0])
		return Value{T: e.p.resolveType(u.Args[1]), C: v.C}
	}
	if s.self != "" && name == s.self {
		k := s.evalInt(u.Args[len(u.Args)-1])
		t := s.selfT
		return Value{T: t, C: []*Term{c.App("self!"+name, e.flat(t)[0].Sort, k)}}
	}
	if m, ok := e.p.db.Macros[name]; ok {
		if len(m.Params) != len(u.Args) {
			panic(serr("macro %s: %d arguments", name, len(u.Args)))
		}
		n2 := *s
		n2.vars = map[string]Value{}
		if v, ok := s.vars["ǂvisited"]; ok {
			n2.vars["ǂvisited"] = v
		}
		for i, p := range m.Params {
			n2.vars[p] = s.eval(u.Args[i])
		}
		n2.depth = s.depth
		return n2.eval(m.Body)
	}
	if r, ok := e.p.db.Recs[name]; ok {
		return s.recCall(r, u)
	}
	if f, ok := e.p.db.Funs[name]; ok {
		var args []*Term
		for i, a := range u.Args {
			v := s.eval(a)
			if i < len(f.Args) {
				v = s.conc(v, e.p.resolveType(f.Args[i]))
			}
			args = append(args, v.C...)
		}
		t := e.p.resolveType(f.Res)
		out := Value{T: t}
		for _, k := range e.flat(t) {
			tm := c.App("fn."+name+k.Name, k.Sort, args...)
			out.C = append(out.C, tm)
		}
		return out
	}
	if g, ok := e.p.db.Ghosts[name]; ok && g.Heap {
		v := s.eval(u.Args[0])
		t := e.p.resolveType(g.Type)
		out := Value{T: t}
		for _, k := range e.flat(t) {
			h := e.get(s.st, "X|"+name+"|"+k.Name, ArrSort(SInt, k.Sort))
			e.keySort["X|"+name+"|"+k.Name] = ArrSort(SInt, k.Sort)
			out.C = append(out.C, c.Select(h, v.C[0]))
		}
		return out
	}
	panic(serr("unknown function %s in specification", name))
}

// recCall: ground-unfolded recursive functions. The parameters are passed by value (a slice together with its
// backing array), so that equal contents give equal results; an instance is identified by the body it expands to.
func (s *SEnv) recCall(r *RecDef, u *ast.CallExpr) Value {
	e := s.e
	c := e.c
	if len(u.Args) != len(r.Params) {
		panic(serr("%s takes %d arguments", r.Name, len(r.Params)))
	}
	t := e.p.resolveType(r.Res)
	n2 := *s
	n2.vars = map[string]Value{}
	var args, ph []*Term
	for i, p := range r.Params[:len(r.Params)-1] {
		v := s.eval(u.Args[i])
		if isUntyped(v) {
			v = s.conc(v, types.Typ[types.Int])
		}
		row := v.Row
		if sl, ok := v.T.Underlying().(*types.Slice); ok && row == nil {
			l := &Loc{Kind: 'A', Ref: v.C[0], Root: types.NewArray(sl.Elem(), 1), T: types.NewArray(sl.Elem(), 1)}
			row = e.load(s.st, l).C
		}
		pv := Value{T: v.T}
		mkph := func(x *Term, k string) *Term {
			q := c.mk(quoteSym(fmt.Sprintf("rp!%s!%s!%s", r.Name, p, k)), x.sort)
			q.free = true
			args = append(args, x)
			ph = append(ph, q)
			return q
		}
		for j, x := range v.C {
			pv.C = append(pv.C, mkph(x, fmt.Sprint(j)))
		}
		for j, x := range row {
			pv.Row = append(pv.Row, mkph(x, fmt.Sprintf("row%d", j)))
		}
		n2.vars[p] = pv
	}
	kp := r.Params[len(r.Params)-1]
	ks := e.idxSort()
	if i := strings.Index(kp, ":"); i > 0 {
		ks = e.flat(e.p.resolveType(parseExpr(kp[i+1:], r.Name)))[0].Sort
	}
	kt := c.mk("rk!"+r.Name, ks)
	kt.free = true
	ph = append(ph, kt)
	if i := strings.Index(kp, ":"); i > 0 { // a reference-typed induction parameter
		n2.vars[kp[:i]] = Value{T: e.p.resolveType(parseExpr(kp[i+1:], r.Name)), C: []*Term{kt}}
	} else {
		n2.vars[kp] = e.intV(kt)
	}
	n2.self = r.Name
	n2.selfT = t
	if e.recQL == nil {
		e.recQL = map[string]int{}
	}
	if e.recQL[r.Name] == 0 {
		e.recQL[r.Name] = 1000 * (1 + len(e.recQL))
	}
	n2.ql = e.recQL[r.Name] // bound variables of the body are named independently of where it is used
	bv := n2.eval(r.Body)
	bv = n2.conc(bv, t)
	body := bv.C[0]
	// parts of the arguments the body does not look at (such as a slice's capacity) do not matter
	if ri, ok := e.recUsed[body.id]; ok {
		args = pick(args, ri)
		ph = append(pick(ph[:len(ph)-1], ri), kt)
	} else {
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			for _, a := range t.args {
				walk(a)
			}
			for _, p := range t.pats {
				for _, a := range p {
					walk(a)
				}
			}
		}
		walk(body)
		var used []bool
		for _, p := range ph[:len(ph)-1] {
			used = append(used, seen[p])
		}
		if e.recUsed == nil {
			e.recUsed = map[int][]bool{}
		}
		e.recUsed[body.id] = used
		args = pick(args, used)
		ph = append(pick(ph[:len(ph)-1], used), kt)
	}
	key := fmt.Sprintf("%s#%d", r.Name, body.id)
	ri, ok := e.recs[key]
	if !ok {
		ri = &recInst{base: r.Name, name: quoteSym(fmt.Sprintf("rec.%s.%d", r.Name, len(e.recs))), body: body, ph: ph, self: quoteSym("self!" + r.Name), sort: e.flat(t)[0].Sort, done: map[*Term]bool{}}
		e.recs[key] = ri
		if e.recByOp == nil {
			e.recByOp = map[string]*recInst{}
		}
		e.recByOp[ri.name] = ri
	}
	args = append(args, s.evalInt(u.Args[len(u.Args)-1]))
	return Value{T: t, C: []*Term{e.recApp(ri, args, 1)}}
}

func pick(ts []*Term, used []bool) []*Term {
	var out []*Term
	for i, t := range ts {
		if used[i] {
			out = append(out, t)
		}
	}
	return out
}

type recInst struct {
	base   string
	name   string
	body   *Term
	ph     []*Term
	self   string
	sort   Sort
	done   map[*Term]bool
	ranged bool
}

// recRange states the bounds of a recursive function whose body only ever returns integer constants.
func (e *Engine) recRange(ri *recInst, args []*Term) {
	c := e.c
	var lo, hi *big.Int
	ok := true
	var walk func(t *Term)
	walk = func(t *Term) {
		switch {
		case t.op == "ite":
			walk(t.args[1])
			walk(t.args[2])
		case t.op == ri.self:
		case t.val != nil:
			if lo == nil || t.val.Cmp(lo) < 0 {
				lo = t.val
			}
			if hi == nil || t.val.Cmp(hi) > 0 {
				hi = t.val
			}
		default:
			ok = false
		}
	}
	walk(ri.body)
	if !ok || lo == nil || ri.sort != SInt {
		return
	}
	var vs []*Term
	for _, a := range args {
		vs = append(vs, c.BVar("rr", a.sort))
	}
	app := c.App(ri.name, ri.sort, vs...)
	e.axioms = append(e.axioms, c.Forall(vs, [][]*Term{{app}}, c.And(c.Le(c.IntB(lo), app), c.Le(app, c.IntB(hi)))))
}

func (e *Engine) recApp(ri *recInst, args []*Term, fuel int) *Term {
	t := e.c.App(ri.name, ri.sort, args...)
	if !ri.ranged {
		ri.ranged = true
		if strings.Contains(" "+e.unit.Opts["qrange"]+" ", " "+ri.base+" ") {
			e.recRange(ri, args)
		}
	}
	if fuel > 0 && !ri.done[t] {
		ri.done[t] = true
		var bvs []*Term
		if t.free {
			if !strings.Contains(" "+e.unit.Opts["qunfold"]+" ", " "+ri.base+" ") {
				return t
			}
			var ok bool
			if bvs, ok = boundVars(t); !ok {
				return t
			}
			for _, q := range bvs {
				if strings.Contains(q.op, fmt.Sprintf(".%d.", e.recQL[ri.base])) {
					return t
				}
			}
		}
		m := map[*Term]*Term{}
		for i, p := range ri.ph {
			m[p] = args[i]
		}
		rhs := e.c.Subst(ri.body, m, func(op string, as []*Term) *Term {
			if op == ri.self {
				n := append([]*Term{}, args...)
				n[len(n)-1] = as[0]
				return e.recApp(ri, n, fuel-1)
			}
			if r2 := e.recByOp[op]; r2 != nil {
				return e.recApp(r2, as, fuel)
			}
			return nil
		})
		if len(bvs) == 0 {
			e.addAxiom(e.c.Eq(t, rhs), t)
			return t
		}
		// under a quantifier: unfold this very application, for every value of the bound variables
		pargs := make([]*Term, len(args))
		var eqs []*Term
		named := map[*Term]*Term{}
		simple := true
		for i, x := range args {
			pargs[i] = x
			if x.free {
				simple = simple && patternable(x)
			}
			pargs[i] = e.nameClosed(x, &eqs, named)
		}
		if !simple {
			return t
		}
		rhs = e.c.Subst(rhs, named, nil)
		pt := e.c.App(ri.name, ri.sort, pargs...)
		for i, q := range bvs {
			if nb, _, m := e.absIdx(q, pt); nb != nil {
				bvs[i] = nb
				pt, rhs = e.c.Subst(pt, m, nil), e.c.Subst(rhs, m, nil)
			}
		}
		f := e.c.And(append(eqs, e.c.Forall(bvs, [][]*Term{{pt}}, e.c.Eq(pt, rhs)))...)
		if !f.free && !e.axDone[f] {
			e.axDone[f] = true
			e.axioms = append(e.axioms, f)
		}
	}
	return t
}

// nameClosed replaces the maximal closed compound subterms of x by constants defined to equal them, so that x can serve
// as a pattern whatever these subterms are.
func (e *Engine) nameClosed(x *Term, eqs *[]*Term, named map[*Term]*Term) *Term {
	if len(x.args) == 0 || len(x.bvars) > 0 {
		return x
	}
	if !x.free {
		k := e.c.Const(fmt.Sprintf("ga!%d", x.id), x.sort)
		if named[x] == nil {
			named[x] = k
			*eqs = append(*eqs, e.c.Eq(k, x))
		}
		return k
	}
	m := map[*Term]*Term{}
	for _, a := range x.args {
		if b := e.nameClosed(a, eqs, named); b != a {
			m[a] = b
		}
	}
	if len(m) == 0 {
		return x
	}
	return e.c.Subst(x, m, nil)
}

// absIdx prepares a quantifier over slice indices to range over positions of the backing array instead, so that the
// solvers can match it without arithmetic. The map sends q to (position - offset) and (offset + q) to the position.
func (e *Engine) absIdx(q *Term, body *Term) (*Term, *Term, map[*Term]*Term) {
	if e.unit.Opts["absidx"] == "" || e.bv {
		return nil, nil, nil
	}
	var off, sum *Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if off != nil || !t.free || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "select" && t.args[1].op == "+" && len(t.args[1].args) == 2 && !mentions(t.args[0], q) {
			a, b := t.args[1].args[0], t.args[1].args[1]
			if b == q && !mentions(a, q) {
				off, sum = a, t.args[1]
				return
			}
			if a == q && !mentions(b, q) {
				off, sum = b, t.args[1]
				return
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	if off == nil {
		return nil, nil, nil
	}
	k := e.c.mk(quoteSym("q.p."+strings.Trim(q.op, "|")), SInt) // named after q: recursive definitions are told apart by their bodies
	k.free = true
	return k, off, map[*Term]*Term{sum: k, q: e.c.Sub(k, off)}
}

func mentions(t, q *Term) bool {
	if !t.free {
		return false
	}
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == q {
			return true
		}
		if !t.free || seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// boundVars lists the quantified variables in t; not ok if t mentions a placeholder of a definition being built.
func boundVars(t *Term) ([]*Term, bool) {
	var out []*Term
	ok := true
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if !t.free || seen[t] || !ok {
			return
		}
		seen[t] = true
		if len(t.bvars) > 0 {
			ok = false
			return
		}
		if len(t.args) == 0 {
			n := strings.TrimPrefix(t.op, "|")
			if !strings.HasPrefix(n, "q.") {
				ok = false
				return
			}
			out = append(out, t)
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out, ok
}

func patternable(t *Term) bool {
	switch t.op {
	case "ite", "and", "or", "not", "=>", "=", "<", "<=", "forall", "exists":
		return false
	}
	if len(t.bvars) > 0 {
		return false
	}
	for _, a := range t.args {
		if a.free && !patternable(a) {
			return false
		}
	}
	return true
}

// contentView flattens an argument to the terms a pure function may depend on.
func (s *SEnv) contentView(v Value) []*Term {
	e := s.e
	switch u := v.T.Underlying().(type) {
	case *types.Pointer:
		if v.Loc != nil {
			return e.load(s.st, v.Loc).C
		}
		if n, ok := types.Unalias(u.Elem()).(*types.Named); ok {
			if oc, ok := e.opaqueComps(typeStr(n)); ok && len(oc) == 1 && oc[0].Sort == SInt {
				return e.load(s.st, e.deref(v)).C
			}
			if n.Obj().Pkg() != nil && e.p.repoPkg[n.Obj().Pkg().Path()] {
				return v.C
			}
			// content of small library structs (net.IPNet ...)
			if st, ok := n.Underlying().(*types.Struct); ok {
				switch typeStr(n) {
				case "net.IPNet":
					val := e.load(s.st, e.deref(v))
					var out []*Term
					for i := 0; i < st.NumFields(); i++ {
						lo, k := e.fieldRange(n, i)
						out = append(out, s.contentView(Value{T: st.Field(i).Type(), C: val.C[lo : lo+k]})...)
					}
					return append(out, e.c.Eq(v.C[0], e.c.Int(0)))
				}
			}
		}
		return v.C
	case *types.Slice:
		if isByteSlice(v.T) {
			return []*Term{e.bytesView(s.st, v), e.c.Eq(v.C[0], e.c.Int(0))}
		}
		if v.Row != nil {
			return append(append([]*Term{}, v.Row...), v.C[1], v.C[2])
		}
		l := &Loc{Kind: 'A', Ref: v.C[0], Root: types.NewArray(u.Elem(), 1), T: types.NewArray(u.Elem(), 1)}
		out := append([]*Term{}, e.load(s.st, l).C...)
		return append(out, v.C[1], v.C[2])
	case *types.Struct:
		if n, ok := types.Unalias(v.T).(*types.Named); ok {
			if _, ok := e.opaqueComps(typeStr(n)); ok {
				return v.C
			}
		}
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			lo, k := e.fieldRange(v.T, i)
			out = append(out, s.contentView(Value{T: u.Field(i).Type(), C: v.C[lo : lo+k]})...)
		}
		return out
	}
	return v.C
}

// pureCall: deterministic uninterpreted function of the content of its arguments.
func (s *SEnv) pureCall(fo *types.Func, args []Value) Value {
	e := s.e
	full := fo.FullName()
	sig := fo.Type().(*types.Signature)
	// coerce untyped literals
	k := 0
	if sig.Recv() != nil {
		k = 1
	}
	for i := range args {
		if isUntyped(args[i]) && i-k >= 0 && i-k < sig.Params().Len() {
			args[i] = s.conc(args[i], sig.Params().At(i-k).Type())
		}
	}
	if !e.p.db.Pures[full] {
		if sp := e.p.db.Funcs[full]; sp == nil || !sp.Pure {
			panic(serr("%s is not declared pure", full))
		}
	}
	r := e.pureResult(full, sig, s, args)
	if len(r) == 1 {
		return r[0]
	}
	return Value{T: sig.Results(), Tup: r}
}

func (e *Engine) pureResult(full string, sig *types.Signature, s *SEnv, args []Value) []Value {
	if v, ok := e.builtinPure(full, s, args); ok {
		return v
	}
	var ts []*Term
	for _, a := range args {
		ts = append(ts, s.contentView(a)...)
	}
	var out []Value
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := Value{T: t}
		for _, k := range e.flat(t) {
			tm := e.c.App(fmt.Sprintf("pf.%s.%d%s", full, i, k.Name), k.Sort, ts...)
			v.C = append(v.C, tm)
		}
		out = append(out, v)
	}
	return out
}

// builtinPure gives fixed meanings to a few library functions.
func (e *Engine) builtinPure(full string, s *SEnv, a []Value) ([]Value, bool) {
	c := e.c
	b := func(t *Term) ([]Value, bool) { return []Value{e.boolV(t)}, true }
	str := func(i int) *Term {
		if isString(a[i].T) {
			return a[i].C[0]
		}
		return e.bytesView(s.st, a[i])
	}
	switch full {
	case "bytes.Equal":
		return b(c.Eq(str(0), str(1)))
	case "bytes.Compare", "strings.Compare":
		t := c.App("bytescmp", e.idxSort(), str(0), str(1))
		e.cmpAxioms(t)
		return []Value{e.intV(t)}, true
	case "(encoding/asn1.ObjectIdentifier).String":
		return nil, false
	}
	if e.strSMT {
		switch full {
		case "strings.HasPrefix", "bytes.HasPrefix":
			return b(c.mk("str.prefixof", SBool, str(1), str(0)))
		case "strings.HasSuffix", "bytes.HasSuffix":
			return b(c.mk("str.suffixof", SBool, str(1), str(0)))
		case "strings.Contains":
			return b(c.mk("str.contains", SBool, str(0), str(1)))
		case "strings.TrimPrefix":
			p := c.mk("str.prefixof", SBool, str(1), str(0))
			l0, l1 := e.strLen(str(0)), e.strLen(str(1))
			return []Value{e.strV(c.Ite(p, e.strSub(str(0), l1, l0), str(0)))}, true
		case "strings.TrimSuffix":
			p := c.mk("str.suffixof", SBool, str(1), str(0))
			l0, l1 := e.strLen(str(0)), e.strLen(str(1))
			return []Value{e.strV(c.Ite(p, e.strSub(str(0), e.idx(0), c.Sub(l0, l1)), str(0)))}, true
		case "strings.Index":
			return []Value{e.intV(c.mk("str.indexof", SInt, str(0), str(1), c.Int(0)))}, true
		}
	}
	return nil, false
}

// total-order facts for bytes.Compare
func (e *Engine) cmpAxioms(t *Term) {
	if e.bv || e.cmpAx {
		return
	}
	e.cmpAx = true
	c := e.c
	x, y, z := c.BVar("x", e.strSort()), c.BVar("y", e.strSort()), c.BVar("z", e.strSort())
	f := func(a, b *Term) *Term { return c.App("bytescmp", SInt, a, b) }
	xy := f(x, y)
	e.axioms = append(e.axioms,
		c.Forall([]*Term{x, y}, [][]*Term{{xy}}, c.And(c.Le(c.Int(-1), xy), c.Le(xy, c.Int(1)), c.Eq(c.Eq(xy, c.Int(0)), c.Eq(x, y)), c.Eq(f(y, x), c.Sub(c.Int(0), xy)))),
		c.Forall([]*Term{x, y, z}, [][]*Term{{xy, f(y, z)}}, c.Imp(c.And(c.Le(xy, c.Int(0)), c.Le(f(y, z), c.Int(0))), c.Le(f(x, z), c.Int(0)))))
}
