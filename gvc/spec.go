package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

// ---- tokens

type Tok struct {
	k    byte // 'i' ident, 'n' number, 's' string, 'o' operator, 0 eof
	s    string
	line int
	file string
}

var ops = []string{"<==>", "==>", "::", "&&", "||", "==", "!=", "<=", ">=", "++", "..", "<", ">", "+", "-", "*", "/", "%", "!", "(", ")", "[", "]", "{", "}", ",", ".", ":", "?", "=", "&", ";", "^"}

func lexSpec(file, src string) []Tok {
	var out []Tok
	line := 1
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$':
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$' || src[j] == '\'') {
				j++
			}
			out = append(out, Tok{'i', src[i:j], line, file})
			i = j
		case unicode.IsDigit(rune(c)):
			j := i
			for j < len(src) && (unicode.IsDigit(rune(src[j])) || (src[j] == '.' && j+1 < len(src) && unicode.IsDigit(rune(src[j+1])))) {
				j++
			}
			out = append(out, Tok{'n', src[i:j], line, file})
			i = j
		case c == '"':
			j := i + 1
			for src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s := src[i+1 : j]
			s = strings.ReplaceAll(s, `\"`, `"`)
			s = strings.ReplaceAll(s, `\n`, "\n")
			out = append(out, Tok{'s', s, line, file})
			i = j + 1
		default:
			ok := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					out = append(out, Tok{'o', o, line, file})
					i += len(o)
					ok = true
					break
				}
			}
			if !ok {
				panic(fmt.Sprintf("%s:%d: bad character %q", file, line, c))
			}
		}
	}
	out = append(out, Tok{0, "", line, file})
	return out
}

// ---- AST

type Expr struct {
	op   string // num str ident call field index unary binary forall exists ite let old typeassert
	s    string
	args []*Expr
	vars []SVar
	typ  *SType
	trig [][]*Expr
	line int
	file string
}

type SVar struct {
	name string
	typ  *SType
}

type SType struct {
	kind string // name, ptr, slice, map, array
	name string
	key  *SType
	elem *SType
}

func (t *SType) String() string {
	switch t.kind {
	case "ptr":
		return "*" + t.elem.String()
	case "slice":
		return "[]" + t.elem.String()
	case "map":
		return "map[" + t.key.String() + "]" + t.elem.String()
	case "array":
		return "array[" + t.key.String() + "]" + t.elem.String()
	}
	return t.name
}

type Clause struct {
	props []string
	e     *Expr
	text  string
	line  int
	file  string
	name  string
}

type LoopSpec struct {
	invs    []Clause
	unroll  int
	modOnly []string
}

type FuncSpec struct {
	kind        string // func (verified), extern (trusted, outside), iface (trusted interface contract)
	name        string
	params      []string
	results     []string
	requires    []Clause
	ensures     []Clause
	modifies    []*Expr
	modAll      bool
	loops       map[int]*LoopSpec
	inlineLoops map[string]*LoopSpec
	opts        map[string]bool
	props       []string // properties for which the function is verified even if no clause is labelled
	file        string
	line        int
	pureExpr    *Expr
	implOf      string
	defs        []SDef
	ghostSets   []Clause
	hint        string
}

type SDef struct {
	name string
	e    *Expr
}

type PureFn struct {
	name   string
	params []SVar
	res    *SType
	body   *Expr // nil: uninterpreted
	file   string
	line   int
}

type GhostDecl struct {
	name  string // var name or Type.field
	typ   *SType
	field bool
}

type Lemma struct {
	name string
	c    Clause
	vars []SVar
}

type Guard struct {
	props       []string
	isMap       bool
	target      string
	param       string
	read, write *Expr
	file        string
	line        int
}

// ForProp selects the contracts written for one property only.
func (sp *Specs) ForProp(prop string) {
	view := false
	for n, f := range sp.funcs {
		view = view || f.kind == "func" && strings.HasSuffix(n, "@"+prop)
	}
	if view {
		// a view of its own on the code: the contracts of other properties play no part
		for n, f := range sp.funcs {
			if f.kind == "func" && !strings.HasSuffix(n, "@"+prop) {
				delete(sp.funcs, n)
			}
		}
	}
	for n, f := range sp.funcs {
		if i := strings.IndexByte(n, '@'); i >= 0 {
			delete(sp.funcs, n)
			if n[i+1:] == prop {
				sp.funcs[n[:i]] = f
			}
		}
	}
	var gs []*Guard
	for _, g := range sp.guards {
		for _, p := range g.props {
			if p == prop {
				gs = append(gs, g)
			}
		}
	}
	sp.guards = gs
}

type Specs struct {
	guards []*Guard
	funcs  map[string]*FuncSpec
	pures  map[string]*PureFn
	ghosts map[string]*GhostDecl
	axioms []Clause
	lemmas []*Lemma
	files  []string
}

type sparser struct {
	toks []Tok
	p    int
	sp   *Specs
	src  string
}

func (p *sparser) peek() Tok { return p.toks[p.p] }
func (p *sparser) next() Tok { t := p.toks[p.p]; p.p++; return t }
func (p *sparser) fail(f string, a ...any) {
	t := p.peek()
	panic(fmt.Sprintf("%s:%d: %s (at %q)", t.file, t.line, fmt.Sprintf(f, a...), t.s))
}
func (p *sparser) is(s string) bool { t := p.peek(); return (t.k == 'o' || t.k == 'i') && t.s == s }
func (p *sparser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *sparser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}
func (p *sparser) ident() string {
	t := p.next()
	if t.k != 'i' {
		p.p--
		p.fail("identifier expected")
	}
	return t.s
}
func (p *sparser) dotted() string {
	s := p.ident()
	for p.is(".") {
		p.next()
		if p.is("*") {
			p.next()
			s += ".*"
			break
		}
		s += "." + p.ident()
	}
	return s
}

var clauseKw = map[string]bool{"requires": true, "ensures": true, "modifies": true, "loop": true, "func": true, "extern": true, "iface": true, "pure": true, "ghost": true, "axiom": true, "lemma": true, "guard": true, "opt": true, "prop": true, "def": true, "invariant": true, "unroll": true}

func LoadSpecs(dir string) (sp *Specs, err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok {
				err = fmt.Errorf("%s", s)
				return
			}
			panic(r)
		}
	}()
	sp = &Specs{funcs: map[string]*FuncSpec{}, pures: map[string]*PureFn{}, ghosts: map[string]*GhostDecl{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, e := os.ReadFile(f)
		if e != nil {
			return nil, e
		}
		sp.files = append(sp.files, f)
		p := &sparser{toks: lexSpec(filepath.Base(f), string(b)), sp: sp}
		p.file()
	}
	return sp, nil
}

func (p *sparser) params() []string {
	var out []string
	p.expect("(")
	for !p.is(")") {
		out = append(out, p.ident())
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return out
}

func (p *sparser) labels() []string {
	var out []string
	if p.is("[") {
		p.next()
		for !p.is("]") {
			out = append(out, p.ident())
			p.accept(",")
		}
		p.next()
	}
	return out
}

func (p *sparser) clause() Clause {
	t := p.peek()
	c := Clause{props: p.labels(), line: t.line, file: t.file}
	if p.peek().k == 's' && !map[string]bool{"==": true, "!=": true, "++": true}[p.toks[p.p+1].s] { // optional name
		c.name = p.next().s
	}
	st := p.p
	c.e = p.expr()
	var sb strings.Builder
	for i := st; i < p.p; i++ {
		if i > st {
			sb.WriteByte(' ')
		}
		if p.toks[i].k == 's' {
			fmt.Fprintf(&sb, "%q", p.toks[i].s)
		} else {
			sb.WriteString(p.toks[i].s)
		}
	}
	c.text = sb.String()
	return c
}

func (p *sparser) file() {
	for p.peek().k != 0 {
		t := p.peek()
		switch {
		case p.accept("ghost"):
			if p.accept("var") {
				n := p.ident()
				p.sp.ghosts[n] = &GhostDecl{name: n, typ: p.stype()}
			} else {
				p.expect("field")
				n := p.dotted()
				p.sp.ghosts[n] = &GhostDecl{name: n, typ: p.stype(), field: true}
			}
		case p.accept("pure"):
			pf := &PureFn{file: t.file, line: t.line}
			pf.name = p.ident()
			p.expect("(")
			for !p.is(")") {
				n := p.ident()
				pf.params = append(pf.params, SVar{n, p.stype()})
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			pf.res = p.stype()
			if p.accept("=") {
				pf.body = p.expr()
			}
			if _, dup := p.sp.pures[pf.name]; dup {
				p.fail("duplicate pure %s", pf.name)
			}
			p.sp.pures[pf.name] = pf
		case p.accept("axiom"):
			p.sp.axioms = append(p.sp.axioms, p.clause())
		case p.accept("guard"):
			// guard [P] pkg.Type.field(x) read COND write COND
			// guard [P] map ELEMTYPE(m) read COND write COND
			g := &Guard{props: p.labels(), file: t.file, line: t.line}
			g.isMap = p.accept("map")
			g.target = p.dotted()
			g.param = p.params()[0]
			p.expect("read")
			g.read = p.expr()
			p.expect("write")
			g.write = p.expr()
			p.sp.guards = append(p.sp.guards, g)
		case p.accept("lemma"):
			l := &Lemma{name: p.ident()}
			p.expect(":")
			l.c = p.clause()
			l.c.name = l.name
			p.sp.lemmas = append(p.sp.lemmas, l)
		case p.is("func") || p.is("extern") || p.is("iface"):
			kind := p.next().s
			only := p.labels() // func [C26] ...: a contract used for these properties only
			f := &FuncSpec{kind: kind, loops: map[int]*LoopSpec{}, inlineLoops: map[string]*LoopSpec{}, opts: map[string]bool{}, file: t.file, line: t.line}
			f.name = p.dotted()
			if p.is("(") {
				f.params = p.params()
				if p.is("(") {
					f.results = p.params()
				}
			}
			p.funcBody(f)
			names := []string{f.name}
			if len(only) > 0 {
				names = nil
				for _, o := range only {
					names = append(names, f.name+"@"+o)
				}
				if kind == "func" {
					f.props = append(f.props, only...)
				}
			}
			for _, n := range names {
				if _, dup := p.sp.funcs[n]; dup {
					p.fail("duplicate contract for %s", n)
				}
				p.sp.funcs[n] = f
			}
		default:
			p.fail("unexpected token")
		}
	}
}

func (p *sparser) funcBody(f *FuncSpec) {
	for {
		switch {
		case p.accept("requires"):
			f.requires = append(f.requires, p.clause())
		case p.accept("ensures"):
			f.ensures = append(f.ensures, p.clause())
		case p.accept("modifies"):
			for {
				if p.accept("nothing") {
					break
				}
				if p.is("*") {
					p.next()
					f.modAll = true
				} else {
					f.modifies = append(f.modifies, p.modTarget())
				}
				if !p.accept(",") {
					break
				}
			}
		case p.accept("opt"):
			f.opts[p.ident()] = true
		case p.accept("prop"):
			f.props = append(f.props, p.labels()...)
		case p.accept("def"):
			n := p.ident()
			p.expect("=")
			f.defs = append(f.defs, SDef{n, p.expr()})
		case p.accept("loop"):
			var ls *LoopSpec
			if p.peek().k == 'i' {
				n := p.dotted()
				p.expect(":")
				n += ":" + p.next().s
				ls = f.inlineLoops[n]
				if ls == nil {
					ls = &LoopSpec{}
					f.inlineLoops[n] = ls
				}
			} else {
				n := p.next()
				k := 0
				fmt.Sscanf(n.s, "%d", &k)
				ls = f.loops[k]
				if ls == nil {
					ls = &LoopSpec{}
					f.loops[k] = ls
				}
			}
			if p.accept("unroll") {
				fmt.Sscanf(p.next().s, "%d", &ls.unroll)
			} else {
				p.expect("invariant")
				ls.invs = append(ls.invs, p.clause())
			}
		default:
			return
		}
	}
}

// modTarget: dotted name with optional .* or [*]
func (p *sparser) modTarget() *Expr {
	t := p.peek()
	e := &Expr{op: "ident", s: p.ident(), line: t.line, file: t.file}
	if p.is("(") && (e.s == "fresh" || e.s == "any" || e.s == "deref") {
		p.next()
		c := &Expr{op: "call", args: []*Expr{e}, line: t.line, file: t.file}
		if e.s == "deref" {
			c.args = append(c.args, p.expr())
		} else {
			c.typ = p.stype()
		}
		p.expect(")")
		return c
	}
	for {
		if p.accept(".") {
			if p.accept("*") {
				return &Expr{op: "field", s: "*", args: []*Expr{e}, line: t.line, file: t.file}
			}
			e = &Expr{op: "field", s: p.ident(), args: []*Expr{e}, line: t.line, file: t.file}
		} else if p.accept("[") {
			if p.accept("*") {
				p.expect("]")
				return &Expr{op: "index", s: "*", args: []*Expr{e}, line: t.line, file: t.file}
			}
			i := p.expr()
			p.expect("]")
			e = &Expr{op: "index", args: []*Expr{e, i}, line: t.line, file: t.file}
		} else {
			return e
		}
	}
}

func (p *sparser) stype() *SType {
	if p.accept("*") {
		return &SType{kind: "ptr", elem: p.stype()}
	}
	if p.accept("[") {
		p.expect("]")
		return &SType{kind: "slice", elem: p.stype()}
	}
	if p.is("map") || p.is("array") {
		k := p.next().s
		p.expect("[")
		kt := p.stype()
		p.expect("]")
		return &SType{kind: k, key: kt, elem: p.stype()}
	}
	return &SType{kind: "name", name: p.dotted()}
}

// ---- expressions (Pratt)

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 4, "&&": 5, "==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6, "in": 6, "+": 8, "-": 8, "++": 8, "*": 9, "/": 9, "%": 9}

func (p *sparser) expr() *Expr { return p.ternary() }

func (p *sparser) ternary() *Expr {
	c := p.binary(1)
	if p.is("?") {
		t := p.next()
		a := p.ternary()
		p.expect(":")
		b := p.ternary()
		return &Expr{op: "ite", args: []*Expr{c, a, b}, line: t.line, file: t.file}
	}
	return c
}

func (p *sparser) binary(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		if t.k != 'o' && !(t.k == 'i' && t.s == "in") {
			return l
		}
		pr, ok := binPrec[t.s]
		if !ok || pr < min {
			return l
		}
		// a `*` or `[`... cannot start a new clause, so no ambiguity here
		p.next()
		var r *Expr
		if t.s == "==>" { // right assoc
			r = p.binary(pr)
		} else {
			r = p.binary(pr + 1)
		}
		l = &Expr{op: "binary", s: t.s, args: []*Expr{l, r}, line: t.line, file: t.file}
	}
}

func (p *sparser) unary() *Expr {
	t := p.peek()
	if t.k == 'o' {
		switch t.s {
		case "!", "-", "*", "&":
			p.next()
			return &Expr{op: "unary", s: t.s, args: []*Expr{p.unary()}, line: t.line, file: t.file}
		}
	}
	return p.postfix(p.primary())
}

func (p *sparser) postfix(e *Expr) *Expr {
	for {
		t := p.peek()
		switch {
		case p.is("."):
			p.next()
			e = &Expr{op: "field", s: p.ident(), args: []*Expr{e}, line: t.line, file: t.file}
		case p.is("["):
			p.next()
			i := p.expr()
			p.expect("]")
			e = &Expr{op: "index", args: []*Expr{e, i}, line: t.line, file: t.file}
		case p.is("("):
			p.next()
			c := &Expr{op: "call", args: []*Expr{e}, line: t.line, file: t.file}
			if e.op == "ident" && (e.s == "as" || e.s == "typeis" || e.s == "boxof") {
				c.args = append(c.args, p.expr())
				p.expect(",")
				c.typ = p.stype()
				p.expect(")")
				e = c
				continue
			}
			for !p.is(")") {
				c.args = append(c.args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = c
		default:
			return e
		}
	}
}

func (p *sparser) primary() *Expr {
	t := p.peek()
	mk := func(op, s string) *Expr { return &Expr{op: op, s: s, line: t.line, file: t.file} }
	switch t.k {
	case 'n':
		p.next()
		e := mk("num", t.s)
		if p.is("^") {
			p.next()
			e = &Expr{op: "pow", args: []*Expr{e, mk("num", p.next().s)}, line: t.line, file: t.file}
		}
		return e
	case 's':
		p.next()
		return mk("str", t.s)
	case 'o':
		if p.accept("(") {
			e := p.expr()
			p.expect(")")
			return e
		}
	case 'i':
		switch t.s {
		case "forall", "exists":
			p.next()
			e := mk(t.s, "")
			for {
				var names []string
				names = append(names, p.ident())
				for p.accept(",") {
					names = append(names, p.ident())
				}
				p.expect(":")
				ty := p.stype()
				for _, n := range names {
					e.vars = append(e.vars, SVar{n, ty})
				}
				if !p.accept(";") {
					break
				}
			}
			for p.accept("{") {
				var tr []*Expr
				for !p.is("}") {
					tr = append(tr, p.expr())
					p.accept(",")
				}
				p.expect("}")
				e.trig = append(e.trig, tr)
			}
			p.expect("::")
			e.args = []*Expr{p.expr()}
			return e
		case "let":
			p.next()
			e := mk("let", p.ident())
			p.expect("=")
			v := p.expr()
			p.expect(";")
			e.args = []*Expr{v, p.expr()}
			return e
		case "old":
			p.next()
			p.expect("(")
			e := mk("old", "")
			e.args = []*Expr{p.expr()}
			p.expect(")")
			return e
		}
		if clauseKw[t.s] {
			p.fail("expression expected")
		}
		p.next()
		return mk("ident", t.s)
	}
	p.fail("expression expected")
	return nil
}
