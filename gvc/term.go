package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Sort is the name of an SMT sort.
type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SReal Sort = "Real" // float64 carrier: see fl* below
	SStr  Sort = "Str"  // printed as String or as an uninterpreted sort
)

func ArrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// elemSort returns key and value sort of an array sort.
func (s Sort) arr() (Sort, Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	in := str[7 : len(str)-1]
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return Sort(in[:i]), Sort(in[i+1:])
			}
		}
	}
	panic("bad array sort " + str)
}

// Term is a hash-consed SMT term.
type Term struct {
	id   int
	op   string // "const" (declared constant), "lit", "app:<op>", "forall", "exists", "var"
	name string
	sort Sort
	args []*Term
	// quantifiers
	bvars []*Term
	trigs [][]*Term
	ival  *big.Int // integer literal
	sval  string   // string literal
	qd    bool     // contains bound variables (free)
	hasQ  bool     // contains a quantifier
}

type TermBank struct {
	tab   map[string]*Term
	n     int
	decls map[string]*Decl
	fresh map[string]int
	// facts attached to a term: always asserted when the term occurs in a query
	side map[int][]*Term
	// prelude axioms by function symbol
	axioms map[string][]*Term
}

type Decl struct {
	name string
	args []Sort
	res  Sort
}

var B *TermBank

func NewBank() *TermBank {
	return &TermBank{tab: map[string]*Term{}, decls: map[string]*Decl{}, fresh: map[string]int{}, side: map[int][]*Term{}, axioms: map[string][]*Term{}}
}

func (b *TermBank) mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.name)
	sb.WriteByte('|')
	sb.WriteString(string(t.sort))
	for _, a := range t.args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.id))
	}
	for _, a := range t.bvars {
		sb.WriteString("|b")
		sb.WriteString(strconv.Itoa(a.id))
	}
	for _, tr := range t.trigs {
		sb.WriteString("|t")
		for _, a := range tr {
			sb.WriteByte(',')
			sb.WriteString(strconv.Itoa(a.id))
		}
	}
	k := sb.String()
	if x, ok := b.tab[k]; ok {
		return x
	}
	b.n++
	t.id = b.n
	for _, a := range t.args {
		if a.qd {
			t.qd = true
		}
		if a.hasQ {
			t.hasQ = true
		}
	}
	if t.op == "var" {
		t.qd = true
	}
	if t.op == "forall" || t.op == "exists" {
		t.hasQ = true
		t.qd = hasFreeOther(t.args[0], t.bvars)
	}
	b.tab[k] = t
	return t
}

func hasFreeOther(t *Term, bound []*Term) bool {
	fv := map[*Term]bool{}
	freeVars(t, map[*Term]bool{}, fv, map[*Term]bool{})
	for _, b := range bound {
		delete(fv, b)
	}
	return len(fv) > 0
}

func freeVars(t *Term, bound, out, seen map[*Term]bool) {
	if !t.qd {
		return
	}
	if t.op == "var" {
		if !bound[t] {
			out[t] = true
		}
		return
	}
	if t.op == "forall" || t.op == "exists" {
		nb := map[*Term]bool{}
		for k := range bound {
			nb[k] = true
		}
		for _, v := range t.bvars {
			nb[v] = true
		}
		for _, a := range t.args {
			freeVars(a, nb, out, map[*Term]bool{})
		}
		return
	}
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.args {
		freeVars(a, bound, out, seen)
	}
}

// ---- constructors

var intTrue, intFalse *Term

func True() *Term  { return B.mk(&Term{op: "lit", name: "true", sort: SBool}) }
func False() *Term { return B.mk(&Term{op: "lit", name: "false", sort: SBool}) }
func Bool(b bool) *Term {
	if b {
		return True()
	}
	return False()
}
func Int(i int64) *Term { return BigInt(big.NewInt(i)) }
func BigInt(i *big.Int) *Term {
	return B.mk(&Term{op: "lit", name: i.String(), sort: SInt, ival: new(big.Int).Set(i)})
}

// RealLit: rational literal
func RealRat(r *big.Rat) *Term {
	return B.mk(&Term{op: "lit", name: r.RatString(), sort: SReal})
}
func (t *Term) rat() *big.Rat {
	if t.op != "lit" || t.sort != SReal {
		return nil
	}
	r, ok := new(big.Rat).SetString(t.name)
	if !ok {
		return nil
	}
	return r
}
func StrLit(s string) *Term {
	return B.mk(&Term{op: "lit", name: strconv.Quote(s), sort: SStr, sval: s})
}
func (t *Term) isStrLit() bool {
	return t.op == "lit" && t.sort == SStr
}

func Const(name string, s Sort) *Term {
	if d, ok := B.decls[name]; ok {
		if d.res != s {
			panic("const redeclared " + name + " " + string(d.res) + " vs " + string(s))
		}
	} else {
		B.decls[name] = &Decl{name: name, res: s}
	}
	return B.mk(&Term{op: "const", name: name, sort: s})
}

func Fresh(prefix string, s Sort) *Term {
	prefix = sanitize(prefix)
	B.fresh[prefix]++
	return Const(fmt.Sprintf("%s!%d", prefix, B.fresh[prefix]), s)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' || r == '-' || r == '$' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func Var(name string, s Sort) *Term { return B.mk(&Term{op: "var", name: name, sort: s}) }

// Fn applies a declared uninterpreted function.
func Fn(name string, res Sort, args ...*Term) *Term {
	if _, ok := B.decls[name]; !ok {
		var as []Sort
		for _, a := range args {
			as = append(as, a.sort)
		}
		B.decls[name] = &Decl{name: name, args: as, res: res}
	} else {
		d := B.decls[name]
		if len(d.args) != len(args) || d.res != res {
			panic("function redeclared " + name)
		}
		for i := range args {
			if d.args[i] != args[i].sort {
				panic(fmt.Sprintf("function %s arg %d sort %s want %s", name, i, args[i].sort, d.args[i]))
			}
		}
	}
	return B.mk(&Term{op: "app", name: name, sort: res, args: args})
}

func app(name string, s Sort, args ...*Term) *Term {
	return B.mk(&Term{op: "app", name: name, sort: s, args: args})
}

func Not(a *Term) *Term {
	if a.op == "lit" {
		return Bool(a.name == "false")
	}
	if a.op == "app" && a.name == "not" {
		return a.args[0]
	}
	return app("not", SBool, a)
}

func And(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x.sort != SBool {
			panic("And on " + string(x.sort))
		}
		if x.op == "lit" {
			return x.name == "true"
		}
		if x.op == "app" && x.name == "and" {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[x] {
			return true
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return False()
		}
	}
	for x := range seen {
		if x.op == "app" && x.name == "not" && seen[x.args[0]] {
			return False()
		}
	}
	if len(out) == 0 {
		return True()
	}
	if len(out) == 1 {
		return out[0]
	}
	return app("and", SBool, out...)
}

func Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x.op == "lit" {
			return x.name == "false"
		}
		if x.op == "app" && x.name == "or" {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[x] {
			return true
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return True()
		}
	}
	for x := range seen {
		if x.op == "app" && x.name == "not" && seen[x.args[0]] {
			return True()
		}
	}
	if len(out) == 0 {
		return False()
	}
	if len(out) == 1 {
		return out[0]
	}
	return app("or", SBool, out...)
}

func Implies(a, b *Term) *Term {
	if a.op == "lit" {
		if a.name == "true" {
			return b
		}
		return True()
	}
	if b.op == "lit" {
		if b.name == "true" {
			return True()
		}
		return Not(a)
	}
	if a == b {
		return True()
	}
	return app("=>", SBool, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c.op == "lit" {
		if c.name == "true" {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s %s", a.sort, b.sort))
	}
	if a.sort == SBool {
		if a.op == "lit" && b.op == "lit" {
			if a.name == "true" {
				return c
			}
			return Not(c)
		}
		if a.op == "lit" {
			if a.name == "true" {
				return Or(c, b)
			}
			return And(Not(c), b)
		}
		if b.op == "lit" {
			if b.name == "true" {
				return Or(Not(c), a)
			}
			return And(c, a)
		}
	}
	return app("ite", a.sort, c, a, b)
}

func isLit(t *Term) bool { return t.op == "lit" }

func Eq(a, b *Term) *Term {
	if a == b {
		return True()
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s / %s", a.sort, b.sort, a, b))
	}
	if isLit(a) && isLit(b) {
		return False()
	}
	if a.sort == SBool {
		if isLit(a) {
			a, b = b, a
		}
		if isLit(b) {
			if b.name == "true" {
				return a
			}
			return Not(a)
		}
	}
	// alloc0 + k arithmetic: differing offsets
	if a.sort == SInt {
		ba, ka := splitOffset(a)
		bb, kb := splitOffset(b)
		if ba == bb && ba != nil {
			return Bool(ka.Cmp(kb) == 0)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return app("=", SBool, a, b)
}

func splitOffset(t *Term) (*Term, *big.Int) {
	if t.op == "app" && t.name == "+" && len(t.args) == 2 && t.args[1].ival != nil {
		return t.args[0], t.args[1].ival
	}
	return t, big.NewInt(0)
}

func Add(a, b *Term) *Term {
	if a.sort != b.sort {
		panic("add sorts " + string(a.sort) + string(b.sort))
	}
	if a.sort == SInt {
		if a.ival != nil && b.ival != nil {
			return BigInt(new(big.Int).Add(a.ival, b.ival))
		}
		if a.ival != nil {
			a, b = b, a
		}
		if b.ival != nil {
			if b.ival.Sign() == 0 {
				return a
			}
			base, k := splitOffset(a)
			if base != a {
				return Add(base, BigInt(new(big.Int).Add(k, b.ival)))
			}
		}
	} else {
		ra, rb := a.rat(), b.rat()
		if ra != nil && rb != nil {
			return RealRat(new(big.Rat).Add(ra, rb))
		}
	}
	// x + (y - x) = y
	if a.sort == SInt {
		for n := 0; n < 2; n++ {
			if b.op == "app" && b.name == "-" && len(b.args) == 2 {
				if b.args[1] == a {
					return b.args[0]
				}
				if x, k := splitOffset(b.args[1]); x == a && k.Sign() != 0 { // x + (y - (x+k))
					return Add(b.args[0], BigInt(new(big.Int).Neg(k)))
				}
				if x, k := splitOffset(a); x == b.args[1] && k.Sign() != 0 { // (x+k) + (y - x)
					return Add(b.args[0], BigInt(k))
				}
			}
			a, b = b, a
		}
	}
	return app("+", a.sort, a, b)
}
func Neg(a *Term) *Term {
	if a.ival != nil {
		return BigInt(new(big.Int).Neg(a.ival))
	}
	if r := a.rat(); r != nil {
		return RealRat(new(big.Rat).Neg(r))
	}
	return app("-", a.sort, a)
}
func Sub(a, b *Term) *Term {
	if a == b {
		if a.sort == SInt {
			return Int(0)
		}
	}
	if b.ival != nil {
		return Add(a, Neg(b))
	}
	if ra, rb := a.rat(), b.rat(); ra != nil && rb != nil {
		return RealRat(new(big.Rat).Sub(ra, rb))
	}
	if a.sort == SInt {
		ba, ka := splitOffset(a)
		bb, kb := splitOffset(b)
		if ba == bb {
			return BigInt(new(big.Int).Sub(ka, kb))
		}
	}
	return app("-", a.sort, a, b)
}
func Mul(a, b *Term) *Term {
	if a.ival != nil && b.ival != nil {
		return BigInt(new(big.Int).Mul(a.ival, b.ival))
	}
	if a.ival != nil && a.ival.Cmp(big.NewInt(1)) == 0 {
		return b
	}
	if b.ival != nil && b.ival.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return app("*", a.sort, a, b)
}

// mathematical floor div / mod as in SMT-LIB (divisor positive)
func Div(a, b *Term) *Term {
	if a.ival != nil && b.ival != nil && b.ival.Sign() > 0 {
		q := new(big.Int)
		q.Div(a.ival, b.ival)
		return BigInt(q)
	}
	return app("div", SInt, a, b)
}
func Mod(a, b *Term) *Term {
	if a.ival != nil && b.ival != nil && b.ival.Sign() > 0 {
		q := new(big.Int)
		q.Mod(a.ival, b.ival)
		return BigInt(q)
	}
	return app("mod", SInt, a, b)
}

func cmpLit(a, b *Term) (int, bool) {
	if a.ival != nil && b.ival != nil {
		return a.ival.Cmp(b.ival), true
	}
	ra, rb := a.rat(), b.rat()
	if ra != nil && rb != nil {
		return ra.Cmp(rb), true
	}
	if a.sort == SInt {
		ba, ka := splitOffset(a)
		bb, kb := splitOffset(b)
		if ba == bb {
			return ka.Cmp(kb), true
		}
	}
	return 0, false
}
func Lt(a, b *Term) *Term {
	if a.sort != b.sort {
		panic("lt sorts " + string(a.sort) + " " + string(b.sort))
	}
	if c, ok := cmpLit(a, b); ok {
		return Bool(c < 0)
	}
	return app("<", SBool, a, b)
}
func Le(a, b *Term) *Term {
	if a.sort != b.sort {
		panic("le sorts " + string(a.sort) + " " + string(b.sort))
	}
	if c, ok := cmpLit(a, b); ok {
		return Bool(c <= 0)
	}
	return app("<=", SBool, a, b)
}
func Gt(a, b *Term) *Term { return Lt(b, a) }
func Ge(a, b *Term) *Term { return Le(b, a) }

func ToReal(a *Term) *Term {
	if a.ival != nil {
		return RealRat(new(big.Rat).SetInt(a.ival))
	}
	return app("to_real", SReal, a)
}
func ToInt(a *Term) *Term { // floor
	if a.op == "app" && a.name == "to_real" {
		return a.args[0]
	}
	return app("to_int", SInt, a)
}

func Select(a, i *Term) *Term {
	ks, vs := a.sort.arr()
	if ks != i.sort {
		panic(fmt.Sprintf("select index sort %s on %s", i.sort, a.sort))
	}
	// read over write
	for a.op == "app" && a.name == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if distinctTerms(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "app" && a.name == "constarr" {
		return a.args[0]
	}
	if a.op == "app" && a.name == "ite" && !i.qd {
		// push select through small ite only when it simplifies on both sides
		x, y := a.args[1], a.args[2]
		if (x.op == "const" || x.name == "store") && (y.op == "const" || y.name == "store") {
			sx, sy := Select(x, i), Select(y, i)
			if sx == sy {
				return sx
			}
		}
	}
	return app("select", vs, a, i)
}

func distinctTerms(a, b *Term) bool {
	if a == b {
		return false
	}
	if isLit(a) && isLit(b) {
		return true
	}
	if a.sort == SInt {
		ba, ka := splitOffset(a)
		bb, kb := splitOffset(b)
		if ba == bb && ka.Cmp(kb) != 0 {
			return true
		}
		if ba.op == "app" && bb.op == "app" && ba.name == "elt" && bb.name == "elt" && ba == a && bb == b {
			return distinctTerms(ba.args[0], bb.args[0]) || (ba.args[0] == bb.args[0] && distinctTerms(ba.args[1], bb.args[1]))
		}
	}
	return false
}

func Store(a, i, v *Term) *Term {
	ks, vs := a.sort.arr()
	if ks != i.sort || vs != v.sort {
		panic(fmt.Sprintf("store sorts %s [%s]=%s", a.sort, i.sort, v.sort))
	}
	if a.op == "app" && a.name == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "app" && v.name == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return app("store", a.sort, a, i, v)
}

func ConstArr(s Sort, v *Term) *Term { return app("constarr", s, v) }

func Forall(vars []*Term, trigs [][]*Term, body *Term) *Term {
	if body.op == "lit" || len(vars) == 0 {
		return body
	}
	if len(trigs) > 1 {
		// alternatives that index an array at different offsets: one formula each
		v2, t2, b2 := shiftIndices(vars, trigs, body)
		if b2 == body && needsShift(vars, trigs) {
			var fs []*Term
			for _, g := range trigs {
				fs = append(fs, Forall(vars, [][]*Term{g}, body))
			}
			return And(fs...)
		}
		vars, trigs, body = v2, t2, b2
	} else {
		vars, trigs, body = shiftIndices(vars, trigs, body)
	}
	return B.mk(&Term{op: "forall", sort: SBool, args: []*Term{body}, bvars: vars, trigs: trigs})
}

func needsShift(vars []*Term, trigs [][]*Term) bool {
	for _, g := range trigs {
		for _, t := range g {
			for _, v := range vars {
				if v.sort == SInt && findShift(t, v, map[*Term]bool{}) != nil {
					return true
				}
			}
		}
	}
	return false
}

// shiftIndices rewrites "forall k {a[off+k]} P(k)" to "forall j {a[j]} P(j-off)": triggers without arithmetic.
func shiftIndices(vars []*Term, trigs [][]*Term, body *Term) ([]*Term, [][]*Term, *Term) {
	for vi, k := range vars {
		if k.sort != SInt || len(trigs) == 0 {
			continue
		}
		var off *Term
		for _, t := range trigs[0] {
			if off == nil {
				off = findShift(t, k, map[*Term]bool{})
			}
		}
		if off == nil || off.ival != nil {
			continue
		}
		j := Var(k.name+"'", SInt)
		m := map[*Term]*Term{k: Sub(j, off)}
		ok := true
		var nt [][]*Term
		for _, g := range trigs {
			var ng []*Term
			for _, t := range g {
				u := Subst(t, m)
				if arithOver(u, j, map[*Term]bool{}) {
					ok = false
				}
				ng = append(ng, u)
			}
			for _, v := range vars {
				w := v
				if v == k {
					w = j
				}
				hit := false
				for _, u := range ng {
					hit = hit || hasTerm(u, w, map[*Term]bool{})
				}
				ok = ok && hit
			}
			nt = append(nt, ng)
		}
		if !ok {
			continue
		}
		nv := append([]*Term(nil), vars...)
		nv[vi] = j
		vars, trigs, body = nv, nt, Subst(body, m)
	}
	return vars, trigs, body
}

func hasTerm(t, v *Term, seen map[*Term]bool) bool {
	if t == v {
		return true
	}
	if !t.qd || seen[t] {
		return false
	}
	seen[t] = true
	for _, a := range t.args {
		if hasTerm(a, v, seen) {
			return true
		}
	}
	return false
}

// arithOver: j occurs below an arithmetic operator of t
func arithOver(t, j *Term, seen map[*Term]bool) bool {
	if !t.qd || seen[t] {
		return false
	}
	seen[t] = true
	if t.op == "app" && (t.name == "+" || t.name == "-" || t.name == "*") && hasTerm(t, j, map[*Term]bool{}) {
		return true
	}
	for _, a := range t.args {
		if arithOver(a, j, seen) {
			return true
		}
	}
	return false
}

// findShift: X when an array is read at X+k (X without k)
func findShift(t, k *Term, seen map[*Term]bool) *Term {
	if !t.qd || seen[t] {
		return nil
	}
	seen[t] = true
	if t.op == "app" && (t.name == "select" || t.name == "elt") {
		i, c := splitOffset(t.args[1])
		if i.op == "app" && i.name == "+" && len(i.args) == 2 {
			for n := 0; n < 2; n++ {
				if i.args[n] == k && !hasTerm(i.args[1-n], k, map[*Term]bool{}) {
					return Add(i.args[1-n], BigInt(c))
				}
			}
		}
	}
	for _, a := range t.args {
		if r := findShift(a, k, seen); r != nil {
			return r
		}
	}
	return nil
}

func Exists(vars []*Term, trigs [][]*Term, body *Term) *Term {
	if body.op == "lit" || len(vars) == 0 {
		return body
	}
	if len(trigs) > 1 {
		v2, t2, b2 := shiftIndices(vars, trigs, body)
		if b2 == body && needsShift(vars, trigs) {
			var fs []*Term
			for _, g := range trigs {
				fs = append(fs, Exists(vars, [][]*Term{g}, body))
			}
			return Or(fs...)
		}
		vars, trigs, body = v2, t2, b2
	} else {
		vars, trigs, body = shiftIndices(vars, trigs, body)
	}
	return B.mk(&Term{op: "exists", sort: SBool, args: []*Term{body}, bvars: vars, trigs: trigs})
}

// Subst replaces terms (constants or vars) by others.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return subst(t, m, memo)
}
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if x, ok := m[t]; ok {
		return x
	}
	if len(t.args) == 0 {
		return t
	}
	if x, ok := memo[t]; ok {
		return x
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = subst(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if t.op == "forall" || t.op == "exists" {
		var trigs [][]*Term
		for _, tr := range t.trigs {
			var n []*Term
			for _, x := range tr {
				n = append(n, subst(x, m, memo))
			}
			trigs = append(trigs, n)
		}
		if ch {
			if t.op == "forall" {
				r = Forall(t.bvars, trigs, args[0])
			} else {
				r = Exists(t.bvars, trigs, args[0])
			}
		}
	} else if ch {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.name {
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "not":
		return Not(args[0])
	case "=>":
		return Implies(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "+":
		return Add(args[0], args[1])
	case "-":
		if len(args) == 2 {
			return Sub(args[0], args[1])
		}
		return Neg(args[0])
	case "*":
		return Mul(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "to_real":
		return ToReal(args[0])
	}
	return B.mk(&Term{op: t.op, name: t.name, sort: t.sort, args: args})
}

// ---- printing

func quoteSym(s string) string {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.!$-+*/<>=", r)) {
			return "|" + s + "|"
		}
	}
	return s
}

func smtString(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ { // a Go string is a sequence of bytes
		r := rune(s[i])
		if r == '"' {
			sb.WriteString("\"\"")
		} else if r >= 32 && r < 127 && r != '\\' {
			sb.WriteRune(r)
		} else {
			fmt.Fprintf(&sb, "\\u{%x}", r)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

type printer struct {
	abstractStr bool
	strLits     map[string]string
	sb          *strings.Builder
	names       map[*Term]string // shared closed subterms
	refs        map[*Term]int
	used        map[string]*Decl
	order       []*Term
	facts       []*Term
	patIte      map[*Term]bool // closed conditional terms inside patterns: solvers want a name for them
}

// markPat notes the outermost closed conditionals inside a pattern.
func (p *printer) markPat(t *Term) {
	if t.op == "app" && t.name == "ite" && !t.qd && t.sort != SBool {
		p.patIte[t] = true
		return
	}
	for _, a := range t.args {
		p.markPat(a)
	}
}

func (p *printer) sortName(s Sort) string {
	if p.abstractStr {
		return string(s) // Str is declared as a sort
	}
	return strings.ReplaceAll(string(s), "Str", "String")
}

func (p *printer) lit(t *Term) string {
	switch t.sort {
	case SInt:
		if t.ival.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.ival).String() + ")"
		}
		return t.name
	case SReal:
		r := t.rat()
		neg := r.Sign() < 0
		ab := new(big.Rat).Abs(r)
		var s string
		if ab.IsInt() {
			s = ab.Num().String() + ".0"
		} else {
			s = "(/ " + ab.Num().String() + ".0 " + ab.Denom().String() + ".0)"
		}
		if neg {
			return "(- " + s + ")"
		}
		return s
	case SStr:
		if p.abstractStr {
			if n, ok := p.strLits[t.sval]; ok {
				return n
			}
			n := fmt.Sprintf("strlit!%d", len(p.strLits))
			p.strLits[t.sval] = n
			return n
		}
		return smtString(t.sval)
	}
	return t.name
}

func (p *printer) count(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	for _, a := range t.args {
		p.count(a)
	}
	for _, tr := range t.trigs {
		for _, a := range tr {
			p.count(a)
			if p.patIte != nil {
				p.markPat(a)
			}
		}
	}
	if t.op == "const" || t.op == "app" {
		if d, ok := B.decls[t.name]; ok {
			p.used[t.name] = d
		}
	}
	if !t.qd || t.op == "forall" {
		for _, f := range B.side[t.id] {
			p.facts = append(p.facts, f)
			p.count(f)
		}
	}
}

func (p *printer) str(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	switch t.op {
	case "lit":
		return p.lit(t)
	case "const", "var":
		return quoteSym(t.name)
	}
	var s string
	if t.op == "forall" || t.op == "exists" {
		var sb strings.Builder
		sb.WriteString("(" + t.op + " (")
		for _, v := range t.bvars {
			fmt.Fprintf(&sb, "(%s %s)", quoteSym(v.name), p.sortName(v.sort))
		}
		sb.WriteString(") ")
		body := p.str(t.args[0])
		if len(t.trigs) > 0 {
			sb.WriteString("(! " + body)
			for _, tr := range t.trigs {
				sb.WriteString(" :pattern (")
				for i, x := range tr {
					if i > 0 {
						sb.WriteByte(' ')
					}
					sb.WriteString(p.str(x))
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		} else {
			sb.WriteString(body)
		}
		sb.WriteString(")")
		s = sb.String()
	} else if t.name == "constarr" && !t.qd && p.abstractStr && !(t.args[0].op == "lit" && t.args[0].sort != SStr) {
		// solvers want a value there: a named array equal to it everywhere
		n := fmt.Sprintf("ca!%d", t.id)
		v := p.str(t.args[0])
		ks, _ := t.sort.arr()
		fmt.Fprintf(p.sb, "(declare-fun %s () %s)\n(assert (forall ((i %s)) (! (= (select %s i) %s) :pattern ((select %s i)))))\n", n, p.sortName(t.sort), p.sortName(ks), n, v, n)
		p.names[t] = n
		return n
	} else if t.name == "constarr" {
		s = "((as const " + p.sortName(t.sort) + ") " + p.str(t.args[0]) + ")"
	} else {
		var sb strings.Builder
		name := t.name
		if p.abstractStr {
			if strings.HasPrefix(name, "str.") {
				name = "u" + name
			}
		}
		if len(t.args) == 0 {
			return quoteSym(name)
		}
		sb.WriteString("(" + quoteSym(name))
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(p.str(a))
		}
		sb.WriteString(")")
		s = sb.String()
	}
	if p.patIte[t] {
		n := fmt.Sprintf("d!%d", t.id)
		fmt.Fprintf(p.sb, "(declare-fun %s () %s)\n(assert (= %s %s))\n", n, p.sortName(t.sort), n, s)
		p.names[t] = n
		return n
	}
	if !t.qd && p.refs[t] > 1 && len(t.args) > 0 {
		n := fmt.Sprintf("d!%d", t.id)
		fmt.Fprintf(p.sb, "(define-fun %s () %s %s)\n", n, p.sortName(t.sort), s)
		p.names[t] = n
		return n
	}
	return s
}

func (t *Term) String() string {
	p := &printer{names: map[*Term]string{}, refs: map[*Term]int{}, used: map[string]*Decl{}, strLits: map[string]string{}, sb: &strings.Builder{}}
	return p.str(t)
}

const strPrelude = `(declare-sort Str 0)
(declare-fun ustr.len (Str) Int)
(declare-fun ustr.++ (Str Str) Str)
(declare-fun ustr.contains (Str Str) Bool)
(declare-fun ustr.prefixof (Str Str) Bool)
(declare-fun ustr.suffixof (Str Str) Bool)
(declare-fun ustr.indexof (Str Str Int) Int)
(declare-fun ustr.substr (Str Int Int) Str)
(declare-fun ustr.at (Str Int) Str)
(declare-fun ustr.< (Str Str) Bool)
(declare-fun ustr.<= (Str Str) Bool)
(assert (forall ((s Str)) (! (>= (ustr.len s) 0) :pattern ((ustr.len s)))))
(assert (forall ((a Str) (b Str)) (! (= (ustr.len (ustr.++ a b)) (+ (ustr.len a) (ustr.len b))) :pattern ((ustr.++ a b)))))
`

// Script renders assertions as an SMT-LIB script (without check-sat).
func Script(asserts []*Term, abstractStr bool) string {
	p := &printer{abstractStr: abstractStr, patIte: map[*Term]bool{}, names: map[*Term]string{}, refs: map[*Term]int{}, used: map[string]*Decl{}, strLits: map[string]string{}, sb: &strings.Builder{}}
	for _, a := range asserts {
		p.count(a)
		p.refs[a]++
	}
	// axioms for used function symbols (to fixpoint)
	axDone := map[string]bool{}
	var axs []*Term
	for {
		ch := false
		names := make([]string, 0)
		for n := range p.used {
			if !axDone[n] {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			axDone[n] = true
			for _, ax := range B.axioms[n] {
				axs = append(axs, ax)
				p.count(ax)
				ch = true
			}
		}
		if abstractStr && !axDone["str.++"] && len(B.axioms["str.++"]) > 0 {
			for t := range p.refs {
				if t.op == "app" && t.name == "str.++" {
					axDone["str.++"], ch = true, true
					break
				}
			}
			if ch && axDone["str.++"] {
				for _, ax := range B.axioms["str.++"] {
					axs = append(axs, ax)
					p.count(ax)
				}
			}
		}
		if !ch {
			break
		}
	}
	// body first to collect string literals and define-funs
	var body strings.Builder
	emit := func(t *Term) {
		s := p.str(t)
		body.WriteString(p.sb.String())
		p.sb.Reset()
		body.WriteString("(assert " + s + ")\n")
	}
	seen := map[*Term]bool{}
	for _, a := range axs {
		emit(a)
	}
	for _, f := range p.facts {
		if !seen[f] {
			seen[f] = true
			emit(f)
		}
	}
	for _, a := range asserts {
		emit(a)
	}
	var out strings.Builder
	out.WriteString("(set-logic ALL)\n")
	if abstractStr {
		out.WriteString(strPrelude)
		type kv struct{ k, v string }
		var l []kv
		for k, v := range p.strLits {
			l = append(l, kv{k, v})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].v < l[j].v })
		for _, x := range l {
			fmt.Fprintf(&out, "(declare-const %s Str) ; %q\n(assert (= (ustr.len %s) %d))\n", x.v, x.k, x.v, len(x.k))
		}
		if len(l) > 1 {
			out.WriteString("(assert (distinct")
			for _, x := range l {
				out.WriteString(" " + x.v)
			}
			out.WriteString("))\n")
		}
		// length zero only for the empty string
		if e, ok := p.strLits[""]; ok {
			fmt.Fprintf(&out, "(assert (forall ((s Str)) (! (=> (= (ustr.len s) 0) (= s %s)) :pattern ((ustr.len s)))))\n", e)
		}
	}
	var dn []string
	for n := range p.used {
		dn = append(dn, n)
	}
	sort.Strings(dn)
	for _, n := range dn {
		d := p.used[n]
		out.WriteString("(declare-fun " + quoteSym(n) + " (")
		for i, a := range d.args {
			if i > 0 {
				out.WriteByte(' ')
			}
			out.WriteString(p.sortName(a))
		}
		out.WriteString(") " + p.sortName(d.res) + ")\n")
	}
	out.WriteString(body.String())
	return out.String()
}

// pushSelect reads an array built by ite and store at i, branch by branch.
func pushSelect(a, i *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[a]; ok {
		return r
	}
	var r *Term
	switch {
	case a.op == "app" && a.name == "ite":
		r = Ite(a.args[0], pushSelect(a.args[1], i, memo), pushSelect(a.args[2], i, memo))
	case a.op == "app" && a.name == "store" && a.args[1] != i:
		r = Ite(Eq(a.args[1], i), a.args[2], pushSelect(a.args[0], i, memo))
	default:
		r = Select(a, i)
	}
	memo[a] = r
	return r
}
