package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// TV is a typed value of the specification language. Exactly one of t, st
// describes its type (st for ghost arrays).
type TV struct {
	v     Val
	t     types.Type
	st    *SType
	isNil bool
}

type Env struct {
	x          *Exec
	st         *State
	old        *State
	names      map[string]TV
	local      map[string]nameRef
	iter       *Term
	outer      *Term
	fr         *Frame
	loop       *Loop
	inOld      bool
	unresolved map[string]bool
}

type specErr struct {
	msg  string
	name string // unresolved name, if that is the trouble
}

func (e *Env) fail(ex *Expr, f string, a ...any) {
	panic(specErr{msg: fmt.Sprintf("%s:%d: %s", ex.file, ex.line, fmt.Sprintf(f, a...))})
}

func (e *Env) with(n string, v TV) *Env {
	c := *e
	c.names = make(map[string]TV, len(e.names)+1)
	for k, w := range e.names {
		c.names[k] = w
	}
	c.names[n] = v
	return &c
}

var (
	tInt   = types.Typ[types.UntypedInt]
	tFloat = types.Typ[types.Float64]
	tBool  = types.Typ[types.Bool]
	tStr   = types.Typ[types.String]
	tRef   = types.Typ[types.UnsafePointer]
	tAny   = types.NewInterfaceType(nil, nil)
)

// dynType: the Go type a dynamic type test names (int is Go's int).
func (x *Exec) dynType(s *SType) types.Type {
	if s.kind == "name" && s.name == "int" {
		return types.Typ[types.Int]
	}
	return x.goType(s)
}

func (x *Exec) goType(s *SType) types.Type {
	switch s.kind {
	case "ptr":
		return types.NewPointer(x.goType(s.elem))
	case "slice":
		return types.NewSlice(x.goType(s.elem))
	case "map":
		return types.NewMap(x.goType(s.key), x.goType(s.elem))
	case "array":
		return nil
	}
	switch s.name {
	case "int":
		return tInt
	case "int64":
		return types.Typ[types.Int64]
	case "int32":
		return types.Typ[types.Int32]
	case "float":
		return tFloat
	case "real": // exact, totally ordered: for ghost state
		return types.Typ[types.UntypedFloat]
	case "bool":
		return tBool
	case "string":
		return tStr
	case "ref":
		return tRef
	case "any":
		return tAny
	case "error":
		return types.Universe.Lookup("error").Type()
	}
	if i := strings.LastIndex(s.name, "."); i > 0 {
		if o := x.pkgObj(s.name[:i], s.name[i+1:]); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
	}
	panic(specErr{msg: "unknown type " + s.name})
}

// pkgObj finds a package-level object by package short name.
func (x *Exec) pkgObj(pkg, name string) types.Object {
	var best types.Object
	for path, alias := range pkgAlias {
		if alias == pkg {
			if p, ok := x.p.pkgs[path]; ok && p.Types != nil {
				if o := p.Types.Scope().Lookup(name); o != nil {
					return o
				}
			}
		}
	}
	for _, p := range x.p.byName[pkg] {
		if a, ok := pkgAlias[p.Path()]; ok && a != pkg {
			continue
		}
		if o := p.Scope().Lookup(name); o != nil {
			if best == nil || strings.HasPrefix(p.Path(), modPath) {
				best = o
			}
		}
	}
	return best
}

func (x *Exec) sortOfS(s *SType) Sort {
	if s.kind == "array" {
		return ArrSort(x.sortOfS(s.key), x.sortOfS(s.elem))
	}
	t := x.goType(s)
	so, ok := scalarSort(t)
	if !ok {
		panic(specErr{msg: "type " + s.String() + " has no scalar sort"})
	}
	return so
}

func (x *Exec) tvType(s *SType, v Val) TV {
	if s.kind == "array" {
		return TV{v: v, st: s}
	}
	return TV{v: v, t: x.goType(s)}
}

// ghostKey registers a ghost variable or field.
func (x *Exec) ghostKey(n string) (string, *GhostDecl) {
	g := x.sp.ghosts[n]
	if g == nil {
		return "", nil
	}
	if g.field {
		k := "GF:" + n
		if _, ok := x.keys[k]; !ok {
			lf := Leaf{"", x.sortOfS(g.typ), nil, ""}
			if g.typ.kind != "array" {
				lf.t = x.goType(g.typ)
				if lf.t == tInt || lf.t == tRef {
					lf.t = nil
				}
			}
			x.info(k, KeyInfo{sort: ArrSort(SInt, lf.sort), leaf: lf, kind: "field"})
		}
		return k, g
	}
	k := "G:" + n
	if _, ok := x.keys[k]; !ok {
		ki := KeyInfo{sort: x.sortOfS(g.typ), kind: "ghost"}
		x.info(k, ki)
	}
	return k, g
}

func (x *Exec) evalBool(env *Env, st *State, e *Expr) *Term {
	env.st = st
	tv := env.eval(e)
	t, ok := tv.v.(*Term)
	if !ok || t.sort != SBool {
		env.fail(e, "boolean expected")
	}
	return t
}

func (e *Env) evalB(ex *Expr) *Term {
	tv := e.eval(ex)
	t, ok := tv.v.(*Term)
	if !ok || t.sort != SBool {
		e.fail(ex, "boolean expected")
	}
	return t
}

func (e *Env) rval(tv TV, ex *Expr) Val {
	if a, ok := tv.v.(AddrV); ok && tv.t != nil && isStruct(tv.t) {
		return e.x.load(e.st, a)
	}
	return tv.v
}

func (e *Env) term(ex *Expr) *Term { return e.termOf(e.eval(ex), ex) }

func (e *Env) termOf(tv TV, ex *Expr) *Term {
	switch v := tv.v.(type) {
	case *Term:
		return v
	case AddrV:
		if tv.t != nil && !isStruct(tv.t) {
			return e.x.addrTerm(v)
		}
		return v.base
	case SliceV:
		e.fail(ex, "slice where a scalar is expected")
	case FuncV:
		return e.x.toTerm(v, tv.t)
	}
	e.fail(ex, "scalar expected, have %T", tv.v)
	return nil
}

func (e *Env) lookup(n string, ex *Expr) (TV, bool) {
	if v, ok := e.names[n]; ok {
		return v, true
	}
	if e.local != nil {
		if r, ok := e.local[n]; ok {
			if r.addr {
				a := e.x.ptr(r.v, r.t)
				if isStruct(r.t) {
					return TV{v: a, t: r.t}, true
				}
				return TV{v: e.x.load(e.st, a), t: r.t}, true
			}
			return TV{v: r.v, t: r.t}, true
		}
	}
	switch n {
	case "true":
		return TV{v: True(), t: tBool}, true
	case "false":
		return TV{v: False(), t: tBool}, true
	case "nil":
		return TV{v: Int(0), t: tRef, isNil: true}, true
	case "iter":
		if e.iter != nil {
			return TV{v: e.iter, t: tInt}, true
		}
	case "outer": // iteration number of the enclosing loop
		if e.outer != nil {
			return TV{v: e.outer, t: tInt}, true
		}
	case "inf":
		return TV{v: Inf(), t: tFloat}, true
	case "nan":
		return TV{v: NaN(), t: tFloat}, true
	}
	if k, g := e.x.ghostKey(n); g != nil && !g.field {
		return e.x.tvType(g.typ, e.x.hget(e.st, k)), true
	}
	return TV{}, false
}

func (e *Env) field(base TV, f string, ex *Expr) TV {
	x := e.x
	t := base.t
	if t == nil {
		e.fail(ex, "field %s of a ghost array", f)
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if isStruct(pt.Elem()) {
			a := x.ptr(base.v, pt.Elem())
			return e.fieldOf(a, pt.Elem(), f, ex)
		}
		if f == "val" {
			a := x.ptr(base.v, pt.Elem())
			return TV{v: x.load(e.st, a), t: pt.Elem()}
		}
		// opaque object: ghost fields only
		return e.ghostField(x.toTerm(base.v, t), pt.Elem(), f, ex)
	}
	if isStruct(t) {
		switch v := base.v.(type) {
		case AddrV:
			return e.fieldOf(v, t, f, ex)
		case *Term:
			return e.fieldOf(ptrTarget(v, t), t, f, ex)
		case StructV:
			u := t.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == f {
					return TV{v: v.f[i], t: u.Field(i).Type()}
				}
			}
		}
	}
	if tm, ok := base.v.(*Term); ok {
		return e.ghostField(tm, t, f, ex)
	}
	e.fail(ex, "no field %s on %s", f, t)
	return TV{}
}

func (e *Env) ghostField(r *Term, t types.Type, f string, ex *Expr) TV {
	k, g := e.x.ghostKey(typeKey(t) + "." + f)
	if g == nil {
		e.fail(ex, "no field %s on %s", f, typeKey(t))
	}
	return e.x.tvType(g.typ, Select(e.x.hget(e.st, k), r))
}

func (e *Env) fieldOf(a AddrV, t types.Type, f string, ex *Expr) TV {
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == f {
			fa := AddrV{base: a.base, key: a.key + "." + f, t: u.Field(i).Type()}
			if isStruct(fa.t) {
				return TV{v: fa, t: fa.t}
			}
			return TV{v: e.x.load(e.st, fa), t: fa.t}
		}
	}
	for i := 0; i < u.NumFields(); i++ { // promoted through embedding
		if u.Field(i).Embedded() {
			ft := u.Field(i).Type()
			if st, ok := ft.Underlying().(*types.Struct); ok {
				for j := 0; j < st.NumFields(); j++ {
					if st.Field(j).Name() == f {
						return e.fieldOf(AddrV{base: a.base, key: a.key + "." + u.Field(i).Name(), t: ft}, ft, f, ex)
					}
				}
			}
		}
	}
	return e.ghostField(a.base, t, f, ex)
}

func (e *Env) pkgName(ex *Expr) (string, bool) {
	if ex.op != "ident" {
		return "", false
	}
	if _, ok := e.lookup(ex.s, ex); ok {
		return "", false
	}
	if _, ok := e.x.p.byName[ex.s]; ok {
		return ex.s, true
	}
	for _, a := range pkgAlias {
		if a == ex.s {
			return a, true
		}
	}
	return "", false
}

func (e *Env) eval(ex *Expr) TV {
	x := e.x
	switch ex.op {
	case "num":
		if strings.Contains(ex.s, ".") {
			r, _ := new(big.Rat).SetString(ex.s)
			return TV{v: RealRat(r), t: tFloat}
		}
		b, _ := new(big.Int).SetString(ex.s, 10)
		return TV{v: BigInt(b), t: tInt}
	case "pow":
		a := e.term(ex.args[0])
		b := e.term(ex.args[1])
		return TV{v: BigInt(new(big.Int).Exp(a.ival, b.ival, nil)), t: tInt}
	case "str":
		return TV{v: StrLit(ex.s), t: tStr}
	case "ident":
		tv, ok := e.lookup(ex.s, ex)
		if !ok {
			panic(specErr{msg: fmt.Sprintf("%s:%d: unknown name %s", ex.file, ex.line, ex.s), name: ex.s})
		}
		return tv
	case "field":
		if pk, ok := e.pkgName(ex.args[0]); ok {
			return e.pkgMember(pk, ex.s, ex)
		}
		// a variable with the name of a package hides it only for its own fields
		if b := ex.args[0]; b.op == "ident" && x.pkgObj(b.s, ex.s) != nil {
			if tv := e.eval(b); tv.t != nil {
				if o, _, _ := types.LookupFieldOrMethod(tv.t, true, nil, ex.s); o == nil && ast.IsExported(ex.s) {
					return e.pkgMember(b.s, ex.s, ex)
				}
			}
		}
		return e.field(e.eval(ex.args[0]), ex.s, ex)
	case "index":
		b := e.eval(ex.args[0])
		if b.st != nil && b.st.kind == "array" {
			i := e.coerceIdx(ex.args[1], b.st.key)
			return x.tvType(b.st.elem, Select(b.v.(*Term), i))
		}
		switch u := b.t.Underlying().(type) {
		case *types.Slice:
			s, ok := b.v.(SliceV)
			if !ok {
				e.fail(ex, "slice expected")
			}
			a := x.elemAddr(s, e.term(ex.args[1]), u.Elem())
			if isStruct(u.Elem()) {
				return TV{v: a, t: u.Elem()}
			}
			return TV{v: x.load(e.st, a), t: u.Elem()}
		case *types.Map:
			v, _ := x.mapGet(e.st, e.termOf(b, ex), e.coerceT(ex.args[1], u.Key()), b.t)
			return TV{v: v, t: u.Elem()}
		}
		e.fail(ex, "cannot index %s", b.t)
	case "unary":
		switch ex.s {
		case "!":
			return TV{v: Not(e.evalB(ex.args[0])), t: tBool}
		case "-":
			a := e.eval(ex.args[0])
			t := e.termOf(a, ex)
			return TV{v: Neg(t), t: a.t}
		case "*":
			a := e.eval(ex.args[0])
			pt, ok := a.t.Underlying().(*types.Pointer)
			if !ok {
				e.fail(ex, "dereference of %s", a.t)
			}
			ad := x.ptr(a.v, pt.Elem())
			if isStruct(pt.Elem()) {
				return TV{v: ad, t: pt.Elem()}
			}
			return TV{v: x.load(e.st, ad), t: pt.Elem()}
		case "&": // of a struct in memory
			a := e.eval(ex.args[0])
			if a.t == nil || !isStruct(a.t) {
				e.fail(ex, "& of something that is not a struct in memory")
			}
			switch a.v.(type) {
			case *Term, AddrV:
			default:
				e.fail(ex, "& of a struct value")
			}
			pt := types.NewPointer(a.t)
			return TV{v: x.toTerm(a.v, pt), t: pt}
		}
	case "binary":
		return e.binary(ex)
	case "ite":
		c := e.evalB(ex.args[0])
		a, b := e.eval(ex.args[1]), e.eval(ex.args[2])
		a, b = e.unify(a, b, ex)
		m, ok := mergeVal(c, e.rval(a, ex), e.rval(b, ex))
		if !ok {
			e.fail(ex, "branches of ?: differ in kind")
		}
		return TV{v: m, t: a.t, st: a.st}
	case "let":
		v := e.eval(ex.args[0])
		return e.with(ex.s, v).eval(ex.args[1])
	case "old":
		if e.old == nil {
			e.fail(ex, "old() not available here")
		}
		c := *e
		c.st = e.old
		c.inOld = true
		c.local = nil
		return c.eval(ex.args[0])
	case "forall", "exists":
		c := *e
		c.names = make(map[string]TV, len(e.names)+2)
		for k, w := range e.names {
			c.names[k] = w
		}
		var vs []*Term
		var range_ []*Term
		for _, v := range ex.vars {
			so := x.sortOfS(v.typ)
			bv := Var(fmt.Sprintf("%s~%d", v.name, quantCtr()), so)
			vs = append(vs, bv)
			c.names[v.name] = x.tvType(v.typ, bv)
			if v.typ.kind != "array" {
				gt := x.goType(v.typ)
				if lo, hi, ok := intRange(gt); ok && gt != tInt {
					range_ = append(range_, And(Le(BigInt(lo), bv), Le(bv, BigInt(hi))))
				}
			}
		}
		body := c.evalB(ex.args[0])
		if ex.op == "forall" {
			body = Implies(And(range_...), body)
		} else {
			body = And(append(range_, body)...)
		}
		var trs [][]*Term
		for _, tr := range ex.trig {
			var l []*Term
			for _, t := range tr {
				l = append(l, c.term(t))
			}
			trs = append(trs, l)
		}
		if ex.op == "forall" {
			return TV{v: Forall(vs, trs, body), t: tBool}
		}
		return TV{v: Exists(vs, trs, body), t: tBool}
	case "call":
		return e.call(ex)
	}
	e.fail(ex, "cannot evaluate %s", ex.op)
	return TV{}
}

var quantN int

func quantCtr() int { quantN++; return quantN }

func (e *Env) pkgMember(pk, name string, ex *Expr) TV {
	x := e.x
	o := x.pkgObj(pk, name)
	switch o := o.(type) {
	case *types.Const:
		t := o.Type()
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			t = types.Default(t)
		}
		return TV{v: x.constVal(ssa.NewConst(o.Val(), t)), t: t}
	case *types.Var:
		sp := x.p.prog.Package(o.Pkg())
		if sp != nil {
			if g, ok := sp.Members[name].(*ssa.Global); ok {
				a := x.globalAddr(e.st, g)
				if isStruct(o.Type()) {
					return TV{v: a, t: o.Type()}
				}
				return TV{v: x.load(e.st, a), t: o.Type()}
			}
		}
	}
	e.fail(ex, "unknown %s.%s", pk, name)
	return TV{}
}

var _ = constant.MakeBool

func (e *Env) coerceIdx(ex *Expr, st *SType) *Term {
	tv := e.eval(ex)
	if st.kind == "array" {
		return tv.v.(*Term)
	}
	return e.coerceTo(tv, e.x.sortOfS(st), ex)
}
func (e *Env) coerceT(ex *Expr, t types.Type) *Term {
	if _, ok := scalarSort(t); !ok && isStruct(t) {
		// key(a, b, ...): the struct with these fields
		if ex.op == "call" && ex.args[0].op == "ident" && ex.args[0].s == "key" {
			_, ls := e.x.tupleSort(t)
			if len(ls) != len(ex.args)-1 {
				e.fail(ex, "%d fields expected", len(ls))
			}
			var ts []*Term
			for i, a := range ex.args[1:] {
				ts = append(ts, e.coerceT(a, ls[i].t))
			}
			return Fn("tuple:"+typeKey(t), SInt, ts...)
		}
		tv := e.eval(ex)
		return e.x.tuple(e.rval(tv, ex), t)
	}
	s, _ := scalarSort(t)
	return e.coerceTo(e.eval(ex), s, ex)
}
func (e *Env) coerceTo(tv TV, s Sort, ex *Expr) *Term {
	t := e.termOf(tv, ex)
	if t.sort == s {
		return t
	}
	if t.sort == SInt && s == SReal {
		return ToReal(t)
	}
	e.fail(ex, "sort %s where %s is expected", t.sort, s)
	return nil
}

func (e *Env) unify(a, b TV, ex *Expr) (TV, TV) {
	ta, oka := a.v.(*Term)
	tb, okb := b.v.(*Term)
	if oka && okb {
		if ta.sort == SInt && tb.sort == SReal {
			return TV{v: ToReal(ta), t: b.t}, b
		}
		if tb.sort == SInt && ta.sort == SReal {
			return a, TV{v: ToReal(tb), t: a.t}
		}
	}
	if a.isNil {
		if _, ok := b.v.(SliceV); ok {
			return TV{v: SliceV{Int(0), Int(0), Int(0), Int(0)}, t: b.t}, b
		}
		return TV{v: a.v, t: b.t, st: b.st, isNil: true}, b
	}
	if b.isNil {
		if _, ok := a.v.(SliceV); ok {
			return a, TV{v: SliceV{Int(0), Int(0), Int(0), Int(0)}, t: a.t}
		}
		return a, TV{v: b.v, t: a.t, st: a.st, isNil: true}
	}
	return a, b
}

func isFloatTV(a TV) bool {
	t, ok := a.v.(*Term)
	return ok && t.sort == SReal
}

func (e *Env) equal(a, b TV, ex *Expr) *Term {
	an, bn := a.isNil, b.isNil
	a, b = e.unify(a, b, ex)
	if sa, ok := a.v.(SliceV); ok {
		sb, ok := b.v.(SliceV)
		if !ok {
			e.fail(ex, "slice compared with %T", b.v)
		}
		if an || bn {
			return Eq(sa.arr, sb.arr)
		}
		return And(Eq(sa.arr, sb.arr), Eq(sa.off, sb.off), Eq(sa.ln, sb.ln))
	}
	va, vb := e.rvalP(a, ex), e.rvalP(b, ex)
	if sa, ok := va.(StructV); ok {
		sb, ok := vb.(StructV)
		if !ok {
			e.fail(ex, "struct compared with %T", vb)
		}
		fa, fb := e.x.flat(sa, a.t), e.x.flat(sb, a.t)
		var cs []*Term
		for i := range fa {
			cs = append(cs, Eq(fa[i], fb[i]))
		}
		return And(cs...)
	}
	ta, tb := e.termOf(TV{v: va, t: a.t, st: a.st}, ex), e.termOf(TV{v: vb, t: b.t, st: b.st}, ex)
	if ta.sort != tb.sort {
		e.fail(ex, "comparison of %s with %s", ta.sort, tb.sort)
	}
	return Eq(ta, tb)
}

func (e *Env) rvalP(a TV, ex *Expr) Val {
	if ad, ok := a.v.(AddrV); ok && a.t != nil {
		if isStruct(a.t) {
			return e.x.load(e.st, ad)
		}
		return e.x.addrTerm(ad)
	}
	return a.v
}

func (e *Env) binary(ex *Expr) TV {
	x := e.x
	_ = x
	switch ex.s {
	case "&&":
		a := e.evalB(ex.args[0])
		if a.op == "lit" && a.name == "false" {
			return TV{v: a, t: tBool}
		}
		return TV{v: And(a, e.evalB(ex.args[1])), t: tBool}
	case "||":
		a := e.evalB(ex.args[0])
		if a.op == "lit" && a.name == "true" {
			return TV{v: a, t: tBool}
		}
		return TV{v: Or(a, e.evalB(ex.args[1])), t: tBool}
	case "==>":
		a := e.evalB(ex.args[0])
		if a.op == "lit" && a.name == "false" {
			return TV{v: True(), t: tBool}
		}
		return TV{v: Implies(a, e.evalB(ex.args[1])), t: tBool}
	case "<==>":
		return TV{v: Eq(e.evalB(ex.args[0]), e.evalB(ex.args[1])), t: tBool}
	case "==":
		return TV{v: e.equal(e.eval(ex.args[0]), e.eval(ex.args[1]), ex), t: tBool}
	case "!=":
		return TV{v: Not(e.equal(e.eval(ex.args[0]), e.eval(ex.args[1]), ex)), t: tBool}
	case "in":
		m := e.eval(ex.args[1])
		mt, ok := m.t.Underlying().(*types.Map)
		if !ok {
			e.fail(ex, "in needs a map")
		}
		_, d := x.mapGet(e.st, e.termOf(m, ex), e.coerceT(ex.args[0], mt.Key()), m.t)
		return TV{v: d, t: tBool}
	}
	a, b := e.unify(e.eval(ex.args[0]), e.eval(ex.args[1]), ex)
	ta, tb := e.termOf(a, ex), e.termOf(b, ex)
	if ta.sort != tb.sort {
		e.fail(ex, "operands of %s have sorts %s and %s", ex.s, ta.sort, tb.sort)
	}
	fl := ta.sort == SReal
	rt := a.t
	if rt == tInt && b.t != nil {
		rt = b.t
	}
	if b, ok := rt.(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		rt = tInt
	}
	switch ex.s {
	case "<", "<=", ">", ">=":
		if ex.s[0] == '>' {
			ta, tb = tb, ta
		}
		if a.t == types.Typ[types.UntypedFloat] || b.t == types.Typ[types.UntypedFloat] {
			fl = false
		}
		var r *Term
		strict := len(ex.s) == 1
		switch {
		case ta.sort == SStr && strict:
			r = app("str.<", SBool, ta, tb)
		case ta.sort == SStr:
			r = app("str.<=", SBool, ta, tb)
		case fl && strict:
			r = flLt(ta, tb)
		case fl:
			r = flLe(ta, tb)
		case strict:
			r = Lt(ta, tb)
		default:
			r = Le(ta, tb)
		}
		return TV{v: r, t: tBool}
	case "+", "-":
		if fl {
			if ex.s == "+" {
				return TV{v: flAdd(ta, tb), t: tFloat}
			}
			return TV{v: flSub(ta, tb), t: tFloat}
		}
		if ta.sort == SStr {
			return TV{v: strCat(ta, tb), t: tStr}
		}
		if ex.s == "+" {
			return TV{v: Add(ta, tb), t: tInt}
		}
		return TV{v: Sub(ta, tb), t: tInt}
	case "++":
		return TV{v: strCat(ta, tb), t: tStr}
	case "*":
		return TV{v: Mul(ta, tb), t: tInt}
	case "/":
		return TV{v: Div(ta, tb), t: tInt}
	case "%":
		return TV{v: Mod(ta, tb), t: tInt}
	}
	e.fail(ex, "operator %s", ex.s)
	return TV{}
}

func (e *Env) call(ex *Expr) TV {
	x := e.x
	f := ex.args[0]
	args := ex.args[1:]
	need := func(n int) {
		if len(args) != n {
			e.fail(ex, "%s takes %d arguments", f.s, n)
		}
	}
	if f.op != "ident" {
		e.fail(ex, "cannot call this")
	}
	if pf, ok := x.sp.pures[f.s]; ok {
		need(len(pf.params))
		if pf.body != nil {
			c := *e
			c.names = map[string]TV{}
			// "result" style names of the enclosing contract are not visible inside
			for i, p := range pf.params {
				v := e.eval(args[i])
				if p.typ.kind != "array" {
					gt := x.goType(p.typ)
					if so, ok := scalarSort(gt); ok && v.st == nil {
						if t, ok := v.v.(*Term); ok && t.sort != so {
							v = TV{v: e.coerceTo(v, so, args[i]), t: gt}
						}
						if v.isNil {
							v = TV{v: v.v, t: gt}
						}
						if v.t != nil && v.t == tRef || v.t == tInt && gt != tInt {
							v.t = gt
						}
					}
				}
				c.names[p.name] = v
			}
			c.local = nil
			r := c.eval(pf.body)
			if pf.res.kind != "array" {
				gt := x.goType(pf.res)
				if so, ok := scalarSort(gt); ok {
					if t, ok := r.v.(*Term); ok && t.sort != so {
						r.v = e.coerceTo(r, so, ex)
					}
				}
				r.t = gt
			}
			return r
		}
		var ts []*Term
		for i, p := range pf.params {
			if p.typ.kind == "slice" {
				s := e.eval(args[i]).v.(SliceV)
				ts = append(ts, s.arr, s.off, s.ln)
				continue
			}
			ts = append(ts, e.coerceIdx(args[i], p.typ))
		}
		return x.tvType(pf.res, Fn("p:"+pf.name, x.sortOfS(pf.res), ts...))
	}
	switch f.s {
	case "len":
		need(1)
		a := e.eval(args[0])
		if a.t == nil {
			e.fail(ex, "len of ghost array")
		}
		switch a.t.Underlying().(type) {
		case *types.Slice:
			return TV{v: a.v.(SliceV).ln, t: tInt}
		case *types.Map:
			mk := x.mapKeys(a.t)
			return TV{v: Select(x.hget(e.st, mk.ln), e.termOf(a, ex)), t: tInt}
		case *types.Basic:
			return TV{v: strLen(e.termOf(a, ex)), t: tInt}
		}
		e.fail(ex, "len of %s", a.t)
	case "cap":
		return TV{v: e.eval(args[0]).v.(SliceV).cp, t: tInt}
	case "arr":
		return TV{v: e.eval(args[0]).v.(SliceV).arr, t: tRef}
	case "off":
		return TV{v: e.eval(args[0]).v.(SliceV).off, t: tInt}
	case "dom": // domain of a map as a ghost array
		need(1)
		a := e.eval(args[0])
		mk := x.mapKeys(a.t)
		return TV{v: Select(x.hget(e.st, mk.dom), e.termOf(a, ex)), st: &SType{kind: "array", key: keyToS(a.t.Underlying().(*types.Map).Key()), elem: &SType{kind: "name", name: "bool"}}}
	case "vals":
		need(1)
		a := e.eval(args[0])
		mk := x.mapKeys(a.t)
		mt := a.t.Underlying().(*types.Map)
		return TV{v: Select(x.hget(e.st, mk.vals[0]), e.termOf(a, ex)), st: &SType{kind: "array", key: keyToS(mt.Key()), elem: sToS(mt.Elem())}}
	case "elems": // content of a scalar slice's backing array
		need(1)
		a := e.eval(args[0])
		et := a.t.Underlying().(*types.Slice).Elem()
		k := x.elemKeys(et)
		return TV{v: Select(x.hget(e.st, k[0]), a.v.(SliceV).arr), st: &SType{kind: "array", key: &SType{kind: "name", name: "int"}, elem: sToS(et)}}
	case "store":
		need(3)
		a := e.eval(args[0])
		if a.st == nil || a.st.kind != "array" {
			e.fail(ex, "store needs a ghost array")
		}
		i := e.coerceIdx(args[1], a.st.key)
		v := e.coerceIdx(args[2], a.st.elem)
		return TV{v: Store(a.v.(*Term), i, v), st: a.st}
	case "isnan":
		return TV{v: isNaN(e.coerceTo(e.eval(args[0]), SReal, ex)), t: tBool}
	case "finite":
		return TV{v: flFinite(e.coerceTo(e.eval(args[0]), SReal, ex)), t: tBool}
	case "tofloat":
		return TV{v: rnd(ToReal(e.term(args[0]))), t: tFloat}
	case "real": // exact real value of an integer
		return TV{v: ToReal(e.term(args[0])), t: tFloat}
	case "rround":
		return TV{v: rnd(e.coerceTo(e.eval(args[0]), SReal, ex)), t: tFloat}
	case "toint":
		return TV{v: x.convert(e.st, e.term(args[0]), tFloat, types.Typ[types.Int64]), t: tInt}
	case "wrap64":
		return TV{v: wrap(e.term(args[0]), types.Typ[types.Int64]), t: tInt}
	case "min", "max":
		need(2)
		a, b := e.unify(e.eval(args[0]), e.eval(args[1]), ex)
		ta, tb := e.termOf(a, ex), e.termOf(b, ex)
		c := Le(ta, tb)
		if f.s == "max" {
			c = Ge(ta, tb)
		}
		return TV{v: Ite(c, ta, tb), t: a.t}
	case "prefixof":
		return TV{v: app("str.prefixof", SBool, e.term(args[0]), e.term(args[1])), t: tBool}
	case "suffixof":
		return TV{v: app("str.suffixof", SBool, e.term(args[0]), e.term(args[1])), t: tBool}
	case "contains":
		return TV{v: app("str.contains", SBool, e.term(args[0]), e.term(args[1])), t: tBool}
	case "indexof":
		return TV{v: app("str.indexof", SInt, e.term(args[0]), e.term(args[1]), Int(0)), t: tInt}
	case "substr":
		return TV{v: subStr(e.term(args[0]), e.term(args[1]), e.term(args[2])), t: tStr}
	case "replaceall":
		return TV{v: app("str.replace_all", SStr, e.term(args[0]), e.term(args[1]), e.term(args[2])), t: tStr}
	case "fromint":
		return TV{v: Fn("itoa", SStr, e.term(args[0])), t: tStr}
	case "visited", "nvisited", "visitedset", "rangemap":
		it := e.iterState()
		if it == nil {
			e.fail(ex, "no map iteration here")
		}
		switch f.s {
		case "nvisited":
			return TV{v: e.st.heap[it.n], t: tInt}
		case "rangemap":
			return TV{v: e.st.heap[strings.TrimSuffix(it.n, ":n")+":m"], t: it.mt}
		}
		if f.s == "visitedset" {
			return TV{v: e.st.heap[it.key], st: &SType{kind: "array", key: keyToS(it.mt.Underlying().(*types.Map).Key()), elem: &SType{kind: "name", name: "bool"}}}
		}
		return TV{v: Select(e.st.heap[it.key], e.coerceT(args[0], it.mt.Underlying().(*types.Map).Key())), t: tBool}
	case "fresh": // allocated during this call
		a := e.eval(args[0])
		var r *Term
		if s, ok := a.v.(SliceV); ok {
			r = s.arr
		} else {
			r = e.termOf(a, ex)
		}
		if e.old == nil {
			e.fail(ex, "fresh() not available here")
		}
		return TV{v: Ge(rootOf(r), e.old.alloc), t: tBool}
	case "allocated": // existed when evaluated
		a := e.eval(args[0])
		var r *Term
		if s, ok := a.v.(SliceV); ok {
			r = s.arr
		} else {
			r = e.termOf(a, ex)
		}
		return TV{v: Lt(rootOfQ(r), e.st.alloc), t: tBool}
	case "elt":
		s := e.eval(args[0]).v.(SliceV)
		return TV{v: elt(s.arr, Add(s.off, e.term(args[1]))), t: tRef}
	case "eltarr":
		return TV{v: Fn("eltArr", SInt, e.term(args[0])), t: tRef}
	case "eltidx":
		return TV{v: Fn("eltIdx", SInt, e.term(args[0])), t: tInt}
	case "ref":
		a := e.eval(args[0])
		return TV{v: e.termOf(a, ex), t: tRef}
	case "addr": // pointer to a struct element or field lvalue
		a := e.eval(args[0])
		ad, ok := a.v.(AddrV)
		if !ok {
			e.fail(ex, "addr of a value")
		}
		return TV{v: x.addrTerm(ad), t: types.NewPointer(a.t)}
	case "typeis":
		i := e.termOf(e.eval(args[0]), ex)
		t := x.dynType(ex.typ)
		if i.op == "app" && i.name == "mkI" {
			return TV{v: Eq(i.args[0], x.typeTag(t)), t: tBool}
		}
		return TV{v: And(Not(Eq(i, Int(0))), Eq(tagOf(i), x.typeTag(t))), t: tBool}
	case "as":
		a := e.eval(args[0])
		t := x.dynType(ex.typ)
		i := e.termOf(a, ex)
		if a.t != nil {
			if _, ok := a.t.Underlying().(*types.Interface); ok {
				return TV{v: x.unboxVal(i, t), t: t}
			}
		}
		return TV{v: i, t: t} // reinterpretation of a reference
	case "boxof":
		a := e.eval(args[0])
		t := x.dynType(ex.typ)
		return TV{v: x.boxVal(e.rvalP(a, ex), t), t: tAny}
	case "constof": // ghost array with one value everywhere
		need(2)
		a := e.eval(args[0])
		return TV{v: ConstArr(a.v.(*Term).sort, e.coerceIdx(args[1], a.st.elem)), st: a.st}
	}
	e.fail(ex, "unknown function %s", f.s)
	return TV{}
}

// keyToS: struct keys of maps are tuples, written as plain references
func keyToS(t types.Type) *SType {
	if _, ok := scalarSort(t); !ok && isStruct(t) {
		return &SType{kind: "name", name: "ref"}
	}
	return sToS(t)
}

func sToS(t types.Type) *SType {
	switch u := types.Unalias(t).(type) {
	case *types.Pointer:
		return &SType{kind: "ptr", elem: sToS(u.Elem())}
	case *types.Slice:
		return &SType{kind: "slice", elem: sToS(u.Elem())}
	case *types.Map:
		return &SType{kind: "map", key: sToS(u.Key()), elem: sToS(u.Elem())}
	case *types.Named:
		return &SType{kind: "name", name: typeShort(u)}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return &SType{kind: "name", name: "string"}
		case u.Info()&types.IsBoolean != 0:
			return &SType{kind: "name", name: "bool"}
		case u.Info()&types.IsFloat != 0:
			return &SType{kind: "name", name: "float"}
		}
		return &SType{kind: "name", name: "int"}
	case *types.Interface:
		return &SType{kind: "name", name: "any"}
	}
	return &SType{kind: "name", name: "ref"}
}

// iterState: the map iteration driven by the loop the invariant belongs to,
// or (in a postcondition) the only one of the function.
func (e *Env) iterState() *iterInfo {
	if e.loop == nil || e.fr == nil {
		return nil
	}
	for b := range e.loop.blocks {
		if e.x.ownLoop(e.fr.fn, b) != e.loop {
			continue
		}
		for _, in := range b.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				if it, ok := e.st.loc[nx.Iter].(IterV); ok {
					return iterTab[it.id]
				}
			}
		}
	}
	return nil
}
