package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val: *Term (scalars and references), SliceV, StructV, TupleV, AddrV, FuncV.
type Val interface{}

type SliceV struct{ arr, off, ln, cp *Term }
type StructV struct {
	t types.Type
	f []Val
}
type TupleV []Val

// AddrV is an lvalue: heap key prefix, base reference and, for elements of
// scalar slices, an index.
type AddrV struct {
	base, idx *Term
	key       string
	t         types.Type // pointee
	nilable   bool       // base may be the nil reference
	root      string     // type name of the containing object (for lock protection)
	field     string
}
type FuncV struct {
	fn   *ssa.Function
	bind []Val
}
type IterV struct{ id string }

type toolErr struct{ msg string }

func unsupported(f string, a ...any) { panic(toolErr{fmt.Sprintf(f, a...)}) }

// ---- types

type Leaf struct {
	suf  string
	sort Sort
	t    types.Type // go type of the leaf (nil for slice parts)
	part string     // "", "arr","off","len","cap"
}

func isTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func opaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic", "google.golang.org/protobuf/internal/impl", "reflect", "google.golang.org/protobuf/runtime/protoimpl", "crypto/tls", "net/http", "strings", "bytes":
		return true
	}
	return false
}

func scalarSort(t types.Type) (Sort, bool) {
	if isTime(t) {
		return SInt, true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool, true
		case u.Info()&types.IsInteger != 0:
			return SInt, true
		case u.Info()&types.IsFloat != 0:
			return SReal, true
		case u.Info()&types.IsString != 0:
			return SStr, true
		}
		return SInt, true // unsafe pointer, untyped nil
	case *types.Pointer, *types.Map, *types.Chan, *types.Interface, *types.Signature, *types.Array:
		return SInt, true
	case *types.Struct:
		if opaqueStruct(t) {
			return SInt, true
		}
	case *types.TypeParam:
		return SInt, true
	}
	return "", false
}

func leaves(t types.Type) []Leaf {
	if s, ok := scalarSort(t); ok {
		return []Leaf{{"", s, t, ""}}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return []Leaf{{".arr", SInt, nil, "arr"}, {".off", SInt, nil, "off"}, {".len", SInt, nil, "len"}, {".cap", SInt, nil, "cap"}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leaves(u.Field(i).Type()) {
				l.suf = "." + u.Field(i).Name() + l.suf
				out = append(out, l)
			}
		}
		return out
	}
	unsupported("type %s has no representation", t)
	return nil
}

func isStruct(t types.Type) bool {
	if _, ok := scalarSort(t); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

// flatten a value of type t into leaf terms
func (x *Exec) flat(v Val, t types.Type) []*Term {
	if _, ok := scalarSort(t); ok {
		return []*Term{x.toTerm(v, t)}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s, ok := v.(SliceV)
		if !ok {
			unsupported("slice value expected, have %T", v)
		}
		return []*Term{s.arr, s.off, s.ln, s.cp}
	case *types.Struct:
		sv, ok := v.(StructV)
		if !ok {
			unsupported("struct value expected, have %T", v)
		}
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, x.flat(sv.f[i], u.Field(i).Type())...)
		}
		return out
	}
	unsupported("flat %s", t)
	return nil
}

func unflat(ts []*Term, t types.Type) (Val, []*Term) {
	if _, ok := scalarSort(t); ok {
		return ts[0], ts[1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return SliceV{ts[0], ts[1], ts[2], ts[3]}, ts[4:]
	case *types.Struct:
		sv := StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			var v Val
			v, ts = unflat(ts, u.Field(i).Type())
			sv.f = append(sv.f, v)
		}
		return sv, ts
	}
	unsupported("unflat %s", t)
	return nil, nil
}

var zeroTimeNs, _ = new(big.Int).SetString("-62135596800000000000", 10)

func zeroLeaf(l Leaf) *Term {
	switch l.sort {
	case SBool:
		return False()
	case SReal:
		return RealRat(new(big.Rat))
	case SStr:
		return StrLit("")
	}
	if l.t != nil && isTime(l.t) {
		return BigInt(zeroTimeNs)
	}
	return Int(0)
}

func zeroVal(t types.Type) Val {
	var ts []*Term
	for _, l := range leaves(t) {
		ts = append(ts, zeroLeaf(l))
	}
	v, _ := unflat(ts, t)
	return v
}

// toTerm converts a value of scalar type to its term.
func (x *Exec) toTerm(v Val, t types.Type) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case AddrV:
		return x.addrTerm(v)
	case FuncV:
		if len(v.bind) == 0 {
			n := "fn:" + ShortName(v.fn)
			c := Const(n, SInt)
			x.fnByConst[c] = v
			B.side[c.id] = []*Term{Gt(c, Int(0))}
			return c
		}
		c := Fresh("closure", SInt)
		x.fnByConst[c] = v
		B.side[c.id] = []*Term{Gt(c, Int(0))}
		return c
	case nil:
		return Int(0)
	}
	unsupported("cannot represent %T as a term (type %v)", v, t)
	return nil
}

func (x *Exec) addrTerm(a AddrV) *Term {
	if a.idx == nil && isStruct(a.t) && a.key == structKey(a.t) {
		return a.base
	}
	if a.idx == nil && strings.HasPrefix(a.key, "deref:") {
		return a.base
	}
	if a.idx == nil && strings.HasPrefix(a.key, "array:") {
		return a.base
	}
	// address of a field or element as a value: an opaque non-nil reference
	if a.idx == nil {
		f := Fn("fa:"+a.key, SInt, a.base)
		B.side[f.id] = []*Term{Lt(f, Int(0)), Eq(Fn("eltArr", SInt, f), a.base)}
		x.faddr[f] = a
		return f
	}
	f := Fn("ea:"+a.key, SInt, a.base, a.idx)
	B.side[f.id] = []*Term{Lt(f, Int(0)), Eq(Fn("eltArr", SInt, f), a.base)}
	x.faddr[f] = a
	return f
}

func structKey(t types.Type) string {
	return typeKey(t)
}

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.Named:
		if u.TypeArgs() != nil && u.TypeArgs().Len() > 0 {
			s := typeShort(u) + "["
			for i := 0; i < u.TypeArgs().Len(); i++ {
				if i > 0 {
					s += ","
				}
				s += typeKey(u.TypeArgs().At(i))
			}
			return s + "]"
		}
		return typeShort(u)
	case *types.Pointer:
		return "*" + typeKey(u.Elem())
	case *types.Slice:
		return "[]" + typeKey(u.Elem())
	case *types.Map:
		return "map[" + typeKey(u.Key()) + "]" + typeKey(u.Elem())
	case *types.Basic:
		return u.Name()
	case *types.Interface:
		if u.NumMethods() == 0 {
			return "any"
		}
	}
	return types.TypeString(t, func(p *types.Package) string { return pkgShort(p) })
}

// heap keys hold scalars of identical representation together only when the
// Go types are identical, so differently typed objects never alias.
func ptrTarget(p *Term, elem types.Type) AddrV {
	if isStruct(elem) {
		return AddrV{base: p, key: structKey(elem), t: elem, nilable: true}
	}
	if arr, ok := elem.Underlying().(*types.Array); ok {
		return AddrV{base: p, key: "array:" + typeKey(arr.Elem()), t: elem, nilable: true}
	}
	return AddrV{base: p, key: "deref:" + typeKey(elem), t: elem, nilable: true}
}

func elt(arr, i *Term) *Term {
	e := Fn("elt", SInt, arr, i)
	if _, ok := B.side[e.id]; !ok && !e.qd {
		B.side[e.id] = []*Term{Lt(e, Int(0)), Eq(Fn("eltArr", SInt, e), arr), Eq(Fn("eltIdx", SInt, e), i)}
	}
	return e
}

func initAxioms() {
	a, i := Var("a", SInt), Var("i", SInt)
	e := Fn("elt", SInt, a, i)
	ra, rb := Var("a", SReal), Var("b", SReal)
	fa, fb := Fn("rnd", SReal, ra), Fn("rnd", SReal, rb)
	B.axioms["rnd"] = []*Term{Forall([]*Term{ra, rb}, [][]*Term{{fa, fb}}, Implies(Le(ra, rb), Le(fa, fb)))}
	B.axioms["elt"] = []*Term{Forall([]*Term{a, i}, [][]*Term{{e}}, And(Lt(e, Int(0)), Eq(Fn("eltArr", SInt, e), a), Eq(Fn("eltIdx", SInt, e), i)))}
}

// rootOf maps an interior reference to the object containing it.
func rootOf(r *Term) *Term {
	if r.op == "app" && r.name == "elt" {
		return r.args[0]
	}
	if r.ival != nil {
		return r
	}
	if r.op == "const" && strings.HasPrefix(r.name, "alloc") || r.op == "app" && r.name == "+" {
		return r
	}
	return Ite(Lt(r, Int(0)), Fn("eltArr", SInt, r), r)
}

// ---- integers

var two63 = new(big.Int).Lsh(big.NewInt(1), 63)
var two64 = new(big.Int).Lsh(big.NewInt(1), 64)

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits := uint(64)
	uns := b.Info()&types.IsUnsigned != 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	}
	if uns {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), bits), big.NewInt(1)), true
	}
	h := new(big.Int).Lsh(big.NewInt(1), bits-1)
	return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1)), true
}

// wrap reduces a mathematical integer to the range of Go type t (exact modular arithmetic).
func wrap(v *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return v
	}
	if v.ival != nil {
		m := new(big.Int).Sub(hi, lo)
		m.Add(m, big.NewInt(1))
		r := new(big.Int).Sub(v.ival, lo)
		r.Mod(r, m)
		return BigInt(r.Add(r, lo))
	}
	m := new(big.Int).Sub(hi, lo)
	m.Add(m, big.NewInt(1))
	name := "wrap_" + t.Underlying().(*types.Basic).Name()
	w := Fn(name, SInt, v)
	if _, ok := B.side[w.id]; !ok && !w.qd {
		k := Fn(name+"_k", SInt, v)
		B.side[w.id] = []*Term{
			And(Le(BigInt(lo), w), Le(w, BigInt(hi))),
			Implies(And(Le(BigInt(lo), v), Le(v, BigInt(hi))), Eq(w, v)),
			Eq(w, Sub(v, Mul(BigInt(m), k))),
		}
	}
	return w
}

// ---- floats: a float64 is its real value; ±inf are ±2^1024, NaN is 2^1025.
var flInf = new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 1024))
var flNaN = new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 1025))

func NaN() *Term             { return RealRat(flNaN) }
func Inf() *Term             { return RealRat(flInf) }
func isNaN(a *Term) *Term    { return Eq(a, NaN()) }
func flWf(a *Term) *Term     { return Or(And(Le(Neg(Inf()), a), Le(a, Inf())), isNaN(a)) }
func flFinite(a *Term) *Term { return And(Lt(Neg(Inf()), a), Lt(a, Inf())) }
func flLt(a, b *Term) *Term {
	return And(Not(isNaN(a)), Not(isNaN(b)), Lt(a, b))
}
func flLe(a, b *Term) *Term {
	return And(Not(isNaN(a)), Not(isNaN(b)), Le(a, b))
}
func flEq(a, b *Term) *Term { return And(Eq(a, b), Not(isNaN(a)), Not(isNaN(b))) }

var two53 = new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 53))

// rnd: round-to-nearest of a real, axiomatised where used
func rnd(v *Term) *Term {
	if r := v.rat(); r != nil {
		if f, exact := r.Float64(); exact || f != 0 {
			return RealRat(new(big.Rat).SetFloat64(f))
		}
	}
	w := Fn("rnd", SReal, v)
	if _, ok := B.side[w.id]; !ok && !w.qd {
		l := RealRat(two53)
		z := RealRat(new(big.Rat))
		big200 := RealRat(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 200)))
		isint := Eq(ToReal(app("to_int", SInt, v)), v)
		if v.op == "app" && v.name == "to_real" {
			isint = True()
		}
		B.side[w.id] = []*Term{
			Implies(And(Le(Neg(l), v), Le(v, l), isint), Eq(w, v)),
			Implies(Le(v, l), Le(w, l)), Implies(Ge(v, l), Ge(w, l)),
			Implies(Le(v, Neg(l)), Le(w, Neg(l))), Implies(Ge(v, Neg(l)), Ge(w, Neg(l))),
			Implies(Ge(v, z), Ge(w, z)), Implies(Le(v, z), Le(w, z)),
			Implies(And(Le(Neg(big200), v), Le(v, big200)), And(Le(Neg(big200), w), Le(w, big200))),
			And(Le(Neg(Inf()), w), Le(w, Inf())),
		}
	}
	return w
}

func flAdd(a, b *Term) *Term {
	ra, rb := a.rat(), b.rat()
	if ra != nil && ra.Sign() == 0 {
		return b
	}
	if rb != nil && rb.Sign() == 0 {
		return a
	}
	return Ite(And(flFinite(a), flFinite(b)), rnd(Add(a, b)),
		Ite(Or(isNaN(a), isNaN(b)), NaN(),
			Ite(flFinite(a), b, Ite(flFinite(b), a, Ite(Eq(a, b), a, NaN())))))
}
func flNeg(a *Term) *Term    { return Ite(isNaN(a), a, Neg(a)) }
func flSub(a, b *Term) *Term { return flAdd(a, flNeg(b)) }
