package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// PC is a persistent list of path conditions and assumptions.
type PC struct {
	up *PC
	t  *Term
	n  int
}

func (p *PC) push(t *Term) *PC {
	n := 1
	if p != nil {
		n = p.n + 1
	}
	return &PC{p, t, n}
}
func (p *PC) list() []*Term {
	var out []*Term
	for q := p; q != nil; q = q.up {
		out = append(out, q.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type nameRef struct {
	v    Val
	t    types.Type
	addr bool
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	in   *ssa.Defer
}

type State struct {
	pc    *PC
	dead  bool
	heap  map[string]*Term
	epoch int
	ebnd  *Term // allocation bound when the epoch began
	alloc *Term
	loc   map[ssa.Value]Val
	names map[string]nameRef
	defs  []deferred
	iter  *Term // iteration counter of the innermost cut loop
	loops []*loopCtx
	path  *PC // positions visited (terms unused)
}

func (s *State) clone() *State {
	n := *s
	n.heap = make(map[string]*Term, len(s.heap)+4)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.loc = make(map[ssa.Value]Val, len(s.loc)+8)
	for k, v := range s.loc {
		n.loc[k] = v
	}
	n.names = make(map[string]nameRef, len(s.names)+4)
	for k, v := range s.names {
		n.names[k] = v
	}
	n.defs = append([]deferred(nil), s.defs...)
	return &n
}

func (s *State) assume(t *Term) {
	if t.op == "lit" {
		if t.name == "false" {
			s.dead = true
		}
		return
	}
	if t.op == "app" && t.name == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	for q, k := s.pc, 0; q != nil && k < 40; q, k = q.up, k+1 {
		if q.t == t {
			return
		}
		if q.t == Not(t) {
			s.dead = true
			return
		}
	}
	s.pc = s.pc.push(t)
}

type KeyInfo struct {
	sort Sort
	leaf Leaf
	kind string // field elem mapdom mapval maplen ghost
	ref  types.Type
}

// Obl is one proof obligation.
type Obl struct {
	Fn, Kind, Name, Text, Pos string
	hyps                      []*Term
	goal                      *Term
	props                     []string
	structural                bool // invariant / frame bookkeeping rather than a contract clause
	strings                   bool
	bounded                   bool
	status, solver            string
	model                     string
	ms                        int64
	script, scriptStr         string
	second                    string
}

type Exec struct {
	p           *Program
	sp          *Specs
	prop        string
	obls        []*Obl
	cur         string // function under verification
	curSpec     *FuncSpec
	pre         *State // entry state of the function under verification
	preEnv      map[string]TV
	keys        map[string]*KeyInfo
	fnByConst   map[*Term]FuncV
	faddr       map[*Term]AddrV
	iters       []*Term
	dry         int
	assumed     map[string]bool // assumptions used
	used        map[string]bool // contracts applied (func kind)
	inlined     map[string]bool
	globals     map[*ssa.Global]*Term
	gconst      map[*ssa.Global]*ssa.Const
	ginit       map[*ssa.Global]*ssa.Call // set once, to a new error or a compiled pattern
	depth       int
	stack       []*ssa.Function
	loopInfo    map[*ssa.Function]*LoopForest
	loopOrd     int
	bounded     map[string]int // function -> unroll bound
	tags        map[string]*Term
	tagTypes    map[*Term]types.Type
	monitor     bool
	strOpt      bool
	unrollAll   int
	nilObl      bool
	posHint     token.Pos
	boundedRun  bool
	preAlloc    map[*Term]bool
	steps       int
	errs        []string
	mutexFields map[string]bool
	globalAx    []*Term
	tuples      map[string]bool
	usedSpec    map[string]bool
	epochs      int
	quickN      int
}

func NewExec(p *Program, sp *Specs, prop string) *Exec {
	x := &Exec{p: p, sp: sp, prop: prop, keys: map[string]*KeyInfo{}, fnByConst: map[*Term]FuncV{}, faddr: map[*Term]AddrV{}, assumed: map[string]bool{}, used: map[string]bool{}, usedSpec: map[string]bool{}, inlined: map[string]bool{},
		globals: map[*ssa.Global]*Term{}, loopInfo: map[*ssa.Function]*LoopForest{}, bounded: map[string]int{}, tags: map[string]*Term{}, tagTypes: map[*Term]types.Type{}}
	x.findGlobalConsts()
	return x
}

func alloc0() *Term {
	a := Const("alloc0", SInt)
	if _, ok := B.side[a.id]; !ok {
		B.side[a.id] = []*Term{Gt(a, Int(1000000))}
	}
	return a
}

// ---- heap

func (x *Exec) info(key string, ki KeyInfo) *KeyInfo {
	if k, ok := x.keys[key]; ok {
		if k.sort != ki.sort {
			unsupported("heap key %s has sorts %s and %s", key, k.sort, ki.sort)
		}
		return k
	}
	c := ki
	x.keys[key] = &c
	return &c
}

func wfLeaf(v *Term, l Leaf, bound *Term) *Term {
	switch l.part {
	case "arr":
		return And(Ge(v, Int(0)), Lt(v, bound))
	case "off", "len", "cap":
		return And(Ge(v, Int(0)), Lt(v, BigInt(new(big.Int).Lsh(big.NewInt(1), 60))))
	}
	if l.t == nil {
		return True()
	}
	if isTime(l.t) {
		return True()
	}
	if lo, hi, ok := intRange(l.t); ok {
		return And(Le(BigInt(lo), v), Le(v, BigInt(hi)))
	}
	switch u := l.t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsFloat != 0 {
			return flWf(v)
		}
	case *types.Interface:
		p := payOf(v)
		return And(Lt(p, bound), Lt(Fn("eltArr", SInt, p), bound), Ge(v, Int(0)))
	case *types.Map, *types.Chan, *types.Signature:
		return And(Ge(v, Int(0)), Lt(v, bound))
	case *types.Pointer, *types.Struct, *types.Array:
		return And(Lt(v, bound), Lt(Fn("eltArr", SInt, v), bound))
	}
	return True()
}

// ---- interfaces

func payOf(i *Term) *Term { return Fn("payOf", SInt, i) }
func tagOf(i *Term) *Term { return Fn("tagOf", SInt, i) }

func mkI(tag, pay *Term) *Term {
	t := Fn("mkI", SInt, tag, pay)
	if _, ok := B.side[t.id]; !ok && !t.qd {
		B.side[t.id] = []*Term{Eq(tagOf(t), tag), Eq(payOf(t), pay), Gt(t, Int(0))}
	}
	return t
}

func (x *Exec) typeTag(t types.Type) *Term {
	k := typeKey(t)
	if c, ok := x.tags[k]; ok {
		return c
	}
	c := Int(int64(len(x.tags) + 1))
	x.tags[k] = c
	x.tagTypes[c] = t
	return c
}

// box a value of type t into the payload of an interface.
func (x *Exec) boxVal(v Val, t types.Type) *Term {
	tag := x.typeTag(t)
	if s, ok := scalarSort(t); ok && s == SInt {
		return mkI(tag, x.toTerm(v, t))
	}
	ts := x.flat(v, t)
	if len(ts) == 0 {
		return mkI(tag, Int(1))
	}
	name := "box:" + typeKey(t)
	b := Fn(name, SInt, ts...)
	if _, ok := B.side[b.id]; !ok && !b.qd {
		var fs []*Term
		for i, a := range ts {
			fs = append(fs, Eq(Fn(fmt.Sprintf("unbox%d:%s", i, typeKey(t)), a.sort, b), a))
		}
		fs = append(fs, Gt(b, Int(0)), Lt(b, alloc0()))
		B.side[b.id] = fs
	}
	return mkI(tag, b)
}

func (x *Exec) unboxVal(i *Term, t types.Type) Val {
	p := payOf(i)
	if i.op == "app" && i.name == "mkI" {
		p = i.args[1]
	}
	if s, ok := scalarSort(t); ok && s == SInt {
		if lo, hi, ok := intRange(t); ok && !p.qd && p.op == "app" {
			B.side[p.id] = appendUnique(B.side[p.id], Implies(Eq(tagOf(i), x.typeTag(t)), And(Le(BigInt(lo), p), Le(p, BigInt(hi)))))
		}
		return p
	}
	ls := leaves(t)
	if p.op == "app" && p.name == "box:"+typeKey(t) {
		v, _ := unflat(p.args, t)
		return v
	}
	var ts []*Term
	for k, l := range ls {
		ts = append(ts, Fn(fmt.Sprintf("unbox%d:%s", k, typeKey(t)), l.sort, p))
	}
	v, _ := unflat(ts, t)
	return v
}

func appendUnique(l []*Term, t *Term) []*Term {
	for _, a := range l {
		if a == t {
			return l
		}
	}
	return append(l, t)
}

// wfConst attaches well-formedness facts to a heap constant.
func (x *Exec) wfConst(h *Term, ki *KeyInfo, bound *Term, dom *Term) {
	if _, ok := B.side[h.id]; ok {
		return
	}
	r := Var("r", SInt)
	var fs []*Term
	switch ki.kind {
	case "field":
		sel := Select(h, r)
		fs = append(fs, Forall([]*Term{r}, [][]*Term{{sel}}, wfLeaf(sel, ki.leaf, bound)))
	case "elem":
		i := Var("i", SInt)
		sel := Select(Select(h, r), i)
		fs = append(fs, Forall([]*Term{r, i}, [][]*Term{{sel}}, wfLeaf(sel, ki.leaf, bound)))
	case "mapval":
		_, inner := ki.sort.arr()
		ks, _ := inner.arr()
		k := Var("k", ks)
		sel := Select(Select(h, r), k)
		fs = append(fs, Forall([]*Term{r, k}, [][]*Term{{sel}}, And(wfLeaf(sel, ki.leaf, bound), Or(Select(Select(dom, r), k), Eq(sel, zeroLeaf(ki.leaf))))))
	case "mapdom":
		_, inner := ki.sort.arr()
		ks, _ := inner.arr()
		k := Var("k", ks)
		sel := Select(Select(h, Int(0)), k)
		fs = append(fs, Forall([]*Term{k}, [][]*Term{{sel}}, Not(sel)))
	case "maplen":
		_, inner := dom.sort.arr()
		ks, _ := inner.arr()
		k := Var("k", ks)
		sel := Select(h, r)
		fs = append(fs, Forall([]*Term{r}, [][]*Term{{sel}}, And(Ge(sel, Int(0)), Lt(sel, BigInt(new(big.Int).Lsh(big.NewInt(1), 60))), Implies(Eq(r, Int(0)), Eq(sel, Int(0))))))
		d := Select(Select(dom, r), k)
		fs = append(fs, Forall([]*Term{r, k}, [][]*Term{{d, sel}}, Implies(d, Gt(sel, Int(0)))))
	}
	var out []*Term
	for _, f := range fs {
		if f.op != "lit" {
			out = append(out, f)
		}
	}
	B.side[h.id] = out
}

func mapKeyParts(key string) (base string, part string) {
	i := strings.LastIndex(key, "#")
	return key[:i], key[i+1:]
}

// hget returns the current heap array for key.
func (x *Exec) hget(st *State, key string) *Term {
	if h, ok := st.heap[key]; ok {
		return h
	}
	ki := x.keys[key]
	if ki == nil {
		unsupported("unknown heap key %s", key)
	}
	h := Const(fmt.Sprintf("H%d!%s", st.epoch, key), ki.sort)
	st.heap[key] = h
	var dom *Term
	if ki.kind == "mapval" || ki.kind == "maplen" {
		b, _ := mapKeyParts(key)
		dom = x.hget(st, b+"#dom")
	}
	x.wfConst(h, ki, st.ebnd, dom)
	return h
}

// fieldKeys registers and returns the heap keys of an lvalue of type t at prefix.
func (x *Exec) leafKeys(prefix string, t types.Type) []string {
	var out []string
	for _, l := range leaves(t) {
		k := prefix + l.suf
		x.info(k, KeyInfo{sort: ArrSort(SInt, l.sort), leaf: l, kind: "field"})
		out = append(out, k)
	}
	return out
}

func (x *Exec) elemKeys(t types.Type) []string {
	var out []string
	for _, l := range leaves(t) {
		k := "elem:" + typeKey(t) + l.suf
		x.info(k, KeyInfo{sort: ArrSort(SInt, ArrSort(SInt, l.sort)), leaf: l, kind: "elem"})
		out = append(out, k)
	}
	return out
}

type mapK struct {
	dom, ln string
	vals    []string
	ks      Sort
	mt      *types.Map
}

func (x *Exec) mapKeys(t types.Type) mapK {
	m := t.Underlying().(*types.Map)
	ks, ok := scalarSort(m.Key())
	if !ok {
		if isStruct(m.Key()) {
			x.tupleSort(m.Key())
			ks, ok = SInt, true
		}
	}
	if !ok {
		unsupported("map key type %s", t)
	}
	base := "map:" + typeKey(m.Key()) + ":" + typeKey(m.Elem())
	r := mapK{dom: base + "#dom", ln: base + "#len", ks: ks, mt: m}
	x.info(r.dom, KeyInfo{sort: ArrSort(SInt, ArrSort(ks, SBool)), kind: "mapdom"})
	x.info(r.ln, KeyInfo{sort: ArrSort(SInt, SInt), kind: "maplen"})
	for _, l := range leaves(m.Elem()) {
		k := base + "#val" + l.suf
		x.info(k, KeyInfo{sort: ArrSort(SInt, ArrSort(ks, l.sort)), leaf: l, kind: "mapval"})
		r.vals = append(r.vals, k)
	}
	return r
}

// A struct used as a map key is represented by an injective function of its fields.
func (x *Exec) tupleSort(t types.Type) (name string, ls []Leaf) {
	ls = leaves(t)
	name = "tuple:" + typeKey(t)
	if _, done := x.tuples[name]; done {
		return
	}
	if x.tuples == nil {
		x.tuples = map[string]bool{}
	}
	x.tuples[name] = true
	var vs, cs []*Term
	for i, l := range ls {
		vs = append(vs, Var(fmt.Sprintf("t%d", i), l.sort))
	}
	tt := Fn(name, SInt, vs...)
	for i, l := range ls {
		cs = append(cs, Eq(Fn(fmt.Sprintf("%s.%d", name, i), l.sort, tt), vs[i]))
	}
	x.globalAx = append(x.globalAx, Forall(vs, [][]*Term{{tt}}, And(cs...)))
	return
}

func (x *Exec) tuple(v Val, t types.Type) *Term {
	name, _ := x.tupleSort(t)
	return Fn(name, SInt, x.flat(v, t)...)
}

// ptr turns a pointer value into an lvalue of element type elem.
func (x *Exec) ptr(v Val, elem types.Type) AddrV {
	switch v := v.(type) {
	case AddrV:
		return v
	case *Term:
		if a, ok := x.faddr[v]; ok {
			return a
		}
		return ptrTarget(v, elem)
	}
	unsupported("pointer expected, have %T", v)
	return AddrV{}
}

func (x *Exec) load(st *State, a AddrV) Val {
	if a.idx != nil {
		var ts []*Term
		for _, k := range x.elemKeys(a.t) {
			ts = append(ts, Select(Select(x.hget(st, k), a.base), a.idx))
		}
		v, _ := unflat(ts, a.t)
		x.wfVal(st, v, a.t)
		return v
	}
	if at, ok := a.t.Underlying().(*types.Array); ok {
		_ = at
		return a.base // arrays are represented by their backing object
	}
	var ts []*Term
	for _, k := range x.leafKeys(a.key, a.t) {
		ts = append(ts, Select(x.hget(st, k), a.base))
	}
	v, _ := unflat(ts, a.t)
	x.wfVal(st, v, a.t)
	return v
}

// wfVal assumes the relations between the parts of a loaded slice.
func (x *Exec) wfVal(st *State, v Val, t types.Type) {
	switch v := v.(type) {
	case SliceV:
		if v.ln.qd || v.arr.qd {
			return
		}
		if v.ln.ival != nil && v.cp.ival != nil {
			return
		}
		st.assume(sliceWf(v))
	case StructV:
		s := v.t.Underlying().(*types.Struct)
		for i := range v.f {
			x.wfVal(st, v.f[i], s.Field(i).Type())
		}
	}
}

func sliceWf(v SliceV) *Term {
	return And(Ge(v.ln, Int(0)), Le(v.ln, v.cp), Ge(v.off, Int(0)), Implies(Eq(v.arr, Int(0)), And(Eq(v.ln, Int(0)), Eq(v.cp, Int(0)))))
}

func (x *Exec) set(st *State, key string, h *Term) {
	st.heap[key] = h
}

func (x *Exec) store(st *State, a AddrV, v Val) {
	if at, ok := a.t.Underlying().(*types.Array); ok && a.idx == nil {
		src, ok := v.(*Term)
		if !ok {
			unsupported("array store")
		}
		// copy of a whole array
		if isStruct(at.Elem()) {
			unsupported("struct array copy")
		}
		for _, k := range x.elemKeys(at.Elem()) {
			h := x.hget(st, k)
			x.set(st, k, Store(h, a.base, Select(h, src)))
		}
		return
	}
	ts := x.flat(v, a.t)
	if a.idx != nil {
		for i, k := range x.elemKeys(a.t) {
			h := x.hget(st, k)
			x.set(st, k, Store(h, a.base, Store(Select(h, a.base), a.idx, ts[i])))
		}
		return
	}
	for i, k := range x.leafKeys(a.key, a.t) {
		h := x.hget(st, k)
		x.set(st, k, Store(h, a.base, ts[i]))
	}
}

// newRef allocates a fresh object.
func (x *Exec) newRef(st *State) *Term {
	r := st.alloc
	st.alloc = Add(st.alloc, Int(1))
	return r
}

func (x *Exec) zeroObject(st *State, r *Term, t types.Type) {
	if at, ok := t.Underlying().(*types.Array); ok {
		x.zeroElems(st, r, at.Elem())
		return
	}
	prefix := "deref:" + typeKey(t)
	if isStruct(t) {
		prefix = structKey(t)
	}
	x.zeroAt(st, r, prefix, t)
	// ghost fields of the type start at their zero value too
	for n, g := range x.sp.ghosts {
		if g.field && strings.HasPrefix(n, prefix+".") {
			key, _ := x.ghostKey(n)
			_, vs := x.keys[key].sort.arr()
			if z := zeroOfSort(vs); z != nil {
				st.assume(Eq(Select(x.hget(st, key), r), z))
			}
		}
	}
}

func zeroOfSort(s Sort) *Term {
	switch s {
	case SInt:
		return Int(0)
	case SBool:
		return False()
	case SReal:
		return RealRat(new(big.Rat))
	case SStr:
		return StrLit("")
	}
	if strings.HasPrefix(string(s), "(Array") {
		_, v := s.arr()
		if z := zeroOfSort(v); z != nil {
			return ConstArr(s, z)
		}
	}
	return nil
}

func (x *Exec) zeroAt(st *State, r *Term, prefix string, t types.Type) {
	ls := leaves(t)
	for i, k := range x.leafKeys(prefix, t) {
		st.assume(Eq(Select(x.hget(st, k), r), zeroLeaf(ls[i])))
	}
}

func (x *Exec) zeroElems(st *State, r *Term, elem types.Type) {
	if isStruct(elem) {
		i := Var("i", SInt)
		e := Fn("elt", SInt, r, i)
		ls := leaves(elem)
		for j, k := range x.leafKeys(structKey(elem), elem) {
			sel := Select(x.hget(st, k), e)
			st.assume(Forall([]*Term{i}, [][]*Term{{sel}}, Eq(sel, zeroLeaf(ls[j]))))
		}
		return
	}
	ls := leaves(elem)
	for j, k := range x.elemKeys(elem) {
		_, in := x.keys[k].sort.arr()
		st.assume(Eq(Select(x.hget(st, k), r), ConstArr(in, zeroLeaf(ls[j]))))
	}
}

// elemAddr gives the lvalue of s[i].
func (x *Exec) elemAddr(s SliceV, i *Term, elem types.Type) AddrV {
	idx := Add(s.off, i)
	if isStruct(elem) {
		return AddrV{base: elt(s.arr, idx), key: structKey(elem), t: elem}
	}
	return AddrV{base: s.arr, idx: idx, t: elem, key: "elem"}
}

// ---- fresh values

func (x *Exec) freshVal(name string, t types.Type, bound *Term, st *State) Val {
	if tp, ok := t.(*types.Tuple); ok {
		var tv TupleV
		for i := 0; i < tp.Len(); i++ {
			tv = append(tv, x.freshVal(fmt.Sprintf("%s.%d", name, i), tp.At(i).Type(), bound, st))
		}
		return tv
	}
	var ts []*Term
	for _, l := range leaves(t) {
		c := Fresh(name+l.suf, l.sort)
		if f := wfLeaf(c, l, bound); f.op != "lit" {
			B.side[c.id] = []*Term{f}
		}
		ts = append(ts, c)
	}
	v, _ := unflat(ts, t)
	if st != nil {
		x.wfVal(st, v, t)
	}
	return v
}

// ---- globals

// findGlobalConsts finds package variables of the module that are only ever
// assigned a constant, once, by package initialisation.
func (x *Exec) findGlobalConsts() {
	x.gconst = map[*ssa.Global]*ssa.Const{}
	stores := map[*ssa.Global]int{}
	vals := map[*ssa.Global]*ssa.Const{}
	calls := map[*ssa.Global]*ssa.Call{}
	bad, away := map[*ssa.Global]bool{}, map[*ssa.Global]bool{}
	for _, fn := range x.p.allFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						stores[g]++
						if c, ok := s.Val.(*ssa.Const); ok && fn.Name() == "init" {
							vals[g] = c
						} else if c, ok := s.Val.(*ssa.Call); ok && fn.Name() == "init" && initCall(c) != "" {
							calls[g] = c
						} else {
							bad[g] = true
						}
					}
				}
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					continue
				}
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				for i, o := range in.Operands(nil) { // its address goes elsewhere
					if g, ok := (*o).(*ssa.Global); ok {
						if _, ok := in.(*ssa.Store); !ok || i != 0 {
							away[g] = true
						}
					}
				}
			}
		}
	}
	for g, c := range vals {
		if stores[g] == 1 && !bad[g] {
			if _, ok := scalarSort(c.Type()); ok {
				x.gconst[g] = c
			}
		}
	}
	x.ginit = map[*ssa.Global]*ssa.Call{}
	for g, c := range calls {
		if stores[g] == 1 && !bad[g] && !away[g] {
			x.ginit[g] = c
		}
	}
}

// initCall names a call whose result is characterised by a constant argument.
func initCall(c *ssa.Call) string {
	f := c.Call.StaticCallee()
	if f == nil || len(c.Call.Args) != 1 {
		return ""
	}
	if k, ok := c.Call.Args[0].(*ssa.Const); !ok || k.Value == nil || k.Value.Kind() != constant.String {
		return ""
	}
	switch f.String() {
	case "errors.New", "regexp.MustCompile":
		return f.String()
	}
	return ""
}

func (x *Exec) globalRef(g *ssa.Global) *Term {
	if r, ok := x.globals[g]; ok {
		return r
	}
	r := Int(int64(1000 + len(x.globals)))
	x.globals[g] = r
	return r
}

func (x *Exec) globalAddr(st *State, g *ssa.Global) AddrV {
	r := x.globalRef(g)
	elem := g.Type().(*types.Pointer).Elem()
	a := ptrTarget(r, elem)
	a.nilable = false
	return a
}

// assumeGlobals states the values of constant globals in the entry state.
func (x *Exec) assumeGlobals(st *State) {
	var gs []*ssa.Global
	for g := range x.gconst {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		c := x.gconst[g]
		a := x.globalAddr(st, g)
		v := x.constVal(c)
		ts := x.flat(v, a.t)
		for i, k := range x.leafKeys(a.key, a.t) {
			st.assume(Eq(Select(x.hget(st, k), a.base), ts[i]))
		}
	}
}

// assumeInit: what is known of a variable set by errors.New or regexp.MustCompile
func (x *Exec) assumeInit(st *State, g *ssa.Global, v Val) {
	c, ok := x.ginit[g]
	if !ok {
		return
	}
	t, ok := v.(*Term)
	if !ok {
		return
	}
	lit := x.constVal(c.Call.Args[0].(*ssa.Const)).(*Term)
	st.assume(Gt(t, Int(0)))
	if initCall(c) == "regexp.MustCompile" {
		st.assume(Eq(Fn("p:repat", SStr, t), lit))
	}
}

// ---- operands

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		if tp, ok := t.(*types.Tuple); ok && tp.Len() == 0 {
			return TupleV{}
		}
		return zeroVal(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			return StrLit(constant.StringVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			b, _ := new(big.Int).SetString(v.ExactString(), 10)
			return BigInt(b)
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			return RealRat(new(big.Rat).SetFloat64(f))
		}
	}
	unsupported("constant %s", c)
	return nil
}

func (x *Exec) val(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return x.globalAddr(st, v)
	case *ssa.Function:
		return FuncV{fn: v}
	case *ssa.Builtin:
		return FuncV{}
	}
	r, ok := st.loc[v]
	if !ok {
		unsupported("value %s (%s) not available in %s", v.Name(), v, v.Parent())
	}
	return r
}

func (x *Exec) term(st *State, v ssa.Value) *Term { return x.toTerm(x.val(st, v), v.Type()) }

// ---- equality of Go values

func (x *Exec) eqVal(a, b Val, t types.Type) *Term {
	if s, ok := a.(SliceV); ok { // only comparison with nil
		if o, ok := b.(SliceV); ok && o.arr.ival != nil && o.arr.ival.Sign() == 0 {
			return Eq(s.arr, Int(0))
		} else if s.arr.ival != nil && s.arr.ival.Sign() == 0 {
			return Eq(o.arr, Int(0))
		}
	}
	if s, ok := scalarSort(t); ok && s == SReal {
		return flEq(x.toTerm(a, t), x.toTerm(b, t))
	}
	fa, fb := x.flat(a, t), x.flat(b, t)
	ls := leaves(t)
	var cs []*Term
	for i := range fa {
		if ls[i].sort == SReal {
			cs = append(cs, flEq(fa[i], fb[i]))
		} else {
			cs = append(cs, Eq(fa[i], fb[i]))
		}
	}
	return And(cs...)
}

// ---- binary operators

func (x *Exec) binop(st *State, op token.Token, a, b Val, t types.Type, rt types.Type) Val {
	switch op {
	case token.EQL:
		return x.eqVal(a, b, t)
	case token.NEQ:
		return Not(x.eqVal(a, b, t))
	}
	bt, ok := t.Underlying().(*types.Basic)
	if !ok {
		unsupported("operator %s on %s", op, t)
	}
	p, q := x.toTerm(a, t), x.toTerm(b, t)
	switch {
	case bt.Info()&types.IsString != 0:
		switch op {
		case token.ADD:
			return strCat(p, q)
		case token.LSS:
			return app("str.<", SBool, p, q)
		case token.GTR:
			return app("str.<", SBool, q, p)
		case token.LEQ:
			return app("str.<=", SBool, p, q)
		case token.GEQ:
			return app("str.<=", SBool, q, p)
		}
	case bt.Info()&types.IsFloat != 0:
		switch op {
		case token.ADD:
			return flAdd(p, q)
		case token.SUB:
			return flSub(p, q)
		case token.MUL, token.QUO:
			f := Fn("fl"+op.String(), SReal, p, q)
			if !f.qd {
				B.side[f.id] = []*Term{flWf(f)}
			}
			return f
		case token.LSS:
			return flLt(p, q)
		case token.GTR:
			return flLt(q, p)
		case token.LEQ:
			return flLe(p, q)
		case token.GEQ:
			return flLe(q, p)
		}
	case bt.Info()&types.IsInteger != 0:
		switch op {
		case token.ADD:
			return wrap(Add(p, q), rt)
		case token.SUB:
			return wrap(Sub(p, q), rt)
		case token.MUL:
			return wrap(Mul(p, q), rt)
		case token.QUO:
			if q.ival != nil && q.ival.Sign() > 0 {
				return Ite(Ge(p, Int(0)), Div(p, q), Neg(Div(Neg(p), q)))
			}
			return wrap(Fn("quo", SInt, p, q), rt)
		case token.REM:
			if q.ival != nil && q.ival.Sign() > 0 {
				return Ite(Ge(p, Int(0)), Mod(p, q), Neg(Mod(Neg(p), q)))
			}
			return wrap(Fn("rem", SInt, p, q), rt)
		case token.LSS:
			return Lt(p, q)
		case token.GTR:
			return Gt(p, q)
		case token.LEQ:
			return Le(p, q)
		case token.GEQ:
			return Ge(p, q)
		case token.SHL:
			if q.ival != nil && q.ival.IsInt64() && q.ival.Int64() < 64 {
				return wrap(Mul(p, BigInt(new(big.Int).Lsh(big.NewInt(1), uint(q.ival.Int64())))), rt)
			}
		case token.SHR:
			if q.ival != nil && q.ival.IsInt64() && q.ival.Int64() < 64 {
				return Div(p, BigInt(new(big.Int).Lsh(big.NewInt(1), uint(q.ival.Int64()))))
			}
		}
		f := Fn("iop"+op.String(), SInt, p, q)
		return wrap(f, rt)
	case bt.Info()&types.IsBoolean != 0:
		switch op {
		case token.AND, token.LAND:
			return And(p, q)
		case token.OR, token.LOR:
			return Or(p, q)
		}
	}
	unsupported("operator %s on %s", op, t)
	return nil
}

// strCat: concatenation in a normal form (literals merged, to the left)
func strCat(a, b *Term) *Term {
	var parts []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == "app" && t.name == "str.++" {
			add(t.args[0])
			add(t.args[1])
			return
		}
		if t.isStrLit() {
			if t.sval == "" {
				return
			}
			if n := len(parts); n > 0 && parts[n-1].isStrLit() {
				parts[n-1] = StrLit(parts[n-1].sval + t.sval)
				return
			}
		}
		parts = append(parts, t)
	}
	add(a)
	add(b)
	if len(parts) == 0 {
		return StrLit("")
	}
	r := parts[0]
	for _, t := range parts[1:] {
		r = app("str.++", SStr, r, t)
	}
	return r
}

func strLen(a *Term) *Term {
	if a.isStrLit() {
		return Int(int64(len(a.sval)))
	}
	return app("str.len", SInt, a)
}

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		t := x.toTerm(v, from)
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			flo, fhi, _ := intRange(from)
			tlo, thi, _ := intRange(to)
			if flo != nil && tlo != nil && flo.Cmp(tlo) >= 0 && fhi.Cmp(thi) <= 0 {
				return t
			}
			return wrap(t, to)
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			return rnd(ToReal(t))
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			if tb.Kind() == types.Float32 && fb.Kind() != types.Float32 {
				f := Fn("f32", SReal, t)
				B.side[f.id] = []*Term{flWf(f)}
				return f
			}
			return t
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			tr := Ite(Ge(t, RealRat(new(big.Rat))), ToInt(t), Neg(ToInt(Neg(t))))
			lo, hi, _ := intRange(to)
			u := Fn("f2i_"+tb.Name(), SInt, t)
			if !u.qd {
				B.side[u.id] = []*Term{And(Le(BigInt(lo), u), Le(u, BigInt(hi)))}
			}
			return Ite(And(Le(BigInt(lo), tr), Le(tr, BigInt(hi)), flFinite(t)), tr, u)
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return t
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return Fn("rune2str", SStr, t)
		}
	}
	if ok1 && fb.Info()&types.IsString != 0 { // string -> []byte / []rune
		r := x.newRef(st)
		t := x.toTerm(v, from)
		n := strLen(t)
		elem := to.Underlying().(*types.Slice).Elem()
		for _, k := range x.elemKeys(elem) {
			st.assume(Eq(Select(x.hget(st, k), r), Fn("str2arr:"+typeKey(elem), ArrSort(SInt, SInt), t)))
		}
		return SliceV{r, Int(0), n, n}
	}
	if ok2 && tb.Info()&types.IsString != 0 {
		s := v.(SliceV)
		elem := from.Underlying().(*types.Slice).Elem()
		k := x.elemKeys(elem)[0]
		return Fn("arr2str:"+typeKey(elem), SStr, Select(x.hget(st, k), s.arr), s.off, s.ln)
	}
	if _, ok := scalarSort(from); ok {
		return v
	}
	unsupported("conversion %s to %s", from, to)
	return nil
}

// ---- merging

func mergeVal(c *Term, a, b Val) (Val, bool) {
	switch a := a.(type) {
	case nil:
		return nil, b == nil
	case *Term:
		bt, ok := b.(*Term)
		if !ok || bt.sort != a.sort {
			return nil, false
		}
		return Ite(c, a, bt), true
	case SliceV:
		bt, ok := b.(SliceV)
		if !ok {
			return nil, false
		}
		return SliceV{Ite(c, a.arr, bt.arr), Ite(c, a.off, bt.off), Ite(c, a.ln, bt.ln), Ite(c, a.cp, bt.cp)}, true
	case StructV:
		bt, ok := b.(StructV)
		if !ok || len(bt.f) != len(a.f) {
			return nil, false
		}
		r := StructV{t: a.t}
		for i := range a.f {
			v, ok := mergeVal(c, a.f[i], bt.f[i])
			if !ok {
				return nil, false
			}
			r.f = append(r.f, v)
		}
		return r, true
	case TupleV:
		bt, ok := b.(TupleV)
		if !ok || len(bt) != len(a) {
			return nil, false
		}
		var r TupleV
		for i := range a {
			v, ok := mergeVal(c, a[i], bt[i])
			if !ok {
				return nil, false
			}
			r = append(r, v)
		}
		return r, true
	case AddrV:
		bt, ok := b.(AddrV)
		if !ok || bt.key != a.key || (a.idx == nil) != (bt.idx == nil) {
			return nil, false
		}
		r := a
		r.base = Ite(c, a.base, bt.base)
		if a.idx != nil {
			r.idx = Ite(c, a.idx, bt.idx)
		}
		r.nilable = a.nilable || bt.nilable
		return r, true
	case FuncV:
		bt, ok := b.(FuncV)
		if !ok || bt.fn != a.fn || len(a.bind) != len(bt.bind) {
			return nil, false
		}
		r := FuncV{fn: a.fn}
		for i := range a.bind {
			v, ok := mergeVal(c, a.bind[i], bt.bind[i])
			if !ok {
				return nil, false
			}
			r.bind = append(r.bind, v)
		}
		return r, true
	case IterV:
		bt, ok := b.(IterV)
		return a, ok && bt.id == a.id
	}
	return nil, false
}

func isNeg(t *Term) bool { return t.op == "app" && t.name == "not" }

// mergeStates merges b into a, or reports that it should not.
func (x *Exec) mergeStates(a, b *State, force bool, extra *[2]Val) (*State, bool) {
	if a.epoch != b.epoch || len(a.defs) != len(b.defs) || a.iter != b.iter {
		return nil, false
	}
	for i := range a.defs {
		if a.defs[i].in != b.defs[i].in {
			return nil, false
		}
	}
	if !force {
		for k, v := range a.heap {
			if w, ok := b.heap[k]; ok && v != w {
				return nil, false
			}
			if _, ok := b.heap[k]; !ok && v.op != "const" {
				return nil, false
			}
		}
		for k, v := range b.heap {
			if _, ok := a.heap[k]; !ok && v.op != "const" {
				return nil, false
			}
		}
	}
	// common prefix
	p, q := a.pc, b.pc
	for p != q {
		pn, qn := 0, 0
		if p != nil {
			pn = p.n
		}
		if q != nil {
			qn = q.n
		}
		if pn >= qn {
			p = p.up
		} else {
			q = q.up
		}
	}
	suffix := func(s *PC) []*Term {
		var out []*Term
		for r := s; r != p; r = r.up {
			out = append([]*Term{r.t}, out...)
		}
		return out
	}
	sa, sb := suffix(a.pc), suffix(b.pc)
	if len(sa) == 0 && len(sb) == 0 {
		// identical conditions: cannot happen for disjoint paths
	}
	var c *Term
	if len(sa) > 0 && len(sb) > 0 && (sa[0] == Not(sb[0])) {
		c = sa[0]
		sa, sb = sa[1:], sb[1:]
	} else {
		c = And(sa...)
		if c.op == "lit" || c.hasQ || len(sa) > 6 {
			// name the choice with a fresh boolean
			c = Fresh("path", SBool)
		} else {
			// c distinguishes only if the suffixes exclude each other
			ok := false
			for _, s := range sa {
				for _, t := range sb {
					if s == Not(t) {
						ok = true
						c = s
					}
				}
			}
			if !ok {
				c = Fresh("path", SBool)
			}
		}
	}
	n := a.clone()
	n.pc = p
	n.assume(Implies(c, And(sa...)))
	n.assume(Implies(Not(c), And(sb...)))
	// heap
	for k, v := range b.heap {
		w, ok := a.heap[k]
		if !ok {
			w = x.hget(a, k)
		}
		n.heap[k] = Ite(c, w, v)
	}
	for k, w := range a.heap {
		if _, ok := b.heap[k]; !ok {
			n.heap[k] = Ite(c, w, x.hget(b, k))
		}
	}
	// allocation bound
	if a.alloc != b.alloc {
		ba, ka := splitOffset(a.alloc)
		bb, kb := splitOffset(b.alloc)
		if ba == bb {
			if ka.Cmp(kb) < 0 {
				n.alloc = b.alloc
			}
		} else {
			n.alloc = Fresh("alloc", SInt)
			n.assume(Ge(n.alloc, a.alloc))
			n.assume(Ge(n.alloc, b.alloc))
			B.side[n.alloc.id] = []*Term{Ge(n.alloc, a.alloc), Ge(n.alloc, b.alloc)}
		}
	}
	n.loc = map[ssa.Value]Val{}
	for k, v := range a.loc {
		if w, ok := b.loc[k]; ok {
			m, ok := mergeVal(c, v, w)
			if !ok {
				if _, phi := k.(*ssa.Phi); (phi || !force) && !sameVal(v, w) {
					return nil, false
				}
				continue
			}
			n.loc[k] = m
		}
	}
	n.names = map[string]nameRef{}
	for k, v := range a.names {
		if w, ok := b.names[k]; ok && v.addr == w.addr {
			if m, ok := mergeVal(c, v.v, w.v); ok {
				n.names[k] = nameRef{m, v.t, v.addr}
			}
		}
	}
	for i := range a.defs {
		da, db := a.defs[i], b.defs[i]
		for j := range da.args {
			m, ok := mergeVal(c, da.args[j], db.args[j])
			if !ok {
				return nil, false
			}
			n.defs[i].args = append(append([]Val(nil), n.defs[i].args[:j]...), append([]Val{m}, n.defs[i].args[j+1:]...)...)
		}
		if da.fn != nil {
			m, ok := mergeVal(c, da.fn, db.fn)
			if !ok {
				return nil, false
			}
			n.defs[i].fn = m
		}
	}
	if extra != nil {
		m, ok := mergeVal(c, extra[0], extra[1])
		if !ok {
			return nil, false
		}
		extra[0] = m
	}
	return n, true
}

func sameVal(a, b Val) bool {
	m, ok := mergeVal(True(), a, b)
	_ = m
	return ok
}

func (x *Exec) mergeAll(ss []*State, cap int) []*State {
	var live []*State
	for _, s := range ss {
		if !s.dead {
			live = append(live, s)
		}
	}
	out := live
	for pass := 0; pass < 2; pass++ {
		force := pass == 1
		if force && len(out) <= cap {
			break
		}
		var res []*State
		for _, s := range out {
			done := false
			for i := range res {
				if force && len(res) < cap {
					break
				}
				if m, ok := x.mergeStates(res[i], s, force, nil); ok {
					res[i] = m
					done = true
					break
				}
			}
			if !done {
				res = append(res, s)
			}
		}
		out = res
	}
	return out
}
