package main

import (
	"crypto/sha256"
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) wants(props []string) bool {
	if len(props) == 0 {
		return true
	}
	for _, p := range props {
		if p == x.prop {
			return true
		}
	}
	return false
}

// guard: the obligations of the guard declarations at one access
func (x *Exec) guard(st *State, a AddrV, write bool, p token.Pos) {
	if x.dry > 0 || len(x.sp.guards) == 0 || a.idx != nil {
		return
	}
	_, whole := a.t.Underlying().(*types.Struct)
	for _, g := range x.sp.guards {
		if g.isMap {
			continue
		}
		i := strings.LastIndexByte(g.target, '.')
		obj, fld := g.target[:i], g.target[i+1:]
		if fld == "*" {
			if !(whole && a.key == obj) && !(strings.HasPrefix(a.key, obj+".") && !strings.Contains(a.key[len(obj)+1:], ".")) {
				continue
			}
		} else if a.key != g.target && !(whole && a.key == obj) {
			continue
		}
		x.guardObl(st, g, a.base, x.goTypeName(obj), write, p)
	}
}

func (x *Exec) guardMap(st *State, m *Term, v ssa.Value, write bool, p token.Pos) {
	if x.dry > 0 || len(x.sp.guards) == 0 {
		return
	}
	mt, ok := v.Type().Underlying().(*types.Map)
	if !ok {
		return
	}
	for _, g := range x.sp.guards {
		if g.isMap && typeShort(mt.Elem()) == g.target {
			x.guardObl(st, g, m, v.Type(), write, p)
		}
	}
}

func (x *Exec) goTypeName(n string) types.Type {
	return types.NewPointer(x.goType(&SType{kind: "name", name: n}))
}

func (x *Exec) guardObl(st *State, g *Guard, ref *Term, t types.Type, write bool, p token.Pos) {
	cond, what := g.read, "read"
	if write {
		cond, what = g.write, "write"
	}
	env := &Env{x: x, st: st, old: x.pre, names: map[string]TV{g.param: {v: ref, t: t}}}
	c := x.evalBool(env, st, cond)
	x.oblig(st, "guard", x.pos(p)+" "+what+" of "+g.target, what+" of "+g.target+" only while protected", c, g.props, false)
	st.assume(c)
}

// callOperands evaluates callee and arguments.
func (x *Exec) callOperands(st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	if c.IsInvoke() {
		return x.val(st, c.Value), args
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, args
	}
	if f, ok := c.Value.(*ssa.Function); ok {
		return FuncV{fn: f}, args
	}
	return x.val(st, c.Value), args
}

func (x *Exec) call(fr *Frame, st *State, c *ssa.CallCommon, rt types.Type, in ssa.Instruction) []Outcome {
	fn, args := x.callOperands(st, c)
	return x.callWith(fr, st, c, fn, args, in)
}

func (x *Exec) havocResult(st *State, sig *types.Signature, name string) []Outcome {
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, x.freshVal("ret."+name, sig.Results().At(i).Type(), st.alloc, st))
	}
	return []Outcome{{st: st, res: rs}}
}

func (x *Exec) assumption(f string, a ...any) {
	x.assumed[fmt.Sprintf(f, a...)] = true
}

func (x *Exec) callWith(fr *Frame, st *State, c *ssa.CallCommon, fn Val, args []Val, in ssa.Instruction) []Outcome {
	pos := in.Pos()
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return x.builtin(fr, st, b, c, args, in)
	}
	sig := c.Signature()
	if c.IsInvoke() {
		recv, ok := fn.(*Term)
		if !ok {
			unsupported("interface value expected")
		}
		if recv.ival != nil && recv.ival.Sign() == 0 {
			st.dead = true
			return nil
		}
		if recv.ival == nil && !(recv.op == "app" && recv.name == "mkI") {
			st.assume(Not(Eq(recv, Int(0))))
		}
		name := typeShort(c.Value.Type()) + "." + c.Method.Name()
		if sp, ok := x.sp.funcs[name]; ok {
			all := append([]Val{recv}, args...)
			ts := append([]types.Type{c.Value.Type()}, paramTypes(sig)...)
			return []Outcome{*x.applyContractT(st, sp, all, ts, paramNames(sig, "recv"), sig, pos, name)}
		}
		if recv.op == "app" && recv.name == "mkI" {
			if t, ok := x.tagTypes[recv.args[0]]; ok {
				if f := x.p.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); f != nil {
					v := x.unboxVal(recv, t)
					return x.callStatic(fr, st, f, nil, append([]Val{v}, args...), pos)
				}
			}
		}
		if nat, ok := natives["I "+name]; ok {
			if rs, ok := nat(x, st, append([]Val{recv}, args...), sig); ok {
				return []Outcome{{st: st, res: rs}}
			}
		}
		if name == "error.Error" {
			return []Outcome{{st: st, res: []Val{Fn("errText", SStr, recv)}}}
		}
		x.assumption("interface method %s without contract: result unconstrained, assumed not to change program state", name)
		return x.havocResult(st, sig, c.Method.Name())
	}
	switch f := fn.(type) {
	case FuncV:
		return x.callStatic(fr, st, f.fn, f.bind, args, pos)
	case *Term:
		if fv, ok := x.fnByConst[f]; ok {
			return x.callStatic(fr, st, fv.fn, fv.bind, args, pos)
		}
		// a function value held in a package variable assigned once
		if g := x.globalFunc(c.Value); g != nil {
			return x.callStatic(fr, st, g, nil, args, pos)
		}
		sp := x.sp.funcs["dyn."+ShortName(fr.fn)]
		if sp == nil {
			if nt, ok := c.Value.Type().(*types.Named); ok && nt.Obj().Pkg() != nil {
				sp = x.sp.funcs["dyn."+nt.Obj().Pkg().Name()+"."+nt.Obj().Name()]
			}
		}
		if sp == nil {
			sp = x.sp.funcs["dyn."+x.cur]
		}
		if sp != nil {
			return []Outcome{*x.applyContractT(st, sp, args, paramTypes(sig), paramNames(sig, ""), sig, pos, "function value")}
		}
		x.assumption("unknown function value called in %s: result unconstrained, assumed not to change program state", ShortName(fr.fn))
		return x.havocResult(st, sig, "dyn")
	}
	unsupported("call of %T", fn)
	return nil
}

func (x *Exec) globalFunc(v ssa.Value) *ssa.Function {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return nil
	}
	var found *ssa.Function
	n := 0
	for _, fn := range x.p.allFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					n++
					if f, ok := s.Val.(*ssa.Function); ok {
						found = f
					}
					if mc, ok := s.Val.(*ssa.MakeClosure); ok && len(mc.Bindings) == 0 {
						found = mc.Fn.(*ssa.Function)
					}
				}
			}
		}
	}
	if n == 1 {
		return found
	}
	return nil
}

func paramTypes(sig *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < sig.Params().Len(); i++ {
		out = append(out, sig.Params().At(i).Type())
	}
	return out
}
func paramNames(sig *types.Signature, recv string) []string {
	var out []string
	if recv != "" {
		out = append(out, recv)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		out = append(out, sig.Params().At(i).Name())
	}
	return out
}

func (x *Exec) isModule(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			p := g.Pkg.Pkg.Path()
			return strings.HasPrefix(p, modPath+"/")
		}
		if o := g.Origin(); o != nil && o.Pkg != nil {
			return strings.HasPrefix(o.Pkg.Pkg.Path(), modPath+"/")
		}
	}
	return false
}

func (x *Exec) callStatic(fr *Frame, st *State, f *ssa.Function, bind []Val, args []Val, pos token.Pos) []Outcome {
	name := ShortName(f)
	if sp, ok := x.sp.funcs[name]; ok && !sp.opts["inline"] && x.specActive(sp) {
		ts := make([]types.Type, len(f.Params))
		ns := make([]string, len(f.Params))
		if len(f.Params) == 0 && len(args) > 0 { // no body: take the signature
			ts, ns = nil, nil
			if r := f.Signature.Recv(); r != nil {
				ts = append(ts, r.Type())
				ns = append(ns, "recv")
			}
			ts = append(ts, paramTypes(f.Signature)...)
			ns = append(ns, paramNames(f.Signature, "")...)
		} else {
			for i, p := range f.Params {
				ts[i], ns[i] = p.Type(), p.Name()
			}
		}
		return []Outcome{*x.applyContractT(st, sp, args, ts, ns, f.Signature, pos, name)}
	}
	if nat, ok := natives[name]; ok {
		if rs, ok := nat(x, st, args, f.Signature); ok {
			return []Outcome{{st: st, res: rs}}
		}
		if st.dead {
			return nil
		}
	}
	if f.Synthetic != "" && strings.HasSuffix(f.Name(), "$bound") && len(f.Blocks) > 0 {
		return x.inline(f, args, bind, st)
	}
	if len(f.Blocks) > 0 && (x.isModule(f) || f.Synthetic != "") {
		x.inlined[name] = true
		return x.inline(f, args, bind, st)
	}
	if !quietExtern(name) {
		x.assumption("external function %s: result unconstrained, assumed not to change program state", name)
	}
	return x.havocResult(st, f.Signature, f.Name())
}

// specActive: a contract with labelled properties only is used only for those.
func (x *Exec) specActive(sp *FuncSpec) bool {
	if sp.kind != "func" || len(sp.props) == 0 {
		return true
	}
	for _, p := range sp.props {
		if p == x.prop {
			return true
		}
	}
	return false
}

func quietExtern(name string) bool {
	for _, p := range []string{"zap.", "attribute.", "metric."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (x *Exec) inline(f *ssa.Function, args, bind []Val, st *State) []Outcome {
	outs := x.execFn(f, args, bind, st, false)
	return x.mergeOuts(outs, 6)
}

// ---- contracts

func (x *Exec) applyContract(st *State, sp *FuncSpec, args []Val, sig *types.Signature, pos token.Pos, what string) *Outcome {
	var ts []types.Type
	var ns []string
	if sig != nil {
		if sig.Recv() != nil && len(args) > sig.Params().Len() {
			ts = append(ts, sig.Recv().Type())
			ns = append(ns, "recv")
		}
		ts = append(ts, paramTypes(sig)...)
		ns = append(ns, paramNames(sig, "")...)
	} else {
		for i := range args {
			ts = append(ts, tRef)
			ns = append(ns, fmt.Sprintf("arg%d", i))
		}
	}
	return x.applyContractT(st, sp, args, ts, ns, sig, pos, what)
}

func (x *Exec) bindNames(sp *FuncSpec, args []Val, ts []types.Type, ns []string) map[string]TV {
	m := map[string]TV{}
	for i := range args {
		tv := TV{v: args[i], t: ts[i]}
		if a, ok := args[i].(AddrV); ok {
			tv.v = a
		}
		if i < len(ns) && ns[i] != "" && ns[i] != "_" {
			m[ns[i]] = tv
		}
		m[fmt.Sprintf("arg%d", i)] = tv
	}
	for i, n := range sp.params {
		if i < len(args) {
			m[n] = TV{v: args[i], t: ts[i]}
		}
	}
	return m
}

func resultNames(sp *FuncSpec, sig *types.Signature) [][]string {
	if sig == nil {
		return nil
	}
	n := sig.Results().Len()
	out := make([][]string, n)
	for i := 0; i < n; i++ {
		out[i] = append(out[i], fmt.Sprintf("result%d", i))
		if n == 1 {
			out[i] = append(out[i], "result")
		}
		if nm := sig.Results().At(i).Name(); nm != "" && nm != "_" {
			out[i] = append(out[i], nm)
		}
		if i < len(sp.results) {
			out[i] = append(out[i], sp.results[i])
		}
	}
	return out
}

func (x *Exec) applyContractT(st *State, sp *FuncSpec, args []Val, ts []types.Type, ns []string, sig *types.Signature, pos token.Pos, what string) *Outcome {
	x.usedSpec[sp.name] = true
	names := x.bindNames(sp, args, ts, ns)
	env := &Env{x: x, st: st, names: names}
	env.old = st
	for _, d := range sp.defs {
		env.names[d.name] = env.eval(d.e)
	}
	for i, c := range sp.requires {
		if !x.wants(c.props) {
			continue
		}
		g := x.evalBool(env, st, c.e)
		x.oblig(st, "pre", fmt.Sprintf("%s: precondition %s of %s", x.pos(pos), clauseName(c, i), what), c.text, g, c.props, false)
		st.assume(g)
	}
	old := st.clone()
	env.old = old
	// effects
	wholeGhost := map[string]bool{}
	if sp.modAll {
		st.epoch = x.newEpoch()
		st.heap = map[string]*Term{}
	}
	if st.alloc != nil && (len(sp.modifies) > 0 || sp.modAll || x.mayAllocate(sig)) && !sp.opts["noalloc"] {
		a := Fresh("alloc", SInt)
		st.assume(Ge(a, old.alloc))
		B.side[a.id] = []*Term{Ge(a, old.alloc)}
		st.alloc = a
	}
	if sp.modAll {
		st.ebnd = st.alloc
		x.assumeGlobals(st)
	}
	for _, m := range sp.modifies {
		for _, t := range x.modTargets(&Env{x: x, st: old, old: old, names: names}, m) {
			switch t.kind {
			case "ghost":
				wholeGhost[t.key] = true
				fallthrough
			case "key":
				x.havocKey(st, old, t.key, nil, nil)
			case "fresh":
				x.havocKey(st, old, t.key, map[string][]*Term{t.key: nil}, map[string]bool{t.key: true})
			case "ref":
				ki := x.keys[t.key]
				h := x.hget(st, t.key)
				_, vs := ki.sort.arr()
				nv := Fresh("m!"+t.key, vs)
				if ki.kind == "field" {
					if f := wfLeaf(nv, ki.leaf, st.alloc); f.op != "lit" {
						B.side[nv.id] = []*Term{f}
					}
					x.set(st, t.key, Store(h, t.ref, nv))
				} else {
					x.havocKey(st, old, t.key, map[string][]*Term{t.key: {t.ref}}, map[string]bool{})
				}
			}
		}
	}
	// results
	var res []Val
	post := &Env{x: x, st: st, old: old, names: map[string]TV{}}
	for n, v := range names {
		post.names[n] = v
	}
	if sig != nil {
		rn := resultNames(sp, sig)
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			v := x.freshVal("ret."+lastPart(sp.name), t, st.alloc, st)
			// direct definition
			for _, c := range sp.ensures {
				if !x.wants(c.props) || c.e.op != "binary" || c.e.s != "==" || c.e.args[0].op != "ident" {
					continue
				}
				for _, n := range rn[i] {
					if c.e.args[0].s == n && !mentions(c.e.args[1], rn) {
						if _, ok := scalarSort(t); ok {
							tv := post.eval(c.e.args[1])
							if tm, ok := tv.v.(*Term); ok {
								so, _ := scalarSort(t)
								if tm.sort == so && !mentionsGhosts(c.e.args[1], wholeGhost) {
									v = tm
								}
							}
						}
					}
				}
			}
			res = append(res, v)
			for _, n := range rn[i] {
				post.names[n] = TV{v: v, t: t}
			}
		}
	}
	for _, c := range sp.ensures {
		if !x.wants(c.props) {
			continue
		}
		// g == e defines a modified ghost variable
		if c.e.op == "binary" && c.e.s == "==" && c.e.args[0].op == "ident" {
			k := "G:" + c.e.args[0].s
			if wholeGhost[k] && !mentionsGhosts(c.e.args[1], wholeGhost) {
				tv := post.eval(c.e.args[1])
				if tm, ok := tv.v.(*Term); ok && tm.sort == x.keys[k].sort {
					st.heap[k] = tm
					delete(wholeGhost, k)
					continue
				}
			}
		}
		g := x.evalBool(post, st, c.e)
		st.assume(g)
	}
	return &Outcome{st: st, res: res, pos: pos}
}

func lastPart(s string) string { return s[strings.LastIndex(s, ".")+1:] }

func mentions(e *Expr, rn [][]string) bool {
	if e.op == "ident" {
		for _, l := range rn {
			for _, n := range l {
				if e.s == n {
					return true
				}
			}
		}
	}
	for _, a := range e.args {
		if mentions(a, rn) {
			return true
		}
	}
	return false
}

func mentionsGhosts(e *Expr, g map[string]bool) bool {
	if e.op == "old" {
		return false
	}
	if e.op == "ident" && g["G:"+e.s] {
		return true
	}
	if e.op == "call" || e.op == "field" || e.op == "index" {
		// conservatively look inside pure calls by name only
		if len(g) > 0 && e.op == "call" && e.args[0].op == "ident" && B != nil {
			return true
		}
	}
	for _, a := range e.args {
		if mentionsGhosts(a, g) {
			return true
		}
	}
	return false
}

func (x *Exec) mayAllocate(sig *types.Signature) bool {
	if sig == nil {
		return false
	}
	for i := 0; i < sig.Results().Len(); i++ {
		for _, l := range leavesSafe(sig.Results().At(i).Type()) {
			if l.part == "arr" {
				return true
			}
			if l.t != nil && l.sort == SInt && !isTime(l.t) {
				switch l.t.Underlying().(type) {
				case *types.Pointer, *types.Map, *types.Interface, *types.Chan, *types.Signature:
					return true
				}
			}
		}
	}
	return false
}

func leavesSafe(t types.Type) (ls []Leaf) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(toolErr); ok {
				ls = nil
				return
			}
			panic(r)
		}
	}()
	return leaves(t)
}

func (x *Exec) newEpoch() int { x.epochs++; return x.epochs }

type modT struct {
	kind string // ghost (whole ghost variable), key (whole heap key), ref (key at ref), fresh
	key  string
	ref  *Term
}

// typeFootKeys: heap keys of the objects a type T denotes (struct fields,
// slice elements, map content).
func (x *Exec) typeKeysOf(t types.Type) []string {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if isStruct(u.Elem()) {
			return x.leafKeys(structKey(u.Elem()), u.Elem())
		}
		return x.elemKeys(u.Elem())
	case *types.Map:
		mk := x.mapKeys(t)
		return append([]string{mk.dom, mk.ln}, mk.vals...)
	case *types.Pointer:
		if isStruct(u.Elem()) {
			return x.leafKeys(structKey(u.Elem()), u.Elem())
		}
		return x.leafKeys("deref:"+typeKey(u.Elem()), u.Elem())
	}
	if isStruct(t) {
		return x.leafKeys(structKey(t), t)
	}
	return nil
}

func (x *Exec) modTargets(env *Env, m *Expr) []modT {
	var out []modT
	ref := func(keys []string, r *Term) {
		for _, k := range keys {
			out = append(out, modT{"ref", k, r})
		}
	}
	if m.op == "call" { // fresh(T), deref(p), any(T): whole heap of a type
		f := m.args[0].s
		switch f {
		case "fresh", "any":
			t := x.goType(m.typ)
			kind := "fresh"
			if f == "any" {
				kind = "key"
			}
			for _, k := range x.typeKeysOf(t) {
				out = append(out, modT{kind, k, nil})
			}
			return out
		case "deref":
			tv := env.eval(m.args[1])
			pt := tv.t.Underlying().(*types.Pointer)
			a := x.ptr(tv.v, pt.Elem())
			ref(x.leafKeys(a.key, pt.Elem()), a.base)
			return out
		}
		env.fail(m, "bad modifies target")
	}
	switch m.op {
	case "ident":
		if k, g := x.ghostKey(m.s); g != nil && !g.field {
			return []modT{{"ghost", k, nil}}
		}
		tv := env.eval(m)
		env.fail(m, "cannot modify %v", tv)
	case "field":
		// Type.field or Type.*
		if m.args[0].op == "field" || m.args[0].op == "ident" {
			if tn, ok := dottedName(m.args[0]); ok {
				{
					if i := strings.LastIndex(tn, "."); i > 0 {
						if o, ok := x.pkgObj(tn[:i], tn[i+1:]).(*types.TypeName); ok {
							t := o.Type()
							if m.s == "*" {
								for _, k := range x.leafKeys(structKey(t), t) {
									out = append(out, modT{"key", k, nil})
								}
								return out
							}
							if k, g := x.ghostKey(tn + "." + m.s); g != nil {
								return []modT{{"key", k, nil}}
							}
							fa := env.fieldAddr(AddrV{base: Int(0), key: structKey(t), t: t}, t, m.s, m)
							for _, k := range x.leafKeys(fa.key, fa.t) {
								out = append(out, modT{"key", k, nil})
							}
							return out
						}
					}
				}
			}
		}
		if pk, ok := env.pkgName(m.args[0]); ok {
			// package variable
			if o, ok := x.pkgObj(pk, m.s).(*types.Var); ok {
				sp := x.p.prog.Package(o.Pkg())
				if g, ok := sp.Members[m.s].(*ssa.Global); ok {
					a := x.globalAddr(env.st, g)
					ref(x.leafKeys(a.key, a.t), a.base)
					return out
				}
			}
		}
		b := env.eval(m.args[0])
		base, t := env.objOf(b, m)
		if m.s == "*" {
			ref(x.leafKeys(base.key, t), base.base)
			return out
		}
		if k, g := x.ghostKey(typeKey(t) + "." + m.s); g != nil {
			ref([]string{k}, base.base)
			return out
		}
		fa := env.fieldAddr(base, t, m.s, m)
		ref(x.leafKeys(fa.key, fa.t), fa.base)
		return out
	case "index":
		b := env.eval(m.args[0])
		if m.s == "*" {
			switch u := b.t.Underlying().(type) {
			case *types.Slice:
				s := b.v.(SliceV)
				if isStruct(u.Elem()) {
					env.fail(m, "use any(T) for struct slices")
				}
				ref(x.elemKeys(u.Elem()), s.arr)
				return out
			case *types.Map:
				mk := x.mapKeys(b.t)
				ref(append([]string{mk.dom, mk.ln}, mk.vals...), env.termOf(b, m))
				return out
			}
		}
		env.fail(m, "bad modifies target")
	}
	return out
}

func dottedName(e *Expr) (string, bool) {
	if e.op == "ident" {
		return e.s, true
	}
	if e.op == "field" {
		if b, ok := dottedName(e.args[0]); ok {
			return b + "." + e.s, true
		}
	}
	return "", false
}

func (e *Env) objOf(b TV, ex *Expr) (AddrV, types.Type) {
	t := b.t
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return e.x.ptr(b.v, pt.Elem()), pt.Elem()
	}
	if a, ok := b.v.(AddrV); ok {
		return a, t
	}
	if tm, ok := b.v.(*Term); ok {
		return AddrV{base: tm, key: structKey(t), t: t}, t
	}
	e.fail(ex, "object expected")
	return AddrV{}, nil
}

func (e *Env) fieldAddr(a AddrV, t types.Type, f string, ex *Expr) AddrV {
	u, ok := t.Underlying().(*types.Struct)
	if ok {
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == f {
				return AddrV{base: a.base, key: a.key + "." + f, t: u.Field(i).Type()}
			}
		}
	}
	e.fail(ex, "no field %s on %s", f, t)
	return AddrV{}
}

// ---- builtins

func (x *Exec) builtin(fr *Frame, st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, in ssa.Instruction) []Outcome {
	one := func(v Val) []Outcome { return []Outcome{{st: st, res: []Val{v}}} }
	switch b.Name() {
	case "len", "cap":
		t := c.Args[0].Type()
		switch v := args[0].(type) {
		case SliceV:
			if b.Name() == "len" {
				return one(v.ln)
			}
			return one(v.cp)
		case *Term:
			switch u := t.Underlying().(type) {
			case *types.Map:
				x.guardMap(st, v, c.Args[0], false, in.Pos())
				return one(Select(x.hget(st, x.mapKeys(t).ln), v))
			case *types.Basic:
				n := strLen(v)
				if n.ival == nil { // the length of a string in memory is an int
					st.assume(And(Ge(n, Int(0)), Lt(n, Int(1<<62))))
				}
				return one(n)
			case *types.Array:
				return one(Int(u.Len()))
			case *types.Chan:
				l := Fresh("chanlen", SInt)
				st.assume(Ge(l, Int(0)))
				return one(l)
			}
		}
		unsupported("%s of %s", b.Name(), t)
	case "append":
		s := args[0].(SliceV)
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if bt, ok := c.Args[1].Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			unsupported("append of a string")
		}
		return one(x.appendSlice(st, s, args[1].(SliceV), et))
	case "copy":
		unsupported("copy")
	case "delete":
		m := args[0].(*Term)
		if m.ival != nil && m.ival.Sign() == 0 {
			return []Outcome{{st: st}}
		}
		x.guardMap(st, m, c.Args[0], true, in.Pos())
		if !x.knownNonNil(st, m) {
			// deleting from a nil map is a no-op; the domain at 0 is empty already
		}
		x.mapDelete(st, m, x.keyTerm(args[1], c.Args[1].Type()), c.Args[0].Type())
		return []Outcome{{st: st}}
	case "min", "max":
		r := x.toTerm(args[0], c.Args[0].Type())
		t := c.Args[0].Type()
		s, _ := scalarSort(t)
		for i := 1; i < len(args); i++ {
			v := x.toTerm(args[i], c.Args[i].Type())
			var cnd *Term
			if b.Name() == "min" {
				cnd = Le(r, v)
			} else {
				cnd = Ge(r, v)
			}
			if s == SReal {
				cnd = And(Not(isNaN(v)), Or(isNaN(r), cnd))
				cnd = Or(isNaN(r), cnd)
				if true {
					r = Ite(isNaN(r), r, Ite(isNaN(v), v, Ite(cnd, r, v)))
					continue
				}
			}
			r = Ite(cnd, r, v)
		}
		return one(r)
	case "close":
		if sp, ok := x.sp.funcs["chan.close"]; ok {
			o := x.applyContract(st, sp, []Val{args[0]}, nil, in.Pos(), "close")
			return []Outcome{*o}
		}
		return []Outcome{{st: st}}
	case "panic":
		return nil
	case "recover":
		return one(Int(0))
	case "print", "println":
		return []Outcome{{st: st}}
	case "clear":
		unsupported("clear")
	case "ssa:wrapnilchk":
		return one(args[0])
	}
	unsupported("builtin %s", b.Name())
	return nil
}

func (x *Exec) knownNonNil(st *State, m *Term) bool { return false }

// appendSlice: in place when the capacity suffices, otherwise into a fresh
// array holding a copy (at the same offset, which is not observable).
func (x *Exec) appendSlice(st *State, s, t SliceV, et types.Type) Val {
	n := t.ln
	if n.ival != nil && n.ival.Sign() == 0 {
		return s
	}
	old := st.clone()
	r := x.newRef(st)
	fits := Le(Add(s.ln, n), s.cp)
	if s.arr.ival != nil && s.arr.ival.Sign() == 0 {
		fits = False()
	}
	arr := Ite(fits, s.arr, r)
	cp := s.cp
	if !(fits.op == "lit" && fits.name == "true") {
		c := Fresh("cap", SInt)
		st.assume(And(Ge(c, Add(s.ln, n)), Lt(c, BigInt(new(big.Int).Lsh(big.NewInt(1), 60)))))
		cp = Ite(fits, s.cp, c)
	}
	out := SliceV{arr, s.off, Add(s.ln, n), cp}
	nilS := s.arr.ival != nil && s.arr.ival.Sign() == 0
	small := n.ival != nil && n.ival.IsInt64() && n.ival.Int64() <= 16
	if isStruct(et) {
		keys := x.leafKeys(structKey(et), et)
		for _, k := range keys {
			h := x.hget(old, k)
			if !nilS {
				hc := x.freshHeap(st, k)
				q := Var("r", SInt)
				sel := Select(hc, q)
				ea := Fn("eltArr", SInt, q)
				ei := Fn("eltIdx", SInt, q)
				st.assume(Forall([]*Term{q}, [][]*Term{{sel}}, Eq(sel, Ite(And(Not(fits), Lt(q, Int(0)), Eq(ea, r), Eq(q, Fn("elt", SInt, r, ei))), Select(h, elt(s.arr, ei)), Select(h, q)))))
				h = hc
			}
			if small {
				for i := int64(0); i < n.ival.Int64(); i++ {
					h = Store(h, elt(arr, Add(Add(s.off, s.ln), Int(i))), Select(x.hget(old, k), elt(t.arr, Add(t.off, Int(i)))))
				}
			} else {
				hc := x.freshHeap(st, k)
				q := Var("r", SInt)
				sel := Select(hc, q)
				ei := Fn("eltIdx", SInt, q)
				j := Sub(ei, Add(s.off, s.ln))
				in := And(Lt(q, Int(0)), Eq(Fn("eltArr", SInt, q), arr), Eq(q, Fn("elt", SInt, arr, ei)), Ge(j, Int(0)), Lt(j, n))
				h0 := x.hget(old, k)
				st.assume(Forall([]*Term{q}, [][]*Term{{sel}}, Eq(sel, Ite(in, Select(h0, elt(t.arr, Add(t.off, j))), Select(h, q)))))
				// the same from the old elements to the new ones
				i := Var("i", SInt)
				os, ot := Select(h0, elt(s.arr, i)), Select(h0, elt(t.arr, i))
				st.assume(Forall([]*Term{i}, [][]*Term{{os}}, Implies(And(Ge(i, s.off), Lt(i, Add(s.off, s.ln))), Eq(Select(hc, elt(arr, i)), os))))
				st.assume(Forall([]*Term{i}, [][]*Term{{ot}}, Implies(And(Ge(i, t.off), Lt(i, Add(t.off, n))), Eq(Select(hc, elt(arr, Add(Add(s.off, s.ln), Sub(i, t.off)))), ot))))
				h = hc
			}
			x.set(st, k, h)
		}
		return out
	}
	for _, k := range x.elemKeys(et) {
		h := x.hget(old, k)
		content := Select(h, s.arr)
		src := Select(h, t.arr)
		if small {
			for i := int64(0); i < n.ival.Int64(); i++ {
				content = Store(content, Add(Add(s.off, s.ln), Int(i)), Select(src, Add(t.off, Int(i))))
			}
		} else {
			_, in := x.keys[k].sort.arr()
			nc := Fresh("appended", in)
			i := Var("i", SInt)
			sel := Select(nc, i)
			j := Sub(i, Add(s.off, s.ln))
			st.assume(Forall([]*Term{i}, [][]*Term{{sel}}, Eq(sel, Ite(And(Ge(j, Int(0)), Lt(j, n)), Select(src, Add(t.off, j)), Select(content, i)))))
			// the same from the old elements to the new ones
			if os := Select(content, i); os.op == "app" && os.name == "select" {
				st.assume(Forall([]*Term{i}, [][]*Term{{os}}, Implies(And(Ge(i, s.off), Lt(i, Add(s.off, s.ln))), Eq(Select(nc, i), os))))
			}
			if os := Select(src, i); os.op == "app" && os.name == "select" {
				st.assume(Forall([]*Term{i}, [][]*Term{{os}}, Implies(And(Ge(i, t.off), Lt(i, Add(t.off, n))), Eq(Select(nc, Add(Add(s.off, s.ln), Sub(i, t.off))), os))))
			}
			content = nc
		}
		x.set(st, k, Store(h, arr, content))
	}
	return out
}

// ---- quick queries

type quickJob struct {
	script string
	ok     bool
	failed func()
}

func (x *Exec) quickScript(st *State, goal *Term) string {
	as := append(append(append([]*Term(nil), x.globalAx...), st.pc.list()...), Not(goal))
	return Script(as, true) + "(check-sat)\n"
}

var (
	quickMu   sync.Mutex
	quickDone = map[[32]byte]bool{}
	freshName = regexp.MustCompile(`[^\s()|!]*![0-9]+`)
)

// normal renumbers the generated names of a script in their order of appearance.
func normal(s string) [32]byte {
	num := map[string]string{}
	return sha256.Sum256([]byte(freshName.ReplaceAllStringFunc(s, func(n string) string {
		r, ok := num[n]
		if !ok {
			r = n[:strings.IndexByte(n, '!')] + fmt.Sprintf("!%d", len(num))
			num[n] = r
		}
		return r
	})))
}

// runQuick decides the jobs side by side and then reports those that failed, in order.
func (x *Exec) runQuick(jobs []*quickJob) {
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, j := range jobs {
		x.quickN++
		key := normal(j.script)
		quickMu.Lock()
		r, ok := quickDone[key]
		quickMu.Unlock()
		if ok {
			j.ok = r
			continue
		}
		wg.Add(1)
		sem <- true
		go func(j *quickJob) {
			defer func() { <-sem; wg.Done() }()
			r := runSolver("z3-new-quick", j.script, 30000, false)
			j.ok = r.res == "unsat"
			if debugLoop {
				fmt.Println("quick", r.res, r.ms, len(j.script))
			}
			quickMu.Lock()
			quickDone[key] = j.ok
			quickMu.Unlock()
		}(j)
	}
	wg.Wait()
	for _, j := range jobs {
		if !j.ok {
			j.failed()
		}
	}
}

func sortedKeys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
