package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- loops

type Loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
	ord    int // ordinal of the loop in its function, in source order
}

type LoopForest struct {
	rpo   []*ssa.BasicBlock
	pos   map[*ssa.BasicBlock]int
	heads map[*ssa.BasicBlock]*Loop
	loops []*Loop
}

func (x *Exec) forest(fn *ssa.Function) *LoopForest {
	if f, ok := x.loopInfo[fn]; ok {
		return f
	}
	f := &LoopForest{pos: map[*ssa.BasicBlock]int{}, heads: map[*ssa.BasicBlock]*Loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		f.pos[post[i]] = len(f.rpo)
		f.rpo = append(f.rpo, post[i])
	}
	for _, b := range f.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := f.heads[s]
				if l == nil {
					l = &Loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					f.heads[s] = l
					f.loops = append(f.loops, l)
				}
				// natural loop of the back edge b -> s
				stk := []*ssa.BasicBlock{b}
				for len(stk) > 0 {
					n := stk[len(stk)-1]
					stk = stk[:len(stk)-1]
					if l.blocks[n] {
						continue
					}
					l.blocks[n] = true
					stk = append(stk, n.Preds...)
				}
			} else if f.pos[s] < f.pos[b] {
				unsupported("irreducible control flow in %s", fn)
			}
		}
	}
	loopPos := func(l *Loop) token.Pos {
		best := token.NoPos
		for b := range l.blocks {
			for _, in := range b.Instrs {
				if _, phi := in.(*ssa.Phi); phi {
					continue // carries the position of the variable's declaration
				}
				if p := in.Pos(); p.IsValid() && (best == token.NoPos || p < best) {
					best = p
				}
			}
		}
		return best
	}
	sort.SliceStable(f.loops, func(i, j int) bool {
		a, b := f.loops[i], f.loops[j]
		if a.blocks[b.head] && a != b {
			return true
		}
		if b.blocks[a.head] {
			return false
		}
		return loopPos(a) < loopPos(b)
	})
	for i, l := range f.loops {
		l.ord = i + 1
		for _, m := range f.loops {
			if m != l && m.blocks[l.head] && (l.parent == nil || len(m.blocks) < len(l.parent.blocks)) {
				l.parent = m
			}
		}
	}
	x.loopInfo[fn] = f
	return f
}

// ---- frames

type Outcome struct {
	st  *State
	res []Val
	pos token.Pos
}

type Frame struct {
	fn   *ssa.Function
	spec *FuncSpec
	bind []Val
	outs []Outcome
	top  bool
}

type inc struct {
	to, from *ssa.BasicBlock
	st       *State
}

// execFn runs the body of fn from st (whose loc map is replaced) and returns its outcomes.
func (x *Exec) execFn(fn *ssa.Function, args []Val, bind []Val, st *State, top bool) []Outcome {
	if len(fn.Blocks) == 0 {
		unsupported("no body for %s", ShortName(fn))
	}
	for _, f := range x.stack {
		if f == fn {
			unsupported("recursive function %s without a contract", ShortName(fn))
		}
	}
	if len(x.stack) > 12 {
		unsupported("inlining too deep at %s", ShortName(fn))
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	fr := &Frame{fn: fn, bind: bind, top: top}
	fr.spec = x.sp.funcs[ShortName(fn)]
	saved := st
	s := st.clone()
	s.loc = map[ssa.Value]Val{}
	s.names = map[string]nameRef{}
	s.defs = nil
	if !top {
		s.iter = nil
	}
	for i, p := range fn.Params {
		s.loc[p] = args[i]
		s.names[p.Name()] = nameRef{args[i], p.Type(), false}
	}
	for i, fv := range fn.FreeVars {
		s.loc[fv] = bind[i]
		// captured variables are visible by name in invariants
		if pt, ok := fv.Type().(*types.Pointer); ok {
			s.names[fv.Name()] = nameRef{bind[i], pt.Elem(), true}
		}
	}
	f := x.forest(fn)
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range f.rpo {
		all[b] = true
	}
	ex := x.procRegion(fr, all, nil, []inc{{to: fn.Blocks[0], st: s}})
	if len(ex) > 0 {
		unsupported("control flow leaves %s", fn)
	}
	// restore the caller's frame
	for i := range fr.outs {
		o := fr.outs[i].st
		o.loc, o.names, o.defs, o.iter = saved.loc, saved.names, saved.defs, saved.iter
		n := o.clone()
		n.dead = o.dead
		fr.outs[i].st = n
	}
	return fr.outs
}

func (x *Exec) mergeOuts(outs []Outcome, cap int) []Outcome {
	var res []Outcome
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		done := false
		for i := range res {
			ex := [2]Val{TupleV(res[i].res), TupleV(o.res)}
			if m, ok := x.mergeStates(res[i].st, o.st, len(res) >= cap, &ex); ok {
				res[i].st = m
				res[i].res = []Val(ex[0].(TupleV))
				done = true
				break
			}
		}
		if !done {
			res = append(res, o)
		}
	}
	return res
}

// procRegion runs the blocks of set (topologically, inner loops as units)
// and returns the edges that leave it. loop, if given, is the enclosing loop
// whose header starts the region; its back edges are returned too.
func (x *Exec) procRegion(fr *Frame, set map[*ssa.BasicBlock]bool, loop *Loop, start []inc) []inc {
	f := x.forest(fr.fn)
	in := map[*ssa.BasicBlock][]inc{}
	for _, e := range start {
		in[e.to] = append(in[e.to], e)
	}
	var exits []inc
	push := func(e inc) {
		if e.st.dead {
			return
		}
		if !set[e.to] || (loop != nil && e.to == loop.head) {
			exits = append(exits, e)
		} else {
			in[e.to] = append(in[e.to], e)
		}
	}
	var order []*ssa.BasicBlock
	for b := range set {
		order = append(order, b)
	}
	sort.Slice(order, func(i, j int) bool { return f.pos[order[i]] < f.pos[order[j]] })
	for _, b := range order {
		incs := in[b]
		if len(incs) == 0 {
			continue
		}
		if l := f.heads[b]; l != nil && l != loop {
			for _, e := range x.procLoop(fr, l, incs) {
				push(e)
			}
			continue
		}
		states := x.enter(b, incs, loop != nil && b == loop.head)
		for _, st := range states {
			for _, e := range x.runBlock(fr, b, st) {
				push(e)
			}
		}
	}
	return exits
}

// enter evaluates phis for each incoming edge and merges the states.
func (x *Exec) enter(b *ssa.BasicBlock, incs []inc, phisDone bool) []*State {
	var ss []*State
	for _, e := range incs {
		if e.st.dead {
			continue
		}
		st := e.st
		if !phisDone {
			x.evalPhis(st, b, e.from)
		}
		ss = append(ss, st)
	}
	if len(ss) <= 1 {
		return ss
	}
	return x.mergeAll(ss, 10)
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			out = append(out, p)
		} else {
			break
		}
	}
	return out
}

func (x *Exec) phiVals(st *State, b, from *ssa.BasicBlock) []Val {
	phis := phisOf(b)
	if len(phis) == 0 {
		return nil
	}
	k := -1
	for i, p := range b.Preds {
		if p == from {
			k = i
		}
	}
	if k < 0 {
		unsupported("no predecessor edge")
	}
	vals := make([]Val, len(phis))
	for i, p := range phis {
		vals[i] = x.val(st, p.Edges[k])
	}
	return vals
}

func (x *Exec) evalPhis(st *State, b, from *ssa.BasicBlock) {
	vals := x.phiVals(st, b, from)
	for i, p := range phisOf(b) {
		st.loc[p] = vals[i]
		if p.Comment != "" {
			st.names[p.Comment] = nameRef{vals[i], p.Type(), false}
		}
	}
}

// runBlock executes a block and returns the outgoing edges.
func (x *Exec) runBlock(fr *Frame, b *ssa.BasicBlock, st *State) []inc {
	var out []inc
	var step func(st *State, k int)
	step = func(st *State, k int) {
		for ; k < len(b.Instrs); k++ {
			if st.dead {
				return
			}
			x.steps++
			if x.steps > 400000 {
				unsupported("function too large to execute symbolically")
			}
			in := b.Instrs[k]
			switch in := in.(type) {
			case *ssa.Phi:
				continue
			case *ssa.Call:
				outs := x.call(fr, st, &in.Call, in.Type(), in)
				if len(outs) == 1 {
					st = outs[0].st
					st.loc[in] = packRes(outs[0].res, in.Type())
					continue
				}
				for _, o := range outs {
					o.st.loc[in] = packRes(o.res, in.Type())
					step(o.st, k+1)
				}
				return
			case *ssa.RunDefers:
				outs := x.runDefers(fr, st)
				if len(outs) == 1 {
					st = outs[0]
					continue
				}
				for _, o := range outs {
					step(o, k+1)
				}
				return
			case *ssa.Jump:
				out = append(out, inc{b.Succs[0], b, st})
				return
			case *ssa.If:
				c := x.term(st, in.Cond)
				s1 := st.clone()
				s1.assume(c)
				s2 := st
				s2.assume(Not(c))
				decided(s1, c, true)
				decided(s2, c, false)
				if !s1.dead {
					out = append(out, inc{b.Succs[0], b, s1})
				}
				if !s2.dead {
					out = append(out, inc{b.Succs[1], b, s2})
				}
				return
			case *ssa.Return:
				var rs []Val
				for _, r := range in.Results {
					rs = append(rs, x.val(st, r))
				}
				fr.outs = append(fr.outs, Outcome{st, rs, in.Pos()})
				return
			case *ssa.Panic:
				return
			default:
				x.instr(fr, st, in)
			}
		}
	}
	step(st, 0)
	return out
}

// decided: what the state of a map iteration is, now that c is known
func decided(st *State, c *Term, v bool) {
	for k, t := range st.heap {
		if strings.HasPrefix(k, "G:it:") && t.op == "ite" && t.args[0] == c {
			if v {
				st.heap[k] = t.args[1]
			} else {
				st.heap[k] = t.args[2]
			}
		}
	}
}

func packRes(rs []Val, t types.Type) Val {
	if tp, ok := t.(*types.Tuple); ok {
		_ = tp
		return TupleV(rs)
	}
	if len(rs) == 0 {
		return nil
	}
	return rs[0]
}

func (x *Exec) runDefers(fr *Frame, st *State) []*State {
	ss := []*State{st}
	for i := len(st.defs) - 1; i >= 0; i-- {
		var next []*State
		for _, s := range ss {
			d := s.defs[i]
			for _, o := range x.callWith(fr, s, d.call, d.fn, d.args, d.in) {
				next = append(next, o.st)
			}
		}
		ss = next
	}
	for _, s := range ss {
		s.defs = nil
	}
	return ss
}

func (x *Exec) nonNil(st *State, a AddrV, what string) {
	if a.nilable && a.base.ival == nil {
		if x.nilObl && x.dry == 0 {
			x.oblig(st, "nil", what, "non-nil pointer", Not(Eq(a.base, Int(0))), nil, true)
		}
		st.assume(Not(Eq(a.base, Int(0))))
	}
	if a.nilable && a.base.ival != nil && a.base.ival.Sign() == 0 {
		if x.nilObl && x.dry == 0 {
			x.oblig(st, "nil", what, "non-nil pointer", False(), nil, true)
		}
		st.dead = true
	}
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.p.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, x.p.repo+"/"), q.Line)
}

func (x *Exec) instr(fr *Frame, st *State, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.DebugRef:
		if o := in.Object(); o != nil {
			if _, ok := o.(*types.Var); ok {
				if v, ok := st.loc[in.X]; ok {
					st.names[o.Name()] = nameRef{v, o.Type(), in.IsAddr}
				} else if c, ok := in.X.(*ssa.Const); ok && !in.IsAddr {
					func() {
						defer func() { recover() }()
						st.names[o.Name()] = nameRef{x.constVal(c), o.Type(), false}
					}()
				}
			}
		}
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		r := x.newRef(st)
		x.zeroObject(st, r, t)
		a := ptrTarget(r, t)
		a.nilable = false
		st.loc[in] = a
		if in.Comment != "" {
			st.names[in.Comment] = nameRef{a, t, true}
		}
	case *ssa.BinOp:
		if p, ok := in.X.(*ssa.Phi); ok && p.Comment == "rangeindex" && in.Op == token.ADD {
			st.loc[in] = Add(x.term(st, in.X), Int(1))
			return
		}
		st.loc[in] = x.binop(st, in.Op, x.val(st, in.X), x.val(st, in.Y), in.X.Type(), in.Type())
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			a := x.ptr(x.val(st, in.X), in.Type())
			x.nonNil(st, a, x.pos(in.Pos()))
			if st.dead {
				return
			}
			x.guard(st, a, false, in.Pos())
			st.loc[in] = x.load(st, a)
			if g, ok := in.X.(*ssa.Global); ok {
				x.assumeInit(st, g, st.loc[in])
			}
		case token.NOT:
			st.loc[in] = Not(x.term(st, in.X))
		case token.SUB:
			if s, _ := scalarSort(in.Type()); s == SReal {
				st.loc[in] = flNeg(x.term(st, in.X))
			} else {
				st.loc[in] = wrap(Neg(x.term(st, in.X)), in.Type())
			}
		case token.ARROW:
			x.assumed["channel receive in "+ShortName(fr.fn)+": value unconstrained"] = true
			if in.CommaOk {
				st.loc[in] = x.freshVal("recv", in.Type(), st.alloc, st)
			} else {
				st.loc[in] = x.freshVal("recv", in.Type(), st.alloc, st)
			}
			if in.CommaOk { // chan.recv2.T(c, v, ok): the next of a range
				et := in.X.Type().Underlying().(*types.Chan).Elem()
				if sp, ok := x.sp.funcs["chan.recv2."+typeShort(et)]; ok {
					tv := st.loc[in].(TupleV)
					o := x.applyContractT(st, sp, []Val{x.term(st, in.X), tv[0], tv[1]}, []types.Type{in.X.Type(), et, types.Typ[types.Bool]}, []string{"c", "v", "ok"}, nil, in.Pos(), "channel receive")
					*st = *o.st
					break
				}
			}
			if !in.CommaOk {
				x.chanRecv(st, True(), x.term(st, in.X), in.X.Type(), st.loc[in], in.Pos())
			}
			if x.observeChans(st) && x.neverSent(in.X.Type()) {
				st.assume(Select(x.hget(st, "G:chClosed"), x.term(st, in.X)))
			}
		default:
			f := Fn("unop"+in.Op.String(), SInt, x.term(st, in.X))
			st.loc[in] = wrap(f, in.Type())
		}
	case *ssa.ChangeInterface:
		st.loc[in] = x.val(st, in.X)
	case *ssa.ChangeType:
		v := x.val(st, in.X)
		if sv, ok := v.(StructV); ok {
			sv.t = in.Type()
			v = sv
		}
		st.loc[in] = v
	case *ssa.Convert:
		st.loc[in] = x.convert(st, x.val(st, in.X), in.X.Type(), in.Type())
	case *ssa.MakeInterface:
		st.loc[in] = x.boxVal(x.val(st, in.X), in.X.Type())
	case *ssa.TypeAssert:
		i := x.term(st, in.X)
		if _, ok := in.AssertedType.Underlying().(*types.Interface); ok {
			if in.CommaOk {
				impl := Fn("implements:"+typeKey(in.AssertedType), SBool, tagOf(i))
				ok := And(impl, Not(Eq(i, Int(0))))
				for _, t := range x.p.implementers(in.X.Type()) { // what the module's own types say
					f := Fn("implements:"+typeKey(in.AssertedType), SBool, x.typeTag(t))
					st.assume(Eq(f, Bool(types.Implements(t, in.AssertedType.Underlying().(*types.Interface)))))
				}
				st.loc[in] = TupleV{Ite(ok, i, Int(0)), ok}
			} else {
				st.assume(Not(Eq(i, Int(0))))
				st.loc[in] = i
			}
			return
		}
		is := And(Eq(tagOf(i), x.typeTag(in.AssertedType)), Not(Eq(i, Int(0))))
		if i.op == "app" && i.name == "mkI" {
			is = Eq(i.args[0], x.typeTag(in.AssertedType))
		}
		v := x.unboxVal(i, in.AssertedType)
		if in.CommaOk {
			zv := zeroVal(in.AssertedType)
			m, ok := mergeVal(is, v, zv)
			if !ok {
				unsupported("type assertion merge")
			}
			st.loc[in] = TupleV{m, is}
		} else {
			if x.nilObl && x.dry == 0 {
				x.oblig(st, "assert", x.pos(in.Pos()), "type assertion holds", is, nil, true)
			}
			st.assume(is)
			st.loc[in] = v
		}
	case *ssa.Extract:
		tv, ok := x.val(st, in.Tuple).(TupleV)
		if !ok {
			unsupported("extract from %T", x.val(st, in.Tuple))
		}
		st.loc[in] = tv[in.Index]
	case *ssa.Field:
		sv := x.val(st, in.X).(StructV)
		st.loc[in] = sv.f[in.Field]
	case *ssa.FieldAddr:
		pt := in.X.Type().Underlying().(*types.Pointer).Elem()
		base := x.ptr(x.val(st, in.X), pt)
		x.nonNil(st, base, x.pos(in.Pos()))
		if st.dead {
			return
		}
		stt := pt.Underlying().(*types.Struct)
		fld := stt.Field(in.Field)
		if opaqueStruct(pt) {
			unsupported("field of opaque struct %s", pt)
		}
		a := AddrV{base: base.base, key: base.key + "." + fld.Name(), t: fld.Type()}
		if base.idx != nil {
			unsupported("field of scalar element")
		}
		st.loc[in] = a
	case *ssa.IndexAddr:
		i := x.term(st, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			s := x.val(st, in.X).(SliceV)
			x.bounds(st, i, s.ln, in.Pos())
			st.loc[in] = x.elemAddr(s, i, u.Elem())
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			base := x.ptr(x.val(st, in.X), u.Elem())
			x.bounds(st, i, Int(at.Len()), in.Pos())
			st.loc[in] = x.elemAddr(SliceV{base.base, Int(0), Int(at.Len()), Int(at.Len())}, i, at.Elem())
		default:
			unsupported("index address of %s", in.X.Type())
		}
	case *ssa.Index:
		i := x.term(st, in.Index)
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			s := x.term(st, in.X)
			x.bounds(st, i, strLen(s), in.Pos())
			f := Fn("byteAt", SInt, s, i)
			if !f.qd {
				B.side[f.id] = []*Term{And(Ge(f, Int(0)), Le(f, Int(255)))}
			}
			st.loc[in] = f
			return
		}
		at := in.X.Type().Underlying().(*types.Array)
		st.loc[in] = x.load(st, x.elemAddr(SliceV{x.term(st, in.X), Int(0), Int(at.Len()), Int(at.Len())}, i, at.Elem()))
	case *ssa.Lookup:
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			st.loc[in] = Fn("byteAt", SInt, x.term(st, in.X), x.term(st, in.Index))
			return
		}
		m := x.term(st, in.X)
		k := x.mapKeyTerm(st, in.Index)
		v, ok := x.mapGet(st, m, k, in.X.Type())
		x.guardMap(st, m, in.X, false, in.Pos())
		if in.CommaOk {
			st.loc[in] = TupleV{v, ok}
		} else {
			st.loc[in] = v
		}
	case *ssa.MapUpdate:
		m := x.term(st, in.Map)
		if m.ival == nil {
			st.assume(Not(Eq(m, Int(0))))
		} else if m.ival.Sign() == 0 {
			st.dead = true
			return
		}
		x.guardMap(st, m, in.Map, true, in.Pos())
		x.mapSet(st, m, x.mapKeyTerm(st, in.Key), x.val(st, in.Value), in.Map.Type())
		// mapset.T(m, k, v) records where values of type T are kept
		mt := in.Map.Type().Underlying().(*types.Map)
		if sp, ok := x.sp.funcs["mapset."+typeShort(mt.Elem())]; ok {
			args := []Val{m, x.val(st, in.Key), x.val(st, in.Value)}
			o := x.applyContractT(st, sp, args, []types.Type{in.Map.Type(), mt.Key(), mt.Elem()}, []string{"m", "k", "v"}, nil, in.Pos(), "map update")
			*st = *o.st
		}
	case *ssa.MakeMap:
		st.loc[in] = x.makeMap(st, in.Type())
	case *ssa.MakeSlice:
		r := x.newRef(st)
		et := in.Type().Underlying().(*types.Slice).Elem()
		ln, cp := x.term(st, in.Len), x.term(st, in.Cap)
		x.zeroElems(st, r, et)
		st.assume(And(Ge(ln, Int(0)), Le(ln, cp)))
		st.assume(Lt(cp, BigInt(new(big.Int).Lsh(big.NewInt(1), 60))))
		st.loc[in] = SliceV{r, Int(0), ln, cp}
	case *ssa.MakeChan:
		r := x.newRef(st)
		st.loc[in] = r
		if x.sp.ghosts["chClosed"] != nil {
			x.ghostKey("chClosed")
			st.assume(Not(Select(x.hget(st, "G:chClosed"), r)))
		}
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range in.Bindings {
			bs = append(bs, x.val(st, b))
		}
		st.loc[in] = FuncV{fn: in.Fn.(*ssa.Function), bind: bs}
	case *ssa.Slice:
		x.sliceOp(st, in)
	case *ssa.Store:
		et := in.Addr.Type().Underlying().(*types.Pointer).Elem()
		a := x.ptr(x.val(st, in.Addr), et)
		x.nonNil(st, a, x.pos(in.Pos()))
		if st.dead {
			return
		}
		x.guard(st, a, true, in.Pos())
		x.store(st, a, x.val(st, in.Val))
	case *ssa.Defer:
		d := deferred{call: &in.Call, in: in}
		d.fn, d.args = x.callOperands(st, &in.Call)
		st.defs = append(st.defs, d)
	case *ssa.Go:
		x.goStmt(fr, st, in)
	case *ssa.Range:
		x.rangeStart(st, in)
	case *ssa.Next:
		x.next(st, in)
	case *ssa.Send:
		x.chanSend(st, in)
	case *ssa.Select:
		x.selectStmt(fr, st, in)
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		unsupported("instruction %s", in)
	default:
		unsupported("instruction %T", in)
	}
}

func (x *Exec) bounds(st *State, i, n *Term, p token.Pos) {
	c := And(Ge(i, Int(0)), Lt(i, n))
	if x.nilObl && x.dry == 0 {
		x.oblig(st, "bounds", x.pos(p), "index in range", c, nil, true)
	}
	st.assume(c)
}

func (x *Exec) sliceOp(st *State, in *ssa.Slice) {
	var lo, hi, mx *Term
	if in.Low != nil {
		lo = x.term(st, in.Low)
	} else {
		lo = Int(0)
	}
	if in.High != nil {
		hi = x.term(st, in.High)
	}
	if in.Max != nil {
		mx = x.term(st, in.Max)
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic:
		s := x.term(st, in.X)
		if hi == nil {
			hi = strLen(s)
		}
		st.assume(And(Ge(lo, Int(0)), Le(lo, hi), Le(hi, strLen(s))))
		st.loc[in] = subStr(s, lo, Sub(hi, lo))
	case *types.Slice:
		s := x.val(st, in.X).(SliceV)
		if hi == nil {
			hi = s.ln
		}
		cp := s.cp
		if mx != nil {
			cp = mx
		}
		if in.Low == nil && in.Max == nil && in.High != nil {
			x.bounds2(st, And(Ge(hi, Int(0)), Le(hi, s.cp)), in.Pos())
		} else {
			x.bounds2(st, And(Ge(lo, Int(0)), Le(lo, hi), Le(hi, s.cp)), in.Pos())
		}
		st.loc[in] = SliceV{s.arr, Add(s.off, lo), Sub(hi, lo), Sub(cp, lo)}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		a := x.ptr(x.val(st, in.X), u.Elem())
		if hi == nil {
			hi = Int(at.Len())
		}
		st.loc[in] = SliceV{a.base, lo, Sub(hi, lo), Sub(Int(at.Len()), lo)}
	default:
		unsupported("slice of %s", in.X.Type())
	}
}

func (x *Exec) bounds2(st *State, c *Term, p token.Pos) {
	if x.nilObl && x.dry == 0 {
		x.oblig(st, "bounds", x.pos(p), "slice bounds in range", c, nil, true)
	}
	st.assume(c)
}

func subStr(s, lo, n *Term) *Term {
	if s.isStrLit() && lo.ival != nil && n.ival != nil {
		a, b := int(lo.ival.Int64()), int(n.ival.Int64())
		if a >= 0 && b >= 0 && a+b <= len(s.sval) {
			return StrLit(s.sval[a : a+b])
		}
	}
	return app("str.substr", SStr, s, lo, n)
}

// ---- maps

func (x *Exec) mapKeyTerm(st *State, v ssa.Value) *Term {
	return x.keyTerm(x.val(st, v), v.Type())
}

func (x *Exec) keyTerm(v Val, t types.Type) *Term {
	if _, ok := scalarSort(t); !ok && isStruct(t) {
		return x.tuple(v, t)
	}
	return x.toTerm(v, t)
}

func (x *Exec) mapGet(st *State, m, k *Term, t types.Type) (Val, *Term) {
	mk := x.mapKeys(t)
	var ts []*Term
	for _, vk := range mk.vals {
		ts = append(ts, Select(Select(x.hget(st, vk), m), k))
	}
	v, _ := unflat(ts, mk.mt.Elem())
	if !k.qd && !m.qd {
		x.wfVal(st, v, mk.mt.Elem())
	}
	return v, Select(Select(x.hget(st, mk.dom), m), k)
}

func (x *Exec) mapSet(st *State, m, k *Term, v Val, t types.Type) {
	mk := x.mapKeys(t)
	ts := x.flat(v, mk.mt.Elem())
	x.hget(st, mk.ln)
	for i, vk := range mk.vals {
		h := x.hget(st, vk)
		x.set(st, vk, Store(h, m, Store(Select(h, m), k, ts[i])))
	}
	d := x.hget(st, mk.dom)
	had := Select(Select(d, m), k)
	l := x.hget(st, mk.ln)
	x.set(st, mk.ln, Store(l, m, Add(Select(l, m), Ite(had, Int(0), Int(1)))))
	x.set(st, mk.dom, Store(d, m, Store(Select(d, m), k, True())))
}

func (x *Exec) mapDelete(st *State, m, k *Term, t types.Type) {
	mk := x.mapKeys(t)
	x.hget(st, mk.ln)
	d := x.hget(st, mk.dom)
	had := Select(Select(d, m), k)
	l := x.hget(st, mk.ln)
	nl := Sub(Select(l, m), Ite(had, Int(1), Int(0)))
	st.assume(Ge(nl, Int(0)))
	x.set(st, mk.ln, Store(l, m, nl))
	x.set(st, mk.dom, Store(d, m, Store(Select(d, m), k, False())))
	ls := leaves(mk.mt.Elem())
	for i, vk := range mk.vals {
		h := x.hget(st, vk)
		x.set(st, vk, Store(h, m, Store(Select(h, m), k, zeroLeaf(ls[i]))))
	}
}

func (x *Exec) makeMap(st *State, t types.Type) *Term {
	mk := x.mapKeys(t)
	r := x.newRef(st)
	ls := leaves(mk.mt.Elem())
	x.hget(st, mk.ln)
	for i, vk := range mk.vals {
		h := x.hget(st, vk)
		x.set(st, vk, Store(h, r, ConstArr(ArrSort(mk.ks, ls[i].sort), zeroLeaf(ls[i]))))
	}
	x.set(st, mk.dom, Store(x.hget(st, mk.dom), r, ConstArr(ArrSort(mk.ks, SBool), False())))
	x.set(st, mk.ln, Store(x.hget(st, mk.ln), r, Int(0)))
	return r
}

// ---- map iteration

type iterInfo struct {
	key  string // ghost heap key of the visited set
	m    *Term
	mt   types.Type
	dom0 *Term // domain when the iteration began
	n    string
}

var iterTab = map[string]*iterInfo{}

func (x *Exec) rangeStart(st *State, in *ssa.Range) {
	if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
		unsupported("range over %s", in.X.Type())
	}
	mk := x.mapKeys(in.X.Type())
	id := fmt.Sprintf("it:%s:%s", ShortName(in.Parent()), in.Name())
	key := "G:" + id
	nkey := "G:" + id + ":n"
	x.info(key, KeyInfo{sort: ArrSort(mk.ks, SBool), kind: "ghost"})
	x.info(nkey, KeyInfo{sort: SInt, kind: "ghost"})
	m := x.term(st, in.X)
	x.guardMap(st, m, in.X, false, in.Pos())
	st.heap[key] = ConstArr(ArrSort(mk.ks, SBool), False())
	st.heap[nkey] = Int(0)
	iterTab[id] = &iterInfo{key: key, n: nkey, m: m, mt: in.X.Type()}
	dk := "G:" + id + ":dom0"
	x.info(dk, KeyInfo{sort: ArrSort(mk.ks, SBool), kind: "ghost"})
	st.heap[dk] = Select(x.hget(st, mk.dom), m)
	mkk := "G:" + id + ":m"
	x.info(mkk, KeyInfo{sort: SInt, kind: "ghost"})
	st.heap[mkk] = m
	st.loc[in] = IterV{id}
}

func (x *Exec) next(st *State, in *ssa.Next) {
	if in.IsString {
		unsupported("range over string")
	}
	it := x.val(st, in.Iter).(IterV)
	info := iterTab[it.id]
	mk := x.mapKeys(info.mt)
	m := st.heap["G:"+it.id+":m"]
	ok := Fresh("more", SBool)
	x.guardMap(st, m, in.Iter.(*ssa.Range).X, false, in.Pos())
	k := Fresh("key", mk.ks)
	var kval Val = k
	if _, ok := scalarSort(mk.mt.Key()); !ok {
		kval = x.freshVal("key", mk.mt.Key(), st.alloc, st)
		k = x.tuple(kval, mk.mt.Key())
	}
	dom := Select(x.hget(st, mk.dom), m)
	vis := st.heap[info.key]
	n := st.heap[info.n]
	dom0 := st.heap["G:"+it.id+":dom0"]
	st.assume(Implies(ok, And(Select(dom, k), Not(Select(vis, k)))))
	kv := Var("k", mk.ks)
	st.assume(Implies(Not(ok), Forall([]*Term{kv}, [][]*Term{{Select(dom, kv)}, {Select(vis, kv)}, {Select(dom0, kv)}}, Implies(And(Select(dom, kv), Select(dom0, kv)), Select(vis, kv)))))
	if dom == dom0 {
		l := Select(x.hget(st, mk.ln), m)
		st.assume(Implies(ok, Lt(n, l)))
		st.assume(Implies(Not(ok), Eq(n, l)))
	}
	kt := mk.mt.Key()
	if kval == Val(k) {
		if f := wfLeaf(k, Leaf{"", mk.ks, kt, ""}, st.alloc); f.op != "lit" {
			st.assume(f)
		}
	}
	v, _ := x.mapGet(st, m, k, info.mt)
	st.heap[info.key] = Ite(ok, Store(vis, k, True()), vis)
	st.heap[info.n] = Ite(ok, Add(n, Int(1)), n)
	st.loc[in] = TupleV{ok, kval, v}
}

// ---- goroutines and channels (see externs.go for the ghost events)

func (x *Exec) goStmt(fr *Frame, st *State, in *ssa.Go) {
	name := "?"
	if f := in.Call.StaticCallee(); f != nil {
		name = ShortName(f)
	}
	x.assumed["goroutine started in "+ShortName(fr.fn)+" ("+name+") runs separately: not interleaved with the verified body"] = true
	// a contract on a pseudo function go.<name> may record the event
	if sp, ok := x.sp.funcs["go."+name]; ok {
		fn, args := x.callOperands(st, &in.Call)
		_ = fn
		outs := x.applyContract(st, sp, args, in.Call.Signature(), in.Pos(), "go "+name)
		*st = *outs.st
	}
}

// observeChans: other goroutines may have closed channels since the last look
// (ghost variable chClosed, when the specifications declare it).
func (x *Exec) observeChans(st *State) bool {
	if x.sp.ghosts["chClosed"] == nil {
		return false
	}
	x.ghostKey("chClosed")
	h0 := x.hget(st, "G:chClosed")
	h := Fresh("chClosed", x.keys["G:chClosed"].sort)
	x.set(st, "G:chClosed", h)
	c := Var("c", SInt)
	st.assume(Forall([]*Term{c}, [][]*Term{{Select(h, c)}}, Implies(Select(h0, c), Select(h, c))))
	return true
}

// neverSent: nothing in the module sends on a channel of this type.
func (x *Exec) neverSent(t types.Type) bool {
	ct, ok := t.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	for _, fn := range x.p.allFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch s := in.(type) {
				case *ssa.Send:
					if types.Identical(s.Chan.Type().Underlying().(*types.Chan).Elem(), ct.Elem()) {
						return false
					}
				case *ssa.Select:
					for _, c := range s.States {
						if c.Dir == types.SendOnly && types.Identical(c.Chan.Type().Underlying().(*types.Chan).Elem(), ct.Elem()) {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// the contracts chan.send.T(c, v) and chan.recv.T(c, v) record what goes
// through channels of T.
func (x *Exec) chanSend(st *State, in *ssa.Send) {
	et := in.Chan.Type().Underlying().(*types.Chan).Elem()
	if sp, ok := x.sp.funcs["chan.send."+typeShort(et)]; ok {
		args := []Val{x.term(st, in.Chan), x.val(st, in.X)}
		o := x.applyContractT(st, sp, args, []types.Type{in.Chan.Type(), et}, []string{"c", "v"}, nil, in.Pos(), "channel send")
		*st = *o.st
	}
}

// chanRecv records a receive that happens when cond holds.
func (x *Exec) chanRecv(st *State, cond *Term, ch *Term, cht types.Type, v Val, p token.Pos) {
	et := cht.Underlying().(*types.Chan).Elem()
	if sp, ok := x.sp.funcs["chan.recv."+typeShort(et)]; ok {
		x.chanEvent(st, sp, cond, []Val{ch, v}, []types.Type{cht, et}, []string{"c", "v"}, p, "channel receive")
	}
}

// chanEvent applies sp to the state where cond holds.
func (x *Exec) chanEvent(st *State, sp *FuncSpec, cond *Term, vs []Val, ts []types.Type, ns []string, p token.Pos, what string) {
	n := st.clone()
	o := x.applyContractT(n, sp, vs, ts, ns, nil, p, what)
	n = o.st
	for q := n.pc; q != st.pc && q != nil; q = q.up {
		st.assume(Implies(cond, q.t))
	}
	for k, h := range n.heap {
		if old := x.hget(st, k); old != h {
			x.set(st, k, Ite(cond, h, old))
		}
	}
}

func (x *Exec) selectStmt(fr *Frame, st *State, in *ssa.Select) {
	n := len(in.States)
	idx := Fresh("select", SInt)
	lo := int64(0)
	if !in.Blocking {
		lo = -1
	}
	st.assume(And(Ge(idx, Int(lo)), Lt(idx, Int(int64(n)))))
	tv := TupleV{idx, Fresh("recvok", SBool)}
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			tv = append(tv, x.freshVal("recv", s.Chan.Type().Underlying().(*types.Chan).Elem(), st.alloc, st))
		}
	}
	x.assumed["select in "+ShortName(fr.fn)+": any ready case, received values unconstrained"] = true
	if x.observeChans(st) {
		h := x.hget(st, "G:chClosed")
		for i, s := range in.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			c := x.term(st, s.Chan)
			if !in.Blocking {
				st.assume(Implies(Eq(idx, Int(-1)), Not(Select(h, c))))
			}
			if x.neverSent(s.Chan.Type()) {
				st.assume(Implies(Eq(idx, Int(int64(i))), Select(h, c)))
			}
		}
	}
	st.loc[in] = tv
	k := 2
	for i, s := range in.States {
		if s.Dir == types.RecvOnly {
			ct := s.Chan.Type()
			// chan.none.T(c): a default case found nothing to receive
			if sp, ok := x.sp.funcs["chan.none."+typeShort(ct.Underlying().(*types.Chan).Elem())]; ok && !in.Blocking {
				x.chanEvent(st, sp, Eq(idx, Int(-1)), []Val{x.term(st, s.Chan)}, []types.Type{ct}, []string{"c"}, in.Pos(), "empty channel")
			}
			x.chanRecv(st, Eq(idx, Int(int64(i))), x.term(st, s.Chan), s.Chan.Type(), tv[k], in.Pos())
			k++
		}
	}
}

// ---- obligations

func (x *Exec) oblig(st *State, kind, name, text string, goal *Term, props []string, structural bool) *Obl {
	if x.dry > 0 || st.dead {
		return nil
	}
	if goal.op == "lit" && goal.name == "true" {
		// still counted: discharged by simplification
		o := &Obl{Fn: x.cur, Kind: kind, Name: name, Text: text, goal: goal, props: props, structural: structural, status: "proved", solver: "simplifier"}
		x.obls = append(x.obls, o)
		return o
	}
	if goal.op == "app" && goal.name == "and" && kind != "vacuity" {
		var last *Obl
		for _, g := range goal.args {
			last = x.oblig(st, kind, name, text, g, props, structural)
		}
		return last
	}
	hyps := append(append([]*Term(nil), x.globalAx...), st.pc.list()...)
	if kind != "vacuity" {
		if parts := splitGoal(goal); len(parts) > 0 {
			var last *Obl
			for _, p := range parts {
				last = &Obl{Fn: x.cur, Kind: kind, Name: name, Text: text, hyps: append(append([]*Term(nil), hyps...), p.hyps...), goal: p.goal, props: props, structural: structural, strings: x.strOpt, bounded: x.boundedRun}
				x.obls = append(x.obls, last)
			}
			return last
		}
	}
	o := &Obl{Fn: x.cur, Kind: kind, Name: name, Text: text, hyps: hyps, goal: goal, props: props, structural: structural, strings: x.strOpt, bounded: x.boundedRun}
	x.obls = append(x.obls, o)
	return o
}

type subGoal struct {
	hyps []*Term
	goal *Term
}

// splitGoal turns "forall x. A ==> B && C" into the goals B and C for an arbitrary x with A assumed.
func splitGoal(g *Term) []subGoal {
	var out []subGoal
	var rec func(hyps []*Term, g *Term, seen map[*Term]bool)
	rec = func(hyps []*Term, g *Term, seen map[*Term]bool) {
		switch {
		case g.op == "app" && g.name == "and":
			for _, a := range g.args {
				rec(hyps, a, seen)
			}
		case g.op == "app" && g.name == "=>":
			h := append([]*Term(nil), hyps...)
			if a := g.args[0]; a.op == "app" && a.name == "and" {
				h = append(h, a.args...)
			} else {
				h = append(h, a)
			}
			rec(h, g.args[1], seen)
		case g.op == "forall":
			m := map[*Term]*Term{}
			for _, v := range g.bvars {
				m[v] = Fresh("sk", v.sort)
			}
			h := append([]*Term(nil), hyps...)
			for _, tr := range g.trigs {
				for _, t := range tr {
					u := Subst(t, m)
					h = append(h, Fn("seen:"+string(u.sort), SBool, u)) // keeps the trigger term in sight
				}
			}
			rec(h, Subst(g.args[0], m), seen)
		case g.op == "lit" && g.name == "true":
		default:
			out = append(out, subGoal{append([]*Term(nil), hyps...), g})
		}
	}
	rec(nil, g, nil)
	return out
}
