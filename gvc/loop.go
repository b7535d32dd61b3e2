package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopCtx struct{ l *Loop }

// procLoop verifies a loop against its invariants (or unrolls it) and returns
// the edges leaving it.
func (x *Exec) procLoop(fr *Frame, l *Loop, incs []inc) []inc {
	var sts []*State
	for _, e := range incs {
		if e.st.dead {
			continue
		}
		x.evalPhis(e.st, l.head, e.from)
		sts = append(sts, e.st)
	}
	if len(sts) > 1 {
		sts = x.mergeAll(sts, 2)
	}
	var out []inc
	for _, st := range sts {
		k := x.unrollAll
		var ls *LoopSpec
		if fr.spec != nil {
			ls = fr.spec.loops[l.ord]
		}
		if ls == nil {
			// contract attached to an enclosing verified function: loops of
			// inlined helpers are addressed as name:ordinal there
			if x.curSpec != nil && !fr.top {
				ls = x.curSpec.inlineLoops[fmt.Sprintf("%s:%d", ShortName(fr.fn), l.ord)]
			}
		}
		if ls != nil && ls.unroll > 0 {
			k = ls.unroll
			x.bounded[ShortName(fr.fn)] = k
		}
		if k > 0 {
			out = append(out, x.unroll(fr, l, st, k)...)
		} else {
			out = append(out, x.cutLoop(fr, l, st, ls)...)
		}
	}
	return out
}

// unroll runs at most k iterations (bounded mode: longer runs are cut off).
func (x *Exec) unroll(fr *Frame, l *Loop, st *State, k int) []inc {
	var out []inc
	cur := []*State{st}
	oldIter := st.iter
	for i := 0; i <= k; i++ {
		var next []inc
		for _, s := range cur {
			s.iter = Int(int64(i))
			ex := x.procRegion(fr, l.blocks, l, []inc{{to: l.head, st: s}})
			for _, e := range ex {
				if e.to == l.head {
					next = append(next, e)
				} else {
					e.st.iter = oldIter
					out = append(out, e)
				}
			}
		}
		cur = nil
		if i == k {
			break
		}
		for _, e := range next {
			if !e.st.dead {
				x.evalPhis(e.st, l.head, e.from)
				cur = append(cur, e.st)
			}
		}
		cur = x.mergeAll(cur, 4)
		if len(cur) == 0 {
			break
		}
	}
	return out
}

type loopHavoc struct {
	frames map[string][]*Term   // candidate frames: keys unchanged on older objects but these roots
	old    map[string]bool      // ... "older" meaning: older than the call of the function under proof
	phi    map[int]map[int]bool // phi index -> leaf index changed
	step   map[int]*big.Int     // int phi with constant step
	keys   map[string]bool      // heap keys changed
	alloc  bool
}

func origin(t *Term) *Term {
	for t.op == "app" && t.name == "store" {
		t = t.args[0]
	}
	return t
}

// cutLoop: havoc what the body changes, assume the invariant, check it is preserved.
func (x *Exec) cutLoop(fr *Frame, l *Loop, st0 *State, ls *LoopSpec) []inc {
	phis := phisOf(l.head)
	hv := loopHavoc{phi: map[int]map[int]bool{}, step: map[int]*big.Int{}, keys: map[string]bool{}}
	init := make([][]*Term, len(phis))
	opaque := make([]Val, len(phis))
	for i, p := range phis {
		v := st0.loc[p]
		if a, ok := v.(AddrV); ok {
			v = x.addrTerm(a)
			st0.loc[p] = v
		}
		if _, ok := v.(FuncV); ok {
			opaque[i] = v
			continue
		}
		if _, ok := v.(IterV); ok {
			opaque[i] = v
			continue
		}
		init[i] = x.flat(v, p.Type())
	}
	// ---- discover what changes
	var writes map[string]map[*Term]bool
	var dirty map[string]bool
	x.dry++
	var mark int
	for round := 0; ; round++ {
		if round > 12 {
			x.dry--
			unsupported("loop analysis of %s does not settle", ShortName(fr.fn))
		}
		mark = B.n
		st, _ := x.havocLoop(fr, l, st0, phis, init, opaque, hv, nil, nil, nil)
		start := st.clone()
		ex := x.loopBody(fr, l, st)
		changed := false
		writes = map[string]map[*Term]bool{}
		dirty = map[string]bool{}
		steps := map[int]*big.Int{}
		stepBad := map[int]bool{}
		outs := ex
		for _, o := range outs {
			if o.to != l.head || o.st.dead {
				continue
			}
			if o.st.epoch != start.epoch {
				x.dry--
				unsupported("loop body in %s modifies everything", ShortName(fr.fn))
			}
			vals := x.phiVals(o.st, l.head, o.from)
			for i, p := range phis {
				if opaque[i] != nil {
					if !sameVal(opaque[i], vals[i]) {
						x.dry--
						unsupported("loop-carried function value")
					}
					continue
				}
				v := vals[i]
				if a, ok := v.(AddrV); ok {
					v = x.addrTerm(a)
				}
				ts := x.flat(v, p.Type())
				cur := x.flat(start.loc[p], p.Type())
				for j := range ts {
					if ts[j] != cur[j] {
						if hv.phi[i] == nil {
							hv.phi[i] = map[int]bool{}
						}
						if !hv.phi[i][j] {
							hv.phi[i][j] = true
							changed = true
						}
						if cur[j].sort == SInt && len(ts) == 1 {
							d := ts[j]
							if d.op == "app" && strings.HasPrefix(d.name, "wrap_") {
								d = d.args[0]
							}
							b, k := splitOffset(d)
							if b == cur[j] {
								if s, ok := steps[i]; ok && s.Cmp(k) != 0 {
									stepBad[i] = true
								}
								steps[i] = k
							} else {
								stepBad[i] = true
							}
						}
					} else if len(ts) == 1 {
						stepBad[i] = true
					}
				}
			}
			for k, h := range o.st.heap {
				s, ok := start.heap[k]
				if !ok {
					s = x.hget(start, k)
				}
				if h != s {
					if !hv.keys[k] {
						hv.keys[k] = true
						changed = true
					}
					x.collectWrites(h, s, k, writes, dirty)
				}
			}
			if o.st.alloc != start.alloc && !hv.alloc {
				hv.alloc = true
				changed = true
			}
		}
		hv.step = map[int]*big.Int{}
		for i, s := range steps {
			if !stepBad[i] {
				hv.step[i] = s
			}
		}
		if !changed {
			break
		}
	}
	x.dry--
	// which written indices are fixed through the loop?
	inv := map[string][]*Term{}
	newOnly := map[string]bool{}
	for k := range hv.keys {
		if dirty[k] {
			continue
		}
		okAll := true
		var fixed []*Term
		isNew := false
		for idx := range writes[k] {
			if maxID(idx) <= mark {
				fixed = append(fixed, idx)
				continue
			}
			b, _ := splitOffset(rootTerm(idx))
			if b.op == "const" && strings.HasPrefix(b.name, "alloc!") || b.op == "const" && strings.HasPrefix(b.name, "loopnew!") {
				isNew = true
				continue
			}
			okAll = false
		}
		if okAll {
			sort.Slice(fixed, func(i, j int) bool { return fixed[i].id < fixed[j].id })
			inv[k] = fixed
			newOnly[k] = isNew
		}
	}
	// ---- check the invariant on entry
	env := x.loopEnv(fr, st0, l, Int(0))
	if ls != nil && x.dry == 0 {
		for i, c := range ls.invs {
			if !x.wants(c.props) {
				continue
			}
			g := x.evalBool(env, st0, c.e)
			x.oblig(st0, "inv-init", fmt.Sprintf("%s loop %d invariant %s", ShortName(fr.fn), l.ord, clauseName(c, i)), c.text, g, c.props, true)
		}
	}
	oldIter := st0.iter
	iter := Fresh("iter", SInt)
	// arr leaves: either the initial array or one allocated in the loop
	var cands []cand
	if hv.alloc {
		for i, p := range phis {
			if opaque[i] != nil {
				continue
			}
			for j, lf := range leaves(p.Type()) {
				if !hv.phi[i][j] {
					continue
				}
				if lf.part == "arr" || lf.t != nil && isRefType(lf.t) {
					cands = append(cands, cand{phi: i, leaf: j})
				}
			}
		}
	}
	// reference cells at fixed places: either the initial value or something new
	var ks []string
	for k := range hv.keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if hv.alloc {
		for _, k := range ks {
			ki := x.keys[k]
			if ki.kind == "ghost" || inv[k] == nil || ki.kind != "field" {
				continue
			}
			if !(ki.leaf.part == "arr" || ki.leaf.t != nil && isRefType(ki.leaf.t)) {
				continue
			}
			for _, idx := range inv[k] {
				cands = append(cands, cand{phi: -1, key: k, idx: idx, init: Select(x.hget(st0, k), idx)})
			}
		}
	}
	// frames of keys written at places the loop moves through
	hv.frames, hv.old = map[string][]*Term{}, map[string]bool{}
	wider := map[string][]*Term{} // where the narrow guess fails
	if hv.alloc {
		var roots []*Term
		for _, c := range cands {
			t := c.init
			if c.phi >= 0 {
				t = init[c.phi][c.leaf]
			}
			if t.ival == nil {
				roots = append(roots, t)
			}
		}
		for _, k := range ks {
			if _, ok := inv[k]; ok || x.keys[k].kind == "ghost" {
				continue
			}
			var fixed []*Term
			for idx := range writes[k] {
				if maxID(idx) <= mark {
					fixed = append(fixed, rootOfQ(idx))
				}
			}
			sort.Slice(fixed, func(i, j int) bool { return fixed[i].id < fixed[j].id })
			hv.frames[k] = fixed
			wider[k] = append(append([]*Term{}, fixed...), roots...)
		}
	}
	if debugLoop {
		fmt.Println("loop", ShortName(fr.fn), l.ord, "keys", ks, "inv", inv, "frames", hv.frames, "dirty", dirty, "cands", len(cands))
	}
	// Houdini on the automatic candidates
	for len(cands)+len(hv.frames) > 0 {
		x.dry++
		st, _ := x.havocLoop(fr, l, st0, phis, init, opaque, hv, iter, inv, newOnly)
		x.assumeCands(st, phis, init, cands, st0)
		x.assumeInvs(fr, st, l, ls, iter)
		ex := x.loopBody(fr, l, st)
		bad := map[int]bool{}
		dropped := map[string]bool{}
		var jobs []*quickJob
		ask := func(st *State, g *Term, failed func()) {
			if g.op == "lit" {
				if g.name != "true" {
					failed()
				}
				return
			}
			jobs = append(jobs, &quickJob{script: x.quickScript(st, g), failed: failed})
		}
		for _, o := range ex {
			if o.to != l.head || o.st.dead {
				continue
			}
			vals := x.phiVals(o.st, l.head, o.from)
			for ci, c := range cands {
				if bad[ci] {
					continue
				}
				ci := ci
				if c.phi < 0 {
					t := Select(x.hget(o.st, c.key), c.idx)
					if t != Select(x.hget(st, c.key), c.idx) {
						ask(o.st, candTerm(t, c.init, st0.alloc), func() { bad[ci] = true })
					}
					continue
				}
				v := vals[c.phi]
				if a, ok := v.(AddrV); ok {
					v = x.addrTerm(a)
				}
				t := x.flat(v, phis[c.phi].Type())[c.leaf]
				g := candTerm(t, init[c.phi][c.leaf], st0.alloc)
				ask(o.st, g, func() { bad[ci] = true })
			}
			for _, k := range ks {
				roots, ok := hv.frames[k]
				if !ok || x.hget(o.st, k) == x.hget(st, k) {
					continue
				}
				r := Fresh("fr", SInt)
				cs := []*Term{Lt(rootOfQ(r), x.frameAlloc(hv, k, st0))}
				for _, f := range roots {
					cs = append(cs, Not(Eq(rootOfQ(r), f)))
				}
				k := k
				ask(o.st, Implies(And(cs...), Eq(Select(x.hget(o.st, k), r), Select(x.hget(st0, k), r))), func() {
					if dropped[k] {
						return
					}
					dropped[k] = true
					if debugLoop {
						fmt.Println("loop", ShortName(fr.fn), l.ord, "frame dropped:", k)
					}
					canOld := x.pre != nil && st0.alloc != x.pre.alloc
					w, more := wider[k]
					if canOld && !hv.old[k] {
						hv.old[k] = true
					} else if more && len(w) > len(hv.frames[k]) {
						hv.frames[k], hv.old[k] = w, false
						delete(wider, k)
					} else {
						delete(hv.frames, k)
					}
					bad[-1] = true
				})
			}
		}
		x.runQuick(jobs)
		x.dry--
		if len(bad) == 0 {
			break
		}
		var nc []cand
		for ci, c := range cands {
			if !bad[ci] {
				nc = append(nc, c)
			}
		}
		cands = nc
	}
	// ---- arbitrary iteration
	st, _ := x.havocLoop(fr, l, st0, phis, init, opaque, hv, iter, inv, newOnly)
	x.assumeCands(st, phis, init, cands, st0)
	x.assumeInvs(fr, st, l, ls, iter)
	st.iter = iter
	var out []inc
	for _, e := range x.loopBody(fr, l, st) {
		if e.st.dead {
			continue
		}
		if e.to != l.head {
			e.st.iter = oldIter
			out = append(out, e)
			continue
		}
		if ls != nil && x.dry == 0 {
			x.evalPhis(e.st, l.head, e.from)
			env := x.loopEnv(fr, e.st, l, Add(iter, Int(1)))
			for i, c := range ls.invs {
				if !x.wants(c.props) {
					continue
				}
				g := x.evalBool(env, e.st, c.e)
				x.oblig(e.st, "inv-step", fmt.Sprintf("%s loop %d invariant %s", ShortName(fr.fn), l.ord, clauseName(c, i)), c.text, g, c.props, true)
			}
		}
	}
	if x.dry == 0 && len(out) == 0 && false {
		x.errs = append(x.errs, "loop without exit in "+ShortName(fr.fn))
	}
	return out
}

func clauseName(c Clause, i int) string {
	if c.name != "" {
		return c.name
	}
	return fmt.Sprintf("%s:%d", c.file, c.line)
}

func isRefType(t types.Type) bool {
	if isTime(t) {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return true
	}
	return false
}

type cand struct {
	phi, leaf int
	key       string // heap cell instead of a phi (phi < 0)
	idx, init *Term
}

var debugLoop = os.Getenv("GVC_LOOP") != ""

func candTerm(t, init, alloc0 *Term) *Term { return Or(Eq(t, init), Ge(t, alloc0)) }

func (x *Exec) assumeCands(st *State, phis []*ssa.Phi, init [][]*Term, cands []cand, st0 *State) {
	for _, c := range cands {
		if c.phi < 0 {
			st.assume(candTerm(Select(x.hget(st, c.key), c.idx), c.init, st0.alloc))
			continue
		}
		t := x.flat(st.loc[phis[c.phi]], phis[c.phi].Type())[c.leaf]
		st.assume(candTerm(t, init[c.phi][c.leaf], st0.alloc))
	}
}

func (x *Exec) assumeInvs(fr *Frame, st *State, l *Loop, ls *LoopSpec, iter *Term) {
	if ls == nil {
		return
	}
	env := x.loopEnv(fr, st, l, iter)
	for _, c := range ls.invs {
		if !x.wants(c.props) {
			continue
		}
		st.assume(x.evalBool(env, st, c.e))
	}
}

func rootTerm(t *Term) *Term {
	for t.op == "app" && (t.name == "elt" || strings.HasPrefix(t.name, "fa:") || strings.HasPrefix(t.name, "ea:")) {
		t = t.args[0]
	}
	return t
}

// maxID: the youngest declared constant inside t, by term id.
var maxMemo = map[*Term]int{}

func maxID(t *Term) int {
	if m, ok := maxMemo[t]; ok {
		return m
	}
	m := 0
	if t.op == "const" && strings.Contains(t.name, "!") {
		m = t.id
	}
	for _, a := range t.args {
		if k := maxID(a); k > m {
			m = k
		}
	}
	maxMemo[t] = m
	return m
}

func (x *Exec) collectWrites(h, s *Term, k string, w map[string]map[*Term]bool, dirty map[string]bool) {
	if w[k] == nil {
		w[k] = map[*Term]bool{}
	}
	seen := map[*Term]bool{}
	var rec func(h *Term)
	rec = func(h *Term) {
		if h == s || seen[h] {
			return
		}
		seen[h] = true
		if h.op == "app" && h.name == "store" {
			w[k][h.args[1]] = true
			rec(h.args[0])
			return
		}
		if h.op == "app" && h.name == "ite" {
			rec(h.args[1])
			rec(h.args[2])
			return
		}
		dirty[k] = true
	}
	if x.keys[k] != nil && x.keys[k].kind == "ghost" {
		dirty[k] = true
		return
	}
	rec(h)
}

// havocLoop builds the state at the head of an arbitrary iteration.
func (x *Exec) havocLoop(fr *Frame, l *Loop, st0 *State, phis []*ssa.Phi, init [][]*Term, opaque []Val, hv loopHavoc, iter *Term, inv map[string][]*Term, newOnly map[string]bool) (*State, bool) {
	st := st0.clone()
	if hv.alloc {
		a := Fresh("alloc", SInt)
		st.assume(Ge(a, st0.alloc))
		B.side[a.id] = []*Term{Ge(a, st0.alloc)}
		st.alloc = a
	}
	if iter == nil {
		iter = Fresh("iter", SInt)
	}
	st.assume(And(Ge(iter, Int(0)), Lt(iter, BigInt(new(big.Int).Lsh(big.NewInt(1), 60)))))
	st.iter = iter
	for i, p := range phis {
		if opaque[i] != nil {
			continue
		}
		ls := leaves(p.Type())
		ts := append([]*Term(nil), init[i]...)
		ch := false
		for j, lf := range ls {
			if !hv.phi[i][j] {
				continue
			}
			ch = true
			if s, ok := hv.step[i]; ok && len(ls) == 1 {
				e := Add(init[i][j], Mul(BigInt(s), iter))
				if p.Comment == "rangeindex" {
					ts[j] = e
				} else {
					ts[j] = wrap(e, lf.t)
				}
				continue
			}
			nm := p.Comment
			if nm == "" {
				nm = p.Name()
			}
			c := Fresh(nm+lf.suf, lf.sort)
			if f := wfLeaf(c, lf, st.alloc); f.op != "lit" {
				B.side[c.id] = []*Term{f}
			}
			ts[j] = c
		}
		if ch {
			v, _ := unflat(ts, p.Type())
			st.loc[p] = v
			x.wfVal(st, v, p.Type())
			if p.Comment != "" {
				st.names[p.Comment] = nameRef{v, p.Type(), false}
			}
		}
	}
	var ks []string
	for k := range hv.keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		x.havocKey(st, st0, k, inv, newOnly)
		if roots, ok := hv.frames[k]; ok {
			r := Var("r", SInt)
			cs := []*Term{Lt(rootOfQ(r), x.frameAlloc(hv, k, st0))}
			for _, f := range roots {
				cs = append(cs, Not(Eq(rootOfQ(r), f)))
			}
			sel := Select(st.heap[k], r)
			st.assume(Forall([]*Term{r}, [][]*Term{{sel}}, Implies(And(cs...), Eq(sel, Select(x.hget(st0, k), r)))))
		}
	}
	// iteration state of a map range driven by this loop
	for b := range l.blocks {
		for _, in := range b.Instrs {
			nx, ok := in.(*ssa.Next)
			if !ok || nx.IsString || b != l.head {
				continue
			}
			it, ok := st.loc[nx.Iter].(IterV)
			if !ok {
				continue
			}
			info := iterTab[it.id]
			if x.ownLoop(fr.fn, b) == l {
				st.heap[info.n] = iter
				mk := x.mapKeys(info.mt)
				if !hv.keys[mk.dom] {
					k := Var("k", mk.ks)
					v := Select(st.heap[info.key], k)
					st.assume(Forall([]*Term{k}, [][]*Term{{v}}, Implies(v, Select(st.heap["G:"+it.id+":dom0"], k))))
					if st.heap["G:"+it.id+":dom0"] == Select(x.hget(st, mk.dom), st.heap["G:"+it.id+":m"]) {
						st.assume(Le(iter, Select(x.hget(st, mk.ln), st.heap["G:"+it.id+":m"])))
					}
				}
			}
		}
	}
	return st, true
}

// ownLoop: the innermost loop containing block b.
func (x *Exec) ownLoop(fn *ssa.Function, b *ssa.BasicBlock) *Loop {
	var best *Loop
	for _, l := range x.forest(fn).loops {
		if l.blocks[b] && (best == nil || len(l.blocks) < len(best.blocks)) {
			best = l
		}
	}
	return best
}

func (x *Exec) freshHeap(st *State, k string) *Term {
	ki := x.keys[k]
	h := Fresh("L!"+k, ki.sort)
	return h
}

// havocKey replaces heap key k by an arbitrary array; with frame information
// only at the given indices and at objects allocated since st0.
func (x *Exec) havocKey(st, st0 *State, k string, inv map[string][]*Term, newOnly map[string]bool) {
	ki := x.keys[k]
	old := x.hget(st0, k)
	h := x.freshHeap(st, k)
	st.heap[k] = h
	if ki.kind != "ghost" {
		var dom *Term
		if ki.kind == "mapval" || ki.kind == "maplen" {
			b, _ := mapKeyParts(k)
			dom = x.hget(st, b+"#dom")
		}
		x.wfConst(h, ki, st.alloc, dom)
	} else if ki.sort == SInt {
		if ki.ref != nil {
			if f := wfLeaf(h, Leaf{"", SInt, ki.ref, ""}, st.alloc); f.op != "lit" {
				B.side[h.id] = []*Term{f}
			}
		}
	}
	fixed, ok := inv[k]
	if !ok {
		return
	}
	r := Var("r", SInt)
	var ex []*Term
	for _, f := range fixed {
		ex = append(ex, Not(Eq(r, f)))
	}
	if newOnly[k] {
		ex = append(ex, Lt(rootOfQ(r), st0.alloc))
	}
	sel := Select(h, r)
	st.assume(Forall([]*Term{r}, [][]*Term{{sel}}, Implies(And(ex...), Eq(sel, Select(old, r)))))
}

func (x *Exec) frameAlloc(hv loopHavoc, k string, st0 *State) *Term {
	if hv.old[k] {
		return x.pre.alloc
	}
	return st0.alloc
}

func rootOfQ(r *Term) *Term { return Ite(Lt(r, Int(0)), Fn("eltArr", SInt, r), r) }

func (x *Exec) loopEnv(fr *Frame, st *State, l *Loop, iter *Term) *Env {
	env := &Env{x: x, st: st, old: x.pre, names: map[string]TV{}, iter: iter, fr: fr, loop: l}
	for n, v := range x.preEnv {
		env.names[n] = v
	}
	if !fr.top {
		// inlined helper: its parameters are visible by name below
	}
	if n := len(x.iters); n > 0 {
		env.outer = x.iters[n-1]
	}
	env.local = st.names
	return env
}

// loopBody runs one iteration from the state at the head (outer: its number).
func (x *Exec) loopBody(fr *Frame, l *Loop, st *State) []inc {
	x.iters = append(x.iters, st.iter)
	ex := x.procRegion(fr, l.blocks, l, []inc{{to: l.head, st: st}})
	x.iters = x.iters[:len(x.iters)-1]
	return ex
}
