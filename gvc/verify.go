package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type FuncReport struct {
	Name, Kind string
	Obls       []*Obl
	Assumed    []string
	Inlined    []string
	Contracts  []string // contracts applied
	Bounded    map[string]int
	Err        string
	Vacuity    string
	Outcomes   int
	File       string
	NilObl     bool
}

// targets: verified functions with a clause for the property.
func targets(sp *Specs, prop string) []string {
	var out []string
	for n, f := range sp.funcs {
		if f.kind != "func" {
			continue
		}
		hit := false
		has := func(c Clause) {
			for _, p := range c.props {
				if p == prop {
					hit = true
				}
			}
		}
		for _, c := range f.requires {
			has(c)
		}
		for _, c := range f.ensures {
			has(c)
		}
		for _, l := range f.loops {
			for _, c := range l.invs {
				has(c)
			}
		}
		for _, p := range f.props {
			if p == prop {
				hit = true
			}
		}
		if hit {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

func resetBank() {
	B = NewBank()
	iterTab = map[string]*iterInfo{}
	maxMemo = map[*Term]int{}
	initAxioms()
}

// VerifyProp runs every function the property depends on.
func VerifyProp(p *Program, sp *Specs, prop string, only string) (reps []*FuncReport, lem []*Obl) {
	// T.*: the contract of every exported method of T that has none of its own
	for n, f := range sp.funcs {
		if !strings.HasSuffix(n, ".*") {
			continue
		}
		delete(sp.funcs, n)
		for m := range p.funcs {
			t := strings.TrimPrefix(m, strings.TrimSuffix(n, "*"))
			if t == m || sp.funcs[m] != nil || strings.ContainsAny(t, ".$") || t == "" || t[0] < 'A' || t[0] > 'Z' {
				continue
			}
			c := *f
			c.name = m
			sp.funcs[m] = &c
		}
	}
	work := targets(sp, prop)
	seen := map[string]bool{}
	for len(work) > 0 {
		n := work[0]
		work = work[1:]
		if seen[n] {
			continue
		}
		seen[n] = true
		if only != "" && n != only {
			continue
		}
		r := verifyFunc(p, sp, prop, n)
		reps = append(reps, r)
		for _, c := range r.Contracts {
			if f := sp.funcs[c]; f != nil && f.kind == "func" && !seen[c] {
				work = append(work, c)
			}
		}
	}
	for _, l := range sp.lemmas {
		w := false
		for _, q := range l.c.props {
			if q == prop {
				w = true
			}
		}
		if !w || only != "" {
			continue
		}
		resetBank()
		x := NewExec(p, sp, prop)
		st := x.entryState()
		x.cur = "lemma " + l.name
		func() {
			defer func() {
				if r := recover(); r != nil {
					x.obls = append(x.obls, &Obl{Fn: x.cur, Kind: "lemma", Name: l.name, Text: l.c.text, status: "error", model: fmt.Sprint(r)})
				}
			}()
			x.loadAxioms(st, x.sp.axioms)
			env := &Env{x: x, st: st, old: st, names: map[string]TV{}}
			x.strOpt = true
			goal := l.c.e
			if goal.op == "forall" { // for arbitrary values
				for _, v := range goal.vars {
					c := Fresh("l."+v.name, x.sortOfS(v.typ))
					env.names[v.name] = x.tvType(v.typ, c)
					if v.typ.kind != "array" {
						if lo, hi, ok := intRange(x.goType(v.typ)); ok && x.goType(v.typ) != tInt {
							st.assume(And(Le(BigInt(lo), c), Le(c, BigInt(hi))))
						}
					}
				}
				goal = goal.args[0]
			}
			x.oblig(st, "lemma", l.name, l.c.text, x.evalBool(env, st, goal), l.c.props, false)
		}()
		finishScripts(x.obls)
		lem = append(lem, x.obls...)
	}
	return
}

func finishScripts(obls []*Obl) {
	for _, o := range obls {
		if o.status == "proved" || o.goal == nil || o.script != "" {
			continue
		}
		as := append(append([]*Term(nil), o.hyps...), Not(o.goal))
		o.script = Script(as, true)
		if o.strings {
			o.scriptStr = Script(as, false)
		}
	}
}

func (x *Exec) entryState() *State {
	a := alloc0()
	return &State{heap: map[string]*Term{}, epoch: 0, ebnd: a, alloc: a, loc: map[ssa.Value]Val{}, names: map[string]nameRef{}}
}

func (x *Exec) loadAxioms(st *State, cs []Clause) {
	for _, c := range cs {
		if !x.wants(c.props) {
			continue
		}
		env := &Env{x: x, st: st, old: st, names: map[string]TV{}}
		t := x.evalBool(env, st, c.e)
		syms := map[string]bool{}
		var rec func(t *Term)
		seen := map[*Term]bool{}
		rec = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == "app" && strings.HasPrefix(t.name, "p:") {
				syms[t.name] = true
			}
			for _, a := range t.args {
				rec(a)
			}
		}
		rec(t)
		if len(syms) == 0 && t.op == "forall" { // about strings
			syms["str.++"] = true
		}
		if len(syms) == 0 {
			panic(specErr{msg: fmt.Sprintf("%s:%d: axiom without a function symbol", c.file, c.line)})
		}
		for s := range syms {
			B.axioms[s] = append(B.axioms[s], t)
		}
	}
}

func verifyFunc(p *Program, sp *Specs, prop, name string) (rep *FuncReport) {
	resetBank()
	x := NewExec(p, sp, prop)
	rep = &FuncReport{Name: name, Kind: "proof"}
	spec := sp.funcs[name]
	fn := p.funcs[name]
	x.cur, x.curSpec = name, spec
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case toolErr:
				rep.Err = e.msg
			case specErr:
				rep.Err = e.msg
			default:
				if os.Getenv("GVC_PANIC") != "" {
					panic(r)
				}
				rep.Err = fmt.Sprintf("internal: %v", r)
			}
		}
		finishScripts(x.obls)
		rep.Obls = x.obls
		rep.Assumed = sortedKeys(x.assumed)
		rep.Inlined = sortedKeys(x.inlined)
		rep.Contracts = sortedKeys(x.usedSpec)
		rep.Bounded = x.bounded
	}()
	if fn == nil || len(fn.Blocks) == 0 {
		rep.Err = "function " + name + " is not in the program any more"
		return
	}
	rep.File = x.pos(fn.Pos())
	x.strOpt = spec.opts["strings"]
	x.nilObl = spec.opts["nopanic"]
	rep.NilObl = x.nilObl
	st := x.entryState()
	x.loadAxioms(st, x.sp.axioms)
	for _, l := range x.sp.lemmas { // a lemma with triggers may be used once it is proved
		if len(l.c.e.trig) > 0 {
			x.loadAxioms(st, []Clause{l.c})
		}
	}
	x.assumeGlobals(st)
	var args []Val
	var ts []types.Type
	var ns []string
	for _, pr := range fn.Params {
		v := x.freshVal("p."+pr.Name(), pr.Type(), st.alloc, st)
		args = append(args, v)
		ts = append(ts, pr.Type())
		ns = append(ns, pr.Name())
	}
	var bind []Val
	for _, fv := range fn.FreeVars {
		v := x.freshVal("fv."+fv.Name(), fv.Type(), st.alloc, st)
		bind = append(bind, v)
	}
	if r := fn.Signature.Recv(); r != nil {
		if _, ok := r.Type().Underlying().(*types.Pointer); ok {
			if t, ok := args[0].(*Term); ok {
				st.assume(Gt(t, Int(0)))
			}
		}
	}
	names := x.bindNames(spec, args, ts, ns)
	for i, fv := range fn.FreeVars {
		if pt, ok := fv.Type().(*types.Pointer); ok {
			st.assume(Not(Eq(bind[i].(*Term), Int(0))))
			if !isStruct(pt.Elem()) {
				names[fv.Name()] = TV{v: x.load(st, x.ptr(bind[i], pt.Elem())), t: pt.Elem()}
				continue
			}
			names[fv.Name()] = TV{v: bind[i], t: fv.Type()}
		}
	}
	x.pre = st.clone()
	env := &Env{x: x, st: st, old: x.pre, names: names}
	for _, d := range spec.defs {
		names[d.name] = env.eval(d.e)
	}
	for _, c := range spec.requires {
		if !x.wants(c.props) {
			continue
		}
		st.assume(x.evalBool(env, st, c.e))
	}
	// the entry heap may have been extended while evaluating: share it
	x.pre = st.clone()
	env.old = x.pre
	x.preEnv = names
	outs := x.execFn(fn, args, bind, st, true)
	outs = x.mergeOuts(outs, 64)
	rep.Outcomes = len(outs)
	rn := resultNames(spec, fn.Signature)
	var live []*Term
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		post := &Env{x: x, st: o.st, old: x.pre, names: map[string]TV{}}
		for n, v := range names {
			post.names[n] = v
		}
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			for _, n := range rn[i] {
				post.names[n] = TV{v: o.res[i], t: fn.Signature.Results().At(i).Type()}
			}
		}
		live = append(live, And(o.st.pc.list()...))
		for i, c := range spec.ensures {
			if !x.wants(c.props) {
				continue
			}
			for _, part := range x.splitEnsures(post, c.e) {
				g := part.t
				so := o.st
				if part.cond != nil {
					so = o.st.clone()
					so.assume(part.cond)
				}
				x.oblig(so, "post", fmt.Sprintf("%s: postcondition %s", x.pos(o.pos), clauseName(c, i)), c.text, g, c.props, false)
			}
		}
		x.frame(spec, names, o)
	}
	if len(live) == 0 {
		rep.Vacuity = "no execution reaches a return"
		if !spec.opts["noreturn"] {
			rep.Err = "vacuous: " + rep.Vacuity
		}
	} else {
		rep.vac(live)
	}
	return
}

type ensPart struct{ cond, t *Term }

func (x *Exec) splitEnsures(env *Env, e *Expr) []ensPart {
	if e.op == "binary" && e.s == "&&" {
		return append(x.splitEnsures(env, e.args[0]), x.splitEnsures(env, e.args[1])...)
	}
	if e.op == "binary" && e.s == "==>" {
		c := env.evalB(e.args[0])
		if c.op == "lit" && c.name == "false" {
			return []ensPart{{nil, True()}}
		}
		var out []ensPart
		for _, q := range x.splitEnsures(env, e.args[1]) {
			cc := c
			if q.cond != nil {
				cc = And(c, q.cond)
			}
			out = append(out, ensPart{cc, q.t})
		}
		return out
	}
	return []ensPart{{nil, env.evalB(e)}}
}

// vac checks that the assumptions of a proof are not contradictory.
func (r *FuncReport) vac(live []*Term) {
	any := false
	for i, l := range live {
		if i >= 4 && any {
			break
		}
		q := runSolver("z3-new", Script([]*Term{l}, true)+"(check-sat)\n", 1200, false)
		if q.res != "unsat" {
			any = true
		}
	}
	if !any {
		r.Vacuity = "every path's assumptions are contradictory"
		r.Err = "vacuous: " + r.Vacuity
	} else {
		r.Vacuity = "assumptions consistent (not refuted)"
	}
}

// frame: what the contract does not list stays as it was.
func (x *Exec) frame(spec *FuncSpec, names map[string]TV, o Outcome) {
	if spec.modAll {
		return
	}
	whole := map[string]bool{}
	refs := map[string][]*Term{}
	for _, m := range spec.modifies {
		for _, t := range x.modTargets(&Env{x: x, st: x.pre, old: x.pre, names: names}, m) {
			switch t.kind {
			case "ghost", "key":
				whole[t.key] = true
			case "ref":
				refs[t.key] = append(refs[t.key], t.ref)
			}
		}
	}
	if o.st.epoch != x.pre.epoch {
		x.oblig(o.st, "frame", x.pos(o.pos)+": frame", "something unspecified is modified", False(), nil, true)
		return
	}
	var ks []string
	for k := range o.st.heap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		h := o.st.heap[k]
		if whole[k] || strings.HasPrefix(k, "G:it:") {
			continue
		}
		h0 := x.hget(x.pre, k)
		if h == h0 {
			continue
		}
		ki := x.keys[k]
		if ki.kind == "ghost" {
			x.oblig(o.st, "frame", x.pos(o.pos)+": ghost "+k+" unchanged", k+" is not in the modifies clause", Eq(h, h0), nil, true)
			continue
		}
		r := Fresh("frame", SInt)
		var hy []*Term
		hy = append(hy, Lt(rootOfQ(r), x.pre.alloc))
		if ki.kind == "field" || ki.kind == "elem" {
			hy = append(hy, Not(Eq(rootOfQ(r), Int(0)))) // nothing lives behind nil
		}
		for _, a := range refs[k] {
			hy = append(hy, Not(Eq(r, a)))
		}
		s := o.st.clone()
		for _, t := range hy {
			s.assume(t)
		}
		x.oblig(s, "frame", x.pos(o.pos)+": frame of "+k, k+" changes only where the contract allows", Eq(pushSelect(h, r, map[*Term]*Term{}), Select(h0, r)), nil, true)
	}
}
