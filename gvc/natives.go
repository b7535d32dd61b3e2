package main

import (
	"go/types"
	"math/big"
)

// Models of standard-library functions. Each states what the documentation
// promises; they are trusted (listed in the evidence as such).

type native func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool)

var natives map[string]native

func tm(v Val) *Term { return v.(*Term) }

func e9() *Term { return Int(1000000000) }

func pureStr(name string) native {
	return func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
		var ts []*Term
		for i, v := range a {
			if i < sig.Params().Len() {
				ts = append(ts, x.flat(v, sig.Params().At(i).Type())...)
			}
		}
		x.trust(name)
		var rs []Val
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			so, ok := scalarSort(t)
			if !ok {
				return nil, false
			}
			f := Fn("n:"+name+suffix(i), so, ts...)
			if lo, hi, ok := intRange(t); ok && !f.qd {
				B.side[f.id] = appendUnique(B.side[f.id], And(Le(BigInt(lo), f), Le(f, BigInt(hi))))
			}
			if so == SReal && !f.qd {
				B.side[f.id] = appendUnique(B.side[f.id], flWf(f))
			}
			rs = append(rs, f)
		}
		return rs, true
	}
}

func suffix(i int) string {
	if i == 0 {
		return ""
	}
	return string(rune('0' + i))
}

func (x *Exec) trust(name string) {
	x.assumed["model of "+name+" (standard library, trusted)"] = true
}

// newError: a fresh non-nil error.
func newError(name string) native {
	return func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
		e := Fresh("err", SInt)
		st.assume(Gt(e, Int(0)))
		if len(a) > 0 {
			if t, ok := a[0].(*Term); ok && t.sort == SStr && name == "errors.New" {
				st.assume(Eq(Fn("errText", SStr, e), t))
			}
		}
		B.side[e.id] = []*Term{Lt(payOf(e), st.alloc), Lt(Fn("eltArr", SInt, payOf(e)), st.alloc)}
		x.trust(name)
		return []Val{e}, true
	}
}

func noop(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
	if sig.Results().Len() == 0 {
		return nil, true
	}
	return nil, false
}

func strArr(x *Exec, st *State, n *Term, elems map[int]*Term) SliceV {
	r := x.newRef(st)
	k := x.elemKeys(types.Typ[types.String])[0]
	h := x.hget(st, k)
	c := Select(h, r)
	for i := 0; i < len(elems); i++ {
		c = Store(c, Int(int64(i)), elems[i])
	}
	x.set(st, k, Store(h, r, c))
	return SliceV{r, Int(0), n, n}
}

func init() {
	natives = map[string]native{
		"errors.New":   newError("errors.New"),
		"fmt.Errorf":   newError("fmt.Errorf"),
		"status.Error": newError("status.Error"),

		"time.Unix": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			x.trust("package time: a Time is its nanosecond instant; location and monotonic reading are ignored")
			return []Val{Add(Mul(tm(a[0]), e9()), tm(a[1]))}, true
		},
		"time.UnixMilli": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			x.trust("package time: a Time is its nanosecond instant; location and monotonic reading are ignored")
			return []Val{Mul(tm(a[0]), Int(1000000))}, true
		},
		"time.Time.Unix": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			x.trust("package time: a Time is its nanosecond instant; location and monotonic reading are ignored")
			return []Val{wrap(Div(tm(a[0]), e9()), types.Typ[types.Int64])}, true
		},
		"time.Time.UnixMilli": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			x.trust("package time: a Time is its nanosecond instant; location and monotonic reading are ignored")
			return []Val{wrap(Div(tm(a[0]), Int(1000000)), types.Typ[types.Int64])}, true
		},
		"time.Time.UnixNano": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			x.trust("package time: a Time is its nanosecond instant; location and monotonic reading are ignored")
			return []Val{wrap(tm(a[0]), types.Typ[types.Int64])}, true
		},
		"time.Time.After": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			return []Val{Gt(tm(a[0]), tm(a[1]))}, true
		},
		"time.Time.Before": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			return []Val{Lt(tm(a[0]), tm(a[1]))}, true
		},
		"time.Time.Equal": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			return []Val{Eq(tm(a[0]), tm(a[1]))}, true
		},
		"time.Time.Compare": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			return []Val{Ite(Lt(tm(a[0]), tm(a[1])), Int(-1), Ite(Eq(tm(a[0]), tm(a[1])), Int(0), Int(1)))}, true
		},
		"time.Time.IsZero": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			return []Val{Eq(tm(a[0]), BigInt(zeroTimeNs))}, true
		},
		"time.Time.Add": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			return []Val{Add(tm(a[0]), tm(a[1]))}, true
		},
		"time.Time.Sub": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			lo, hi, _ := intRange(types.Typ[types.Int64])
			d := Sub(tm(a[0]), tm(a[1]))
			return []Val{Ite(Lt(d, BigInt(lo)), BigInt(lo), Ite(Gt(d, BigInt(hi)), BigInt(hi), d))}, true
		},
		"time.Time.AddDate": addDate,
		"time.Duration.Milliseconds": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			d := tm(a[0])
			return []Val{Ite(Ge(d, Int(0)), Div(d, Int(1000000)), Neg(Div(Neg(d), Int(1000000))))}, true
		},
		"time.Duration.Seconds": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			f := Fn("n:time.Duration.Seconds", SReal, tm(a[0]))
			B.side[f.id] = []*Term{flWf(f), flFinite(f)}
			return []Val{f}, true
		},
		"time.Since": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			return nil, false
		},
		"strings.HasPrefix": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			return []Val{app("str.prefixof", SBool, tm(a[1]), tm(a[0]))}, true
		},
		"strings.HasSuffix": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			return []Val{app("str.suffixof", SBool, tm(a[1]), tm(a[0]))}, true
		},
		"strings.Contains": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			return []Val{app("str.contains", SBool, tm(a[0]), tm(a[1]))}, true
		},
		"strings.ContainsAny": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			s, c := tm(a[0]), tm(a[1])
			if !c.isStrLit() {
				return nil, false
			}
			var o []*Term
			for _, r := range c.sval {
				if r > 127 {
					return nil, false
				}
				o = append(o, app("str.contains", SBool, s, StrLit(string(r))))
			}
			return []Val{Or(o...)}, true
		},
		"strings.Index": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			return []Val{app("str.indexof", SInt, tm(a[0]), tm(a[1]), Int(0))}, true
		},
		"strings.TrimSuffix": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			s, t := tm(a[0]), tm(a[1])
			return []Val{Ite(app("str.suffixof", SBool, t, s), subStr(s, Int(0), Sub(strLen(s), strLen(t))), s)}, true
		},
		"strings.TrimPrefix": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			s, t := tm(a[0]), tm(a[1])
			return []Val{Ite(app("str.prefixof", SBool, t, s), subStr(s, strLen(t), Sub(strLen(s), strLen(t))), s)}, true
		},
		"strings.ReplaceAll": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			return []Val{app("str.replace_all", SStr, tm(a[0]), tm(a[1]), tm(a[2]))}, true
		},
		"strings.Replace": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			n := tm(a[3])
			if n.ival != nil && n.ival.Sign() < 0 {
				return []Val{app("str.replace_all", SStr, tm(a[0]), tm(a[1]), tm(a[2]))}, true
			}
			return pureStr("strings.Replace")(x, st, a, sig)
		},
		"strings.SplitN": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			s, sep, n := tm(a[0]), tm(a[1]), tm(a[2])
			if n.ival == nil || n.ival.Cmp(big.NewInt(2)) != 0 || !sep.isStrLit() || sep.sval == "" {
				return nil, false
			}
			x.trust("strings.SplitN(s, sep, 2)")
			has := app("str.contains", SBool, s, sep)
			i := app("str.indexof", SInt, s, sep, Int(0))
			l := Int(int64(len(sep.sval)))
			e0 := Ite(has, subStr(s, Int(0), i), s)
			e1 := subStr(s, Add(i, l), Sub(strLen(s), Add(i, l)))
			return []Val{strArr(x, st, Ite(has, Int(2), Int(1)), map[int]*Term{0: e0, 1: e1})}, true
		},
		"strings.Split": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			s, sep := tm(a[0]), tm(a[1])
			if !sep.isStrLit() || sep.sval == "" {
				return nil, false
			}
			x.trust("strings.Split: at least one part; content is a function of the arguments")
			n := Fn("n:splitLen", SInt, s, sep)
			has := app("str.contains", SBool, s, sep)
			st.assume(And(Ge(n, Int(1)), Lt(n, Int(1<<40)), Eq(has, Ge(n, Int(2)))))
			r := x.newRef(st)
			k := x.elemKeys(types.Typ[types.String])[0]
			h := x.hget(st, k)
			c := Fn("n:splitParts", ArrSort(SInt, SStr), s, sep)
			i := app("str.indexof", SInt, s, sep, Int(0))
			st.assume(Eq(Select(c, Int(0)), Ite(has, subStr(s, Int(0), i), s)))
			x.set(st, k, Store(h, r, c))
			return []Val{SliceV{r, Int(0), n, n}}, true
		},
		"strings.ToLower":   pureStr("strings.ToLower"),
		"strings.ToUpper":   pureStr("strings.ToUpper"),
		"strings.TrimSpace": pureStr("strings.TrimSpace"),
		"strings.Fields":    noNative,
		"strconv.FormatInt": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			if b := tm(a[1]); b.ival == nil || b.ival.Cmp(big.NewInt(10)) != 0 {
				return nil, false
			}
			return []Val{itoa(tm(a[0]))}, true
		},
		"strconv.Itoa": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			return []Val{itoa(tm(a[0]))}, true
		},
		"strconv.FormatBool": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			return []Val{Ite(tm(a[0]), StrLit("true"), StrLit("false"))}, true
		},
		"strconv.ParseInt":   parseNum("strconv.ParseInt"),
		"strconv.ParseFloat": parseNum("strconv.ParseFloat"),
		"strconv.Atoi":       parseNum("strconv.Atoi"),
		"strconv.ParseBool":  parseNum("strconv.ParseBool"),
		"math.IsNaN": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			return []Val{isNaN(tm(a[0]))}, true
		},
		"math.IsInf": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			f, s := tm(a[0]), tm(a[1])
			return []Val{Or(And(Ge(s, Int(0)), Eq(f, Inf())), And(Le(s, Int(0)), Eq(f, Neg(Inf()))))}, true
		},
		"math.Min": minmax(true), "math.Max": minmax(false),
		"math.Abs": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			f := tm(a[0])
			return []Val{Ite(Or(isNaN(f), Ge(f, RealRat(new(big.Rat)))), f, Neg(f))}, true
		},
		"math.NaN": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) { return []Val{NaN()}, true },
		"math.Inf": func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
			return []Val{Ite(Ge(tm(a[0]), Int(0)), Inf(), Neg(Inf()))}, true
		},
		"fmt.Sprintf":          sprintf,
		"fmt.Sprint":           sprint,
		"sync.Mutex.Lock":      noop,
		"sync.Mutex.Unlock":    noop,
		"sync.RWMutex.Lock":    noop,
		"sync.RWMutex.Unlock":  noop,
		"sync.RWMutex.RLock":   noop,
		"sync.RWMutex.RUnlock": noop,
		"sync.Once.Do":         nil,
		"context.Background":   nil,
		"sort.Slice":           sortSlice,
		"sort.SliceStable":     sortSlice,
		"sort.Strings":         sortStrings,
		"errors.Is":            pureStr("errors.Is"),
	}
	for k, v := range natives {
		if v == nil {
			delete(natives, k)
		}
	}
}

func noNative(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) { return nil, false }

// addDate: an unspecified function of its arguments, with bounds on the result
// when years, months and days are known and not negative.
func addDate(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
	x.trust("time.Time.AddDate: a function of its arguments; n years are n*365 days plus their leap days, give or take two days")
	f := Fn("n:time.Time.AddDate", SInt, tm(a[0]), tm(a[1]), tm(a[2]), tm(a[3]))
	y, m, d := tm(a[1]).ival, tm(a[2]).ival, tm(a[3]).ival
	if y != nil && m != nil && d != nil && y.Sign() >= 0 && m.Sign() >= 0 && d.Sign() >= 0 && y.Cmp(big.NewInt(100000)) < 0 {
		yy, mm, dd := y.Int64(), m.Int64(), d.Int64()
		day := big.NewInt(86400000000000)
		lo := yy*365 + yy/4 - yy/100 - 2 + mm*28 + dd
		hi := yy*365 + (yy+3)/4 + 2 + mm*31 + dd
		if lo < 0 {
			lo = 0
		}
		B.side[f.id] = []*Term{
			Ge(f, Add(tm(a[0]), BigInt(new(big.Int).Mul(day, big.NewInt(lo))))),
			Le(f, Add(tm(a[0]), BigInt(new(big.Int).Mul(day, big.NewInt(hi))))),
		}
	}
	return []Val{f}, true
}

func itoa(t *Term) *Term {
	if t.ival != nil {
		return StrLit(t.ival.String())
	}
	f := Fn("itoa", SStr, t)
	if _, ok := B.side[f.id]; !ok && !f.qd {
		B.side[f.id] = []*Term{Eq(Fn("atoi", SInt, f), t), Gt(strLen(f), Int(0))}
	}
	return f
}

// parseNum: value and error are functions of the arguments.
func parseNum(name string) native {
	return func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
		x.trust(name + ": result is a function of its arguments")
		var ts []*Term
		for _, v := range a {
			ts = append(ts, tm(v))
		}
		rt := sig.Results().At(0).Type()
		so, _ := scalarSort(rt)
		v := Fn("n:"+name, so, ts...)
		var fs []*Term
		if lo, hi, ok := intRange(rt); ok {
			fs = append(fs, And(Le(BigInt(lo), v), Le(v, BigInt(hi))))
		}
		if so == SReal {
			fs = append(fs, flWf(v))
		}
		if !v.qd {
			B.side[v.id] = fs
		}
		bad := Fn("n:"+name+".bad", SBool, ts...)
		e := Fn("n:"+name+".err", SInt, ts...)
		if !e.qd {
			B.side[e.id] = []*Term{Gt(e, Int(0)), Lt(payOf(e), alloc0()), Lt(Fn("eltArr", SInt, payOf(e)), alloc0())}
		}
		return []Val{v, Ite(bad, e, Int(0))}, true
	}
}

func minmax(min bool) native {
	return func(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
		p, q := tm(a[0]), tm(a[1])
		// infinities first, then NaN, as documented; signed zeros are one value
		c := Le(p, q)
		special := Neg(Inf())
		if !min {
			c = Ge(p, q)
			special = Inf()
		}
		return []Val{Ite(Or(Eq(p, special), Eq(q, special)), special, Ite(Or(isNaN(p), isNaN(q)), NaN(), Ite(c, p, q)))}, true
	}
}

func sprintf(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
	f := tm(a[0])
	s := a[1].(SliceV)
	x.trust("fmt.Sprintf: result is a function of its arguments")
	k := x.elemKeys(tAny)
	if len(k) != 1 {
		return nil, false
	}
	if s.ln.ival != nil && s.ln.ival.IsInt64() && s.ln.ival.Int64() < 8 {
		var ts []*Term
		ts = append(ts, f)
		for i := int64(0); i < s.ln.ival.Int64(); i++ {
			ts = append(ts, Select(Select(x.hget(st, k[0]), s.arr), Add(s.off, Int(i))))
		}
		return []Val{Fn("n:sprintf"+itoaS(len(ts)), SStr, ts...)}, true
	}
	return []Val{Fn("n:sprintf", SStr, f, Select(x.hget(st, k[0]), s.arr), s.off, s.ln)}, true
}

// sprint: of strings only, which are joined without separators
func sprint(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
	s := a[0].(SliceV)
	k := x.elemKeys(tAny)
	if len(k) != 1 || s.ln.ival == nil || !s.ln.ival.IsInt64() || s.ln.ival.Int64() > 16 {
		return nil, false
	}
	r := StrLit("")
	for i := int64(0); i < s.ln.ival.Int64(); i++ {
		iv := Select(Select(x.hget(st, k[0]), s.arr), Add(s.off, Int(i)))
		if iv.op != "app" || iv.name != "mkI" || iv.args[0] != x.typeTag(types.Typ[types.String]) {
			if s.ln.ival.Int64() == 1 {
				x.trust("fmt.Sprint of one value: a function of it")
				return []Val{Fn("p:sprintany", SStr, iv)}, true
			}
			return nil, false
		}
		v, ok := x.unboxVal(iv, types.Typ[types.String]).(*Term)
		if !ok {
			return nil, false
		}
		r = strCat(r, v)
	}
	x.trust("fmt.Sprint of strings: their concatenation")
	return []Val{r}, true
}

func itoaS(i int) string { return string(rune('0' + i)) }

// sortSlice: the slice becomes a permutation of itself in which no element
// orders before an earlier one.
func sortSlice(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
	iv := a[0].(*Term)
	if iv.op != "app" || iv.name != "mkI" {
		return nil, false
	}
	t, ok := x.tagTypes[iv.args[0]]
	if !ok {
		return nil, false
	}
	stp, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	s := x.unboxVal(iv, t).(SliceV)
	x.trust("sort.Slice: a permutation of the slice, ordered by the comparison (which must be a strict weak order)")
	old := st.clone()
	if fv, ok := a[1].(FuncV); ok && x.dry == 0 {
		// the comparison meets its obligations for every pair of elements
		pi, pj := Fresh("si", SInt), Fresh("sj", SInt)
		ps := st.clone()
		ps.assume(And(Ge(pi, Int(0)), Lt(pi, s.ln), Ge(pj, Int(0)), Lt(pj, s.ln)))
		x.execFn(fv.fn, []Val{pi, pj}, fv.bind, ps, false)
	}
	n := Fresh("perm", ArrSort(SInt, SInt))
	inv := Fresh("permInv", ArrSort(SInt, SInt))
	i := Var("i", SInt)
	in := func(v *Term) *Term { return And(Ge(v, Int(0)), Lt(v, s.ln)) }
	st.assume(Forall([]*Term{i}, [][]*Term{{Select(n, i)}}, Implies(in(i), And(in(Select(n, i)), Eq(Select(inv, Select(n, i)), i)))))
	st.assume(Forall([]*Term{i}, [][]*Term{{Select(inv, i)}}, Implies(in(i), And(in(Select(inv, i)), Eq(Select(n, Select(inv, i)), i)))))
	if isStruct(stp.Elem()) {
		for _, k := range x.leafKeys(structKey(stp.Elem()), stp.Elem()) {
			h := x.hget(old, k)
			hc := x.freshHeap(st, k)
			q := Var("r", SInt)
			sel := Select(hc, q)
			ei := Fn("eltIdx", SInt, q)
			j := Sub(ei, s.off)
			mine := And(Lt(q, Int(0)), Eq(Fn("eltArr", SInt, q), s.arr), Eq(q, Fn("elt", SInt, s.arr, ei)), in(j))
			st.assume(Forall([]*Term{q}, [][]*Term{{sel}}, Eq(sel, Ite(mine, Select(h, elt(s.arr, Add(s.off, Select(n, j)))), Select(h, q)))))
			// and where each old element went
			oi := Var("i", SInt)
			oe := Select(h, elt(s.arr, oi))
			oj := Sub(oi, s.off)
			st.assume(Forall([]*Term{oi}, [][]*Term{{oe}}, Implies(in(oj), And(in(Select(inv, oj)), Eq(Select(n, Select(inv, oj)), oj), Eq(Select(hc, elt(s.arr, Add(s.off, Select(inv, oj)))), oe)))))
			x.set(st, k, hc)
		}
	} else {
		for _, k := range x.elemKeys(stp.Elem()) {
			h := x.hget(old, k)
			_, as := x.keys[k].sort.arr()
			c := Fresh("sorted", as)
			q := Var("i", SInt)
			sel := Select(c, q)
			j := Sub(q, s.off)
			st.assume(Forall([]*Term{q}, [][]*Term{{sel}}, Eq(sel, Ite(in(j), Select(Select(h, s.arr), Add(s.off, Select(n, j))), Select(Select(h, s.arr), q)))))
			x.set(st, k, Store(h, s.arr, c))
		}
	}
	// ordering
	if fv, ok := a[1].(FuncV); ok {
		ci, cj := Fresh("si", SInt), Fresh("sj", SInt)
		s2 := st.clone()
		base := s2.pc
		s2.assume(And(in(ci), in(cj)))
		mark := s2.pc
		x.dry++
		outs := x.execFn(fv.fn, []Val{ci, cj}, fv.bind, s2, false)
		x.dry--
		_ = base
		var ds []*Term
		for _, o := range outs {
			var cs []*Term
			for q := o.st.pc; q != nil && q != mark; q = q.up {
				cs = append(cs, q.t)
			}
			ds = append(ds, And(append(cs, o.res[0].(*Term))...))
		}
		less := Or(ds...)
		if len(outs) == 1 {
			less = outs[0].res[0].(*Term) // no branches: what was assumed on the way are facts
		}
		vi, vj := Var("i", SInt), Var("j", SInt)
		body := Subst(less, map[*Term]*Term{ci: vj, cj: vi}) // less(j, i) with i < j must be false
		g := Implies(And(Ge(vi, Int(0)), Lt(vi, vj), Lt(vj, s.ln)), Not(body))
		var trigs [][]*Term
		if ti, tj := readAt(body, vi), readAt(body, vj); ti != nil && tj != nil {
			trigs = [][]*Term{{ti, tj}}
		}
		st.assume(Forall([]*Term{vi, vj}, trigs, g))
	}
	return nil, true
}

// readAt: the place of t where an array is read at an index that mentions v
func readAt(t, v *Term) *Term {
	if !t.qd || len(t.args) == 0 {
		return nil
	}
	for _, a := range t.args {
		if r := readAt(a, v); r != nil {
			return r
		}
	}
	if t.op == "app" && (t.name == "select" || t.name == "elt") && !t.args[0].qd && hasTerm(t.args[1], v, map[*Term]bool{}) {
		return t
	}
	return nil
}

func sortStrings(x *Exec, st *State, a []Val, sig *types.Signature) ([]Val, bool) {
	s := a[0].(SliceV)
	k := x.elemKeys(types.Typ[types.String])[0]
	h := x.hget(st, k)
	c := Fresh("sorted", ArrSort(SInt, SStr))
	x.set(st, k, Store(h, s.arr, c))
	x.assumption("sort.Strings: only ordering of the elements is not modelled")
	return nil, true
}
