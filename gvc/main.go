package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type OblJSON struct {
	Function string `json:"function"`
	Kind     string `json:"kind"`
	Name     string `json:"name"`
	Text     string `json:"text"`
	Status   string `json:"status"`
	Solver   string `json:"solver"`
	Second   string `json:"second,omitempty"`
	Ms       int64  `json:"ms"`
	Model    string `json:"model,omitempty"`
}

type Result struct {
	Property   string         `json:"property"`
	OK         bool           `json:"ok"`
	Functions  []FuncJSON     `json:"functions"`
	Failed     []OblJSON      `json:"failed"`
	Errors     []string       `json:"errors"`
	Total      int            `json:"obligations"`
	Discharged int            `json:"discharged"`
	ByBackend  map[string]int `json:"by_backend"`
	Confirmed  int            `json:"confirmed_by_second_solver"`
	SolverMs   int64          `json:"solver_ms"`
	WallMs     int64          `json:"wall_ms"`
	Assumed    []string       `json:"assumptions"`
	Trusted    []string       `json:"trusted_contracts"`
	Inlined    []string       `json:"inlined"`
	Bounded    map[string]int `json:"bounded"`
	Lemmas     []string       `json:"lemmas"`
	Kinds      map[string]int `json:"kinds"`
	Proved     []OblJSON      `json:"proved,omitempty"`
}

type FuncJSON struct {
	Name        string `json:"name"`
	File        string `json:"file"`
	Obligations int    `json:"obligations"`
	Paths       int    `json:"paths"`
	Vacuity     string `json:"vacuity"`
	Error       string `json:"error,omitempty"`
}

func main() {
	repo := flag.String("repo", "/repo", "")
	modfile := flag.String("modfile", "", "")
	specs := flag.String("specs", "", "")
	prop := flag.String("prop", "", "")
	only := flag.String("func", "", "")
	out := flag.String("out", "", "")
	dump := flag.String("dump", "", "directory for failing SMT scripts")
	fast := flag.Int("fast", 2500, "")
	slow := flag.Int("slow", 20000, "")
	second := flag.Bool("second", false, "")
	maxFail := flag.Int("maxfail", 3, "")
	budget := flag.Int("budget", 500, "seconds")
	verbose := flag.Bool("v", false, "")
	ssaDump := flag.String("ssa", "", "print a function")
	list := flag.String("list", "", "list functions with a prefix")
	pkgs := flag.String("pkgs", "./internal/...", "")
	flag.Parse()
	t0 := time.Now()
	p, err := Load(*repo, *modfile, strings.Fields(*pkgs))
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	if *list != "" {
		for _, n := range p.sortedFuncs(*list) {
			fmt.Println(n, len(p.funcs[n].Blocks))
		}
		return
	}
	if *ssaDump != "" {
		p.funcs[*ssaDump].WriteTo(os.Stdout)
		return
	}
	sp, err := LoadSpecs(*specs)
	if err != nil {
		fmt.Fprintln(os.Stderr, "specs:", err)
		os.Exit(3)
	}
	if *prop == "" {
		fmt.Fprintln(os.Stderr, "-prop needed")
		os.Exit(3)
	}
	sp.ForProp(*prop)
	reps, lem := VerifyProp(p, sp, *prop, *only)
	extra := extraObligations(p, sp, *prop)
	tGen := time.Since(t0)
	var all []*Obl
	for _, r := range reps {
		all = append(all, r.Obls...)
	}
	all = append(all, lem...)
	for _, r := range extra {
		all = append(all, r.Obls...)
	}
	reps = append(reps, extra...)
	cfg := SolveCfg{fast: *fast, slow: *slow, workers: 5, maxFail: *maxFail, second: *second, deadline: t0.Add(time.Duration(*budget) * time.Second)}
	st := Discharge(all, cfg)
	res := Result{Property: *prop, OK: true, ByBackend: st.byBackend, SolverMs: st.solverMs, Confirmed: st.confirmed, Bounded: map[string]int{}, Kinds: map[string]int{}}
	as, tr, in := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, r := range reps {
		fj := FuncJSON{Name: r.Name, File: r.File, Obligations: len(r.Obls), Paths: r.Outcomes, Vacuity: r.Vacuity, Error: r.Err}
		res.Functions = append(res.Functions, fj)
		if r.Err != "" {
			res.OK = false
			res.Errors = append(res.Errors, r.Name+": "+r.Err)
		}
		for _, a := range r.Assumed {
			as[a] = true
		}
		for _, a := range r.Inlined {
			in[a] = true
		}
		for k, v := range r.Bounded {
			res.Bounded[k] = v
		}
		for _, c := range r.Contracts {
			if f := sp.funcs[c]; f != nil && f.kind != "func" {
				tr[f.kind+" "+c] = true
			}
		}
	}
	if len(all) == 0 && len(res.Errors) == 0 {
		res.OK = false
		res.Errors = append(res.Errors, "no obligations for "+*prop)
	}
	for _, l := range lem {
		res.Lemmas = append(res.Lemmas, l.Name)
	}
	for i, o := range all {
		res.Total++
		res.Kinds[o.Kind]++
		oj := OblJSON{o.Fn, o.Kind, o.Name, o.Text, o.status, o.solver, o.second, o.ms, ""}
		if o.status == "proved" {
			res.Discharged++
			if *verbose {
				res.Proved = append(res.Proved, oj)
			}
			continue
		}
		res.OK = false
		oj.Model = trimModel(o.model)
		res.Failed = append(res.Failed, oj)
		if *dump != "" && o.script != "" {
			os.MkdirAll(*dump, 0o755)
			os.WriteFile(filepath.Join(*dump, fmt.Sprintf("o%d.smt2", i)), []byte(o.script+"(check-sat)\n(get-model)\n"), 0o644)
			if o.scriptStr != "" {
				os.WriteFile(filepath.Join(*dump, fmt.Sprintf("o%d.str.smt2", i)), []byte(o.scriptStr+"(check-sat)\n"), 0o644)
			}
		}
	}
	res.Assumed, res.Trusted, res.Inlined = sortedKeys(as), sortedKeys(tr), sortedKeys(in)
	res.WallMs = time.Since(t0).Milliseconds()
	if *out != "" {
		b, _ := json.MarshalIndent(res, "", " ")
		os.WriteFile(*out, b, 0o644)
	}
	fmt.Printf("%s: %d functions, %d obligations, %d discharged, gen %.1fs, wall %.1fs\n", *prop, len(reps), res.Total, res.Discharged, tGen.Seconds(), time.Since(t0).Seconds())
	for _, e := range res.Errors {
		fmt.Println("  error:", e)
	}
	sort.SliceStable(res.Failed, func(i, j int) bool {
		return res.Failed[i].Status != "not attempted" && res.Failed[j].Status == "not attempted"
	})
	for i, f := range res.Failed {
		if i > 12 {
			fmt.Println("  ...")
			break
		}
		fmt.Printf("  FAILED [%s] %s %s: %s -- %s\n", f.Status, f.Function, f.Kind, f.Name, cut(f.Text, 200))
	}
	if *verbose {
		for _, f := range res.Functions {
			fmt.Printf("  %s: %d obligations, %d paths, %s\n", f.Name, f.Obligations, f.Paths, f.Vacuity)
		}
		for _, a := range res.Assumed {
			fmt.Println("  assume:", a)
		}
		for _, a := range res.Trusted {
			fmt.Println("  trusted:", a)
		}
		fmt.Println("  inlined:", res.Inlined, "backends:", res.ByBackend)
	}
	if !res.OK {
		os.Exit(1)
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func trimModel(s string) string { return cut(s, 6000) }

func extraObligations(p *Program, sp *Specs, prop string) []*FuncReport { return nil }
