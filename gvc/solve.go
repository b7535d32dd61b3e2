package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type solverRes struct {
	res  string // unsat, sat, unknown, error
	out  string
	ms   int64
	name string
}

var quickLimit = func() string {
	if s := os.Getenv("GVC_QUICK"); s != "" {
		return s
	}
	return "500000"
}()

func runSolver(name, script string, ms int, model bool) solverRes {
	return runSolverCtx(context.Background(), name, script, ms, model)
}

func runSolverCtx(ctx context.Context, name, script string, ms int, model bool) solverRes {
	var args []string
	bin := name
	switch name {
	case "z3-new", "z3":
		args = []string{"-in", fmt.Sprintf("-t:%d", ms), "-memory:3000"}
	case "z3-new-quick": // a bound that does not depend on the load of the machine
		bin = "z3-new"
		args = []string{"-in", fmt.Sprintf("-t:%d", ms), "-memory:3000", "rlimit=" + quickLimit}
	case "z3-new-nombqi":
		bin = "z3-new"
		args = []string{"-in", fmt.Sprintf("-t:%d", ms), "-memory:3000", "smt.mbqi=false", "smt.auto_config=false"}
	case "z3-nombqi":
		bin = "z3"
		args = []string{"-in", fmt.Sprintf("-t:%d", ms), "-memory:3000", "smt.mbqi=false", "smt.auto_config=false"}
	case "cvc5":
		args = []string{"--lang", "smt2", fmt.Sprintf("--tlimit=%d", ms), "-"}
		if strings.Contains(script, "str.") && !strings.Contains(script, "ustr.") {
			args = append([]string{"--strings-exp"}, args...)
		}
	}
	t := time.Now()
	c, cancel := context.WithTimeout(ctx, time.Duration(ms+3000)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(c, bin, args...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	if model && !strings.Contains(script, "produce-models") {
		script = "(set-option :produce-models true)\n" + script
	}
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	err := cmd.Run()
	r := solverRes{out: out.String(), ms: time.Since(t).Milliseconds(), name: name}
	first := strings.TrimSpace(strings.SplitN(r.out, "\n", 2)[0])
	switch {
	case first == "unsat" || first == "sat" || first == "unknown":
		r.res = first
	case first == "timeout" || c.Err() != nil || strings.Contains(r.out, "timeout") || strings.Contains(r.out, "interrupted"):
		r.res = "unknown"
	default:
		r.res = "error"
		_ = err
	}
	return r
}

type SolveCfg struct {
	fast, slow int // milliseconds
	workers    int
	maxFail    int
	second     bool // confirm with a second solver family
	deadline   time.Time
}

type SolveStats struct {
	solverMs  int64
	byBackend map[string]int
	confirmed int
	mu        sync.Mutex
}

func hasNativeStr(script string) bool { return strings.Contains(script, "ustr.") }

// Discharge decides every open obligation.
func Discharge(obls []*Obl, cfg SolveCfg) *SolveStats {
	st := &SolveStats{byBackend: map[string]int{}}
	var fails int64
	var wg sync.WaitGroup
	ch := make(chan *Obl)
	for w := 0; w < cfg.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for o := range ch {
				if atomic.LoadInt64(&fails) >= int64(cfg.maxFail) || time.Now().After(cfg.deadline) {
					o.status = "not attempted"
					continue
				}
				solveOne(o, cfg, st)
				if o.status != "proved" {
					atomic.AddInt64(&fails, 1)
				}
			}
		}()
	}
	for _, o := range obls {
		if o.status == "proved" {
			st.mu.Lock()
			st.byBackend[o.solver]++
			st.mu.Unlock()
			continue
		}
		ch <- o
	}
	close(ch)
	wg.Wait()
	return st
}

func solveOne(o *Obl, cfg SolveCfg, st *SolveStats) {
	abs, nat := o.script, o.scriptStr
	done := func(r solverRes, status string) {
		o.status, o.solver, o.ms = status, r.name, o.ms+r.ms
		st.mu.Lock()
		st.solverMs += r.ms
		if status == "proved" {
			st.byBackend[r.name]++
		}
		st.mu.Unlock()
	}
	r := runSolver("z3-new", abs+"(check-sat)\n", cfg.fast, false)
	if r.res == "unsat" {
		done(r, "proved")
		confirm(o, r.name, cfg, st)
		return
	}
	if r.res == "error" {
		o.model = r.out
	}
	// an outright counterexample: no quantifiers, no abstraction
	if r.res == "sat" && !strings.Contains(abs, "(forall") && !hasNativeStr(abs) {
		m := runSolver("z3-new", abs+"(check-sat)\n(get-model)\n", cfg.fast*2, true)
		o.model = m.out
		done(r, "refuted")
		return
	}
	st.mu.Lock()
	st.solverMs += r.ms
	st.mu.Unlock()
	type job struct{ name, script string }
	jobs := []job{{"z3-new", abs}, {"z3-nombqi", abs}, {"cvc5", abs}, {"z3-new-nombqi", abs}}
	if nat != "" {
		jobs = append(jobs, job{"cvc5", nat}, job{"z3-new", nat})
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	res := make(chan solverRes, len(jobs))
	for _, j := range jobs {
		j := j
		go func() {
			q := runSolverCtx(ctx, j.name, j.script+"(check-sat)\n", cfg.slow, false)
			if j.script == nat && nat != "" {
				q.name += "+strings"
			}
			res <- q
		}()
	}
	var last solverRes
	var sat *solverRes
	for range jobs {
		q := <-res
		if q.res == "unsat" {
			done(q, "proved")
			cancel()
			return
		}
		if q.res == "sat" {
			qq := q
			sat = &qq
			full := nat == "" && !hasNativeStr(abs) || strings.HasSuffix(q.name, "+strings")
			if full {
				break
			}
		}
		if q.res == "error" {
			o.model += q.name + ": " + firstLines(q.out, 3) + "\n"
		}
		last = q
	}
	cancel()
	if sat != nil {
		done(*sat, "refuted")
		m := runSolver("z3-new", abs+"(check-sat)\n(get-model)\n", cfg.fast*2, true)
		o.model = m.out
		return
	}
	done(last, "unknown")
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// confirm repeats a proof with another solver family (thorough runs).
func confirm(o *Obl, by string, cfg SolveCfg, st *SolveStats) {
	if !cfg.second {
		return
	}
	other := "cvc5"
	if by == "cvc5" {
		other = "z3-new"
	}
	r := runSolver(other, o.script+"(check-sat)\n", cfg.slow, false)
	st.mu.Lock()
	defer st.mu.Unlock()
	st.solverMs += r.ms
	if r.res == "unsat" {
		st.confirmed++
		o.second = other
	}
	if r.res == "sat" && !hasNativeStr(o.script) {
		o.status = "solvers disagree"
		o.model = other + " says sat\n" + firstLines(r.out, 20)
	}
}
