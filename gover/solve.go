package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

type solverCfg struct {
	name   string
	cmd    []string
	header string
}

var (
	z3fast = solverCfg{"z3-5.3.2(ematch)", []string{"z3-new", "-in", "-T:%d"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.random_seed 0)\n"}
	z3def  = solverCfg{"z3-5.3.2", []string{"z3-new", "-in", "-T:%d"}, ""}
	z3old  = solverCfg{"z3-4.8.12", []string{"z3", "-in", "-T:%d"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"}
	cvc5c  = solverCfg{"cvc5-1.1.2", []string{"cvc5", "--lang=smt2", "--tlimit=%d000", "-"}, "(set-logic ALL)\n"}
)

type solveRes struct {
	res    string // unsat sat unknown
	solver string
	dur    float64
	model  string
}

var (
	solveMu    sync.Mutex
	solveCache = map[[32]byte]solveRes{}
	solverSecs = map[string]float64{}
	solverRuns = map[string]int{}
	sem        = make(chan struct{}, 8)
	dumpDir    = os.Getenv("GOVER_DUMP")
)

func runSolver(cfg solverCfg, script string, timeout int) solveRes {
	key := sha256.Sum256([]byte(fmt.Sprintf("%s|%d|%s", cfg.name, timeout, script)))
	solveMu.Lock()
	if r, ok := solveCache[key]; ok {
		solveMu.Unlock()
		return r
	}
	solveMu.Unlock()
	sem <- struct{}{}
	defer func() { <-sem }()
	args := make([]string, len(cfg.cmd))
	for i, a := range cfg.cmd {
		if strings.Contains(a, "%d") {
			a = fmt.Sprintf(a, timeout)
		}
		args[i] = a
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(timeout+5)*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, args[0], args[1:]...)
	c.Stdin = strings.NewReader(cfg.header + script)
	var out bytes.Buffer
	c.Stdout = &out
	c.Stderr = &out
	t0 := time.Now()
	_ = c.Run()
	d := time.Since(t0).Seconds()
	s := strings.TrimSpace(out.String())
	for strings.HasPrefix(s, "WARNING") {
		if i := strings.Index(s, "\n"); i >= 0 {
			s = s[i+1:]
		} else {
			s = ""
		}
	}
	first := s
	if i := strings.Index(s, "\n"); i >= 0 {
		first = s[:i]
	}
	r := solveRes{res: "unknown", solver: cfg.name, dur: d}
	switch first {
	case "unsat", "sat":
		r.res = first
	case "unknown", "timeout":
	default:
		if strings.Contains(first, "error") {
			r.res = "error: " + first
			if dumpDir != "" {
				os.WriteFile(dumpDir+"/error.smt2", []byte(cfg.header+script), 0o644)
			}
		}
	}
	if i := strings.Index(s, "\n"); i >= 0 {
		r.model = s[i+1:]
	}
	solveMu.Lock()
	solveCache[key] = r
	solverSecs[cfg.name] += d
	solverRuns[cfg.name]++
	solveMu.Unlock()
	return r
}

// script of "facts and guard and not cond".
func (ex *Exec) script(o *Obligation, vals []*Term) string {
	var as []*Term
	var rest, about []*Term
	aboutMu.Lock()
	for _, f := range ex.facts[:o.nfacts] {
		if aboutConst[f.id] != nil && os.Getenv("NOABOUT") == "" {
			about = append(about, f)
		} else {
			rest = append(rest, f)
		}
	}
	aboutMu.Unlock()
	rest = append(rest, o.guard, mkNot(o.cond))
	// axioms about constants that do not occur in the facts or the goal are left out
	used := map[int]bool{}
	seen := map[int]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == "const" {
			used[t.id] = true
		}
		for _, a := range t.args {
			mark(a)
		}
	}
	for _, t := range rest {
		mark(t)
	}
	// facts about a constant are left out where that constant does not occur
	for again := true; again; {
		again = false
		var left []*Term
		for _, f := range about {
			if used[aboutConst[f.id].id] {
				rest = append(rest, f)
				mark(f)
				again = true
			} else {
				left = append(left, f)
			}
		}
		about = left
	}
	memo := map[int]bool{}
	var within func(t *Term) bool
	within = func(t *Term) bool {
		if t.op == "const" {
			return used[t.id] || t.name == "null" || strings.HasPrefix(t.name, "p!") || strings.HasPrefix(t.name, "H0:")
		}
		if v, ok := memo[t.id]; ok {
			return v
		}
		r := true
		for _, a := range t.args {
			if !within(a) {
				r = false
				break
			}
		}
		memo[t.id] = r
		return r
	}
	for _, a := range ex.axioms {
		if a.leaf == 0 || within(a) {
			as = append(as, a)
		}
	}
	as = append(as, rest...)
	as = append(containsAxioms(as), as...)
	as = append(offAxioms(as), as...)
	as = append(boundAxioms(as), as...)
	return emitScript(as, vals, "")
}

// offAxioms: slices of the initial state start at offset 0 of their array (slOff simplifies them so);
// the terms whose offset is not simplified need it said of the constants below them.
func offAxioms(ts []*Term) []*Term {
	seen := map[int]bool{}
	offs := false
	var cs []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == "sloff" {
			offs = true
		}
		if t.op == "const" && t.sort == SSlice {
			if o := slOff(t); o.op != "sloff" {
				cs = append(cs, mk("=", "", SBool, mk("sloff", "", SInt, t), o))
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	if !offs {
		return nil
	}
	return cs
}

// boundAxioms: facts about interior references and the initial heap, quantified for the terms that occur
// under a quantifier (ground terms get them when they are created).
func boundAxioms(ts []*Term) []*Term {
	seen := map[int]bool{}
	subs := map[string]bool{}
	heaps := map[string]*Term{}
	elt, itoa := false, false
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.bound {
			if t.op == "uf" && strings.HasPrefix(t.name, "sub$") {
				subs[t.name] = true
			}
			if t.op == "uf" && t.name == "elt" {
				elt = true
			}
			if t.op == "uf" && t.name == "itoa" {
				itoa = true
			}
			if t.op == "select" && (t.sort == SRef || t.sort == SSlice) {
				b := t.args[0]
				for b.op == "select" {
					b = b.args[0]
				}
				if b.op == "const" && strings.HasPrefix(b.name, "H0:") && !strings.HasPrefix(b.name, "H0:G:") {
					heaps[b.name] = b
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	var out []*Term
	for _, n := range sortedKeys(subs) {
		x := mkVar("bx", SRef)
		s := mkUF(n, SRef, x)
		inv := mkUF("inv$"+n, SRef, s)
		out = append(out, mkQuant("forall", x, mkAnd(mk("=", "", SBool, inv, x), mkNot(mk("=", "", SBool, mkNull(), s)), mk("=", "", SBool, birth(s), birth(x))), []*Term{s}))
	}
	if itoa {
		x := mkVar("bx", SInt)
		r := mkUF("itoa", SStr, x)
		out = append(out, mkQuant("forall", x, mkAnd(mk("=", "", SBool, mkUF("atoi", SInt, r), x), mkUF("isnum", SBool, r)), []*Term{r}))
	}
	if elt {
		x, i := mkVar("bx", SRef), mkVar("bi", SInt)
		e := mkUF("elt", SRef, x, i)
		body := mkAnd(mk("=", "", SBool, mkUF("eltarr", SRef, e), x), mk("=", "", SBool, mkUF("eltidx", SInt, e), i), mkNot(mk("=", "", SBool, mkNull(), e)), mk("=", "", SBool, birth(e), birth(x)))
		out = append(out, mkQuant2("forall", []*Term{x, i}, body, []*Term{e}))
	}
	for _, n := range sortedKeys(heaps) {
		h := heaps[n]
		x := mkVar("bx", SRef)
		ks, vs := arraySorts(h.sort)
		if ks != SRef {
			continue
		}
		v := mk("select", "", vs, h, x)
		vars := []*Term{x}
		if strings.HasPrefix(vs, "(Array ") {
			k2, v2 := arraySorts(vs)
			i := mkVar("bi", k2)
			v = mk("select", "", v2, v, i)
			vars = append(vars, i)
		}
		if v.sort == SSlice {
			v = slArr(v)
		}
		if v.sort != SRef {
			continue
		}
		out = append(out, mkQuant2("forall", vars, mkOr(mkLe(birth(v), mkInt(0)), mkLe(birth(v), birth(x))), []*Term{birth(v)}))
	}
	return out
}

// candidates and first attempts are limited by solver work, not by time, so that the outcome does not
// depend on the speed of the machine
const (
	candWork = "(set-option :rlimit 30000000)\n"
	altWork  = "(set-option :rlimit 10000000)\n"
	fullWork = "(set-option :rlimit 60000000)\n"
)

func proveQuick(script string) (bool, solveRes) {
	r := runSolver(z3fast, candWork+script, 8)
	if r.res == "unsat" {
		return true, r
	}
	if r2 := runSolver(z3old, altWork+script, 8); r2.res == "unsat" {
		return true, r2
	}
	return false, r
}

func proveCand(script string) (bool, float64) {
	ok, r := proveQuick(script)
	return ok, r.dur
}

// proveFull runs the portfolio.
func proveFull(script string, tmo int) solveRes {
	r := runSolver(z3fast, fullWork+script, 15)
	if r.res == "unsat" {
		return r
	}
	type out struct{ r solveRes }
	ch := make(chan solveRes, 3)
	cfgs := []solverCfg{z3def, cvc5c, z3old}
	for _, c := range cfgs {
		go func() { ch <- runSolver(c, script, tmo) }()
	}
	best := r
	for range cfgs {
		x := <-ch
		if x.res == "unsat" {
			return x
		}
		if x.res == "sat" && best.res != "sat" {
			best = x
		}
	}
	return best
}
