package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	debug_ "runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

type Result struct {
	Property   string             `json:"property"`
	OK         bool               `json:"ok"`
	LoadError  string             `json:"load_error,omitempty"`
	Functions  []*FuncResult      `json:"functions"`
	Total      int                `json:"obligations"`
	Proved     int                `json:"proved"`
	Failed     []OblResult        `json:"failed"`
	SolverSecs map[string]float64 `json:"solver_secs"`
	SolverRuns map[string]int     `json:"solver_runs"`
	Wall       float64            `json:"wall_s"`
	Axioms     []string           `json:"axioms"`
	Aside      []string           `json:"helper_contracts_set_aside,omitempty"`
}

func dump(f, s string) { _ = os.WriteFile(f, []byte(s), 0o644) }

func inWork(w []string, n string) bool {
	for _, x := range w {
		if x == n {
			return true
		}
	}
	return false
}

func (r *Result) drop(i int) {
	n := r.Functions[i].Function
	r.Functions = append(r.Functions[:i], r.Functions[i+1:]...)
	var f []OblResult
	for _, o := range r.Failed {
		if o.Function != n {
			f = append(f, o)
		}
	}
	r.Failed = f
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	dir := flag.String("contracts", "/verif/contracts", "contract directory")
	prop := flag.String("prop", "", "property id")
	only := flag.String("fn", "", "verify only functions whose name contains this")
	out := flag.String("out", "", "result file")
	debug := flag.Bool("debug", false, "debug")
	verbose := flag.Bool("v", false, "verbose")
	covers := flag.Bool("covers", false, "also check that no applied contract is contradictory")
	tmo := flag.Int("t", 10, "solver timeout")
	prof := flag.String("cpuprofile", "", "write a CPU profile")
	flag.Parse()
	debug_.SetGCPercent(800)
	debug_.SetMemoryLimit(6 << 30)
	if *prof != "" {
		f, _ := os.Create(*prof)
		_ = pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	res := &Result{Property: *prop}
	finish := func() {
		res.Wall = time.Since(t0).Seconds()
		res.SolverSecs, res.SolverRuns = solverSecs, solverRuns
		if *out != "" {
			b, _ := json.MarshalIndent(res, "", " ")
			_ = os.WriteFile(*out, b, 0o644)
		}
		if !res.OK {
			os.Exit(1)
		}
	}
	prog, err := loadProgram(*repo, "")
	if err != nil {
		res.LoadError = err.Error()
		fmt.Println("load:", err)
		finish()
		os.Exit(1)
	}
	resetTerms()
	spec, err := loadSpecs(*dir, prog, *prop)
	if err != nil {
		fmt.Println("spec:", err)
		os.Exit(2)
	}
	if *verbose {
		fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	}
	for _, a := range spec.Axioms {
		res.Axioms = append(res.Axioms, a.Name+": "+a.Src)
	}
	v := &Verifier{prog: prog, spec: spec, debug: *debug, tmo: *tmo, covers: *covers, callee: map[string]bool{}, log: func(f string, a ...any) { fmt.Printf(f+"\n", a...) }}
	var work []string
	seen := map[string]bool{}
	for _, n := range spec.Order {
		fc := spec.Funcs[n]
		if fc.Extern || fc.Inline {
			continue
		}
		if *only != "" && !strings.Contains(n, *only) {
			continue
		}
		if *prop != "" && !fc.Props[*prop] {
			continue
		}
		work = append(work, n)
		seen[n] = true
	}
	if len(work) == 0 {
		fmt.Println("no functions for property", *prop)
		os.Exit(2)
	}
	// helper contracts first, callees before callers: one that is missing or fails is set aside and the
	// function is executed in place where it is called
	var roots []string
	for _, n := range work {
		if fc := spec.Funcs[n]; fc.Helper {
			v.callee[n] = true
		} else {
			roots = append(roots, n)
		}
	}
	done := map[string]*FuncResult{}
	var firm []*FuncResult
	aside := func(n, why string) {
		spec.Funcs[n].Dropped = true
		for p := range spec.Funcs[n].Reveal {
			if !strings.HasPrefix(p, "-") {
				spec.Preds[p].Opaque = false
			}
		}
		res.Aside = append(res.Aside, n+": "+why)
		if *verbose {
			fmt.Printf("helper contract set aside: %s: %s\n", n, why)
		}
	}
	for _, n := range work {
		fc := spec.Funcs[n]
		if !fc.Helper {
			continue
		}
		if fn := prog.lookup(n); fn == nil || len(fn.Params) != len(fc.Params) {
			aside(n, "no such function in the current tree")
			continue
		}
		fr := v.verify(fc, *prop)
		why := fr.Error
		for _, o := range fr.Obls {
			if o.Status != "proved" {
				why = o.Name
			}
		}
		if why != "" {
			if *verbose {
				for _, o := range fr.Obls {
					if o.Status != "proved" {
						fmt.Printf("   FAIL %s [%s] %s %s (%s %.1fs)\n        %s\n", o.Name, o.Kind, o.Pos, o.Detail, o.Solver, o.Secs, o.Clause)
					}
				}
			}
			aside(n, why)
			if fc.Firm {
				// executed in place by its callers, and its own postconditions are reported
				keep := fr.Obls[:0:0]
				for _, o := range fr.Obls {
					if o.Status != "proved" && o.Kind != "ensures" {
						continue
					}
					if o.Status != "proved" {
						res.Failed = append(res.Failed, o)
					}
					keep = append(keep, o)
				}
				fr.Obls = keep
				if fr.Error != "" {
					res.Failed = append(res.Failed, OblResult{Function: n, Name: "verification-condition generation", Kind: "error", Status: "error", Detail: fr.Error})
				}
				firm = append(firm, fr)
			}
			continue
		}
		done[n] = fr
	}
	if *only == "" {
		work = roots
	} else {
		work = nil
		for _, n := range roots {
			work = append(work, n)
		}
		for n, fr := range done {
			fmt.Println("helper proved", n, len(fr.Obls), fr.Secs)
		}
	}
	res.Functions = append(res.Functions, firm...)
	for _, n := range sortedKeys(done) {
		res.Functions = append(res.Functions, done[n])
		seen[n] = true
	}
	for len(work) > 0 {
		n := work[0]
		work = work[1:]
		fr := v.verify(spec.Funcs[n], *prop)
		res.Functions = append(res.Functions, fr)
		if fr.Error != "" {
			res.Failed = append(res.Failed, OblResult{Function: n, Name: "verification-condition generation", Kind: "error", Status: "error", Detail: fr.Error})
		}
		for _, o := range fr.Obls {
			if o.Status != "proved" {
				res.Failed = append(res.Failed, o)
			}
		}
		if *verbose {
			p := 0
			for _, o := range fr.Obls {
				if o.Status == "proved" {
					p++
				}
			}
			fmt.Printf("%s: %d/%d proved, %d rounds, %.1fs %s\n", n, p, len(fr.Obls), fr.Rounds, fr.Secs, fr.Error)
			for _, o := range fr.Obls {
				if o.Status != "proved" {
					fmt.Printf("   FAIL %s [%s] %s %s (%s %.1fs)\n        %s\n", o.Name, o.Kind, o.Pos, o.Detail, o.Solver, o.Secs, o.Clause)
				}
			}
			for _, w := range fr.Warn {
				fmt.Println("   warn:", w)
			}
			if *debug {
				fmt.Println("   invariants:")
				for _, i := range fr.Invs {
					fmt.Println("     ", i)
				}
				fmt.Println("   opaque:", fr.Opaque, "externs:", fr.Externs, "used:", fr.Used)
				fmt.Println("   inlined:", fr.Inlined)
			}
		}
		if *only == "" {
			var us []string
			for u := range fr.Used {
				us = append(us, u)
			}
			sort.Strings(us)
			for _, u := range us {
				if !v.callee[u] {
					// used at a call site: its frame has to be proved as well
					v.callee[u] = true
					if seen[u] && !inWork(work, u) {
						for i, f := range res.Functions {
							if f.Function == u {
								res.drop(i)
								break
							}
						}
					}
					if !inWork(work, u) {
						seen[u] = true
						work = append(work, u)
					}
				}
			}
		}
	}
	for _, fr := range res.Functions {
		if fr.Error != "" {
			res.Total++
		}
		for _, o := range fr.Obls {
			res.Total++
			if o.Status == "proved" {
				res.Proved++
			}
		}
	}
	res.OK = len(res.Failed) == 0
	if !*verbose {
		for _, o := range res.Failed {
			fmt.Printf("FAILED %s: %s [%s] %s %s\n", o.Function, o.Name, o.Kind, o.Pos, o.Detail)
		}
	}
	finish()
}
