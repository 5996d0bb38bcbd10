package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type OblResult struct {
	Function string  `json:"function"`
	Name     string  `json:"name"`
	Kind     string  `json:"kind"`
	Pos      string  `json:"pos"`
	Clause   string  `json:"clause,omitempty"`
	Status   string  `json:"status"` // proved, failed, error
	Solver   string  `json:"solver"`
	Secs     float64 `json:"secs"`
	Detail   string  `json:"detail,omitempty"`
	Model    string  `json:"model,omitempty"`
}

type FuncResult struct {
	Function string         `json:"function"`
	Where    string         `json:"where"`
	Contract string         `json:"contract"`
	Obls     []OblResult    `json:"obligations"`
	Error    string         `json:"error,omitempty"`
	Opaque   map[string]int `json:"opaque"`
	Externs  map[string]int `json:"externs"`
	Used     map[string]int `json:"used"`
	Inlined  map[string]int `json:"inlined"`
	PureUF   map[string]int `json:"pure"`
	Rounds   int            `json:"houdini_rounds"`
	Invs     []string       `json:"invariants"`
	Secs     float64        `json:"secs"`
	Warn     []string       `json:"warn,omitempty"`
}

func (v *Verifier) newRun(fn *ssa.Function, fc *FuncContract, prop string, dead map[string]bool) (ex *Exec, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				err = e
			case specErr:
				err = fmt.Errorf("contract: %s", string(e))
			default:
				if v.debug {
					panic(r)
				}
				err = fmt.Errorf("internal: %v", r)
			}
		}
	}()
	resetTerms()
	ex = newExec(v.prog, v.spec)
	ex.seqs = map[int]seqV{}
	ex.dead = dead
	ex.root = fn
	ex.rootC = fc
	ex.curProp = prop
	ex.safety = fc.Safety
	ex.covers = v.covers
	st := &State{guard: mkTrue(), heap: map[string]*Term{}, now: mkInt(0)}
	ex.entry = st.clone()
	ex.entryEnv = map[string]Val{}
	ex.entryTy = map[string]types.Type{}
	var args []Val
	for i, p := range fn.Params {
		n := p.Name()
		if i < len(fc.Params) && fc.Params[i] != "_" {
			n = fc.Params[i]
		}
		var a Val
		if isStructT(p.Type()) {
			r := mkConst("p!"+n, SRef)
			ex.axiom(mkNot(mk("=", "", SBool, mkNull(), r)))
			ex.axiom(mkLe(birth(r), mkInt(0)))
			a = ex.lazyStruct(p.Type(), r, st.heap)
		} else {
			c := mkConst("p!"+n, sortOf(p.Type()))
			ex.typeFacts(c, p.Type())
			if c.sort == SSlice {
				ex.axiom(mkLe(birth(slArr(c)), mkInt(0)))
			}
			a = c
		}
		args = append(args, a)
		ex.entryEnv[n] = a
		ex.entryTy[n] = p.Type()
	}
	// receivers of methods are non-nil
	if fn.Signature.Recv() != nil && len(args) > 0 {
		if t, ok := args[0].(*Term); ok && t.sort == SRef {
			ex.axiom(mkNot(mkEq(t, mkNull())))
		}
	}
	ax := &Env{ex: ex, names: map[string]EV{}, st: ex.entry, old: ex.entry}
	for _, a := range v.spec.Axioms {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(specErr); !ok {
						panic(r)
					}
					ex.warn["axiom "+a.Name+" does not apply to this tree"] = true
				}
			}()
			ex.axiom(ex.evalBool(a.Expr, ax))
		}()
	}
	env := ex.rootEnv(st)
	env.old = st
	for _, c := range fc.Clauses {
		if c.Kind == "requires" && c.active(prop) {
			ex.assume(st, ex.evalBool(c.Expr, env))
		}
	}
	ex.entry = st.clone()
	cov := &Obligation{Name: "preconditions satisfiable", Kind: "cover", guard: mkTrue(), cond: mkFalse(), nfacts: len(ex.facts)}
	ex.obls = append(ex.obls, cov)
	ret := ex.callFunc(nil, fn, args, nil, st, shortName(fn))
	post := ex.rootEnv(st)
	res := fn.Signature.Results()
	vals, ok := ret.(TupleV)
	if !ok {
		vals = TupleV{ret}
	}
	for i := 0; i < res.Len(); i++ {
		if i < len(fc.Results) && fc.Results[i] != "_" {
			post.names[fc.Results[i]] = EV{vals[i], res.At(i).Type()}
		}
	}
	if isFalse(st.guard) {
		return ex, fmt.Errorf("function never returns normally")
	}
	ex.obls = append(ex.obls, &Obligation{Name: "normal return reachable", Kind: "cover", guard: st.guard, cond: mkFalse(), nfacts: len(ex.facts)})
	n := 0
	for _, c := range fc.Clauses {
		if c.Kind != "ensures" || !c.active(prop) {
			continue
		}
		n++
		label := c.Label
		if label == "" {
			label = fmt.Sprintf("ensures#%d", n)
		}
		o := ex.oblige(st, "ensures", label, ex.evalBool(c.Expr, post), fn.Pos())
		o.clause = c
		// proved postconditions may be used by later ones
	}
	if !fc.Extern && v.needFrame(fc) {
		ex.frameObls(st, fc, fn)
	}
	return ex, nil
}

func (v *Verifier) needFrame(fc *FuncContract) bool { return v.callee[fc.Name] }

// frameObls: everything outside the modifies clause is unchanged (for objects existing at entry).
func (ex *Exec) frameObls(st *State, fc *FuncContract, fn *ssa.Function) {
	allowed := ex.entry.clone()
	// perform the havoc described by the contract on the entry state and compare where it differs
	env := ex.rootEnv(ex.entry)
	env.old = ex.entry
	for _, c := range fc.Clauses {
		if c.Kind == "modifies" {
			for _, m := range c.Mods {
				ex.havocLoc(allowed, m, env)
			}
		}
	}
	for _, k := range sortedKeys(st.heap) {
		if strings.HasPrefix(k, "ITER:") || strings.HasPrefix(k, "CH:") || strings.HasPrefix(k, "G:$") {
			continue
		}
		fin := st.heap[k]
		ini, ok := ex.entry.heap[k]
		if !ok {
			ini = ex.init[k]
		}
		if fin == ini {
			continue
		}
		al, ok := allowed.heap[k]
		if !ok {
			al = ini
		}
		if !strings.HasPrefix(fin.sort, "(Array Ref") {
			if al == ini {
				ex.oblige(st, "frame", "frame "+k, mkEq(fin, ini), fn.Pos())
			}
			continue
		}
		if al.op == "const" && al != ini {
			continue // fully modifiable
		}
		if strings.HasPrefix(k, "G:") {
			if al == ini {
				ex.oblige(st, "frame", "frame "+k, mkEq(fin, ini), fn.Pos())
			}
			continue
		}
		r := freshConst("framer", SRef)
		r.any = true
		diffs := []*Term{mkNot(mkEq(r, mkNull()))} // nothing is stored at nil
		for a := al; a != ini; {
			if a.op == "store" {
				diffs = append(diffs, mkNot(mkEq(r, a.args[1])))
				a = a.args[0]
				continue
			}
			break
		}
		_, vs := arraySorts(fin.sort)
		goal := mkImp(mkAnd(append(diffs, mkLe(birth(r), mkInt(0)))...), mkEq(mk("select", "", vs, fin, r), mk("select", "", vs, ini, r)))
		ex.oblige(st, "frame", "frame "+k, goal, fn.Pos())
	}
}

type Verifier struct {
	prog   *Program
	spec   *Spec
	debug  bool
	tmo    int
	covers bool
	callee map[string]bool
	log    func(string, ...any)
}

func (v *Verifier) verify(fc *FuncContract, prop string) *FuncResult {
	t0 := time.Now()
	fr := &FuncResult{Function: fc.Name, Contract: fmt.Sprintf("%s:%d", fc.File, fc.Line)}
	fn := v.prog.lookup(fc.Name)
	if fn == nil {
		fr.Error = "function not found in the current tree"
		return fr
	}
	fr.Where = v.prog.fnWhere(fn)
	dead := map[string]bool{}
	var ex *Exec
	for round := 0; round < 150; round++ {
		fr.Rounds = round + 1
		var err error
		ex, err = v.newRun(fn, fc, prop, dead)
		if err != nil {
			fr.Error = err.Error()
			fr.fill(ex)
			fr.Secs = time.Since(t0).Seconds()
			return fr
		}
		type job struct {
			o      *Obligation
			script string
			ok     bool
			secs   float64
		}
		var jobs []*job
		for _, o := range ex.obls {
			if o.cand == "" || dead[o.cand] {
				continue
			}
			if isTrue(o.cond) || isFalse(o.guard) {
				continue
			}
			j := &job{o: o}
			jobs = append(jobs, j)
		}
		tr := time.Now()
		// loop by loop, in program order: the candidates of a later loop are checked once those before are stable
		var order []string
		groups := map[string][]*job{}
		for _, j := range jobs {
			l := j.o.cand
			if i := strings.Index(l, " "); i >= 0 {
				l = l[:i]
			}
			if _, ok := groups[l]; !ok {
				order = append(order, l)
			}
			groups[l] = append(groups[l], j)
		}
		var run []*job
		for _, l := range order {
			var wg sync.WaitGroup
			for _, j := range groups[l] {
				j.script = ex.script(j.o, nil)
				wg.Add(1)
				go func() {
					defer wg.Done()
					j.ok, j.secs = proveCand(j.script)
				}()
			}
			wg.Wait()
			run = append(run, groups[l]...)
			bad := false
			for _, j := range groups[l] {
				bad = bad || !j.ok
			}
			if bad {
				break
			}
		}
		jobs = run
		killed := 0
		for _, j := range jobs {
			if !j.ok && !dead[j.o.cand] {
				dead[j.o.cand] = true
				killed++
			}
		}
		if v.debug {
			maxOK, sumBad, nBad := 0.0, 0.0, 0
			for _, j := range jobs {
				if j.ok {
					maxOK = max(maxOK, j.secs)
				} else {
					sumBad += j.secs
					nBad++
				}
			}
			v.log("  %s round %d: %d invariant obligations, %d candidates killed; %.1fs, slowest proved %.2fs, %d unproved taking %.1fs", fc.Name, round, len(jobs), killed, time.Since(tr).Seconds(), maxOK, nBad, sumBad)
			for _, j := range jobs {
				if !j.ok {
					if dumpDir != "" {
						dump(fmt.Sprintf("%s/K%d-%s.smt2", dumpDir, round, sanitize(j.o.cand+"."+j.o.Kind)), j.script)
					}
					v.log("    killed %s [%s %s] %.2fs", j.o.cand, j.o.Kind, j.o.Pos, j.secs)
				}
			}
		}
		if killed == 0 {
			break
		}
	}
	fr.fill(ex)
	inv := map[string]bool{}
	nInv := 0
	for _, o := range ex.obls {
		if o.cand != "" && !dead[o.cand] {
			inv[o.cand] = true
			nInv++
		}
	}
	fr.Invs = sortedKeys(inv)
	results := make([]*OblResult, len(ex.obls))
	var wg sync.WaitGroup
	for i, o := range ex.obls {
		if o.cand != "" {
			results[i] = &OblResult{Function: fc.Name, Name: o.cand, Kind: o.Kind, Pos: o.Pos, Status: "proved", Solver: z3fast.name}
			continue
		}
		r := &OblResult{Function: fc.Name, Name: o.Name, Kind: o.Kind, Pos: o.Pos}
		if o.clause != nil {
			r.Clause = o.clause.Line + ": " + o.clause.Src
		}
		results[i] = r
		if o.Kind == "cover" {
			s := ex.script(o, nil)
			s2 := ""
			if o.before != nil {
				s2 = ex.script(o.before, nil)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				x := runSolver(z3fast, s, 3)
				r.Solver, r.Secs = x.solver, x.dur
				if x.res == "unsat" && s2 != "" && runSolver(z3fast, s2, 3).res == "unsat" {
					x.res = "unknown"
				}
				if x.res == "unsat" {
					r.Status = "failed"
					r.Detail = "unreachable: assumptions are contradictory"
				} else {
					r.Status = "proved"
				}
			}()
			continue
		}
		if isTrue(o.cond) || isFalse(o.guard) {
			r.Status, r.Solver = "proved", "simplifier"
			continue
		}
		s := ex.script(o, nil)
		if dumpDir != "" {
			dump(fmt.Sprintf("%s/%s-%03d-%s.smt2", dumpDir, sanitize(shortName(fn)), i, sanitize(o.Name)), s)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			x := proveFull(s, v.tmo)
			r.Solver, r.Secs = x.solver, x.dur
			switch {
			case x.res == "unsat":
				r.Status = "proved"
			case strings.HasPrefix(x.res, "error"):
				r.Status, r.Detail = "error", x.res
			default:
				r.Status, r.Detail = "failed", x.res
			}
		}()
	}
	wg.Wait()
	for _, r := range results {
		fr.Obls = append(fr.Obls, *r)
	}
	for _, c := range fc.Clauses {
		if c.Kind == "at" && c.active(prop) && ex.atHits[c.Line] == 0 {
			fr.Warn = append(fr.Warn, "at-clause matched no call: "+c.Line)
		}
	}
	fr.Secs = time.Since(t0).Seconds()
	return fr
}

func (fr *FuncResult) fill(ex *Exec) {
	if ex == nil {
		return
	}
	fr.Opaque, fr.Externs, fr.Used, fr.Inlined, fr.PureUF = ex.opaque, ex.externs, ex.used, ex.inlined, ex.nondet
	for w := range ex.warn {
		fr.Warn = append(fr.Warn, w)
	}
	sort.Strings(fr.Warn)
}
