package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	Name   string
	Kind   string // ensures, requires, at, inv-init, inv-step, safety, frame, cover
	Props  map[string]bool
	Pos    string
	guard  *Term
	cond   *Term
	nfacts int
	loop   string // loop id for invariants
	cand   string // invariant candidate name
	clause *Clause
	before *Obligation // cover: only meaningful if this one is not refuted
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	parent *Frame
	depth  int
	path   string
	backs  map[*ssa.BasicBlock][]*State // back-edge states per header (dry runs)
	rets   []retState
	loops  *loopInfo
	vl     map[*loop]*vloop
	cur    *ssa.BasicBlock
}

type retState struct {
	st   *State
	vals []Val
}

type Exec struct {
	gvals      []*Term
	covers     bool
	prog       *Program
	spec       *Spec
	root       *ssa.Function
	rootC      *FuncContract
	facts      []*Term
	axioms     []*Term
	obls       []*Obligation
	init       map[string]*Term
	initOrder  []string
	copies     []func(string, *Term) *Term
	closures   map[int]*CloV
	logicDefs  map[int]*Term // values of logic functions at results of calls
	typed      map[int]bool
	ground     map[int]bool
	dry        int
	entry      *State
	entryEnv   map[string]Val
	entryTy    map[string]types.Type
	props      map[string]bool
	safety     bool
	dead       map[string]bool // pruned invariant candidates
	recording  map[string]bool
	keyTypes   map[string]types.Type
	boxTypes   map[string]types.Type
	wraps      map[int][]*Term
	qn         int
	seqs       map[int]seqV
	atHits     map[string]int
	curProp    string
	nondet     map[string]int
	inSpecCall int
	opaque     map[string]int // opaque calls encountered
	inlined    map[string]int
	used       map[string]int // contracts used
	externs    map[string]int
	counts     map[string]*countSym
	idxTerms   []*Term
	warn       map[string]bool
	steps      int
	inContract int
	initDone   map[string]bool
	globInit   map[*ssa.Global]bool
	unjoined   bool
}

func newExec(p *Program, s *Spec) *Exec {
	return &Exec{prog: p, spec: s, init: map[string]*Term{}, closures: map[int]*CloV{}, logicDefs: map[int]*Term{}, typed: map[int]bool{}, ground: map[int]bool{},
		dead: map[string]bool{}, keyTypes: map[string]types.Type{}, boxTypes: map[string]types.Type{}, wraps: map[int][]*Term{}, atHits: map[string]int{}, nondet: map[string]int{}, opaque: map[string]int{}, inlined: map[string]int{}, used: map[string]int{}, externs: map[string]int{},
		counts: map[string]*countSym{}, warn: map[string]bool{}, initDone: map[string]bool{}, globInit: map[*ssa.Global]bool{}}
}

func (ex *Exec) axiom(t *Term) {
	if isTrue(t) || ex.ground[t.id] {
		return
	}
	ex.ground[t.id] = true
	ex.axioms = append(ex.axioms, t)
}

// fact adds an unconditional fact (kept across dry runs).
func (ex *Exec) fact(t *Term) { ex.axiom(t) }

func (ex *Exec) assume(st *State, t *Term) {
	f := mkImp(st.guard, t)
	if !isTrue(f) {
		ex.facts = append(ex.facts, f)
	}
}

// assumeAbout records a fact that matters only where constant c is used.
func (ex *Exec) assumeAbout(st *State, c, t *Term) {
	f := mkImp(st.guard, t)
	if !isTrue(f) {
		ex.facts = append(ex.facts, f)
		if c.op == "const" {
			aboutMu.Lock()
			if _, ok := aboutConst[f.id]; !ok {
				aboutConst[f.id] = c
			}
			aboutMu.Unlock()
		}
	}
}

var (
	aboutMu    sync.Mutex
	aboutConst = map[int]*Term{}
)

func (ex *Exec) oblige(st *State, kind, name string, cond *Term, pos token.Pos) *Obligation {
	o := &Obligation{Name: name, Kind: kind, guard: st.guard, cond: cond, nfacts: len(ex.facts), Pos: ex.prog.pos(pos)}
	if ex.dry == 0 && ex.inContract == 0 {
		ex.obls = append(ex.obls, o)
	}
	return o
}

func (ex *Exec) mergeStates(sts []*State) *State {
	if len(sts) == 1 {
		return sts[0].clone()
	}
	gs := make([]*Term, len(sts))
	for i, s := range sts {
		gs[i] = s.guard
	}
	r := &State{guard: mkOr(gs...), heap: map[string]*Term{}}
	// discriminators relative to common prefix
	conds := discriminators(gs)
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s.heap {
			keys[k] = true
		}
	}
	for _, k := range sortedKeys(keys) {
		var acc *Term
		for i := len(sts) - 1; i >= 0; i-- {
			v, ok := sts[i].heap[k]
			if !ok {
				v = ex.init[k]
			}
			if acc == nil {
				acc = v
			} else {
				acc = mkIte(conds[i], v, acc)
			}
		}
		r.heap[k] = acc
	}
	var now *Term
	for i := len(sts) - 1; i >= 0; i-- {
		if now == nil {
			now = sts[i].now
		} else {
			now = mkIte(conds[i], sts[i].now, now)
		}
	}
	r.now = now
	// pending goroutines: union by identity, with guard weakened
	for _, s := range sts {
		for _, p := range s.pend {
			found := false
			for j := range r.pend {
				if r.pend[j].clo == p.clo {
					found = true
				}
			}
			if !found {
				var acc *Term
				for i := len(sts) - 1; i >= 0; i-- {
					g := mkFalse()
					for _, q := range sts[i].pend {
						if q.clo == p.clo {
							g = q.guard
						}
					}
					if acc == nil {
						acc = g
					} else {
						acc = mkIte(conds[i], g, acc)
					}
				}
				p.guard = acc
				r.pend = append(r.pend, p)
			}
		}
	}
	for _, s := range sts {
	next:
		for _, d := range s.defs {
			for _, e := range r.defs {
				if e.instr == d.instr && e.fr == d.fr && e.guard == d.guard {
					continue next
				}
			}
			r.defs = append(r.defs, d)
		}
	}
	return r
}

// discriminators strips the longest common and-prefix of the guards.
func discriminators(gs []*Term) []*Term {
	if len(gs) == 2 && gs[0].op == "and" && gs[1].op == "and" && len(gs[0].args) == 2 && len(gs[1].args) == 2 && gs[0].args[0] == gs[1].args[0] {
		return []*Term{gs[0].args[1], gs[1].args[1]}
	}
	return gs
}

// ---- loops ----

type loopInfo struct {
	topo   []*ssa.BasicBlock
	order  map[*ssa.BasicBlock]int
	header map[*ssa.BasicBlock]*loop
	back   map[[2]*ssa.BasicBlock]bool
}

type loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	id   int
}

func analyzeLoops(fn *ssa.Function) *loopInfo {
	li := &loopInfo{order: map[*ssa.BasicBlock]int{}, header: map[*ssa.BasicBlock]*loop{}, back: map[[2]*ssa.BasicBlock]bool{}}
	// back edges: successor dominates block
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li.back[[2]*ssa.BasicBlock{b, s}] = true
			}
		}
	}
	visited := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		visited[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			s := b.Succs[i]
			if li.back[[2]*ssa.BasicBlock{b, s}] || visited[s] {
				continue
			}
			dfs(s)
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.order[post[i]] = len(li.topo)
		li.topo = append(li.topo, post[i])
	}
	n := 0
	for _, b := range li.topo {
		var srcs []*ssa.BasicBlock
		for _, p := range b.Preds {
			if li.back[[2]*ssa.BasicBlock{p, b}] {
				srcs = append(srcs, p)
			}
		}
		if len(srcs) == 0 {
			continue
		}
		n++
		l := &loop{head: b, body: map[*ssa.BasicBlock]bool{b: true}, id: n}
		work := srcs
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			if l.body[x] {
				continue
			}
			l.body[x] = true
			work = append(work, x.Preds...)
		}
		li.header[b] = l
	}
	return li
}

const maxDepth = 40

// callFunc symbolically executes fn's body.
func (ex *Exec) callFunc(parent *Frame, fn *ssa.Function, args []Val, bindings []Val, st *State, path string) Val {
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body for " + fn.String()))
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, parent: parent, path: path}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	if fr.depth > maxDepth {
		panic(unsupported("inlining too deep at " + fn.String()))
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = bindings[i]
	}
	fr.loops = ex.prog.loopsOf(fn)
	base := st.clone()
	base.defs = nil
	outerDefs := st.defs
	ex.runRegion(fr, fn.Blocks[0], base, nil, nil, nil)
	if len(fr.rets) == 0 {
		st.guard = mkFalse()
		return ex.zero(fn.Signature.Results())
	}
	var sts []*State
	for _, r := range fr.rets {
		sts = append(sts, r.st)
	}
	m := ex.mergeStates(sts)
	gs := make([]*Term, len(sts))
	for i := range sts {
		gs[i] = sts[i].guard
	}
	conds := discriminators(gs)
	res := fn.Signature.Results()
	var out Val
	vals := make(TupleV, res.Len())
	for k := 0; k < res.Len(); k++ {
		var acc Val
		for i := len(fr.rets) - 1; i >= 0; i-- {
			if acc == nil {
				acc = fr.rets[i].vals[k]
			} else {
				acc = ex.iteVal(conds[i], fr.rets[i].vals[k], acc, res.At(k).Type())
			}
		}
		vals[k] = acc
	}
	switch res.Len() {
	case 0:
		out = TupleV{}
	case 1:
		out = vals[0]
	default:
		out = vals
	}
	m.defs = outerDefs
	*st = *m
	return out
}

type edgeIn struct {
	pred *ssa.BasicBlock
	st   *State
	vals []Val // phi inputs of the successor
}

// runRegion executes blocks reachable from entry. If region != nil only blocks in region are executed:
// in dry runs edges back to head are collected in fr.backs, when unrolling they go to u.
func (ex *Exec) runRegion(fr *Frame, entry *ssa.BasicBlock, st *State, region map[*ssa.BasicBlock]bool, head *ssa.BasicBlock, u *unrollCtx) {
	ins := map[*ssa.BasicBlock][]edgeIn{}
	ins[entry] = []edgeIn{{nil, st, nil}}
	start := fr.loops.order[entry]
	headEdges := 0
	edge := func(pred, succ *ssa.BasicBlock, s *State) {
		if isFalse(s.guard) {
			return
		}
		if u != nil && pred == u.head {
			headEdges++
		}
		if fr.loops.back[[2]*ssa.BasicBlock{pred, succ}] {
			if u != nil && succ == u.head {
				var vals []Val
				for _, in := range succ.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					vals = append(vals, ex.phiIn(fr, succ, p, pred))
				}
				u.backs = append(u.backs, unrollBack{s, vals})
				return
			}
			ex.backEdge(fr, pred, succ, s)
			return
		}
		if region != nil && !region[succ] {
			if u != nil {
				u.exit(pred, succ, s)
			}
			return
		}
		var vals []Val
		for _, in := range succ.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			vals = append(vals, ex.phiIn(fr, succ, p, pred))
		}
		ins[succ] = append(ins[succ], edgeIn{pred, s, vals})
	}
	for _, b := range fr.loops.topo[start:] {
		if region != nil && !region[b] {
			continue
		}
		es := ins[b]
		if len(es) == 0 {
			continue
		}
		var cur *State
		if head != nil && b == entry {
			cur = es[0].st.clone() // phis already set
		} else {
			cur = ex.enterBlock(fr, b, es)
			if l := fr.loops.header[b]; l != nil && !isFalse(cur.guard) {
				fr.cur = b
				if ex.tryUnroll(fr, l, cur, edge) {
					continue
				}
				ex.enterLoop(fr, l, cur)
			}
		}
		if isFalse(cur.guard) {
			continue
		}
		fr.cur = b
		ex.runBlock(fr, b, cur, func(succ *ssa.BasicBlock, s *State) { edge(b, succ, s) })
		if u != nil && b == u.head {
			u.folded = headEdges == 1
			if !u.folded {
				return
			}
		}
	}
}

func (ex *Exec) phiIn(fr *Frame, b *ssa.BasicBlock, phi *ssa.Phi, pred *ssa.BasicBlock) Val {
	for i, p := range b.Preds {
		if p == pred {
			return ex.val(fr, phi.Edges[i])
		}
	}
	panic("phi pred not found")
}

func (ex *Exec) enterBlock(fr *Frame, b *ssa.BasicBlock, es []edgeIn) *State {
	sts := make([]*State, len(es))
	gs := make([]*Term, len(es))
	for i, e := range es {
		sts[i] = e.st
		gs[i] = e.st.guard
	}
	cur := ex.mergeStates(sts)
	conds := discriminators(gs)
	// phis
	newv := map[*ssa.Phi]Val{}
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var acc Val
		for i := len(es) - 1; i >= 0; i-- {
			if es[i].pred == nil {
				continue
			}
			v := es[i].vals[len(newv)]
			if acc == nil {
				acc = v
			} else {
				acc = ex.iteVal(conds[i], v, acc, phi.Type())
			}
		}
		newv[phi] = acc
	}
	for p, v := range newv {
		fr.env[p] = v
	}
	return cur
}

func (fr *Frame) loopID(l *loop) string { return fmt.Sprintf("%s#%d", fr.path, l.id) }

// enterLoop havocs the loop-modified state and assumes invariants. cur is the entry state (mutated).
func (ex *Exec) enterLoop(fr *Frame, l *loop, cur *State) {
	var phis []*ssa.Phi
	for _, ins := range l.head.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	initVals := make([]Val, len(phis))
	for i, p := range phis {
		initVals[i] = fr.env[p]
	}
	vl := &vloop{id: fr.loopID(l), l: l, fr: fr, phis: phis, initVals: initVals, pos: l.head.Instrs[0].Pos(), fnName: fr.fn.String()}
	vl.hints = ex.boundHints(fr, l)
	body := func(st *State) []*State {
		// dry execution of the body; phis are set in env
		save := fr.backs
		fr.backs = map[*ssa.BasicBlock][]*State{}
		saveRets := fr.rets
		ex.runRegion(fr, l.head, st.clone(), l.body, l.head, nil)
		res := fr.backs[l.head]
		fr.backs = save
		fr.rets = saveRets
		return res
	}
	ex.loopProtocol(vl, cur, body)
	ex.setVLoop(fr, l, vl)
}

func (ex *Exec) backEdge(fr *Frame, from, head *ssa.BasicBlock, s *State) {
	l := fr.loops.header[head]
	if fr.backs != nil {
		fr.backs[head] = append(fr.backs[head], s)
	}
	vl := ex.getVLoop(fr, l)
	if vl == nil {
		return
	}
	vals := make([]Val, len(vl.phis))
	for i, p := range vl.phis {
		vals[i] = ex.phiIn(fr, head, p, from)
	}
	ex.checkInv(vl, s, vals, "inv-step")
}

// ---- instructions ----

func (ex *Exec) val(fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Function:
		return &CloV{fn: x}
	case *ssa.Global:
		return ex.globalPtr(x)
	case *ssa.Builtin:
		return x
	}
	r, ok := fr.env[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("value %s (%T) not computed in %s", v.Name(), v, fr.fn)))
	}
	return r
}

func (ex *Exec) globalPtr(g *ssa.Global) Val {
	et := g.Type().(*types.Pointer).Elem()
	ref := mkConst("glob:"+g.String(), SRef)
	if isStructT(et) || isArrayT(et) {
		return ref
	}
	ref.alloc = true // the cell of a package-level variable is only reached through the variable
	return &PtrV{elem: et, key: "C:" + typeName(et), base: ref}
}

func (ex *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return ex.zero(t)
	}
	return constTerm(c.Value, t)
}

func constTerm(v constant.Value, t types.Type) *Term {
	switch sortOf(t) {
	case SBool:
		return mkBool(constant.BoolVal(v))
	case SInt:
		iv := constant.ToInt(v)
		if n, ok := constant.Int64Val(iv); ok {
			return mkInt(n)
		}
		return mkBigInt(iv.ExactString())
	case SStr:
		if v.Kind() == constant.Int {
			n, _ := constant.Int64Val(v)
			return mkStrLit(string(rune(n)))
		}
		return mkStrLit(constant.StringVal(v))
	case SFlt:
		return mkConst("flt:"+v.ExactString(), SFlt)
	}
	panic(unsupported("constant " + v.String()))
}

func (ex *Exec) runBlock(fr *Frame, b *ssa.BasicBlock, st *State, edge func(*ssa.BasicBlock, *State)) {
	for _, ins := range b.Instrs {
		ex.steps++
		if ex.steps > 2000000 {
			panic(unsupported("too many steps"))
		}
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := ex.term(ex.val(fr, x.Cond), x.Cond.Type())
			c = newSimp(st.guard).boolean(c)
			edge(b.Succs[0], ex.branch(st, c))
			edge(b.Succs[1], ex.branch(st, mkNot(c)))
			return
		case *ssa.Jump:
			edge(b.Succs[0], st)
			return
		case *ssa.Return:
			vals := make([]Val, len(x.Results))
			for i, r := range x.Results {
				vals[i] = ex.val(fr, r)
			}
			fr.rets = append(fr.rets, retState{st.clone(), vals})
			return
		case *ssa.Panic:
			if ex.safety {
				ex.oblige(st, "safety", "no-panic", mkFalse(), x.Pos())
			}
			return
		case *ssa.RunDefers:
			ex.runDefers(fr, b, st)
		case *ssa.Defer:
			d := deferEntry{fr: fr, guard: st.guard, instr: x}
			d.fn, d.args = ex.callArgs(fr, &x.Call)
			st.defs = append(st.defs, d)
		case *ssa.Store:
			ex.store(st, ex.val(fr, x.Addr), ex.val(fr, x.Val), x.Val.Type(), x.Pos())
		case *ssa.MapUpdate:
			ex.mapUpdate(st, ex.term(ex.val(fr, x.Map), x.Map.Type()), x.Map.Type().Underlying().(*types.Map), ex.val(fr, x.Key), ex.val(fr, x.Value), x.Pos())
		case *ssa.Send:
			ch := ex.term(ex.val(fr, x.Chan), x.Chan.Type())
			et := x.Chan.Type().Underlying().(*types.Chan).Elem()
			if !isStructT(et) {
				key := "CH:" + typeName(et)
				ex.set(st, key, mkStore(ex.get(st, key, SArr(SRef, sortOf(et))), ch, ex.term(ex.val(fr, x.X), et)))
			}
		case *ssa.Go:
			ex.doGo(fr, st, x)
		case ssa.Value:
			v := ex.evalInstr(fr, st, x)
			fr.env[x] = v
			if isFalse(st.guard) {
				return
			}
		default:
			panic(unsupported(fmt.Sprintf("instruction %T in %s", ins, fr.fn)))
		}
	}
}

func (ex *Exec) runDefers(fr *Frame, b *ssa.BasicBlock, st *State) {
	ds := st.defs
	st.defs = nil
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		if d.fr != fr {
			continue
		}
		if d.instr.Block().Dominates(b) {
			ex.invokeCall(fr, st, d.instr, &d.instr.Call, d.fn, d.args)
			continue
		}
		yes := st.with(d.guard)
		no := st.with(mkNot(d.guard))
		ex.invokeCall(fr, yes, d.instr, &d.instr.Call, d.fn, d.args)
		*st = *ex.mergeStates([]*State{yes, no})
	}
}

// deref obligations
func (ex *Exec) nonNil(st *State, t *Term, what string, pos token.Pos) {
	if t.alloc || t.op == "uf" && (strings.HasPrefix(t.name, "sub$") || t.name == "elt") {
		return
	}
	c := mkNot(mkEq(t, mkNull()))
	if isTrue(c) {
		return
	}
	if ex.safety && ex.inContract == 0 {
		ex.oblige(st, "safety", "nil-deref "+what, c, pos)
	}
	if ex.inContract == 0 {
		ex.assume(st, c)
	}
}

// stripNull: a pointer that has been dereferenced is not nil.
func stripNull(t *Term) *Term {
	for t.op == "ite" && t.sort == SRef {
		if t.args[1] == mkNull() {
			t = t.args[2]
		} else if t.args[2] == mkNull() {
			t = t.args[1]
		} else {
			break
		}
	}
	return t
}

func (ex *Exec) load(st *State, p Val, et types.Type, pos token.Pos) Val {
	return ex.loadH(st, st.heap, p, et, pos)
}

func (ex *Exec) loadH(st *State, h map[string]*Term, p Val, et types.Type, pos token.Pos) Val {
	switch x := p.(type) {
	case *PtrV:
		var v *Term
		if x.idx == nil {
			ex.keyTypes[x.key] = et
		}
		if x.idx != nil {
			a := ex.heapGet(h, x.key, SArr(SRef, SArr(SInt, sortOf(et))))
			v = mkSelect(mkSelect(a, x.base), x.idx)
		} else {
			a := ex.heapGet(h, x.key, SArr(SRef, sortOf(et)))
			if strings.HasPrefix(x.key, "C:") && strings.HasPrefix(x.base.name, "glob:") {
				if t := mkSelect(a, x.base); t.op == "select" {
					if gv := ex.globalValue(x.base.name[5:], et, t.args[0], x.base); gv != nil {
						return ex.wrapClo(gv)
					}
				}
			}
			v = mkSelect(a, x.base)
		}
		ex.typeFacts(v, et)
		ex.refFact(st, v)
		return ex.wrapClo(v)
	case *Term:
		ex.nonNil(st, x, "load", pos)
		x = stripNull(x)
		if isStructT(et) {
			return ex.lazyStruct(et, x, h)
		}
		if isArrayT(et) {
			return x
		}
		a := ex.heapGet(h, cellKey(et), SArr(SRef, sortOf(et)))
		v := mkSelect(a, x)
		if strings.HasPrefix(x.name, "glob:") && v.op == "select" {
			if gv := ex.globalValue(x.name[5:], et, v.args[0], x); gv != nil {
				return ex.wrapClo(gv)
			}
		}
		ex.typeFacts(v, et)
		ex.refFact(st, v)
		return ex.wrapClo(v)
	}
	panic(unsupported(fmt.Sprintf("load through %T", p)))
}

// globalValue gives a stable value to package-level variables never written by the code under analysis.
func (ex *Exec) globalValue(name string, et types.Type, arr, base *Term) *Term {
	if arr.op != "const" || !strings.HasPrefix(arr.name, "H0:") {
		return nil
	}
	if sortOf(et) == SRef {
		v := mkConst("gval:"+name, SRef)
		if ex.prog.globNonNil[name] {
			ex.axiom(mkNot(mk("=", "", SBool, mkNull(), v)))
			known := false
			for _, g := range ex.gvals {
				known = known || g == v
			}
			if !known {
				for _, g := range ex.gvals {
					ex.axiom(mkNot(mk("=", "", SBool, g, v)))
				}
				ex.gvals = append(ex.gvals, v)
			}
		}
		ex.axiom(mkLe(birth(v), mkInt(0)))
		return v
	}
	return nil
}

func (ex *Exec) refFact(st *State, v *Term) {
	if v.sort == SSlice && v.op != "sl" && v.op != "ite" {
		a := slArr(v)
		if !initialSelect(v) {
			ex.refFact(st, a)
		} else {
			ex.axiom(mkLe(birth(a), mkInt(0)))
		}
		return
	}
	if v.sort != SRef || v.alloc || isNull(v) || v.bound {
		return
	}
	if initialSelect(v) || v.op == "ite" {
		return
	}
	ex.assume(st, mkLe(birth(v), st.now))
}

func (ex *Exec) store(st *State, p Val, v Val, t types.Type, pos token.Pos) {
	switch x := p.(type) {
	case *PtrV:
		tv := ex.term(v, x.elem)
		if x.idx == nil {
			ex.keyTypes[x.key] = x.elem
		}
		if x.idx != nil {
			a := ex.get(st, x.key, SArr(SRef, SArr(SInt, tv.sort)))
			ex.set(st, x.key, mkStore(a, x.base, mkStore(mkSelect(a, x.base), x.idx, tv)))
			return
		}
		a := ex.get(st, x.key, SArr(SRef, tv.sort))
		ex.set(st, x.key, mkStore(a, x.base, tv))
		return
	case *Term:
		ex.nonNil(st, x, "store", pos)
		x = stripNull(x)
		if isStructT(t) {
			sv, ok := v.(*StructV)
			if !ok {
				if tv, ok2 := v.(*Term); ok2 {
					sv = ex.lazyStruct(t, tv, st.heap)
				} else {
					panic(unsupported(fmt.Sprintf("store struct from %T", v)))
				}
			}
			if sv.ref != nil && x.alloc {
				// only lazily known keys need care; copying the snapshot values eagerly for touched keys
				ex.copyFrom(st, t, x, sv)
				return
			}
			ex.storeStruct(st, t, x, sv)
			return
		}
		if isArrayT(t) {
			return
		}
		tv := ex.term(v, t)
		k := cellKey(t)
		ex.keyTypes[k] = t
		ex.set(st, k, mkStore(ex.get(st, k, SArr(SRef, tv.sort)), x, tv))
		return
	}
	panic(unsupported(fmt.Sprintf("store through %T", p)))
}

// copyFrom copies snapshot struct sv to fresh object dst: touched keys eagerly, untouched lazily.
func (ex *Exec) copyFrom(st *State, t types.Type, dst *Term, sv *StructV) {
	tmp := &State{guard: st.guard, heap: sv.heap, now: st.now}
	_ = tmp
	type leaf struct {
		key  string
		d, s *Term
		ft   types.Type
	}
	var leaves []leaf
	var walk func(t types.Type, d, s *Term)
	walk = func(t types.Type, d, s *Term) {
		su := structOf(t)
		for i := 0; i < su.NumFields(); i++ {
			ft := su.Field(i).Type()
			if isStructT(ft) {
				walk(ft, subRef(t, i, d), subRef(t, i, s))
				continue
			}
			if isArrayT(ft) {
				continue
			}
			leaves = append(leaves, leaf{fieldKey(t, i), d, s, ft})
		}
	}
	walk(t, dst, sv.ref)
	pendg := map[string][]leaf{}
	for _, l := range leaves {
		if _, ok := ex.init[l.key]; ok {
			srcA := ex.heapGet(sv.heap, l.key, SArr(SRef, sortOf(l.ft)))
			ex.set(st, l.key, mkStore(ex.get(st, l.key, SArr(SRef, sortOf(l.ft))), l.d, mkSelect(srcA, l.s)))
		} else {
			pendg[l.key] = append(pendg[l.key], l)
		}
	}
	g := st.guard
	ex.copies = append(ex.copies, func(key string, h0 *Term) *Term {
		ls := pendg[key]
		if len(ls) == 0 {
			return nil
		}
		var fs []*Term
		for _, l := range ls {
			fs = append(fs, mkEq(mk("select", "", sortOf(l.ft), h0, l.d), mk("select", "", sortOf(l.ft), h0, l.s)))
		}
		return mkImp(g, mkAnd(fs...))
	})
}

func (ex *Exec) alloc(st *State, base string) *Term {
	r := freshAllocConst(base)
	st.now = mkAdd(st.now, mkInt(1))
	ex.axiom(mkNot(mk("=", "", SBool, mkNull(), r)))
	ex.assume(st, mkEq(birth(r), st.now))
	return r
}

func (ex *Exec) zeroInit(st *State, t types.Type, r *Term) {
	if isStructT(t) {
		// zero only touched keys eagerly; untouched lazily
		ex.zeroObj(st, t, r)
		return
	}
	if at, ok := t.Underlying().(*types.Array); ok {
		et := at.Elem()
		if isStructT(et) || isArrayT(et) {
			n := at.Len()
			if n <= 16 {
				for i := int64(0); i < n; i++ {
					ex.zeroInit(st, et, eltRef(r, mkInt(i)))
				}
			}
			return
		}
		z := ex.term(ex.zero(et), et)
		k := elemKey(et)
		ex.set(st, k, mkStore(ex.get(st, k, SArr(SRef, SArr(SInt, z.sort))), r, mkConstArr(SArr(SInt, z.sort), z)))
		return
	}
	z := ex.term(ex.zero(t), t)
	k := cellKey(t)
	ex.set(st, k, mkStore(ex.get(st, k, SArr(SRef, z.sort)), r, z))
}

func (ex *Exec) zeroObj(st *State, t types.Type, r *Term) {
	type leaf struct {
		key string
		d   *Term
		z   *Term
	}
	pendg := map[string][]leaf{}
	var walk func(t types.Type, d *Term)
	walk = func(t types.Type, d *Term) {
		su := structOf(t)
		for i := 0; i < su.NumFields(); i++ {
			ft := su.Field(i).Type()
			if isStructT(ft) {
				walk(ft, subRef(t, i, d))
				continue
			}
			if isArrayT(ft) {
				continue
			}
			z := ex.term(ex.zero(ft), ft)
			k := fieldKey(t, i)
			if _, ok := ex.init[k]; ok {
				ex.set(st, k, mkStore(ex.get(st, k, SArr(SRef, z.sort)), d, z))
			} else {
				pendg[k] = append(pendg[k], leaf{k, d, z})
			}
		}
	}
	walk(t, r)
	g := st.guard
	ex.copies = append(ex.copies, func(key string, h0 *Term) *Term {
		ls := pendg[key]
		if len(ls) == 0 {
			return nil
		}
		var fs []*Term
		for _, l := range ls {
			fs = append(fs, mkEq(mk("select", "", l.z.sort, h0, l.d), l.z))
		}
		return mkImp(g, mkAnd(fs...))
	})
}

func (ex *Exec) fieldAddr(st *State, base Val, st0 types.Type, i int, pos token.Pos) Val {
	b, ok := base.(*Term)
	if !ok {
		panic(unsupported(fmt.Sprintf("fieldaddr on %T", base)))
	}
	ex.nonNil(st, b, "field "+structOf(st0).Field(i).Name(), pos)
	b = stripNull(b)
	ft := structOf(st0).Field(i).Type()
	if isStructT(ft) || isArrayT(ft) {
		r := subRef(st0, i, b)
		ex.subFacts(r)
		return r
	}
	return &PtrV{elem: ft, key: fieldKey(st0, i), base: b}
}

func (ex *Exec) subFacts(r *Term) {
	if r.bound {
		return
	}
	if r.name == "elt" {
		ex.axiom(mkAnd(mk("=", "", SBool, mkUF("eltarr", SRef, r), r.args[0]), mk("=", "", SBool, mkUF("eltidx", SInt, r), r.args[1]), mkNot(mk("=", "", SBool, mkNull(), r)), mkEq(birth(r), birth(r.args[0]))))
		return
	}
	ex.axiom(mkAnd(mk("=", "", SBool, mkUF("inv$"+r.name, SRef, r), r.args[0]), mkNot(mk("=", "", SBool, mkNull(), r)), mkEq(birth(r), birth(r.args[0]))))
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (ex *Exec) bounds(st *State, i, n *Term, pos token.Pos) {
	c := mkAnd(mkLe(mkInt(0), i), mkLt(i, n))
	if isTrue(c) {
		return
	}
	if ex.safety && ex.inContract == 0 {
		ex.oblige(st, "safety", "index-in-range", c, pos)
	}
	if ex.inContract == 0 {
		ex.assume(st, c)
	}
}

func (ex *Exec) indexAddr(st *State, base Val, bt types.Type, idx *Term, pos token.Pos) Val {
	var arr, off, et = (*Term)(nil), mkInt(0), types.Type(nil)
	switch u := bt.Underlying().(type) {
	case *types.Slice:
		s := ex.term(base, bt)
		arr, off, et = slArr(s), slOff(s), u.Elem()
		ex.bounds(st, idx, slLen(s), pos)
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		arr, et = ex.term(base, bt), at.Elem()
		ex.bounds(st, idx, mkInt(at.Len()), pos)
	case *types.Array:
		arr, et = ex.term(base, bt), u.Elem()
	default:
		panic(unsupported("indexaddr on " + typeName(bt)))
	}
	i := mkAdd(off, idx)
	if isStructT(et) || isArrayT(et) {
		r := eltRef(arr, i)
		ex.subFacts(r)
		return r
	}
	return &PtrV{elem: et, key: elemKey(et), base: arr, idx: i}
}

func (ex *Exec) evalInstr(fr *Frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Alloc:
		et := x.Type().(*types.Pointer).Elem()
		r := ex.alloc(st, sanitize(x.Comment))
		ex.zeroInit(st, et, r)
		return r
	case *ssa.BinOp:
		return ex.binop(st, x.Op, ex.val(fr, x.X), ex.val(fr, x.Y), x.X.Type(), x.Type(), x.Pos())
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			return ex.load(st, ex.val(fr, x.X), x.Type(), x.Pos())
		case token.NOT:
			return mkNot(ex.term(ex.val(fr, x.X), x.X.Type()))
		case token.SUB:
			if sortOf(x.Type()) == SInt {
				return ex.wrap(mkNeg(ex.term(ex.val(fr, x.X), x.X.Type())), x.Type())
			}
			return mkUF("neg$"+sortOf(x.Type()), sortOf(x.Type()), ex.term(ex.val(fr, x.X), x.X.Type()))
		case token.ARROW:
			r := ex.recv(fr, st, ex.term(ex.val(fr, x.X), x.X.Type()), x.X.Type().Underlying().(*types.Chan).Elem())
			if x.CommaOk {
				return TupleV{r, freshConst("recvok", SBool)}
			}
			return r
		case token.XOR:
			return mkUF("bitnot", SInt, ex.term(ex.val(fr, x.X), x.X.Type()))
		}
	case *ssa.Call:
		fn, args := ex.callArgs(fr, &x.Call)
		return ex.invokeCall(fr, st, x, &x.Call, fn, args)
	case *ssa.ChangeInterface:
		return ex.val(fr, x.X)
	case *ssa.ChangeType:
		v := ex.val(fr, x.X)
		if sv, ok := v.(*StructV); ok {
			n := *sv
			n.typ = x.Type()
			return &n
		}
		return v
	case *ssa.Convert:
		return ex.convert(st, ex.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		return ex.convert(st, ex.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.Extract:
		t := ex.val(fr, x.Tuple)
		tv, ok := t.(TupleV)
		if !ok {
			panic(unsupported(fmt.Sprintf("extract from %T", t)))
		}
		return tv[x.Index]
	case *ssa.Field:
		b := ex.val(fr, x.X)
		if sv, ok := b.(*StructV); ok {
			return sv.field(x.Field)
		}
		if tm, ok := b.(*Term); ok {
			return ex.loadField(st.heap, x.X.Type(), x.Field, tm)
		}
		panic(unsupported("field"))
	case *ssa.FieldAddr:
		return ex.fieldAddr(st, ex.val(fr, x.X), derefT(x.X.Type()), x.Field, x.Pos())
	case *ssa.Index:
		if sortOf(x.X.Type()) == SStr {
			return mkUF("strat", SInt, ex.term(ex.val(fr, x.X), x.X.Type()), ex.term(ex.val(fr, x.Index), x.Index.Type()))
		}
		p := ex.indexAddr(st, ex.val(fr, x.X), x.X.Type(), ex.term(ex.val(fr, x.Index), x.Index.Type()), x.Pos())
		return ex.load(st, p, x.Type(), x.Pos())
	case *ssa.IndexAddr:
		return ex.indexAddr(st, ex.val(fr, x.X), x.X.Type(), ex.term(ex.val(fr, x.Index), x.Index.Type()), x.Pos())
	case *ssa.Lookup:
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			val, ok2 := ex.mapLookup(st.heap, ex.term(ex.val(fr, x.X), x.X.Type()), m, ex.val(fr, x.Index))
			if x.CommaOk {
				return TupleV{val, ok2}
			}
			return val
		}
		return mkUF("strat", SInt, ex.term(ex.val(fr, x.X), x.X.Type()), ex.term(ex.val(fr, x.Index), x.Index.Type()))
	case *ssa.MakeChan:
		return ex.alloc(st, "chan")
	case *ssa.MakeClosure:
		c := &CloV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.bindings = append(c.bindings, ex.val(fr, b))
		}
		return c
	case *ssa.MakeInterface:
		return ex.box(st, ex.val(fr, x.X), x.X.Type())
	case *ssa.MakeMap:
		r := ex.alloc(st, "map")
		m := x.Type().Underlying().(*types.Map)
		ex.newMap(st, r, m)
		return r
	case *ssa.MakeSlice:
		r := ex.alloc(st, "slice")
		et := x.Type().Underlying().(*types.Slice).Elem()
		ln := ex.term(ex.val(fr, x.Len), x.Len.Type())
		if isStructT(et) || isArrayT(et) {
			// struct elements: zeroed; expressed for each scalar field by quantified axiom when needed
			ex.zeroElems(st, r, et)
		} else {
			z := ex.term(ex.zero(et), et)
			k := elemKey(et)
			ex.set(st, k, mkStore(ex.get(st, k, SArr(SRef, SArr(SInt, z.sort))), r, mkConstArr(SArr(SInt, z.sort), z)))
		}
		if ex.safety {
			ex.oblige(st, "safety", "makeslice-len", mkLe(mkInt(0), ln), x.Pos())
		}
		ex.assume(st, mkLe(mkInt(0), ln))
		return mkSlice(r, mkInt(0), ln)
	case *ssa.Next:
		return ex.next(fr, st, x)
	case *ssa.Range:
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			mref := ex.term(ex.val(fr, x.X), x.X.Type())
			it := &IterV{m: mref, mt: m, key: "ITER:" + fr.path + ":" + x.Name()}
			ks := sortOf(m.Key())
			ex.set(st, it.key, mkConstArr(SArr(ks, SBool), mkFalse()))
			return it
		}
		return &IterV{str: ex.term(ex.val(fr, x.X), x.X.Type())}
	case *ssa.Select:
		return ex.selectStmt(fr, st, x)
	case *ssa.Slice:
		return ex.slice(fr, st, x)
	case *ssa.SliceToArrayPointer:
		return slArr(ex.term(ex.val(fr, x.X), x.X.Type()))
	case *ssa.TypeAssert:
		return ex.typeAssert(fr, st, x)
	}
	panic(unsupported(fmt.Sprintf("instr %T %s in %s", v, v, fr.fn)))
}

// zeroElems: elements of a fresh backing array of struct type are zero values.
func (ex *Exec) zeroElems(st *State, arr *Term, et types.Type) {
	if !isStructT(et) {
		return
	}
	j := mkVar("ze"+fmt.Sprint(tt.n), SInt)
	g := st.guard
	var walk func(t types.Type, d *Term)
	type leaf struct {
		d, z *Term
	}
	pendg := map[string]leaf{}
	walk = func(t types.Type, d *Term) {
		su := structOf(t)
		for i := 0; i < su.NumFields(); i++ {
			ft := su.Field(i).Type()
			if isStructT(ft) {
				walk(ft, subRef(t, i, d))
				continue
			}
			if isArrayT(ft) {
				continue
			}
			z := ex.term(ex.zero(ft), ft)
			k := fieldKey(t, i)
			if cur, ok := ex.init[k]; ok {
				cur = ex.get(st, k, SArr(SRef, z.sort))
				sel := mk("select", "", z.sort, cur, d)
				// the array's elements were never written before allocation
				ex.assume(st, mkQuant("forall", j, mkEq(sel, z), []*Term{sel}))
			} else {
				pendg[k] = leaf{d, z}
			}
		}
	}
	walk(et, eltRef(arr, j))
	ex.copies = append(ex.copies, func(key string, h0 *Term) *Term {
		l, ok := pendg[key]
		if !ok {
			return nil
		}
		sel := mk("select", "", l.z.sort, h0, l.d)
		return mkImp(g, mkQuant("forall", j, mkEq(sel, l.z), []*Term{sel}))
	})
}

func (ex *Exec) wrap(t *Term, typ types.Type) *Term {
	_, _, bits, signed, ok := intRange(typ)
	if !ok || bits >= 64 {
		return t
	}
	if n, isC := intVal(t); isC {
		bi := big.NewInt(n)
		mod := new(big.Int).Lsh(big.NewInt(1), uint(bits))
		bi.Mod(bi, mod)
		if signed && bi.Bit(bits-1) == 1 {
			bi.Sub(bi, mod)
		}
		return mkBigInt(bi.String())
	}
	lo, hi, _, _, _ := intRange(typ)
	in := mkAnd(mkLe(mkBigInt(lo), t), mkLe(t, mkBigInt(hi)))
	m := new(big.Int).Lsh(big.NewInt(1), uint(bits)).String()
	var w *Term
	if signed {
		h := new(big.Int).Lsh(big.NewInt(1), uint(bits-1)).String()
		w = mkSub(mk("mod", "", SInt, mkAdd(t, mkBigInt(h)), mkBigInt(m)), mkBigInt(h))
	} else {
		w = mk("mod", "", SInt, t, mkBigInt(m))
	}
	return mkIte(in, t, w)
}

func (ex *Exec) binop(st *State, op token.Token, a, b Val, t, rt types.Type, pos token.Pos) Val {
	if sa, ok := a.(*StructV); ok {
		sb, ok2 := b.(*StructV)
		if !ok2 {
			panic(unsupported("struct compare"))
		}
		var cs []*Term
		s := structOf(sa.typ)
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			cs = append(cs, ex.term(ex.binop(st, token.EQL, sa.field(i), sb.field(i), ft, types.Typ[types.Bool], pos), types.Typ[types.Bool]))
		}
		r := mkAnd(cs...)
		if op == token.NEQ {
			return mkNot(r)
		}
		return r
	}
	x, y := ex.term(a, t), ex.term(b, t)
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		if x.sort == SSlice {
			// slices compare only to nil
			if y.op == "sl" && isNull(y.args[0]) {
				r = mkEq(slArr(x), mkNull())
			} else {
				r = mkEq(slArr(y), mkNull())
			}
		} else {
			if x.sort == SRef && y.sort == SRef {
				_, ia := t.Underlying().(*types.Interface)
				_ = ia
			}
			r = mkEq(x, y)
		}
		if op == token.NEQ {
			return mkNot(r)
		}
		return r
	}
	switch x.sort {
	case SInt:
		if y.sort != SInt {
			break
		}
		switch op {
		case token.ADD:
			return ex.wrap(mkAdd(x, y), rt)
		case token.SUB:
			return ex.wrap(mkSub(x, y), rt)
		case token.MUL:
			return ex.wrap(mkMul(x, y), rt)
		case token.QUO:
			if ex.safety {
				ex.oblige(st, "safety", "div-by-zero", mkNot(mkEq(y, mkInt(0))), pos)
			}
			return ex.wrap(mkTDiv(x, y), rt)
		case token.REM:
			if ex.safety {
				ex.oblige(st, "safety", "div-by-zero", mkNot(mkEq(y, mkInt(0))), pos)
			}
			return ex.wrap(mkTRem(x, y), rt)
		case token.LSS:
			return mkLt(x, y)
		case token.LEQ:
			return mkLe(x, y)
		case token.GTR:
			return mkLt(y, x)
		case token.GEQ:
			return mkLe(y, x)
		case token.SHL:
			if n, ok := intVal(y); ok && n < 62 {
				return ex.wrap(mkMul(x, mkInt(1<<uint(n))), rt)
			}
		case token.SHR:
			if n, ok := intVal(y); ok && n < 62 {
				return mk("div", "", SInt, x, mkInt(1<<uint(n)))
			}
		}
		r := mkUF("bits$"+op.String(), SInt, x, y)
		if a, ok := intVal(x); ok {
			if b, ok := intVal(y); ok {
				switch op {
				case token.AND:
					return mkInt(a & b)
				case token.OR:
					return mkInt(a | b)
				}
			}
		}
		return r
	case SStr:
		switch op {
		case token.ADD:
			return strCat(x, y)
		case token.LSS:
			return ex.strLt(x, y)
		case token.GTR:
			return ex.strLt(y, x)
		case token.LEQ:
			return mkNot(ex.strLt(y, x))
		case token.GEQ:
			return mkNot(ex.strLt(x, y))
		}
	case SFlt:
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return mkUF("flt$"+op.String(), SBool, x, y)
		}
		return mkUF("flt$"+op.String(), SFlt, x, y)
	case SBool:
		switch op {
		case token.AND, token.LAND:
			return mkAnd(x, y)
		case token.OR, token.LOR:
			return mkOr(x, y)
		}
	}
	panic(unsupported(fmt.Sprintf("binop %s on %s", op, x.sort)))
}

func (ex *Exec) strLt(x, y *Term) *Term {
	if x.op == "str" && y.op == "str" {
		return mkBool(x.name < y.name)
	}
	if x == y {
		return mkFalse()
	}
	r := mkUF("strlt", SBool, x, y)
	if !r.bound {
		// strict total order on the compared pair
		ex.axiom(mkImp(r, mkNot(mkUF("strlt", SBool, y, x))))
		ex.axiom(mkOr(r, mkUF("strlt", SBool, y, x), mkEq(x, y)))
		ex.axiom(mkImp(mkEq(x, y), mkNot(r)))
	}
	return r
}

// strCat builds a right-nested concatenation with adjacent literals merged.
func strCat(x, y *Term) *Term {
	var parts []*Term
	var flat func(t *Term)
	flat = func(t *Term) {
		if t.op == "uf" && t.name == "cat" {
			flat(t.args[0])
			flat(t.args[1])
			return
		}
		if t.op == "str" {
			if t.name == "" {
				return
			}
			if n := len(parts); n > 0 && parts[n-1].op == "str" {
				parts[n-1] = mkStrLit(parts[n-1].name + t.name)
				return
			}
		}
		parts = append(parts, t)
	}
	flat(x)
	flat(y)
	if len(parts) == 0 {
		return mkStrLit("")
	}
	r := parts[len(parts)-1]
	for i := len(parts) - 2; i >= 0; i-- {
		r = mkUF("cat", SStr, parts[i], r)
	}
	return r
}

func (ex *Exec) strLen(s *Term) *Term {
	if s.op == "str" {
		return mkInt(int64(len(s.name)))
	}
	if s.op == "ite" {
		return mkIte(s.args[0], ex.strLen(s.args[1]), ex.strLen(s.args[2]))
	}
	r := mkUF("strlen", SInt, s)
	if !s.bound {
		ex.axiom(mkAnd(mkLe(mkInt(0), r), mkEq(mkEq(r, mkInt(0)), mkEq(s, mkStrLit("")))))
		if s.op == "uf" && s.name == "cat" {
			ex.axiom(mkEq(r, mkAdd(ex.strLen(s.args[0]), ex.strLen(s.args[1]))))
		}
	}
	return r
}

func (ex *Exec) convert(st *State, v Val, from, to types.Type) Val {
	fs, ts := sortOf(from), sortOf(to)
	switch {
	case fs == SInt && ts == SInt:
		_, _, fb, fsg, _ := intRange(from)
		_, _, tb, tsg, _ := intRange(to)
		t := ex.term(v, from)
		if tb > fb && (tsg || !fsg) || tb == fb && tsg == fsg {
			return t
		}
		if tb == 64 {
			// signed<->unsigned 64: treated as mathematical identity (assumption)
			return t
		}
		return ex.wrap(t, to)
	case fs == SStr && ts == SStr:
		return v
	case fs == SInt && ts == SStr:
		return mkUF("runestr", SStr, ex.term(v, from))
	case fs == SSlice && ts == SStr:
		s := ex.term(v, from)
		et := from.Underlying().(*types.Slice).Elem()
		a := ex.get(st, elemKey(et), SArr(SRef, SArr(SInt, SInt)))
		return ex.bytesStr(s, mkSelect(a, slArr(s)))
	case fs == SStr && ts == SSlice:
		str := ex.term(v, from)
		r := ex.alloc(st, "bytes")
		et := to.Underlying().(*types.Slice).Elem()
		k := elemKey(et)
		cont := mkUF("strbytes", SArr(SInt, SInt), str)
		ex.set(st, k, mkStore(ex.get(st, k, SArr(SRef, SArr(SInt, SInt))), r, cont))
		s := mkSlice(r, mkInt(0), ex.strLen(str))
		ex.axiom(mkEq(mkUF("bytesstr", SStr, cont, mkInt(0), ex.strLen(str)), str))
		return s
	case ts == SFlt || fs == SFlt:
		if fs == ts {
			return v
		}
		return mkUF("conv$"+fs+ts, ts, ex.term(v, from))
	case fs == ts:
		return v
	}
	panic(unsupported("convert " + typeName(from) + " to " + typeName(to)))
}

func (ex *Exec) bytesStr(s, cont *Term) *Term {
	if cont.op == "uf" && cont.name == "strbytes" && slOff(s) == mkInt(0) && slLen(s) == ex.strLen(cont.args[0]) {
		return cont.args[0]
	}
	r := mkUF("bytesstr", SStr, cont, slOff(s), slLen(s))
	return r
}

// ---- interfaces ----

func (ex *Exec) box(st *State, v Val, t types.Type) *Term {
	if sv, ok := v.(*StructV); ok {
		r := ex.alloc(st, "boxed")
		ex.storeStruct(st, t, r, sv)
		b := mkUF("box$"+typeName(t), SRef, r)
		ex.boxTypes[b.name] = t
		ex.boxFacts(b, r)
		return b
	}
	tm := ex.term(v, t)
	b := mkUF("box$"+typeName(t), SRef, tm)
	ex.boxTypes[b.name] = t
	ex.boxFacts(b, tm)
	return b
}

func (ex *Exec) boxFacts(b, tm *Term) {
	if b.bound {
		return
	}
	ex.axiom(mkNot(mk("=", "", SBool, mkNull(), b)))
	ex.axiom(mk("=", "", SBool, mkUF("un"+b.name, tm.sort, b), tm))
	ex.axiom(mkEq(mkUF("dyntype", SInt, b), ex.typeID(b.name)))
}

func (ex *Exec) typeID(boxName string) *Term {
	n, ok := ex.prog.typeIDs[boxName]
	if !ok {
		n = len(ex.prog.typeIDs) + 1
		ex.prog.typeIDs[boxName] = n
	}
	return mkInt(int64(n))
}

func (ex *Exec) unbox(b *Term, t types.Type) *Term {
	name := sanitize("box$" + typeName(t))
	if b.op == "uf" && b.name == name {
		return b.args[0]
	}
	if b.op == "ite" {
		return mkIte(b.args[0], ex.unbox(b.args[1], t), ex.unbox(b.args[2], t))
	}
	return mkUF("un"+name, sortOf(t), b)
}

func (ex *Exec) hasType(b *Term, t types.Type) *Term {
	name := sanitize("box$" + typeName(t))
	if b.op == "uf" && isIfaceBox(b.name) {
		return mkBool(b.name == name)
	}
	if isNull(b) {
		return mkFalse()
	}
	if b.op == "ite" {
		return mkIte(b.args[0], ex.hasType(b.args[1], t), ex.hasType(b.args[2], t))
	}
	return mkAnd(mkNot(mkEq(b, mkNull())), mkEq(mkUF("dyntype", SInt, b), ex.typeID(name)))
}

func (ex *Exec) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert) Val {
	b := ex.term(ex.val(fr, x.X), x.X.Type())
	if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		ok := freshConst("assertok", SBool)
		if x.CommaOk {
			return TupleV{mkIte(ok, b, mkNull()), ok}
		}
		return b
	}
	is := ex.hasType(b, x.AssertedType)
	var v Val = ex.unbox(b, x.AssertedType)
	if isStructT(x.AssertedType) {
		v = ex.lazyStruct(x.AssertedType, v.(*Term), st.heap)
	} else {
		ex.typeFacts(v.(*Term), x.AssertedType)
	}
	if x.CommaOk {
		return TupleV{ex.iteVal(is, v, ex.zero(x.AssertedType), x.AssertedType), is}
	}
	if ex.safety {
		ex.oblige(st, "safety", "type-assertion", is, x.Pos())
	}
	ex.assume(st, is)
	return v
}

// ---- maps ----

func (ex *Exec) mapVS(m *types.Map) string { return sortOf(m.Elem()) }

func (ex *Exec) newMap(st *State, r *Term, m *types.Map) {
	kM, kD, kL := mapKeys(m)
	ks, vs := sortOf(m.Key()), ex.mapVS(m)
	_ = kM
	_ = vs
	ex.set(st, kD, mkStore(ex.get(st, kD, SArr(SRef, SArr(ks, SBool))), r, mkConstArr(SArr(ks, SBool), mkFalse())))
	ex.set(st, kL, mkStore(ex.get(st, kL, SArr(SRef, SInt)), r, mkInt(0)))
}

func (ex *Exec) mapDom(h map[string]*Term, mref *Term, m *types.Map) *Term {
	_, kD, _ := mapKeys(m)
	ks := sortOf(m.Key())
	a := ex.heapGet(h, kD, SArr(SRef, SArr(ks, SBool)))
	ex.axiom(mkEq(mk("select", "", SArr(ks, SBool), ex.init[kD], mkNull()), mkConstArr(SArr(ks, SBool), mkFalse())))
	return mkSelect(a, mref)
}

func (ex *Exec) mapKeyTerm(st map[string]*Term, m *types.Map, k Val) *Term {
	if sv, ok := k.(*StructV); ok {
		// struct keys: UF over field terms
		s := structOf(sv.typ)
		var as []*Term
		for i := 0; i < s.NumFields(); i++ {
			as = append(as, ex.term(sv.field(i), s.Field(i).Type()))
		}
		return mkUF("skey$"+typeName(sv.typ), SRef, as...)
	}
	return ex.term(k, m.Key())
}

func (ex *Exec) mapLookup(h map[string]*Term, mref *Term, m *types.Map, k Val) (Val, *Term) {
	kM, _, _ := mapKeys(m)
	ks, vs := sortOf(m.Key()), ex.mapVS(m)
	kt := ex.mapKeyTerm(h, m, k)
	in := mkSelect(ex.mapDom(h, mref, m), kt)
	a := ex.heapGet(h, kM, SArr(SRef, SArr(ks, vs)))
	raw := mkSelect(mkSelect(a, mref), kt)
	ex.typeFacts(raw, m.Elem())
	if isStructT(m.Elem()) {
		sv := ex.lazyStruct(m.Elem(), raw, h)
		return ex.iteVal(in, sv, ex.zero(m.Elem()), m.Elem()), in
	}
	return ex.wrapClo(mkIte(in, raw, ex.term(ex.zero(m.Elem()), m.Elem()))), in
}

func (ex *Exec) mapLen(h map[string]*Term, mref *Term, m *types.Map) *Term {
	_, _, kL := mapKeys(m)
	a := ex.heapGet(h, kL, SArr(SRef, SInt))
	l := mkSelect(a, mref)
	if !l.bound {
		ks := sortOf(m.Key())
		dom := ex.mapDom(h, mref, m)
		ex.axiom(mkLe(mkInt(0), l))
		ex.axiom(mkEq(mkEq(l, mkInt(0)), mkEq(dom, mkConstArr(SArr(ks, SBool), mkFalse()))))
	}
	return l
}

func (ex *Exec) mapUpdate(st *State, mref *Term, m *types.Map, k, v Val, pos token.Pos) {
	kM, kD, kL := mapKeys(m)
	ks, vs := sortOf(m.Key()), ex.mapVS(m)
	ex.nonNil(st, mref, "map write", pos)
	mref = stripNull(mref)
	kt := ex.mapKeyTerm(st.heap, m, k)
	var vt *Term
	if isStructT(m.Elem()) {
		r := ex.alloc(st, "mapval")
		ex.store(st, r, v, m.Elem(), pos)
		vt = r
	} else {
		vt = ex.term(v, m.Elem())
	}
	dom := ex.mapDom(st.heap, mref, m)
	ln := ex.mapLen(st.heap, mref, m)
	had := mkSelect(dom, kt)
	a := ex.get(st, kM, SArr(SRef, SArr(ks, vs)))
	ex.set(st, kM, mkStore(a, mref, mkStore(mkSelect(a, mref), kt, vt)))
	d := ex.get(st, kD, SArr(SRef, SArr(ks, SBool)))
	ex.set(st, kD, mkStore(d, mref, mkStore(dom, kt, mkTrue())))
	l := ex.get(st, kL, SArr(SRef, SInt))
	ex.set(st, kL, mkStore(l, mref, mkAdd(ln, mkIte(had, mkInt(0), mkInt(1)))))
}

func (ex *Exec) mapDelete(st *State, mref *Term, m *types.Map, k Val) {
	_, kD, kL := mapKeys(m)
	ks := sortOf(m.Key())
	kt := ex.mapKeyTerm(st.heap, m, k)
	dom := ex.mapDom(st.heap, mref, m)
	ln := ex.mapLen(st.heap, mref, m)
	had := mkSelect(dom, kt)
	d := ex.get(st, kD, SArr(SRef, SArr(ks, SBool)))
	ex.set(st, kD, mkStore(d, mref, mkStore(dom, kt, mkFalse())))
	l := ex.get(st, kL, SArr(SRef, SInt))
	ex.set(st, kL, mkStore(l, mref, mkSub(ln, mkIte(had, mkInt(1), mkInt(0)))))
}

func (ex *Exec) next(fr *Frame, st *State, x *ssa.Next) Val {
	it, ok := ex.val(fr, x.Iter).(*IterV)
	if !ok {
		panic(unsupported("next"))
	}
	okc := freshConst("more", SBool)
	tu := x.Type().(*types.Tuple)
	if it.str != nil {
		k, v := freshConst("sidx", SInt), freshConst("rune", SInt)
		_ = tu
		return TupleV{okc, k, v}
	}
	ks := sortOf(it.mt.Key())
	kc := freshConst("mkey", ks)
	vis := ex.get(st, it.key, SArr(ks, SBool))
	dom := ex.mapDom(st.heap, it.m, it.mt)
	ex.assume(st, mkImp(okc, mkAnd(mkSelect(dom, kc), mkNot(mkSelect(vis, kc)))))
	// exhaustion: when no more, every key in the domain was visited
	kv := mkVar("mk"+fmt.Sprint(tt.n), ks)
	ex.assume(st, mkImp(mkNot(okc), mkQuant("forall", kv, mkImp(mkSelect(dom, kv), mkSelect(vis, kv)), []*Term{mkSelect(dom, kv)})))
	ex.set(st, it.key, mkIte(okc, mkStore(vis, kc, mkTrue()), vis))
	var kval Val = kc
	val, _ := ex.mapLookup(st.heap, it.m, it.mt, kval)
	if isStructT(it.mt.Key()) {
		kval = ex.lazyStruct(it.mt.Key(), kc, st.heap)
	}
	ex.typeFacts(kc, it.mt.Key())
	return TupleV{okc, kval, val}
}

// ---- slices ----

func (ex *Exec) slice(fr *Frame, st *State, x *ssa.Slice) Val {
	var lo, hi *Term
	if x.Low != nil {
		lo = ex.term(ex.val(fr, x.Low), x.Low.Type())
	} else {
		lo = mkInt(0)
	}
	if x.High != nil {
		hi = ex.term(ex.val(fr, x.High), x.High.Type())
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		if hi == nil {
			hi = mkInt(at.Len())
		}
		return mkSlice(ex.term(ex.val(fr, x.X), x.X.Type()), lo, mkSub(hi, lo))
	case *types.Slice:
		s := ex.term(ex.val(fr, x.X), x.X.Type())
		if hi == nil {
			hi = slLen(s)
		}
		c := mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, slLen(s)))
		if ex.safety {
			ex.oblige(st, "safety", "slice-bounds", c, x.Pos())
		}
		ex.assume(st, c)
		return mkSlice(slArr(s), mkAdd(slOff(s), lo), mkSub(hi, lo))
	case *types.Basic:
		s := ex.term(ex.val(fr, x.X), x.X.Type())
		if hi == nil {
			hi = ex.strLen(s)
		}
		c := mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, ex.strLen(s)))
		if ex.safety {
			ex.oblige(st, "safety", "slice-bounds", c, x.Pos())
		}
		ex.assume(st, c)
		if s.op == "str" {
			if a, ok := intVal(lo); ok {
				if b, ok := intVal(hi); ok && a >= 0 && b <= int64(len(s.name)) && a <= b {
					return mkStrLit(s.name[a:b])
				}
			}
		}
		if lo == mkInt(0) && hi == ex.strLen(s) {
			return s
		}
		return mkUF("substr", SStr, s, lo, hi)
	}
	panic(unsupported("slice of " + typeName(x.X.Type())))
}

// appendSlices models append(a, b...) with the first appended elements known.
func (ex *Exec) appendSlices(st *State, a, b *Term, et types.Type) *Term {
	if n, ok := intVal(slLen(b)); ok && n == 0 {
		return a
	}
	r := ex.alloc(st, "append")
	la, lb := slLen(a), slLen(b)
	total := mkAdd(la, lb)
	if isStructT(et) || isArrayT(et) {
		ex.copyElems(st, et, r, mkInt(0), a)
		ex.copyElems(st, et, r, la, b)
		return mkSlice(r, mkInt(0), total)
	}
	k := elemKey(et)
	s := sortOf(et)
	mem := ex.get(st, k, SArr(SRef, SArr(SInt, s)))
	ca, cb := mkSelect(mem, slArr(a)), mkSelect(mem, slArr(b))
	nb, okb := intVal(lb)
	// content of the new array
	var cont *Term
	if za, ok := intVal(la); ok && za == 0 && okb {
		cont = freshConst("arr", SArr(SInt, s))
	} else if o, ok := intVal(slOff(a)); ok && o == 0 {
		cont = ca // prefix is the same array content
	} else {
		cont = freshConst("arr", SArr(SInt, s))
		j := mkVar("ja"+fmt.Sprint(tt.n), SInt)
		sel := mk("select", "", s, cont, j)
		ex.assume(st, mkQuant("forall", j, mkImp(mkAnd(mkLe(mkInt(0), j), mkLt(j, la)), mkEq(sel, mkSelect(ca, mkAdd(slOff(a), j)))), []*Term{sel}))
	}
	if okb && nb <= 32 {
		for i := int64(0); i < nb; i++ {
			cont = mkStore(cont, mkAdd(la, mkInt(i)), mkSelect(cb, mkAdd(slOff(b), mkInt(i))))
		}
	} else {
		old := cont
		cont = freshConst("arr", SArr(SInt, s))
		j := mkVar("jb"+fmt.Sprint(tt.n), SInt)
		sel := mk("select", "", s, cont, j)
		ex.assume(st, mkQuant("forall", j, mkAnd(
			mkImp(mkAnd(mkLe(mkInt(0), j), mkLt(j, la)), mkEq(sel, mkSelect(old, j))),
			mkImp(mkAnd(mkLe(la, j), mkLt(j, total)), mkEq(sel, mkSelect(cb, mkAdd(slOff(b), mkSub(j, la)))))), []*Term{sel}))
	}
	ex.set(st, k, mkStore(mem, r, cont))
	return mkSlice(r, mkInt(0), total)
}

// copyElems copies struct elements of slice src to fresh array dst starting at index at.
func (ex *Exec) copyElems(st *State, et types.Type, dst, at, src *Term) {
	if !isStructT(et) {
		return
	}
	if n, ok := intVal(slLen(src)); ok && n <= 8 {
		for i := int64(0); i < n; i++ {
			d := eltRef(dst, mkAdd(at, mkInt(i)))
			ex.subFacts(d)
			sv := ex.lazyStruct(et, eltRef(slArr(src), mkAdd(slOff(src), mkInt(i))), st.heap)
			ex.copyFrom(st, et, d, sv)
		}
		return
	}
	// symbolic length: quantified equality per touched key
	j := mkVar("jc"+fmt.Sprint(tt.n), SInt)
	snap := map[string]*Term{}
	for k, v := range st.heap {
		snap[k] = v
	}
	g := st.guard
	pendg := map[string]func(h *Term) *Term{}
	var walk func(t types.Type, d, s *Term)
	walk = func(t types.Type, d, s *Term) {
		su := structOf(t)
		for i := 0; i < su.NumFields(); i++ {
			ft := su.Field(i).Type()
			if isStructT(ft) {
				walk(ft, subRef(t, i, d), subRef(t, i, s))
				continue
			}
			if isArrayT(ft) {
				continue
			}
			k := fieldKey(t, i)
			f := func(h *Term) *Term {
				sd := mk("select", "", sortOf(ft), h, d)
				ss := mk("select", "", sortOf(ft), h, s)
				return mkImp(g, mkQuant("forall", j, mkImp(mkAnd(mkLe(at, j), mkLt(j, mkAdd(at, slLen(src)))), mkEq(sd, ss)), []*Term{sd}))
			}
			if _, ok := ex.init[k]; ok {
				ex.facts = append(ex.facts, f(ex.heapGet(snap, k, SArr(SRef, sortOf(ft)))))
			} else {
				pendg[k] = f
			}
		}
	}
	walk(et, eltRef(dst, j), eltRef(slArr(src), mkAdd(slOff(src), mkSub(j, at))))
	ex.copies = append(ex.copies, func(key string, h0 *Term) *Term {
		if f, ok := pendg[key]; ok {
			return f(h0)
		}
		return nil
	})
}

// ---- channels and goroutines ----

func (ex *Exec) doGo(fr *Frame, st *State, x *ssa.Go) {
	fn, args := ex.callArgs(fr, &x.Call)
	c, ok := fn.(*CloV)
	if !ok {
		panic(unsupported("go of unknown function"))
	}
	if ex.inLoop(fr, x.Block()) {
		// spawned in a loop: executed at the spawn point (assumption: goroutines are independent),
		// and recorded as not yet joined.
		ex.setGhost(st, "$unjoined", mkTrue())
		sub := st.clone()
		ex.invokeCall(fr, sub, x, &x.Call, fn, args)
		*st = *sub
		return
	}
	st.pend = append(st.pend, pend{clo: c, args: args, guard: mkTrue(), instr: x})
}

func (ex *Exec) setGhost(st *State, name string, v *Term) { ex.set(st, "G:"+name, v) }
func (ex *Exec) getGhost(st *State, name, srt string) *Term {
	return ex.get(st, "G:"+name, srt)
}

func (ex *Exec) inLoop(fr *Frame, b *ssa.BasicBlock) bool {
	for f := fr; f != nil; f = f.parent {
		for _, l := range f.loops.header {
			if f == fr && l.body[b] {
				return true
			}
		}
		break
	}
	return false
}

// joinPending runs all goroutines still pending in st.
func (ex *Exec) joinPending(fr *Frame, st *State) {
	ps := st.pend
	st.pend = nil
	for _, p := range ps {
		if isFalse(p.guard) {
			continue
		}
		run := st.with(p.guard)
		call := &p.instr.(*ssa.Go).Call
		ex.invokeCall(fr, run, p.instr, call, p.clo, p.args)
		if isTrue(p.guard) {
			*st = *run
			continue
		}
		no := st.with(mkNot(p.guard))
		*st = *ex.mergeStates([]*State{run, no})
	}
}

func (ex *Exec) recv(fr *Frame, st *State, ch *Term, et types.Type) Val {
	if ex.isTimerChan(ch) {
		if ch.name == "ctxdone" && len(ch.args) == 1 {
			ex.setGhost(st, "$ctxdone", mkStore(ex.getGhost(st, "$ctxdone", SArr(SRef, SBool)), ch.args[0], mkTrue()))
		}
		return ex.freshVal(st, "tick", et)
	}
	if len(st.pend) > 0 {
		ex.joinPending(fr, st)
		if !isStructT(et) {
			key := "CH:" + typeName(et)
			if a, ok := st.heap[key]; ok {
				return ex.wrapClo(mkSelect(a, ch))
			}
		}
	}
	return ex.freshVal(st, "recv", et)
}

func (ex *Exec) selectStmt(fr *Frame, st *State, x *ssa.Select) Val {
	n := len(x.States)
	idx := freshConst("sel", SInt)
	lo := int64(0)
	if !x.Blocking {
		lo = -1
	}
	ex.assume(st, mkAnd(mkLe(mkInt(lo), idx), mkLt(idx, mkInt(int64(n)))))
	tu := x.Type().(*types.Tuple)
	out := TupleV{idx, freshConst("selok", SBool)}
	var branches []*State
	recvVals := map[int]Val{}
	for i, s := range x.States {
		b := st.with(mkEq(idx, mkInt(int64(i))))
		ch := ex.term(ex.val(fr, s.Chan), s.Chan.Type())
		et := s.Chan.Type().Underlying().(*types.Chan).Elem()
		if s.Dir == types.RecvOnly {
			recvVals[i] = ex.recv(fr, b, ch, et)
		} else if !isStructT(et) {
			key := "CH:" + typeName(et)
			ex.set(b, key, mkStore(ex.get(b, key, SArr(SRef, sortOf(et))), ch, ex.term(ex.val(fr, s.Send), et)))
		}
		branches = append(branches, b)
	}
	if !x.Blocking {
		branches = append(branches, st.with(mkEq(idx, mkInt(-1))))
	}
	*st = *ex.mergeStates(branches)
	k := 2
	for i, s := range x.States {
		if s.Dir == types.RecvOnly {
			out = append(out, recvVals[i])
			k++
		}
	}
	_ = tu
	return out
}

func (ex *Exec) isTimerChan(ch *Term) bool {
	return strings.HasPrefix(ch.name, "timer$") || strings.HasPrefix(ch.name, "ctxdone")
}

// freshVal makes an unconstrained value of type t.
func (ex *Exec) freshVal(st *State, base string, t types.Type) Val {
	if tu, ok := t.(*types.Tuple); ok {
		var r TupleV
		for i := 0; i < tu.Len(); i++ {
			r = append(r, ex.freshVal(st, fmt.Sprintf("%s.%d", base, i), tu.At(i).Type()))
		}
		if len(r) == 1 {
			return r[0]
		}
		return r
	}
	if isStructT(t) {
		r := freshConst(base, SRef)
		// an unknown struct value: reads of an anonymous fresh object
		r.alloc = true
		if st != nil {
			ex.assumeAbout(st, r, mkLe(birth(r), st.now))
		}
		return ex.lazyStruct(t, r, map[string]*Term{})
	}
	c := freshConst(base, sortOf(t))
	ex.typeFacts(c, t)
	if st != nil {
		if c.sort == SRef {
			ex.assumeAbout(st, c, mkLe(birth(c), st.now))
		}
		if c.sort == SSlice {
			ex.assumeAbout(st, c, mkLe(birth(slArr(c)), st.now))
		}
	}
	return c
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (ex *Exec) dbg(f string, a ...any) {
	if debugLoops {
		fmt.Printf(f+"\n", a...)
	}
}

var debugLoops = os.Getenv("GOVER_LOOPS") != ""
