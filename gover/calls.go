package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) callArgs(fr *Frame, call *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range call.Args {
		args = append(args, ex.val(fr, a))
	}
	return ex.val(fr, call.Value), args
}

func ifaceMethodName(call *ssa.CallCommon) []string {
	var out []string
	m := call.Method
	if r := m.Type().(*types.Signature).Recv(); r != nil {
		if n, ok := types.Unalias(r.Type()).(*types.Named); ok {
			out = append(out, typeName(n)+"."+m.Name())
		}
	}
	if n, ok := types.Unalias(call.Value.Type()).(*types.Named); ok {
		nm := typeName(n) + "." + m.Name()
		if len(out) == 0 || out[0] != nm {
			out = append(out, nm)
		}
	}
	return out
}

func (ex *Exec) invokeCall(fr *Frame, st *State, instr ssa.Instruction, call *ssa.CallCommon, fn Val, args []Val) Val {
	pos := call.Pos()
	if call.IsInvoke() {
		recv := ex.term(fn, call.Value.Type())
		names := ifaceMethodName(call)
		all := append([]Val{recv}, args...)
		tys := []types.Type{call.Value.Type()}
		for _, a := range call.Args {
			tys = append(tys, a.Type())
		}
		ex.nonNil(st, recv, "method "+call.Method.Name(), pos)
		for _, n := range names {
			if c := ex.spec.Funcs[n]; c != nil {
				return ex.applyContract(st, c, n, all, tys, call.Signature().Results(), pos)
			}
		}
		if ex.matchAt(names) {
			ex.atSites(st, names, all, tys, pos)
		}
		// devirtualise
		if f := ex.devirt(recv, call.Method); f != nil {
			rv := Val(recv.args[0])
			rt := f.Signature.Recv().Type()
			if isStructT(rt) {
				rv = ex.lazyStruct(rt, recv.args[0], st.heap)
			}
			return ex.callStatic(fr, st, instr, f, append([]Val{rv}, args...), nil, instrName(instr))
		}
		for _, n := range names {
			if in, ok := intrinsics[n]; ok {
				return in(ex, fr, st, &callCtx{name: n, args: all, tys: tys, res: call.Signature().Results(), instr: instr, pos: pos})
			}
		}
		return ex.opaqueCall(st, names[0], all, tys, call.Signature().Results())
	}
	switch f := fn.(type) {
	case *ssa.Builtin:
		return ex.builtin(fr, st, f, call, args)
	case *CloV:
		return ex.callStatic(fr, st, instr, f.fn, args, f.bindings, instrName(instr))
	case *Term:
		if c, ok := ex.closures[f.id]; ok {
			return ex.callStatic(fr, st, instr, c.fn, args, c.bindings, instrName(instr))
		}
		if sq, ok := ex.seqs[f.id]; ok {
			return ex.rangeSeq(fr, st, instr, sq, args, site(instr))
		}
		if f.op == "ite" {
			a, b := st.with(f.args[0]), st.with(mkNot(f.args[0]))
			va := ex.invokeCall(fr, a, instr, call, ex.wrapClo(f.args[1]), args)
			vb := ex.invokeCall(fr, b, instr, call, ex.wrapClo(f.args[2]), args)
			*st = *ex.mergeStates([]*State{a, b})
			return ex.iteVal(f.args[0], va, vb, call.Signature().Results())
		}
		var tys []types.Type
		for _, a := range call.Args {
			tys = append(tys, a.Type())
		}
		ex.nonNil(st, f, "call of nil function", pos)
		// a function held in a package-level variable may have a contract under the variable's name
		if ld, ok := call.Value.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if g, ok := ld.X.(*ssa.Global); ok && g.Pkg != nil {
				n := g.Pkg.Pkg.Path() + "." + g.Name()
				if c := ex.spec.Funcs[n]; c != nil {
					return ex.applyContract(st, c, n, args, tys, call.Signature().Results(), pos)
				}
			}
		}
		return ex.opaqueCall(st, "function value "+call.Value.String()+" of type "+call.Value.Type().String(), args, tys, call.Signature().Results())
	}
	panic(unsupported(fmt.Sprintf("call of %T", fn)))
}

func instrName(i ssa.Instruction) string {
	if v, ok := i.(ssa.Value); ok {
		return v.Name()
	}
	if i == nil {
		return ""
	}
	return fmt.Sprintf("b%d", i.Block().Index)
}

func (ex *Exec) devirt(recv *Term, m *types.Func) *ssa.Function {
	if recv.op != "uf" || !isIfaceBox(recv.name) {
		return nil
	}
	t := ex.boxTypes[recv.name]
	if t == nil {
		return nil
	}
	sel := ex.prog.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return ex.prog.prog.MethodValue(sel)
}

type callCtx struct {
	name  string
	args  []Val
	tys   []types.Type
	res   *types.Tuple
	instr ssa.Instruction
	pos   token.Pos
	fn    *ssa.Function
	path  string
}

func (c *callCtx) t(ex *Exec, i int) *Term { return ex.term(c.args[i], c.tys[i]) }

type intrinsic func(ex *Exec, fr *Frame, st *State, c *callCtx) Val

func origName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

// callStatic calls a known function: contract, intrinsic, inlining, or opaque.
func (ex *Exec) callStatic(fr *Frame, st *State, instr ssa.Instruction, fn *ssa.Function, args []Val, bindings []Val, site string) Val {
	r := ex.callStatic0(fr, st, instr, fn, args, bindings, site)
	if fr == nil || ex.rootC == nil || ex.inContract > 0 {
		return r
	}
	name := ""
	for _, c := range ex.rootC.Clauses {
		if c.Kind != "after" || !c.active(ex.curProp) {
			continue
		}
		if name == "" {
			name = origName(fn)
		}
		if c.Callee != name {
			continue
		}
		// ghost assignment once a call has returned
		env := ex.rootEnv(st)
		var tys []types.Type
		for _, p := range fn.Params {
			tys = append(tys, p.Type())
		}
		for i, a := range c.Args {
			if a != "_" && i < len(args) && i < len(tys) {
				env.names[a] = EV{args[i], tys[i]}
			}
		}
		vals := []Val{r}
		if tv, ok := r.(TupleV); ok {
			vals = tv
		}
		for i, a := range c.Res {
			if a != "_" && i < len(vals) {
				env.names[a] = EV{vals[i], fn.Signature.Results().At(i).Type()}
			}
		}
		g, ok := ex.spec.Ghosts[c.Name]
		if !ok {
			sfail("unknown ghost %s", c.Name)
		}
		ex.inContract++
		v := termOfEV(ex, ex.eval(c.Expr, env))
		ex.inContract--
		ex.get(st, "G:"+c.Name, g.sort())
		ex.set(st, "G:"+c.Name, v)
	}
	return r
}

func (ex *Exec) callStatic0(fr *Frame, st *State, instr ssa.Instruction, fn *ssa.Function, args []Val, bindings []Val, site string) Val {
	name := origName(fn)
	var tys []types.Type
	for _, p := range fn.Params {
		tys = append(tys, p.Type())
	}
	if len(tys) == 0 && fn.Signature != nil {
		if r := fn.Signature.Recv(); r != nil {
			tys = append(tys, r.Type())
		}
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			tys = append(tys, fn.Signature.Params().At(i).Type())
		}
	}
	pos := token.NoPos
	if instr != nil {
		pos = instr.Pos()
	}
	if fr != nil && ex.matchAt([]string{name}) {
		ex.atSites(st, []string{name}, args, tys, pos)
	}
	c := ex.spec.Funcs[name]
	if c != nil && !c.applies(ex.curProp) {
		c = nil
	}
	if c != nil && c.Root && fr != nil {
		// requires are checked here; the body is executed below
		if ex.inContract == 0 {
			env := &Env{ex: ex, names: map[string]EV{}, st: st, old: st, reveal: ex.rootC.revealMap()}
			for i, p := range c.Params {
				if p != "_" && i < len(args) {
					env.names[p] = EV{args[i], tys[i]}
				}
			}
			for _, cl := range c.Clauses {
				if cl.Kind == "requires" && cl.active(ex.curProp) {
					t := ex.evalBool(cl.Expr, env)
					o := ex.oblige(st, "requires", fmt.Sprintf("%s of %s", cl.Label, lastSeg(name)), t, pos)
					o.clause = cl
					ex.assume(st, t)
				}
			}
		}
	} else if c != nil && !c.Inline && !c.Root && (ex.root != fn || fr != nil) {
		return ex.applyContract(st, c, name, args, tys, fn.Signature.Results(), pos)
	}
	cc := &callCtx{name: name, args: args, tys: tys, res: fn.Signature.Results(), instr: instr, pos: pos, fn: fn}
	path := ""
	if fr != nil {
		path = fr.path
	}
	cc.path = path + "/" + shortName(fn) + "." + site
	if in, ok := intrinsics[name]; ok {
		return in(ex, fr, st, cc)
	}
	if in := patternIntrinsic(fn, name); in != nil {
		return in(ex, fr, st, cc)
	}
	inl := ex.prog.inRepo(fn) || inlinePkg(fn)
	if inl {
		for f := fn; f != nil; f = f.Parent() {
			if f.Pkg != nil {
				ex.prog.build(f.Pkg)
			}
		}
		if o := fn.Origin(); o != nil && o.Pkg != nil {
			ex.prog.build(o.Pkg)
		}
	}
	if inl && len(fn.Blocks) > 0 {
		n := 0
		for f := fr; f != nil; f = f.parent {
			if f.fn == fn {
				n++
			}
		}
		if n >= 1 {
			panic(unsupported("recursion without contract: " + name))
		}
		if ex.inContract == 0 {
			ex.inlined[name]++
		}
		return ex.callFunc(fr, fn, args, bindings, st, cc.path)
	}
	if isPurePkg(fn) {
		if r := ex.pureCall(st, cc); r != nil {
			return r
		}
	}
	return ex.opaqueCall(st, name, args, tys, fn.Signature.Results())
}

func shortName(fn *ssa.Function) string {
	s := fn.String()
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return s
}

// inlinePkg: dependency packages whose function bodies are executed rather than assumed.
func inlinePkg(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	if pk == nil {
		return fn.Synthetic != ""
	}
	p := pk.Path()
	switch p {
	case "slices", "maps", "cmp", "k8s.io/utils/ptr", "k8s.io/utils/pointer":
		return true
	}
	if strings.HasPrefix(p, "k8s.io/client-go/applyconfigurations/") {
		return true
	}
	if p == "k8s.io/apimachinery/pkg/apis/meta/v1" || p == "k8s.io/apimachinery/pkg/types" || p == "k8s.io/apimachinery/pkg/util/intstr" {
		return true
	}
	if p == "k8s.io/apimachinery/pkg/api/meta" && (strings.HasPrefix(fn.Name(), "SetStatusCondition") || strings.Contains(fn.Name(), "StatusCondition")) {
		return true
	}
	if p == "sigs.k8s.io/controller-runtime/pkg/controller/controllerutil" {
		switch fn.Name() {
		case "ContainsFinalizer", "AddFinalizer", "RemoveFinalizer":
			return true
		}
	}
	return fn.Synthetic != "" && fn.Blocks != nil && fn.Object() != nil
}

func isPurePkg(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	if pk == nil {
		return false
	}
	switch pk.Path() {
	case "strings", "strconv", "path", "path/filepath", "unicode", "unicode/utf8", "math", "bytes", "encoding/hex":
		return true
	}
	return false
}

// pureCall models a deterministic library function on scalar arguments by an uninterpreted function.
func (ex *Exec) pureCall(st *State, c *callCtx) Val {
	var as []*Term
	for i, a := range c.args {
		t, ok := a.(*Term)
		if !ok {
			return nil
		}
		switch t.sort {
		case SInt, SStr, SBool, SFlt:
		default:
			return nil
		}
		_ = i
		as = append(as, t)
	}
	mkr := func(i int, t types.Type) Val {
		s := sortOf(t)
		if s == SSlice || isStructT(t) {
			return nil
		}
		r := mkUF(fmt.Sprintf("fn$%s$%d", c.name, i), s, as...)
		ex.typeFacts(r, t)
		return r
	}
	ex.nondet["pure:"+c.name]++
	if c.res.Len() == 1 {
		return mkr(0, c.res.At(0).Type())
	}
	var out TupleV
	for i := 0; i < c.res.Len(); i++ {
		v := mkr(i, c.res.At(i).Type())
		if v == nil {
			return nil
		}
		out = append(out, v)
	}
	return out
}

// opaqueCall: arbitrary result, no effect on tracked state except through pointers to local cells.
func (ex *Exec) opaqueCall(st *State, name string, args []Val, tys []types.Type, res *types.Tuple) Val {
	if ex.inContract == 0 {
		ex.opaque[name]++
	}
	if res.Len() > 0 {
		ex.tick(st)
	}
	if !readsOnly(name) {
		for i, a := range args {
			if t, ok := a.(*Term); ok && i < len(tys) {
				ex.havocArg(st, t, tys[i])
			}
		}
	}
	r := ex.freshVal(st, "ret."+lastSeg(name), res)
	if tv, ok := r.(TupleV); ok && len(tv) == 0 {
		return tv
	}
	return r
}

// readsOnly: external functions assumed not to write to the objects they are given.
func readsOnly(name string) bool {
	for _, p := range []string{"k8s.io/client-go/tools/record.", "github.com/go-logr/logr", "github.com/prometheus/", "context.", "fmt.", "errors.",
		"k8s.io/apimachinery/third_party/forked/golang/reflect.", "k8s.io/apimachinery/pkg/api/errors.", "io.Closer.Close", "(time.", "time.", "google.golang.org/protobuf/types/known/durationpb.",
		"reflect.", "log/slog", "sigs.k8s.io/controller-runtime/pkg/log"} {
		if strings.HasPrefix(strings.TrimLeft(name, "(*"), strings.TrimLeft(p, "(*")) {
			return true
		}
	}
	return false
}

// havocArg: an external function without a contract may write to the objects its arguments point to.
func (ex *Exec) havocArg(st *State, t *Term, ty types.Type) {
	t = stripNull(t)
	if t.op == "ite" {
		a, b := st.with(t.args[0]), st.with(mkNot(t.args[0]))
		ex.havocArg(a, t.args[1], ty)
		ex.havocArg(b, t.args[2], ty)
		*st = *ex.mergeStates([]*State{a, b})
		return
	}
	if types.IsInterface(ty) {
		if t.op == "uf" && isIfaceBox(t.name) {
			ex.havocBoxed(st, t)
		}
		return
	}
	if p, ok := ty.Underlying().(*types.Pointer); ok && isStructT(p.Elem()) {
		ex.havocObj(st, p.Elem(), t)
	}
}

func lastSeg(n string) string {
	if i := strings.LastIndexAny(n, "./)"); i >= 0 {
		n = n[i+1:]
	}
	return n
}

// ---- contracts at calls ----

// applies: whether call sites use the contract when prop is decided.
func (c *FuncContract) applies(prop string) bool {
	return !c.Dropped && (len(c.Props) == 0 || prop == "" || c.Props[prop])
}

func (c *Clause) active(prop string) bool {
	return c.Tags == nil || prop == "" || c.Tags[prop]
}

func (ex *Exec) matchAt(names []string) bool {
	if ex.rootC == nil || ex.inContract > 0 {
		return false
	}
	for _, c := range ex.rootC.Clauses {
		if c.Kind == "at" || c.Kind == "on" {
			for _, n := range names {
				if c.Callee == n {
					return true
				}
			}
		}
	}
	return false
}

func (ex *Exec) rootEnv(st *State) *Env {
	names := map[string]EV{}
	for k, v := range ex.entryEnv {
		names[k] = EV{v, ex.entryTy[k]}
	}
	return &Env{ex: ex, names: names, st: st, old: ex.entry, reveal: ex.rootC.revealMap()}
}

func (ex *Exec) atSites(st *State, names []string, args []Val, tys []types.Type, pos token.Pos) {
	for _, c := range ex.rootC.Clauses {
		if c.Kind != "at" && c.Kind != "on" || !c.active(ex.curProp) {
			continue
		}
		hit := false
		for _, n := range names {
			hit = hit || c.Callee == n
		}
		if !hit {
			continue
		}
		env := ex.rootEnv(st)
		for i, a := range c.Args {
			if a != "_" && i < len(args) {
				env.names[a] = EV{args[i], tys[i]}
			}
		}
		if c.Kind == "on" { // ghost assignment at a call
			g, ok := ex.spec.Ghosts[c.Name]
			if !ok {
				sfail("unknown ghost %s", c.Name)
			}
			ex.inContract++
			v := termOfEV(ex, ex.eval(c.Expr, env))
			ex.inContract--
			ex.get(st, "G:"+c.Name, g.sort())
			ex.set(st, "G:"+c.Name, v)
			continue
		}
		t := ex.evalBool(c.Expr, env)
		o := ex.oblige(st, "at", c.Label+" at "+lastSeg(c.Callee), t, pos)
		o.clause = c
		if ex.covers && ex.dry == 0 {
			ex.obls = append(ex.obls, &Obligation{Name: "call of " + lastSeg(c.Callee) + " is reachable", Kind: "cover", guard: st.guard, cond: mkFalse(), nfacts: len(ex.facts), Pos: ex.prog.pos(pos)})
		}
		if ex.dry == 0 {
			ex.atHits[c.Line]++
		}
	}
}

func (ex *Exec) applyContract(st *State, c *FuncContract, name string, args []Val, tys []types.Type, res *types.Tuple, pos token.Pos) Val {
	if ex.inContract == 0 {
		if c.Extern {
			ex.externs[name]++
		} else {
			ex.used[name]++
		}
		if ex.matchAt([]string{name}) && c.Extern {
			ex.atSites(st, []string{name}, args, tys, pos)
		}
	}
	pre := st.clone()
	env := &Env{ex: ex, names: map[string]EV{}, st: pre, old: pre, reveal: ex.rootC.revealMap()}
	for i, p := range c.Params {
		if p != "_" && i < len(args) {
			env.names[p] = EV{args[i], tys[i]}
		}
	}
	for _, cl := range c.Clauses {
		if cl.Kind == "requires" && cl.active(ex.curProp) {
			t := ex.evalBool(cl.Expr, env)
			if ex.inContract == 0 {
				o := ex.oblige(st, "requires", fmt.Sprintf("%s of %s", cl.Label, lastSeg(name)), t, pos)
				o.clause = cl
				ex.assume(st, t)
			}
		}
	}
	// results
	var rv Val
	var vals []Val
	if c.Pure && res.Len() == 1 && len(c.Clauses) > 0 {
		// pure functions: result defined by an equation ensures r == e when present
		for _, cl := range c.Clauses {
			if cl.Kind == "ensures" && cl.active(ex.curProp) {
				if b, ok := cl.Expr.(*ast.BinaryExpr); ok && b.Op == token.EQL {
					if id, ok := b.X.(*ast.Ident); ok && len(c.Results) == 1 && id.Name == c.Results[0] {
						ex.inContract++
						v := ex.eval(b.Y, env)
						ex.inContract--
						return v.v
					}
				}
			}
		}
	}
	ex.tick(st)
	rv = ex.freshVal(st, "ret."+lastSeg(name), res)
	switch x := rv.(type) {
	case TupleV:
		vals = x
	default:
		vals = []Val{x}
	}
	for i, r := range c.Results {
		if r != "_" && i < len(vals) {
			env.names[r] = EV{vals[i], res.At(i).Type()}
		}
	}
	// effects
	for _, cl := range c.Clauses {
		if cl.Kind == "modifies" || cl.Kind == "havoc" {
			for _, m := range cl.Mods {
				ex.havocLoc(st, m, env)
			}
		}
	}
	for _, cl := range c.Clauses {
		if cl.Kind == "set" {
			g, ok := ex.spec.Ghosts[cl.Name]
			if !ok {
				sfail("unknown ghost %s", cl.Name)
			}
			ex.inContract++
			e2 := *env
			e2.st = pre
			e2.post = st
			v := ex.eval(cl.Expr, &e2)
			ex.inContract--
			ex.get(st, "G:"+cl.Name, g.sort())
			ex.set(st, "G:"+cl.Name, termOfEV(ex, v))
		}
	}
	post := *env
	post.st = st
	var before *Obligation
	if ex.covers && ex.inContract == 0 && ex.dry == 0 {
		before = &Obligation{Name: "before contract of " + lastSeg(name), Kind: "cover?", guard: st.guard, cond: mkFalse(), nfacts: len(ex.facts)}
	}
	for _, cl := range c.Clauses {
		if (cl.Kind == "ensures" || cl.Kind == "assume") && cl.active(ex.curProp) {
			t := ex.evalBool(cl.Expr, &post)
			ex.assume(st, t)
			if cl.Kind == "ensures" {
				ex.defineLogic(t, vals)
			}
		}
	}
	if before != nil {
		ex.obls = append(ex.obls, &Obligation{Name: "contract of " + lastSeg(name) + " is consistent", Kind: "cover", guard: st.guard, cond: mkFalse(), nfacts: len(ex.facts), Pos: ex.prog.pos(pos), before: before})
	}
	if len(vals) == 0 {
		return TupleV{}
	}
	return rv
}

// defineLogic: a conjunct f(result) == value of a contract defines f at the new result.
func (ex *Exec) defineLogic(t *Term, vals []Val) {
	if t.op == "and" {
		for _, a := range t.args {
			ex.defineLogic(a, vals)
		}
		return
	}
	if t.op != "=" {
		return
	}
	for i := 0; i < 2; i++ {
		u := t.args[i]
		if u.op == "uf" && strings.HasPrefix(u.name, "L$") && len(u.args) == 1 && !t.args[1-i].bound {
			for _, v := range vals {
				if v == Val(u.args[0]) && u.args[0].op == "const" {
					ex.logicDefs[u.id] = t.args[1-i]
					return
				}
			}
		}
	}
}

// tick moves the allocation clock forward: results of calls may be new objects.
func (ex *Exec) tick(st *State) {
	now := freshConst("now", SInt)
	ex.assume(st, mkLe(st.now, now))
	st.now = now
}

func hasMods(c *FuncContract) bool {
	for _, cl := range c.Clauses {
		if cl.Kind == "modifies" {
			return true
		}
	}
	return false
}

// havocLoc forgets the location(s) denoted by a modifies item.
func (ex *Exec) havocLoc(st *State, m ast.Expr, env *Env) {
	ex.inContract++
	defer func() { ex.inContract-- }()
	e2 := *env
	e2.st = env.old
	env = &e2
	switch x := m.(type) {
	case *ast.Ident:
		if g, ok := ex.spec.Ghosts[x.Name]; ok {
			ex.get(st, "G:"+x.Name, g.sort())
			ex.set(st, "G:"+x.Name, freshConst("g."+x.Name, g.sort()))
			return
		}
		v := ex.eval(x, env)
		if isIface(v.t) {
			ex.havocBoxed(st, termOfEV(ex, v))
			return
		}
	case *ast.StarExpr:
		v := ex.eval(x.X, env)
		if isIface(v.t) {
			ex.havocBoxed(st, termOfEV(ex, v))
			return
		}
		if pv, ok := v.v.(*PtrV); ok {
			ex.store(st, pv, ex.freshVal(st, "mod", pv.elem), pv.elem, token.NoPos)
			return
		}
		ex.havocObj(st, derefT(v.t), termOfEV(ex, v))
		return
	case *ast.SelectorExpr:
		b := ex.eval(x.X, env)
		stT := derefT(b.t)
		for i := 0; i < structOf(stT).NumFields(); i++ {
			f := structOf(stT).Field(i)
			if f.Name() != x.Sel.Name {
				continue
			}
			base := b.v
			if sv, ok := base.(*StructV); ok {
				base = sv.ref
			}
			bt := base.(*Term)
			if isStructT(f.Type()) {
				ex.havocObj(st, f.Type(), subRef(stT, i, bt))
				return
			}
			k := fieldKey(stT, i)
			ex.keyTypes[k] = f.Type()
			nv := ex.freshVal(st, "mod."+f.Name(), f.Type()).(*Term)
			ex.set(st, k, mkStore(ex.get(st, k, SArr(SRef, nv.sort)), bt, nv))
			return
		}
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "elems" {
			v := ex.eval(x.Args[0], env)
			et := v.t.Underlying().(*types.Slice).Elem()
			s := termOfEV(ex, v)
			if isStructT(et) {
				sfail("elems() of struct slice")
			}
			k := elemKey(et)
			a := ex.get(st, k, SArr(SRef, SArr(SInt, sortOf(et))))
			ex.set(st, k, mkStore(a, slArr(s), freshConst("mod.elems", SArr(SInt, sortOf(et)))))
			return
		}
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "each" {
			// each(slice).field : field of every pointed-to element, forgotten for all objects
			sfail("each")
		}
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "field" {
			// field("*pkg.T", "name"): that field of every object
			s, _ := strconv.Unquote(x.Args[0].(*ast.BasicLit).Value)
			f, _ := strconv.Unquote(x.Args[1].(*ast.BasicLit).Value)
			t, err := ex.spec.parseType(s)
			if err != nil {
				sfail("%v", err)
			}
			stT := derefT(t)
			for i := 0; i < structOf(stT).NumFields(); i++ {
				if structOf(stT).Field(i).Name() == f {
					k := fieldKey(stT, i)
					srt := SArr(SRef, sortOf(structOf(stT).Field(i).Type()))
					ex.get(st, k, srt)
					h := freshConst("hv:"+k, srt)
					ex.set(st, k, h)
					return
				}
			}
		}
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "mapof" {
			v := ex.eval(x.Args[0], env)
			ex.havocMap(st, termOfEV(ex, v), v.t.Underlying().(*types.Map))
			return
		}
	}
	sfail("bad modifies item %s", exprStr(m))
}

func (ex *Exec) havocMap(st *State, r *Term, m *types.Map) {
	kM, kD, kL := mapKeys(m)
	ks, vs := sortOf(m.Key()), ex.mapVS(m)
	ex.set(st, kM, mkStore(ex.get(st, kM, SArr(SRef, SArr(ks, vs))), r, freshConst("mod.map", SArr(ks, vs))))
	ex.set(st, kD, mkStore(ex.get(st, kD, SArr(SRef, SArr(ks, SBool))), r, freshConst("mod.dom", SArr(ks, SBool))))
	ln := freshConst("mod.len", SInt)
	ex.assume(st, mkLe(mkInt(0), ln))
	ex.set(st, kL, mkStore(ex.get(st, kL, SArr(SRef, SInt)), r, ln))
}

func (ex *Exec) havocBoxed(st *State, b *Term) {
	b = stripNull(b) // nothing is written through nil
	if b.op == "ite" {
		x, y := st.with(b.args[0]), st.with(mkNot(b.args[0]))
		ex.havocBoxed(x, b.args[1])
		ex.havocBoxed(y, b.args[2])
		*st = *ex.mergeStates([]*State{x, y})
		return
	}
	if b.op == "uf" && isIfaceBox(b.name) {
		t := ex.boxTypes[b.name]
		if p, ok := t.Underlying().(*types.Pointer); ok && isStructT(p.Elem()) {
			ex.havocObj(st, p.Elem(), b.args[0])
		}
		return
	}
	// unknown dynamic type: nothing known about the object is tracked under its type here
	ex.warn["havoc of unknown object"] = true
}

func (ex *Exec) havocObj(st *State, t types.Type, r *Term) {
	r = stripNull(r)
	if !isStructT(t) {
		k := cellKey(t)
		v := ex.freshVal(st, "hobj", t)
		if tv, ok := v.(*Term); ok {
			ex.set(st, k, mkStore(ex.get(st, k, SArr(SRef, tv.sort)), r, tv))
		}
		return
	}
	su := structOf(t)
	for i := 0; i < su.NumFields(); i++ {
		f := su.Field(i)
		if f.Name() == "_" || isArrayT(f.Type()) {
			continue
		}
		if isStructT(f.Type()) {
			ex.havocObj(st, f.Type(), subRef(t, i, r))
			continue
		}
		k := fieldKey(t, i)
		s := sortOf(f.Type())
		c := freshConst("h."+f.Name(), s)
		ex.typeFacts(c, f.Type())
		switch s {
		case SRef:
			ex.assume(st, mkOr(mkEq(c, mkNull()), mkLe(birth(c), mkAdd(st.now, mkInt(1)))))
		case SSlice:
			ex.assume(st, mkOr(mkEq(slArr(c), mkNull()), mkLe(birth(slArr(c)), mkAdd(st.now, mkInt(1)))))
		}
		ex.set(st, k, mkStore(ex.get(st, k, SArr(SRef, s)), r, c))
	}
}

func site(i ssa.Instruction) string { return instrName(i) }

// rangeSeq: range over a finite sequence given as a slice, calling yield until it returns false.
func (ex *Exec) rangeSeq(fr *Frame, st *State, instr ssa.Instruction, sq seqV, args []Val, site string) Val {
	y, ok := args[0].(*CloV)
	if !ok {
		panic(unsupported("range over func with unknown body"))
	}
	key := "G:$seq." + fr.path + "." + site
	ex.get(st, key, SInt)
	ex.set(st, key, mkInt(0))
	vl := &vloop{id: fr.path + "#seq." + site, fr: fr, pos: instr.Pos(), fnName: fr.fn.String()}
	vl.extra = []lvar{{name: "seq", typ: intT, get: func(s *State, _ []Val) Val { return ex.get(s, key, SInt) }}}
	n := slLen(sq.sl)
	vl.extraLim = n
	step := func(s *State) (*State, *State) { // continue, stop
		i := ex.get(s, key, SInt)
		p := ex.indexAddr(s, sq.sl, types.NewSlice(sq.et), i, token.NoPos)
		v := ex.load(s, p, sq.et, token.NoPos)
		r := ex.callStatic(fr, s, instr, y.fn, []Val{v}, y.bindings, site)
		rt := ex.term(r, boolT)
		c, x := s.with(rt), s.with(mkNot(rt))
		ex.set(c, key, mkAdd(i, mkInt(1)))
		return c, x
	}
	body := func(s *State) []*State {
		s2 := s.with(mkLt(ex.get(s, key, SInt), n))
		c, _ := step(s2)
		if isFalse(c.guard) {
			return nil
		}
		return []*State{c}
	}
	ex.loopProtocol(vl, st, body)
	i := ex.get(st, key, SInt)
	ex.addIdx(i)
	ex.addIdx(mkAdd(i, mkInt(1)))
	done := st.with(mkLe(n, i))
	more := st.with(mkLt(i, n))
	c, x := step(more)
	if !isFalse(c.guard) {
		ex.checkInv(vl, c, nil, "inv-step")
	}
	var outs []*State
	for _, s := range []*State{done, x} {
		if !isFalse(s.guard) {
			outs = append(outs, s)
		}
	}
	*st = *ex.mergeStates(outs)
	return TupleV{}
}
