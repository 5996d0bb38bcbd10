package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics map[string]intrinsic

func noop(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
	r := ex.freshVal(st, "ret."+lastSeg(c.name), c.res)
	return r
}

func (ex *Exec) itoa(t *Term) *Term {
	if n, ok := intVal(t); ok {
		return mkStrLit(strconv.FormatInt(n, 10))
	}
	r := mkUF("itoa", SStr, t)
	if !t.bound {
		ex.axiom(mkEq(mkUF("atoi", SInt, r), t))
		ex.axiom(mkUF("isnum", SBool, r))
	}
	return r
}

func (ex *Exec) strPred(kind string, s, p *Term) *Term {
	if s.op == "str" && p.op == "str" {
		switch kind {
		case "strprefix":
			return mkBool(strings.HasPrefix(s.name, p.name))
		case "strsuffix":
			return mkBool(strings.HasSuffix(s.name, p.name))
		case "strcontains":
			return mkBool(strings.Contains(s.name, p.name))
		}
	}
	if s.op == "ite" && !s.bound {
		return mkIte(s.args[0], ex.strPred(kind, s.args[1], p), ex.strPred(kind, s.args[2], p))
	}
	if p.op == "str" && p.name == "" {
		return mkTrue()
	}
	if kind == "strprefix" && s.op == "uf" && s.name == "cat" {
		if s.args[0] == p {
			return mkTrue()
		}
		if s.args[0].op == "str" && p.op == "str" && len(s.args[0].name) >= len(p.name) {
			return mkBool(strings.HasPrefix(s.args[0].name, p.name))
		}
	}
	if kind == "strsuffix" && s.op == "uf" && s.name == "cat" && p.op == "str" {
		last := s
		for last.op == "uf" && last.name == "cat" {
			last = last.args[1]
		}
		if last.op == "str" && len(last.name) >= len(p.name) {
			return mkBool(strings.HasSuffix(last.name, p.name))
		}
	}
	if s == p {
		return mkTrue()
	}
	return mkUF(kind, SBool, s, p)
}

// sprintf normalises a format call to concatenation.
func (ex *Exec) sprintf(st *State, format *Term, va *Term) *Term {
	if format.op == "str" {
		n, ok := intVal(slLen(va))
		if ok {
			mem := ex.get(st, elemKey(anyT), SArr(SRef, SArr(SInt, SRef)))
			arr := mkSelect(mem, slArr(va))
			var args []*Term
			for i := int64(0); i < n; i++ {
				args = append(args, mkSelect(arr, mkAdd(slOff(va), mkInt(i))))
			}
			f := format.name
			res := mkStrLit("")
			k := 0
			okAll := true
			for i := 0; i < len(f); i++ {
				if f[i] != '%' {
					j := i
					for j < len(f) && f[j] != '%' {
						j++
					}
					res = strCat(res, mkStrLit(f[i:j]))
					i = j - 1
					continue
				}
				if i+1 < len(f) && f[i+1] == '%' {
					res = strCat(res, mkStrLit("%"))
					i++
					continue
				}
				j := i + 1
				for j < len(f) && strings.IndexByte("+-# 0123456789.[]*", f[j]) >= 0 {
					j++
				}
				if j >= len(f) || k >= len(args) {
					okAll = false
					break
				}
				verb := f[i+1 : j+1]
				res = strCat(res, ex.fmtArg(verb, args[k]))
				k++
				i = j
			}
			if okAll && k == len(args) {
				return res
			}
		}
	}
	r := freshConst("sprintf", SStr)
	return r
}

var anyT = types.Universe.Lookup("any").Type().Underlying()

func (ex *Exec) fmtArg(verb string, b *Term) *Term {
	if b.op == "ite" {
		return mkIte(b.args[0], ex.fmtArg(verb, b.args[1]), ex.fmtArg(verb, b.args[2]))
	}
	if b.op == "uf" && isIfaceBox(b.name) {
		t := ex.boxTypes[b.name]
		if t != nil {
			ms := ex.prog.prog.MethodSets.MethodSet(t)
			if ms.Lookup(nil, "String") == nil && ms.Lookup(nil, "Error") == nil {
				x := b.args[0]
				if x.sort == SStr && (verb == "s" || verb == "v") {
					return x
				}
				if x.sort == SInt && (verb == "d" || verb == "v") {
					return ex.itoa(x)
				}
			}
		}
	}
	return mkUF("fmt$"+verb, SStr, b)
}

func (ex *Exec) newErr(st *State) *Term {
	return ex.alloc(st, "err")
}

func errIs(ex *Exec, err, target *Term) *Term {
	if isNull(err) {
		return mkEq(err, target)
	}
	if err == target {
		return mkTrue()
	}
	if err.op == "ite" {
		return mkIte(err.args[0], errIs(ex, err.args[1], target), errIs(ex, err.args[2], target))
	}
	if ws, ok := ex.wraps[err.id]; ok {
		var r []*Term
		r = append(r, mkEq(err, target))
		for _, w := range ws {
			r = append(r, mkAnd(mkNot(mkEq(w, mkNull())), errIs(ex, w, target)))
		}
		return mkOr(r...)
	}
	if err.alloc && !strings.HasPrefix(err.name, "gval:") {
		return mkEq(err, target)
	}
	u := mkUF("errors.Is", SBool, err, target)
	return mkOr(mkEq(err, target), mkAnd(mkNot(mkEq(err, mkNull())), u))
}

// errPred: class predicates on errors (apierrors.IsNotFound ...) that see through wrapping.
func errPred(ex *Exec, name string, err *Term) *Term {
	if isNull(err) {
		return mkFalse()
	}
	if err.op == "ite" {
		return mkIte(err.args[0], errPred(ex, name, err.args[1]), errPred(ex, name, err.args[2]))
	}
	if ws, ok := ex.wraps[err.id]; ok {
		var r []*Term
		for _, w := range ws {
			r = append(r, errPred(ex, name, w))
		}
		return mkOr(r...)
	}
	if err.alloc && strings.HasPrefix(err.name, "new$") {
		return mkFalse()
	}
	return mkAnd(mkNot(mkEq(err, mkNull())), mkUF("errclass$"+name, SBool, err))
}

func timeBin(op string) intrinsic {
	return func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		a, b := c.t(ex, 0), c.t(ex, 1)
		switch op {
		case "before":
			return mkLt(a, b)
		case "after":
			return mkLt(b, a)
		case "equal":
			return mkEq(a, b)
		case "sub":
			return mkSub(a, b)
		case "add":
			return mkAdd(a, b)
		}
		return nil
	}
}

func init() {
	I := map[string]intrinsic{}
	intrinsics = I
	I["fmt.Sprintf"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		return ex.sprintf(st, c.t(ex, 0), c.t(ex, 1))
	}
	I["fmt.Errorf"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		r := ex.newErr(st)
		f := c.t(ex, 0)
		va := c.t(ex, 1)
		var ws []*Term
		if n, ok := intVal(slLen(va)); ok && f.op == "str" {
			mem := ex.get(st, elemKey(anyT), SArr(SRef, SArr(SInt, SRef)))
			arr := mkSelect(mem, slArr(va))
			k := int64(0)
			for i := 0; i < len(f.name); i++ {
				if f.name[i] == '%' {
					j := i + 1
					for j < len(f.name) && strings.IndexByte("+-# 0123456789.", f.name[j]) >= 0 {
						j++
					}
					if j < len(f.name) && f.name[j] == '%' {
						i = j
						continue
					}
					if j < len(f.name) && f.name[j] == 'w' && k < n {
						ws = append(ws, mkSelect(arr, mkAdd(slOff(va), mkInt(k))))
					}
					k++
					i = j
				}
			}
		}
		if len(ws) > 0 {
			ex.wraps[r.id] = ws
		}
		return r
	}
	I["errors.New"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val { return ex.newErr(st) }
	I["errors.Is"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val { return errIs(ex, c.t(ex, 0), c.t(ex, 1)) }
	I["errors.Join"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		s := c.t(ex, 0)
		n, ok := intVal(slLen(s))
		if !ok {
			return ex.freshVal(st, "joined", c.res.At(0).Type())
		}
		mem := ex.get(st, elemKey(c.res.At(0).Type()), SArr(SRef, SArr(SInt, SRef)))
		arr := mkSelect(mem, slArr(s))
		anyErr := mkFalse()
		var ws []*Term
		for i := int64(0); i < n; i++ {
			e := mkSelect(arr, mkAdd(slOff(s), mkInt(i)))
			ws = append(ws, e)
			anyErr = mkOr(anyErr, mkNot(mkEq(e, mkNull())))
		}
		r := ex.newErr(st)
		ex.wraps[r.id] = ws
		return mkIte(anyErr, r, mkNull())
	}
	for _, n := range []string{"IsNotFound", "IsConflict", "IsAlreadyExists", "IsInvalid", "IsTooManyRequests"} {
		I["k8s.io/apimachinery/pkg/api/errors."+n] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val { return errPred(ex, n, c.t(ex, 0)) }
	}
	I["sigs.k8s.io/controller-runtime/pkg/client.IgnoreNotFound"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		e := c.t(ex, 0)
		return mkIte(errPred(ex, "IsNotFound", e), mkNull(), e)
	}
	I["(error).Error"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val { return mkUF("errstr", SStr, c.t(ex, 0)) }
	I["error.Error"] = I["(error).Error"]

	// time
	I["time.Sleep"] = noop
	I["time.Now"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		t := freshConst("timenow", SInt)
		key := "G:$clock"
		prev := ex.get(st, key, SInt)
		ex.assume(st, mkAnd(mkLe(prev, t), mkLt(mkInt(0), t)))
		ex.set(st, key, t)
		return t
	}
	I["time.Since"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		n := I["time.Now"](ex, fr, st, c).(*Term)
		return mkSub(n, c.t(ex, 0))
	}
	I["time.After"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val { return freshConst("timer$", SRef) }
	I["(time.Time).Before"] = timeBin("before")
	I["(time.Time).After"] = timeBin("after")
	I["(time.Time).Equal"] = timeBin("equal")
	I["(time.Time).Sub"] = timeBin("sub")
	I["(time.Time).Add"] = timeBin("add")
	ident := func(ex *Exec, fr *Frame, st *State, c *callCtx) Val { return c.args[0] }
	I["(time.Time).UTC"] = ident
	I["(time.Time).Local"] = ident
	I["(time.Time).In"] = ident
	I["(time.Time).IsZero"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val { return mkEq(c.t(ex, 0), mkInt(0)) }
	I["(time.Time).Format"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		r := mkUF("timefmt", SStr, c.t(ex, 0), c.t(ex, 1))
		return r
	}
	I["time.Parse"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		v := mkUF("timeparse", SInt, c.t(ex, 0), c.t(ex, 1))
		e := mkUF("timeparseerr", SRef, c.t(ex, 0), c.t(ex, 1))
		return TupleV{v, e}
	}
	I["(time.Duration).Seconds"] = noop
	I["k8s.io/apimachinery/pkg/apis/meta/v1.Now"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		n := I["time.Now"](ex, fr, st, c)
		t := c.res.At(0).Type()
		return &StructV{typ: t, field: func(i int) Val { return n }}
	}
	I["k8s.io/apimachinery/pkg/apis/meta/v1.NewTime"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		t := c.res.At(0).Type()
		return &StructV{typ: t, field: func(i int) Val { return c.args[0] }}
	}

	// resource.Quantity as a mathematical number
	q := "k8s.io/apimachinery/pkg/api/resource."
	qload := func(ex *Exec, st *State, v Val, t types.Type) *Term {
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return ex.term(ex.load(st, v, derefT(t), token.NoPos), derefT(t))
		}
		return ex.term(v, t)
	}
	I["(*"+q+"Quantity).Cmp"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		a, b := qload(ex, st, c.args[0], c.tys[0]), qload(ex, st, c.args[1], c.tys[1])
		return mkIte(mkLt(a, b), mkInt(-1), mkIte(mkEq(a, b), mkInt(0), mkInt(1)))
	}
	I["(*"+q+"Quantity).Value"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		return qload(ex, st, c.args[0], c.tys[0])
	}
	I["("+q+"Quantity).Equal"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		return mkEq(qload(ex, st, c.args[0], c.tys[0]), qload(ex, st, c.args[1], c.tys[1]))
	}
	I["("+q+"Quantity).DeepCopy"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		return qload(ex, st, c.args[0], c.tys[0])
	}
	I["(*"+q+"Quantity).IsZero"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		return mkEq(qload(ex, st, c.args[0], c.tys[0]), mkInt(0))
	}
	I["(*"+q+"Quantity).String"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		return mkUF("qtystr", SStr, qload(ex, st, c.args[0], c.tys[0]))
	}
	I[q+"MustParse"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		return mkUF("qtyparse", SInt, c.t(ex, 0))
	}
	I["(*k8s.io/api/core/v1.ResourceList).Storage"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		m := ex.load(st, c.args[0], derefT(c.tys[0]), c.pos)
		mt := derefT(c.tys[0]).Underlying().(*types.Map)
		v, _ := ex.mapLookup(st.heap, ex.term(m, mt), mt, mkStrLit("storage"))
		r := ex.alloc(st, "qty")
		k := cellKey(mt.Elem())
		ex.keyTypes[k] = mt.Elem()
		tv := ex.term(v, mt.Elem())
		ex.set(st, k, mkStore(ex.get(st, k, SArr(SRef, tv.sort)), r, tv))
		return r
	}

	// strings / strconv
	I["strings.HasPrefix"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		return ex.strPred("strprefix", c.t(ex, 0), c.t(ex, 1))
	}
	I["strings.HasSuffix"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		return ex.strPred("strsuffix", c.t(ex, 0), c.t(ex, 1))
	}
	I["strings.Contains"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		return ex.strPred("strcontains", c.t(ex, 0), c.t(ex, 1))
	}
	I["strconv.Itoa"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val { return ex.itoa(c.t(ex, 0)) }
	I["strconv.Atoi"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		s := c.t(ex, 0)
		if s.op == "str" {
			if n, err := strconv.Atoi(s.name); err == nil {
				return TupleV{mkInt(int64(n)), mkNull()}
			}
		}
		ok := mkUF("isnum", SBool, s)
		v := mkUF("atoi", SInt, s)
		ex.typeFacts(v, intT)
		e := ex.newErr(st)
		return TupleV{mkIte(ok, v, mkInt(0)), mkIte(ok, mkNull(), e)}
	}
	I["strconv.ParseInt"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		s := c.t(ex, 0)
		bits := c.t(ex, 2)
		ok := mkUF("isint", SBool, s, c.t(ex, 1), bits)
		v := mkUF("parseint", SInt, s, c.t(ex, 1))
		if n, isC := intVal(bits); isC && n > 0 && n < 64 {
			lim := int64(1) << uint(n-1)
			ex.axiom(mkImp(ok, mkAnd(mkLe(mkInt(-lim), v), mkLt(v, mkInt(lim)))))
		}
		e := ex.newErr(st)
		return TupleV{mkIte(ok, v, mkInt(0)), mkIte(ok, mkNull(), e)}
	}
	// strings.Split family: lengths and a content function per (string, sep)
	split := func(min1 bool) intrinsic {
		return func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
			s, sep := c.t(ex, 0), c.t(ex, 1)
			as := []*Term{s, sep}
			if len(c.args) > 2 {
				as = append(as, c.t(ex, 2))
			}
			r := ex.pureSlice(st, c.name, strT, min1, as...)
			n, isC := int64(2), true
			if len(as) > 2 {
				n, isC = intVal(as[2])
			}
			if isC && (n >= 2 || n < 0) && !s.bound {
				ex.axiom(mkEq(mkSelect(mkUF("cont$"+c.name, SArr(SInt, SStr), as...), mkInt(0)), mkUF("strfirst", SStr, s, sep)))
			}
			return r
		}
	}
	I["strings.Cut"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		s, sep := c.t(ex, 0), c.t(ex, 1)
		found := ex.strPred("strcontains", s, sep)
		first := mkUF("strfirst", SStr, s, sep)
		if !s.bound {
			ex.axiom(mkImp(mkNot(found), mkEq(first, s)))
		}
		return TupleV{first, mkIte(found, mkUF("strrest", SStr, s, sep), mkStrLit("")), found}
	}
	I["strings.Split"] = split(true)
	I["strings.SplitN"] = split(true)
	I["strings.Fields"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		return ex.pureSlice(st, c.name, strT, false, c.t(ex, 0))
	}
	I["strings.Join"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		s := c.t(ex, 0)
		sep := c.t(ex, 1)
		mem := ex.get(st, elemKey(strT), SArr(SRef, SArr(SInt, SStr)))
		arr := mkSelect(mem, slArr(s))
		if n, ok := intVal(slLen(s)); ok && n <= 16 {
			r := mkStrLit("")
			for i := int64(0); i < n; i++ {
				if i > 0 {
					r = strCat(r, sep)
				}
				r = strCat(r, mkSelect(arr, mkAdd(slOff(s), mkInt(i))))
			}
			return r
		}
		return mkUF("strjoin", SStr, arr, slOff(s), slLen(s), sep)
	}
	I["strings.SplitSeq"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		// an iterator over the parts of strings.Split
		sl := ex.pureSlice(st, "strings.Split", strT, true, c.t(ex, 0), c.t(ex, 1)).(*Term)
		t := freshAllocConst("seq")
		ex.seqs[t.id] = seqV{sl, strT}
		return t
	}
	I["slices.Values"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		t := freshAllocConst("seq")
		ex.seqs[t.id] = seqV{c.t(ex, 0), c.tys[0].Underlying().(*types.Slice).Elem()}
		return t
	}
	I["slices.Contains"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		s := c.t(ex, 0)
		et := c.tys[0].Underlying().(*types.Slice).Elem()
		v := c.t(ex, 1)
		return ex.containsTerm(st, s, et, slLen(s), v)
	}
	I["sort.Slice"] = sortSlice
	I["sort.SliceStable"] = sortSlice
	I["sort.Ints"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val { ex.sortInts(st, c.t(ex, 0)); return TupleV{} }
	I["sort.Strings"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		ex.sortScalars(st, c.t(ex, 0), strT)
		return TupleV{}
	}
	I["slices.Sort"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		s := c.t(ex, 0)
		et := c.tys[0].Underlying().(*types.Slice).Elem()
		if es := sortOf(et); es == SInt || es == SStr {
			ex.sortScalars(st, s, et)
			return TupleV{}
		}
		ex.havocElems(st, s, et)
		return TupleV{}
	}
	I["slices.Min"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		s := c.t(ex, 0)
		et := c.tys[0].Underlying().(*types.Slice).Elem()
		if sortOf(et) != SInt {
			return ex.freshVal(st, "min", et)
		}
		return ex.sliceExt(st, s, et, true)
	}
	I["slices.Max"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		s := c.t(ex, 0)
		et := c.tys[0].Underlying().(*types.Slice).Elem()
		if sortOf(et) != SInt {
			return ex.freshVal(st, "max", et)
		}
		return ex.sliceExt(st, s, et, false)
	}
	// sync
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done"} {
		I[n] = noop
	}
	I["(*sync.WaitGroup).Wait"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		ex.joinPending(fr, st)
		ex.setGhost(st, "$unjoined", mkFalse())
		return TupleV{}
	}
	I["(*sync.WaitGroup).Go"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		// runs the function concurrently; executed at the spawn point (see doGo)
		ex.setGhost(st, "$unjoined", mkTrue())
		if f, ok := c.args[1].(*CloV); ok {
			ex.callStatic(fr, st, c.instr, f.fn, nil, f.bindings, "wggo")
		}
		return TupleV{}
	}
	I["(*sync.Once).Do"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val { return TupleV{} }

	// context
	I["context.Context.Done"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val { return mkUF("ctxdone", SRef, c.t(ex, 0)) }
	I["context.Context.Err"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		r := ex.freshVal(st, "ctxerr", c.res.At(0).Type())
		if t, ok := r.(*Term); ok {
			// once Done has been received from, Err is not nil
			ex.assume(st, mkImp(mkSelect(ex.getGhost(st, "$ctxdone", SArr(SRef, SBool)), c.t(ex, 0)), mkNot(mkEq(t, mkNull()))))
		}
		return r
	}
	ctxNew := func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		return ex.freshVal(st, "ctx", c.res)
	}
	for _, n := range []string{"context.WithTimeout", "context.WithCancel", "context.WithDeadline"} {
		I[n] = ctxNew
	}
	ctxDerive := func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		r := ex.freshVal(st, "ctx", c.res)
		if tv, ok := r.(TupleV); ok {
			tv[0] = c.args[0]
			return tv
		}
		return c.args[0]
	}
	for _, n := range []string{"context.WithValue", "github.com/go-logr/logr.NewContext", "sigs.k8s.io/controller-runtime/pkg/log.IntoContext"} {
		I[n] = ctxDerive
	}
	// controller-runtime / client-go helpers
	I["k8s.io/client-go/util/retry.RetryOnConflict"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
		return ex.retryLoop(fr, st, c)
	}
	I["k8s.io/apimachinery/pkg/api/equality.Semantic"] = noop
	I["sigs.k8s.io/controller-runtime/pkg/controller/controllerutil.SetControllerReference"] = noop
	I["os.Getenv"] = func(ex *Exec, fr *Frame, st *State, c *callCtx) Val { return mkUF("getenv", SStr, c.t(ex, 0)) }
}

type seqV struct {
	sl *Term
	et types.Type
}

// pureSlice: a slice-valued pure function of scalar arguments.
func (ex *Exec) pureSlice(st *State, name string, et types.Type, min1 bool, as ...*Term) Val {
	ln := mkUF("len$"+name, SInt, as...)
	cont := mkUF("cont$"+name, SArr(SInt, sortOf(et)), as...)
	if !ln.bound {
		if min1 {
			ex.axiom(mkLe(mkInt(1), ln))
		} else {
			ex.axiom(mkLe(mkInt(0), ln))
		}
	}
	r := ex.alloc(st, "split")
	k := elemKey(et)
	ex.set(st, k, mkStore(ex.get(st, k, SArr(SRef, SArr(SInt, sortOf(et)))), r, cont))
	return mkSlice(r, mkInt(0), ln)
}

func (ex *Exec) havocElems(st *State, s *Term, et types.Type) {
	if isStructT(et) {
		ex.warn["sort of struct slice not modelled"] = true
		panic(unsupported("sort of a slice of structs"))
	}
	k := elemKey(et)
	a := ex.get(st, k, SArr(SRef, SArr(SInt, sortOf(et))))
	ex.set(st, k, mkStore(a, slArr(s), freshConst("mod.elems", SArr(SInt, sortOf(et)))))
}

// sortInts: the slice becomes an ascending permutation (membership preserved both ways).
// sortSlice: sort.Slice on a slice of structures whose elements nothing has been said about yet: it may
// then be taken to have been in that order from the start.
func sortSlice(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
	b := c.t(ex, 0)
	y, ok := c.args[1].(*CloV)
	if !ok || b.op != "uf" || !isIfaceBox(b.name) {
		panic(unsupported("sort.Slice of an unknown slice or by an unknown order"))
	}
	s := b.args[0]
	// slices of integers and strings are permuted, others must not have been looked at
	var et types.Type
	var nw *Term
	if ci, ok := c.instr.(ssa.CallInstruction); ok {
		if mi, ok := ci.Common().Args[0].(*ssa.MakeInterface); ok {
			if sl, ok := mi.X.Type().Underlying().(*types.Slice); ok {
				et = sl.Elem()
			}
		}
	}
	if s.sort == SSlice && et != nil && (sortOf(et) == SStr || sortOf(et) == SInt) {
		nw = ex.permute(st, s, et)
	} else if s.sort != SSlice || ex.speaksOf(st, slArr(s)) {
		panic(unsupported("sort.Slice of a slice that was looked at before"))
	}
	i, j := freshConst("sorti", SInt), freshConst("sortj", SInt)
	in := mkAnd(mkLe(mkInt(0), i), mkLt(i, j), mkLt(j, slLen(s)))
	s2 := st.with(in)
	l := ex.term(ex.callStatic(fr, s2, c.instr, y.fn, []Val{j, i}, y.bindings, site(c.instr)), boolT)
	q, r := mkVar("sq", SInt), mkVar("sr", SInt)
	body := subst(subst(mkImp(in, mkNot(l)), i, q), j, r)
	if nw != nil {
		off := slOff(s)
		es := sortOf(et)
		ex.assume(st, mkQuant("forall", q, mkQuant("forall", r, body, []*Term{mk("select", "", es, nw, mkAdd(off, r))}), []*Term{mk("select", "", es, nw, mkAdd(off, q))}))
	} else {
		ex.assume(st, mkQuant("forall", q, mkQuant("forall", r, body)))
	}
	return TupleV{}
}

// speaksOf: the guard, a fact or the heap of the state mentions an element of array arr.
func (ex *Exec) speaksOf(st *State, arr *Term) bool {
	seen := map[int]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		if t.op == "uf" && t.name == "elt" && t.args[0] == arr || t.op == "select" && t.args[1] == arr {
			return true
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	if walk(st.guard) {
		return true
	}
	for _, f := range ex.facts {
		if walk(f) {
			return true
		}
	}
	for _, h := range st.heap {
		if walk(h) {
			return true
		}
	}
	return false
}

func (ex *Exec) sortInts(st *State, s *Term) { ex.sortScalars(st, s, intT) }

// permute: the slice of integers or strings becomes a permutation of itself; gives its new contents.
func (ex *Exec) permute(st *State, s *Term, et types.Type) *Term {
	k, es := elemKey(et), sortOf(et)
	a := ex.get(st, k, SArr(SRef, SArr(SInt, es)))
	old := mkSelect(a, slArr(s))
	nw := freshConst("sorted", SArr(SInt, es))
	perm := freshConst("perm", SArr(SInt, SInt))
	inv := freshConst("perminv", SArr(SInt, SInt))
	off, n := slOff(s), slLen(s)
	j := mkVar("sj", SInt)
	in := func(x *Term) *Term { return mkAnd(mkLe(mkInt(0), x), mkLt(x, n)) }
	sel := mk("select", "", es, nw, mkAdd(off, j))
	ex.assume(st, mkQuant("forall", j, mkImp(in(j), mkAnd(in(mkSelect(perm, j)), mkEq(mkSelect(inv, mkSelect(perm, j)), j), mkEq(sel, mkSelect(old, mkAdd(off, mkSelect(perm, j)))))), []*Term{sel}))
	so := mk("select", "", es, old, mkAdd(off, j))
	ex.assume(st, mkQuant("forall", j, mkImp(in(j), mkAnd(in(mkSelect(inv, j)), mkEq(mkSelect(perm, mkSelect(inv, j)), j), mkEq(mk("select", "", es, nw, mkAdd(off, mkSelect(inv, j))), so))), []*Term{so}))
	ex.set(st, k, mkStore(a, slArr(s), nw))
	return nw
}

// sortScalars: the slice of integers or strings becomes an ascending permutation.
func (ex *Exec) sortScalars(st *State, s *Term, et types.Type) {
	es := sortOf(et)
	nw := ex.permute(st, s, et)
	off, n := slOff(s), slLen(s)
	j, l := mkVar("sj", SInt), mkVar("sl", SInt)
	in := func(x *Term) *Term { return mkAnd(mkLe(mkInt(0), x), mkLt(x, n)) }
	sel := mk("select", "", es, nw, mkAdd(off, j))
	s2 := mk("select", "", es, nw, mkAdd(off, l))
	le := mkLe(sel, s2)
	if es == SStr {
		le = mkNot(ex.strLt(s2, sel))
	}
	ex.assume(st, mkQuant("forall", j, mkQuant("forall", l, mkImp(mkAnd(in(j), in(l), mkLe(j, l)), le)), nil...))
}

func (ex *Exec) sliceExt(st *State, s *Term, et types.Type, min bool) *Term {
	k := elemKey(et)
	arr := mkSelect(ex.get(st, k, SArr(SRef, SArr(SInt, SInt))), slArr(s))
	r := freshConst("ext", SInt)
	w := freshConst("extidx", SInt)
	j := mkVar("mj", SInt)
	sel := mkSelect(arr, mkAdd(slOff(s), j))
	var cmp *Term
	if min {
		cmp = mkLe(r, sel)
	} else {
		cmp = mkLe(sel, r)
	}
	ex.assume(st, mkQuant("forall", j, mkImp(mkAnd(mkLe(mkInt(0), j), mkLt(j, slLen(s))), cmp)))
	ex.assume(st, mkAnd(mkLe(mkInt(0), w), mkLt(w, slLen(s)), mkEq(r, mkSelect(arr, mkAdd(slOff(s), w)))))
	ex.typeFacts(r, et)
	return r
}

// retryLoop: retry.RetryOnConflict(backoff, fn) runs fn one or more times and returns the last error.
// Modelled as: any number of earlier attempts that ended in a conflict (their effects havoced through the
// loop protocol), then a final attempt.
func (ex *Exec) retryLoop(fr *Frame, st *State, c *callCtx) Val {
	f, ok := c.args[1].(*CloV)
	if !ok {
		panic(unsupported("RetryOnConflict with unknown function"))
	}
	vl := &vloop{id: c.path + "#retry", fr: fr, pos: c.pos, fnName: c.name}
	body := func(s *State) []*State {
		s2 := s.clone()
		ex.callStatic(fr, s2, c.instr, f.fn, nil, f.bindings, "retry")
		return []*State{s2}
	}
	ex.loopProtocol(vl, st, body)
	err := ex.callStatic(fr, st, c.instr, f.fn, nil, f.bindings, "retry")
	if ex.dry == 0 {
		ex.checkInv(vl, st, nil, "inv-step")
	}
	return err
}

// patternIntrinsic handles families of functions by name.
func patternIntrinsic(fn *ssa.Function, name string) intrinsic {
	pk := fnPkg(fn)
	path := ""
	if pk != nil {
		path = pk.Path()
	}
	switch {
	case strings.HasPrefix(path, "github.com/go-logr/logr"), path == "sigs.k8s.io/controller-runtime/pkg/log", strings.HasPrefix(path, "github.com/prometheus/"), path == "log", path == "k8s.io/klog/v2":
		return noop
	case fn.Name() == "logFromContext":
		return noop
	}
	if fn.Name() == "DeepCopy" && fn.Signature.Recv() != nil && fn.Signature.Params().Len() == 0 {
		rt := fn.Signature.Recv().Type()
		if p, ok := rt.Underlying().(*types.Pointer); ok && isStructT(p.Elem()) {
			return deepCopy
		}
	}
	if fn.Name() == "DeepCopyInto" && fn.Signature.Recv() != nil {
		return func(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
			t := derefT(c.tys[0])
			src, dst := c.t(ex, 0), c.t(ex, 1)
			ex.deepCopyTo(st, t, dst, src)
			return TupleV{}
		}
	}
	return nil
}

// deepCopy: a new object with equal contents. Map-typed fields get fresh maps with equal contents;
// slices and pointers below keep their (never mutated through the copy) referents.
func deepCopy(ex *Exec, fr *Frame, st *State, c *callCtx) Val {
	t := derefT(c.tys[0])
	src := c.t(ex, 0)
	isNil := mkEq(src, mkNull())
	r := ex.alloc(st, "deepcopy")
	ex.deepCopyTo(st, t, r, src)
	return mkIte(isNil, mkNull(), r)
}

func (ex *Exec) deepCopyTo(st *State, t types.Type, r, src *Term) {
	ex.storeStruct(st, t, r, ex.lazyStruct(t, src, st.heap))
	top := t
	var walk func(t types.Type, d, s *Term, depth int)
	walk = func(t types.Type, d, s *Term, depth int) {
		su := structOf(t)
		for i := 0; i < su.NumFields(); i++ {
			ft := su.Field(i).Type()
			if isStructT(ft) {
				walk(ft, subRef(t, i, d), subRef(t, i, s), depth+1)
				continue
			}
			if sl, ok := ft.Underlying().(*types.Slice); ok && ex.copiesSlice(top, sl.Elem()) {
				k := fieldKey(t, i)
				old := mkSelect(ex.get(st, k, SArr(SRef, SSlice)), s)
				nv := ex.appendSlices(st, mkSlice(mkNull(), mkInt(0), mkInt(0)), old, sl.Elem())
				ex.set(st, k, mkStore(ex.get(st, k, SArr(SRef, SSlice)), d, mkIte(mkEq(slLen(old), mkInt(0)), old, nv)))
				continue
			}
			if pt, ok := ft.Underlying().(*types.Pointer); ok && ex.copiesPointee(top, pt.Elem()) {
				k := fieldKey(t, i)
				old := mkSelect(ex.get(st, k, SArr(SRef, SRef)), s)
				np := ex.alloc(st, "ptrcopy")
				ex.storeStruct(st, pt.Elem(), np, ex.lazyStruct(pt.Elem(), old, st.heap))
				ex.set(st, k, mkStore(ex.get(st, k, SArr(SRef, SRef)), d, mkIte(mkEq(old, mkNull()), mkNull(), np)))
				continue
			}
			m, ok := ft.Underlying().(*types.Map)
			if !ok {
				continue
			}
			k := fieldKey(t, i)
			old := mkSelect(ex.get(st, k, SArr(SRef, SRef)), s)
			nm := ex.alloc(st, "mapcopy")
			kM, kD, kL := mapKeys(m)
			ks, vs := sortOf(m.Key()), ex.mapVS(m)
			a := ex.get(st, kM, SArr(SRef, SArr(ks, vs)))
			ex.set(st, kM, mkStore(a, nm, mkSelect(a, old)))
			b := ex.get(st, kD, SArr(SRef, SArr(ks, SBool)))
			ex.set(st, kD, mkStore(b, nm, ex.mapDom(st.heap, old, m)))
			l := ex.get(st, kL, SArr(SRef, SInt))
			ex.set(st, kL, mkStore(l, nm, ex.mapLen(st.heap, old, m)))
			nv := mkIte(mkEq(old, mkNull()), mkNull(), nm)
			ex.set(st, k, mkStore(ex.get(st, k, SArr(SRef, SRef)), d, nv))
		}
	}
	walk(t, r, src, 0)
}

// copiesPointee: small structures a StatefulSet points to are copied.
func (ex *Exec) copiesPointee(top, et types.Type) bool {
	n, ok := types.Unalias(top).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "k8s.io/api/apps/v1" || !isStructT(et) {
		return false
	}
	su := structOf(et)
	for i := 0; i < su.NumFields(); i++ {
		if isStructT(su.Field(i).Type()) {
			return false
		}
	}
	return su.NumFields() <= 3
}

// copiesSlice: slices of the repository's own objects are copied when their elements are scalars;
// other slices and pointers are shared between an object and its deep copy (the code under proof does not write through them).
func (ex *Exec) copiesSlice(top, et types.Type) bool {
	n, ok := types.Unalias(top).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), "github.com/cybozu-go/moco/") {
		return false
	}
	switch sortOf(et) {
	case SInt, SStr, SBool:
		return true
	}
	return false
}

// builtin functions.
func (ex *Exec) builtin(fr *Frame, st *State, b *ssa.Builtin, call *ssa.CallCommon, args []Val) Val {
	ty := func(i int) types.Type { return call.Args[i].Type() }
	switch b.Name() {
	case "len", "cap":
		switch u := ty(0).Underlying().(type) {
		case *types.Slice:
			if b.Name() == "cap" {
				c := freshConst("cap", SInt)
				ex.assume(st, mkLe(slLen(ex.term(args[0], ty(0))), c))
				return c
			}
			return slLen(ex.term(args[0], ty(0)))
		case *types.Map:
			return ex.mapLen(st.heap, ex.term(args[0], ty(0)), u)
		case *types.Basic:
			return ex.strLen(ex.term(args[0], ty(0)))
		case *types.Array:
			return mkInt(u.Len())
		case *types.Pointer:
			return mkInt(u.Elem().Underlying().(*types.Array).Len())
		case *types.Chan:
			c := freshConst("chanlen", SInt)
			ex.assume(st, mkLe(mkInt(0), c))
			return c
		}
	case "append":
		et := ty(0).Underlying().(*types.Slice).Elem()
		a := ex.term(args[0], ty(0))
		if _, isStr := ty(1).Underlying().(*types.Basic); isStr {
			return ex.freshVal(st, "appendstr", ty(0))
		}
		return ex.appendSlices(st, a, ex.term(args[1], ty(1)), et)
	case "delete":
		ex.mapDelete(st, ex.term(args[0], ty(0)), ty(0).Underlying().(*types.Map), args[1])
		return TupleV{}
	case "clear":
		if m, ok := ty(0).Underlying().(*types.Map); ok {
			ex.newMap(st, ex.term(args[0], ty(0)), m)
			return TupleV{}
		}
	case "close":
		return TupleV{}
	case "copy":
		s, d := ex.term(args[1], ty(1)), ex.term(args[0], ty(0))
		n := mkIte(mkLt(slLen(s), slLen(d)), slLen(s), slLen(d))
		if sortOf(ty(1)) == SStr {
			et := ty(0).Underlying().(*types.Slice).Elem()
			ex.havocElems(st, d, et)
			return n
		}
		et := ty(0).Underlying().(*types.Slice).Elem()
		if isStructT(et) {
			panic(unsupported("copy of struct slices"))
		}
		k := elemKey(et)
		mem := ex.get(st, k, SArr(SRef, SArr(SInt, sortOf(et))))
		od, os := mkSelect(mem, slArr(d)), mkSelect(mem, slArr(s))
		nw := freshConst("copied", SArr(SInt, sortOf(et)))
		j := mkVar("cj", SInt)
		sel := mk("select", "", sortOf(et), nw, j)
		in := mkAnd(mkLe(slOff(d), j), mkLt(j, mkAdd(slOff(d), n)))
		ex.assume(st, mkQuant("forall", j, mkEq(sel, mkIte(in, mkSelect(os, mkAdd(slOff(s), mkSub(j, slOff(d)))), mkSelect(od, j))), []*Term{sel}))
		ex.set(st, k, mkStore(mem, slArr(d), nw))
		return n
	case "min", "max":
		if sortOf(ty(0)) == SInt {
			r := ex.term(args[0], ty(0))
			for i := 1; i < len(args); i++ {
				x := ex.term(args[i], ty(i))
				if b.Name() == "min" {
					r = mkIte(mkLe(r, x), r, x)
				} else {
					r = mkIte(mkLe(x, r), r, x)
				}
			}
			return r
		}
	case "print", "println":
		return TupleV{}
	case "recover":
		return mkNull()
	case "ssa:wrapnilchk":
		return args[0]
	}
	panic(unsupported(fmt.Sprintf("builtin %s(%s)", b.Name(), ty(0))))
}

// containsTerm: some element of slice s (of its first lim elements) equals v; an uninterpreted predicate,
// unrolled at the end of the range, where the contract hides it.
func (ex *Exec) containsTerm(st *State, s *Term, et types.Type, lim, v *Term) *Term {
	if s.op == "ite" {
		l1, l2 := lim, lim
		if lim == slLen(s) {
			l1, l2 = slLen(s.args[1]), slLen(s.args[2])
		}
		return mkIte(s.args[0], ex.containsTerm(st, s.args[1], et, l1, v), ex.containsTerm(st, s.args[2], et, l2, v))
	}
	if v.sort != sortOf(et) {
		sfail("contains: element type")
	}
	mem := ex.get(st, elemKey(et), SArr(SRef, SArr(SInt, sortOf(et))))
	arr := mkSelect(mem, slArr(s))
	if ex.rootC != nil && ex.rootC.Reveal["-"+ex.curProp+":contains"] {
		return mkContains(arr, slOff(s), lim, v)
	}
	j := mkVar("q0", SInt)
	if v.bound {
		j = mkVar(fmt.Sprintf("qc%d", v.id), SInt)
	}
	return mkQuant("exists", j, mkAnd(mkLe(mkInt(0), j), mkLt(j, lim), mkEq(mkSelect(arr, mkAdd(slOff(s), j)), v)))
}

// mkContains: v occurs in arr[off:off+n].
func mkContains(arr, off, n, v *Term) *Term {
	if k, ok := intVal(n); ok {
		if k <= 0 {
			return mkFalse()
		}
		if k <= 8 {
			r := mkFalse()
			for i := int64(0); i < k; i++ {
				r = mkOr(r, mkEq(mkSelect(arr, mkAdd(off, mkInt(i))), v))
			}
			return r
		}
	}
	if arr.op == "ite" {
		return mkIte(arr.args[0], mkContains(arr.args[1], off, n, v), mkContains(arr.args[2], off, n, v))
	}
	if b, c := splitAdd(n); c >= 1 {
		last := mkAdd(b, mkInt(c-1))
		at := mkAdd(off, last)
		if arr.op == "store" && arr.args[1] == at {
			return mkOr(mkContains(arr.args[0], off, last, v), mkAnd(mkLe(mkInt(0), last), mkEq(arr.args[2], v)))
		}
		if c >= 2 {
			return mkOr(mkContains(arr, off, last, v), mkAnd(mkLe(mkInt(0), last), mkEq(mkSelect(arr, at), v)))
		}
	}
	return mkUF("contains$"+v.sort, SBool, arr, off, n, v)
}

// containsAxioms: the last element of each range that occurs in the terms.
func containsAxioms(ts []*Term) []*Term {
	seen := map[int]bool{}
	done := map[string]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			walk(a)
		}
		if t.op != "uf" || !strings.HasPrefix(t.name, "contains$") || t.args[0].bound || t.args[1].bound || t.args[2].bound {
			return
		}
		arr, off, n := t.args[0], t.args[1], t.args[2]
		key := fmt.Sprint(arr.id, " ", off.id, " ", n.id)
		if done[key] {
			return
		}
		done[key] = true
		x := mkVar("cx", t.args[3].sort)
		me := mkUF(t.name, SBool, arr, off, n, x)
		out = append(out, mkQuant("forall", x, mkImp(mkLe(n, mkInt(0)), mkNot(me)), []*Term{me}))
		if b, c := splitAdd(n); c >= 1 {
			last := mkAdd(b, mkInt(c-1))
			out = append(out, mkQuant("forall", x, mk("=", "", SBool, me, mkOr(mkUF(t.name, SBool, arr, off, last, x), mkAnd(mkLe(mkInt(0), last), mkEq(mkSelect(arr, mkAdd(off, last)), x)))), []*Term{me}))
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return out
}
