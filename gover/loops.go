package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// vloop is a loop occurrence being verified with invariant candidates.
type vloop struct {
	id       string
	fr       *Frame
	phis     []*ssa.Phi
	initVals []Val
	cells    map[string][]*Term
	pos      token.Pos
	fnName   string
	hints    []hint
	cands    []*Candidate
	vars     []lvar
	extra    []lvar
	extraLim *Term
	l        *loop
}

// Candidate is one instantiated invariant.
type Candidate struct {
	name string
	src  string
	gen  func(st *State, vals []Val) *Term
}

type lvar struct {
	name string
	typ  types.Type
	get  func(st *State, vals []Val) Val
}

type hint struct {
	phi   int
	delta int64
	lim   *Term
	name  string
	le    bool
}

func (ex *Exec) setVLoop(fr *Frame, l *loop, vl *vloop) {
	if fr.vl == nil {
		fr.vl = map[*loop]*vloop{}
	}
	fr.vl[l] = vl
}
func (ex *Exec) getVLoop(fr *Frame, l *loop) *vloop { return fr.vl[l] }

// boundHints looks for comparisons against loop-invariant values in the loop header.
func (ex *Exec) boundHints(fr *Frame, l *loop) []hint {
	var out []hint
	var phis []*ssa.Phi
	for _, in := range l.head.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	find := func(v ssa.Value) (int, int64, bool) {
		d := int64(0)
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
			if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil {
				d = c.Int64()
				v = b.X
			}
		}
		for i, p := range phis {
			if p == v {
				return i, d, true
			}
		}
		return 0, 0, false
	}
	outside := func(v ssa.Value) (*Term, bool) {
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value != nil && sortOf(x.Type()) == SInt {
				return ex.constVal(x).(*Term), true
			}
			return nil, false
		case ssa.Instruction:
			if l.body[x.Block()] {
				// len(x) with x defined outside
				if c, ok := v.(*ssa.Call); ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
						if ai, ok := c.Call.Args[0].(ssa.Instruction); ok && l.body[ai.Block()] {
							return nil, false
						}
						if s, ok := c.Call.Args[0].Type().Underlying().(*types.Slice); ok && s != nil {
							if _, has := fr.env[c.Call.Args[0]]; has {
								return slLen(ex.term(fr.env[c.Call.Args[0]], c.Call.Args[0].Type())), true
							}
						}
					}
				}
				return nil, false
			}
		}
		if e, ok := fr.env[v]; ok {
			if t, ok := e.(*Term); ok && t.sort == SInt {
				return t, true
			}
		}
		return nil, false
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			for _, pr := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
				if i, d, ok := find(pr[0]); ok {
					if lim, ok := outside(pr[1]); ok {
						out = append(out, hint{phi: i, delta: d, lim: lim, name: fmt.Sprintf("%d/%d/%s", i, d, bo.Name())})
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func maxID(t *Term) int { return t.leaf }

// storeIndices collects the indices at which arr differs from base by explicit stores; ok is false
// if arr is not base plus stores. mark: ids above are iteration-local.
func storeIndices(arr, base *Term, out map[int]*Term, seen map[int]bool, objs *bool) bool {
	if arr == base || seen[arr.id] {
		return true
	}
	// stores at an index already stored to are merged, so arr may start below base's own stores
	var peeled []*Term
	for b := base; b.op == "store"; {
		peeled = append(peeled, b.args[1])
		b = b.args[0]
		if b == arr {
			for _, i := range peeled {
				out[i.id] = i
			}
			return true
		}
	}
	seen[arr.id] = true
	switch arr.op {
	case "store":
		out[arr.args[1].id] = arr.args[1]
		return storeIndices(arr.args[0], base, out, seen, objs)
	case "ite":
		return storeIndices(arr.args[1], base, out, seen, objs) && storeIndices(arr.args[2], base, out, seen, objs)
	case "const":
		if h, ok := havocOf[arr.id]; ok {
			for _, i := range h.idx {
				out[i.id] = i
			}
			if h.all {
				return false
			}
			// only objects younger than the inner loop changed: those are iteration-local
			*objs = true
			return storeIndices(h.old, base, out, seen, objs)
		}
	}
	return false
}

// havocOf records what an array havoc constant may change.
type havocInfo struct {
	old  *Term
	mark int
	all  bool // everything may change
	idx  []*Term
}

var havocOf map[int]*havocInfo

type modSet struct {
	all  map[string]bool
	idx  map[string]map[int]*Term
	objs map[string]bool // iteration-local objects written
	scal map[string]bool
}

func (ex *Exec) loopProtocol(vl *vloop, cur *State, body func(st *State) []*State) {
	mods := &modSet{all: map[string]bool{}, idx: map[string]map[int]*Term{}, objs: map[string]bool{}, scal: map[string]bool{}}
	entry := cur.clone()
	// values of phis unchanged by the loop keep their initial value
	keep := make([]bool, len(vl.phis))
	for round := 0; ; round++ {
		if round > 12 {
			panic(unsupported("loop effects do not stabilise in " + vl.fnName))
		}
		nf, no, nc, ni := len(ex.facts), len(ex.obls), len(ex.copies), len(ex.idxTerms)
		mark := tt.n
		st := entry.clone()
		ex.havocLoop(vl, st, entry, mods, keep, mark)
		base := st.clone()
		mark2 := tt.n
		ex.dry++
		dryDepth++
		prevMark := dryMark
		dryMark = mark2
		backs := body(st)
		ex.dry--
		dryDepth--
		dryMark = prevMark
		changed := false
		var local []localWrite
		for _, b := range backs {
			for _, k := range sortedKeys(b.heap) {
				v := b.heap[k]
				bv, ok := base.heap[k]
				if !ok {
					bv = ex.init[k]
				}
				if v == bv || mods.all[k] {
					continue
				}
				if !strings.HasPrefix(v.sort, "(Array Ref") || strings.HasPrefix(k, "G:") || strings.HasPrefix(k, "ITER:") {
					if !mods.scal[k] {
						mods.scal[k] = true
						changed = true
					}
					continue
				}
				out := map[int]*Term{}
				innerObjs := false
				if !storeIndices(v, bv, out, map[int]bool{}, &innerObjs) {
					ex.dbg("loop havoc all %s in %s", k, vl.id)
					mods.all[k] = true
					changed = true
					continue
				}
				if innerObjs && !mods.objs[k] {
					mods.objs[k] = true
					changed = true
				}
				for _, i := range out {
					if i.any || i.bound {
						ex.dbg("loop havoc all %s in %s", k, vl.id)
						mods.all[k] = true
						changed = true
						break
					}
					if i.leaf <= mark {
						// loop-invariant index
						if mods.idx[k] == nil {
							mods.idx[k] = map[int]*Term{}
						}
						if mods.idx[k][i.id] == nil {
							mods.idx[k][i.id] = i
							changed = true
						}
						continue
					}
					if youngest(i, mark2) {
						if !mods.objs[k] {
							local = append(local, localWrite{k, i})
						}
						continue
					}
					ex.dbg("loop havoc all %s in %s", k, vl.id)
					mods.all[k] = true
					changed = true
				}
			}
		}
		// objects of one iteration that nothing refers to when it ends: what is written to them cannot be observed
		if len(local) > 0 {
			esc := ex.escaping(vl, base, backs, mark2)
			for _, w := range local {
				if mods.objs[w.key] || mods.all[w.key] {
					continue
				}
				if esc == nil || anyRoot(w.idx, esc) {
					mods.objs[w.key] = true
					changed = true
				}
			}
		}
		_ = no
		ex.facts = ex.facts[:nf]
		ex.obls = ex.obls[:no]
		ex.copies = ex.copies[:nc]
		ex.idxTerms = ex.idxTerms[:ni]
		if !changed {
			break
		}
	}
	mark := tt.n
	ex.havocLoop(vl, cur, entry, mods, keep, mark)
	vl.vars = ex.loopVars(vl, cur, entry, mods)
	vl.cands = ex.makeCands(vl, entry, cur)
	// initialisation
	for _, c := range vl.cands {
		t := c.gen(entry, vl.initVals)
		if t == nil {
			continue
		}
		o := ex.oblige(entry, "inv-init", c.name, t, vl.pos)
		o.cand = c.name
	}
	vals := vl.phiVals()
	for _, v := range vals {
		if t, ok := v.(*Term); ok {
			ex.addIdx(t)
			if t.sort == SInt {
				ex.addIdx(mkAdd(t, mkInt(1)))
			}
		}
	}
	for _, c := range vl.cands {
		if t := c.gen(cur, vals); t != nil {
			ex.assume(cur, t)
		}
	}
}

type localWrite struct {
	key string
	idx *Term
}

// anyRoot: one of the objects t is rooted at is in set.
func anyRoot(t *Term, set map[int]bool) bool {
	for t.op == "uf" {
		t = t.args[0]
	}
	if t.op == "ite" {
		return anyRoot(t.args[1], set) || anyRoot(t.args[2], set)
	}
	return set[t.id]
}

// escaping: the objects allocated after mark that a value kept at the end of an iteration mentions;
// nil if it cannot be told.
func (ex *Exec) escaping(vl *vloop, base *State, backs []*State, mark int) map[int]bool {
	out := map[int]bool{}
	seen := map[int]bool{}
	var all func(t *Term)
	all = func(t *Term) {
		if seen[t.id] || t.id <= mark {
			return
		}
		seen[t.id] = true
		if t.alloc {
			out[t.id] = true
		}
		for _, a := range t.args {
			all(a)
		}
	}
	vals := map[int]bool{}
	var values func(t *Term) // an array of the heap: the values stored, not where they are stored
	values = func(t *Term) {
		if vals[t.id] || t.id <= mark {
			return
		}
		vals[t.id] = true
		switch t.op {
		case "store":
			values(t.args[0])
			if strings.HasPrefix(t.args[2].sort, "(Array") {
				values(t.args[2])
			} else {
				all(t.args[2])
			}
		case "ite":
			values(t.args[1])
			values(t.args[2])
		case "select":
			values(t.args[0]) // a part of another array of the heap
		case "const":
			if h, ok := havocOf[t.id]; ok {
				values(h.old)
			}
		default:
			all(t)
		}
	}
	for _, b := range backs {
		if len(b.pend) != len(base.pend) {
			return nil
		}
		for k, v := range b.heap {
			if strings.HasPrefix(k, "G:") || strings.HasPrefix(k, "ITER:") {
				all(v)
			} else {
				values(v)
			}
		}
	}
	if vl.l == nil {
		return nil
	}
	for _, p := range vl.phis {
		switch sortOf(p.Type()) {
		case SInt, SBool, SStr:
			continue
		}
		for i, e := range p.Edges {
			if !vl.l.body[p.Block().Preds[i]] {
				continue
			}
			if _, ok := e.(*ssa.Const); ok {
				continue
			}
			t, ok := vl.fr.env[e].(*Term)
			if !ok {
				return nil
			}
			all(t)
		}
	}
	return out
}

// youngest: the reference term is rooted at an object allocated after mark.
func youngest(t *Term, mark int) bool {
	for {
		if t == mkNull() {
			return true // nothing is stored through a nil pointer
		}
		if t.alloc {
			return t.id > mark
		}
		if t.op == "uf" && (strings.HasPrefix(t.name, "sub$") || t.name == "elt") {
			t = t.args[0]
			continue
		}
		if t.op == "ite" {
			return youngest(t.args[1], mark) && youngest(t.args[2], mark)
		}
		return false
	}
}

func (vl *vloop) phiVals() []Val {
	vals := make([]Val, len(vl.phis))
	for i, p := range vl.phis {
		vals[i] = vl.fr.env[p]
	}
	return vals
}

func (ex *Exec) havocLoop(vl *vloop, st, entry *State, mods *modSet, keep []bool, mark int) {
	now := freshConst("now", SInt)
	ex.assume(st, mkLe(entry.now, now))
	st.now = now
	keys := map[string]bool{}
	for k := range mods.all {
		keys[k] = true
	}
	for k := range mods.idx {
		keys[k] = true
	}
	for k := range mods.objs {
		keys[k] = true
	}
	for k := range mods.scal {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		old, ok := entry.heap[k]
		if !ok {
			old = ex.init[k]
		}
		if mods.scal[k] || mods.all[k] {
			h := freshConst("hv:"+k, old.sort)
			st.heap[k] = h
			havocOf[h.id] = &havocInfo{old: old, mark: mark, all: true}
			continue
		}
		cur := old
		if mods.objs[k] {
			h := freshConst("hv:"+k, old.sort)
			havocOf[h.id] = &havocInfo{old: old, mark: mark}
			// objects existing at loop entry are unchanged by writes to iteration-local objects
			r := mkVar("hr", SRef)
			_, vs := arraySorts(old.sort)
			sel := mk("select", "", vs, h, r)
			ex.assumeAbout(st, h, mkQuant("forall", r, mkImp(mkLe(birth(r), entry.now), mkEq(sel, mkSelect(old, r))), []*Term{sel}))
			cur = h
		}
		var idx []*Term
		for _, i := range mods.idx[k] {
			idx = append(idx, i)
		}
		sort.Slice(idx, func(a, b int) bool { return idx[a].id < idx[b].id })
		_, vs := arraySorts(old.sort)
		for _, i := range idx {
			c := freshConst("hc:"+k, vs)
			if c.sort == SSlice && !ex.dead[fmt.Sprintf("%s off0:%s:%d", vl.id, k, vl.cellNo(k, i))] {
				cur = mkStore(cur, i, mkSlice(slArr(c), mkInt(0), slLen(c)))
			} else {
				cur = mkStore(cur, i, c)
			}
			if ct := ex.cellType(k); ct != nil {
				ex.typeFacts(c, ct)
				if c.sort == SRef {
					ex.assumeAbout(st, c, mkLe(birth(c), st.now))
				}
				if c.sort == SSlice {
					ex.assumeAbout(st, c, mkLe(birth(slArr(c)), st.now))
				}
			}
		}
		st.heap[k] = cur
	}
	for i, p := range vl.phis {
		if keep[i] {
			continue
		}
		switch iv := vl.initVals[i].(type) {
		case *CloV, *PtrV, *IterV:
			vl.fr.env[p] = iv // not reassigned in supported loops (checked at back edges)
			continue
		}
		v := ex.freshVal(st, "phi."+sanitize(p.Comment), p.Type())
		if t, ok := v.(*Term); ok && t.sort == SSlice && !ex.dead[vl.id+" off0:"+p.Name()] {
			// the slice starts at the beginning of its array (an invariant candidate of its own)
			v = mkSlice(slArr(t), mkInt(0), slLen(t))
		}
		if t, ok := v.(*Term); ok && t.sort == SSlice && builtHere(p, map[ssa.Value]bool{}) {
			// every value it can take was allocated by the code under analysis
			ex.assumeAbout(st, t, mkOr(mkEq(slArr(t), mkNull()), mkLt(mkInt(0), birth(slArr(t)))))
		}
		vl.fr.env[p] = v
	}
	st.pend = append([]pend(nil), entry.pend...)
}

func (ex *Exec) cellType(key string) types.Type { return ex.keyTypes[key] }

// loopVars lists the variables available to invariant templates at this loop.
func (ex *Exec) loopVars(vl *vloop, cur, entry *State, mods *modSet) []lvar {
	out := append([]lvar(nil), vl.extra...)
	for i, p := range vl.phis {
		if _, ok := vl.fr.env[p].(*Term); !ok {
			continue
		}
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		out = append(out, lvar{name: nm, typ: p.Type(), get: func(st *State, vals []Val) Val { return vals[i] }})
	}
	for _, k := range sortedKeys(mods.idx) {
		if !strings.HasPrefix(k, "C:") {
			continue
		}
		ct := ex.cellType(k)
		if ct == nil {
			continue
		}
		var ids []int
		for id := range mods.idx[k] {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for n, id := range ids {
			idx := mods.idx[k][id]
			out = append(out, lvar{name: fmt.Sprintf("cell%d", n), typ: ct, get: func(st *State, vals []Val) Val {
				a, ok := st.heap[k]
				if !ok {
					a = ex.init[k]
				}
				return ex.wrapClo(mkSelect(a, idx))
			}})
		}
	}
	// slices, maps and strings defined outside the loop and used in it
	if vl.l != nil {
		seen := map[int]bool{}
		var bs []*ssa.BasicBlock
		for b := range vl.l.body {
			bs = append(bs, b)
		}
		sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
		for _, b := range bs {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					v := *op
					if _, ok := v.(*ssa.Const); ok {
						continue
					}
					if di, ok := v.(ssa.Instruction); ok && vl.l.body[di.Block()] {
						continue
					}
					switch v.Type().Underlying().(type) {
					case *types.Slice, *types.Map:
					default:
						continue
					}
					t, ok := vl.fr.env[v].(*Term)
					if !ok || seen[t.id] {
						continue
					}
					seen[t.id] = true
					out = append(out, lvar{name: "in." + v.Name(), typ: v.Type(), get: func(st *State, vals []Val) Val { return t }})
				}
			}
		}
	}
	// the keys a range over a map has visited
	if vl.l != nil {
		for _, b := range vl.fr.fn.Blocks {
			if !vl.l.body[b] {
				continue
			}
			for _, in := range b.Instrs {
				if nx, ok := in.(*ssa.Next); ok {
					if it, ok := vl.fr.env[nx.Iter].(*IterV); ok && it.str == nil {
						out = append(out, lvar{name: "visited." + nx.Name(), typ: visitedT, get: func(st *State, vals []Val) Val {
							return ex.get(st, it.key, SArr(sortOf(it.mt.Key()), SBool))
						}})
					}
				}
			}
		}
	}
	// enclosing loops of this and calling frames: fixed values
	for f := vl.fr; f != nil; f = f.parent {
		var hs []*loop
		for h, l := range f.loops.header {
			if f == vl.fr && fmt.Sprintf("%s#%d", f.path, l.id) == vl.id {
				continue
			}
			if f.cur != nil && l.body[f.cur] {
				_ = h
				hs = append(hs, l)
			}
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i].id < hs[j].id })
		for _, l := range hs {
			for _, in := range l.head.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				v, ok := f.env[p].(*Term)
				if !ok {
					continue
				}
				out = append(out, lvar{name: "outer." + p.Comment + p.Name(), typ: p.Type(), get: func(st *State, vals []Val) Val { return v }})
			}
		}
	}
	return out
}

// visitedT is the type of the template variable for the visited keys of a range over a map.
var visitedT types.Type = types.NewNamed(types.NewTypeName(0, nil, "visited", nil), types.Typ[types.Bool], nil)

func templateVars(e ast.Expr) []string {
	seen := map[string]bool{}
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && strings.HasPrefix(id.Name, "V_") {
			seen[id.Name] = true
		}
		return true
	})
	return sortedKeys(seen)
}

// kinds of template variables by first letter: i,j,k,n int; s,t slice; b bool; x string; r ref/pointer; m map
func varMatches(v string, t types.Type) bool {
	if t == visitedT || v[2] == 'v' {
		return t == visitedT && v[2] == 'v'
	}
	s := sortOf(t)
	switch v[2] {
	case 'i', 'j', 'k', 'n':
		return s == SInt
	case 's', 't':
		return s == SSlice
	case 'b':
		return s == SBool
	case 'x', 'y':
		return s == SStr
	case 'm':
		_, ok := t.Underlying().(*types.Map)
		return ok
	case 'r', 'e':
		return s == SRef
	}
	return false
}

// cellNo numbers the havocked slice cells of a heap component in order.
func (vl *vloop) cellNo(k string, i *Term) int {
	if vl.cells == nil {
		vl.cells = map[string][]*Term{}
	}
	for n, t := range vl.cells[k] {
		if t == i {
			return n
		}
	}
	vl.cells[k] = append(vl.cells[k], i)
	return len(vl.cells[k]) - 1
}

func (ex *Exec) makeCands(vl *vloop, entry, cur *State) []*Candidate {
	var out []*Candidate
	add := func(name, src string, gen func(st *State, vals []Val) *Term) {
		n := vl.id + " " + name
		if ex.dead[n] {
			return
		}
		c := &Candidate{name: n, src: src}
		c.gen = func(st *State, vals []Val) (r *Term) {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(specErr); ok {
						r = nil
						ex.dead[n] = true
						return
					}
					if _, ok := e.(unsupported); ok {
						r = nil
						ex.dead[n] = true
						return
					}
					if s, ok := e.(string); ok && strings.Contains(s, "sort mismatch") {
						r = nil
						ex.dead[n] = true
						return
					}
					panic(e)
				}
			}()
			return gen(st, vals)
		}
		if c.gen(cur, vl.phiVals()) == nil {
			return
		}
		out = append(out, c)
	}
	if ex.rootC.Plain {
		return out
	}
	// automatic: bounds
	for i, p := range vl.phis {
		if sortOf(p.Type()) != SInt {
			continue
		}
		iv, ok := vl.initVals[i].(*Term)
		if !ok {
			continue
		}
		if _, isT := vl.fr.env[p].(*Term); !isT {
			continue
		}
		add("lo:"+p.Name(), "", func(st *State, vals []Val) *Term { return mkLe(iv, vals[i].(*Term)) })
		add("hi:"+p.Name(), "", func(st *State, vals []Val) *Term { return mkLe(vals[i].(*Term), iv) })
		// non-negative
		add("nn:"+p.Name(), "", func(st *State, vals []Val) *Term { return mkLe(mkInt(0), vals[i].(*Term)) })
	}
	for i, p := range vl.phis {
		if t, ok := vl.fr.env[p].(*Term); ok && t.sort == SSlice && t.op == "sl" {
			add("off0:"+p.Name(), "", func(st *State, vals []Val) *Term { return mkEq(slOff(vals[i].(*Term)), mkInt(0)) })
		}
	}
	for k, cells := range vl.cells {
		for n, i := range cells {
			add(fmt.Sprintf("off0:%s:%d", k, n), "", func(st *State, vals []Val) *Term {
				h := st.heap[k]
				if h == nil {
					h = ex.init[k]
				}
				return mkEq(slOff(mkSelect(h, i)), mkInt(0))
			})
		}
	}
	for n, v := range vl.extra {
		add(fmt.Sprintf("xlo%d", n), "", func(st *State, vals []Val) *Term { return mkLe(mkInt(0), v.get(st, vals).(*Term)) })
		if vl.extraLim != nil {
			add(fmt.Sprintf("xhi%d", n), "", func(st *State, vals []Val) *Term { return mkLe(v.get(st, vals).(*Term), vl.extraLim) })
		}
	}
	for _, h := range vl.hints {
		add("lim:"+h.name, "", func(st *State, vals []Val) *Term {
			return mkLt(vals[h.phi].(*Term), h.lim)
		})
		add("limle:"+h.name, "", func(st *State, vals []Val) *Term {
			return mkLe(mkAdd(vals[h.phi].(*Term), mkInt(0)), h.lim)
		})
		add("limz:"+h.name, "", func(st *State, vals []Val) *Term {
			return mkOr(mkLt(vals[h.phi].(*Term), h.lim), mkLt(h.lim, mkInt(1)))
		})
	}
	// automatic: scalar phis and cells keep a relation to their initial value
	for n, v := range vl.vars {
		if strings.HasPrefix(v.name, "outer.") || strings.HasPrefix(v.name, "in.") {
			continue
		}
		var init *Term
		func() {
			defer func() { recover() }()
			init, _ = v.get(entry, vl.initVals).(*Term)
		}()
		if init == nil {
			continue
		}
		add(fmt.Sprintf("same:%s%d", v.name, n), "", func(st *State, vals []Val) *Term {
			t, ok := v.get(st, vals).(*Term)
			if !ok {
				return nil
			}
			return mkEq(t, init)
		})
		if init.sort == SBool {
			continue
		}
		if init.sort == SSlice {
			add(fmt.Sprintf("slok:%s%d", v.name, n), "", func(st *State, vals []Val) *Term {
				t := v.get(st, vals).(*Term)
				return mkAnd(mkEq(slOff(t), mkInt(0)), mkOr(mkLt(entry.now, birth(slArr(t))), mkEq(slLen(t), mkInt(0)), mkEq(t, init)))
			})
			// length of an accumulator bounded by an index
			for m, w := range vl.vars {
				if sortOf(w.typ) != SInt || strings.HasPrefix(w.name, "outer.") {
					continue
				}
				for d := int64(0); d <= 1; d++ {
					add(fmt.Sprintf("sllen:%s%d<=%s%d+%d", v.name, n, w.name, m, d), "", func(st *State, vals []Val) *Term {
						t := v.get(st, vals).(*Term)
						u := w.get(st, vals).(*Term)
						return mkLe(slLen(t), mkAdd(u, mkInt(d)))
					})
				}
			}
		}
	}
	// templates
	type tmpl struct {
		c   *Clause
		fc  *FuncContract
		env *Env
	}
	var tms []tmpl
	seenC := map[*FuncContract]bool{}
	for f := vl.fr; f != nil; f = f.parent {
		fn := f.fn
		for fn.Parent() != nil && ex.spec.Funcs[fn.String()] == nil {
			fn = fn.Parent()
		}
		fc := ex.spec.Funcs[f.fn.String()]
		if fc == nil || seenC[fc] || ex.rootC == fc && f.parent != nil {
			continue
		}
		seenC[fc] = true
		names := map[string]EV{}
		for i, p := range f.fn.Params {
			if i < len(fc.Params) {
				names[fc.Params[i]] = EV{f.env[p], p.Type()}
			}
		}
		missing := map[string]bool{}
		for _, l := range fc.Locals {
			if v, ok := ex.findLocal(f, l[1]); ok {
				names[l[0]] = v
			} else {
				missing[l[0]] = true
			}
		}
		for _, c := range fc.Clauses {
			if c.Kind == "invariant" && c.active(ex.curProp) && !mentions(c.Expr, missing) {
				tms = append(tms, tmpl{c, fc, &Env{ex: ex, names: names, reveal: ex.rootC.revealMap()}})
			}
		}
	}
	for ti, t := range tms {
		vars := templateVars(t.c.Expr)
		// enumerate assignments
		var rec func(k int, env *Env, used string, binds []func(st *State, vals []Val) EV)
		rec = func(k int, env *Env, used string, binds []func(st *State, vals []Val) EV) {
			if k == len(vars) {
				add(fmt.Sprintf("%s@%d:%s", t.c.Line, ti, used), t.c.Src, func(st *State, vals []Val) *Term {
					e := *t.env
					e.st = st
					e.old = ex.entry
					e.entry = entry
					e.names = map[string]EV{}
					for n, v := range t.env.names {
						e.names[n] = v
					}
					for i, b := range binds {
						e.names[vars[i]] = b(st, vals)
					}
					e.names["V_loop"] = EV{mkTrue(), boolT}
					return ex.evalBool(t.c.Expr, &e)
				})
				return
			}
			for n, v := range vl.vars {
				if !varMatches(vars[k], v.typ) {
					continue
				}
				deltas := []int64{0}
				if v.typ != visitedT && sortOf(v.typ) == SInt {
					deltas = []int64{0, 1}
				}
				for _, d := range deltas {
					b := func(st *State, vals []Val) EV {
						x := v.get(st, vals)
						if d != 0 {
							x = mkAdd(x.(*Term), mkInt(d))
						}
						return EV{x, v.typ}
					}
					rec(k+1, env, fmt.Sprintf("%s,%s%d+%d", used, v.name, n, d), append(append([]func(*State, []Val) EV(nil), binds...), b))
				}
			}
		}
		rec(0, nil, "", nil)
	}
	return out
}

func (c *FuncContract) revealMap() map[string]bool {
	if c == nil {
		return nil
	}
	return c.Reveal
}

func (ex *Exec) checkInv(vl *vloop, s *State, vals []Val, kind string) {
	for i, p := range vl.phis {
		switch iv := vl.initVals[i].(type) {
		case *PtrV:
			b, ok := vals[i].(*PtrV)
			if !ok || b.key != iv.key || b.base != iv.base || b.idx != iv.idx {
				panic(unsupported("loop-carried interior pointer in " + vl.fnName))
			}
		case *CloV:
			b, ok := vals[i].(*CloV)
			if !ok || b.fn != iv.fn {
				panic(unsupported("loop-carried function value in " + vl.fnName))
			}
		}
		_ = p
	}
	if ex.dry > 0 {
		return
	}
	for _, c := range vl.cands {
		t := c.gen(s, vals)
		if t == nil {
			continue
		}
		o := ex.oblige(s, kind, c.name, t, vl.pos)
		o.cand = c.name
	}
}

// tryUnroll executes a loop with concrete control up to a small bound. Returns false (and leaves the
// state untouched) when the loop condition is not concrete.
func (ex *Exec) tryUnroll(fr *Frame, l *loop, cur *State, exit func(pred, succ *ssa.BasicBlock, s *State)) bool {
	// the header must end in If, with a condition that folds
	if _, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If); !ok {
		return false
	}
	var phis []*ssa.Phi
	for _, in := range l.head.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	// cheap pre-check: some int phi starts from a constant
	okInt := false
	for _, p := range phis {
		if t, ok := fr.env[p].(*Term); ok && (t.op == "int") {
			okInt = true
		}
	}
	if !okInt {
		return false
	}
	type snap struct{ f, o, c, i int }
	sn := snap{len(ex.facts), len(ex.obls), len(ex.copies), len(ex.idxTerms)}
	savedEnv := map[ssa.Value]Val{}
	for k, v := range fr.env {
		savedEnv[k] = v
	}
	nrets := len(fr.rets)
	saveBacks := fr.backs
	type ex1 struct {
		pred, succ *ssa.BasicBlock
		s          *State
		vals       map[ssa.Value]Val
	}
	var exits []ex1
	live := liveOut(fr.fn, l)
	restore := func() {
		ex.facts, ex.obls, ex.copies, ex.idxTerms = ex.facts[:sn.f], ex.obls[:sn.o], ex.copies[:sn.c], ex.idxTerms[:sn.i]
		fr.env = savedEnv
		fr.rets = fr.rets[:nrets]
		fr.backs = saveBacks
	}
	st := cur.clone()
	for n := 0; ; n++ {
		if n > 14 {
			restore()
			return false
		}
		u := &unrollCtx{head: l.head}
		fr.backs = nil
		u.exit = func(pred, succ *ssa.BasicBlock, s *State) {
			vals := map[ssa.Value]Val{}
			for _, v := range live {
				if x, ok := fr.env[v]; ok {
					vals[v] = x
				}
			}
			exits = append(exits, ex1{pred, succ, s, vals})
		}
		ex.runRegion(fr, l.head, st, l.body, l.head, u)
		if !u.folded {
			restore()
			return false
		}
		if len(u.backs) == 0 {
			break
		}
		// merge back edges: phis
		sts := make([]*State, len(u.backs))
		gs := make([]*Term, len(u.backs))
		for i, b := range u.backs {
			sts[i], gs[i] = b.s, b.s.guard
		}
		st = ex.mergeStates(sts)
		conds := discriminators(gs)
		for pi, p := range phis {
			var acc Val
			for i := len(u.backs) - 1; i >= 0; i-- {
				if acc == nil {
					acc = u.backs[i].vals[pi]
				} else {
					acc = ex.iteVal(conds[i], u.backs[i].vals[pi], acc, p.Type())
				}
			}
			fr.env[p] = acc
		}
	}
	fr.backs = saveBacks
	// merge live-out values over exits
	for _, v := range live {
		var acc Val
		for i := len(exits) - 1; i >= 0; i-- {
			x, ok := exits[i].vals[v]
			if !ok {
				continue
			}
			if acc == nil {
				acc = x
			} else {
				acc = ex.iteVal(exits[i].s.guard, x, acc, v.Type())
			}
		}
		if acc != nil {
			fr.env[v] = acc
		}
	}
	for _, e := range exits {
		// phi inputs must be read with the values of that iteration
		sv := map[ssa.Value]Val{}
		for k, x := range e.vals {
			sv[k] = fr.env[k]
			fr.env[k] = x
		}
		exit(e.pred, e.succ, e.s)
		for k, x := range sv {
			fr.env[k] = x
		}
	}
	return true
}

type unrollCtx struct {
	head   *ssa.BasicBlock
	folded bool
	backs  []unrollBack
	exit   func(pred, succ *ssa.BasicBlock, s *State)
}

type unrollBack struct {
	s    *State
	vals []Val
}

func liveOut(fn *ssa.Function, l *loop) []ssa.Value {
	var out []ssa.Value
	for _, b := range fn.Blocks {
		if !l.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if !l.body[r.Block()] {
					out = append(out, v)
					break
				}
			}
		}
	}
	return out
}

// findLocal: the object of the given pointer type that frame f works on (its first allocation or result of that type).
func (ex *Exec) findLocal(f *Frame, typ string) (EV, bool) {
	t, err := ex.spec.parseType(typ)
	if err != nil {
		return EV{}, false
	}
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || !types.Identical(v.Type(), t) {
				continue
			}
			if tm, ok := f.env[v].(*Term); ok {
				return EV{tm, t}, true
			}
		}
	}
	return EV{}, false
}

func mentions(e ast.Expr, names map[string]bool) bool {
	r := false
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && names[id.Name] {
			r = true
		}
		return true
	})
	return r
}

// builtHere: the slice is nil or its array is allocated by this function (literals, make and append only).
func builtHere(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		if _, ok := x.X.(*ssa.Alloc); ok {
			return true
		}
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			return builtHere(x.X, seen)
		}
		return false
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "append" && builtHere(x.Call.Args[0], seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !builtHere(e, seen) {
				return false
			}
		}
		return true
	}
	return false
}
