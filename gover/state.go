package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value: *Term, *StructV, *PtrV, *CloV, TupleV, *IterV, *ssa.Builtin marker.
type Val interface{}

type TupleV []Val

// StructV is a lazily read struct value.
type StructV struct {
	typ   types.Type
	field func(i int) Val
	ref   *Term            // when backed by a heap object
	heap  map[string]*Term // snapshot
}

// PtrV is a pointer to a non-struct location inside an object.
type PtrV struct {
	elem types.Type // pointee type
	key  string     // heap key
	base *Term      // base ref
	idx  *Term      // element index (nil for fields)
}

// CloV is a statically known function value.
type CloV struct {
	fn       *ssa.Function
	bindings []Val
	term     *Term
	// bound interface method (x.M as value)
	recv Val
}

type IterV struct {
	m     *Term // map ref
	mt    *types.Map
	str   *Term // string iteration (opaque)
	key   string
	arity int
}

type pend struct {
	clo   *CloV
	args  []Val
	guard *Term // still pending under this condition
	instr ssa.Instruction
}

type State struct {
	guard *Term
	heap  map[string]*Term
	now   *Term
	pend  []pend
	defs  []deferEntry
}

type deferEntry struct {
	fr    *Frame
	guard *Term
	instr *ssa.Defer
	fn    Val
	args  []Val
}

func (s *State) clone() *State {
	h := make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	n := &State{guard: s.guard, heap: h, now: s.now}
	n.pend = append([]pend(nil), s.pend...)
	n.defs = append([]deferEntry(nil), s.defs...)
	return n
}

func (s *State) with(c *Term) *State {
	n := s.clone()
	n.guard = mkAnd2(s.guard, c)
	return n
}

// ---- type helpers ----

func typeName(t types.Type) string {
	t = types.Unalias(t)
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

// scalarTypes are struct types treated as opaque scalars.
var scalarTypes = map[string]string{
	"time.Time": SInt,
	"k8s.io/apimachinery/pkg/api/resource.Quantity": SInt,
	"github.com/go-logr/logr.Logger":                SOpq,
	"sync.Mutex":                                    SOpq,
	"sync.RWMutex":                                  SOpq,
	"sync.WaitGroup":                                SOpq,
	"sync.Once":                                     SOpq,
	"time.Location":                                 SOpq,
	"sync/atomic.Int64":                             SInt,
	"reflect.Value":                                 SOpq,
}

func isStructT(t types.Type) bool {
	if _, ok := scalarTypes[typeName(t)]; ok {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func isArrayT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Array)
	return ok
}

func sortOf(t types.Type) string {
	if s, ok := scalarTypes[typeName(t)]; ok {
		return s
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsFloat != 0:
			return SFlt
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return SRef
		case u.Kind() == types.Invalid:
			return SOpq
		}
		return SOpq
	case *types.Slice:
		return SSlice
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return SRef
	case *types.Struct, *types.Array:
		return SRef // by reference to the backing object
	case *types.Tuple:
		return SOpq
	}
	return SOpq
}

func intRange(t types.Type) (lo, hi string, bits int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return
	}
	switch b.Kind() {
	case types.Int8:
		return "-128", "127", 8, true, true
	case types.Int16:
		return "-32768", "32767", 16, true, true
	case types.Int32:
		return "-2147483648", "2147483647", 32, true, true
	case types.Int64, types.Int:
		return "-9223372036854775808", "9223372036854775807", 64, true, true
	case types.Uint8:
		return "0", "255", 8, false, true
	case types.Uint16:
		return "0", "65535", 16, false, true
	case types.Uint32:
		return "0", "4294967295", 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return "0", "18446744073709551615", 64, false, true
	}
	return
}

func structOf(t types.Type) *types.Struct { return t.Underlying().(*types.Struct) }

func fieldKey(t types.Type, i int) string {
	return "F:" + typeName(t) + "." + structOf(t).Field(i).Name()
}

func subRef(t types.Type, i int, base *Term) *Term {
	return mkUF("sub$"+typeName(t)+"."+structOf(t).Field(i).Name(), SRef, base)
}

func eltRef(arr, idx *Term) *Term { return mkUF("elt", SRef, arr, idx) }

func elemKey(t types.Type) string { return "S:" + typeName(t) }
func cellKey(t types.Type) string { return "C:" + typeName(t) }
func mapKeys(m *types.Map) (string, string, string) {
	n := typeName(m.Key()) + "=>" + typeName(m.Elem())
	return "M:" + n, "MD:" + n, "ML:" + n
}

// ---- heap access ----

// heapSorts remembers the sort of each heap key.
func (ex *Exec) heapGet(h map[string]*Term, key, srt string) *Term {
	if ex.recording != nil {
		ex.recording[key] = true
	}
	if t, ok := h[key]; ok {
		return t
	}
	return ex.initHeap(key, srt)
}

func (ex *Exec) initHeap(key, srt string) *Term {
	if t, ok := ex.init[key]; ok {
		return t
	}
	t := mkConst("H0:"+key, srt)
	ex.init[key] = t
	ex.initOrder = append(ex.initOrder, key)
	// lazily apply earlier copies onto fresh objects
	for _, c := range ex.copies {
		if f := c(key, t); f != nil {
			ex.fact(f)
		}
	}
	return t
}

func (ex *Exec) get(st *State, key, srt string) *Term { return ex.heapGet(st.heap, key, srt) }
func (ex *Exec) set(st *State, key string, v *Term) {
	// a key that has never been read must have its initial constant registered, so merges see it
	if _, ok := ex.init[key]; !ok {
		ex.initHeap(key, v.sort)
	}
	st.heap[key] = v
}

func (ex *Exec) loadField(h map[string]*Term, t types.Type, i int, base *Term) Val {
	ft := structOf(t).Field(i).Type()
	if isStructT(ft) {
		return ex.lazyStruct(ft, subRef(t, i, base), h)
	}
	if isArrayT(ft) {
		return subRef(t, i, base)
	}
	a := ex.heapGet(h, fieldKey(t, i), SArr(SRef, sortOf(ft)))
	v := mkSelect(a, base)
	ex.typeFacts(v, ft)
	return ex.wrapClo(v)
}

func (ex *Exec) wrapClo(v *Term) Val {
	if c, ok := ex.closures[v.id]; ok {
		return c
	}
	return v
}

func (ex *Exec) lazyStruct(t types.Type, ref *Term, h map[string]*Term) *StructV {
	snap := make(map[string]*Term, len(h))
	for k, v := range h {
		snap[k] = v
	}
	s := &StructV{typ: t, ref: ref, heap: snap}
	s.field = func(i int) Val { return ex.loadField(snap, t, i, ref) }
	return s
}

func (ex *Exec) zeroStruct(t types.Type) *StructV {
	s := &StructV{typ: t}
	s.field = func(i int) Val { return ex.zero(structOf(t).Field(i).Type()) }
	return s
}

func (ex *Exec) zero(t types.Type) Val {
	if isStructT(t) {
		return ex.zeroStruct(t)
	}
	if tu, ok := t.(*types.Tuple); ok {
		var r TupleV
		for i := 0; i < tu.Len(); i++ {
			r = append(r, ex.zero(tu.At(i).Type()))
		}
		return r
	}
	switch sortOf(t) {
	case SBool:
		return mkFalse()
	case SInt:
		return mkInt(0)
	case SStr:
		return mkStrLit("")
	case SSlice:
		return nilSlice()
	case SFlt:
		return mkConst("flt:0", SFlt)
	case SOpq:
		return mkConst("opq:"+typeName(t), SOpq)
	}
	if isArrayT(t) {
		return freshAllocConst("zarr")
	}
	return mkNull()
}

func freshAllocConst(base string) *Term {
	t := freshConst("new$"+base, SRef)
	t.alloc = true
	return t
}

// storeStruct writes struct value v at ref.
func (ex *Exec) storeStruct(st *State, t types.Type, ref *Term, v *StructV) {
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if s.Field(i).Name() == "_" {
			continue
		}
		if isStructT(ft) {
			fv, ok := v.field(i).(*StructV)
			if !ok {
				panic(unsupported("struct field value"))
			}
			ex.storeStruct(st, ft, subRef(t, i, ref), fv)
			continue
		}
		if isArrayT(ft) {
			continue // arrays in structs are not tracked
		}
		key := fieldKey(t, i)
		fv := ex.term(v.field(i), ft)
		ex.set(st, key, mkStore(ex.get(st, key, SArr(SRef, sortOf(ft))), ref, fv))
	}
}

// copyObj makes fresh object dst a shallow copy of src (struct type t), lazily for untouched keys.
func (ex *Exec) copyObj(st *State, t types.Type, dst, src *Term) {
	type leaf struct {
		key      string
		dst, src *Term
		ft       types.Type
	}
	var leaves []leaf
	var walk func(t types.Type, d, s *Term, depth int)
	walk = func(t types.Type, d, s *Term, depth int) {
		su := structOf(t)
		for i := 0; i < su.NumFields(); i++ {
			ft := su.Field(i).Type()
			if isStructT(ft) {
				walk(ft, subRef(t, i, d), subRef(t, i, s), depth+1)
				continue
			}
			if isArrayT(ft) {
				continue
			}
			leaves = append(leaves, leaf{fieldKey(t, i), d, s, ft})
		}
	}
	walk(t, dst, src, 0)
	byKey := map[string][]leaf{}
	for _, l := range leaves {
		byKey[l.key] = append(byKey[l.key], l)
	}
	keys := make([]string, 0, len(byKey))
	for k := range byKey {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if _, touched := ex.init[k]; !touched {
			continue
		}
		for _, l := range byKey[k] {
			a := ex.get(st, l.key, SArr(SRef, sortOf(l.ft)))
			ex.set(st, l.key, mkStore(a, l.dst, mkSelect(a, l.src)))
		}
	}
	untouched := map[string]bool{}
	for _, k := range keys {
		if _, touched := ex.init[k]; !touched {
			untouched[k] = true
		}
	}
	g := st.guard
	ex.copies = append(ex.copies, func(key string, h0 *Term) *Term {
		if !untouched[key] {
			return nil
		}
		var fs []*Term
		for _, l := range byKey[key] {
			fs = append(fs, mkEq(mk("select", "", sortOf(l.ft), h0, l.dst), mk("select", "", sortOf(l.ft), h0, l.src)))
		}
		return mkImp(g, mkAnd(fs...))
	})
}

// term converts a value to a single term.
func (ex *Exec) term(v Val, t types.Type) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *PtrV:
		if x.idx == nil {
			return mkUF("fptr$"+x.key, SRef, x.base)
		}
		return mkUF("eptr$"+x.key, SRef, x.base, x.idx)
	case *CloV:
		if x.term == nil {
			x.term = freshAllocConst("clo")
			ex.closures[x.term.id] = x
		}
		return x.term
	case *StructV:
		if x.ref != nil {
			return x.ref
		}
		panic(unsupported("struct value used as scalar: " + typeName(x.typ)))
	case nil:
		panic(unsupported("nil Val of type " + typeName(t)))
	}
	panic(unsupported(fmt.Sprintf("value %T as term", v)))
}

type unsupported string

func (u unsupported) Error() string { return "unsupported: " + string(u) }

// iteVal merges two values.
func (ex *Exec) iteVal(c *Term, a, b Val, t types.Type) Val {
	if a == b {
		return a
	}
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	switch x := a.(type) {
	case TupleV:
		y := b.(TupleV)
		r := make(TupleV, len(x))
		tu, _ := t.(*types.Tuple)
		for i := range x {
			var et types.Type
			if tu != nil {
				et = tu.At(i).Type()
			}
			r[i] = ex.iteVal(c, x[i], y[i], et)
		}
		return r
	case *StructV:
		y := b.(*StructV)
		s := &StructV{typ: x.typ}
		s.field = func(i int) Val { return ex.iteVal(c, x.field(i), y.field(i), structOf(x.typ).Field(i).Type()) }
		return s
	case *PtrV:
		if y, ok := b.(*PtrV); ok && x.key == y.key {
			n := &PtrV{elem: x.elem, key: x.key, base: mkIte(c, x.base, y.base)}
			if x.idx != nil {
				n.idx = mkIte(c, x.idx, y.idx)
			}
			return n
		}
		if y, ok := b.(*Term); ok && isNull(y) {
			// pointer or nil: keep as term; loads through it are cells
			return mkIte(c, ex.term(a, t), y)
		}
	case *IterV:
		return x
	}
	ta, tb := ex.term(a, t), ex.term(b, t)
	return ex.wrapClo(mkIte(c, ta, tb))
}

// typeFacts emits well-typedness facts for a value read from memory or received from outside.
func (ex *Exec) typeFacts(v *Term, t types.Type) {
	if v.bound || v.op == "int" || v.op == "str" || v.op == "ite" || v.op == "true" || v.op == "false" {
		if v.op == "ite" {
			ex.typeFacts(v.args[1], t)
			ex.typeFacts(v.args[2], t)
		}
		return
	}
	if ex.typed[v.id] {
		return
	}
	ex.typed[v.id] = true
	switch v.sort {
	case SInt:
		if lo, hi, _, _, ok := intRange(t); ok {
			ex.fact(mkAnd(mkLe(mkBigInt(lo), v), mkLe(v, mkBigInt(hi))))
		}
	case SSlice:
		if v.op != "sl" {
			ex.fact(mkAnd(mkLe(mkInt(0), slLen(v)), mkLe(mkInt(0), slOff(v)),
				mkImp(mkEq(slArr(v), mkNull()), mkEq(slLen(v), mkInt(0)))))
		}
	case SRef:
		if initialSelect(v) {
			ex.fact(mkLe(birth(v), mkInt(0)))
		} else if b := heapBase(v); b != nil && !v.any && !v.bound && !b.alloc {
			ex.fact(mkOr(mkLe(birth(v), mkInt(0)), mkLe(birth(v), birth(b))))
		}
	}
}

func birth(r *Term) *Term { return mkUF("birth", SInt, r) }

// initialSelect: v is a read of the initial heap (or a parameter).
// initialSelect: v is certainly the value of a location that existed on entry, as it was then.
func initialSelect(v *Term) bool {
	if v.any {
		return false
	}
	switch v.op {
	case "select":
		b := heapBase(v)
		return b != nil && initialSelect(b)
	case "const":
		return strings.HasPrefix(v.name, "p!") || strings.HasPrefix(v.name, "gval:") || strings.HasPrefix(v.name, "glob:") || v.name == "null"
	case "slarr":
		return initialSelect(v.args[0])
	case "uf":
		if strings.HasPrefix(v.name, "sub$") || v.name == "elt" {
			return initialSelect(v.args[0])
		}
	}
	return false
}

// heapBase: the object a value was read from in the initial heap, nil if v is no such value.
func heapBase(v *Term) *Term {
	if v.op != "select" {
		return nil
	}
	a, b := v.args[0], v.args[1]
	for a.op == "select" {
		a, b = a.args[0], a.args[1]
	}
	if a.op == "const" && strings.HasPrefix(a.name, "H0:") && b.sort == SRef {
		return b
	}
	return nil
}

func noAlloc(t *Term) bool {
	if t.alloc {
		return false
	}
	for _, a := range t.args {
		if !noAlloc(a) {
			return false
		}
	}
	return true
}
