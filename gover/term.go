package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed SMT term.
type Term struct {
	op    string // "const","int","true","false","str","var","forall","exists", or an SMT/UF operator
	name  string // for const/var/str/int/uf
	args  []*Term
	sort  string
	id    int
	bound bool // contains a bound variable
	any   bool // contains a constant that may denote any value (skolem) or bound var
	alloc bool // fresh allocation constant
	leaf  int  // largest id of a state-dependent leaf constant
	pats  [][]*Term
}

const (
	SBool  = "Bool"
	SInt   = "Int"
	SStr   = "Str"
	SRef   = "Ref"
	SSlice = "Slice"
	SFlt   = "Flt"
	SOpq   = "Opq"
)

func SArr(k, v string) string { return "(Array " + k + " " + v + ")" }

// arraySorts splits "(Array K V)".
func arraySorts(s string) (string, string) {
	if !strings.HasPrefix(s, "(Array ") {
		return "", ""
	}
	body := s[len("(Array ") : len(s)-1]
	depth := 0
	for i, c := range body {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return body[:i], body[i+1:]
			}
		}
	}
	return "", ""
}

type TermTab struct {
	tab    map[string]*Term
	n      int
	strs   []*Term
	consts []*Term
	ufs    map[string]string // name -> declaration "(s1 s2) r"
	ufOrd  []string
	fresh  map[string]int
}

var tt *TermTab

func newTermTab() *TermTab {
	return &TermTab{tab: map[string]*Term{}, ufs: map[string]string{}, fresh: map[string]int{}}
}

func mk(op, name, srt string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(srt)
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := tt.tab[k]; ok {
		return t
	}
	tt.n++
	t := &Term{op: op, name: name, args: args, sort: srt, id: tt.n}
	for _, a := range args {
		t.bound = t.bound || a.bound
		t.any = t.any || a.any
		if a.leaf > t.leaf {
			t.leaf = a.leaf
		}
	}
	if op == "const" && name != "null" && !strings.HasPrefix(name, "H0:") && !strings.HasPrefix(name, "glob:") && !strings.HasPrefix(name, "gval:") && !strings.HasPrefix(name, "flt:") && !strings.HasPrefix(name, "opq:") {
		t.leaf = t.id
	}
	if op == "var" {
		t.bound, t.any = true, true
	}
	tt.tab[k] = t
	if op == "const" {
		tt.consts = append(tt.consts, t)
	}
	if op == "str" {
		tt.strs = append(tt.strs, t)
	}
	return t
}

func mkConst(name, srt string) *Term { return mk("const", name, srt) }

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' || c == '$' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func freshConst(base, srt string) *Term {
	base = sanitize(base)
	tt.fresh[base]++
	return mkConst(fmt.Sprintf("%s!%d", base, tt.fresh[base]), srt)
}

func mkInt(n int64) *Term { return mk("int", strconv.FormatInt(n, 10), SInt) }
func mkBigInt(s string) *Term {
	return mk("int", s, SInt)
}
func mkTrue() *Term  { return mk("true", "", SBool) }
func mkFalse() *Term { return mk("false", "", SBool) }
func mkBool(b bool) *Term {
	if b {
		return mkTrue()
	}
	return mkFalse()
}
func mkStrLit(s string) *Term { return mk("str", s, SStr) }
func mkNull() *Term           { return mkConst("null", SRef) }
func mkVar(name, srt string) *Term {
	return mk("var", name, srt)
}

func isTrue(t *Term) bool  { return t.op == "true" }
func isFalse(t *Term) bool { return t.op == "false" }
func isNull(t *Term) bool  { return t.op == "const" && t.name == "null" }

func intVal(t *Term) (int64, bool) {
	if t.op != "int" {
		return 0, false
	}
	n, err := strconv.ParseInt(t.name, 10, 64)
	return n, err == nil
}

func mkNot(a *Term) *Term {
	switch a.op {
	case "true":
		return mkFalse()
	case "false":
		return mkTrue()
	case "not":
		return a.args[0]
	}
	return mk("not", "", SBool, a)
}

func mkAnd(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if isTrue(a) || seen[a.id] {
			return true
		}
		if isFalse(a) {
			return false
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a.id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return mkFalse()
		}
	}
	for _, a := range out {
		if seen[mkNot(a).id] {
			return mkFalse()
		}
	}
	if len(out) == 0 {
		return mkTrue()
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "", SBool, out...)
}

// mkAnd2 conjoins without flattening (keeps path conditions shared).
func mkAnd2(a, b *Term) *Term {
	if isTrue(a) {
		return b
	}
	if isTrue(b) || a == b {
		return a
	}
	if isFalse(a) || isFalse(b) || mkNot(a) == b {
		return mkFalse()
	}
	return mk("and", "", SBool, a, b)
}

func mkOr(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if isFalse(a) || seen[a.id] {
			continue
		}
		if isTrue(a) {
			return mkTrue()
		}
		seen[a.id] = true
		out = append(out, a)
	}
	for _, a := range out {
		if seen[mkNot(a).id] {
			return mkTrue()
		}
	}
	if len(out) == 0 {
		return mkFalse()
	}
	if len(out) == 1 {
		return out[0]
	}
	// (and g c) or (and g (not c)) = g
	if len(out) == 2 && out[0].op == "and" && out[1].op == "and" && len(out[0].args) == 2 && len(out[1].args) == 2 &&
		out[0].args[0] == out[1].args[0] && mkNot(out[0].args[1]) == out[1].args[1] {
		return out[0].args[0]
	}
	return mk("or", "", SBool, out...)
}

func mkImp(a, b *Term) *Term {
	if isTrue(a) {
		return b
	}
	if isFalse(a) || isTrue(b) || a == b {
		return mkTrue()
	}
	if isFalse(b) {
		return mkNot(a)
	}
	return mk("=>", "", SBool, a, b)
}

// dryDepth counts the loop bodies being executed only to find what they change.
var dryDepth, dryMark int

func mkIte(c, a, b *Term) *Term {
	if a == b || isTrue(c) {
		return a
	}
	if isFalse(c) {
		return b
	}
	if c.op == "not" {
		return mkIte(c.args[0], b, a)
	}
	if a.sort == SBool {
		if isTrue(a) && isFalse(b) {
			return c
		}
		if isFalse(a) && isTrue(b) {
			return mkNot(c)
		}
		if isTrue(a) {
			return mkOr(c, b)
		}
		if isFalse(a) {
			return mkAnd2(mkNot(c), b)
		}
		if isTrue(b) {
			return mkOr(mkNot(c), a)
		}
		if isFalse(b) {
			return mkAnd2(c, a)
		}
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sort mismatch %s vs %s: %s / %s", a.sort, b.sort, a, b))
	}
	if dryDepth > 0 && strings.HasPrefix(a.sort, "(Array") {
		// keep the branches recognisable while the effects of a loop body are collected
		return mk("ite", "", a.sort, c, a, b)
	}
	// ite(c, a, ite(c, x, y)) = ite(c,a,y)
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
		if a == b {
			return a
		}
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
		if a == b {
			return a
		}
	}
	return mk("ite", "", a.sort, c, a, b)
}

// distinctTerms reports whether a and b are certainly different values.
func distinctTerms(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.op == "int" && b.op == "int" {
		return true
	}
	if a.op == "str" && b.op == "str" {
		return true
	}
	if a.sort == SRef {
		if isNull(a) && b.alloc || isNull(b) && a.alloc {
			return true
		}
		if a.alloc && b.alloc || apart(a, b) {
			return true
		}
		if a.alloc && b.leaf < a.id && !b.any && !b.bound {
			return true
		}
		if b.alloc && a.leaf < b.id && !a.any && !a.bound {
			return true
		}
		if a.op == "uf" && b.op == "uf" && strings.HasPrefix(a.name, "sub$") && strings.HasPrefix(b.name, "sub$") {
			if a.name == b.name {
				return distinctTerms(a.args[0], b.args[0])
			}
			return true // different fields
		}
		if a.op == "uf" && b.op == "uf" && (a.name == "elt" && strings.HasPrefix(b.name, "sub$") || b.name == "elt" && strings.HasPrefix(a.name, "sub$")) {
			return true // an element of a slice and a field
		}
		if a.op == "uf" && b.op == "uf" && a.name == "elt" && b.name == "elt" {
			return distinctTerms(a.args[0], b.args[0]) || a.args[0] == b.args[0] && distinctTerms(a.args[1], b.args[1])
		}
		if a.op == "uf" && a.name == "elt" && b.alloc || b.op == "uf" && b.name == "elt" && a.alloc {
			return true
		}
		if a.op == "uf" && strings.HasPrefix(a.name, "sub$") && b.alloc || b.op == "uf" && strings.HasPrefix(b.name, "sub$") && a.alloc {
			return true
		}
		if isNull(a) && b.op == "uf" && isIfaceBox(b.name) || isNull(b) && a.op == "uf" && isIfaceBox(a.name) {
			return true
		}
		if a.op == "uf" && b.op == "uf" && isIfaceBox(a.name) && isIfaceBox(b.name) {
			if a.name != b.name {
				return true
			}
			return distinctTerms(a.args[0], b.args[0])
		}
	}
	if a.sort == SInt {
		if b.bound && boundNe[b.id] == a && a != nil || a.bound && boundNe[a.id] == b {
			neHit = true
			return true
		}
		// x+c1 vs x+c2
		xa, ca := splitAdd(a)
		xb, cb := splitAdd(b)
		if xa == xb && ca != cb {
			return true
		}
	}
	return false
}

func isIfaceBox(n string) bool { return strings.HasPrefix(n, "box$") }

func splitAdd(a *Term) (*Term, int64) {
	if a.op == "+" && len(a.args) == 2 {
		if n, ok := intVal(a.args[1]); ok {
			return a.args[0], n
		}
	}
	return a, 0
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return mkTrue()
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sort mismatch %s vs %s: %s / %s", a.sort, b.sort, a, b))
	}
	if distinctTerms(a, b) {
		return mkFalse()
	}
	if a.sort == SBool {
		if isTrue(a) {
			return b
		}
		if isTrue(b) {
			return a
		}
		if isFalse(a) {
			return mkNot(b)
		}
		if isFalse(b) {
			return mkNot(a)
		}
	}
	// eq over ite with constants
	if a.op == "ite" && isLeafy(b) && (isLeafy(a.args[1]) || isLeafy(a.args[2])) {
		return mkIte(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
	}
	if b.op == "ite" && isLeafy(a) && (isLeafy(b.args[1]) || isLeafy(b.args[2])) {
		return mkIte(b.args[0], mkEq(a, b.args[1]), mkEq(a, b.args[2]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", SBool, a, b)
}

func isLeafy(t *Term) bool {
	return t.op == "int" || t.op == "str" || t.op == "true" || t.op == "false" || isNull(t) || t.alloc || t.op == "uf" && isIfaceBox(t.name)
}

func mkSelect(a, i *Term) *Term {
	ks, v := arraySorts(a.sort)
	if ks != i.sort {
		panic(fmt.Sprintf("select sort mismatch %s vs %s", ks, i.sort))
	}
	for {
		switch a.op {
		case "store":
			if a.args[1] == i {
				return a.args[2]
			}
			if distinctTerms(a.args[1], i) {
				a = a.args[0]
				continue
			}
		case "const":
			if h, ok := havocOf[a.id]; ok && !h.all && (!i.any && !i.bound && i.leaf <= h.mark || i.sort == SRef && initialTerm(i)) {
				a = h.old
				continue
			}
		case "constarr":
			return a.args[0]
		case "ite":
			if !i.bound {
				return mkIte(a.args[0], mkSelect(a.args[1], i), mkSelect(a.args[2], i))
			}
			if x := mkSelect(a.args[1], i); x == mkSelect(a.args[2], i) {
				return x
			}
		}
		break
	}
	return mk("select", "", v, a, i)
}

func mkStore(a, i, v *Term) *Term {
	_, vs := arraySorts(a.sort)
	if vs != v.sort {
		panic(fmt.Sprintf("store sort mismatch: %s <- %s", a.sort, v.sort))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if a.op == "select" {
	}
	return mk("store", "", a.sort, a, i, v)
}

func mkConstArr(srt string, v *Term) *Term { return mk("constarr", srt, srt, v) }

func mkAdd(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("add sort mismatch %s vs %s", a.sort, b.sort))
	}
	x, ok1 := intVal(a)
	y, ok2 := intVal(b)
	if ok1 && ok2 {
		return mkInt(x + y)
	}
	if ok1 {
		a, b = b, a
		y, ok2 = x, true
	}
	if ok2 {
		if y == 0 {
			return a
		}
		base, c := splitAdd(a)
		if c != 0 {
			return mkAdd(base, mkInt(c+y))
		}
	}
	return mk("+", "", SInt, a, b)
}

func mkNeg(a *Term) *Term {
	if n, ok := intVal(a); ok {
		return mkInt(-n)
	}
	return mk("-", "", SInt, a)
}

func mkSub(a, b *Term) *Term {
	if n, ok := intVal(b); ok {
		return mkAdd(a, mkInt(-n))
	}
	if a == b {
		return mkInt(0)
	}
	return mk("-", "", SInt, a, b)
}

func mkMul(a, b *Term) *Term {
	x, ok1 := intVal(a)
	y, ok2 := intVal(b)
	if ok1 && ok2 && abs64(x) < 1<<31 && abs64(y) < 1<<31 {
		return mkInt(x * y)
	}
	if ok1 && x == 1 {
		return b
	}
	if ok2 && y == 1 {
		return a
	}
	return mk("*", "", SInt, a, b)
}

func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// mkTDiv is Go's truncated division.
func mkTDiv(a, b *Term) *Term {
	x, ok1 := intVal(a)
	y, ok2 := intVal(b)
	if ok1 && ok2 && y != 0 {
		return mkInt(x / y)
	}
	if ok2 && y > 0 {
		return mkIte(mkLe(mkInt(0), a), mk("div", "", SInt, a, b), mkNeg(mk("div", "", SInt, mkNeg(a), b)))
	}
	aa := mkIte(mkLe(mkInt(0), a), a, mkNeg(a))
	bb := mkIte(mkLe(mkInt(0), b), b, mkNeg(b))
	q := mk("div", "", SInt, aa, bb)
	same := mkEq(mkLe(mkInt(0), a), mkLe(mkInt(0), b))
	return mkIte(same, q, mkNeg(q))
}

func mkTRem(a, b *Term) *Term {
	x, ok1 := intVal(a)
	y, ok2 := intVal(b)
	if ok1 && ok2 && y != 0 {
		return mkInt(x % y)
	}
	return mkSub(a, mkMul(mkTDiv(a, b), b))
}

func mkLe(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("le sort mismatch %s vs %s", a.sort, b.sort))
	}
	if a == b {
		return mkTrue()
	}
	x, ok1 := intVal(a)
	y, ok2 := intVal(b)
	if ok1 && ok2 {
		return mkBool(x <= y)
	}
	xa, ca := splitAdd(a)
	xb, cb := splitAdd(b)
	if xa == xb {
		return mkBool(ca <= cb)
	}
	return mk("<=", "", SBool, a, b)
}
func mkLt(a, b *Term) *Term { return mkNot(mkLe(b, a)) }

func mkUF(name, srt string, args ...*Term) *Term {
	name = sanitize(name)
	var ss []string
	for _, a := range args {
		ss = append(ss, a.sort)
	}
	decl := "(" + strings.Join(ss, " ") + ") " + srt
	if d, ok := tt.ufs[name]; ok {
		if d != decl {
			// overload by signature
			name = name + "$" + sanitize(strings.Join(ss, "_")+"_"+srt)
			if _, ok := tt.ufs[name]; !ok {
				tt.ufs[name] = decl
				tt.ufOrd = append(tt.ufOrd, name)
			}
		}
	} else {
		tt.ufs[name] = decl
		tt.ufOrd = append(tt.ufOrd, name)
	}
	if len(args) == 0 {
		return mkConst(name, srt)
	}
	return mk("uf", name, srt, args...)
}

func mkQuant(q string, v *Term, body *Term, pats ...[]*Term) *Term {
	if isTrue(body) || isFalse(body) {
		return body
	}
	t := mk(q, v.name, SBool, v, body)
	t.bound = hasOtherBound(body, map[string]bool{v.name: true})
	t.any = true
	t.pats = pats
	return t
}

// mkQuant2 quantifies over several variables at once (one multi-variable binder).
func mkQuant2(q string, vs []*Term, body *Term, pat []*Term) *Term {
	if len(vs) == 1 {
		return mkQuant(q, vs[0], body, pat)
	}
	t := mk(q, vs[0].name+","+vs[1].name, SBool, vs[0], vs[1], body)
	t.any = true
	t.bound = false
	t.pats = [][]*Term{pat}
	return t
}

func hasOtherBound(t *Term, bv map[string]bool) bool {
	if !t.bound {
		return false
	}
	if t.op == "var" {
		return !bv[t.name]
	}
	if t.op == "forall" || t.op == "exists" {
		nb := map[string]bool{t.name: true}
		for k := range bv {
			nb[k] = true
		}
		return hasOtherBound(t.args[1], nb)
	}
	for _, a := range t.args {
		if hasOtherBound(a, bv) {
			return true
		}
	}
	return false
}

// subst replaces term x by y.
func subst(t, x, y *Term) *Term {
	memo := map[int]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if t == x {
			return y
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = f(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t.id] = r
		return r
	}
	return f(t)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "not":
		return mkNot(args[0])
	case "and":
		return mkAnd(args...)
	case "or":
		return mkOr(args...)
	case "=>":
		return mkImp(args[0], args[1])
	case "ite":
		return mkIte(args[0], args[1], args[2])
	case "=":
		return mkEq(args[0], args[1])
	case "select":
		return mkSelect(args[0], args[1])
	case "store":
		return mkStore(args[0], args[1], args[2])
	case "+":
		return mkAdd(args[0], args[1])
	case "-":
		if len(args) == 1 {
			return mkNeg(args[0])
		}
		return mkSub(args[0], args[1])
	case "*":
		return mkMul(args[0], args[1])
	case "<=":
		return mkLe(args[0], args[1])
	case "uf":
		if strings.HasPrefix(t.name, "contains$") {
			return mkContains(args[0], args[1], args[2], args[3])
		}
		return mkUF(t.name, t.sort, args...)
	case "forall", "exists":
		return mkQuant(t.op, args[0], args[1], t.pats...)
	case "sl":
		return mkSlice(args[0], args[1], args[2])
	case "slarr":
		return slArr(args[0])
	case "sloff":
		return slOff(args[0])
	case "sllen":
		return slLen(args[0])
	}
	return mk(t.op, t.name, t.sort, args...)
}

// slices: datatype Slice = sl(slarr Ref, sloff Int, sllen Int)
func mkSlice(arr, off, ln *Term) *Term { return mk("sl", "", SSlice, arr, off, ln) }
func nilSlice() *Term                  { return mkSlice(mkNull(), mkInt(0), mkInt(0)) }
func slArr(s *Term) *Term {
	if s.op == "sl" {
		return s.args[0]
	}
	if s.op == "ite" {
		return mkIte(s.args[0], slArr(s.args[1]), slArr(s.args[2]))
	}
	return mk("slarr", "", SRef, s)
}
func slOff(s *Term) *Term {
	if s.op == "sl" {
		return s.args[1]
	}
	if s.op == "ite" {
		return mkIte(s.args[0], slOff(s.args[1]), slOff(s.args[2]))
	}
	if s.op == "select" || s.op == "const" && !strings.HasPrefix(s.name, "phi.") && !strings.HasPrefix(s.name, "hc:") && !strings.HasPrefix(s.name, "hv:") {
		if s.op == "const" || initArr(s.args[0]) {
			return mkInt(0)
		}
	}
	return mk("sloff", "", SInt, s)
}

// initArr: the array is (a part of) the initial heap.
func initArr(a *Term) bool {
	for a.op == "select" {
		a = a.args[0]
	}
	return a.op == "const" && strings.HasPrefix(a.name, "H0:")
}
func slLen(s *Term) *Term {
	if s.op == "sl" {
		return s.args[2]
	}
	if s.op == "ite" {
		return mkIte(s.args[0], slLen(s.args[1]), slLen(s.args[2]))
	}
	return mk("sllen", "", SInt, s)
}

// ---- printing ----

func symName(n string) string { return "|" + strings.ReplaceAll(n, "|", "_") + "|" }

func (t *Term) String() string {
	p := &printer{inline: true}
	s := p.expr(t)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

type printer struct {
	inline bool
	names  map[int]string
	defs   []string
	strIdx map[string]int
}

func (p *printer) head(t *Term) string {
	switch t.op {
	case "uf":
		return symName(t.name)
	case "constarr":
		return "(as const " + t.sort + ")"
	}
	return t.op
}

func (p *printer) expr(t *Term) string {
	if p.names != nil {
		if n, ok := p.names[t.id]; ok {
			return n
		}
	}
	switch t.op {
	case "const", "var":
		return symName(t.name)
	case "int":
		if strings.HasPrefix(t.name, "-") {
			return "(- " + t.name[1:] + ")"
		}
		return t.name
	case "true", "false":
		return t.op
	case "str":
		if p.inline {
			return strconv.Quote(t.name)
		}
		return symName("str:" + strconv.Itoa(t.id))
	case "forall", "exists":
		body := p.expr(t.args[len(t.args)-1])
		if len(t.pats) > 0 && t.op == "forall" {
			var b strings.Builder
			b.WriteString("(! " + body)
			for _, ps := range t.pats {
				b.WriteString(" :pattern (")
				for i, x := range ps {
					if i > 0 {
						b.WriteByte(' ')
					}
					b.WriteString(p.expr(x))
				}
				b.WriteByte(')')
			}
			b.WriteByte(')')
			body = b.String()
		}
		vs := ""
		for _, v := range t.args[:len(t.args)-1] {
			vs += "(" + symName(v.name) + " " + v.sort + ")"
		}
		return "(" + t.op + " (" + vs + ") " + body + ")"
	}
	var b strings.Builder
	b.WriteByte('(')
	b.WriteString(p.head(t))
	for _, a := range t.args {
		b.WriteByte(' ')
		b.WriteString(p.expr(a))
	}
	b.WriteByte(')')
	return b.String()
}

// emitScript renders facts and the goal (already negated terms list) as an SMT-LIB script.
func emitScript(asserts []*Term, getvals []*Term, logicHeader string) string {
	refs := map[int]int{}
	order := []*Term{}
	seen := map[int]bool{}
	usedConst := map[string]*Term{}
	usedUF := map[string]bool{}
	usedStr := map[int]*Term{}
	var walk func(t *Term)
	walk = func(t *Term) {
		refs[t.id]++
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		switch t.op {
		case "const":
			usedConst[t.name] = t
		case "uf":
			usedUF[t.name] = true
		case "str":
			usedStr[t.id] = t
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, ps := range t.pats {
			for _, x := range ps {
				walk(x)
			}
		}
		order = append(order, t)
	}
	for _, a := range asserts {
		walk(a)
	}
	for _, a := range getvals {
		walk(a)
	}
	var b strings.Builder
	b.WriteString(logicHeader)
	b.WriteString("(declare-sort Str 0)\n(declare-sort Ref 0)\n(declare-sort Flt 0)\n(declare-sort Opq 0)\n")
	b.WriteString("(declare-datatypes ((Slice 0)) (((sl (slarr Ref) (sloff Int) (sllen Int)))))\n")
	var strs []*Term
	for _, s := range usedStr {
		strs = append(strs, s)
	}
	sort.Slice(strs, func(i, j int) bool { return strs[i].id < strs[j].id })
	for _, s := range strs {
		fmt.Fprintf(&b, "(declare-const %s Str) ; %q\n", symName("str:"+strconv.Itoa(s.id)), s.name)
	}
	if len(strs) > 1 {
		b.WriteString("(assert (distinct")
		for _, s := range strs {
			b.WriteString(" " + symName("str:"+strconv.Itoa(s.id)))
		}
		b.WriteString("))\n")
	}
	var cs []*Term
	for _, c := range usedConst {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	for _, c := range cs {
		fmt.Fprintf(&b, "(declare-const %s %s)\n", symName(c.name), c.sort)
	}
	for _, n := range tt.ufOrd {
		if usedUF[n] {
			fmt.Fprintf(&b, "(declare-fun %s %s)\n", symName(n), tt.ufs[n])
		}
	}
	p := &printer{names: map[int]string{}}
	for _, t := range order {
		if len(t.args) == 0 || t.bound || refs[t.id] < 2 || t.op == "constarr" {
			continue
		}
		e := p.expr(t)
		n := fmt.Sprintf("d%d", t.id)
		fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, t.sort, e)
		p.names[t.id] = n
	}
	for _, a := range asserts {
		fmt.Fprintf(&b, "(assert %s)\n", p.expr(a))
	}
	b.WriteString("(check-sat)\n")
	if len(getvals) > 0 {
		b.WriteString("(get-value (")
		for _, g := range getvals {
			b.WriteString(p.expr(g) + " ")
		}
		b.WriteString("))\n")
	}
	return b.String()
}
