package main

import "strings"

// Path-sensitive simplification: the literals a path condition implies, and the values that depend on
// them.  It keeps the branches that an earlier check has excluded out of later conditions.

type lits struct {
	m map[int]bool // term id -> truth value
}

var litMemo = map[int]*lits{}

// resetTerms starts a new term table; everything keyed by term number starts afresh with it.
func resetTerms() {
	tt = newTermTab()
	havocOf = map[int]*havocInfo{}
	litMemo = map[int]*lits{}
	boundNe = map[int]*Term{}
	aboutMu.Lock()
	aboutConst = map[int]*Term{}
	aboutMu.Unlock()
}

// litsOf: literals implied by t.
func litsOf(t *Term) *lits {
	if r, ok := litMemo[t.id]; ok {
		return r
	}
	r := &lits{m: map[int]bool{t.id: true}}
	switch t.op {
	case "and":
		for _, a := range t.args {
			for k, v := range litsOf(a).m {
				r.m[k] = v
			}
		}
	case "or":
		first := true
		for _, a := range t.args {
			l := litsOf(a)
			if first {
				for k, v := range l.m {
					r.m[k] = v
				}
				first = false
				continue
			}
			for k, v := range r.m {
				if k == t.id {
					continue
				}
				if w, ok := l.m[k]; !ok || w != v {
					delete(r.m, k)
				}
			}
		}
		r.m[t.id] = true
	case "not":
		x := t.args[0]
		r.m[x.id] = false
		if x.op == "or" {
			for _, a := range x.args {
				for k, v := range litsOf(mkNot(a)).m {
					r.m[k] = v
				}
			}
		}
	}
	if len(litMemo) > 200000 {
		litMemo = map[int]*lits{}
	}
	litMemo[t.id] = r
	return r
}

type simp struct {
	known []*lits
	memo  map[int]*Term
	depth int
}

func newSimp(g *Term) *simp { return &simp{known: []*lits{litsOf(g)}, memo: map[int]*Term{}} }

func (s *simp) under(g *Term) *simp {
	return &simp{known: append(append([]*lits(nil), s.known...), litsOf(g)), memo: map[int]*Term{}, depth: s.depth + 1}
}

func (s *simp) lookup(t *Term) (bool, bool) {
	for _, k := range s.known {
		if v, ok := k.m[t.id]; ok {
			return v, true
		}
	}
	return false, false
}

// boolean simplifies a condition.
func (s *simp) boolean(t *Term) *Term {
	if isTrue(t) || isFalse(t) {
		return t
	}
	if v, ok := s.lookup(t); ok {
		if v {
			return mkTrue()
		}
		return mkFalse()
	}
	if r, ok := s.memo[t.id]; ok {
		return r
	}
	r := t
	switch t.op {
	case "not":
		r = mkNot(s.boolean(t.args[0]))
	case "and":
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = s.boolean(a)
		}
		r = mkAnd(as...)
	case "or":
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = s.boolean(a)
		}
		r = mkOr(as...)
	case "ite":
		c := s.boolean(t.args[0])
		if isTrue(c) {
			r = s.boolean(t.args[1])
		} else if isFalse(c) {
			r = s.boolean(t.args[2])
		}
	case "=":
		a, b := t.args[0], t.args[1]
		if isNull(b) {
			a, b = b, a
		}
		if isNull(a) && b.op == "ite" {
			r = s.eqNull(b)
		}
	}
	if r != t {
		if v, ok := s.lookup(r); ok {
			r = mkFalse()
			if v {
				r = mkTrue()
			}
		}
	}
	s.memo[t.id] = r
	return r
}

// eqNull: the condition that the reference b is nil.
func (s *simp) eqNull(b *Term) *Term {
	if b.op != "ite" {
		return s.boolean(mkEq(mkNull(), b))
	}
	if s.depth > 40 {
		return mkEq(mkNull(), b)
	}
	c := s.boolean(b.args[0])
	if isTrue(c) {
		return s.eqNull(b.args[1])
	}
	if isFalse(c) {
		return s.eqNull(b.args[2])
	}
	x := s.under(b.args[0]).eqNull(b.args[1])
	y := s.under(mkNot(b.args[0])).eqNull(b.args[2])
	return mkIte(b.args[0], x, y)
}

// value simplifies the conditional structure of a value.
func (s *simp) value(t *Term) *Term {
	if t.op != "ite" && t.op != "store" {
		return t
	}
	if r, ok := s.memo[t.id]; ok {
		return r
	}
	r := t
	if t.op == "ite" {
		c := s.boolean(t.args[0])
		switch {
		case isTrue(c):
			r = s.value(t.args[1])
		case isFalse(c):
			r = s.value(t.args[2])
		default:
			a, b := s.value(t.args[1]), s.value(t.args[2])
			if a != t.args[1] || b != t.args[2] {
				r = mkIte(t.args[0], a, b)
			}
		}
	} else if a := s.value(t.args[0]); a != t.args[0] {
		r = mkStore(a, t.args[1], t.args[2])
	}
	s.memo[t.id] = r
	return r
}

// branch is the state on one side of a condition.
func (ex *Exec) branch(st *State, c *Term) *State {
	r := st.with(c)
	s := newSimp(r.guard)
	for k, v := range r.heap {
		if v.op == "ite" || v.op == "store" {
			if dryDepth > 0 && v.id <= dryMark {
				continue // untouched by the loop body: keep it recognisable
			}
			r.heap[k] = s.value(v)
		}
	}
	if r.now.op == "ite" {
		r.now = s.value(r.now)
	}
	return r
}

// initialTerm: the value was reachable when the function was entered, whatever the indices in it.
func initialTerm(t *Term) bool {
	switch t.op {
	case "const":
		return strings.HasPrefix(t.name, "p!")
	case "slarr":
		return initialTerm(t.args[0])
	case "uf":
		return (strings.HasPrefix(t.name, "sub$") || t.name == "elt") && initialTerm(t.args[0])
	case "select":
		a, ref := t.args[0], t.args[1]
		if a.op == "select" {
			ref = a.args[1]
			a = a.args[0]
		}
		return a.op == "const" && strings.HasPrefix(a.name, "H0:") && !strings.HasPrefix(a.name, "H0:G:") && ref.sort == SRef && initialTerm(ref)
	}
	return false
}

// rootRef strips interior steps.
func rootRef(t *Term) *Term {
	for t.op == "uf" && (strings.HasPrefix(t.name, "sub$") || t.name == "elt") {
		t = t.args[0]
	}
	return t
}

// apart: a and b belong to different objects because one is new and the other reachable on entry.
func apart(a, b *Term) bool {
	if a.op == "ite" && a.sort == SRef {
		return apart(a.args[1], b) && apart(a.args[2], b)
	}
	if b.op == "ite" && b.sort == SRef {
		return apart(a, b.args[1]) && apart(a, b.args[2])
	}
	ra, rb := rootRef(a), rootRef(b)
	return ra.alloc && (rb.alloc && ra != rb || initialTerm(rb)) || rb.alloc && initialTerm(ra)
}
