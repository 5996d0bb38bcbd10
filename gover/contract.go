package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Clause struct {
	Kind  string // requires ensures invariant at set modifies assume witness
	Label string
	Tags  map[string]bool // nil: all
	Src   string
	Expr  ast.Expr
	Line  string
	// at: callee name + arg names ; set: ghost name
	Callee string
	Args   []string
	Res    []string
	Name   string
	Mods   []ast.Expr
}

type FuncContract struct {
	Name    string
	Params  []string
	Results []string
	Props   map[string]bool
	Extern  bool
	Pure    bool
	Safety  bool
	Inline  bool // only invariants; body is inlined at call sites
	Firm    bool // a helper whose labelled postconditions are obligations: a failing one is reported
	Helper  bool // used at call sites while it holds; executed in place when it is missing or fails
	Dropped bool
	Plain   bool // no loop invariants are needed
	Root    bool // verified itself; call sites check requires and execute the body
	Reveal  map[string]bool
	Locals  [][2]string
	Clauses []*Clause
	File    string
	Line    int
}

type Pred struct {
	Name   string
	Params []string
	Expr   ast.Expr
	Src    string
	Opaque bool
}

type Logic struct {
	Name string
	Args []string // sorts
	Res  string
	ResT types.Type
	ArgT []types.Type
}

type Axiom struct {
	Name string
	Expr ast.Expr
	Src  string
	Tags map[string]bool
}

type Spec struct {
	Imports  map[string]string
	Ghosts   map[string]*ghostT
	blocks   []*FuncContract
	Preds    map[string]*Pred
	Logics   map[string]*Logic
	Axioms   []*Axiom
	Funcs    map[string]*FuncContract
	Order    []string
	Broken   []string // declarations whose types no longer exist
	prog     *Program
	logicSrc map[string][2]string
	ghostSrc map[string]string
}

// ghostT is the type of ghost state: a scalar or a total map.
type ghostT struct {
	key  types.Type // nil for scalar
	elem types.Type
}

func (g *ghostT) Underlying() types.Type { return g }
func (g *ghostT) String() string         { return "ghost" }
func (g *ghostT) sort() string {
	e := ""
	if eg, ok := g.elem.(*ghostT); ok {
		e = eg.sort()
	} else {
		e = sortOf(g.elem)
	}
	if g.key == nil {
		return e
	}
	return SArr(sortOf(g.key), e)
}

var clauseKw = map[string]bool{"requires": true, "ensures": true, "modifies": true, "invariant": true, "at": true, "on": true, "set": true, "props": true, "safety": true, "pure": true, "reveal": true, "hide": true, "inline": true, "plain": true, "root": true, "helper": true, "firm": true, "assume": true, "witness": true, "after": true, "havoc": true, "local": true}
var topKw = map[string]bool{"import": true, "ghost": true, "pred": true, "opaque": true, "logic": true, "axiom": true, "func": true, "extern": true}

// loadSpecs reads the contracts that apply when prop is decided: a function may have several blocks for
// different properties.
func loadSpecs(dir string, prog *Program, prop string) (*Spec, error) {
	sp := &Spec{Imports: map[string]string{}, Ghosts: map[string]*ghostT{}, Preds: map[string]*Pred{}, Logics: map[string]*Logic{}, Funcs: map[string]*FuncContract{}, prog: prog,
		logicSrc: map[string][2]string{}, ghostSrc: map[string]string{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		if err := sp.parseFile(f); err != nil {
			return nil, err
		}
	}
	for _, c := range sp.blocks {
		if !c.applies(prop) {
			continue
		}
		if d := sp.Funcs[c.Name]; d != nil {
			if d.Extern && c.Extern && strings.Join(d.Params, ",") == strings.Join(c.Params, ",") && strings.Join(d.Results, ",") == strings.Join(c.Results, ",") {
				// what is assumed of an external function may be stated in parts
				d.Clauses = append(d.Clauses, c.Clauses...)
				continue
			}
			return nil, fmt.Errorf("%s:%d: second contract for %s", c.File, c.Line, c.Name)
		}
		sp.Funcs[c.Name] = c
		sp.Order = append(sp.Order, c.Name)
	}
	for n, s := range sp.ghostSrc {
		g, err := sp.parseGhostType(s)
		if err != nil {
			sp.Broken = append(sp.Broken, fmt.Sprintf("ghost %s: %v", n, err))
			continue
		}
		sp.Ghosts[n] = g
	}
logics:
	for n, s := range sp.logicSrc {
		l := &Logic{Name: n}
		for _, a := range splitTop(s[0], ',') {
			a = strings.TrimSpace(a)
			if a == "" {
				continue
			}
			fs := strings.Fields(a)
			t, err := sp.parseType(fs[len(fs)-1])
			if err != nil {
				sp.Broken = append(sp.Broken, fmt.Sprintf("logic %s: %v", n, err))
				continue logics
			}
			l.ArgT = append(l.ArgT, t)
		}
		t, err := sp.parseType(strings.TrimSpace(s[1]))
		if err != nil {
			sp.Broken = append(sp.Broken, fmt.Sprintf("logic %s: %v", n, err))
			continue
		}
		l.ResT = t
		sp.Logics[n] = l
	}
	return sp, nil
}

func (sp *Spec) parseGhostType(s string) (*ghostT, error) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "[") && !strings.HasPrefix(s, "[]") {
		i := strings.Index(s, "]")
		k, err := sp.parseType(s[1:i])
		if err != nil {
			return nil, err
		}
		rest := strings.TrimSpace(s[i+1:])
		if strings.HasPrefix(rest, "[") {
			e, err := sp.parseGhostType(rest)
			if err != nil {
				return nil, err
			}
			return &ghostT{key: k, elem: e}, nil
		}
		e, err := sp.parseType(rest)
		if err != nil {
			return nil, err
		}
		return &ghostT{key: k, elem: e}, nil
	}
	t, err := sp.parseType(s)
	if err != nil {
		return nil, err
	}
	return &ghostT{elem: t}, nil
}

func (sp *Spec) parseType(s string) (types.Type, error) {
	s = strings.TrimSpace(s)
	switch {
	case strings.HasPrefix(s, "*"):
		t, err := sp.parseType(s[1:])
		if err != nil {
			return nil, err
		}
		return types.NewPointer(t), nil
	case strings.HasPrefix(s, "[]"):
		t, err := sp.parseType(s[2:])
		if err != nil {
			return nil, err
		}
		return types.NewSlice(t), nil
	}
	switch s {
	case "ref", "any":
		return types.NewInterfaceType(nil, nil), nil
	}
	if o := types.Universe.Lookup(s); o != nil {
		return o.Type(), nil
	}
	i := strings.LastIndex(s, ".")
	if i < 0 {
		return nil, fmt.Errorf("unknown type %s", s)
	}
	path := s[:i]
	if p, ok := sp.Imports[path]; ok {
		path = p
	}
	pk := sp.prog.pkgs[path]
	if pk == nil {
		return nil, fmt.Errorf("unknown package %s", path)
	}
	o := pk.Pkg.Scope().Lookup(s[i+1:])
	if o == nil {
		return nil, fmt.Errorf("unknown type %s", s)
	}
	return o.Type(), nil
}

// expandName expands import aliases in a function name.
func (sp *Spec) expandName(n string) string {
	n = strings.TrimSpace(n)
	pre := ""
	if strings.HasPrefix(n, "(*") {
		pre = "(*"
	} else if strings.HasPrefix(n, "(") {
		pre = "("
	}
	body := n[len(pre):]
	if i := strings.Index(body, "."); i >= 0 {
		if p, ok := sp.Imports[body[:i]]; ok {
			body = p + body[i:]
		}
	}
	return pre + body
}

func splitTop(s string, sep byte) []string {
	var out []string
	depth, last := 0, 0
	inStr := byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		if inStr != 0 {
			if c == '\\' && inStr == '"' {
				i++
			} else if c == inStr {
				inStr = 0
			}
			continue
		}
		switch c {
		case '"', '`':
			inStr = c
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		default:
			if c == sep && depth == 0 {
				out = append(out, s[last:i])
				last = i + 1
			}
		}
	}
	return append(out, s[last:])
}

// rewriteImp turns a ==> b into imp(a, b) at every nesting level, and $x into V_x.
func rewriteImp(s string) string {
	var b strings.Builder
	i := 0
	// recursively rewrite parenthesised groups
	for i < len(s) {
		c := s[i]
		if c == '"' || c == '`' {
			j := i + 1
			for j < len(s) && s[j] != c {
				if s[j] == '\\' && c == '"' {
					j++
				}
				j++
			}
			b.WriteString(s[i : j+1])
			i = j + 1
			continue
		}
		if c == '(' || c == '[' {
			depth := 0
			j := i
			inStr := byte(0)
			for ; j < len(s); j++ {
				d := s[j]
				if inStr != 0 {
					if d == '\\' && inStr == '"' {
						j++
					} else if d == inStr {
						inStr = 0
					}
					continue
				}
				if d == '"' || d == '`' {
					inStr = d
				}
				if d == '(' || d == '[' {
					depth++
				}
				if d == ')' || d == ']' {
					depth--
					if depth == 0 {
						break
					}
				}
			}
			if j >= len(s) {
				b.WriteString(s[i:])
				break
			}
			parts := splitTop(s[i+1:j], ',')
			for k := range parts {
				parts[k] = rewriteImp(parts[k])
			}
			b.WriteByte(c)
			b.WriteString(strings.Join(parts, ","))
			b.WriteByte(s[j])
			i = j + 1
			continue
		}
		if c == '$' {
			b.WriteString("V_")
			i++
			continue
		}
		b.WriteByte(c)
		i++
	}
	t := b.String()
	// split on top-level <==> then ==>
	if k := topIndex(t, "<==>"); k >= 0 {
		return "iff(" + rewriteImpFlat(t[:k]) + "," + rewriteImpFlat(t[k+4:]) + ")"
	}
	return rewriteImpFlat(t)
}

func rewriteImpFlat(t string) string {
	if k := topIndex(t, "==>"); k >= 0 {
		return "imp(" + t[:k] + "," + rewriteImpFlat(t[k+3:]) + ")"
	}
	return t
}

func topIndex(s, pat string) int {
	depth := 0
	inStr := byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		if inStr != 0 {
			if c == '\\' && inStr == '"' {
				i++
			} else if c == inStr {
				inStr = 0
			}
			continue
		}
		switch c {
		case '"', '`':
			inStr = c
		case '(', '[':
			depth++
		case ')', ']':
			depth--
		}
		if depth == 0 && strings.HasPrefix(s[i:], pat) {
			if pat == "==>" && i > 0 && s[i-1] == '<' {
				continue
			}
			return i
		}
	}
	return -1
}

func parseSpecExpr(s string) (ast.Expr, error) {
	r := rewriteImp(strings.TrimSpace(s))
	e, err := parser.ParseExpr(r)
	if err != nil {
		return nil, fmt.Errorf("%v in %q", err, r)
	}
	return e, nil
}

func (sp *Spec) parseFile(path string) error {
	data, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	// local imports are file-wide but shared: all specs use one alias table
	type item struct {
		kw, text string
		line     int
	}
	var items []item
	for n, ln := range strings.Split(string(data), "\n") {
		t := ln
		if i := strings.Index(t, "//"); i >= 0 && !strings.Contains(t[:i], "\"") {
			t = t[:i]
		}
		t = strings.TrimSpace(t)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		w := t
		if i := strings.IndexAny(t, " \t"); i >= 0 {
			w = t[:i]
		}
		if topKw[w] || clauseKw[w] {
			items = append(items, item{w, strings.TrimSpace(t[len(w):]), n + 1})
		} else if len(items) > 0 {
			items[len(items)-1].text += " " + t
		} else {
			return fmt.Errorf("%s:%d: unexpected %q", path, n+1, t)
		}
	}
	var cur *FuncContract
	fail := func(it item, err error) error {
		return fmt.Errorf("%s:%d: %v", filepath.Base(path), it.line, err)
	}
	for _, it := range items {
		switch it.kw {
		case "import":
			fs := strings.Fields(it.text)
			sp.Imports[fs[0]] = strings.Trim(fs[1], "\"")
		case "ghost":
			fs := strings.SplitN(it.text, " ", 2)
			sp.ghostSrc[fs[0]] = fs[1]
		case "logic":
			i, j := strings.Index(it.text, "("), strings.LastIndex(it.text, ")")
			sp.logicSrc[strings.TrimSpace(it.text[:i])] = [2]string{it.text[i+1 : j], it.text[j+1:]}
		case "axiom":
			i := strings.Index(it.text, ":")
			e, err := parseSpecExpr(it.text[i+1:])
			if err != nil {
				return fail(it, err)
			}
			sp.Axioms = append(sp.Axioms, &Axiom{Name: strings.TrimSpace(it.text[:i]), Expr: e, Src: strings.TrimSpace(it.text[i+1:])})
		case "pred", "opaque":
			txt := it.text
			op := it.kw == "opaque"
			if op {
				txt = strings.TrimSpace(strings.TrimPrefix(txt, "pred"))
			}
			i := strings.Index(txt, "=")
			head := txt[:i]
			a, b := strings.Index(head, "("), strings.LastIndex(head, ")")
			p := &Pred{Name: strings.TrimSpace(head[:a]), Src: strings.TrimSpace(txt[i+1:]), Opaque: op}
			for _, x := range strings.Split(head[a+1:b], ",") {
				if x = strings.TrimSpace(x); x != "" {
					p.Params = append(p.Params, x)
				}
			}
			e, err := parseSpecExpr(p.Src)
			if err != nil {
				return fail(it, err)
			}
			p.Expr = e
			sp.Preds[p.Name] = p
		case "func", "extern":
			name, params, results, err := parseHead(it.text)
			if err != nil {
				return fail(it, err)
			}
			name = sp.expandName(name)
			cur = &FuncContract{Name: name, Params: params, Results: results, Extern: it.kw == "extern", Props: map[string]bool{}, Reveal: map[string]bool{}, File: filepath.Base(path), Line: it.line}
			sp.blocks = append(sp.blocks, cur)
		case "props":
			for _, p := range strings.Fields(it.text) {
				cur.Props[p] = true
			}
		case "safety":
			cur.Safety = true
		case "pure":
			cur.Pure = true
		case "inline":
			cur.Inline = true
		case "root":
			cur.Root = true
		case "plain":
			cur.Plain = true
		case "helper":
			cur.Helper = true
		case "firm":
			cur.Helper, cur.Firm = true, true
		case "reveal":
			for _, p := range strings.Fields(it.text) {
				cur.Reveal[p] = true
			}
		case "local": // NAME TYPE: the object of that type the function works on, for invariants
			if w := strings.Fields(it.text); len(w) == 2 {
				cur.Locals = append(cur.Locals, [2]string{w[0], w[1]})
			} else {
				return fail(it, fmt.Errorf("local NAME TYPE"))
			}
		case "hide": // PROP:name
			for _, p := range strings.Fields(it.text) {
				cur.Reveal["-"+p] = true
			}
		case "modifies", "havoc":
			c := &Clause{Kind: it.kw, Src: it.text}
			for _, m := range splitTop(it.text, ',') {
				e, err := parseSpecExpr(m)
				if err != nil {
					return fail(it, err)
				}
				c.Mods = append(c.Mods, e)
			}
			cur.Clauses = append(cur.Clauses, c)
		default:
			if cur == nil {
				return fail(it, fmt.Errorf("clause outside function"))
			}
			c := &Clause{Kind: it.kw, Line: fmt.Sprintf("%s:%d", filepath.Base(path), it.line)}
			txt := it.text
			for {
				txt = strings.TrimSpace(txt)
				if strings.HasPrefix(txt, "{") {
					i := strings.Index(txt, "}")
					c.Tags = map[string]bool{}
					for _, p := range strings.FieldsFunc(txt[1:i], func(r rune) bool { return r == ' ' || r == ',' }) {
						c.Tags[p] = true
					}
					txt = txt[i+1:]
					continue
				}
				break
			}
			if it.kw == "at" || it.kw == "after" || it.kw == "on" {
				// at Callee(args) (res) [label] expr
				nm, ar, rs, rest, err := parseCallPat(txt)
				if err != nil {
					return fail(it, err)
				}
				c.Callee, c.Args, c.Res = sp.expandName(nm), ar, rs
				txt = rest
			}
			txt = strings.TrimSpace(txt)
			if strings.HasPrefix(txt, "[") {
				i := strings.Index(txt, "]")
				c.Label = txt[1:i]
				txt = txt[i+1:]
			}
			if it.kw == "on" || it.kw == "after" {
				txt = strings.TrimSpace(strings.TrimPrefix(txt, "set"))
			}
			if it.kw == "set" || it.kw == "on" || it.kw == "after" {
				i := strings.Index(txt, "=")
				c.Name = strings.TrimSpace(txt[:i])
				txt = txt[i+1:]
			}
			if it.kw == "witness" {
				i := strings.Index(txt, ":")
				c.Name = strings.TrimSpace(txt[:i])
				txt = txt[i+1:]
			}
			c.Src = strings.TrimSpace(txt)
			e, err := parseSpecExpr(c.Src)
			if err != nil {
				return fail(it, err)
			}
			c.Expr = e
			cur.Clauses = append(cur.Clauses, c)
		}
	}
	return nil
}

func parseHead(s string) (name string, params, results []string, err error) {
	nm, ar, rs, rest, err := parseCallPat(s)
	if err != nil {
		return "", nil, nil, err
	}
	if strings.TrimSpace(rest) != "" {
		return "", nil, nil, fmt.Errorf("trailing text %q", rest)
	}
	return nm, ar, rs, nil
}

func parseCallPat(s string) (name string, args, res []string, rest string, err error) {
	s = strings.TrimSpace(s)
	start := 0
	if strings.HasPrefix(s, "(") {
		start = strings.Index(s, ")") + 1
	}
	i := strings.Index(s[start:], "(")
	if i < 0 {
		return "", nil, nil, "", fmt.Errorf("bad signature %q", s)
	}
	i += start
	name = s[:i]
	j := strings.Index(s[i:], ")") + i
	for _, a := range strings.Split(s[i+1:j], ",") {
		if a = strings.TrimSpace(a); a != "" {
			args = append(args, a)
		}
	}
	rest = strings.TrimSpace(s[j+1:])
	if strings.HasPrefix(rest, "(") && name != "" {
		k := strings.Index(rest, ")")
		cand := rest[1:k]
		ok := true
		for _, a := range strings.Split(cand, ",") {
			a = strings.TrimSpace(a)
			if a == "" || strings.ContainsAny(a, " .()!=<>&|") {
				ok = false
			}
		}
		after := strings.TrimSpace(rest[k+1:])
		if ok && (after == "" || strings.HasPrefix(after, "[") || strings.HasPrefix(after, ":") || strings.HasPrefix(after, "set ")) {
			for _, a := range strings.Split(cand, ",") {
				res = append(res, strings.TrimSpace(a))
			}
			rest = after
		}
	}
	rest = strings.TrimPrefix(rest, ":")
	return
}

// ---- evaluation ----

type EV struct {
	v Val
	t types.Type
}

type Env struct {
	ex     *Exec
	names  map[string]EV
	st     *State
	old    *State
	post   *State // state after the effects of the call (set clauses)
	entry  *State // state on entry of the loop (invariants)
	reveal map[string]bool
}

func (e *Env) with(name string, v EV) *Env {
	n := *e
	n.names = make(map[string]EV, len(e.names)+1)
	for k, x := range e.names {
		n.names[k] = x
	}
	n.names[name] = v
	return &n
}

type specErr string

func sfail(f string, a ...any) { panic(specErr(fmt.Sprintf(f, a...))) }

var boolT = types.Typ[types.Bool]
var intT = types.Typ[types.Int]
var strT = types.Typ[types.String]

func (ex *Exec) evalBool(e ast.Expr, env *Env) *Term {
	ex.inContract++
	defer func() { ex.inContract-- }()
	r := ex.eval(e, env)
	t, ok := r.v.(*Term)
	if !ok || t.sort != SBool {
		sfail("not a boolean: %s", exprStr(e))
	}
	return t
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

func termOfEV(ex *Exec, x EV) *Term { return ex.term(x.v, x.t) }

func (ex *Exec) eval(e ast.Expr, env *Env) EV {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return ex.eval(x.X, env)
	case *ast.Ident:
		return ex.evalIdent(x.Name, env)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			n, err := strconv.ParseInt(x.Value, 0, 64)
			if err != nil {
				return EV{mkBigInt(x.Value), intT}
			}
			return EV{mkInt(n), intT}
		case token.STRING:
			s, _ := strconv.Unquote(x.Value)
			return EV{mkStrLit(s), strT}
		}
	case *ast.UnaryExpr:
		a := ex.eval(x.X, env)
		switch x.Op {
		case token.NOT:
			return EV{mkNot(termOfEV(ex, a)), boolT}
		case token.SUB:
			return EV{mkNeg(termOfEV(ex, a)), a.t}
		}
	case *ast.BinaryExpr:
		return ex.evalBinary(x, env)
	case *ast.StarExpr:
		a := ex.eval(x.X, env)
		et := derefT(a.t)
		return EV{ex.loadH(env.st, env.st.heap, a.v, et, token.NoPos), et}
	case *ast.SelectorExpr:
		return ex.evalSelector(x, env)
	case *ast.IndexExpr:
		a := ex.eval(x.X, env)
		i := ex.eval(x.Index, env)
		return ex.evalIndex(a, i, env)
	case *ast.CallExpr:
		return ex.evalCall(x, env)
	}
	sfail("unsupported expression %s (%T)", exprStr(e), e)
	return EV{}
}

func (ex *Exec) evalIndex(a, i EV, env *Env) EV {
	if g, ok := a.t.(*ghostT); ok {
		return EV{mkSelect(a.v.(*Term), termOfEV(ex, i)), g.elem}
	}
	switch u := a.t.Underlying().(type) {
	case *types.Slice:
		p := ex.indexAddr(env.st, a.v, a.t, termOfEV(ex, i), token.NoPos)
		return EV{ex.loadH(env.st, env.st.heap, p, u.Elem(), token.NoPos), u.Elem()}
	case *types.Map:
		v, _ := ex.mapLookup(env.st.heap, termOfEV(ex, a), u, i.v)
		return EV{v, u.Elem()}
	}
	sfail("cannot index %s", a.t)
	return EV{}
}

func (ex *Exec) evalIdent(n string, env *Env) EV {
	if v, ok := env.names[n]; ok {
		return v
	}
	switch n {
	case "true":
		return EV{mkTrue(), boolT}
	case "false":
		return EV{mkFalse(), boolT}
	case "nil":
		return EV{mkNull(), types.Typ[types.UntypedNil]}
	}
	if g, ok := ex.spec.Ghosts[n]; ok {
		if g.key == nil {
			return EV{ex.get(env.st, "G:"+n, g.sort()), g.elem}
		}
		return EV{ex.get(env.st, "G:"+n, g.sort()), g}
	}
	if p, ok := ex.spec.Preds[n]; ok && len(p.Params) == 0 {
		return ex.applyPred(p, nil, env)
	}
	sfail("unknown name %s", n)
	return EV{}
}

func (ex *Exec) evalBinary(x *ast.BinaryExpr, env *Env) EV {
	a := ex.eval(x.X, env)
	if x.Op == token.LAND || x.Op == token.LOR {
		b := ex.eval(x.Y, env)
		ta, tb := termOfEV(ex, a), termOfEV(ex, b)
		if x.Op == token.LAND {
			return EV{mkAnd(ta, tb), boolT}
		}
		return EV{mkOr(ta, tb), boolT}
	}
	b := ex.eval(x.Y, env)
	if x.Op == token.EQL || x.Op == token.NEQ {
		r := ex.evalEq(a, b, env)
		if x.Op == token.NEQ {
			r = mkNot(r)
		}
		return EV{r, boolT}
	}
	ta, tb := termOfEV(ex, a), termOfEV(ex, b)
	if ta.sort == SInt && tb.sort == SInt {
		switch x.Op {
		case token.ADD:
			return EV{mkAdd(ta, tb), a.t}
		case token.SUB:
			return EV{mkSub(ta, tb), a.t}
		case token.MUL:
			return EV{mkMul(ta, tb), a.t}
		case token.QUO:
			return EV{mkTDiv(ta, tb), a.t}
		case token.REM:
			return EV{mkTRem(ta, tb), a.t}
		}
	}
	rt := a.t
	switch x.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		rt = boolT
	}
	v := ex.binop(env.st, x.Op, a.v, b.v, a.t, a.t, token.NoPos)
	return EV{v, rt}
}

func (ex *Exec) evalEq(a, b EV, env *Env) *Term {
	if isNilEV(b) {
		a, b = b, a
	}
	if isNilEV(a) {
		tb := termOfEV(ex, b)
		if tb.sort == SSlice {
			return mkEq(slArr(tb), mkNull())
		}
		return mkEq(tb, mkNull())
	}
	sa, ok1 := a.v.(*StructV)
	if ok1 {
		if sb, ok := b.v.(*StructV); ok {
			return ex.binop(env.st, token.EQL, sa, sb, a.t, boolT, token.NoPos).(*Term)
		}
	}
	ta, tb := termOfEV(ex, a), termOfEV(ex, b)
	// value boxed in interface compared with concrete value
	if ta.sort == SRef && tb.sort == SRef {
		if isIface(a.t) && !isIface(b.t) && b.t != types.Typ[types.UntypedNil] {
			tb = ex.box(env.st, b.v, b.t)
		} else if isIface(b.t) && !isIface(a.t) {
			ta = ex.box(env.st, a.v, a.t)
		}
	}
	if ta.sort == SSlice && tb.sort == SSlice {
		return mkEq(ta, tb)
	}
	return mkEq(ta, tb)
}

func isIface(t types.Type) bool {
	if _, ok := t.(*ghostT); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func isNilEV(a EV) bool {
	b, ok := a.t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func pkgOfType(t types.Type) *types.Package {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func (ex *Exec) evalSelector(x *ast.SelectorExpr, env *Env) EV {
	if id, ok := x.X.(*ast.Ident); ok {
		if _, bound := env.names[id.Name]; !bound {
			if path, ok := ex.spec.Imports[id.Name]; ok {
				pk := ex.prog.pkgs[path]
				if pk == nil {
					sfail("package %s not loaded", path)
				}
				switch o := pk.Pkg.Scope().Lookup(x.Sel.Name).(type) {
				case *types.Const:
					return EV{constTerm(o.Val(), o.Type()), o.Type()}
				case *types.Var:
					g := pk.Var(x.Sel.Name)
					return EV{ex.loadH(env.st, env.st.heap, ex.globalPtr(g), o.Type(), token.NoPos), o.Type()}
				}
				sfail("unknown %s.%s", id.Name, x.Sel.Name)
			}
		}
	}
	a := ex.eval(x.X, env)
	return ex.selectField(a, x.Sel.Name, env)
}

func (ex *Exec) selectField(a EV, name string, env *Env) EV {
	obj, path, _ := types.LookupFieldOrMethod(a.t, true, pkgOfType(a.t), name)
	if obj == nil {
		sfail("no field %s in %s", name, a.t)
	}
	if _, ok := obj.(*types.Var); !ok {
		sfail("%s is not a field of %s", name, a.t)
	}
	v, t := a.v, a.t
	for _, i := range path {
		st := derefT(t)
		f := structOf(st).Field(i)
		switch b := v.(type) {
		case *StructV:
			v = b.field(i)
		case *Term:
			v = ex.loadField(env.st.heap, st, i, stripNull(b))
		default:
			sfail("field of %T", v)
		}
		t = f.Type()
	}
	return EV{v, t}
}

func (ex *Exec) applyPred(p *Pred, args []EV, env *Env) EV {
	if len(args) != len(p.Params) {
		sfail("pred %s: wrong number of arguments", p.Name)
	}
	n := *env
	n.names = map[string]EV{}
	// predicates see only their parameters and bound template variables
	for i, q := range p.Params {
		n.names[q] = args[i]
	}
	if p.Opaque && !env.reveal[p.Name] {
		rec := ex.recording
		ex.recording = map[string]bool{}
		body := ex.eval(p.Expr, &n)
		keys := sortedKeys(ex.recording)
		mine := ex.recording
		ex.recording = rec
		if rec != nil {
			for k := range mine {
				rec[k] = true
			}
		}
		var as []*Term
		for i := range args {
			as = append(as, termOfEV(ex, args[i]))
		}
		for _, k := range keys {
			if _, ok := ex.init[k]; ok {
				h := env.st.heap[k]
				if h == nil {
					h = ex.init[k]
				}
				as = append(as, h)
			}
		}
		bt := body.v.(*Term)
		return EV{mkUF("P$"+p.Name, bt.sort, as...), body.t}
	}
	return ex.eval(p.Expr, &n)
}

func quantHeight(t *Term) int {
	memo := map[int]int{}
	var f func(t *Term) int
	f = func(t *Term) int {
		if !t.any {
			return 0
		}
		if h, ok := memo[t.id]; ok {
			return h
		}
		h := 0
		for _, a := range t.args {
			if g := f(a); g > h {
				h = g
			}
		}
		if t.op == "forall" || t.op == "exists" {
			h++
		}
		memo[t.id] = h
		return h
	}
	return f(t)
}

// boundNe: a value the bound variable differs from.
var (
	boundNe = map[int]*Term{}
	neHit   bool
)

func (ex *Exec) evalQuant(q string, x *ast.CallExpr, env *Env) EV {
	name := x.Args[0].(*ast.Ident).Name
	ex.qn++
	var vt types.Type = intT
	var rng func(v *Term) *Term
	var bodyE ast.Expr
	var lo, hi, last *Term
	switch len(x.Args) {
	case 4: // name, lo, hi, body
		lo, hi = termOfEV(ex, ex.eval(x.Args[1], env)), termOfEV(ex, ex.eval(x.Args[2], env))
		if b, c := splitAdd(hi); c >= 1 && !hi.bound {
			last = mkAdd(b, mkInt(c-1))
		}
		rng = func(v *Term) *Term { return mkAnd(mkLe(lo, v), mkLt(v, hi)) }
		bodyE = x.Args[3]
	case 3: // name, "type", body
		s, _ := strconv.Unquote(x.Args[1].(*ast.BasicLit).Value)
		t, err := ex.spec.parseType(s)
		if err != nil {
			sfail("%v", err)
		}
		vt = t
		rng = func(v *Term) *Term { return mkTrue() }
		bodyE = x.Args[2]
	default:
		sfail("bad quantifier")
	}
	tmp := mkVar(fmt.Sprintf("tmp%d", ex.qn), sortOf(vt))
	if last != nil {
		// an element stored at the end of the range is stated apart from the others
		boundNe[tmp.id] = last
		neHit = false
		body := ex.eval(bodyE, env.with(name, EV{tmp, vt})).v.(*Term)
		hit := neHit
		delete(boundNe, tmp.id)
		if hit {
			at := termOfEV(ex, ex.eval(bodyE, env.with(name, EV{last, vt})))
			rg := mkAnd(mkLe(lo, tmp), mkLt(tmp, last))
			full := mkImp(rg, body)
			if q == "exists" {
				full = mkAnd(rg, body)
			}
			v := mkVar(fmt.Sprintf("q%d", quantHeight(full)), sortOf(vt))
			rest := mkQuant(q, v, subst(full, tmp, v))
			if q == "exists" {
				return EV{mkOr(mkAnd(mkLe(lo, last), at), rest), boolT}
			}
			return EV{mkAnd(mkImp(mkLe(lo, last), at), rest), boolT}
		}
	}
	body := ex.eval(bodyE, env.with(name, EV{tmp, vt})).v.(*Term)
	full := mkImp(rng(tmp), body)
	if q == "exists" {
		full = mkAnd(rng(tmp), body)
	}
	h := quantHeight(full)
	v := mkVar(fmt.Sprintf("q%d", h), sortOf(vt))
	return EV{mkQuant(q, v, subst(full, tmp, v)), boolT}
}

func (ex *Exec) evalCall(x *ast.CallExpr, env *Env) EV {
	if id, ok := x.Fun.(*ast.Ident); ok {
		switch id.Name {
		case "imp":
			return EV{mkImp(termOfEV(ex, ex.eval(x.Args[0], env)), termOfEV(ex, ex.eval(x.Args[1], env))), boolT}
		case "iff":
			return EV{mkEq(termOfEV(ex, ex.eval(x.Args[0], env)), termOfEV(ex, ex.eval(x.Args[1], env))), boolT}
		case "forall", "exists":
			return ex.evalQuant(id.Name, x, env)
		case "old":
			n := *env
			n.st = env.old
			return ex.eval(x.Args[0], &n)
		case "post":
			if env.post == nil {
				panic(specErr("post() outside a set clause"))
			}
			n := *env
			n.st = env.post
			return ex.eval(x.Args[0], &n)
		case "entry":
			if env.entry == nil {
				panic(specErr("entry() outside an invariant"))
			}
			n := *env
			n.st = env.entry
			return ex.eval(x.Args[0], &n)
		case "ite":
			a, b := ex.eval(x.Args[1], env), ex.eval(x.Args[2], env)
			if isNilEV(a) {
				a.t = b.t
			}
			return EV{ex.iteVal(termOfEV(ex, ex.eval(x.Args[0], env)), a.v, b.v, a.t), a.t}
		case "store":
			a := ex.eval(x.Args[0], env)
			return EV{mkStore(a.v.(*Term), termOfEV(ex, ex.eval(x.Args[1], env)), termOfEV(ex, ex.eval(x.Args[2], env))), a.t}
		case "const": // const(ghost, v): constant map of the ghost's type
			a := ex.eval(x.Args[0], env)
			return EV{mkConstArr(a.v.(*Term).sort, termOfEV(ex, ex.eval(x.Args[1], env))), a.t}
		case "contains":
			a := ex.eval(x.Args[0], env)
			u, ok := a.t.Underlying().(*types.Slice)
			if !ok {
				sfail("contains of %s", a.t)
			}
			lim := slLen(termOfEV(ex, a))
			if len(x.Args) == 3 { // contains(slice, value, n): among the first n elements
				lim = termOfEV(ex, ex.eval(x.Args[2], env))
			}
			return EV{ex.containsTerm(env.st, termOfEV(ex, a), u.Elem(), lim, termOfEV(ex, ex.eval(x.Args[1], env))), boolT}
		case "len":
			a := ex.eval(x.Args[0], env)
			switch u := a.t.Underlying().(type) {
			case *types.Slice:
				return EV{slLen(termOfEV(ex, a)), intT}
			case *types.Map:
				return EV{ex.mapLen(env.st.heap, termOfEV(ex, a), u), intT}
			case *types.Basic:
				return EV{ex.strLen(termOfEV(ex, a)), intT}
			}
			sfail("len of %s", a.t)
		case "seen": // seen($v, k): the range over a map has visited key k
			return EV{mkSelect(termOfEV(ex, ex.eval(x.Args[0], env)), termOfEV(ex, ex.eval(x.Args[1], env))), boolT}
		case "atoi":
			return EV{mkUF("atoi", SInt, termOfEV(ex, ex.eval(x.Args[0], env))), intT}
		case "pnum": // pnum(s): the value of strconv.ParseInt(s, 10, 64), 0 if it is not a number
			t := termOfEV(ex, ex.eval(x.Args[0], env))
			return EV{mkIte(mkUF("isint", SBool, t, mkInt(10), mkInt(64)), mkUF("parseint", SInt, t, mkInt(10)), mkInt(0)), intT}
		case "isnum":
			return EV{mkUF("isnum", SBool, termOfEV(ex, ex.eval(x.Args[0], env))), boolT}
		case "has":
			m := ex.eval(x.Args[0], env)
			k := ex.eval(x.Args[1], env)
			_, in := ex.mapLookup(env.st.heap, termOfEV(ex, m), m.t.Underlying().(*types.Map), k.v)
			return EV{in, boolT}
		case "at": // at(slice, i) pointer to element
			a := ex.eval(x.Args[0], env)
			i := ex.eval(x.Args[1], env)
			et := a.t.Underlying().(*types.Slice).Elem()
			return EV{ex.indexAddr(env.st, a.v, a.t, termOfEV(ex, i), token.NoPos), types.NewPointer(et)}
		case "addr": // addr(x.f): address of a struct-typed field
			if ie, ok := x.Args[0].(*ast.IndexExpr); ok { // addr(s[i]): address of a struct element of a slice
				b := ex.eval(ie.X, env)
				sl, ok := b.t.Underlying().(*types.Slice)
				if !ok || !isStructT(sl.Elem()) {
					sfail("addr: not a slice of structs")
				}
				t := termOfEV(ex, b)
				r := eltRef(slArr(t), mkAdd(slOff(t), termOfEV(ex, ex.eval(ie.Index, env))))
				return EV{r, types.NewPointer(sl.Elem())}
			}
			se := x.Args[0].(*ast.SelectorExpr)
			b := ex.eval(se.X, env)
			stT := derefT(b.t)
			for i := 0; i < structOf(stT).NumFields(); i++ {
				if structOf(stT).Field(i).Name() == se.Sel.Name {
					return EV{subRef(stT, i, b.v.(*Term)), types.NewPointer(structOf(stT).Field(i).Type())}
				}
			}
			sfail("addr: no field")
		case "is", "as":
			a := ex.eval(x.Args[0], env)
			s, _ := strconv.Unquote(x.Args[1].(*ast.BasicLit).Value)
			t, err := ex.spec.parseType(s)
			if err != nil {
				sfail("%v", err)
			}
			if id.Name == "is" {
				return EV{ex.hasType(termOfEV(ex, a), t), boolT}
			}
			r := ex.unbox(termOfEV(ex, a), t)
			if isStructT(t) {
				return EV{ex.lazyStruct(t, r, env.st.heap), t}
			}
			return EV{r, t}
		case "boxed": // boxed(x): interface value holding x
			a := ex.eval(x.Args[0], env)
			return EV{ex.box(env.st, a.v, a.t), types.NewInterfaceType(nil, nil)}
		case "count":
			return ex.evalCount(x, env)
		case "fresh": // fresh(r): r allocated after the old state
			a := termOfEV(ex, ex.eval(x.Args[0], env))
			if a.sort == SSlice {
				a = slArr(a)
			}
			return EV{mkAnd(mkNot(mkEq(a, mkNull())), mkLt(env.old.now, birth(a))), boolT}
		case "sameslice":
			a, b := termOfEV(ex, ex.eval(x.Args[0], env)), termOfEV(ex, ex.eval(x.Args[1], env))
			return EV{mkEq(a, b), boolT}
		case "itoa":
			return EV{ex.itoa(termOfEV(ex, ex.eval(x.Args[0], env))), strT}
		case "strprefix", "strsuffix", "strcontains":
			return EV{ex.strPred(id.Name, termOfEV(ex, ex.eval(x.Args[0], env)), termOfEV(ex, ex.eval(x.Args[1], env))), boolT}
		case "nparts": // nparts(s, sep): number of parts of s split at sep
			return EV{mkUF("len$strings.Split", SInt, termOfEV(ex, ex.eval(x.Args[0], env)), termOfEV(ex, ex.eval(x.Args[1], env))), intT}
		case "part": // part(s, sep, k): the k-th of them
			return EV{mkSelect(mkUF("cont$strings.Split", SArr(SInt, SStr), termOfEV(ex, ex.eval(x.Args[0], env)), termOfEV(ex, ex.eval(x.Args[1], env))), termOfEV(ex, ex.eval(x.Args[2], env))), strT}
		case "strfirst": // strfirst(s, sep): the part of s before the first sep
			return EV{mkUF("strfirst", SStr, termOfEV(ex, ex.eval(x.Args[0], env)), termOfEV(ex, ex.eval(x.Args[1], env))), strT}
		case "hoststr":
		}
		if p, ok := ex.spec.Preds[id.Name]; ok {
			var args []EV
			for _, a := range x.Args {
				args = append(args, ex.eval(a, env))
			}
			return ex.applyPred(p, args, env)
		}
		if l, ok := ex.spec.Logics[id.Name]; ok {
			var as []*Term
			for i, a := range x.Args {
				v := ex.eval(a, env)
				tm := termOfEV(ex, v)
				if isNilEV(v) && i < len(l.ArgT) && sortOf(l.ArgT[i]) == SSlice {
					tm = nilSlice()
				}
				as = append(as, tm)
			}
			r := mkUF("L$"+l.Name, sortOf(l.ResT), as...)
			if d, ok := ex.logicDefs[r.id]; ok {
				return EV{d, l.ResT}
			}
			ex.typeFacts(r, l.ResT)
			return EV{r, l.ResT}
		}
		sfail("unknown function %s", id.Name)
	}
	if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
		// package function?
		if id, ok := sel.X.(*ast.Ident); ok {
			if _, bound := env.names[id.Name]; !bound {
				if path, ok := ex.spec.Imports[id.Name]; ok {
					fn := ex.prog.pkgs[path].Func(sel.Sel.Name)
					if fn == nil {
						if tn, ok := ex.prog.pkgs[path].Pkg.Scope().Lookup(sel.Sel.Name).(*types.TypeName); ok {
							a := ex.eval(x.Args[0], env)
							return EV{ex.convert(env.st, a.v, a.t, tn.Type()), tn.Type()}
						}
						sfail("no function %s.%s", path, sel.Sel.Name)
					}
					return ex.evalGoCall(fn, x.Args, nil, env)
				}
			}
		}
		recv := ex.eval(sel.X, env)
		obj, path, indirect := types.LookupFieldOrMethod(recv.t, true, pkgOfType(recv.t), sel.Sel.Name)
		f, ok := obj.(*types.Func)
		if !ok {
			sfail("no method %s on %s", sel.Sel.Name, recv.t)
		}
		_ = indirect
		// promote through embedded fields
		for _, i := range path[:len(path)-1] {
			stT := derefT(recv.t)
			name := structOf(stT).Field(i).Name()
			recv = ex.selectFieldAddr(recv, name, env)
		}
		fn := ex.prog.prog.FuncValue(f)
		if fn == nil {
			sfail("no body for %s", f)
		}
		return ex.evalGoCall(fn, x.Args, &recv, env)
	}
	sfail("unsupported call %s", exprStr(x))
	return EV{}
}

func (ex *Exec) selectFieldAddr(a EV, name string, env *Env) EV {
	stT := derefT(a.t)
	for i := 0; i < structOf(stT).NumFields(); i++ {
		if f := structOf(stT).Field(i); f.Name() == name {
			if tm, ok := a.v.(*Term); ok && isStructT(f.Type()) {
				return EV{subRef(stT, i, tm), types.NewPointer(f.Type())}
			}
			return ex.selectField(a, name, env)
		}
	}
	sfail("no field %s", name)
	return EV{}
}

func (ex *Exec) evalGoCall(fn *ssa.Function, argE []ast.Expr, recv *EV, env *Env) EV {
	var args []Val
	sig := fn.Signature
	if recv != nil {
		rt := sig.Recv().Type()
		v := recv.v
		if _, isPtr := rt.Underlying().(*types.Pointer); !isPtr {
			if _, p2 := recv.t.Underlying().(*types.Pointer); p2 {
				v = ex.loadH(env.st, env.st.heap, v, derefT(recv.t), token.NoPos)
			}
		} else if sv, ok := v.(*StructV); ok && sv.ref != nil {
			v = sv.ref
		}
		args = append(args, v)
	}
	for i, a := range argE {
		ev := ex.eval(a, env)
		if isNilEV(ev) && i < sig.Params().Len() {
			ev.v = ex.zero(sig.Params().At(i).Type())
		}
		if i < sig.Params().Len() && isIface(sig.Params().At(i).Type()) && !isIface(ev.t) && !isNilEV(ev) {
			ev.v = ex.box(env.st, ev.v, ev.t)
		}
		args = append(args, ev.v)
	}
	st := env.st.clone()
	r := ex.callStatic(nil, st, nil, fn, args, nil, "spec")
	var rt types.Type = sig.Results()
	if sig.Results().Len() == 1 {
		rt = sig.Results().At(0).Type()
	}
	return EV{r, rt}
}

// evalCount: count(j, lo, hi, P): number of j in [lo,hi) with P.
type countSym struct {
	name string
	lo   *Term
	v    *Term
	body *Term
	hi   map[int]*Term
	done map[int]bool
}

func (ex *Exec) evalCount(x *ast.CallExpr, env *Env) EV {
	name := x.Args[0].(*ast.Ident).Name
	lo, hi := termOfEV(ex, ex.eval(x.Args[1], env)), termOfEV(ex, ex.eval(x.Args[2], env))
	ex.qn++
	tmp := mkVar(fmt.Sprintf("tmp%d", ex.qn), SInt)
	body := ex.eval(x.Args[3], env.with(name, EV{tmp, intT})).v.(*Term)
	v := mkVar(fmt.Sprintf("qc%d", quantHeight(body)), SInt)
	body = subst(body, tmp, v)
	key := fmt.Sprintf("%d/%d", body.id, lo.id)
	cs := ex.counts[key]
	if cs == nil {
		cs = &countSym{name: "cnt$" + key, lo: lo, v: v, body: body, hi: map[int]*Term{}, done: map[int]bool{}}
		ex.counts[key] = cs
		ex.countInst(cs, lo)
		for _, t := range ex.idxTerms {
			ex.countInst(cs, t)
		}
	}
	ex.countInst(cs, hi)
	return EV{mkUF(cs.name, SInt, hi), intT}
}

// countInst adds the unfolding axioms of the counting function around index t.
func (ex *Exec) countInst(cs *countSym, t *Term) {
	if t.bound || cs.done[t.id] {
		return
	}
	cs.done[t.id] = true
	c := func(x *Term) *Term { return mkUF(cs.name, SInt, x) }
	t1 := mkAdd(t, mkInt(1))
	p := subst(cs.body, cs.v, t)
	ex.axiom(mkEq(c(cs.lo), mkInt(0)))
	ex.axiom(mkImp(mkLe(cs.lo, t), mkAnd(mkEq(c(t1), mkAdd(c(t), mkIte(p, mkInt(1), mkInt(0)))), mkLe(mkInt(0), c(t)), mkLe(c(t), mkSub(t, cs.lo)))))
	cs.hi[t.id] = t
	// monotone pairs
	for _, u := range cs.hi {
		if u != t && !u.bound {
			ex.axiom(mkImp(mkAnd(mkLe(cs.lo, t), mkLe(t, u)), mkAnd(mkLe(c(t), c(u)), mkLe(mkSub(c(u), c(t)), mkSub(u, t)))))
			ex.axiom(mkImp(mkAnd(mkLe(cs.lo, u), mkLe(u, t)), mkAnd(mkLe(c(u), c(t)), mkLe(mkSub(c(t), c(u)), mkSub(t, u)))))
		}
	}
}

func (ex *Exec) addIdx(t *Term) {
	if t.sort != SInt || t.bound {
		return
	}
	for _, u := range ex.idxTerms {
		if u == t {
			return
		}
	}
	ex.idxTerms = append(ex.idxTerms, t)
	for _, k := range sortedKeys(ex.counts) {
		ex.countInst(ex.counts[k], t)
	}
}

var _ = constant.BoolVal
