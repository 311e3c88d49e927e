package main

// Contract files and the specification language.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type Clause struct {
	text string
	expr ast.Expr
	tags []string // properties this clause belongs to (empty: all)
	line int
	file string
}

func (c *Clause) hasTag(p string) bool {
	if len(c.tags) == 0 || p == "" {
		return true
	}
	for _, t := range c.tags {
		if t == p {
			return true
		}
	}
	return false
}

type Metavar struct {
	name string
	typ  string
	any  bool
	hint string // source variable preferred over others of the type
}

type Template struct {
	Clause
	vars []Metavar
}

type Contract struct {
	name     string // function name as used in ssa (RelString with gotor/ stripped)
	pkg      string
	params   []string
	results  []string
	requires []*Clause
	ensures  []*Clause
	modifies []*Clause
	panics   []*Clause // a panic may occur only if one of these holds (pre-state)
	mayPanic bool
	loops    []*Template
	measures []*Template
	decr     *Clause
	diverges bool
	trusted  bool // assumed, not verified (external)
	pure     bool
	ghostUpd []*GhostSet
	file     string
	line     int
	props    []string
	opts     map[string]string
	lets     []*Clause
	letNames []string
	dropped  bool      // its proof failed and it is only an aid: callers inline the body
	uses     []*Clause // lemma instances assumed at each return
}

// GhostSet is a ghost update at the returns of a function.
type GhostSet struct {
	name, v string
	rhs     *Clause
}

type SpecFn struct {
	name   string
	params []string
	ptypes []string
	res    string
	body   ast.Expr
	rec    bool
	macro  bool
}

type Lemma struct {
	name     string
	params   []string
	ptypes   []string
	requires []*Clause
	ensures  []*Clause
	induct   string
	triggers [][]ast.Expr
	uses     []ast.Expr
	axiom    bool
	props    []string
	file     string
	line     int
	cases    []ast.Expr
	only     []string // instantiated by its triggers in checks of these properties only
}

type Specs struct {
	contracts map[string]*Contract
	fns       map[string]*SpecFn
	lemmas    []*Lemma
	ghosts    map[string]string
	order     []string
	ginv      []*Clause
	assume    []string
	constSets map[string][]string
}

func newSpecs() *Specs {
	return &Specs{contracts: map[string]*Contract{}, fns: map[string]*SpecFn{}, ghosts: map[string]string{}, constSets: map[string][]string{}}
}

type specErr struct{ msg string }

func (e specErr) Error() string { return "spec error: " + e.msg }
func specPanic(f string, a ...interface{}) {
	panic(specErr{fmt.Sprintf(f, a...)})
}

func (s *Specs) load(dir string) error {
	fs, err := filepath.Glob(filepath.Join(dir, "*.gvc"))
	if err != nil {
		return err
	}
	sort.Strings(fs)
	for _, f := range fs {
		if err := s.loadFile(f); err != nil {
			return err
		}
	}
	return nil
}

func indentOf(l string) int {
	n := 0
	for n < len(l) && l[n] == ' ' {
		n++
	}
	return n
}

func stripComment(l string) string {
	inq := false
	for i := 0; i < len(l); i++ {
		if l[i] == '"' {
			inq = !inq
		}
		if l[i] == '#' && !inq {
			return l[:i]
		}
	}
	return l
}

func (s *Specs) loadFile(path string) error {
	raw, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	type ln struct {
		text   string
		indent int
		no     int
	}
	var lines []ln
	for i, l := range strings.Split(string(raw), "\n") {
		l = strings.TrimRight(stripComment(l), " \t\r")
		if strings.TrimSpace(l) == "" {
			continue
		}
		ind := indentOf(l)
		// continuation: deeper than a clause (indent 2)
		if ind >= 4 && len(lines) > 0 {
			lines[len(lines)-1].text += " " + strings.TrimSpace(l)
			continue
		}
		lines = append(lines, ln{strings.TrimSpace(l), ind, i + 1})
	}
	pkg := ""
	base := filepath.Base(path)
	var cur *Contract
	var lem *Lemma
	mkClause := func(rest string, no int) *Clause {
		c := &Clause{line: no, file: base}
		if strings.HasPrefix(rest, "{") {
			j := strings.IndexByte(rest, '}')
			for _, t := range strings.Split(rest[1:j], ",") {
				c.tags = append(c.tags, strings.TrimSpace(t))
			}
			rest = strings.TrimSpace(rest[j+1:])
		}
		c.text = rest
		return c
	}
	parse := func(c *Clause) error {
		e, err := parser.ParseExpr(c.text)
		if err != nil {
			return fmt.Errorf("%s:%d: %v in %q", base, c.line, err, c.text)
		}
		c.expr = e
		return nil
	}
	for _, l := range lines {
		word, rest := l.text, ""
		if i := strings.IndexAny(l.text, " {"); i >= 0 {
			word, rest = l.text[:i], strings.TrimSpace(l.text[i:])
		}
		if l.indent == 0 {
			cur, lem = nil, nil
			switch word {
			case "package":
				pkg = rest
			case "assume":
				s.assume = append(s.assume, rest)
			case "func", "trusted":
				c, err := parseFuncHeader(rest)
				if err != nil {
					return fmt.Errorf("%s:%d: %v", base, l.no, err)
				}
				c.trusted = word == "trusted"
				c.pkg, c.file, c.line = pkg, base, l.no
				c.opts = map[string]string{}
				if s.contracts[c.name] != nil {
					return fmt.Errorf("%s:%d: duplicate contract %s", base, l.no, c.name)
				}
				s.contracts[c.name] = c
				s.order = append(s.order, c.name)
				cur = c
			case "ghost":
				f := strings.SplitN(rest, " ", 2)
				s.ghosts[f[0]] = strings.Trim(strings.TrimSpace(f[1]), "\"")
			case "global":
				c := mkClause(rest, l.no)
				if err := parse(c); err != nil {
					return err
				}
				s.ginv = append(s.ginv, c)
			case "spec", "pred":
				if err := s.parseSpecFn(word, rest); err != nil {
					return fmt.Errorf("%s:%d: %v", base, l.no, err)
				}
			case "smt":
				if err := addSMT(rest); err != nil {
					return fmt.Errorf("%s:%d: %v", base, l.no, err)
				}
			case "lemma", "axiom":
				nm, ps, pt, err := parseSig(rest)
				if err != nil {
					return fmt.Errorf("%s:%d: %v", base, l.no, err)
				}
				lem = &Lemma{name: nm, params: ps, ptypes: pt, axiom: word == "axiom", file: base, line: l.no}
				s.lemmas = append(s.lemmas, lem)
			default:
				return fmt.Errorf("%s:%d: unknown %q", base, l.no, word)
			}
			continue
		}
		if lem != nil {
			switch word {
			case "requires", "ensures":
				c := mkClause(rest, l.no)
				if err := parse(c); err != nil {
					return err
				}
				if word == "requires" {
					lem.requires = append(lem.requires, c)
				} else {
					lem.ensures = append(lem.ensures, c)
				}
			case "induct":
				lem.induct = rest
			case "props":
				lem.props = strings.Fields(rest)
			case "only":
				lem.only = strings.Fields(rest)
			case "trigger", "use", "case":
				e, err := parser.ParseExpr("f(" + rest + ")")
				if err != nil {
					return fmt.Errorf("%s:%d: %v", base, l.no, err)
				}
				if word == "trigger" {
					lem.triggers = append(lem.triggers, e.(*ast.CallExpr).Args)
				} else if word == "case" {
					lem.cases = append(lem.cases, e.(*ast.CallExpr).Args...)
				} else {
					lem.uses = append(lem.uses, e.(*ast.CallExpr).Args...)
				}
			default:
				return fmt.Errorf("%s:%d: unknown lemma clause %q", base, l.no, word)
			}
			continue
		}
		if cur == nil {
			return fmt.Errorf("%s:%d: clause outside a block", base, l.no)
		}
		switch word {
		case "set":
			// set G(x) = EXPR: at every return the ghost array G gets the value EXPR at every x
			i := strings.Index(rest, " = ")
			j := strings.IndexByte(rest, '(')
			if i < 0 || j < 0 || j > i {
				return fmt.Errorf("%s:%d: bad set clause", base, l.no)
			}
			c := mkClause(strings.TrimSpace(rest[i+3:]), l.no)
			if err := parse(c); err != nil {
				return err
			}
			cur.ghostUpd = append(cur.ghostUpd, &GhostSet{strings.TrimSpace(rest[:j]), strings.Trim(rest[j:i], "() "), c})
		case "requires", "ensures", "modifies", "panics", "decreases", "use":
			c := mkClause(rest, l.no)
			if word == "modifies" {
				c.text = "f(" + c.text + ")"
			}
			if err := parse(c); err != nil {
				return err
			}
			switch word {
			case "requires":
				cur.requires = append(cur.requires, c)
			case "ensures":
				cur.ensures = append(cur.ensures, c)
			case "modifies":
				cur.modifies = append(cur.modifies, c)
			case "panics":
				cur.panics = append(cur.panics, c)
				cur.mayPanic = true
			case "decreases":
				cur.decr = c
			case "use":
				cur.uses = append(cur.uses, c)
			}
		case "let":
			i := strings.IndexByte(rest, '=')
			c := mkClause(strings.TrimSpace(rest[i+1:]), l.no)
			if err := parse(c); err != nil {
				return err
			}
			cur.lets = append(cur.lets, c)
			cur.letNames = append(cur.letNames, strings.TrimSpace(rest[:i]))
		case "loop", "measure":
			t := &Template{}
			t.Clause = *mkClause(rest, l.no)
			txt := t.text
			if strings.HasPrefix(txt, "[") {
				j := strings.IndexByte(txt, ']')
				depth := 0
				for k := 0; k < len(txt); k++ {
					if txt[k] == '[' {
						depth++
					} else if txt[k] == ']' {
						depth--
						if depth == 0 {
							j = k
							break
						}
					}
				}
				for _, v := range strings.Split(txt[1:j], ",") {
					v = strings.TrimSpace(v)
					any := strings.HasPrefix(v, "any ")
					v = strings.TrimPrefix(v, "any ")
					f := strings.SplitN(v, " ", 2)
					m := Metavar{name: f[0], typ: strings.TrimSpace(f[1]), any: any}
					if strings.HasPrefix(m.typ, "any ") {
						m.any = true
						m.typ = strings.TrimSpace(m.typ[4:])
					}
					if j := strings.IndexByte(m.typ, '@'); j >= 0 {
						m.hint = strings.TrimSpace(m.typ[j+1:])
						m.typ = strings.TrimSpace(m.typ[:j])
					}
					t.vars = append(t.vars, m)
				}
				t.text = strings.TrimSpace(txt[j+1:])
			}
			if err := parse(&t.Clause); err != nil {
				return err
			}
			switch word {
			case "loop":
				cur.loops = append(cur.loops, t)
			case "measure":
				cur.measures = append(cur.measures, t)
			}
		case "props":
			cur.props = append(cur.props, strings.Fields(rest)...)
		case "diverges":
			cur.diverges = true
		case "maypanic":
			cur.mayPanic = true
		case "pure":
			cur.pure = true
		case "opt":
			f := strings.SplitN(rest, " ", 2)
			v := "1"
			if len(f) > 1 {
				v = f[1]
			}
			cur.opts[f[0]] = v
		default:
			return fmt.Errorf("%s:%d: unknown clause %q", base, l.no, word)
		}
	}
	return nil
}

// func NAME(params) (results)
func parseFuncHeader(s string) (*Contract, error) {
	c := &Contract{}
	// the name may start with a parenthesised receiver type
	i := 0
	if strings.HasPrefix(s, "(") {
		i = strings.IndexByte(s, ')') + 1
	}
	j := strings.IndexByte(s[i:], '(')
	if j < 0 {
		return nil, fmt.Errorf("bad function header %q", s)
	}
	c.name = strings.TrimSpace(s[:i+j])
	rest := s[i+j:]
	k := strings.IndexByte(rest, ')')
	split := func(x string) []string {
		var out []string
		for _, p := range strings.Split(x, ",") {
			p = strings.TrimSpace(p)
			if p != "" {
				out = append(out, p)
			}
		}
		return out
	}
	c.params = split(rest[1:k])
	rest = strings.TrimSpace(rest[k+1:])
	if strings.HasPrefix(rest, "(") {
		c.results = split(strings.Trim(rest, "()"))
	}
	return c, nil
}

func parseSig(s string) (name string, ps, pt []string, err error) {
	i := strings.IndexByte(s, '(')
	j := matchParen(s, i)
	if i < 0 || j < 0 {
		return "", nil, nil, fmt.Errorf("bad signature %q", s)
	}
	name = strings.TrimSpace(s[:i])
	for _, p := range splitTop(s[i+1 : j]) {
		p = strings.TrimSpace(p)
		if p == "" {
			continue
		}
		f := strings.SplitN(p, " ", 2)
		ps = append(ps, f[0])
		if len(f) > 1 {
			pt = append(pt, strings.TrimSpace(f[1]))
		} else {
			pt = append(pt, "")
		}
	}
	return
}

func matchParen(s string, i int) int {
	d := 0
	for k := i; k >= 0 && k < len(s); k++ {
		if s[k] == '(' {
			d++
		} else if s[k] == ')' {
			d--
			if d == 0 {
				return k
			}
		}
	}
	return -1
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	return append(out, s[st:])
}

func sortOf(t string) string {
	switch t {
	case "int":
		return SInt
	case "bool":
		return SBool
	case "", "Str", "str":
		return SStr
	case "Iface":
		return SIf
	case "real":
		return SReal
	}
	return strings.Trim(t, "\"") // raw SMT sort
}

func (s *Specs) parseSpecFn(kind, rest string) error {
	name, ps, pt, err := parseSig(rest)
	if err != nil {
		return err
	}
	i := strings.IndexByte(rest, '(')
	j := matchParen(rest, i)
	tail := strings.TrimSpace(rest[j+1:])
	fn := &SpecFn{name: name, params: ps, ptypes: pt}
	if kind == "pred" {
		fn.macro = true
		if !strings.HasPrefix(tail, "=") {
			return fmt.Errorf("pred without body")
		}
		tail = strings.TrimSpace(tail[1:])
		e, err := parser.ParseExpr(tail)
		if err != nil {
			return fmt.Errorf("%v in %q", err, tail)
		}
		fn.body = e
	} else {
		eq := -1
		d := 0
		for k := 0; k < len(tail); k++ {
			switch tail[k] {
			case '(':
				d++
			case ')':
				d--
			case '=':
				if d == 0 && eq < 0 {
					eq = k
				}
			}
		}
		res := tail
		if eq >= 0 {
			res = strings.TrimSpace(tail[:eq])
			e, err := parser.ParseExpr(strings.TrimSpace(tail[eq+1:]))
			if err != nil {
				return fmt.Errorf("%v in %q", err, tail)
			}
			fn.body = e
		}
		if strings.HasSuffix(res, " rec") {
			fn.rec = true
			res = strings.TrimSuffix(res, " rec")
		}
		fn.res = sortOf(strings.TrimSpace(res))
		if fn.body != nil && !fn.rec {
			fn.macro = true
		}
		if !fn.macro {
			var as []string
			for _, t := range pt {
				as = append(as, sortOf(t))
			}
			DeclFun(name, as, fn.res)
			if fn.rec {
				DeclFun(name+"_lim", as, fn.res)
			}
		}
	}
	if s.fns[name] != nil {
		return fmt.Errorf("duplicate spec function %s", name)
	}
	s.fns[name] = fn
	return nil
}

func addSMT(rest string) error {
	if strings.HasPrefix(rest, "(declare-fun ") {
		f := strings.TrimSuffix(strings.TrimPrefix(rest, "(declare-fun "), ")")
		i := strings.IndexByte(f, ' ')
		declSet(f[:i], strings.TrimSpace(f[i+1:]))
		return nil
	}
	if strings.HasPrefix(rest, "(assert ") {
		addRawAxioms(rest)
		return nil
	}
	return fmt.Errorf("bad smt %q", rest)
}

// ------------------------------------------------------------- evaluation

type Env struct {
	ex     *Exec
	st     *State
	old    *State
	vars   map[string]Val
	bvs    map[string]bool
	depth  int
	inRec  string
	ovars  map[string]Val // variables inside old(...)
	lentry *Env           // environment at the loop's entry
	lalloc *Term
}

func (e *Env) with(name string, v Val) *Env {
	n := *e
	n.vars = make(map[string]Val, len(e.vars)+1)
	for k, x := range e.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

func tv(t *Term) Val { return Val{L: []*Term{t}} }

func (v Val) term() *Term {
	if len(v.L) != 1 {
		specPanic("expected a single-sorted value, have %d parts (%v)", len(v.L), v.T)
	}
	return v.L[0]
}

func (e *Env) Bool(x ast.Expr) *Term {
	t := e.Eval(x).term()
	if t.sort != SBool {
		specPanic("not a boolean: %s", exprStr(x))
	}
	return t
}

func exprStr(x ast.Expr) string { return types.ExprString(x) }

func (e *Env) Int(x ast.Expr) *Term {
	t := e.Eval(x).term()
	if t.sort != SInt {
		specPanic("not an integer: %s (%s)", exprStr(x), t.sort)
	}
	return t
}

func isNilExpr(x ast.Expr) bool {
	id, ok := x.(*ast.Ident)
	return ok && id.Name == "nil"
}

func (e *Env) Eval(x ast.Expr) Val {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.Eval(x.X)
	case *ast.Ident:
		if v, ok := e.vars[x.Name]; ok {
			return v
		}
		switch x.Name {
		case "true":
			return tv(True)
		case "false":
			return tv(False)
		case "nil":
			return Val{T: types.Typ[types.UntypedNil], L: []*Term{Num(0)}}
		case "alloc":
			return tv(e.st.alloc)
		}
		if s, ok := e.ex.specs.ghosts[x.Name]; ok {
			return tv(e.st.ghost(x.Name, s))
		}
		if fn, ok := e.ex.specs.fns[x.Name]; ok && len(fn.params) == 0 {
			return e.callSpec(fn, nil)
		}
		if c := e.ex.lookupConst(x.Name); c != nil {
			return *c
		}
		specPanic("unknown identifier %s", x.Name)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			n, ok := new(big.Int).SetString(x.Value, 0)
			if !ok {
				specPanic("bad int %s", x.Value)
			}
			return tv(NumB(n))
		case token.STRING:
			s, err := strconv.Unquote(x.Value)
			if err != nil {
				specPanic("bad string %s", x.Value)
			}
			return tv(StrLit(s))
		case token.CHAR:
			s, _ := strconv.Unquote(x.Value)
			return tv(Num(int64([]rune(s)[0])))
		}
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return tv(Not(e.Bool(x.X)))
		case token.SUB:
			return tv(Neg(e.Int(x.X)))
		}
	case *ast.BinaryExpr:
		switch x.Op {
		case token.LAND:
			return tv(And(e.Bool(x.X), e.Bool(x.Y)))
		case token.LOR:
			return tv(Or(e.Bool(x.X), e.Bool(x.Y)))
		case token.EQL, token.NEQ:
			r := e.equal(x.X, x.Y)
			if x.Op == token.NEQ {
				r = Not(r)
			}
			return tv(r)
		}
		a, b := e.Eval(x.X).term(), e.Eval(x.Y).term()
		if a.sort == SStr && b.sort == SStr {
			switch x.Op {
			case token.ADD:
				return tv(SCat(a, b))
			case token.LSS:
				return tv(App("strlt", SBool, a, b))
			}
		}
		if a.sort != b.sort || (a.sort != SInt && a.sort != SReal) {
			specPanic("operands of %s: %s vs %s in %s", x.Op, a.sort, b.sort, exprStr(x))
		}
		switch x.Op {
		case token.ADD:
			return tv(Add(a, b))
		case token.SUB:
			return tv(Sub(a, b))
		case token.MUL:
			return tv(Mul(a, b))
		case token.QUO:
			return tv(DivE(a, b))
		case token.REM:
			return tv(ModE(a, b))
		case token.LSS:
			return tv(Lt(a, b))
		case token.LEQ:
			return tv(Le(a, b))
		case token.GTR:
			return tv(Gt(a, b))
		case token.GEQ:
			return tv(Ge(a, b))
		}
	case *ast.StarExpr:
		v := e.Eval(x.X)
		pt, ok := v.T.Underlying().(*types.Pointer)
		if !ok {
			specPanic("deref of non-pointer %s", exprStr(x.X))
		}
		return e.st.loadAt(pt.Elem(), v.L[0], v.L[1])
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, isVar := e.vars[id.Name]; !isVar {
				if g := e.ex.w.lookupGlobal(id.Name + "." + x.Sel.Name); g != nil {
					el := types.Unalias(g.Type()).Underlying().(*types.Pointer).Elem()
					if isStruct(el) {
						return Val{T: g.Type(), L: []*Term{e.ex.w.globalObj(g), Num(0)}}
					}
					return e.st.loadAt(el, e.ex.w.globalObj(g), Num(0))
				}
			}
		}
		return e.field(e.Eval(x.X), x.Sel.Name)
	case *ast.IndexExpr:
		return e.index(e.Eval(x.X), x.Index)
	case *ast.SliceExpr:
		v := e.Eval(x.X)
		if v.T == nil || len(v.L) == 1 {
			s := v.term()
			lo, hi := Num(0), SLen(s)
			if x.Low != nil {
				lo = e.Int(x.Low)
			}
			if x.High != nil {
				hi = e.Int(x.High)
			}
			return tv(SSub(s, lo, hi))
		}
		lo, hi := Num(0), v.L[2]
		if x.Low != nil {
			lo = e.Int(x.Low)
		}
		if x.High != nil {
			hi = e.Int(x.High)
		}
		return Val{T: v.T, L: []*Term{v.L[0], Add(v.L[1], lo), Sub(hi, lo), Sub(v.L[3], lo)}}
	case *ast.CallExpr:
		return e.call(x)
	}
	specPanic("cannot evaluate %s (%T)", exprStr(x), x)
	return Val{}
}

func (e *Env) equal(x, y ast.Expr) *Term {
	if isNilExpr(y) {
		return e.isNil(e.Eval(x))
	}
	if isNilExpr(x) {
		return e.isNil(e.Eval(y))
	}
	a, b := e.Eval(x), e.Eval(y)
	return eqVals(a, b)
}

func eqVals(a, b Val) *Term {
	if len(a.L) != len(b.L) {
		specPanic("comparison of values with %d and %d parts", len(a.L), len(b.L))
	}
	var cs []*Term
	for i := range a.L {
		if a.L[i].sort != b.L[i].sort {
			specPanic("comparison of %s with %s", a.L[i].sort, b.L[i].sort)
		}
		cs = append(cs, EqV(a.L[i], b.L[i]))
	}
	return And(cs...)
}

func (e *Env) isNil(v Val) *Term {
	if v.L[0].sort == SIf {
		return Eq(v.L[0], NilI())
	}
	if v.L[0].sort == SInt {
		return Eq(v.L[0], Num(0))
	}
	specPanic("nil comparison of sort %s", v.L[0].sort)
	return nil
}

// field selects a struct field of a value or through a pointer.
func (e *Env) field(v Val, name string) Val {
	if v.T == nil {
		specPanic("field %s of an untyped value", name)
	}
	t := types.Unalias(v.T)
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		st, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			specPanic("field %s of %s", name, typeName(t))
		}
		if sl, ok := specialStruct[typeName(types.Unalias(pt.Elem()))]; ok {
			for _, l := range sl {
				if l.path == name {
					return tv(e.st.loadLeaf(structKey(pt.Elem())+"."+l.path, l, v.L[0], v.L[1]))
				}
			}
		}
		if i := fieldIndex(st, name); i >= 0 {
			f := st.Field(i)
			if isStruct(f.Type()) {
				// a struct field reached through a pointer stays an address
				return Val{T: types.NewPointer(f.Type()), L: []*Term{Add(v.L[0], Num(subOffset(st, i))), v.L[1]}}
			}
			return e.st.loadField(pt.Elem(), st, i, v.L[0], v.L[1])
		}
		// promoted
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() {
				f := st.Field(i)
				if isStruct(f.Type()) && hasField(f.Type(), name) {
					return e.field(Val{T: types.NewPointer(f.Type()), L: []*Term{Add(v.L[0], Num(subOffset(st, i))), v.L[1]}}, name)
				}
			}
		}
		specPanic("no field %s in %s", name, typeName(pt.Elem()))
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		specPanic("field %s of %s", name, typeName(t))
	}
	if sl, ok := specialStruct[typeName(t)]; ok {
		for i, l := range sl {
			if l.path == name {
				return tv(v.L[i])
			}
		}
	}
	if i := fieldIndex(st, name); i >= 0 {
		lo, n := fieldLeaves(st, i)
		return Val{T: st.Field(i).Type(), L: v.L[lo : lo+n]}
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() && hasField(st.Field(i).Type(), name) {
			lo, n := fieldLeaves(st, i)
			return e.field(Val{T: st.Field(i).Type(), L: v.L[lo : lo+n]}, name)
		}
	}
	specPanic("no field %s in %s", name, typeName(t))
	return Val{}
}

func fieldIndex(st *types.Struct, name string) int {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func hasField(t types.Type, name string) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	if fieldIndex(st, name) >= 0 {
		return true
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() && hasField(st.Field(i).Type(), name) {
			return true
		}
	}
	return false
}

func fieldLeaves(st *types.Struct, i int) (lo, n int) {
	for j := 0; j < i; j++ {
		lo += len(leaves(st.Field(j).Type()))
	}
	return lo, len(leaves(st.Field(i).Type()))
}

func (e *Env) index(v Val, ix ast.Expr) Val {
	if v.T == nil || v.L[0].sort == SStr {
		s := v.term()
		if s.sort == SStr {
			return tv(SAt(s, e.Int(ix)))
		}
		if s.sort == "BL" {
			return Val{T: emptyIface, L: []*Term{App("bl_at", SIf, s, e.Int(ix))}}
		}
		if s.sort == "BD" {
			return Val{T: emptyIface, L: []*Term{Select(App("bd_val", arrSort(SStr, SIf), s), e.Eval(ix).term())}}
		}
		if strings.HasPrefix(s.sort, "(Array ") {
			return tv(Select(s, e.Eval(ix).term()))
		}
		specPanic("index of sort %s", s.sort)
	}
	switch u := types.Unalias(v.T).Underlying().(type) {
	case *types.Slice:
		i := e.Int(ix)
		return e.st.loadAtQ(u.Elem(), v.L[0], Add(v.L[1], i))
	case *types.Map:
		k := e.Eval(ix)
		return e.st.mapGet(u, v.L[0], mapKey(u, k))
	}
	specPanic("index of %s", typeName(v.T))
	return Val{}
}

func (e *Env) args(x *ast.CallExpr) []Val {
	var out []Val
	for _, a := range x.Args {
		out = append(out, e.Eval(a))
	}
	return out
}

func (e *Env) call(x *ast.CallExpr) Val {
	id, ok := x.Fun.(*ast.Ident)
	if !ok {
		specPanic("call of %s", exprStr(x.Fun))
	}
	switch id.Name {
	case "old":
		n := *e
		n.st = e.old
		if e.old == nil {
			specPanic("old() not available here")
		}
		if e.ovars != nil {
			n.vars = map[string]Val{}
			for k, v := range e.vars {
				n.vars[k] = v
			}
			for k, v := range e.ovars {
				n.vars[k] = v
			}
		}
		return n.Eval(x.Args[0])
	case "entry":
		if e.lentry == nil {
			specPanic("entry() outside a loop")
		}
		return e.lentry.Eval(x.Args[0])
	case "lfresh": // allocated since the loop's entry
		return tv(Ge(e.Eval(x.Args[0]).L[0], e.lalloc))
	case "imp":
		return tv(Imp(e.Bool(x.Args[0]), e.Bool(x.Args[1])))
	case "iff":
		return tv(Iff(e.Bool(x.Args[0]), e.Bool(x.Args[1])))
	case "ite":
		c := e.Bool(x.Args[0])
		a, b := e.Eval(x.Args[1]), e.Eval(x.Args[2])
		if len(a.L) != len(b.L) {
			specPanic("ite branches differ: %s", exprStr(x))
		}
		r := Val{T: a.T}
		for i := range a.L {
			r.L = append(r.L, Ite(c, a.L[i], b.L[i]))
		}
		return r
	case "forall", "exists":
		// forall(i, lo, hi, body)  or  forall(i, "sort", body [, pattern])
		nm := x.Args[0].(*ast.Ident).Name
		if lit, ok := x.Args[1].(*ast.BasicLit); ok && lit.Kind == token.STRING {
			s, _ := strconv.Unquote(lit.Value)
			var bv *Term
			var bval Val
			if t := e.ex.typeByName(s, true); t != nil && len(leaves(t)) > 1 {
				var bvs []*Term
				for _, l := range leaves(t) {
					bvs = append(bvs, BoundVar(nm, l.sort))
				}
				bval = Val{T: t, L: bvs}
				body := e.with(nm, bval).Bool(x.Args[2])
				var pats [][]*Term
				if len(x.Args) > 3 {
					for _, p := range x.Args[3:] {
						pats = append(pats, e.with(nm, bval).Eval(p).L[:1])
					}
				}
				if id.Name == "forall" {
					return tv(Forall(bvs, body, pats...))
				}
				return tv(Exists(bvs, body, pats...))
			}
			bv = BoundVar(nm, sortOf(s))
			bval = tv(bv)
			if sortOf(s) == SIf {
				bval.T = emptyIface
			}
			body := e.with(nm, bval).Bool(x.Args[2])
			var pats [][]*Term
			if len(x.Args) > 3 {
				for _, p := range x.Args[3:] {
					pats = append(pats, e.with(nm, bval).Eval(p).L)
				}
			}
			if id.Name == "forall" {
				return tv(Forall([]*Term{bv}, body, pats...))
			}
			return tv(Exists([]*Term{bv}, body, pats...))
		}
		lo, hi := e.Int(x.Args[1]), e.Int(x.Args[2])
		bv := BoundVar(nm, SInt)
		body := e.with(nm, tv(bv)).Bool(x.Args[3])
		if id.Name == "forall" {
			// small constant ranges are expanded
			if lo.num != nil && hi.num != nil && new(big.Int).Sub(hi.num, lo.num).Cmp(big.NewInt(9)) <= 0 {
				var cs []*Term
				for k := lo.num.Int64(); k < hi.num.Int64(); k++ {
					cs = append(cs, e.with(nm, tv(Num(k))).Bool(x.Args[3]))
				}
				return tv(And(cs...))
			}
			return tv(forallRange(bv, lo, hi, body))
		}
		if lo.num != nil && hi.num != nil && new(big.Int).Sub(hi.num, lo.num).Cmp(big.NewInt(9)) <= 0 {
			var cs []*Term
			for k := lo.num.Int64(); k < hi.num.Int64(); k++ {
				cs = append(cs, e.with(nm, tv(Num(k))).Bool(x.Args[3]))
			}
			return tv(Or(cs...))
		}
		return tv(Not(forallRange(bv, lo, hi, Not(body))))
	case "len":
		v := e.Eval(x.Args[0])
		return tv(e.lenOf(v))
	case "cap":
		return tv(e.Eval(x.Args[0]).L[3])
	case "obj":
		return tv(e.Eval(x.Args[0]).L[0])
	case "off", "idx":
		return tv(e.Eval(x.Args[0]).L[1])
	case "str": // contents of a byte slice
		v := e.Eval(x.Args[0])
		if len(v.L) == 1 {
			return v
		}
		m := e.st.get("e:uint8", arrSort(SInt, SInt))
		return tv(SOf(Select(m, v.L[0]), v.L[1], v.L[2]))
	case "content": // contents of a strings.Builder or bytes.Buffer (by address)
		v := e.Eval(x.Args[0])
		pt, ok := types.Unalias(v.T).Underlying().(*types.Pointer)
		if !ok || v.pl != nil {
			specPanic("content of a non-pointer")
		}
		n := typeName(types.Unalias(pt.Elem()))
		if n != "strings.Builder" && n != "bytes.Buffer" {
			specPanic("content of %s", n)
		}
		return tv(e.st.loadLeaf(n+".s", Leaf{path: "s", sort: SStr}, v.L[0], v.L[1]))
	case "elems": // backing array of a slice (single-leaf element type), as (Array Int leaf) indexed from off
		v := e.Eval(x.Args[0])
		u := types.Unalias(v.T).Underlying().(*types.Slice)
		ml := memLayout(u.Elem())
		k := 0
		if len(x.Args) > 1 {
			k = int(e.Int(x.Args[1]).num.Int64())
		}
		m := e.st.get(ml[k].key, arrSort(SInt, ml[k].leaf.sort))
		return tv(Select(m, Add(v.L[0], Num(ml[k].sub))))
	case "col": // column of a slice of structs: the values of one field, as (Array Int leaf) indexed from off
		v := e.Eval(x.Args[0])
		u, ok := types.Unalias(v.T).Underlying().(*types.Slice)
		if !ok {
			specPanic("col of a non-slice")
		}
		n := strings.Trim(x.Args[1].(*ast.BasicLit).Value, "\"")
		var hit *Term
		for _, m := range memLayout(u.Elem()) {
			if strings.HasSuffix(m.key, "."+n) {
				if hit != nil {
					specPanic("col: %s is ambiguous", n)
				}
				hit = Select(e.st.get(m.key, arrSort(SInt, m.leaf.sort)), Add(v.L[0], Num(m.sub)))
			}
		}
		if hit == nil {
			specPanic("col: no field %s", n)
		}
		return tv(hit)
	case "has":
		v := e.Eval(x.Args[0])
		if v.T == nil {
			if v.term().sort == "BD" {
				return tv(Select(App("bd_dom", arrSort(SStr, SBool), v.term()), e.Eval(x.Args[1]).term()))
			}
			return tv(Select(v.term(), e.Eval(x.Args[1]).term()))
		}
		u := types.Unalias(v.T).Underlying().(*types.Map)
		return tv(e.st.mapHas(u, v.L[0], mapKey(u, e.Eval(x.Args[1]))))
	case "domain":
		v := e.Eval(x.Args[0])
		if v.T == nil && v.term().sort == "BD" {
			return tv(App("bd_dom", arrSort(SStr, SBool), v.term()))
		}
		u := types.Unalias(v.T).Underlying().(*types.Map)
		return tv(e.st.mapDom(u, v.L[0]))
	case "ptrlike": // ptrlike(p, o): the pointer of p's type to the start of object o
		v := e.Eval(x.Args[0])
		return Val{T: v.T, L: []*Term{e.Int(x.Args[1]), Num(0)}}
	case "keyof":
		// the key of an element (its Key method): of a type parameter, an uninterpreted function of the
		// value; of a pointer to the named type N, what the predicate keyof_N says
		v := e.Eval(x.Args[0])
		if len(v.L) == 1 && v.L[0].sort == "TP" {
			DeclFun("tpKey", []string{"TP"}, SStr)
			return tv(App("tpKey", SStr, v.L[0]))
		}
		if p, ok := types.Unalias(v.T).(*types.Pointer); ok {
			if n, ok := types.Unalias(p.Elem()).(*types.Named); ok {
				return e.Eval(&ast.CallExpr{Fun: ast.NewIdent("keyof_" + n.Obj().Name()), Args: x.Args})
			}
		}
		specPanic("keyof of %s", typeName(v.T))
	case "bd":
		// snapshot of a Dict value
		v := e.Eval(x.Args[0])
		u := types.Unalias(v.T).Underlying().(*types.Map)
		return tv(e.st.snapDict(u, v.L[0]))
	case "bl":
		v := e.Eval(x.Args[0])
		return tv(e.st.snapList(v))
	case "finite": // a snapshot of an actual map
		return tv(App("bd_finite", SBool, e.Eval(x.Args[0]).term()))
	case "frozen": // the backing store of this Dict or List has been boxed
		v := e.Eval(x.Args[0])
		if _, ok := types.Unalias(v.T).Underlying().(*types.Map); ok {
			return tv(Select(e.ex.frozen(e.st, "map:string:iface"), v.L[0]))
		}
		return tv(Select(e.ex.frozen(e.st, "e:iface"), v.L[0]))
	case "fresh":
		v := e.Eval(x.Args[0])
		return tv(Ge(v.L[0], e.old.alloc))
	case "alive": // existing object
		v := e.Eval(x.Args[0])
		sz := int64(1)
		if v.T != nil {
			switch u := types.Unalias(v.T).Underlying().(type) {
			case *types.Slice:
				sz = blockSize(u.Elem())
			case *types.Pointer:
				sz = blockSize(u.Elem())
			}
		}
		return tv(And(Le(Num(0), v.L[0]), Le(Add(v.L[0], Num(sz)), e.st.alloc)))
	case "allocated": // existed at entry
		v := e.Eval(x.Args[0])
		return tv(Lt(v.L[0], e.old.alloc))
	case "is":
		v := e.Eval(x.Args[0])
		return tv(IsIface(e.ex.typeArg(x.Args[1]), v.term()))
	case "as":
		v := e.Eval(x.Args[0])
		t := e.ex.typeArg(x.Args[1])
		c := ictorFor(t)
		r := Val{T: t}
		for k := range c.sorts {
			r.L = append(r.L, UnIface(t, v.term(), k))
		}
		if boxKind(t) != "" {
			r.T = nil
		}
		return r
	case "iface": // box a value: iface(v, "T")
		v := e.Eval(x.Args[0])
		t := e.ex.typeArg(x.Args[1])
		return Val{T: emptyIface, L: []*Term{MkIface(t, v.L)}}
	case "cat":
		r := StrEmpty()
		var ts []*Term
		for _, a := range x.Args {
			ts = append(ts, e.Eval(a).term())
		}
		for i := len(ts) - 1; i >= 0; i-- {
			r = SCat(ts[i], r)
		}
		return tv(r)
	case "sub":
		return tv(SSub(e.Eval(x.Args[0]).term(), e.Int(x.Args[1]), e.Int(x.Args[2])))
	case "chr":
		return tv(SChr(e.Int(x.Args[0])))
	case "dec":
		return tv(App("sdec", SStr, e.Int(x.Args[0])))
	case "min":
		a, b := e.Int(x.Args[0]), e.Int(x.Args[1])
		return tv(Ite(Le(a, b), a, b))
	case "max":
		a, b := e.Int(x.Args[0]), e.Int(x.Args[1])
		return tv(Ite(Le(a, b), b, a))
	case "be":
		// be(s, i, n): big-endian number of n bytes of string s at i
		s, i := e.Eval(x.Args[0]).term(), e.Int(x.Args[1])
		n := e.Int(x.Args[2]).num.Int64()
		r := Num(0)
		for k := int64(0); k < n; k++ {
			r = Add(Mul(Num(256), r), SAt(s, Add(i, Num(k))))
		}
		return tv(r)
	case "b8":
		return tv(AppR("b8", bigZero, bigOne, e.Int(x.Args[0]), e.Int(x.Args[1])))
	case "pow2":
		return tv(Pow2(e.Int(x.Args[0])))
	case "store":
		return tv(Store(e.Eval(x.Args[0]).term(), e.Eval(x.Args[1]).term(), e.Eval(x.Args[2]).term()))
	case "let":
		// let(name, value, body)
		nm := x.Args[0].(*ast.Ident).Name
		return e.with(nm, e.Eval(x.Args[1])).Eval(x.Args[2])
	case "mem": // mem("key", obj, idx) raw memory read (debug/advanced)
		specPanic("mem not supported")
	case "dyn": // methods on interface: none
		specPanic("dyn not supported")
	}
	if fn, ok := e.ex.specs.fns[id.Name]; ok {
		return e.callSpec(fn, x.Args)
	}
	if d, ok := declGet(id.Name); ok {
		// raw SMT function
		var ts []*Term
		for _, a := range e.args(x) {
			ts = append(ts, a.L...)
		}
		j := strings.LastIndexByte(d, ')')
		// result sort is what follows the argument list
		res := strings.TrimSpace(d[matchParen(d, 0)+1:])
		_ = j
		r := App(id.Name, res, ts...)
		v := tv(r)
		if res == SIf {
			v.T = emptyIface
		}
		return v
	}
	specPanic("unknown function %s", id.Name)
	return Val{}
}

func (e *Env) lenOf(v Val) *Term {
	if v.T == nil || v.L[0].sort == SStr {
		s := v.term()
		switch s.sort {
		case SStr:
			return SLen(s)
		case "BL":
			return AppR("bl_len", bigZero, maxLen, s)
		case "BD":
			return AppR("bd_len", bigZero, maxLen, s)
		}
		specPanic("len of sort %s", s.sort)
	}
	switch u := types.Unalias(v.T).Underlying().(type) {
	case *types.Slice:
		return v.L[2]
	case *types.Map:
		return e.st.mapLen(u, v.L[0])
	}
	specPanic("len of %s", typeName(v.T))
	return nil
}

func (e *Env) callSpec(fn *SpecFn, args []ast.Expr) Val {
	if len(args) != len(fn.params) {
		specPanic("%s expects %d arguments", fn.name, len(fn.params))
	}
	if fn.macro {
		if e.depth > 60 {
			specPanic("macro recursion in %s", fn.name)
		}
		n := *e
		n.depth++
		n.vars = map[string]Val{}
		n.ovars = nil
		for i, a := range args {
			v := e.Eval(a)
			if fn.ptypes[i] != "" && v.T == nil && fn.ptypes[i][0] != '(' {
				if t := e.ex.typeByName(fn.ptypes[i], true); t != nil {
					v.T = t
				}
			}
			n.vars[fn.params[i]] = v
		}
		return n.Eval(fn.body)
	}
	var ts []*Term
	for i, a := range args {
		v := e.Eval(a)
		if v.T != nil && len(v.L) > 1 && sortOf(fn.ptypes[i]) == SStr {
			specPanic("%s: argument %d needs str()", fn.name, i)
		}
		ts = append(ts, v.L...)
		if v.term().sort != sortOf(fn.ptypes[i]) {
			specPanic("%s: argument %d has sort %s, want %s", fn.name, i, v.term().sort, sortOf(fn.ptypes[i]))
		}
	}
	nm := fn.name
	if e.inRec == fn.name {
		nm += "_lim"
	}
	v := tv(App(nm, fn.res, ts...))
	if fn.res == SIf {
		v.T = emptyIface
	}
	return v
}

// defineRec turns recursive spec functions into axioms (one unfolding per mention).
func (ex *Exec) defineSpecFns() {
	var names []string
	for n := range ex.specs.fns {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fn := ex.specs.fns[n]
		if !fn.rec {
			continue
		}
		env := &Env{ex: ex, st: newState(), vars: map[string]Val{}, inRec: fn.name}
		var bvs []*Term
		for i, p := range fn.params {
			b := BoundVar(p, sortOf(fn.ptypes[i]))
			bvs = append(bvs, b)
			v := tv(b)
			if b.sort == SIf {
				v.T = emptyIface
			}
			env.vars[p] = v
		}
		app := App(fn.name, fn.res, bvs...)
		lim := App(fn.name+"_lim", fn.res, bvs...)
		body := env.Eval(fn.body).term()
		addAxiom("def_"+fn.name, Forall(bvs, App("=", SBool, app, body), []*Term{app}))
		addAxiom("lim_"+fn.name, Forall(bvs, App("=", SBool, app, lim), []*Term{app}))
	}
}

// forallRange builds ∀bv. lo<=bv<hi ⇒ body with usable triggers.
func forallRange(bv, lo, hi, body *Term) *Term {
	if body == True {
		return True
	}
	full := Imp(And(Le(lo, bv), Lt(bv, hi)), body)
	if full == True {
		return True
	}
	variants := triggerVariants(bv, full)
	if len(variants) == 0 {
		return Forall([]*Term{bv}, full)
	}
	first := variants[0]
	if len(variants) > 1 && len(first.bvs) > 0 {
		altMu.Lock()
		alts[first] = variants[1:]
		altMu.Unlock()
	}
	return first
}

// triggerVariants: for each distinct offset r such that select(arr, bv+r) (or sat/function)
// occurs, the quantifier re-indexed by j = bv + r.
func triggerVariants(bv, full *Term) []*Term {
	var cs []*trigCand
	seen := map[*Term]bool{}
	inner := map[*Term]bool{}
	// hasInner: mentions bv or a variable bound inside full
	var hasInner func(t *Term) bool
	hasInner = func(t *Term) bool {
		if !t.bound {
			return false
		}
		if t == bv || inner[t] {
			return true
		}
		for _, a := range t.args {
			if hasInner(a) {
				return true
			}
		}
		return false
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.bound {
			return
		}
		seen[t] = true
		if len(t.bvs) > 0 {
			// triggers must not contain inner bound variables; look inside anyway for terms free of them
			for _, b := range t.bvs {
				inner[b] = true
			}
			walk(t.args[0])
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		isFn := t.op == "select" || t.op == "sat"
		if !isFn {
			if _, ok := declGet(t.op); ok && len(t.args) > 0 {
				isFn = true
			}
		}
		if !isFn {
			return
		}
		// which argument is the index
		for k, a := range t.args {
			if a.sort != SInt || !a.bound {
				continue
			}
			l := linOf(a)
			c, ok := l.atoms[bv]
			if !ok || c.Cmp(bigOne) != 0 {
				continue
			}
			okk := true
			for x := range l.atoms {
				if x != bv && hasInner(x) {
					okk = false
				}
			}
			for m, o := range t.args {
				if m != k && hasInner(o) {
					okk = false
				}
			}
			if !okk {
				continue
			}
			rest := Sub(a, bv)
			var c0 *trigCand
			for _, c := range cs {
				if c.rest == rest {
					c0 = c
				}
			}
			if c0 == nil {
				c0 = &trigCand{rest: rest, pats: map[*Term]bool{}}
				cs = append(cs, c0)
			}
			if !c0.pats[t] {
				c0.pats[t] = true
				c0.order = append(c0.order, t)
			}
		}
	}
	walk(full)
	cs = dropLooping(cs)
	var out []*Term
	for _, c := range cs {
		j := BoundVar("j", SInt)
		sub := map[*Term]*Term{bv: Sub(j, c.rest)}
		body := Subst(full, sub)
		var pats [][]*Term
		for _, p := range c.order {
			q := Subst(p, sub)
			pats = append(pats, []*Term{q})
		}
		out = append(out, Forall([]*Term{j}, body, pats...))
	}
	return out
}

// trigCand: the patterns in which a bound variable occurs with the offset rest.
type trigCand struct {
	rest  *Term
	pats  map[*Term]bool
	order []*Term
}

// dropLooping leaves out patterns f(.., i) of a specification function f when
// f(.., i+c) occurs too: instantiating on one creates the other, without end.
func dropLooping(cs []*trigCand) []*trigCand {
	at := map[string]map[*trigCand]bool{}
	name := func(t *Term) string {
		if t.op == "select" || t.op == "sat" {
			return ""
		}
		return t.op
	}
	for _, c := range cs {
		for _, p := range c.order {
			if n := name(p); n != "" {
				if at[n] == nil {
					at[n] = map[*trigCand]bool{}
				}
				at[n][c] = true
			}
		}
	}
	var out []*trigCand
	for _, c := range cs {
		k := &trigCand{rest: c.rest}
		for _, p := range c.order {
			if n := name(p); n == "" || len(at[n]) < 2 {
				k.order = append(k.order, p)
			}
		}
		if len(k.order) > 0 {
			out = append(out, k)
		}
	}
	if len(out) == 0 {
		return cs
	}
	return out
}
