package main

// Queries: printing, solver processes, portfolio.

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Axiom: a quantified fact included when relevant.
type Axiom struct {
	name string
	text string // raw SMT (if non-empty)
	t    *Term
	pats [][]string // symbol sets per pattern alternative
	syms []string   // all symbols used
	once sync.Once
}

var axioms []*Axiom

func addRawAxioms(text string) {
	for _, line := range strings.Split(text, "\n") {
		line = strings.TrimSpace(line)
		if line == "" || strings.HasPrefix(line, ";") {
			continue
		}
		a := &Axiom{text: line}
		if i := strings.Index(line, ":named "); i >= 0 {
			a.name = strings.TrimRight(line[i+7:], ") ")
		}
		axioms = append(axioms, a)
	}
}

// resolve finds the symbols of a raw axiom (after all declarations are in).
func (a *Axiom) resolve() {
	if a.text == "" {
		return
	}
	a.once.Do(func() {
		for i := 0; ; {
			j := strings.Index(a.text[i:], ":pattern (")
			if j < 0 {
				break
			}
			k := i + j + len(":pattern (")
			d := 1
			e := k
			for ; d > 0; e++ {
				if a.text[e] == '(' {
					d++
				} else if a.text[e] == ')' {
					d--
				}
			}
			a.pats = append(a.pats, rawSyms(a.text[k:e-1]))
			i = e
		}
		a.syms = rawSyms(a.text)
		if len(a.pats) == 0 {
			a.pats = [][]string{{}}
		}
	})
}

func rawSyms(s string) []string {
	var out []string
	seen := map[string]bool{}
	f := strings.FieldsFunc(s, func(r rune) bool { return r == '(' || r == ')' || r == ' ' })
	for _, w := range f {
		if _, ok := declGet(w); ok && !seen[w] {
			seen[w] = true
			out = append(out, w)
		}
	}
	return out
}

func addAxiom(name string, t *Term) {
	a := &Axiom{name: name, t: t}
	ss := map[string]bool{}
	collectSyms(t, ss, map[*Term]bool{})
	for s := range ss {
		if _, ok := declGet(s); ok {
			a.syms = append(a.syms, s)
		}
	}
	sort.Strings(a.syms)
	if len(t.pats) == 0 {
		a.pats = [][]string{a.syms}
	}
	for _, p := range t.pats {
		ss := map[string]bool{}
		for _, x := range p {
			collectSyms(x, ss, map[*Term]bool{})
		}
		var l []string
		for s := range ss {
			if _, ok := declGet(s); ok {
				l = append(l, s)
			}
		}
		a.pats = append(a.pats, l)
	}
	axioms = append(axioms, a)
}

type Query struct {
	facts   []*Term
	goals   []*Term         // each checked separately by refuting its negation
	skip    map[string]bool // axioms not to be used (lemma being proved and later ones)
	noQuant bool
	all     bool // every axiom, whatever symbols it mentions
}

// script prints the common part; goalLines[i] is the assertion refuting goal i.
func (q *Query) script() (string, []string) {
	common, fl, goals := q.pieces()
	var sb strings.Builder
	sb.WriteString(common)
	for _, t := range q.facts {
		sb.WriteString(fl[t])
	}
	return sb.String(), goals
}

var usedAxioms sync.Map

// pieces prints the declarations and definitions, each fact and each negated goal.
func (q *Query) pieces() (string, map[*Term]string, []string) {
	var sb strings.Builder
	all := append(append([]*Term{}, q.facts...), q.goals...)
	syms := map[string]bool{}
	seen := map[*Term]bool{}
	for _, t := range all {
		collectSyms(t, syms, seen)
	}
	// closure over symbol definitions and axioms
	var defs []*Term
	doneDef := map[string]bool{}
	used := map[*Axiom]bool{}
	var axs []*Axiom
	for {
		changed := false
		for s := range syms {
			if !doneDef[s] {
				doneDef[s] = true
				for _, f := range symDefs[s] {
					if q.noQuant && len(f.bvs) > 0 {
						continue
					}
					defs = append(defs, f)
					collectSyms(f, syms, seen)
					changed = true
				}
			}
		}
		if !q.noQuant {
			for _, a := range axioms {
				if used[a] || q.skip[a.name] {
					continue
				}
				a.resolve()
				for _, p := range a.pats {
					ok := true
					for _, s := range p {
						if !syms[s] && !q.all {
							ok = false
							break
						}
					}
					if ok {
						used[a] = true
						usedAxioms.Store(a.name, true)
						axs = append(axs, a)
						for _, s := range a.syms {
							if !syms[s] {
								syms[s] = true
							}
						}
						if a.t != nil {
							collectSyms(a.t, syms, seen)
						}
						changed = true
						break
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	sort.Slice(axs, func(i, j int) bool { return axs[i].name < axs[j].name })
	sort.Slice(defs, func(i, j int) bool { return defs[i].id < defs[j].id })
	sb.WriteString(ifaceDecl())
	var names []string
	for s := range syms {
		if _, ok := declGet(s); ok {
			names = append(names, s)
		}
	}
	sort.Strings(names)
	for _, s := range names {
		d, _ := declGet(s)
		fmt.Fprintf(&sb, "(declare-fun %s %s)\n", s, d)
	}
	for _, a := range axs {
		if a.text != "" {
			sb.WriteString(a.text + "\n")
		} else {
			sb.WriteString("(assert " + a.t.String() + ")\n")
		}
	}
	// shared subterm definitions
	pr := newPrinter()
	for _, t := range defs {
		pr.count(t)
	}
	for _, t := range all {
		pr.count(t)
	}
	var rng []*Term
	rseen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if rseen[t] {
			return
		}
		rseen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		if t.sort == SInt && !t.bound && t.num == nil && (t.lo != nil || t.hi != nil) {
			switch t.op {
			case "+", "*", "-", "ite", "div", "mod":
				return
			}
			rng = append(rng, t)
		}
	}
	for _, t := range defs {
		walk(t)
	}
	for _, t := range all {
		walk(t)
	}
	for _, t := range rng {
		pr.count(t)
	}
	var body strings.Builder
	for _, t := range rng {
		x := pr.print(t, &body)
		if t.lo != nil {
			fmt.Fprintf(&body, "(assert (<= %s %s))\n", NumB(t.lo).op, x)
		}
		if t.hi != nil {
			fmt.Fprintf(&body, "(assert (<= %s %s))\n", x, NumB(t.hi).op)
		}
	}
	for _, t := range defs {
		x := pr.print(t, &body)
		fmt.Fprintf(&body, "(assert %s)\n", x)
	}
	factLines := map[*Term]string{}
	for _, t := range q.facts {
		if q.noQuant && hasQuant(t) {
			continue
		}
		factLines[t] = "(assert " + pr.print(t, &body) + ")\n"
	}
	var goals []string
	for _, g := range q.goals {
		x := pr.print(Not(g), &body)
		goals = append(goals, "(assert "+x+")\n")
	}
	sb.WriteString(body.String())
	return sb.String(), factLines, goals
}

var quantMemo = map[*Term]bool{}
var quantMu sync.Mutex

func hasQuant(t *Term) bool {
	quantMu.Lock()
	v, ok := quantMemo[t]
	quantMu.Unlock()
	if ok {
		return v
	}
	r := len(t.bvs) > 0
	for _, a := range t.args {
		if r {
			break
		}
		r = hasQuant(a)
	}
	quantMu.Lock()
	quantMemo[t] = r
	quantMu.Unlock()
	return r
}

type printer struct {
	refs map[*Term]int
	size map[*Term]int
	name map[*Term]string
}

func newPrinter() *printer {
	return &printer{map[*Term]int{}, map[*Term]int{}, map[*Term]string{}}
}

func (p *printer) count(t *Term) int {
	p.refs[t]++
	if p.refs[t] > 1 {
		return p.size[t]
	}
	n := 1
	for _, a := range t.args {
		n += p.count(a)
	}
	if n > 1000000 {
		n = 1000000
	}
	p.size[t] = n
	return n
}

func (p *printer) print(t *Term, defs *strings.Builder) string {
	if len(t.args) == 0 {
		return t.op
	}
	if n, ok := p.name[t]; ok {
		return n
	}
	var s string
	if len(t.bvs) > 0 {
		var sb strings.Builder
		sb.WriteString("(" + t.op + " (")
		for _, b := range t.bvs {
			sb.WriteString("(" + b.op + " " + b.sort + ")")
		}
		sb.WriteString(") ")
		body := p.print(t.args[0], defs)
		if len(t.pats) > 0 {
			sb.WriteString("(! " + body)
			for _, pt := range t.pats {
				sb.WriteString(" :pattern (")
				for i, x := range pt {
					if i > 0 {
						sb.WriteByte(' ')
					}
					sb.WriteString(p.print(x, defs))
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		} else {
			sb.WriteString(body)
		}
		sb.WriteString(")")
		s = sb.String()
	} else {
		parts := make([]string, 0, len(t.args)+1)
		parts = append(parts, t.op)
		if t.op == "*" && t.sort == SReal {
			parts = append(parts, "1.0") // keeps nlText away from real products
		}
		for _, a := range t.args {
			parts = append(parts, p.print(a, defs))
		}
		s = "(" + strings.Join(parts, " ") + ")"
	}
	if !t.bound && p.refs[t] > 1 && (p.size[t] > 4) {
		n := fmt.Sprintf("$%d", t.id)
		fmt.Fprintf(defs, "(define-fun %s () %s %s)\n", n, t.sort, s)
		p.name[t] = n
		return n
	}
	return s
}

// ------------------------------------------------------------- processes

var solverSem = make(chan struct{}, 8)
var solverTime int64 // nanoseconds
var solverRuns int64

type solverCfg struct {
	name string
	bin  string
	args []string
	pre  string
	nl   bool // products of variables as an uninterpreted function with the axioms of nmulAx
}

// nmulAx: facts about multiplication under which a goal may be refuted with products kept opaque.
// Equal factors then give equal products by congruence, which the solvers' nonlinear arithmetic does not promise.
const nmulAx = `(declare-fun nmul (Int Int) Int)
(assert (forall ((x Int) (y Int)) (! (= (nmul x y) (nmul y x)) :pattern ((nmul x y)))))
(assert (forall ((x Int) (y Int)) (! (and (=> (and (<= 0 x) (<= 0 y)) (<= 0 (nmul x y))) (=> (and (<= 1 x) (<= 0 y)) (<= y (nmul x y))) (=> (and (<= 1 x) (<= y (- 1))) (and (<= (nmul x y) y) (<= (nmul x y) (- x)))) (=> (= x 0) (= (nmul x y) 0)) (=> (= x 1) (= (nmul x y) y)) (=> (= x (- 1)) (= (nmul x y) (- y)))) :pattern ((nmul x y)))))
(assert (forall ((x Int) (y Int) (z Int)) (! (=> (< 0 x) (and (=> (<= y z) (<= (nmul x y) (nmul x z))) (=> (< y z) (<= (+ (nmul x y) x) (nmul x z))) (=> (= z (+ y 1)) (= (nmul x z) (+ (nmul x y) x))))) :pattern ((nmul x y) (nmul x z)))))
`

// nlText replaces products of two non-literals by nmul.
func nlText(s string) (string, bool) {
	if !strings.Contains(s, "(* ") {
		return s, false
	}
	var sb strings.Builder
	hit := false
	for {
		i := strings.Index(s, "(* ")
		if i < 0 {
			break
		}
		sb.WriteString(s[:i])
		r := s[i+3:]
		lit := len(r) > 3 && (r[0] >= '0' && r[0] <= '9' || strings.HasPrefix(r, "(- ") && r[3] >= '0' && r[3] <= '9')
		if lit {
			sb.WriteString("(* ")
		} else {
			sb.WriteString("(nmul ")
			hit = true
		}
		s = r
	}
	sb.WriteString(s)
	if !hit {
		return sb.String(), false
	}
	return nmulAx + sb.String(), true
}

func z3nl(seed int) solverCfg {
	c := z3new(seed, "")
	c.nl, c.name = true, "z3-5nl"
	return c
}

func z3new(seed int, extra string) solverCfg {
	return solverCfg{name: "z3-5", bin: "z3-new", args: []string{"-in", "-smt2"}, pre: fmt.Sprintf("(set-option :smt.random_seed %d)\n(set-option :smt.mbqi false)\n(set-option :auto_config false)\n(set-option :smt.case_split 3)\n%s", seed, extra)}
}

// z3plain leaves the case split strategy at its default.
func z3plain(seed int) solverCfg {
	return solverCfg{name: "z3-5cs", bin: "z3-new", args: []string{"-in", "-smt2"}, pre: fmt.Sprintf("(set-option :smt.random_seed %d)\n(set-option :smt.mbqi false)\n(set-option :auto_config false)\n", seed)}
}

// anyUnsat asks several solvers at once; true as soon as one says unsat.
func anyUnsat(script string, each time.Duration, cfgs ...solverCfg) bool {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan bool, len(cfgs))
	for _, cf := range cfgs {
		go func(cf solverCfg) {
			out, _ := runSolver(ctx, cf, script, each)
			ch <- strings.HasPrefix(strings.TrimSpace(out), "unsat")
		}(cf)
	}
	for range cfgs {
		if <-ch {
			return true
		}
	}
	return false
}

// solverDeadline is when the whole check stops asking solvers: what is not proved by then is reported unproved.
var solverDeadline = time.Now().Add(550 * time.Second)

func runSolver(ctx context.Context, c solverCfg, script string, timeout time.Duration) (string, error) {
	select {
	case solverSem <- struct{}{}:
	case <-ctx.Done():
		return "", ctx.Err()
	}
	defer func() { <-solverSem }()
	left := time.Until(solverDeadline)
	if left <= 0 {
		return "", context.DeadlineExceeded
	}
	if timeout > left {
		timeout = left
	}
	t0 := time.Now()
	defer func() {
		atomic.AddInt64(&solverTime, int64(time.Since(t0)))
		atomic.AddInt64(&solverRuns, 1)
	}()
	cctx, cancel := context.WithTimeout(ctx, timeout)
	defer cancel()
	cmd := exec.CommandContext(cctx, c.bin, c.args...)
	if c.nl {
		script, _ = nlText(script)
	}
	cmd.Stdin = strings.NewReader(c.pre + script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	err := cmd.Run()
	return out.String(), err
}

// batchCheck checks each goal with an incremental session; result[i] is "unsat" when proved.
func batchCheck(q *Query, perGoal time.Duration) []string {
	common, goals := q.script()
	res := make([]string, len(goals))
	var sb strings.Builder
	fmt.Fprintf(&sb, "(set-option :timeout %d)\n", perGoal.Milliseconds())
	sb.WriteString(common)
	for _, g := range goals {
		sb.WriteString("(push)\n" + g + "(check-sat)\n(pop)\n")
	}
	out, _ := runSolver(context.Background(), z3nl(1), sb.String(), perGoal*time.Duration(len(goals))+5*time.Second)
	i := 0
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "(error") {
			dumpDebug("batch-error", sb.String()+"\n;"+out)
			fmt.Fprintln(os.Stderr, "SOLVER ERROR:", l)
			return res
		}
		if l == "unsat" || l == "sat" || l == "unknown" || l == "timeout" {
			if i < len(res) {
				res[i] = l
			}
			i++
		}
	}
	return res
}

var debugDir = os.Getenv("GVC_DUMP")

func dumpDebug(name, s string) string {
	if debugDir == "" {
		return ""
	}
	os.MkdirAll(debugDir, 0755)
	h := sha256.Sum256([]byte(s))
	p := filepath.Join(debugDir, fmt.Sprintf("%s-%x.smt2", name, h[:4]))
	os.WriteFile(p, []byte(s), 0644)
	return p
}

// deepSplit breaks a goal into parts, with fresh constants for its universally
// quantified variables.
func deepSplit(g *Term, hyps []*Term, depth int, out *[]*Term) {
	if len(*out) > 150 {
		*out = append(*out, Imp(And(hyps...), g))
		return
	}
	switch g.op {
	case "and":
		for _, a := range g.args {
			deepSplit(a, hyps, depth, out)
		}
		return
	case "=>":
		deepSplit(g.args[1], append(append([]*Term{}, hyps...), g.args[0]), depth, out)
		return
	case "forall":
		m := map[*Term]*Term{}
		for i, b := range g.bvs {
			m[b] = Sym(fmt.Sprintf("sk!%d!%d!%d", b.id, depth, i), b.sort)
		}
		if last := lastIndex(g); last != nil {
			// the last element on its own, then the others
			deepSplit(Subst(g.args[0], map[*Term]*Term{g.bvs[0]: last}), hyps, depth+1, out)
			hyps = append(append([]*Term{}, hyps...), Lt(m[g.bvs[0]], last))
		}
		deepSplit(Subst(g.args[0], m), hyps, depth+1, out)
		return
	case "ite":
		if g.sort == SBool {
			deepSplit(g.args[1], append(append([]*Term{}, hyps...), g.args[0]), depth, out)
			deepSplit(g.args[2], append(append([]*Term{}, hyps...), Not(g.args[0])), depth, out)
			return
		}
	case "=":
		if g.args[0].sort == SBool {
			deepSplit(g.args[1], append(append([]*Term{}, hyps...), g.args[0]), depth, out)
			deepSplit(g.args[0], append(append([]*Term{}, hyps...), g.args[1]), depth, out)
			return
		}
	}
	if depth < 40 && hasProduct(g) {
		// products of reads from updated memory: split on which write is read, so that the products match
		if sel := undecided(g, map[*Term]bool{}); sel != nil {
			var c, a, b *Term
			if sel.op == "ite" {
				c, a, b = sel.args[0], sel.args[1], sel.args[2]
			} else {
				s := sel.args[0]
				c, a, b = Eq(s.args[1], sel.args[1]), s.args[2], Select(s.args[0], sel.args[1])
			}
			h := append([]*Term{}, hyps...)
			deepSplit(Subst(g, map[*Term]*Term{sel: a}), append(h, c), depth+5, out)
			h = append([]*Term{}, hyps...)
			deepSplit(Subst(g, map[*Term]*Term{sel: b}), append(h, Not(c)), depth+5, out)
			return
		}
	}
	*out = append(*out, Imp(And(hyps...), g))
}

// lastIndex: for a goal over a range bounded above by x+1 (exclusive), x.
func lastIndex(g *Term) *Term {
	if len(g.bvs) != 1 || g.args[0].op != "=>" || g.bvs[0].sort != SInt {
		return nil
	}
	b := g.bvs[0]
	cs := []*Term{g.args[0].args[0]}
	if cs[0].op == "and" {
		cs = cs[0].args
	}
	for _, c := range cs {
		if c.op != "not" || c.args[0].op != "<=" {
			continue
		}
		d := Sub(c.args[0].args[0], c.args[0].args[1])
		l := linOf(d)
		k, ok := l.atoms[b]
		if !ok || k.Cmp(big.NewInt(-1)) != 0 || l.c.Cmp(bigOne) != 0 || len(l.atoms) < 2 {
			continue
		}
		h := Sub(Add(d, b), Num(1))
		if h.bound {
			continue
		}
		return h
	}
	return nil
}

func hasProduct(g *Term) bool {
	found := false
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || found {
			return
		}
		seen[t] = true
		if t.op == "*" {
			n := 0
			for _, a := range t.args {
				if a.num == nil {
					n++
				}
			}
			if n > 1 {
				found = true
				return
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(g)
	return found
}

// undecided finds an innermost ground read of a written array, or conditional value.
func undecided(t *Term, seen map[*Term]bool) *Term {
	if seen[t] || t.op == "forall" || t.op == "exists" {
		return nil
	}
	seen[t] = true
	for _, a := range t.args {
		if r := undecided(a, seen); r != nil {
			return r
		}
	}
	if t.bound {
		return nil
	}
	if t.sort != SInt {
		return nil
	}
	if t.op == "ite" {
		return t
	}
	if t.op == "select" && t.args[0].op == "store" {
		return t
	}
	return nil
}

// proveParts tries a goal part by part; true if every part is proved.
func proveParts(facts []*Term, goal *Term, skip map[string]bool, perPart, budget time.Duration) bool {
	var parts []*Term
	deepSplit(goal, nil, 0, &parts)
	if len(parts) == 1 && parts[0] == goal || len(parts) > 150 {
		return false
	}
	var todo []*Term
	for _, p := range parts {
		if p != True {
			todo = append(todo, p)
		}
	}
	if len(todo) == 0 {
		return true
	}
	const chunk = 12
	ok := int32(1)
	var wg sync.WaitGroup
	for i := 0; i < len(todo); i += chunk {
		j := i + chunk
		if j > len(todo) {
			j = len(todo)
		}
		wg.Add(1)
		go func(part []*Term) {
			defer wg.Done()
			q := &Query{facts: facts, goals: part, skip: skip}
			common, goals := q.script()
			var sb strings.Builder
			fmt.Fprintf(&sb, "(set-option :timeout %d)\n", perPart.Milliseconds())
			sb.WriteString(common)
			for _, g := range goals {
				sb.WriteString("(push)\n" + g + "(check-sat)\n(pop)\n")
			}
			byText := map[string]*Term{}
			for k, g := range goals {
				byText[g] = part[k]
			}
			cfgs := []solverCfg{z3new(1, "")}
			if _, nl := nlText(sb.String()); nl {
				cfgs = []solverCfg{z3nl(1), z3new(1, "")}
			}
			for _, cf := range cfgs {
				out, _ := runSolver(context.Background(), cf, sb.String(), budget)
				dbg := cf.pre + sb.String()
				if cf.nl {
					dbg, _ = nlText(dbg)
				}
				dumpDebug("parts", dbg+"\n;"+strings.ReplaceAll(out, "\n", "\n;"))
				n := 0
				var left []string
				k := 0
				for _, l := range strings.Split(out, "\n") {
					switch strings.TrimSpace(l) {
					case "unsat":
						n++
						k++
					case "sat", "unknown", "timeout":
						if k < len(goals) {
							left = append(left, goals[k])
						}
						k++
					}
				}
				if n == len(goals) {
					return
				}
				if k < len(goals) {
					left = append(left, goals[k:]...)
				}
				goals = left
				sb.Reset()
				fmt.Fprintf(&sb, "(set-option :timeout %d)\n", perPart.Milliseconds())
				sb.WriteString(common)
				for _, g := range goals {
					sb.WriteString("(push)\n" + g + "(check-sat)\n(pop)\n")
				}
			}
			if len(goals) <= 12 && freshParts(cfgs, common, goals, byText, facts, skip, perPart) {
				return
			}
			atomic.StoreInt32(&ok, 0)
		}(todo[i:j])
	}
	wg.Wait()
	return ok == 1
}

// freshParts tries each goal in solver processes of its own, with all facts and
// with only those about the goal's own symbols.
func freshParts(cfgs []solverCfg, common string, goals []string, terms map[string]*Term, facts []*Term, skip map[string]bool, each time.Duration) bool {
	var wg sync.WaitGroup
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ok := int32(1)
	for _, g := range goals {
		wg.Add(1)
		go func(g string) {
			defer wg.Done()
			nq := &Query{facts: relevant(facts, terms[g]), goals: []*Term{terms[g]}, skip: skip}
			ncommon, ngoals := nq.script()
			full := common + g + "(check-sat)\n"
			// run times vary wildly with the seed: several short attempts
			type try struct {
				sc string
				cf solverCfg
			}
			var waves [][]try
			if cfgs[0].nl {
				waves = [][]try{
					{{full, z3nl(2)}, {full, z3nl(3)}, {ncommon + ngoals[0] + "(check-sat)\n", z3nl(1)}, {full, z3plain(1)}},
					{{full, z3nl(4)}, {full, z3nl(5)}, {full, z3nl(6)}, {full, z3new(2, "")}},
				}
			} else {
				waves = [][]try{
					{{full, z3new(2, "")}, {ncommon + ngoals[0] + "(check-sat)\n", z3new(1, "")}, {full, z3plain(1)}},
					{{full, z3new(3, "")}, {full, z3new(4, "")}},
				}
			}
			for _, wave := range waves {
				gctx, gcancel := context.WithCancel(ctx)
				ch := make(chan bool, 4)
				for _, t := range wave {
					go func(t try) {
						out, _ := runSolver(gctx, t.cf, t.sc, each)
						for _, l := range strings.Split(out, "\n") {
							if strings.TrimSpace(l) == "unsat" {
								ch <- true
								return
							}
						}
						ch <- false
					}(t)
				}
				for n := len(wave); n > 0; n-- {
					if <-ch {
						gcancel()
						return
					}
				}
				gcancel()
			}
			if atomic.CompareAndSwapInt32(&ok, 1, 0) {
				dumpDebug("fresh", common+g+"(check-sat)\n")
			}
			cancel()
		}(g)
	}
	wg.Wait()
	return ok == 1
}

// relevant keeps the facts that mention no symbol the goal does not mention.
func relevant(facts []*Term, goal *Term) []*Term {
	in := map[string]bool{}
	seen := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if len(t.args) == 0 && t.num == nil {
			in[t.op] = true
		}
		for _, a := range t.args {
			add(a)
		}
	}
	add(goal)
	memo := map[*Term]bool{}
	var inside func(t *Term) bool
	inside = func(t *Term) bool {
		if r, ok := memo[t]; ok {
			return r
		}
		r := true
		if len(t.args) == 0 && t.num == nil && !t.bound {
			if _, d := declGet(t.op); d && !in[t.op] {
				r = false
			}
		}
		for _, a := range t.args {
			if !inside(a) {
				r = false
				break
			}
		}
		memo[t] = r
		return r
	}
	var out []*Term
	for _, f := range facts {
		if inside(f) {
			out = append(out, f)
		}
	}
	return out
}

// proveOne runs a portfolio on a single goal.
func proveOne(facts []*Term, goal *Term, skip map[string]bool, budget time.Duration) (status, by, output string) {
	if proveParts(facts, goal, skip, 3*time.Second, budget) {
		return "unsat", "z3-5", ""
	}
	q := &Query{facts: facts, goals: []*Term{goal}, skip: skip}
	common, goals := q.script()
	script := common + goals[0] + "(check-sat)\n"
	dumpDebug("one", script)
	cfgs := []solverCfg{
		z3new(1, ""),
		z3plain(1),
		z3new(7, "(set-option :smt.arith.solver 2)\n"),
		{name: "z3-4.8", bin: "z3", args: []string{"-in", "-smt2"}, pre: "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n"},
		{name: "z3-5mbqi", bin: "z3-new", args: []string{"-in", "-smt2"}},
		{name: "cvc5", bin: "cvc5", args: []string{"--lang=smt2", "--full-saturate-quant", "-q"}, pre: "(set-logic ALL)\n"},
	}
	if _, nl := nlText(script); nl {
		cfgs = append(cfgs, z3nl(3))
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type r struct{ res, by, out string }
	ch := make(chan r, len(cfgs))
	start := func(c solverCfg) {
		go func() {
			out, _ := runSolver(ctx, c, script, budget)
			res := "unknown"
			for _, l := range strings.Split(out, "\n") {
				l = strings.TrimSpace(l)
				if l == "unsat" || l == "sat" {
					res = l
					break
				}
			}
			ch <- r{res, c.name, out}
		}()
	}
	n := 0
	// the first configuration gets a head start
	start(cfgs[0])
	n++
	var outs []string
	timer := time.NewTimer(1500 * time.Millisecond)
	started := false
	got := 0
	for {
		select {
		case x := <-ch:
			got++
			outs = append(outs, x.by+": "+firstLine(x.out))
			if x.res == "unsat" {
				return "unsat", x.by, ""
			}
			if x.res == "sat" && x.by != "cvc5" && x.by != "z3-5nl" {
				return "sat", x.by, strings.Join(outs, "\n")
			}
			if !started {
				for _, c := range cfgs[1:] {
					start(c)
					n++
				}
				started = true
			}
			if got == n {
				return "unknown", "", strings.Join(outs, "\n")
			}
		case <-timer.C:
			if !started {
				for _, c := range cfgs[1:] {
					start(c)
					n++
				}
				started = true
			}
		}
	}
}

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

// model asks z3 (ground, no quantified axioms) for values of the given terms under facts and ¬goal.
func groundModel(facts []*Term, goal *Term, want []*Term) map[string]string {
	q := &Query{facts: facts, goals: []*Term{goal}, noQuant: true}
	common, goals := q.script()
	var sb strings.Builder
	sb.WriteString("(set-option :timeout 3000)\n")
	sb.WriteString(common + goals[0] + "(check-sat)\n(get-value (")
	syms := map[string]bool{}
	seen := map[*Term]bool{}
	for _, t := range append(append([]*Term{}, facts...), goal) {
		collectSyms(t, syms, seen)
	}
	k := 0
	for _, w := range want {
		ws := map[string]bool{}
		collectSyms(w, ws, map[*Term]bool{})
		ok := true
		for s := range ws {
			if _, d := declGet(s); d && !syms[s] && s != "slen" && s != "sat" {
				ok = false
			}
		}
		if ok && w.num == nil {
			sb.WriteString(w.String() + " ")
			k++
		}
	}
	if k == 0 {
		return nil
	}
	sb.WriteString("))\n")
	out, _ := runSolver(context.Background(), solverCfg{name: "z3", bin: "z3-new", args: []string{"-in", "-smt2"}}, sb.String(), 5*time.Second)
	m := map[string]string{}
	if !strings.HasPrefix(strings.TrimSpace(out), "sat") && !strings.HasPrefix(strings.TrimSpace(out), "unknown") {
		return nil
	}
	i := strings.IndexByte(out, '\n')
	m["raw"] = strings.TrimSpace(out[i+1:])
	return m
}

// session is a persistent ground solver.
type session struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

var feasSess = &session{}

func (s *session) start() error {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReader(out)
	s.n = 0
	return s.cmd.Start()
}

func (s *session) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *session) query(script string) string {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return "unknown"
		}
	}
	s.n++
	if _, err := io.WriteString(s.in, "(reset)\n"+script+"(echo \"done\")\n"); err != nil {
		s.stop()
		return "unknown"
	}
	res := "unknown"
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.stop()
			return "unknown"
		}
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "SOLVER ERROR (feasibility):", l)
			dumpDebug("feas-error", script)
		}
		if l == "done" {
			return res
		}
		if l == "sat" || l == "unsat" || l == "unknown" {
			res = l
		}
	}
}

// axiomsContradictory asks for a contradiction among all axioms, definitions and lemmas: what is
// assumed must not prove everything.
func axiomsContradictory() (string, bool) {
	q := &Query{goals: []*Term{False}, all: true}
	common, goals := q.script()
	script := common + goals[0] + "(check-sat)\n"
	dumpDebug("axioms", script)
	cfgs := []solverCfg{
		z3new(1, ""),
		{name: "z3-5mbqi", bin: "z3-new", args: []string{"-in", "-smt2"}},
		{name: "cvc5", bin: "cvc5", args: []string{"--lang=smt2", "--full-saturate-quant", "-q"}, pre: "(set-logic ALL)\n"},
	}
	res := make([]bool, len(cfgs))
	var wg sync.WaitGroup
	for i, c := range cfgs {
		wg.Add(1)
		go func(i int, c solverCfg) {
			defer wg.Done()
			out, _ := runSolver(context.Background(), c, script, 3*time.Second)
			for _, l := range strings.Split(out, "\n") {
				res[i] = res[i] || strings.TrimSpace(l) == "unsat"
			}
			if os.Getenv("GVC_DROPS") != "" {
				fmt.Printf("axioms %s: %.200s\n", c.name, out)
			}
		}(i, c)
	}
	wg.Wait()
	for i, r := range res {
		if r {
			return cfgs[i].name, true
		}
	}
	return "", false
}
