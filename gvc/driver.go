package main

// Verification of functions and lemmas: execution rounds, Houdini, discharge.

import (
	"context"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ------------------------------------------------------------- feasibility

type feasKey [2]uint64

var feasCache = map[feasKey]bool{}
var wrapCache = map[feasKey]bool{}
var feasRuns int

// feasible prunes branches whose ground facts are contradictory.
func (ex *Exec) feasible(st *State) bool {
	if st.dead {
		return false
	}
	if st.facts == nil {
		return true
	}
	k := feasKey(st.facts.hash())
	if v, ok := feasCache[k]; ok {
		return v
	}
	feasRuns++
	q := &Query{facts: st.facts.slice(), noQuant: true}
	common, _ := q.script()
	out := feasSess.query("(set-option :timeout 60)\n" + common + "(check-sat)\n")
	r := out != "unsat"
	feasCache[k] = r
	return r
}

// wrapAt: machine arithmetic. A result that the path condition keeps in range is left as it is, so that
// what is proved about it does not have to split over wrap-around again.
func (ex *Exec) wrapAt(st *State, t *Term, b *types.Basic) *Term {
	r := wrapInt(t, b)
	n, _ := bitsOf(b)
	if r == t || n < 64 || st.dead || st.facts == nil {
		return r
	}
	lo, hi, _ := intRange(b)
	g := And(Le(NumB(lo), t), Le(t, NumB(hi)))
	h := st.facts.hash()
	k := feasKey(mixHash(h, g.id))
	ok, hit := wrapCache[k]
	if !hit {
		feasRuns++
		ok = true
		for _, noq := range []bool{true, false} {
			q := &Query{facts: append(st.facts.slice(), Not(g)), noQuant: noq}
			common, _ := q.script()
			if !noq {
				common, _ = nlText(common)
			}
			ok = feasSess.query("(set-option :timeout 250)\n(set-option :smt.mbqi false)\n(set-option :auto_config false)\n"+common+"(check-sat)\n") == "unsat"
			if ok {
				break
			}
		}
		wrapCache[k] = ok
	}
	if !ok {
		return r
	}
	if t.op == "sym" {
		return t
	}
	st.assume(g)
	return t
}

// ------------------------------------------------------------- results

type FuncRes struct {
	ex     *Exec
	con    *Contract
	fn     *ssa.Function
	done   bool
	fatal  *Obligation
	rounds int
	stable bool
}

type Checker struct {
	w          *World
	specs      *Specs
	prop       string
	thorough   bool
	funcs      map[string]*FuncRes
	order      []string
	queue      []string
	cache      map[[3]uint64]string
	cacheMu    sync.Mutex
	roots      []string
	missing    []string
	verbose    bool
	lemmas     []*Obligation
	lemmaTimes map[string]float64
	totalObl   int
	specFail   *Obligation
	alone      bool
	absent     []string
	dropped    []string
}

func newChecker(w *World, specs *Specs, prop string) *Checker {
	return &Checker{w: w, specs: specs, prop: prop, funcs: map[string]*FuncRes{}, cache: map[[3]uint64]string{}, lemmaTimes: map[string]float64{}}
}

func (c *Checker) newExec(name string, con *Contract, fn *ssa.Function, idx int) *Exec {
	return &Exec{w: c.w, specs: c.specs, fn: fn, con: con, name: name, recs: map[string]*LoopRec{}, vars: map[string]Val{},
		callees: map[string]bool{}, externs: map[string]bool{}, inlined: map[string]bool{}, births: map[*Term]int{},
		prefix: fmt.Sprintf("f%d.", idx), prop: c.prop, assumptions: map[string]bool{}}
}

func (ex *Exec) reset() {
	ex.obls = nil
	ex.paths, ex.panicPaths = 0, 0
	ex.retStates = nil
	ex.vars = map[string]Val{}
	ex.changed = false
	ex.errs = nil
	ex.mods = nil
	ex.pre = nil
	ex.params = nil
}

// run executes the function once.
func (ex *Exec) run() (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case specErr:
				err = e
			case unsupported:
				err = e
			default:
				if os.Getenv("GVC_PANIC") != "" {
					panic(r)
				}
				err = fmt.Errorf("internal: %v", r)
			}
		}
	}()
	ex.reset()
	st := newState()
	if len(ex.fn.Params) != len(ex.con.params) {
		specPanic("contract of %s has %d parameters, the function has %d", ex.con.name, len(ex.con.params), len(ex.fn.Params))
	}
	if ex.fn.Signature.Results().Len() != len(ex.con.results) && len(ex.con.results) > 0 {
		specPanic("contract of %s has %d results, the function has %d", ex.con.name, len(ex.con.results), ex.fn.Signature.Results().Len())
	}
	fr := &Frame{fn: ex.fn, env: map[ssa.Value]Val{}, site: ""}
	for i, p := range ex.fn.Params {
		v := ex.symVal(st, ex.con.params[i], p.Type())
		ex.params = append(ex.params, v)
		fr.env[p] = v
		ex.vars[ex.con.params[i]] = v
	}
	ex.evalLets(ex.con, st, ex.vars)
	env := &Env{ex: ex, st: st, old: st, vars: ex.vars}
	for _, g := range ex.specs.ginv {
		if g.hasTag(ex.prop) && ex.con.opts["init"] == "" {
			st.assume((&Env{ex: ex, st: st, old: st, vars: map[string]Val{}}).Bool(g.expr))
		}
	}
	if ex.con.needsRecv(ex.fn) {
		st.assume(Ne(ex.params[0].L[0], Num(0)))
	}
	for _, c := range ex.con.requires {
		if c.hasTag(ex.prop) {
			st.assume(env.Bool(c.expr))
		}
	}
	ex.mods = ex.modItems(ex.con, env)
	ex.pre = st.clone()
	if ex.con.decr != nil {
		ex.oblige(st, "termination", "measure is non-negative", "", Le(Num(0), env.Int(ex.con.decr.expr)), nil)
	}
	ex.runBlock(fr, st, ex.fn.Blocks[0], nil)
	return nil
}

// ------------------------------------------------------------- solving

func (c *Checker) key(o *Obligation) [3]uint64 {
	h := o.fl.hash()
	return [3]uint64{h[0], h[1], uint64(o.goal.id)}
}

// solve attempts the obligations in incremental sessions; statuses are set.
func (c *Checker) solve(obls []*Obligation, perGoal time.Duration, chunk int) {
	var todo []*Obligation
	for _, o := range obls {
		if o.status == "unsat" {
			continue
		}
		if s, ok := c.cache[c.key(o)]; ok && (s == "unsat" || o.cand != nil || o.lw != nil || o.meas != nil) {
			o.status = s
			o.by = "z3-5"
			continue
		}
		todo = append(todo, o)
	}
	// sort by path
	type item struct {
		o   *Obligation
		ids []*Term
	}
	items := make([]item, len(todo))
	for i, o := range todo {
		items[i] = item{o, o.fl.slice()}
	}
	sort.SliceStable(items, func(i, j int) bool {
		a, b := items[i], items[j]
		if a.o.fn != b.o.fn {
			return a.o.fn < b.o.fn
		}
		for k := 0; k < len(a.ids) && k < len(b.ids); k++ {
			if a.ids[k] != b.ids[k] {
				return a.ids[k].id < b.ids[k].id
			}
		}
		return len(a.ids) < len(b.ids)
	})
	var wg sync.WaitGroup
	for i := 0; i < len(items); {
		j := i + 1
		for j < len(items) && j-i < chunk && items[j].o.fn == items[i].o.fn {
			j++
		}
		part := items[i:j]
		i = j
		wg.Add(1)
		go func() {
			defer wg.Done()
			var os []*Obligation
			var fs [][]*Term
			for _, it := range part {
				os = append(os, it.o)
				fs = append(fs, it.ids)
			}
			res := treeCheck(os, fs, perGoal, true)
			c.cacheMu.Lock()
			for k, o := range os {
				r := res[k]
				if r == "" {
					r = "unknown"
				}
				o.status, o.by = r, "z3-5"
				c.cache[c.key(o)] = r
			}
			c.cacheMu.Unlock()
		}()
	}
	wg.Wait()
}

// treeCheck runs one incremental session over obligations sorted by path.
func treeCheck(os []*Obligation, fs [][]*Term, perGoal time.Duration, nl bool) []string {
	res := make([]string, len(os))
	q := &Query{}
	seen := map[*Term]bool{}
	for k, o := range os {
		for _, f := range fs[k] {
			if !seen[f] {
				seen[f] = true
				q.facts = append(q.facts, f)
			}
		}
		q.goals = append(q.goals, o.goal)
	}
	common, factLines, goalLines := q.pieces()
	var sb strings.Builder
	fmt.Fprintf(&sb, "(set-option :timeout %d)\n", perGoal.Milliseconds())
	sb.WriteString(common)
	var stack []*Term
	var marks []int // stack length at each push
	for k := range os {
		p := 0
		for p < len(stack) && p < len(fs[k]) && stack[p] == fs[k][p] {
			p++
		}
		for len(marks) > 0 && len(stack) > p {
			stack = stack[:marks[len(marks)-1]]
			marks = marks[:len(marks)-1]
			sb.WriteString("(pop)\n")
		}
		if len(stack) > p {
			panic("treeCheck")
		}
		if len(fs[k]) > len(stack) {
			// push a level for what follows
			sb.WriteString("(push)\n")
			marks = append(marks, len(stack))
			// common prefix with the next obligation decides how deep a level should reach
			for _, f := range fs[k][len(stack):] {
				sb.WriteString(factLines[f])
			}
			stack = append(stack, fs[k][len(stack):]...)
		}
		sb.WriteString("(push)\n" + goalLines[k] + "(check-sat)\n(pop)\n")
	}
	cfg := z3new(1, "")
	if nl {
		if _, nl = nlText(sb.String()); nl {
			cfg = z3nl(1)
		}
	}
	out, _ := runSolver(context.Background(), cfg, sb.String(), perGoal*time.Duration(len(os))+10*time.Second)
	dumpDebug("tree", sb.String()+"\n;"+strings.ReplaceAll(out, "\n", "\n;"))
	i := 0
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "(error") {
			p := dumpDebug("tree-error", sb.String()+"\n;"+strings.ReplaceAll(out, "\n", "\n;"))
			fmt.Fprintln(os2stderr, "SOLVER ERROR:", l, p)
			continue
		}
		if l == "unsat" || l == "sat" || l == "unknown" || l == "timeout" {
			if i < len(res) {
				res[i] = l
			}
			i++
		}
	}
	if !nl {
		return res
	}
	// with the products interpreted
	var ks []int
	var os2 []*Obligation
	var fs2 [][]*Term
	for k := range os {
		if res[k] != "unsat" {
			ks, os2, fs2 = append(ks, k), append(os2, os[k]), append(fs2, fs[k])
		}
	}
	if len(ks) > 0 {
		for i, r := range treeCheck(os2, fs2, perGoal, false) {
			res[ks[i]] = r
		}
	}
	return res
}

var os2stderr = os.Stderr

// prove retries the remaining obligations one by one with the portfolio.
func (c *Checker) prove(obls []*Obligation, budget time.Duration) {
	var wg sync.WaitGroup
	sem := make(chan bool, 4)
	for _, o := range obls {
		if o.status == "unsat" {
			continue
		}
		if o.goal == False && o.fl == nil {
			o.status = "sat"
			continue
		}
		wg.Add(1)
		go func(o *Obligation) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			t0 := time.Now()
			st, by, out := proveOne(o.fl.slice(), o.goal, o.skip, budget)
			o.status, o.by, o.output = st, by, out
			if c.verbose {
				fmt.Fprintf(os.Stderr, "  portfolio %s %s %s %.1fs [%s]\n", o.fn, o.kind, st, time.Since(t0).Seconds(), by)
			}
		}(o)
	}
	wg.Wait()
}

// ------------------------------------------------------------- rounds

func (c *Checker) add(name string) bool {
	if c.funcs[name] != nil {
		return true
	}
	con := c.specs.contracts[name]
	if con == nil {
		return false
	}
	fn := c.w.fns[name]
	if fn == nil {
		return false
	}
	if con.trusted || con.dropped {
		return true
	}
	r := &FuncRes{con: con, fn: fn}
	r.ex = c.newExec(name, con, fn, len(c.order))
	c.funcs[name] = r
	c.order = append(c.order, name)
	return true
}

func (c *Checker) logf(f string, a ...interface{}) {
	if c.verbose {
		fmt.Fprintf(os.Stderr, f, a...)
	}
}

func (c *Checker) checkAll() {
	for round := 0; round < 40; round++ {
		var active []*FuncRes
		for i := 0; i < len(c.order); i++ {
			n := c.order[i]
			r := c.funcs[n]
			if r.stable {
				continue
			}
			t0 := time.Now()
			var err error
			for k := 0; k < 30; k++ {
				err = r.ex.run()
				r.rounds++
				if err != nil || !r.ex.changed {
					break
				}
			}
			c.logf("exec %s round %d: %d paths, %d obligations, %.2fs\n", n, r.rounds, r.ex.paths, len(r.ex.obls), time.Since(t0).Seconds())
			if err != nil {
				r.fatal = &Obligation{fn: n, kind: "unsupported", desc: err.Error(), goal: False, status: "unknown", ex: r.ex}
				r.stable = true
			} else {
				active = append(active, r)
			}
			for _, cal := range sortedKeys(r.ex.callees) {
				if c.alone {
					break
				}
				c.add(cal)
			}
		}
		if len(active) == 0 {
			break
		}
		// loop writes first
		var lws []*Obligation
		for _, r := range active {
			for _, o := range r.ex.obls {
				if o.lw != nil {
					lws = append(lws, o)
				}
			}
		}
		c.solve(lws, 1500*time.Millisecond, 16)
		for _, o := range lws {
			if o.status != "unsat" && !o.lw.rec.writes[o.lw.key].full {
				c.logf("  %s: full havoc of %s in loop %s: %s\n", o.fn, o.lw.key, o.lw.rec.pos, o.goal)
				o.lw.rec.writes[o.lw.key].full = true
				o.ex.changed = true
			}
		}
		var soft []*Obligation
		for _, r := range active {
			if r.ex.changed {
				continue
			}
			for _, o := range r.ex.obls {
				if o.cand != nil {
					soft = append(soft, o)
				}
			}
		}
		c.solve(soft, 1000*time.Millisecond, 16)
		// a second chance for template invariants
		var again []*Obligation
		for _, o := range soft {
			if o.status != "unsat" && o.cand.tmpl && !o.cand.dead {
				bad := false
				// already refuted elsewhere?
				if o.status == "sat" {
					bad = true
				}
				if !bad {
					again = append(again, o)
				}
			}
		}
		if len(again) > 0 {
			c.retryCands(again)
		}
		for _, o := range soft {
			if o.status != "unsat" && !o.cand.dead {
				if o.cand.tmpl && (o.kind == "loop-preserved" || os.Getenv("GVC_DROPS") != "") {
					file := ""
					if debugDir != "" && os.Getenv("GVC_DROPS") != "" {
						common, goals := (&Query{facts: o.fl.slice(), goals: []*Term{o.goal}}).script()
						file = dumpDebug("drop", common+goals[0]+"(check-sat)\n")
					}
					c.logf("  %s: drop %s (%s, %s) %s %s\n", o.fn, o.cand.desc, o.kind, o.status, o.pos, file)
				}
				o.cand.dead = true
				o.ex.changed = true
			}
		}
		var meas []*Obligation
		for _, r := range active {
			if r.ex.changed {
				continue
			}
			for _, o := range r.ex.obls {
				if o.meas != nil {
					meas = append(meas, o)
				}
			}
		}
		c.solve(meas, 1000*time.Millisecond, 16)
		for _, o := range meas {
			if o.status != "unsat" && !o.meas.dead {
				o.meas.dead = true
				o.ex.changed = true
			}
		}
		for _, r := range active {
			if !r.ex.changed {
				r.stable = true
			}
		}
	}
	// final obligations
	var hard []*Obligation
	for _, n := range c.order {
		r := c.funcs[n]
		if !r.stable {
			r.fatal = &Obligation{fn: n, kind: "unsupported", desc: "loop invariants did not stabilise", goal: False, status: "unknown", ex: r.ex}
		}
		if r.fatal != nil {
			continue
		}
		for _, o := range r.ex.obls {
			if o.lw == nil && o.cand == nil && o.meas == nil && o.status != "unsat" {
				hard = append(hard, o)
			}
		}
	}
	if os.Getenv("GVC_KEPT") != "" {
		for _, n := range c.order {
			for _, k := range sortedRecs(c.funcs[n].ex.recs) {
				r := c.funcs[n].ex.recs[k]
				fmt.Fprintf(os.Stderr, "loop %s %s\n", r.key, r.pos)
				for _, id := range r.order {
					if !r.cands[id].dead {
						fmt.Fprintf(os.Stderr, "   keep %s\n", r.cands[id].desc)
					}
				}
			}
		}
	}
	ax := make(chan string, 1)
	go func() {
		by, bad := axiomsContradictory()
		if !bad {
			by = ""
		}
		ax <- by
	}()
	c.logf("hard: %d\n", len(hard))
	c.solve(hard, 2500*time.Millisecond, 12)
	var rest []*Obligation
	for _, o := range hard {
		if o.status != "unsat" {
			rest = append(rest, o)
		}
	}
	c.logf("portfolio: %d\n", len(rest))
	budget := 12 * time.Second
	if c.thorough {
		budget = 60 * time.Second
	}
	if len(rest) > 24 {
		// clearly broken: do not spend the whole budget on each
		c.prove(rest[:24], budget)
		c.prove(rest[24:], 3*time.Second)
	} else {
		c.prove(rest, budget)
	}
	c.smoke()
	if by := <-ax; by != "" && len(c.order) > 0 {
		n := c.order[0]
		if r := c.funcs[n]; r != nil && r.ex != nil {
			r.ex.obls = append(r.ex.obls, &Obligation{fn: n, kind: "vacuity", desc: "the axioms of the contracts are contradictory (" + by + ")", goal: False, status: "unknown", ex: r.ex})
		}
	}
}

func (c *Checker) retryCands(obls []*Obligation) {
	// the candidates with the fewest open obligations first
	open := map[*Cand]int{}
	for _, o := range obls {
		open[o.cand]++
	}
	sort.SliceStable(obls, func(i, j int) bool { return open[obls[i].cand] < open[obls[j].cand] })
	var wg sync.WaitGroup
	var mu sync.Mutex
	lost := map[*Cand]bool{}
	end := time.Now().Add(25 * time.Second)
	sem := make(chan bool, 8)
	for _, o := range obls {
		wg.Add(1)
		go func(o *Obligation) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			mu.Lock()
			skip := lost[o.cand] || time.Now().After(end)
			mu.Unlock()
			if skip {
				return
			}
			okp := proveParts(o.fl.slice(), o.goal, nil, 2*time.Second, 8*time.Second)
			if !okp {
				q := &Query{facts: o.fl.slice(), goals: []*Term{o.goal}}
				common, goals := q.script()
				okp = anyUnsat(common+goals[0]+"(check-sat)\n", 5*time.Second, z3new(3, ""), z3plain(1))
			}
			if okp {
				o.status = "unsat"
				c.cacheMu.Lock()
				c.cache[c.key(o)] = "unsat"
				c.cacheMu.Unlock()
			} else {
				mu.Lock()
				lost[o.cand] = true
				mu.Unlock()
			}
		}(o)
	}
	wg.Wait()
}

// smoke: contracts must not be contradictory (some return must be reachable).
func (c *Checker) smoke() {
	var obs []*Obligation
	per := map[string][]*Obligation{}
	for _, n := range c.order {
		r := c.funcs[n]
		if r.fatal != nil || len(r.ex.retStates) == 0 {
			continue
		}
		// try a few return states, the shortest first
		rs := append([]*State{}, r.ex.retStates...)
		sort.SliceStable(rs, func(i, j int) bool { return rs[i].facts.len() < rs[j].facts.len() })
		if len(rs) > 3 {
			rs = rs[:3]
		}
		for _, s := range rs {
			o := &Obligation{fn: n, kind: "vacuity", goal: False, fl: s.facts, ex: r.ex}
			obs = append(obs, o)
			per[n] = append(per[n], o)
		}
	}
	c.solve(obs, 400*time.Millisecond, 3)
	for n, os := range per {
		bad := true
		for _, o := range os {
			if o.status != "unsat" {
				bad = false
			}
		}
		if bad {
			// look at the others before concluding
			r := c.funcs[n]
			var more []*Obligation
			for _, s := range r.ex.retStates {
				more = append(more, &Obligation{fn: n, kind: "vacuity", goal: False, fl: s.facts, ex: r.ex})
			}
			c.solve(more, 400*time.Millisecond, 4)
			for _, o := range more {
				if o.status != "unsat" {
					bad = false
				}
			}
		}
		if bad {
			r := c.funcs[n]
			r.ex.obls = append(r.ex.obls, &Obligation{fn: n, kind: "vacuity", desc: "the contract's assumptions are contradictory", goal: False, status: "unknown", ex: r.ex})
		}
	}
}

func (f *FactList) len() int {
	if f == nil {
		return 0
	}
	return f.n
}

// failures lists the obligations that were not discharged.
func (c *Checker) failures() []*Obligation {
	var out []*Obligation
	if c.specFail != nil {
		out = append(out, c.specFail)
	}
	for _, m := range c.missing {
		out = append(out, &Obligation{fn: m, kind: "missing", desc: "the function under contract is not in the source", goal: False, status: "unknown"})
	}
	for _, n := range c.order {
		r := c.funcs[n]
		if r.fatal != nil {
			out = append(out, r.fatal)
			continue
		}
		for _, o := range r.ex.obls {
			if o.lw == nil && o.cand == nil && o.meas == nil && o.status != "unsat" {
				out = append(out, o)
			}
		}
	}
	for _, o := range c.lemmas {
		if o.status != "unsat" {
			out = append(out, o)
		}
	}
	return out
}

// ------------------------------------------------------------- lemmas

func (ex *Exec) lemmaVars(l *Lemma, mk func(name, sort string) *Term) (map[string]Val, []*Term) {
	vars := map[string]Val{}
	var bvs []*Term
	for i, p := range l.params {
		s := sortOf(l.ptypes[i])
		t := mk(p, s)
		v := tv(t)
		if s == SIf {
			v.T = emptyIface
		}
		vars[p] = v
		bvs = append(bvs, t)
	}
	return vars, bvs
}

func (ex *Exec) lemmaBody(l *Lemma, vars map[string]Val) *Term {
	env := &Env{ex: ex, st: newState(), vars: vars}
	var rs, es []*Term
	for _, c := range l.requires {
		rs = append(rs, env.Bool(c.expr))
	}
	for _, c := range l.ensures {
		es = append(es, env.Bool(c.expr))
	}
	return Imp(And(rs...), And(es...))
}

// declareLemmas makes the lemmas available to the solver.
func (ex *Exec) declareLemmas() {
	for _, l := range ex.specs.lemmas {
		if len(l.triggers) == 0 || len(l.only) > 0 && !contains(l.only, ex.prop) {
			continue
		}
		vars, bvs := ex.lemmaVars(l, func(n, s string) *Term { return BoundVar(n, s) })
		env := &Env{ex: ex, st: newState(), vars: vars}
		var pats [][]*Term
		for _, tr := range l.triggers {
			var p []*Term
			for _, t := range tr {
				p = append(p, env.Eval(t).L...)
			}
			pats = append(pats, p)
		}
		addAxiom("lemma_"+l.name, Forall(bvs, ex.lemmaBody(l, vars), pats...))
	}
}

func (c *Checker) lemmaByName(n string) *Lemma {
	for _, l := range c.specs.lemmas {
		if l.name == n {
			return l
		}
	}
	return nil
}

// lemmaObls generates the proof obligations of a lemma.
func (c *Checker) lemmaObls(k int, l *Lemma) (out []*Obligation) {
	ex := c.newExec("lemma "+l.name, nil, nil, 0)
	ex.prefix = "lem:" + l.name + "."
	defer func() {
		if r := recover(); r != nil {
			out = append(out, &Obligation{fn: "lemma " + l.name, kind: "lemma", desc: fmt.Sprint(r), goal: False, status: "unknown"})
		}
	}()
	st := newState()
	vars, _ := ex.lemmaVars(l, func(n, s string) *Term { return ex.fresh(st, n, s) })
	env := &Env{ex: ex, st: st, vars: vars}
	for _, r := range l.requires {
		st.assume(env.Bool(r.expr))
	}
	var inductE ast.Expr
	if l.induct != "" {
		e, err := parserParse(l.induct)
		if err != nil {
			specPanic("induct %s: %v", l.induct, err)
		}
		inductE = e
		m := env.Int(inductE)
		var goalNeg *Term = Le(Num(0), m)
		// the measure must be non-negative
		out = append(out, &Obligation{fn: "lemma " + l.name, kind: "lemma", desc: "induction measure >= 0", fl: st.facts, goal: goalNeg, ex: ex})
		bvars, bvs := ex.lemmaVars(l, func(n, s string) *Term { return BoundVar(n, s) })
		benv := &Env{ex: ex, st: newState(), vars: bvars}
		bm := benv.Int(inductE)
		body := Imp(And(Le(Num(0), bm), Lt(bm, m)), ex.lemmaBody(l, bvars))
		if len(l.triggers) > 0 {
			var pats [][]*Term
			for _, tr := range l.triggers {
				var p []*Term
				for _, t := range tr {
					p = append(p, benv.Eval(t).L...)
				}
				pats = append(pats, p)
			}
			st.assume(Forall(bvs, body, pats...))
		}
	}
	for _, u := range l.uses {
		if call, ok := u.(*ast.CallExpr); ok {
			if id, ok := call.Fun.(*ast.Ident); ok {
				if l2 := c.lemmaByName(id.Name); l2 != nil {
					vs := map[string]Val{}
					for i, a := range call.Args {
						v := env.Eval(a)
						if sortOf(l2.ptypes[i]) == SIf {
							v.T = emptyIface
						}
						vs[l2.params[i]] = v
					}
					body := ex.lemmaBody(l2, vs)
					if l2 == l {
						if inductE == nil {
							specPanic("recursive use without induct")
						}
						m2 := (&Env{ex: ex, st: st, vars: vs}).Int(inductE)
						body = Imp(And(Le(Num(0), m2), Lt(m2, env.Int(inductE))), body)
					} else {
						k2 := -1
						for i, x := range c.specs.lemmas {
							if x == l2 {
								k2 = i
							}
						}
						if k2 > k {
							specPanic("lemma %s uses the later lemma %s", l.name, l2.name)
						}
						usedAxioms.Store("lemma_"+l2.name, true)
					}
					st.assume(body)
					continue
				}
			}
		}
		v := env.Eval(u).term()
		st.assume(Eq(ex.fresh(st, "use", v.sort), v))
	}
	skip := map[string]bool{}
	for i, x := range c.specs.lemmas {
		if i >= k && !x.axiom {
			skip["lemma_"+x.name] = true
		}
	}
	sts := []*State{st}
	for _, cs := range l.cases {
		t := env.Bool(cs)
		var n []*State
		for _, s := range sts {
			a, b := s.clone(), s.clone()
			a.assume(t)
			b.assume(Not(t))
			n = append(n, a, b)
		}
		sts = n
	}
	for _, s := range sts {
		if s.dead {
			continue
		}
		for _, e := range l.ensures {
			for _, g := range splitGoal(env.Bool(e.expr)) {
				o := &Obligation{fn: "lemma " + l.name, kind: "lemma", desc: e.text, pos: fmt.Sprintf("%s:%d", l.file, l.line), fl: s.facts, goal: g, ex: ex}
				if g == True || s.have[g] {
					o.status, o.by = "unsat", "simplifier"
				}
				out = append(out, o)
			}
		}
	}
	for _, o := range out {
		o.skip = skip
	}
	return out
}

// proveLemmas proves every lemma whose statement was available to some query.
func (c *Checker) proveLemmas() {
	done := map[string]bool{}
	for {
		var todo []*Obligation
		for k, l := range c.specs.lemmas {
			if l.axiom || done[l.name] {
				continue
			}
			mine := false
			for _, p := range l.props {
				if p == c.prop && !c.alone {
					mine = true
				}
			}
			if _, ok := usedAxioms.Load("lemma_" + l.name); !ok && !mine {
				continue
			}
			done[l.name] = true
			todo = append(todo, c.lemmaObls(k, l)...)
		}
		if len(todo) == 0 {
			return
		}
		b := 15 * time.Second
		if c.thorough {
			b = 60 * time.Second
		}
		c.prove(todo, b)
		c.lemmas = append(c.lemmas, todo...)
	}
}

func sortedRecs(m map[string]*LoopRec) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
