package main

// Loop cutting: write sets, candidate invariants (Houdini), termination measures.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type lwrite struct {
	inner string
	objs  map[*Term]bool
	ord   []*Term
	full  bool
	ghost bool
}

type LoopRec struct {
	key      string
	fn       string
	pos      string
	writes   map[string]*lwrite
	cands    map[string]*Cand
	measures map[string]*measure
	order    []string
	diverges bool
}

type Cand struct {
	id   string
	desc string
	dead bool
	tmpl bool
}

type measure struct {
	id   string
	desc string
	dead bool
}

// view: where a candidate is evaluated (values of the header's phis and the state)
type view struct {
	st   *State
	vals map[ssa.Value]Val
}

type candInst struct {
	c    *Cand
	eval func(v view) *Term
}

type measInst struct {
	m    *measure
	eval func(v view) *Term
	head *Term
}

type loopAct struct {
	locks      string
	info       *loopInfo
	rec        *LoopRec
	insts      []*candInst
	meas       []*measInst
	entryN     int
	allocEntry *Term
	headVals   map[ssa.Value]Val
	entryVals  map[ssa.Value]Val
	phis       []*ssa.Phi
}

func (ex *Exec) recFor(fr *Frame, info *loopInfo) *LoopRec {
	k := fmt.Sprintf("%s|%s#%d", fr.site, shortName(fr.fn.String()), info.idx)
	r := ex.recs[k]
	if r == nil {
		r = &LoopRec{key: k, fn: shortName(fr.fn.String()), writes: map[string]*lwrite{}, cands: map[string]*Cand{}, measures: map[string]*measure{}}
		for _, in := range info.header.Instrs {
			if p := ex.w.prog.Fset.Position(in.Pos()); p.IsValid() {
				r.pos = ex.pos(in)
				break
			}
		}
		if r.pos == "" && len(info.header.Instrs) > 0 {
			r.pos = ex.pos(info.header.Instrs[0])
		}
		ex.recs[k] = r
	}
	return r
}

func cloneVals(m map[ssa.Value]Val) map[ssa.Value]Val {
	n := make(map[ssa.Value]Val, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (ex *Exec) enterLoop(fr *Frame, st *State, info *loopInfo, phis []*ssa.Phi, vals map[ssa.Value]Val) {
	rec := ex.recFor(fr, info)
	act := &loopAct{locks: locksString(st.locks), info: info, rec: rec, entryN: st.n, allocEntry: st.alloc, phis: phis, entryVals: vals}
	entrySt := st.clone()
	entry := view{entrySt, vals}

	ex.buildCands(fr, act, entry)

	// entry obligations
	for _, ci := range act.insts {
		g := ex.safeEval(ci.eval, view{st, vals})
		if g == nil {
			ci.c.dead = true
			ex.changed = true
			continue
		}
		o := ex.oblige(st, "loop-entry", ci.c.desc, rec.pos, g, nil)
		o.cand = ci.c
	}

	// arbitrary iteration
	keys := make([]string, 0, len(rec.writes))
	for k := range rec.writes {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	// the head's allocation mark
	d := ex.freshR(st, "dalloc", SInt, bigZero, nil)
	st.alloc = Add(st.alloc, d)
	for _, k := range keys {
		w := rec.writes[k]
		switch {
		case w.ghost:
			if strings.HasPrefix(k, "it:") {
				st.mem[k] = ex.freshR(st, "pos", SInt, bigZero, nil)
			} else {
				nm := strings.TrimPrefix(k, "g:")
				st.mem[k] = ex.fresh(st, "L:"+nm, ex.specs.ghosts[nm])
			}
		case w.full:
			f := ex.fresh(st, "L:"+k, arrSort(SInt, w.inner))
			birthAlloc[f] = st.alloc
			byteRange(k, f)
			st.mem[k] = f
		default:
			for _, o := range w.ord {
				f := ex.fresh(st, "L:"+k, w.inner)
				birthAlloc[f] = st.alloc
				byteRange(k, f)
				st.mem[k] = Store(st.get(k, w.inner), o, f)
			}
		}
	}
	head := map[ssa.Value]Val{}
	for _, p := range phis {
		ev := vals[p]
		v := Val{T: p.Type(), fn: ev.fn}
		for _, l := range leaves(p.Type()) {
			v.L = append(v.L, ex.freshR(st, "p_"+p.Name()+l.path, l.sort, l.lo, l.hi))
		}
		if ev.fn != nil || ev.it != nil || ev.pl != nil {
			// statically known values must not vary
			same := true
			for i, pred := range info.header.Preds {
				if info.blocks[pred] && p.Edges[i] != ssa.Value(p) {
					same = false
				}
			}
			if !same {
				unsup("loop-varying function value or field address")
			}
			v = ev
		}
		head[p] = v
		if v.pl == nil {
			ex.typeFacts(st, v)
		}
	}
	act.headVals = head
	hv := view{st, head}
	for _, ci := range act.insts {
		if ci.c.dead {
			continue
		}
		if g := ex.safeEval(ci.eval, hv); g != nil {
			st.assume(g)
		}
	}
	for _, mi := range act.meas {
		mi.head = ex.safeEval(mi.eval, hv)
		if mi.head == nil {
			mi.m.dead = true
		}
	}
	for p, v := range head {
		fr.env[p] = v
	}
	fr.loops = append(fr.loops, act)
}

// safeEval evaluates a candidate; nil when it does not make sense here.
func (ex *Exec) safeEval(f func(view) *Term, v view) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case specErr, unsupported:
				debugf("candidate not evaluable: %v\n", r)
				t = nil
			default:
				panic(r)
			}
		}
	}()
	return f(v)
}

func (ex *Exec) backEdge(fr *Frame, st *State, act *loopAct, vals map[ssa.Value]Val) {
	bv := view{st, vals}
	for _, ci := range act.insts {
		if ci.c.dead {
			continue
		}
		g := ex.safeEval(ci.eval, bv)
		if g == nil {
			ci.c.dead = true
			ex.changed = true
			continue
		}
		o := ex.oblige(st, "loop-preserved", ci.c.desc, act.rec.pos, g, nil)
		o.cand = ci.c
	}
	if locksString(st.locks) != act.locks {
		ex.oblige(st, "locks", "a loop iteration leaves another set of mutexes locked", act.rec.pos, False, nil)
	}
	if ex.con != nil && ex.con.diverges {
		act.rec.diverges = true
		return
	}
	any := false
	for _, mi := range act.meas {
		if mi.m.dead || mi.head == nil {
			continue
		}
		b := ex.safeEval(mi.eval, bv)
		if b == nil {
			mi.m.dead = true
			continue
		}
		any = true
		o := ex.oblige(st, "measure", mi.m.desc, act.rec.pos, And(Le(Num(0), mi.head), Lt(b, mi.head)), nil)
		o.meas = mi.m
	}
	if !any {
		ex.oblige(st, "termination", "no measure for loop in "+act.rec.fn, act.rec.pos, False, nil)
	}
}

// loopWrite records a write inside a loop.
func (ex *Exec) loopWrite(f *Frame, act *loopAct, st *State, it ModItem, in ssa.Instruction) {
	rec := act.rec
	w := rec.writes[it.key]
	if w == nil {
		if !it.ghost && it.obj != nil && Le(act.allocEntry, it.obj) == True {
			return
		}
		w = &lwrite{inner: it.inner, objs: map[*Term]bool{}, ghost: it.ghost}
		rec.writes[it.key] = w
		ex.changed = true
	}
	if w.full || it.ghost {
		return
	}
	if it.obj == nil {
		w.full = true
		ex.changed = true
		return
	}
	if Le(act.allocEntry, it.obj) == True {
		return
	}
	add := func(o *Term) {
		if !w.objs[o] {
			w.objs[o] = true
			w.ord = append(w.ord, o)
			ex.changed = true
		}
	}
	if ex.maxBirth(it.obj) <= act.entryN {
		add(it.obj)
		return
	}
	for _, p := range act.phis {
		for i, l := range leaves(p.Type()) {
			if l.kind == "obj" && i < len(act.headVals[p].L) && it.obj.contains(act.headVals[p].L[i]) {
				e := act.entryVals[p].L[i]
				if e.num != nil && e.num.Sign() == 0 {
					continue
				}
				h := act.headVals[p].L[i]
				var leaf func(t *Term)
				leaf = func(t *Term) {
					if t.op == "ite" {
						leaf(t.args[1])
						leaf(t.args[2])
						return
					}
					l := linOf(t)
					if k, ok := l.atoms[h]; ok && len(l.atoms) == 1 && k.Cmp(bigOne) == 0 {
						add(Add(e, NumB(l.c))) // nested struct fields live at a constant distance from their object
						return
					}
					for u := range l.atoms {
						if u.op == "ite" && len(l.atoms) == 1 {
							leaf(Add(u.args[1], NumB(l.c)))
							leaf(Add(u.args[2], NumB(l.c)))
						}
					}
				}
				leaf(it.obj)
				add(e)
			}
		}
	}
	alts := []*Term{Le(act.allocEntry, it.obj)}
	for _, o := range w.ord {
		if ex.maxBirth(o) <= act.entryN {
			alts = append(alts, Eq(it.obj, o))
		}
	}
	if len(w.ord) > 24 {
		w.full = true
		ex.changed = true
		return
	}
	o := ex.oblige(st, "loop-writes", it.key, ex.pos(in), Or(alts...), nil)
	o.lw = &lwKey{rec, it.key}
}

func (ex *Exec) noteExitCond(fr *Frame, b *ssa.BasicBlock, c *Term) {}

// ------------------------------------------------------------- candidates

func (ex *Exec) cand(act *loopAct, id, desc string, tmpl bool, eval func(v view) *Term) {
	c := act.rec.cands[id]
	if c == nil {
		c = &Cand{id: id, desc: desc, tmpl: tmpl}
		act.rec.cands[id] = c
		act.rec.order = append(act.rec.order, id)
	}
	if c.dead {
		return
	}
	for _, ci := range act.insts {
		if ci.c == c {
			return
		}
	}
	act.insts = append(act.insts, &candInst{c, eval})
}

func (ex *Exec) addMeasure(act *loopAct, id, desc string, eval func(v view) *Term) {
	m := act.rec.measures[id]
	if m == nil {
		m = &measure{id: id, desc: desc}
		act.rec.measures[id] = m
	}
	if m.dead {
		return
	}
	for _, mi := range act.meas {
		if mi.m == m {
			return
		}
	}
	act.meas = append(act.meas, &measInst{m: m, eval: eval})
}

func isIntType(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// evaluable: can the SSA value be recomputed at the loop header from phis, values defined
// outside the loop and memory? Returns an evaluator.
func (ex *Exec) evaluable(fr *Frame, act *loopAct, v ssa.Value, depth int) func(vw view) *Term {
	if depth > 6 {
		return nil
	}
	f := ex.evaluableV(fr, act, v, depth)
	if f == nil {
		return nil
	}
	return func(vw view) *Term {
		x := f(vw)
		if len(x.L) != 1 {
			specPanic("not scalar")
		}
		return x.L[0]
	}
}

func (ex *Exec) evaluableV(fr *Frame, act *loopAct, v ssa.Value, depth int) func(vw view) Val {
	if depth > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		c := ex.constVal(x)
		return func(view) Val { return c }
	case *ssa.Phi:
		if x.Block() == act.info.header {
			return func(vw view) Val { return vw.vals[x] }
		}
	}
	in, isIn := v.(ssa.Instruction)
	if !isIn || !act.info.blocks[in.Block()] {
		// defined outside the loop
		if _, ok := v.(*ssa.Global); ok {
			g := Val{T: v.Type(), L: []*Term{ex.w.globalObj(v.(*ssa.Global)), Num(0)}}
			return func(view) Val { return g }
		}
		if fv, ok := v.(*ssa.FreeVar); ok {
			for i, f := range fr.fn.FreeVars {
				if f == fv && i < len(fr.free) {
					c := fr.free[i]
					return func(view) Val { return c }
				}
			}
			return nil
		}
		c, ok := fr.env[v]
		if !ok {
			return nil
		}
		return func(view) Val { return c }
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		a := ex.evaluable(fr, act, x.X, depth+1)
		b := ex.evaluable(fr, act, x.Y, depth+1)
		if a == nil || b == nil || !isIntType(x.X.Type()) {
			return nil
		}
		bt := types.Unalias(x.Type()).Underlying().(*types.Basic)
		switch x.Op {
		case token.ADD:
			return func(vw view) Val { return tv(wrapInt(Add(a(vw), b(vw)), bt)) }
		case token.SUB:
			return func(vw view) Val { return tv(wrapInt(Sub(a(vw), b(vw)), bt)) }
		}
		return nil
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			a := ex.evaluableV(fr, act, x.Call.Args[0], depth+1)
			if a == nil {
				return nil
			}
			t := x.Call.Args[0].Type()
			return func(vw view) Val {
				y := a(vw)
				switch u := types.Unalias(t).Underlying().(type) {
				case *types.Slice:
					return tv(y.L[2])
				case *types.Basic:
					return tv(SLen(y.L[0]))
				case *types.Map:
					return tv(vw.st.mapLen(u, y.L[0]))
				}
				specPanic("len")
				return Val{}
			}
		}
	case *ssa.Convert:
		a := ex.evaluable(fr, act, x.X, depth+1)
		if a == nil || !isIntType(x.X.Type()) || !isIntType(x.Type()) {
			return nil
		}
		bt := types.Unalias(x.Type()).Underlying().(*types.Basic)
		return func(vw view) Val { return tv(wrapInt(a(vw), bt)) }
	case *ssa.ChangeType:
		return ex.evaluableV(fr, act, x.X, depth+1)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			a := ex.evaluableV(fr, act, fa.X, depth+1)
			if a == nil {
				return nil
			}
			pt := types.Unalias(fa.X.Type()).Underlying().(*types.Pointer)
			st, ok := pt.Elem().Underlying().(*types.Struct)
			if !ok || isExternal(pt.Elem()) || isStruct(st.Field(fa.Field).Type()) {
				return nil
			}
			return func(vw view) Val {
				p := a(vw)
				if p.pl != nil {
					specPanic("place")
				}
				return vw.st.loadField(pt.Elem(), st, fa.Field, p.L[0], p.L[1])
			}
		}
		if g, ok := x.X.(*ssa.Global); ok && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), "gotor") {
			o := ex.w.globalObj(g)
			el := types.Unalias(g.Type()).Underlying().(*types.Pointer).Elem()
			return func(vw view) Val { return vw.st.loadAt(el, o, Num(0)) }
		}
	}
	return nil
}

func (ex *Exec) buildCands(fr *Frame, act *loopAct, entry view) {
	rec := act.rec
	// --- conditions of the loop's branches
	type cond struct {
		x, y func(view) *Term
		id   string
	}
	var conds []cond
	var bs []*ssa.BasicBlock
	for b := range act.info.blocks {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	for _, b := range bs {
		if len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !isIntType(bo.X.Type()) {
			continue
		}
		switch bo.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
		default:
			continue
		}
		x := ex.evaluable(fr, act, bo.X, 0)
		y := ex.evaluable(fr, act, bo.Y, 0)
		if x == nil || y == nil {
			continue
		}
		conds = append(conds, cond{x, y, bo.Name()})
	}
	for _, c := range conds {
		c := c
		ex.cand(act, "auto:"+c.id+":le", c.id+": x<=y", false, func(v view) *Term { return Le(c.x(v), c.y(v)) })
		ex.cand(act, "auto:"+c.id+":ge", c.id+": x>=y", false, func(v view) *Term { return Le(c.y(v), c.x(v)) })
		ex.addMeasure(act, "auto:"+c.id+":y-x", c.id+": y-x", func(v view) *Term { return Sub(c.y(v), c.x(v)) })
		ex.addMeasure(act, "auto:"+c.id+":x-y", c.id+": x-y", func(v view) *Term { return Sub(c.x(v), c.y(v)) })
	}
	// --- phis
	for _, p := range act.phis {
		p := p
		e := act.entryVals[p]
		if e.fn != nil || e.it != nil || e.pl != nil {
			continue
		}
		if isIntType(p.Type()) {
			ev := e.L[0]
			ex.cand(act, "auto:"+p.Name()+">=e", p.Name()+" >= entry", false, func(v view) *Term { return Le(ev, v.vals[p].L[0]) })
			ex.cand(act, "auto:"+p.Name()+"<=e", p.Name()+" <= entry", false, func(v view) *Term { return Le(v.vals[p].L[0], ev) })
			ex.cand(act, "auto:"+p.Name()+">=0", p.Name()+" >= 0", false, func(v view) *Term { return Le(Num(0), v.vals[p].L[0]) })
			for _, c := range conds {
				c := c
				ex.cand(act, "auto:"+p.Name()+"<="+c.id+"y", p.Name()+" <= "+c.id, false, func(v view) *Term { return Le(v.vals[p].L[0], c.y(v)) })
				ex.cand(act, "auto:"+p.Name()+">="+c.id+"y", p.Name()+" >= "+c.id, false, func(v view) *Term { return Le(c.y(v), v.vals[p].L[0]) })
			}
			for _, q := range act.phis {
				q := q
				if q == p || !isIntType(q.Type()) || q.Name() < p.Name() {
					continue
				}
				eq := act.entryVals[q].L[0]
				ex.cand(act, "auto:"+p.Name()+"-"+q.Name(), p.Name()+","+q.Name()+" in lockstep", false, func(v view) *Term {
					return Eq(Sub(v.vals[p].L[0], ev), Sub(v.vals[q].L[0], eq))
				})
				ex.cand(act, "auto:"+p.Name()+"+"+q.Name(), p.Name()+","+q.Name()+" opposite", false, func(v view) *Term {
					return Eq(Add(v.vals[p].L[0], v.vals[q].L[0]), Add(ev, eq))
				})
			}
			continue
		}
		for i, l := range leaves(p.Type()) {
			i := i
			if l.sort == "TP" {
				continue
			}
			ex.cand(act, fmt.Sprintf("auto:%s%s=e", p.Name(), l.path), p.Name()+l.path+" == entry", false, func(v view) *Term { return Eq(v.vals[p].L[i], e.L[i]) })
		}
		switch types.Unalias(p.Type()).Underlying().(type) {
		case *types.Slice:
			ae := act.allocEntry
			ex.cand(act, "auto:"+p.Name()+"fresh", p.Name()+" keeps or renews its array", false, func(v view) *Term {
				return Or(Eq(v.vals[p].L[0], e.L[0]), Le(ae, v.vals[p].L[0]))
			})
			ex.cand(act, "auto:"+p.Name()+"fresh2", p.Name()+" is newly allocated or empty", false, func(v view) *Term {
				return Or(Eq(v.vals[p].L[3], Num(0)), Le(alloc0(), v.vals[p].L[0]))
			})
			ex.cand(act, "auto:"+p.Name()+"grow", p.Name()+" only grows", false, func(v view) *Term {
				return Le(e.L[2], v.vals[p].L[2])
			})
		}
	}
	// --- map iterators
	var itNames []string
	its := map[string]Val{}
	for v, x := range fr.env {
		if x.it != nil {
			if in, ok := v.(ssa.Instruction); ok && !act.info.blocks[in.Block()] {
				itNames = append(itNames, v.Name())
				its[v.Name()] = x
			}
		}
	}
	sort.Strings(itNames)
	for _, n := range itNames {
		it := its[n].it
		pos := func(v view) *Term { return v.st.mem[it.pos] }
		ex.cand(act, "auto:it"+n+">=0", "iterator >= 0", false, func(v view) *Term { return Le(Num(0), pos(v)) })
		ex.cand(act, "auto:it"+n+"<=n", "iterator <= n", false, func(v view) *Term { return Le(pos(v), it.n) })
		ex.addMeasure(act, "auto:it"+n, "n - iterator", func(v view) *Term { return Sub(it.n, pos(v)) })
	}
	if ex.con == nil {
		return
	}
	// --- templates: those of the function under contract, and those of an
	// inlined function that has a contract of its own
	type tctx struct {
		con  *Contract
		vars map[string]Val
		pre  *State
		tag  string
	}
	ctxs := []tctx{{ex.con, ex.vars, ex.pre, ""}}
	for f := fr; f != nil; f = f.parent {
		if f.con != nil {
			ctxs = append(ctxs, tctx{f.con, f.conVars, f.conPre, f.con.name + "/"})
		}
	}
	for _, cx := range ctxs {
		cx := cx
		ex.instTemplates(fr, act, entry, cx.vars, cx.pre, cx.con.loops, cx.tag+"inv", func(id, desc string, f func(v view) Val) {
			ex.cand(act, id, desc, true, func(v view) *Term {
				t := f(v).term()
				if t.sort != SBool {
					specPanic("not boolean")
				}
				return t
			})
		}, itNames, its)
		ex.instTemplates(fr, act, entry, cx.vars, cx.pre, cx.con.measures, cx.tag+"meas", func(id, desc string, f func(v view) Val) {
			ex.addMeasure(act, id, desc, func(v view) *Term { return f(v).term() })
		}, itNames, its)
	}
	_ = rec
}

// binding of a metavariable
type mbind struct {
	name string
	get  func(v view) map[string]Val // variables it defines (suffix -> value)
	src  string
}

func (ex *Exec) sameType(t types.Type, want string) bool {
	if want == "int" {
		return isIntType(t)
	}
	if w := ex.typeByName(want, true); w != nil {
		return types.Identical(types.Unalias(t), types.Unalias(w)) || typeName(types.Unalias(t)) == typeName(types.Unalias(w))
	}
	return strings.TrimPrefix(shortName(typeName(t)), "") == want
}

func (ex *Exec) instTemplates(fr *Frame, act *loopAct, entry view, base map[string]Val, pre *State, ts []*Template, kind string, emit func(id, desc string, f func(v view) Val), itNames []string, its map[string]Val) {
	for ti, t := range ts {
		if !t.hasTag(ex.prop) {
			continue
		}
		choices := make([][]mbind, len(t.vars))
		ok := true
		for k, mv := range t.vars {
			choices[k] = ex.bindings(fr, act, mv, itNames, its)
			if mv.hint != "" {
				var hit []mbind
				for _, b := range choices[k] {
					for _, w := range strings.Split(mv.hint, "|") {
						if b.src == w {
							hit = append(hit, b)
						}
					}
				}
				if len(hit) > 0 {
					choices[k] = hit
				} else if declares(fr.fn, mv.hint) {
					choices[k] = nil // the variable exists, in another loop
				}
			}
			if len(choices[k]) == 0 {
				ok = false
			}
		}
		if !ok {
			debugf("template without bindings in %s: %s\n", fr.fn, t.text)
			continue
		}
		idx := make([]int, len(t.vars))
		n := 0
		for {
			n++
			if n > 400 {
				break
			}
			// distinct bindings for distinct metavariables
			dup := false
			for a := range idx {
				for b := a + 1; b < len(idx); b++ {
					if choices[a][idx[a]].name == choices[b][idx[b]].name {
						dup = true
					}
				}
			}
			if !dup {
				var names []string
				var bs []mbind
				for k := range idx {
					bs = append(bs, choices[k][idx[k]])
					names = append(names, t.vars[k].name+"="+choices[k][idx[k]].name)
				}
				t := t
				id := fmt.Sprintf("%s:%d:%s", kind, ti, strings.Join(names, ","))
				desc := fmt.Sprintf("%s [%s] %s", kind, strings.Join(names, ","), t.text)
				mk := func(v view) *Env {
					vars := map[string]Val{}
					for n, x := range base {
						vars[n] = x
					}
					for k, b := range bs {
						for suf, x := range b.get(v) {
							vars[t.vars[k].name+suf] = x
						}
					}
					return &Env{ex: ex, st: v.st, old: pre, vars: vars}
				}
				emit(id, desc, func(v view) Val {
					e := mk(v)
					e.lentry = mk(entry)
					e.lalloc = act.allocEntry
					return e.Eval(t.expr)
				})
			}
			k := 0
			for ; k < len(idx); k++ {
				idx[k]++
				if idx[k] < len(choices[k]) {
					break
				}
				idx[k] = 0
			}
			if k == len(idx) {
				break
			}
		}
	}
}

func (ex *Exec) bindings(fr *Frame, act *loopAct, mv Metavar, itNames []string, its map[string]Val) []mbind {
	var out []mbind
	one := func(v Val) map[string]Val { return map[string]Val{"": v} }
	if mv.typ == "iter" {
		for _, n := range itNames {
			it := its[n]
			out = append(out, mbind{n, func(v view) map[string]Val {
				return map[string]Val{"": tv(v.st.mem[it.it.pos]), "_n": tv(it.it.n), "_ord": tv(it.it.ordT), "_pos": tv(it.it.ordposT), "_map": it.it.m}
			}, ""})
		}
		return out
	}
	for _, p := range act.phis {
		p := p
		if !ex.sameType(p.Type(), mv.typ) {
			continue
		}
		if x := act.entryVals[p]; x.pl != nil || x.fn != nil || x.it != nil {
			continue
		}
		out = append(out, mbind{p.Name(), func(v view) map[string]Val { return one(v.vals[p]) }, p.Comment})
		if mv.typ == "int" && !mv.any {
			out = append(out, mbind{p.Name() + "+1", func(v view) map[string]Val {
				return one(Val{T: p.Type(), L: []*Term{Add(v.vals[p].L[0], Num(1))}})
			}, p.Comment})
		}
	}
	if mv.any {
		seen := map[string]bool{}
		d := 0
		for f := fr; f != nil; f = f.parent {
			var vs []ssa.Value
			for v := range f.env {
				vs = append(vs, v)
			}
			sort.Slice(vs, func(i, j int) bool {
				a, b := vs[i].Name(), vs[j].Name()
				if len(a) != len(b) {
					return len(a) < len(b)
				}
				return a < b
			})
			for _, v := range vs {
				x := f.env[v]
				if x.pl != nil || x.fn != nil || x.it != nil || len(x.L) == 0 {
					continue
				}
				if _, isPhi := v.(*ssa.Phi); isPhi && f == fr && v.(*ssa.Phi).Block() == act.info.header {
					continue
				}
				if in, ok := v.(ssa.Instruction); ok && f == fr && act.info.blocks[in.Block()] {
					continue
				}
				if !ex.sameType(v.Type(), mv.typ) {
					continue
				}
				key := ""
				for _, l := range x.L {
					key += fmt.Sprint(l.id, ",")
				}
				if seen[key] {
					continue
				}
				seen[key] = true
				out = append(out, mbind{fmt.Sprintf("%s@%d", v.Name(), d), func(view) map[string]Val { return one(x) }, srcName(v)})
			}
			d++
		}
	}
	return out
}

// declares tells whether fn has a variable of one of the names.
func declares(fn *ssa.Function, hint string) bool {
	want := map[string]bool{}
	for _, w := range strings.Split(hint, "|") {
		want[w] = true
	}
	for _, p := range fn.Params {
		if want[p.Name()] {
			return true
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.Phi:
				if want[v.Comment] {
					return true
				}
			case *ssa.Alloc:
				if want[v.Comment] {
					return true
				}
			}
		}
	}
	return false
}

// srcName is the source variable an SSA value belongs to, if known.
func srcName(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Phi:
		return v.Comment
	case *ssa.Alloc:
		return v.Comment
	case *ssa.Parameter:
		return v.Name()
	case *ssa.MakeSlice, *ssa.MakeMap:
		return ""
	case *ssa.BinOp: // the element index of a range loop
		if p, ok := v.X.(*ssa.Phi); ok && v.Op == token.ADD {
			return p.Comment
		}
	}
	return ""
}
