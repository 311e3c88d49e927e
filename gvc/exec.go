package main

// Symbolic execution of SSA, path by path, loops cut at their headers.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type closure struct {
	fn   *ssa.Function
	free []Val
}

type deferred struct {
	call ssa.CallCommon
	args []Val
	fn   Val
	in   *ssa.Defer
}

type Frame struct {
	fn        *ssa.Function
	env       map[ssa.Value]Val
	parent    *Frame
	site      string
	ret       func(st *State, parent *Frame, res []Val)
	defers    []deferred
	loops     []*loopAct
	depth     int
	panicking bool
	recovered bool
	free      []Val
	pcall     *ssa.BasicBlock
	con       *Contract // of an inlined function: its loop templates are used
	conVars   map[string]Val
	conPre    *State
}

func (f *Frame) clone() *Frame {
	if f == nil {
		return nil
	}
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred{}, f.defers...)
	n.loops = append([]*loopAct{}, f.loops...)
	return &n
}

// cloneChain clones a frame and all its ancestors.
func (f *Frame) cloneChain() *Frame {
	if f == nil {
		return nil
	}
	n := f.clone()
	n.parent = f.parent.cloneChain()
	return n
}

type Obligation struct {
	fn    string
	kind  string
	desc  string
	pos   string
	fl    *FactList
	ex    *Exec
	goal  *Term
	tags  []string
	cand  *Cand
	lw    *lwKey
	meas  *measure
	group int
	skip  map[string]bool

	status  string
	by      string
	output  string
	vacuous bool
	key     string
}

type lwKey struct {
	rec *LoopRec
	key string
}

type ModItem struct {
	key    string
	inner  string
	obj    *Term
	idx    *Term // nil: the whole object
	lo, hi *Term // slice range (absolute indices), with idx nil
	ghost  bool
}

type Exec struct {
	w           *World
	specs       *Specs
	fn          *ssa.Function
	con         *Contract
	name        string
	obls        []*Obligation
	recs        map[string]*LoopRec
	paths       int
	mods        []ModItem
	pre         *State
	vars        map[string]Val
	retStates   []*State
	cur         *Frame
	changed     bool
	callees     map[string]bool // contracts relied on
	externs     map[string]bool
	inlined     map[string]bool
	births      map[*Term]int
	prefix      string
	prop        string
	panicPaths  int
	assumptions map[string]bool
	errs        []string
	ordinals    map[string]int
	params      []Val
}

func (ex *Exec) lookupConst(name string) *Val {
	return ex.w.lookupConst(name)
}

// fresh makes a new symbol. Names are deterministic per path (State.n), so re-executions
// of the same path reuse them; a name is never shared between different sorts or ranges.
func (ex *Exec) fresh(st *State, base, sort string) *Term {
	return ex.freshR(st, base, sort, nil, nil)
}

type symMeta struct {
	sort, lo, hi string
}

var symMetas = map[string]symMeta{}

func bigStr(b *big.Int) string {
	if b == nil {
		return "-"
	}
	return b.String()
}

func (ex *Exec) freshR(st *State, base, sort string, lo, hi *big.Int) *Term {
	st.n++
	name := fmt.Sprintf("%s%s!%d", ex.prefix, base, st.n)
	m := symMeta{sort, bigStr(lo), bigStr(hi)}
	for {
		o, ok := symMetas[name]
		if !ok {
			symMetas[name] = m
			break
		}
		if o == m {
			break
		}
		name += "'"
	}
	name = strings.ReplaceAll(name, "'", "~")
	t := Sym(name, sort)
	if sort == SInt && t.lo == nil && t.hi == nil {
		t.lo, t.hi = lo, hi
	}
	ex.births[t] = st.n
	return t
}

func (ex *Exec) maxBirth(t *Term) int {
	m := 0
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if b, ok := ex.births[t]; ok && b > m {
			m = b
		}
		for _, a := range t.args {
			f(a)
		}
	}
	f(t)
	return m
}

func (ex *Exec) pos(in ssa.Instruction) string {
	if in == nil {
		return ""
	}
	p := ex.w.prog.Fset.Position(in.Pos())
	if !p.IsValid() {
		for _, i := range in.Block().Instrs {
			if q := ex.w.prog.Fset.Position(i.Pos()); q.IsValid() {
				p = q
			}
		}
	}
	f := p.Filename
	if i := strings.Index(f, "/src/"); i >= 0 {
		f = f[i+5:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

func (ex *Exec) oblige(st *State, kind, desc, pos string, goal *Term, tags []string) *Obligation {
	o := &Obligation{fn: ex.name, kind: kind, desc: desc, pos: pos, goal: goal, tags: tags, ex: ex}
	if goal == True || st.dead {
		o.status, o.by = "unsat", "simplifier"
	} else {
		if st.have[goal] {
			o.status, o.by = "unsat", "simplifier"
		} else {
			o.fl = st.facts
		}
	}
	ex.obls = append(ex.obls, o)
	return o
}

// check generates a no-panic obligation (or a panic path when a frame recovers).
func (ex *Exec) check(fr *Frame, st *State, cond *Term, kind string, in ssa.Instruction) bool {
	if cond == True || st.have[cond] {
		ex.countTrivial(kind, in)
		return true
	}
	if rf := ex.recovering(fr); rf {
		st2 := st.clone()
		st2.assume(Not(cond))
		if !st2.dead {
			ex.unwind(fr.cloneChain(), st2)
		}
		st.assume(cond)
		return !st.dead
	}
	goal := cond
	if ex.con != nil && ex.con.mayPanic {
		if len(ex.con.panics) == 0 {
			st.assume(cond)
			return !st.dead
		}
		goal = Or(append([]*Term{cond}, ex.panicConds()...)...)
	}
	ex.oblige(st, "no-panic/"+kind, ex.fnName(fr.fn), ex.pos(in), goal, nil)
	st.assume(cond)
	return !st.dead
}

func (ex *Exec) countTrivial(kind string, in ssa.Instruction) {
	ex.obls = append(ex.obls, &Obligation{fn: ex.name, kind: "no-panic/" + kind, pos: ex.pos(in), goal: True, status: "unsat", by: "simplifier"})
}

func (ex *Exec) panicConds() []*Term {
	var out []*Term
	for _, c := range ex.con.panics {
		env := &Env{ex: ex, st: ex.pre, old: ex.pre, vars: ex.vars}
		out = append(out, env.Bool(c.expr))
	}
	return out
}

// recovering: some frame of the chain has a pending deferred call that recovers.
func (ex *Exec) recovering(fr *Frame) bool {
	for f := fr; f != nil; f = f.parent {
		if f.panicking {
			continue
		}
		for _, d := range f.defers {
			if d.fn.fn != nil && callsRecover(d.fn.fn.fn) {
				return true
			}
		}
	}
	return false
}

func callsRecover(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

// unwind runs deferred calls of a panicking frame chain.
func (ex *Exec) unwind(fr *Frame, st *State) {
	if fr == nil {
		// reached the top: the panic escapes
		if ex.con != nil && ex.con.mayPanic {
			if len(ex.con.panics) == 0 {
				return
			}
			ex.oblige(st, "no-panic/escapes", "", "", Or(ex.panicConds()...), nil)
			return
		}
		ex.oblige(st, "no-panic/escapes", "", "", False, nil)
		return
	}
	fr.panicking = true
	fr.loops = nil
	var run func(fr *Frame, st *State)
	run = func(fr *Frame, st *State) {
		if len(fr.defers) == 0 {
			if fr.recovered {
				fr.panicking = false
				if fr.fn.Recover != nil {
					ex.runBlock(fr, st, fr.fn.Recover, nil)
					return
				}
				var res []Val
				rs := fr.fn.Signature.Results()
				for i := 0; i < rs.Len(); i++ {
					res = append(res, zeroVal(rs.At(i).Type()))
				}
				ex.doReturn(fr, st, res, nil)
				return
			}
			ex.unwind(fr.parent, st)
			return
		}
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		ex.callDeferred(fr, st, d, func(st *State, fr *Frame, _ []Val) { run(fr, st) })
	}
	run(fr, st)
}

func (ex *Exec) callDeferred(fr *Frame, st *State, d deferred, k func(st *State, fr *Frame, res []Val)) {
	ex.callWith(fr, st, d.in, &d.call, d.fn, d.args, k)
}

func (ex *Exec) fnName(f *ssa.Function) string { return shortName(f.String()) }

func shortName(s string) string { return strings.ReplaceAll(s, "gotor/", "") }

// ------------------------------------------------------------- type facts

// typeFacts assumes what holds of every value of its type in a well-typed state.
func (ex *Exec) typeFacts(st *State, v Val) {
	if v.T == nil {
		return
	}
	ex.typeFactsAt(st, v.T, v.L, st.alloc)
}

func (ex *Exec) typeFactsAt(st *State, t types.Type, L []*Term, alloc *Term) {
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		return
	}
	if n, ok := t.(*types.Named); ok {
		if _, ok := specialStruct[typeName(n)]; ok {
			return
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if _, ok := litOf[L[0]]; !ok {
				st.assume(Le(SLen(L[0]), NumB(maxLen)))
			}
		}
	case *types.Pointer:
		if L[0].num == nil {
			sz := int64(1)
			if isStruct(u.Elem()) {
				sz = blockSize(u.Elem())
			}
			st.assume(Le(Add(L[0], Num(sz)), alloc))
			st.assume(Le(Num(0), L[1]))
		}
	case *types.Slice:
		if L[0].num == nil {
			st.assume(Le(Add(L[0], Num(blockSize(u.Elem()))), alloc))
		}
		st.assume(Le(L[2], L[3]))
		if L[0].num == nil {
			st.assume(Imp(Eq(L[0], Num(0)), Eq(L[3], Num(0))))
		}
	case *types.Map, *types.Chan:
		if L[0].num == nil {
			st.assume(Le(Add(L[0], Num(1)), alloc))
		}
	case *types.Struct:
		if isExternal(t) {
			return
		}
		k := 0
		for i := 0; i < u.NumFields(); i++ {
			n := len(leaves(u.Field(i).Type()))
			ex.typeFactsAt(st, u.Field(i).Type(), L[k:k+n], alloc)
			k += n
		}
	case *types.Tuple:
		k := 0
		for i := 0; i < u.Len(); i++ {
			n := len(leaves(u.At(i).Type()))
			ex.typeFactsAt(st, u.At(i).Type(), L[k:k+n], alloc)
			k += n
		}
	}
}

// birthFacts: references read from memory that has not changed since an earlier moment
// were allocated before that moment.
func (ex *Exec) birthFacts(st *State, t *Term) {
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "ite" {
			f(t.args[1])
			f(t.args[2])
			return
		}
		if t.op != "select" || t.sort != SInt {
			return
		}
		in, idx := t.args[0], t.args[1]
		// peel inner stores
		for in.op == "store" {
			in = in.args[0]
		}
		if in.op == "select" {
			outer, obj := in.args[0], in.args[1]
			for {
				if outer.op == "store" {
					f(App("select", SInt, outer.args[2], idx))
					outer = outer.args[0]
					continue
				}
				break
			}
			if a, ok := birthAlloc[outer]; ok {
				x := Select(Select(outer, obj), idx)
				st.assume(Imp(Lt(obj, a), Lt(x, a)))
			}
		} else if a, ok := birthAlloc[in]; ok {
			st.assume(Lt(Select(in, idx), a))
		}
	}
	f(t)
}

// symVal makes a fresh symbolic value of a type and assumes its type facts.
func (ex *Exec) symVal(st *State, base string, t types.Type) Val {
	v := Val{T: t}
	for _, l := range leaves(t) {
		v.L = append(v.L, ex.freshR(st, base+l.path, l.sort, l.lo, l.hi))
	}
	ex.typeFacts(st, v)
	return v
}

// ------------------------------------------------------------- memory access

func (ex *Exec) load(st *State, p Val) Val {
	var v Val
	if p.pl != nil {
		v = Val{T: p.pl.elem}
		for _, l := range leaves(p.pl.elem) {
			v.L = append(v.L, st.loadLeaf(p.pl.key+l.path, l, p.pl.obj, p.pl.idx))
		}
	} else {
		pt := types.Unalias(p.T).Underlying().(*types.Pointer)
		if a, ok := pt.Elem().Underlying().(*types.Array); ok {
			v = Val{T: pt.Elem()}
			for i := int64(0); i < a.Len(); i++ {
				e := st.loadAt(a.Elem(), p.L[0], Add(p.L[1], Num(i)))
				v.L = append(v.L, e.L...)
			}
		} else {
			v = st.loadAt(pt.Elem(), p.L[0], p.L[1])
		}
	}
	for i, l := range leaves(v.T) {
		if l.kind == "obj" {
			ex.birthFacts(st, v.L[i])
		}
	}
	ex.typeFacts(st, v)
	return v
}

func (ex *Exec) store(fr *Frame, st *State, p Val, v Val, in ssa.Instruction) {
	if v.pl != nil {
		unsup("storing the address of a field (%s)", v.pl.key)
	}
	if p.pl != nil {
		for i, l := range leaves(p.pl.elem) {
			ex.writeLeaf(fr, st, p.pl.key+l.path, l, p.pl.obj, p.pl.idx, v.L[i], in)
		}
		return
	}
	pt := types.Unalias(p.T).Underlying().(*types.Pointer)
	if a, ok := pt.Elem().Underlying().(*types.Array); ok {
		n := len(leaves(a.Elem()))
		for i := int64(0); i < a.Len(); i++ {
			ex.storeAt(fr, st, a.Elem(), p.L[0], Add(p.L[1], Num(i)), v.L[int(i)*n:int(i+1)*n], in)
		}
		return
	}
	ex.storeAt(fr, st, pt.Elem(), p.L[0], p.L[1], v.L, in)
}

func (ex *Exec) storeAt(fr *Frame, st *State, t types.Type, obj, idx *Term, L []*Term, in ssa.Instruction) {
	for i, m := range memLayout(t) {
		ex.writeLeaf(fr, st, m.key, m.leaf, Add(obj, Num(m.sub)), idx, L[i], in)
	}
}

func (ex *Exec) writeLeaf(fr *Frame, st *State, key string, l Leaf, obj, idx, v *Term, in ssa.Instruction) {
	inner := arrSort(SInt, l.sort)
	ex.checkWrite(fr, st, key, inner, obj, idx, in)
	if key == "e:iface" {
		ex.checkFrozen(fr, st, key, obj, in)
	}
	m := st.get(key, inner)
	st.mem[key] = Store(m, obj, Store(Select(m, obj), idx, v))
}

// frozen objects: backing stores of boxed lists and dictionaries must not change any more
func (ex *Exec) frozen(st *State, key string) *Term {
	return st.get("frozen:"+key, SBool)
}

func (ex *Exec) checkFrozen(fr *Frame, st *State, key string, obj *Term, in ssa.Instruction) {
	fz := Select(ex.frozen(st, key), obj)
	if fz == False {
		return
	}
	ex.oblige(st, "snapshot", "writes to a boxed list or dictionary", ex.pos(in), Not(fz), nil)
}

// checkWrite: the write must be allowed by the function's frame and is recorded in active loops.
func (ex *Exec) checkWrite(fr *Frame, st *State, key, inner string, obj, idx *Term, in ssa.Instruction) {
	ex.checkWriteItem(fr, st, ModItem{key: key, inner: inner, obj: obj, idx: idx}, in)
}

func (ex *Exec) checkWriteItem(fr *Frame, st *State, it ModItem, in ssa.Instruction) {
	// loops, innermost outwards
	for f := fr; f != nil; f = f.parent {
		for i := len(f.loops) - 1; i >= 0; i-- {
			ex.loopWrite(f, f.loops[i], st, it, in)
		}
	}
	if ex.con == nil || ex.con.opts["init"] != "" {
		return
	}
	g := ex.frameGoal(it)
	if g == True {
		return
	}
	ex.oblige(st, "frame", "writes "+it.key, ex.pos(in), g, nil)
}

func (ex *Exec) frameGoal(it ModItem) *Term {
	if it.ghost {
		for _, m := range ex.mods {
			if m.ghost && m.key == it.key {
				return True
			}
		}
		return False
	}
	if it.obj == nil {
		for _, m := range ex.mods {
			if m.key == it.key && !m.ghost && m.obj == nil {
				return True
			}
		}
		return False
	}
	fresh := Le(alloc0(), it.obj)
	if fresh == True {
		return True
	}
	alts := []*Term{fresh}
	if it.lo != nil && it.idx == nil {
		alts = append(alts, Le(it.hi, it.lo)) // nothing is written
	}
	for _, m := range ex.mods {
		if m.key != it.key || m.ghost {
			continue
		}
		alts = append(alts, coversItem(m, it))
	}
	return Or(alts...)
}

// coversItem: condition under which frame item m permits writing it.
func coversItem(m, it ModItem) *Term {
	if m.obj == nil {
		return True
	}
	c := Eq(m.obj, it.obj)
	if m.idx != nil {
		if it.idx == nil {
			return False
		}
		return And(c, Eq(m.idx, it.idx))
	}
	if m.lo != nil {
		if it.idx != nil {
			return And(c, Le(m.lo, it.idx), Lt(it.idx, m.hi))
		}
		if it.lo != nil {
			return And(c, Or(Ge(it.lo, it.hi), And(Le(m.lo, it.lo), Le(it.hi, m.hi))))
		}
		return False
	}
	return c
}

// havocItem gives an item's location(s) arbitrary new contents.
func (ex *Exec) havocItem(st *State, it ModItem, base string) {
	if it.ghost {
		nm := strings.TrimPrefix(it.key, "g:")
		st.mem[it.key] = ex.fresh(st, "G:"+nm+"@"+base, ex.specs.ghosts[nm])
		return
	}
	m := st.get(it.key, it.inner)
	if it.idx != nil {
		_, vs := splitArr(it.inner)
		l := ex.w.keyLeaf[it.key]
		f := ex.freshR(st, "h:"+it.key+"@"+base, vs, l.lo, l.hi)
		if l.kind == "obj" {
			st.assume(Lt(f, st.alloc))
		}
		st.mem[it.key] = Store(m, it.obj, Store(Select(m, it.obj), it.idx, f))
		return
	}
	if it.obj == nil {
		f := ex.fresh(st, "F:"+it.key+"@"+base, arrSort(SInt, it.inner))
		birthAlloc[f] = st.alloc
		byteRange(it.key, f)
		st.mem[it.key] = f
		return
	}
	f := ex.fresh(st, "H:"+it.key+"@"+base, it.inner)
	birthAlloc[f] = st.alloc
	byteRange(it.key, f)
	if it.lo != nil {
		old := Select(m, it.obj)
		i := BoundVar("i", SInt)
		x := Select(f, i)
		st.assume(Forall([]*Term{i}, Imp(Or(Lt(i, it.lo), Le(it.hi, i)), Eq(x, Select(old, i))), []*Term{x}))
	}
	st.mem[it.key] = Store(m, it.obj, f)
}

// ------------------------------------------------------------- values

func (ex *Exec) val(fr *Frame, st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return ex.constVal(v)
	case *ssa.Global:
		return Val{T: v.Type(), L: []*Term{ex.w.globalObj(v), Num(0)}}
	case *ssa.Function:
		return Val{T: v.Type(), L: []*Term{Num(1)}, fn: &closure{fn: v}}
	case *ssa.Builtin:
		return Val{T: v.Type()}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == v {
				return fr.free[i]
			}
		}
	}
	r, ok := fr.env[v]
	if !ok {
		unsup("value %s = %s not evaluated", v.Name(), v.String())
	}
	return r
}

func (ex *Exec) constVal(c *ssa.Const) Val {
	t := types.Unalias(c.Type())
	if c.Value == nil {
		return zeroVal(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Val{T: t, L: []*Term{BoolT(constant.BoolVal(c.Value))}}
		case u.Info()&types.IsString != 0:
			return Val{T: t, L: []*Term{StrLit(constant.StringVal(c.Value))}}
		case u.Info()&types.IsInteger != 0:
			n, ok := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			if !ok {
				unsup("constant %s", c)
			}
			return Val{T: t, L: []*Term{NumB(n)}}
		case u.Info()&types.IsFloat != 0:
			r := constant.ToFloat(c.Value)
			if i := constant.ToInt(r); i.Kind() == constant.Int {
				n, _ := new(big.Int).SetString(i.ExactString(), 10)
				s := n.String() + ".0"
				if n.Sign() < 0 {
					s = "(- " + new(big.Int).Neg(n).String() + ".0)"
				}
				return Val{T: t, L: []*Term{App(s, SReal)}}
			}
			return Val{T: t, L: []*Term{Sym("fconst:"+c.Value.ExactString(), SReal)}}
		}
	}
	unsup("constant %s of type %s", c, typeName(t))
	return Val{}
}

// ------------------------------------------------------------- driver

var maxPaths = 4000

func (ex *Exec) endPath() {
	ex.paths++
	if ex.paths > maxPaths {
		unsup("more than %d paths", maxPaths)
	}
}

func (ex *Exec) runBlock(fr *Frame, st *State, b *ssa.BasicBlock, from *ssa.BasicBlock) {
	if st.dead {
		ex.endPath()
		return
	}
	// leave loops that do not contain b
	li := ex.w.loops(fr.fn)
	for len(fr.loops) > 0 {
		top := fr.loops[len(fr.loops)-1]
		if top.info.blocks[b] {
			break
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	vals := map[ssa.Value]Val{}
	if len(phis) > 0 {
		k := -1
		for i, p := range b.Preds {
			if p == from {
				k = i
			}
		}
		for _, p := range phis {
			v := ex.val(fr, st, p.Edges[k])
			v.T = p.Type()
			vals[p] = v
		}
	}
	if info := li[b]; info != nil {
		if len(fr.loops) > 0 && fr.loops[len(fr.loops)-1].info == info {
			ex.backEdge(fr, st, fr.loops[len(fr.loops)-1], vals)
			ex.endPath()
			return
		}
		ex.enterLoop(fr, st, info, phis, vals)
		ex.steps(fr, st, b, len(phis))
		return
	}
	for p, v := range vals {
		fr.env[p] = v
	}
	ex.steps(fr, st, b, len(phis))
}

func (ex *Exec) steps(fr *Frame, st *State, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			ex.endPath()
			return
		}
		in := b.Instrs[i]
		ex.cur = fr
		switch in := in.(type) {
		case *ssa.Call:
			next := i + 1
			ex.call(fr, st, in, func(st *State, fr *Frame, res []Val) {
				fr.env[in] = packResults(in.Type(), res)
				ex.steps(fr, st, b, next)
			})
			return
		case *ssa.Jump:
			ex.runBlock(fr, st, b.Succs[0], b)
			return
		case *ssa.If:
			c := ex.val(fr, st, in.Cond).L[0]
			ex.noteExitCond(fr, b, c)
			if c != False {
				st1, fr1 := st.clone(), fr.cloneChain()
				st1.assume(c)
				if ex.feasible(st1) {
					ex.runBlock(fr1, st1, b.Succs[0], b)
				}
			}
			if c != True {
				st.assume(Not(c))
				if ex.feasible(st) {
					ex.runBlock(fr, st, b.Succs[1], b)
				}
			}
			return
		case *ssa.Return:
			var res []Val
			for _, r := range in.Results {
				res = append(res, ex.val(fr, st, r))
			}
			ex.doReturn(fr, st, res, in)
			return
		case *ssa.Panic:
			if ex.check(fr, st, False, "explicit panic", in) {
				unsup("panic fell through")
			}
			ex.endPath()
			return
		case *ssa.RunDefers:
			if len(fr.defers) > 0 {
				next := i + 1
				var run func(st *State, fr *Frame)
				run = func(st *State, fr *Frame) {
					if len(fr.defers) == 0 {
						ex.steps(fr, st, b, next)
						return
					}
					d := fr.defers[len(fr.defers)-1]
					fr.defers = fr.defers[:len(fr.defers)-1]
					ex.callDeferred(fr, st, d, func(st *State, fr *Frame, _ []Val) { run(st, fr) })
				}
				run(st, fr)
				return
			}
		case *ssa.TypeAssert:
			next := i + 1
			ex.typeAssert(fr, st, in, func(st *State, fr *Frame, v Val) {
				fr.env[in] = v
				ex.steps(fr, st, b, next)
			})
			return
		default:
			ex.instr(fr, st, in)
		}
	}
}

func packResults(t types.Type, res []Val) Val {
	if len(res) == 1 {
		v := res[0]
		if _, ok := t.(*types.Tuple); !ok {
			v.T = t
		}
		return v
	}
	v := Val{T: t}
	for _, r := range res {
		v.L = append(v.L, r.L...)
	}
	return v
}

func (ex *Exec) doReturn(fr *Frame, st *State, res []Val, in *ssa.Return) {
	if fr.parent != nil || fr.ret != nil {
		p := fr.parent
		fr.ret(st, p, res)
		return
	}
	// top level
	ex.endPath()
	if st.dead {
		return
	}
	ex.retStates = append(ex.retStates, st)
	pos := ""
	if in != nil {
		pos = ex.pos(in)
	}
	ex.finish(st, res, pos)
}

func (ex *Exec) resultVars(res []Val) map[string]Val {
	vars := map[string]Val{}
	for k, v := range ex.vars {
		vars[k] = v
	}
	for i, n := range ex.con.results {
		if i < len(res) {
			vars[n] = res[i]
		}
	}
	return vars
}

// finish checks the postconditions.
func (ex *Exec) finish(st *State, res []Val, pos string) {
	if ex.con == nil {
		return
	}
	vars := ex.resultVars(res)
	if len(st.locks) > 0 {
		ex.oblige(st, "locks", "returns with the mutex locked at "+st.locks[0].at+" still locked", pos, False, nil)
	}
	for _, g := range ex.specs.ginv {
		if g.hasTag(ex.prop) {
			for _, gg := range splitGoal((&Env{ex: ex, st: st, old: st, vars: map[string]Val{}}).Bool(g.expr)) {
				ex.oblige(st, "global-invariant", g.text, pos, gg, nil)
			}
		}
	}
	if len(ex.con.ghostUpd) > 0 {
		st2 := st.clone()
		for _, g := range ex.con.ghostUpd {
			sort := ex.specs.ghosts[g.name]
			key := "g:" + g.name
			if ex.frameGoal(ModItem{key: key, ghost: true}) != True {
				specPanic("set of ghost %s, which is not in modifies", g.name)
			}
			nw := ex.fresh(st2, "set:"+g.name, sort)
			b := BoundVar(g.v, SInt)
			env := &Env{ex: ex, st: st, old: ex.pre, vars: vars}
			rhs := env.with(g.v, tv(b)).Eval(g.rhs.expr).term()
			sel := App("select", rhs.sort, nw, b)
			st2.assume(Forall([]*Term{b}, Eq(sel, rhs), []*Term{sel}))
			st2.mem[key] = nw
		}
		st = st2
	}
	ex.applyUses(st, ex.con.uses, &Env{ex: ex, st: st, old: ex.pre, vars: vars})
	for k, c := range ex.con.ensures {
		if !c.hasTag(ex.prop) {
			continue
		}
		env := &Env{ex: ex, st: st, old: ex.pre, vars: vars}
		g := env.Bool(c.expr)
		for j, gg := range splitGoal(g) {
			o := ex.oblige(st, "ensures", fmt.Sprintf("#%d %s", k+1, c.text), pos, gg, c.tags)
			_ = j
			_ = o
		}
	}
}

// applyUses assumes instances of (separately proved) lemmas.
func (ex *Exec) applyUses(st *State, uses []*Clause, env *Env) {
	for _, c := range uses {
		if !c.hasTag(ex.prop) {
			continue
		}
		call, ok := c.expr.(*ast.CallExpr)
		if !ok {
			specPanic("use %s: not a lemma application", c.text)
		}
		id, _ := call.Fun.(*ast.Ident)
		var l *Lemma
		for _, x := range ex.specs.lemmas {
			if id != nil && x.name == id.Name {
				l = x
			}
		}
		if l == nil || len(l.params) != len(call.Args) {
			specPanic("use %s: unknown lemma", c.text)
		}
		vs := map[string]Val{}
		for i, a := range call.Args {
			v := env.Eval(a)
			if sortOf(l.ptypes[i]) == SIf {
				v.T = emptyIface
			}
			if v.term().sort != sortOf(l.ptypes[i]) {
				specPanic("use %s: argument %d has sort %s", c.text, i, v.term().sort)
			}
			vs[l.params[i]] = v
		}
		usedAxioms.Store("lemma_"+l.name, true)
		st.assume(ex.lemmaBody(l, vs))
	}
}

// splitGoal breaks conjunctions apart.
func splitGoal(g *Term) []*Term { return splitGoal1(g, true) }

func splitGoal1(g *Term, ites bool) []*Term {
	switch g.op {
	case "and":
		var out []*Term
		for _, a := range g.args {
			out = append(out, splitGoal1(a, ites)...)
		}
		return out
	case "=>":
		var out []*Term
		for _, a := range splitGoal1(g.args[1], ites) {
			out = append(out, Imp(g.args[0], a))
		}
		return out
	case "forall":
		if len(g.args[0].args) > 0 {
			parts := splitGoal1(g.args[0], false)
			if len(parts) > 1 {
				var out []*Term
				for _, a := range parts {
					out = append(out, Forall(g.bvs, a))
				}
				return out
			}
		}
	case "ite":
		if g.sort == SBool && ites {
			var out []*Term
			for _, a := range splitGoal1(g.args[1], ites) {
				out = append(out, Imp(g.args[0], a))
			}
			for _, a := range splitGoal1(g.args[2], ites) {
				out = append(out, Imp(Not(g.args[0]), a))
			}
			return out
		}
	}
	return []*Term{g}
}

func debugf(f string, a ...interface{}) {
	if os.Getenv("GVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f, a...)
	}
}

// ------------------------------------------------------------- integers

func wrapInt(t *Term, b *types.Basic) *Term {
	lo, hi, ok := intRange(b)
	if !ok || hi == nil {
		return t
	}
	if t.num != nil {
		return NumB(wrapBig(t.num, lo, hi))
	}
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return t
	}
	mod := new(big.Int).Add(new(big.Int).Sub(hi, lo), bigOne)
	mk := func(x *Term) *Term {
		x2 := x
		return x2
	}
	// single wrap possible?
	if t.lo != nil && t.hi != nil {
		l2 := new(big.Int).Sub(lo, mod)
		h2 := new(big.Int).Add(hi, mod)
		if t.lo.Cmp(l2) >= 0 && t.hi.Cmp(h2) <= 0 {
			r := t
			if t.lo.Cmp(lo) < 0 {
				r = Ite(Lt(t, NumB(lo)), Add(t, NumB(mod)), r)
			}
			if t.hi.Cmp(hi) > 0 {
				r = Ite(Lt(NumB(hi), t), Sub(t, NumB(mod)), r)
			}
			r = mk(r)
			if r.op == "ite" {
				r.lo, r.hi = lo, hi
			}
			return r
		}
	}
	var m *Term
	if lo.Sign() == 0 {
		m = ModE(t, NumB(mod))
	} else {
		m = Add(ModE(Sub(t, NumB(lo)), NumB(mod)), NumB(lo))
	}
	r := Ite(And(Le(NumB(lo), t), Le(t, NumB(hi))), t, m)
	if r.op == "ite" {
		r.lo, r.hi = lo, hi
	}
	return r
}

func wrapBig(n, lo, hi *big.Int) *big.Int {
	mod := new(big.Int).Add(new(big.Int).Sub(hi, lo), bigOne)
	x := new(big.Int).Sub(n, lo)
	x.Mod(x, mod)
	return x.Add(x, lo)
}

func init() {
	DeclFun("tdiv", []string{SInt, SInt}, SInt)
	DeclFun("tmod", []string{SInt, SInt}, SInt)
	addRawAxioms(`
(assert (! (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (< 0 b)) (and (= a (+ (* b (tdiv a b)) (tmod a b))) (<= 0 (tmod a b)) (< (tmod a b) b) (<= 0 (tdiv a b)) (<= (tdiv a b) a))) :pattern ((tdiv a b)) :pattern ((tmod a b)))) :named ax_tdiv))
(assert (! (forall ((a Int) (b Int)) (! (=> (and (< a 0) (< 0 b)) (and (= a (+ (* b (tdiv a b)) (tmod a b))) (<= (tmod a b) 0) (< (- b) (tmod a b)) (<= (tdiv a b) 0) (<= a (tdiv a b)))) :pattern ((tdiv a b)) :pattern ((tmod a b)))) :named ax_tdivn))
(assert (! (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (< a b)) (and (= (tdiv a b) 0) (= (tmod a b) a))) :pattern ((tdiv a b)) :pattern ((tmod a b)))) :named ax_tdiv0))
`)
}

func tdivT(a, b *Term) *Term {
	if b.num != nil && b.num.Sign() > 0 {
		if a.num != nil {
			return NumB(new(big.Int).Quo(a.num, b.num))
		}
		if a.lo != nil && a.lo.Sign() >= 0 {
			return DivE(a, b)
		}
		return Ite(Le(Num(0), a), DivE(a, b), Neg(DivE(Neg(a), b)))
	}
	return App("tdiv", SInt, a, b)
}

func tmodT(a, b *Term) *Term {
	if b.num != nil && b.num.Sign() > 0 {
		if a.num != nil {
			return NumB(new(big.Int).Rem(a.num, b.num))
		}
		if a.lo != nil && a.lo.Sign() >= 0 {
			return ModE(a, b)
		}
		return Ite(Le(Num(0), a), ModE(a, b), Neg(ModE(Neg(a), b)))
	}
	return App("tmod", SInt, a, b)
}

func Pow2(k *Term) *Term {
	if k.num != nil && k.num.Sign() >= 0 && k.num.Cmp(big.NewInt(200)) < 0 {
		return NumB(pow2(int(k.num.Int64())))
	}
	return App("pow2", SInt, k)
}

// B8 is bit k (0 = least significant) of a byte value.
func B8(x *Term, k int) *Term {
	if x.num != nil {
		return NumB(new(big.Int).And(new(big.Int).Rsh(x.num, uint(k)), bigOne))
	}
	if x.op == "ite" {
		return Ite(x.args[0], B8(x.args[1], k), B8(x.args[2], k))
	}
	return AppR("b8", bigZero, bigOne, x, Num(int64(k)))
}

// bitsFact: x is the sum of its bits.
func bitsFact(x *Term, n int) *Term {
	s := Num(0)
	for k := 0; k < n; k++ {
		s = Add(s, Mul(NumB(pow2(k)), B8(x, k)))
	}
	return Eq(x, s)
}

func (ex *Exec) bitop(st *State, op token.Token, x, y *Term, b *types.Basic) *Term {
	n, signed := bitsOf(b)
	isMask := func(t *Term) int {
		if t.num == nil || t.num.Sign() < 0 {
			return -1
		}
		m := new(big.Int).Add(t.num, bigOne)
		if m.BitLen() > 0 && new(big.Int).And(m, t.num).Sign() == 0 {
			return m.BitLen() - 1
		}
		return -1
	}
	if op == token.AND {
		if isMask(x) >= 0 {
			x, y = y, x
		}
		if k := isMask(y); k >= 0 {
			return ModE(x, NumB(pow2(k)))
		}
	}
	if x.num != nil && y.num != nil && !signed {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(x.num, y.num)
		case token.OR:
			r.Or(x.num, y.num)
		case token.XOR:
			r.Xor(x.num, y.num)
		case token.AND_NOT:
			r.AndNot(x.num, y.num)
		}
		return NumB(r)
	}
	names := map[token.Token]string{token.AND: "band", token.OR: "bor", token.XOR: "bxor", token.AND_NOT: "bandnot"}
	if _, ok := declGet("bandnot"); !ok {
		DeclFun("bandnot", []string{SInt, SInt}, SInt)
	}
	lo, hi, _ := intRange(b)
	r := AppR(names[op], lo, hi, x, y)
	if signed || n > 16 {
		// range facts only
		if op == token.AND && x.lo != nil && x.lo.Sign() >= 0 {
			st.assume(Le(Num(0), r))
			st.assume(Le(r, x))
		}
		return r
	}
	for _, t := range []*Term{x, y} {
		if t.num == nil && t.op != "ite" {
			st.assume(bitsFact(t, n))
		}
	}
	st.assume(bitsFact(r, n))
	for k := 0; k < n; k++ {
		a, c := B8(x, k), B8(y, k)
		one := func(t *Term) *Term { return Eq(t, Num(1)) }
		var v *Term
		switch op {
		case token.AND:
			v = Ite(And(one(a), one(c)), Num(1), Num(0))
		case token.OR:
			v = Ite(Or(one(a), one(c)), Num(1), Num(0))
		case token.XOR:
			v = Ite(Eq(a, c), Num(0), Num(1))
		case token.AND_NOT:
			v = Ite(And(one(a), Not(one(c))), Num(1), Num(0))
		}
		st.assume(Eq(B8(r, k), v))
	}
	return r
}

func (ex *Exec) shift(st *State, op token.Token, x, s *Term, b *types.Basic) *Term {
	n, _ := bitsOf(b)
	one := func(k int) *Term {
		if op == token.SHL {
			return wrapInt(Mul(NumB(pow2(k)), x), b)
		}
		return DivE(x, NumB(pow2(k)))
	}
	big0 := func() *Term {
		if op == token.SHL {
			return Num(0)
		}
		if x.lo != nil && x.lo.Sign() >= 0 {
			return Num(0)
		}
		return Ite(Le(Num(0), x), Num(0), Num(-1))
	}
	if s.num != nil {
		if s.num.Cmp(big.NewInt(int64(n))) >= 0 {
			return big0()
		}
		return one(int(s.num.Int64()))
	}
	r := big0()
	for k := n - 1; k >= 0; k-- {
		if s.hi != nil && big.NewInt(int64(k)).Cmp(s.hi) > 0 {
			continue
		}
		if s.lo != nil && big.NewInt(int64(k)).Cmp(s.lo) < 0 {
			continue
		}
		r = Ite(Eq(s, Num(int64(k))), one(k), r)
	}
	return r
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
