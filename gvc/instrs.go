package main

// Straight-line SSA instructions.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func deref(t types.Type) types.Type {
	return types.Unalias(t).Underlying().(*types.Pointer).Elem()
}

func (ex *Exec) nonNil(fr *Frame, st *State, p Val, in ssa.Instruction) bool {
	if p.pl != nil {
		return true
	}
	return ex.check(fr, st, Ne(p.L[0], Num(0)), "nil dereference", in)
}

// newObj allocates an object and zero-initialises the memory of a type in it.
func (ex *Exec) newObj(st *State, t types.Type) *Term {
	obj := st.alloc
	st.alloc = Add(st.alloc, Num(blockUnit))
	ex.zeroMem(st, t, obj)
	return obj
}

func (ex *Exec) zeroMem(st *State, t types.Type, obj *Term) {
	if a, ok := types.Unalias(t).Underlying().(*types.Array); ok {
		t = a.Elem()
	}
	if blockSize(t) > blockUnit {
		unsup("struct %s is too large", typeName(t))
	}
	for _, m := range memLayout(t) {
		inner := arrSort(SInt, m.leaf.sort)
		ex.w.keyLeaf[m.key] = m.leaf
		st.mem[m.key] = Store(st.get(m.key, inner), Add(obj, Num(m.sub)), ConstArr(inner, zeroLeaf(m.leaf)))
		if m.key == "e:iface" {
			st.assume(Not(Select(ex.frozen(st, m.key), obj)))
		}
	}
}

func (ex *Exec) instr(fr *Frame, st *State, in ssa.Instruction) {
	set := func(v Val) {
		x := in.(ssa.Value)
		if v.T == nil {
			v.T = x.Type()
		}
		fr.env[x] = v
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		obj := ex.newObj(st, deref(x.Type()))
		set(Val{T: x.Type(), L: []*Term{obj, Num(0)}})
	case *ssa.FieldAddr:
		p := ex.val(fr, st, x.X)
		if p.pl != nil {
			unsup("field of an indirect place")
		}
		if !ex.nonNil(fr, st, p, in) {
			return
		}
		et := deref(x.X.Type())
		set(ex.fieldAddr(et, x.Field, p))
	case *ssa.IndexAddr:
		p := ex.val(fr, st, x.X)
		i := ex.val(fr, st, x.Index).L[0]
		if pt, ok := types.Unalias(x.X.Type()).Underlying().(*types.Pointer); ok {
			a := pt.Elem().Underlying().(*types.Array)
			if !ex.nonNil(fr, st, p, in) || !ex.check(fr, st, And(Le(Num(0), i), Lt(i, Num(a.Len()))), "index out of range", in) {
				return
			}
			set(Val{T: x.Type(), L: []*Term{p.L[0], Add(p.L[1], i)}})
			return
		}
		if !ex.check(fr, st, And(Le(Num(0), i), Lt(i, p.L[2])), "index out of range", in) {
			return
		}
		set(Val{T: x.Type(), L: []*Term{p.L[0], Add(p.L[1], i)}})
	case *ssa.UnOp:
		ex.unop(fr, st, x, set)
	case *ssa.Store:
		p := ex.val(fr, st, x.Addr)
		if !ex.nonNil(fr, st, p, in) {
			return
		}
		if g, ok := x.Addr.(*ssa.Global); ok && isExternalGlobal(g) {
			unsup("assignment to %s", g)
		}
		v := ex.val(fr, st, x.Val)
		if v.fn != nil {
			unsup("storing a function value")
		}
		ex.store(fr, st, p, v, in)
	case *ssa.Field:
		v := ex.val(fr, st, x.X)
		s := types.Unalias(x.X.Type()).Underlying().(*types.Struct)
		lo, n := fieldLeaves(s, x.Field)
		set(Val{T: x.Type(), L: v.L[lo : lo+n]})
	case *ssa.Index:
		v := ex.val(fr, st, x.X)
		i := ex.val(fr, st, x.Index).L[0]
		if b, ok := types.Unalias(x.X.Type()).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if !ex.check(fr, st, And(Le(Num(0), i), Lt(i, SLen(v.L[0]))), "index out of range", in) {
				return
			}
			set(Val{T: x.Type(), L: []*Term{SAt(v.L[0], i)}})
			return
		}
		a, ok := types.Unalias(x.X.Type()).Underlying().(*types.Array)
		if !ok {
			unsup("index of %s", typeName(x.X.Type()))
		}
		if !ex.check(fr, st, And(Le(Num(0), i), Lt(i, Num(a.Len()))), "index out of range", in) {
			return
		}
		n := len(leaves(a.Elem()))
		r := Val{T: x.Type()}
		for k := 0; k < n; k++ {
			t := v.L[k]
			for j := int64(1); j < a.Len(); j++ {
				t = Ite(Eq(i, Num(j)), v.L[int(j)*n+k], t)
			}
			r.L = append(r.L, t)
		}
		set(r)
	case *ssa.Lookup:
		ex.lookup(fr, st, x, set)
	case *ssa.Slice:
		ex.slice(fr, st, x, set)
	case *ssa.MakeSlice:
		n := ex.val(fr, st, x.Len).L[0]
		c := ex.val(fr, st, x.Cap).L[0]
		if !ex.check(fr, st, And(Le(Num(0), n), Le(n, c), Le(c, NumB(maxLen))), "makeslice size", in) {
			return
		}
		el := types.Unalias(x.Type()).Underlying().(*types.Slice).Elem()
		obj := ex.newObj(st, el)
		set(Val{T: x.Type(), L: []*Term{obj, Num(0), n, c}})
	case *ssa.MakeMap:
		set(ex.newMap(st, x.Type()))
	case *ssa.MakeChan:
		obj := st.alloc
		st.alloc = Add(st.alloc, Num(blockUnit))
		set(Val{T: x.Type(), L: []*Term{obj}})
	case *ssa.MapUpdate:
		ex.mapUpdate(fr, st, ex.val(fr, st, x.Map), ex.val(fr, st, x.Key), ex.val(fr, st, x.Value), in)
	case *ssa.MakeInterface:
		v := ex.val(fr, st, x.X)
		if v.pl != nil || v.fn != nil {
			unsup("boxing a field address or function")
		}
		v.T = x.X.Type()
		set(Val{T: x.Type(), L: []*Term{ex.box(st, v)}})
	case *ssa.ChangeInterface:
		v := ex.val(fr, st, x.X)
		set(Val{T: x.Type(), L: v.L})
	case *ssa.ChangeType:
		v := ex.val(fr, st, x.X)
		v.T = x.Type()
		fr.env[x] = v
	case *ssa.Convert:
		set(ex.convert(fr, st, ex.val(fr, st, x.X), x.X.Type(), x.Type(), in))
	case *ssa.MultiConvert:
		v := ex.val(fr, st, x.X)
		v.T = x.Type()
		fr.env[x] = v
	case *ssa.BinOp:
		ex.binop(fr, st, x, set)
	case *ssa.Extract:
		v := ex.val(fr, st, x.Tuple)
		tt := x.Tuple.Type().(*types.Tuple)
		k := 0
		for i := 0; i < x.Index; i++ {
			k += len(leaves(tt.At(i).Type()))
		}
		n := len(leaves(tt.At(x.Index).Type()))
		if k+n > len(v.L) {
			unsup("extract of %s", x.Tuple)
		}
		set(Val{T: x.Type(), L: v.L[k : k+n]})
	case *ssa.Range:
		ex.rangeInit(fr, st, x, set)
	case *ssa.Next:
		ex.next(fr, st, x, set)
	case *ssa.MakeClosure:
		c := &closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.free = append(c.free, ex.val(fr, st, b))
		}
		set(Val{T: x.Type(), L: []*Term{Num(1)}, fn: c})
	case *ssa.Defer:
		fn, args := ex.evalCall(fr, st, &x.Call)
		if !x.Call.IsInvoke() && fn.fn == nil {
			if sc := x.Call.StaticCallee(); sc != nil {
				fn.fn = &closure{fn: sc}
			}
		}
		fr.defers = append(fr.defers, deferred{call: x.Call, args: args, fn: fn, in: x})
	case *ssa.Go:
		ex.goStmt(fr, st, x)
	default:
		unsup("instruction %s (%T) in %s", in, in, ex.fnName(fr.fn))
	}
}

// goStmt: a started goroutine is outside the sequential contracts; it is admitted only where
// the contract under verification says so (opt goroutines).
func (ex *Exec) goStmt(fr *Frame, st *State, x *ssa.Go) {
	if ex.con != nil && ex.con.opts["goroutines"] != "" {
		ex.assumptions["goroutines started in "+ex.fnName(fr.fn)+" are not interleaved with its body"] = true
		return
	}
	unsup("go statement in %s", ex.fnName(fr.fn))
}

func isExternalGlobal(g *ssa.Global) bool {
	return g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), "gotor")
}

func (ex *Exec) fieldAddr(et types.Type, i int, p Val) Val {
	s := et.Underlying().(*types.Struct)
	f := s.Field(i)
	t := types.NewPointer(f.Type())
	if isExternal(et) {
		// fields of external structs: an opaque memory of their own
		return Val{T: t, pl: &place{key: structKey(et) + "." + f.Name(), obj: p.L[0], idx: p.L[1], elem: f.Type()}, L: []*Term{p.L[0], p.L[1]}}
	}
	if isStruct(f.Type()) {
		return Val{T: t, L: []*Term{Add(p.L[0], Num(subOffset(s, i))), p.L[1]}}
	}
	key := structKey(et) + "." + f.Name()
	for _, l := range leaves(f.Type()) {
		ex.w.keyLeaf[key+l.path] = l
	}
	return Val{T: t, pl: &place{key: key, obj: p.L[0], idx: p.L[1], elem: f.Type()}, L: []*Term{p.L[0], p.L[1]}}
}

var extErrTags = map[string]int64{}

func extGlobalVal(g *ssa.Global) (Val, bool) {
	t := deref(g.Type())
	if _, ok := types.Unalias(t).Underlying().(*types.Interface); ok {
		n := g.String()
		if _, ok := extErrTags[n]; !ok {
			h := int64(0)
			for _, c := range n {
				h = (h*131 + int64(c)) % 1000000007
			}
			extErrTags[n] = -1 - h
		}
		return Val{T: t, L: []*Term{App("I_other", SIf, Num(extErrTags[n]))}}, true
	}
	if isStruct(t) || len(leaves(t)) == 0 {
		v := Val{T: t}
		for _, l := range leaves(t) {
			v.L = append(v.L, Sym("ext:"+g.String()+l.path, l.sort))
		}
		return v, true
	}
	return Val{}, false
}

func (ex *Exec) unop(fr *Frame, st *State, x *ssa.UnOp, set func(Val)) {
	if x.Op == token.MUL {
		if g, ok := x.X.(*ssa.Global); ok && isExternalGlobal(g) {
			if v, ok := extGlobalVal(g); ok {
				set(v)
				return
			}
			unsup("external variable %s", g)
		}
		if g, ok := x.X.(*ssa.Global); ok && g.Name() == "init$guard" {
			set(Val{T: x.Type(), L: []*Term{False}})
			return
		}
		p := ex.val(fr, st, x.X)
		if !ex.nonNil(fr, st, p, x) {
			return
		}
		v := ex.load(st, p)
		v.T = x.Type()
		set(v)
		return
	}
	v := ex.val(fr, st, x.X)
	switch x.Op {
	case token.NOT:
		set(Val{T: x.Type(), L: []*Term{Not(v.L[0])}})
	case token.SUB:
		if v.L[0].sort == SReal {
			set(Val{T: x.Type(), L: []*Term{App("-", SReal, v.L[0])}})
			return
		}
		b := types.Unalias(x.Type()).Underlying().(*types.Basic)
		set(Val{T: x.Type(), L: []*Term{wrapInt(Neg(v.L[0]), b)}})
	case token.XOR:
		b := types.Unalias(x.Type()).Underlying().(*types.Basic)
		n, signed := bitsOf(b)
		if signed {
			set(Val{T: x.Type(), L: []*Term{Sub(Num(-1), v.L[0])}})
			return
		}
		r := Sub(NumB(pow2(n)), Add(v.L[0], Num(1)))
		if n <= 16 {
			for k := 0; k < n; k++ {
				st.assume(Eq(B8(r, k), Sub(Num(1), B8(v.L[0], k))))
			}
		}
		set(Val{T: x.Type(), L: []*Term{r}})
	case token.ARROW:
		ex.recvChan(fr, st, x, v, set)
	default:
		unsup("unary %s", x.Op)
	}
}

// recvChan: a received value is arbitrary.
func (ex *Exec) recvChan(fr *Frame, st *State, x *ssa.UnOp, v Val, set func(Val)) {
	et := types.Unalias(x.X.Type()).Underlying().(*types.Chan).Elem()
	r := Val{T: x.Type(), L: ex.symVal(st, "recv", et).L}
	if x.CommaOk {
		r.L = append(r.L, ex.fresh(st, "recvok", SBool))
	}
	ex.assumptions["channel receives are not ordered with other goroutines"] = true
	set(r)
}

func (ex *Exec) newMap(st *State, t types.Type) Val {
	u := types.Unalias(t).Underlying().(*types.Map)
	obj := st.alloc
	st.alloc = Add(st.alloc, Num(blockUnit))
	ks := mapKeySort(u)
	b := mapBase(u)
	ds := arrSort(ks, SBool)
	st.mem[b+".dom"] = Store(st.get(b+".dom", ds), obj, ConstArr(ds, False))
	st.mem[b+".len"] = Store(st.get(b+".len", SInt), obj, Num(0))
	if b == "map:string:iface" {
		st.assume(Not(Select(ex.frozen(st, b), obj)))
	}
	return Val{T: t, L: []*Term{obj}}
}

func (ex *Exec) lookup(fr *Frame, st *State, x *ssa.Lookup, set func(Val)) {
	m := ex.val(fr, st, x.X)
	k := ex.val(fr, st, x.Index)
	if b, ok := types.Unalias(x.X.Type()).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if !ex.check(fr, st, And(Le(Num(0), k.L[0]), Lt(k.L[0], SLen(m.L[0]))), "index out of range", x) {
			return
		}
		set(Val{T: x.Type(), L: []*Term{SAt(m.L[0], k.L[0])}})
		return
	}
	u := types.Unalias(x.X.Type()).Underlying().(*types.Map)
	ex.nilKey(st, u, k)
	key := mapKey(u, k)
	has := st.mapHas(u, m.L[0], key)
	v := Val{T: u.Elem()}
	if has != False {
		raw := st.mapGet(u, m.L[0], key)
		for i, l := range leaves(u.Elem()) {
			ex.w.keyLeaf[mapBase(u)+".val"+l.path] = l
			if l.kind == "obj" {
				ex.birthFactsIf(st, has, raw.L[i])
			}
		}
		st2 := &State{mem: st.mem, alloc: st.alloc, have: map[*Term]bool{}}
		ex.typeFactsAt(st2, u.Elem(), raw.L, st.alloc)
		for _, f := range st2.factSlice() {
			st.assume(Imp(has, f))
		}
		st.assume(Imp(has, Le(Num(1), st.mapLen(u, m.L[0]))))
		for i, l := range leaves(u.Elem()) {
			v.L = append(v.L, Ite(has, raw.L[i], zeroLeaf(l)))
		}
	} else {
		v = zeroVal(u.Elem())
	}
	if x.CommaOk {
		set(Val{T: x.Type(), L: append(append([]*Term{}, v.L...), has)})
		return
	}
	v.T = x.Type()
	set(v)
}

// birthFactsIf: birth facts hold only of present keys (absent entries are unconstrained).
func (ex *Exec) birthFactsIf(st *State, has, t *Term) {
	st2 := &State{mem: st.mem, alloc: st.alloc, have: map[*Term]bool{}}
	ex.birthFacts(st2, t)
	for _, f := range st2.factSlice() {
		st.assume(Imp(has, f))
	}
}

func (ex *Exec) nilKey(st *State, u *types.Map, k Val) {
	if k.pl != nil {
		unsup("field address as a map key")
	}
}

func (ex *Exec) mapUpdate(fr *Frame, st *State, m, k, v Val, in ssa.Instruction) {
	u := types.Unalias(m.T).Underlying().(*types.Map)
	if !ex.check(fr, st, Ne(m.L[0], Num(0)), "assignment to nil map", in) {
		return
	}
	if v.pl != nil || v.fn != nil {
		unsup("map value is a field address or function")
	}
	key := mapKey(u, k)
	for _, it := range ex.mapItems(u, m.L[0]) {
		ex.checkWriteItem(fr, st, it, in)
	}
	b := mapBase(u)
	if b == "map:string:iface" {
		ex.checkFrozen(fr, st, "map:string:iface", m.L[0], in)
	}
	had := Select(st.mapDom(u, m.L[0]), key)
	ks := mapKeySort(u)
	ln := st.get(b+".len", SInt)
	st.assume(Le(Num(0), Select(ln, m.L[0])))
	st.mem[b+".len"] = Store(ln, m.L[0], Ite(had, Select(ln, m.L[0]), Add(Select(ln, m.L[0]), Num(1))))
	dom := st.get(b+".dom", arrSort(ks, SBool))
	st.mem[b+".dom"] = Store(dom, m.L[0], Store(Select(dom, m.L[0]), key, True))
	for i, l := range leaves(u.Elem()) {
		ex.w.keyLeaf[b+".val"+l.path] = l
		kk := b + ".val" + l.path
		mm := st.get(kk, arrSort(ks, l.sort))
		st.mem[kk] = Store(mm, m.L[0], Store(Select(mm, m.L[0]), key, v.L[i]))
	}
}

func (ex *Exec) slice(fr *Frame, st *State, x *ssa.Slice, set func(Val)) {
	v := ex.val(fr, st, x.X)
	get := func(y ssa.Value) *Term {
		if y == nil {
			return nil
		}
		return ex.val(fr, st, y).L[0]
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = Num(0)
	}
	switch u := types.Unalias(x.X.Type()).Underlying().(type) {
	case *types.Basic:
		n := SLen(v.L[0])
		if hi == nil {
			hi = n
		}
		if !ex.check(fr, st, And(Le(Num(0), lo), Le(lo, hi), Le(hi, n)), "slice bounds out of range", x) {
			return
		}
		set(Val{T: x.Type(), L: []*Term{SSub(v.L[0], lo, hi)}})
	case *types.Slice:
		if hi == nil {
			hi = v.L[2]
		}
		lim := v.L[3]
		if mx != nil {
			lim = mx
		}
		conds := []*Term{Le(Num(0), lo), Le(lo, hi), Le(hi, lim)}
		if mx != nil {
			conds = append(conds, Le(mx, v.L[3]))
		}
		if x.High == nil && mx == nil {
			conds = []*Term{Le(Num(0), lo), Le(lo, hi)}
		}
		if !ex.check(fr, st, And(conds...), "slice bounds out of range", x) {
			return
		}
		set(Val{T: x.Type(), L: []*Term{v.L[0], Add(v.L[1], lo), Sub(hi, lo), Sub(lim, lo)}})
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		if !ex.nonNil(fr, st, v, x) {
			return
		}
		n := Num(a.Len())
		if hi == nil {
			hi = n
		}
		lim := n
		if mx != nil {
			lim = mx
		}
		if !ex.check(fr, st, And(Le(Num(0), lo), Le(lo, hi), Le(hi, lim), Le(lim, n)), "slice bounds out of range", x) {
			return
		}
		set(Val{T: x.Type(), L: []*Term{v.L[0], Add(v.L[1], lo), Sub(hi, lo), Sub(lim, lo)}})
	default:
		unsup("slice of %s", typeName(x.X.Type()))
	}
}

// bytesOf makes a new byte slice with the contents of a string.
func (ex *Exec) bytesOf(st *State, s *Term, t types.Type) Val {
	obj := st.alloc
	st.alloc = Add(st.alloc, Num(blockUnit))
	n := SLen(s)
	inner := arrSort(SInt, SInt)
	c := ex.freshR(st, "bcap", SInt, bigZero, maxLen)
	st.assume(Le(n, c))
	st.mem["e:uint8"] = Store(st.get("e:uint8", inner), obj, App("sarr", inner, s))
	return Val{T: t, L: []*Term{obj, Num(0), n, c}}
}

func isByteSlice(t types.Type) bool {
	s, ok := types.Unalias(t).Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func (st *State) strOf(v Val) *Term {
	m := st.get("e:uint8", arrSort(SInt, SInt))
	return SOf(Select(m, v.L[0]), v.L[1], v.L[2])
}

func (ex *Exec) convert(fr *Frame, st *State, v Val, from, to types.Type, in ssa.Instruction) Val {
	fb, fok := types.Unalias(from).Underlying().(*types.Basic)
	tb, tok := types.Unalias(to).Underlying().(*types.Basic)
	switch {
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		return Val{T: to, L: []*Term{ex.wrapAt(st, v.L[0], tb)}}
	case fok && tok && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return Val{T: to, L: v.L}
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
		x := v.L[0]
		lim := pow2(53)
		if tb.Kind() == types.Float32 {
			lim = pow2(24)
		}
		r := App("to_real", SReal, x)
		ok := And(Le(Neg(NumB(lim)), x), Le(x, NumB(lim)))
		if ok != True {
			r = Ite(ok, r, ex.fresh(st, "inexact", SReal))
		}
		return Val{T: to, L: []*Term{r}}
	case fok && tok && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		if tb.Kind() == types.Float32 && fb.Kind() != types.Float32 {
			return Val{T: to, L: []*Term{ex.fresh(st, "f32", SReal)}}
		}
		return Val{T: to, L: v.L}
	case fok && tok && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
		lo, hi, _ := intRange(tb)
		x := v.L[0]
		z := App("0.0", SReal)
		t := App("to_int", SInt, x)
		tn := Neg(App("to_int", SInt, App("-", SReal, x)))
		r := Ite(App("<=", SBool, z, x), t, tn)
		f := ex.freshR(st, "fconv", SInt, lo, hi)
		st.assume(Imp(And(Le(NumB(lo), r), Le(r, NumB(hi))), Eq(f, r)))
		return Val{T: to, L: []*Term{f}}
	case fok && fb.Info()&types.IsString != 0 && isByteSlice(to):
		return ex.bytesOf(st, v.L[0], to)
	case tok && tb.Info()&types.IsString != 0 && isByteSlice(from):
		return Val{T: to, L: []*Term{st.strOf(v)}}
	case tok && tb.Info()&types.IsString != 0 && fok && fb.Info()&types.IsInteger != 0:
		x := v.L[0]
		s := ex.fresh(st, "runestr", SStr)
		st.assume(Imp(And(Le(Num(0), x), Lt(x, Num(128))), Eq(s, SChr(x))))
		st.assume(Le(SLen(s), Num(4)))
		st.assume(Le(Num(1), SLen(s)))
		return Val{T: to, L: []*Term{s}}
	}
	if len(leaves(from)) == len(leaves(to)) && types.Identical(from.Underlying(), to.Underlying()) {
		return Val{T: to, L: v.L}
	}
	unsup("conversion %s to %s", typeName(from), typeName(to))
	return Val{}
}

func realCmp(op string, a, b *Term) *Term { return App(op, SBool, a, b) }

func (ex *Exec) binop(fr *Frame, st *State, x *ssa.BinOp, set func(Val)) {
	a, b := ex.val(fr, st, x.X), ex.val(fr, st, x.Y)
	one := func(t *Term) { set(Val{T: x.Type(), L: []*Term{t}}) }
	switch x.Op {
	case token.EQL, token.NEQ:
		r := ex.eqGo(x.X, x.Y, a, b)
		if x.Op == token.NEQ {
			r = Not(r)
		}
		one(r)
		return
	}
	bt, ok := types.Unalias(x.X.Type()).Underlying().(*types.Basic)
	if !ok {
		unsup("operator %s on %s", x.Op, typeName(x.X.Type()))
	}
	p, q := a.L[0], b.L[0]
	switch {
	case bt.Info()&types.IsString != 0:
		switch x.Op {
		case token.ADD:
			r := SCat(p, q)
			st.assume(Le(SLen(r), NumB(maxLen)))
			one(r)
		case token.LSS:
			one(App("strlt", SBool, p, q))
		case token.GTR:
			one(App("strlt", SBool, q, p))
		case token.LEQ:
			one(Not(App("strlt", SBool, q, p)))
		case token.GEQ:
			one(Not(App("strlt", SBool, p, q)))
		default:
			unsup("string operator %s", x.Op)
		}
	case bt.Info()&types.IsFloat != 0:
		switch x.Op {
		case token.ADD:
			one(App("+", SReal, p, q))
		case token.SUB:
			one(App("-", SReal, p, q))
		case token.MUL:
			one(App("*", SReal, p, q))
		case token.QUO:
			z := App("0.0", SReal)
			one(Ite(Eq(q, z), ex.fresh(st, "finf", SReal), App("/", SReal, p, q)))
		case token.LSS:
			one(realCmp("<", p, q))
		case token.LEQ:
			one(realCmp("<=", p, q))
		case token.GTR:
			one(realCmp("<", q, p))
		case token.GEQ:
			one(realCmp("<=", q, p))
		default:
			unsup("float operator %s", x.Op)
		}
		ex.assumptions["floating-point arithmetic is exact (treated as real arithmetic)"] = true
	case bt.Info()&types.IsBoolean != 0:
		switch x.Op {
		case token.AND, token.LAND:
			one(And(p, q))
		case token.OR, token.LOR:
			one(Or(p, q))
		default:
			unsup("boolean operator %s", x.Op)
		}
	case bt.Info()&types.IsInteger != 0:
		rt := types.Unalias(x.Type()).Underlying().(*types.Basic)
		switch x.Op {
		case token.ADD:
			one(ex.wrapAt(st, Add(p, q), rt))
		case token.SUB:
			one(ex.wrapAt(st, Sub(p, q), rt))
		case token.MUL:
			one(ex.wrapAt(st, Mul(p, q), rt))
		case token.QUO, token.REM:
			if !ex.check(fr, st, Ne(q, Num(0)), "division by zero", x) {
				return
			}
			_, signed := bitsOf(rt)
			pp, qq := p, q
			_ = signed
			if q.num == nil {
				// tdiv is axiomatised for positive divisors only; other divisors stay opaque
				d, m := tdivT(pp, qq), tmodT(pp, qq)
				pos := Lt(Num(0), q)
				st.assume(Imp(pos, Eq(pp, Add(Mul(q, d), m))))
				st.assume(Imp(And(pos, Le(Num(0), p)), And(Le(Num(0), m), Lt(m, q), Le(Num(0), d), Le(d, p))))
				st.assume(Imp(And(pos, Lt(p, Num(0))), And(Le(m, Num(0)), Lt(Neg(q), m), Le(d, Num(0)), Le(p, d))))
				st.assume(Imp(And(Lt(Neg(q), p), Lt(p, q)), And(Eq(d, Num(0)), Eq(m, p))))
				st.assume(Imp(Eq(q, Num(1)), And(Eq(d, p), Eq(m, Num(0)))))
			}
			if x.Op == token.QUO {
				r := tdivT(pp, qq)
				one(ex.wrapAt(st, ex.rangeOf(r, p, q, rt), rt))
			} else {
				r := tmodT(pp, qq)
				if r.op == "tmod" && r.lo == nil {
					lo, hi, _ := intRange(rt)
					r.lo, r.hi = lo, hi
				}
				one(r)
			}
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			one(ex.bitop(st, x.Op, p, q, rt))
		case token.SHL, token.SHR:
			if yb, ok := types.Unalias(x.Y.Type()).Underlying().(*types.Basic); ok {
				if _, signed := bitsOf(yb); signed && !(q.lo != nil && q.lo.Sign() >= 0) {
					if !ex.check(fr, st, Le(Num(0), q), "negative shift", x) {
						return
					}
				}
			}
			one(ex.shift(st, x.Op, p, q, rt))
		case token.LSS:
			one(Lt(p, q))
		case token.LEQ:
			one(Le(p, q))
		case token.GTR:
			one(Lt(q, p))
		case token.GEQ:
			one(Le(q, p))
		default:
			unsup("integer operator %s", x.Op)
		}
	default:
		unsup("operator %s on %s", x.Op, typeName(x.X.Type()))
	}
}

// rangeOf notes the range of a quotient of values of an integer type.
func (ex *Exec) rangeOf(r, p, q *Term, b *types.Basic) *Term {
	if r.op == "tdiv" && r.lo == nil && r.hi == nil {
		lo, hi, _ := intRange(b)
		if lo.Sign() == 0 {
			r.lo, r.hi = lo, hi
		} else {
			// the only overflow is MinInt / -1
			r.lo = lo
			r.hi = pow2(hi.BitLen())
		}
	}
	return r
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (ex *Exec) eqGo(x, y ssa.Value, a, b Val) *Term {
	t := types.Unalias(x.Type()).Underlying()
	if isNilConst(y) || isNilConst(x) {
		v := a
		if isNilConst(x) {
			v = b
		}
		switch t.(type) {
		case *types.Pointer:
			if v.pl != nil {
				return False
			}
			return Eq(v.L[0], Num(0))
		case *types.Slice, *types.Map, *types.Chan, *types.Signature:
			return Eq(v.L[0], Num(0))
		}
	}
	if a.pl != nil || b.pl != nil {
		unsup("comparison of field addresses")
	}
	// an interface compared with a concrete value
	_, ia := t.(*types.Interface)
	_, ib := types.Unalias(y.Type()).Underlying().(*types.Interface)
	if ia != ib {
		unsup("mixed comparison")
	}
	if len(a.L) != len(b.L) {
		unsup("comparison of %s", typeName(x.Type()))
	}
	if isExternal(x.Type()) && isStruct(x.Type()) {
		unsup("comparison of %s", typeName(x.Type()))
	}
	var cs []*Term
	for i := range a.L {
		cs = append(cs, EqV(a.L[i], b.L[i]))
	}
	return And(cs...)
}

// ------------------------------------------------------------- map iteration

func (ex *Exec) rangeInit(fr *Frame, st *State, x *ssa.Range, set func(Val)) {
	m := ex.val(fr, st, x.X)
	u, ok := types.Unalias(x.X.Type()).Underlying().(*types.Map)
	if !ok {
		unsup("range over %s", typeName(x.X.Type()))
	}
	key := fmt.Sprintf("it:%s/%s", fr.site, x.Name())
	it := &mapIter{m: m, mt: u, pos: key, id: x.Name()}
	ks := mapKeySort(u)
	ds := arrSort(ks, SBool)
	z := Eq(m.L[0], Num(0))
	it.dom = Ite(z, ConstArr(ds, False), st.mapDom(u, m.L[0]))
	it.n = st.mapLen(u, m.L[0])
	it.ordT = ex.fresh(st, "ord", arrSort(SInt, ks))
	it.ordposT = ex.fresh(st, "ordpos", arrSort(ks, SInt))
	i, k := BoundVar("i", SInt), BoundVar("k", ks)
	oi := App("select", ks, it.ordT, i)
	pk := App("select", SInt, it.ordposT, k)
	dk := Select(it.dom, k)
	st.assume(Forall([]*Term{i}, Imp(And(Le(Num(0), i), Lt(i, it.n)), And(Select(it.dom, oi), Eq(App("select", SInt, it.ordposT, oi), i))), []*Term{oi}))
	pats := [][]*Term{{pk}}
	if dk.op == "select" {
		pats = append(pats, []*Term{dk})
	}
	st.assume(Forall([]*Term{k}, Imp(dk, And(Le(Num(0), pk), Lt(pk, it.n), Eq(App("select", ks, it.ordT, pk), k))), pats...))
	st.assume(Le(Num(0), it.n))
	st.mem[key] = Num(0)
	fr.env[x] = Val{T: x.Type(), it: it}
}

func (ex *Exec) next(fr *Frame, st *State, x *ssa.Next, set func(Val)) {
	v := ex.val(fr, st, x.Iter)
	it := v.it
	if it == nil || x.IsString {
		unsup("range over a string")
	}
	for f := fr; f != nil; f = f.parent {
		for i := len(f.loops) - 1; i >= 0; i-- {
			ex.loopWrite(f, f.loops[i], st, ModItem{key: it.pos, inner: SInt, ghost: true}, x)
		}
	}
	u := it.mt
	ds := arrSort(mapKeySort(u), SBool)
	cur := Ite(Eq(it.m.L[0], Num(0)), ConstArr(ds, False), st.mapDom(u, it.m.L[0]))
	if cur != it.dom {
		ex.oblige(st, "map-iteration", "the map is not changed while it is ranged over", ex.pos(x), Eq(cur, it.dom), nil)
		st.assume(Eq(cur, it.dom))
	}
	pos := st.mem[it.pos]
	ok := Lt(pos, it.n)
	k := Select(it.ordT, pos)
	res := Val{T: x.Type(), L: []*Term{ok}}
	tt := x.Type().(*types.Tuple)
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	if len(leaves(kt)) > 0 || kt != types.Typ[types.Invalid] {
		kl := leaves(kt)
		if len(kl) == 1 {
			res.L = append(res.L, k)
			st2 := &State{mem: st.mem, alloc: st.alloc, have: map[*Term]bool{}}
			ex.typeFactsAt(st2, kt, []*Term{k}, st.alloc)
			for _, f := range st2.factSlice() {
				st.assume(Imp(ok, f))
			}
		} else if len(kl) == 2 {
			p0, p1 := App("pobj", SInt, k), App("pidx", SInt, k)
			p0.lo, p1.lo = bigZero, bigZero
			res.L = append(res.L, p0, p1)
			st.assume(Imp(ok, Lt(p0, st.alloc)))
		}
	}
	if vt != types.Typ[types.Invalid] {
		val := st.mapGet(u, it.m.L[0], k)
		for i, l := range leaves(u.Elem()) {
			ex.w.keyLeaf[mapBase(u)+".val"+l.path] = l
			if l.kind == "obj" {
				ex.birthFactsIf(st, ok, val.L[i])
			}
		}
		st2 := &State{mem: st.mem, alloc: st.alloc, have: map[*Term]bool{}}
		ex.typeFactsAt(st2, u.Elem(), val.L, st.alloc)
		for _, f := range st2.factSlice() {
			st.assume(Imp(ok, f))
		}
		res.L = append(res.L, val.L...)
	}
	st.assume(Imp(ok, Select(it.dom, k)))
	st.mem[it.pos] = Ite(ok, Add(pos, Num(1)), pos)
	fr.env[x] = res
}
