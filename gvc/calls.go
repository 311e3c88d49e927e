package main

// Calls: contracts, inlining, builtins, dynamic dispatch.

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type kont func(st *State, fr *Frame, res []Val)

func (ex *Exec) call(fr *Frame, st *State, in *ssa.Call, k kont) {
	cc := &in.Call
	fn, args := ex.evalCall(fr, st, cc)
	ex.callWith(fr, st, in, cc, fn, args, k)
}

func (ex *Exec) evalCall(fr *Frame, st *State, cc *ssa.CallCommon) (Val, []Val) {
	var args []Val
	var fn Val
	if cc.IsInvoke() {
		args = append(args, ex.val(fr, st, cc.Value))
	} else {
		fn = ex.val(fr, st, cc.Value)
	}
	for _, a := range cc.Args {
		args = append(args, ex.val(fr, st, a))
	}
	return fn, args
}

func (ex *Exec) callWith(fr *Frame, st *State, in ssa.Instruction, cc *ssa.CallCommon, fn Val, args []Val, k kont) {
	if cc.IsInvoke() {
		ex.invoke(fr, st, in, cc, args, k)
		return
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		ex.builtin(fr, st, in, b, cc, args, k)
		return
	}
	if fn.fn == nil {
		if sc := cc.StaticCallee(); sc != nil {
			fn.fn = &closure{fn: sc}
		}
	}
	if fn.fn == nil {
		unsup("call of an unknown function value in %s", ex.fnName(fr.fn))
	}
	ex.callFn(fr, st, in, fn.fn, args, k)
}

func originName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	n := shortName(f.String())
	if f.Signature.Recv() != nil && f.Signature.RecvTypeParams().Len() > 0 {
		// (*pkg.Type[T]).Method is named (*pkg.Type).Method
		if i, j := strings.IndexByte(n, '['), strings.LastIndex(n, "])"); i >= 0 && j > i {
			n = n[:i] + n[j+1:]
		}
	}
	return n
}

func inRepo(f *ssa.Function) bool {
	p := f.Pkg
	if p == nil && f.Origin() != nil {
		p = f.Origin().Pkg
	}
	if p == nil && f.Parent() != nil {
		return inRepo(f.Parent())
	}
	if p == nil {
		// wrappers and bound methods
		if f.Object() != nil && f.Object().Pkg() != nil {
			return strings.HasPrefix(f.Object().Pkg().Path(), "gotor")
		}
		return f.Synthetic != ""
	}
	return strings.HasPrefix(p.Pkg.Path(), "gotor")
}

func (ex *Exec) callFn(fr *Frame, st *State, in ssa.Instruction, c *closure, args []Val, k kont) {
	fn := c.fn
	if strings.HasPrefix(fn.Synthetic, "bound method wrapper") && len(c.free) == 1 {
		if o, ok := fn.Object().(*types.Func); ok {
			if m := ex.w.prog.FuncValue(o); m != nil {
				ex.callFn(fr, st, in, &closure{fn: m}, append([]Val{c.free[0]}, args...), k)
				return
			}
		}
	}
	name := originName(fn)
	if fn.Synthetic == "package initializer" {
		k(st, fr, nil) // another package: its variables are not ours
		return
	}
	if con := ex.specs.contracts[name]; con != nil && len(c.free) == 0 && con.opts["inline"] == "" && !con.dropped && con.relevant(ex.prop) {
		ex.contractCall(fr, st, in, fn, con, args, k)
		return
	}
	if m, ok := externs[fn.String()]; ok {
		ex.externs[fn.String()] = true
		m(&xcall{ex: ex, fr: fr, st: st, in: in, fn: fn, args: args, k: k})
		return
	}
	if o := fn.Origin(); o != nil {
		if m, ok := externs[o.String()]; ok {
			ex.externs[o.String()] = true
			m(&xcall{ex: ex, fr: fr, st: st, in: in, fn: fn, args: args, k: k})
			return
		}
	}
	if !inRepo(fn) && pureExternal(fn) {
		modelPure(&xcall{ex: ex, fr: fr, st: st, in: in, fn: fn, args: args, k: k})
		return
	}
	if !inRepo(fn) {
		unsup("call of %s, which has neither a contract nor a model", fn.String())
	}
	if len(fn.Blocks) == 0 {
		unsup("call of %s, which has no body", fn.String())
	}
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			unsup("recursive call of %s without a contract", name)
		}
	}
	if fr.depth > 14 {
		unsup("calls nested too deeply at %s", name)
	}
	ex.inlined[name] = true
	nf := &Frame{fn: fn, env: map[ssa.Value]Val{}, parent: fr, depth: fr.depth + 1, free: c.free}
	nf.site = fmt.Sprintf("%s/%s@%s", fr.site, shortName(fn.String()), siteID(in))
	for i, p := range fn.Params {
		v := args[i]
		v.T = p.Type()
		nf.env[p] = v
	}
	if con := ex.specs.contracts[name]; con != nil && len(c.free) == 0 && len(con.params) == len(fn.Params) && (len(con.loops) > 0 || len(con.measures) > 0) {
		nf.con = con
		nf.conVars = map[string]Val{}
		nf.conPre = st.clone()
		for i, p := range fn.Params {
			nf.conVars[con.params[i]] = nf.env[p]
		}
		ex.tryLets(con, nf.conPre, nf.conVars)
	}
	nf.ret = func(st *State, parent *Frame, res []Val) { k(st, parent, res) }
	ex.runBlock(nf, st, fn.Blocks[0], nil)
}

func (ex *Exec) tryLets(con *Contract, st *State, vars map[string]Val) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(specErr); !ok {
				panic(r)
			}
		}
	}()
	ex.evalLets(con, st, vars)
}

func siteID(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	for i, x := range in.Block().Instrs {
		if x == in {
			return fmt.Sprintf("%d.%d", in.Block().Index, i)
		}
	}
	return "?"
}

// relevant: contracts may be limited to some properties
func (c *Contract) relevant(prop string) bool {
	o, ok := c.opts["only"]
	if !ok || prop == "" {
		return true
	}
	for _, p := range strings.Fields(o) {
		if p == prop {
			return true
		}
	}
	return false
}

// ------------------------------------------------------------- contracts

func (ex *Exec) bindParams(con *Contract, args []Val) map[string]Val {
	if len(con.params) != len(args) {
		specPanic("contract of %s has %d parameters, the function has %d", con.name, len(con.params), len(args))
	}
	vars := map[string]Val{}
	for i, n := range con.params {
		vars[n] = args[i]
	}
	return vars
}

func (ex *Exec) evalLets(con *Contract, st *State, vars map[string]Val) {
	for i, c := range con.lets {
		env := &Env{ex: ex, st: st, old: st, vars: vars}
		vars[con.letNames[i]] = env.Eval(c.expr)
	}
}

func (ex *Exec) contractCall(fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, con *Contract, args []Val, k kont) {
	for i := range args {
		if i < len(fn.Params) {
			args[i].T = fn.Params[i].Type()
		}
	}
	ex.contractCallSig(fr, st, in, fn, fn.Signature, con, args, k)
}

// contractCallSig: fn is nil for a method of an interface (always trusted).
func (ex *Exec) contractCallSig(fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, sig *types.Signature, con *Contract, args []Val, k kont) {
	ex.callees[con.name] = true
	for i := range args {
		if args[i].pl != nil {
			unsup("address of a field passed to %s", con.name)
		}
	}
	vars := ex.bindParams(con, args)
	pre := st.clone()
	ex.evalLets(con, pre, vars)
	env := &Env{ex: ex, st: pre, old: pre, vars: vars}
	if fn != nil && con.needsRecv(fn) {
		ex.check(fr, st, Ne(args[0].L[0], Num(0)), "nil receiver of "+con.name, in)
	}
	for i, c := range con.requires {
		if !c.hasTag(ex.prop) {
			continue
		}
		g := env.Bool(c.expr)
		for _, gg := range splitGoal(g) {
			ex.oblige(st, "requires", fmt.Sprintf("%s #%d: %s", con.name, i+1, c.text), ex.pos(in), gg, nil)
			st.assume(gg)
		}
	}
	// termination of recursion
	if fn != nil && ex.con != nil && ex.w.recursive(ex.fn, fn) && !con.trusted && !con.diverges && !ex.con.diverges {
		if con.decr == nil || ex.con.decr == nil {
			ex.oblige(st, "termination", "recursive call of "+con.name+" without a measure", ex.pos(in), False, nil)
		} else {
			mine := (&Env{ex: ex, st: ex.pre, old: ex.pre, vars: ex.vars}).Int(ex.con.decr.expr)
			its := env.Int(con.decr.expr)
			ex.oblige(st, "termination", "recursive call of "+con.name, ex.pos(in), And(Le(Num(0), its), Lt(its, mine)), nil)
		}
	}
	// frame
	items := ex.modItems(con, env)
	for _, it := range items {
		ex.checkWriteItem(fr, st, it, in)
		if !it.ghost && it.obj != nil {
			ex.checkFrozenItem(fr, st, it, in)
		}
	}
	// panics
	if con.mayPanic {
		var pc *Term = True
		if len(con.panics) > 0 {
			var ts []*Term
			for _, c := range con.panics {
				ts = append(ts, env.Bool(c.expr))
			}
			pc = Or(ts...)
		}
		if ex.recovering(fr) {
			st2 := st.clone()
			st2.assume(pc)
			if !st2.dead {
				for _, it := range items {
					ex.havocItem(st2, it, con.name)
				}
				st2.alloc = Add(st2.alloc, ex.freshR(st2, "dalloc", SInt, bigZero, nil))
				ex.unwind(fr.cloneChain(), st2)
			}
		} else if ex.con != nil && ex.con.mayPanic && len(ex.con.panics) == 0 {
			// passes on
		} else {
			goal := Not(pc)
			if ex.con != nil && ex.con.mayPanic {
				goal = Or(append([]*Term{goal}, ex.panicConds()...)...)
			}
			ex.oblige(st, "no-panic/call", con.name+" may panic", ex.pos(in), goal, nil)
			if len(con.panics) > 0 {
				st.assume(Not(pc))
			}
		}
	}
	st.alloc = Add(st.alloc, ex.freshR(st, "dalloc", SInt, bigZero, nil))
	for _, it := range items {
		ex.havocItem(st, it, con.name)
	}
	if len(items) > 0 {
		for _, g := range ex.specs.ginv {
			if g.hasTag(ex.prop) {
				st.assume((&Env{ex: ex, st: st, old: st, vars: map[string]Val{}}).Bool(g.expr))
			}
		}
	}
	// what the callee may have boxed must not change any more
	boxes := false
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		for _, l := range leaves(t) {
			if l.sort == SIf && typeName(t) != "error" {
				boxes = true
			}
		}
	}
	if boxes {
		for _, a := range args {
			switch boxKind(a.T) {
			case "map":
				ex.freeze(st, "map:string:iface", a.L[0])
			case "list":
				ex.freeze(st, "e:iface", a.L[0])
			}
		}
	}
	// results
	var res []Val
	rs := sig.Results()
	pvars := map[string]Val{}
	for n, v := range vars {
		pvars[n] = v
	}
	for i := 0; i < rs.Len(); i++ {
		nm := fmt.Sprintf("r%d", i)
		if i < len(con.results) {
			nm = con.results[i]
		}
		v := ex.symVal(st, con.shortBase()+"."+nm, rs.At(i).Type())
		res = append(res, v)
		if i < len(con.results) {
			pvars[con.results[i]] = v
		}
	}
	penv := &Env{ex: ex, st: st, old: pre, vars: pvars}
	var posts []*Term
	for _, c := range con.ensures {
		if !c.hasTag(ex.prop) {
			continue
		}
		posts = append(posts, penv.Bool(c.expr))
	}
	sub := definedResults(res, posts)
	if len(sub) > 0 {
		for i, v := range res {
			if v.pl != nil || v.it != nil || v.fn != nil {
				continue
			}
			L := append([]*Term{}, v.L...)
			for j, l := range L {
				if t, ok := sub[l]; ok {
					if l.lo != nil {
						st.assume(Le(NumB(l.lo), t))
					}
					if l.hi != nil {
						st.assume(Le(t, NumB(l.hi)))
					}
					L[j] = t
				}
			}
			res[i].L = L
		}
	}
	for _, p := range posts {
		st.assume(p)
		if len(sub) > 0 {
			st.assume(Subst(p, sub))
		}
	}
	if st.dead {
		ex.endPath()
		return
	}
	k(st, fr, res)
}

// definedResults: results that a postcondition equates with a term over other values.
func definedResults(res []Val, posts []*Term) map[*Term]*Term {
	rs := map[*Term]bool{}
	for _, v := range res {
		for _, l := range v.L {
			if len(l.args) == 0 && l.num == nil {
				rs[l] = true
			}
		}
	}
	sub := map[*Term]*Term{}
	free := func(t *Term) bool {
		for r := range rs {
			if t.contains(r) {
				return false
			}
		}
		return true
	}
	var walk func(p *Term)
	walk = func(p *Term) {
		switch p.op {
		case "and":
			for _, a := range p.args {
				walk(a)
			}
		case "=":
			a, b := p.args[0], p.args[1]
			if a.sort != SInt {
				for i := 0; i < 2; i++ {
					if rs[a] && sub[a] == nil && free(b) {
						sub[a] = b
						return
					}
					a, b = b, a
				}
				return
			}
			d := linOf(Sub(a, b))
			var ats []*Term
			for r := range d.atoms {
				ats = append(ats, r)
			}
			sort.Slice(ats, func(i, j int) bool { return ats[i].id < ats[j].id })
			for _, r := range ats {
				k := d.atoms[r]
				if !rs[r] || sub[r] != nil || !k.IsInt64() || k.Int64() != 1 && k.Int64() != -1 {
					continue
				}
				rest := Sub(Sub(a, b), Mul(NumB(k), r)) // k*r + rest = 0
				if k.Int64() == 1 {
					rest = Neg(rest)
				}
				if free(rest) {
					sub[r] = rest
					return
				}
			}
		}
	}
	for _, p := range posts {
		walk(p)
	}
	return sub
}

// needsRecv: a pointer receiver must not be nil (implicit precondition).
func (c *Contract) needsRecv(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	if r == nil || c.opts["nilrecv"] != "" {
		return false
	}
	_, ok := types.Unalias(r.Type()).Underlying().(*types.Pointer)
	return ok
}

func (c *Contract) shortBase() string {
	n := c.name
	if i := strings.LastIndexByte(n, '.'); i >= 0 {
		n = n[i+1:]
	}
	return n
}

func (ex *Exec) checkFrozenItem(fr *Frame, st *State, it ModItem, in ssa.Instruction) {
	if it.key == "e:iface" || strings.HasPrefix(it.key, "map:string:iface") {
		k := it.key
		if strings.HasPrefix(k, "map:") {
			k = "map:string:iface"
		}
		ex.checkFrozen(fr, st, k, it.obj, in)
	}
}

// modItems evaluates the modifies clauses.
func (ex *Exec) modItems(con *Contract, env *Env) []ModItem {
	var out []ModItem
	for _, c := range con.modifies {
		if !c.hasTag(ex.prop) {
			continue
		}
		for _, a := range c.expr.(*ast.CallExpr).Args {
			out = append(out, ex.modItem(env, a)...)
		}
	}
	return out
}

func (ex *Exec) memItems(t types.Type, obj, idx *Term) []ModItem {
	var out []ModItem
	for _, m := range memLayout(t) {
		ex.w.keyLeaf[m.key] = m.leaf
		out = append(out, ModItem{key: m.key, inner: arrSort(SInt, m.leaf.sort), obj: Add(obj, Num(m.sub)), idx: idx})
	}
	return out
}

func (ex *Exec) modItem(env *Env, a ast.Expr) []ModItem {
	switch x := a.(type) {
	case *ast.ParenExpr:
		return ex.modItem(env, x.X)
	case *ast.Ident:
		if _, ok := env.vars[x.Name]; !ok {
			if s, ok := ex.specs.ghosts[x.Name]; ok {
				return []ModItem{{key: "g:" + x.Name, inner: s, ghost: true}}
			}
		}
		specPanic("modifies %s: not a location", x.Name)
	case *ast.StarExpr:
		v := env.Eval(x.X)
		pt := types.Unalias(v.T).Underlying().(*types.Pointer)
		return ex.memItems(pt.Elem(), v.L[0], v.L[1])
	case *ast.SelectorExpr:
		v := env.Eval(x.X)
		pt, ok := types.Unalias(v.T).Underlying().(*types.Pointer)
		if !ok {
			specPanic("modifies %s: not a field of a pointer", exprStr(a))
		}
		st := pt.Elem().Underlying().(*types.Struct)
		if sl, ok := specialStruct[typeName(types.Unalias(pt.Elem()))]; ok {
			for _, l := range sl {
				if l.path == x.Sel.Name {
					return []ModItem{{key: structKey(pt.Elem()) + "." + l.path, inner: arrSort(SInt, l.sort), obj: v.L[0], idx: v.L[1]}}
				}
			}
		}
		i := fieldIndex(st, x.Sel.Name)
		if i < 0 {
			for j := 0; j < st.NumFields(); j++ {
				if st.Field(j).Embedded() && hasField(st.Field(j).Type(), x.Sel.Name) && isStruct(st.Field(j).Type()) {
					e2 := env.with("%emb", Val{T: types.NewPointer(st.Field(j).Type()), L: []*Term{Add(v.L[0], Num(subOffset(st, j))), v.L[1]}})
					return ex.modItem(e2, &ast.SelectorExpr{X: &ast.Ident{Name: "%emb"}, Sel: x.Sel})
				}
			}
			specPanic("modifies: no field %s", x.Sel.Name)
		}
		f := st.Field(i)
		if isStruct(f.Type()) {
			return ex.memItems(f.Type(), Add(v.L[0], Num(subOffset(st, i))), v.L[1])
		}
		var out []ModItem
		for _, l := range leaves(f.Type()) {
			k := structKey(pt.Elem()) + "." + f.Name() + l.path
			ex.w.keyLeaf[k] = l
			out = append(out, ModItem{key: k, inner: arrSort(SInt, l.sort), obj: v.L[0], idx: v.L[1]})
		}
		return out
	case *ast.IndexExpr:
		v := env.Eval(x.X)
		u := types.Unalias(v.T).Underlying().(*types.Slice)
		i := env.Int(x.Index)
		return ex.memItems(u.Elem(), v.L[0], Add(v.L[1], i))
	case *ast.CallExpr:
		id := x.Fun.(*ast.Ident).Name
		switch id {
		case "elems", "backing":
			v := env.Eval(x.Args[0])
			u := types.Unalias(v.T).Underlying().(*types.Slice)
			var out []ModItem
			for _, m := range ex.memItems(u.Elem(), v.L[0], nil) {
				if id == "elems" {
					m.lo, m.hi = v.L[1], Add(v.L[1], v.L[2])
				} else {
					m.lo, m.hi = v.L[1], Add(v.L[1], v.L[3])
				}
				out = append(out, m)
			}
			return out
		case "mapof":
			v := env.Eval(x.Args[0])
			u := types.Unalias(v.T).Underlying().(*types.Map)
			return ex.mapItems(u, v.L[0])
		case "every": // every("type", "field"): any object's field
			t := ex.typeArg(x.Args[0])
			st := t.Underlying().(*types.Struct)
			fn := strings.Trim(x.Args[1].(*ast.BasicLit).Value, "\"")
			i := fieldIndex(st, fn)
			var out []ModItem
			if i < 0 {
				specPanic("every: no field %s", fn)
			}
			for _, l := range leaves(st.Field(i).Type()) {
				k := structKey(t) + "." + fn + l.path
				ex.w.keyLeaf[k] = l
				out = append(out, ModItem{key: k, inner: arrSort(SInt, l.sort)})
			}
			return out
		}
		if id == "ite" {
			specPanic("modifies: ite not supported")
		}
		if fn, ok := ex.specs.fns[id]; ok && fn.macro {
			// a macro naming several locations: loc(a, b, ...)
			n := *env
			n.vars = map[string]Val{}
			for i, a := range x.Args {
				n.vars[fn.params[i]] = env.Eval(a)
			}
			if c, ok := fn.body.(*ast.CallExpr); ok {
				if fid, ok := c.Fun.(*ast.Ident); ok && fid.Name == "locs" {
					var out []ModItem
					for _, y := range c.Args {
						out = append(out, ex.modItem(&n, y)...)
					}
					return out
				}
			}
			return ex.modItem(&n, fn.body)
		}
	}
	specPanic("modifies %s: not a location", exprStr(a))
	return nil
}

func (ex *Exec) mapItems(u *types.Map, obj *Term) []ModItem {
	ks := mapKeySort(u)
	b := mapBase(u)
	out := []ModItem{{key: b + ".dom", inner: arrSort(ks, SBool), obj: obj}, {key: b + ".len", inner: SInt, obj: obj}}
	for _, l := range leaves(u.Elem()) {
		out = append(out, ModItem{key: b + ".val" + l.path, inner: arrSort(ks, l.sort), obj: obj})
	}
	return out
}

// ------------------------------------------------------------- interfaces

func (ex *Exec) invoke(fr *Frame, st *State, in ssa.Instruction, cc *ssa.CallCommon, args []Val, k kont) {
	recv := args[0]
	it := types.Unalias(cc.Value.Type())
	m := cc.Method
	if tp, ok := it.(*types.TypeParam); ok {
		// a method of an opaque key type: a pure function of the value
		nm := fmt.Sprintf("tpm_%s_%s", tp.Obj().Name(), m.Name())
		sg := m.Type().(*types.Signature)
		if sg.Results().Len() == 1 && len(leaves(sg.Results().At(0).Type())) == 1 {
			l := leaves(sg.Results().At(0).Type())[0]
			nm = "tp" + m.Name()
			DeclFun(nm, []string{"TP"}, l.sort)
			r := Val{T: sg.Results().At(0).Type(), L: []*Term{App(nm, l.sort, recv.L[0])}}
			ex.typeFacts(st, r)
			ex.externs["(type parameter)."+m.Name()] = true
			k(st, fr, []Val{r})
			return
		}
		unsup("method %s of a type parameter", nm)
	}
	x := recv.L[0]
	key := typeName(it) + "." + m.Name()
	if f, ok := invokeModels[key]; ok {
		ex.externs[key] = true
		if !ex.check(fr, st, Ne(x, NilI()), "nil interface", in) {
			ex.endPath()
			return
		}
		f(&xcall{ex: ex, fr: fr, st: st, in: in, args: args, k: k, sig: m.Type().(*types.Signature)})
		return
	}
	if con := ex.specs.contracts[key]; con != nil && con.trusted && con.relevant(ex.prop) {
		if !ex.check(fr, st, Ne(x, NilI()), "nil interface", in) {
			ex.endPath()
			return
		}
		ex.contractCallSig(fr, st, in, nil, m.Type().(*types.Signature), con, args, k)
		return
	}
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		unsup("invoke on %s", typeName(it))
	}
	if !ex.check(fr, st, Ne(x, NilI()), "nil interface", in) {
		ex.endPath()
		return
	}
	// candidates: types of the repository that are ever converted to an interface
	type alt struct {
		t  types.Type
		fn *ssa.Function
	}
	var alts []alt
	for _, t := range ex.w.boxed {
		if !types.Implements(t, iface) || isExternalPtr(t) {
			continue
		}
		fn := ex.w.prog.LookupMethod(t, m.Pkg(), m.Name())
		if fn == nil {
			continue
		}
		alts = append(alts, alt{t, fn})
	}
	if len(alts) == 0 {
		unsup("no implementation of %s", key)
	}
	var other []*Term
	for _, a := range alts {
		c := IsIface(a.t, x)
		other = append(other, Not(c))
		if c == False {
			continue
		}
		st2, fr2 := st.clone(), fr.cloneChain()
		st2.assume(c)
		if st2.dead || !ex.feasible(st2) {
			continue
		}
		rv := ex.unbox(st2, a.t, x)
		as := append([]Val{rv}, args[1:]...)
		ex.callFn(fr2, st2, in, &closure{fn: a.fn}, as, k)
	}
	// closed world: the dynamic type is one of the repository's implementations
	o := And(other...)
	if o != False {
		ex.assumptions["dynamic types of "+typeName(it)+" are the repository's own implementations"] = true
	}
}

func isExternalPtr(t types.Type) bool {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		return isExternal(p.Elem())
	}
	return isExternal(t)
}

// unbox extracts a value of dynamic type t from an interface term.
func (ex *Exec) unbox(st *State, t types.Type, x *Term) Val {
	v := Val{T: t}
	c := ictorFor(t)
	switch boxKind(t) {
	case "map":
		b := UnIface(t, x, 0)
		obj := ex.boxObj(st, x, b, "map:string:iface")
		v.L = []*Term{obj}
		u := types.Unalias(t).Underlying().(*types.Map)
		nz := Ne(obj, Num(0))
		st.assume(Le(Add(obj, Num(1)), st.alloc))
		st.assume(Imp(nz, And(
			Eq(st.mapDom(u, obj), App("bd_dom", arrSort(SStr, SBool), b)),
			Eq(st.mapValArr(u, obj, 0), App("bd_val", arrSort(SStr, SIf), b)),
			Eq(Select(st.get(mapBase(u)+".len", SInt), obj), AppR("bd_len", bigZero, maxLen, b)))))
		st.assume(Eq(st.snapDict(u, obj), b))
		st.assume(App("bd_finite", SBool, b))
		ex.freeze(st, "map:string:iface", obj)
		return v
	case "list":
		b := UnIface(t, x, 0)
		obj := ex.boxObj(st, x, b, "e:iface")
		off := ex.freshR(st, "uboff", SInt, bigZero, maxLen)
		cp := ex.freshR(st, "ubcap", SInt, bigZero, maxLen)
		n := AppR("bl_len", bigZero, maxLen, b)
		v.L = []*Term{obj, off, n, cp}
		ex.typeFacts(st, v)
		m := st.get("e:iface", arrSort(SInt, SIf))
		i := BoundVar("i", SInt)
		el := Select(Select(m, obj), Add(off, i))
		st.assume(forallRange(i, Num(0), n, Eq(el, App("bl_at", SIf, b, i))))
		st.assume(Eq(st.snapList(v), b))
		ex.freeze(st, "e:iface", obj)
		return v
	}
	ls := leaves(t)
	for k := range c.sorts {
		y := UnIface(t, x, k)
		if y.sort == SInt && y.op != x.op && y.num == nil && y.lo == nil && y.hi == nil && k < len(ls) && len(y.args) == 1 {
			y.lo, y.hi = ls[k].lo, ls[k].hi
		}
		v.L = append(v.L, y)
	}
	ex.typeFacts(st, v)
	return v
}

// boxObj: the object a boxed map or list refers to (if the box was just made, the original is
// not recoverable from the snapshot: any object with the same frozen contents will do).
func (ex *Exec) boxObj(st *State, x, b *Term, key string) *Term {
	return ex.freshR(st, "ubobj", SInt, bigZero, nil)
}

func (ex *Exec) freeze(st *State, key string, obj *Term) {
	k := "frozen:" + key
	f := st.get(k, SBool)
	if Select(f, obj) == True {
		return
	}
	for fr := ex.cur; fr != nil; fr = fr.parent {
		for _, act := range fr.loops {
			if Le(act.allocEntry, obj) == True {
				continue
			}
			if w := act.rec.writes[k]; w == nil {
				act.rec.writes[k] = &lwrite{inner: SBool, objs: map[*Term]bool{}, full: true}
				ex.changed = true
			}
		}
	}
	st.mem[k] = Store(f, obj, True)
}

func (ex *Exec) box(st *State, v Val) *Term {
	t := types.Unalias(v.T)
	switch boxKind(t) {
	case "map":
		u := t.Underlying().(*types.Map)
		ex.freeze(st, "map:string:iface", v.L[0])
		return MkIface(t, []*Term{st.snapDict(u, v.L[0])})
	case "list":
		ex.freeze(st, "e:iface", v.L[0])
		return MkIface(t, []*Term{st.snapList(v)})
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v.L[0]
	}
	return MkIface(t, v.L)
}

func (ex *Exec) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert, k func(st *State, fr *Frame, v Val)) {
	x := ex.val(fr, st, in.X).L[0]
	t := types.Unalias(in.AssertedType)
	if it, ok := t.Underlying().(*types.Interface); ok {
		// to an interface type
		var isT *Term
		if it.NumMethods() == 0 {
			isT = Ne(x, NilI())
		} else {
			var alts []*Term
			for _, b := range ex.w.boxed {
				if types.Implements(b, it) {
					alts = append(alts, IsIface(b, x))
				}
			}
			alts = append(alts, And(App("(_ is I_other)", SBool, x), ex.fresh(st, "implements", SBool)))
			isT = Or(alts...)
			if ctors[x.op] && x.op != "I_other" {
				isT = Or(alts[:len(alts)-1]...)
			}
		}
		if in.CommaOk {
			k(st, fr, Val{T: in.Type(), L: []*Term{Ite(isT, x, NilI()), isT}})
			return
		}
		if !ex.check(fr, st, isT, "type assertion", in) {
			ex.endPath()
			return
		}
		k(st, fr, Val{T: t, L: []*Term{x}})
		return
	}
	c := IsIface(t, x)
	if !in.CommaOk {
		if !ex.check(fr, st, c, "type assertion", in) {
			ex.endPath()
			return
		}
		k(st, fr, ex.unbox(st, t, x))
		return
	}
	if c != False {
		st1, fr1 := st, fr
		if c != True {
			st1, fr1 = st.clone(), fr.cloneChain()
		}
		st1.assume(c)
		if !st1.dead && ex.feasible(st1) {
			v := ex.unbox(st1, t, x)
			k(st1, fr1, Val{T: in.Type(), L: append(append([]*Term{}, v.L...), True)})
		} else {
			ex.endPath()
		}
	}
	if c != True {
		st.assume(Not(c))
		if !st.dead && ex.feasible(st) {
			z := zeroVal(t)
			k(st, fr, Val{T: in.Type(), L: append(append([]*Term{}, z.L...), False)})
		} else {
			ex.endPath()
		}
	}
}

// ------------------------------------------------------------- builtins

func (ex *Exec) builtin(fr *Frame, st *State, in ssa.Instruction, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, k kont) {
	intv := func(t *Term) []Val { return []Val{{T: types.Typ[types.Int], L: []*Term{t}}} }
	switch b.Name() {
	case "len":
		switch u := types.Unalias(args[0].T).Underlying().(type) {
		case *types.Slice:
			k(st, fr, intv(args[0].L[2]))
		case *types.Basic:
			k(st, fr, intv(SLen(args[0].L[0])))
		case *types.Map:
			k(st, fr, intv(st.mapLen(u, args[0].L[0])))
		case *types.Pointer:
			k(st, fr, intv(Num(u.Elem().Underlying().(*types.Array).Len())))
		default:
			unsup("len of %s", typeName(args[0].T))
		}
		return
	case "cap":
		if _, ok := types.Unalias(args[0].T).Underlying().(*types.Slice); ok {
			k(st, fr, intv(args[0].L[3]))
			return
		}
	case "append":
		k(st, fr, []Val{ex.appendSlice(fr, st, in, args)})
		return
	case "copy":
		dst := args[0]
		el := types.Unalias(dst.T).Underlying().(*types.Slice).Elem()
		var n *Term
		srcStr := false
		if _, ok := types.Unalias(args[1].T).Underlying().(*types.Basic); ok {
			srcStr = true
			n = SLen(args[1].L[0])
		} else {
			n = args[1].L[2]
		}
		n = Ite(Le(dst.L[2], n), dst.L[2], n)
		for i, m := range memLayout(el) {
			inner := arrSort(SInt, m.leaf.sort)
			obj := Add(dst.L[0], Num(m.sub))
			it := ModItem{key: m.key, inner: inner, obj: obj, lo: dst.L[1], hi: Add(dst.L[1], n)}
			ex.w.keyLeaf[m.key] = m.leaf
			ex.checkWriteItem(fr, st, it, in)
			if m.key == "e:iface" {
				ex.checkFrozen(fr, st, m.key, obj, in)
			}
			mm := st.get(m.key, inner)
			var src, so *Term
			if srcStr {
				src, so = App("sarr", inner, args[1].L[0]), Num(0)
			} else {
				src, so = Select(mm, Add(args[1].L[0], Num(m.sub))), args[1].L[1]
			}
			_ = i
			st.mem[m.key] = Store(mm, obj, ex.arrCopy(st, m.leaf, Select(mm, obj), dst.L[1], src, so, n))
		}
		k(st, fr, intv(n))
		return
	case "delete":
		m := args[0]
		u := types.Unalias(m.T).Underlying().(*types.Map)
		key := mapKey(u, args[1])
		for _, it := range ex.mapItems(u, m.L[0])[:2] {
			ex.checkWriteItem(fr, st, it, in)
		}
		if mapBase(u) == "map:string:iface" {
			ex.checkFrozen(fr, st, "map:string:iface", m.L[0], in)
		}
		had := st.mapHas(u, m.L[0], key)
		dk, lk := mapBase(u)+".dom", mapBase(u)+".len"
		dom := st.get(dk, arrSort(mapKeySort(u), SBool))
		ln := st.get(lk, SInt)
		z := Eq(m.L[0], Num(0))
		oldLen := Select(ln, m.L[0])
		// presence implies a positive length
		st.assume(Imp(had, Le(Num(1), oldLen)))
		if z == True {
			k(st, fr, nil)
			return
		}
		nd := Store(dom, m.L[0], Store(Select(dom, m.L[0]), key, False))
		nl := Store(ln, m.L[0], Ite(had, Sub(oldLen, Num(1)), oldLen))
		st.mem[dk] = Ite(z, dom, nd)
		st.mem[lk] = Ite(z, ln, nl)
		k(st, fr, nil)
		return
	case "recover":
		pan := false
		for f := fr; f != nil; f = f.parent {
			if f.panicking {
				pan = true
				f.recovered = true
			}
			if f != fr && f.panicking {
				break
			}
		}
		if pan {
			v := ex.fresh(st, "recovered", SIf)
			st.assume(Ne(v, NilI()))
			k(st, fr, []Val{{T: emptyIface, L: []*Term{v}}})
		} else {
			k(st, fr, []Val{{T: emptyIface, L: []*Term{NilI()}}})
		}
		return
	case "print", "println":
		k(st, fr, nil)
		return
	case "min", "max":
		r := args[0].L[0]
		for _, a := range args[1:] {
			c := Le(r, a.L[0])
			if b.Name() == "max" {
				c = Le(a.L[0], r)
			}
			r = Ite(c, r, a.L[0])
		}
		k(st, fr, []Val{{T: args[0].T, L: []*Term{r}}})
		return
	case "ssa:wrapnilchk":
		if !ex.check(fr, st, Ne(args[0].L[0], Num(0)), "nil receiver", in) {
			ex.endPath()
			return
		}
		k(st, fr, []Val{args[0]})
		return
	}
	unsup("builtin %s", b.Name())
}

// arrCopy: the array d with n elements from do on replaced by s[so..].
func (ex *Exec) arrCopy(st *State, l Leaf, d, do, s, so, n *Term) *Term {
	if n.num != nil && n.num.Sign() == 0 {
		return d
	}
	if n.num != nil && n.num.IsInt64() && n.num.Int64() <= 8 {
		r := d
		for i := int64(0); i < n.num.Int64(); i++ {
			r = Store(r, Add(do, Num(i)), Select(s, Add(so, Num(i))))
		}
		return r
	}
	f := "arrcopy"
	as := arrSort(SInt, l.sort)
	if l.sort != SInt {
		f = "arrcopy_" + l.sort
		if _, ok := declGet(f); !ok {
			DeclFun(f, []string{as, SInt, as, SInt, SInt}, as)
			addRawAxioms(strings.ReplaceAll(strings.ReplaceAll(`(assert (! (forall ((d AS) (do Int) (s AS) (so Int) (n Int) (i Int)) (! (= (select (FN d do s so n) i) (ite (and (<= do i) (< i (+ do n))) (select s (+ so (- i do))) (select d i))) :pattern ((select (FN d do s so n) i)))) :named ax_FN))`, "AS", as), "FN", f))
		}
	}
	r := App(f, as, d, do, s, so, n)
	if narrowLeaf(l) {
		// values keep the element range
		byteRangeArr(r)
	}
	return r
}

func narrowLeaf(l Leaf) bool {
	return l.sort == SInt && l.hi != nil && l.hi.Int64() == 255 && l.hi.IsInt64()
}

func byteRangeArr(t *Term) {}

func (ex *Exec) appendSlice(fr *Frame, st *State, in ssa.Instruction, args []Val) Val {
	s := args[0]
	el := types.Unalias(s.T).Underlying().(*types.Slice).Elem()
	var n *Term
	srcStr := false
	if b, ok := types.Unalias(args[1].T).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		srcStr = true
		n = SLen(args[1].L[0])
	} else {
		n = args[1].L[2]
	}
	newLen := Add(s.L[2], n)
	if n.num != nil && n.num.Sign() == 0 {
		return s
	}
	st.assume(Le(newLen, NumB(maxLen))) // memory is finite (Go's allocation limit)
	fits := Le(newLen, s.L[3])
	nobj := st.alloc
	st.alloc = Add(st.alloc, Num(blockUnit))
	for _, m := range memLayout(types.Unalias(args[0].T).Underlying().(*types.Slice).Elem()) {
		if m.key == "e:iface" {
			st.assume(Not(Select(ex.frozen(st, m.key), nobj)))
		}
	}
	ncap := ex.freshR(st, "ncap", SInt, bigZero, maxLen)
	st.assume(Le(newLen, ncap))
	obj := Ite(fits, s.L[0], nobj)
	cp := Ite(fits, s.L[3], ncap)
	for _, m := range memLayout(el) {
		inner := arrSort(SInt, m.leaf.sort)
		ex.w.keyLeaf[m.key] = m.leaf
		o := Add(obj, Num(m.sub))
		oldo := Add(s.L[0], Num(m.sub))
		mm := st.get(m.key, inner)
		if fits != False {
			// in-place growth writes the old array beyond its length
			st2 := st.clone()
			st2.assume(fits)
			it := ModItem{key: m.key, inner: inner, obj: oldo, lo: Add(s.L[1], s.L[2]), hi: Add(s.L[1], newLen)}
			if n.num != nil && n.num.IsInt64() && n.num.Int64() == 1 {
				it = ModItem{key: m.key, inner: inner, obj: oldo, idx: Add(s.L[1], s.L[2])}
			}
			ex.checkWriteItem(fr, st2, it, in)
			if m.key == "e:iface" {
				ex.checkFrozenAppend(fr, st2, m.key, oldo, in)
			}
		}
		base := Select(mm, oldo)
		var src, so *Term
		if srcStr {
			src, so = App("sarr", inner, args[1].L[0]), Num(0)
		} else {
			src, so = Select(mm, Add(args[1].L[0], Num(m.sub))), args[1].L[1]
		}
		st.mem[m.key] = Store(mm, o, ex.arrCopy(st, m.leaf, base, Add(s.L[1], s.L[2]), src, so, n))
	}
	return Val{T: s.T, L: []*Term{obj, s.L[1], newLen, cp}}
}

// appending in place to an array that also backs a boxed list would change it only beyond the
// list's length; only the boxed prefix is frozen, so the write is harmless for the snapshot.
func (ex *Exec) checkFrozenAppend(fr *Frame, st *State, key string, obj *Term, in ssa.Instruction) {
	fz := Select(ex.frozen(st, key), obj)
	if fz == False {
		return
	}
	ex.oblige(st, "snapshot", "appends to a boxed list", ex.pos(in), Not(fz), nil)
}
