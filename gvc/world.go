package main

// Loading /repo's current source and indexing it.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	idx    int
}

type World struct {
	prog    *ssa.Program
	pkgs    []*ssa.Package
	byName  map[string]*types.Package
	fns     map[string]*ssa.Function // by short name
	all     []*ssa.Function
	loopTab map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	globals map[*ssa.Global]*Term
	keyLeaf map[string]Leaf
	boxed   []types.Type // types converted to interfaces in the repository
	scc     map[*ssa.Function]map[*ssa.Function]bool
	calls   map[*ssa.Function]map[*ssa.Function]bool
	writers map[*ssa.Global][]string
}

func loadWorld(dir string) (*World, error) {
	cfg := &packages.Config{Dir: dir, Tests: false}
	cfg.Mode = packages.NeedName | packages.NeedFiles | packages.NeedImports | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedTypesSizes | packages.NeedDeps
	cfg.Mode = packages.NeedName | packages.NeedFiles | packages.NeedImports | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedTypesSizes
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var bad []string
	for _, p := range ps {
		for _, e := range p.Errors {
			bad = append(bad, e.Error())
		}
	}
	if len(bad) > 0 {
		return nil, fmt.Errorf("source does not compile: %s", strings.Join(bad, "; "))
	}
	prog, pkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{prog: prog, byName: map[string]*types.Package{}, fns: map[string]*ssa.Function{},
		loopTab: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}, globals: map[*ssa.Global]*Term{},
		keyLeaf: map[string]Leaf{}, calls: map[*ssa.Function]map[*ssa.Function]bool{}, writers: map[*ssa.Global][]string{}}
	for _, p := range pkgs {
		if p != nil {
			w.pkgs = append(w.pkgs, p)
			w.byName[p.Pkg.Name()] = p.Pkg
		}
	}
	// the imports of the repository's packages can be named in contracts
	for _, p := range ps {
		for _, im := range p.Types.Imports() {
			if _, ok := w.byName[im.Name()]; !ok {
				w.byName[im.Name()] = im
			}
		}
	}
	all := ssautil.AllFunctions(prog)
	// generic methods, instantiated or not
	for _, p := range w.pkgs {
		for _, m := range p.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			if n, ok := t.Type().(*types.Named); ok && n.TypeParams().Len() > 0 {
				for i := 0; i < n.NumMethods(); i++ {
					if f := prog.FuncValue(n.Method(i)); f != nil {
						all[f] = true
					}
				}
			}
		}
	}
	for f := range all {
		if f.Pkg == nil && f.Origin() == nil && f.Synthetic == "" {
			continue
		}
		if len(f.Blocks) == 0 {
			continue
		}
		w.all = append(w.all, f)
	}
	sort.Slice(w.all, func(i, j int) bool { return w.all[i].String() < w.all[j].String() })
	seenT := map[string]bool{}
	for _, f := range w.all {
		n := originName(f)
		if f.Origin() != nil {
			n = shortName(f.String())
		}
		if o, ok := w.fns[n]; !ok || o.Synthetic != "" && f.Synthetic == "" {
			w.fns[n] = f
		}
		w.calls[f] = map[*ssa.Function]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok {
					k := typeName(mi.X.Type())
					if !seenT[k] {
						seenT[k] = true
						w.boxed = append(w.boxed, mi.X.Type())
					}
				}
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						w.writers[g] = append(w.writers[g], f.String())
					}
				}
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if o == nil || *o == nil {
						continue
					}
					if g, ok := (*o).(*ssa.Function); ok {
						w.calls[f][g] = true
					}
					if mc, ok := (*o).(*ssa.MakeClosure); ok {
						w.calls[f][mc.Fn.(*ssa.Function)] = true
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					// any implementation may be meant
					for _, g := range w.all {
						if g.Signature.Recv() != nil && g.Name() == c.Common().Method.Name() {
							w.calls[f][g] = true
						}
					}
				}
			}
		}
	}
	sort.Slice(w.boxed, func(i, j int) bool { return typeName(w.boxed[i]) < typeName(w.boxed[j]) })
	// stable constructors for every boxed type
	for _, t := range w.boxed {
		func() {
			defer func() { recover() }()
			leaves(t)
			ictorFor(t)
		}()
	}
	return w, nil
}

// recursive: can g (transitively) call f?
func (w *World) recursive(f, g *ssa.Function) bool {
	of := func(x *ssa.Function) *ssa.Function {
		if o := x.Origin(); o != nil {
			return o
		}
		return x
	}
	seen := map[*ssa.Function]bool{}
	var walk func(x *ssa.Function) bool
	walk = func(x *ssa.Function) bool {
		if of(x) == of(f) {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for y := range w.calls[x] {
			if walk(y) {
				return true
			}
		}
		return false
	}
	return walk(g)
}

func (w *World) loops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if l, ok := w.loopTab[fn]; ok {
		return l
	}
	out := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			li := out[h]
			if li == nil {
				li = &loopInfo{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				out[h] = li
			}
			stack := []*ssa.BasicBlock{b}
			for len(stack) > 0 {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if li.blocks[x] {
					continue
				}
				li.blocks[x] = true
				stack = append(stack, x.Preds...)
			}
		}
	}
	k := 0
	for _, b := range fn.Blocks {
		if li := out[b]; li != nil {
			k++
			li.idx = k
		}
	}
	w.loopTab[fn] = out
	return out
}

func (w *World) globalObj(g *ssa.Global) *Term {
	if t, ok := w.globals[g]; ok {
		return t
	}
	t := Num(int64(1024 + blockUnit*len(w.globals)))
	w.globals[g] = t
	return t
}

func (w *World) lookupGlobal(name string) *ssa.Global {
	i := strings.IndexByte(name, '.')
	if i < 0 {
		return nil
	}
	for _, p := range w.pkgs {
		if p.Pkg.Name() == name[:i] {
			if g, ok := p.Members[name[i+1:]].(*ssa.Global); ok {
				return g
			}
		}
	}
	return nil
}

// lookupConst finds a Go constant: Name or pkg.Name (written pkg_Name in contracts).
func (w *World) lookupConst(name string) *Val {
	try := func(p *types.Package, n string) *Val {
		if c, ok := p.Scope().Lookup(n).(*types.Const); ok {
			switch c.Val().Kind() {
			case constant.Int:
				b, _ := new(big.Int).SetString(c.Val().ExactString(), 10)
				v := tv(NumB(b))
				return &v
			case constant.String:
				v := tv(StrLit(constant.StringVal(c.Val())))
				return &v
			case constant.Bool:
				v := tv(BoolT(constant.BoolVal(c.Val())))
				return &v
			}
		}
		return nil
	}
	if i := strings.IndexByte(name, '_'); i > 0 {
		if p, ok := w.byName[name[:i]]; ok {
			if v := try(p, name[i+1:]); v != nil {
				return v
			}
		}
	}
	return nil
}

func (ex *Exec) typeByName(s string, quiet bool) types.Type {
	e, err := parser.ParseExpr(s)
	if err != nil {
		if quiet {
			return nil
		}
		specPanic("bad type %q", s)
	}
	var t types.Type
	func() {
		defer func() {
			if r := recover(); r != nil {
				if !quiet {
					panic(r)
				}
			}
		}()
		t = ex.w.typeExpr(e)
	}()
	if t == nil && !quiet {
		specPanic("unknown type %q", s)
	}
	return t
}

func (ex *Exec) typeArg(x ast.Expr) types.Type {
	if l, ok := x.(*ast.BasicLit); ok && l.Kind == token.STRING {
		return ex.typeByName(strings.Trim(l.Value, "\"`"), false)
	}
	t := ex.w.typeExpr(x)
	if t == nil {
		specPanic("unknown type %s", exprStr(x))
	}
	return t
}

func (w *World) typeExpr(x ast.Expr) types.Type {
	switch x := x.(type) {
	case *ast.Ident:
		if o := types.Universe.Lookup(x.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
		return nil
	case *ast.SelectorExpr:
		id, ok := x.X.(*ast.Ident)
		if !ok {
			return nil
		}
		p := w.byName[id.Name]
		if p == nil {
			return nil
		}
		if tn, ok := p.Scope().Lookup(x.Sel.Name).(*types.TypeName); ok {
			return tn.Type()
		}
		return nil
	case *ast.StarExpr:
		if t := w.typeExpr(x.X); t != nil {
			return types.NewPointer(t)
		}
	case *ast.ArrayType:
		t := w.typeExpr(x.Elt)
		if t == nil {
			return nil
		}
		if x.Len == nil {
			return types.NewSlice(t)
		}
	case *ast.MapType:
		k, v := w.typeExpr(x.Key), w.typeExpr(x.Value)
		if k != nil && v != nil {
			return types.NewMap(k, v)
		}
	case *ast.InterfaceType:
		return emptyIface
	case *ast.IndexExpr:
		g, a := w.typeExpr(x.X), w.typeExpr(x.Index)
		if g != nil && a != nil {
			t, err := types.Instantiate(nil, g, []types.Type{a}, false)
			if err == nil {
				return t
			}
		}
	case *ast.ParenExpr:
		return w.typeExpr(x.X)
	}
	return nil
}
