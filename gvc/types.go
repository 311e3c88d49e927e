package main

// Go types -> leaf layouts.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

type Leaf struct {
	path string // field path inside the value ("" for the value itself)
	sort string
	lo   *big.Int
	hi   *big.Int
	kind string // "", "obj" (reference), "len", ...
}

var maxLen = pow2(48)

// opaque external struct types with a modelled layout
var specialStruct = map[string][]Leaf{
	"strings.Builder": {{path: "s", sort: SStr}},
	"bytes.Buffer":    {{path: "s", sort: SStr}},
	"sync.Mutex":      {},
	"sync.RWMutex":    {},
	"sync.WaitGroup":  {},
	"sync.Once":       {{path: "done", sort: SBool}},
	"time.Time":       {},
}

const intBits = 64

func intRange(b *types.Basic) (lo, hi *big.Int, ok bool) {
	s := func(n int) (*big.Int, *big.Int, bool) {
		return new(big.Int).Neg(pow2(n - 1)), new(big.Int).Sub(pow2(n-1), bigOne), true
	}
	u := func(n int) (*big.Int, *big.Int, bool) { return bigZero, new(big.Int).Sub(pow2(n), bigOne), true }
	switch b.Kind() {
	case types.Int, types.Int64:
		return s(64)
	case types.Int8:
		return s(8)
	case types.Int16:
		return s(16)
	case types.Int32, types.UntypedRune:
		return s(32)
	case types.Uint, types.Uint64, types.Uintptr:
		return u(64)
	case types.Uint8:
		return u(8)
	case types.Uint16:
		return u(16)
	case types.Uint32:
		return u(32)
	case types.UntypedInt:
		return nil, nil, true
	}
	return nil, nil, false
}

func bitsOf(b *types.Basic) (n int, signed bool) {
	lo, hi, _ := intRange(b)
	if hi == nil {
		return 0, true
	}
	n = hi.BitLen()
	if lo.Sign() < 0 {
		return n + 1, true
	}
	return n, false
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

// structKey names a struct type for memory keys; instances of generics get their own.
func structKey(t types.Type) string {
	t = types.Unalias(t)
	return strings.TrimPrefix(typeName(t), "gotor/")
}

type unsupported struct{ msg string }

func (u unsupported) Error() string { return "unsupported: " + u.msg }
func unsup(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

// leaves gives the flattened layout of a type.
func leaves(t types.Type) []Leaf {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if l, ok := specialStruct[typeName(n)]; ok {
			return l
		}
	}
	if _, ok := t.(*types.TypeParam); ok {
		return []Leaf{{sort: "TP"}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return []Leaf{{sort: SBool}}
		}
		if u.Info()&types.IsString != 0 {
			return []Leaf{{sort: SStr}}
		}
		if u.Info()&types.IsFloat != 0 {
			return []Leaf{{sort: SReal}}
		}
		if lo, hi, ok := intRange(u); ok {
			return []Leaf{{sort: SInt, lo: lo, hi: hi}}
		}
		if u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer {
			return []Leaf{{sort: SInt}}
		}
		if u.Kind() == types.Invalid { // ssa opaque (e.g. range iterators)
			return nil
		}
	case *types.Pointer:
		return []Leaf{{path: ".obj", sort: SInt, lo: bigZero, kind: "obj"}, {path: ".idx", sort: SInt, lo: bigZero}}
	case *types.Slice:
		return []Leaf{{path: ".obj", sort: SInt, lo: bigZero, kind: "obj"}, {path: ".off", sort: SInt, lo: bigZero, hi: maxLen}, {path: ".len", sort: SInt, lo: bigZero, hi: maxLen}, {path: ".cap", sort: SInt, lo: bigZero, hi: maxLen}}
	case *types.Map, *types.Chan:
		return []Leaf{{path: ".obj", sort: SInt, lo: bigZero, kind: "obj"}}
	case *types.Signature:
		return []Leaf{{path: ".fn", sort: SInt}}
	case *types.Interface:
		if _, ok := t.(*types.TypeParam); ok {
			return []Leaf{{sort: "TP"}}
		}
		return []Leaf{{sort: SIf}}
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), "gotor") {
			return []Leaf{} // external, opaque
		}
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leaves(u.Field(i).Type()) {
				l.path = "." + u.Field(i).Name() + l.path
				out = append(out, l)
			}
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			out = append(out, leaves(u.At(i).Type())...)
		}
		return out
	case *types.Array:
		if u.Len() <= 16 {
			var out []Leaf
			for i := int64(0); i < u.Len(); i++ {
				for _, l := range leaves(u.Elem()) {
					l.path = fmt.Sprintf("[%d]%s", i, l.path)
					out = append(out, l)
				}
			}
			return out
		}
		unsup("array type %s", typeName(t))
	}
	unsup("type %s", typeName(t))
	return nil
}

// isStruct reports whether values of t live as structs in memory (own address block).
func isStruct(t types.Type) bool {
	_, ok := types.Unalias(t).Underlying().(*types.Struct)
	return ok
}

// blockSize: number of address ids a value of type t occupies (struct nested parts).
func blockSize(t types.Type) int64 {
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		return 1
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return 1
	}
	if isExternal(t) {
		return 1
	}
	n := int64(1)
	for i := 0; i < st.NumFields(); i++ {
		if isStruct(st.Field(i).Type()) {
			n += blockSize(st.Field(i).Type())
		}
	}
	return n
}

func isExternal(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), "gotor")
}

const blockUnit = 64

// subOffset: address offset of struct-typed field i within st.
func subOffset(st *types.Struct, i int) int64 {
	n := int64(1)
	for j := 0; j < i; j++ {
		if isStruct(st.Field(j).Type()) {
			n += blockSize(st.Field(j).Type())
		}
	}
	return n
}

// memLeaf: where a leaf of a value of type t is stored, relative to its address.
type memLeaf struct {
	key  string // memory key
	sub  int64  // object offset
	leaf Leaf
}

// memLayout lists, in the order of leaves(t), the memory location of each leaf of a
// value of type t stored at some address.
func memLayout(t types.Type) []memLeaf {
	t = types.Unalias(t)
	var out []memLeaf
	if isStruct(t) {
		if n, ok := t.(*types.Named); ok {
			if ls, ok := specialStruct[typeName(n)]; ok {
				for _, l := range ls {
					out = append(out, memLeaf{key: structKey(t) + "." + l.path, leaf: l})
				}
				return out
			}
		}
		if isExternal(t) {
			return nil
		}
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if isStruct(f.Type()) {
				off := subOffset(st, i)
				for _, m := range memLayout(f.Type()) {
					m.sub += off
					out = append(out, m)
				}
			} else {
				for _, l := range leaves(f.Type()) {
					out = append(out, memLeaf{key: structKey(t) + "." + f.Name() + l.path, leaf: l})
				}
			}
		}
		return out
	}
	for _, l := range leaves(t) {
		out = append(out, memLeaf{key: "e:" + elemKey(t) + l.path, leaf: l})
	}
	return out
}

func elemKey(t types.Type) string {
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		return typeName(t)
	}
	if i, ok := t.Underlying().(*types.Interface); ok && i.NumMethods() == 0 {
		return "iface"
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		if b.Kind() == types.Byte {
			return "uint8"
		}
		return b.Name()
	}
	return structKey(t)
}

func zeroLeaf(l Leaf) *Term {
	switch l.sort {
	case SInt:
		return Num(0)
	case SBool:
		return False
	case SStr:
		return StrEmpty()
	case SIf:
		return NilI()
	case SReal:
		return App("0.0", SReal)
	case "TP":
		return Sym("tpzero", "TP")
	}
	panic("zeroLeaf " + l.sort)
}

func zeroVal(t types.Type) Val {
	v := Val{T: t}
	for _, l := range leaves(t) {
		v.L = append(v.L, zeroLeaf(l))
	}
	return v
}

// Val is a symbolic Go value.
type Val struct {
	T     types.Type
	L     []*Term
	fn    *closure // statically known function value
	pl    *place   // pointer to a non-struct field (statically known)
	it    *mapIter
	strIt *strIter
}

type place struct {
	key  string // prefix key of the field; leaf paths are appended
	obj  *Term
	idx  *Term
	elem types.Type
}
type mapIter struct {
	m             Val
	mt            *types.Map
	pos           string // ghost key of the position
	id            string
	dom           *Term
	vals          []*Term
	n             *Term
	ordT, ordposT *Term
}
type strIter struct{}
