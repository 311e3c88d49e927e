package main

// Symbolic state: memory, facts, allocation.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
)

type FactList struct {
	t    *Term
	prev *FactList
	n    int
	h    [2]uint64
}

func (f *FactList) slice() []*Term {
	if f == nil {
		return nil
	}
	out := make([]*Term, f.n)
	i := f.n - 1
	for g := f; g != nil; g = g.prev {
		out[i] = g.t
		i--
	}
	return out
}

func (f *FactList) hash() [2]uint64 {
	if f == nil {
		return [2]uint64{14695981039346656037, 7809847782465536322}
	}
	return f.h
}

func mixHash(h [2]uint64, id int) [2]uint64 {
	x := uint64(id)
	h[0] = (h[0] ^ x) * 1099511628211
	h[0] ^= h[0] >> 29
	h[1] = (h[1] + x*0x9E3779B97F4A7C15) * 0xBF58476D1CE4E5B9
	h[1] ^= h[1] >> 31
	return h
}

type State struct {
	mem   map[string]*Term
	facts *FactList
	alloc *Term
	have  map[*Term]bool // facts present (shared copy-on-fork)
	dead  bool
	n     int        // symbols created on this path
	locks []lockHeld // mutexes held
}

var emptyIface types.Type = types.NewInterfaceType(nil, nil)

var altMu sync.Mutex
var alts = map[*Term][]*Term{}

// birth allocation counter of memory symbols
var birthAlloc = map[*Term]*Term{}

func newState() *State {
	return &State{mem: map[string]*Term{}, alloc: alloc0(), have: map[*Term]bool{}}
}

func alloc0() *Term { return SymR("alloc0", pow2(20), nil) }

func (s *State) clone() *State {
	n := &State{mem: make(map[string]*Term, len(s.mem)), facts: s.facts, alloc: s.alloc, have: make(map[*Term]bool, len(s.have)), dead: s.dead, n: s.n, locks: append([]lockHeld(nil), s.locks...)}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k := range s.have {
		n.have[k] = true
	}
	return n
}

func (s *State) assume(t *Term) {
	if t == True || s.have[t] {
		return
	}
	if t == False || s.have[Not(t)] {
		s.dead = true
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	s.have[t] = true
	n := 1
	if s.facts != nil {
		n = s.facts.n + 1
	}
	e := expandAlts(t)
	s.facts = &FactList{e, s.facts, n, mixHash(s.facts.hash(), e.id)}
}

// expandAlts adds the re-indexed variants of quantifiers occurring positively in a fact.
func expandAlts(t *Term) *Term {
	if !hasQuant(t) {
		return t
	}
	switch t.op {
	case "forall":
		altMu.Lock()
		as := alts[t]
		altMu.Unlock()
		if len(as) > 0 {
			return App("and", SBool, append([]*Term{t}, as...)...)
		}
		if len(t.args[0].args) > 0 {
			b := expandAlts(t.args[0])
			if b != t.args[0] {
				return Forall(t.bvs, b, t.pats...)
			}
		}
		return t
	case "and", "or":
		out := make([]*Term, len(t.args))
		for i, a := range t.args {
			out[i] = expandAlts(a)
		}
		if t.op == "and" {
			return App("and", SBool, out...)
		}
		return App("or", SBool, out...)
	case "=>":
		return App("=>", SBool, t.args[0], expandAlts(t.args[1]))
	case "ite":
		return App("ite", SBool, t.args[0], expandAlts(t.args[1]), expandAlts(t.args[2]))
	}
	return t
}

func (s *State) factSlice() []*Term { return s.facts.slice() }

// get returns the outer memory array for a key; inner is the sort of one object's contents.
func (s *State) get(key, inner string) *Term {
	if t, ok := s.mem[key]; ok {
		return t
	}
	t := Sym("M0:"+key, arrSort(SInt, inner))
	if _, ok := birthAlloc[t]; !ok {
		birthAlloc[t] = alloc0()
		byteRange(key, t)
	}
	s.mem[key] = t
	return t
}

func narrow(key string) bool { return key == "e:uint8" }

// byteRange attaches the element range axiom to a memory symbol of a byte key.
func byteRange(key string, t *Term) {
	if !narrow(key) {
		return
	}
	o, i := BoundVar("o", SInt), BoundVar("i", SInt)
	if t.sort == arrSort(SInt, arrSort(SInt, SInt)) {
		x := App("select", SInt, App("select", arrSort(SInt, SInt), t, o), i)
		addDef(t, Forall([]*Term{o, i}, App("and", SBool, App("<=", SBool, Num(0), x), App("<=", SBool, x, Num(255))), []*Term{x}))
	} else if t.sort == arrSort(SInt, SInt) {
		x := App("select", SInt, t, i)
		addDef(t, Forall([]*Term{i}, App("and", SBool, App("<=", SBool, Num(0), x), App("<=", SBool, x, Num(255))), []*Term{x}))
	}
}

func (s *State) ghost(name, sort string) *Term {
	k := "g:" + name
	if t, ok := s.mem[k]; ok {
		return t
	}
	t := Sym("G0:"+name, sort)
	s.mem[k] = t
	return t
}

func (s *State) loadLeaf(key string, l Leaf, obj, idx *Term) *Term {
	m := s.get(key, arrSort(SInt, l.sort))
	t := Select(Select(m, obj), idx)
	if t.op == "select" && t.sort == SInt && (l.lo != nil || l.hi != nil) && t.lo == nil && t.hi == nil {
		t.lo, t.hi = l.lo, l.hi
	}
	return t
}

// loadAt reads a whole value of type t at an address (specification use: no facts).
func (s *State) loadAt(t types.Type, obj, idx *Term) Val {
	v := Val{T: t}
	for _, m := range memLayout(t) {
		o := obj
		if m.sub != 0 {
			o = Add(obj, Num(m.sub))
		}
		v.L = append(v.L, s.loadLeaf(m.key, m.leaf, o, idx))
	}
	return v
}

// loadAtQ: as loadAt; for a struct element this yields the value (leaves).
func (s *State) loadAtQ(t types.Type, obj, idx *Term) Val { return s.loadAt(t, obj, idx) }

func (s *State) loadField(t types.Type, st *types.Struct, i int, obj, idx *Term) Val {
	f := st.Field(i)
	v := Val{T: f.Type()}
	for _, l := range leaves(f.Type()) {
		v.L = append(v.L, s.loadLeaf(structKey(t)+"."+f.Name()+l.path, l, obj, idx))
	}
	return v
}

// ------------------------------------------------------------- maps

func mapKeySort(u *types.Map) string {
	ls := leaves(u.Key())
	if len(ls) == 1 {
		return ls[0].sort
	}
	if _, ok := types.Unalias(u.Key()).Underlying().(*types.Pointer); ok {
		return "Ptr"
	}
	unsup("map key type %s", typeName(u.Key()))
	return ""
}

func mapKey(u *types.Map, k Val) *Term {
	if len(k.L) == 1 {
		return k.L[0]
	}
	return App("mkptr", "Ptr", k.L[0], k.L[1])
}

func init() {
	ctors["mkptr"] = true
	ctors["I_other"] = true
	DeclFun("bd_dom", []string{"BD"}, arrSort(SStr, SBool))
	DeclFun("bd_val", []string{"BD"}, arrSort(SStr, SIf))
	DeclFun("bd_len", []string{"BD"}, SInt)
	DeclFun("bl_at", []string{"BL", SInt}, SIf)
	DeclFun("bl_len", []string{"BL"}, SInt)
	DeclFun("bd_noval", nil, arrSort(SStr, SIf))
	DeclFun("bd_finite", []string{"BD"}, SBool)
	DeclFun("mkBD", []string{arrSort(SStr, SBool), arrSort(SStr, SIf), SInt}, "BD")
	DeclFun("mkBL", []string{arrSort(SInt, SIf), SInt, SInt}, "BL")
	addRawAxioms(`
(assert (! (forall ((d (Array Str Bool)) (v (Array Str Iface)) (n Int)) (! (and (= (bd_dom (mkBD d v n)) d) (= (bd_val (mkBD d v n)) v) (=> (<= 0 n) (= (bd_len (mkBD d v n)) n))) :pattern ((mkBD d v n)))) :named ax_mkBD))
(assert (! (forall ((a (Array Int Iface)) (o Int) (n Int)) (! (=> (<= 0 n) (= (bl_len (mkBL a o n)) n)) :pattern ((mkBL a o n)))) :named ax_mkBLlen))
(assert (! (forall ((a (Array Int Iface)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (bl_at (mkBL a o n) i) (select a (+ o i)))) :pattern ((bl_at (mkBL a o n) i)))) :named ax_mkBLat))
(assert (! (forall ((a (Array Int Iface)) (o Int) (n Int) (p Int)) (! (=> (and (<= o p) (< p (+ o n))) (= (bl_at (mkBL a o n) (- p o)) (select a p))) :pattern ((mkBL a o n) (select a p)))) :named ax_mkBLrow))
(assert (! (forall ((b BL)) (! (<= 0 (bl_len b)) :pattern ((bl_len b)))) :named ax_bllen))
(assert (! (forall ((b BD)) (! (<= 0 (bd_len b)) :pattern ((bd_len b)))) :named ax_bdlen))
`)
	addRawAxioms(axStr)
}

func mapBase(u *types.Map) string {
	// Dict and map[string]interface{} are the same memory
	return "map:" + elemKey(u.Key()) + ":" + elemKey(u.Elem())
}

func (s *State) mapDom(u *types.Map, obj *Term) *Term {
	return Select(s.get(mapBase(u)+".dom", arrSort(mapKeySort(u), SBool)), obj)
}

func (s *State) mapHas(u *types.Map, obj, k *Term) *Term {
	return And(Ne(obj, Num(0)), Select(s.mapDom(u, obj), k))
}

func (s *State) mapValArr(u *types.Map, obj *Term, i int) *Term {
	l := leaves(u.Elem())[i]
	return Select(s.get(mapBase(u)+".val"+l.path, arrSort(mapKeySort(u), l.sort)), obj)
}

func (s *State) mapGet(u *types.Map, obj, k *Term) Val {
	v := Val{T: u.Elem()}
	for i, l := range leaves(u.Elem()) {
		t := Select(s.mapValArr(u, obj, i), k)
		if t.op == "select" && l.sort == SInt && t.lo == nil && t.hi == nil {
			t.lo, t.hi = l.lo, l.hi
		}
		v.L = append(v.L, t)
	}
	return v
}

func (s *State) mapLen(u *types.Map, obj *Term) *Term {
	t := Select(s.get(mapBase(u)+".len", SInt), obj)
	if t.op == "select" && t.lo == nil {
		t.lo, t.hi = bigZero, maxLen
	}
	return Ite(Eq(obj, Num(0)), Num(0), t)
}

func (s *State) snapDict(u *types.Map, obj *Term) *Term {
	z := Eq(obj, Num(0))
	dom := Ite(z, ConstArr(arrSort(SStr, SBool), False), s.mapDom(u, obj))
	val := Ite(z, App("bd_noval", arrSort(SStr, SIf)), s.mapValArr(u, obj, 0))
	return App("mkBD", "BD", dom, val, s.mapLen(u, obj))
}

func (s *State) snapList(v Val) *Term {
	m := s.get("e:"+elemKey(emptyIface), arrSort(SInt, SIf))
	return App("mkBL", "BL", Select(m, v.L[0]), v.L[1], v.L[2])
}

// lockHeld: a mutex locked on this path and not yet unlocked.
type lockHeld struct {
	obj, idx *Term
	read     bool
	at       string
}

func locksString(ls []lockHeld) string {
	var out []string
	for _, l := range ls {
		out = append(out, fmt.Sprintf("%d,%d,%v", l.obj.id, l.idx.id, l.read))
	}
	sort.Strings(out)
	return strings.Join(out, ";")
}
