package main

// Models of functions outside the repository (assumed contracts on dependencies).

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type xcall struct {
	ex   *Exec
	fr   *Frame
	st   *State
	in   ssa.Instruction
	fn   *ssa.Function
	args []Val
	k    kont
	sig  *types.Signature
}

func (x *xcall) ret(vs ...Val) { x.k(x.st, x.fr, vs) }
func (x *xcall) results() *types.Tuple {
	if x.sig != nil {
		return x.sig.Results()
	}
	return x.fn.Signature.Results()
}
func (x *xcall) rt(i int) types.Type      { return x.results().At(i).Type() }
func (x *xcall) v(i int, ls ...*Term) Val { return Val{T: x.rt(i), L: ls} }
func (x *xcall) nonNil(i int) bool {
	if x.args[i].pl != nil {
		return true
	}
	if !x.ex.check(x.fr, x.st, Ne(x.args[i].L[0], Num(0)), "nil dereference", x.in) {
		x.ex.endPath()
		return false
	}
	return true
}
func (x *xcall) check(c *Term, kind string) bool {
	if !x.ex.check(x.fr, x.st, c, kind, x.in) {
		x.ex.endPath()
		return false
	}
	return true
}

// fork runs f on a copy of the state under an assumption.
func (x *xcall) fork(c *Term, f func(y *xcall)) {
	if c == False {
		return
	}
	y := *x
	y.st, y.fr = x.st.clone(), x.fr.cloneChain()
	y.st.assume(c)
	if y.st.dead || !x.ex.feasible(y.st) {
		return
	}
	f(&y)
}

func (ex *Exec) errVal(st *State, tag string) Val {
	return Val{T: types.Universe.Lookup("error").Type(), L: []*Term{App("I_other", SIf, ex.freshR(st, "err_"+tag, SInt, bigZero, nil))}}
}
func nilErr() Val {
	return Val{T: types.Universe.Lookup("error").Type(), L: []*Term{NilI()}}
}

// freshSlice: a newly allocated slice with unconstrained contents.
func (ex *Exec) freshSlice(st *State, t types.Type, n *Term) Val {
	obj := st.alloc
	st.alloc = Add(st.alloc, Num(blockUnit))
	c := ex.freshR(st, "xcap", SInt, bigZero, maxLen)
	st.assume(Le(n, c))
	el := types.Unalias(t).Underlying().(*types.Slice).Elem()
	for _, m := range memLayout(el) {
		ex.w.keyLeaf[m.key] = m.leaf
		inner := arrSort(SInt, m.leaf.sort)
		f := ex.fresh(st, "X:"+m.key, inner)
		birthAlloc[f] = st.alloc
		byteRange(m.key, f)
		st.mem[m.key] = Store(st.get(m.key, inner), Add(obj, Num(m.sub)), f)
	}
	return Val{T: t, L: []*Term{obj, Num(0), n, c}}
}

// anyResult: an arbitrary value of a type, newly allocated where it is a reference.
func (ex *Exec) anyResult(st *State, base string, t types.Type) Val {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Slice:
		n := ex.freshR(st, base+".len", SInt, bigZero, maxLen)
		return ex.freshSlice(st, t, n)
	case *types.Interface:
		if typeName(t) == "error" {
			c := ex.fresh(st, base+".fails", SBool)
			return Val{T: t, L: []*Term{Ite(c, ex.errVal(st, base).L[0], NilI())}}
		}
		return Val{T: t, L: []*Term{ex.fresh(st, base, SIf)}}
	case *types.Struct:
		if len(leaves(t)) == 0 {
			return Val{T: t}
		}
		_ = u
	}
	return ex.symVal(st, base, t)
}

// purePkgs: functions of these packages have no effect on the caller's memory.
var purePkgs = map[string]bool{"strings": true, "strconv": true, "fmt": true, "errors": true, "math": true, "bytes": true, "unicode": true, "unicode/utf8": true, "path": true, "path/filepath": true, "net/url": true, "encoding/hex": true, "math/bits": true, "time": true}

var impure = map[string]bool{"fmt.Fprintf": true, "fmt.Fprint": true, "fmt.Fprintln": true, "fmt.Sscanf": true, "fmt.Sscan": true, "fmt.Scan": true, "fmt.Scanf": true, "fmt.Scanln": true}

func pureExternal(fn *ssa.Function) bool {
	if fn.Pkg == nil && fn.Object() == nil {
		return false
	}
	p := ""
	if fn.Pkg != nil {
		p = fn.Pkg.Pkg.Path()
	} else if fn.Object().Pkg() != nil {
		p = fn.Object().Pkg().Path()
	}
	if !purePkgs[p] || impure[fn.String()] {
		return false
	}
	if r := fn.Signature.Recv(); r != nil {
		if _, ok := types.Unalias(r.Type()).(*types.Pointer); ok {
			return false
		}
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if _, ok := fn.Signature.Params().At(i).Type().Underlying().(*types.Signature); ok {
			return false
		}
	}
	return true
}

func modelPure(x *xcall) {
	x.ex.externs[x.fn.String()+" (result arbitrary)"] = true
	var rs []Val
	for i := 0; i < x.results().Len(); i++ {
		rs = append(rs, x.ex.anyResult(x.st, "x_"+x.fn.Name(), x.rt(i)))
	}
	x.ret(rs...)
}

var externs map[string]func(*xcall)
var invokeModels map[string]func(*xcall)

// put writes a leaf of a special struct.
func (x *xcall) put(tname, path string, sort string, p Val, v *Term) {
	x.ex.writeLeaf(x.fr, x.st, tname+"."+path, Leaf{path: path, sort: sort}, p.L[0], p.L[1], v, x.in)
}
func (x *xcall) get(tname, path string, sort string, p Val) *Term {
	return x.st.loadLeaf(tname+"."+path, Leaf{path: path, sort: sort}, p.L[0], p.L[1])
}

func bufWrite(tname string, val func(x *xcall) *Term, res func(x *xcall, v *Term) []Val) func(*xcall) {
	return func(x *xcall) {
		if !x.nonNil(0) {
			return
		}
		v := val(x)
		r := SCat(x.get(tname, "s", SStr, x.args[0]), v)
		x.st.assume(Le(SLen(r), NumB(maxLen)))
		x.put(tname, "s", SStr, x.args[0], r)
		x.ret(res(x, v)...)
	}
}

// modelFprintf: formatted output to a bytes.Buffer or strings.Builder that is known as such.
func modelFprintf(x *xcall) {
	w := x.args[0].L[0]
	for nm, tn := range map[string]string{"I.*bytes.Buffer": "bytes.Buffer", "I.*strings.Builder": "strings.Builder"} {
		if w.op == nm && len(w.args) == 2 {
			v := x.ex.sprintf(x.st, x.args[1:])
			p := Val{L: w.args}
			r := SCat(x.get(tn, "s", SStr, p), v)
			x.st.assume(Le(SLen(r), NumB(maxLen)))
			x.put(tn, "s", SStr, p, r)
			x.ret(x.v(0, SLen(v)), nilErr())
			return
		}
	}
	unsup("fmt.Fprintf to an unknown writer")
}

func argStr(i int) func(*xcall) *Term   { return func(x *xcall) *Term { return x.args[i].L[0] } }
func argChr(i int) func(*xcall) *Term   { return func(x *xcall) *Term { return SChr(x.args[i].L[0]) } }
func argBytes(i int) func(*xcall) *Term { return func(x *xcall) *Term { return x.st.strOf(x.args[i]) } }
func retN(x *xcall, v *Term) []Val      { return []Val{x.v(0, SLen(v)), nilErr()} }
func retE(x *xcall, v *Term) []Val      { return []Val{nilErr()} }

func (x *xcall) sliceCheck(i int, n int64) bool {
	return x.check(Le(Num(n), x.args[i].L[2]), "index out of range")
}

func beGet(n int64) func(*xcall) {
	return func(x *xcall) {
		if !x.sliceCheck(1, n) {
			return
		}
		b := x.args[1]
		m := Select(x.st.get("e:uint8", arrSort(SInt, SInt)), b.L[0])
		r := Num(0)
		for k := int64(0); k < n; k++ {
			t := Select(m, Add(b.L[1], Num(k)))
			if t.lo == nil && t.num == nil {
				t.lo, t.hi = bigZero, big.NewInt(255)
			}
			r = Add(Mul(Num(256), r), t)
		}
		x.ret(x.v(0, r))
	}
}

func bePut(n int64) func(*xcall) {
	return func(x *xcall) {
		if !x.sliceCheck(1, n) {
			return
		}
		b, v := x.args[1], x.args[2].L[0]
		l := Leaf{sort: SInt, lo: bigZero, hi: big.NewInt(255)}
		sum := Num(0)
		for k := int64(0); k < n; k++ {
			d := ModE(DivE(v, NumB(pow2(int(8*(n-1-k))))), Num(256))
			if k == 0 && v.hi != nil && v.hi.BitLen() <= int(8*n) {
				d = DivE(v, NumB(pow2(int(8*(n-1)))))
			}
			sum = Add(Mul(Num(256), sum), d)
			x.ex.writeLeaf(x.fr, x.st, "e:uint8", l, b.L[0], Add(b.L[1], Num(k)), d, x.in)
		}
		x.st.assume(Eq(sum, v))
		x.ret()
	}
}

// sprintf renders a format with known pieces; unknown pieces are arbitrary strings.
func (ex *Exec) sprintf(st *State, args []Val) *Term {
	f, ok := litOf[args[0].L[0]]
	if !ok {
		return ex.fresh(st, "sprintf", SStr)
	}
	m := st.get("e:iface", arrSort(SInt, SIf))
	arg := 0
	nargs := int64(-1)
	if args[1].L[2].num != nil {
		nargs = args[1].L[2].num.Int64()
	}
	var parts []*Term
	lit := ""
	flush := func() {
		if lit != "" {
			parts = append(parts, StrLit(lit))
			lit = ""
		}
	}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		i++
		if i < len(f) && f[i] == '%' {
			lit += "%"
			continue
		}
		if i >= len(f) || int64(arg) >= nargs {
			return ex.fresh(st, "sprintf", SStr)
		}
		flush()
		j := i
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			return ex.fresh(st, "sprintf", SStr)
		}
		x := Select(Select(m, args[1].L[0]), Add(args[1].L[1], Num(int64(arg))))
		arg++
		verb := f[j]
		var r *Term
		if j == i {
			r = ex.fmtArg(st, x, verb)
		}
		if r == nil {
			r = ex.fresh(st, "fmtarg", SStr)
			st.assume(Le(SLen(r), NumB(maxLen)))
		}
		parts = append(parts, r)
		i = j
	}
	flush()
	r := StrEmpty()
	for i := len(parts) - 1; i >= 0; i-- {
		r = SCat(parts[i], r)
	}
	return r
}

func (ex *Exec) fmtArg(st *State, x *Term, verb byte) *Term {
	for _, c := range ictorList {
		if x.op != c.name {
			continue
		}
		ms := types.NewMethodSet(c.t)
		if verb != 'd' && (ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil) {
			return nil
		}
		b, ok := c.t.Underlying().(*types.Basic)
		if !ok {
			return nil
		}
		if b.Info()&types.IsInteger != 0 && (verb == 'v' || verb == 'd') {
			return SDec(x.args[0])
		}
		if b.Info()&types.IsString != 0 && (verb == 'v' || verb == 's') {
			return x.args[0]
		}
	}
	return nil
}

func SDec(n *Term) *Term {
	if n.num != nil {
		return StrLit(n.num.String())
	}
	return App("sdec", SStr, n)
}

func noop(x *xcall) {
	var rs []Val
	for i := 0; i < x.results().Len(); i++ {
		rs = append(rs, x.ex.anyResult(x.st, "noop", x.rt(i)))
	}
	x.ret(rs...)
}

// bufStr is the contents of a strings.Builder or bytes.Buffer; it is in memory,
// so its length is bounded.
func (x *xcall) bufStr(t string) *Term {
	r := x.get(t, "s", SStr, x.args[0])
	x.st.assume(Le(SLen(r), NumB(maxLen)))
	return r
}

func init() {
	DeclFun("sha1", []string{SStr}, SStr)
	DeclFun("hexenc", []string{SStr}, SStr)
	DeclFun("qescape", []string{SStr}, SStr)
	DeclFun("perm_inv", []string{arrSort(SInt, SInt), SInt}, SInt)
	addRawAxioms(`
(assert (! (forall ((s Str)) (! (= (slen (sha1 s)) 20) :pattern ((sha1 s)))) :named ax_sha1))
(assert (! (forall ((s Str)) (! (= (slen (hexenc s)) (* 2 (slen s))) :pattern ((hexenc s)))) :named ax_hexlen))
`)
	sb, bb := "strings.Builder", "bytes.Buffer"
	externs = map[string]func(*xcall){
		"(encoding/binary.bigEndian).Uint16":    beGet(2),
		"(encoding/binary.bigEndian).Uint32":    beGet(4),
		"(encoding/binary.bigEndian).Uint64":    beGet(8),
		"(encoding/binary.bigEndian).PutUint16": bePut(2),
		"(encoding/binary.bigEndian).PutUint32": bePut(4),
		"(encoding/binary.bigEndian).PutUint64": bePut(8),
		"fmt.Sprintf":                           func(x *xcall) { x.ret(x.v(0, x.ex.sprintf(x.st, x.args))) },
		"fmt.Fprintf":                           modelFprintf,
		"fmt.Errorf":                            func(x *xcall) { x.ret(x.ex.errVal(x.st, "errorf")) },
		"errors.New":                            func(x *xcall) { x.ret(x.ex.errVal(x.st, "new")) },
		"fmt.Printf":                            noop, "fmt.Println": noop, "fmt.Print": noop,
		"log.Printf": noop, "log.Println": noop, "log.Print": noop,
		"log.Fatal":  func(x *xcall) { x.ex.endPath() },
		"log.Fatalf": func(x *xcall) { x.ex.endPath() },
		"os.Exit":    func(x *xcall) { x.ex.endPath() },

		"(*strings.Builder).WriteString": bufWrite(sb, argStr(1), retN),
		"(*strings.Builder).WriteByte":   bufWrite(sb, argChr(1), retE),
		"(*strings.Builder).WriteRune":   modelWriteRune,
		"(*strings.Builder).Write":       bufWrite(sb, argBytes(1), retN),
		"(*bytes.Buffer).WriteString":    bufWrite(bb, argStr(1), retN),
		"(*bytes.Buffer).WriteByte":      bufWrite(bb, argChr(1), retE),
		"(*bytes.Buffer).Write":          bufWrite(bb, argBytes(1), retN),
		"(*strings.Builder).String": func(x *xcall) {
			if x.nonNil(0) {
				x.ret(x.v(0, x.bufStr(sb)))
			}
		},
		"(*strings.Builder).Len": func(x *xcall) {
			if x.nonNil(0) {
				x.ret(x.v(0, SLen(x.bufStr(sb))))
			}
		},
		"(*strings.Builder).Grow": func(x *xcall) {
			if x.nonNil(0) && x.check(Le(Num(0), x.args[1].L[0]), "negative Grow") {
				x.ret()
			}
		},
		"(*bytes.Buffer).Grow": func(x *xcall) {
			if x.nonNil(0) && x.check(Le(Num(0), x.args[1].L[0]), "negative Grow") {
				x.ret()
			}
		},
		"(*bytes.Buffer).String": func(x *xcall) {
			if x.nonNil(0) {
				x.ret(x.v(0, x.bufStr(bb)))
			}
		},
		"(*bytes.Buffer).Len": func(x *xcall) {
			if x.nonNil(0) {
				x.ret(x.v(0, SLen(x.bufStr(bb))))
			}
		},
		"(*bytes.Buffer).Bytes": func(x *xcall) {
			if x.nonNil(0) {
				x.ret(x.ex.bytesOf(x.st, x.get(bb, "s", SStr, x.args[0]), x.rt(0)))
			}
		},
		"bytes.Equal": func(x *xcall) {
			x.ret(x.v(0, StrEq(x.st.strOf(x.args[0]), x.st.strOf(x.args[1]))))
		},
		"strings.HasPrefix": func(x *xcall) {
			s, p := x.args[0].L[0], x.args[1].L[0]
			x.ret(x.v(0, And(Le(SLen(p), SLen(s)), StrEq(SSub(s, Num(0), SLen(p)), p))))
		},
		"strconv.FormatUint": modelFormat, "strconv.FormatInt": modelFormat,
		"strconv.Itoa": func(x *xcall) { x.ret(x.v(0, SDec(x.args[0].L[0]))) },
		"encoding/hex.EncodeToString": func(x *xcall) {
			x.ret(x.v(0, App("hexenc", SStr, x.st.strOf(x.args[0]))))
		},
		"net/url.QueryEscape": func(x *xcall) {
			r := App("qescape", SStr, x.args[0].L[0])
			x.ex.typeFacts(x.st, Val{T: x.rt(0), L: []*Term{r}})
			x.ret(x.v(0, r))
		},
		"sort.Strings":    modelSortStrings,
		"slices.Sort":     modelSortStrings,
		"crypto/sha1.New": func(x *xcall) { x.ret(x.v(0, App("I_other", SIf, x.ex.newHash(x.st)))) },
		"crypto/sha1.Sum": func(x *xcall) {
			h := App("sha1", SStr, x.st.strOf(x.args[0]))
			r := x.v(0)
			for i := int64(0); i < 20; i++ {
				r.L = append(r.L, SAt(h, Num(i)))
			}
			x.ret(r)
		},
		"math.Min": func(x *xcall) {
			a, b := x.args[0].L[0], x.args[1].L[0]
			x.ret(x.v(0, Ite(App("<=", SBool, a, b), a, b)))
		},
		"math.Max": func(x *xcall) {
			a, b := x.args[0].L[0], x.args[1].L[0]
			x.ret(x.v(0, Ite(App("<=", SBool, a, b), b, a)))
		},
		"(*sync.Mutex).Lock": lockModel(true, false), "(*sync.Mutex).Unlock": lockModel(false, false),
		"(*sync.RWMutex).Lock": lockModel(true, false), "(*sync.RWMutex).Unlock": lockModel(false, false),
		"(*sync.RWMutex).RLock": lockModel(true, true), "(*sync.RWMutex).RUnlock": lockModel(false, true),
		"(*sync.WaitGroup).Add": noopLock, "(*sync.WaitGroup).Done": noopLock, "(*sync.WaitGroup).Wait": noopLock,
		"(*sync.Once).Do": modelOnce,
		"sync/atomic.AddInt64": func(x *xcall) {
			if !x.nonNil(0) {
				return
			}
			b := types.Typ[types.Int64]
			v := x.ex.load(x.st, x.args[0])
			r := Val{T: b, L: []*Term{wrapInt(Add(v.L[0], x.args[1].L[0]), b)}}
			x.ex.store(x.fr, x.st, x.args[0], r, x.in)
			x.ret(x.v(0, r.L...))
		},
		"sync/atomic.LoadInt64": func(x *xcall) {
			if x.nonNil(0) {
				x.ret(x.ex.load(x.st, x.args[0]))
			}
		},
		"sync/atomic.StoreInt64": func(x *xcall) {
			if x.nonNil(0) {
				x.ex.store(x.fr, x.st, x.args[0], x.args[1], x.in)
				x.ret()
			}
		},
	}
	invokeModels = map[string]func(*xcall){
		"hash.Hash.Write": func(x *xcall) {
			h := App("otag", SInt, x.args[0].L[0])
			if x.args[0].L[0].op == "I_other" {
				h = x.args[0].L[0].args[0]
			}
			s := x.st.strOf(x.args[1])
			l := Leaf{sort: SStr}
			x.ex.writeLeaf(x.fr, x.st, "hash.s", l, h, Num(0), SCat(x.st.loadLeaf("hash.s", l, h, Num(0)), s), x.in)
			x.ret(x.v(0, x.args[1].L[2]), nilErr())
		},
		"hash.Hash.Sum": func(x *xcall) {
			h := App("otag", SInt, x.args[0].L[0])
			if x.args[0].L[0].op == "I_other" {
				h = x.args[0].L[0].args[0]
			}
			d := App("sha1", SStr, x.st.loadLeaf("hash.s", Leaf{sort: SStr}, h, Num(0)))
			pre := StrEmpty()
			if x.args[1].L[2].num == nil || x.args[1].L[2].num.Sign() != 0 {
				pre = x.st.strOf(x.args[1])
			}
			x.ret(x.ex.bytesOf(x.st, SCat(pre, d), x.rt(0)))
		},
		"error.Error": func(x *xcall) { x.ret(x.ex.symVal(x.st, "errstr", types.Typ[types.String])) },
	}
	moreExterns()
}

func modelWriteRune(x *xcall) {
	if !x.nonNil(0) {
		return
	}
	r := x.args[1].L[0]
	s := x.ex.fresh(x.st, "runestr", SStr)
	x.st.assume(Imp(And(Le(Num(0), r), Lt(r, Num(128))), Eq(s, SChr(r))))
	x.st.assume(Le(SLen(s), Num(4)))
	x.put("strings.Builder", "s", SStr, x.args[0], SCat(x.get("strings.Builder", "s", SStr, x.args[0]), s))
	x.ret(x.v(0, SLen(s)), nilErr())
}

func (ex *Exec) newHash(st *State) *Term {
	obj := st.alloc
	st.alloc = Add(st.alloc, Num(blockUnit))
	inner := arrSort(SInt, SStr)
	st.mem["hash.s"] = Store(st.get("hash.s", inner), obj, ConstArr(inner, StrEmpty()))
	return obj
}

// lockModel: sequential semantics; what is locked must be unlocked by the same call.
func lockModel(lock, read bool) func(x *xcall) {
	return func(x *xcall) {
		if !x.nonNil(0) {
			return
		}
		x.ex.assumptions["locks give mutual exclusion and are never blocked for ever by other goroutines (sequential semantics)"] = true
		o, i := x.args[0].L[0], x.args[0].L[1]
		at := x.ex.pos(x.in)
		if lock {
			for _, h := range x.st.locks {
				if h.obj == o && h.idx == i && !(h.read && read) {
					x.ex.oblige(x.st, "locks", "mutex locked at "+h.at+" is locked again (deadlock)", at, False, nil)
					x.ex.endPath()
					return
				}
			}
			x.st.locks = append(x.st.locks, lockHeld{o, i, read, at})
			x.ret()
			return
		}
		for k := len(x.st.locks) - 1; k >= 0; k-- {
			if h := x.st.locks[k]; h.obj == o && h.idx == i && h.read == read {
				x.st.locks = append(append([]lockHeld(nil), x.st.locks[:k]...), x.st.locks[k+1:]...)
				x.ret()
				return
			}
		}
		if len(x.st.locks) == 1 && x.st.locks[0].read == read {
			h := x.st.locks[0]
			x.ex.oblige(x.st, "locks", "unlock of a mutex that is not locked", at, And(Eq(h.obj, o), Eq(h.idx, i)), nil)
			x.st.locks = nil
			x.ret()
			return
		}
		x.ex.oblige(x.st, "locks", "unlock of a mutex that is not locked", at, False, nil)
		x.ex.endPath()
	}
}

func noopLock(x *xcall) {
	if x.nonNil(0) {
		x.ret()
	}
}

func modelFormat(x *xcall) {
	if n := x.args[1].L[0]; n.num != nil && n.num.Int64() == 10 {
		x.ret(x.v(0, SDec(x.args[0].L[0])))
		return
	}
	modelPure(x)
}

func modelOnce(x *xcall) {
	if !x.nonNil(0) {
		return
	}
	f := x.args[1]
	if f.fn == nil {
		unsup("Once.Do of an unknown function")
	}
	done := x.get("sync.Once", "done", SBool, x.args[0])
	x.fork(done, func(y *xcall) { y.ret() })
	x.fork(Not(done), func(y *xcall) {
		y.put("sync.Once", "done", SBool, y.args[0], True)
		y.ex.callFn(y.fr, y.st, y.in, f.fn, nil, func(st *State, fr *Frame, _ []Val) { y.k(st, fr, nil) })
	})
}

// modelSortStrings: the elements are permuted into ascending order.
func modelSortStrings(x *xcall) {
	s := x.args[0]
	el := types.Unalias(s.T).Underlying().(*types.Slice).Elem()
	if b, ok := el.Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
		unsup("sorting %s", typeName(s.T))
	}
	st, ex := x.st, x.ex
	key := "e:" + elemKey(el)
	inner := arrSort(SInt, SStr)
	it := ModItem{key: key, inner: inner, obj: s.L[0], lo: s.L[1], hi: Add(s.L[1], s.L[2])}
	ex.w.keyLeaf[key] = Leaf{sort: SStr}
	ex.checkWriteItem(x.fr, st, it, x.in)
	old := Select(st.get(key, inner), s.L[0])
	ex.havocItem(st, it, "sort")
	nw := Select(st.get(key, inner), s.L[0])
	perm := ex.fresh(st, "perm", arrSort(SInt, SInt))
	i, j := BoundVar("i", SInt), BoundVar("j", SInt)
	off, n := s.L[1], s.L[2]
	in := func(t *Term) *Term { return And(Le(off, t), Lt(t, Add(off, n))) }
	pi := App("select", SInt, perm, i)
	ni := App("select", SStr, nw, i)
	oj := Select(old, j)
	inv := App("perm_inv", SInt, perm, j)
	st.assume(Forall([]*Term{i}, Imp(in(i), And(in(pi), Eq(ni, Select(old, pi)), Eq(App("perm_inv", SInt, perm, pi), i))), []*Term{ni}, []*Term{pi}))
	pats := [][]*Term{{inv}}
	if oj.op == "select" {
		pats = append(pats, []*Term{oj})
	}
	st.assume(Forall([]*Term{j}, Imp(in(j), And(in(inv), Eq(App("select", SInt, perm, inv), j), Eq(App("select", SStr, nw, inv), oj))), pats...))
	nj := App("select", SStr, nw, j)
	st.assume(Forall([]*Term{i, j}, Imp(And(in(i), in(j), Lt(i, j)), Not(App("strlt", SBool, nj, ni))), []*Term{ni, nj}))
	x.ret()
}

var _ = fmt.Sprint
