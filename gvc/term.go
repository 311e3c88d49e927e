package main

// Hash-consed SMT terms with light simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
)

type Term struct {
	op    string
	args  []*Term
	sort  string
	id    int
	num   *big.Int // integer constant
	lo    *big.Int // known interval (nil: unbounded)
	hi    *big.Int
	bvs   []*Term // quantifier: bound variables
	pats  [][]*Term
	bound bool            // contains a bound variable
	syms  map[string]bool // free symbols (lazily)
	str   atomic.Pointer[string]
}

const (
	SInt  = "Int"
	SBool = "Bool"
	SStr  = "Str"
	SReal = "Real"
	SIf   = "Iface"
)

func arrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

// splitArr returns the key and value sorts of an array sort.
func splitArr(s string) (string, string) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	body := s[7 : len(s)-1]
	d := 0
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return body[:i], body[i+1:]
			}
		}
	}
	panic("bad array sort: " + s)
}

var (
	termTab = map[string]*Term{}
	termMu  sync.Mutex
	termN   int
	declTab = map[string]string{} // symbol -> declaration
)

var declMu sync.RWMutex

func declGet(name string) (string, bool) {
	declMu.RLock()
	defer declMu.RUnlock()
	d, ok := declTab[name]
	return d, ok
}

func declSet(name, d string) {
	declMu.Lock()
	declTab[name] = d
	declMu.Unlock()
}

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.sort)
	for _, a := range t.args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	for _, b := range t.bvs {
		fmt.Fprintf(&sb, "|b%d", b.id)
	}
	for _, p := range t.pats {
		sb.WriteString("|p")
		for _, x := range p {
			fmt.Fprintf(&sb, ",%d", x.id)
		}
	}
	k := sb.String()
	termMu.Lock()
	defer termMu.Unlock()
	if o, ok := termTab[k]; ok {
		return o
	}
	termN++
	t.id = termN
	for _, a := range t.args {
		if a.bound {
			t.bound = true
		}
	}
	termTab[k] = t
	return t
}

var (
	bigZero = big.NewInt(0)
	bigOne  = big.NewInt(1)
)

func pow2(n int) *big.Int { return new(big.Int).Lsh(bigOne, uint(n)) }

func Num(n int64) *Term { return NumB(big.NewInt(n)) }
func NumB(n *big.Int) *Term {
	s := n.String()
	if n.Sign() < 0 {
		s = "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return intern(&Term{op: s, sort: SInt, num: n, lo: n, hi: n})
}

var True = intern(&Term{op: "true", sort: SBool})
var False = intern(&Term{op: "false", sort: SBool})

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

// Sym declares (once) and returns a constant symbol.
func Sym(name, sort string) *Term {
	name = smtName(name)
	if d, ok := declGet(name); ok {
		if d != "() "+sort {
			panic("symbol " + name + " redeclared: " + d + " vs " + sort)
		}
	} else {
		declSet(name, "() "+sort)
	}
	return intern(&Term{op: name, sort: sort})
}

func SymR(name string, lo, hi *big.Int) *Term {
	t := Sym(name, SInt)
	if t.lo == nil && t.hi == nil {
		t.lo, t.hi = lo, hi
	}
	return t
}

var symCount = map[string]int{}

// Fresh makes a symbol with a new name.
func Fresh(base, sort string) *Term {
	symCount[base]++
	n := symCount[base]
	return Sym(fmt.Sprintf("%s!%d", base, n), sort)
}

func smtName(s string) string {
	ok := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("_.!$@?/<>-+*%", c) >= 0) {
			ok = false
		}
	}
	if ok {
		return s
	}
	return "|" + strings.ReplaceAll(strings.ReplaceAll(s, "|", "!"), "\\", "!") + "|"
}

// DeclFun registers an uninterpreted function; arguments sorts and result sort.
func DeclFun(name string, args []string, res string) {
	termMu.Lock()
	defer termMu.Unlock()
	d := "(" + strings.Join(args, " ") + ") " + res
	if o, ok := declGet(name); ok && o != d {
		panic("function " + name + " redeclared: " + o + " vs " + d)
	}
	declSet(name, d)
}

func App(op, sort string, args ...*Term) *Term {
	return intern(&Term{op: op, sort: sort, args: args})
}

func AppR(op string, lo, hi *big.Int, args ...*Term) *Term {
	t := App(op, SInt, args...)
	if t.lo == nil && t.hi == nil {
		t.lo, t.hi = lo, hi
	}
	return t
}

func (t *Term) isNum() bool { return t.num != nil }

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == True {
			return true
		}
		if t == False {
			return false
		}
		if t.op == "and" {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		seen[t.id] = true
		if seen[Not(t).id] {
			return false
		}
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return App("and", SBool, out...)
}

func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == False {
			return true
		}
		if t == True {
			return false
		}
		if t.op == "or" {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		seen[t.id] = true
		if t.op == "not" && seen[t.args[0].id] {
			return false
		}
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return App("or", SBool, out...)
}

func Not(t *Term) *Term {
	switch {
	case t == True:
		return False
	case t == False:
		return True
	case t.op == "not":
		return t.args[0]
	}
	return App("not", SBool, t)
}

func Imp(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True || a == b {
		return True
	}
	if b == False {
		return Not(a)
	}
	if b.op == "=>" {
		return Imp(And(a, b.args[0]), b.args[1])
	}
	return App("=>", SBool, a, b)
}

func Iff(a, b *Term) *Term { return Eq(a, b) }

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts differ: %s:%s vs %s:%s", a, a.sort, b, b.sort))
	}
	if a.num != nil && b.num != nil {
		return BoolT(a.num.Cmp(b.num) == 0)
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.sort == SInt {
		if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) < 0 {
			return False
		}
		if b.hi != nil && a.lo != nil && b.hi.Cmp(a.lo) < 0 {
			return False
		}
		// x+c1 = x+c2
		ba, ca := splitConst(a)
		bb, cb := splitConst(b)
		if ba == bb && ba != nil {
			return BoolT(ca.Cmp(cb) == 0)
		}
		if b.num != nil && ba != nil && ca.Sign() != 0 {
			return Eq(ba, NumB(new(big.Int).Sub(b.num, ca)))
		}
		if a.op == "ite" && b.num != nil && a.args[1].num != nil && a.args[2].num != nil {
			return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
		if b.op == "ite" && a.num != nil && b.args[1].num != nil && b.args[2].num != nil {
			return Ite(b.args[0], Eq(b.args[1], a), Eq(b.args[2], a))
		}
	}
	if ctors[a.op] && ctors[b.op] {
		if a.op != b.op {
			return False
		}
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return App("=", SBool, a, b)
}

// ctors: datatype constructors (distinct, injective)
var ctors = map[string]bool{}

func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.sort == SBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	t := App("ite", a.sort, c, a, b)
	if t.sort == SInt && t.lo == nil && t.hi == nil {
		if a.lo != nil && b.lo != nil {
			t.lo = minB(a.lo, b.lo)
		}
		if a.hi != nil && b.hi != nil {
			t.hi = maxB(a.hi, b.hi)
		}
	}
	return t
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

// splitConst views t as base + c.
func splitConst(t *Term) (*Term, *big.Int) {
	if t.num != nil {
		return nil, t.num
	}
	if t.op == "+" && t.args[len(t.args)-1].num != nil {
		if len(t.args) == 2 {
			return t.args[0], t.args[1].num
		}
		return App("+", SInt, t.args[:len(t.args)-1]...), t.args[len(t.args)-1].num
	}
	return t, bigZero
}

// linear form: sum of coeff*atom + const
type lin struct {
	atoms map[*Term]*big.Int
	c     *big.Int
}

func linOf(t *Term) lin {
	l := lin{map[*Term]*big.Int{}, new(big.Int)}
	var add func(t *Term, k *big.Int)
	add = func(t *Term, k *big.Int) {
		if t.num != nil {
			l.c.Add(l.c, new(big.Int).Mul(k, t.num))
			return
		}
		switch t.op {
		case "+":
			for _, a := range t.args {
				add(a, k)
			}
			return
		case "-":
			if len(t.args) == 2 {
				add(t.args[0], k)
				add(t.args[1], new(big.Int).Neg(k))
				return
			}
			if len(t.args) == 1 {
				add(t.args[0], new(big.Int).Neg(k))
				return
			}
		case "*":
			if t.args[0].num != nil && len(t.args) == 2 {
				add(t.args[1], new(big.Int).Mul(k, t.args[0].num))
				return
			}
		}
		o, ok := l.atoms[t]
		if !ok {
			o = new(big.Int)
			l.atoms[t] = o
		}
		o.Add(o, k)
	}
	add(t, bigOne)
	return l
}

func (l lin) term() *Term {
	var ks []*Term
	for a, k := range l.atoms {
		if k.Sign() != 0 {
			ks = append(ks, a)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var out []*Term
	var lo, hi *big.Int = l.c, l.c
	for _, a := range ks {
		k := l.atoms[a]
		var t *Term
		if k.Cmp(bigOne) == 0 {
			t = a
		} else {
			t = App("*", SInt, NumB(k), a)
		}
		out = append(out, t)
		al, ah := a.lo, a.hi
		if k.Sign() < 0 {
			al, ah = ah, al
		}
		if lo != nil && al != nil {
			lo = new(big.Int).Add(lo, new(big.Int).Mul(k, al))
		} else {
			lo = nil
		}
		if hi != nil && ah != nil {
			hi = new(big.Int).Add(hi, new(big.Int).Mul(k, ah))
		} else {
			hi = nil
		}
	}
	if len(out) == 0 {
		return NumB(l.c)
	}
	if l.c.Sign() != 0 {
		out = append(out, NumB(l.c))
	}
	if len(out) == 1 {
		r := out[0]
		if r.lo == nil && r.hi == nil {
			r.lo, r.hi = lo, hi
		}
		return r
	}
	r := App("+", SInt, out...)
	if r.lo == nil && r.hi == nil {
		r.lo, r.hi = lo, hi
	}
	return r
}

func Add(a, b *Term) *Term {
	if a.sort == SReal {
		return App("+", SReal, a, b)
	}
	l := linOf(a)
	m := linOf(b)
	for t, k := range m.atoms {
		if o, ok := l.atoms[t]; ok {
			l.atoms[t] = new(big.Int).Add(o, k)
		} else {
			l.atoms[t] = k
		}
	}
	l.c = new(big.Int).Add(l.c, m.c)
	return l.term()
}

func Neg(a *Term) *Term { return Mul(Num(-1), a) }
func Sub(a, b *Term) *Term {
	if a.sort == SReal {
		return App("-", SReal, a, b)
	}
	return Add(a, Neg(b))
}

func Mul(a, b *Term) *Term {
	if a.sort == SReal {
		return App("*", SReal, a, b)
	}
	if b.num != nil {
		a, b = b, a
	}
	if a.num != nil {
		if b.num != nil {
			return NumB(new(big.Int).Mul(a.num, b.num))
		}
		l := linOf(b)
		for t, k := range l.atoms {
			l.atoms[t] = new(big.Int).Mul(k, a.num)
		}
		l.c = new(big.Int).Mul(l.c, a.num)
		return l.term()
	}
	la, lb := linOf(a), linOf(b)
	na, nb := len(la.atoms), len(lb.atoms)
	if (na > 1 || nb > 1 || la.c.Sign() != 0 || lb.c.Sign() != 0) && na*nb <= 12 {
		// distribute: products become sums of monomials, so that what remains is linear in them
		r := lin{atoms: map[*Term]*big.Int{}, c: new(big.Int).Mul(la.c, lb.c)}
		add := func(t *Term, k *big.Int) {
			if o, ok := r.atoms[t]; ok {
				r.atoms[t] = new(big.Int).Add(o, k)
			} else {
				r.atoms[t] = k
			}
		}
		for t, k := range la.atoms {
			if lb.c.Sign() != 0 {
				add(t, new(big.Int).Mul(k, lb.c))
			}
			for u, m := range lb.atoms {
				p := linOf(monomial(t, u))
				for v, c := range p.atoms {
					add(v, new(big.Int).Mul(c, new(big.Int).Mul(k, m)))
				}
			}
		}
		if la.c.Sign() != 0 {
			for u, m := range lb.atoms {
				add(u, new(big.Int).Mul(m, la.c))
			}
		}
		return r.term()
	}
	return monomial(a, b)
}

func iteCount(t *Term) int {
	n := 0
	if t.op == "ite" {
		n = 1 + iteCount(t.args[1]) + iteCount(t.args[2])
	} else if t.op == "+" || t.op == "*" {
		for _, a := range t.args {
			n += iteCount(a)
		}
	}
	return n
}

// monomial: the product of two non-linear atoms.
func monomial(a, b *Term) *Term {
	var fs []*Term
	var fl func(t *Term)
	fl = func(t *Term) {
		if t.op == "*" && t.args[0].num == nil {
			for _, x := range t.args {
				fl(x)
			}
			return
		}
		fs = append(fs, t)
	}
	fl(a)
	fl(b)
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	r := fs[0]
	for _, f := range fs[1:] {
		r = mul2(r, f)
	}
	return r
}

func mul2(a, b *Term) *Term {
	// wrap-around arithmetic is an if-then-else: multiply its branches
	if a.op == "ite" && iteCount(a)+iteCount(b) <= 6 {
		return Ite(a.args[0], Mul(a.args[1], b), Mul(a.args[2], b))
	}
	if b.op == "ite" && iteCount(a)+iteCount(b) <= 6 {
		return Ite(b.args[0], Mul(a, b.args[1]), Mul(a, b.args[2]))
	}
	t := App("*", SInt, a, b)
	if t.lo == nil && t.hi == nil && a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
		var ps []*big.Int
		for _, x := range []*big.Int{a.lo, a.hi} {
			for _, y := range []*big.Int{b.lo, b.hi} {
				ps = append(ps, new(big.Int).Mul(x, y))
			}
		}
		lo, hi := ps[0], ps[0]
		for _, p := range ps {
			lo, hi = minB(lo, p), maxB(hi, p)
		}
		t.lo, t.hi = lo, hi
	}
	return t
}

func Le(a, b *Term) *Term {
	if a.sort == SReal {
		return App("<=", SBool, a, b)
	}
	if a == b {
		return True
	}
	if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) <= 0 {
		return True
	}
	if a.lo != nil && b.hi != nil && a.lo.Cmp(b.hi) > 0 {
		return False
	}
	d := Sub(b, a) // a <= b iff d >= 0
	if d.num != nil {
		return BoolT(d.num.Sign() >= 0)
	}
	if d.lo != nil && d.lo.Sign() >= 0 {
		return True
	}
	if d.hi != nil && d.hi.Sign() < 0 {
		return False
	}
	// normalise: sum of positive parts on the right
	l := linOf(d)
	pos := lin{map[*Term]*big.Int{}, new(big.Int)}
	neg := lin{map[*Term]*big.Int{}, new(big.Int)}
	for t, k := range l.atoms {
		if k.Sign() > 0 {
			pos.atoms[t] = k
		} else if k.Sign() < 0 {
			neg.atoms[t] = new(big.Int).Neg(k)
		}
	}
	if l.c.Sign() > 0 {
		pos.c = l.c
	} else {
		neg.c = new(big.Int).Neg(l.c)
	}
	return App("<=", SBool, neg.term(), pos.term())
}
func Lt(a, b *Term) *Term {
	if a.sort == SReal {
		return App("<", SBool, a, b)
	}
	return Not(Le(b, a))
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// floor division/modulus by a positive constant, or Euclidean SMT div otherwise
func DivE(a, b *Term) *Term {
	if a.num != nil && b.num != nil && b.num.Sign() > 0 {
		q := new(big.Int)
		q.Div(a.num, b.num)
		return NumB(q)
	}
	if b.num != nil && b.num.Cmp(bigOne) == 0 {
		return a
	}
	if b.num != nil && b.num.Sign() > 0 && a.lo != nil && a.hi != nil {
		return AppR("div", new(big.Int).Div(a.lo, b.num), new(big.Int).Div(a.hi, b.num), a, b)
	}
	return App("div", SInt, a, b)
}
func ModE(a, b *Term) *Term {
	if a.num != nil && b.num != nil && b.num.Sign() > 0 {
		q := new(big.Int)
		q.Mod(a.num, b.num)
		return NumB(q)
	}
	if b.num != nil && b.num.Sign() > 0 {
		if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(b.num) < 0 {
			return a
		}
		return AppR("mod", bigZero, new(big.Int).Sub(b.num, bigOne), a, b)
	}
	return App("mod", SInt, a, b)
}

func Select(a, i *Term) *Term {
	_, v := splitArr(a.sort)
	for {
		if a.op == "store" {
			e := Eq(a.args[1], i)
			if e == True {
				return a.args[2]
			}
			if e == False {
				a = a.args[0]
				continue
			}
		}
		if strings.HasPrefix(a.op, "(as const") {
			return a.args[0]
		}
		break
	}
	if a.op == "ite" && (a.args[1].op == "store" || a.args[2].op == "store") && !i.bound {
		return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
	}
	return App("select", v, a, i)
}

func Store(a, i, v *Term) *Term {
	_, vs := splitArr(a.sort)
	if vs != v.sort {
		panic("Store sort mismatch: " + a.sort + " <- " + v.sort)
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return App("store", a.sort, a, i, v)
}

func ConstArr(sort string, v *Term) *Term {
	return App("(as const "+sort+")", sort, v)
}

var bvCount int

func BoundVar(name, sort string) *Term {
	bvCount++
	t := intern(&Term{op: fmt.Sprintf("%s?%d", name, bvCount), sort: sort})
	t.bound = true
	return t
}

func Forall(bvs []*Term, body *Term, pats ...[]*Term) *Term {
	if body == True || body == False {
		return body
	}
	t := intern(&Term{op: "forall", sort: SBool, args: []*Term{body}, bvs: bvs, pats: pats})
	t.fixBound()
	return t
}
func Exists(bvs []*Term, body *Term, pats ...[]*Term) *Term {
	if body == True || body == False {
		return body
	}
	t := intern(&Term{op: "exists", sort: SBool, args: []*Term{body}, bvs: bvs, pats: pats})
	t.fixBound()
	return t
}

func (t *Term) fixBound() {
	// a quantifier is bound only if it has outer bound variables
	own := map[*Term]bool{}
	for _, b := range t.bvs {
		own[b] = true
	}
	fv := map[*Term]bool{}
	freeBVs(t.args[0], fv, map[*Term]bool{})
	t.bound = false
	for v := range fv {
		if !own[v] {
			t.bound = true
		}
	}
}

func freeBVs(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	if !t.bound || seen[t] {
		return
	}
	seen[t] = true
	if len(t.args) == 0 {
		out[t] = true
		return
	}
	if len(t.bvs) > 0 {
		sub := map[*Term]bool{}
		freeBVs(t.args[0], sub, map[*Term]bool{})
		for _, b := range t.bvs {
			delete(sub, b)
		}
		for v := range sub {
			out[v] = true
		}
		return
	}
	for _, a := range t.args {
		freeBVs(a, out, seen)
	}
}

// String prints an SMT-LIB term (without sharing).
func (t *Term) String() string {
	if p := t.str.Load(); p != nil {
		return *p
	}
	var sb strings.Builder
	t.write(&sb)
	s := sb.String()
	if len(s) < 4000 {
		t.str.Store(&s)
	}
	return s
}

func (t *Term) write(sb *strings.Builder) {
	if len(t.bvs) > 0 {
		sb.WriteString("(" + t.op + " (")
		for _, b := range t.bvs {
			sb.WriteString("(" + b.op + " " + b.sort + ")")
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		t.args[0].write(sb)
		if len(t.pats) > 0 {
			for _, p := range t.pats {
				sb.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						sb.WriteByte(' ')
					}
					x.write(sb)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	}
	if len(t.args) == 0 {
		sb.WriteString(t.op)
		return
	}
	sb.WriteByte('(')
	sb.WriteString(t.op)
	for _, a := range t.args {
		sb.WriteByte(' ')
		if p := a.str.Load(); p != nil {
			sb.WriteString(*p)
		} else {
			a.write(sb)
		}
	}
	sb.WriteByte(')')
}

// Subst replaces terms (by identity) in t.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		ch := false
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = f(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, as, f)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func rebuild(t *Term, as []*Term, f func(*Term) *Term) *Term {
	if len(t.bvs) > 0 {
		var pats [][]*Term
		for _, p := range t.pats {
			var q []*Term
			for _, x := range p {
				q = append(q, f(x))
			}
			pats = append(pats, q)
		}
		if t.op == "forall" {
			return Forall(t.bvs, as[0], pats...)
		}
		return Exists(t.bvs, as[0], pats...)
	}
	switch t.op {
	case "and":
		return And(as...)
	case "or":
		return Or(as...)
	case "not":
		return Not(as[0])
	case "=>":
		return Imp(as[0], as[1])
	case "=":
		return Eq(as[0], as[1])
	case "ite":
		return Ite(as[0], as[1], as[2])
	case "+":
		if t.sort == SInt {
			r := as[0]
			for _, a := range as[1:] {
				r = Add(r, a)
			}
			return r
		}
	case "*":
		if t.sort == SInt {
			return Mul(as[0], as[1])
		}
	case "<=":
		return Le(as[0], as[1])
	case "div":
		return DivE(as[0], as[1])
	case "mod":
		return ModE(as[0], as[1])
	case "select":
		return Select(as[0], as[1])
	case "store":
		return Store(as[0], as[1], as[2])
	}
	n := App(t.op, t.sort, as...)
	if t.sort == SInt && n.lo == nil && n.hi == nil && !strings.Contains("+-*", t.op) {
		// function results keep their declared range
		n.lo, n.hi = t.lo, t.hi
	}
	return n
}

// collectSyms gathers the function/constant symbols used.
func collectSyms(t *Term, out map[string]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if len(t.bvs) == 0 {
		out[t.op] = true
	}
	for _, a := range t.args {
		collectSyms(a, out, seen)
	}
	for _, p := range t.pats {
		for _, x := range p {
			collectSyms(x, out, seen)
		}
	}
}

func (t *Term) contains(x *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}
