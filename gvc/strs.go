package main

// The Str theory (uninterpreted sort with axioms) and the Iface datatype.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

var litOf = map[*Term]string{}
var litTab = map[string]*Term{}

// symDefs: facts that always accompany a symbol
var symDefs = map[string][]*Term{}

func addDef(t *Term, fs ...*Term) {
	for _, f := range fs {
		dup := false
		for _, g := range symDefs[t.op] {
			if g == f {
				dup = true
			}
		}
		if !dup {
			symDefs[t.op] = append(symDefs[t.op], f)
		}
	}
}

func init() {
	DeclFun("slen", []string{SStr}, SInt)
	DeclFun("sat", []string{SStr, SInt}, SInt)
	DeclFun("scat", []string{SStr, SStr}, SStr)
	DeclFun("ssub", []string{SStr, SInt, SInt}, SStr)
	DeclFun("sof", []string{arrSort(SInt, SInt), SInt, SInt}, SStr)
	DeclFun("schr", []string{SInt}, SStr)
	DeclFun("streq", []string{SStr, SStr}, SBool)
	DeclFun("sdiff", []string{SStr, SStr}, SInt)
	DeclFun("sempty", nil, SStr)
	DeclFun("strlt", []string{SStr, SStr}, SBool)
	DeclFun("arrcopy", []string{arrSort(SInt, SInt), SInt, arrSort(SInt, SInt), SInt, SInt}, arrSort(SInt, SInt))
	DeclFun("sarr", []string{SStr}, arrSort(SInt, SInt))
	DeclFun("sdec", []string{SInt}, SStr)
	DeclFun("pow2", []string{SInt}, SInt)
	DeclFun("band", []string{SInt, SInt}, SInt)
	DeclFun("bor", []string{SInt, SInt}, SInt)
	DeclFun("bxor", []string{SInt, SInt}, SInt)
	DeclFun("btu", []string{SInt}, SInt)
	DeclFun("b8", []string{SInt, SInt}, SInt)
	declSet("sempty", "() Str")
	litTab[""] = StrEmpty()
	litOf[StrEmpty()] = ""
}

func StrEmpty() *Term { return intern(&Term{op: "sempty", sort: SStr}) }

func StrLit(s string) *Term {
	if t, ok := litTab[s]; ok {
		return t
	}
	name := fmt.Sprintf("lit%d", len(litTab))
	if len(s) <= 24 {
		ok := true
		for i := 0; i < len(s); i++ {
			if s[i] < 33 || s[i] > 126 || s[i] == '|' || s[i] == '\\' || s[i] == '"' {
				ok = false
			}
		}
		if ok {
			name = "lit:" + s
		}
	}
	t := Sym(name, SStr)
	litTab[s] = t
	litOf[t] = s
	// raw facts (not simplified away)
	fs := []*Term{App("=", SBool, App("slen", SInt, t), Num(int64(len(s))))}
	for i := 0; i < len(s); i++ {
		fs = append(fs, App("=", SBool, App("sat", SInt, t, Num(int64(i))), Num(int64(s[i]))))
	}
	symDefs[t.op] = fs
	return t
}

func SLen(s *Term) *Term {
	if l, ok := litOf[s]; ok {
		return Num(int64(len(l)))
	}
	switch s.op {
	case "scat":
		return Add(SLen(s.args[0]), SLen(s.args[1]))
	case "schr":
		return Num(1)
	case "sof":
		if s.args[2].lo != nil && s.args[2].lo.Sign() >= 0 {
			return s.args[2]
		}
	case "ite":
		return Ite(s.args[0], SLen(s.args[1]), SLen(s.args[2]))
	}
	return AppR("slen", bigZero, nil, s)
}

func SAt(s, i *Term) *Term {
	if l, ok := litOf[s]; ok && i.num != nil && i.num.IsInt64() {
		k := i.num.Int64()
		if k >= 0 && k < int64(len(l)) {
			return Num(int64(l[k]))
		}
	}
	return AppR("sat", bigZero, big.NewInt(255), s, i)
}

func SChr(c *Term) *Term {
	if c.num != nil && c.num.IsInt64() && c.num.Int64() >= 0 && c.num.Int64() < 256 {
		return StrLit(string([]byte{byte(c.num.Int64())}))
	}
	return App("schr", SStr, c)
}

func SCat(a, b *Term) *Term {
	la, oka := litOf[a]
	lb, okb := litOf[b]
	if oka && la == "" {
		return b
	}
	if okb && lb == "" {
		return a
	}
	if oka && okb {
		return StrLit(la + lb)
	}
	if a.op == "scat" {
		return SCat(a.args[0], SCat(a.args[1], b))
	}
	if oka && b.op == "scat" {
		if l2, ok := litOf[b.args[0]]; ok {
			return SCat(StrLit(la+l2), b.args[1])
		}
	}
	return App("scat", SStr, a, b)
}

func SSub(s, i, j *Term) *Term {
	if i.num != nil && i.num.Sign() == 0 && j == SLen(s) {
		return s
	}
	if l, ok := litOf[s]; ok && i.num != nil && j.num != nil {
		a, b := i.num.Int64(), j.num.Int64()
		if 0 <= a && a <= b && b <= int64(len(l)) {
			return StrLit(l[a:b])
		}
	}
	return App("ssub", SStr, s, i, j)
}

func SOf(arr, off, n *Term) *Term {
	if n.num != nil && n.num.Sign() == 0 {
		return StrEmpty()
	}
	if arr.op == "sarr" && off.num != nil && off.num.Sign() == 0 && n == SLen(arr.args[0]) {
		return arr.args[0]
	}
	return App("sof", SStr, arr, off, n)
}

func StrEq(a, b *Term) *Term {
	if a == b {
		return True
	}
	la, oka := litOf[a]
	lb, okb := litOf[b]
	if oka && okb {
		return BoolT(la == lb)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return App("streq", SBool, a, b)
}

// EqV is the program-level equality of leaf values.
func EqV(a, b *Term) *Term {
	if a.sort == SStr {
		return StrEq(a, b)
	}
	return Eq(a, b)
}

const axStr = `
(assert (! (forall ((k Int)) (! (= (b8 0 k) 0) :pattern ((b8 0 k)))) :named ax_b8_0))
(assert (! (forall ((k Int)) (! (=> (and (<= 0 k) (< k 8)) (= (b8 255 k) 1)) :pattern ((b8 255 k)))) :named ax_b8_255))
(assert (! (forall ((x Int) (k Int)) (! (and (<= 0 (b8 x k)) (<= (b8 x k) 1)) :pattern ((b8 x k)))) :named ax_b8_r))
(assert (! (forall ((a Str) (b Str)) (! (= (streq a b) (= a b)) :pattern ((streq a b)))) :named ax_streq))
(assert (! (forall ((a Str) (b Str)) (! (or (streq a b) (not (= (slen a) (slen b))) (and (<= 0 (sdiff a b)) (< (sdiff a b) (slen a)) (not (= (sat a (sdiff a b)) (sat b (sdiff a b)))))) :pattern ((streq a b)))) :named ax_strext))
(assert (! (forall ((a Str)) (! (<= 0 (slen a)) :pattern ((slen a)))) :named ax_slen))
(assert (! (forall ((a Str)) (! (=> (= (slen a) 0) (= a sempty)) :pattern ((slen a)))) :named ax_slen0))
(assert (! (forall ((a Str) (i Int)) (! (and (<= 0 (sat a i)) (<= (sat a i) 255)) :pattern ((sat a i)))) :named ax_satr))
(assert (! (forall ((a Str) (b Str)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((scat a b)))) :named ax_catlen))
(assert (! (forall ((a Str) (b Str) (i Int)) (! (=> (and (<= 0 i) (< i (+ (slen a) (slen b)))) (= (sat (scat a b) i) (ite (< i (slen a)) (sat a i) (sat b (- i (slen a)))))) :pattern ((sat (scat a b) i)))) :named ax_catat))
(assert (! (forall ((a Str) (b Str) (c Str)) (! (= (scat (scat a b) c) (scat a (scat b c))) :pattern ((scat (scat a b) c)))) :named ax_catassoc))
(assert (! (= (slen sempty) 0) :named ax_sempty))
(assert (! (forall ((a Str)) (! (= (scat a sempty) a) :pattern ((scat a sempty)))) :named ax_cat0))
(assert (! (forall ((a Str)) (! (= (scat sempty a) a) :pattern ((scat sempty a)))) :named ax_cat1))
(assert (! (forall ((s Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s))) (= (slen (ssub s i j)) (- j i))) :pattern ((ssub s i j)))) :named ax_sublen))
(assert (! (forall ((s Str) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= 0 k) (< k (- j i)) (<= j (slen s))) (= (sat (ssub s i j) k) (sat s (+ i k)))) :pattern ((sat (ssub s i j) k)))) :named ax_subat))
(assert (! (forall ((s Str)) (! (= (ssub s 0 (slen s)) s) :pattern ((ssub s 0 (slen s))))) :named ax_subfull))
(assert (! (forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (<= 0 n) (= (slen (sof a o n)) n)) :pattern ((sof a o n)))) :named ax_soflen))
(assert (! (forall ((a (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n) (<= 0 (select a (+ o i))) (<= (select a (+ o i)) 255)) (= (sat (sof a o n) i) (select a (+ o i)))) :pattern ((sat (sof a o n) i)))) :named ax_sofat))
(assert (! (forall ((a (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (sat (sof a o n) i) (btu (select a (+ o i))))) :pattern ((sat (sof a o n) i)))) :named ax_sofbt))
(assert (! (forall ((c Int)) (! (and (= (slen (schr c)) 1) (=> (and (<= 0 c) (<= c 255)) (= (sat (schr c) 0) c))) :pattern ((schr c)))) :named ax_schr))
(assert (! (forall ((s Str) (i Int)) (! (=> (and (<= 0 i) (< i (slen s))) (= (select (sarr s) i) (sat s i))) :pattern ((select (sarr s) i)))) :named ax_sarr))
(assert (! (forall ((d (Array Int Int)) (do Int) (s (Array Int Int)) (so Int) (n Int) (i Int)) (! (= (select (arrcopy d do s so n) i) (ite (and (<= do i) (< i (+ do n))) (select s (+ so (- i do))) (select d i))) :pattern ((select (arrcopy d do s so n) i)))) :named ax_arrcopy))
(assert (! (forall ((a Str) (b Str)) (! (=> (strlt a b) (not (strlt b a))) :pattern ((strlt a b)))) :named ax_strlt_asym))
(assert (! (forall ((a Str)) (! (not (strlt a a)) :pattern ((strlt a a)))) :named ax_strlt_irr))
(assert (! (forall ((a Str) (b Str)) (! (or (strlt a b) (strlt b a) (= a b)) :pattern ((strlt a b)))) :named ax_strlt_tot))
(assert (! (forall ((a Str) (b Str) (c Str)) (! (=> (and (strlt a b) (strlt b c)) (strlt a c)) :pattern ((strlt a b) (strlt b c)))) :named ax_strlt_tr))
(assert (! (forall ((n Int)) (! (<= 1 (slen (sdec n))) :pattern ((sdec n)))) :named ax_sdec1))
(assert (! (forall ((n Int)) (! (=> (and (< (- 100000000000000000000) n) (< n 100000000000000000000)) (<= (slen (sdec n)) 21)) :pattern ((sdec n)))) :named ax_sdec21))
`

// ---------------------------------------------------------------- interfaces

type ictor struct {
	name  string
	tname string
	sorts []string
	t     types.Type
}

var ictorTab = map[string]*ictor{}
var ictorList []*ictor

func NilI() *Term { ctors["nilI"] = true; return intern(&Term{op: "nilI", sort: SIf}) }

// boxLeaves: leaf sorts of the boxed value
func ictorFor(t types.Type) *ictor {
	t = types.Unalias(t)
	n := typeName(t)
	if c, ok := ictorTab[n]; ok {
		return c
	}
	c := &ictor{name: smtName("I." + plainName(strings.TrimPrefix(n, "gotor/"))), tname: n, t: t}
	for ctors[c.name] {
		c.name = strings.TrimSuffix(c.name, "|") + "$"
		if c.name[0] == '|' {
			c.name += "|"
		}
	}
	switch boxKind(t) {
	case "map":
		c.sorts = []string{"BD"}
	case "list":
		c.sorts = []string{"BL"}
	default:
		for _, l := range leaves(t) {
			c.sorts = append(c.sorts, l.sort)
		}
	}
	ictorTab[n] = c
	ictorList = append(ictorList, c)
	ctors[c.name] = true
	return c
}

// plainName keeps only characters that need no quotes: cvc5 does not read a quoted name in a tester.
func plainName(n string) string {
	return strings.Map(func(r rune) rune {
		if r < 128 && (r == '.' || r == '/' || r == '*' || r == '_' || r == '-' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') {
			return r
		}
		return '!'
	}, n)
}

// boxKind: values of these types are boxed by (frozen) snapshot.
func boxKind(t types.Type) string {
	switch typeName(t) {
	case "gotor/bencode.Dict":
		return "map"
	case "gotor/bencode.List":
		return "list"
	}
	return ""
}

func MkIface(t types.Type, ls []*Term) *Term {
	c := ictorFor(t)
	if len(ls) == 0 {
		return intern(&Term{op: c.name, sort: SIf})
	}
	return App(c.name, SIf, ls...)
}

func IsIface(t types.Type, x *Term) *Term {
	c := ictorFor(t)
	if ctors[x.op] {
		return BoolT(x.op == c.name)
	}
	if x.op == "ite" {
		return Ite(x.args[0], IsIface(t, x.args[1]), IsIface(t, x.args[2]))
	}
	return App("(_ is "+c.name+")", SBool, x)
}

func UnIface(t types.Type, x *Term, k int) *Term {
	c := ictorFor(t)
	if x.op == c.name {
		return x.args[k]
	}
	return App(selName(c, k), c.sorts[k], x)
}

func selName(c *ictor, k int) string {
	n := c.name
	if strings.HasPrefix(n, "|") {
		return "|un" + strconv.Itoa(k) + ":" + n[1:]
	}
	return "un" + strconv.Itoa(k) + "_" + n
}

func ifaceDecl() string {
	var sb strings.Builder
	sb.WriteString("(declare-sort Str 0)\n(declare-sort BD 0)\n(declare-sort BL 0)\n(declare-sort TP 0)\n(declare-datatypes ((Ptr 0)) (((mkptr (pobj Int) (pidx Int)))))\n")
	sb.WriteString("(declare-datatypes ((Iface 0)) (((nilI) (I_other (otag Int))")
	cs := append([]*ictor{}, ictorList...)
	sort.Slice(cs, func(i, j int) bool { return cs[i].name < cs[j].name })
	for _, c := range cs {
		sb.WriteString(" (" + c.name)
		for k, s := range c.sorts {
			fmt.Fprintf(&sb, " (%s %s)", selName(c, k), s)
		}
		sb.WriteString(")")
	}
	sb.WriteString(")))\n")
	return sb.String()
}
