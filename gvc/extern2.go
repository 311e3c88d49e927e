package main

import (
	"math/big"
)

// Further models of dependencies.

func moreExterns() {
	// a source of random numbers: any value of its documented range
	rnd := func(lo, hi *big.Int) func(x *xcall) {
		return func(x *xcall) { x.ret(x.v(0, x.ex.freshR(x.st, "rnd", SInt, lo, hi))) }
	}
	i63 := new(big.Int).Sub(pow2(63), bigOne)
	invokeModels["math/rand.Source.Int63"] = rnd(bigZero, i63)
	externs["(*math/rand.Rand).Int63"] = rnd(bigZero, i63)
	externs["math/rand.Int63"] = rnd(bigZero, i63)
	below := func(i int) func(x *xcall) {
		return func(x *xcall) {
			n := x.args[i].L[0]
			if !x.check(Lt(Num(0), n), "invalid argument to rand") {
				return
			}
			r := x.ex.freshR(x.st, "rnd", SInt, bigZero, i63)
			x.st.assume(Lt(r, n))
			x.ret(x.v(0, r))
		}
	}
	for _, f := range []string{"Intn", "Int63n", "Int31n"} {
		externs["math/rand."+f] = below(0)
		externs["(*math/rand.Rand)."+f] = below(1)
	}
	externs["time.NewTicker"] = func(x *xcall) {
		if !x.check(Lt(Num(0), x.args[0].L[0]), "non-positive interval for NewTicker") {
			return
		}
		obj := x.st.alloc
		x.st.alloc = Add(x.st.alloc, Num(blockUnit))
		x.ret(x.v(0, obj, Num(0)))
	}
}
