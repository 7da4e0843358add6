// Folds: canonical terms for values computed by loops that have no closed form.
package main

import "math/big"

// mkFold builds the value after n iterations of  acc_i := body_i(k, acc)  starting
// from init_i, component comp. k and accs are symbols free in the bodies.
func mkFold(k *Term, accs []*Term, n *Term, inits, bodies []*Term, comp int) *Term {
	if n == t0 {
		return inits[comp]
	}
	// prune and order the components by dependency
	idx := map[*Term]int{}
	for i, a := range accs {
		idx[a] = i
	}
	var order []int
	seen := map[int]bool{}
	var visit func(i int)
	var depsOf func(t *Term, memo map[*Term]bool, out *[]int)
	depsOf = func(t *Term, memo map[*Term]bool, out *[]int) {
		if memo[t] {
			return
		}
		memo[t] = true
		if i, ok := idx[t]; ok {
			*out = append(*out, i)
			return
		}
		for _, a := range t.args {
			depsOf(a, memo, out)
		}
		for _, m := range t.m {
			depsOf(m.a, memo, out)
		}
		if t.ln != nil {
			depsOf(t.ln, memo, out)
		}
	}
	visit = func(i int) {
		if seen[i] {
			return
		}
		seen[i] = true
		order = append(order, i)
		var ds []int
		depsOf(bodies[i], map[*Term]bool{}, &ds)
		for _, d := range ds {
			visit(d)
		}
	}
	visit(comp)
	d := k.bd
	for _, i := range order {
		if bodies[i].bd > d {
			d = bodies[i].bd
		}
	}
	d++
	mkbv := func(num int, like *Term) *Term {
		return mkRaw(Term{op: OBV, sort: like.sort, n: num, ln: like.ln, lo: like.lo, hi: like.hi})
	}
	sub := map[*Term]*Term{}
	bvk := mkRaw(Term{op: OBV, sort: SInt, n: d})
	sub[k] = bvk
	var bvs []*Term
	for j, i := range order {
		b := mkbv(d+1+j, accs[i])
		bvs = append(bvs, b)
		sub[accs[i]] = b
	}
	args := []*Term{n}
	for _, i := range order {
		args = append(args, inits[i])
	}
	args = append(args, bvk)
	args = append(args, bvs...)
	for _, i := range order {
		args = append(args, substT(bodies[i], sub))
	}
	like := accs[comp]
	t := Term{op: OFold, sort: like.sort, args: args, ln: like.ln, lo: like.lo, hi: like.hi, n: d}
	r := mkRaw(t)
	if r.bd < d+len(order) {
		r.bd = d + len(order)
	}
	return r
}

func foldParts(t *Term) (n *Term, inits []*Term, bvk *Term, bvs, bodies []*Term) {
	m := (len(t.args) - 2) / 3
	n = t.args[0]
	inits = t.args[1 : 1+m]
	bvk = t.args[1+m]
	bvs = t.args[2+m : 2+2*m]
	bodies = t.args[2+2*m:]
	return
}

// openFold replaces the binders by placeholder symbols.
func openFold(t *Term) (n *Term, inits []*Term, k *Term, accs, bodies []*Term) {
	var bvk *Term
	var bvs, bs []*Term
	n, inits, bvk, bvs, bs = foldParts(t)
	k = phSym(t.n, SInt)
	sub := map[*Term]*Term{bvk: k}
	for i, b := range bvs {
		a := mkRaw(Term{op: OSym, sort: b.sort, s: "bv#" + itoa(t.n+1+i), ln: b.ln, lo: b.lo, hi: b.hi})
		accs = append(accs, a)
		sub[b] = a
	}
	for _, b := range bs {
		bodies = append(bodies, substT(b, sub))
	}
	return
}

func rebuildFold(t *Term, f func(*Term) *Term) *Term {
	n, inits, k, accs, bodies := openFold(t)
	ch := false
	g := func(x *Term) *Term {
		y := f(x)
		if y != x {
			ch = true
		}
		return y
	}
	n2 := g(n)
	var i2, b2 []*Term
	for _, x := range inits {
		i2 = append(i2, g(x))
	}
	for _, x := range bodies {
		b2 = append(b2, g(x))
	}
	if !ch {
		return t
	}
	return mkFold(k, accs, n2, i2, b2, 0)
}

var _ = big.NewInt
