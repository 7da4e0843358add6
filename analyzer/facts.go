// Facts: the numeric (polyhedral) and boolean part of an abstract state.
package main

import (
	"math/big"
	"sort"
)

type Facts struct {
	le     []*Term        // terms t with t <= 0
	eq     []*Term        // terms t with t == 0
	ne     []*Term        // terms t with t != 0
	bools  map[*Term]bool // non linear atoms
	cache  map[*Term]int8 // decide cache: 1 true 2 false 3 unknown
	ecache map[*Term]bool // entails cache
	bad    bool
	nctx   *normCtx
	nosum  *Facts
	univ   []Univ
	ivl    map[*Term][2]*big.Int
}

func newFacts() *Facts {
	return &Facts{bools: map[*Term]bool{}, cache: map[*Term]int8{}, ecache: map[*Term]bool{}}
}

func (f *Facts) clone() *Facts {
	n := &Facts{le: f.le[:len(f.le):len(f.le)], eq: f.eq[:len(f.eq):len(f.eq)], ne: f.ne[:len(f.ne):len(f.ne)], bools: make(map[*Term]bool, len(f.bools)+2), cache: f.cache, ecache: f.ecache, nctx: f.nctx, univ: f.univ[:len(f.univ):len(f.univ)], bad: f.bad}
	for k, v := range f.bools {
		n.bools[k] = v
	}
	return n
}

func (f *Facts) dirty() {
	f.ivl = nil
	c := make(map[*Term]int8, len(f.cache))
	for k, v := range f.cache {
		if v != 3 {
			c[k] = v
		}
	}
	f.cache = c
	ec := make(map[*Term]bool, len(f.ecache))
	for k, v := range f.ecache {
		if v {
			ec[k] = true
		}
	}
	f.ecache = ec
	f.nctx = nil
	f.nosum = nil
}

// assume adds c (true); returns false when the state becomes infeasible.
func (f *Facts) assume(c *Term) bool {
	if f.bad {
		return false
	}
	switch c.op {
	case OTrue:
		return true
	case OFalse:
		f.bad = true
		return false
	case OAnd:
		for _, x := range c.args {
			if !f.assume(x) {
				return false
			}
		}
		return true
	case OOr:
		switch f.decide(c) {
		case 1:
			return true
		case 2:
			f.bad = true
			return false
		}
		// unit propagation
		var live []*Term
		for _, x := range c.args {
			if f.decide(x) != 2 {
				live = append(live, x)
			}
		}
		if len(live) == 1 {
			return f.assume(live[0])
		}
		f.bools[c] = true
		f.dirty()
		return true
	case OIte:
		switch f.decide(c.args[0]) {
		case 1:
			return f.assume(c.args[1])
		case 2:
			return f.assume(c.args[2])
		}
		if f.decide(c.args[1]) == 2 {
			return f.assume(mkNot(c.args[0])) && f.assume(c.args[2])
		}
		if f.decide(c.args[2]) == 2 {
			return f.assume(c.args[0]) && f.assume(c.args[1])
		}
		f.bools[c] = true
		f.dirty()
		return true
	case OLe:
		if d := f.decide(c); d == 1 {
			return true
		} else if d == 2 {
			f.bad = true
			return false
		}
		f.le = append(f.le, c.args[0])
		f.dirty()
		f.recheck()
		return !f.bad
	case OEq:
		if d := f.decide(c); d == 1 {
			return true
		} else if d == 2 {
			f.bad = true
			return false
		}
		f.eq = append(f.eq, c.args[0])
		f.dirty()
		f.recheck()
		return !f.bad
	case ONot:
		x := c.args[0]
		if x.op == OEq {
			if d := f.decide(x); d == 2 {
				return true
			} else if d == 1 {
				f.bad = true
				return false
			}
			// sharpen bounds: t != 0 with t >= 0 gives t >= 1
			t := x.args[0]
			if f.entails(neg(t)) { // t>=0
				return f.assume(mkLe(lincomb(b1, []*big.Int{bm1}, []*Term{t})))
			}
			if f.entails(t) {
				return f.assume(mkLe(addc(t, 1)))
			}
			f.ne = append(f.ne, t)
			f.dirty()
			return true
		}
		if d := f.decide(c); d == 1 {
			return true
		} else if d == 2 {
			f.bad = true
			return false
		}
		f.bools[x] = false
		f.dirty()
		f.propagate()
		return !f.bad
	}
	if d := f.decide(c); d == 1 {
		return true
	} else if d == 2 {
		f.bad = true
		return false
	}
	f.bools[c] = true
	f.dirty()
	f.propagate()
	return !f.bad
}

// recheck re-examines disequalities and stored disjunctions after new linear facts.
func (f *Facts) recheck() {
	var keep []*Term
	var more []*Term
	for _, t := range f.ne {
		if f.entails(neg(t)) { // t >= 0
			if f.entails(t) {
				f.bad = true
				return
			}
			more = append(more, mkLe(lincomb(b1, []*big.Int{bm1}, []*Term{t})))
			continue
		}
		if f.entails(t) {
			more = append(more, mkLe(addc(t, 1)))
			continue
		}
		keep = append(keep, t)
	}
	f.ne = keep
	for _, c := range more {
		if !f.assume(c) {
			return
		}
	}
	f.propagate()
}

func (f *Facts) propagate() {
	if f.bad {
		return
	}
	for c, v := range f.bools {
		if !v && c.op == OEqT && c.args[0].sort == SSeq && len(f.eq) > 0 && f.elementwise(c.args[0], c.args[1]) {
			f.bad = true
			return
		}
	}
	var todo []*Term
	for c, v := range f.bools {
		if (c.op == OOr || c.op == OIte) && v {
			todo = append(todo, c)
		}
	}
	sort.Slice(todo, func(i, j int) bool { return todo[i].id < todo[j].id })
	for _, c := range todo {
		switch c.op {
		case OOr:
			var live []*Term
			sat := false
			for _, x := range c.args {
				d := f.decide(x)
				if d == 1 {
					sat = true
					break
				}
				if d != 2 {
					live = append(live, x)
				}
			}
			if sat {
				delete(f.bools, c)
				f.dirty()
				continue
			}
			if len(live) == 0 {
				f.bad = true
				return
			}
			if len(live) == 1 {
				delete(f.bools, c)
				f.dirty()
				if !f.assume(live[0]) {
					return
				}
			}
		case OIte:
			if d := f.decide(c.args[0]); d != 3 {
				delete(f.bools, c)
				f.dirty()
				x := c.args[1]
				if d == 2 {
					x = c.args[2]
				}
				if !f.assume(x) {
					return
				}
			}
		}
	}
}

// decide: 1 true, 2 false, 3 unknown
func (f *Facts) decide(c *Term) int8 {
	switch c.op {
	case OTrue:
		return 1
	case OFalse:
		return 2
	}
	if r, ok := f.cache[c]; ok {
		return r
	}
	r := f.decide1(c)
	f.cache[c] = r
	return r
}

func flip(r int8) int8 {
	switch r {
	case 1:
		return 2
	case 2:
		return 1
	}
	return 3
}

func (f *Facts) decide1(c *Term) int8 {
	if v, ok := f.bools[c]; ok {
		if v {
			return 1
		}
		return 2
	}
	switch c.op {
	case ONot:
		return flip(f.decide(c.args[0]))
	case OLe:
		if f.entails(c.args[0]) {
			return 1
		}
		if f.entails(lincomb(b1, []*big.Int{bm1}, []*Term{c.args[0]})) {
			return 2
		}
		return 3
	case OEq:
		t := c.args[0]
		for _, n := range f.ne {
			if n == t || n == neg(t) {
				return 2
			}
		}
		le := f.entails(t)
		ge := f.entails(neg(t))
		if le && ge {
			return 1
		}
		if f.entails(addc(t, 1)) || f.entails(lincomb(b1, []*big.Int{bm1}, []*Term{t})) {
			return 2
		}
		return 3
	case OAnd:
		r := int8(1)
		for _, x := range c.args {
			d := f.decide(x)
			if d == 2 {
				return 2
			}
			if d == 3 {
				r = 3
			}
		}
		return r
	case OOr:
		r := int8(2)
		for _, x := range c.args {
			d := f.decide(x)
			if d == 1 {
				return 1
			}
			if d == 3 {
				r = 3
			}
		}
		return r
	case OIte:
		switch f.decide(c.args[0]) {
		case 1:
			return f.decide(c.args[1])
		case 2:
			return f.decide(c.args[2])
		}
		a, b := f.decide(c.args[1]), f.decide(c.args[2])
		if a == b {
			return a
		}
		return 3
	}
	return 3
}

// ---------- linear reasoning

// entails: facts |- t <= 0
func (f *Facts) entails(t *Term) bool {
	if t.isConst() {
		return t.k.Sign() <= 0
	}
	_, hi := rangeOf(t)
	if hi != nil && hi.Sign() <= 0 {
		return true
	}
	if r, ok := f.ecache[t]; ok {
		return r
	}
	r := false
	for _, x := range f.le {
		if x == t {
			r = true
			break
		}
	}
	if !r {
		if _, h := f.rangeIn(t); h != nil && h.Sign() <= 0 {
			r = true
		}
	}
	if !r {
		// refute t >= 1
		goal := lincomb(b1, []*big.Int{bm1}, []*Term{t}) // 1 - t <= 0
		r = f.infeasibleWith(goal)
	}
	f.ecache[t] = r
	return r
}

type row struct {
	c  *big.Int
	m  map[*Term]*big.Int // sum m + c <= 0
	eq bool
}

func rowOf(t *Term, eq bool) row {
	l := linOf(t)
	r := row{new(big.Int).Set(l.c), map[*Term]*big.Int{}, eq}
	for _, m := range l.m {
		r.m[m.a] = m.c
	}
	return r
}

var fmQueries, fmHard int

func (f *Facts) infeasibleWith(goal *Term) bool {
	fmQueries++
	// relevance closure
	rel := map[*Term]bool{}
	var queue []*Term
	addAtoms := func(t *Term) {
		for _, m := range linOf(t).m {
			if !rel[m.a] {
				rel[m.a] = true
				queue = append(queue, m.a)
			}
		}
	}
	addAtoms(goal)
	rows := []row{rowOf(goal, false)}
	usedLe := make([]bool, len(f.le))
	usedEq := make([]bool, len(f.eq))
	axSeen := map[*Term]bool{}
	var sums []*Term
	for steps := 0; steps < 400; steps++ {
		progressed := false
		for len(queue) > 0 {
			a := queue[0]
			queue = queue[1:]
			if axSeen[a] {
				continue
			}
			axSeen[a] = true
			progressed = true
			for _, x := range atomAxioms(a) {
				rows = append(rows, rowOf(x.t, x.eq))
				if len(rows) < rowCap {
					addAtoms(x.t)
				}
			}
			if a.op == OSum {
				sums = append(sums, a)
				// the other prefix sums of the same terms
				for _, fs := range [][]*Term{f.le, f.eq} {
					for _, t := range fs {
						if !t.has(OSum) {
							continue
						}
						for _, m := range linOf(t).m {
							if b := m.a; b.op == OSum && b != a && b.args[0] == a.args[0] && b.n == a.n {
								addAtoms(b)
							}
						}
					}
				}
			}
			if a.op == OUf && (a.s == "biglen" || a.s == "bitlen") {
				// what is known about the integer bounds its length
				v := a.args[0]
				if l, _ := rangeOf(v); l != nil && l.Sign() >= 0 {
					for _, x := range f.le {
						if d := sub(x, v); d.isConst() { // v <= -d
							h := lenOf(a.s, map[string]int{"biglen": 8, "bitlen": 1}[a.s], mkBig(new(big.Int).Neg(d.k)))
							rows = append(rows, rowOf(sub(a, h), false))
						}
					}
				}
			}
			if a.op == OShr {
				if l, _ := f.rangeIn(a.args[0]); l != nil && l.Sign() >= 0 { // 0 <= a <= x
					rows = append(rows, rowOf(neg(a), false), rowOf(mkLin(rawLin(a.args[0], []*big.Int{bm1}, []*Term{a}).negate()), false))
					addAtoms(a.args[0])
				}
			}
			if a.op == OIte {
				switch f.decideCheap(a.args[0]) {
				case 1:
					x := sub(a, a.args[1])
					rows = append(rows, rowOfRaw(a, a.args[1]))
					addAtoms(x)
					addAtoms(a.args[1])
				case 2:
					rows = append(rows, rowOfRaw(a, a.args[2]))
					addAtoms(a.args[2])
				}
			}
		}
		for i, t := range f.eq {
			if usedEq[i] {
				continue
			}
			if touches(t, rel) {
				usedEq[i] = true
				rows = append(rows, rowOf(t, true))
				addAtoms(t)
				progressed = true
			}
		}
		for i, t := range f.le {
			if usedLe[i] {
				continue
			}
			if touches(t, rel) {
				usedLe[i] = true
				rows = append(rows, rowOf(t, false))
				addAtoms(t)
				progressed = true
			}
		}
		if !progressed {
			break
		}
	}
	if len(sums) > 1 {
		rows = append(rows, f.sumAxioms(sums)...)
		for {
			n := len(axSeen)
			for len(queue) > 0 {
				a := queue[0]
				queue = queue[1:]
				if !axSeen[a] {
					axSeen[a] = true
					for _, x := range atomAxioms(a) {
						rows = append(rows, rowOf(x.t, x.eq))
						addAtoms(x.t)
					}
				}
			}
			// atoms introduced by the sum axioms
			for _, r := range rows {
				for a := range r.m {
					if !axSeen[a] {
						queue = append(queue, a)
					}
				}
			}
			if len(axSeen) == n && len(queue) == 0 {
				break
			}
		}
	}
	return fmInfeasible(rows)
}

func rowOfRaw(a, b *Term) row { // a - b == 0 without cancellation problems
	r := rowOf(b, true)
	n := row{new(big.Int).Neg(r.c), map[*Term]*big.Int{}, true}
	for k, v := range r.m {
		n.m[k] = new(big.Int).Neg(v)
	}
	if o, ok := n.m[a]; ok {
		n.m[a] = new(big.Int).Add(o, b1)
	} else {
		n.m[a] = b1
	}
	return n
}

// decideCheap avoids recursive FM.
func (f *Facts) decideCheap(c *Term) int8 {
	if c == tTrue {
		return 1
	}
	if c == tFalse {
		return 2
	}
	if v, ok := f.bools[c]; ok {
		if v {
			return 1
		}
		return 2
	}
	if r, ok := f.cache[c]; ok {
		return r
	}
	switch c.op {
	case ONot:
		return flip(f.decideCheap(c.args[0]))
	case OLe:
		for _, t := range f.le {
			if t == c.args[0] {
				return 1
			}
		}
		n := lincomb(b1, []*big.Int{bm1}, []*Term{c.args[0]})
		for _, t := range f.le {
			if t == n {
				return 2
			}
		}
	case OEq:
		for _, t := range f.eq {
			if t == c.args[0] {
				return 1
			}
		}
		for _, t := range f.ne {
			if t == c.args[0] {
				return 2
			}
		}
	}
	return 3
}

func touches(t *Term, rel map[*Term]bool) bool {
	for _, m := range linOf(t).m {
		if rel[m.a] {
			return true
		}
		if m.a.op == OMod || m.a.op == ODiv { // parity facts constrain what they are about
			for _, i := range linOf(m.a.args[0]).m {
				if rel[i.a] {
					return true
				}
			}
		}
	}
	return false
}

type ax struct {
	t  *Term
	eq bool
}

func atomAxioms(a *Term) []ax {
	var r []ax
	lo, hi := rangeOf(a)
	if lo != nil {
		r = append(r, ax{lincomb(lo, []*big.Int{bm1}, []*Term{a}), false})
	}
	if hi != nil {
		r = append(r, ax{lincomb(new(big.Int).Neg(hi), []*big.Int{b1}, []*Term{a}), false})
	}
	switch a.op {
	case OMod: // x = k*(x div k) + a
		x := a.args[0]
		d := mkRaw(Term{op: ODiv, sort: SInt, args: []*Term{x}, k: a.k})
		if x.op == ODiv { // canonical form of the quotient
			d = mkRaw(Term{op: ODiv, sort: SInt, args: []*Term{x.args[0]}, k: new(big.Int).Mul(x.k, a.k)})
		}
		// written as a raw row: recombination would cancel it
		r = append(r, ax{mkLin(rawLin(x, []*big.Int{new(big.Int).Neg(a.k), bm1}, []*Term{d, a})), true})
	case ODiv: // k*a <= x <= k*a + k-1
		x := a.args[0]
		r = append(r, ax{mkLin(rawLin(x, []*big.Int{new(big.Int).Neg(a.k)}, []*Term{a}).negate()), false})
		u := rawLin(x, []*big.Int{new(big.Int).Neg(a.k)}, []*Term{a})
		u.c = new(big.Int).Sub(u.c, new(big.Int).Sub(a.k, b1))
		r = append(r, ax{mkLin(u), false})
	case OShr:
		x := a.args[0]
		if l, _ := rangeOf(x); l != nil && l.Sign() >= 0 {
			r = append(r, ax{mkLin(rawLin(x, []*big.Int{bm1}, []*Term{a}).negate()), false})
		}
	case OUf:
		if g, ok := ufAxioms[a.s]; ok {
			r = append(r, g(a)...)
		}
	case OSum:
		// bounds from the element range
		l, h := rangeOf(a.args[0])
		if a.args[0].op == OBV {
			l, h = nil, nil
		}
		if l != nil && l.Sign() != 0 {
			r = append(r, ax{lincomb(b0, []*big.Int{l, bm1}, []*Term{a.args[1], a}), false})
		}
		if h != nil && h.BitLen() < 40 {
			r = append(r, ax{lincomb(b0, []*big.Int{new(big.Int).Neg(h), b1}, []*Term{a.args[1], a}), false})
		}
	}
	return r
}

var ufAxioms = map[string]func(*Term) []ax{}

func (l Lin) negate() Lin {
	n := Lin{new(big.Int).Neg(l.c), nil}
	for _, m := range l.m {
		n.m = append(n.m, Mono{new(big.Int).Neg(m.c), m.a})
	}
	return n
}

// rawLin: x + sum cs*ts without digit recombination.
func rawLin(x *Term, cs []*big.Int, ts []*Term) Lin {
	acc := map[*Term]*big.Int{}
	l := linOf(x)
	for _, m := range l.m {
		acc[m.a] = m.c
	}
	for i, t := range ts {
		if o, ok := acc[t]; ok {
			acc[t] = new(big.Int).Add(o, cs[i])
		} else {
			acc[t] = cs[i]
		}
	}
	r := Lin{l.c, nil}
	for a, c := range acc {
		if c.Sign() != 0 {
			r.m = append(r.m, Mono{c, a})
		}
	}
	sort.Slice(r.m, func(i, j int) bool { return r.m[i].a.id < r.m[j].a.id })
	return r
}

// sumAxioms relates prefix sums of the same summand.
func (f *Facts) sumAxioms(sums []*Term) []row {
	var rows []row
	for _, a := range sums {
		for _, b := range sums {
			if a == b || a.args[0] != b.args[0] || a.n != b.n {
				continue
			}
			l, _ := rangeOf(a.args[0])
			if l == nil {
				continue
			}
			n1, n2 := a.args[1], b.args[1]
			// n1 <= n2 ?
			if f.entailsNoSum(addc(sub(n1, n2), 1)) { // n1 < n2
				e := inst(a.args[0], a.n, n1)
				if !e.has(OSum) {
					e = f.noSums().norm(e)
				}
				// S(n2) - S(n1) - e >= l*(n2-n1-1)
				t := lincomb(new(big.Int).Neg(l), []*big.Int{l, new(big.Int).Neg(l), b1, bm1, b1}, []*Term{n2, n1, a, b, e})
				rows = append(rows, rowOf(t, false))
			} else if f.entailsNoSum(sub(n1, n2)) {
				t := lincomb(b0, []*big.Int{l, new(big.Int).Neg(l), b1, bm1}, []*Term{n2, n1, a, b})
				rows = append(rows, rowOf(t, false))
			}
		}
	}
	return rows
}

func (f *Facts) entailsNoSum(t *Term) bool {
	if t.isConst() {
		return t.k.Sign() <= 0
	}
	if t.has(OSum) {
		return false
	}
	return f.noSums().entails(t)
}

// noSums: the facts that do not mention sums.
func (f *Facts) noSums() *Facts {
	if f.nosum != nil {
		return f.nosum
	}
	g := &Facts{bools: f.bools, cache: map[*Term]int8{}, ecache: map[*Term]bool{}}
	for _, x := range f.le {
		if !x.has(OSum) {
			g.le = append(g.le, x)
		}
	}
	for _, x := range f.eq {
		if !x.has(OSum) {
			g.eq = append(g.eq, x)
		}
	}
	f.nosum = g
	return g
}

func tighten(r *row) bool { // returns true if trivially infeasible
	if len(r.m) == 0 {
		if r.eq {
			return r.c.Sign() != 0
		}
		return r.c.Sign() > 0
	}
	g := new(big.Int)
	for _, c := range r.m {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	if g.Cmp(b1) > 0 {
		if r.eq {
			if new(big.Int).Mod(r.c, g).Sign() != 0 {
				return true
			}
			r.c = new(big.Int).Quo(r.c, g)
		} else {
			// sum/g <= floor(-c/g)
			q := floorDiv(new(big.Int).Neg(r.c), g)
			r.c = q.Neg(q)
		}
		for a, c := range r.m {
			r.m[a] = new(big.Int).Quo(c, g)
		}
	}
	return false
}

func addRow(dst map[*Term]*big.Int, src map[*Term]*big.Int, k *big.Int) {
	for a, c := range src {
		v := new(big.Int).Mul(c, k)
		if o, ok := dst[a]; ok {
			v.Add(v, o)
		}
		if v.Sign() == 0 {
			delete(dst, a)
		} else {
			dst[a] = v
		}
	}
}

func cpRow(r row) row {
	n := row{new(big.Int).Set(r.c), make(map[*Term]*big.Int, len(r.m)), r.eq}
	for a, c := range r.m {
		n.m[a] = c
	}
	return n
}

// fmInfeasible: integer-tightened Fourier-Motzkin. Sound: true only if infeasible.
var fmCap = 600

func fmInfeasible(in []row) bool {
	var eqs, les []row
	for _, r := range in {
		r = cpRow(r)
		for a, c := range r.m {
			if c.Sign() == 0 {
				delete(r.m, a)
			}
		}
		if tighten(&r) {
			return true
		}
		if len(r.m) == 0 {
			continue
		}
		if r.eq {
			eqs = append(eqs, r)
		} else {
			les = append(les, r)
		}
	}
	// variables with a single value
	type bnd struct{ lo, hi *big.Int }
	bs := map[*Term]*bnd{}
	for _, r := range les {
		if len(r.m) != 1 {
			continue
		}
		for a, c := range r.m { // tightened: c is 1 or -1
			b := bs[a]
			if b == nil {
				b = &bnd{}
				bs[a] = b
			}
			if c.Cmp(b1) == 0 {
				if v := new(big.Int).Neg(r.c); b.hi == nil || v.Cmp(b.hi) < 0 {
					b.hi = v
				}
			} else if c.Cmp(bm1) == 0 && (b.lo == nil || r.c.Cmp(b.lo) > 0) {
				b.lo = r.c
			}
		}
	}
	var one []*Term
	for a, b := range bs {
		if b.lo != nil && b.hi != nil {
			switch b.lo.Cmp(b.hi) {
			case 0:
				one = append(one, a)
			case 1:
				return true
			}
		}
	}
	sort.Slice(one, func(i, j int) bool { return one[i].id < one[j].id })
	for _, a := range one {
		eqs = append(eqs, row{new(big.Int).Neg(bs[a].lo), map[*Term]*big.Int{a: b1}, true})
	}
	// Gaussian elimination (prefer unit coefficients)
	for len(eqs) > 0 {
		// pick the equation and variable with the smallest |coef|
		bi := -1
		var bv *Term
		var bc *big.Int
		for i, e := range eqs {
			for a, c := range e.m {
				ac := new(big.Int).Abs(c)
				if bi < 0 || ac.Cmp(bc) < 0 || (ac.Cmp(bc) == 0 && (len(e.m) < len(eqs[bi].m) || (len(e.m) == len(eqs[bi].m) && a.id < bv.id))) {
					bi, bv, bc = i, a, ac
				}
			}
		}
		e := eqs[bi]
		eqs = append(eqs[:bi:bi], eqs[bi+1:]...)
		p := e.m[bv]
		elim := func(r *row) {
			c, ok := r.m[bv]
			if !ok {
				return
			}
			// r*|p| - sign*c*e
			ap := new(big.Int).Abs(p)
			n := row{new(big.Int).Mul(r.c, ap), map[*Term]*big.Int{}, r.eq}
			addRow(n.m, r.m, ap)
			k := new(big.Int).Neg(c)
			if p.Sign() < 0 {
				k.Neg(k)
			}
			addRow(n.m, e.m, k)
			n.c.Add(n.c, new(big.Int).Mul(e.c, k))
			*r = n
		}
		var ne []row
		for i := range eqs {
			elim(&eqs[i])
			if tighten(&eqs[i]) {
				return true
			}
			if len(eqs[i].m) > 0 {
				ne = append(ne, eqs[i])
			}
		}
		eqs = ne
		var nl []row
		for i := range les {
			elim(&les[i])
			if tighten(&les[i]) {
				return true
			}
			if len(les[i].m) > 0 {
				nl = append(nl, les[i])
			}
		}
		les = nl
	}
	les = dedupRows(les)
	for {
		if len(les) == 0 {
			return false
		}
		// count
		pos, ng := map[*Term]int{}, map[*Term]int{}
		for _, r := range les {
			for a, c := range r.m {
				if c.Sign() > 0 {
					pos[a]++
				} else {
					ng[a]++
				}
			}
		}
		var best *Term
		bestCost := 0
		for _, r := range les {
			for a := range r.m {
				cost := pos[a]*ng[a] - pos[a] - ng[a]
				if best == nil || cost < bestCost || (cost == bestCost && a.id < best.id) {
					best, bestCost = a, cost
				}
			}
		}
		if best == nil {
			return false
		}
		var ps, ns, rest []row
		for _, r := range les {
			c, ok := r.m[best]
			if !ok {
				rest = append(rest, r)
			} else if c.Sign() > 0 {
				ps = append(ps, r)
			} else {
				ns = append(ns, r)
			}
		}
		if len(ps)*len(ns)+len(rest) > fmCap {
			fmHard++
			return false
		}
		for _, p := range ps {
			for _, n := range ns {
				cp, cn := p.m[best], new(big.Int).Neg(n.m[best])
				r := row{new(big.Int), map[*Term]*big.Int{}, false}
				addRow(r.m, p.m, cn)
				addRow(r.m, n.m, cp)
				r.c.Add(new(big.Int).Mul(p.c, cn), new(big.Int).Mul(n.c, cp))
				if tighten(&r) {
					return true
				}
				if len(r.m) > 0 {
					rest = append(rest, r)
				}
			}
		}
		les = dedupRows(rest)
	}
}

func rowKey(r row) string {
	type kv struct {
		id int
		c  *big.Int
	}
	var buf [16]kv
	xs := buf[:0]
	for a, c := range r.m {
		xs = append(xs, kv{a.id, c})
	}
	for i := 1; i < len(xs); i++ {
		for j := i; j > 0 && xs[j].id < xs[j-1].id; j-- {
			xs[j], xs[j-1] = xs[j-1], xs[j]
		}
	}
	b := make([]byte, 0, 24*len(xs))
	for _, x := range xs {
		b = append(b, byte(x.id), byte(x.id>>8), byte(x.id>>16), byte(x.id>>24), byte(1+x.c.Sign()))
		w := x.c.Bits()
		b = append(b, byte(len(w)))
		for _, v := range w {
			for k := 0; k < 64; k += 8 {
				b = append(b, byte(v>>uint(k)))
			}
		}
	}
	return string(b)
}

func dedupRows(rs []row) []row {
	idx := map[string]int{}
	var out []row
	for _, r := range rs {
		k := rowKey(r)
		if i, ok := idx[k]; ok {
			if r.c.Cmp(out[i].c) > 0 {
				out[i] = r
			}
			continue
		}
		idx[k] = len(out)
		out = append(out, r)
	}
	return out
}

const rowCap = 240

// rangeIn: interval of t from the facts that bound single atoms.
func (f *Facts) rangeIn(t *Term) (lo, hi *big.Int) {
	if f.ivl == nil {
		f.ivl = map[*Term][2]*big.Int{}
		add := func(t *Term, eq bool) {
			l := linOf(t)
			if len(l.m) != 1 {
				return
			}
			a, c := l.m[0].a, l.m[0].c
			b := f.ivl[a]
			ac := new(big.Int).Abs(c)
			up := func(v *big.Int) {
				if b[1] == nil || v.Cmp(b[1]) < 0 {
					b[1] = v
				}
			}
			dn := func(v *big.Int) {
				if b[0] == nil || v.Cmp(b[0]) > 0 {
					b[0] = v
				}
			}
			switch {
			case eq:
				v, r := new(big.Int).QuoRem(new(big.Int).Neg(l.c), c, new(big.Int))
				if r.Sign() == 0 {
					up(v)
					dn(v)
				}
			case c.Sign() > 0: // a <= floor(-l.c/c)
				up(floorDiv(new(big.Int).Neg(l.c), ac))
			default: // a >= ceil(l.c/|c|)
				dn(new(big.Int).Neg(floorDiv(new(big.Int).Neg(l.c), ac)))
			}
			f.ivl[a] = b
		}
		for _, t := range f.le {
			add(t, false)
		}
		for _, t := range f.eq {
			add(t, true)
		}
	}
	if len(f.ivl) == 0 {
		return rangeOf(t)
	}
	return (&ranger{m: f.ivl, seen: map[*Term]rng{}}).of(t, 0)
}

type ranger struct {
	m    map[*Term][2]*big.Int
	seen map[*Term]rng
}

func (w *ranger) of(t *Term, d int) (lo, hi *big.Int) {
	if len(t.args) == 0 && len(t.m) == 0 {
		return w.of1(t, d)
	}
	r, ok := w.seen[t]
	if !ok {
		r.lo, r.hi = w.of1(t, d)
		w.seen[t] = r
	}
	return r.lo, r.hi
}

func (w *ranger) of1(t *Term, d int) (lo, hi *big.Int) {
	m := w.m
	if b, ok := m[t]; ok {
		lo, hi = rangeOf(t)
		if b[0] != nil && (lo == nil || b[0].Cmp(lo) > 0) {
			lo = b[0]
		}
		if b[1] != nil && (hi == nil || b[1].Cmp(hi) < 0) {
			hi = b[1]
		}
		return
	}
	if d > 200 {
		return rangeOf(t)
	}
	switch t.op {
	case OLin:
		lo, hi = new(big.Int).Set(t.k), new(big.Int).Set(t.k)
		for _, mo := range t.m {
			l, h := w.of(mo.a, d+1)
			if mo.c.Sign() < 0 {
				l, h = h, l
			}
			if l == nil {
				lo = nil
			} else if lo != nil {
				lo.Add(lo, new(big.Int).Mul(l, mo.c))
			}
			if h == nil {
				hi = nil
			} else if hi != nil {
				hi.Add(hi, new(big.Int).Mul(h, mo.c))
			}
		}
		return
	case OShr:
		l, h := w.of(t.args[0], d+1)
		if l != nil {
			if l.Sign() > 0 {
				l = b0
			}
			lo = l
		}
		if h != nil {
			if h.Sign() < 0 {
				h = b0
			}
			hi = h
		}
		return
	case ODiv:
		l, h := w.of(t.args[0], d+1)
		if l != nil {
			lo = floorDiv(l, t.k)
		}
		if h != nil {
			hi = floorDiv(h, t.k)
		}
		return
	}
	return rangeOf(t)
}
