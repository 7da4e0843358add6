// Equality and position reasoning on sequence terms under the facts of a state.
package main

import (
	"math/big"
	"sort"
)

func isNonNil(t *Term) bool {
	switch t.op {
	case OPtr, OIface, OFunc, OMap, OStruct:
		return true
	case OUf:
		return t.s == "error" || t.s == "opaqueptr"
	case OSlice:
		return isNonNil(t.args[0])
	}
	return false
}

// mkEqT: a == b for any sort.
func mkEqT(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.op == OIte && b.sort != SInt {
		return mkIte(a.args[0], mkEqT(a.args[1], b), mkEqT(a.args[2], b))
	}
	if b.op == OIte && a.sort != SInt {
		return mkIte(b.args[0], mkEqT(a, b.args[1]), mkEqT(a, b.args[2]))
	}
	if a.sort == SInt && b.sort == SInt {
		return mkIntEq(a, b)
	}
	if a.sort == SBool && b.sort == SBool {
		return mkOr(mkAnd(a, b), mkAnd(mkNot(a), mkNot(b)))
	}
	if a.sort == SSeq && b.sort == SSeq {
		return mkSeqEq(a, b)
	}
	if a.sort == SVal && b.sort == SVal {
		if a.op == OSlice && b == tNil {
			return mkEqT(a.args[0], tNil)
		}
		if b.op == OSlice && a == tNil {
			return mkEqT(b.args[0], tNil)
		}
		if a == tNil && isNonNil(b) || b == tNil && isNonNil(a) {
			return tFalse
		}
		if a.op == b.op {
			switch a.op {
			case OStruct, OTuple:
				if len(a.args) == len(b.args) {
					var cs []*Term
					for i := range a.args {
						cs = append(cs, mkEqT(a.args[i], b.args[i]))
					}
					return mkAnd(cs...)
				}
			case OIface:
				if a.x != b.x {
					return tFalse
				}
				return mkEqT(a.args[0], b.args[0])
			case OPtr:
				if len(a.args) != len(b.args) {
					return mkRawEq(a, b)
				}
				oa, ob := a.args[0], b.args[0]
				if oa.s != ob.s {
					return tFalse
				}
				var cs []*Term
				for i := range oa.args {
					cs = append(cs, mkIntEq(oa.args[i], ob.args[i]))
				}
				for i := 1; i < len(a.args); i++ {
					x, y := a.args[i], b.args[i]
					if x.op != y.op {
						return tFalse
					}
					if x.op == OSelF && x.n != y.n {
						return tFalse
					}
					if x.op == OSelI {
						cs = append(cs, mkIntEq(x.args[0], y.args[0]))
					}
				}
				return mkAnd(cs...)
			}
		}
	}
	return mkRawEq(a, b)
}

func mkRawEq(a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	return mkRaw(Term{op: OEqT, sort: SBool, args: []*Term{a, b}})
}

func hasLitPart(t *Term) bool {
	for _, p := range seqParts(t) {
		if p.op == OLit || p.op == OUnit && p.args[0].sort == SInt {
			return true
		}
	}
	return false
}

// elemAt gives the i-th (constant) element of a byte sequence.
func elemAtConst(s *Term, i int64) *Term {
	return pureAt(s, mkInt(i), mkInt(0).likeByte())
}

func (t *Term) likeByte() *Term { return byteLike }

var byteLike = &Term{op: OAt, sort: SInt, lo: b0, hi: bigI(255)}

func mkSeqEq(a, b *Term) *Term {
	la, lb := seqLen(a), seqLen(b)
	if la.isConst() && lb.isConst() && la != lb {
		return tFalse
	}
	pa, pb := seqParts(a), seqParts(b)
	// strip equal ends
	for len(pa) > 0 && len(pb) > 0 && pa[0] == pb[0] {
		pa, pb = pa[1:], pb[1:]
	}
	for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
		pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
	}
	if len(pa) == 0 && len(pb) == 0 {
		return tTrue
	}
	// literal ends
	if len(pa) > 0 && len(pb) > 0 && pa[0].op == OLit && pb[0].op == OLit {
		n := len(pa[0].s)
		if len(pb[0].s) < n {
			n = len(pb[0].s)
		}
		if pa[0].s[:n] != pb[0].s[:n] {
			return tFalse
		}
		ra := append([]*Term{mkLit(pa[0].s[n:])}, pa[1:]...)
		rb := append([]*Term{mkLit(pb[0].s[n:])}, pb[1:]...)
		return mkSeqEq(mkCat(ra...), mkCat(rb...))
	}
	a, b = mkCat(pa...), mkCat(pb...)
	la, lb = seqLen(a), seqLen(b)
	if b == tEmpty {
		return mkIntEq(la, t0)
	}
	if a == tEmpty {
		return mkIntEq(lb, t0)
	}
	if a.op == OHex && b.op == OHex {
		return mkSeqEq(a.args[0], b.args[0])
	}
	if a.op == ORev && b.op == ORev {
		return mkSeqEq(a.args[0], b.args[0])
	}
	if ea, ok := singleElem(a); ok {
		if eb, ok := singleElem(b); ok {
			return mkEqT(ea, eb)
		}
	}
	if lb.isConst() && !la.isConst() {
		a, b, la, lb = b, a, lb, la
	}
	if n, ok := la.constInt(); ok && n <= 128 && (hasLitPart(a) || hasLitPart(b) || n <= 4) && isByteSeq(a) && isByteSeq(b) {
		cs := []*Term{mkIntEq(lb, la)}
		// segment at literal boundaries of a and b
		isl := make([]bool, n)
		mark := func(s *Term) bool {
			pos := t0
			for _, p := range seqParts(s) {
				pl := seqLen(p)
				if p.op == OLit || p.op == OUnit {
					st, ok := pos.constInt()
					l, ok2 := pl.constInt()
					if !ok || !ok2 {
						return false
					}
					for i := st; i < st+l && i < n; i++ {
						isl[i] = true
					}
				}
				pos = add(pos, pl)
			}
			return true
		}
		if n <= 4 { // short fields are compared byte by byte
			for i := range isl {
				isl[i] = true
			}
		}
		if mark(a) && mark(b) {
			for i := int64(0); i < n; {
				if isl[i] {
					cs = append(cs, mkIntEq(elemAtConst(a, i), elemAtConst(b, i)))
					i++
					continue
				}
				j := i
				for j < n && !isl[j] {
					j++
				}
				x, y := pureSub(a, mkInt(i), mkInt(j)), pureSub(b, mkInt(i), mkInt(j))
				if x == a && y == b {
					cs = append(cs, mkRawEq(x, y))
				} else {
					cs = append(cs, mkSeqEq(x, y))
				}
				i = j
			}
			return mkAnd(cs...)
		}
	}
	if !la.isConst() || !lb.isConst() {
		if mkIntEq(la, lb) == tFalse {
			return tFalse
		}
	}
	return mkRawEq(a, b)
}

func singleElem(t *Term) (*Term, bool) {
	if t.op == OUnit {
		return t.args[0], true
	}
	if t.op == OLit && len(t.s) == 1 {
		return mkInt(int64(t.s[0])), true
	}
	return nil, false
}

// isByteSeq: elements are integers
func isByteSeq(t *Term) bool {
	for _, p := range seqParts(t) {
		switch p.op {
		case OUnit:
			if p.args[0].sort != SInt {
				return false
			}
		case OSym, OUf, OFold:
			if elemOf(p).sort != SInt {
				return false
			}
		case OAt:
		case OSub, ORev:
			if !isByteSeq(p.args[0]) {
				return false
			}
		case ORep:
			if !isByteSeq(p.args[2]) {
				return false
			}
		}
	}
	return true
}

// ---------- normalisation under facts

type normCtx struct {
	sub  map[*Term]*Term
	memo map[*Term]*Term
}

func (f *Facts) ctx() *normCtx {
	if f.nctx != nil {
		return f.nctx
	}
	c := &normCtx{sub: map[*Term]*Term{}, memo: map[*Term]*Term{}}
	f.nctx = c
	// equations that fix symbols first: the others may mention those inside atoms
	for i := 0; i < 2*len(f.eq); i++ {
		t := f.eq[i%len(f.eq)]
		t = c.applySub(t)
		if t.isConst() {
			continue
		}
		l := linOf(t)
		var best *Term
		var bc *big.Int
		for _, m := range l.m {
			if m.c.CmpAbs(b1) != 0 {
				continue
			}
			occ := false
			for _, o := range l.m {
				if o.a != m.a && containsTerm(o.a, m.a) {
					occ = true
				}
			}
			if occ {
				continue
			}
			if best == nil || elimRank(m.a) > elimRank(best) || elimRank(m.a) == elimRank(best) && m.a.id > best.id {
				best, bc = m.a, m.c
			}
		}
		if best == nil || i < len(f.eq) && elimRank(best) < 2 {
			continue
		}
		// best = -(t - bc*best)/bc
		rest := lincomb(b0, []*big.Int{b1, new(big.Int).Neg(bc)}, []*Term{t, best})
		if bc.Sign() > 0 {
			rest = neg(rest)
		}
		if rest.isConst() || !containsTerm(rest, best) {
			c.sub[best] = rest
		}
	}
	var bs []*Term
	for b, v := range f.bools {
		if v && b.op == OEqT {
			bs = append(bs, b)
		}
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].id < bs[j].id })
	for _, b := range bs {
		x, y := b.args[0], b.args[1] // x.id < y.id
		if y.op == OLit || (x.op != OLit && !isAtomicSeq(y) && isAtomicSeq(x) && !containsTerm(y, x)) {
			x, y = y, x
		}
		if _, ok := c.sub[y]; !ok && !containsTerm(x, y) {
			c.sub[y] = x
		}
	}
	// an element taken at an index another equation fixes
	var keys []*Term
	for k := range c.sub {
		if k.op == OAt || k.op == OUf {
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	for _, k := range keys {
		m := map[*Term]*Term{}
		for a, b := range c.sub {
			if a != k && containsTerm(k, a) {
				m[a] = b
			}
		}
		if len(m) == 0 {
			continue
		}
		n := substT(k, m)
		if n == k {
			continue
		}
		v := c.sub[k]
		for _, x := range []*Term{n, f.norm1(c, n)} {
			if (x.op == OAt || x.op == OUf) && x != k && c.sub[x] == nil && !containsTerm(v, x) {
				c.sub[x] = v
				c.memo = map[*Term]*Term{}
			}
		}
	}
	return c
}

func elimRank(t *Term) int {
	switch t.op {
	case OLen:
		return 3
	case OSym:
		return 2
	case OUf, OAt:
		return 1
	}
	return 0
}

func (c *normCtx) applySub(t *Term) *Term {
	if len(c.sub) == 0 {
		return t
	}
	for i := 0; i < 6; i++ {
		n := substT(t, c.sub)
		if n == t {
			break
		}
		t = n
	}
	return t
}

// norm rewrites t with what the facts decide.
func (f *Facts) norm(t *Term) *Term {
	c := f.ctx()
	for i := 0; i < 4; i++ {
		n := f.norm1(c, c.applySub(t))
		if n == t {
			return t
		}
		t = n
		if f.nctx != c {
			c = f.ctx()
		}
	}
	return t
}

// unfold a fold with few iterations when the facts decide what each one does.
func (f *Facts) unfold(c *normCtx, n *Term, inits []*Term, k *Term, accs, bodies []*Term) *Term {
	cnt, ok := n.constInt()
	if !ok || cnt < 1 || cnt > 3 {
		return nil
	}
	cur := inits
	for i := int64(0); i < cnt; i++ {
		m := map[*Term]*Term{k: mkInt(i)}
		for j, a := range accs {
			m[a] = cur[j]
		}
		next := make([]*Term, len(accs))
		for j := range accs {
			x := f.norm1(c, c.applySub(substT(bodies[j], m)))
			if x.op == OIte || termSize(x, 120) > 100 {
				return nil
			}
			next[j] = x
		}
		cur = next
	}
	return cur[0]
}

func (f *Facts) norm1(c *normCtx, t *Term) *Term {
	if len(t.args) == 0 && len(t.m) == 0 {
		return t
	}
	if r, ok := c.memo[t]; ok {
		return r
	}
	c.memo[t] = t // cut recursion
	var r *Term
	switch t.op {
	case OIte:
		cond := f.norm1(c, t.args[0])
		switch f.decide(cond) {
		case 1:
			r = f.norm1(c, t.args[1])
		case 2:
			r = f.norm1(c, t.args[2])
		default:
			r = mkIte(cond, f.norm1(c, t.args[1]), f.norm1(c, t.args[2]))
		}
	case ORep, OSum, OFold:
		// under binders only the bounds are rewritten
		switch t.op {
		case ORep:
			lo, hi := f.norm1(c, t.args[0]), f.norm1(c, t.args[1])
			if lo == t.args[0] && hi == t.args[1] {
				r = t
			} else {
				k, b := openBody(t.args[2], t.n)
				r = mkRep(k, lo, hi, b)
			}
			if r.op == ORep && f.entails(sub(r.args[1], r.args[0])) {
				r = tEmpty
			}
		case OSum:
			n := f.norm1(c, t.args[1])
			if n == t.args[1] {
				r = t
			} else {
				k, b := openBody(t.args[0], t.n)
				r = mkSumK(k, b, n)
			}
		default:
			n, inits, k, accs, bodies := openFold(t)
			n2 := f.norm1(c, n)
			ch := n2 != n
			var i2 []*Term
			for _, x := range inits {
				y := f.norm1(c, x)
				i2 = append(i2, y)
				ch = ch || y != x
			}
			if ch {
				r = mkFold(k, accs, n2, i2, bodies, 0)
			} else {
				r = t
			}
			if u := f.unfold(c, n2, i2, k, accs, bodies); u != nil {
				r = u
			}
		}
	default:
		r = rebuild(t, func(x *Term) *Term { return f.norm1(c, x) })
		switch r.op {
		case OMod:
			x := r.args[0]
			if f.entails(neg(x)) && f.entails(lincomb(new(big.Int).Sub(b1, r.k), []*big.Int{b1}, []*Term{x})) {
				r = x
			}
		case ODiv:
			x := r.args[0]
			if f.entails(neg(x)) && f.entails(lincomb(new(big.Int).Sub(b1, r.k), []*big.Int{b1}, []*Term{x})) {
				r = t0
			}
		case OShr, OPow2:
			i := len(r.args) - 1
			if v := f.fixed(r.args[i]); v != nil {
				if r.op == OShr {
					r = mkShr(r.args[0], v)
				} else {
					r = mkPow2(v)
				}
			}
		case OUf:
			if g, ok := ufNorm[r.s]; ok {
				if y := g(f, r); y != nil {
					r = y
				}
			}
		case OSub:
			if y := f.sub(r.args[0], r.args[1], r.args[2]); y != nil {
				r = y
			}
		case OAt:
			if y := f.at(r.args[0], r.args[1], r); y != nil {
				r = y
			}
		case OCat:
			// drop empty parts
			var ps []*Term
			ch := false
			for _, p := range r.args {
				if (p.op == OSub || p.op == ORep || p.op == OSym || p.op == OUf || p.op == OIte || p.op == OAt) && f.entails(seqLen(p)) {
					ch = true
					continue
				}
				ps = append(ps, p)
			}
			// a window of at most one item next to a reversed one
			for i, p := range ps {
				if p.op != OSub || !isByteSeq(p) {
					continue
				}
				near := i > 0 && ps[i-1].op == ORev && ps[i-1].args[0].op == OSub && ps[i-1].args[0].args[0] == p.args[0] ||
					i+1 < len(ps) && ps[i+1].op == ORev && ps[i+1].args[0].op == OSub && ps[i+1].args[0].args[0] == p.args[0]
				if near && f.entails(addc(seqLen(p), -1)) {
					ps[i] = mkRaw(Term{op: ORev, sort: SSeq, args: []*Term{p}})
					ch = true
				}
			}
			if ch {
				r = mkCat(ps...)
			}
		}
		if r.op == OSub && f.entails(sub(r.args[2], r.args[1])) {
			r = tEmpty
		}
	}
	c.memo[t] = r
	return r
}

// fixed: the constant that the facts leave for x, if there is just one.
func (f *Facts) fixed(x *Term) *Term {
	if x.isConst() {
		return nil
	}
	lo, hi := int64(-4096), int64(4096)
	if !f.entails(addc(x, -hi)) || !f.entails(addc(neg(x), lo)) {
		return nil
	}
	for lo < hi { // least upper bound
		m := lo + (hi-lo)>>1
		if f.entails(addc(x, -m)) {
			hi = m
		} else {
			lo = m + 1
		}
	}
	if f.entails(addc(neg(x), lo)) {
		return mkInt(lo)
	}
	return nil
}

// ufNorm: fact directed rewriting of modelled functions.
var ufNorm = map[string]func(f *Facts, t *Term) *Term{}

// ---------- positions

func (f *Facts) leq(a, b *Term) bool { return f.entails(sub(a, b)) }

// leqn: a <= b, if need be after evaluating what b is made of
func (f *Facts) leqn(a, b *Term) bool {
	if f.leq(a, b) {
		return true
	}
	if n := f.norm(b); n != b {
		return f.leq(a, n)
	}
	return false
}

func (f *Facts) lt(a, b *Term) bool { return f.entails(addc(sub(a, b), 1)) }
func (f *Facts) same(a, b *Term) bool {
	if a == b {
		return true
	}
	d := sub(a, b)
	if d.isConst() {
		return d.k.Sign() == 0
	}
	return f.entails(d) && f.entails(neg(d))
}

// locate finds the element of a Rep that contains position i.
// right: a position equal to the end of element k is reported as (k+1, 0) anyway.
func (f *Facts) locate(rep, i *Term) (k, off *Term) {
	lo, hi := rep.args[0], rep.args[1]
	ph, body := openBody(rep.args[2], rep.n)
	bl := seqLen(body)
	if c, ok := bl.constInt(); ok && c > 0 {
		if c == 1 {
			return add(lo, i), t0
		}
		q := mkDiv(i, bigI(c))
		return add(lo, q), sub(i, mulc(q, bigI(c)))
	}
	if i == t0 {
		return lo, t0
	}
	for _, c := range locateCands(rep, i) {
		start := sumRangeK(ph, bl, lo, c)
		off := sub(i, start)
		if !f.entails(neg(off)) {
			continue
		}
		if !f.leq(lo, c) {
			continue
		}
		if f.same(c, hi) {
			if f.same(off, t0) {
				return c, t0
			}
			continue
		}
		el := substT(bl, map[*Term]*Term{ph: c})
		if f.leqn(addc(off, 1), el) && f.lt(c, hi) {
			return c, off
		}
	}
	return nil, nil
}

// locateRange finds the element of a Rep that contains positions [i,j], its end included.
func (f *Facts) locateRange(rep, i, j *Term) (k, a, b *Term) {
	lo, hi := rep.args[0], rep.args[1]
	ph, body := openBody(rep.args[2], rep.n)
	bl := seqLen(body)
	if bl.isConst() {
		return nil, nil, nil
	}
	for _, c := range locateCands(rep, i) {
		start := sumRangeK(ph, bl, lo, c)
		a, b := sub(i, start), sub(j, start)
		if f.entails(neg(a)) && f.leq(lo, c) && f.lt(c, hi) && f.leqn(b, substT(bl, map[*Term]*Term{ph: c})) {
			return c, a, b
		}
	}
	return nil, nil, nil
}

func locateCands(rep, i *Term) []*Term {
	lo, hi := rep.args[0], rep.args[1]
	cands := []*Term{}
	seen := map[*Term]bool{}
	addC := func(t *Term) {
		if !seen[t] {
			seen[t] = true
			cands = append(cands, t)
		}
	}
	for _, m := range linOf(i).m {
		if m.a.op == OSum {
			addC(m.a.args[1])
		}
	}
	addC(lo)
	addC(hi)
	for _, c := range append([]*Term{}, cands...) {
		addC(addc(c, -1))
		addC(addc(c, 1))
	}
	return cands
}

// form expands a modelled prefix whose shape the facts decide.
func (f *Facts) form(p *Term) *Term {
	if p.op == OUf {
		if g, ok := ufNorm[p.s]; ok {
			if y := g(f, p); y != nil {
				return y
			}
		}
	}
	return p
}

// at: element i of s; nil when undecided
func (f *Facts) at(s, i, like *Term) *Term {
	switch s.op {
	case OSub:
		return f.at(s.args[0], add(s.args[1], i), like)
	case OLit:
		if c, ok := i.constInt(); ok && c >= 0 && c < int64(len(s.s)) {
			return mkInt(int64(s.s[c]))
		}
		// all the same byte
		if len(s.s) > 0 && f.entails(neg(i)) && f.lt(i, seqLen(s)) {
			all := true
			for j := 1; j < len(s.s); j++ {
				all = all && s.s[j] == s.s[0]
			}
			if all {
				return mkInt(int64(s.s[0]))
			}
		}
		return nil
	case OUnit:
		if f.same(i, t0) {
			return s.args[0]
		}
		return nil
	case ORev:
		return f.at(s.args[0], addc(sub(seqLen(s), i), -1), like)
	case OCat:
		pos := t0
		for _, p := range s.args {
			p = f.form(p)
			off := sub(i, pos)
			pl := seqLen(p)
			if f.lt(off, pl) {
				if f.entails(neg(off)) {
					return f.at(p, off, like)
				}
				return nil
			}
			if !f.leq(pl, off) {
				return nil
			}
			pos = add(pos, pl)
		}
		return nil
	case ORep:
		k, off := f.locate(s, i)
		if k == nil {
			return nil
		}
		return f.at(inst(s.args[2], s.n, k), off, like)
	case OIte:
		switch f.decide(s.args[0]) {
		case 1:
			return f.at(s.args[1], i, like)
		case 2:
			return f.at(s.args[2], i, like)
		}
		a, b := f.at(s.args[1], i, like), f.at(s.args[2], i, like)
		if a == nil || b == nil {
			return nil
		}
		return mkIte(s.args[0], a, b)
	case OHex:
		h := mkDiv(i, bigI(2))
		if c := sub(i, mulc(h, bigI(2))); c == t0 || c == t1 {
			if v := f.at(s.args[0], h, nil); v != nil && v.sort == SInt {
				return hexNibble(c == t0, v)
			}
		}
		return uf2Int("hexdigit", b0, bigI(255), s.args[0], i)
	case OUf:
		if g, ok := ufNorm[s.s]; ok {
			if y := g(f, s); y != nil && y != s {
				return f.at(y, i, like)
			}
		}
	}
	if isAtomicSeq(s) {
		return mkAt(s, i)
	}
	return nil
}

// hexNibble: the hex digit of the high or low half of a byte.
func hexNibble(high bool, v *Term) *Term {
	if c, ok := v.constInt(); ok && c >= 0 && c < 256 {
		if high {
			return mkInt(int64("0123456789abcdef"[c>>4]))
		}
		return mkInt(int64("0123456789abcdef"[c&15]))
	}
	if high {
		return ufInt("hexhi", bigI('0'), bigI('f'), v)
	}
	return ufInt("hexlo", bigI('0'), bigI('f'), v)
}

func uf2Int(name string, lo, hi *big.Int, args ...*Term) *Term { return ufInt(name, lo, hi, args...) }

// sub: s[lo:hi]; nil when undecided. lo<=hi<=len is assumed to hold.
func (f *Facts) sub(s, lo, hi *Term) *Term {
	if f.same(lo, hi) {
		return tEmpty
	}
	switch s.op {
	case OSub:
		return f.sub(s.args[0], add(s.args[1], lo), add(s.args[1], hi))
	}
	if f.same(lo, t0) && f.same(hi, seqLen(s)) {
		return s
	}
	switch s.op {
	case OLit:
		a, ok1 := lo.constInt()
		b, ok2 := hi.constInt()
		if ok1 && ok2 && a >= 0 && a <= b && b <= int64(len(s.s)) {
			return mkLit(s.s[a:b])
		}
		if len(s.s) > 0 {
			all := true
			for j := 1; j < len(s.s); j++ {
				all = all && s.s[j] == s.s[0]
			}
			if all {
				k := mkSym("z#", SInt, nil, nil, nil)
				return mkRep(k, lo, hi, mkLit(s.s[:1]))
			}
		}
		return nil
	case OUnit:
		return nil
	case ORev:
		n := seqLen(s)
		r := f.sub(s.args[0], sub(n, hi), sub(n, lo))
		if r == nil {
			return nil
		}
		return mkRev(r)
	case OHex:
		a, b := mkDiv(lo, bigI(2)), mkDiv(hi, bigI(2))
		if mulc(a, bigI(2)) == lo && mulc(b, bigI(2)) == hi {
			r := f.sub(s.args[0], a, b)
			if r == nil {
				return nil
			}
			return mkHex(r)
		}
		return nil
	case OIte:
		switch f.decide(s.args[0]) {
		case 1:
			return f.sub(s.args[1], lo, hi)
		case 2:
			return f.sub(s.args[2], lo, hi)
		}
		a, b := f.sub(s.args[1], lo, hi), f.sub(s.args[2], lo, hi)
		if a == nil || b == nil {
			return nil
		}
		return mkIte(s.args[0], a, b)
	case OCat:
		pos := t0
		var out []*Term
		started := false
		for _, p := range s.args {
			p = f.form(p)
			pl := seqLen(p)
			end := add(pos, pl)
			if !started {
				if f.leq(end, lo) {
					pos = end
					continue
				}
				if !f.leq(pos, lo) || !f.lt(lo, end) {
					// the start may be exactly at an unknown-size part
					if !(f.leq(pos, lo) && f.leq(lo, end)) {
						return nil
					}
				}
				started = true
				a := sub(lo, pos)
				if f.leq(hi, end) {
					return f.sub(p, a, sub(hi, pos))
				}
				if !f.leq(end, hi) {
					return nil
				}
				q := f.sub(p, a, pl)
				if q == nil {
					return nil
				}
				out = append(out, q)
				pos = end
				continue
			}
			if f.leq(end, hi) {
				out = append(out, p)
				pos = end
				continue
			}
			if f.leq(hi, pos) {
				return mkCat(out...)
			}
			if !f.leq(hi, end) {
				return nil
			}
			q := f.sub(p, t0, sub(hi, pos))
			if q == nil {
				return nil
			}
			out = append(out, q)
			return mkCat(out...)
		}
		return mkCat(out...)
	case ORep:
		if k, a, b := f.locateRange(s, lo, hi); k != nil {
			return f.sub(inst(s.args[2], s.n, k), a, b)
		}
		k1, o1 := f.locate(s, lo)
		if k1 == nil {
			return nil
		}
		ph, body := openBody(s.args[2], s.n)
		bl := seqLen(body)
		at := func(t, k *Term) *Term { return substT(t, map[*Term]*Term{ph: k}) }
		k2, o2 := f.locate(s, hi)
		if k2 == nil {
			return nil
		}
		if f.same(k1, k2) {
			return f.sub(at(body, k1), o1, o2)
		}
		var parts []*Term
		first := k1
		if !f.same(o1, t0) {
			p := f.sub(at(body, k1), o1, at(bl, k1))
			if p == nil {
				return nil
			}
			parts = append(parts, p)
			first = addc(k1, 1)
		}
		parts = append(parts, mkRep(ph, first, k2, body))
		if !f.same(o2, t0) {
			p := f.sub(at(body, k2), t0, o2)
			if p == nil {
				return nil
			}
			parts = append(parts, p)
		}
		return mkCat(parts...)
	case OUf:
		if g, ok := ufNorm[s.s]; ok {
			if y := g(f, s); y != nil && y != s {
				return f.sub(y, lo, hi)
			}
		}
	}
	if isAtomicSeq(s) {
		return mkSub(s, lo, hi)
	}
	return nil
}

// ---------- proving

var proveDepthMax = 7

// prove: facts |- c
func (f *Facts) prove(c *Term) bool { return f.proveD(c, 0) }

func (f *Facts) proveD(c *Term, d int) bool {
	if f.bad {
		return true
	}
	switch f.decide(c) {
	case 1:
		return true
	case 2:
		return false
	}
	n := f.norm(c)
	if n != c {
		switch f.decide(n) {
		case 1:
			return true
		case 2:
			return false
		}
		c = n
	}
	switch c.op {
	case OAnd:
		g := f
		for _, x := range c.args {
			if !g.proveD(x, d) {
				return false
			}
			g = g.clone() // earlier conjuncts help later ones (e.g. equal lengths)
			if !g.assume(x) {
				return true
			}
		}
		return true
	case OOr:
		if d < proveDepthMax {
			// assume the negation of all but one, smallest first
			for i, x := range c.args {
				g := f.clone()
				ok := true
				for j, y := range c.args {
					if j != i && !g.assume(mkNot(y)) {
						ok = false
						break
					}
				}
				if !ok {
					return true
				}
				if g.proveD(x, d+1) {
					return true
				}
			}
		}
	case OIte:
		if d < proveDepthMax {
			g := f.clone()
			if g.assume(c.args[0]) && !g.proveD(c.args[1], d+1) {
				return false
			}
			h := f.clone()
			if h.assume(mkNot(c.args[0])) && !h.proveD(c.args[2], d+1) {
				return false
			}
			return true
		}
	case OEqT:
		if c.args[0].sort == SSeq {
			if f.equalSeq(c.args[0], c.args[1], d) {
				return true
			}
		} else if f.equalVal(c.args[0], c.args[1], d) {
			return true
		}
	case OEq:
		if f.congruent(c.args[0], d) {
			return true
		}
	case OLe:
		if d == 0 && len(f.ne) > 0 {
			if g := f.clone(); !g.assume(mkNot(c)) || g.bad {
				return true
			}
		}
	case ONot:
		x := c.args[0]
		if x.op == OEqT && x.args[0].sort == SSeq && f.differ(x.args[0], x.args[1], d) {
			return true
		}
		if x.op == OEq && d == 0 && len(f.ne) > 0 {
			if g := f.clone(); !g.assume(x) || g.bad {
				return true
			}
		}
	}
	// case split
	if d >= proveDepthMax {
		return false
	}
	if s := f.splitCond(c); s != nil {
		for _, alt := range s {
			g := f.clone()
			if g.assume(alt) && !g.proveD(c, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// congruent: t == 0 where t = x - y with x,y applications of the same operator with equal arguments
func (f *Facts) congruent(t *Term, d int) bool {
	l := linOf(t)
	if len(l.m) < 2 || d >= proveDepthMax {
		return false
	}
	for i, x := range l.m {
		for _, y := range l.m[i+1:] {
			if x.c.Cmp(new(big.Int).Neg(y.c)) != 0 {
				continue
			}
			if !f.congT(x.a, y.a, d) {
				continue
			}
			rest := lincomb(b0, []*big.Int{b1, new(big.Int).Neg(x.c), x.c}, []*Term{t, x.a, y.a})
			if f.proveD(mkEq0(rest), d+1) {
				return true
			}
		}
	}
	return false
}

func (f *Facts) congT(a, b *Term, d int) bool {
	if a == b {
		return true
	}
	if a.op != b.op || a.s != b.s || len(a.args) != len(b.args) || a.n != b.n {
		return false
	}
	if (a.k == nil) != (b.k == nil) || a.k != nil && a.k.Cmp(b.k) != 0 {
		return false
	}
	switch a.op {
	case OUf, OAt, OMod, ODiv, OShr, OMul, OPow2, OLen, OHex, ORev:
		for i := range a.args {
			if !f.proveD(mkEqT(a.args[i], b.args[i]), d+1) {
				return false
			}
		}
		return true
	case OFold:
		return f.equalFold(a, b, d)
	case OSum:
		if a.args[1] != b.args[1] {
			return false
		}
		k, x := openBody(a.args[0], a.n)
		k2, y := openBody(b.args[0], b.n)
		q := freshSym("q", SInt, nil, nil)
		x = substT(x, map[*Term]*Term{k: q})
		y = substT(y, map[*Term]*Term{k2: q})
		g := f.clone()
		g.assume(mkLeq(t0, q))
		g.assume(mkLt(q, a.args[1]))
		return g.proveD(mkIntEq(x, y), d+1)
	}
	return false
}

func (f *Facts) equalFold(a, b *Term, d int) bool {
	if len(a.args) != len(b.args) {
		return false
	}
	n1, i1, k1, acc1, body1 := openFold(a)
	n2, i2, k2, acc2, body2 := openFold(b)
	if !f.proveD(mkIntEq(n1, n2), d+1) {
		return false
	}
	m := map[*Term]*Term{k2: k1}
	for i := range acc1 {
		if acc1[i].sort != acc2[i].sort || !f.proveD(mkEqT(i1[i], i2[i]), d+1) {
			return false
		}
	}
	g := f.clone()
	q := freshSym("q", SInt, nil, nil)
	g.assume(mkLeq(t0, q))
	g.assume(mkLt(q, n1))
	m1 := map[*Term]*Term{k1: q}
	m = map[*Term]*Term{k2: q}
	for i := range acc1 {
		x := mkSym(freshSym("acc", acc1[i].sort, nil, nil).s, acc1[i].sort, acc1[i].lo, acc1[i].hi, acc1[i].ln)
		m1[acc1[i]] = x
		m[acc2[i]] = x
	}
	for i := range body1 {
		if !g.proveD(mkEqT(substT(body1[i], m1), substT(body2[i], m)), d+1) {
			return false
		}
	}
	return true
}

// splitCond proposes an exhaustive list of alternatives to split on, or nil.
func (f *Facts) splitCond(c *Term) []*Term {
	if alts := f.splitIn(c); alts != nil {
		return alts
	}
	return f.splitOr(c)
}

// splitIn: a condition inside c that the facts leave open.
func (f *Facts) splitIn(c *Term) []*Term {
	var found []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term, under bool)
	walk = func(t *Term, under bool) {
		if found != nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OIte {
			if !hasFreeBV(t.args[0]) {
				c := t.args[0]
				d := f.decide(c)
				if d == 3 {
					c = f.norm(c)
					d = f.decide(c)
				}
				switch d {
				case 3:
					found = []*Term{c, mkNot(c)}
				case 1:
					walk(t.args[1], under)
				case 2:
					walk(t.args[2], under)
				}
				return
			}
		}
		if t.op == OUf {
			if g, ok := ufSplit[t.s]; ok && !hasFreeBV(t) {
				if alts := g(f, t); alts != nil {
					found = alts
					return
				}
			}
		}
		if t.op == OAt && !hasFreeBV(t) {
			if b := f.within(t.args[0], t.args[1]); b != nil {
				walk(b, under)
				if found != nil {
					return
				}
			}
		}
		switch t.op {
		case ORep:
			walk(t.args[0], under)
			walk(t.args[1], under)
			return
		case OSum, OFold:
			return
		}
		for _, a := range t.args {
			walk(a, under)
		}
		for _, m := range t.m {
			walk(m.a, under)
		}
		if t.ln != nil {
			walk(t.ln, under)
		}
	}
	walk(c, false)
	return found
}

func (f *Facts) splitOr(c *Term) []*Term {
	// a stored disjunction that shares an atom with c
	var ors []*Term
	for b, v := range f.bools {
		if v && (b.op == OOr || b.op == OIte) {
			ors = append(ors, b)
		}
	}
	sort.Slice(ors, func(i, j int) bool { return ors[i].id < ors[j].id })
	atoms := map[*Term]bool{}
	collectAtoms(c, atoms)
	for _, o := range ors {
		oa := map[*Term]bool{}
		collectAtoms(o, oa)
		for a := range oa {
			if atoms[a] {
				if n := f.norm(o); n != o && f.decide(n) == 1 {
					break
				}
				if o.op == OIte {
					return []*Term{o.args[0], mkNot(o.args[0])}
				}
				return o.args
			}
		}
	}
	return nil
}

// within: the element of a repetition that contains position i of s.
func (f *Facts) within(s, i *Term) *Term {
	pos := t0
	for _, p := range seqParts(s) {
		off := sub(i, pos)
		pl := seqLen(p)
		if p.op == ORep && f.entails(neg(off)) && f.lt(off, pl) {
			if k, _ := f.locate(p, off); k != nil {
				return inst(p.args[2], p.n, k)
			}
			return nil
		}
		if !f.leq(pl, off) {
			return nil
		}
		pos = add(pos, pl)
	}
	return nil
}

func collectAtoms(t *Term, out map[*Term]bool) {
	anyTerm(t, func(x *Term) bool {
		switch x.op {
		case OSym, OUf, OAt, OFold, OSum, OIte:
			out[x] = true
		}
		return false
	})
}

func hasFreeBV(t *Term) bool {
	return t.hasBV && anyTerm(t, func(x *Term) bool { return x.op == OBV })
}

var ufSplit = map[string]func(f *Facts, t *Term) []*Term{}

func (f *Facts) equalVal(a, b *Term, d int) bool {
	if a == b {
		return true
	}
	if a.op == OUf && b.op == OUf {
		return f.congT(a, b, d)
	}
	if a.op == b.op && (a.op == OStruct || a.op == OTuple || a.op == OIface) && len(a.args) == len(b.args) && a.x == b.x {
		for i := range a.args {
			if !f.proveD(mkEqT(a.args[i], b.args[i]), d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// equalSeq matches two sequences from both ends.
func (f *Facts) equalSeq(a, b *Term, d int) bool {
	if d > proveDepthMax {
		return false
	}
	if a == b {
		return true
	}
	pa := append([]*Term{}, seqParts(a)...)
	pb := append([]*Term{}, seqParts(b)...)
	drop := func(ps []*Term) []*Term {
		for len(ps) > 0 && (ps[0] == tEmpty || ps[0].op != OLit && ps[0].op != OUnit && f.entails(seqLen(ps[0]))) {
			ps = ps[1:]
		}
		return ps
	}
	for step := 0; ; step++ {
		if step > 2000 {
			return false
		}
		pa, pb = drop(pa), drop(pb)
		if len(pa) == 0 && len(pb) == 0 {
			return true
		}
		if len(pa) == 0 || len(pb) == 0 {
			return false
		}
		na, nb, ok := f.matchHead(pa[0], pb[0], d)
		if !ok || na == pa[0] && nb == pb[0] { // no progress
			break
		}
		pa, pb = pa[1:], pb[1:]
		if na != nil {
			pa = append(append([]*Term{}, seqParts(na)...), pa...)
		}
		if nb != nil {
			pb = append(append([]*Term{}, seqParts(nb)...), pb...)
		}
	}
	ra, rb := mkCat(pa...), mkCat(pb...)
	// try from the right
	if len(pa) > 1 && len(pb) > 1 && pa[len(pa)-1] == pb[len(pb)-1] {
		return f.equalSeq(mkCat(pa[:len(pa)-1]...), mkCat(pb[:len(pb)-1]...), d)
	}
	if len(pa) == 1 && len(pb) == 1 && f.pointwise(pa[0], pb[0], d) {
		return true
	}
	if f.elementwise(ra, rb) {
		return true
	}
	if ra == a && rb == b {
		// split on a condition inside the first unmatched parts
		return false
	}
	if s := f.splitCond(mkRaw(Term{op: OEqT, sort: SBool, args: []*Term{ra, rb}})); s != nil && d < proveDepthMax {
		for _, alt := range s {
			g := f.clone()
			if g.assume(alt) && !g.equalSeq(g.norm(ra), g.norm(rb), d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// elementwise: short sequences whose elements are known to be equal one by one.
func (f *Facts) elementwise(a, b *Term) bool {
	n, ok := seqLen(f.norm(a)).constInt()
	if !ok || n > 80 || len(f.eq) == 0 || !f.same(seqLen(b), mkInt(n)) {
		return false
	}
	for i := int64(0); i < n; i++ {
		x, y := f.at(a, mkInt(i), byteLike), f.at(b, mkInt(i), byteLike)
		if x == nil || y == nil || x.sort != SInt || y.sort != SInt || !f.same(x, y) {
			return false
		}
	}
	return true
}

// matchHead matches a prefix of p and q; returns what remains of each.
func (f *Facts) matchHead(p, q *Term, d int) (rp, rq *Term, ok bool) {
	if p == q {
		return nil, nil, true
	}
	if p.op == OLit && q.op == OLit {
		n := len(p.s)
		if len(q.s) < n {
			n = len(q.s)
		}
		if p.s[:n] != q.s[:n] {
			return nil, nil, false
		}
		return mkLit(p.s[n:]), mkLit(q.s[n:]), true
	}
	if ep, ok1 := headElem(p); ok1 {
		if eq, ok2 := headElem(q); ok2 {
			if f.proveD(mkEqT(ep, eq), d+1) {
				return tailOf(p), tailOf(q), true
			}
			return nil, nil, false
		}
	}
	if p.op == OUf && q.op == OUf && p.s == q.s && f.congT(p, q, d+1) {
		return nil, nil, true
	}
	if p.op == OHex && q.op == OHex {
		if f.equalSeq(p.args[0], q.args[0], d+1) {
			return nil, nil, true
		}
		return nil, nil, false
	}
	if p.op == OHex && q.op == OLit || p.op == OLit && q.op == OHex {
		return nil, nil, false
	}
	if p.op == ORev && q.op == ORev {
		if f.equalSeq(p.args[0], q.args[0], d+1) {
			return nil, nil, true
		}
		bp, lp, hp, ok1 := revWindow(p)
		bq, lq, hq, ok2 := revWindow(q)
		if ok1 && ok2 && bp == bq && f.same(hp, hq) {
			if f.leq(lq, lp) {
				return nil, mkRev(mkSub(bq, lq, lp)), true
			}
			if f.leq(lp, lq) {
				return mkRev(mkSub(bp, lp, lq)), nil, true
			}
		}
		return nil, nil, false
	}
	if p.op == OFold && q.op == OFold {
		return nil, nil, f.equalFold(p, q, d+1)
	}
	if p.op == ORep && q.op == ORep {
		kp, bp := openBody(p.args[2], p.n)
		kq, bq := openBody(q.args[2], q.n)
		if f.same(p.args[0], q.args[0]) {
			g := f.clone()
			k := freshSym("q", SInt, nil, nil)
			hi := p.args[1]
			var rp, rq *Term
			if f.leq(p.args[1], q.args[1]) {
				if !f.same(p.args[1], q.args[1]) {
					rq = mkRep(kq, p.args[1], q.args[1], bq)
				}
			} else if f.leq(q.args[1], p.args[1]) {
				hi = q.args[1]
				rp = mkRep(kp, q.args[1], p.args[1], bp)
			} else {
				return nil, nil, false
			}
			g.assume(mkLeq(p.args[0], k))
			g.assume(mkLt(k, hi))
			x := substT(bp, map[*Term]*Term{kp: k})
			y := substT(bq, map[*Term]*Term{kq: k})
			if g.proveD(mkSeqEq(x, y), d+1) {
				return rp, rq, true
			}
		} else if sl, ok := sub(p.args[0], q.args[0]).constInt(); ok && sl != 0 && f.same(sub(p.args[1], p.args[0]), sub(q.args[1], q.args[0])) {
			g := f.clone()
			k := freshSym("q", SInt, nil, nil)
			g.assume(mkLeq(p.args[0], k))
			g.assume(mkLt(k, p.args[1]))
			x := substT(bp, map[*Term]*Term{kp: k})
			y := substT(bq, map[*Term]*Term{kq: addc(k, -sl)})
			if g.proveD(mkSeqEq(x, y), d+1) {
				return nil, nil, true
			}
		}
		return nil, nil, false
	}
	// windows of the same base
	bp, lp, hp, ok1 := window(p)
	bq, lq, hq, ok2 := window(q)
	if ok1 && ok2 {
		if bp != bq && bp.op == bq.op && bp.sort == SSeq && f.congT(bp, bq, d+1) {
			bq = bp
		}
		if bp == bq && f.same(lp, lq) {
			if f.same(hp, hq) {
				return nil, nil, true
			}
			if f.leq(hp, hq) {
				return nil, mkSub(bq, hp, hq), true
			}
			if f.leq(hq, hp) {
				return mkSub(bp, hq, hp), nil, true
			}
		}
	}
	// a long constant literal / unit against a longer symbolic part: peel elements
	if p.op == OLit || p.op == OUnit {
		if e, t, ok := f.peel(q); ok {
			if f.proveD(mkEqT(mustHead(p), e), d+1) {
				return tailOf(p), t, true
			}
		}
		return nil, nil, false
	}
	if q.op == OLit || q.op == OUnit {
		if e, t, ok := f.peel(p); ok {
			if f.proveD(mkEqT(mustHead(q), e), d+1) {
				return t, tailOf(q), true
			}
		}
		return nil, nil, false
	}
	// expand modelled functions whose shape the facts decide
	if p.op == OUf {
		if g, ok := ufNorm[p.s]; ok {
			if y := g(f, p); y != nil && y != p {
				return y, q, true
			}
		}
	}
	if q.op == OUf {
		if g, ok := ufNorm[q.s]; ok {
			if y := g(f, q); y != nil && y != q {
				return p, y, true
			}
		}
	}
	if p.op == ORep && f.lt(p.args[0], p.args[1]) {
		k, b := openBody(p.args[2], p.n)
		return mkCat(substT(b, map[*Term]*Term{k: p.args[0]}), mkRepNoJoin(k, addc(p.args[0], 1), p.args[1], b)), q, q.op != ORep && p.args[0].isConst()
	}
	if q.op == ORep && f.lt(q.args[0], q.args[1]) {
		k, b := openBody(q.args[2], q.n)
		return p, mkCat(substT(b, map[*Term]*Term{k: q.args[0]}), mkRepNoJoin(k, addc(q.args[0], 1), q.args[1], b)), p.op != ORep && q.args[0].isConst()
	}
	// same length: pointwise
	if f.same(seqLen(p), seqLen(q)) && f.pointwise(p, q, d) {
		return nil, nil, true
	}
	return nil, nil, false
}

func mkRepNoJoin(k, lo, hi, body *Term) *Term { return mkRep(k, lo, hi, body) }

func headElem(p *Term) (*Term, bool) {
	if p.op == OUnit {
		return p.args[0], true
	}
	if p.op == OLit && len(p.s) > 0 {
		return mkInt(int64(p.s[0])), true
	}
	return nil, false
}
func mustHead(p *Term) *Term { e, _ := headElem(p); return e }
func tailOf(p *Term) *Term {
	if p.op == OLit {
		return mkLit(p.s[1:])
	}
	return nil
}

// peel takes the first element off a part known to be non-empty.
func (f *Facts) peel(q *Term) (e, t *Term, ok bool) {
	n := seqLen(q)
	if !f.lt(t0, n) {
		return nil, nil, false
	}
	e = f.at(q, t0, byteLike)
	if e == nil {
		return nil, nil, false
	}
	t = f.sub(q, t1, n)
	if t == nil {
		return nil, nil, false
	}
	return e, t, true
}

// pointwise: equal lengths and equal elements at a fresh index.
func (f *Facts) pointwise(p, q *Term, d int) bool {
	if d >= proveDepthMax-1 {
		return false
	}
	n := seqLen(p)
	if !f.same(n, seqLen(q)) {
		return false
	}
	k := freshSym("q", SInt, nil, nil)
	g := f.clone()
	if !g.assume(mkLeq(t0, k)) || !g.assume(mkLt(k, n)) {
		return true
	}
	x, y := g.at(p, k, byteLike), g.at(q, k, byteLike)
	if x == nil || y == nil || x.sort != y.sort {
		return false
	}
	if x.op == OAt && y.op == OAt && x.args[1] == k && y.args[1] == k && len(f.univ) == 0 {
		return false
	}
	for _, u := range f.univ {
		if !g.assumeUniv(u, k) {
			return true
		}
	}
	return g.proveD(mkEqT(x, y), d+2)
}

// differ: sequences provably different
func (f *Facts) differ(a, b *Term, d int) bool {
	if f.proveD(mkNot(mkIntEq(seqLen(a), seqLen(b))), d+1) {
		return true
	}
	// congruence: equality would contradict a known disequality of elements
	for _, t := range f.ne {
		l := linOf(t)
		if l.c.Sign() != 0 || len(l.m) != 2 || l.m[0].c.Cmp(new(big.Int).Neg(l.m[1].c)) != 0 {
			continue
		}
		x, y := l.m[0].a, l.m[1].a
		if x.op != OAt || y.op != OAt {
			continue
		}
		bx, lx, _, _ := window(mkUnit(x))
		by, ly, _, _ := window(mkUnit(y))
		for _, pr := range [][2]*Term{{a, b}, {b, a}} {
			b1, l1, h1, ok1 := window(pr[0])
			b2, l2, h2, ok2 := window(pr[1])
			if !ok1 || !ok2 || b1 != bx || b2 != by {
				continue
			}
			if f.same(sub(lx, l1), sub(ly, l2)) && f.leq(l1, lx) && f.lt(lx, h1) && f.leq(l2, ly) && f.lt(ly, h2) {
				return true
			}
		}
	}
	return false
}

// Univ: for all k in [lo,hi): body(k)
type Univ struct {
	k, lo, hi, body *Term
}

func (f *Facts) assumeUniv(u Univ, at *Term) bool {
	m := map[*Term]*Term{u.k: at}
	if f.prove2(mkLeq(u.lo, at)) && f.prove2(mkLt(at, u.hi)) {
		return f.assume(substT(u.body, m))
	}
	return true
}

func (f *Facts) prove2(c *Term) bool { return f.decide(c) == 1 }
