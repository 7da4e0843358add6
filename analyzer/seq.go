// Sequence terms (byte strings and lists) in normal form.
package main

import (
	"math/big"
)

func mkLit(s string) *Term {
	if s == "" {
		return tEmpty
	}
	return mkRaw(Term{op: OLit, sort: SSeq, s: s})
}

func mkUnit(e *Term) *Term {
	if e.sort == SInt && e.isConst() && e.k.IsInt64() && e.k.Int64() >= 0 && e.k.Int64() < 256 {
		return mkLit(string([]byte{byte(e.k.Int64())}))
	}
	// NB: integer elements outside 0..255 are kept as units (non-byte lists)
	return mkRaw(Term{op: OUnit, sort: SSeq, args: []*Term{e}})
}

func seqParts(t *Term) []*Term {
	if t.op == OCat {
		return t.args
	}
	return []*Term{t}
}

// unitAt returns (base, index) when t is a one-element window of an atomic sequence.
func unitAt(t *Term) (*Term, *Term, bool) {
	if t.op == OUnit && t.args[0].op == OAt {
		return t.args[0].args[0], t.args[0].args[1], true
	}
	return nil, nil, false
}

// window: t == base[lo:hi] (ascending)
func window(t *Term) (base, lo, hi *Term, ok bool) {
	if t.op == OSub {
		return t.args[0], t.args[1], t.args[2], true
	}
	if b, i, ok := unitAt(t); ok {
		return b, i, addc(i, 1), true
	}
	if isAtomicSeq(t) {
		return t, t0, seqLen(t), true
	}
	return
}

func revWindow(t *Term) (base, lo, hi *Term, ok bool) {
	if t.op == ORev {
		return window(t.args[0])
	}
	if b, i, ok := unitAt(t); ok {
		return b, i, addc(i, 1), true
	}
	return
}

func isAtomicSeq(t *Term) bool {
	if t.sort != SSeq {
		return false
	}
	switch t.op {
	case OSym, OUf, OAt, OFold, OBV:
		return true
	}
	return false
}

// joinParts merges two adjacent parts when they form one part.
func joinParts(a, b *Term) *Term {
	if a.op == OLit && b.op == OLit {
		return mkLit(a.s + b.s)
	}
	if a.op == OHex && b.op == OHex {
		return mkHex(mkCat(a.args[0], b.args[0]))
	}
	if a.op == OUnit && b.op == OUnit {
		x, y := a.args[0], b.args[0]
		if x.op == OUf && y.op == OUf && x.s == "hexhi" && y.s == "hexlo" && x.args[0] == y.args[0] {
			return mkHex(mkUnit(x.args[0]))
		}
	}
	if ba, la, ha, ok := window(a); ok {
		if bb, lb, hb, ok := window(b); ok && ba == bb && ha == lb {
			return mkSub(ba, la, hb)
		}
	}
	if ba, la, ha, ok := revWindow(a); ok {
		if bb, lb, hb, ok := revWindow(b); ok && ba == bb && hb == la {
			if a.op == OUnit && b.op == OUnit {
				return mkRev(mkSub(ba, lb, ha))
			}
			return mkRev(mkSub(ba, lb, ha))
		}
	}
	if a.op == ORep && b.op == ORep && a.args[2] == b.args[2] && a.args[0] == t0 && b.args[0] == t0 && !hasBVn(a.args[2], a.n) {
		return mkRepRaw(t0, add(a.args[1], b.args[1]), a.args[2], a.n)
	}
	if a.op == ORep && b.op == ORep && a.args[2] == b.args[2] && a.args[1] == b.args[0] && a.n == b.n {
		return mkRepRaw(a.args[0], b.args[1], a.args[2], a.n)
	}
	if b.op == ORep && a == b.args[2] && b.args[0] == t0 && !hasBVn(a, b.n) {
		return mkRepRaw(t0, addc(b.args[1], 1), a, b.n)
	}
	if a.op == ORep && b == a.args[2] && a.args[0] == t0 && !hasBVn(b, a.n) {
		return mkRepRaw(t0, addc(a.args[1], 1), b, a.n)
	}
	if b.op == ORep { // body[lo-1] ++ Rep(lo,hi)
		p := addc(b.args[0], -1)
		if inst(b.args[2], b.n, p) == a {
			return mkRepRaw(p, b.args[1], b.args[2], b.n)
		}
	}
	if a.op == ORep {
		if inst(a.args[2], a.n, a.args[1]) == b {
			return mkRepRaw(a.args[0], addc(a.args[1], 1), a.args[2], a.n)
		}
	}
	return nil
}

func mkCat(parts ...*Term) *Term {
	var r []*Term
	var push func(p *Term)
	push = func(p *Term) {
		if p.op == OCat {
			for _, q := range p.args {
				push(q)
			}
			return
		}
		if len(r) > 0 {
			if j := joinParts(r[len(r)-1], p); j != nil {
				r = r[:len(r)-1]
				push(j)
				return
			}
		}
		r = append(r, p)
	}
	for _, p := range parts {
		push(p)
	}
	if len(r) == 0 {
		return tEmpty
	}
	if len(r) == 1 {
		return r[0]
	}
	return mkRaw(Term{op: OCat, sort: SSeq, args: r})
}

// mkSub of an atomic base (no position resolution).
func mkSub(base, lo, hi *Term) *Term {
	if lo == hi {
		return tEmpty
	}
	if lo == t0 && hi == seqLen(base) {
		return base
	}
	if sub(hi, lo) == t1 {
		return mkUnit(mkAt(base, lo))
	}
	return mkRaw(Term{op: OSub, sort: SSeq, args: []*Term{base, lo, hi}})
}

// mkAt: element of an atomic sequence; element sort decided by the base name.
func mkAt(base, i *Term) *Term {
	es := elemOf(base)
	t := Term{op: OAt, sort: es.sort, args: []*Term{base, i}}
	if es.sort == SInt {
		t.lo, t.hi = es.lo, es.hi
	}
	if es.sort == SSeq {
		t.ln = es.ln
	}
	return mkRaw(t)
}

type elemSpec struct {
	sort   Sort
	lo, hi *big.Int
	ln     *Term
}

var byteElem = elemSpec{SInt, b0, bigI(255), nil}
var elemSpecs = map[string]elemSpec{} // by symbol name of list-valued atoms

func elemOf(base *Term) elemSpec {
	switch base.op {
	case OSym, OUf, OFold:
		if e, ok := elemSpecs[base.s]; ok {
			return e
		}
	}
	return byteElem
}

func mkRev(x *Term) *Term {
	switch x.op {
	case OCat:
		var r []*Term
		for i := len(x.args) - 1; i >= 0; i-- {
			r = append(r, mkRev(x.args[i]))
		}
		return mkCat(r...)
	case OLit:
		b := []byte(x.s)
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
		return mkLit(string(b))
	case OUnit:
		return x
	case ORev:
		return x.args[0]
	case OIte:
		return mkIte(x.args[0], mkRev(x.args[1]), mkRev(x.args[2]))
	case ORep: // reverse iteration: body'(k) = rev body(lo+hi-1-k)
		k := mkSym("rv#"+itoa(x.n), SInt, nil, nil, nil)
		body := inst(x.args[2], x.n, sub(addc(add(x.args[0], x.args[1]), -1), k))
		return mkRep(k, x.args[0], x.args[1], mkRev(body))
	}
	return mkRaw(Term{op: ORev, sort: SSeq, args: []*Term{x}})
}

func mkHex(x *Term) *Term {
	switch x.op {
	case OLit:
		const h = "0123456789abcdef"
		var b []byte
		for i := 0; i < len(x.s); i++ {
			b = append(b, h[x.s[i]>>4], h[x.s[i]&15])
		}
		return mkLit(string(b))
	case OCat:
		if len(x.args) == 0 {
			return tEmpty
		}
	case OIte:
		return mkIte(x.args[0], mkHex(x.args[1]), mkHex(x.args[2]))
	}
	return mkRaw(Term{op: OHex, sort: SSeq, args: []*Term{x}})
}

func seqLen(t *Term) *Term {
	if t.ln != nil {
		return t.ln
	}
	switch t.op {
	case OLit:
		return mkInt(int64(len(t.s)))
	case OUnit:
		return t1
	case OSub:
		return sub(t.args[2], t.args[1])
	case OCat:
		var cs []*big.Int
		var ts []*Term
		for _, a := range t.args {
			cs = append(cs, b1)
			ts = append(ts, seqLen(a))
		}
		return lincomb(b0, cs, ts)
	case ORep:
		k, body := openBody(t.args[2], t.n)
		return sumRangeK(k, seqLen(body), t.args[0], t.args[1])
	case ORev:
		return seqLen(t.args[0])
	case OHex:
		return mulc(seqLen(t.args[0]), bigI(2))
	case OIte:
		return mkIte(t.args[0], seqLen(t.args[1]), seqLen(t.args[2]))
	}
	return mkRaw(Term{op: OLen, sort: SInt, args: []*Term{t}, lo: b0, hi: maxLen})
}

// ---------- binders

var freshN int

func freshSym(prefix string, so Sort, lo, hi *big.Int) *Term {
	freshN++
	return mkSym(prefix+"~"+itoa(freshN), so, lo, hi, nil)
}

func itoa(n int) string { return big.NewInt(int64(n)).String() }

func mkBV(n int, like *Term) *Term {
	return mkRaw(Term{op: OBV, sort: like.sort, n: n, lo: nil, hi: nil})
}

// closeOver abstracts symbol k in body; returns the body with BV(d) and d.
func closeOver(k *Term, body *Term) (*Term, int) {
	d := body.bd + 1
	return substT(body, map[*Term]*Term{k: mkBV(d, k)}), d
}

// inst instantiates BV(n) in body by t.
func inst(body *Term, n int, t *Term) *Term {
	if !body.hasBV {
		return body
	}
	return substT(body, map[*Term]*Term{mkBV(n, t): t})
}

func hasBVn(t *Term, n int) bool {
	return t.hasBV && containsTerm(t, mkBV(n, t0))
}

func containsTerm(t, x *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		for _, m := range t.m {
			if f(m.a) {
				return true
			}
		}
		if t.ln != nil && f(t.ln) {
			return true
		}
		return false
	}
	return f(t)
}

func anyTerm(t *Term, p func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if p(t) {
			return true
		}
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		for _, m := range t.m {
			if f(m.a) {
				return true
			}
		}
		return t.ln != nil && f(t.ln)
	}
	return f(t)
}

// mkRep builds the concatenation of body(k), k in [lo,hi). k is a symbol.
func mkRep(k, lo, hi, body *Term) *Term {
	if lo == hi || body == tEmpty {
		return tEmpty
	}
	// body = base[f(k):f(k+1)] ascending window
	if n, ok := sub(hi, lo).constInt(); ok && n > 0 && (n <= 64 || body.op == OLit && n*int64(len(body.s)) <= 4096) {
		var ps []*Term
		for i := int64(0); i < n; i++ {
			ps = append(ps, substT(body, map[*Term]*Term{k: addc(lo, i)}))
		}
		return mkCat(ps...)
	}
	if base, l, h, ok := window(body); ok && !containsTerm(base, k) && (body.op == OSub || body.op == OUnit) {
		if substT(l, map[*Term]*Term{k: addc(k, 1)}) == h {
			return mkSub(base, substT(l, map[*Term]*Term{k: lo}), substT(l, map[*Term]*Term{k: hi}))
		}
		if body.op == OUnit && substT(l, map[*Term]*Term{k: addc(k, 1)}) == addc(l, -1) {
			return mkRev(mkSub(base, addc(substT(l, map[*Term]*Term{k: hi}), 1), addc(substT(l, map[*Term]*Term{k: lo}), 1)))
		}
	}
	if body.op == OHex {
		return mkHex(mkRep(k, lo, hi, body.args[0]))
	}
	if lo != t0 && !containsTerm(body, k) {
		lo, hi = t0, sub(hi, lo)
	}
	b, d := closeOver(k, body)
	return mkRepRaw(lo, hi, b, d)
}

func mkRepRaw(lo, hi, body *Term, d int) *Term {
	if lo == hi || body == tEmpty {
		return tEmpty
	}
	t := mkRaw(Term{op: ORep, sort: SSeq, args: []*Term{lo, hi, body}, n: d})
	if t.bd < d {
		t.bd = d
	}
	return t
}

// phSym is the placeholder used while a binder of depth d is opened.
func phSym(d int, like Sort) *Term { return mkSym("bv#"+itoa(d), like, nil, nil, nil) }

// openBody opens a binder; safe because nested binders have smaller depth.
func openBody(body *Term, d int) (*Term, *Term) {
	k := phSym(d, SInt)
	return k, inst(body, d, k)
}

// sumRangeK: sum of e(k) for k in [lo,hi)
func sumRangeK(k, e, lo, hi *Term) *Term {
	l := linOf(e)
	n := sub(hi, lo)
	cs := []*big.Int{l.c}
	ts := []*Term{n}
	for _, m := range l.m {
		if !containsTerm(m.a, k) {
			cs = append(cs, m.c)
			ts = append(ts, mkMul(m.a, n))
			continue
		}
		cs = append(cs, m.c, new(big.Int).Neg(m.c))
		ts = append(ts, mkSumK(k, m.a, hi), mkSumK(k, m.a, lo))
	}
	return lincomb(b0, cs, ts)
}

// mkSumK: sum_{0<=j<n} atom[k:=j]
func mkSumK(k, atom, n *Term) *Term {
	if atom.op == OLin {
		return sumRangeK(k, atom, t0, n)
	}
	if !containsTerm(atom, k) {
		return mkMul(atom, n)
	}
	at := func(i *Term) *Term { return substT(atom, map[*Term]*Term{k: i}) }
	if atom == k { // n(n-1)/2 : kept as a sum atom
	}
	if c, ok := n.constInt(); ok && c >= 0 && c <= 64 {
		r := t0
		for i := int64(0); i < c; i++ {
			r = add(r, at(mkInt(i)))
		}
		return r
	}
	// counted down: the same sum counted up
	if _, ok := n.constInt(); !ok && !containsTerm(n, k) && downward(atom, k) {
		f := at(sub(addc(n, -1), k))
		free := true
		for _, m := range linOf(n).m {
			if containsTerm(f, m.a) {
				free = false
			}
		}
		if free {
			return mkSumK(k, f, n)
		}
	}
	l := linOf(n)
	if l.c.Sign() != 0 && l.c.IsInt64() && l.c.Int64() <= 64 && l.c.Int64() >= -64 && len(l.m) > 0 {
		base := mkLin(Lin{b0, l.m})
		r := mkSumK(k, atom, base)
		c := l.c.Int64()
		for i := int64(0); i < c; i++ {
			r = add(r, at(addc(base, i)))
		}
		for i := c; i < 0; i++ {
			r = sub(r, at(addc(base, i)))
		}
		return r
	}
	b, d := closeOver(k, atom)
	t := mkRaw(Term{op: OSum, sort: SInt, args: []*Term{b, n}, n: d})
	if t.bd < d {
		t.bd = d
	}
	return t
}

// downward: k only occurs with a negative factor.
func downward(t, k *Term) bool {
	neg, bad := false, false
	memo := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if memo[t] || bad {
			return
		}
		memo[t] = true
		if t == k {
			bad = true
			return
		}
		if t.op == OLin {
			for _, m := range linOf(t).m {
				if m.a == k {
					if m.c.Sign() < 0 {
						neg = true
					} else {
						bad = true
					}
				} else {
					visit(m.a)
				}
			}
			return
		}
		for _, a := range t.args {
			visit(a)
		}
		if t.ln != nil {
			visit(t.ln)
		}
	}
	visit(t)
	return neg && !bad
}

// ---------- substitution (rebuilds through the constructors)

func substT(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return substM(t, m, memo)
}

func substM(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 && len(t.m) == 0 && t.ln == nil {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := rebuild(t, func(x *Term) *Term { return substM(x, m, memo) })
	memo[t] = r
	return r
}

// rebuild applies f to the children and reconstructs through smart constructors.
func rebuild(t *Term, f func(*Term) *Term) *Term {
	if t.op == OLin {
		ch := false
		cs := make([]*big.Int, len(t.m))
		ts := make([]*Term, len(t.m))
		for i, m := range t.m {
			cs[i] = m.c
			ts[i] = f(m.a)
			if ts[i] != m.a {
				ch = true
			}
		}
		if !ch {
			return t
		}
		return lincomb(t.k, cs, ts)
	}
	switch t.op {
	case ORep:
		k, body := openBody(t.args[2], t.n)
		lo, hi, nb := f(t.args[0]), f(t.args[1]), f(body)
		if lo == t.args[0] && hi == t.args[1] && nb == body {
			return t
		}
		return mkRep(k, lo, hi, nb)
	case OSum:
		k, body := openBody(t.args[0], t.n)
		n, nb := f(t.args[1]), f(body)
		if n == t.args[1] && nb == body {
			return t
		}
		return mkSumK(k, nb, n)
	case OFold:
		return rebuildFold(t, f)
	}
	ch := false
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = f(a)
		if args[i] != a {
			ch = true
		}
	}
	ln := t.ln
	if ln != nil {
		ln = f(ln)
		if ln != t.ln {
			ch = true
		}
	}
	if !ch {
		return t
	}
	return mkOp(t, args, ln)
}

// mkOp rebuilds a term of the same operator with new arguments.
func mkOp(t *Term, args []*Term, ln *Term) *Term {
	switch t.op {
	case OIte:
		return mkIte(args[0], args[1], args[2])
	case OLen:
		return seqLen(args[0])
	case OAt:
		return pureAt(args[0], args[1], t)
	case ODiv:
		return mkDiv(args[0], t.k)
	case OMod:
		return mkMod(args[0], t.k)
	case OShr:
		return mkShr(args[0], args[1])
	case OMul:
		return mkMul(args[0], args[1])
	case OPow2:
		return mkPow2(args[0])
	case OLe:
		return mkLe(args[0])
	case OEq:
		return mkEq0(args[0])
	case OEqT:
		return mkEqT(args[0], args[1])
	case ONot:
		return mkNot(args[0])
	case OAnd:
		return mkAnd(args...)
	case OOr:
		return mkOr(args...)
	case OUnit:
		return mkUnit(args[0])
	case OSub:
		return pureSub(args[0], args[1], args[2])
	case OCat:
		return mkCat(args...)
	case ORev:
		return mkRev(args[0])
	case OHex:
		return mkHex(args[0])
	case OUf:
		if f, ok := ufRules[t.s]; ok {
			if r := f(args); r != nil {
				return r
			}
		}
		if r := bitArgs(t.s, &args); r != nil {
			return r
		}
		return mkRaw(Term{op: OUf, sort: t.sort, s: t.s, args: args, lo: t.lo, hi: t.hi, ln: ln, x: t.x})
	}
	return mkRaw(Term{op: t.op, sort: t.sort, args: args, s: t.s, n: t.n, k: t.k, lo: t.lo, hi: t.hi, ln: ln, x: t.x})
}

// ufRules rewrites applications of modelled functions on construction.
var ufRules = map[string]func(args []*Term) *Term{}

func uf(name string, so Sort, args ...*Term) *Term {
	if f, ok := ufRules[name]; ok {
		if r := f(args); r != nil {
			return r
		}
	}
	return mkUf(name, so, args...)
}
func ufInt(name string, lo, hi *big.Int, args ...*Term) *Term {
	if f, ok := ufRules[name]; ok {
		if r := f(args); r != nil {
			return r
		}
	}
	if r := bitArgs(name, &args); r != nil {
		return r
	}
	return mkUfInt(name, lo, hi, args...)
}

// bitArgs puts the operands of a symmetric bit operation in order.
func bitArgs(name string, args *[]*Term) *Term {
	if len(*args) != 2 || name != "or" && name != "xor" && name != "and" {
		return nil
	}
	a, b := (*args)[0], (*args)[1]
	if a == b {
		if name == "xor" {
			return t0
		}
		return a
	}
	if b == t0 {
		a, b = b, a
	}
	if a == t0 {
		if name == "and" {
			return t0
		}
		return b
	}
	if a.id > b.id {
		*args = []*Term{b, a}
	}
	return nil
}
func ufSeq(name string, ln *Term, args ...*Term) *Term {
	if f, ok := ufRules[name]; ok {
		if r := f(args); r != nil {
			return r
		}
	}
	return mkUfSeq(name, ln, args...)
}

// pureAt / pureSub resolve what can be resolved without facts.
func pureAt(s, i *Term, like *Term) *Term {
	switch s.op {
	case OSub:
		return pureAt(s.args[0], add(s.args[1], i), like)
	case OLit:
		if c, ok := i.constInt(); ok && c >= 0 && c < int64(len(s.s)) {
			return mkInt(int64(s.s[c]))
		}
	case OUnit:
		if i == t0 {
			return s.args[0]
		}
	case ORev:
		return pureAt(s.args[0], addc(sub(seqLen(s), i), -1), like)
	case OCat:
		pos := t0
		for _, p := range s.args {
			off := sub(i, pos)
			pl := seqLen(p)
			if c, ok := off.constInt(); ok {
				if n, ok := pl.constInt(); ok && c >= 0 && c < n {
					return pureAt(p, off, like)
				}
				if c < 0 {
					break
				}
			}
			pos = add(pos, pl)
		}
	case ORep:
		if seqLen(s.args[2]) == t1 {
			return pureAt(inst(s.args[2], s.n, add(s.args[0], i)), t0, like)
		}
	case OIte:
		return mkIte(s.args[0], pureAt(s.args[1], i, like), pureAt(s.args[2], i, like))
	}
	if isAtomicSeq(s) {
		r := mkAt(s, i)
		return r
	}
	return mkRaw(Term{op: OAt, sort: like.sort, args: []*Term{s, i}, lo: like.lo, hi: like.hi, ln: like.ln})
}

func pureSub(s, lo, hi *Term) *Term {
	if lo == hi {
		return tEmpty
	}
	if lo == t0 && hi == seqLen(s) {
		return s
	}
	switch s.op {
	case OSub:
		return pureSub(s.args[0], add(s.args[1], lo), add(s.args[1], hi))
	case OLit:
		a, ok1 := lo.constInt()
		b, ok2 := hi.constInt()
		if ok1 && ok2 && a >= 0 && a <= b && b <= int64(len(s.s)) {
			return mkLit(s.s[a:b])
		}
	case ORev:
		n := seqLen(s)
		return mkRev(pureSub(s.args[0], sub(n, hi), sub(n, lo)))
	case OCat:
		// resolvable only when the cut points coincide with constant part boundaries
		if r := pureCatSub(s, lo, hi); r != nil {
			return r
		}
	case OIte:
		return mkIte(s.args[0], pureSub(s.args[1], lo, hi), pureSub(s.args[2], lo, hi))
	case OHex:
		a, b := mkDiv(lo, bigI(2)), mkDiv(hi, bigI(2))
		if mulc(a, bigI(2)) == lo && mulc(b, bigI(2)) == hi {
			return mkHex(pureSub(s.args[0], a, b))
		}
	}
	if isAtomicSeq(s) {
		return mkSub(s, lo, hi)
	}
	return mkRaw(Term{op: OSub, sort: SSeq, args: []*Term{s, lo, hi}})
}

func pureCatSub(s, lo, hi *Term) *Term {
	pos := t0
	var out []*Term
	started := false
	for _, p := range s.args {
		end := add(pos, seqLen(p))
		var a, b *Term
		if !started {
			if d, ok := sub(lo, end).constInt(); ok && d >= 0 {
				pos = end
				continue
			}
			d, ok := sub(lo, pos).constInt()
			if !ok || d < 0 {
				return nil
			}
			a = mkInt(d)
			started = true
		} else {
			a = t0
		}
		dh, ok := sub(hi, end).constInt()
		if !ok {
			if e, ok2 := sub(hi, pos).constInt(); ok2 {
				b = mkInt(e)
				out = append(out, pureSub(p, a, b))
				return mkCat(out...)
			}
			return nil
		}
		if dh >= 0 {
			b = sub(end, pos)
			out = append(out, pureSub(p, a, b))
			if dh == 0 {
				return mkCat(out...)
			}
		} else {
			b = sub(hi, pos)
			out = append(out, pureSub(p, a, b))
			return mkCat(out...)
		}
		pos = end
	}
	return nil
}
