// Terms: the hash-consed symbolic value domain of the abstract interpreter.
package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort uint8

const (
	SInt Sort = iota
	SBool
	SSeq
	SVal // pointers, slices, structs, interfaces, functions, opaque values
)

type Op uint8

const (
	OLin  Op = iota // linear integer form
	OSym            // free symbol (any sort)
	OBV             // bound variable, n = depth
	OUf             // uninterpreted / modelled function application, s = name
	OIte            // cond, a, b
	OLen            // length of an atomic sequence
	OAt             // element of an atomic sequence
	ODiv            // floor division by constant k
	OMod            // floor modulo by constant k
	OShr            // floor(x / 2^n), n symbolic
	OMul            // product of two non-constant terms
	OPow2           // 2^n
	OSum            // sum_{k<n} body : args body(with BV), n
	OFold           // iterated recurrence, see mkFold
	OMu             // number of iterations of an unguarded loop
	// booleans
	OTrue
	OFalse
	OLe  // lin <= 0
	OEq  // lin == 0
	OEqT // a == b (non integer)
	ONot
	OAnd
	OOr
	// sequences
	OLit  // constant bytes
	OUnit // one element
	OSub  // base[lo:hi], base atomic
	OCat
	ORep // concatenation of body(k) for k in [lo,hi)
	ORev
	OHex
	// values
	ONil
	OObj    // object identity: s = site, args = loop indices
	OPtr    // args: obj, selectors...
	OSelF   // field selector, n
	OSelI   // index selector, args[0]
	OSlice  // args: pointer to array, off, len, cap
	OStruct // fields
	OIface  // dynamic type ty, value
	OFunc   // fn, bindings
	OTuple
	OMap // s = id of table object; args k1 v1 k2 v2...
	OType
)

var opNames = map[Op]string{OLin: "lin", OSym: "sym", OBV: "bv", OUf: "uf", OIte: "ite", OLen: "len", OAt: "at", ODiv: "div", OMod: "mod", OShr: "shr", OMul: "mul", OPow2: "pow2", OSum: "sum", OFold: "fold", OMu: "mu", OTrue: "true", OFalse: "false", OLe: "le", OEq: "eq", OEqT: "eqt", ONot: "not", OAnd: "and", OOr: "or", OLit: "lit", OUnit: "unit", OSub: "sub", OCat: "cat", ORep: "rep", ORev: "rev", OHex: "hex", ONil: "nil", OObj: "obj", OPtr: "ptr", OSelF: "fld", OSelI: "idx", OSlice: "slice", OStruct: "struct", OIface: "iface", OFunc: "func", OTuple: "tuple", OMap: "map", OType: "type"}

type Mono struct {
	c *big.Int
	a *Term
}

type Term struct {
	id    int
	op    Op
	sort  Sort
	args  []*Term
	s     string
	n     int      // BV depth, field number, fold component
	k     *big.Int // divisor / modulus / constant of OLin
	m     []Mono   // OLin
	lo    *big.Int // static range for Int atoms (nil: unknown)
	hi    *big.Int
	ln    *Term       // length of atomic sequence when known
	x     interface{} // *ssa.Function, types.Type ...
	bd    int         // binder depth inside (max depth of any binder in this term)
	hasBV bool        // contains BV (bound or free)
	ops   uint64      // set of ops contained (for quick filters)
}

var terms = map[string]*Term{}
var termList []*Term

func bigI(n int64) *big.Int { return big.NewInt(n) }

var (
	b0     = bigI(0)
	b1     = bigI(1)
	bm1    = bigI(-1)
	maxLen = new(big.Int).Lsh(b1, 47)
)

func pow2(n uint) *big.Int { return new(big.Int).Lsh(b1, n) }

func mkRaw(t Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte(t.op))
	sb.WriteByte(byte(t.sort))
	for _, a := range t.args {
		sb.WriteString(strconv.Itoa(a.id))
		sb.WriteByte(',')
	}
	if t.s != "" {
		sb.WriteByte('"')
		sb.WriteString(t.s)
		sb.WriteByte('"')
	}
	if t.n != 0 {
		sb.WriteByte('#')
		sb.WriteString(strconv.Itoa(t.n))
	}
	if t.k != nil {
		sb.WriteByte('k')
		sb.WriteString(t.k.String())
	}
	for _, m := range t.m {
		sb.WriteByte('+')
		sb.WriteString(m.c.String())
		sb.WriteByte('*')
		sb.WriteString(strconv.Itoa(m.a.id))
	}
	if t.op == OSym || t.op == OUf || t.op == OFold || t.op == OBV || t.op == OAt {
		// the static range and length belong to the identity of an atom
		if t.lo != nil {
			sb.WriteString("L" + t.lo.String())
		}
		if t.hi != nil {
			sb.WriteString("H" + t.hi.String())
		}
		if t.ln != nil {
			sb.WriteString("N" + strconv.Itoa(t.ln.id))
		}
	}
	if t.x != nil {
		switch x := t.x.(type) {
		case types.Type:
			sb.WriteString("T" + types.TypeString(x, nil))
		default:
			sb.WriteString(fmt.Sprintf("X%p", x))
		}
	}
	key := sb.String()
	if r, ok := terms[key]; ok {
		return r
	}
	r := new(Term)
	*r = t
	r.id = len(termList)
	for _, a := range t.args {
		if a.bd > r.bd {
			r.bd = a.bd
		}
		r.hasBV = r.hasBV || a.hasBV
		r.ops |= a.ops
	}
	for _, m := range t.m {
		if m.a.bd > r.bd {
			r.bd = m.a.bd
		}
		r.hasBV = r.hasBV || m.a.hasBV
		r.ops |= m.a.ops
	}
	if t.ln != nil {
		r.ops |= t.ln.ops
		if t.ln.bd > r.bd {
			r.bd = t.ln.bd
		}
		r.hasBV = r.hasBV || t.ln.hasBV
	}
	if t.op == OBV {
		r.hasBV = true
	}
	r.ops |= 1 << uint(t.op)
	terms[key] = r
	termList = append(termList, r)
	return r
}

func (t *Term) has(op Op) bool { return t.ops&(1<<uint(op)) != 0 }

var (
	tTrue  = mkRaw(Term{op: OTrue, sort: SBool})
	tFalse = mkRaw(Term{op: OFalse, sort: SBool})
	tNil   = mkRaw(Term{op: ONil, sort: SVal})
	tEmpty = mkRaw(Term{op: OCat, sort: SSeq})
	t0     = mkInt(0)
	t1     = mkInt(1)
)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// ---------- linear forms

type Lin struct {
	c *big.Int
	m []Mono
}

func linOf(t *Term) Lin {
	if t.op == OLin {
		return Lin{t.k, t.m}
	}
	return Lin{b0, []Mono{{b1, t}}}
}

func mkBig(n *big.Int) *Term { return mkRaw(Term{op: OLin, sort: SInt, k: n}) }
func mkInt(n int64) *Term    { return mkBig(bigI(n)) }

func (t *Term) isConst() bool { return t.op == OLin && len(t.m) == 0 }
func (t *Term) constInt() (int64, bool) {
	if t.op == OLin && len(t.m) == 0 && t.k.IsInt64() {
		return t.k.Int64(), true
	}
	return 0, false
}

func mkLin(l Lin) *Term {
	if len(l.m) == 1 && l.c.Sign() == 0 && l.m[0].c.Cmp(b1) == 0 {
		return l.m[0].a
	}
	return mkRaw(Term{op: OLin, sort: SInt, k: l.c, m: l.m})
}

// linear combination sum ci*ti + c
func lincomb(c *big.Int, cs []*big.Int, ts []*Term) *Term {
	acc := map[*Term]*big.Int{}
	k := new(big.Int).Set(c)
	for i, t := range ts {
		l := linOf(t)
		k.Add(k, new(big.Int).Mul(cs[i], l.c))
		for _, m := range l.m {
			v := new(big.Int).Mul(cs[i], m.c)
			if o, ok := acc[m.a]; ok {
				v.Add(v, o)
			}
			acc[m.a] = v
		}
	}
	recombineDigits(acc)
	return linFromMap(k, acc)
}

func linFromMap(k *big.Int, acc map[*Term]*big.Int) *Term {
	var ms []Mono
	for a, v := range acc {
		if v.Sign() != 0 {
			ms = append(ms, Mono{v, a})
		}
	}
	// an Ite atom alone with coefficient stays an atom
	sort.Slice(ms, func(i, j int) bool { return ms[i].a.id < ms[j].a.id })
	return mkLin(Lin{k, ms})
}

// digitParts: t == Mod(Div(v,a),b); b==nil means no Mod.
func digitParts(t *Term) (v *Term, a, b *big.Int) {
	a = b1
	switch t.op {
	case OMod:
		b = t.k
		v = t.args[0]
		if v.op == ODiv {
			a = v.k
			v = v.args[0]
		}
	case ODiv:
		a = t.k
		v = t.args[0]
	default:
		return nil, nil, nil
	}
	return
}

// recombineDigits rewrites c*Mod(Div(v,a),b) + c*b*Mod(Div(v,a*b),b2) into c*Mod(Div(v,a),b*b2).
func recombineDigits(acc map[*Term]*big.Int) {
	n := 0
	for t := range acc {
		if t.op == OMod || t.op == ODiv {
			n++
		}
	}
	if n < 2 {
		return
	}
	for {
		changed := false
		var keys []*Term
		for t, c := range acc {
			if (t.op == OMod || t.op == ODiv) && c.Sign() != 0 {
				keys = append(keys, t)
			}
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	outer:
		for _, x := range keys {
			vx, ax, bx := digitParts(x)
			if bx == nil {
				continue
			}
			for _, y := range keys {
				if x == y {
					continue
				}
				vy, ay, by := digitParts(y)
				if vy != vx || ay.Cmp(new(big.Int).Mul(ax, bx)) != 0 {
					continue
				}
				if acc[y].Cmp(new(big.Int).Mul(acc[x], bx)) != 0 {
					continue
				}
				c := acc[x]
				delete(acc, x)
				delete(acc, y)
				var z *Term
				z = mkDiv(vx, ax)
				if by != nil {
					z = mkMod(z, new(big.Int).Mul(bx, by))
				}
				l := linOf(z)
				if l.c.Sign() != 0 { // cannot happen for digit terms; keep sound
					acc[x], acc[y] = c, new(big.Int).Mul(c, bx)
					continue
				}
				for _, m := range l.m {
					v := new(big.Int).Mul(c, m.c)
					if o, ok := acc[m.a]; ok {
						v.Add(v, o)
					}
					acc[m.a] = v
				}
				changed = true
				break outer
			}
		}
		if !changed {
			return
		}
	}
}

func add(a, b *Term) *Term { return lincomb(b0, []*big.Int{b1, b1}, []*Term{a, b}) }
func sub(a, b *Term) *Term { return lincomb(b0, []*big.Int{b1, bm1}, []*Term{a, b}) }
func addc(a *Term, n int64) *Term {
	return lincomb(bigI(n), []*big.Int{b1}, []*Term{a})
}
func neg(a *Term) *Term { return lincomb(b0, []*big.Int{bm1}, []*Term{a}) }
func mulc(a *Term, c *big.Int) *Term {
	return lincomb(b0, []*big.Int{c}, []*Term{a})
}

func mkMul(a, b *Term) *Term {
	if a.isConst() {
		return mulc(b, a.k)
	}
	if b.isConst() {
		return mulc(a, b.k)
	}
	// distribute over sums to stay canonical
	la, lb := linOf(a), linOf(b)
	if len(la.m)+len(lb.m) > 2 || la.c.Sign() != 0 || lb.c.Sign() != 0 || la.m[0].c.Cmp(b1) != 0 || lb.m[0].c.Cmp(b1) != 0 {
		var cs []*big.Int
		var ts []*Term
		k := new(big.Int).Mul(la.c, lb.c)
		for _, x := range la.m {
			if lb.c.Sign() != 0 {
				cs = append(cs, new(big.Int).Mul(x.c, lb.c))
				ts = append(ts, x.a)
			}
			for _, y := range lb.m {
				cs = append(cs, new(big.Int).Mul(x.c, y.c))
				ts = append(ts, mkMul(x.a, y.a))
			}
		}
		if la.c.Sign() != 0 {
			for _, y := range lb.m {
				cs = append(cs, new(big.Int).Mul(y.c, la.c))
				ts = append(ts, y.a)
			}
		}
		return lincomb(k, cs, ts)
	}
	if a.op == OPow2 && b.op == OPow2 {
		return mkPow2(add(a.args[0], b.args[0]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkRaw(Term{op: OMul, sort: SInt, args: []*Term{a, b}})
}

func mkPow2(n *Term) *Term {
	if c, ok := n.constInt(); ok && c >= 0 && c < 4096 {
		return mkBig(pow2(uint(c)))
	}
	l := linOf(n)
	if l.c.Sign() > 0 && l.c.IsInt64() && l.c.Int64() < 4096 {
		return mulc(mkPow2(mkLin(Lin{b0, l.m})), pow2(uint(l.c.Int64())))
	}
	return mkRaw(Term{op: OPow2, sort: SInt, args: []*Term{n}, lo: b0})
}

// rangeOf gives static bounds (nil = unbounded)
type rng struct{ lo, hi *big.Int }

var rngCache = map[*Term]rng{}

// rangeOf gives the static range of a term (nil: unbounded). Terms are shared
// and immutable, so the ranges of composite ones are remembered.
func rangeOf(t *Term) (lo, hi *big.Int) {
	switch t.op {
	case OLin, OIte, ODiv, OShr, OMul:
		if r, ok := rngCache[t]; ok {
			return r.lo, r.hi
		}
		lo, hi = rangeOf1(t)
		rngCache[t] = rng{lo, hi}
		return
	}
	return rangeOf1(t)
}

func rangeOf1(t *Term) (lo, hi *big.Int) {
	switch t.op {
	case OLin:
		lo, hi = new(big.Int).Set(t.k), new(big.Int).Set(t.k)
		for _, m := range t.m {
			l, h := rangeOf(m.a)
			if m.c.Sign() < 0 {
				l, h = h, l
			}
			if l == nil {
				lo = nil
			} else if lo != nil {
				lo.Add(lo, new(big.Int).Mul(l, m.c))
			}
			if h == nil {
				hi = nil
			} else if hi != nil {
				hi.Add(hi, new(big.Int).Mul(h, m.c))
			}
		}
		return
	case OIte:
		l1, h1 := rangeOf(t.args[1])
		l2, h2 := rangeOf(t.args[2])
		if l1 != nil && l2 != nil {
			if l1.Cmp(l2) < 0 {
				lo = l1
			} else {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			if h1.Cmp(h2) > 0 {
				hi = h1
			} else {
				hi = h2
			}
		}
		return
	case OMod:
		return b0, new(big.Int).Sub(t.k, b1)
	case ODiv:
		l, h := rangeOf(t.args[0])
		if l != nil {
			lo = floorDiv(l, t.k)
		}
		if h != nil {
			hi = floorDiv(h, t.k)
		}
		return
	case OShr:
		l, h := rangeOf(t.args[0])
		if l != nil {
			if lo = l; l.Sign() > 0 {
				lo = b0
			}
		}
		if h != nil {
			if hi = h; h.Sign() < 0 {
				hi = new(big.Int).Neg(b1)
			}
		}
		return
	case OLen:
		return b0, maxLen
	case OMul:
		l1, h1 := rangeOf(t.args[0])
		l2, h2 := rangeOf(t.args[1])
		if l1 != nil && l2 != nil && l1.Sign() >= 0 && l2.Sign() >= 0 {
			lo = new(big.Int).Mul(l1, l2)
			if h1 != nil && h2 != nil {
				hi = new(big.Int).Mul(h1, h2)
			}
		}
		return
	case OSum:
		// the inputs are in memory together
		if b := t.args[0]; b.op == OUf && strings.HasPrefix(b.s, "in:") && strings.HasSuffix(b.s, ".len") {
			return b0, maxLen
		}
		l, _ := rangeOf(t.args[0])
		if l != nil && l.Sign() >= 0 {
			return b0, nil
		}
		return nil, nil
	case OMu:
		return b0, nil
	}
	return t.lo, t.hi
}

func floorDiv(a, m *big.Int) *big.Int { q := new(big.Int); q.Div(a, m); return q } // Euclidean; m>0 => floor

func mkDiv(x *Term, m *big.Int) *Term {
	if m.Cmp(b1) == 0 {
		return x
	}
	if x.isConst() {
		return mkBig(floorDiv(x.k, m))
	}
	lo, hi := rangeOf(x)
	if lo != nil && hi != nil && floorDiv(lo, m).Cmp(floorDiv(hi, m)) == 0 {
		return mkBig(floorDiv(lo, m))
	}
	l := linOf(x)
	var in, out []Mono
	for _, mo := range l.m {
		q, r := new(big.Int).DivMod(mo.c, m, new(big.Int))
		if r.Sign() == 0 {
			out = append(out, Mono{q, mo.a})
		} else {
			in = append(in, mo)
		}
	}
	q, r := new(big.Int).DivMod(l.c, m, new(big.Int))
	if len(out) > 0 || (q.Sign() != 0) {
		rest := mkLin(Lin{r, in})
		d := mkDiv(rest, m)
		cs := []*big.Int{b1}
		ts := []*Term{d}
		for _, o := range out {
			cs = append(cs, o.c)
			ts = append(ts, o.a)
		}
		return lincomb(q, cs, ts)
	}
	// common factor between coefficients and m
	if len(in) > 0 {
		g := new(big.Int).Set(m)
		for _, mo := range in {
			g.GCD(nil, nil, g, new(big.Int).Abs(mo.c))
		}
		if g.Cmp(b1) > 0 { // floor((g*y + r)/ (g*m')) = floor((y + floor(r/g))/m')
			var ms []Mono
			for _, mo := range in {
				ms = append(ms, Mono{new(big.Int).Quo(mo.c, g), mo.a})
			}
			return mkDiv(mkLin(Lin{floorDiv(r, g), ms}), new(big.Int).Quo(m, g))
		}
	}
	if g, y, _, ok := splitFactor(linOf(x), m); ok {
		return mkDiv(y, new(big.Int).Quo(m, g))
	}
	switch x.op {
	case ODiv:
		return mkDiv(x.args[0], new(big.Int).Mul(x.k, m))
	case OMod:
		if new(big.Int).Mod(x.k, m).Sign() == 0 {
			return mkMod(mkDiv(x.args[0], m), new(big.Int).Quo(x.k, m))
		}
	case OShr:
		if k := log2(m); k >= 0 {
			return mkShr(x.args[0], addc(x.args[1], int64(k)))
		}
	case OIte:
		return mkIte(x.args[0], mkDiv(x.args[1], m), mkDiv(x.args[2], m))
	}
	return mkRaw(Term{op: ODiv, sort: SInt, args: []*Term{x}, k: m})
}

func log2(m *big.Int) int {
	if m.Sign() <= 0 {
		return -1
	}
	k := m.BitLen() - 1
	if pow2(uint(k)).Cmp(m) == 0 {
		return k
	}
	return -1
}

func mkMod(x *Term, m *big.Int) *Term {
	if m.Cmp(b1) == 0 {
		return t0
	}
	if x.isConst() {
		return mkBig(new(big.Int).Mod(x.k, m))
	}
	lo, hi := rangeOf(x)
	if lo != nil && hi != nil {
		q := floorDiv(lo, m)
		if q.Cmp(floorDiv(hi, m)) == 0 {
			return lincomb(new(big.Int).Neg(new(big.Int).Mul(q, m)), []*big.Int{b1}, []*Term{x})
		}
	}
	l := linOf(x)
	var in []Mono
	ch := false
	for _, mo := range l.m {
		r := new(big.Int).Mod(mo.c, m)
		if r.Sign() != 0 {
			in = append(in, Mono{r, mo.a})
		}
		if r.Cmp(mo.c) != 0 {
			ch = true
		}
	}
	r := new(big.Int).Mod(l.c, m)
	if r.Cmp(l.c) != 0 {
		ch = true
	}
	if ch {
		return mkMod(mkLin(Lin{r, in}), m)
	}
	switch x.op {
	case OMod:
		if new(big.Int).Mod(x.k, m).Sign() == 0 {
			return mkMod(x.args[0], m)
		}
	case OIte:
		return mkIte(x.args[0], mkMod(x.args[1], m), mkMod(x.args[2], m))
	}
	// drop inner Mod with compatible modulus inside sums
	if x.op == OLin {
		for i, mo := range l.m {
			if mo.a.op == OMod && new(big.Int).Mod(mo.a.k, m).Sign() == 0 {
				cs := []*big.Int{mo.c}
				ts := []*Term{mo.a.args[0]}
				for j, o := range l.m {
					if j != i {
						cs = append(cs, o.c)
						ts = append(ts, o.a)
					}
				}
				return mkMod(lincomb(l.c, cs, ts), m)
			}
		}
	}
	if g, y, r, ok := splitFactor(linOf(x), m); ok {
		return add(r, mulc(mkMod(y, new(big.Int).Quo(m, g)), g))
	}
	return mkRaw(Term{op: OMod, sort: SInt, args: []*Term{x}, k: m})
}

// splitFactor: x = g*y + r with g dividing m and 0 <= r < g.
func splitFactor(l Lin, m *big.Int) (g *big.Int, y, r *Term, ok bool) {
	var best *big.Int
	for _, mo := range l.m {
		g := new(big.Int).GCD(nil, nil, m, new(big.Int).Abs(mo.c))
		if g.Cmp(b1) <= 0 || best != nil && best.Cmp(g) >= 0 {
			continue
		}
		var ym, rm []Mono
		for _, o := range l.m {
			q, rr := new(big.Int).QuoRem(o.c, g, new(big.Int))
			if rr.Sign() == 0 {
				ym = append(ym, Mono{q, o.a})
			} else {
				rm = append(rm, o)
			}
		}
		q, rc := new(big.Int).DivMod(l.c, g, new(big.Int))
		rt := mkLin(Lin{rc, rm})
		lo, hi := rangeOf(rt)
		if lo == nil || hi == nil || lo.Sign() < 0 || hi.Cmp(g) >= 0 {
			continue
		}
		best, y, r, ok = g, mkLin(Lin{q, ym}), rt, true
	}
	return best, y, r, ok
}

func mkShr(x, n *Term) *Term {
	if c, ok := n.constInt(); ok && c >= 0 && c < 4096 {
		return mkDiv(x, pow2(uint(c)))
	}
	if x.isConst() && x.k.Sign() == 0 {
		return t0
	}
	if x.op == OShr {
		return mkShr(x.args[0], add(x.args[1], n))
	}
	if x.op == ODiv {
		if k := log2(x.k); k >= 0 {
			return mkShr(x.args[0], addc(n, int64(k)))
		}
	}
	return mkRaw(Term{op: OShr, sort: SInt, args: []*Term{x, n}})
}

// ---------- symbols and functions

func mkSym(name string, so Sort, lo, hi *big.Int, ln *Term) *Term {
	return mkRaw(Term{op: OSym, sort: so, s: name, lo: lo, hi: hi, ln: ln})
}

func mkUf(name string, so Sort, args ...*Term) *Term {
	return mkRaw(Term{op: OUf, sort: so, s: name, args: args})
}
func mkUfInt(name string, lo, hi *big.Int, args ...*Term) *Term {
	return mkRaw(Term{op: OUf, sort: SInt, s: name, args: args, lo: lo, hi: hi})
}
func mkUfSeq(name string, ln *Term, args ...*Term) *Term {
	return mkRaw(Term{op: OUf, sort: SSeq, s: name, args: args, ln: ln})
}

// ---------- booleans

func mkNot(a *Term) *Term {
	switch a.op {
	case OTrue:
		return tFalse
	case OFalse:
		return tTrue
	case ONot:
		return a.args[0]
	case OLe: // not (l <= 0)  ==  l >= 1  == 1 - l <= 0
		return mkLe(lincomb(b1, []*big.Int{bm1}, []*Term{a.args[0]}))
	case OAnd:
		var r []*Term
		for _, x := range a.args {
			r = append(r, mkNot(x))
		}
		return mkOr(r...)
	case OOr:
		var r []*Term
		for _, x := range a.args {
			r = append(r, mkNot(x))
		}
		return mkAnd(r...)
	case OIte:
		return mkIte(a.args[0], mkNot(a.args[1]), mkNot(a.args[2]))
	}
	return mkRaw(Term{op: ONot, sort: SBool, args: []*Term{a}})
}

func gcdLin(l Lin) *big.Int {
	g := new(big.Int)
	for _, m := range l.m {
		g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
	}
	return g
}

// mkLe: t <= 0
func mkLe(t *Term) *Term {
	if t.isConst() {
		return mkBool(t.k.Sign() <= 0)
	}
	lo, hi := rangeOf(t)
	if hi != nil && hi.Sign() <= 0 {
		return tTrue
	}
	if lo != nil && lo.Sign() > 0 {
		return tFalse
	}
	if r := constChoice(t, mkLe); r != nil {
		return r
	}
	l := linOf(t)
	g := gcdLin(l)
	if g.Cmp(b1) > 0 { // g*y + c <= 0  ==  y <= floor(-c/g)
		var ms []Mono
		for _, m := range l.m {
			ms = append(ms, Mono{new(big.Int).Quo(m.c, g), m.a})
		}
		c := floorDiv(new(big.Int).Neg(l.c), g)
		t = mkLin(Lin{c.Neg(c), ms})
	}
	if r := magnitude(t); r != nil {
		return r
	}
	return mkRaw(Term{op: OLe, sort: SBool, args: []*Term{t}})
}

// magnitude: a bound on the length of an integer in bits or bytes is a bound on the integer.
func magnitude(t *Term) *Term {
	l := linOf(t)
	if len(l.m) != 1 || l.m[0].a.op != OUf || !l.m[0].c.IsInt64() || !l.c.IsInt64() {
		return nil
	}
	unit := uint(1)
	switch l.m[0].a.s {
	case "biglen":
		unit = 8
	case "bitlen":
	default:
		return nil
	}
	v := l.m[0].a.args[0]
	below := func(n *big.Int) *Term { // the length is at most n
		if n.Sign() < 0 {
			return tFalse
		}
		if n.BitLen() > 12 {
			return nil
		}
		m := new(big.Int).Lsh(b1, unit*uint(n.Int64()))
		m.Sub(m, b1)
		c := mkLeq(v, mkBig(m))
		if lo, _ := rangeOf(v); lo == nil || lo.Sign() < 0 {
			c = mkAnd(c, mkLeq(mkBig(m.Neg(m)), v))
		}
		return c
	}
	a := l.m[0].c
	if a.Sign() > 0 { // a*x + c <= 0
		return below(floorDiv(new(big.Int).Neg(l.c), a))
	}
	// x >= ceil(c/-a)
	n := floorDiv(new(big.Int).Neg(l.c), new(big.Int).Neg(a))
	n.Neg(n)
	if r := below(n.Sub(n, b1)); r != nil {
		return mkNot(r)
	}
	return nil
}
func mkLeq(a, b *Term) *Term { return mkLe(sub(a, b)) }
func mkLt(a, b *Term) *Term  { return mkLe(addc(sub(a, b), 1)) }

// constChoice: a form with one atom that is a choice between constants; the
// condition holds exactly in some of the cases.
func constChoice(t *Term, holds func(*Term) *Term) *Term {
	l := linOf(t)
	if len(l.m) != 1 || l.m[0].a.op != OIte {
		return nil
	}
	m := l.m[0]
	n := 0
	var walk func(x *Term) *Term
	walk = func(x *Term) *Term {
		n++
		if n > 15 {
			return nil
		}
		if x.isConst() {
			k := new(big.Int).Mul(x.k, m.c)
			return holds(mkBig(k.Add(k, l.c)))
		}
		if x.op != OIte {
			return nil
		}
		a, b := walk(x.args[1]), walk(x.args[2])
		if a == nil || b == nil {
			return nil
		}
		if a == b {
			return a
		}
		return mkOr(mkAnd(x.args[0], a), mkAnd(mkNot(x.args[0]), b))
	}
	return walk(m.a)
}

// mkEq0: t == 0
func mkEq0(t *Term) *Term {
	if t.isConst() {
		return mkBool(t.k.Sign() == 0)
	}
	lo, hi := rangeOf(t)
	if (hi != nil && hi.Sign() < 0) || (lo != nil && lo.Sign() > 0) {
		return tFalse
	}
	if r := constChoice(t, mkEq0); r != nil {
		return r
	}
	l := linOf(t)
	g := gcdLin(l)
	if new(big.Int).Mod(l.c, g).Sign() != 0 {
		return tFalse
	}
	if l.m[0].c.Sign() < 0 {
		g = new(big.Int).Neg(g)
	}
	if g.Cmp(b1) != 0 {
		var ms []Mono
		for _, m := range l.m {
			ms = append(ms, Mono{new(big.Int).Quo(m.c, g), m.a})
		}
		t = mkLin(Lin{new(big.Int).Quo(l.c, g), ms})
	}
	if a := linOf(t).m[0].a; a.op == OUf && (a.s == "biglen" || a.s == "bitlen") {
		if x, y := magnitude(t), magnitude(neg(t)); x != nil && y != nil {
			return mkAnd(x, y)
		}
	}
	if a := linOf(t).m[0].a; a.op == OUf && t == a && len(a.args) == 2 {
		switch a.s {
		case "xor":
			return mkIntEq(a.args[0], a.args[1])
		case "or":
			return mkAnd(mkEq0(a.args[0]), mkEq0(a.args[1]))
		}
	}
	// a boolean digit Ite
	return mkRaw(Term{op: OEq, sort: SBool, args: []*Term{t}})
}

func mkIntEq(a, b *Term) *Term { return mkEq0(sub(a, b)) }

func mkAnd(xs ...*Term) *Term {
	var r []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		if x.op == OAnd {
			for _, y := range x.args {
				if !seen[y] {
					seen[y] = true
					r = append(r, y)
				}
			}
			continue
		}
		if x == tFalse {
			return tFalse
		}
		if x == tTrue || seen[x] {
			continue
		}
		seen[x] = true
		r = append(r, x)
	}
	for _, x := range r {
		if seen[mkNotLit(x)] {
			return tFalse
		}
	}
	if len(r) == 0 {
		return tTrue
	}
	if len(r) == 1 {
		return r[0]
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return mkRaw(Term{op: OAnd, sort: SBool, args: r})
}

func mkNotLit(x *Term) *Term {
	if x.op == OAnd || x.op == OOr || x.op == OIte {
		return nil
	}
	return mkNot(x)
}

func mkOr(xs ...*Term) *Term {
	var r []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		if x.op == OOr {
			for _, y := range x.args {
				if !seen[y] {
					seen[y] = true
					r = append(r, y)
				}
			}
			continue
		}
		if x == tTrue {
			return tTrue
		}
		if x == tFalse || seen[x] {
			continue
		}
		seen[x] = true
		r = append(r, x)
	}
	for _, x := range r {
		if seen[mkNotLit(x)] {
			return tTrue
		}
	}
	if len(r) == 0 {
		return tFalse
	}
	if len(r) == 1 {
		return r[0]
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return mkRaw(Term{op: OOr, sort: SBool, args: r})
}

func mkIte(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if c.op == ONot {
		return mkIte(c.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == c {
		return mkIte(c, a.args[1], b)
	}
	if b.op == OIte && b.args[0] == c {
		return mkIte(c, a, b.args[2])
	}
	if a.sort == SBool {
		if a == tTrue {
			return mkOr(c, b)
		}
		if a == tFalse {
			return mkAnd(mkNot(c), b)
		}
		if b == tTrue {
			return mkOr(mkNot(c), a)
		}
		if b == tFalse {
			return mkAnd(c, a)
		}
	}
	// canonical polarity for linear conditions
	if c.op == OLe {
		if n := mkNot(c); n.op == OLe && n.id < c.id {
			c, a, b = n, b, a
		}
	}
	if a.sort == SSeq && b.sort == SSeq {
		// factor common prefix / suffix
		pa, pb := seqParts(a), seqParts(b)
		i := 0
		for i < len(pa) && i < len(pb) && pa[i] == pb[i] {
			i++
		}
		j := 0
		for j < len(pa)-i && j < len(pb)-i && pa[len(pa)-1-j] == pb[len(pb)-1-j] {
			j++
		}
		if i+j > 0 {
			var parts []*Term
			parts = append(parts, pa[:i]...)
			parts = append(parts, mkIte(c, mkCat(pa[i:len(pa)-j]...), mkCat(pb[i:len(pb)-j]...)))
			parts = append(parts, pa[len(pa)-j:]...)
			return mkCat(parts...)
		}
		if a.op == OUnit && b.op == OUnit && a.args[0].sort == b.args[0].sort {
			return mkUnit(mkIte(c, a.args[0], b.args[0]))
		}
		if ba, ok := oneByte(a); ok {
			if bb, ok := oneByte(b); ok {
				return mkUnit(mkIte(c, ba, bb))
			}
		}
	}
	if a.sort == SVal && b.sort == SVal && a.op == b.op && len(a.args) == len(b.args) && (a.op == OStruct || a.op == OTuple) && a.x == b.x {
		args := make([]*Term, len(a.args))
		for i := range args {
			args[i] = mkIte(c, a.args[i], b.args[i])
		}
		return mkRaw(Term{op: a.op, sort: SVal, args: args, x: a.x})
	}
	if a.op == OSlice && b.op == OSlice && a.args[0] == b.args[0] {
		return mkRaw(Term{op: OSlice, sort: SVal, args: []*Term{a.args[0], mkIte(c, a.args[1], b.args[1]), mkIte(c, a.args[2], b.args[2]), mkIte(c, a.args[3], b.args[3])}})
	}
	return mkRaw(Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}})
}

func oneByte(t *Term) (*Term, bool) {
	if t.op == OUnit && t.args[0].sort == SInt {
		return t.args[0], true
	}
	if t.op == OLit && len(t.s) == 1 {
		return mkInt(int64(t.s[0])), true
	}
	return nil, false
}

// ---------- printing

func (t *Term) String() string { return t.str(12) }

func (t *Term) str(d int) string {
	if d == 0 {
		return "…"
	}
	var as []string
	for _, a := range t.args {
		if len(as) > 40 {
			as = append(as, "…")
			break
		}
		as = append(as, a.str(d-1))
	}
	j := strings.Join(as, ", ")
	switch t.op {
	case OLin:
		var sb strings.Builder
		for i, m := range t.m {
			if m.c.Cmp(b1) == 0 {
				if i > 0 {
					sb.WriteString("+")
				}
			} else if m.c.Cmp(bm1) == 0 {
				sb.WriteString("-")
			} else {
				if i > 0 && m.c.Sign() > 0 {
					sb.WriteString("+")
				}
				sb.WriteString(m.c.String() + "*")
			}
			sb.WriteString(m.a.str(d - 1))
		}
		if t.k.Sign() != 0 || len(t.m) == 0 {
			if t.k.Sign() > 0 && len(t.m) > 0 {
				sb.WriteString("+")
			}
			sb.WriteString(t.k.String())
		}
		return "(" + sb.String() + ")"
	case OSym:
		return t.s
	case OBV:
		return fmt.Sprintf("#%d", t.n)
	case OUf:
		return t.s + "(" + j + ")"
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OLe:
		return j + "<=0"
	case OEq:
		return j + "==0"
	case OEqT:
		return "(" + t.args[0].str(d-1) + " == " + t.args[1].str(d-1) + ")"
	case ONot:
		return "!" + j
	case OLit:
		if isText(t.s) {
			return strconv.Quote(t.s)
		}
		return fmt.Sprintf("x'%x'", t.s)
	case OUnit:
		return "<" + j + ">"
	case OSub:
		return t.args[0].str(d-1) + "[" + t.args[1].str(d-1) + ":" + t.args[2].str(d-1) + "]"
	case OCat:
		return "{" + strings.Join(as, " ++ ") + "}"
	case ODiv, OMod:
		return opNames[t.op] + "(" + j + "," + t.k.String() + ")"
	case ONil:
		return "nil"
	case OObj:
		if len(as) == 0 {
			return "@" + t.s
		}
		return "@" + t.s + "[" + j + "]"
	case OSelF:
		return "." + strconv.Itoa(t.n)
	case OIface:
		return fmt.Sprintf("iface<%v>(%s)", t.x, j)
	case OFold:
		return fmt.Sprintf("fold%d(%s)", t.n, j)
	}
	return opNames[t.op] + "(" + j + ")"
}

func isText(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 || s[i] > 0x7e {
			return false
		}
	}
	return true
}
