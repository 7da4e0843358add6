// The specification language: functions of the harness package that the
// analysis interprets, table lookups, contracts of small helpers.
package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics map[string]model

func (c *cx) lit(i int) string {
	t := c.args[i]
	if t.op != OLit && t != tEmpty {
		c.e.undecided("a constant text is needed")
	}
	return t.s
}

// anySlice: an unknown byte slice as a caller may pass it, with spare capacity.
func (c *cx) anySlice(tag string, n *Term, args ...*Term) *Term {
	content := mkUfSeq("in:"+tag, n, args...)
	spare := mkUfInt("in:"+tag+".spare", b0, maxLen, args...)
	name := "any:" + tag
	if _, ok := c.e.lazy[name]; !ok {
		c.e.lazy[name] = func(o *Term) *Term {
			a := o.args
			ln := mkUfInt("in:"+tag+".len", n.lo, n.hi, a...)
			if n.isConst() {
				ln = n
			}
			sp := mkUfInt("in:"+tag+".spare", b0, maxLen, a...)
			return mkCat(mkUfSeq("in:"+tag, ln, a...), mkUfSeq("in:"+tag+".tail", sp, a...))
		}
	}
	_ = content
	o := c.e.obj(name, args...)
	return mkSlice(mkPtr(o), t0, n, add(n, spare))
}

func init() {
	m := map[string]model{}
	intrinsics = m
	m["Assume"] = func(c *cx) *Term {
		if !c.st.assume(c.st.norm(c.args[0])) {
			panic(pathEnd{})
		}
		return mkTuple()
	}
	assert := func(c *cx, cond *Term, name string) {
		c.e.asserts[name]++
		c.e.oblige(c.st, cond, "assert", name+":")
	}
	m["Assert"] = func(c *cx) *Term { assert(c, c.args[0], c.lit(1)); return mkTuple() }
	m["AssertEq"] = func(c *cx) *Term {
		a, b := c.st.seq(c.args[0]), c.st.seq(c.args[1])
		assert(c, mkEqT(a, b), c.lit(2))
		return mkTuple()
	}
	m["AssertEqStr"] = func(c *cx) *Term { assert(c, mkEqT(c.args[0], c.args[1]), c.lit(2)); return mkTuple() }
	ints := map[string]uint{"AnyU8": 8, "AnyU16": 16, "AnyU32": 32, "AnyU64": 64}
	for n, b := range ints {
		hi := new(big.Int).Sub(pow2(b), b1)
		m[n] = func(c *cx) *Term { return mkUfInt("in:"+c.lit(0), b0, hi) }
		m[n+"At"] = func(c *cx) *Term { return mkUfInt("in:"+c.lit(0), b0, hi, c.args[1]) }
	}
	m["AnyInt"] = func(c *cx) *Term {
		lo, hi := intBounds(64, true)
		return mkUfInt("in:"+c.lit(0), lo, hi)
	}
	m["AnyBool"] = func(c *cx) *Term { return mkUf("in:"+c.lit(0), SBool) }
	m["AnyBoolAt"] = func(c *cx) *Term { return mkUf("in:"+c.lit(0), SBool, c.args[1]) }
	m["AnyBytes"] = func(c *cx) *Term {
		return c.anySlice(c.lit(0), mkUfInt("in:"+c.lit(0)+".len", b0, maxLen))
	}
	m["AnyBytesAt"] = func(c *cx) *Term {
		return c.anySlice(c.lit(0), mkUfInt("in:"+c.lit(0)+".len", b0, maxLen, c.args[1]), c.args[1])
	}
	rng := func(c *cx, lo, hi *Term) (a, b *big.Int) {
		if !lo.isConst() || !hi.isConst() {
			c.e.undecided("the bounds of a length must be constant")
		}
		return lo.k, hi.k
	}
	m["AnyBytesRange"] = func(c *cx) *Term {
		lo, hi := rng(c, c.args[1], c.args[2])
		return c.anySlice(c.lit(0), mkUfInt("in:"+c.lit(0)+".len", lo, hi))
	}
	m["AnyBytesRangeAt"] = func(c *cx) *Term {
		lo, hi := rng(c, c.args[1], c.args[2])
		return c.anySlice(c.lit(0), mkUfInt("in:"+c.lit(0)+".len", lo, hi, c.args[3]), c.args[3])
	}
	m["AnyIntRangeAt"] = func(c *cx) *Term {
		lo, hi := rng(c, c.args[1], c.args[2])
		return mkUfInt("in:"+c.lit(0), lo, hi, c.args[3])
	}
	m["AnyIntRange"] = func(c *cx) *Term {
		lo, hi := rng(c, c.args[1], c.args[2])
		return mkUfInt("in:"+c.lit(0), lo, hi)
	}
	m["AnyStringRange"] = func(c *cx) *Term {
		lo, hi := rng(c, c.args[1], c.args[2])
		return mkUfSeq("in:"+c.lit(0), mkUfInt("in:"+c.lit(0)+".len", lo, hi))
	}
	m["AnyStringRangeAt"] = func(c *cx) *Term {
		lo, hi := rng(c, c.args[1], c.args[2])
		return mkUfSeq("in:"+c.lit(0), mkUfInt("in:"+c.lit(0)+".len", lo, hi, c.args[3]), c.args[3])
	}
	m["AnyBytesN"] = func(c *cx) *Term {
		n := c.args[1]
		if !n.isConst() {
			c.e.undecided("AnyBytesN needs a constant length")
		}
		return c.anySlice(c.lit(0), n)
	}
	m["AnyBytesNAt"] = func(c *cx) *Term {
		n := c.args[1]
		if !n.isConst() {
			c.e.undecided("AnyBytesNAt needs a constant length")
		}
		return c.anySlice(c.lit(0), n, c.args[2])
	}
	m["AnyString"] = func(c *cx) *Term {
		return mkUfSeq("in:"+c.lit(0), mkUfInt("in:"+c.lit(0)+".len", b0, maxLen))
	}
	m["AnyStringAt"] = func(c *cx) *Term {
		return mkUfSeq("in:"+c.lit(0), mkUfInt("in:"+c.lit(0)+".len", b0, maxLen, c.args[1]), c.args[1])
	}
	m["AnyPrivateKey"] = func(c *cx) *Term { return mkPtr(c.e.obj("any:priv", c.args[0])) }
	m["AnyPublicKey"] = func(c *cx) *Term { return mkPtr(c.e.obj("any:pub", mkPtr(c.e.obj("any:priv", c.args[0])))) }
	m["SortedBytes"] = func(c *cx) *Term {
		v := c.st.resolveIte(c.args[0])
		if v.op != OSlice || v.args[0] == tNil || c.st.f.same(v.args[2], t0) {
			return v
		}
		return c.st.newSlice(c.site, c.sortedItems(c.st.norm(c.st.seq(v))), false)
	}
	m["AnyCipher"] = func(c *cx) *Term { return mkUf("in:"+c.lit(0), SVal) }
	m["RandomOK"] = func(c *cx) *Term {
		return mkUf("randok", SBool, mkUf("global:crypto/rand.Reader", SVal), c.args[0])
	}
	m["RandomBytes"] = func(c *cx) *Term {
		return c.newBytes(mkUfSeq("rand", c.st.norm(c.args[1]), mkUf("global:crypto/rand.Reader", SVal), c.args[0]))
	}
	m["DER"] = func(c *cx) *Term {
		p := mkPtr(c.e.obj("any:sig", c.args[0], c.bytes(1)))
		return c.newBytes(mkUfSeq("der", mkUfInt("derlen", bigI(8), bigI(72), p), p))
	}
	m["HexOK"] = func(c *cx) *Term { return hexOK(c.st.norm(c.args[0])) }
	m["OneLine"] = func(c *cx) *Term { return uf("oneline", SBool, c.st.norm(c.args[0])) }
	m["VarIntSpec"] = func(c *cx) *Term { return c.newBytes(varintT(c.st.norm(c.args[0]))) }
	m["PushPrefixSpec"] = func(c *cx) *Term { return c.newBytes(pushT(c.st.norm(c.args[0]))) }
	m["Failed"] = func(c *cx) *Term { return c.st.content(c.e.failObj()) }
	m["Raised"] = func(c *cx) *Term {
		return mkOr(c.st.content(c.e.failObj()), c.st.content(c.e.flagObj("zz:raised")))
	}
	m["ResetFailed"] = func(c *cx) *Term {
		c.st.setContent(c.e.failObj(), tFalse)
		c.st.setContent(c.e.flagObj("zz:raised"), tFalse)
		return mkTuple()
	}
	m["AllocLimit"] = func(c *cx) *Term { c.e.allocLimit = c.args[0]; return mkTuple() }
	m["Protect"] = func(c *cx) *Term {
		c.st.prot = map[string]bool{}
		for k := range c.st.store {
			if !strings.HasPrefix(k, "zz:") {
				c.st.prot[k] = true
			}
		}
		c.st.protOn = true
		c.st.allow = nil
		c.st.eff = nil
		return mkTuple()
	}
	m["Unprotect"] = func(c *cx) *Term { c.st.protOn = false; c.st.prot = nil; return mkTuple() }
	m["Allow"] = func(c *cx) *Term {
		v := c.st.resolveIte(c.args[0])
		if v.op == OIface {
			v = v.args[0]
		}
		switch v.op {
		case OPtr:
			c.st.allow = append(c.st.allow[:len(c.st.allow):len(c.st.allow)], v.args[0])
		case OSlice:
			if v.args[0].op == OPtr {
				c.st.allow = append(c.st.allow[:len(c.st.allow):len(c.st.allow)], v.args[0].args[0])
			}
		}
		return mkTuple()
	}
	m["AssertNoEffects"] = func(c *cx) *Term {
		name := c.lit(0)
		c.e.asserts[name]++
		c.e.obl["effect"]++
		c.e.oblSites["effect@"+c.e.where()] = true
		for _, x := range c.st.eff {
			c.e.violateAt(c.st, "effect", x.pos, name+": "+x.what)
		}
		return mkTuple()
	}
	m["AssertFresh"] = func(c *cx) *Term {
		name := c.lit(1)
		c.e.asserts[name]++
		c.e.obl["fresh"]++
		c.e.oblSites["fresh@"+c.e.where()] = true
		v := c.st.resolveIte(c.args[0])
		if v.op == OIface {
			v = v.args[0]
		}
		if v.op == OSlice {
			if v.args[0] == tNil {
				return mkTuple()
			}
			v = c.st.resolveIte(v.args[0])
		}
		if v == tNil {
			return mkTuple()
		}
		if v.op != OPtr {
			c.e.undecided("owner of %s", v)
		}
		o := v.args[0]
		seen := map[*Term]bool{o: true}
		work := []*Term{o}
		for len(work) > 0 {
			x := work[0]
			work = work[1:]
			if c.st.prot[x.s] || strings.HasPrefix(x.s, "any:") || strings.HasPrefix(x.s, "g:") {
				c.e.violateAt(c.st, "shared", "", name+": the result shares memory with "+x.s)
			}
			for _, l := range c.st.links {
				for i := 0; i < 2; i++ {
					if l[i] == x && !seen[l[1-i]] {
						seen[l[1-i]] = true
						work = append(work, l[1-i])
					}
				}
			}
		}
		return mkTuple()
	}
	// Disjoint: two slices do not share memory, also through spare capacity.
	m["AssertDisjoint"] = func(c *cx) *Term {
		name := c.lit(2)
		c.e.asserts[name]++
		c.e.obl["disjoint"]++
		c.e.oblSites["disjoint@"+c.e.where()] = true
		get := func(i int) (o, lo, hi *Term) {
			v := c.st.resolveIte(c.args[i])
			if v.op == OIface {
				v = v.args[0]
			}
			if v == tNil || v.op == OSlice && v.args[0] == tNil {
				return nil, nil, nil
			}
			if v.op == OSlice {
				p := c.st.resolveIte(v.args[0])
				return p, v.args[1], add(v.args[1], v.args[3])
			}
			return v, t0, t1
		}
		a, alo, ahi := get(0)
		b, blo, bhi := get(1)
		if a == nil || b == nil {
			return mkTuple()
		}
		if a.op == OPtr && b.op == OPtr && a.args[0].s != b.args[0].s {
			for _, l := range c.st.links {
				if l[0] == a.args[0] && l[1] == b.args[0] || l[1] == a.args[0] && l[0] == b.args[0] {
					c.e.violateAt(c.st, "shared", "", name+": may share a backing array")
				}
			}
			return mkTuple()
		}
		cond := mkNot(mkEqT(a, b))
		cond = mkOr(cond, mkLeq(ahi, blo), mkLeq(bhi, alo))
		c.e.oblige(c.st, cond, "shared", name+": disjoint memory")
		return mkTuple()
	}
	// ArithSpec functions on mathematical integers.
	m["Pow256"] = func(c *cx) *Term { return mkPow2(mulc(c.args[0], bigI(8))) }
	m["Note"] = func(c *cx) *Term {
		if c.e.trace {
			c.e.traceNote(c)
		}
		return mkTuple()
	}
}

func (e *Eng) traceNote(c *cx) {
	for _, a := range c.args {
		v := a
		if v.op == OSlice {
			v = c.st.norm(c.st.seq(v))
		} else {
			v = c.st.norm(v)
		}
		println("NOTE", v.str(12))
	}
}

func (e *Eng) violateAt(s *State, kind, pos, msg string) {
	if e.quiet > 0 {
		return
	}
	n := len(e.reports)
	key := kind + "|" + pos + "|" + msg
	if e.repSeen[key] {
		return
	}
	e.repSeen[key] = true
	e.repForce = true
	e.violate(s, kind, msg)
	e.repForce = false
	if pos != "" && len(e.reports) > n {
		r := &e.reports[len(e.reports)-1]
		r.pos = pos
		if i := strings.Index(pos, "("); i >= 0 {
			r.fn = strings.TrimSuffix(pos[i+1:], ")")
		}
	}
}

// ---------- constant tables

// tableLookup: lookup with an unknown key in a table fixed at initialisation.
func (e *Eng) tableLookup(st *State, id string, c, kn *Term, ty *types.Map, ret func(v, ok *Term) *Term) *Term {
	es := elemSpecOf(ty.Elem())
	if es.sort == SVal {
		e.undecided("lookup in a table of %s", ty.Elem())
	}
	// hexadecimal text against a table of names
	if kn.sort == SSeq && (kn.op == OHex || kn.op == OCat && hexOK(kn) == tTrue) {
		none := true
		for i := 0; i < len(c.args); i += 2 {
			if hexOK(c.args[i]) == tTrue {
				none = false
			}
		}
		if none {
			return ret(e.zero(ty.Elem()), tFalse)
		}
	}
	// composition of two tables: total on the values the inner key can take
	if kn.op == OUf && kn.s == "tblseq" {
		inner := mapByID[kn.args[0].s]
		key := kn.args[1]
		if v, ok := e.composed(st, inner, c, key, es); ok {
			return ret(v, tTrue)
		}
	}
	var lo, hi *big.Int
	if es.sort == SInt {
		for i := 1; i < len(c.args); i += 2 {
			k := c.args[i]
			if !k.isConst() {
				lo, hi = es.lo, es.hi
				break
			}
			if lo == nil || k.k.Cmp(lo) < 0 {
				lo = k.k
			}
			if hi == nil || k.k.Cmp(hi) > 0 {
				hi = k.k
			}
		}
	}
	has := e.tableTotal(st, c, kn)
	if !has {
		q := mkUf("tblhas", SBool, mkLit(id), kn)
		if !st.truth(q) {
			return ret(e.zero(ty.Elem()), tFalse)
		}
	}
	switch es.sort {
	case SInt:
		return ret(mkUfInt("tblint", lo, hi, mkLit(id), kn), tTrue)
	case SSeq:
		lo, hi := maxLen, b0
		for i := 1; i < len(c.args); i += 2 {
			n := seqLen(c.args[i])
			if !n.isConst() {
				lo, hi = b0, maxLen
				break
			}
			if n.k.Cmp(lo) < 0 {
				lo = n.k
			}
			if n.k.Cmp(hi) > 0 {
				hi = n.k
			}
		}
		return ret(mkUfSeq("tblseq", mkUfInt("tblseq.len", lo, hi, mkLit(id), kn), mkLit(id), kn), tTrue)
	}
	e.undecided("lookup in a table of %s", ty.Elem())
	return nil
}

// tableTotal: the table covers every value the key can take.
func (e *Eng) tableTotal(st *State, c, kn *Term) bool {
	if kn.sort != SInt {
		return false
	}
	lo, hi := rangeOf(kn)
	if lo == nil || hi == nil || hi.BitLen() > 12 {
		return false
	}
	keys := map[string]bool{}
	for i := 0; i < len(c.args); i += 2 {
		if !c.args[i].isConst() {
			return false
		}
		keys[c.args[i].k.String()] = true
	}
	for k := new(big.Int).Set(lo); k.Cmp(hi) <= 0; k = new(big.Int).Add(k, b1) {
		if keys[k.String()] {
			continue
		}
		q := mkIntEq(kn, mkBig(k))
		if st.f.decide(q) != 2 {
			need("table", q, mkNot(q))
		}
	}
	return true
}

func (e *Eng) composed(st *State, inner, outer, key *Term, es elemSpec) (*Term, bool) {
	look := map[*Term]*Term{}
	for i := 0; i < len(outer.args); i += 2 {
		look[outer.args[i]] = outer.args[i+1]
	}
	for i := 0; i < len(inner.args); i += 2 {
		k, w := inner.args[i], inner.args[i+1]
		if v, ok := look[w]; ok && v == k {
			continue
		}
		if st.f.decide(mkIntEq(key, k)) == 2 {
			continue
		}
		q := mkIntEq(key, k)
		need("table", q, mkNot(q))
	}
	return key, true
}

func init() {
	look := func(a []*Term) *Term {
		if a[1].isConst() || a[1].op == OLit {
			c := mapByID[a[0].s]
			for i := 0; i < len(c.args); i += 2 {
				if c.args[i] == a[1] {
					return c.args[i+1]
				}
			}
		}
		return nil
	}
	ufRules["tblseq"] = look
	ufRules["tblint"] = look
	ufRules["tblseq.len"] = func(a []*Term) *Term {
		if x := look(a); x != nil {
			return seqLen(x)
		}
		return nil
	}
}

// ---------- length prefixes

func leBytes(n *Term, w int) *Term {
	var ps []*Term
	for i := 0; i < w; i++ {
		x := n
		if i > 0 {
			x = mkDiv(n, pow2(uint(8*i)))
		}
		ps = append(ps, mkUnit(mkMod(x, bigI(256))))
	}
	return mkCat(ps...)
}

type prefixForm struct {
	hi  *big.Int // largest value
	tag int      // leading byte, -1 none
	w   int
}

var varintForms = []prefixForm{{bigI(0xfc), -1, 1}, {bigI(0xffff), 0xfd, 2}, {new(big.Int).Sub(pow2(32), b1), 0xfe, 4}, {new(big.Int).Sub(pow2(64), b1), 0xff, 8}}
var pushForms = []prefixForm{{bigI(75), -1, 1}, {bigI(0xff), 0x4c, 1}, {bigI(0xffff), 0x4d, 2}, {new(big.Int).Sub(pow2(32), b1), 0x4e, 4}}

func (p prefixForm) seq(n *Term) *Term {
	if p.tag < 0 {
		return leBytes(n, p.w)
	}
	return mkCat(mkLit(string([]byte{byte(p.tag)})), leBytes(n, p.w))
}
func (p prefixForm) len() int {
	if p.tag < 0 {
		return p.w
	}
	return p.w + 1
}

func formsFor(name string) []prefixForm {
	if strings.HasPrefix(name, "varint") {
		return varintForms
	}
	return pushForms
}

func prefixLenT(name string, n *Term) *Term {
	fs := formsFor(name)
	return ufInt(name+".len", bigI(int64(fs[0].len())), bigI(int64(fs[len(fs)-1].len())), n)
}
func varintT(n *Term) *Term { return ufSeq("varint", prefixLenT("varint", n), n) }
func pushT(n *Term) *Term   { return ufSeq("pushpfx", prefixLenT("pushpfx", n), n) }

// formOf: the form decided by the facts, -1 if several are possible.
func formOf(f *Facts, fs []prefixForm, n *Term) int {
	lo, hi := rangeOf(n)
	for i, p := range fs {
		okHi := hi != nil && hi.Cmp(p.hi) <= 0
		if !okHi && f != nil {
			okHi = f.leq(n, mkBig(p.hi))
		}
		if !okHi {
			continue
		}
		if i == 0 {
			return 0
		}
		prev := fs[i-1].hi
		if lo != nil && lo.Cmp(prev) > 0 || f != nil && f.lt(mkBig(prev), n) {
			return i
		}
		return -1
	}
	return -1
}

func init() {
	for _, name := range []string{"varint", "pushpfx"} {
		name := name
		fs := formsFor(name)
		ufRules[name] = func(a []*Term) *Term {
			if i := formOf(nil, fs, a[0]); i >= 0 {
				return fs[i].seq(a[0])
			}
			return nil
		}
		ufRules[name+".len"] = func(a []*Term) *Term {
			if i := formOf(nil, fs, a[0]); i >= 0 {
				return mkInt(int64(fs[i].len()))
			}
			return nil
		}
		ufNorm[name] = func(f *Facts, t *Term) *Term {
			if i := formOf(f, fs, t.args[0]); i >= 0 {
				return fs[i].seq(t.args[0])
			}
			return nil
		}
		ufNorm[name+".len"] = func(f *Facts, t *Term) *Term {
			if i := formOf(f, fs, t.args[0]); i >= 0 {
				return mkInt(int64(fs[i].len()))
			}
			return nil
		}
		split := func(f *Facts, t *Term) []*Term {
			n := t.args[0]
			if formOf(f, fs, n) >= 0 {
				return nil
			}
			var alts []*Term
			for i, p := range fs {
				var cs []*Term
				if i > 0 {
					cs = append(cs, mkLt(mkBig(fs[i-1].hi), n))
				}
				if i < len(fs)-1 {
					cs = append(cs, mkLeq(n, mkBig(p.hi)))
				}
				alts = append(alts, mkAnd(cs...))
			}
			return alts
		}
		ufSplit[name] = split
		ufSplit[name+".len"] = split
	}
	contracts[modPath+"/utils.VarInt"] = func(c *cx) *Term {
		n := c.st.norm(c.args[0])
		t := varintT(n)
		ln := seqLen(t)
		o := c.st.alloc(c.site, mkCat(t, zeroSeq(t0, sub(mkInt(9), ln))))
		return mkSlice(mkPtr(o), t0, ln, mkInt(9))
	}
	contracts[modPath+"/utils.DecodeVarInt"] = func(c *cx) *Term {
		s := c.bytes(0)
		p := seqParts(s)
		if len(p) > 0 && p[0].op == OUf && p[0].s == "varint" {
			return mkTuple(p[0].args[0], seqLen(p[0]))
		}
		return nil
	}
	contracts[modPath+"/script.GetPushDataPrefix"] = func(c *cx) *Term {
		n := c.st.norm(c.st.resolveIte(c.args[0]).args[2])
		if c.fork(mkLeq(n, mkBig(pushForms[3].hi))) {
			return mkTuple(c.newBytes(pushT(n)), tNil)
		}
		return mkTuple(nilSlice, c.fail())
	}
}

// ---------- sorting

// callPure evaluates fn on symbolic arguments in a throw-away copy of the state
// and returns its result when there is a single value; effects are returned.
func (c *cx) callAll(st *State, fn *ssa.Function, args, bind []*Term) []Exit {
	return c.e.call(c.fr, c.in, st, fn, args, bind)
}

// lessIs checks that f(i,j) decides the byte order of elements i and j.
func (c *cx) lessCheck(seq *Term, i, j *Term, st *State, run func(st *State) []Exit, three bool) {
	g := st.clone()
	outs := run(g)
	g2 := st.clone()
	a, b := g2.elem(seq, i), g2.elem(seq, j)
	if a.sort == SVal {
		a, b = g2.seq(a), g2.seq(b)
	}
	want := strLess(a, b)
	for _, o := range outs {
		f := o.p.st.f
		v := o.vals
		if three {
			v = mkLt(v, t0)
		}
		c.e.obl["order"]++
		if c.e.trace {
			for _, x := range o.p.st.pc {
				println("PC", x.c.str(6))
			}
			println(v.str(5))
		}
		if !f.prove(mkEqT(v, want)) && !(f.decide(f.norm(v)) == 1 && f.prove(want)) && !(f.decide(f.norm(v)) == 2 && f.prove(mkNot(want))) {
			c.e.violate(o.p.st, "order", "the comparison is not the byte order: "+f.norm(v).str(6)+" instead of "+f.norm(want).str(6))
		}
	}
}

// sortedItems: the items of seq in byte order; the permutation is a function of
// the contents alone.
func (c *cx) sortedItems(seq *Term) *Term {
	st := c.st
	n := seqLen(seq)
	k := freshSym("k", SInt, b0, maxLen)
	g := st.clone()
	g.assume(mkLt(k, n))
	content := func(x *Term) *Term {
		if x.sort == SVal {
			return g.norm(g.seq(x))
		}
		return x
	}
	var id *Term
	parts := seqParts(seq)
	units := len(parts) <= 16
	for _, p := range parts {
		units = units && p.op == OUnit
	}
	if units {
		var us []*Term
		for _, p := range parts {
			us = append(us, mkUnit(content(p.args[0])))
		}
		id = mkCat(us...)
	} else {
		id = mkRep(k, t0, n, mkUnit(content(g.elem(seq, k))))
	}
	perm := mkUfInt("perm", b0, maxLen, id, k)
	g.fact(mkLt(perm, n))
	var el *Term
	if units {
		el = parts[len(parts)-1].args[0]
		for i := len(parts) - 2; i >= 0; i-- {
			el = mkVal(mkIntEq(perm, mkInt(int64(i))), parts[i].args[0], el)
		}
	} else {
		el = g.elem(seq, perm)
	}
	return mkRep(k, t0, n, mkUnit(el))
}

func (c *cx) sortSlice(v *Term, check func(seq, i, j *Term, st *State)) {
	st := c.st
	v = st.resolveIte(v)
	if v.op == OIface {
		v = st.resolveIte(v.args[0])
	}
	if v.op != OSlice {
		c.e.undecided("sorting an opaque value")
	}
	if v.args[0] == tNil || st.f.same(v.args[2], t0) {
		return
	}
	seq := st.norm(st.seq(v))
	n := v.args[2]
	i := freshSym("i", SInt, b0, maxLen)
	j := freshSym("j", SInt, b0, maxLen)
	g := st.clone()
	if g.assume(mkLt(i, n)) && g.assume(mkLt(j, n)) {
		check(seq, i, j, g)
	}
	// the result lists the same items in byte order
	res := c.sortedItems(seq)
	p := st.resolveIte(v.args[0])
	c.e.writeRange(st, p, v.args[1], add(v.args[1], n), res)
}

func init() {
	ufAxioms["perm"] = func(a *Term) []ax {
		return []ax{{addc(sub(a, seqLen(a.args[0])), 1), false}}
	}
	models["sort.Sort"] = func(c *cx) *Term {
		v := c.st.resolveIte(c.args[0])
		if v.op != OIface {
			c.e.undecided("sorting an opaque value")
		}
		recv := v.args[0]
		dt := v.x.(types.Type)
		method := func(name string) *ssa.Function {
			sel := c.e.prog.MethodSets.MethodSet(dt).Lookup(nil, name)
			if sel == nil {
				c.e.undecided("no method %s", name)
			}
			return c.e.prog.MethodValue(sel)
		}
		c.sortSlice(recv, func(seq, i, j *Term, st *State) {
			c.lessCheck(seq, i, j, st, func(g *State) []Exit {
				return c.callAll(g, method("Less"), []*Term{recv, i, j}, nil)
			}, false)
			for _, o := range c.callAll(st.clone(), method("Len"), []*Term{recv}, nil) {
				c.e.obl["order"]++
				if !o.p.st.f.prove(mkIntEq(o.vals, seqLen(seq))) {
					c.e.violate(o.p.st, "order", "Len is not the number of items")
				}
			}
			// Swap exchanges items i and j and nothing else
			g := st.clone()
			if !g.assume(mkLt(i, j)) {
				return
			}
			g.protOn = false
			a, b := g.elem(seq, i), g.elem(seq, j)
			n := seqLen(seq)
			want := mkCat(g.sub(seq, t0, i), mkUnit(b), g.sub(seq, addc(i, 1), j), mkUnit(a), g.sub(seq, addc(j, 1), n))
			for _, o := range c.callAll(g, method("Swap"), []*Term{recv, i, j}, nil) {
				c.e.obl["order"]++
				if !o.p.st.f.prove(mkEqT(o.p.st.seq(recv), want)) {
					c.e.violate(o.p.st, "order", "Swap does not exchange two items: "+o.p.st.seq(recv).str(5))
				}
			}
		})
		return mkTuple()
	}
	models["sort.Stable"] = models["sort.Sort"]
	models["sort.Slice"] = func(c *cx) *Term {
		f := c.st.resolveIte(c.args[1])
		if f.op != OFunc {
			c.e.undecided("opaque comparison")
		}
		c.sortSlice(c.args[0], func(seq, i, j *Term, st *State) {
			c.lessCheck(seq, i, j, st, func(g *State) []Exit {
				return c.callAll(g, f.x.(*ssa.Function), []*Term{i, j}, f.args)
			}, false)
		})
		return mkTuple()
	}
	models["sort.SliceStable"] = models["sort.Slice"]
	models["slices.SortFunc"] = func(c *cx) *Term {
		f := c.st.resolveIte(c.args[1])
		if f.op != OFunc {
			c.e.undecided("opaque comparison")
		}
		c.sortSlice(c.args[0], func(seq, i, j *Term, st *State) {
			c.lessCheck(seq, i, j, st, func(g *State) []Exit {
				x := f.x.(*ssa.Function)
				a, b := g.elem(seq, i), g.elem(seq, j)
				if x.String() == "bytes.Compare" {
					a, b = g.seq(a), g.seq(b)
					return []Exit{{kind: xReturn, p: &Path{st: g}, vals: seqCompare(a, b)}}
				}
				return c.callAll(g, x, []*Term{a, b}, f.args)
			}, true)
		})
		return mkTuple()
	}
	models["slices.SortStableFunc"] = models["slices.SortFunc"]
}
