// Abstract states: store, facts, path condition, effects.
package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

type Bound struct{ sym, lo, hi *Term }

// Entry is the content of one object, or of a family of objects (bound != nil).
type Entry struct {
	args  []*Term
	bound []Bound
	val   *Term
}

type PC struct {
	c    *Term
	hard bool // a branch decision (soft: a derived or modelled fact)
}

type State struct {
	e      *Eng
	store  map[string][]*Entry
	cnt    map[string]int
	shared bool
	f      *Facts
	pc     []PC
	kap    []*Term
	links  [][2]*Term // maybe-alias pairs of objects
	prot   map[string]bool
	protOn bool
	allow  []*Term
	eff    []Effect
	elemT  map[string]types.Type
}

type Effect struct {
	what string
	pos  string
}

func newState(e *Eng) *State {
	return &State{e: e, store: map[string][]*Entry{}, cnt: map[string]int{}, f: newFacts()}
}

func (s *State) clone() *State {
	n := *s
	s.shared, n.shared = true, true
	n.f = s.f.clone()
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.kap = s.kap[:len(s.kap):len(s.kap)]
	n.links = s.links[:len(s.links):len(s.links)]
	n.eff = s.eff[:len(s.eff):len(s.eff)]
	n.allow = s.allow[:len(s.allow):len(s.allow)]
	return &n
}

func (s *State) own() {
	if !s.shared {
		return
	}
	st := make(map[string][]*Entry, len(s.store)+4)
	for k, v := range s.store {
		st[k] = v[:len(v):len(v)]
	}
	c := make(map[string]int, len(s.cnt)+4)
	for k, v := range s.cnt {
		c[k] = v
	}
	s.store, s.cnt, s.shared = st, c, false
}

// assume adds a branch fact.
func (s *State) assume(c *Term) bool {
	s.pc = append(s.pc, PC{c, true})
	return s.assume0(c)
}

// fact adds a derived fact.
func (s *State) fact(c *Term) bool {
	if c == tTrue {
		return true
	}
	s.pc = append(s.pc, PC{c, false})
	return s.assume0(c)
}

func (s *State) assume0(c *Term) bool {
	n := s.f.norm(c)
	if !s.f.assume(n) {
		return false
	}
	if n != c && c.op != OAnd {
		// keep the original atom decidable as well
		if s.f.decide(c) == 3 {
			s.f.assume(c)
		}
	}
	s.derive(n)
	if n != c {
		s.derive(c)
	}
	return !s.f.bad
}

// derive adds consequences of modelled predicates.
func (s *State) derive(c *Term) {
	switch c.op {
	case OAnd:
		for _, x := range c.args {
			s.derive(x)
		}
	case OUf:
		if g, ok := ufFacts[c.s]; ok {
			for _, x := range g(c, true) {
				s.f.assume(x)
			}
		}
	case ONot:
		if x := c.args[0]; x.op == OUf {
			if g, ok := ufFacts[x.s]; ok {
				for _, y := range g(x, false) {
					s.f.assume(y)
				}
			}
		}
	case OEqT:
		if c.args[0].sort == SSeq {
			s.f.assume(mkIntEq(seqLen(c.args[0]), seqLen(c.args[1])))
		}
	}
}

var ufFacts = map[string]func(c *Term, v bool) []*Term{}

type splitReq struct {
	alts []*Term
	why  string
}

// need forks the path on the given exhaustive alternatives.
func need(why string, alts ...*Term) {
	panic(splitReq{alts, why})
}

func (s *State) norm(t *Term) *Term { return s.f.norm(t) }

// truth decides c, forking when unknown.
func (s *State) truth(c *Term) bool {
	switch s.f.decide(c) {
	case 1:
		return true
	case 2:
		return false
	}
	n := s.f.norm(c)
	switch s.f.decide(n) {
	case 1:
		return true
	case 2:
		return false
	}
	if s.f.prove(n) {
		return true
	}
	if s.f.prove(mkNot(n)) {
		return false
	}
	need("cond", n, mkNot(n))
	return false
}

// ---------- objects

func (e *Eng) obj(site string, args ...*Term) *Term {
	return mkRaw(Term{op: OObj, sort: SVal, s: site, args: args})
}

func mkPtr(obj *Term, sel ...*Term) *Term {
	return mkRaw(Term{op: OPtr, sort: SVal, args: append([]*Term{obj}, sel...)})
}
func selF(n int) *Term   { return mkRaw(Term{op: OSelF, sort: SVal, n: n}) }
func selI(i *Term) *Term { return mkRaw(Term{op: OSelI, sort: SVal, args: []*Term{i}}) }

func ptrSel(p *Term, s *Term) *Term {
	return mkRaw(Term{op: OPtr, sort: SVal, args: append(append([]*Term{}, p.args...), s)})
}

func mkSlice(ptr, off, ln, cp *Term) *Term {
	return mkRaw(Term{op: OSlice, sort: SVal, args: []*Term{ptr, off, ln, cp}})
}

var nilSlice = mkSlice(tNil, t0, t0, t0)

func mkStruct(ty types.Type, fs ...*Term) *Term {
	return mkRaw(Term{op: OStruct, sort: SVal, args: fs})
}

// alloc creates a new object with the given content.
func (s *State) nextKey(site string) string {
	if n := s.cnt[site]; n > 0 {
		return fmt.Sprintf("%s#%d", site, n)
	}
	return site
}

func (s *State) alloc(site string, content *Term) *Term {
	s.own()
	key := s.nextKey(site)
	s.cnt[site]++
	o := s.e.obj(key, s.kap...)
	s.store[o.s] = append(s.store[o.s], &Entry{args: o.args, val: content})
	return o
}

// match tries to match the object arguments against an entry.
// 1: matches (with the substitution), 2: does not, 3: unknown (cond is the deciding condition)
func (s *State) match(en *Entry, args []*Term) (int, map[*Term]*Term, *Term) {
	sub := map[*Term]*Term{}
	if len(en.args) != len(args) {
		return 2, nil, nil
	}
	isB := map[*Term]bool{}
	for _, b := range en.bound {
		isB[b.sym] = true
	}
	var conds []*Term
	for i, a := range en.args {
		if isB[a] {
			if o, ok := sub[a]; ok {
				conds = append(conds, mkIntEq(o, args[i]))
			} else {
				sub[a] = args[i]
			}
			continue
		}
		// sym + c
		done := false
		if a.op == OLin && len(a.m) == 1 && isB[a.m[0].a] && a.m[0].c.CmpAbs(b1) == 0 {
			if _, ok := sub[a.m[0].a]; !ok {
				r := sub0(args[i], mkBig(a.k))
				if a.m[0].c.Sign() < 0 {
					r = neg(r)
				}
				sub[a.m[0].a] = r
				done = true
			}
		}
		if !done {
			conds = append(conds, mkIntEq(substT(a, sub), args[i]))
		}
	}
	for _, b := range en.bound {
		v, ok := sub[b.sym]
		if !ok {
			return 3, nil, nil
		}
		lo, hi := substT(b.lo, sub), substT(b.hi, sub)
		conds = append(conds, mkLeq(lo, v), mkLt(v, hi))
	}
	c := mkAnd(conds...)
	if s.f.prove(c) {
		return 1, sub, c
	}
	if s.f.decide(c) == 2 || s.f.prove(mkNot(c)) {
		return 2, nil, nil
	}
	return 3, sub, c
}

func sub0(a, b *Term) *Term { return sub(a, b) }

// content of an object
func (s *State) content(o *Term) *Term {
	es := s.store[o.s]
	for i := len(es) - 1; i >= 0; i-- {
		en := es[i]
		r, m, c := s.match(en, o.args)
		switch r {
		case 1:
			if len(m) > 0 {
				return substT(en.val, m)
			}
			return en.val
		case 3:
			if c == nil {
				s.e.undecided("object family of %s cannot be resolved", o)
			}
			need("object", c, mkNot(c))
		}
	}
	if d, ok := s.e.lazy[o.s]; ok {
		return d(o)
	}
	s.e.undecided("content of object %s is unknown", o)
	return nil
}

func (s *State) setContent(o, v *Term) {
	s.own()
	es := s.store[o.s]
	for i := len(es) - 1; i >= 0; i-- {
		en := es[i]
		r, _, c := s.match(en, o.args)
		if r == 1 {
			if en.bound == nil {
				ne := append([]*Entry{}, es...)
				ne[i] = &Entry{args: en.args, val: v}
				s.store[o.s] = ne
				return
			}
			break
		}
		if r == 3 {
			if c == nil {
				s.e.undecided("object family of %s cannot be resolved", o)
			}
			need("object", c, mkNot(c))
		}
	}
	s.store[o.s] = append(es[:len(es):len(es)], &Entry{args: o.args, val: v})
}

func (s *State) objKey(o *Term) string { return o.s }

func (s *State) writable(o *Term, what string) {
	if s.protOn {
		for _, a := range s.allow {
			if a.s == o.s {
				return
			}
		}
		if s.prot[o.s] || strings.HasPrefix(o.s, "any:") || strings.HasPrefix(o.s, "g:") {
			s.eff = append(s.eff, Effect{what + " " + o.s, s.e.where()})
		}
	} else if strings.HasPrefix(o.s, "g:") && !s.e.initPhase {
		s.eff = append(s.eff, Effect{"global " + what + " " + o.s, s.e.where()})
	}
}

// touched havocs the objects that may share memory with o.
func (s *State) touched(o *Term) {
	if len(s.links) == 0 {
		return
	}
	seen := map[*Term]bool{o: true}
	work := []*Term{o}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		for _, l := range s.links {
			var y *Term
			if l[0] == x {
				y = l[1]
			} else if l[1] == x {
				y = l[0]
			}
			if y == nil || seen[y] {
				continue
			}
			seen[y] = true
			work = append(work, y)
			s.writable(y, "write (through a possibly shared backing array) to")
			c := s.content(y)
			s.setContent(y, s.e.havocSeq(c, "shared"))
		}
	}
}

func (e *Eng) havocSeq(c *Term, why string) *Term {
	e.havocN++
	n := fmt.Sprintf("havoc:%s%d", why, e.havocN)
	return mkRaw(Term{op: OSym, sort: SSeq, s: n, ln: seqLen(c)})
}

// get walks selectors into a value.
func (s *State) get(v *Term, sels []*Term) *Term {
	for _, x := range sels {
		v = s.resolveIte(v)
		switch x.op {
		case OSelF:
			if v.op != OStruct {
				s.e.undecided("field of opaque value %s", v)
			}
			v = v.args[x.n]
		case OSelI:
			v = s.elem(v, x.args[0])
		}
	}
	return v
}

func (s *State) resolveIte(v *Term) *Term {
	for v.op == OIte && v.sort == SVal {
		if s.truth(v.args[0]) {
			v = v.args[1]
		} else {
			v = v.args[2]
		}
	}
	return v
}

// elem reads an element of a sequence.
func (s *State) elem(seq, i *Term) *Term {
	if r := s.f.at(seq, i, byteLike); r != nil {
		return s.expandElem(r)
	}
	n := s.f.norm(seq)
	j := s.f.norm(i)
	if r := s.f.at(n, j, byteLike); r != nil {
		return s.expandElem(r)
	}
	// force a decision: position inside a Cat / conditional
	if c := s.posSplit(n, j); c != nil {
		need("position", c, mkNot(c))
	}
	es := s.elemLike(n)
	if es == nil {
		if c := s.posSplit2(n, j, true); c != nil { // objects: one part after the other
			s.e.phase(c)
			need("position", c, mkNot(c))
		}
		s.e.undecided("element %s of %s cannot be resolved", j, n)
	}
	return mkRaw(Term{op: OAt, sort: es.sort, args: []*Term{n, j}, lo: es.lo, hi: es.hi, ln: es.ln})
}

func (s *State) expandElem(r *Term) *Term {
	if r.op == OAt {
		b := r.args[0]
		if b.op == OUf {
			if g, ok := ufSplit[b.s]; ok {
				if alts := g(s.f, b); alts != nil {
					need("prefix form", alts...)
				}
			}
		}
	}
	return r
}

func (s *State) elemLike(n *Term) *elemSpec {
	for _, p := range seqParts(n) {
		switch p.op {
		case OSym, OUf, OFold:
			e := elemOf(p)
			return &e
		case OLit:
			e := byteElem
			return &e
		case OUnit:
			if p.args[0].sort == SInt {
				e := byteElem
				return &e
			}
			return nil
		case ORep:
			return s.elemLike(p.args[2])
		case OSub, ORev:
			return s.elemLike(p.args[0])
		case OIte:
			return s.elemLike(p.args[1])
		case OHex, OAt:
			e := byteElem
			return &e
		}
	}
	return nil
}

// posSplit gives a condition that helps resolve position i of s.
func (s *State) posSplit(q, i *Term) *Term { return s.posSplit2(q, i, false) }

func (s *State) posSplit2(q, i *Term, force bool) *Term {
	switch q.op {
	case OSub:
		return s.posSplit2(q.args[0], add(q.args[1], i), force)
	case OCat:
		pos := t0
		for _, p := range q.args {
			off := sub(i, pos)
			pl := seqLen(p)
			c := mkLt(off, pl)
			switch s.f.decide(c) {
			case 1:
				return s.posSplit2(p, off, force)
			case 2:
				pos = add(pos, pl)
				continue
			}
			if force {
				return c
			}
			return nil
		}
	case OIte:
		if s.f.decide(q.args[0]) == 3 {
			return q.args[0]
		}
	}
	return nil
}

// sub reads a sub-sequence.
func (s *State) sub(seq, lo, hi *Term) *Term {
	if r := s.f.sub(seq, lo, hi); r != nil {
		return r
	}
	n := s.f.norm(seq)
	l, h := s.f.norm(lo), s.f.norm(hi)
	if r := s.f.sub(n, l, h); r != nil {
		return r
	}
	if c := s.subSplit(n, l, h); c != nil {
		need("range", c...)
	}
	return pureSub(n, l, h)
}

// subSplit: a modelled prefix that must be expanded because the range cuts it.
func (s *State) subSplit(q, lo, hi *Term) []*Term {
	if q.op == OIte && s.f.decide(q.args[0]) == 3 {
		return []*Term{q.args[0], mkNot(q.args[0])}
	}
	for _, p := range seqParts(q) {
		if p.op == OUf {
			if g, ok := ufSplit[p.s]; ok {
				if alts := g(s.f, p); alts != nil {
					return alts
				}
			}
		}
	}
	for _, x := range []*Term{lo, hi} {
		if r := s.f.splitCond(mkLe(x)); r != nil && len(r) == 2 && (x.has(OIte) || x.has(OUf)) && !hasOr(r) {
			return r
		}
	}
	return nil
}

func hasOr(r []*Term) bool {
	for _, x := range r {
		if x.op == OOr {
			return true
		}
	}
	return false
}

// put rebuilds a value with one component replaced.
func (s *State) put(v *Term, sels []*Term, x *Term) *Term {
	if len(sels) == 0 {
		return x
	}
	v = s.resolveIte(v)
	switch sels[0].op {
	case OSelF:
		if v.op != OStruct {
			s.e.undecided("field of opaque value %s", v)
		}
		n := append([]*Term{}, v.args...)
		n[sels[0].n] = s.put(n[sels[0].n], sels[1:], x)
		return mkRaw(Term{op: OStruct, sort: SVal, args: n, x: v.x})
	case OSelI:
		i := sels[0].args[0]
		if len(sels) > 1 {
			x = s.put(s.elem(v, i), sels[1:], x)
		}
		return s.splice(v, i, addc(i, 1), mkUnit(x))
	}
	panic("put")
}

// splice replaces seq[lo:hi] by x.
func (s *State) splice(seq, lo, hi, x *Term) *Term {
	n := seqLen(seq)
	return mkCat(s.sub(seq, t0, lo), x, s.sub(seq, hi, n))
}

func (s *State) checkPtr(p *Term, what string) *Term {
	p = s.resolveIte(p)
	if p == tNil {
		s.e.violate(s, "nil-dereference", what+" through a nil pointer")
		panic(pathEnd{})
	}
	if p.op != OPtr {
		n := s.f.norm(p)
		if n.op == OPtr {
			return n
		}
		if n == tNil {
			s.e.violate(s, "nil-dereference", what+" through a nil pointer")
			panic(pathEnd{})
		}
		s.e.undecided("%s through opaque pointer %s", what, p)
	}
	return p
}

type pathEnd struct{}

func (s *State) load(p *Term) *Term {
	p = s.checkPtr(p, "load")
	return s.get(s.content(p.args[0]), p.args[1:])
}

func (s *State) storeAt(p, v *Term) {
	p = s.checkPtr(p, "store")
	o := p.args[0]
	c := s.content(o)
	n := s.put(c, p.args[1:], v)
	if n != c {
		s.writable(o, "write to")
	} else {
		s.writable(o, "write to")
	}
	s.setContent(o, n)
	if len(p.args) > 1 {
		s.touched(o)
	}
}

// arr gives the backing array of a slice.
func (s *State) arr(ptr *Term) *Term {
	return s.get(s.content(ptr.args[0]), ptr.args[1:])
}

// seq gives the elements of a slice or string value.
func (s *State) seq(v *Term) *Term {
	if v.sort == SSeq {
		return v
	}
	v = s.resolveIte(v)
	if v == tNil {
		return tEmpty
	}
	if v.op != OSlice {
		s.e.undecided("contents of opaque slice %s", v)
	}
	p := s.resolveIte(v.args[0])
	if p == tNil {
		return tEmpty
	}
	if s.f.same(v.args[2], t0) {
		return tEmpty
	}
	if p.op != OPtr {
		s.e.undecided("contents of slice with opaque pointer %s", p)
	}
	return s.sub(s.arr(p), v.args[1], add(v.args[1], v.args[2]))
}

// newSlice allocates a backing array; exact: capacity equals length.
func (s *State) newSlice(site string, content *Term, exact bool) *Term {
	n := seqLen(content)
	cp := n
	full := content
	if !exact {
		// the spare capacity belongs to the allocation
		key := s.nextKey(site)
		sp := mkUfInt("cap~"+key, b0, maxLen, s.kap...)
		cp = add(n, sp)
		full = mkCat(content, mkUfSeq("spare~"+key, sp, s.kap...))
	}
	s.fits(cp)
	o := s.alloc(site, full)
	return mkSlice(mkPtr(o), t0, n, cp)
}

// fits: memory that exists is addressable.
func (s *State) fits(n *Term) {
	if _, hi := rangeOf(n); hi == nil || hi.Cmp(maxLen) > 0 {
		s.fact(mkLeq(n, mkBig(maxLen)))
	}
}

// ---------- types

func intInfo(t types.Type) (bits uint, signed bool, ok bool) {
	b, k := t.Underlying().(*types.Basic)
	if !k {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func intBounds(bits uint, signed bool) (lo, hi *big.Int) {
	if signed {
		return new(big.Int).Neg(pow2(bits - 1)), new(big.Int).Sub(pow2(bits-1), b1)
	}
	return b0, new(big.Int).Sub(pow2(bits), b1)
}

func (s *State) wrap(t *Term, ty types.Type) *Term {
	bits, signed, ok := intInfo(ty)
	if !ok {
		return t
	}
	lo, hi := intBounds(bits, signed)
	if t.isConst() {
		if t.k.Cmp(lo) >= 0 && t.k.Cmp(hi) <= 0 {
			return t
		}
	} else {
		l, h := rangeOf(t)
		okl := l != nil && l.Cmp(lo) >= 0
		okh := h != nil && h.Cmp(hi) <= 0
		if !okl {
			okl = s.f.entails(lincomb(lo, []*big.Int{bm1}, []*Term{t}))
		}
		if okl && !okh {
			okh = s.f.entails(lincomb(new(big.Int).Neg(hi), []*big.Int{b1}, []*Term{t}))
		}
		if okl && okh {
			return t
		}
		if t.has(OIte) || t.has(OUf) {
			n := s.f.norm(t)
			if n != t {
				return s.wrap(n, ty)
			}
		}
	}
	m := pow2(bits)
	if !signed {
		return mkMod(t, m)
	}
	h2 := pow2(bits - 1)
	return lincomb(new(big.Int).Neg(h2), []*big.Int{b1}, []*Term{mkMod(lincomb(h2, []*big.Int{b1}, []*Term{t}), m)})
}

func (e *Eng) zero(t types.Type) *Term {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "math/big.Int":
			return t0
		case "math/big.Float":
			return mkFloat(0)
		case "bytes.Buffer", "strings.Builder":
			return tEmpty
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return tEmpty
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return t0
		case u.Info()&types.IsFloat != 0:
			return mkFloat(0)
		}
		return tNil
	case *types.Slice:
		return nilSlice
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = e.zero(u.Field(i).Type())
		}
		return mkStruct(t, fs...)
	case *types.Array:
		return zeroSeq(e.zero(u.Elem()), mkInt(u.Len()))
	case *types.Tuple:
		fs := make([]*Term, u.Len())
		for i := range fs {
			fs[i] = e.zero(u.At(i).Type())
		}
		return mkRaw(Term{op: OTuple, sort: SVal, args: fs})
	}
	return tNil
}

func zeroSeq(z, n *Term) *Term {
	k := mkSym("z#", SInt, nil, nil, nil)
	return mkRep(k, t0, n, mkUnit(z))
}

func mkFloat(f float64) *Term {
	return mkRaw(Term{op: OUf, sort: SVal, s: fmt.Sprintf("float:%v", f)})
}

func mkTuple(ts ...*Term) *Term {
	return mkRaw(Term{op: OTuple, sort: SVal, args: ts})
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
