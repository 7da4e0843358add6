// Loops: natural loops, exact unrolling, and inductive summaries.
package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	fn   *ssa.Function
	head *ssa.BasicBlock
	in   map[*ssa.BasicBlock]bool
}

func (e *Eng) loopAt(fn *ssa.Function, b *ssa.BasicBlock) *Loop {
	m, ok := e.loops[fn]
	if !ok {
		m = findLoops(fn)
		e.loops[fn] = m
	}
	return m[b]
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	m := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := m[h]
			if l == nil {
				l = &Loop{fn: fn, head: h, in: map[*ssa.BasicBlock]bool{h: true}}
				m[h] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.in[x] {
					continue
				}
				l.in[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return m
}

// ---------- transactions on the report state

type checkpoint struct {
	nrep    int
	rep     map[string]bool
	obl     map[string]int
	sites   map[string]bool
	asserts map[string]int
	quiet   int
	fr      *Frame
	in      ssa.Instruction
	paths   int
	strict  int
	bounded map[string]string
}

func cpMap[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (e *Eng) checkpoint() checkpoint {
	return checkpoint{len(e.reports), cpMap(e.repSeen), cpMap(e.obl), cpMap(e.oblSites), cpMap(e.asserts), e.quiet, e.curFn, e.curInstr, e.paths, len(e.strict), cpMap(e.bounded)}
}

func (e *Eng) rollback(c checkpoint) {
	e.reports = e.reports[:c.nrep]
	e.repSeen, e.obl, e.oblSites, e.asserts = c.rep, c.obl, c.sites, c.asserts
	e.quiet, e.curFn, e.curInstr, e.paths = c.quiet, c.fr, c.in, c.paths
	e.strict = e.strict[:c.strict]
	e.bounded = c.bounded
}

type guardUnknown struct{ l *Loop }
type headCond struct {
	l    *Loop
	cond *Term
	in   *ssa.If
}
type sumFail struct{ msg string }

// strictReq marks loops whose header condition must be decided / captured.
type strictReq struct {
	l       *Loop
	fr      *Frame
	capture bool
}

// headHook is called for undecided conditions at a loop header.
func (e *Eng) headHook(fr *Frame, ctx *Loop, x *ssa.If, c *Term, d int8) {
	if len(e.strict) == 0 {
		return
	}
	s := e.strict[len(e.strict)-1]
	if s.l != ctx || s.fr != fr {
		return
	}
	if s.capture {
		panic(headCond{ctx, c, x})
	}
	if d == 3 {
		panic(guardUnknown{ctx})
	}
}

// protect runs f and reports a control failure as a message.
func (e *Eng) protect(f func()) (msg string) {
	ck := e.checkpoint()
	e.tentative++
	defer func() {
		e.tentative--
		if r := recover(); r != nil {
			switch x := r.(type) {
			case guardUnknown:
				msg = "guard"
			case sumFail:
				msg = x.msg
			case undecidedErr:
				msg = "undecided: " + x.msg + " at " + e.where()
			case splitReq:
				msg = fmt.Sprintf("split %s %v", x.why, x.alts)
			case pathEnd:
				msg = "end"
			default:
				panic(r)
			}
			e.rollback(ck)
		}
	}()
	f()
	return ""
}

func (e *Eng) loopName(l *Loop) string {
	p := ""
	for _, b := range []*ssa.BasicBlock{l.head} {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				p = e.fset.Position(in.Pos()).String()
				break
			}
		}
	}
	if i := strings.LastIndex(p, "/"); i >= 0 {
		p = p[i+1:]
	}
	return l.fn.String() + "@" + p + "#" + itoa(l.head.Index)
}

var debugLoops = os.Getenv("ALOOP") != ""

// runLoop: all outcomes of the loop entered from prev.
func (e *Eng) runLoop(fr *Frame, p *Path, l *Loop, prev *ssa.BasicBlock) []Exit {
	if prev != nil {
		e.doPhis(p, l.head, prev)
	}
	return e.runLoop1(fr, p, l)
}

// conditionalSlice: a slice used by the loop whose memory depends on a condition.
func (e *Eng) conditionalSlice(p *Path, l *Loop) *Term {
	var r *Term
	look := func(v ssa.Value) {
		t, ok := p.regs[v]
		if !ok || t == nil || r != nil || t.op != OSlice || t.args[0].op != OIte {
			return
		}
		t = p.st.norm(t)
		p.regs[v] = t
		if t.op == OSlice && t.args[0].op == OIte && p.st.f.decide(t.args[0].args[0]) == 3 {
			r = t.args[0].args[0]
		}
	}
	for _, b := range l.fn.Blocks {
		if !l.in[b] {
			continue
		}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok && b == l.head {
				look(ph)
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op != nil {
					look(*op)
				}
			}
		}
	}
	return r
}

// phaseReq: the loop walks along a sequence of several parts; the iterations
// before the boundary are summarised first, the others afterwards.
type phaseReq struct {
	s   *summary
	cut *Term
}

// phase asks for a loop in progress to be cut where c (about its iteration) ends.
func (e *Eng) phase(c *Term) {
	if n := len(e.strict); n > 0 && e.strict[n-1].l != nil && !e.strict[n-1].capture {
		panic(guardUnknown{e.strict[n-1].l}) // unrolling: a summary cuts the loop
	}
	if c.op != OLe {
		return
	}
	for i := len(e.sums) - 1; i >= 0; i-- {
		s := e.sums[i]
		l := linOf(c.args[0])
		for _, m := range l.m {
			if m.a == s.k && m.c.Cmp(b1) == 0 {
				cut := addc(sub(s.k, c.args[0]), 1) // k + r <= 0  ==  k < 1 - r
				ok := s.cut == nil && !anyTerm(cut, func(x *Term) bool {
					for _, l := range s.leaves {
						if x == l.sym {
							return true
						}
					}
					return x == s.k
				}) && s.p0.st.f.prove(mkLeq(t0, cut))
				if ok {
					panic(phaseReq{s, cut})
				}
			}
		}
	}
}

func (e *Eng) runLoop1(fr *Frame, p *Path, l *Loop) []Exit { return e.runLoop2(fr, p, l, nil) }

func (e *Eng) runLoop2(fr *Frame, p *Path, l *Loop, cut *Term) []Exit {
	var out []Exit
	if c := e.conditionalSlice(p, l); c != nil {
		for _, a := range []*Term{c, mkNot(c)} {
			q := p.clone()
			if q.st.assume(a) {
				out = append(out, e.runLoop1(fr, q, l)...)
			}
		}
		return out
	}
	left := e.stepsLeft
	msg := "cut"
	if cut == nil {
		msg = e.protect(func() { out = e.unroll(fr, p.clone(), l, 300, 64) })
	}
	if msg == "" {
		return out
	}
	if debugLoops {
		fmt.Printf("LOOP %s unroll: %s (%d steps)\n", e.loopName(l), msg, left-e.stepsLeft)
	}
	var split []*Term
	var phase *Term
	msg = ""
	func() {
		ck := e.checkpoint()
		depth := len(e.sums)
		e.tentative++
		defer func() {
			e.tentative--
			if r := recover(); r != nil {
				if x, ok := r.(splitReq); ok && x.why == "loop" {
					split = x.alts
					e.rollback(ck)
					return
				}
				if x, ok := r.(phaseReq); ok && len(e.sums) > depth && e.sums[depth] == x.s {
					phase = x.cut
					e.sums = e.sums[:depth]
					e.rollback(ck)
					return
				}
				panic(r)
			}
		}()
		msg = e.protect2(func() { out = e.summarise(fr, p.clone(), l, cut) })
	}()
	if phase != nil {
		if debugLoops {
			fmt.Printf("LOOP %s cut at %s\n", e.loopName(l), phase.str(5))
		}
		return e.runLoop2(fr, p, l, phase)
	}
	if split != nil {
		for _, a := range split {
			q := p.clone()
			if q.st.assume(a) {
				out = append(out, e.runLoop2(fr, q, l, cut)...)
			}
		}
		return out
	}
	if msg == "" {
		return out
	}
	if debugLoops || e.trace {
		fmt.Printf("LOOP %s summary failed: %s\n", e.loopName(l), msg)
	}
	if e.bounded != nil {
		e.bounded[e.loopName(l)] = msg
	}
	return e.boundedUnroll(fr, p, l)
}

// protect2 lets loop-level splits through.
func (e *Eng) protect2(f func()) (msg string) {
	var sr *splitReq
	msg = e.protect(func() {
		defer func() {
			if r := recover(); r != nil {
				if x, ok := r.(splitReq); ok && x.why == "loop" {
					sr = &x
					return
				}
				panic(r)
			}
		}()
		f()
	})
	if sr != nil {
		panic(*sr)
	}
	return msg
}

func (e *Eng) unroll(fr *Frame, p *Path, l *Loop, limit, width int) []Exit {
	work := []*Path{p}
	var out []Exit
	for iter := 0; len(work) > 0; iter++ {
		if iter > limit || len(work) > width {
			panic(sumFail{"too many iterations"})
		}
		var next []*Path
		for _, q := range work {
			e.strict = append(e.strict, strictReq{l, fr, false})
			n := len(e.strict)
			xs := e.runFrom(fr, q, l.head, firstNonPhi(l.head), l)
			e.strict = e.strict[:n-1]
			for _, x := range xs {
				if x.kind == xLatch {
					e.doPhis(x.p, l.head, x.from)
					next = append(next, x.p)
				} else {
					out = append(out, x)
				}
			}
		}
		work = next
	}
	return out
}

func (e *Eng) boundedUnroll(fr *Frame, p *Path, l *Loop) []Exit {
	work := []*Path{p}
	var out []Exit
	for iter := 0; len(work) > 0 && iter <= e.boundK; iter++ {
		var next []*Path
		for _, q := range work {
			e.strict = append(e.strict, strictReq{})
			n := len(e.strict)
			xs := e.runFrom(fr, q, l.head, firstNonPhi(l.head), l)
			e.strict = e.strict[:n-1]
			for _, x := range xs {
				if x.kind == xLatch {
					e.doPhis(x.p, l.head, x.from)
					next = append(next, x.p)
				} else {
					out = append(out, x)
				}
			}
		}
		work = next
	}
	if len(out) == 0 && len(work) > 0 {
		e.undecided("no way out of %s within %d iterations", e.loopName(l), e.boundK)
	}
	return out
}

// ---------- summaries

type shapeKind int

const (
	shConst shapeKind = iota
	shLeaf
	shStruct
	shSlice // pointer fixed; offset, length, capacity are shapes
	shBuf   // a slice known by its contents only
	shWin   // a string that every iteration cuts from itself: a window of the initial one
)

type shape struct {
	kind shapeKind
	val  *Term // shConst: value; shSlice: pointer
	leaf *leaf
	sub  []*shape
	obj  *Term        // shBuf: object
	orig *Term        // shBuf: initial slice
	cuts []*ssa.Slice // shWin: what an iteration cuts, from the initial value outwards
}

type leaf struct {
	name   string
	sym    *Term
	init   *Term
	next   []*Term // per latch
	merged *Term
	closed *Term // in terms of k
	guess  *Term
	fold   bool
	dead   bool
	isLen  bool
	spare  *Term
	grp    *leaf
}

type root struct {
	phi *ssa.Phi
	obj *Term
	sh  *shape
}

type famUpd struct {
	key   string
	args  []*Term
	val   *Term
	alloc bool
}

type summary struct {
	bound     *Term
	cut       *Term // only the iterations before this one
	e         *Eng
	fr        *Frame
	l         *Loop
	p0        *Path
	k         *Term
	id        int
	roots     []*root
	leaves    []*leaf
	fams      []*famUpd
	inv       []*Term // conditions over leaf syms
	flags     map[string]bool
	noGuess   map[string]bool
	nbuf      int
	invRounds int
	baseH     int
	base      int
	latches   []*Path
	at        func(l *leaf) *Term // the values last installed
}

func (s *summary) fail(f string, a ...interface{}) { panic(sumFail{fmt.Sprintf(f, a...)}) }

func (s *summary) newLeaf(name string, init *Term, ty types.Type) *leaf {
	lf := &leaf{name: name, init: init}
	var lo, hi *big.Int
	if init.sort == SInt {
		if ty != nil {
			if bits, sg, ok := intInfo(ty); ok {
				lo, hi = intBounds(bits, sg)
			}
		}
	}
	switch init.sort {
	case SInt:
		lf.sym = freshSym("x", SInt, lo, hi)
	case SBool, SVal:
		lf.sym = freshSym("x", init.sort, nil, nil)
	case SSeq:
		freshN++
		lf.sym = mkRaw(Term{op: OSym, sort: SSeq, s: fmt.Sprintf("x~%d", freshN)})
		if es := s.p0.st.elemLike(init); es != nil {
			elemSpecs[lf.sym.s] = *es
		} else if ty != nil {
			var el types.Type
			switch u := ty.Underlying().(type) {
			case *types.Slice:
				el = u.Elem()
			case *types.Array:
				el = u.Elem()
			}
			if el != nil {
				elemSpecs[lf.sym.s] = elemSpecOf(el)
			}
		}
	}
	s.leaves = append(s.leaves, lf)
	return lf
}

func (s *summary) intLeaf(name string, init *Term) *leaf {
	lf := s.newLeaf(name, init, nil)
	lf.sym = freshSym("x", SInt, b0, maxLen)
	lf.isLen = true
	return lf
}

// shapeFor a loop-carried value (initially optimistic).
func (s *summary) shapeFor(name string, v *Term, ty types.Type) *shape {
	switch {
	case v.sort == SInt || v.sort == SBool || v.sort == SSeq:
		return &shape{kind: shLeaf, leaf: s.newLeaf(name, v, ty)}
	case v.op == OStruct:
		sh := &shape{kind: shStruct, val: v}
		for i, a := range v.args {
			var ft types.Type
			if ty != nil {
				if st, ok := ty.Underlying().(*types.Struct); ok {
					ft = st.Field(i).Type()
				}
			}
			sh.sub = append(sh.sub, s.shapeFor(fmt.Sprintf("%s.%d", name, i), a, ft))
		}
		return sh
	case v.op == OSlice && v.args[0] != tNil:
		sh := &shape{kind: shSlice, val: v.args[0], orig: v}
		off := s.intLeaf(name+".off", v.args[1])
		ln := s.intLeaf(name+".len", v.args[2])
		cp := s.intLeaf(name+".cap", v.args[3])
		ln.grp, cp.grp = off, off
		sh.sub = []*shape{{kind: shLeaf, leaf: off}, {kind: shLeaf, leaf: ln}, {kind: shLeaf, leaf: cp}}
		return sh
	}
	return &shape{kind: shConst, val: v}
}

// window: the shape of a string that every iteration cuts from itself.
func (s *summary) window(ph *ssa.Phi, v *Term) *shape {
	if v.sort != SSeq {
		return nil
	}
	var edge ssa.Value
	for i, ed := range ph.Edges {
		if s.l.in[ph.Block().Preds[i]] {
			if edge != nil {
				return nil
			}
			edge = ed
		}
	}
	var cuts []*ssa.Slice
	for edge != ssa.Value(ph) {
		c, ok := edge.(*ssa.Slice)
		if !ok {
			return nil
		}
		for _, b := range []ssa.Value{c.Low, c.High} {
			if p, ok := b.(*ssa.Phi); ok && p.Block() == s.l.head {
				return nil
			}
		}
		cuts = append([]*ssa.Slice{c}, cuts...)
		edge = c.X
	}
	if len(cuts) == 0 {
		return nil
	}
	off := s.intLeaf(ph.Name()+".off", t0)
	ln := s.intLeaf(ph.Name()+".len", seqLen(v))
	ln.grp = off
	return &shape{kind: shWin, val: v, cuts: cuts, sub: []*shape{{kind: shLeaf, leaf: off}, {kind: shLeaf, leaf: ln}}}
}

// diffShape for the content of an object that the body changes.
func (s *summary) diffShape(name string, v, w *Term, ty types.Type) *shape {
	if v == w {
		return &shape{kind: shConst, val: v}
	}
	if v.op == OStruct && w.op == OStruct {
		sh := &shape{kind: shStruct, val: v}
		for i := range v.args {
			sh.sub = append(sh.sub, s.diffShape(fmt.Sprintf("%s.%d", name, i), v.args[i], w.args[i], nil))
		}
		return sh
	}
	if v.op == OSlice && w.op == OSlice && v.args[0] != w.args[0] {
		return s.bufShape(name, v)
	}
	if v.op == OSlice {
		return s.shapeFor(name, v, ty)
	}
	if v.sort == SVal && v.op != OStruct {
		return &shape{kind: shLeaf, leaf: s.newLeaf(name, v, ty)}
	}
	if v.op == OSlice || v.op == OStruct {
		s.fail("shape of %s changes", name)
	}
	sh := s.shapeFor(name, v, ty)
	if v.sort == SSeq && s.p0.st.f.same(seqLen(v), seqLen(w)) {
		// an array: its length is fixed
		old := sh.leaf.sym
		n := *old
		n.ln = seqLen(v)
		sh.leaf.sym = mkRaw(n)
	}
	return sh
}

func (s *summary) bufShape(name string, v *Term) *shape {
	st := s.p0.st
	c := st.seq(v)
	lf := s.newLeaf(name, c, nil)
	s.nbuf++
	o := s.e.obj(fmt.Sprintf("L%d.%d", s.id, s.nbuf), st.kap...)
	lf.spare = mkSym(fmt.Sprintf("spare~L%d.%d", s.id, s.nbuf), SInt, b0, maxLen, nil)
	return &shape{kind: shBuf, leaf: lf, obj: o, orig: v}
}

// value of a shape under a valuation of the leaves; buffers are created in st.
func (s *summary) build(sh *shape, st *State, v func(l *leaf) *Term, n *Term) *Term {
	switch sh.kind {
	case shConst:
		return sh.val
	case shLeaf:
		return v(sh.leaf)
	case shStruct:
		args := make([]*Term, len(sh.sub))
		for i, x := range sh.sub {
			args[i] = s.build(x, st, v, n)
		}
		return mkRaw(Term{op: OStruct, sort: SVal, args: args, x: sh.val.x})
	case shSlice:
		return mkSlice(sh.val, s.build(sh.sub[0], st, v, n), s.build(sh.sub[1], st, v, n), s.build(sh.sub[2], st, v, n))
	case shWin:
		off, ln := v(sh.sub[0].leaf), v(sh.sub[1].leaf)
		st.fact(mkLeq(t0, ln))
		st.fact(mkLeq(add(off, ln), seqLen(sh.val)))
		return st.sub(sh.val, off, add(off, ln))
	case shBuf:
		c := v(sh.leaf)
		spn := mkRaw(Term{op: OSym, sort: SSeq, s: sh.leaf.spare.s + "c", ln: sh.leaf.spare})
		if es := st.elemLike(c); es != nil {
			elemSpecs[spn.s] = *es
		}
		st.own()
		st.store[sh.obj.s] = []*Entry{{args: sh.obj.args, val: mkCat(c, spn)}}
		p := mkPtr(sh.obj)
		if sh.orig.args[0] == tNil || sh.orig.args[0].op == OIte {
			p = mkIte(mkIntEq(n, t0), sh.orig.args[0], p)
		}
		// the first iteration may append into the caller's spare capacity
		if op := sh.orig.args[0]; op.op == OPtr && !st.f.same(sh.orig.args[2], sh.orig.args[3]) {
			old := op.args[0]
			if st.prot[old.s] {
				np := cpMap(st.prot)
				np[sh.obj.s] = true
				st.prot = np
			}
			st.links = append(st.links, [2]*Term{sh.obj, old})
		}
		ln := seqLen(c)
		st.fits(add(ln, sh.leaf.spare))
		return mkSlice(p, t0, ln, add(ln, sh.leaf.spare))
	}
	panic("build")
}

func (s *summary) install(q *Path, v func(l *leaf) *Term, n *Term) {
	s.at = v
	for _, r := range s.roots {
		t := s.build(r.sh, q.st, v, n)
		if r.phi != nil {
			q.regs[r.phi] = t
		} else {
			q.st.setContent(r.obj, t)
		}
	}
}

// extract reads the leaf values out of v; returns a replacement shape when v does not fit.
func (s *summary) extract(name string, sh *shape, v *Term, st *State, cur func(*leaf) *Term, put func(*leaf, *Term)) *shape {
	switch sh.kind {
	case shConst:
		if v == sh.val || st.f.same2(v, sh.val) {
			return nil
		}
		if sh.val.op == OSlice || v.op == OSlice {
			if sh.val.op != OSlice {
				s.fail("%s becomes a slice", name)
			}
			return s.bufShape(name, sh.val)
		}
		return &shape{kind: shLeaf, leaf: s.newLeaf(name, sh.val, nil)}
	case shLeaf:
		put(sh.leaf, v)
		return nil
	case shStruct:
		v = st.resolveIte(v)
		if v.op != OStruct {
			s.fail("%s is not a structure any more", name)
		}
		ch := false
		n := *sh
		n.sub = append([]*shape{}, sh.sub...)
		for i, x := range sh.sub {
			if r := s.extract(fmt.Sprintf("%s.%d", name, i), x, v.args[i], st, cur, put); r != nil {
				n.sub[i] = r
				ch = true
			}
		}
		if ch {
			return &n
		}
		return nil
	case shSlice:
		v = st.resolveIte(v)
		if v.op != OSlice || v.args[0] != sh.val {
			for _, x := range sh.sub {
				x.leaf.dead = true
			}
			return s.bufShape(name, sh.orig)
		}
		for i, x := range sh.sub {
			if r := s.extract(name, x, v.args[i+1], st, cur, put); r != nil {
				s.fail("slice parts")
			}
		}
		return nil
	case shWin:
		put(sh.sub[0].leaf, v.args[1])
		put(sh.sub[1].leaf, v.args[2])
		return nil
	case shBuf:
		v = st.resolveIte(v)
		if v.op != OSlice {
			s.fail("%s is an opaque slice", name)
		}
		put(sh.leaf, st.seq(v))
		return nil
	}
	panic("extract")
}

// carried: the value of a loop variable after an iteration.
func (s *summary) carried(r *root, x *Path) *Term {
	if r.sh.kind != shWin {
		return x.regs[r.phi]
	}
	off, ln := s.at(r.sh.sub[0].leaf), s.at(r.sh.sub[1].leaf)
	for _, c := range r.sh.cuts {
		lo, hi := t0, ln
		if c.Low != nil {
			lo = s.e.val(x, c.Low)
		}
		if c.High != nil {
			hi = s.e.val(x, c.High)
		}
		off, ln = add(off, lo), sub(hi, lo)
	}
	return mkSlice(tNil, off, ln, ln)
}

func (f *Facts) same2(a, b *Term) bool {
	if a == b {
		return true
	}
	return f.prove(mkEqT(a, b))
}

func (s *summary) live() []*leaf {
	var r []*leaf
	for _, l := range s.leaves {
		if !l.dead {
			r = append(r, l)
		}
	}
	return r
}

// body runs one iteration from the installed state.
func (s *summary) body(q *Path, quiet bool) []Exit {
	e := s.e
	if quiet {
		e.quiet++
		defer func() { e.quiet-- }()
	}
	e.strict = append(e.strict, strictReq{})
	n := len(e.strict)
	xs := e.runFrom(s.fr, q, s.l.head, firstNonPhi(s.l.head), s.l)
	e.strict = e.strict[:n-1]
	for _, x := range xs {
		if x.kind == xLatch {
			e.doPhis(x.p, s.l.head, x.from)
		}
	}
	return xs
}

func (s *summary) start(v func(l *leaf) *Term) *Path {
	q := s.p0.clone()
	q.st.kap = append(q.st.kap, s.k)
	q.st.fact(mkLeq(t0, s.k))
	if s.bound != nil {
		q.st.fact(mkLeq(s.k, s.bound))
	}
	if s.cut != nil {
		q.st.fact(mkLeq(s.k, s.cut))
	}
	s.install(q, v, s.k)
	return q
}

// startBody: an iteration whose body is entered.
func (s *summary) startBody(v func(l *leaf) *Term) *Path {
	q := s.start(v)
	if s.bound != nil {
		q.st.fact(mkLt(s.k, s.bound))
	}
	if s.cut != nil {
		q.st.fact(mkLt(s.k, s.cut))
	}
	return q
}

func (e *Eng) summarise(fr *Frame, p *Path, l *Loop, cut *Term) []Exit {
	e.loopID++
	s := &summary{e: e, fr: fr, l: l, p0: p, id: e.loopID, noGuess: map[string]bool{}, cut: cut}
	e.sums = append(e.sums, s)
	depth := len(e.sums)
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(phaseReq); !ok {
				e.sums = e.sums[:depth-1]
			}
			panic(r)
		}
		e.sums = e.sums[:depth-1]
	}()
	s.k = freshSym("k", SInt, b0, maxLen)
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		sh := s.window(ph, p.regs[ph])
		if sh == nil {
			sh = s.shapeFor(ph.Name(), p.regs[ph], ph.Type())
		}
		s.roots = append(s.roots, &root{phi: ph, sh: sh})
	}
	var latches []*Path
	for round := 0; ; round++ {
		if round > 12 {
			s.fail("shapes do not stabilise")
		}
		s.guesses()
		s.findBound()
		q := s.startBody(s.cur)
		for _, c := range s.inv {
			q.st.fact(s.onCur(c))
		}
		base := len(q.st.pc)
		for _, x := range s.live() {
			x.next = nil
			if x.sym.sort == SSeq && x.guess == nil && s.isBuf(x) {
				continue
			}
		}
		snap := q.clone()
		xs := s.body(q, true)
		latches = nil
		for _, x := range xs {
			if x.kind == xLatch {
				latches = append(latches, x.p)
			}
		}
		if len(latches) > 40 {
			s.fail("too many latch paths")
		}
		if s.reshape(snap, latches) {
			continue
		}
		if s.checkGuesses(latches) {
			continue
		}
		s.collectFams(snap, latches, base)
		s.base, s.latches = base, latches
		if s.solve(latches, base) {
			break
		}
	}
	return s.finish(latches)
}

func (s *summary) isBuf(l *leaf) bool { return l.spare != nil }

func (s *summary) cur(l *leaf) *Term {
	if l.guess != nil {
		return l.guess
	}
	return l.sym
}

func (s *summary) onCur(c *Term) *Term {
	m := map[*Term]*Term{}
	for _, l := range s.leaves {
		m[l.sym] = s.cur(l)
	}
	return substT(c, m)
}

// reshape: adapt the shapes to what the body does.
func (s *summary) reshape(start *Path, latches []*Path) bool {
	changed := false
	for _, x := range latches {
		for _, r := range s.roots {
			var v *Term
			if r.phi != nil {
				v = s.carried(r, x)
			} else {
				v = x.st.content(r.obj)
			}
			name := "mem"
			if r.phi != nil {
				name = r.phi.Name()
			}
			var bad *leaf
			ns := s.extract(name, r.sh, v, x.st, s.cur, func(l *leaf, t *Term) {
				t = x.st.norm(t)
				for _, q := range s.roots {
					if b := bufOf(q.sh); b != nil {
						for _, bb := range b {
							if containsTerm(t, bb.obj) {
								bad = l
							}
						}
					}
				}
				l.next = append(l.next, t)
			})
			if bad != nil {
				s.fail("a loop buffer escapes into %s", bad.name)
			}
			if ns != nil {
				r.sh = ns
				changed = true
			}
		}
		if changed {
			return true
		}
		// objects
		for key, es := range x.st.store {
			os := start.st.store[key]
			if strings.HasPrefix(key, fmt.Sprintf("L%d.", s.id)) {
				continue
			}
			for i, en := range es {
				if i < len(os) {
					if en.val != os[i].val && en.bound == nil && !s.flag(key) {
						o := s.e.obj(key, en.args...)
						found := false
						for _, r := range s.roots {
							if r.obj == o {
								found = true
							}
						}
						if !found {
							s.roots = append(s.roots, &root{obj: o, sh: s.diffShape(key, os[i].val, en.val, nil)})
							changed = true
						}
					}
				}
			}
		}
	}
	return changed
}

func bufOf(sh *shape) []*shape {
	if sh.kind == shBuf {
		return []*shape{sh}
	}
	var r []*shape
	for _, x := range sh.sub {
		r = append(r, bufOf(x)...)
	}
	return r
}

// guesses: offsets that walk along the parts of a repeated layout.
func (s *summary) guesses() {
	for _, r := range s.roots {
		if r.phi == nil || r.sh.kind != shLeaf || r.sh.leaf.dead || r.sh.leaf.guess != nil || r.sh.leaf.init.sort != SInt || s.noGuess[r.sh.leaf.name] {
			continue
		}
		if c := s.counter(r.phi); c != nil {
			r.sh.leaf.guess = add(r.sh.leaf.init, mulc(s.k, c))
		}
	}
	for _, l := range s.live() {
		if l.guess != nil || l.init.sort != SInt || s.noGuess[l.name] {
			continue
		}
		if l.grp != nil { // length / capacity follow the offset
			if g := l.grp.guess; g != nil {
				l.guess = sub(add(l.init, l.grp.init), g)
			}
			continue
		}
		st := s.p0.st
		for _, c := range s.datas() {
			if !c.has(ORep) {
				continue
			}
			pos := t0
			for _, p := range seqParts(c) {
				if p.op == ORep && p.args[0] == t0 {
					if st.f.same(pos, l.init) {
						ph, b := openBody(p.args[2], p.n)
						l.guess = add(l.init, sumRangeK(ph, seqLen(b), t0, s.k))
						break
					}
				}
				pos = add(pos, seqLen(p))
			}
			if l.guess != nil {
				break
			}
		}
	}
	for _, l := range s.live() {
		if l.guess == nil && l.grp != nil && l.grp.guess != nil && !s.noGuess[l.name] {
			l.guess = sub(add(l.init, l.grp.init), l.grp.guess)
		}
	}
}

// counter: the constant added to ph by every iteration, read off the code.
func (s *summary) counter(ph *ssa.Phi) *big.Int {
	var step *big.Int
	for i, ed := range ph.Edges {
		if !s.l.in[ph.Block().Preds[i]] {
			continue
		}
		b, ok := ed.(*ssa.BinOp)
		if !ok || b.X != ph || b.Op != token.ADD && b.Op != token.SUB {
			return nil
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return nil
		}
		v, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if !ok {
			return nil
		}
		if b.Op == token.SUB {
			v.Neg(v)
		}
		if step != nil && step.Cmp(v) != 0 {
			return nil
		}
		step = v
	}
	return step
}

// datas: contents of the byte slices visible in the frame.
func (s *summary) datas() []*Term {
	var r0 []*Term
	seen := map[*Term]bool{}
	st := s.p0.st
	addT := func(c *Term) {
		if c != nil && !seen[c] {
			seen[c] = true
			r0 = append(r0, c)
		}
	}
	var names []string
	vals := map[string]*Term{}
	for v, t := range s.p0.regs {
		if t == nil {
			continue
		}
		n := v.Name()
		names = append(names, n)
		vals[n] = t
	}
	sort.Strings(names)
	var visit func(t *Term, d int)
	visit = func(t *Term, d int) {
		switch {
		case t == nil:
		case t.sort == SSeq:
			addT(st.norm(t))
		case t.op == OSlice && t.args[0].op == OPtr:
			func() {
				defer func() {
					if x := recover(); x != nil {
						switch x.(type) {
						case splitReq, undecidedErr:
						default:
							panic(x)
						}
					}
				}()
				addT(st.norm(st.seq(t)))
				addT(st.norm(st.arr(t.args[0])))
			}()
		case t.op == OSlice && t.args[0].op == OIte: // the guesses are only guesses
			for _, a := range t.args[0].args[1:] {
				if a.op == OPtr || a.op == OIte {
					visit(mkSlice(a, t.args[1], t.args[2], t.args[3]), d)
				}
			}
		case t.op == OStruct && d > 0:
			for _, a := range t.args {
				visit(a, d-1)
			}
		}
	}
	for _, n := range names {
		visit(vals[n], 1)
	}
	for _, r := range s.roots { // variables the loop changes in memory
		if r.obj != nil {
			visit(st.content(r.obj), 1)
		}
	}
	return r0
}

// sliceLens: lengths of the slices visible in the frame.
func (s *summary) sliceLens() []*Term {
	var r []*Term
	for _, t := range s.p0.regs {
		if t != nil && t.op == OSlice {
			r = append(r, t.args[2])
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func indexPath(ps []*Path, p *Path) int {
	for i, q := range ps {
		if q == p {
			return i
		}
	}
	return -1
}

func (s *summary) checkGuesses(latches []*Path) bool {
	changed := false
	for _, l := range s.live() {
		if l.guess == nil {
			continue
		}
		nx := substT(l.guess, map[*Term]*Term{s.k: addc(s.k, 1)})
		for i, v := range l.next {
			if !latches[i].st.f.prove(mkIntEq(v, nx)) {
				if latches[i].st.proveCases(mkIntEq(v, nx), 4) {
					continue
				}
				if debugLoops {
					if os.Getenv("AIND") != "" {
						for _, c := range latches[i].st.f.le {
							fmt.Println("   le", c.str(6))
						}
						for _, c := range latches[i].st.pc {
							fmt.Println("   pc", latches[i].st.f.norm(c.c).str(6), "FROM", c.c.str(6))
						}
					}
					fmt.Printf("   guess for %s refuted: %s != %s\n", l.name, v.str(5), nx.str(5))
				}
				l.guess = nil
				s.noGuess[l.name] = true
				changed = true
				break
			}
		}
	}
	return changed
}

// reachable: the object families that something outliving the iteration can
// still refer to: the values carried to the next iteration, and the contents
// of objects that existed before it.
func (s *summary) reachable(start *Path, latches []*Path) map[string]bool {
	live := map[string]bool{}
	for li, x := range latches {
		seen := map[*Term]bool{}
		done := map[string]bool{}
		var work []string
		var walk func(t *Term)
		walk = func(t *Term) {
			if t == nil || seen[t] {
				return
			}
			seen[t] = true
			if t.op == OObj && !done[t.s] {
				done[t.s] = true
				work = append(work, t.s)
			}
			if es, ok := elemSpecs[t.s]; ok && t.op == OSym {
				walk(es.ln)
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		for _, l := range s.leaves {
			walk(l.guess)
			walk(l.init)
			if li < len(l.next) {
				walk(l.next[li])
			}
		}
		for _, r := range s.roots {
			if r.phi != nil {
				walk(x.regs[r.phi])
			} else {
				walk(r.obj)
				walk(x.st.content(r.obj))
			}
		}
		for key := range x.st.store {
			if _, lz := s.e.lazy[key]; len(start.st.store[key]) > 0 || lz {
				if !done[key] {
					done[key] = true
					work = append(work, key)
				}
			}
		}
		for len(work) > 0 {
			key := work[len(work)-1]
			work = work[:len(work)-1]
			live[key] = true
			for _, en := range x.st.store[key] {
				walk(en.val)
				for _, a := range en.args {
					walk(a)
				}
			}
		}
	}
	return live
}

// collectFams: objects allocated in, or element objects changed by, one iteration.
func (s *summary) collectFams(start *Path, latches []*Path, base int) {
	s.fams = nil
	type fk struct {
		key string
		id  string
	}
	vals := map[fk][]*Term{}
	arg := map[fk][]*Term{}
	isAlloc := map[fk]bool{}
	var order []fk
	live := s.reachable(start, latches)
	for li, x := range latches {
		for key, es := range x.st.store {
			if strings.HasPrefix(key, fmt.Sprintf("L%d.", s.id)) {
				continue
			}
			os := start.st.store[key]
			for i, en := range es {
				if i < len(os) && len(os) <= len(es) {
					continue
				}
				if !live[key] || s.flag(key) {
					continue
				}
				ids := ""
				for _, a := range en.args {
					ids += a.key() + ","
				}
				for _, b := range en.bound {
					ids += "b" + b.sym.key()
				}
				f := fk{key, ids}
				if _, ok := vals[f]; !ok {
					vals[f] = make([]*Term, len(latches))
					arg[f] = en.args
					order = append(order, f)
					_, lz := s.e.lazy[key]
					isAlloc[f] = len(os) == 0 && !lz
				}
				if en.bound != nil {
					s.fail("an inner family of objects outlives its iteration")
				}
				vals[f][li] = en.val
			}
		}
	}
	sort.Slice(order, func(i, j int) bool {
		return order[i].key+order[i].id < order[j].key+order[j].id
	})
	for _, f := range order {
		vs := vals[f]
		if isAlloc[f] {
			// unreached allocations do not matter
			var first *Term
			for _, v := range vs {
				if v != nil {
					first = v
				}
			}
			for i := range vs {
				if vs[i] == nil {
					vs[i] = first
				}
			}
		} else {
			o := s.e.obj(f.key, arg[f]...)
			for i := range vs {
				if vs[i] == nil {
					vs[i] = latches[i].st.content(o)
				}
			}
			if len(arg[f]) == 0 || arg[f][len(arg[f])-1] != s.k {
				ok := false
				for _, a := range arg[f] {
					if containsTerm(a, s.k) {
						ok = true
					}
				}
				if !ok {
					s.fail("object %s is updated repeatedly", f.key)
				}
			}
		}
		s.fams = append(s.fams, &famUpd{key: f.key, args: arg[f], val: mergePaths(vs, latches, base), alloc: isAlloc[f]})
	}
}

func (t *Term) key() string { return itoa(t.id) }

// mergePaths combines per-path values by the branch decisions taken since base.
func mergePaths(vs []*Term, ps []*Path, base int) *Term {
	idx := make([]int, len(vs))
	for i := range idx {
		idx[i] = i
	}
	hard := make([][]*Term, len(ps))
	vs = append([]*Term{}, vs...)
	for i, p := range ps {
		for _, c := range p.st.pc[base:] {
			if c.hard {
				hard[i] = append(hard[i], c.c)
				if x, t := solved(c.c); x != nil && vs[i] != nil {
					vs[i] = substT(vs[i], map[*Term]*Term{x: t})
				}
			}
		}
	}
	var rec func(is []int, d int) *Term
	rec = func(is []int, d int) *Term {
		same := true
		for _, i := range is {
			if vs[i] != vs[is[0]] {
				same = false
			}
		}
		if same {
			return vs[is[0]]
		}
		var c *Term
		for _, i := range is {
			if d < len(hard[i]) {
				c = hard[i][d]
				break
			}
		}
		if c == nil {
			return vs[is[0]]
		}
		var yes, no []int
		for _, i := range is {
			if d < len(hard[i]) && hard[i][d] == c {
				yes = append(yes, i)
			} else {
				no = append(no, i)
			}
		}
		if len(no) == 0 {
			return rec(yes, d+1)
		}
		// the remaining alternatives start with another condition
		allNeg := true
		for _, i := range no {
			if d >= len(hard[i]) || hard[i][d] != mkNot(c) {
				allNeg = false
			}
		}
		var b *Term
		if allNeg {
			b = rec(no, d+1)
		} else {
			b = rec(no, d)
		}
		a := rec(yes, d+1)
		if a != nil && b != nil && a.sort == SSeq && b.sort == SSeq {
			a, b = padTail(a, b, yes, ps), padTail(b, a, no, ps)
		}
		return mkVal(c, a, b)
	}
	return rec(idx, 0)
}

// padTail: x followed by what y ends in besides, if that is empty where x is meant.
func padTail(x, y *Term, is []int, ps []*Path) *Term {
	px, py := seqParts(x), seqParts(y)
	if len(py) == 0 || len(py) <= len(px) && !(x.op == OUnit || len(px) == 1) {
		return x
	}
	z := py[len(py)-1]
	if z.op != OSub || len(px) > 0 && px[len(px)-1] == z {
		return x
	}
	for _, i := range is {
		if !ps[i].st.f.entails(seqLen(z)) {
			return x
		}
	}
	return mkCat(x, z)
}

// mkVal: conditional over any value, pushed into structures.
func mkVal(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == b.op && (a.op == OStruct || a.op == OTuple || a.op == OSlice) && len(a.args) == len(b.args) {
		args := make([]*Term, len(a.args))
		for i := range args {
			args[i] = mkVal(c, a.args[i], b.args[i])
		}
		return mkRaw(Term{op: a.op, sort: a.sort, args: args, x: a.x})
	}
	// x == t: the other branch with t for x may say the same
	y := c
	if c.op == ONot {
		y = c.args[0]
		a, b, c = b, a, y
	}
	if x, t := solved(y); x != nil {
		m := map[*Term]*Term{x: t}
		if substT(b, m) == substT(a, m) {
			return b
		}
	}
	return mkIte(c, a, b)
}

// solved: c as x == t for the most recent symbol x it is about.
func solved(c *Term) (x, t *Term) {
	if c.op != OEq {
		return nil, nil
	}
	for _, m := range linOf(c.args[0]).m {
		if m.a.op == OSym && m.c.CmpAbs(b1) == 0 && (x == nil || m.a.id > x.id) {
			if r := sub(m.a, mulc(c.args[0], m.c)); !containsTerm(r, m.a) {
				x, t = m.a, r
			}
		}
	}
	return
}

// ---------- recurrences

func (s *summary) subst(t *Term) *Term {
	m := map[*Term]*Term{}
	for _, l := range s.leaves {
		if l.closed != nil {
			m[l.sym] = l.closed
		} else if l.guess != nil {
			m[l.sym] = l.guess
		}
	}
	if len(m) == 0 {
		return t
	}
	return substT(t, m)
}

func (s *summary) mentions(t *Term, except *leaf) bool {
	return anyTerm(t, func(x *Term) bool {
		if x.op != OSym {
			return false
		}
		for _, l := range s.leaves {
			if l.sym == x && l.closed == nil && l.guess == nil && l != except {
				return true
			}
		}
		return false
	})
}

func (s *summary) solve(latches []*Path, base int) bool {
	ls := s.live()
	for _, l := range ls {
		l.closed = nil
		l.fold = false
		if l.guess != nil {
			l.closed = l.guess
			continue
		}
		if len(latches) == 0 {
			l.closed = l.init
			continue
		}
		l.merged = s.strip0(mergePaths(l.next, latches, base))
	}
	for _, f := range s.fams {
		f.val = s.strip0(f.val)
	}
	for {
		progress := false
		for _, l := range ls {
			if l.closed != nil {
				continue
			}
			if c := s.closed(l, s.subst(l.merged)); c != nil {
				l.closed = c
				progress = true
			}
		}
		if !progress {
			break
		}
	}
	// unsolved integers moving together
	var un []*leaf
	for _, l := range ls {
		if l.closed == nil {
			un = append(un, l)
		}
	}
	if len(un) == 0 {
		return true
	}
	rep := map[*leaf]*leaf{}
	for i, l := range un {
		if l.sym.sort != SInt {
			continue
		}
		for _, m := range un[:i] {
			if m.sym.sort != SInt || rep[m] != nil {
				continue
			}
			d := sub(l.merged, l.sym)
			dm := sub(m.merged, m.sym)
			if allSame(l, m, func(a, b *Term) bool { return sub(a, l.sym) == sub(b, m.sym) }) || d == dm {
				l.closed = add(sub(l.init, m.init), m.sym)
				rep[l] = m
			} else if allSame(l, m, func(a, b *Term) bool { return sub(a, l.sym) == neg(sub(b, m.sym)) }) || add(d, dm) == t0 {
				l.closed = sub(add(l.init, m.init), m.sym)
				rep[l] = m
			}
			if l.closed != nil {
				break
			}
		}
	}
	var core []*leaf
	for _, l := range un {
		if rep[l] == nil {
			core = append(core, l)
		}
	}
	// invariants of the remaining integers
	had := len(s.inv)
	s.houdini(core, rep)
	if len(s.inv) > had && s.invRounds < 3 {
		s.invRounds++
		return false
	}
	// the remaining leaves become folds, one strongly connected group at a time
	m := map[*Term]*Term{}
	for l := range rep {
		m[l.sym] = l.closed
	}
	fm := map[*Term]*Term{}
	bodyOf := func(l *leaf) *Term { return substT(substT(s.subst(l.merged), m), fm) }
	for _, grp := range groups(core, func(l, o *leaf) bool { return containsTerm(substT(s.subst(l.merged), m), o.sym) }) {
		if len(grp) == 1 && len(fm) > 0 {
			l := grp[0]
			if c := s.closed(l, bodyOf(l)); c != nil {
				l.closed = c
				fm[l.sym] = c
				continue
			}
		}
		var accs, inits, bodies []*Term
		size := 0
		for _, l := range grp {
			accs = append(accs, l.sym)
			inits = append(inits, l.init)
			b := bodyOf(l)
			bodies = append(bodies, b)
			size += termSize(b, 600)
		}
		for i, l := range grp {
			l.fold = true
			if size < 500 {
				l.closed = mkFold(s.k, accs, s.k, inits, bodies, i)
			} else {
				t := Term{op: OUf, sort: l.sym.sort, s: fmt.Sprintf("loop%d.%s", s.id, l.name), args: []*Term{s.k}, lo: l.sym.lo, hi: l.sym.hi, ln: l.sym.ln}
				if l.sym.sort == SSeq {
					if es, ok := elemSpecs[l.sym.s]; ok {
						elemSpecs[t.s] = es
					}
				}
				l.closed = mkRaw(t)
			}
		}
		for _, l := range grp {
			fm[l.sym] = l.closed
		}
	}
	for l := range rep {
		l.closed = substT(l.closed, fm)
	}
	// closed forms found earlier may mention nothing unsolved by construction
	return true
}

// groups: strongly connected components, dependencies first.
func groups(ls []*leaf, dep func(l, o *leaf) bool) [][]*leaf {
	n := len(ls)
	reach := make([][]bool, n)
	for i := range reach {
		reach[i] = make([]bool, n)
		for j := range reach[i] {
			reach[i][j] = i != j && dep(ls[i], ls[j])
		}
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				reach[i][j] = reach[i][j] || reach[i][k] && reach[k][j]
			}
		}
	}
	done := make([]bool, n)
	var out [][]*leaf
	for c := 0; c < n; {
		for i := 0; i < n; i++ {
			if done[i] {
				continue
			}
			ready := true
			var g []*leaf
			for j := 0; j < n; j++ {
				if j == i || reach[i][j] && reach[j][i] {
					g = append(g, ls[j])
				} else if reach[i][j] && !done[j] {
					ready = false
				}
			}
			if !ready {
				continue
			}
			for j := 0; j < n; j++ {
				if j == i || reach[i][j] && reach[j][i] {
					done[j] = true
					c++
				}
			}
			out = append(out, g)
		}
	}
	return out
}

// strip0 removes a distinction of the first iteration that makes no difference.
func (s *summary) strip0(t *Term) *Term {
	first := mkIntEq(s.k, t0)
	var m map[*Term]*Term
	at0 := func(x *Term) *Term {
		if m == nil {
			m = map[*Term]*Term{s.k: t0}
			for _, l := range s.leaves {
				m[l.sym] = l.init
			}
		}
		return substT(x, m)
	}
	under := func(f *Facts, c *Term) *Facts {
		c = f.norm(at0(c))
		switch f.decide(c) {
		case 1:
			return f
		case 2:
			return nil
		}
		g := f.clone()
		if !g.assume(c) {
			return nil
		}
		return g
	}
	var rec func(f *Facts, t *Term) *Term
	rec = func(f *Facts, t *Term) *Term { // f: the facts of the first iteration here
		switch t.op {
		case OIte:
			c := t.args[0]
			if c == mkNot(first) {
				return rec(f, mkIte(first, t.args[2], t.args[1]))
			}
			if c == first {
				a, b := rec(f, t.args[1]), rec(f, t.args[2])
				if a == b || f == nil || f.same2(at0(a), at0(b)) {
					return b
				}
				return mkIte(c, a, b)
			}
			var fy, fn *Facts
			if f != nil {
				fy, fn = under(f, c), under(f, mkNot(c))
			}
			return mkIte(c, rec(fy, t.args[1]), rec(fn, t.args[2]))
		case OStruct, OTuple, OSlice, OCat, OUnit, ORev, OHex:
			args := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				args[i] = rec(f, a)
				ch = ch || args[i] != a
			}
			switch {
			case !ch:
			case t.op == OCat:
				return mkCat(args...)
			case t.op == OUnit:
				return mkUnit(args[0])
			case t.op == ORev:
				return mkRev(args[0])
			case t.op == OHex:
				return mkHex(args[0])
			default:
				return mkRaw(Term{op: t.op, sort: t.sort, args: args, x: t.x})
			}
		}
		return t
	}
	if !containsTerm(t, first) {
		return t
	}
	return rec(s.p0.st.f, t)
}

func allSame(l, m *leaf, f func(a, b *Term) bool) bool {
	if len(l.next) != len(m.next) {
		return false
	}
	for i := range l.next {
		if !f(l.next[i], m.next[i]) {
			return false
		}
	}
	return len(l.next) > 0
}

func termSize(t *Term, limit int) int {
	seen := map[*Term]bool{}
	n := 0
	anyTerm(t, func(x *Term) bool {
		if !seen[x] {
			seen[x] = true
			n++
		}
		return n > limit
	})
	return n
}

// closed form of x' = b(x, k), x(0) = init
func (s *summary) closed(l *leaf, b *Term) *Term {
	x, k := l.sym, s.k
	f := s.p0.st.f
	if b == x {
		return l.init
	}
	if !containsTerm(b, x) && !s.mentions(b, nil) {
		// x(k) = b(k-1) for k>0
		if !containsTerm(b, k) && b == l.init {
			return b
		}
		prev := substT(b, map[*Term]*Term{k: addc(k, -1)})
		if substT(prev, map[*Term]*Term{k: t0}) == l.init {
			return prev
		}
		return mkVal(mkIntEq(k, t0), l.init, prev)
	}
	at := func(t, v *Term) *Term { return substT(t, map[*Term]*Term{k: v}) }
	switch x.sort {
	case SInt:
		d := sub(b, x)
		if !containsTerm(d, x) && !s.mentions(d, nil) {
			return add(l.init, sumRangeK(k, d, t0, k0(k)))
		}
		if b.op == OMod {
			d := sub(b.args[0], x)
			if !containsTerm(d, x) && !s.mentions(d, nil) {
				return mkMod(add(l.init, sumRangeK(k, d, t0, k)), b.k)
			}
		}
		// signed: mod(x+d+c, M)-c
		if lb := linOf(b); b.op == OLin && len(lb.m) == 1 && lb.m[0].c.Cmp(b1) == 0 && lb.m[0].a.op == OMod {
			m := lb.m[0].a
			off := mkBig(lb.c)
			d := add(sub(m.args[0], x), off)
			if !containsTerm(d, x) && !s.mentions(d, nil) {
				// x(0) must be in the range of the operation
				lo, hi := rangeOf(l.init)
				if lo != nil && hi != nil && lo.Cmp(lb.c) >= 0 && hi.Cmp(new(big.Int).Add(lb.c, m.k)) < 0 {
					return add(mkMod(sub(add(l.init, sumRangeK(k, d, t0, k)), off), m.k), off)
				}
			}
		}
		if b.op == ODiv && b.args[0] == x {
			if lg := log2(b.k); lg > 0 {
				return mkShr(l.init, mulc(k, bigI(int64(lg))))
			}
		}
		if b.op == OIte { // saturating: handled by the guard elsewhere
		}
	case SSeq:
		ps := seqParts(b)
		if len(ps) == 0 {
			return nil
		}
		if ps[0] == x {
			r := mkCat(ps[1:]...)
			if !containsTerm(r, x) && !s.mentions(r, nil) {
				return mkCat(l.init, mkRep(k, t0, k, r))
			}
		}
		if ps[len(ps)-1] == x {
			r := mkCat(ps[:len(ps)-1]...)
			if !containsTerm(r, x) && !s.mentions(r, nil) {
				j := freshSym("j", SInt, nil, nil)
				return mkCat(mkRep(j, t0, k, at(r, addc(sub(k, j), -1))), l.init)
			}
		}
		if c := s.fill(l, b, ps, f); c != nil {
			return c
		}
		if c := s.swap(l, b, ps, f); c != nil {
			return c
		}
	}
	return nil
}

func k0(k *Term) *Term { return k }

// fill: x' = x[:p(k)] ++ E(k) ++ x[q(k):], p(k+1) == q(k)
func (s *summary) fill(l *leaf, b *Term, ps []*Term, f *Facts) *Term {
	x, k := l.sym, s.k
	n := seqLen(l.init)
	xn := seqLen(x)
	fix := func(t *Term) *Term { return substT(t, map[*Term]*Term{xn: n}) }
	p, q := t0, n
	i, j := 0, len(ps)
	if len(ps) > 0 && ps[0].op == OSub && ps[0].args[0] == x && ps[0].args[1] == t0 {
		p = fix(ps[0].args[2])
		i = 1
	} else if len(ps) > 0 && ps[0].op == OUnit && ps[0] == mkUnit(mkAt(x, t0)) {
		p, i = t1, 1
	}
	if j > i {
		if last := ps[j-1]; last.op == OSub && last.args[0] == x && fix(last.args[2]) == n {
			q = fix(last.args[1])
			j--
		} else if last.op == OUnit && last.args[0].op == OAt && last.args[0].args[0] == x && fix(last.args[0].args[1]) == addc(n, -1) {
			q = addc(n, -1)
			j--
		}
	}
	mid := mkCat(ps[i:j]...)
	mid = fix(mid)
	if containsTerm(mid, x) || s.mentions(mid, nil) || containsTerm(p, x) || s.mentions(p, nil) || s.mentions(q, nil) {
		return nil
	}
	at := func(t, v *Term) *Term { return substT(t, map[*Term]*Term{k: v}) }
	if at(p, addc(k, 1)) == q { // ascending
		p0 := at(p, t0)
		return mkCat(f.sub2(l.init, t0, p0), mkRep(k, t0, k, mid), f.sub2(l.init, p, n))
	}
	if at(q, addc(k, 1)) == p { // descending
		q0 := at(q, t0)
		j := freshSym("j", SInt, nil, nil)
		return mkCat(f.sub2(l.init, t0, q), mkRep(j, t0, k, at(mid, addc(sub(k, j), -1))), f.sub2(l.init, q0, n))
	}
	return nil
}

func (f *Facts) sub2(s, lo, hi *Term) *Term {
	if r := f.sub(s, lo, hi); r != nil {
		return r
	}
	return pureSub(s, lo, hi)
}

// swap: exchange of the elements c+k and d-k
func (s *summary) swap(l *leaf, b *Term, ps []*Term, f *Facts) *Term {
	x, k := l.sym, s.k
	n := seqLen(l.init)
	xn := seqLen(x)
	var c, d *Term
	for _, p := range ps {
		if p.op == OUnit && p.args[0].op == OAt && p.args[0].args[0] == x {
			i := substT(p.args[0].args[1], map[*Term]*Term{xn: n})
			if u := sub(i, k); !containsTerm(u, k) && !containsTerm(u, x) && !s.mentions(u, nil) {
				c = u
			}
			if v := add(i, k); !containsTerm(v, k) && !containsTerm(v, x) && !s.mentions(v, nil) {
				d = v
			}
		}
	}
	if c == nil || d == nil {
		return nil
	}
	a, m := l.init, addc(d, 1)
	return mkCat(f.sub2(a, t0, c), mkRev(f.sub2(a, sub(m, k), m)), f.sub2(a, add(c, k), sub(m, k)), mkRev(f.sub2(a, c, add(c, k))), f.sub2(a, m, n))
}

// houdini: linear invariants of the unsolved integer leaves.
func (s *summary) houdini(core []*leaf, rep map[*leaf]*leaf) {
	var ints []*leaf
	for _, l := range core {
		if l.sym.sort == SInt {
			ints = append(ints, l)
		}
	}
	for l := range rep {
		ints = append(ints, l)
	}
	sort.Slice(ints, func(i, j int) bool { return ints[i].sym.id < ints[j].sym.id })
	if len(ints) == 0 {
		return
	}
	m := map[*Term]*Term{}
	for l := range rep {
		m[l.sym] = l.closed
	}
	var cands []*Term
	seen := map[*Term]bool{}
	for _, c := range s.inv {
		seen[c] = true
	}
	addC := func(c *Term) {
		if !seen[c] && !c.isConst() && c.op == OLe {
			seen[c] = true
			cands = append(cands, c)
		}
	}
	f0 := s.p0.st.f
	im := map[*Term]*Term{}
	for _, l := range s.leaves {
		im[l.sym] = l.init
	}
	for _, l := range ints {
		addC(mkLeq(l.init, l.sym))
		addC(mkLeq(l.sym, l.init))
		addC(mkLeq(t0, l.sym))
	}
	// lengths of the sequences in sight
	for _, l := range ints {
		for _, d := range s.datas() {
			addC(mkLeq(l.sym, seqLen(d)))
		}
		for _, d := range s.sliceLens() {
			addC(mkLeq(l.sym, d))
		}
		for _, o := range ints {
			if o != l {
				addC(mkLeq(l.sym, o.sym))
			}
		}
	}
	// what the latch conditions say about the next value
	for _, x := range s.latches {
		for _, pc := range x.st.pc[s.base:] {
			if pc.c.op != OLe {
				continue
			}
			for _, l := range ints {
				i := indexPath(s.latches, x)
				if i >= len(l.next) {
					continue
				}
				lv := linOf(l.next[i])
				if len(lv.m) != 1 || lv.m[0].c.Cmp(b1) != 0 || lv.m[0].a == l.sym {
					continue
				}
				c := substT(pc.c, map[*Term]*Term{lv.m[0].a: add(l.sym, mkBig(new(big.Int).Neg(lv.c)))})
				if containsTerm(c, l.sym) {
					addC(c)
				}
			}
		}
	}
	for _, c := range cands {
		if f0.prove(substT(c, im)) {
			s.inv = append(s.inv, c)
		}
	}
	for len(s.inv) > 0 {
		q := s.startBody(s.cur)
		// tie the dependent integers
		for l := range rep {
			q.st.fact(mkIntEq(l.sym, l.closed))
		}
		for _, l := range s.live() {
			if l.closed != nil && rep[l] == nil && l.guess == nil {
				if l.sym.sort == SInt {
					q.st.fact(mkIntEq(l.sym, l.closed))
				}
			}
		}
		for _, c := range s.inv {
			q.st.fact(c)
		}
		keep := map[*Term]bool{}
		for _, c := range s.inv {
			keep[c] = true
		}
		for _, x := range s.body(q, true) {
			if x.kind != xLatch {
				continue
			}
			nm := map[*Term]*Term{}
			for _, r := range s.roots {
				var v *Term
				if r.phi != nil {
					v = s.carried(r, x.p)
				} else {
					v = x.p.st.content(r.obj)
				}
				if s.extract("h", r.sh, v, x.p.st, s.cur, func(l *leaf, t *Term) { nm[l.sym] = t }) != nil {
					s.fail("shape changes under invariants")
				}
			}
			for _, c := range s.inv {
				if keep[c] && !x.p.st.f.prove(substT(c, nm)) {
					keep[c] = false
				}
			}
		}
		var n []*Term
		for _, c := range s.inv {
			if keep[c] {
				n = append(n, c)
			}
		}
		if len(n) == len(s.inv) {
			break
		}
		s.inv = n
	}
	if debugLoops {
		fmt.Printf("   invariants: %v\n", s.inv)
	}
}

// ---------- exits

func (s *summary) closedAt(n *Term) func(l *leaf) *Term {
	return func(l *leaf) *Term {
		if l.closed == nil {
			return l.init
		}
		return substT(l.closed, map[*Term]*Term{s.k: n})
	}
}

// flag: bookkeeping flags that are only ever raised; how often does not matter.
func (s *summary) flag(key string) bool {
	if key != "zz:failed" && key != "zz:raised" {
		return false
	}
	if s.flags == nil {
		s.flags = map[string]bool{}
	}
	s.flags[key] = true
	return true
}

func (s *summary) famAt(q *Path, n *Term) {
	q.st.own()
	for _, key := range sortedKeys(s.flags) {
		if n != t0 {
			o := s.e.obj(key)
			q.st.setContent(o, mkOr(q.st.content(o), freshSym("f", SBool, nil, nil)))
		}
	}
	for _, f := range s.fams {
		en := &Entry{args: f.args, bound: []Bound{{s.k, t0, n}}, val: s.subst(f.val)}
		// the bound variable must not clash with the iteration in progress
		j := freshSym("j", SInt, b0, maxLen)
		m := map[*Term]*Term{s.k: j}
		args := make([]*Term, len(f.args))
		for i, a := range f.args {
			args[i] = substT(a, m)
		}
		en = &Entry{args: args, bound: []Bound{{j, t0, n}}, val: substT(s.subst(f.val), m)}
		q.st.store[f.key] = append(q.st.store[f.key][:len(q.st.store[f.key]):len(q.st.store[f.key])], en)
	}
}

func (s *summary) invAt(q *Path, n *Term) {
	for _, c := range s.inv {
		q.st.fact(substT(s.subst(c), map[*Term]*Term{s.k: n}))
	}
}

// headCond: the condition under which the header continues into the body.
func (s *summary) headCond(q *Path) (cond *Term) {
	e, l := s.e, s.l
	var headIf *ssa.If
	func() {
		n := len(e.strict)
		e.quiet++
		defer func() {
			e.quiet--
			e.strict = e.strict[:n]
			if r := recover(); r != nil {
				h, ok := r.(headCond)
				if !ok {
					panic(r)
				}
				cond, headIf = h.cond, h.in
			}
		}()
		e.strict = append(e.strict, strictReq{l, s.fr, true})
		e.runFrom(s.fr, q.clone(), l.head, firstNonPhi(l.head), l)
	}()
	if headIf == nil {
		return nil
	}
	s0, s1 := headIf.Block().Succs[0], headIf.Block().Succs[1]
	switch {
	case !l.in[s1] && l.in[s0]:
		return cond
	case !l.in[s0] && l.in[s1]:
		return mkNot(cond)
	}
	return nil
}

// findBound: the parts of a repeated layout that the guesses walk along bound
// the number of iterations. It is confirmed with the final summary.
func (s *summary) findBound() {
	s.bound = nil
	g := false
	for _, l := range s.live() {
		if l.guess != nil && l.guess.has(OSum) {
			g = true
		}
	}
	if !g {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case splitReq, undecidedErr, sumFail, guardUnknown:
			default:
				panic(r)
			}
		}
	}()
	q := s.start(s.cur)
	c := s.headCond(q)
	if c != nil {
		s.bound = s.countParts(q.st.norm(c))
	}
}

func (s *summary) finish(latches []*Path) []Exit {
	e := s.e
	l := s.l
	if debugLoops {
		for _, lf := range s.live() {
			c := "?"
			if lf.closed != nil {
				c = lf.closed.str(6)
			}
			fmt.Printf("   leaf %s init=%s closed=%s\n", lf.name, lf.init.str(4), c)
		}
	}
	b58s := s.findB58()
	// the header condition at iteration k
	q := s.start(s.closedAt(s.k))
	s.invAt(q, s.k)
	cond := s.headCond(q)
	var N *Term
	if cond != nil {
		N = s.count(q, cond)
	}
	if s.bound != nil && N != s.bound {
		s.fail("the number of iterations depends on an assumption")
	}
	if s.cut != nil {
		if N == nil || !s.p0.st.f.prove(mkLeq(s.cut, N)) {
			s.fail("the loop may stop before the boundary")
		}
		N = s.cut
	}
	opaque := N == nil
	if opaque {
		N = freshSym("N", SInt, b0, maxLen)
	}
	if debugLoops {
		fmt.Printf("   N = %s\n", N.str(6))
	}
	var out []Exit
	// iteration k: obligations, inductiveness, early exits
	q = s.p0.clone()
	outerKap := s.p0.st.kap
	q.st.kap = append(append([]*Term{}, outerKap...), s.k)
	q.st.fact(mkLeq(t0, s.k))
	q.st.fact(mkLt(s.k, N))
	s.install(q, s.closedAt(s.k), s.k)
	s.invAt(q, s.k)
	s.famAt(q, s.k)
	s.b58Facts(q, b58s)
	neff := len(q.st.eff)
	var effs []Effect
	maxCnt := map[string]int{}
	var univ []Univ // what every completed iteration satisfied
	addUniv := func(hi *Term, c *Term) {
		fresh := anyTerm(c, func(x *Term) bool { return x.op == OSym && x.id > s.k.id && x != s.k && strings.Contains(x.s, "~") })
		if c.op != OTrue && !fresh && termSize(c, 400) < 400 {
			univ = append(univ, Univ{s.k, t0, hi, c})
		}
	}
	if cond != nil {
		addUniv(s.k, cond)
		q.st.f.univ = append(q.st.f.univ, univ...)
		univ = nil
		addUniv(N, cond)
	}
	if !q.st.f.bad {
		base := len(q.st.pc)
		xs := s.body(q, false)
		for _, x := range xs {
			if x.kind == xLatch || x.kind == xExit && x.from == l.head && cond != nil {
				continue
			}
			var cs []*Term
			for _, c := range x.p.st.pc[base:] {
				if c.hard {
					cs = append(cs, c.c)
				}
			}
			if len(cs) <= 8 {
				addUniv(N, mkNot(mkAnd(cs...)))
			}
		}
		for _, x := range xs {
			for k, v := range x.p.st.cnt {
				if v > maxCnt[k] {
					maxCnt[k] = v
				}
			}
			switch x.kind {
			case xLatch:
				s.inductive(x.p)
				effs = append(effs, x.p.st.eff[neff:]...)
			case xExit:
				if x.from == l.head && cond != nil {
					continue // the normal exit, taken at k = N only
				}
				x.p.st.kap = outerKap
				out = append(out, x)
			default:
				x.p.st.kap = outerKap
				out = append(out, x)
			}
		}
	}
	if cond != nil {
		z := s.p0.clone()
		z.st.fact(mkLeq(t0, N))
		s.install(z, func(l *leaf) *Term {
			for _, b := range b58s {
				if b.lf == l && z.st.f.same(N, seqLen(b.src)) {
					return b.dec
				}
			}
			return s.closedAt(N)(l)
		}, N)
		s.invAt(z, N)
		s.famAt(z, N)
		z.st.own()
		for k, v := range maxCnt {
			if v > z.st.cnt[k] {
				z.st.cnt[k] = v
			}
		}
		z.st.eff = append(z.st.eff, effs...)
		z.st.f.univ = append(z.st.f.univ, univ...)
		if s.cut != nil {
			for _, z := range s.quantify(z, N) {
				out = append(out, e.runLoop1(s.fr, z, l)...)
			}
		} else if z.st.fact(mkNot(substT(cond, map[*Term]*Term{s.k: N}))) {
			for _, z := range s.quantify(z, N) {
				e.strict = append(e.strict, strictReq{})
				n := len(e.strict)
				xs := e.runFrom(s.fr, z, l.head, firstNonPhi(l.head), l)
				e.strict = e.strict[:n-1]
				for _, x := range xs {
					if x.kind == xExit && x.from == l.head {
						out = append(out, x)
					}
				}
			}
		}
	}
	if opaque && len(out) == 0 {
		s.fail("there is no way out of the loop")
	}
	e.loopsSum[e.loopName(l)] = "summarised"
	return out
}

// quantified: v, the value of an accumulator after its loop, only says whether
// every element satisfied a condition: pos (v itself, or v being zero) holds
// exactly when start holds and c holds for every k below n.
func quantified(v *Term) (pos, start, n, k, c *Term) {
	if v.op != OFold || v.sort != SBool && v.sort != SInt {
		return
	}
	n, inits, k, accs, bodies := openFold(v)
	if len(accs) != 1 || containsTerm(n, accs[0]) {
		return
	}
	x, b := accs[0], bodies[0]
	pos, start = v, inits[0]
	without := func(t *Term) (rest []*Term, ok bool) {
		for _, a := range t.args {
			if a == x {
				ok = true
			} else {
				rest = append(rest, a)
			}
		}
		return
	}
	switch {
	case v.sort == SBool && b.op == OAnd:
		r, ok := without(b)
		if !ok {
			return nil, nil, nil, nil, nil
		}
		c = mkAnd(r...)
	case v.sort == SBool && b.op == OOr:
		r, ok := without(b)
		if !ok {
			return nil, nil, nil, nil, nil
		}
		pos, start, c = mkNot(v), mkNot(start), mkNot(mkOr(r...))
	case v.sort == SInt && b.op == OUf && b.s == "or" && len(b.args) == 2:
		r, ok := without(b)
		if !ok || len(r) != 1 {
			return nil, nil, nil, nil, nil
		}
		pos, start, c = mkEq0(v), mkEq0(start), mkEq0(r[0])
	default:
		return nil, nil, nil, nil, nil
	}
	if containsTerm(c, x) || containsTerm(start, x) {
		return nil, nil, nil, nil, nil
	}
	return
}

// quantify: the states after the loop, separated by what the accumulators that
// only record "all" or "some" say, with what that says about the elements.
func (s *summary) quantify(z *Path, N *Term) []*Path {
	zs := []*Path{z}
	for _, l := range s.live() {
		if !l.fold || len(zs) > 8 {
			continue
		}
		pos, start, n, k, c := quantified(s.closedAt(N)(l))
		if pos == nil {
			continue
		}
		var next []*Path
		for _, z := range zs {
			yes, no, first := z.clone(), z.clone(), z
			if yes.st.fact(pos) && yes.st.fact(start) {
				j := freshSym("k", SInt, b0, maxLen)
				yes.st.f.univ = append(yes.st.f.univ[:len(yes.st.f.univ):len(yes.st.f.univ)], Univ{j, t0, n, substT(c, map[*Term]*Term{k: j})})
				next = append(next, yes)
			}
			w := freshSym("w", SInt, b0, maxLen)
			if no.st.fact(mkNot(pos)) && no.st.fact(start) && no.st.fact(mkLt(w, n)) && no.st.fact(mkNot(substT(c, map[*Term]*Term{k: w}))) {
				next = append(next, no)
			}
			if first.st.fact(mkNot(pos)) && first.st.fact(mkNot(start)) {
				next = append(next, first)
			}
		}
		zs = next
	}
	return zs
}

func (s *summary) inductive(x *Path) {
	st := x.st
	nm := map[*leaf]*Term{}
	for _, r := range s.roots {
		var v *Term
		if r.phi != nil {
			v = s.carried(r, x)
		} else {
			v = st.content(r.obj)
		}
		if s.extract("i", r.sh, v, st, s.cur, func(l *leaf, t *Term) { nm[l] = t }) != nil {
			s.fail("shape changes in the inductive step")
		}
	}
	k1 := map[*Term]*Term{s.k: addc(s.k, 1)}
	for _, l := range s.leaves {
		t, ok := nm[l]
		if !ok {
			continue
		}
		var want *Term
		if l.fold {
			want = s.subst(l.merged)
		} else if l.grp != nil && false {
			want = nil
		} else {
			want = substT(l.closed, k1)
			if hasFoldOf(l.closed, s) {
				// expressed through a fold: use its defining step
				want = s.viaFold(l)
			}
		}
		if l.sym.ln != nil && !st.f.same(seqLen(t), l.sym.ln) {
			s.fail("length of %s changes", l.name)
		}
		if !st.proveCases(mkEqT(want, t), 4) {
			if os.Getenv("AIND") != "" {
				if w := st.norm(want); w.op == OIte {
					c := w.args[0]
					fmt.Println("cond", c.id, c.op, st.f.decide(c), st.norm(c), len(c.m))
					for _, m := range c.args[0].m {
						fmt.Println("  m", m.c, m.a.id, m.a.op, m.a.args[0].id, m.a.args[1].id, m.a.lo, m.a.hi)
					}
					for _, pc := range st.pc {
						n := st.f.norm(pc.c)
						_ = n
						if pc.c.op == OEq && len(pc.c.args[0].m) == 1 {
							m := pc.c.args[0].m[0]
							nn := st.f.norm(m.a)
							fmt.Println("  p", m.c, m.a.op, nn.id, nn)
						}
					}
				}
				fmt.Println("IND", l.name, "\n got", st.norm(t).str(14), "\n want", st.norm(want).str(14))
				for _, c := range st.pc {
					fmt.Println("   pc", st.f.decide(st.f.norm(c.c)), st.f.norm(c.c).str(5))
				}
			}
			s.fail("closed form of %s is not inductive: got %s want %s", l.name, st.norm(t).str(7), st.norm(want).str(7))
		}
	}
	for _, c := range s.inv {
		m := map[*Term]*Term{}
		for l, t := range nm {
			m[l.sym] = t
		}
		if !st.proveCases(substT(c, m), 4) {
			s.fail("invariant %s is not inductive", c)
		}
	}
}

func hasFoldOf(t *Term, s *summary) bool {
	for _, l := range s.leaves {
		if l.fold && containsTerm(t, l.closed) {
			return true
		}
	}
	return false
}

func (s *summary) viaFold(l *leaf) *Term {
	m := map[*Term]*Term{}
	ph := map[*Term]*Term{}
	i := 0
	for _, o := range s.leaves {
		if o.fold {
			p := mkSym("vf#"+itoa(i), o.sym.sort, nil, nil, nil)
			i++
			m[o.closed] = p
			ph[p] = s.subst(o.merged)
		}
	}
	t := substT(l.closed, m)
	t = substT(t, map[*Term]*Term{s.k: addc(s.k, 1)})
	return substT(t, ph)
}

// count: number of iterations from the continue condition at iteration k.
func (s *summary) count(q *Path, c *Term) *Term {
	k := s.k
	f := s.p0.st.f
	c = q.st.norm(c)
	lin := func(t *Term) (a *big.Int, r *Term, ok bool) {
		a = new(big.Int)
		l := linOf(t)
		var ms []Mono
		for _, m := range l.m {
			if m.a == k {
				a = m.c
			} else if containsTerm(m.a, k) {
				return nil, nil, false
			} else {
				ms = append(ms, m)
			}
		}
		return a, mkLin(Lin{l.c, ms}), true
	}
	switch c.op {
	case OLe:
		a, r, ok := lin(c.args[0])
		if ok && a.Sign() > 0 {
			n := addc(mkDiv(neg(r), a), 1)
			if f.prove(mkLeq(t0, n)) {
				return n
			}
			return mkIte(mkLeq(t0, n), n, t0)
		}
	case ONot:
		if c.args[0].op == OEq {
			a, r, ok := lin(c.args[0].args[0])
			if ok && a.CmpAbs(b1) == 0 {
				n := r
				if a.Sign() > 0 {
					n = neg(r)
				}
				if f.prove(mkLeq(t0, n)) {
					return n
				}
			}
		}
	}
	return s.countParts(c)
}

// countParts: the number of parts of a repeated layout.
func (s *summary) countParts(c *Term) *Term {
	k := s.k
	f := s.p0.st.f
	seen := map[*Term]bool{}
	for _, l := range s.live() {
		if l.guess == nil {
			continue
		}
		for _, d := range s.datas() {
			for _, p := range seqParts(d) {
				if p.op != ORep || seen[p.args[1]] || p.args[0] != t0 {
					continue
				}
				n := p.args[1]
				seen[n] = true
				g := f.clone()
				if !g.prove(mkNot(substT(c, map[*Term]*Term{k: n}))) {
					if debugLoops {
						fmt.Printf("   count candidate %s: guard not false\n", n.str(4))
					}
					continue
				}
				g.assume(mkLeq(t0, k))
				g.assume(mkLt(k, n))
				if !g.prove(c) {
					if debugLoops {
						fmt.Printf("   count candidate %s: guard not true: %s\n", n.str(4), c.str(6))
					}
					continue
				}
				return n
			}
		}
	}
	return nil
}
