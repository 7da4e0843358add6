// The abstract interpreter over the SSA form of the checked packages.
package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Path struct {
	st     *State
	regs   map[ssa.Value]*Term
	nSplit int // splits since an instruction last completed
}

func (p *Path) clone() *Path {
	r := make(map[ssa.Value]*Term, len(p.regs)+4)
	for k, v := range p.regs {
		r[k] = v
	}
	return &Path{p.st.clone(), r, p.nSplit}
}

type Frame struct {
	fn    *ssa.Function
	bind  []*Term
	depth int
	up    *Frame
	call  ssa.Instruction
}

type exitKind int

const (
	xReturn exitKind = iota
	xLatch
	xExit
)

type Exit struct {
	kind exitKind
	p    *Path
	to   *ssa.BasicBlock
	from *ssa.BasicBlock
	vals *Term // return value (tuple when several)
}

type Report struct {
	kind, fn, pos, msg string
	pc                 []string
}

type Eng struct {
	prog          *ssa.Program
	prop          string
	harness       string
	firstReport   time.Time
	tentative     int           // depth of attempts whose reports may be taken back
	stopAfter     time.Duration // how long to go on after the first report; 0 is for ever
	lazy          map[string]func(o *Term) *Term
	havocN        int
	initPhase     bool
	quiet         int
	stepsLeft     int
	curFn         *Frame
	curInstr      ssa.Instruction
	reports       []Report
	repSeen       map[string]bool
	obl           map[string]int // obligations by kind
	oblSites      map[string]bool
	fnsSeen       map[string]bool
	asserts       map[string]int // reached assertions
	loops         map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	siteID        map[ssa.Instruction]int
	loopsSum      map[string]string
	isRepo        func(*types.Package) bool
	fset          *token.FileSet
	trace         bool
	lastPC        *State
	globals       map[*ssa.Global]*Term
	capState      *State
	allocLimit    *Term
	loopID        int
	contracts     bool
	paths         int
	sums          []*summary // the loops being summarised
	strict        []strictReq
	bounded       map[string]string
	boundK        int
	contractsUsed map[string]bool
	repForce      bool
}

func newEng(prog *ssa.Program) *Eng {
	return &Eng{prog: prog, lazy: map[string]func(*Term) *Term{}, repSeen: map[string]bool{}, obl: map[string]int{}, oblSites: map[string]bool{}, fnsSeen: map[string]bool{}, asserts: map[string]int{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, siteID: map[ssa.Instruction]int{}, loopsSum: map[string]string{}, fset: prog.Fset, stepsLeft: 3000000, globals: map[*ssa.Global]*Term{}, trace: os.Getenv("ATRACE") != "", contracts: true, bounded: map[string]string{}, boundK: 3}
}

func (e *Eng) where() string {
	if e.curInstr != nil {
		return e.posOf(e.curInstr)
	}
	return "?"
}

func (e *Eng) posOf(in ssa.Instruction) string {
	fr := e.curFn
	p := in.Pos()
	f := in.Parent()
	for !p.IsValid() && fr != nil {
		// use some position of the block
		for _, i := range in.Block().Instrs {
			if i.Pos().IsValid() {
				p = i.Pos()
			}
		}
		if !p.IsValid() {
			p = f.Pos()
		}
		break
	}
	ps := e.fset.Position(p)
	name := ps.Filename
	if i := strings.Index(name, "/repo/"); i >= 0 {
		name = name[i+6:]
	}
	return fmt.Sprintf("%s:%d (%s)", name, ps.Line, f.String())
}

// stack gives the nearest repository frame for reporting.
func (e *Eng) repoSite() (fn, pos string) {
	fr := e.curFn
	in := e.curInstr
	for fr != nil {
		if e.isRepo != nil && fr.fn.Pkg != nil && e.isRepo(fr.fn.Pkg.Pkg) && in != nil {
			return fr.fn.String(), e.posOf(in)
		}
		in = fr.call
		fr = fr.up
	}
	return "", e.where()
}

func (e *Eng) violate(s *State, kind, msg string) {
	if e.quiet > 0 {
		return
	}
	fn, pos := e.repoSite()
	h := e.where()
	key := kind + "|" + pos + "|" + h
	if e.repSeen[key] && !e.repForce {
		return
	}
	e.repSeen[key] = true
	r := Report{kind: kind, fn: fn, pos: pos, msg: msg}
	if h != pos {
		r.msg += " [at " + h + "]"
	}
	if s != nil {
		for i := len(s.pc) - 1; i >= 0 && len(r.pc) < 14; i-- {
			if s.pc[i].hard {
				r.pc = append(r.pc, s.pc[i].c.str(6))
			}
		}
	}
	e.reports = append(e.reports, r)
	if e.firstReport.IsZero() {
		e.firstReport = time.Now()
	}
	if e.trace {
		fmt.Println("REPORT", kind, fn, pos, r.msg)
		for _, c := range r.pc {
			fmt.Println("      pc", c)
		}
		if os.Getenv("AFACTS") != "" {
			for _, c := range s.f.le {
				fmt.Println("      le", c.str(7))
			}
			for _, c := range s.f.eq {
				fmt.Println("      eq", c.str(7))
			}
		}
	}
}

// stopped: a violation was found a while ago, and more of them add nothing.
type stopped struct{}

type undecidedErr struct{ msg string }

func (e *Eng) undecided(f string, a ...interface{}) {
	panic(undecidedErr{fmt.Sprintf(f, a...)})
}

// oblige: c must hold here.
func (e *Eng) oblige(s *State, c *Term, kind, msg string) {
	if e.quiet == 0 {
		e.obl[kind]++
		if e.curInstr != nil {
			e.oblSites[kind+"@"+e.where()] = true
		}
	}
	if s.f.prove(c) {
		return
	}
	if e.quiet == 0 {
		// a condition on structure may need a split first
		n := s.f.norm(c)
		if s.saturate() {
			panic(pathEnd{})
		}
		if s.f.prove(c) {
			return
		}
		if alts := s.f.splitCond(n); alts != nil && len(s.pc) < 400 && e.splitWorth(s, alts) {
			need(kind, alts...)
		}
		if s.proveCases(c, 5) {
			return
		}
		e.violate(s, kind, msg+" not established: "+n.str(7))
	}
	if !s.fact(c) {
		panic(pathEnd{})
	}
}

func (e *Eng) splitWorth(s *State, alts []*Term) bool {
	for _, a := range alts {
		if s.f.decide(a) != 3 {
			return false
		}
	}
	return true
}

// ---------- running functions

// call runs fn on args from st; returns all outcomes.
func (e *Eng) call(up *Frame, in ssa.Instruction, st *State, fn *ssa.Function, args, bind []*Term) []Exit {
	if len(fn.Blocks) == 0 {
		e.undecided("no body for %s", fn)
	}
	fr := &Frame{fn: fn, bind: bind, up: up, call: in}
	if up != nil {
		fr.depth = up.depth + 1
	}
	if fr.depth > 120 {
		e.undecided("call depth limit in %s", fn)
	}
	rec := 0
	for f := up; f != nil; f = f.up {
		if f.fn == fn {
			rec++
		}
	}
	if rec > 40 {
		e.undecided("recursion of %s", fn)
	}
	if e.quiet == 0 {
		e.fnsSeen[fn.String()] = true
	}
	regs := map[ssa.Value]*Term{}
	for i, p := range fn.Params {
		regs[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		regs[f] = bind[i]
	}
	var out []Exit
	for _, x := range e.runEdge(fr, &Path{st: st, regs: regs}, fn.Blocks[0], nil, nil) {
		if x.kind != xReturn {
			e.undecided("bad exit from %s", fn)
		}
		out = append(out, x)
	}
	return out
}

// runEdge continues along prev->b in the context of loop body ctx.
func (e *Eng) runEdge(fr *Frame, p *Path, b, prev *ssa.BasicBlock, ctx *Loop) []Exit {
	if ctx != nil && prev != nil {
		if b == ctx.head {
			return []Exit{{kind: xLatch, p: p, to: b, from: prev}}
		}
		if !ctx.in[b] {
			return []Exit{{kind: xExit, p: p, to: b, from: prev}}
		}
	}
	if l := e.loopAt(fr.fn, b); l != nil && (prev == nil || !l.in[prev]) {
		var out []Exit
		for _, x := range e.runLoop(fr, p, l, prev) {
			if x.kind == xExit {
				out = append(out, e.runEdge(fr, x.p, x.to, x.from, ctx)...)
			} else {
				out = append(out, x)
			}
		}
		return out
	}
	return e.runBlock(fr, p, b, prev, ctx)
}

// runBlock executes block b (its phis fed from prev).
func (e *Eng) runBlock(fr *Frame, p *Path, b, prev *ssa.BasicBlock, ctx *Loop) []Exit {
	// phis in parallel
	if prev != nil {
		e.doPhis(p, b, prev)
	}
	return e.runFrom(fr, p, b, firstNonPhi(b), ctx)
}

func firstNonPhi(b *ssa.BasicBlock) int {
	i := 0
	for i < len(b.Instrs) {
		if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
			break
		}
		i++
	}
	return i
}

var debugSplit = os.Getenv("ASPLIT") != ""

func (e *Eng) doPhis(p *Path, b, prev *ssa.BasicBlock) {
	pi := -1
	for i, q := range b.Preds {
		if q == prev {
			pi = i
		}
	}
	var phis []*ssa.Phi
	var vals []*Term
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, e.val(p, ph.Edges[pi]))
	}
	for i, ph := range phis {
		p.regs[ph] = vals[i]
	}
}

// attempt runs f, converting control panics.
func (e *Eng) attempt(f func()) (split []*Term, ended bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case splitReq:
				split = x.alts
				if debugSplit {
					fmt.Println("SPLIT", e.where(), x.why, x.alts)
				}
			case pathEnd:
				ended = true
			default:
				panic(r)
			}
		}
	}()
	f()
	return nil, false
}

func (e *Eng) runFrom(fr *Frame, p *Path, b *ssa.BasicBlock, i int, ctx *Loop) []Exit {
	for k := i; i < len(b.Instrs); i++ {
		if i > k {
			p.nSplit = 0
		}
		e.stepsLeft--
		if e.stepsLeft < 0 {
			e.undecided("analysis budget exhausted in %s", fr.fn)
		}
		if e.stopAfter > 0 && e.tentative == 0 && len(e.reports) > 0 && time.Since(e.firstReport) > e.stopAfter {
			panic(stopped{})
		}
		in := b.Instrs[i]
		e.curFn, e.curInstr = fr, in
		switch x := in.(type) {
		case *ssa.If:
			c := e.val(p, x.Cond)
			d := p.st.f.decide(c)
			if d == 3 {
				c = p.st.f.norm(c)
				d = p.st.f.decide(c)
				if d == 3 {
					if p.st.f.prove(c) {
						d = 1
					} else if p.st.f.prove(mkNot(c)) {
						d = 2
					}
				}
			}
			if ctx != nil && b == ctx.head {
				e.headHook(fr, ctx, x, c, d)
			}
			var out []Exit
			if d == 3 && debugSplit {
				fmt.Println("IF", e.where(), c.str(7))
			}
			if d != 2 {
				q := p
				if d == 3 {
					q = p.clone()
					if !q.st.assume(c) {
						q = nil
					}
				}
				if q != nil {
					out = append(out, e.runEdge(fr, q, b.Succs[0], b, ctx)...)
				}
			}
			if d != 1 {
				q := p
				if d == 3 {
					q = p.clone()
					if !q.st.assume(mkNot(c)) {
						q = nil
					}
				}
				if q != nil {
					out = append(out, e.runEdge(fr, q, b.Succs[1], b, ctx)...)
				}
			}
			return out
		case *ssa.Jump:
			return e.runEdge(fr, p, b.Succs[0], b, ctx)
		case *ssa.Return:
			var v *Term
			if len(x.Results) == 1 {
				v = e.val(p, x.Results[0])
			} else {
				var vs []*Term
				for _, r := range x.Results {
					vs = append(vs, e.val(p, r))
				}
				v = mkTuple(vs...)
			}
			e.paths++
			e.raise(fr, p.st, v)
			return []Exit{{kind: xReturn, p: p, vals: v}}
		case *ssa.Panic:
			e.violate(p.st, "panic", "panic is reachable")
			return nil
		case *ssa.Call:
			snap := p.clone()
			var outs []Exit
			split, ended := e.attempt(func() { outs = e.doCall(fr, p, x) })
			if split != nil {
				return e.forkAll(fr, snap, split, b, i, ctx)
			}
			if ended {
				return nil
			}
			if len(outs) == 1 {
				p.st = outs[0].p.st
				p.regs[x] = outs[0].vals
				continue
			}
			var all []Exit
			for k, o := range outs {
				q := p
				if k < len(outs)-1 {
					q = p.clone()
				}
				q.st = o.p.st
				q.regs[x] = o.vals
				all = append(all, e.runFrom(fr, q, b, i+1, ctx)...)
			}
			return all
		default:
			var v *Term
			split, ended := e.attempt(func() { v = e.instr(fr, p, in) })
			if split != nil {
				return e.forkAll(fr, p, split, b, i, ctx)
			}
			if ended {
				return nil
			}
			if val, ok := in.(ssa.Value); ok && v != nil {
				p.regs[val] = v
			}
		}
	}
	return nil
}

func (e *Eng) forkAll(fr *Frame, p *Path, alts []*Term, b *ssa.BasicBlock, i int, ctx *Loop) []Exit {
	var out []Exit
	if p.nSplit > 24 {
		e.undecided("partitioning makes no progress (%s)", alts[0].str(5))
	}
	for _, a := range alts {
		q := p.clone()
		if !q.st.assume(a) {
			continue
		}
		q.nSplit++
		out = append(out, e.runFrom(fr, q, b, i, ctx)...)
	}
	return out
}

// ---------- values

func (e *Eng) val(p *Path, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constant(x)
	case *ssa.Global:
		return mkPtr(e.globalObj(x))
	case *ssa.Function:
		return mkRaw(Term{op: OFunc, sort: SVal, x: x})
	case *ssa.Builtin:
		return mkRaw(Term{op: OFunc, sort: SVal, x: x})
	}
	if t, ok := p.regs[v]; ok {
		return t
	}
	e.undecided("no value for %s in %s", v.Name(), v.Parent())
	return nil
}

func (e *Eng) globalObj(g *ssa.Global) *Term {
	o := e.obj("g:" + g.String())
	if _, ok := e.lazy[o.s]; !ok {
		name := g.String()
		ty := g.Type().(*types.Pointer).Elem()
		repo := g.Pkg != nil && (e.isRepo(g.Pkg.Pkg) || g.Pkg.Pkg.Path() == specPkg)
		e.lazy[o.s] = func(o *Term) *Term {
			if repo {
				return e.zero(ty)
			}
			return e.opaque("global:"+name, ty)
		}
	}
	return o
}

// opaque gives a deterministic unknown value of a type.
func (e *Eng) opaque(name string, ty types.Type, args ...*Term) *Term {
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return mkRaw(Term{op: OUf, sort: SSeq, s: name, args: args, ln: mkUfInt(name+".len", b0, maxLen, args...)})
		case u.Info()&types.IsBoolean != 0:
			return mkUf(name, SBool, args...)
		case u.Info()&types.IsInteger != 0:
			bits, sg, _ := intInfo(ty)
			lo, hi := intBounds(bits, sg)
			return mkUfInt(name, lo, hi, args...)
		}
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = e.opaque(fmt.Sprintf("%s.%d", name, i), u.Field(i).Type(), args...)
		}
		return mkStruct(ty, fs...)
	case *types.Array:
		es := elemSpecOf(u.Elem())
		if es.sort == SInt {
			elemSpecs[name] = es
			return mkRaw(Term{op: OUf, sort: SSeq, s: name, args: args, ln: mkInt(u.Len())})
		}
	case *types.Tuple:
		fs := make([]*Term, u.Len())
		for i := range fs {
			fs[i] = e.opaque(fmt.Sprintf("%s.%d", name, i), u.At(i).Type(), args...)
		}
		return mkTuple(fs...)
	}
	return mkUf(name, SVal, args...)
}

func elemSpecOf(t types.Type) elemSpec {
	if bits, sg, ok := intInfo(t); ok {
		lo, hi := intBounds(bits, sg)
		return elemSpec{SInt, lo, hi, nil}
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsString != 0 {
			return elemSpec{sort: SSeq}
		}
		if b.Info()&types.IsBoolean != 0 {
			return elemSpec{sort: SBool}
		}
	}
	return elemSpec{sort: SVal}
}

func (e *Eng) constant(c *ssa.Const) *Term {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return mkLit(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return mkRaw(Term{op: OUf, sort: SVal, s: "float:" + c.Value.ExactString()})
		}
		n, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return mkBig(n)
	case constant.Float:
		return mkRaw(Term{op: OUf, sort: SVal, s: "float:" + c.Value.ExactString()})
	}
	return mkUf("const:"+c.Value.ExactString(), SVal)
}

func (e *Eng) site(in ssa.Instruction) string {
	id, ok := e.siteID[in]
	if !ok {
		id = len(e.siteID) + 1
		e.siteID[in] = id
	}
	return "a" + itoa(id)
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

// ---------- instructions

func (e *Eng) instr(fr *Frame, p *Path, in ssa.Instruction) *Term {
	st := p.st
	switch x := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		o := st.alloc(e.site(in), e.zero(x.Type().(*types.Pointer).Elem()))
		return mkPtr(o)
	case *ssa.BinOp:
		return e.binop(st, x.Op, e.val(p, x.X), e.val(p, x.Y), x.X.Type(), x.Y.Type(), x.Type())
	case *ssa.UnOp:
		v := e.val(p, x.X)
		switch x.Op {
		case token.MUL:
			return st.load(v)
		case token.NOT:
			return mkNot(v)
		case token.SUB:
			if isFloat(x.Type()) {
				return mkUf("fneg", SVal, v)
			}
			return st.wrap(neg(v), x.Type())
		case token.XOR:
			bits, sg, _ := intInfo(x.Type())
			if sg {
				return addc(neg(v), -1)
			}
			_, hi := intBounds(bits, false)
			return lincomb(hi, []*big.Int{bm1}, []*Term{v})
		}
		e.undecided("unary operator %s", x.Op)
	case *ssa.ChangeType:
		return e.val(p, x.X)
	case *ssa.ChangeInterface:
		return e.val(p, x.X)
	case *ssa.MakeInterface:
		return mkRaw(Term{op: OIface, sort: SVal, x: x.X.Type(), args: []*Term{e.val(p, x.X)}})
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.val(p, b))
		}
		return mkRaw(Term{op: OFunc, sort: SVal, x: x.Fn.(*ssa.Function), args: bs})
	case *ssa.Convert:
		return e.convert(st, in, e.val(p, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		return e.convert(st, in, e.val(p, x.X), x.X.Type(), x.Type())
	case *ssa.Extract:
		t := st.resolveIte(e.val(p, x.Tuple))
		if t.op != OTuple {
			e.undecided("extract from %s", t)
		}
		return t.args[x.Index]
	case *ssa.Field:
		return st.get(e.val(p, x.X), []*Term{selF(x.Field)})
	case *ssa.FieldAddr:
		q := st.checkPtr(e.val(p, x.X), "field access")
		return ptrSel(q, selF(x.Field))
	case *ssa.IndexAddr:
		i := e.val(p, x.Index)
		b := e.val(p, x.X)
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			q := st.checkPtr(b, "index")
			n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			e.oblige(st, mkAnd(mkLeq(t0, i), mkLt(i, mkInt(n))), "index", "index within the array")
			return ptrSel(q, selI(i))
		}
		b = st.resolveIte(b)
		if b.op != OSlice {
			e.undecided("index of opaque slice %s", b)
		}
		e.oblige(st, mkAnd(mkLeq(t0, i), mkLt(i, b.args[2])), "index", "index within the slice")
		q := st.resolveIte(b.args[0])
		if q.op != OPtr {
			e.violate(st, "index", "index of a nil slice")
			panic(pathEnd{})
		}
		return ptrSel(q, selI(add(b.args[1], i)))
	case *ssa.Index:
		i := e.val(p, x.Index)
		b := e.val(p, x.X)
		e.oblige(st, mkAnd(mkLeq(t0, i), mkLt(i, seqLen(b))), "index", "index within the value")
		return st.elem(b, i)
	case *ssa.Lookup:
		b := e.val(p, x.X)
		i := e.val(p, x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			return e.mapLookup(st, b, i, x)
		}
		e.oblige(st, mkAnd(mkLeq(t0, i), mkLt(i, seqLen(b))), "index", "index within the string")
		return st.elem(b, i)
	case *ssa.Slice:
		return e.slice(st, p, x)
	case *ssa.Store:
		st.storeAt(e.val(p, x.Addr), e.val(p, x.Val))
		return nil
	case *ssa.MakeSlice:
		n, c := e.val(p, x.Len), e.val(p, x.Cap)
		e.oblige(st, mkAnd(mkLeq(t0, n), mkLeq(n, c)), "makeslice", "0 <= len <= cap")
		e.allocBound(st, c, x)
		el := x.Type().Underlying().(*types.Slice).Elem()
		o := st.alloc(e.site(in), zeroSeq(e.zero(el), st.f.norm(c)))
		return mkSlice(mkPtr(o), t0, n, c)
	case *ssa.MakeMap:
		o := st.alloc(e.site(in), mkRaw(Term{op: OMap, sort: SVal}))
		return mkPtr(o)
	case *ssa.MapUpdate:
		m := st.checkPtr(e.val(p, x.Map), "map update")
		c := st.content(m.args[0])
		if c.op != OMap {
			e.undecided("update of opaque map")
		}
		st.writable(m.args[0], "map update of")
		k, v := e.val(p, x.Key), e.val(p, x.Value)
		args := append([]*Term{}, c.args...)
		found := false
		for i := 0; i < len(args); i += 2 {
			if args[i] == k {
				args[i+1] = v
				found = true
			} else if mkEqT(args[i], k) != tFalse {
				e.undecided("map update with an unknown key")
			}
		}
		if !found {
			args = append(args, k, v)
		}
		st.setContent(m.args[0], mkRaw(Term{op: OMap, sort: SVal, args: args}))
		return nil
	case *ssa.TypeAssert:
		return e.typeAssert(st, e.val(p, x.X), x)
	case *ssa.SliceToArrayPointer:
		b := st.resolveIte(e.val(p, x.X))
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		e.oblige(st, mkLeq(mkInt(n), b.args[2]), "slice", "slice long enough for the array")
		e.undecided("slice to array pointer conversion")
	case *ssa.RunDefers:
		return nil
	case *ssa.Range, *ssa.Next:
		e.undecided("map or string iteration")
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		e.undecided("concurrency construct %s", in)
	case *ssa.Defer:
		e.undecided("defer")
	}
	e.undecided("instruction %T", in)
	return nil
}

// allocBound: an allocation must be bounded by memory already held (C02).
func (e *Eng) allocBound(st *State, n *Term, x ssa.Instruction) {
	if e.allocLimit == nil || e.quiet > 0 {
		return
	}
	if n.isConst() && n.k.BitLen() <= 20 {
		return
	}
	b := e.allocLimit
	if b == nil {
		return
	}
	e.oblige(st, mkLeq(n, b), "alloc", "allocation bounded by the size of the input")
}

func (e *Eng) slice(st *State, p *Path, x *ssa.Slice) *Term {
	b := e.val(p, x.X)
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return e.val(p, v)
	}
	if b.sort == SSeq { // string
		n := seqLen(b)
		lo, hi := get(x.Low, t0), get(x.High, n)
		e.oblige(st, mkAnd(mkLeq(t0, lo), mkLeq(lo, hi), mkLeq(hi, n)), "slice", "slice bounds within the string")
		return st.sub(b, lo, hi)
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		q := st.checkPtr(b, "slice")
		n := mkInt(pt.Elem().Underlying().(*types.Array).Len())
		lo, hi := get(x.Low, t0), get(x.High, n)
		mx := get(x.Max, n)
		e.oblige(st, mkAnd(mkLeq(t0, lo), mkLeq(lo, hi), mkLeq(hi, mx), mkLeq(mx, n)), "slice", "slice bounds within the array")
		return mkSlice(q, lo, sub(hi, lo), sub(mx, lo))
	}
	b = st.resolveIte(b)
	if b.op != OSlice {
		e.undecided("slice of opaque value %s", b)
	}
	// every slice has len <= cap
	if c := mkLeq(b.args[2], b.args[3]); !st.f.prove(c) {
		if !st.fact(c) {
			panic(pathEnd{})
		}
	}
	lo, hi := get(x.Low, t0), get(x.High, b.args[2])
	mx := get(x.Max, b.args[3])
	cs := []*Term{mkLeq(t0, lo), mkLeq(lo, hi)}
	if x.High != nil {
		cs = append(cs, mkLeq(hi, mx))
	}
	if x.Max != nil {
		cs = append(cs, mkLeq(mx, b.args[3]))
	}
	e.oblige(st, mkAnd(cs...), "slice", "slice bounds within the capacity")
	if b.args[0] == tNil {
		return nilSlice
	}
	return mkSlice(b.args[0], add(b.args[1], lo), sub(hi, lo), sub(mx, lo))
}

func (e *Eng) typeAssert(st *State, v *Term, x *ssa.TypeAssert) *Term {
	v = st.resolveIte(v)
	ok := false
	var r *Term
	switch {
	case v == tNil:
	case v.op == OIface:
		dt := v.x.(types.Type)
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.Implements(dt, it)
			r = v
		} else {
			ok = types.Identical(dt, x.AssertedType)
			r = v.args[0]
		}
	default:
		e.undecided("type assertion on opaque interface %s", v)
	}
	if !ok {
		if !x.CommaOk {
			e.violate(st, "panic", "type assertion may fail")
			panic(pathEnd{})
		}
		r = e.zero(x.AssertedType)
	}
	if x.CommaOk {
		return mkTuple(r, mkBool(ok))
	}
	return r
}

func (e *Eng) mapLookup(st *State, m, k *Term, x *ssa.Lookup) *Term {
	m = st.resolveIte(m)
	ty := x.X.Type().Underlying().(*types.Map)
	ret := func(v, ok *Term) *Term {
		if x.CommaOk {
			return mkTuple(v, ok)
		}
		return v
	}
	if m == tNil {
		return ret(e.zero(ty.Elem()), tFalse)
	}
	m = st.checkPtr(m, "map lookup")
	c := st.content(m.args[0])
	if c.op != OMap {
		e.undecided("lookup in opaque map")
	}
	kn := st.norm(k)
	var maybe []int
	for i := 0; i < len(c.args); i += 2 {
		q := mkEqT(c.args[i], kn)
		if q == tTrue {
			return ret(c.args[i+1], tTrue)
		}
		if q == tFalse {
			continue
		}
		maybe = append(maybe, i)
	}
	if len(maybe) == 0 {
		return ret(e.zero(ty.Elem()), tFalse)
	}
	id := e.mapID(c)
	if len(c.args) > 16 {
		// a constant table: a total function of the key
		return e.tableLookup(st, id, c, kn, ty, ret)
	}
	v, ok := e.zero(ty.Elem()), tFalse
	for j := len(maybe) - 1; j >= 0; j-- {
		i := maybe[j]
		q := mkEqT(c.args[i], kn)
		v = mkIte(q, c.args[i+1], v)
		ok = mkOr(q, ok)
	}
	return ret(v, ok)
}

var mapIDs = map[*Term]string{}

func (e *Eng) mapID(c *Term) string {
	if s, ok := mapIDs[c]; ok {
		return s
	}
	s := "tbl" + itoa(len(mapIDs))
	mapIDs[c] = s
	mapByID[s] = c
	return s
}

var mapByID = map[string]*Term{}

// ---------- arithmetic

func bitsOf(t *Term) (trail uint, top int) {
	// t is a non negative multiple of 2^trail and < 2^top (top<0 unknown)
	_, hi := rangeOf(t)
	top = -1
	if hi != nil {
		top = hi.BitLen()
	}
	if t.isConst() {
		if t.k.Sign() == 0 {
			return 64, 0
		}
		return uint(t.k.TrailingZeroBits()), top
	}
	l := linOf(t)
	tr := uint(1 << 20)
	if l.c.Sign() != 0 {
		tr = uint(l.c.TrailingZeroBits())
	}
	for _, m := range l.m {
		z := uint(m.c.TrailingZeroBits())
		if z < tr {
			tr = z
		}
	}
	if len(l.m) == 1 && l.m[0].a.op == OPow2 {
	}
	return tr, top
}

func andMask(x *Term, m *big.Int) *Term {
	r := t0
	n := m.BitLen()
	for i := 0; i < n; {
		if m.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && m.Bit(j) == 1 {
			j++
		}
		d := mkMod(mkDiv(x, pow2(uint(i))), pow2(uint(j-i)))
		r = add(r, mulc(d, pow2(uint(i))))
		i = j
	}
	return r
}

func (e *Eng) nonneg(st *State, t *Term) bool {
	lo, _ := rangeOf(t)
	if lo != nil && lo.Sign() >= 0 {
		return true
	}
	return st.f.entails(neg(t))
}

func (e *Eng) binop(st *State, op token.Token, a, b *Term, ta, tb, tr types.Type) *Term {
	switch op {
	case token.EQL:
		return e.eq(st, a, b, ta)
	case token.NEQ:
		return mkNot(e.eq(st, a, b, ta))
	}
	if isFloat(ta) {
		return e.floatOp(op, a, b, tr)
	}
	if a.sort == SSeq {
		switch op {
		case token.ADD:
			return mkCat(a, b)
		case token.LSS:
			return strLess(a, b)
		case token.GTR:
			return strLess(b, a)
		case token.LEQ:
			return mkNot(strLess(b, a))
		case token.GEQ:
			return mkNot(strLess(a, b))
		}
	}
	switch op {
	case token.LSS:
		return mkLt(a, b)
	case token.LEQ:
		return mkLeq(a, b)
	case token.GTR:
		return mkLt(b, a)
	case token.GEQ:
		return mkLeq(b, a)
	case token.ADD:
		return st.wrap(add(a, b), tr)
	case token.SUB:
		return st.wrap(sub(a, b), tr)
	case token.MUL:
		return st.wrap(mkMul(a, b), tr)
	case token.QUO, token.REM:
		b = st.norm(b)
		if !b.isConst() {
			e.oblige(st, mkNot(mkEq0(b)), "division", "divisor is not zero")
			if op == token.QUO {
				return mkUfInt("quo", nil, nil, a, b)
			}
			return mkUfInt("rem", nil, nil, a, b)
		}
		if b.k.Sign() == 0 {
			e.violate(st, "division", "division by zero")
			panic(pathEnd{})
		}
		k := b.k
		sgn := k.Sign() < 0
		if sgn {
			k = new(big.Int).Neg(k)
		}
		var q, r *Term
		if !e.nonneg(st, a) {
			if st.truth(mkLeq(t0, a)) {
				q, r = mkDiv(a, k), mkMod(a, k)
			} else {
				q, r = neg(mkDiv(neg(a), k)), neg(mkMod(neg(a), k))
			}
		} else {
			q, r = mkDiv(a, k), mkMod(a, k)
		}
		if op == token.REM {
			return r
		}
		if sgn {
			q = neg(q)
		}
		return st.wrap(q, tr)
	case token.AND:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k.Sign() >= 0 {
				return andMask(a, b.k)
			}
			m := new(big.Int).Sub(new(big.Int).Neg(b.k), b1) // ^b
			return sub(a, andMask(a, m))
		}
		if a == b {
			return a
		}
		return e.bitUf(st, "and", a, b, tr)
	case token.AND_NOT:
		if b.isConst() && b.k.Sign() >= 0 {
			return sub(a, andMask(a, b.k))
		}
		return e.bitUf(st, "andnot", a, b, tr)
	case token.OR:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.k.Sign() >= 0 {
			return sub(add(a, b), andMask(a, b.k))
		}
		if a == b {
			return a
		}
		for i := 0; i < 2; i++ {
			tz, _ := bitsOf(a)
			_, tp := bitsOf(b)
			if tp >= 0 && uint(tp) <= tz && e.nonneg(st, a) && e.nonneg(st, b) {
				return add(a, b)
			}
			a, b = b, a
		}
		return e.bitUf(st, "or", a, b, tr)
	case token.XOR:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.k.Sign() >= 0 {
			return sub(add(a, b), mulc(andMask(a, b.k), bigI(2)))
		}
		if a == b {
			return t0
		}
		return e.bitUf(st, "xor", a, b, tr)
	case token.SHL:
		b = st.norm(b)
		if _, sg, _ := intInfo(tb); sg {
			e.oblige(st, mkLeq(t0, b), "shift", "shift count is not negative")
		}
		if c, ok := b.constInt(); ok && c < 4096 {
			return st.wrap(mulc(a, pow2(uint(c))), tr)
		}
		if c, ok := fewValues(st, b); ok {
			return st.wrap(mulc(a, pow2(uint(c))), tr)
		}
		return st.wrap(mkMul(a, mkPow2(b)), tr)
	case token.SHR:
		b = st.norm(b)
		if _, sg, _ := intInfo(tb); sg {
			e.oblige(st, mkLeq(t0, b), "shift", "shift count is not negative")
		}
		if c, ok := fewValues(st, b); ok {
			return mkDiv(a, pow2(uint(c)))
		}
		return mkShr(a, b)
	}
	e.undecided("operator %s", op)
	return nil
}

// fewValues splits the path on the value of a shift count that can only have
// a handful of them.
func fewValues(st *State, b *Term) (int64, bool) {
	lo, hi := st.f.rangeIn(b)
	if lo == nil || hi == nil || lo.Sign() < 0 || hi.Cmp(bigI(4096)) >= 0 {
		return 0, false
	}
	g := new(big.Int)
	l := linOf(b)
	for _, m := range l.m {
		g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
	}
	if g.Sign() == 0 || !g.IsInt64() {
		return 0, false
	}
	step := g.Int64()
	first := lo.Int64() + ((l.c.Int64()-lo.Int64())%step+step)%step
	if !l.c.IsInt64() || (hi.Int64()-first)/step >= 8 {
		return 0, false
	}
	for v := first; v+step <= hi.Int64(); v += step {
		if st.truth(mkEq0(sub(b, mkInt(v)))) {
			return v, true
		}
		first = v + step
	}
	if first > hi.Int64() {
		return 0, false
	}
	st.assume(mkEq0(sub(b, mkInt(first)))) // the only value left
	return first, true
}

func (e *Eng) bitUf(st *State, name string, a, b *Term, tr types.Type) *Term {
	bits, sg, _ := intInfo(tr)
	lo, hi := intBounds(bits, sg)
	return ufInt(name, lo, hi, a, b)
}

// seqCompare: bytes.Compare, strings.Compare.
func seqCompare(a, b *Term) *Term {
	return mkIte(mkEqT(a, b), t0, mkIte(strLess(a, b), mkInt(-1), t1))
}

func strLess(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.op == OLit && b.op == OLit {
		return mkBool(a.s < b.s)
	}
	return mkUf("seqless", SBool, a, b)
}

func (e *Eng) eq(st *State, a, b *Term, ty types.Type) *Term {
	if isFloat(ty) {
		return e.floatOp(token.EQL, a, b, nil)
	}
	// pointer to slices with unknown nilness
	if a.op == OSlice || b.op == OSlice {
		s := a
		if a.op != OSlice {
			s = b
		}
		p := s.args[0]
		return mkEqT(p, tNil)
	}
	return mkEqT(a, b)
}

func (e *Eng) floatOp(op token.Token, a, b *Term, tr types.Type) *Term {
	switch op {
	case token.EQL, token.LSS, token.GTR, token.LEQ, token.GEQ:
		return mkUf("f"+op.String(), SBool, a, b)
	}
	if (op == token.ADD || op == token.MUL) && a.id > b.id {
		a, b = b, a
	}
	return mkUf("f"+op.String(), SVal, a, b)
}

func (e *Eng) convert(st *State, in ssa.Instruction, v *Term, from, to types.Type) *Term {
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		if tb.Info()&types.IsString != 0 {
			if _, isS := fu.(*types.Slice); isS {
				el := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
				if el.Kind() != types.Byte {
					return mkUf("runes2str", SSeq, st.seq(v))
				}
				return st.seq(v)
			}
			if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsInteger != 0 {
				if c, ok := v.constInt(); ok && c >= 0 && c < 0x110000 {
					return mkLit(string(rune(c)))
				}
				if st.f.prove(mkAnd(mkLeq(t0, v), mkLeq(v, mkInt(127)))) {
					return mkUnit(v)
				}
				return mkRaw(Term{op: OUf, sort: SSeq, s: "rune2str", args: []*Term{v}})
			}
			return v
		}
		fb, fok := fu.(*types.Basic)
		if tb.Info()&types.IsInteger != 0 && fok {
			if fb.Info()&types.IsFloat != 0 {
				bits, sg, _ := intInfo(to)
				lo, hi := intBounds(bits, sg)
				return mkUfInt("f2i", lo, hi, v)
			}
			return st.wrap(v, to)
		}
		if tb.Info()&types.IsFloat != 0 {
			if fok && fb.Info()&types.IsInteger != 0 {
				return mkUf("i2f", SVal, v)
			}
			if tb.Kind() == types.Float32 {
				return mkUf("f32", SVal, v)
			}
			return v
		}
		return v
	}
	if _, ok := tu.(*types.Slice); ok {
		if v.sort == SSeq {
			el := tu.(*types.Slice).Elem().Underlying().(*types.Basic)
			if el.Kind() != types.Byte {
				e.undecided("conversion to []rune")
			}
			return st.newSlice(e.site(in), v, false)
		}
	}
	return v
}

// saturate re-reads the path condition under everything known by now; it
// reports whether the partition turns out to be empty.
func (s *State) saturate() bool {
	var pc []*Term
	for _, p := range s.pc {
		pc = append(pc, p.c)
	}
	g := s.f.saturate(pc)
	if g == nil {
		return true
	}
	s.f = g
	return false
}

// saturate: the facts with consequences of the conditions added; nil when they
// contradict each other.
func (f *Facts) saturate(pc []*Term) *Facts {
	g := f.clone()
	for i := 0; i < 3; i++ {
		ch := false
		for _, p := range pc {
			n := g.norm(p)
			switch g.decide(n) {
			case 2:
				return nil
			case 3:
				ch = true
				if !g.assume(n) || g.bad {
					return nil
				}
			}
		}
		for _, u := range g.univ {
			hi := g.norm(u.hi)
			if n, ok := hi.constInt(); ok && n <= 4 {
				for j := int64(0); j < n; j++ {
					c := g.norm(substT(u.body, map[*Term]*Term{u.k: mkInt(j)}))
					if g.decide(c) != 1 {
						ch = true
						if !g.assume(c) || g.bad {
							return nil
						}
					}
				}
				continue
			}
			for _, at := range append([]*Term{t0, addc(hi, -1)}, g.indices()...) {
				if g.decide(mkLeq(t0, at)) != 1 || g.decide(mkLt(at, hi)) != 1 {
					continue
				}
				c := g.norm(substT(u.body, map[*Term]*Term{u.k: at}))
				if g.decide(c) != 1 {
					ch = true
					if !g.assume(c) || g.bad {
						return nil
					}
				}
			}
		}
		// facts restated without the equations (which make themselves trivial)
		c0 := &normCtx{sub: map[*Term]*Term{}, memo: map[*Term]*Term{}}
		for k, v := range g.ctx().sub {
			if k.op == OSym {
				c0.sub[k] = v
			}
		}
		for _, t := range append([]*Term{}, g.eq...) {
			if linOf(t).isSym() {
				continue
			}
			if n := g.norm1(c0, c0.applySub(t)); n != t {
				c := mkIntEq(n, t0)
				if g.decide(c) != 1 {
					ch = true
					if !g.assume(c) || g.bad {
						return nil
					}
				}
			}
		}
		for _, t := range append([]*Term{}, g.le...) {
			if n := g.norm1(c0, c0.applySub(t)); n != t {
				c := mkLe(n)
				if g.decide(c) != 1 {
					ch = true
					if !g.assume(c) || g.bad {
						return nil
					}
				}
			}
		}
		if !ch {
			break
		}
	}
	return g
}

// proveCases: the state entails c, by cases if need be.
func (s *State) proveCases(c *Term, d int) bool {
	if s.f.prove(c) {
		return true
	}
	var pc []*Term
	for _, p := range s.pc {
		if p.hard {
			pc = append(pc, p.c)
		}
	}
	return s.f.cases(c, pc, d)
}

// contradictory: an inequality over sums that the other facts refute.
func (f *Facts) contradictory() bool {
	for _, t := range f.le {
		if t.has(OSum) && f.entails(addc(neg(t), 1)) {
			return true
		}
	}
	return false
}

func (f *Facts) proveCases(c *Term, d int) bool { return f.prove(c) || f.cases(c, nil, d) }

func (f *Facts) cases(c *Term, pc []*Term, d int) bool {
	g := f.saturate(pc)
	if g == nil || g.prove(c) || g.contradictory() {
		return true
	}
	if d == 0 {
		return false
	}
	alts := g.splitIn(g.norm(c))
	for i := len(pc) - 1; alts == nil && i >= 0; i-- {
		alts = g.splitIn(pc[i])
	}
	for i := len(g.eq) - 1; alts == nil && i >= 0; i-- {
		alts = g.splitIn(g.eq[i])
	}
	if alts == nil {
		alts = g.splitOr(g.norm(c))
	}
	for i := len(pc) - 1; alts == nil && i >= 0; i-- {
		alts = g.splitOr(pc[i])
	}
	if alts == nil {
		return false
	}
	for _, a := range alts {
		h := g.clone()
		if !h.assume(h.norm(a)) || h.bad {
			continue
		}
		if !h.cases(c, pc, d-1) {
			return false
		}
	}
	return true
}

// indices: integers at which elements and functions are taken in the facts.
func (f *Facts) indices() []*Term {
	if len(f.univ) == 0 {
		return nil
	}
	seen := map[*Term]bool{}
	done := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if done[t] || t.bd > 0 {
			return
		}
		done[t] = true
		for _, a := range t.args {
			if (t.op == OUf || t.op == OAt || t.op == OSym) && a.sort == SInt && (a.op == OSym || a.op == OLin && len(a.m) == 1) && !seen[a] {
				seen[a] = true
				out = append(out, a)
			}
			walk(a)
		}
		for _, m := range t.m {
			walk(m.a)
		}
	}
	for b := range f.bools {
		walk(b)
	}
	for _, t := range f.ne {
		walk(t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	if len(out) > 12 {
		out = out[:12]
	}
	return out
}

// isSym: the form fixes a symbol.
func (l Lin) isSym() bool {
	for _, m := range l.m {
		if m.a.op != OSym {
			return false
		}
	}
	return true
}
