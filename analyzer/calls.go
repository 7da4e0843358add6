// Calls: builtins, inlining of checked code, dispatch to modelled library functions.
package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cx struct {
	e    *Eng
	fr   *Frame
	p    *Path
	st   *State
	in   *ssa.Call
	fn   *ssa.Function
	args []*Term
	site string
}

type model func(c *cx) *Term

var models = map[string]model{}

// dynModels: methods of modelled interface values, by "type.Method".
var dynModels = map[string]model{}

func (c *cx) fork(t *Term) bool { return c.st.truth(t) }

func (c *cx) bytes(i int) *Term { return c.st.norm(c.st.seq(c.args[i])) }

func (c *cx) newBytes(content *Term) *Term { return c.st.newSlice(c.site, content, false) }

var errTerm = mkUf("error", SVal)

func (c *cx) fail() *Term {
	c.st.fail()
	return errTerm
}

// fail records that a step of the running operation failed.
func (s *State) fail() {
	s.setContent(s.e.failObj(), tTrue)
}

// raise records that a function of the analysed code returns an error
// (for harnesses that ask only).
func (e *Eng) raise(fr *Frame, st *State, v *Term) {
	if !strings.HasPrefix(e.harness, "C09_") || fr.fn.Pkg == nil || !e.isRepo(fr.fn.Pkg.Pkg) {
		return
	}
	res := fr.fn.Signature.Results()
	if res.Len() == 0 || !types.Identical(res.At(res.Len()-1).Type(), types.Universe.Lookup("error").Type()) {
		return
	}
	if res.Len() > 1 {
		v = v.args[res.Len()-1]
	}
	o := e.flagObj("zz:raised")
	if c := st.norm(mkNot(mkEqT(v, tNil))); c != tFalse {
		st.setContent(o, mkOr(st.content(o), c))
	}
}

func (e *Eng) failObj() *Term { return e.flagObj("zz:failed") }

func (e *Eng) flagObj(name string) *Term {
	o := e.obj(name)
	if _, ok := e.lazy[o.s]; !ok {
		e.lazy[o.s] = func(*Term) *Term { return tFalse }
	}
	return o
}

var interpretPkgs = map[string]bool{"bytes": true, "strings": true, "sort": true, "internal/stringslite": true, "encoding/hex": true, "unicode/utf8": true, "errors": true}

var inlinePkgs = map[string]bool{"encoding/binary": true, "math/bits": true, "internal/byteorder": true, "slices": true, "cmp": true}

func (e *Eng) one(p *Path, v *Term) []Exit { return []Exit{{kind: xReturn, p: p, vals: v}} }

func (e *Eng) doCall(fr *Frame, p *Path, x *ssa.Call) []Exit {
	c := x.Common()
	var args []*Term
	if b, ok := c.Value.(*ssa.Builtin); ok {
		for _, a := range c.Args {
			args = append(args, e.val(p, a))
		}
		return e.one(p, e.builtin(p, x, b.Name(), args))
	}
	if c.IsInvoke() {
		recv := p.st.resolveIte(e.val(p, c.Value))
		for _, a := range c.Args {
			args = append(args, e.val(p, a))
		}
		return e.invoke(fr, p, x, recv, c.Method, args)
	}
	for _, a := range c.Args {
		args = append(args, e.val(p, a))
	}
	if fn := c.StaticCallee(); fn != nil {
		var bind []*Term
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				bind = append(bind, e.val(p, b))
			}
		}
		return e.dispatch(fr, p, x, fn, args, bind)
	}
	f := p.st.resolveIte(e.val(p, c.Value))
	if f == tNil {
		e.violate(p.st, "nil-dereference", "call of a nil function")
		panic(pathEnd{})
	}
	if f.op != OFunc {
		e.undecided("call of an opaque function %s", f)
	}
	return e.dispatch(fr, p, x, f.x.(*ssa.Function), args, f.args)
}

func (e *Eng) invoke(fr *Frame, p *Path, x *ssa.Call, recv *Term, m *types.Func, args []*Term) []Exit {
	if recv == tNil {
		e.violate(p.st, "nil-dereference", "method call on a nil interface")
		panic(pathEnd{})
	}
	if recv.op == OIface {
		dt := recv.x.(types.Type)
		if name, ok := fakeName(dt); ok {
			f := dynModels[name+"."+m.Name()]
			if f == nil {
				e.undecided("method %s of modelled %s", m.Name(), name)
			}
			c := &cx{e, fr, p, p.st, x, nil, append([]*Term{recv.args[0]}, args...), e.site(x)}
			return e.one(p, f(c))
		}
		ms := e.prog.MethodSets.MethodSet(dt)
		sel := ms.Lookup(m.Pkg(), m.Name())
		if sel == nil {
			e.undecided("no method %s on %s", m.Name(), dt)
		}
		fn := e.prog.MethodValue(sel)
		return e.dispatch(fr, p, x, fn, append([]*Term{recv.args[0]}, args...), nil)
	}
	if recv.op == OUf && (recv.s == "error") || m.Name() == "Error" {
		return e.one(p, uf("errtext", SSeq, recv))
	}
	if f := dynModels["opaque."+m.FullName()]; f != nil {
		c := &cx{e, fr, p, p.st, x, nil, append([]*Term{recv}, args...), e.site(x)}
		return e.one(p, f(c))
	}
	e.undecided("call of %s on opaque interface %s", m.FullName(), recv)
	return nil
}

func (e *Eng) dispatch(fr *Frame, p *Path, x *ssa.Call, fn *ssa.Function, args, bind []*Term) []Exit {
	name := fn.String()
	if i := strings.IndexByte(name, '['); i > 0 && fn.Origin() != nil {
		name = fn.Origin().String()
		if j := strings.IndexByte(name, '['); j > 0 {
			name = name[:j]
		}
	}
	c := &cx{e, fr, p, p.st, x, fn, args, e.site(x)}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == specPkg && fn.Parent() == nil {
		if f, ok := intrinsics[fn.Name()]; ok {
			return e.one(p, f(c))
		}
	}
	if e.initPhase && fn.Name() == "init" && fn.Synthetic != "" && fr != nil {
		return e.one(p, mkTuple()) // initialised separately
	}
	if f, ok := models[name]; ok {
		return e.one(p, f(c))
	}
	if e.contracts {
		if f, ok := contracts[name]; ok {
			if v := f(c); v != nil {
				e.usedContract(name)
				return e.one(p, v)
			}
		}
	}
	pk := fn.Pkg
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Pkg
	}
	inl := pk == nil && len(fn.Blocks) > 0 // wrappers, bound methods
	if pk != nil {
		inl = e.isRepo(pk.Pkg) || pk.Pkg.Path() == specPkg || inlinePkgs[pk.Pkg.Path()]
	}
	if !inl && pk != nil && len(fn.Blocks) > 0 && interpretPkgs[pk.Pkg.Path()] {
		inl = true // plain Go code: as good as any other
	}
	if !inl {
		e.undecided("library function %s is not modelled", name)
	}
	return e.call(fr, x, p.st, fn, args, bind)
}

var contracts = map[string]model{}

func (e *Eng) usedContract(n string) {
	if e.contractsUsed == nil {
		e.contractsUsed = map[string]bool{}
	}
	e.contractsUsed[n] = true
}

// ---------- builtins

func (e *Eng) builtin(p *Path, x *ssa.Call, name string, args []*Term) *Term {
	st := p.st
	switch name {
	case "len":
		v := st.resolveIte(args[0])
		switch {
		case v.sort == SSeq:
			return seqLen(v)
		case v.op == OSlice:
			return v.args[2]
		case v == tNil:
			return t0
		case v.op == OPtr:
			if _, ok := x.Common().Args[0].Type().Underlying().(*types.Map); ok {
				return mkInt(int64(len(st.content(v.args[0]).args) / 2))
			}
			return seqLen(st.load(v))
		}
		e.undecided("len of %s", v)
	case "cap":
		v := st.resolveIte(args[0])
		if v.op == OSlice {
			return v.args[3]
		}
		e.undecided("cap of %s", v)
	case "append":
		return e.appendTo(p, x, args[0], args[1])
	case "copy":
		return e.copyTo(p, args[0], args[1])
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			c := mkLeq(r, a)
			if name == "max" {
				c = mkLeq(a, r)
			}
			r = mkIte(c, r, a)
		}
		return r
	case "print", "println":
		return tNil
	case "panic":
		e.violate(st, "panic", "panic is reachable")
		panic(pathEnd{})
	case "ssa:wrapnilchk":
		if args[0] == tNil {
			e.violate(st, "nil-dereference", "method on a nil pointer")
			panic(pathEnd{})
		}
		return args[0]
	}
	e.undecided("builtin %s", name)
	return nil
}

func (e *Eng) appendTo(p *Path, x *ssa.Call, a, b *Term) *Term {
	st := p.st
	a = st.resolveIte(a)
	if a.op != OSlice {
		e.undecided("append to opaque slice %s", a)
	}
	bs := st.seq(b)
	n := seqLen(bs)
	if st.f.same(n, t0) {
		return a
	}
	el := x.Type().Underlying().(*types.Slice).Elem()
	old := st.seq(a)
	full := mkCat(old, bs)
	ptr := a.args[0]
	if ptr != tNil {
		ptr = st.resolveIte(ptr)
	}
	if ptr == tNil {
		return st.newSlice(e.site(x), full, false)
	}
	nl := add(a.args[2], n)
	fits := mkLeq(nl, a.args[3])
	switch {
	case st.f.prove(fits):
		// in place
		lo := add(a.args[1], a.args[2])
		e.writeRange(st, ptr, lo, add(lo, n), bs)
		return mkSlice(ptr, a.args[1], nl, a.args[3])
	case st.f.prove(mkNot(fits)):
		return st.newSlice(e.site(x), full, false)
	}
	// either: the result has the right contents; the spare capacity of the
	// old array may have been overwritten and may be shared with the result
	r := st.newSlice(e.site(x), full, false)
	o := ptr.args[0]
	fresh := strings.HasPrefix(o.s, "a") && !strings.HasPrefix(o.s, "any:") || strings.HasPrefix(o.s, "L")
	_ = el
	c := st.get(st.content(o), ptr.args[1:])
	lo := add(a.args[1], a.args[2])
	tail := st.sub(c, lo, seqLen(c))
	if tail != tEmpty {
		if !fresh || st.prot[o.s] {
			st.writable(o, "append into the spare capacity of")
		}
		h := e.havocSeq(tail, "spare")
		if es := st.elemLike(tail); es != nil {
			elemSpecs[h.s] = *es
		}
		nc := mkCat(st.sub(c, t0, lo), h)
		st.setContent(o, st.put(st.content(o), ptr.args[1:], nc))
	}
	st.links = append(st.links, [2]*Term{r.args[0].args[0], o})
	return r
}

// writeRange overwrites arr[lo:hi] with x.
func (e *Eng) writeRange(st *State, ptr, lo, hi, x *Term) {
	if lo == hi {
		return
	}
	o := ptr.args[0]
	c := st.content(o)
	arr := st.get(c, ptr.args[1:])
	n := st.splice(arr, lo, hi, x)
	st.writable(o, "write to")
	st.setContent(o, st.put(c, ptr.args[1:], n))
	st.touched(o)
}

func (e *Eng) copyTo(p *Path, d, s *Term) *Term {
	st := p.st
	d = st.resolveIte(d)
	if d.op != OSlice {
		e.undecided("copy to opaque slice")
	}
	src := st.seq(s)
	n := seqLen(src)
	dl := d.args[2]
	c := mkLeq(n, dl)
	m := n
	if !st.f.prove(c) {
		if st.f.prove(mkLeq(dl, n)) {
			m = dl
		} else {
			need("copy", c, mkNot(c))
		}
	}
	if st.f.same(m, t0) {
		return t0
	}
	ptr := st.resolveIte(d.args[0])
	e.writeRange(st, ptr, d.args[1], add(d.args[1], m), st.sub(src, t0, m))
	return m
}
