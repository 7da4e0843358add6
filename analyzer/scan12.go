// C12: an effect and taint scan of every function of the checked tree.
package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func init() { extraChecks["C12"] = append(extraChecks["C12"], scanHiddenState) }

type scan12 struct {
	l      *Loaded
	fns    []*ssa.Function
	in     map[*ssa.Function]bool
	taint  map[ssa.Value]string // value refers to package-level memory of that variable
	ret    map[*ssa.Function]map[int]string
	more   bool
	res    *Result
	seen   map[string]bool
	full   map[string]bool // globals whose slice has no spare capacity after initialisation
	byName map[string][]*ssa.Function
	direct map[ssa.Value]string // loaded straight from the variable
	dirty  map[string]string    // variables that some function may write
}

// mutable: values of the type give access to memory that can be written.
func mutable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if mutable(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return mutable(u.Elem())
	case *types.Interface:
		return !types.Implements(t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface))
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if mutable(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (s *scan12) mark(v ssa.Value, g string) {
	if g == "" || v == nil {
		return
	}
	if _, ok := s.taint[v]; !ok {
		s.taint[v] = g
		s.more = true
	}
}

func (s *scan12) of(v ssa.Value) string {
	if g, ok := v.(*ssa.Global); ok {
		if g.Pkg != nil && s.l.repo[g.Pkg.Pkg] {
			return g.Pkg.Pkg.Name() + "." + g.Name()
		}
		return ""
	}
	return s.taint[v]
}

func (s *scan12) bad(fn *ssa.Function, pos token.Pos, f string, a ...interface{}) {
	m := fmt.Sprintf(f, a...)
	if i := strings.Index(m, "package-level state "); i >= 0 && !strings.Contains(m, " a reference ") {
		s.dirty[m[i+len("package-level state "):]] = fn.String()
	}
	p := s.l.prog.Fset.Position(pos)
	k := fn.String() + p.String() + m
	if s.seen[k] {
		return
	}
	s.seen[k] = true
	s.res.Reports = append(s.res.Reports, Report{kind: "effect", fn: fn.String(), pos: p.String(), msg: m})
}

func (s *scan12) callees(c *ssa.CallCommon) (out []*ssa.Function) {
	if c.IsInvoke() {
		for _, f := range s.byName[c.Method.Name()] {
			if types.Implements(f.Signature.Recv().Type(), c.Value.Type().Underlying().(*types.Interface)) {
				out = append(out, f)
			}
		}
		return
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		out = append(out, v)
	case *ssa.MakeClosure:
		out = append(out, v.Fn.(*ssa.Function))
	case *ssa.Builtin:
	default:
		// a function value: any function of the tree with this signature
		for f := range s.in {
			if f.Signature.Recv() == nil && types.Identical(f.Signature, c.Signature()) {
				out = append(out, f)
			}
		}
	}
	return
}

// readers: methods of other packages that do not write what their receiver refers to.
func readOnlyCall(f *ssa.Function) bool {
	if f.Pkg == nil && f.Object() == nil {
		return false
	}
	path := ""
	if f.Object() != nil && f.Object().Pkg() != nil {
		path = f.Object().Pkg().Path()
	}
	n := f.Name()
	switch path {
	case "regexp", "strings", "strconv", "fmt", "errors", "unicode", "unicode/utf8", "log":
		return path != "strings" || f.Signature.Recv() == nil || n == "Replace" || n == "String" || n == "Len"
	case "bytes":
		return f.Signature.Recv() == nil || n == "Bytes" || n == "Len" || n == "String"
	case "encoding/hex", "encoding/base64":
		return n != "Encode" && n != "Decode" || f.Signature.Recv() != nil && n != "Decode"
	case "encoding/binary":
		return strings.HasPrefix(n, "Uint") || strings.HasPrefix(n, "Append") || n == "String"
	case "math/big":
		switch n {
		case "Cmp", "CmpAbs", "Sign", "Bytes", "Int64", "Uint64", "BitLen", "IsInt64", "IsUint64", "String", "Text", "Bit", "FillBytes", "Append":
			return true
		}
		return false
	case "sync":
		return false
	}
	if f.Signature.Recv() == nil {
		switch {
		case path == "sort" || path == "slices":
			return n == "Search" || n == "SearchStrings" || n == "SliceIsSorted" || n == "BinarySearch" || n == "Index" || n == "Contains" || n == "Equal"
		case path == "io" || path == "crypto/rand":
			return false
		}
	}
	// parameters such as &chaincfg.MainNetParams are read by their packages
	return true
}

var banned = map[string]string{"math/rand": "pseudo-random numbers", "math/rand/v2": "pseudo-random numbers", "time": "the clock", "os": "the process environment", "runtime": "the runtime", "syscall": "the system", "net": "the network", "unsafe": "unsafe memory", "hash/maphash": "a random seed", "sync": "shared state", "sync/atomic": "shared state"}

var allowedIn = map[string]bool{"os.Stdout": true}

func scanHiddenState(l *Loaded) []Result {
	r, _ := hiddenState(l)
	return []Result{r}
}

// stateUse: the functions among fns that use a package-level variable which
// some function of the tree writes after initialisation. The harnesses start
// from the state that initialisation leaves; with such a variable their
// verdict would not cover later calls.
func stateUse(l *Loaded, id string, fns map[string]bool) Result {
	_, s := hiddenState(l)
	out := Result{Harness: id + "_history", Obl: map[string]int{}, Asserts: map[string]int{}}
	seen := map[string]bool{}
	for _, f := range s.fns {
		if !fns[f.String()] {
			continue
		}
		out.Fns = append(out.Fns, f.String())
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == nil || !l.repo[g.Pkg.Pkg] {
						continue
					}
					out.Obl["state"]++
					n := s.of(g)
					if w := s.dirty[n]; w != "" && !seen[f.String()+n] {
						seen[f.String()+n] = true
						out.Reports = append(out.Reports, Report{kind: "state", fn: f.String(), pos: l.prog.Fset.Position(in.Pos()).String(), msg: fmt.Sprintf("uses %s, which %s writes: the result can depend on earlier calls", n, w)})
					}
				}
			}
		}
	}
	out.Sites = out.Obl["state"]
	return out
}

func hiddenState(l *Loaded) (Result, *scan12) {
	r := Result{Harness: "C12_effects", Obl: map[string]int{}, Asserts: map[string]int{}}
	s := &scan12{l: l, dirty: map[string]string{}, in: map[*ssa.Function]bool{}, taint: map[ssa.Value]string{}, ret: map[*ssa.Function]map[int]string{}, res: &r, seen: map[string]bool{}, full: map[string]bool{}, byName: map[string][]*ssa.Function{}, direct: map[ssa.Value]string{}}
	e := newEngFor(l)
	st, msg := initState(l, e)
	r.Undecided = msg
	for _, g := range l.repoGlobals() {
		if _, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Slice); ok {
			v := st.content(e.globalObj(g))
			if v == tNil || v.op == OSlice && v.args[2] == v.args[3] {
				s.full[g.Pkg.Pkg.Name()+"."+g.Name()] = true
			}
		}
	}
	// the functions that run after initialisation
	all := ssautil.AllFunctions(l.prog)
	isRepo := func(f *ssa.Function) bool {
		p := f.Pkg
		for q := f; p == nil && q.Parent() != nil; {
			q = q.Parent()
			p = q.Pkg
		}
		return p != nil && l.repo[p.Pkg] || p == nil && f.Origin() != nil && f.Origin().Pkg != nil && l.repo[f.Origin().Pkg.Pkg]
	}
	var roots []*ssa.Function
	for f := range all {
		if !isRepo(f) || f.Blocks == nil {
			continue
		}
		if f.Signature.Recv() != nil {
			s.byName[f.Name()] = append(s.byName[f.Name()], f)
		}
		if f.Synthetic != "" && f.Parent() == nil && f.Origin() == nil && !strings.Contains(f.Synthetic, "wrapper") {
			continue
		}
		if f.Object() != nil && f.Object().Exported() || f.Signature.Recv() != nil {
			roots = append(roots, f)
		}
	}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if s.in[f] || f.Blocks == nil || !isRepo(f) || f.Name() == "init" && f.Signature.Recv() == nil {
			return
		}
		s.in[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
					}
				}
			}
		}
	}
	for _, f := range roots {
		add(f)
	}
	// functions kept in package variables can be called too
	for f := range all {
		if isRepo(f) && f.Name() == "init" && f.Blocks != nil {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, isCall := in.(ssa.CallInstruction)
					for _, op := range in.Operands(nil) {
						if op == nil || *op == nil {
							continue
						}
						if g, ok := (*op).(*ssa.Function); ok && !(isCall && c.Common().Value == *op) {
							add(g)
						}
						if mc, ok := (*op).(*ssa.MakeClosure); ok && !(isCall && c.Common().Value == *op) {
							add(mc.Fn.(*ssa.Function))
						}
					}
				}
			}
		}
	}
	for f := range s.in {
		s.fns = append(s.fns, f)
	}
	sort.Slice(s.fns, func(i, j int) bool { return s.fns[i].String() < s.fns[j].String() })
	for {
		s.more = false
		for _, f := range s.fns {
			s.flow(f)
		}
		if !s.more {
			break
		}
	}
	for _, f := range s.fns {
		s.judge(f)
		r.Fns = append(r.Fns, f.String())
	}
	r.Sites = r.Obl["effect"]
	sort.Slice(r.Reports, func(i, j int) bool { return r.Reports[i].pos < r.Reports[j].pos })
	return r, s
}

// flow propagates references to package-level memory through one function.
func (s *scan12) flow(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if g := s.of(x.X); g != "" && mutable(x.Type()) {
						s.mark(x, g)
						if _, ok := x.X.(*ssa.Global); ok {
							s.direct[x] = g
						}
					}
				}
			case *ssa.FieldAddr:
				s.mark(x, s.of(x.X))
			case *ssa.IndexAddr:
				s.mark(x, s.of(x.X))
			case *ssa.Field:
				if mutable(x.Type()) {
					s.mark(x, s.of(x.X))
				}
			case *ssa.Index:
				if mutable(x.Type()) {
					s.mark(x, s.of(x.X))
				}
			case *ssa.Lookup:
				if mutable(x.Type()) {
					s.mark(x, s.of(x.X))
				}
			case *ssa.Slice:
				if mutable(x.Type()) {
					s.mark(x, s.of(x.X))
				}
			case *ssa.Phi:
				for _, v := range x.Edges {
					s.mark(x, s.of(v))
				}
			case *ssa.ChangeType:
				s.mark(x, s.of(x.X))
			case *ssa.ChangeInterface:
				s.mark(x, s.of(x.X))
			case *ssa.Convert:
				if mutable(x.Type()) && mutable(x.X.Type()) {
					s.mark(x, s.of(x.X))
				}
			case *ssa.SliceToArrayPointer:
				s.mark(x, s.of(x.X))
			case *ssa.MakeInterface:
				if mutable(x.X.Type()) {
					s.mark(x, s.of(x.X))
				}
			case *ssa.TypeAssert:
				if mutable(x.Type()) {
					s.mark(x, s.of(x.X))
				}
			case *ssa.Extract:
				if mutable(x.Type()) {
					if c, ok := x.Tuple.(*ssa.Call); ok {
						for _, cf := range s.callees(c.Common()) {
							s.mark(x, s.ret[cf][x.Index])
						}
					} else {
						s.mark(x, s.of(x.Tuple))
					}
				}
			case *ssa.Range:
				s.mark(x, s.of(x.X))
			case *ssa.Next:
				if mutable(x.Type()) {
					s.mark(x, s.of(x.Iter))
				}
			case *ssa.Store:
				// a local variable that holds the reference
				if g := s.of(x.Val); g != "" {
					if root := localRoot(x.Addr); root != nil {
						s.mark(root, g)
					}
				}
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for i, v := range x.Bindings {
					s.mark(fn.FreeVars[i], s.of(v))
				}
			case *ssa.Return:
				for i, v := range x.Results {
					if g := s.of(v); g != "" && s.ret[f][i] == "" {
						if s.ret[f] == nil {
							s.ret[f] = map[int]string{}
						}
						s.ret[f][i] = g
						s.more = true
					}
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				cc := c.Common()
				for _, cf := range s.callees(cc) {
					if !s.in[cf] {
						continue
					}
					args := cc.Args
					if cc.IsInvoke() {
						args = append([]ssa.Value{cc.Value}, args...)
					}
					for i, a := range args {
						if i < len(cf.Params) {
							s.mark(cf.Params[i], s.of(a))
						}
					}
					if v, ok := in.(*ssa.Call); ok && mutable(v.Type()) {
						s.mark(v, s.ret[cf][0])
					}
				}
				if bi, ok := cc.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					if v, ok := in.(*ssa.Call); ok {
						// the result is a new slice when there is no spare capacity
						if g := s.direct[cc.Args[0]]; !(g != "" && s.full[g]) {
							s.mark(v, s.of(cc.Args[0]))
						}
					}
				}
			}
		}
	}
}

// localRoot: the local variable an address lies in.
func localRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

// localOnly: a variable that is only read and written, never handed on.
func localOnly(v ssa.Value) bool {
	a, ok := v.(*ssa.Alloc)
	return ok && !a.Heap
}

func (s *scan12) judge(f *ssa.Function) {
	r := s.res
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				r.Obl["effect"]++
				root := localRoot(x.Addr)
				if g := s.of(x.Addr); g != "" && root == nil {
					s.bad(f, x.Pos(), "writes package-level state %s", g)
				}
				if g := s.of(x.Val); g != "" && mutable(x.Val.Type()) && root == nil {
					s.bad(f, x.Pos(), "keeps a reference to package-level state %s in an object", g)
				}
			case *ssa.MapUpdate:
				r.Obl["effect"]++
				if g := s.of(x.Map); g != "" {
					s.bad(f, x.Pos(), "writes package-level state %s", g)
				}
			case *ssa.Send:
				r.Obl["effect"]++
				if g := s.of(x.Chan); g != "" {
					s.bad(f, x.Pos(), "sends on package-level channel %s", g)
				}
			case *ssa.Go:
				r.Obl["effect"]++
				s.bad(f, x.Pos(), "starts a goroutine")
			case *ssa.Select:
				r.Obl["effect"]++
				s.bad(f, x.Pos(), "selects between channels")
			case *ssa.Range:
				r.Obl["effect"]++
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					s.bad(f, x.Pos(), "iterates over a map in random order")
				}
			case *ssa.Return:
				r.Obl["effect"]++
				for _, v := range x.Results {
					if g := s.of(v); g != "" && mutable(v.Type()) && f.Object() != nil && f.Object().Exported() {
						s.bad(f, x.Pos(), "returns a reference to package-level state %s", g)
					}
				}
			}
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				// functions used as values, variables of other packages
				for _, op := range in.Operands(nil) {
					s.external(f, in, op)
				}
				continue
			}
			r.Obl["effect"]++
			cc := c.Common()
			for _, op := range in.Operands(nil) {
				s.external(f, in, op)
			}
			if bi, ok := cc.Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "copy", "delete", "clear", "close":
					if g := s.of(cc.Args[0]); g != "" {
						s.bad(f, in.Pos(), "writes package-level state %s", g)
					}
				case "append":
					a := cc.Args[0]
					if g := s.of(a); g != "" {
						if d := s.direct[a]; !(d != "" && s.full[d]) {
							s.bad(f, in.Pos(), "may append in place to package-level state %s", g)
						}
					}
				}
				continue
			}
			for _, cf := range s.callees(cc) {
				if s.in[cf] {
					continue
				}
				for _, a := range cc.Args {
					if g := s.of(a); g != "" && mutable(a.Type()) && !readOnlyCall(cf) {
						s.bad(f, in.Pos(), "%s may write package-level state %s", cf, g)
					}
				}
			}
			if cc.IsInvoke() && len(s.callees(cc)) == 0 {
				if g := s.of(cc.Value); g != "" && cc.Method.Name() != "Error" && cc.Method.Name() != "String" {
					s.bad(f, in.Pos(), "calls %s on package-level state %s", cc.Method.Name(), g)
				}
			}
		}
	}
}

// external: use of nondeterministic or shared facilities of other packages.
func (s *scan12) external(f *ssa.Function, in ssa.Instruction, op *ssa.Value) {
	if op == nil || *op == nil {
		return
	}
	var path, name string
	switch v := (*op).(type) {
	case *ssa.Function:
		if v.Object() == nil || v.Object().Pkg() == nil {
			return
		}
		path, name = v.Object().Pkg().Path(), v.Name()
	case *ssa.Global:
		if v.Pkg == nil {
			return
		}
		path, name = v.Pkg.Pkg.Path(), v.Name()
	default:
		return
	}
	s.res.Obl["effect"]++
	if what, ok := banned[path]; ok && !allowedIn[path+"."+name] {
		s.bad(f, in.Pos(), "uses %s.%s (%s)", path, name, what)
	}
	if path == "crypto/rand" && !s.onlyEncryption(f) {
		s.bad(f, in.Pos(), "uses randomness outside encryption")
	}
}

// onlyEncryption: every exported function of the tree from which f can be
// reached is crypto.Encrypt.
func (s *scan12) onlyEncryption(f *ssa.Function) bool {
	up := map[*ssa.Function]bool{f: true}
	for ch := true; ch; {
		ch = false
		for _, g := range s.fns {
			if up[g] || isEncrypt(g) {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if op == nil || *op == nil {
							continue
						}
						if h, ok := (*op).(*ssa.Function); ok && up[h] && !isEncrypt(h) {
							up[g] = true
							ch = true
						}
					}
				}
			}
		}
	}
	for g := range up {
		if !isEncrypt(g) && g.Object() != nil && g.Object().Exported() {
			return false
		}
	}
	return true
}

func isEncrypt(g *ssa.Function) bool {
	return g.Name() == "Encrypt" && g.Pkg != nil && strings.HasSuffix(g.Pkg.Pkg.Path(), "/crypto")
}
