// Scans over the program that are not harness runs.
package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	extraChecks["C20"] = append(extraChecks["C20"], scanNameTables)
}

func (l *Loaded) repoGlobals() []*ssa.Global {
	var out []*ssa.Global
	for _, p := range l.pkgs {
		if !l.repo[p.Pkg] {
			continue
		}
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				out = append(out, g)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func basicKind(t types.Type) types.BasicKind {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind()
	}
	return types.Invalid
}

// scanNameTables: the package level tables from opcode bytes to names and
// back, as the package initialisers leave them: a table from bytes that has
// more than 64 OP_ names names all 256 bytes, differently, and every table
// from names maps those names back.
func scanNameTables(l *Loaded) []Result {
	e := newEngFor(l)
	st, msg := initState(l, e)
	r := Result{Harness: "C20_tables", Obl: map[string]int{}, Asserts: map[string]int{}, Undecided: msg}
	byByte := map[string]map[int64]string{}
	byName := map[string]map[string]int64{}
	for _, g := range l.repoGlobals() {
		t := g.Type().(*types.Pointer).Elem()
		m, ok := t.Underlying().(*types.Map)
		if !ok {
			continue
		}
		kk, vk := basicKind(m.Key()), basicKind(m.Elem())
		if !(kk == types.Uint8 && vk == types.String || kk == types.String && vk == types.Uint8) {
			continue
		}
		v := st.content(e.globalObj(g))
		if v.op != OPtr {
			continue
		}
		c := st.content(v.args[0])
		if c.op != OMap {
			continue
		}
		ops := 0
		nb, nn := map[int64]string{}, map[string]int64{}
		for i := 0; i+1 < len(c.args); i += 2 {
			k, w := c.args[i], c.args[i+1]
			if kk == types.String {
				k, w = w, k
			}
			if w.op != OLit || !k.isConst() {
				ops = 0
				break
			}
			if strings.HasPrefix(w.s, "OP_") {
				ops++
			}
			nb[k.k.Int64()] = w.s
			nn[w.s] = k.k.Int64()
		}
		if ops <= 64 {
			continue
		}
		r.Fns = append(r.Fns, g.String())
		if kk == types.Uint8 {
			byByte[g.String()] = nb
		} else {
			byName[g.String()] = nn
		}
	}
	bad := func(g, f string, a ...interface{}) {
		r.Reports = append(r.Reports, Report{kind: "assert", fn: g, msg: fmt.Sprintf(f, a...)})
	}
	for g, nb := range byByte {
		seen := map[string]int64{}
		for i := int64(0); i < 256; i++ {
			n, ok := nb[i]
			r.Obl["table"]++
			if !ok || n == "" {
				bad(g, "opcode byte %#x has no name", i)
				continue
			}
			if j, dup := seen[n]; dup {
				bad(g, "opcode bytes %#x and %#x share the name %s", j, i, n)
			}
			seen[n] = i
			for g2, nn := range byName {
				r.Obl["table"]++
				if b, ok := nn[n]; !ok || b != i {
					bad(g, "the name %s of opcode byte %#x is not mapped back to it by %s", n, i, g2)
				}
			}
		}
	}
	r.Obl["table"]++
	r.Sites = len(r.Fns)
	sort.Slice(r.Reports, func(i, j int) bool { return r.Reports[i].msg < r.Reports[j].msg })
	return []Result{r}
}
