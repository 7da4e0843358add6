// libsv static verifier: abstract interpretation of /repo's SSA form against
// reference specifications.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"go/types"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

type Result struct {
	Harness   string            `json:"harness"`
	Reports   []Report          `json:"reports,omitempty"`
	Undecided string            `json:"undecided,omitempty"`
	Bounded   map[string]string `json:"bounded,omitempty"`
	Obl       map[string]int    `json:"obligations"`
	Sites     int               `json:"sites"`
	Fns       []string          `json:"functions"`
	Asserts   map[string]int    `json:"assertions"`
	LoopsSum  map[string]string `json:"loops,omitempty"`
	Contracts []string          `json:"contracts,omitempty"`
	Paths     int               `json:"partitions"`
	Seconds   float64           `json:"seconds"`
	Missing   []string          `json:"unreached,omitempty"`
}

// initState interprets the package initialisers of the checked tree.
func initState(l *Loaded, e *Eng) (*State, string) {
	st := newState(e)
	e.initPhase = true
	defer func() { e.initPhase = false }()
	done := map[string]bool{}
	msg := ""
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if done[p.PkgPath] {
			return
		}
		done[p.PkgPath] = true
		var ks []string
		for k := range p.Imports {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			visit(p.Imports[k])
		}
		sp := l.prog.Package(p.Types)
		if sp == nil || !(l.repo[p.Types] || sp == l.spec) {
			return
		}
		fn := sp.Func("init")
		if fn == nil {
			return
		}
		m := e.protect(func() {
			xs := e.call(nil, nil, st.clone(), fn, nil, nil)
			if len(xs) != 1 {
				e.undecided("initialisation of %s has %d outcomes", p.PkgPath, len(xs))
			}
			st = xs[0].p.st
		})
		if m != "" && msg == "" {
			msg = p.PkgPath + ": " + m
		}
	}
	for _, p := range l.init {
		visit(p)
	}
	st.eff = nil
	return st, msg
}

func newEngFor(l *Loaded) *Eng {
	e := newEng(l.prog)
	e.isRepo = func(p *types.Package) bool { return l.repo[p] }
	return e
}

func runHarness(l *Loaded, fn *ssa.Function, budget int, contracts bool, stopAfter time.Duration) (res Result) {
	t := time.Now()
	e := newEngFor(l)
	e.contracts = contracts
	e.stepsLeft = budget
	res.Harness = fn.Name()
	st, m := initState(l, e)
	if m != "" {
		fmt.Fprintln(os.Stderr, "init:", m)
	}
	e.reports = nil
	e.fnsSeen = map[string]bool{}
	e.obl = map[string]int{}
	e.oblSites = map[string]bool{}
	e.harness = fn.Name()
	e.firstReport, e.stopAfter, e.tentative = time.Time{}, stopAfter, 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case undecidedErr:
					_, pos := e.repoSite()
					res.Undecided = x.msg + " at " + pos + " [" + e.where() + "]"
				case splitReq:
					res.Undecided = fmt.Sprintf("unresolved split %s %v", x.why, x.alts)
				case guardUnknown:
					res.Undecided = "loop guard"
				case sumFail:
					res.Undecided = x.msg
				case stopped:
					if len(e.reports) == 0 {
						res.Undecided = "stopped without a report"
					}
				case pathEnd:
				default:
					res.Undecided = fmt.Sprint("internal: ", r)
					if e.trace {
						fmt.Println(r, string(debug.Stack()))
					}
				}
			}
		}()
		e.call(nil, nil, st, fn, nil, nil)
	}()
	res.Reports = e.reports
	res.Bounded = e.bounded
	res.Obl = e.obl
	res.Sites = len(e.oblSites)
	res.Fns = sortedKeys(e.fnsSeen)
	res.Asserts = e.asserts
	res.LoopsSum = e.loopsSum
	res.Contracts = sortedKeys(e.contractsUsed)
	res.Paths = e.paths
	res.Seconds = time.Since(t).Seconds()
	for _, n := range assertNames(fn) {
		if stopAfter > 0 && len(res.Reports) > 0 {
			break
		}
		if e.asserts[n] == 0 {
			res.Missing = append(res.Missing, n)
		}
	}
	return
}

// assertNames: the assertions written in a harness (each must be reached).
func assertNames(fn *ssa.Function) []string {
	var out []string
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			f := c.Common().StaticCallee()
			if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != specPkg || !strings.HasPrefix(f.Name(), "Assert") {
				continue
			}
			for i, a := range c.Common().Args {
				if i+1 != len(c.Common().Args) {
					continue
				}
				if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind().String() == "String" {
					s, _ := strconv.Unquote(k.Value.ExactString())
					out = append(out, s)
				}
			}
		}
	}
	return out
}

func main() {
	repo := flag.String("repo", "/repo", "checked tree")
	spec := flag.String("spec", "/verif/spec", "specification harnesses")
	h := flag.String("h", "", "run harnesses with these prefixes (comma separated), print results")
	budget := flag.Int("budget", 3000000, "abstract steps per harness")
	check := flag.String("check", "", "decide one property and write its evidence")
	one := flag.String("one", "", "decide one harness and print its result as JSON")
	contracts := flag.Bool("contracts", true, "use the contracts of helpers (with -one)")
	stop := flag.Duration("stop", 0, "how long to go on after the first report (with -one)")
	tier := flag.String("tier", "quick", "quick or thorough")
	verif := flag.String("verif", "/verif", "directory with evidence/ and the known findings")
	flag.Parse()
	debug.SetGCPercent(400)
	if f := os.Getenv("CPUPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	l, err := load(*repo, *spec)
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	if *one != "" {
		oneMain(l, *one, *budget, *contracts, *stop)
		return
	}
	if *check != "" {
		os.Exit(runCheck(l, *check, *tier, *verif, *repo, *spec, *budget))
	}
	bad := 0
	for _, n := range harnesses(l, func(n string) bool {
		for _, p := range strings.Split(*h, ",") {
			if p != "" && strings.HasPrefix(n, p) || *h == "" || *h == "all" {
				return true
			}
		}
		return false
	}) {
		r := runHarness(l, l.spec.Func(n), *budget, useContracts(n), *stop)
		st := "ok"
		if !r.ok() {
			st = "FAIL"
			bad++
		}
		if len(r.Bounded) > 0 {
			st += " bounded"
		}
		fmt.Printf("%-28s %-10s obl=%d paths=%d %.1fs contracts=%v\n", n, st, r.total(), r.Paths, r.Seconds, r.Contracts)
		for _, x := range r.lines() {
			fmt.Println("  ", x)
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}
