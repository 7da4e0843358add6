// The decision for one property: runs its harnesses, establishes the lemmas
// they used, compares with the known findings and writes the evidence.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func harnesses(l *Loaded, keep func(string) bool) []string {
	var names []string
	for n, m := range l.spec.Members {
		f, ok := m.(*ssa.Function)
		if !ok || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 0 {
			continue
		}
		isC := len(n) > 4 && n[0] == 'C' && n[1] >= '0' && n[1] <= '9' && n[3] == '_'
		if (isC || strings.HasPrefix(n, "LEMMA_")) && keep(n) {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	return names
}

// the harnesses that decide the helpers themselves interpret them
func useContracts(n string) bool {
	return !strings.HasPrefix(n, "LEMMA_") && !strings.HasPrefix(n, "C03_")
}

func (r *Result) ok() bool {
	return r.Undecided == "" && len(r.Reports) == 0 && len(r.Missing) == 0
}

func (r *Result) total() int {
	t := 0
	for _, x := range r.Obl {
		t += x
	}
	return t
}

func (r *Result) lines() []string {
	var out []string
	for _, x := range r.Reports {
		out = append(out, fmt.Sprintf("REPORT [%s] %s %s: %s", x.kind, x.fn, x.pos, x.msg))
	}
	if r.Undecided != "" {
		out = append(out, "UNDECIDED "+r.Undecided)
	}
	for _, k := range sortedStr(r.Bounded) {
		out = append(out, "BOUNDED "+k+": "+r.Bounded[k])
	}
	if len(r.Missing) > 0 {
		out = append(out, fmt.Sprintf("UNREACHED assertions %q", r.Missing))
	}
	return out
}

func sortedStr(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// known findings: lines "known: property=<id> key=<text> what" in KNOWN_FINDINGS;
// a report whose line contains the key is printed instead of raised.
func knownFindings(verif, id string) (out [][2]string) {
	b, _ := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS"))
	for _, ln := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(ln, "known: property="+id+" key=\"") {
			continue
		}
		r := strings.TrimPrefix(ln, "known: property="+id+" key=")
		k, err := strconv.QuotedPrefix(r)
		if err != nil {
			continue
		}
		key, _ := strconv.Unquote(k)
		out = append(out, [2]string{key, strings.TrimSpace(r[len(k):])})
	}
	return
}

func runCheck(l *Loaded, id, tier, verif, repo, spec string, budget int) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var results []Result
	thorough := tier == "thorough"
	names := harnesses(l, func(n string) bool {
		return strings.HasPrefix(n, id+"_") || thorough && strings.HasPrefix(n, id+"T_")
	})
	limit := 820 * time.Second
	if thorough { // deeper: the further harnesses of the property, and a second run that interprets the helpers too
		limit = 4 * time.Hour
		budget *= 10
	}
	p, stop := newPool(l, repo, spec, budget, 6, limit)
	p.twice = thorough
	known := knownFindings(verif, id)
	if len(known) == 0 && !thorough {
		p.patience = 25 * time.Second
	}
	defer stop()
	done := make(chan []Result)
	go func() { done <- p.all(names) }()
	var extra []Result
	for _, f := range extraChecks[id] {
		extra = append(extra, f(l)...)
	}
	results = append(<-done, extra...)
	if id != "C12" { // C12 reports every write of package-level state
		used := map[string]bool{}
		for _, r := range results {
			for _, f := range r.Fns {
				used[f] = true
			}
		}
		results = append(results, stateUse(l, id, used))
	}
	cov := map[string]interface{}{}
	kinds := map[string]int{}
	fns := map[string]bool{}
	asserts := map[string]int{}
	bounded := map[string]string{}
	loops := map[string]string{}
	total, failed, sites, paths := 0, 0, 0, 0
	var bad, seen []string
	var gaveUp []string
	for i, r := range results {
		if !r.ok() && wide(r.Harness) && (len(r.Reports) == 0 || len(r.Bounded) > 0) {
			gaveUp = append(gaveUp, r.Harness+": "+strings.Join(r.lines(), "; "))
			results[i] = Result{Harness: r.Harness}
		}
	}
	if len(gaveUp) > 0 {
		cov["harnesses_not_followed"] = gaveUp
	}
	for _, r := range results {
		total += r.total()
		sites += r.Sites
		paths += r.Paths
		for k, v := range r.Obl {
			kinds[k] += v
		}
		for _, f := range r.Fns {
			fns[f] = true
		}
		for k, v := range r.Asserts {
			asserts[r.Harness+": "+k] = v
		}
		for k, v := range r.Bounded {
			bounded[k] = v
		}
		for k, v := range r.LoopsSum {
			loops[k] = v
		}
		if !r.ok() {
			for _, x := range r.lines() {
				bad = append(bad, r.Harness+": "+x)
			}
			failed += len(r.Reports)
			if r.Undecided != "" {
				failed++
			}
			failed += len(r.Missing)
		}
	}
	if len(results) == 0 || total == 0 {
		bad = append(bad, "no obligations: the check is vacuous")
		failed++
	}
	var viol []string
	for _, b := range bad {
		hit := false
		for _, k := range known {
			if strings.Contains(b, k[0]) {
				hit = true
				seen = append(seen, k[1])
			}
		}
		if !hit {
			viol = append(viol, b)
		}
	}
	if tot := total - failed; tot >= 0 {
		cov["discharged"] = tot
	} else {
		cov["discharged"] = 0
	}
	cov["obligations"] = total
	cov["obligation_kinds"] = kinds
	cov["obligation_sites"] = sites
	cov["partitions"] = paths
	cov["functions_analysed"] = sortedKeys(fns)
	cov["assertions_reached"] = asserts
	cov["loops_summarised"] = loops
	if len(bounded) > 0 {
		cov["loops_only_bounded"] = bounded
	}
	cov["harnesses"] = names
	cov["checker_cmd"] = "./check.sh " + id + " " + tier
	cov["trusted_base"] = trusted
	cov["explanation"] = explanation
	if len(viol) > 0 {
		cov["violation_reports"] = viol
	}
	if len(seen) > 0 {
		cov["known_findings"] = seen
	}
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": levelOf(id), "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": len(viol), "assumptions": assumptions}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	for _, s := range seen {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, s)
	}
	fmt.Printf("%s: %d harnesses, %d obligations at %d sites in %d functions, %d partitions, %d loops summarised, %.1fs\n", id, len(results), total, sites, len(fns), paths, len(loops), time.Since(t0).Seconds())
	if len(viol) == 0 {
		return 0
	}
	rp := filepath.Join(verif, "evidence", id+".violation.txt")
	os.WriteFile(rp, []byte(strings.Join(viol, "\n")+"\n"), 0o644)
	for i, v := range viol {
		if i < 5 {
			fmt.Println(v)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

// extraChecks: scans that are not harnesses.
var extraChecks = map[string][]func(l *Loaded) []Result{}

func levelOf(id string) string { return "proof" }

var explanation = "Abstract interpretation of the SSA form of /repo's current tree against reference specifications in /verif/spec: symbolic value numbering over linear integer forms and byte-sequence normal forms, linear-inequality facts, trace partitioning, inductive loop summaries. Nothing is executed. An obligation is a panic condition, an assertion of the specification, an allocation, effect or ordering condition that was reached in some partition; it is discharged when the facts of the partition entail it."

var trusted = []string{
	"the analyzer in /verif/analyzer",
	"golang.org/x/tools/go/ssa and go/types",
	"models of the standard library and third-party functions in analyzer/models.go and analyzer/intrinsics.go (hash functions, base58, hex, bsvec and hdkeychain are uninterpreted functions with their documented contracts)",
	"the reference specifications in /verif/spec",
}

var assumptions = []string{
	"slices and strings are shorter than 2^47 bytes",
	"allocation never fails; 64-bit platform",
}
