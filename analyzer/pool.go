// Harnesses are decided in separate processes, several at a time. Every process
// starts from nothing, so a result does not depend on what ran before it.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

type reportJSON struct{ Kind, Fn, Pos, Msg string }

func (r Report) MarshalJSON() ([]byte, error) {
	return json.Marshal(reportJSON{r.kind, r.fn, r.pos, r.msg})
}

func (r *Report) UnmarshalJSON(b []byte) error {
	var x reportJSON
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	*r = Report{kind: x.Kind, fn: x.Fn, pos: x.Pos, msg: x.Msg}
	return nil
}

type pool struct {
	repo, spec string
	budget     int
	patience   time.Duration // how long a harness goes on after its first report; 0 is for ever
	sem        chan bool
	ctx        context.Context
	mu         sync.Mutex
	lemmas     map[string]*lemmaRes
	l          *Loaded
	twice      bool // also without contracts
}

type lemmaRes struct {
	once sync.Once
	r    Result
}

func newPool(l *Loaded, repo, spec string, budget, n int, limit time.Duration) (*pool, func()) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	return &pool{repo: repo, spec: spec, budget: budget, sem: make(chan bool, n), ctx: ctx, lemmas: map[string]*lemmaRes{}, l: l}, cancel
}

// wide harnesses go further than the others of their property: what they
// report counts, that they cannot follow the code does not (it is noted in the
// evidence).
func wide(name string) bool { return strings.HasSuffix(name, "_wide") }

// one decides a harness in a process of its own.
func (p *pool) one(name string, contracts bool) Result {
	p.sem <- true
	defer func() { <-p.sem }()
	self, err := os.Executable()
	if err != nil {
		return Result{Harness: name, Undecided: err.Error()}
	}
	t := time.Now()
	ctx := p.ctx
	if wide(name) {
		var cancel context.CancelFunc
		ctx, cancel = context.WithTimeout(ctx, 4*time.Minute)
		defer cancel()
	}
	c := exec.CommandContext(ctx, self, "-one", name, "-repo", p.repo, "-spec", p.spec, "-budget", fmt.Sprint(p.budget), fmt.Sprintf("-contracts=%v", contracts), "-stop", p.patience.String())
	c.WaitDelay = time.Second
	var buf strings.Builder
	c.Stdout = &buf
	c.Stderr = io.Discard
	err = c.Run()
	var r Result
	out := buf.String()
	if i := strings.LastIndex(out, "\nRESULT "); i >= 0 {
		if json.Unmarshal([]byte(out[i+8:]), &r) == nil {
			return r
		}
	}
	why := "the analysis of this harness did not finish"
	if p.ctx.Err() != nil {
		why += " in time"
	} else if err != nil {
		why += ": " + err.Error()
	}
	return Result{Harness: name, Undecided: why, Seconds: time.Since(t).Seconds()}
}

// lemma decides the lemma behind a contract, once.
func (p *pool) lemma(contract string) *lemmaRes {
	n := "LEMMA_" + contract[strings.LastIndexByte(contract, '.')+1:]
	p.mu.Lock()
	x := p.lemmas[n]
	if x == nil {
		x = &lemmaRes{}
		p.lemmas[n] = x
	}
	p.mu.Unlock()
	x.once.Do(func() {
		if p.l.spec.Func(n) == nil {
			x.r = Result{Harness: n, Undecided: "there is no such lemma"}
			return
		}
		x.r = p.one(n, false)
	})
	return x
}

// decide runs a harness and the lemmas it relied on; without the lemmas the
// helpers are interpreted like everything else.
func (p *pool) decide(name string) Result {
	r := p.one(name, useContracts(name))
	for _, c := range r.Contracts {
		if x := p.lemma(c); !x.r.ok() {
			return p.one(name, false)
		}
	}
	if p.twice && r.ok() && len(r.Contracts) > 0 {
		// a second opinion; being unable to follow the helpers in place is not a finding
		if d := p.one(name, false); d.Undecided == "" && len(d.Reports) > 0 {
			return d
		}
	}
	return r
}

// all decides the harnesses and lists the lemmas that were established.
func (p *pool) all(names []string) []Result {
	res := make([]Result, len(names))
	var wg sync.WaitGroup
	for i, n := range names {
		wg.Add(1)
		go func(i int, n string) {
			defer wg.Done()
			res[i] = p.decide(n)
		}(i, n)
	}
	wg.Wait()
	for _, n := range sortedKeysOf(p.lemmas) {
		if x := p.lemmas[n]; x.r.ok() {
			res = append(res, x.r)
		}
	}
	return res
}

func sortedKeysOf(m map[string]*lemmaRes) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return sortedKeys(b)
}

// oneMain is the worker side of one.
func oneMain(l *Loaded, name string, budget int, contracts bool, stopAfter time.Duration) {
	f := l.spec.Func(name)
	r := Result{Harness: name, Undecided: "no such harness"}
	if f != nil {
		r = runHarness(l, f, budget, contracts, stopAfter)
	}
	b, err := json.Marshal(r)
	if err != nil {
		b, _ = json.Marshal(Result{Harness: name, Undecided: err.Error()})
	}
	fmt.Printf("\nRESULT %s\n", b)
}
