package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/pref"
)

// C21: a history of navigations in one process: each does what it would have
// done by itself, also when they share what the client made for them.

type hist struct {
	Share string // "": nothing; list: the options; facade: the options and the facade; O: the options of the first, by Using.O
	Steps []hstep
}

type hstep struct {
	Kind string // walk, run, fast, spawn, refused, cancelled
	C    *Case
}

func (h *hist) js() string {
	b, _ := json.Marshal(h)
	return string(b)
}

// shared is what the navigations of a history have in common; the functions
// in it serve the navigation which is under way.
type shared struct {
	mu    sync.Mutex
	c     *Case
	m     *memFS
	t     *Trace
	rec   *recorder
	opts  []pref.Option
	again []pref.Option
	O     *pref.Options
	using *pref.Using
	wg    sync.WaitGroup
}

func (s *shared) head() pref.Head {
	return pref.Head{
		Handler: func(servant age.Servant) error {
			s.mu.Lock()
			defer s.mu.Unlock()
			return s.c.handler(s.rec)(servant)
		},
		GetForest: func(string) *core.Forest { return s.m.forest() },
	}
}

var histView = view{kinds: allKinds, meta: true, kids: true, metrics: invMetrics}
var histAgain = view{kinds: "invoke end", meta: true, kids: true, metrics: "files dirs"}
var histRun = view{kinds: "invoke", meta: true, kids: true, metrics: invMetrics}

func checkHist(c *Case) verdict {
	var h hist
	if err := json.Unmarshal([]byte(c.Extra), &h); err != nil {
		return verdict{bad: "harness: " + err.Error()}
	}
	fixedClock()
	s := &shared{rec: &recorder{max: eventBudget}}
	var v verdict
	var saved []byte
	var from string
	var total map[string]uint
	for i := range h.Steps {
		st := &h.Steps[i]
		x := *st.C
		s.c, s.m, s.t = &x, x.fsys(), &Trace{}
		s.rec.t = s.t
		if s.opts == nil || h.Share == "" {
			s.again = x.again(s.rec)
			s.opts = append(x.persisted(), s.again...)
			s.opts = append(s.opts, func(o *pref.Options) error {
				if s.O == nil {
					s.O = o
				}
				return nil
			})
			if x.Run || st.Kind == "run" || h.Share != "" {
				s.opts = append(s.opts, age.WithNoW(2))
				s.again = append(s.again, age.WithNoW(2))
			}
		}
		ctx, cancel := context.WithCancel(context.Background())
		var bad string
		switch st.Kind {
		case "fast", "spawn":
			if saved == nil {
				cancel()
				continue
			}
			leg := &Leg{Strat: st.Kind, CB: x.CB}
			m := resumeModel(&x, leg, from)
			want := m.run()
			if st.Kind == "spawn" {
				sum := map[string]uint{}
				for k, n := range want.Metrics {
					sum[k] = n
				}
				for _, k := range []string{"files", "dirs"} {
					if n := total[k]; n > 0 {
						sum[k] += n
					}
				}
				want.Metrics = sum
			}
			s.resume(&x, leg.Strat, saved, ctx)
			v.execs++
			v.steps = append(v.steps, stepsOf(want)...)
			bad = diff(histAgain, want, s.t)
			if bad == "" && want.Err == "saved" {
				at := m.panicAt
				if leg.Strat == "spawn" && s.t.Saved != nil && s.t.Saved.CurrentPath == m.panicked.path {
					at = m.panicked
				}
				bad = savedAt(&x, at, want.Metrics, s.t)
				saved, from, total = s.t.SavedRaw, at.path, want.Metrics
			}
		case "refused":
			s.prime(&x, h.Share, true, false, ctx)
			if s.t.ErrText == "" || len(s.t.Ev) > 0 {
				bad = fmt.Sprintf("a navigation without subscription: error %q, events %s", s.t.ErrText, evs(s.t.Ev))
			}
			v.steps = append(v.steps, "refused")
		case "cancelled":
			cancel()
			s.prime(&x, h.Share, false, false, ctx)
			bad = abnormal(s.t)
			v.steps = append(v.steps, "cancelled")
		case "run":
			y := x
			y.CB = nil
			s.c = &y
			want := Model(&y)
			s.prime(&y, h.Share, false, true, ctx)
			v.execs++
			v.steps = append(v.steps, stepsOf(want)...)
			bad = diff(histRun, byPath(want), byPath(s.t))
		default:
			m := newModel(&x)
			want := m.run()
			s.prime(&x, h.Share, false, false, ctx)
			v.execs++
			v.steps = append(v.steps, stepsOf(want)...)
			bad = diff(histView, want, s.t)
			if bad == "" {
				if want.Err == "saved" {
					bad = savedAt(&x, m.panicAt, want.Metrics, s.t)
					saved, from, total = s.t.SavedRaw, m.panicAt.path, want.Metrics
				} else if s.t.Saved != nil {
					bad = "state saved although it was not asked for"
				}
			}
		}
		cancel()
		if st.Kind == "run" {
			s.t = inAnyOrder(s.t)
		}
		v.sig += sigOf(s.t) + " / "
		if bad != "" {
			v.bad = fmt.Sprintf("navigation %d (%s): %s", i+1, st.Kind, bad)
			break
		}
	}
	return v
}

// byPath: the callbacks of a concurrent navigation come in any order.
func byPath(t *Trace) *Trace {
	x := *t
	x.Ev = append([]Ev(nil), t.Ev...)
	sort.SliceStable(x.Ev, func(i, j int) bool { return x.Ev[i].P < x.Ev[j].P })
	return &x
}

// inAnyOrder: so do its notifications, as seen from the callbacks.
func inAnyOrder(t *Trace) *Trace {
	x := *t
	x.Ev = append([]Ev(nil), t.Ev...)
	sort.SliceStable(x.Ev, func(i, j int) bool {
		return x.Ev[i].P+" "+x.Ev[i].K < x.Ev[j].P+" "+x.Ev[j].K
	})
	return &x
}

func (s *shared) prime(c *Case, share string, refused, run bool, ctx context.Context) {
	u := &pref.Using{Head: s.head(), Subscription: c.sub(), Tree: c.tree()}
	opts := s.opts
	switch share {
	case "facade":
		if s.using == nil {
			s.using = u
		}
		u = s.using
		// it is the client's, who may change it between navigations
		u.Subscription, u.Tree = c.sub(), c.tree()
	case "O":
		if s.O != nil {
			u.O = s.O
			opts = nil
		}
	}
	if refused {
		u.Subscription = enums.SubscribeUndefined
	}
	t, m := s.t, s.m
	guard(t, func() {
		if run {
			result, err := age.Run(&s.wg).Configure().Extent(age.Prime(u, opts...)).Navigate(ctx)
			s.wg.Wait()
			t.finish(result, err)
			return
		}
		result, err := age.Walk().Configure().Extent(age.Prime(u, opts...)).Navigate(ctx)
		t.finish(result, err)
	})
	t.effects(m)
}

func (s *shared) resume(c *Case, strat string, saved []byte, ctx context.Context) {
	from := filepath.Join(scratch(), "saved.json")
	t, m := s.t, s.m
	if err := os.WriteFile(from, saved, 0o600); err != nil {
		t.Panic = "harness: " + err.Error()
		return
	}
	st := enums.ResumeStrategyFastward
	if strat == "spawn" {
		st = enums.ResumeStrategySpawn
	}
	guard(t, func() {
		result, err := age.Walk().Configure().Extent(age.Resume(
			&pref.Relic{Head: s.head(), From: from, Strategy: st}, s.again...,
		)).Navigate(ctx)
		t.finish(result, err)
	})
	t.effects(m)
}

func histSettings() []func(*Case) {
	return append(resumeSettings(),
		func(c *Case) {
			c.Wake, c.Sleep = fdef(enums.FilterTypeGlob, "[k-m]*", 0, false, 0), fdef(enums.FilterTypeRegex, "^[Ab]", 0, false, 0)
		},
		func(c *Case) { c.Sleep = fdef(enums.FilterTypeGlob, "[k-m]*", 0, false, 0) },
		func(c *Case) { c.Wake = fdef(enums.FilterTypeGlob, "[k-m]*", 0, false, 0); c.WakeExcl = true },
		func(c *Case) { c.Hooks = "sort.opt.down read.chain.hide:K file.chain.add:1/ dir.tap.up" },
		func(c *Case) { c.Hooks = "read.tap.rev"; c.Samp = &Quant{1, 1, true} },
		func(c *Case) { c.Asker = true; c.Listeners = 2; c.Fault = "nil" },
		func(c *Case) {
			c.Sample = &core.SampleFilterDef{Type: enums.FilterTypeRegex, Pattern: "^[a-lA-L]", Scope: enums.ScopeDirectory, Negate: true}
			c.Samp = &Quant{1, 2, true}
		},
	)
}

// stepsFor: what a navigation of a case may come to.
func stepsFor(c Case) []hstep {
	out := []hstep{}
	add := func(kind string, f func(*Case)) {
		x := c
		f(&x)
		out = append(out, hstep{kind, &x})
	}
	ps := Model(&c).invoked()
	at := func(do string) func(*Case) {
		return func(x *Case) {
			if len(ps) > 0 {
				x.CB = []Act{{ps[len(ps)/2], do}}
			}
		}
	}
	add("walk", func(*Case) {})
	add("walk", at("err"))
	add("walk", at("all"))
	if c.Wake == nil && c.Sleep == nil {
		add("walk", at("panic"))
		add("fast", func(*Case) {})
		add("spawn", func(*Case) {})
	}
	add("walk", func(x *Case) { x.Missing = true })
	add("refused", func(*Case) {})
	add("cancelled", func(*Case) {})
	add("run", func(*Case) {})
	return out
}

func resumes(s hstep) bool { return s.Kind == "fast" || s.Kind == "spawn" }

func genHist(th bool, fn yield) {
	trees := [][]string{
		{"m/", "m/c.txt", "m/A.log", "K/", "K/l/", "K/l/b.txt", "b.txt", "A.log"},
		{"c.txt", "m/", "m/l/", "m/l/c.txt"},
	}
	emit := func(h *hist, base *Case) bool {
		return fn(&Case{Sub: base.Sub, Extra: h.js()})
	}
	var seqs func(share string, pool, prefix []hstep, k int, base *Case) bool
	seqs = func(share string, pool, prefix []hstep, k int, base *Case) bool {
		if len(prefix) > 1 {
			if !emit(&hist{share, prefix}, base) {
				return false
			}
		}
		if k == 0 {
			return true
		}
		for _, s := range pool {
			if share == "O" && (s.Kind == "fast" || s.Kind == "spawn") {
				continue
			}
			if s.Kind == "fast" || s.Kind == "spawn" {
				// there has to be something to resume
				ok := false
				for _, b := range prefix {
					ok = ok || strings.Contains(fmt.Sprint(b.C.CB), "panic")
				}
				if !ok {
					continue
				}
			}
			if !seqs(share, pool, append(append([]hstep{}, prefix...), s), k-1, base) {
				return false
			}
		}
		return true
	}
	// the same settings, again and again
	for _, share := range []string{"", "list", "facade", "O"} {
		for ti, es := range trees {
			for _, sub := range allSubs {
				for _, set := range histSettings() {
					c := Case{Entries: es, Sub: sub}
					set(&c)
					k := 3
					if ti == 0 && sub != subAll && !th {
						k = 2
					}
					if th && ti == 1 {
						k = 4
					}
					if !seqs(share, stepsFor(c), nil, k, &c) {
						return
					}
				}
			}
		}
	}
	// many times over
	for _, share := range []string{"", "list", "facade", "O"} {
		for si, set := range histSettings() {
			c := Case{Entries: trees[si%2], Sub: allSubs[(si+si/4)%4]}
			set(&c)
			steps := stepsFor(c)
			for _, a := range steps {
				for _, b := range steps {
					if share == "O" && (resumes(a) || resumes(b)) {
						continue
					}
					h1, h2 := &hist{Share: share}, &hist{Share: share}
					for i := 0; i < pick(th, 4, 9); i++ {
						h1.Steps = append(h1.Steps, a, b)
						h2.Steps = append(h2.Steps, a)
					}
					h2.Steps = append(h2.Steps, b, a)
					if !emit(h1, &c) || !emit(h2, &c) {
						return
					}
				}
			}
		}
	}
	// different settings, trees and subscriptions, one after the other
	pool := []hstep{}
	for i, set := range histSettings() {
		c := Case{Entries: trees[i%2], Sub: allSubs[(i*3+i/4)%4]}
		set(&c)
		steps := stepsFor(c)
		pool = append(pool, steps[0], steps[3])
		if i%3 == 0 {
			pool = append(pool, steps[len(steps)-1])
		}
		if th {
			pool = append(pool, steps[1])
		}
	}
	seqs("", pool, nil, 3, &Case{Sub: subAll})
	// the same options for different trees and subscriptions
	for _, share := range []string{"list", "facade", "O"} {
		for _, set := range histSettings() {
			pool := []hstep{}
			for _, es := range trees {
				for _, sub := range allSubs {
					c := Case{Entries: es}
					set(&c)
					c.Sub = sub
					steps := stepsFor(c)
					pool = append(pool, steps[0], steps[len(steps)-1])
				}
			}
			if !seqs(share, pool, nil, pick(th, 2, 3), &Case{Sub: subAll}) {
				return
			}
		}
	}
}
