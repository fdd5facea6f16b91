package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/pref"
)

// C27: what a navigation gives back tells what it did, however it came to an
// end.

type resultCase struct {
	Kind string // as in a history
	C    *Case
}

// tickClock waits until the clock has moved on.
func tickClock() {
	for t := time.Now(); time.Since(t) <= 0; {
	}
}

func checkResult(c *Case) (v verdict) {
	var rc resultCase
	if err := json.Unmarshal([]byte(c.Extra), &rc); err != nil {
		return verdict{bad: "harness: " + err.Error()}
	}
	fixedClock()
	x := *rc.C
	m := x.fsys()
	t := &Trace{}
	r := &recorder{t: t, max: eventBudget}
	say := func(format string, a ...any) {
		if v.bad == "" {
			v.bad = fmt.Sprintf(format, a...)
		}
	}
	var (
		result, ended core.TraverseResult
		err           error
		calls         int
		mx            sync.Mutex
		wg            sync.WaitGroup
		t0, t1        time.Time
		atEnd         time.Duration
		endCounts     [7]uint
		returned      bool
	)
	counts := func(r core.TraverseResult) (out [7]uint) {
		for i := range out {
			out[i] = uint(r.Metrics().Count(enums.Metric(i))) // including what there is no metric of
		}
		return
	}
	opts := append(x.options(r), age.WithOnEnd(func(res core.TraverseResult) {
		ended = res
		if res == nil || res.Session() == nil {
			say("the end is notified without a result")
			return
		}
		endCounts = counts(res)
		atEnd = res.Session().Elapsed()
		if returned {
			say("the end is notified after the navigation has returned")
		}
	}))
	head := pref.Head{
		Handler: func(s age.Servant) error {
			mx.Lock()
			defer mx.Unlock()
			calls++
			tickClock()
			return x.handler(r)(s)
		},
		GetForest: func(string) *core.Forest { return m.forest() },
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var saved []byte
	if rc.Kind == "fast" || rc.Kind == "spawn" {
		first := x
		got := execWalk(&first)
		saved = got.SavedRaw
		x.CB = nil
		t.Ev = nil
	}
	var wantErr string
	guard(t, func() {
		t0 = time.Now()
		using := &pref.Using{Head: head, Subscription: x.sub(), Tree: x.tree()}
		switch rc.Kind {
		case "fast", "spawn":
			if saved == nil {
				say("nothing has been saved")
				return
			}
			strat := enums.ResumeStrategyFastward
			if rc.Kind == "spawn" {
				strat = enums.ResumeStrategySpawn
			}
			from := savedFile(saved)
			result, err = age.Walk().Configure().Extent(age.Resume(&pref.Relic{Head: head, From: from, Strategy: strat}, opts[len(x.persisted()):]...)).Navigate(ctx)
		case "refused":
			using.Subscription = enums.SubscribeUndefined
			result, err = age.Walk().Configure().Extent(age.Prime(using, opts...)).Navigate(ctx)
		case "refusedrun":
			using.Handler = nil
			result, err = age.Run(&wg).Configure().Extent(age.Prime(using, opts...)).Navigate(ctx)
		case "run":
			result, err = age.Run(&wg).Configure().Extent(age.Prime(using, append(opts, age.WithNoW(2))...)).Navigate(ctx)
		case "cancelled":
			cancel()
			result, err = age.Walk().Configure().Extent(age.Prime(using, opts...)).Navigate(ctx)
		default:
			result, err = age.Walk().Configure().Extent(age.Prime(using, opts...)).Navigate(ctx)
		}
		returned = true
		t1 = time.Now()
		wg.Wait()
	})
	v.execs = 1
	refused := strings.HasPrefix(rc.Kind, "refused")
	if !refused && rc.Kind != "cancelled" && rc.Kind != "run" && rc.Kind != "fast" && rc.Kind != "spawn" {
		wantErr = Model(&x).Err
	}
	switch {
	case t.Panic != "":
		say("panic escapes to the caller: %s", t.Panic)
	case result == nil:
		say("no result (error %v)", err)
	case result.Session() == nil:
		say("no session (error %v)", err)
	case refused && err == nil:
		say("no error")
	case !refused && rc.Kind != "cancelled" && (wantErr == "") != (err == nil):
		say("expected error %q, got %v", wantErr, err)
	}
	if v.bad != "" {
		return v
	}
	s := result.Session()
	tickClock()
	e1 := s.Elapsed()
	tickClock()
	e2 := s.Elapsed()
	began := s.StartedAt()
	switch {
	case e1 != e2:
		say("the time it took changes although it is over")
	case e1 < 0 || e1 > t1.Sub(t0):
		say("it took %v, says it took %v", t1.Sub(t0), e1)
	case began.Before(t0) || began.After(t1):
		say("begun between %v and %v, says %v", t0, t1, began)
	case calls > 0 && e1 == 0 && rc.Kind != "run":
		say("it took no time at all")
	case !began.Equal(s.StartedAt()):
		say("when it was begun changes")
	case ended != nil && atEnd > e1:
		say("took %v in the end, notified of %v", e1, atEnd)
	case refused && ended != nil:
		say("the end is notified of what has not begun")
	case !refused && ended == nil:
		say("the end is not notified")
	case s.IsComplete() && refused:
		say("complete although it was refused")
	case !s.IsComplete() && err == nil:
		say("not complete")
	}
	after := counts(result)
	if v.bad == "" && ended != nil && after != endCounts {
		say("metrics %v, at the end %v", after, endCounts)
	}
	if v.bad == "" && refused && after != [7]uint{} {
		say("metrics %v although it was refused", after)
	}
	invoked := after[enums.MetricNoFilesInvoked] + after[enums.MetricNoDirectoriesInvoked]
	if v.bad == "" && rc.Kind != "spawn" && rc.Kind != "cancelled" && int(invoked) != calls {
		say("invoked %d times, the result says %d", calls, invoked)
	}
	if v.bad == "" && rc.Kind == "cancelled" && err != nil && !errors.Is(err, context.Canceled) {
		say("cancelled, but the error is %v", err)
	}
	v.steps = append([]string{rc.Kind}, stepsOf(t)...)
	v.sig = fmt.Sprint(rc.Kind, after, err != nil, s.IsComplete())
	return v
}

func genResult(th bool, fn yield) {
	settings := []func(*Case){
		func(*Case) {},
		func(c *Case) { c.Node = fdef(enums.FilterTypeGlob, "[a-m]*", 0, false, 0) },
		func(c *Case) {
			c.Child = &core.ChildFilterDef{Type: enums.FilterTypeGlob, Pattern: "*.txt"}
			c.FilesFirst = true
		},
		func(c *Case) { c.Samp = &Quant{1, 1, true}; c.Depth = 2 },
		func(c *Case) { c.Asker = true; c.Fault = "nil" },
	}
	treesOf(pick(th, 4, 5), []string{"mix"}, true, func(es []string) bool {
		for _, s := range allSubs {
			for i, set := range settings {
				base := Case{Entries: es, Sub: s}
				set(&base)
				emit := func(kind string, f func(*Case)) bool {
					x := base
					f(&x)
					b, _ := json.Marshal(resultCase{kind, &x})
					return fn(&Case{Sub: s, Extra: string(b)})
				}
				none := func(*Case) {}
				for _, k := range []string{"walk", "run", "refused", "refusedrun", "cancelled"} {
					if !emit(k, none) {
						return false
					}
				}
				if !emit("walk", func(x *Case) { x.Missing = true }) || !emit("walk", func(x *Case) { x.StatErr = true }) {
					return false
				}
				for _, p := range Model(&base).invoked() {
					for _, do := range []string{"err", "dir", "all", "panic"} {
						y := base
						y.CB = []Act{{p, do}}
						if ambiguousSkip(&y) {
							continue
						}
						if !emit("walk", func(x *Case) { x.CB = y.CB }) {
							return false
						}
					}
					if i < 3 && !tied(&base) {
						for _, k := range []string{"fast", "spawn"} {
							if !emit(k, func(x *Case) { x.CB = []Act{{p, "panic"}} }) {
								return false
							}
						}
					}
				}
			}
		}
		return true
	})
}
