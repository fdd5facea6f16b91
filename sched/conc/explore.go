package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"verif/vs"
	"verif/vs/vexp"
)

type stats struct {
	Schedules, Complete, States, Steps int
	MaxSteps, MaxThreads, MaxPoints    int
	Bound                              int // the greatest bound that was finished; -1 none
	Outcomes                           map[string]int
	Diverged                           int
	Bad                                string
	Choices                            []int
	Sample                             []string
}

func (sc *Scen) all() []*Scen { return append([]*Scen{sc}, sc.Others...) }

// once executes one schedule.
func (sc *Scen) once(ch vs.Chooser, oracles []*oracle, trace bool) (string, *vs.Outcome, string) {
	xs := []*session{}
	for _, s := range sc.all() {
		xs = append(xs, newSession(s))
		if sc.OneFS {
			xs[len(xs)-1].fs = xs[0].fs
		}
		if sc.OneDef && s.Feat == sc.Feat {
			xs[len(xs)-1].feat = xs[0].feat
		}
	}
	out := vs.Run(vs.Config{Early: sc.Early, Order: sc.Order, Slow: sc.Slow, SlowFor: time.Second, Steps: 20000, Horizon: 15 * time.Second, Trace: trace}, ch, func() { sc.run(xs) })
	if out.Races > 0 {
		return "data race", out, ""
	}
	if out.Panic != "" {
		return "panic: " + out.Panic, out, ""
	}
	if out.Abandoned {
		return "", out, ""
	}
	if out.Stuck != "" {
		return out.Stuck, out, ""
	}
	sig := ""
	at := map[string]bool{}
	for _, x := range xs {
		if d := dest(x.err); sc.OneFS && d != "" {
			if at[d] {
				return "two navigations are saved as " + d, out, ""
			}
			at[d] = true
		}
	}
	for i, x := range xs {
		if bad := x.judge(oracles[i]); bad != "" {
			return bad, out, ""
		}
		sig += fmt.Sprintf("%d/%s/%d;", len(x.log.Es), errClass(x.err), x.log.Peak)
	}
	cancelled := false
	for _, s := range sc.all() {
		cancelled = cancelled || s.Cancel != ""
	}
	if !cancelled && len(out.Left) > 0 {
		return "goroutines are left behind: " + strings.Join(out.Left, " "), out, ""
	}
	return "", out, sig
}

func (sc *Scen) oracles() []*oracle {
	var l []*oracle
	for _, s := range sc.all() {
		l = append(l, s.oracle())
	}
	return l
}

func (sc *Scen) explore(maxBound int, end time.Time, prune bool) *stats {
	st := &stats{Bound: -1, Outcomes: map[string]int{}}
	ors := sc.oracles()
	for b := 0; b <= maxBound; b++ {
		e := &vexp.Explorer{Bound: b, Prune: prune}
		watching.tell = func() {
			st.Bad, st.Choices = "an execution does not come to an end", e.Choices()
			js, _ := json.Marshal(st)
			fmt.Println(string(js))
		}
		n := 0
		for {
			if n%16 == 15 && time.Now().After(end) {
				st.States = max(st.States, e.States())
				return st
			}
			n++
			e.Begin()
			watchOn()
			bad, out, sig := sc.once(e, ors, false)
			watchOff()
			st.Schedules++
			st.Steps += out.Steps
			if !out.Abandoned {
				st.Complete++
				st.Outcomes[sig]++
				st.MaxSteps = max(st.MaxSteps, out.Steps)
				st.MaxThreads = max(st.MaxThreads, out.Threads)
				st.MaxPoints = max(st.MaxPoints, out.Points)
			}
			if bad != "" {
				st.Bad, st.Choices = bad, e.Choices()
				return st
			}
			if !e.Next() {
				break
			}
		}
		st.Diverged += e.Diverge
		st.States = max(st.States, e.States())
		st.Bound = b
	}
	return st
}
