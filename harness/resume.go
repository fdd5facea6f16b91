package main

import (
	"fmt"
)

// resumption judges a case with legs: a navigation which panics, followed by
// navigations which resume it.
func resumption(v view) func(*Case) verdict {
	return func(c *Case) verdict {
		first := *c
		first.Legs = nil
		m := newModel(&first)
		want := m.run()
		got := execWalk(&first)
		r := verdict{execs: 1, steps: stepsOf(want), sig: sigOf(got)}
		total := want.Metrics
		from := ""
		if r.bad = diff(v, want, got); r.bad == "" && want.Err == "saved" {
			r.bad = savedAt(c, m.panicAt, total, got)
			from = m.panicAt.path
		}
		for i := range c.Legs {
			if r.bad != "" || want.Err != "saved" {
				break
			}
			leg := &c.Legs[i]
			m = resumeModel(c, leg, from)
			want = m.run()
			if leg.Strat == "spawn" {
				// spawning carries on counting
				sum := map[string]uint{}
				for k, n := range want.Metrics {
					sum[k] = n
				}
				for _, k := range []string{"files", "dirs"} {
					if n := total[k]; n > 0 {
						sum[k] += n
					}
				}
				want.Metrics = sum
			}
			total = want.Metrics
			got = execLeg(c, leg, got.SavedRaw)
			r.execs++
			r.steps = append(r.steps, stepsOf(want)...)
			r.sig += " / " + sigOf(got)
			if r.bad = diff(v, want, got); r.bad == "" && want.Err == "saved" {
				at := m.panicAt
				if leg.Strat == "spawn" && got.Saved != nil && got.Saved.CurrentPath == m.panicked.path {
					// it may be visited as a tree of its own
					at = m.panicked
				}
				from = at.path
				r.bad = savedAt(c, at, total, got)
			}
			if r.bad != "" {
				r.bad = fmt.Sprintf("resumed navigation %d: %s", i+1, r.bad)
			}
		}
		return r
	}
}
