package main

import (
	"fmt"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
)

// What a navigation asks of the file system: every directory which is visited
// is read once, when it is visited, and nothing else is read.

// asked compares what has been read with what was to be read.
func asked(c *Case, want, got *Trace) string {
	if fmt.Sprint(want.Reads) != fmt.Sprint(got.Reads) {
		return fmt.Sprintf("directories read: expected %v, got %v", want.Reads, got.Reads)
	}
	return askedOnce(c, got)
}

// askedOnce: no more is asked about an entry than once, and only about what is
// in a directory which has been read.
func askedOnce(c *Case, got *Trace) string {
	read := map[string]bool{}
	for _, p := range got.Reads {
		if read[p] {
			return "directory " + p + " is read again"
		}
		read[p] = true
	}
	asked := map[string]bool{}
	for _, p := range got.Infos {
		if asked[p] {
			return "asks about " + p + " again"
		}
		asked[p] = true
		if d, _ := splitParent(p); !read[d[:len(d)-1]] {
			return "asks about " + p + ", whose directory has not been read"
		}
	}
	if len(c.Legs) == 0 && fmt.Sprint(got.Stats) != fmt.Sprint([]string{c.root()}) {
		return fmt.Sprintf("asks about %v, expected just the tree", got.Stats)
	}
	return ""
}

// checkReads judges a navigation and, if it panics, the one resuming it.
func checkReads(c *Case) verdict {
	first := *c
	first.Legs = nil
	m := newModel(&first)
	want := m.run()
	got, _ := execWalkFS(&first)
	r := verdict{execs: 1, steps: append(stepsOf(want), want.Reads...), sig: fmt.Sprint(got.Reads, got.Infos)}
	if r.bad = abnormal(got); r.bad == "" {
		r.bad = asked(&first, want, got)
	}
	if r.bad != "" || len(c.Legs) == 0 || want.Err != "saved" {
		return r
	}
	leg := &c.Legs[0]
	at := m.panicAt.path
	want = resumeModel(c, leg, at).run()
	got = execLeg(c, leg, got.SavedRaw)
	r.execs++
	r.steps = append(append(r.steps, stepsOf(want)...), want.Reads...)
	r.sig += " / " + fmt.Sprint(got.Reads, got.Infos)
	if r.bad = abnormal(got); r.bad == "" {
		r.bad = askedOnce(c, got)
	}
	if r.bad == "" {
		switch leg.Strat {
		case "fast":
			// goes through all of it
			if fmt.Sprint(want.Reads) != fmt.Sprint(got.Reads) {
				r.bad = fmt.Sprintf("directories read: expected %v, got %v", want.Reads, got.Reads)
			}
		default:
			r.bad = spared(want.Reads, got.Reads, at)
		}
	}
	if r.bad != "" {
		r.bad = "resumed navigation: " + r.bad
	}
	return r
}

// spared: spawning reads what is left to be visited, and what it is in, but
// nothing which had been finished before.
func spared(all, got []string, at string) string {
	left := false
	rest := []string{}
	for _, p := range all {
		left = left || p == at
		if left {
			rest = append(rest, p)
		}
	}
	have := []string{}
	for _, p := range got {
		if p != at && within(at, p) {
			continue // is in it
		}
		have = append(have, p)
	}
	if fmt.Sprint(rest) != fmt.Sprint(have) {
		return fmt.Sprintf("directories read: expected %v apart from those they are in, got %v", rest, got)
	}
	return ""
}

func genReads(th bool, fn yield) {
	sets := []func(*Case){
		func(*Case) {},
		func(c *Case) { c.FilesFirst = true },
		func(c *Case) { c.Depth = 1 },
		func(c *Case) { c.Depth = 2; c.CSSort = true },
		func(c *Case) { c.NoRecurse = true },
		func(c *Case) { c.Asker = true; c.Listeners = 2 },
		func(c *Case) { c.Node = fdef(enums.FilterTypeGlob, "[a-l]*", 0, false, 0) },
		func(c *Case) {
			c.Node = fdef(enums.FilterTypeRegex, "^[b-l]", enums.ScopeLeaf, true, enums.TriStateBoolFalse)
		},
		func(c *Case) { c.Child = &core.ChildFilterDef{Type: enums.FilterTypeGlob, Pattern: "*.txt"} },
		func(c *Case) {
			c.Sample = &core.SampleFilterDef{Type: enums.FilterTypeGlob, Pattern: "[a-lA-L]*", Scope: enums.ScopeFile}
			c.Samp = &Quant{2, 2, true}
		},
		func(c *Case) { c.Samp = &Quant{2, 1, false} },
		func(c *Case) { c.Samp = &Quant{1, 1, true} },
		func(c *Case) { c.Wake = fdef(enums.FilterTypeRegex, "^[c-m]", 0, false, 0) },
		func(c *Case) { c.Sleep = fdef(enums.FilterTypeRegex, "^[c-m]", 0, false, 0) },
		func(c *Case) { c.Root, c.Abs, c.DropSep = "/srv/root", true, true },
	}
	one := func(c Case, dev, res bool) bool {
		x := c
		if !fn(&x) {
			return false
		}
		m := newModel(&c)
		t := m.run()
		if dev {
			for _, p := range t.invoked() {
				for _, do := range []string{"err", "dir", "all", "panic"} {
					y := c
					y.CB = []Act{{p, do}}
					if !ambiguousSkip(&y) && !fn(&y) {
						return false
					}
				}
			}
			for _, d := range t.Reads {
				y := c
				y.ReadErr = []string{d}
				if !fn(&y) {
					return false
				}
				for _, do := range []string{"dir", "all", "allerr"} {
					y := c
					y.Asker, y.Ask = true, []Act{{d, do}}
					if !fn(&y) {
						return false
					}
				}
			}
		}
		if !res || c.Wake != nil || c.Sleep != nil {
			return true
		}
		for _, p := range t.invoked() {
			for _, s := range []string{"fast", "spawn"} {
				y := c
				y.CB = []Act{{p, "panic"}}
				y.Legs = []Leg{{Strat: s}}
				if !fn(&y) {
					return false
				}
			}
		}
		return true
	}
	treesOf(pick(th, 5, 6), []string{"mix", "echo"}, true, func(es []string) bool {
		for _, s := range allSubs {
			for i, set := range sets {
				c := Case{Entries: es, Sub: s}
				set(&c)
				if tied(&c) {
					continue
				}
				if !one(c, len(es) <= pick(th, 4, 5) || i < 2, len(es) <= pick(th, 4, 5) || i < 2) {
					return false
				}
			}
		}
		return true
	})
	for _, s := range allSubs {
		fn(&Case{Sub: s, Root: "root/f.txt", RootFile: true})
		fn(&Case{Sub: s, Missing: true})
		fn(&Case{Sub: s, StatErr: true, Entries: []string{"a", "b/"}})
	}
	sized(pick(th, 30, 120), pick(th, 20, 80), func(es []string, n int, _ bool) bool {
		for _, s := range allSubs {
			if !fn(&Case{Entries: es, Sub: s, FilesFirst: n%2 == 0}) {
				return false
			}
		}
		return true
	})
}
