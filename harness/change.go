package main

import (
	"fmt"
	"strings"

	"github.com/snivilised/agenor/enums"
)

// A tree which changes while it is navigated: the callback, the listeners and
// the skip handler remove and make things in it.

// verbsFor are the changes a case can undergo at an event: of every path there
// is, and of new ones in every directory there is.
func changesOf(c *Case, more bool) []string {
	out := []string{}
	for _, p := range c.paths() {
		out = append(out, "rm "+p)
		if p != c.root() {
			out = append(out, "file "+p, "dir "+p)
		}
	}
	for _, d := range c.dirs() {
		out = append(out, "file "+d+"/ab.txt", "dir "+d+"/zz")
		if more {
			out = append(out, "dir "+d+"/L;file "+d+"/L/p.txt", "file "+d+"/00")
		}
	}
	return out
}

// eventsOf are the events of a case at which somebody is told of something.
func eventsOf(c *Case, kinds string) []string {
	x := *c
	t := Model(&x)
	out := []string{}
	for _, e := range (view{kinds: kinds}).of(t) {
		if e.L == 0 && e.K != "end" {
			out = append(out, e.K+" "+e.P)
		}
	}
	return out
}

func changeSettings() []func(*Case) {
	return []func(*Case){
		func(*Case) {},
		func(c *Case) { c.FilesFirst = true; c.Asker = true },
		func(c *Case) { c.Depth = 2; c.Asker = true },
		func(c *Case) { c.CSSort = true; c.Samp = &Quant{2, 1, false} },
		func(c *Case) { c.Node = fdef(enums.FilterTypeRegex, "[a-m]", 0, false, 0) },
	}
}

const changing = "begin descend ascend invoke ask wake sleep"

func genChange(th bool, fn yield) {
	with := func(c Case, kinds string, more bool, fn func(c Case) bool) bool {
		for _, at := range eventsOf(&c, kinds) {
			for _, do := range changesOf(&c, more) {
				x := c
				x.Chg = append(append([]Chg{}, c.Chg...), Chg{at, do})
				if !fn(x) {
					return false
				}
			}
		}
		return true
	}
	last := func(c Case) bool { return fn(&c) }
	// one change, at every event
	treesOf(pick(th, 3, 4), []string{"mix", "echo"}, false, func(es []string) bool {
		for _, s := range allSubs {
			for i, set := range changeSettings() {
				c := Case{Entries: es, Sub: s}
				set(&c)
				if len(es) > pick(th, 2, 3) && i > 2 {
					break
				}
				if i%2 == 1 {
					c.Root, c.Abs = "/srv/root", true
				}
				if !with(c, changing, len(es) < 3, last) {
					return false
				}
			}
		}
		return true
	})
	// with something which hibernates, and with a client which deviates
	treesOf(pick(th, 2, 3), []string{"mix"}, false, func(es []string) bool {
		for _, s := range allSubs {
			for _, p := range (&Case{Entries: es}).paths() {
				c := Case{Entries: es, Sub: s, Wake: fdef(enums.FilterTypeGlob, base(p), 0, false, 0), SleepIncl: true}
				if !with(c, changing, false, last) {
					return false
				}
				for _, do := range []string{"dir", "all", "err"} {
					c := Case{Entries: es, Sub: s, CB: []Act{{p, do}}}
					if ambiguousSkip(&c) {
						continue
					}
					if !with(c, "descend invoke", false, last) {
						return false
					}
				}
			}
		}
		return true
	})
	// two changes, one after the other
	treesOf(pick(th, 2, 3), []string{"mix"}, false, func(es []string) bool {
		for _, s := range allSubs {
			c := Case{Entries: es, Sub: s, Asker: len(es) == 1}
			if !with(c, "descend invoke", false, func(c Case) bool {
				return with(c, "invoke", false, last)
			}) {
				return false
			}
		}
		return true
	})
	// larger trees
	cs := curated()
	for _, k := range sortedKeys(cs) {
		for _, s := range allSubs {
			c := Case{Entries: cs[k], Sub: s, Asker: s == subFiles}
			if tied(&c) {
				continue
			}
			if len(cs[k]) > pick(th, 16, 40) {
				continue
			}
			if !with(c, "invoke", false, last) {
				return
			}
		}
	}
}

// within: p is q or inside of it.
func within(p, q string) bool { return p == q || strings.HasPrefix(p, q+"/") }

// lost: what is done to the tree takes a directory away.
func lost(do, dir string) bool {
	for _, d := range strings.Split(do, ";") {
		_, p, _ := strings.Cut(d, " ")
		if within(dir, p) {
			return true
		}
	}
	return false
}

// genStale: a panic at every node, and every change of the tree before it is
// resumed.
func genStale(th bool, fn yield) {
	one := func(c Case, pairs bool) bool {
		first := c
		for _, p := range Model(&first).invoked() {
			x := c
			x.CB = []Act{{p, "panic"}}
			all := changesOf(&c, true)
			for i, a := range all {
				for _, strat := range []string{"fast", "spawn"} {
					y := x
					y.Legs = []Leg{{Strat: strat, Chg: a}}
					if !fn(&y) {
						return false
					}
					if !pairs {
						continue
					}
					for j, b := range all {
						if i == j {
							continue
						}
						y := x
						y.Legs = []Leg{{Strat: strat, Chg: a + ";" + b}}
						if !fn(&y) {
							return false
						}
					}
				}
			}
		}
		return true
	}
	sets := []func(*Case){
		func(*Case) {},
		func(c *Case) { c.FilesFirst = true; c.Asker = true },
		func(c *Case) { c.Depth = 2; c.CSSort = true },
		func(c *Case) { c.Node = fdef(enums.FilterTypeRegex, "[a-m]", 0, false, 0) },
		func(c *Case) { c.Root, c.Abs = "/srv/root", true },
	}
	treesOf(pick(th, 4, 5), []string{"mix", "echo"}, false, func(es []string) bool {
		for _, s := range allSubs {
			for i, set := range sets {
				if i > 1 && len(es) > pick(th, 3, 4) {
					break
				}
				c := Case{Entries: es, Sub: s}
				set(&c)
				if !one(c, len(es) <= pick(th, 2, 3) && i < 2) {
					return false
				}
			}
		}
		return true
	})
	cs := curated()
	for _, k := range sortedKeys(cs) {
		for _, s := range allSubs {
			c := Case{Entries: cs[k], Sub: s}
			if tied(&c) || len(cs[k]) > pick(th, 16, 40) {
				continue
			}
			if !one(c, false) {
				return
			}
		}
	}
}

// checkStale: where the directory in which it was interrupted is still there,
// the navigation carries on from it in the tree as it is now. Otherwise there
// is nothing to carry on from; nothing is visited twice, out of order or which
// does not exist.
func checkStale(v view) func(*Case) verdict {
	same := resumption(v)
	return func(c *Case) verdict {
		m := newModel(c)
		m.run()
		leg := &c.Legs[0]
		if !lost(leg.Chg, m.panicAt.path) {
			return same(c)
		}
		got := execWalk(c)
		want := resumeModel(c, leg, "").run()
		r := verdict{execs: 2, steps: stepsOf(want)}
		got = execLeg(c, leg, got.SavedRaw)
		r.sig = sigOf(got)
		if r.bad = abnormal(got); r.bad != "" {
			return r
		}
		all := want.invoked()
		i := 0
		for _, p := range got.invoked() {
			for i < len(all) && all[i] != p {
				i++
			}
			if i == len(all) {
				r.bad = "resumed where there is nothing to resume from: " + fmt.Sprint(got.invoked(), " of ", all)
				return r
			}
			i++
		}
		if n := len(got.kinds("begin")); n > 1 || len(got.kinds("end")) > 1 {
			r.bad = "begins or ends more than once"
		}
		return r
	}
}
