package main

import (
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
)

// settings which have to survive being saved and loaded again.
func resumeSettings() []func(*Case) {
	f := fdef(enums.FilterTypeGlob, "[a-l]*", 0, false, 0)
	leaf := fdef(enums.FilterTypeRegex, "^[b-l]", enums.ScopeLeaf, true, enums.TriStateBoolFalse)
	ex := fdef(enums.FilterTypeGlobEx, "*|*.txt,*.log", 0, true, enums.TriStateBoolFalse)
	poly := &core.FilterDef{Type: enums.FilterTypePoly, Poly: &core.PolyFilterDef{
		File:      *fdef(enums.FilterTypeGlob, "*.txt", 0, false, 0),
		Directory: *fdef(enums.FilterTypeRegex, "o|k|m", 0, false, enums.TriStateBoolFalse)}}
	return []func(*Case){
		func(*Case) {},
		func(c *Case) { c.FilesFirst = true },
		func(c *Case) { c.CSSort = true },
		func(c *Case) { c.DropSep = true },
		func(c *Case) { c.Depth = 2 },
		func(c *Case) { c.NoRecurse = true },
		func(c *Case) { c.Node = f },
		func(c *Case) { c.Node = leaf },
		func(c *Case) { c.Node = ex; c.FilesFirst = true },
		func(c *Case) { c.Node = poly },
		func(c *Case) { c.Custom = &CustomF{[]string{"m", "c.txt", "K", "A.log", "root"}} },
		func(c *Case) {
			c.Child = &core.ChildFilterDef{Type: enums.FilterTypeGlob, Pattern: "*.txt", Negate: c.Sub%2 == 1}
		},
		func(c *Case) {
			c.Sample = &core.SampleFilterDef{Type: enums.FilterTypeGlob, Pattern: "[a-l]*", Scope: enums.ScopeFile}
			c.Samp = &Quant{2, 2, true}
		},
		func(c *Case) { c.Samp = &Quant{2, 1, false} },
		func(c *Case) { c.Samp = &Quant{1, 2, true}; c.FilesFirst = true },
		func(c *Case) { c.Depth = 3; c.CSSort = true; c.FilesFirst = true; c.DropSep = true },
	}
}

// genResume: a panic at every node which is visited, resumed, with every
// deviation of the resumed navigation.
func genResume(strat string) func(bool, yield) {
	return func(th bool, fn yield) {
		one := func(c Case, dev bool) bool {
			first := c
			for _, p := range Model(&first).invoked() {
				c.CB = []Act{{p, "panic"}}
				c.Legs = []Leg{{Strat: strat}}
				x := c
				if !fn(&x) {
					return false
				}
				if !dev {
					continue
				}
				m0 := c
				m0.Legs = nil
				m := newModel(&m0)
				m.run()
				rest := resumeModel(&c, &Leg{}, m.panicAt.path).run().invoked()
				for _, q := range rest {
					for _, do := range []string{"err", "dir", "all", "panic", "dirwrap"} {
						y := c
						y.CB = c.CB
						y.Legs = []Leg{{Strat: strat, CB: []Act{{q, do}}}}
						if z := y; true {
							z.CB = y.Legs[0].CB
							if ambiguousSkip(&z) {
								continue
							}
						}
						if do == "panic" {
							// resumed once more, by either means
							for _, s2 := range []string{"fast", "spawn"} {
								y.Legs = []Leg{{Strat: strat, CB: []Act{{q, do}}}, {Strat: s2}}
								z := y
								if !fn(&z) {
									return false
								}
							}
							continue
						}
						if !fn(&y) {
							return false
						}
					}
				}
			}
			return true
		}
		names := []string{"mix", "echo"}
		if th {
			names = append(names, "desc", "uni")
		}
		treesOf(pick(th, 5, 6), names, true, func(es []string) bool {
			for _, s := range allSubs {
				for i, set := range resumeSettings() {
					for ri, r := range []rootv{{"root", false}, {"/srv/d.d/root", true}, {"home/root", false}, {".", false}, {"/", true}, {"root", false}} {
						if ri > 0 && (len(es) > 4 && !th || i > 6 && ri != 3 || ri == 5 && len(es) > 3) {
							continue
						}
						c := Case{Entries: es, Sub: s, Root: r.root, Abs: r.abs}
						if ri == 5 {
							c.Spell = ".//root/./"
						}
						set(&c)
						if tied(&c) {
							continue
						}
						small := len(es) <= pick(th, 4, 5) && (i < 4 || len(es) <= 3)
						if !one(c, small && ri < 2) {
							return false
						}
					}
				}
			}
			return true
		})
		// resumed three times
		treesOf(pick(th, 3, 4), []string{"mix"}, false, func(es []string) bool {
			for _, s := range allSubs {
				for _, ff := range []bool{false, true} {
					ps := Model(&Case{Entries: es, Sub: s, FilesFirst: ff}).invoked()
					for a := range ps {
						for b := range ps {
							for d := range ps {
								c := Case{Entries: es, Sub: s, FilesFirst: ff, CB: []Act{{ps[a], "panic"}},
									Legs: []Leg{{Strat: strat, CB: []Act{{ps[b], "panic"}}}, {Strat: strat, CB: []Act{{ps[d], "panicerr"}}}, {Strat: strat}}}
								if !fn(&c) {
									return false
								}
							}
						}
					}
				}
			}
			return true
		})
	}
}
