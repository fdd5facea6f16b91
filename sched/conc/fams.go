package main

// The programs which are explored for each property.

var (
	tNone  = []string{}
	tFile  = []string{"f"}
	tDir   = []string{"a/"}
	tTwo   = []string{"f", "g"}
	tMix   = []string{"a/", "a/f", "g"}
	tDeep  = []string{"a/", "a/b/", "a/b/f"}
	tDirs  = []string{"a/", "a/f", "b/", "b/g"}
	tFour  = []string{"f", "g", "h", "i"}
	tUpper = []string{"F", "a/", "a/f", "a/G", "g"}
	tFive  = []string{"a/", "a/b/", "a/b/f", "a/g", "h"}
	tNest  = []string{"a/", "a/b/", "a/b/f", "a/b/g", "a/c/", "a/c/f", "a/h"}
	trees  = [][]string{tNone, tFile, tDir, tTwo, tMix, tDeep, tDirs, tFour, tUpper, tFive}
)

type fam struct{ list []*Scen }

func (f *fam) add(quick, thorough int, sc Scen) {
	sc.Bound = [2]int{quick, thorough}
	f.list = append(f.list, &sc)
}

func nodes(t []string) int { return len(t) + 1 }

// once: C15, every node once, whatever the schedule.
func famOnce(f *fam) {
	// depth first: the programs with few steps
	for _, t := range [][]string{tNone, tFile, tDir, tTwo} {
		for _, now := range []uint{1, 2} {
			for _, out := range []string{"", "range"} {
				b := 3
				if nodes(t) > 2 || (out != "" && now == 2) {
					b = 2
				}
				f.add(b, b+1, Scen{Fam: "run", Entries: t, Sub: 4, NoW: now, Out: out})
			}
		}
	}
	for _, t := range trees {
		for _, now := range []uint{1, 2, 3} {
			for _, out := range []string{"", "range", "ctx"} {
				b := 1
				if nodes(t) < 5 || (nodes(t) == 5 && now == 2 && out != "ctx") {
					b = 2
				}
				f.add(b, 3, Scen{Fam: "run", Entries: t, Sub: 4, NoW: now, Out: out})
			}
		}
	}
	for _, t := range [][]string{tMix, tDirs, tUpper, tFive} {
		for _, sub := range []uint{1, 2, 3} {
			f.add(1, 3, Scen{Fam: "run", Entries: t, Sub: sub, NoW: 2, Out: "range"})
		}
		for _, feat := range allFeats[1:] {
			for _, sub := range []uint{1, 3, 4} {
				f.add(1, 3, Scen{Fam: "run", Entries: t, Sub: sub, NoW: 2, Feat: feat})
			}
			f.add(1, 3, Scen{Fam: "run", Entries: t, Sub: 4, NoW: 2, Out: "range", Feat: feat})
		}
	}
	for _, t := range [][]string{tTwo, tMix, tFour} {
		for _, in := range []uint{1, 2, 5} {
			for _, size := range []uint{1, 2, 5} {
				f.add(1, 2, Scen{Fam: "run", Entries: t, Sub: 4, NoW: 2, In: in, Out: "range", OutSize: size})
				f.add(1, 2, Scen{Fam: "run", Entries: t, Sub: 4, NoW: 3, In: in, Out: "range", OutSize: size})
			}
		}
		f.add(1, 2, Scen{Fam: "run", Entries: t, Sub: 4}) // the defaults
		f.add(1, 2, Scen{Fam: "run", Entries: t, Sub: 4, Out: "range"})
	}
	// other defaults: which goroutine goes on, and one which is slow to
	for _, t := range [][]string{tNone, tTwo, tMix} {
		for _, now := range []uint{1, 2} {
			for _, out := range []string{"", "range"} {
				for o := 1; o <= 2; o++ {
					f.add(2, 3, Scen{Fam: "order", Entries: t, Sub: 4, NoW: now, Out: out, Order: o})
				}
				for k := 1; k <= 12; k++ {
					f.add(1, 2, Scen{Fam: "slow", Entries: t, Sub: 4, NoW: now, Out: out, Slow: k})
				}
			}
		}
	}
	// what a callback says or does
	for _, do := range []string{"err", "dir", "all", "panic", "sleep:300", "sleep:2500"} {
		for _, t := range [][]string{tNone, tTwo, tMix, tDirs} {
			for i := -1; i < len(t); i++ {
				p := root
				if i >= 0 {
					p = pathOf(t[i])
				}
				for _, out := range []string{"", "range"} {
					if out == "range" && do == "sleep:2500" {
						continue // outputs are dropped when they can't be sent in time
					}
					f.add(1, 2, Scen{Fam: "cb", Entries: t, Sub: 4, NoW: 2, Out: out, CB: map[string]string{p: do}})
				}
			}
		}
		if do != "sleep:2500" {
			f.add(1, 2, Scen{Fam: "cb", Entries: tMix, Sub: 4, NoW: 2, Out: "range",
				CB: map[string]string{"root": do, "root/a": do, "root/a/f": do, "root/g": do}})
			f.add(1, 2, Scen{Fam: "cb", Entries: tMix, Sub: 4, NoW: 1, Out: "range",
				CB: map[string]string{"root": do, "root/a": do, "root/a/f": do, "root/g": do}})
		}
	}
	// resumed, after a panic
	resumed(func(sc Scen, small bool) {
		b := 1
		if small {
			b = 2
		}
		f.add(b, 3, sc)
		sc.Out = "range"
		f.add(1, 2, sc)
	})
	// a directory which can't be read, a root which isn't there
	for _, p := range []string{"root", "root/a", "root/b"} {
		for _, out := range []string{"", "range"} {
			f.add(1, 2, Scen{Fam: "fault", Entries: tDirs, Sub: 4, NoW: 2, Out: out, Fault: p})
		}
	}
	// timers which fire while there's something else to do
	for _, t := range [][]string{tNone, tTwo, tMix} {
		f.add(1, 2, Scen{Fam: "run", Entries: t, Sub: 4, NoW: 2, Early: true})
		f.add(1, 2, Scen{Fam: "run", Entries: t, Sub: 4, NoW: 1, Early: true})
	}
}

// resumed enumerates navigations which are resumed from every path, by either
// strategy.
func resumed(fn func(sc Scen, small bool)) {
	for _, t := range [][]string{tNone, tTwo, tMix, tDeep, tDirs} {
		for i := -1; i < len(t); i++ {
			p := root
			if i >= 0 {
				p = pathOf(t[i])
			}
			for _, how := range []string{"fast", "spawn"} {
				for _, now := range []uint{1, 2} {
					fn(Scen{Fam: "resume", Entries: t, Sub: 4, NoW: now, Resume: how, From: p}, nodes(t) < 4)
				}
				if nodes(t) > 3 {
					for _, feat := range []string{"filter", "sampling", "depth", "subpath", "poly", "both", "samples"} {
						sc := Scen{Fam: "resume", Entries: t, Sub: 4, NoW: 2, Resume: how, From: p, Feat: feat}
						x := newSession(sc.interrupted())
						if x.navigate(); dest(x.err) != "" { // it's part of what is presented
							fn(sc, false)
						}
					}
				}
			}
		}
	}
}

func pathOf(e string) string {
	if n := len(e); e[n-1] == '/' {
		e = e[:n-1]
	}
	return root + "/" + e
}

// famCancel: C16, a context which is cancelled at any point.
func famCancel(f *fam) {
	for _, t := range [][]string{tNone, tFile, tTwo, tMix} {
		for _, now := range []uint{1, 2} {
			for _, out := range []string{"", "ctx"} {
				b := 2
				if nodes(t) > 3 && out != "" {
					b = 1
				}
				if nodes(t) == 1 && out == "" {
					b = 3
				}
				f.add(b, b+1, Scen{Fam: "any", Entries: t, Sub: 4, NoW: now, Out: out, Cancel: "any"})
				f.add(b, b+1, Scen{Fam: "before", Entries: t, Sub: 4, NoW: now, Out: out, Cancel: "before"})
			}
		}
	}
	for _, t := range [][]string{tDirs, tFour, tUpper, tFive} {
		for _, now := range []uint{1, 2, 3} {
			for _, out := range []string{"", "ctx"} {
				f.add(1, 2, Scen{Fam: "any", Entries: t, Sub: 4, NoW: now, Out: out, Cancel: "any"})
			}
			f.add(1, 2, Scen{Fam: "before", Entries: t, Sub: 4, NoW: now, Out: "ctx", Cancel: "before"})
		}
		for _, sub := range []uint{1, 2, 3} {
			f.add(1, 2, Scen{Fam: "any", Entries: t, Sub: sub, NoW: 2, Out: "ctx", Cancel: "any"})
		}
		for _, feat := range allFeats[1:] {
			f.add(1, 2, Scen{Fam: "any", Entries: t, Sub: 4, NoW: 2, Feat: feat, Cancel: "any"})
		}
	}
	for _, t := range [][]string{tNone, tTwo, tMix, tDirs} {
		for i := -1; i < len(t); i++ {
			p := root
			if i >= 0 {
				p = pathOf(t[i])
			}
			for _, now := range []uint{1, 2} {
				for _, out := range []string{"", "ctx"} {
					f.add(1, 2, Scen{Fam: "cb", Entries: t, Sub: 4, NoW: now, Out: out, Cancel: "cb", CB: map[string]string{p: "cancel"}})
					f.add(1, 2, Scen{Fam: "late", Entries: t, Sub: 4, NoW: now, Out: out, Cancel: "late", CB: map[string]string{p: "sleep:1000"}})
				}
				f.add(1, 2, Scen{Fam: "any", Entries: t, Sub: 4, NoW: now, Cancel: "any", CB: map[string]string{p: "panic"}})
				f.add(1, 2, Scen{Fam: "any", Entries: t, Sub: 4, NoW: now, Cancel: "any", CB: map[string]string{p: "sleep:300"}})
			}
			f.add(2, 3, Scen{Fam: "walk", Entries: t, Sub: 4, Walk: true, Cancel: "cb", CB: map[string]string{p: "cancel"}})
		}
		f.add(1, 2, Scen{Fam: "late", Entries: t, Sub: 4, NoW: 2, Cancel: "late", Early: true})
		f.add(1, 2, Scen{Fam: "late", Entries: t, Sub: 4, NoW: 1, Cancel: "late", Early: true})
		f.add(3, 4, Scen{Fam: "walk", Entries: t, Sub: 4, Walk: true, Cancel: "any"})
		f.add(3, 4, Scen{Fam: "walk", Entries: t, Sub: 4, Walk: true, Cancel: "before"})
	}
	for _, p := range []string{"root", "root/a"} {
		f.add(1, 2, Scen{Fam: "fault", Entries: tDirs, Sub: 4, NoW: 2, Fault: p, Cancel: "any"})
	}
	for _, t := range [][]string{tNone, tTwo, tMix} {
		for _, now := range []uint{1, 2} {
			for _, out := range []string{"", "ctx"} {
				for _, c := range []string{"any", "before", "cb"} {
					cb := map[string]string{}
					if c == "cb" {
						cb[root] = "cancel"
					}
					for o := 1; o <= 2; o++ {
						f.add(1, 2, Scen{Fam: "order", Entries: t, Sub: 4, NoW: now, Out: out, Order: o, Cancel: c, CB: cb})
					}
					for k := 1; k <= 12; k++ {
						f.add(1, 2, Scen{Fam: "slow", Entries: t, Sub: 4, NoW: now, Out: out, Slow: k, Cancel: c, CB: cb})
					}
				}
			}
		}
	}
	resumed(func(sc Scen, small bool) {
		if sc.Feat != "" {
			return
		}
		for _, c := range []string{"any", "before"} {
			sc.Cancel, sc.Out = c, ""
			f.add(1, 2, sc)
			sc.Out = "ctx"
			f.add(1, 2, sc)
		}
	})
	for _, in := range []uint{1, 5} {
		f.add(1, 2, Scen{Fam: "any", Entries: tFour, Sub: 4, NoW: 1, In: in, Out: "ctx", OutSize: 1, Cancel: "any"})
		f.add(1, 2, Scen{Fam: "any", Entries: tFour, Sub: 4, NoW: 2, In: in, Out: "ctx", OutSize: 1, Cancel: "any"})
	}
}

// allFeats are what a client can ask for, see feature.
var allFeats = []string{"", "filter", "sampling", "child", "depth", "hiber", "cascade", "subpath",
	"poly", "ext", "both", "samples", "naps", "sort"}

// famApart: C18, sessions of one process at the same time.
func famApart(f *fam) {
	var singles []*Scen
	walk := func(t []string, sub uint, feat string) *Scen {
		return &Scen{Fam: "walk", Entries: t, Sub: sub, Walk: true, Feat: feat}
	}
	run := func(t []string, sub uint, feat, out string) *Scen {
		return &Scen{Fam: "run", Entries: t, Sub: sub, NoW: 1, Feat: feat, Out: out}
	}
	singles = append(singles,
		walk(tMix, 4, ""), walk(tDeep, 2, ""), walk(tUpper, 4, "filter"), walk(tFour, 4, "sampling"),
		walk(tFive, 4, "depth"), walk(tMix, 4, "hiber"), walk(tDirs, 3, ""), walk(tUpper, 1, "cascade"),
		walk(tUpper, 3, "child"), walk(tDirs, 4, "subpath"))
	for i, a := range singles {
		for _, b := range singles[i:] {
			x := *a
			x.Others = []*Scen{b}
			f.add(3, 5, x)
		}
	}
	// trees which overlap
	below := func(t []string, sub uint, feat, tree string) *Scen {
		w := walk(t, sub, feat)
		w.Tree = tree
		return w
	}
	subs := []*Scen{
		walk(tDeep, 4, ""), walk(tNest, 4, ""), walk(tNest, 4, "subpath"), walk(tNest, 1, "filter"),
		below(tDeep, 4, "", "root/a"), below(tNest, 4, "", "root/a"), below(tNest, 4, "subpath", "root/a"),
		below(tNest, 1, "", "root/a/b"), below(tNest, 4, "hiber", "root/a"), below(tNest, 4, "depth", "root/a/b"),
	}
	for i, a := range subs {
		for _, b := range subs[i:] {
			x := *a
			x.Others = []*Scen{b}
			f.add(3, 5, x)
		}
	}
	for _, a := range subs {
		b := run(tNest, 4, "", "")
		b.Tree = "root/a"
		x := *a
		x.Others = []*Scen{b}
		f.add(2, 3, x)
	}
	// three at a time
	for i := 0; i+2 < len(singles); i++ {
		x := *singles[i]
		x.Others = []*Scen{singles[i+1], singles[i+2]}
		f.add(2, 4, x)
	}
	for _, a := range singles {
		x := *a
		x.Others = []*Scen{run(tTwo, 4, "", "")}
		f.add(2, 3, x)
		x.Others = []*Scen{run(tMix, 4, "", "range")}
		f.add(1, 3, x)
	}
	feats := allFeats
	for i, fa := range feats {
		for _, fb := range feats[i:] {
			x := run(tUpper, 4, fa, "")
			y := run(tMix, 4, fb, "")
			x.Others = []*Scen{y}
			f.add(1, 3, *x)
		}
	}
	x := run(tTwo, 4, "", "range")
	x.Others = []*Scen{run(tTwo, 4, "", "range")}
	f.add(2, 3, *x)
	// one is cancelled, or goes wrong, and the other doesn't notice
	for _, do := range []string{"err", "all", "dir"} {
		w := walk(tMix, 4, "")
		w.CB = map[string]string{"root/a": do}
		w.Others = []*Scen{walk(tMix, 4, "")}
		f.add(3, 5, *w)
		r := run(tMix, 4, "", "")
		r.CB = map[string]string{"root/a": do}
		r.Others = []*Scen{walk(tMix, 4, "")}
		f.add(2, 3, *r)
	}
	for _, c := range []string{"any", "before"} {
		r := run(tMix, 4, "", "")
		r.Cancel = c
		r.Others = []*Scen{run(tMix, 4, "", "")}
		f.add(2, 3, *r)
		q := run(tMix, 4, "", "")
		q.Cancel = c
		q.Others = []*Scen{walk(tMix, 4, "filter")}
		f.add(2, 3, *q)
	}
	// the same definitions for both
	for _, feat := range allFeats[1:] {
		for _, tt := range [][]string{tUpper, tMix, tFour} {
			for sub := uint(1); sub <= 4; sub++ {
				w := walk(tt, sub, feat)
				w.OneDef = true
				w.Others = []*Scen{walk(tt, sub, feat)}
				f.add(2, 4, *w)
			}
		}
		w := walk(tUpper, 4, feat)
		w.OneDef = true
		w.Others = []*Scen{walk(tMix, 4, feat), walk(tDeep, 1, feat)}
		f.add(1, 3, *w)
		r := run(tUpper, 4, feat, "")
		r.OneDef = true
		r.Others = []*Scen{run(tUpper, 4, feat, "")}
		f.add(1, 2, *r)
	}
	p := walk(tMix, 4, "")
	p.Fault = "root/a"
	p.Others = []*Scen{walk(tMix, 4, "")}
	f.add(3, 5, *p)
}

// famSaves: C29, navigations which are interrupted at the same time.
func famSaves(f *fam) {
	type how struct {
		t            []string
		tree, at     string
		resume, from string
	}
	of := func(h how) *Scen {
		return &Scen{Fam: "saves", Entries: h.t, Sub: 4, Walk: true, Tree: h.tree,
			CB: map[string]string{h.at: "panic"}, Resume: h.resume, From: h.from, OneFS: true}
	}
	for _, t := range [][]string{tNone, tMix, tDeep, tDirs} {
		hows := []how{{t: t, at: root}}
		for i, e := range t {
			p := pathOf(e)
			hows = append(hows, how{t: t, at: p})
			if e[len(e)-1] == '/' {
				hows = append(hows, how{t: t, tree: p, at: p})
			}
			if i == 0 {
				hows = append(hows, how{t: t, at: p, resume: "fast", from: p}, how{t: t, at: p, resume: "spawn", from: p})
			}
		}
		for i, a := range hows {
			for _, b := range hows[i:] {
				x := of(a)
				x.Others = []*Scen{of(b)}
				f.add(3, 4, *x)
			}
		}
		for i := range hows {
			x := of(hows[i])
			x.Others = []*Scen{of(hows[(i+1)%len(hows)]), of(hows[(i+2)%len(hows)])}
			f.add(2, 3, *x)
			y := of(hows[i])
			y.Others = []*Scen{of(hows[i]), of(hows[i])}
			f.add(2, 3, *y)
		}
	}
	// while others go on
	for _, feat := range []string{"", "filter", "sampling"} {
		x := of(how{t: tMix, at: "root/a/f"})
		x.Others = []*Scen{
			{Fam: "saves", Entries: tMix, Sub: 4, Walk: true, Feat: feat, OneFS: true},
			of(how{t: tMix, at: "root/g"}),
		}
		f.add(2, 3, *x)
		x.Others = []*Scen{
			{Fam: "saves", Entries: tMix, Sub: 4, NoW: 1, Feat: feat, OneFS: true},
		}
		f.add(1, 3, *x)
	}
}

// famRace: C17, all kinds of programs, under the race detector.
func famRace(f *fam) {
	var all fam
	famOnce(&all)
	famCancel(&all)
	famApart(&all)
	famSaves(&all)
	seen := map[string]bool{}
	for _, sc := range all.list {
		x := *sc
		x.Bound = [2]int{}
		if seen[x.js()] {
			continue
		}
		seen[x.js()] = true
		q := 1
		if nodes(sc.Entries) > 5 && sc.Bound[0] == 1 || len(sc.Others) > 1 {
			q = 0
		}
		f.add(q, 2, *sc)
	}
}

func scenarios(id string) []*Scen {
	f := &fam{}
	switch id {
	case "C15":
		famOnce(f)
	case "C16":
		famCancel(f)
	case "C17":
		famRace(f)
	case "C18":
		famApart(f)
	case "C29":
		famSaves(f)
	}
	return f.list
}
