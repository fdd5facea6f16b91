package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
)

// C33: what the client was given stays as it was.

// souvenirs are what a client holds on to.
type souvenirs struct {
	nodes []keptNode
	lists []keptList
}

type keptNode struct {
	kind string
	n    *core.Node
	was  string
}

type keptList struct {
	path string
	dc   core.DirectoryContents
	was  string
}

// lineage describes a node, and what it is in.
func lineage(n *core.Node) string {
	var b strings.Builder
	for p := n; p != nil; p = p.Parent {
		e := snap("", p)
		fmt.Fprintf(&b, "%+v kids %d; ", e, len(p.Children))
	}
	return b.String()
}

func listed(dc core.DirectoryContents) string {
	return fmt.Sprint(names(dc.Files()), names(dc.Directories()), names(dc.All()))
}

func (k *souvenirs) node(kind string, n *core.Node) {
	if k != nil {
		k.nodes = append(k.nodes, keptNode{kind, n, lineage(n)})
	}
}

func (k *souvenirs) contents(n *core.Node, dc core.DirectoryContents) {
	if k != nil && dc != nil {
		k.lists = append(k.lists, keptList{n.Path, dc, listed(dc)})
	}
}

func (k *souvenirs) changed() string {
	for _, x := range k.nodes {
		if now := lineage(x.n); now != x.was {
			return fmt.Sprintf("the node given to %s was %s and has become %s", x.kind, x.was, now)
		}
	}
	for _, x := range k.lists {
		if now := listed(x.dc); now != x.was {
			return fmt.Sprintf("the contents of %s were %s and have become %s", x.path, x.was, now)
		}
	}
	return ""
}

func checkKept(c *Case) verdict {
	first := *c
	first.Legs = nil
	first.kept = &souvenirs{}
	want := Model(&first)
	got := execWalk(&first)
	r := verdict{execs: 2, steps: stepsOf(want), sig: sigOf(got)}
	if r.bad = abnormal(got); r.bad != "" {
		return r
	}
	if len(first.kept.nodes) < len(want.invoked()) {
		r.bad = "harness: nothing has been kept"
		return r
	}
	// something else goes on
	if len(c.Legs) > 0 && len(got.SavedRaw) > 0 {
		again := execLeg(&first, &c.Legs[0], got.SavedRaw)
		r.sig += " / " + sigOf(again)
		r.bad = abnormal(again)
	} else {
		execWalk(&Case{Entries: []string{"q/", "q/r.txt", "q/s/", "q/s/t.txt", "u.txt"}, Sub: c.Sub, Asker: true})
	}
	if r.bad == "" {
		r.bad = first.kept.changed()
	}
	return r
}

// C34: navigations which are started from within others.

// nest is a navigation at an event of which something else is navigated.
type nest struct {
	C  *Case // if it has a leg it's resumed, and that's the one
	At string
	H  *hist // what is navigated, or
	N  *nest // another one of its kind
}

// events lists all that happens in a navigation.
func (n *nest) events() []string {
	out := []string{}
	seen := map[string]bool{}
	x := *n.C
	x.on = func(at string) {
		if !seen[at] {
			seen[at] = true
			out = append(out, at)
		}
	}
	if len(x.Legs) == 0 {
		execWalk(&x)
		return out
	}
	on := x.on
	x.on = nil
	x.Legs = nil
	got := execWalk(&x)
	if len(got.SavedRaw) == 0 {
		return nil
	}
	x.on = on
	execLeg(&x, &n.C.Legs[0], got.SavedRaw)
	return out
}

// run navigates, and says what is wrong with any of it.
func (n *nest) run(v *verdict) string {
	var bad string
	inner := false
	x := *n.C
	x.on = func(at string) {
		if at != n.At || inner {
			return
		}
		inner = true
		if n.N != nil {
			bad = n.N.run(v)
		} else {
			r := checkHist(&Case{Extra: n.H.js()})
			v.execs += r.execs
			v.steps = append(v.steps, r.steps...)
			v.sig += r.sig
			bad = r.bad
		}
		if bad != "" {
			bad = "within " + n.At + ": " + bad
		}
	}
	var why string
	if len(x.Legs) == 0 {
		m := newModel(&x)
		want := m.run()
		got := execWalk(&x)
		v.execs++
		v.steps = append(v.steps, stepsOf(want)...)
		v.sig += " / " + sigOf(got)
		if why = diff(histView, want, got); why == "" && want.Err == "saved" {
			why = savedAt(&x, m.panicAt, want.Metrics, got)
		}
	} else {
		leg := &n.C.Legs[0]
		on := x.on
		x.on, x.Legs = nil, nil
		m := newModel(&x)
		m.run()
		got := execWalk(&x)
		x.on = on
		want := resumeModel(&x, leg, m.panicAt.path).run()
		again := execLeg(&x, leg, got.SavedRaw)
		v.execs += 2
		v.steps = append(v.steps, stepsOf(want)...)
		v.sig += " / " + sigOf(again)
		why = diff(view{kinds: "invoke", meta: true, kids: true}, want, again)
	}
	switch {
	case bad != "":
		return bad
	case why != "":
		return "the outer one, with another navigation within " + n.At + ": " + why
	case !inner:
		return "harness: " + n.At + " does not happen"
	}
	return ""
}

func (n *nest) js() string {
	b, _ := json.Marshal(n)
	return string(b)
}

func checkWithin(c *Case) (v verdict) {
	var n nest
	if err := json.Unmarshal([]byte(c.Extra), &n); err != nil {
		return verdict{bad: "harness: " + err.Error()}
	}
	v.bad = n.run(&v)
	return v
}

func genWithin(th bool, fn yield) {
	trees := [][]string{
		{"m/", "m/c.txt", "m/A.log", "K/", "K/l/", "K/l/b.txt", "b.txt", "A.log"},
		{"c.txt", "m/", "m/l/", "m/l/c.txt"},
	}
	emit := func(n *nest) bool { return fn(&Case{Sub: n.C.Sub, Extra: n.js()}) }
	// what is navigated within
	inners := func(es []string, sub uint, set func(*Case)) []*hist {
		c := Case{Entries: es, Sub: sub}
		set(&c)
		out := []*hist{}
		steps := stepsFor(c)
		var broken *hstep
		for i := range steps {
			s := steps[i]
			switch s.Kind {
			case "fast", "spawn":
				if broken != nil {
					out = append(out, &hist{"", []hstep{*broken, s}})
				}
				continue
			}
			if strings.Contains(fmt.Sprint(s.C.CB), "panic") {
				broken = &steps[i]
			}
			out = append(out, &hist{"", []hstep{s}})
		}
		return out
	}
	plain := func(*Case) {}
	sets := histSettings()
	every := func(c *Case, hs []*hist) bool {
		base := &nest{C: c}
		for _, at := range base.events() {
			for _, h := range hs {
				if !emit(&nest{C: c, At: at, H: h}) {
					return false
				}
			}
		}
		return true
	}
	// all outer trees, every event, all kinds of inner navigations
	few := map[uint][]*hist{}
	for _, s := range allSubs {
		few[s] = inners(trees[1], s, plain)
	}
	ok := true
	treesOf(pick(th, 3, 4), []string{"mix"}, false, func(es []string) bool {
		for i, s := range allSubs {
			c := Case{Entries: es, Sub: s, Asker: true}
			ok = every(&c, few[s]) && every(&c, few[allSubs[(i+1)%4]][:2])
			if !ok {
				return false
			}
		}
		return true
	})
	if !ok {
		return
	}
	// outer settings x inner settings
	for i, outer := range sets {
		for j, in := range sets {
			if !th && (i+j)%3 != 0 && i != j {
				continue
			}
			for k, s := range allSubs {
				c := Case{Entries: trees[(i+j)%2], Sub: s}
				outer(&c)
				t := allSubs[(k+i+j)%4]
				hs := inners(trees[(i+j+k)%2], t, in)
				if !every(&c, hs) {
					return
				}
				ps := Model(&c).invoked()
				if len(ps) == 0 {
					continue
				}
				for _, do := range []string{"err", "panic", "all"} {
					x := c
					x.CB = []Act{{ps[len(ps)/2], do}}
					if !every(&x, hs[:1]) {
						return
					}
				}
				if c.Wake != nil || c.Sleep != nil {
					continue
				}
				for _, strat := range []string{"fast", "spawn"} {
					x := c
					x.CB = []Act{{ps[len(ps)/2], "panic"}}
					x.Legs = []Leg{{Strat: strat}}
					if !every(&x, hs[:min(len(hs), 4)]) {
						return
					}
				}
			}
		}
	}
	// three of them
	for _, s := range allSubs {
		a := Case{Entries: trees[1], Sub: s}
		b := Case{Entries: trees[1], Sub: allSubs[(int(s)+1)%4], Wake: fdef(enums.FilterTypeGlob, "[k-m]*", 0, false, 0)}
		for _, at := range (&nest{C: &a}).events() {
			for _, in := range (&nest{C: &b}).events() {
				for _, h := range few[s] {
					if !emit(&nest{C: &a, At: at, N: &nest{C: &b, At: in, H: h}}) {
						return
					}
				}
			}
		}
	}
}
