package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/snivilised/agenor/collections"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/life"
)

// C24, C25: the public building blocks against reference machines. Every
// sequence of operations up to a length is executed on the implementation and
// on the machine, what is observable is compared after every operation.

// machine is one building block, set up in one way.
type machine struct {
	ops []string
	// start gives the implementation and the model: both answer an operation
	// with everything that can be observed of them.
	start func() (impl, model func(op string) string)
}

// programs under a prefix: a case is the machine, the first operations and how
// many more there are.
func checkMachine(table func(string) *machine) func(*Case) verdict {
	return func(c *Case) (v verdict) {
		parts := strings.Split(c.Extra, "|")
		m := table(parts[0])
		prefix := strings.Fields(parts[1])
		more := len(parts[2])
		states := map[string]bool{}
		var rec func(prog []string, k int) bool
		rec = func(prog []string, k int) bool {
			if k > 0 {
				for _, op := range m.ops {
					if !rec(append(append([]string{}, prog...), op), k-1) {
						return false
					}
				}
				return true
			}
			v.execs++
			impl, model := m.start()
			for i, op := range append([]string{""}, prog...) {
				want := model(op)
				got := caught(func() string { return impl(op) })
				if want != got {
					v.bad = fmt.Sprintf("%s, after [%s]: expected %s, got %s", parts[0], strings.Join(prog[:i], " "), want, got)
					return false
				}
				states[want] = true
			}
			return true
		}
		rec(prefix, more)
		v.steps = append([]string{parts[0]}, prefix...)
		all := []string{}
		for s := range states {
			all = append(all, s)
		}
		sort.Strings(all)
		v.steps = append(v.steps, all...)
		v.sig = strings.Join(all, ";")
		return v
	}
}

func caught(f func() string) (s string) {
	defer func() {
		if x := recover(); x != nil {
			s = fmt.Sprint("panic: ", x)
			if err, ok := x.(error); ok && errors.Is(err, collections.ErrStackIsEmpty) {
				s = "panic: empty"
			}
		}
	}()
	return f()
}

// programsOf: every sequence of the given length, by prefixes of two.
func programsOf(name string, m *machine, length int, fn yield) bool {
	rest := length - 2
	for _, a := range m.ops {
		for _, b := range m.ops {
			if !fn(&Case{Extra: name + "|" + a + " " + b + "|" + strings.Repeat(".", rest)}) {
				return false
			}
		}
	}
	return true
}

// --- collections ---------------------------------------------------------

func setMachine(order []int, anchor int) *machine {
	universe := []int{0, 1, 2, 3, 9}
	m := &machine{ops: []string{"all:1,2", "all:2,0", "all:3,9,1", "all:"}}
	for _, x := range universe {
		m.ops = append(m.ops, fmt.Sprint("ins:", x), fmt.Sprint("del:", x))
	}
	// observing is an operation too: what has been looked at may be kept
	m.ops = append(m.ops, "items", "top")
	args := func(op string) (string, []int) {
		k, rest, _ := strings.Cut(op, ":")
		xs := []int{}
		for _, f := range strings.FieldsFunc(rest, func(r rune) bool { return r == ',' }) {
			x := 0
			fmt.Sscan(f, &x)
			xs = append(xs, x)
		}
		return k, xs
	}
	m.start = func() (func(string) string, func(string) string) {
		given := append([]int{}, order...)
		ps := collections.NewPositionalSet(given, anchor)
		// what the set may contain, in order
		valid := []int{}
		for _, x := range order {
			seen := x == anchor
			for _, y := range valid {
				seen = seen || x == y
			}
			if !seen {
				valid = append(valid, x)
			}
		}
		valid = append(valid, anchor)
		have := map[int]bool{anchor: true}
		count := 0
		impl := func(op string) string {
			out := ""
			switch k, xs := args(op); k {
			case "ins":
				out = fmt.Sprint(ps.Insert(xs[0]))
			case "del":
				ps.Delete(xs[0])
			case "all":
				out = fmt.Sprint(ps.All(xs...))
			case "items":
				out = fmt.Sprint(ps.Items())
			case "top":
				out = fmt.Sprint(ps.Top())
			}
			count++
			// what doesn't touch what is kept, every time
			out += fmt.Sprint(" #", ps.Count())
			for _, x := range universe {
				pos, ok := ps.Position(x)
				out += fmt.Sprint(" ", ps.Contains(x), pos, ok)
			}
			out += fmt.Sprint(given)
			return out
		}
		model := func(op string) string {
			out := ""
			at := func(x int) int {
				for i, y := range valid {
					if x == y {
						return i
					}
				}
				return -1
			}
			insert := func(x int) bool {
				if at(x) < 0 || have[x] {
					return false
				}
				have[x] = true
				return true
			}
			items := func() []int {
				r := []int{}
				for _, x := range valid {
					if have[x] {
						r = append(r, x)
					}
				}
				return r
			}
			switch k, xs := args(op); k {
			case "ins":
				out = fmt.Sprint(insert(xs[0]))
			case "del":
				if xs[0] != anchor {
					delete(have, xs[0])
				}
			case "all":
				r := true
				for _, x := range xs {
					r = insert(x) && r
				}
				out = fmt.Sprint(r)
			case "items":
				out = fmt.Sprint(items())
			case "top":
				out = fmt.Sprint(items()[0])
			}
			out += fmt.Sprint(" #", len(have))
			for _, x := range universe {
				p := at(x)
				if p < 0 {
					out += fmt.Sprint(" ", have[x], 0, false)
				} else {
					out += fmt.Sprint(" ", have[x], p, true)
				}
			}
			return out + fmt.Sprint(order)
		}
		return impl, model
	}
	return m
}

func stackMachine(with []string) *machine {
	m := &machine{ops: []string{"push:a", "push:b", "pop", "mustpop", "current"}}
	m.start = func() (func(string) string, func(string) string) {
		var st *collections.Stack[string]
		if with == nil {
			st = collections.NewStack[string]()
		} else {
			st = collections.NewStackWith(append([]string{}, with...))
		}
		ref := append([]string{}, with...)
		show := func(x string, err error) string {
			if errors.Is(err, collections.ErrStackIsEmpty) {
				return "empty" + x
			}
			return fmt.Sprint(x, err)
		}
		impl := func(op string) string {
			out := ""
			switch op {
			case "push:a", "push:b":
				st.Push(op[5:])
			case "pop":
				out = show(st.Pop())
			case "mustpop":
				out = caught(func() string { return st.MustPop() })
			case "current":
				out = show(st.Current())
			}
			return fmt.Sprint(out, " ", st.Size(), st.IsEmpty(), st.Content())
		}
		model := func(op string) string {
			out := ""
			switch op {
			case "push:a", "push:b":
				ref = append(ref, op[5:])
			case "pop", "current", "mustpop":
				switch {
				case len(ref) > 0:
					out = ref[len(ref)-1]
					if op != "mustpop" {
						out = fmt.Sprint(out, nil)
					}
					if op != "current" {
						ref = ref[:len(ref)-1]
					}
				case op == "mustpop":
					out = "panic: empty"
				default:
					out = "empty"
				}
			}
			return fmt.Sprint(out, " ", len(ref), len(ref) == 0, ref)
		}
		return impl, model
	}
	return m
}

// itMachine: Next is for use after Start, while Valid.
func itMachine(elements []string, reverse, run bool) *machine {
	m := &machine{ops: []string{"start", "next", "reset:", "reset:x", "reset:x,y", "reset:p,q,r"}}
	if run {
		m.ops = append(m.ops, "run", "run:1", "run:2")
	}
	const zero = "-"
	m.start = func() (func(string) string, func(string) string) {
		var it collections.Iterator[string]
		var rit collections.RunnableIterator[string, int]
		given := append([]string{}, elements...)
		switch {
		case run && reverse:
			rit = collections.ReverseRunIt[string, int](given, zero)
		case run:
			rit = collections.ForwardRunIt[string, int](given, zero)
		case reverse:
			it = collections.ReverseIt(given, zero)
		default:
			it = collections.ForwardIt(given, zero)
		}
		if run {
			it = rit
		}
		split := func(op string) []string {
			return strings.FieldsFunc(strings.TrimPrefix(op, "reset:"), func(r rune) bool { return r == ',' })
		}
		limit := func(op string) int {
			n := 99
			if _, a, ok := strings.Cut(op, ":"); ok {
				fmt.Sscan(a, &n)
			}
			return n
		}
		started := false // by the contract; both sides
		valid := false
		impl := func(op string) string {
			out := ""
			switch {
			case op == "start":
				out = it.Start()
			case op == "next":
				if started {
					out = it.Next()
				}
			case strings.HasPrefix(op, "reset"):
				it.Reset(split(op))
			case strings.HasPrefix(op, "run"):
				n := 0
				rit.RunAll(func(s string) int { out += "e" + s; n++; return n },
					func(s string, r int) bool { out += fmt.Sprint("w", s, r); return r < limit(op) })
			}
			return fmt.Sprint(out, " ", it.Valid())
		}
		ref := append([]string{}, elements...)
		pos := -1
		begun := false
		model := func(op string) string {
			at := func(i int) string {
				if i < 0 || i >= len(ref) {
					return zero
				}
				if reverse {
					return ref[len(ref)-1-i]
				}
				return ref[i]
			}
			out := ""
			started = begun && valid // Next isn't for use otherwise
			switch {
			case op == "start":
				pos, begun = 0, true
				out = at(0)
			case op == "next":
				if started {
					pos++
					out = at(pos)
				}
			case strings.HasPrefix(op, "reset"):
				ref, pos, begun = split(op), -1, false
			case strings.HasPrefix(op, "run"):
				begun = true
				for pos = 0; pos < len(ref); pos++ {
					out += "e" + at(pos) + fmt.Sprint("w", at(pos), pos+1)
					if pos+1 >= limit(op) {
						break
					}
				}
			}
			valid = begun && pos >= 0 && pos < len(ref)
			return fmt.Sprint(out, " ", valid)
		}
		return impl, model
	}
	return m
}

// metricsMachine: counters by kind, and merging them.
func metricsMachine() *machine {
	kinds := []enums.Metric{enums.MetricNoFilesInvoked, enums.MetricNoDirectoriesInvoked, enums.MetricNoChildFilesFound}
	m := &machine{ops: []string{"a.merge.b", "b.merge.a", "a.merge.none"}}
	for _, w := range []string{"a", "b"} {
		for i := range kinds {
			m.ops = append(m.ops, fmt.Sprint(w, ".tick.", i), fmt.Sprint(w, ".times.", i))
		}
	}
	m.start = func() (func(string) string, func(string) string) {
		set := map[string]core.Metrics{"a": {}, "b": {}}
		ref := map[string]map[int]int{"a": {}, "b": {}}
		parse := func(op string) (string, string, string, int) {
			f := strings.Split(op, ".")
			k := 0
			fmt.Sscan(f[2], &k)
			return f[0], f[1], f[2], k
		}
		impl := func(op string) string {
			if op != "" {
				w, what, other, k := parse(op)
				if what == "merge" {
					set[w].Merge(set[other])
				} else {
					x := set[w][kinds[k]]
					if x == nil {
						x = &core.NavigationMetric{T: kinds[k]}
						set[w][kinds[k]] = x
					}
					if what == "tick" {
						x.Tick()
					} else {
						x.Times(3)
					}
				}
			}
			out := ""
			for _, w := range []string{"a", "b"} {
				for _, k := range kinds {
					if x := set[w][k]; x == nil {
						out += " none"
					} else {
						out += fmt.Sprint(" ", x.Type() == k, x.Value())
					}
				}
			}
			return out
		}
		model := func(op string) string {
			if op != "" {
				w, what, other, k := parse(op)
				switch what {
				case "merge":
					for k, n := range ref[other] {
						ref[w][k] += n
					}
				case "tick":
					ref[w][k]++
				case "times":
					ref[w][k] += 3
				}
			}
			out := ""
			for _, w := range []string{"a", "b"} {
				for k := range kinds {
					if n, ok := ref[w][k]; !ok {
						out += " none"
					} else {
						out += fmt.Sprint(" ", true, n)
					}
				}
			}
			return out
		}
		return impl, model
	}
	return m
}

// scopeMachine: the scope of a filter as a set of kinds of nodes.
func scopeMachine() *machine {
	masks := []enums.FilterScope{enums.ScopeUndefined, enums.ScopeTree, enums.ScopeTop, enums.ScopeLeaf, enums.ScopeIntermediate,
		enums.ScopeFile, enums.ScopeDirectory, enums.ScopeCustom, enums.ScopeFile | enums.ScopeLeaf, enums.ScopeAll}
	member := [][]int{{}, {1}, {2}, {3}, {4}, {5}, {6}, {7}, {5, 3}, {0, 1, 2, 3, 4, 5, 6, 7}} // 0: whatever has no name
	m := &machine{}
	for i := range masks {
		m.ops = append(m.ops, fmt.Sprint("set:", i), fmt.Sprint("clear:", i))
	}
	m.ops = append(m.ops, "scrub")
	m.start = func() (func(string) string, func(string) string) {
		var sc enums.FilterScope
		ref := map[int]bool{}
		parse := func(op string) (string, int) {
			verb, k, _ := strings.Cut(op, ":")
			i := 0
			fmt.Sscan(k, &i)
			return verb, i
		}
		show := func(tree, dir, file bool, all []bool) string { return fmt.Sprint(tree, dir, file, all) }
		impl := func(op string) string {
			switch verb, i := parse(op); verb {
			case "set":
				sc.Set(masks[i])
			case "clear":
				sc.Clear(masks[i])
			case "scrub":
				was := sc
				now := sc.Scrub()
				if sc != was {
					return "scrubbing changes the scope"
				}
				sc = now
			}
			all := []bool{sc&^(1<<7-1) != 0}
			for i := 1; i < 8; i++ {
				all = append(all, sc&masks[i] != 0)
			}
			return show(sc.IsTree(), sc.IsDirectory(), sc.IsFile(), all)
		}
		model := func(op string) string {
			switch verb, i := parse(op); verb {
			case "set", "clear":
				for _, x := range member[i] {
					ref[x] = verb == "set"
				}
			case "scrub":
				for x := range ref {
					if x != 5 && x != 6 {
						ref[x] = false
					}
				}
			}
			all := []bool{}
			for i := 0; i < 8; i++ {
				all = append(all, ref[i])
			}
			return show(ref[1], ref[6], ref[5], all)
		}
		return impl, model
	}
	return m
}

var setOrders = [][]int{{}, {9}, {1}, {1, 2, 3}, {3, 2, 1}, {2, 9, 1}, {9, 1, 2}, {1, 2, 9}, {1, 1, 2}, {2, 1, 2, 1}, {0, 1}, {9, 3, 9, 0, 3, 1}}

func collection(name string) *machine {
	var kind string
	var i int
	fmt.Sscanf(strings.Replace(name, ":", " ", 1), "%s %d", &kind, &i)
	els := [][]string{nil, {"a"}, {"a", "b"}, {"a", "b", "c"}}
	switch kind {
	case "set":
		return setMachine(setOrders[i], 9)
	case "set0":
		return setMachine(setOrders[i], 0) // the zero value as the anchor
	case "stack":
		return stackMachine(els[i])
	case "forward":
		return itMachine(els[i], false, false)
	case "reverse":
		return itMachine(els[i], true, false)
	case "forwardrun":
		return itMachine(els[i], false, true)
	case "reverserun":
		return itMachine(els[i], true, true)
	case "scope":
		return scopeMachine()
	}
	return metricsMachine()
}

func genCollections(th bool, fn yield) {
	run := func(kind string, n, length int) bool {
		for i := 0; i < n; i++ {
			name := fmt.Sprint(kind, ":", i)
			if !programsOf(name, collection(name), length, fn) {
				return false
			}
		}
		return true
	}
	_ = run("stack", 4, pick(th, 8, 9)) && run("forward", 4, pick(th, 7, 8)) && run("reverse", 4, pick(th, 7, 8)) &&
		run("forwardrun", 4, pick(th, 6, 7)) && run("reverserun", 4, pick(th, 6, 7)) && run("metrics", 1, pick(th, 5, 6)) && run("scope", 1, pick(th, 4, 5)) &&
		run("set", len(setOrders), pick(th, 4, 5)) && run("set0", len(setOrders), pick(th, 4, 5))
}

// --- life cycle events -----------------------------------------------------

var eventNames = []string{"ascend", "begin", "descend", "end", "wake", "sleep"}

// lifeMachine: subscriptions and muting, over controllers to which the events
// are bound again.
func lifeMachine(nested bool) *machine {
	m := &machine{ops: []string{"muteall", "unmuteall", "bind"}}
	evs := eventNames
	if nested {
		evs = []string{"begin", "descend", "sleep"}
	}
	for _, e := range evs {
		m.ops = append(m.ops, "on:"+e, "mute:"+e, "unmute:"+e)
		if nested {
			m.ops = append(m.ops, "sub:"+e)
		}
	}
	m.start = func() (func(string) string, func(string) string) {
		var log []string
		events := &life.Events{}
		controls := []*life.Controls{life.NewControls()}
		events.Bind(controls[0])
		n := 0
		var on func(e string, f func(payload string))
		on = func(e string, f func(string)) {
			switch e {
			case "ascend":
				events.Ascend.On(func(n *core.Node) { f(n.Path) })
			case "descend":
				events.Descend.On(func(n *core.Node) { f(n.Path) })
			case "begin":
				events.Begin.On(func(s *life.BeginState) { f(s.Tree) })
			case "end":
				events.End.On(func(r core.TraverseResult) { f(fmt.Sprint(r == nil)) })
			case "wake":
				events.Wake.On(func(d string) { f(d) })
			case "sleep":
				events.Sleep.On(func(d string) { f(d) })
			}
		}
		dispatch := func(c *life.Controls, e string) {
			switch e {
			case "ascend":
				c.Ascend.Dispatch()(&core.Node{Path: "A"})
			case "descend":
				c.Descend.Dispatch()(&core.Node{Path: "D"})
			case "begin":
				c.Begin.Dispatch()(&life.BeginState{Tree: "B"})
			case "end":
				c.End.Dispatch()(nil)
			case "wake":
				c.Wake.Dispatch()("W")
			case "sleep":
				c.Sleep.Dispatch()("S")
			}
		}
		mute := func(c *life.Controls, e string, yes bool) {
			type ctl interface {
				Mute()
				Unmute()
			}
			x := map[string]ctl{"ascend": &c.Ascend, "begin": &c.Begin, "descend": &c.Descend, "end": &c.End, "wake": &c.Wake, "sleep": &c.Sleep}[e]
			if yes {
				x.Mute()
			} else {
				x.Unmute()
			}
		}
		impl := func(op string) string {
			what, e, _ := strings.Cut(op, ":")
			cur := controls[len(controls)-1]
			switch what {
			case "on":
				n++
				id := n
				on(e, func(p string) { log = append(log, fmt.Sprint(e, id, p)) })
			case "sub":
				// a handler which subscribes another one the first time it is invoked
				n++
				id := n
				done := false
				on(e, func(p string) {
					log = append(log, fmt.Sprint(e, id, p))
					if !done {
						done = true
						on(e, func(p string) { log = append(log, fmt.Sprint(e, id, "+", p)) })
					}
				})
			case "mute", "unmute":
				mute(cur, e, what == "mute")
			case "muteall":
				cur.MuteAll()
			case "unmuteall":
				cur.UnmuteAll()
			case "bind":
				c := life.NewControls()
				events.Bind(c)
				controls = append(controls, c)
			}
			log = nil
			for _, e := range eventNames {
				dispatch(controls[len(controls)-1], e)
			}
			return strings.Join(log, " ")
		}
		subs := map[string][]*subscriber{}
		muted := map[string]bool{}
		k := 0
		payload := map[string]string{"ascend": "A", "descend": "D", "begin": "B", "end": "true", "wake": "W", "sleep": "S"}
		model := func(op string) string {
			what, e, _ := strings.Cut(op, ":")
			switch what {
			case "on", "sub":
				k++
				subs[e] = append(subs[e], &subscriber{id: fmt.Sprint(k), more: what == "sub"})
			case "mute", "unmute":
				muted[e] = what == "mute"
			case "muteall", "unmuteall":
				for _, x := range eventNames {
					muted[x] = what == "muteall"
				}
			case "bind":
				muted = map[string]bool{} // the new controller is not muted
			}
			out := []string{}
			for _, e := range eventNames {
				if muted[e] {
					continue
				}
				for _, s := range append([]*subscriber{}, subs[e]...) {
					out = append(out, e+s.id+payload[e])
					if s.more {
						s.more = false
						subs[e] = append(subs[e], &subscriber{id: s.id + "+"})
					}
				}
			}
			return strings.Join(out, " ")
		}
		return impl, model
	}
	return m
}

type subscriber struct {
	id   string
	more bool
}

func lifeTable(name string) *machine { return lifeMachine(name == "nested") }

func genLifeCtl(th bool, fn yield) {
	_ = programsOf("events", lifeTable("events"), pick(th, 5, 6), fn) &&
		programsOf("nested", lifeTable("nested"), pick(th, 5, 6), fn)
}
