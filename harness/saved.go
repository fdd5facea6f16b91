package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/pref"
)

// kept is what of the options has to come back when they are loaded.
type kept struct {
	SubPath   pref.SubPathBehaviour
	Sort      pref.SortBehaviour
	Cascade   pref.CascadeBehaviour
	SampType  enums.SampleType
	InReverse bool
	NoOf      pref.EntryQuantities
	Node      *core.FilterDef
	Child     *core.ChildFilterDef
	Sample    *core.SampleFilterDef
	Wake      *core.FilterDef
	Sleep     *core.FilterDef
	Hib       core.HibernationBehaviour
	NoW       uint
}

func keep(into **kept) pref.Option {
	return func(o *pref.Options) error {
		k := &kept{
			SubPath: o.Behaviours.SubPath, Sort: o.Behaviours.Sort, Cascade: o.Behaviours.Cascade,
			SampType: o.Sampling.Type, InReverse: o.Sampling.InReverse, NoOf: o.Sampling.NoOf,
			Node: cloneDef(o.Filter.Node), Wake: cloneDef(o.Hibernate.WakeAt), Sleep: cloneDef(o.Hibernate.SleepAt),
			Hib: o.Hibernate.Behaviour, NoW: o.Concurrency.NoW,
		}
		if x := o.Filter.Child; x != nil {
			y := *x
			k.Child = &y
		}
		if x := o.Filter.Sample; x != nil {
			y := *x
			k.Sample = &y
		}
		*into = k
		return nil
	}
}

// knob is one saved setting with the values it is tried with.
type knob struct {
	name string
	vals []func(*pref.Options)
}

func knobs() []knob {
	def := func(d core.FilterDef) *core.FilterDef { return &d }
	odd := "*.t<>&\"\\\t\n é日本 \u2028 '*"
	defs := []*core.FilterDef{
		def(core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "*", Description: odd, Scope: enums.ScopeAll}),
		def(core.FilterDef{Type: enums.FilterTypeRegex, Pattern: ".*(é|<|&|\"|\\\\)?", Description: "d", Scope: enums.ScopeTop, IfNotApplicable: enums.TriStateBoolTrue}),
		def(core.FilterDef{Type: enums.FilterTypeGlob, Pattern: odd, Description: "none", Scope: enums.ScopeLeaf | enums.ScopeTree, Negate: true}),
		def(core.FilterDef{Type: enums.FilterTypeGlobEx, Pattern: "*|*.<&>", Negate: true, IfNotApplicable: enums.TriStateBoolTrue}),
		def(core.FilterDef{Type: enums.FilterTypeRegex, Pattern: "nothing", Negate: true, Scope: enums.ScopeAll, IfNotApplicable: enums.TriStateBoolFalse}),
		def(core.FilterDef{Type: enums.FilterTypePoly, Poly: &core.PolyFilterDef{
			File:      core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "*", Description: "pf", Scope: enums.ScopeFile, IfNotApplicable: enums.TriStateBoolTrue},
			Directory: core.FilterDef{Type: enums.FilterTypeRegex, Pattern: "nothing", Description: "pd", Negate: true, Scope: enums.ScopeDirectory}}}),
	}
	node := knob{name: "node"}
	wake := knob{name: "wake"}
	sleep := knob{name: "sleep"}
	for i, d := range defs {
		d := d
		node.vals = append(node.vals, func(o *pref.Options) { o.Filter.Node = cloneDef(d) })
		wake.vals = append(wake.vals, func(o *pref.Options) { o.Hibernate.WakeAt = cloneDef(d) })
		x := cloneDef(d)
		if i != 5 {
			x.Negate = !x.Negate
			x.IfNotApplicable = enums.TriStateBoolFalse
		} else {
			x.Poly.Directory.Negate, x.Poly.File.Negate = false, true
		}
		sleep.vals = append(sleep.vals, func(o *pref.Options) { o.Hibernate.SleepAt = cloneDef(x) })
	}
	child := knob{name: "child"}
	for _, ty := range []enums.FilterType{enums.FilterTypeGlob, enums.FilterTypeRegex} {
		for _, neg := range []bool{false, true} {
			ty, neg := ty, neg
			child.vals = append(child.vals, func(o *pref.Options) {
				o.Filter.Child = &core.ChildFilterDef{Type: ty, Description: "child <>&", Pattern: "[a-z]", Negate: neg}
			})
		}
	}
	sample := knob{name: "sample"}
	for i, ty := range []enums.FilterType{enums.FilterTypeGlob, enums.FilterTypeRegex} {
		for _, neg := range []bool{false, true} {
			ty, neg, sc := ty, neg, []enums.FilterScope{enums.ScopeFile, enums.ScopeDirectory}[i]
			sample.vals = append(sample.vals, func(o *pref.Options) {
				o.Filter.Sample = &core.SampleFilterDef{Type: ty, Description: "sample é", Pattern: "[a-z]", Negate: neg, Scope: sc}
				o.Sampling.Type = enums.SampleTypeFilter
				o.Sampling.NoOf = pref.EntryQuantities{Files: 3, Directories: 2}
			})
		}
	}
	num := func(name string, set func(*pref.Options, uint), ns ...uint) knob {
		k := knob{name: name}
		for _, n := range ns {
			n := n
			k.vals = append(k.vals, func(o *pref.Options) { set(o, n) })
		}
		return k
	}
	flag := func(name string, set func(*pref.Options, bool)) knob {
		return num(name, func(o *pref.Options, n uint) { set(o, n == 1) }, 0, 1)
	}
	return []knob{
		flag("keep-sep", func(o *pref.Options, b bool) { o.Behaviours.SubPath.KeepTrailingSep = b }),
		flag("case", func(o *pref.Options, b bool) { o.Behaviours.Sort.IsCaseSensitive = b }),
		flag("files-first", func(o *pref.Options, b bool) { o.Behaviours.Sort.SortFilesFirst = b }),
		num("depth", func(o *pref.Options, n uint) { o.Behaviours.Cascade.Depth = n }, 0, 1, 2, 7, 1<<31, 1<<53+1),
		flag("no-recurse", func(o *pref.Options, b bool) {
			o.Behaviours.Cascade.NoRecurse = b
			if b {
				o.Behaviours.Cascade.Depth = 1
			}
		}),
		num("sample-files", func(o *pref.Options, n uint) { o.Sampling.NoOf.Files = n; o.Sampling.Type = enums.SampleTypeSlice }, 1, 2, 1<<40),
		num("sample-dirs", func(o *pref.Options, n uint) {
			o.Sampling.NoOf.Directories = n
			o.Sampling.Type = enums.SampleTypeSlice
		}, 1, 3, 1<<40),
		flag("reverse", func(o *pref.Options, b bool) { o.Sampling.InReverse = b }),
		node, child, sample, wake, sleep,
		flag("incl-wake", func(o *pref.Options, b bool) { o.Hibernate.Behaviour.InclusiveWake = b }),
		flag("incl-sleep", func(o *pref.Options, b bool) { o.Hibernate.Behaviour.InclusiveSleep = b }),
		num("now", func(o *pref.Options, n uint) { o.Concurrency.NoW = n }, 0, 1, 3, 64, 1<<20),
	}
}

// genSaved: Extra says what is tried: "set:i.j,k.l" settings which are saved
// and loaded; "cut:n" the first n bytes of what was saved; "byte:n:op" one
// byte of it replaced; "json:path:op" one value of it replaced.
func genSaved(th bool, fn yield) {
	es := []string{"b/", "b/y", "b/x", "c/", "c/z", "a"}
	ks := knobs()
	type kv struct{ k, v int }
	all := []kv{}
	for i := range ks {
		for j := range ks[i].vals {
			all = append(all, kv{i, j})
		}
	}
	text := func(s []kv) string {
		out := []string{}
		for _, x := range s {
			out = append(out, fmt.Sprintf("%d.%d", x.k, x.v))
		}
		return "set:" + strings.Join(out, ",")
	}
	var rec func(from int, cur []kv, max int) bool
	rec = func(from int, cur []kv, max int) bool {
		for _, sub := range []uint{subAll, subDirsF} {
			if sub == subDirsF && len(cur) > 1 {
				break
			}
			if !fn(&Case{Entries: es, Sub: sub, Extra: text(cur)}) {
				return false
			}
		}
		if len(cur) == max {
			return true
		}
		for i := from; i < len(all); i++ {
			if len(cur) > 0 && all[i].k == cur[len(cur)-1].k {
				continue
			}
			if !rec(i+1, append(append([]kv{}, cur...), all[i]), max) {
				return false
			}
		}
		return true
	}
	if !rec(0, nil, pick(th, 3, 4)) {
		return
	}
	for _, base := range savedBases() {
		b := base
		b.CB = []Act{{Model(&base).invoked()[len(Model(&base).invoked())/2], "panic"}}
		raw := execWalk(&b).SavedRaw
		for _, st := range []string{"fast", "spawn"} {
			x := b
			x.Legs = []Leg{{Strat: st}}
			for n := 0; n < len(raw); n++ {
				y := x
				y.Extra = fmt.Sprintf("cut:%d", n)
				if !fn(&y) {
					return
				}
				for op := 0; op < pick(th, 14, 34); op++ {
					y := x
					y.Extra = fmt.Sprintf("byte:%d:%d", n, op)
					if !fn(&y) {
						return
					}
				}
			}
			var v any
			json.Unmarshal(raw, &v)
			for _, p := range jsonPaths(v, "") {
				for op := range jsonOps {
					y := x
					y.Extra = fmt.Sprintf("json:%s:%d", p, op)
					if !fn(&y) {
						return
					}
				}
			}
		}
	}
}

func savedBases() []Case {
	es := []string{"b/", "b/y", "b/x", "c/", "c/z", "a"}
	return []Case{
		{Entries: es, Sub: subAll},
		{Entries: es, Sub: subFiles, Abs: true, Root: "/srv/root", Node: fdef(enums.FilterTypeRegex, "x|y|z|a", enums.ScopeFile, false, 0), Samp: &Quant{2, 2, true}},
		{Entries: es, Sub: subDirsF, Child: &core.ChildFilterDef{Type: enums.FilterTypeGlob, Pattern: "x"}, Depth: 2,
			Wake: fdef(enums.FilterTypeGlob, "*", 0, false, 0), Sleep: fdef(enums.FilterTypeRegex, "c", 0, false, 0)},
		{Entries: es, Sub: subDirs, Node: resumePoly(), FilesFirst: true,
			Sample: &core.SampleFilterDef{Type: enums.FilterTypeGlob, Pattern: "*", Scope: enums.ScopeFile}, Samp: &Quant{1, 1, false}},
	}
}

func resumePoly() *core.FilterDef {
	return &core.FilterDef{Type: enums.FilterTypePoly, Poly: &core.PolyFilterDef{
		File:      *fdef(enums.FilterTypeGlob, "*.txt", 0, false, 0),
		Directory: *fdef(enums.FilterTypeRegex, "[a-z]", 0, false, enums.TriStateBoolFalse)}}
}

func byteOp(raw []byte, n, op int) []byte {
	out := append([]byte(nil), raw...)
	switch {
	case op < 8:
		out[n] ^= 1 << op
	case op == 8:
		out = append(out[:n], out[n+1:]...)
	case op == 9:
		out = append(append(append([]byte{}, raw[:n]...), raw[n]), raw[n:]...)
	default:
		out[n] = "9-\"}0 ]{[:,xnE.e1\x00\xff\\t f/#"[op-10]
	}
	return out
}

var jsonOps = []func(any) any{
	func(any) any { return nil },
	func(any) any { return -1.0 },
	func(any) any { return 99.0 },
	func(any) any { return 1e9 },
	func(any) any { return "" },
	func(any) any { return "[" },
	func(any) any { return "nowhere/at/all" },
	func(any) any { return true },
	func(any) any { return false },
	func(any) any { return []any{} },
	func(any) any { return map[string]any{} },
	func(any) any { return 0.0 },
	func(any) any { return 1.0 },
	func(any) any { return 2.0 },
	func(any) any { return 3.0 },
	func(any) any { return 4.0 },
	func(any) any { return 5.0 },
	func(any) any { return 6.0 },
	func(any) any { return "/" },
	func(any) any { return "root/b/x" },
	func(any) any { return dropKey },
}

var dropKey = &struct{ int }{}

func jsonPaths(v any, at string) []string {
	out := []string{at}
	switch x := v.(type) {
	case map[string]any:
		for _, k := range sortedKeys(x) {
			out = append(out, jsonPaths(x[k], at+"\x1f"+k)...)
		}
	case []any:
		for i := range x {
			out = append(out, jsonPaths(x[i], fmt.Sprintf("%s\x1f%d", at, i))...)
		}
	}
	return out
}

func jsonSet(v any, keys []string, op func(any) any) any {
	if len(keys) == 0 {
		return op(v)
	}
	switch x := v.(type) {
	case map[string]any:
		n := jsonSet(x[keys[0]], keys[1:], op)
		if n == any(dropKey) {
			delete(x, keys[0])
		} else {
			x[keys[0]] = n
		}
	case []any:
		i, _ := strconv.Atoi(keys[0])
		x[i] = jsonSet(x[i], keys[1:], op)
	}
	return v
}

var savedMemo = map[string][]byte{}

func checkSaved(c *Case) verdict {
	if strings.HasPrefix(c.Extra, "set:") {
		return checkSettings(c)
	}
	r := verdict{execs: 1}
	first := *c
	first.Legs, first.Extra = nil, ""
	raw, ok := savedMemo[first.js()]
	if !ok {
		raw = execWalk(&first).SavedRaw
		savedMemo[first.js()] = raw
	}
	if raw == nil {
		r.bad = "nothing saved"
		return r
	}
	parts := strings.SplitN(c.Extra, ":", 3)
	data := raw
	switch parts[0] {
	case "cut":
		n, _ := strconv.Atoi(parts[1])
		if n >= len(raw) {
			return r
		}
		data = raw[:n]
	case "byte":
		n, _ := strconv.Atoi(parts[1])
		op, _ := strconv.Atoi(parts[2])
		if n >= len(raw) {
			return r
		}
		data = byteOp(raw, n, op)
	case "json":
		var v any
		json.Unmarshal(raw, &v)
		op, _ := strconv.Atoi(parts[2])
		v = jsonSet(v, strings.Split(parts[1], "\x1f")[1:], jsonOps[op])
		if v == any(dropKey) {
			v = nil
		}
		data, _ = json.MarshalIndent(v, "", "  ")
	}
	x := *c
	x.Extra, x.Legs = "", nil
	got := execLeg(&x, &c.Legs[0], data)
	r.steps = append([]string{c.Extra}, stepsOf(got)...)
	r.sig = sigOf(got)
	r.bad = abnormal(got)
	if r.bad == "" && parts[0] == "cut" {
		if got.Err == "" {
			r.bad = "an incomplete file is accepted"
		} else if len(got.invoked()) > 0 {
			r.bad = "the client is invoked for an incomplete file"
		}
	}
	return r
}

// checkSettings: options saved and loaded are the options which were set, and
// settings made when resuming are applied on top.
func checkSettings(c *Case) verdict {
	r := verdict{execs: 1}
	ks := knobs()
	var was, is *kept
	set := func(o *pref.Options) error {
		for _, s := range strings.Split(strings.TrimPrefix(c.Extra, "set:"), ",") {
			var k, v int
			if n, _ := fmt.Sscanf(s, "%d.%d", &k, &v); n == 2 {
				ks[k].vals[v](o)
			}
		}
		return nil
	}
	x := *c
	x.Extra = ""
	got := execPanicAnywhere(&x, set, keep(&was))
	r.sig = sigOf(got)
	if r.bad = abnormal(got); r.bad != "" {
		return r
	}
	r.steps = []string{c.Extra}
	if got.Saved == nil {
		if len(got.invoked()) > 1 {
			r.bad = fmt.Sprintf("nothing saved (%s)", got.ErrText)
		}
		// the client was never invoked, there was nothing to save
		return r
	}
	x.Legs = nil
	for i, st := range []string{"fast", "spawn"} {
		var after pref.Option
		if i == 1 {
			after = age.WithDepth(3)
		}
		res := execLeg(&x, &Leg{Strat: st}, got.SavedRaw, keep(&is), after)
		r.execs++
		r.steps = append(r.steps, st)
		if r.bad = abnormal(res); r.bad != "" {
			return r
		}
		if is == nil {
			r.bad = "what was saved can not be loaded: " + res.ErrText
			return r
		}
		for _, p := range [][2]*core.FilterDef{{was.Node, is.Node}, {was.Wake, is.Wake}, {was.Sleep, is.Sleep}} {
			defaulted(p[0], p[1])
		}
		if !reflect.DeepEqual(was, is) {
			a, _ := json.Marshal(was)
			b, _ := json.Marshal(is)
			r.bad = fmt.Sprintf("options set: %s, options loaded: %s", a, b)
			return r
		}
		if i == 1 && len(res.invoked()) > 0 && !strings.Contains(c.Extra, "wake") {
			for _, e := range res.Ev {
				if e.K == "invoke" && e.Depth > 3 {
					r.bad = "a setting made when resuming is not honoured"
				}
			}
		}
	}
	return r
}

// defaulted: a scope which is not defined, or is implied by the kind of
// filter, may be saved as what it stands for.
func defaulted(was, is *core.FilterDef) {
	if was == nil || is == nil {
		return
	}
	if was.Scope == 0 || was.Type == enums.FilterTypeGlobEx || was.Type == enums.FilterTypePoly {
		is.Scope = was.Scope
	}
	if was.Poly != nil && is.Poly != nil {
		is.Poly.File.Scope, is.Poly.Directory.Scope = was.Poly.File.Scope, was.Poly.Directory.Scope
	}
}
