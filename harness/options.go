package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"log/slog"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/life"
	"github.com/snivilised/agenor/pref"
)

// C22: an option sets what it says, and nothing else.

// setting is one option: what to give to the library, and what it does to the
// (flat) settings, by specification.
type setting struct {
	name string
	opt  func(e *optEnv) pref.Option
	set  map[string]string
	on   string // life cycle event it subscribes to
	fail bool
	skip bool // has no effect at all
}

// optEnv is what the functions handed to the library report to.
type optEnv struct {
	log    []string       // life cycle events
	calls  []string       // options which were asked for late
	given  map[string]any // what was handed over, by name
	logger *slog.Logger
	bad    string
}

func (e *optEnv) keep(name string, p any) {
	if e.given == nil {
		e.given = map[string]any{}
	}
	e.given[name] = p
}

var errLate = errors.New("option fails")

type marked struct{ id string }

func (m marked) Accept(*pref.NavigationFault) error                    { return nil }
func (m marked) Rescue(pref.Recovery, pref.RescueData) (string, error) { return m.id, nil }
func (m marked) Description() string                                   { return m.id }
func (m marked) Validate() error                                       { return nil }
func (m marked) Source() string                                        { return m.id }
func (m marked) IsMatch(*core.Node) bool                               { return true }
func (m marked) IsApplicable(*core.Node) bool                          { return true }
func (m marked) Scope() enums.FilterScope                              { return enums.ScopeAll }
func (m marked) Ask(*core.Node, core.DirectoryContents, error) (enums.SkipTraversal, error) {
	return enums.SkipNoneTraversal, nil
}

func defText(d *core.FilterDef) string {
	b, _ := json.Marshal(d)
	return string(b)
}

func settingPool() []setting {
	out := []setting{}
	add := func(name string, set map[string]string, opt func(e *optEnv) pref.Option) {
		out = append(out, setting{name: name, set: set, opt: opt})
	}
	kv := func(xs ...string) map[string]string {
		m := map[string]string{}
		for i := 0; i < len(xs); i += 2 {
			m[xs[i]] = xs[i+1]
		}
		return m
	}
	for _, d := range []uint{0, 2} {
		add(fmt.Sprint("depth", d), kv("depth", fmt.Sprint(d)), func(*optEnv) pref.Option { return age.WithDepth(d) })
	}
	add("norecurse", kv("norecurse", "true"), func(*optEnv) pref.Option { return age.WithNoRecurse() })
	add("sort-ff", kv("cs", "false", "ff", "true"), func(e *optEnv) pref.Option {
		p := &pref.SortBehaviour{SortFilesFirst: true}
		e.keep("sort-ff", p)
		return age.WithSortBehaviour(p)
	})
	add("sort-cs", kv("cs", "true", "ff", "false"), func(*optEnv) pref.Option {
		return age.WithSortBehaviour(&pref.SortBehaviour{IsCaseSensitive: true})
	})
	add("subpath-drop", kv("keep", "false"), func(e *optEnv) pref.Option {
		p := &pref.SubPathBehaviour{}
		e.keep("subpath-drop", p)
		return age.WithSubPathBehaviour(p)
	})
	add("subpath-keep", kv("keep", "true"), func(*optEnv) pref.Option {
		return age.WithSubPathBehaviour(&pref.SubPathBehaviour{KeepTrailingSep: true})
	})
	add("behaviours", kv("keep", "false", "cs", "false", "ff", "true", "depth", "3", "norecurse", "false"), func(e *optEnv) pref.Option {
		p := &pref.NavigationBehaviours{Sort: pref.SortBehaviour{SortFilesFirst: true}, Cascade: pref.CascadeBehaviour{Depth: 3}}
		e.keep("behaviours", p)
		return age.WithNavigationBehaviours(p)
	})
	add("behaviours-keep", kv("keep", "true", "cs", "true", "ff", "false", "depth", "0", "norecurse", "true"), func(*optEnv) pref.Option {
		return age.WithNavigationBehaviours(&pref.NavigationBehaviours{SubPath: pref.SubPathBehaviour{KeepTrailingSep: true},
			Sort: pref.SortBehaviour{IsCaseSensitive: true}, Cascade: pref.CascadeBehaviour{NoRecurse: true}})
	})
	node := core.FilterDef{Type: enums.FilterTypeGlob, Description: "n", Pattern: "*", Negate: false}
	poly := core.FilterDef{Type: enums.FilterTypePoly, Poly: &core.PolyFilterDef{File: node, Directory: node}}
	child := core.ChildFilterDef{Type: enums.FilterTypeGlob, Description: "c", Pattern: "*.txt"}
	sample := core.SampleFilterDef{Type: enums.FilterTypeGlob, Description: "s", Pattern: "*", Scope: enums.ScopeFile | enums.ScopeDirectory}
	none := kv("node", "null", "child", "null", "sample", "null", "custom", "")
	with := func(base map[string]string, xs ...string) map[string]string {
		m := kv(xs...)
		for k, v := range base {
			if _, ok := m[k]; !ok {
				m[k] = v
			}
		}
		return m
	}
	text := func(x any) string { b, _ := json.Marshal(x); return string(b) }
	add("filter-node", with(none, "node", defText(&node)), func(e *optEnv) pref.Option {
		d := node
		p := &pref.FilterOptions{Node: &d}
		e.keep("filter-node", p)
		return age.WithFilter(p)
	})
	add("filter-poly", with(none, "node", defText(&poly)), func(e *optEnv) pref.Option {
		p := &pref.FilterOptions{Node: cloneDef(&poly)}
		e.keep("filter-poly", p)
		return age.WithFilter(p)
	})
	globex := core.FilterDef{Type: enums.FilterTypeGlobEx, Description: "g", Pattern: "*|*.txt"}
	add("filter-globex", with(none, "node", defText(&globex)), func(e *optEnv) pref.Option {
		p := &pref.FilterOptions{Node: cloneDef(&globex)}
		e.keep("filter-globex", p)
		return age.WithFilter(p)
	})
	add("filter-child", with(none, "child", text(child)), func(e *optEnv) pref.Option {
		d := child
		p := &pref.FilterOptions{Child: &d}
		e.keep("filter-child", p)
		return age.WithFilter(p)
	})
	add("filter-sample", with(none, "sample", text(sample)), func(e *optEnv) pref.Option {
		d := sample
		p := &pref.FilterOptions{Sample: &d}
		e.keep("filter-sample", p)
		return age.WithFilter(p)
	})
	add("filter-custom", with(none, "custom", "x"), func(*optEnv) pref.Option {
		return age.WithFilter(&pref.FilterOptions{Custom: marked{"x"}})
	})
	add("filter-none", none, func(*optEnv) pref.Option { return age.WithFilter(&pref.FilterOptions{}) })
	hd := core.FilterDef{Type: enums.FilterTypeRegex, Description: "h", Pattern: "."}
	add("wake", kv("wake", defText(&hd)), func(e *optEnv) pref.Option {
		p := cloneDef(&hd)
		e.keep("wake", p)
		return age.WithHibernationFilterWake(p)
	})
	add("sleep", kv("sleep", defText(&node)), func(e *optEnv) pref.Option {
		p := cloneDef(&node)
		e.keep("sleep", p)
		return age.WithHibernationFilterSleep(p)
	})
	add("exclwake", kv("inclwake", "false"), func(*optEnv) pref.Option { return age.WithHibernationBehaviourExclusiveWake() })
	add("inclsleep", kv("inclsleep", "true"), func(*optEnv) pref.Option { return age.WithHibernationBehaviourInclusiveSleep() })
	add("hibernation", kv("wake", "null", "sleep", defText(&hd), "inclwake", "true", "inclsleep", "true"), func(e *optEnv) pref.Option {
		p := &core.HibernateOptions{SleepAt: cloneDef(&hd), Behaviour: core.HibernationBehaviour{InclusiveWake: true, InclusiveSleep: true}}
		e.keep("hibernation", p)
		return age.WithHibernationOptions(p)
	})
	add("hibernation-none", kv("wake", "null", "sleep", "null", "inclwake", "false", "inclsleep", "false"), func(*optEnv) pref.Option {
		return age.WithHibernationOptions(&core.HibernateOptions{})
	})
	add("sampling", kv("sampling", fmt.Sprint(enums.SampleTypeSlice), "reverse", "true", "quantities", "1/2"), func(e *optEnv) pref.Option {
		p := &pref.SamplingOptions{Type: enums.SampleTypeSlice, InReverse: true, NoOf: pref.EntryQuantities{Files: 1, Directories: 2}}
		e.keep("sampling", p)
		return age.WithSamplingOptions(p)
	})
	add("sampling-none", kv("sampling", fmt.Sprint(enums.SampleTypeUndefined), "reverse", "false", "quantities", "0/0"), func(*optEnv) pref.Option {
		return age.WithSamplingOptions(&pref.SamplingOptions{})
	})
	add("cpu", kv("now", fmt.Sprint(runtime.NumCPU())), func(*optEnv) pref.Option { return age.WithCPU() })
	add("now", kv("now", "77"), func(*optEnv) pref.Option { return age.WithNoW(77) })
	add("output", kv("output", "5/7ms/9ms", "consumer", "out"), func(e *optEnv) pref.Option {
		p := &pref.OutputOptions{Size: 5, CheckCloseInterval: 7 * time.Millisecond, TimeoutOnSend: 9 * time.Millisecond,
			On: func(core.OutputStream) { e.log = append(e.log, "out") }}
		return age.WithOutput(p)
	})
	add("output-none", kv("output", "0/0s/0s", "consumer", ""), func(*optEnv) pref.Option { return age.WithOutput(&pref.OutputOptions{}) })
	add("logger", kv("logger", "own"), func(e *optEnv) pref.Option { return age.WithLogger(e.logger) })
	add("admin", kv("admin", "/some/where"), func(*optEnv) pref.Option { return age.WithAdminPath("/some/where") })
	add("fault", kv("fault", "f"), func(*optEnv) pref.Option { return age.WithFaultHandler(marked{"f"}) })
	add("fault2", kv("fault", "g"), func(*optEnv) pref.Option { return age.WithFaultHandler(marked{"g"}) })
	add("panic", kv("panic", "p"), func(*optEnv) pref.Option { return age.WithPanicHandler(marked{"p"}) })
	add("skip", kv("skip", "s"), func(*optEnv) pref.Option { return age.WithSkipHandler(marked{"s"}) })
	add("hook-cs", kv("hook-sort", "B,a"), func(*optEnv) pref.Option { return age.WithHookCaseSensitiveSort() })
	add("hook-sort", kv("hook-sort", "none"), func(*optEnv) pref.Option {
		return age.WithHookSort(func(es []fs.DirEntry, _ ...any) {
			for i := range es {
				es[i] = nil
			}
		})
	})
	add("hook-file", kv("hook-file", "F"), func(*optEnv) pref.Option {
		return age.WithHookFileSubPath(func(*core.SubPathInfo) string { return "F" })
	})
	add("hook-dir", kv("hook-dir", "D"), func(*optEnv) pref.Option {
		return age.WithHookDirectorySubPath(func(*core.SubPathInfo) string { return "D" })
	})
	add("hook-stat", kv("hook-stat", "own"), func(*optEnv) pref.Option {
		return age.WithHookQueryStatus(func(fs.StatFS, string) (fs.FileInfo, error) { return nil, errClient })
	})
	add("hook-read", kv("hook-read", "own"), func(*optEnv) pref.Option {
		return age.WithHookReadDirectory(func(fs.ReadDirFS, string) ([]fs.DirEntry, error) { return nil, errClient })
	})
	on := func(ev string, f func(log func()) pref.Option) {
		for _, tag := range []string{"1", "2"} {
			id := ev + tag
			out = append(out, setting{name: "on-" + id, on: ev, opt: func(e *optEnv) pref.Option {
				return f(func() { e.log = append(e.log, id) })
			}})
		}
	}
	on("begin", func(log func()) pref.Option { return age.WithOnBegin(func(*life.BeginState) { log() }) })
	on("end", func(log func()) pref.Option { return age.WithOnEnd(func(core.TraverseResult) { log() }) })
	on("descend", func(log func()) pref.Option { return age.WithOnDescend(func(*core.Node) { log() }) })
	on("ascend", func(log func()) pref.Option { return age.WithOnAscend(func(*core.Node) { log() }) })
	on("wake", func(log func()) pref.Option { return age.WithOnWake(func(string) { log() }) })
	on("sleep", func(log func()) pref.Option { return age.WithOnSleep(func(string) { log() }) })
	// conditions
	late := func(name string, opt func() pref.Option) func(e *optEnv) pref.ConditionalOption {
		return func(e *optEnv) pref.ConditionalOption {
			return func() pref.Option { e.calls = append(e.calls, name); return opt() }
		}
	}
	never := func(e *optEnv) pref.ConditionalOption {
		return func() pref.Option { e.bad = "an option is created although it isn't wanted"; return age.WithDepth(99) }
	}
	depth := func() pref.Option { return age.WithDepth(5) }
	add("if-true", kv("depth", "5"), func(*optEnv) pref.Option { return age.IfOption(true, depth()) })
	out = append(out, setting{name: "if-false", skip: true, opt: func(*optEnv) pref.Option { return age.IfOption(false, depth()) }})
	add("iff-true", kv("depth", "5"), func(e *optEnv) pref.Option { return age.IfOptionF(true, late("iff", depth)(e)) })
	out = append(out, setting{name: "iff-false", skip: true, opt: func(e *optEnv) pref.Option { return age.IfOptionF(false, never(e)) }})
	add("ifelse-true", kv("depth", "5"), func(e *optEnv) pref.Option { return age.IfElseOptionF(true, late("t", depth)(e), never(e)) })
	add("ifelse-false", kv("depth", "6"), func(e *optEnv) pref.Option {
		return age.IfElseOptionF(false, never(e), late("f", func() pref.Option { return age.WithDepth(6) })(e))
	})
	out = append(out, setting{name: "nil", skip: true, opt: func(*optEnv) pref.Option { return nil }})
	out = append(out, setting{name: "fail", fail: true, opt: func(*optEnv) pref.Option { return func(*pref.Options) error { return errLate } }})
	out = append(out, setting{name: "fail-depth", fail: true, set: kv("depth", "8"), opt: func(*optEnv) pref.Option {
		return func(o *pref.Options) error { o.Behaviours.Cascade.Depth = 8; return errLate }
	}})
	return out
}

func defaultSettings() map[string]string {
	return map[string]string{
		"depth": "0", "norecurse": "false", "cs": "false", "ff": "false", "keep": "true",
		"node": "null", "child": "null", "sample": "null", "custom": "",
		"wake": "null", "sleep": "null", "inclwake": "true", "inclsleep": "false",
		"sampling": fmt.Sprint(enums.SampleTypeUndefined), "reverse": "false", "quantities": "0/0",
		"now": fmt.Sprint(runtime.NumCPU()), "output": "0/0s/0s", "consumer": "",
		"logger": "default", "admin": "~/agenor/admin/resume",
		"fault": "", "panic": "", "skip": "",
		"hook-sort": "a,B", "hook-file": "default", "hook-dir": "default", "hook-stat": "default", "hook-read": "default",
	}
}

// flat is what the options look like from the outside.
func flat(o *pref.Options, e *optEnv) map[string]string {
	text := func(x any) string {
		if v := reflect.ValueOf(x); v.Kind() == reflect.Pointer && v.IsNil() {
			return "null"
		}
		b, _ := json.Marshal(x)
		return string(b)
	}
	b := func(x any) string { return fmt.Sprint(x) }
	id := func(x any) string {
		if m, ok := x.(marked); ok {
			return m.id
		}
		return ""
	}
	m := map[string]string{
		"depth": b(o.Behaviours.Cascade.Depth), "norecurse": b(o.Behaviours.Cascade.NoRecurse),
		"cs": b(o.Behaviours.Sort.IsCaseSensitive), "ff": b(o.Behaviours.Sort.SortFilesFirst), "keep": b(o.Behaviours.SubPath.KeepTrailingSep),
		"node": text(o.Filter.Node), "child": text(o.Filter.Child), "custom": id(o.Filter.Custom),
		"wake": text(o.Hibernate.WakeAt), "sleep": text(o.Hibernate.SleepAt),
		"inclwake": b(o.Hibernate.Behaviour.InclusiveWake), "inclsleep": b(o.Hibernate.Behaviour.InclusiveSleep),
		"sampling": b(o.Sampling.Type), "reverse": b(o.Sampling.InReverse), "quantities": fmt.Sprintf("%d/%d", o.Sampling.NoOf.Files, o.Sampling.NoOf.Directories),
		"now": b(o.Concurrency.NoW), "output": fmt.Sprintf("%d/%v/%v", o.Concurrency.Output.Size, o.Concurrency.Output.CheckCloseInterval, o.Concurrency.Output.TimeoutOnSend),
		"admin": o.Monitor.Admin.Path,
		"fault": id(o.Defects.Fault), "panic": id(o.Defects.Panic), "skip": id(o.Defects.Skip),
		"sample": text(o.Filter.Sample), "logger": "default", "consumer": "",
	}
	if o.Monitor.Log == e.logger {
		m["logger"] = "own"
	}
	if o.Monitor.Log == nil {
		m["logger"] = "nil"
	}
	if o.Concurrency.Output.On != nil {
		n := len(e.log)
		o.Concurrency.Output.On(nil)
		m["consumer"] = strings.Join(e.log[n:], ",")
		e.log = e.log[:n]
	}
	sub := newMemFS("r", []string{"B", "a"}, false, true)
	es := []fs.DirEntry{memEntry{sub, sub.nodes["r/B"]}, memEntry{sub, sub.nodes["r/a"]}}
	if h := o.Hooks.Sort.Invoke(); h != nil {
		h(es)
	}
	if es[0] == nil {
		m["hook-sort"] = "none"
	} else {
		m["hook-sort"] = strings.Join(names(es), ",")
	}
	path := func(h core.SubPathHook) string {
		n := core.New("r/d/a", memEntry{sub, sub.nodes["r/a"]}, memInfo{sub.nodes["r/a"]}, nil, nil)
		n.Extension.Parent = "r/d/"
		if s := h(&core.SubPathInfo{Tree: "r", Node: n, KeepTrailingSep: true}); s != "/d/" {
			return s
		}
		return "default"
	}
	m["hook-file"] = path(o.Hooks.FileSubPath.Invoke())
	m["hook-dir"] = path(o.Hooks.DirectorySubPath.Invoke())
	if _, err := o.Hooks.QueryStatus.Invoke()(sub, "r"); err == nil {
		m["hook-stat"] = "default"
	} else {
		m["hook-stat"] = "own"
	}
	if got, err := o.Hooks.ReadDirectory.Invoke()(sub, "r"); err == nil && len(got) == 2 {
		m["hook-read"] = "default"
	} else {
		m["hook-read"] = "own"
	}
	return m
}

func settingsDiff(want, got map[string]string) string {
	ks := []string{}
	for k := range want {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if k == "depth" && want["norecurse"] == "true" {
			continue // which is what depth is by then
		}
		if want[k] != got[k] {
			return fmt.Sprintf("setting %s: expected %q, got %q", k, want[k], got[k])
		}
	}
	return ""
}

var (
	optPool  []setting
	optIndex map[string]int
)

func settingsPool() []setting {
	if optPool == nil {
		optPool = settingPool()
		optIndex = map[string]int{}
		for i, s := range optPool {
			optIndex[s.name] = i
		}
	}
	return optPool
}

func checkOptions(c *Case) verdict {
	pool := settingsPool()
	prog := strings.Fields(c.Extra)
	e := &optEnv{logger: slog.New(slog.NewTextHandler(io.Discard, nil))}
	opts := []pref.Option{}
	want := defaultSettings()
	wantOn := map[string][]string{}
	failed := false
	for _, name := range prog {
		s := pool[optIndex[name]]
		opts = append(opts, s.opt(e))
		if failed || s.skip {
			continue
		}
		for k, v := range s.set {
			want[k] = v
		}
		if s.on != "" {
			wantOn[s.on] = append(wantOn[s.on], strings.TrimPrefix(name, "on-"))
		}
		failed = s.fail
	}
	var seen map[string]string
	reached := false
	// what the options look like when all (or all up to the one that fails)
	// have been applied
	var cap *pref.Options
	first := func(o *pref.Options) error { cap = o; return nil }
	last := func(o *pref.Options) error { reached = true; return nil }
	opts = append(append([]pref.Option{first}, opts...), last)
	before := map[string]string{}
	for k, p := range e.given {
		b, _ := json.Marshal(stripped(p))
		before[k] = string(b)
	}
	v := verdict{execs: 1}
	m := newMemFS("root", []string{"a/", "a/x.txt", "b.txt"}, false, true)
	var err error
	t := &Trace{}
	guard(t, func() {
		nav := age.Walk().Configure().Extent(age.Prime(&pref.Using{
			Head: pref.Head{Handler: func(age.Servant) error { return nil },
				GetForest: func(string) *core.Forest { return m.forest() }},
			Subscription: enums.SubscribeUniversal, Tree: "root",
		}, opts...))
		if cap != nil {
			seen = flatBefore(cap, e)
		}
		_, err = nav.Navigate(context.Background())
	})
	for k, p := range e.given {
		b, _ := json.Marshal(stripped(p))
		if before[k] != string(b) && v.bad == "" {
			v.bad = fmt.Sprintf("what the client gave (%s) has been changed: %s, was %s", k, b, before[k])
		}
	}
	switch {
	case v.bad != "":
	case e.bad != "":
		v.bad = e.bad
	case t.Panic != "":
		v.bad = "panic escapes to the caller: " + t.Panic
	case cap == nil:
		v.bad = "the options have not been applied"
	case failed && reached:
		v.bad = "options are applied after one which failed"
	case failed && !errors.Is(err, errLate):
		v.bad = fmt.Sprintf("an option failed, but the error is %v", err)
	case !failed && !reached:
		v.bad = "not all options have been applied"
	default:
		v.bad = settingsDiff(want, seen)
	}
	if v.bad == "" && !failed && err == nil {
		// those who subscribed are told, in that order
		for _, ev := range []string{"begin", "end", "descend", "ascend", "wake", "sleep"} {
			got := []string{}
			for _, l := range e.log {
				if strings.HasPrefix(l, ev) {
					got = append(got, l)
				}
			}
			if ev == "wake" && want["wake"] == "null" || ev == "sleep" && want["sleep"] == "null" {
				if len(got) > 0 {
					v.bad = "notified of " + ev + " without there being any"
				}
				continue
			}
			w := wantOn[ev]
			if len(w) == 0 && len(got) > 0 || len(w) > 0 && (len(got)%len(w) != 0 || len(got) == 0 && (ev == "begin" || ev == "end")) {
				v.bad = fmt.Sprintf("subscribed to %s: %v, notified %v", ev, w, got)
			}
			for i, g := range got {
				if v.bad == "" && g != w[i%len(w)] {
					v.bad = fmt.Sprintf("subscribed to %s: %v, notified %v", ev, w, got)
				}
			}
		}
	}
	v.steps = append(v.steps, prog...)
	v.sig = fmt.Sprint(seen, e.log, err != nil)
	return v
}

// flatBefore looks at the options once they have been applied; what plugins do
// to the hooks by then (sampling) leaves what is looked at as it is.
func flatBefore(o *pref.Options, e *optEnv) map[string]string {
	m := flat(o, e)
	if o.Sampling.Type != enums.SampleTypeUndefined || o.Filter.Sample != nil {
		if m["hook-read"] == "own" {
			if _, err := o.Hooks.ReadDirectory.Invoke()(newMemFS("r", nil, false, true), "r"); err == nil {
				m["hook-read"] = "default"
			}
		}
	}
	return m
}

// stripped: functions can't be compared.
func stripped(p any) any {
	if f, ok := p.(*pref.FilterOptions); ok {
		return []any{f.Node, f.Child, f.Sample}
	}
	return p
}

func genOptions(th bool, fn yield) {
	pool := settingsPool()
	var rec func(prefix []string, k int) bool
	rec = func(prefix []string, k int) bool {
		if len(prefix) > 0 || k > 0 {
			if !fn(&Case{Extra: strings.Join(prefix, " ")}) {
				return false
			}
		}
		if k == 0 {
			return true
		}
		for _, s := range pool {
			if !rec(append(append([]string{}, prefix...), s.name), k-1) {
				return false
			}
		}
		return true
	}
	if !rec(nil, 3) {
		return
	}
	// all of them but one, from every point on, in both directions
	n := len(pool)
	for i := 0; i < n; i++ {
		for skip := 0; skip < n; skip++ {
			up, down := []string{}, []string{}
			for k := 0; k < n; k++ {
				for _, d := range []int{1, -1} {
					s := pool[((i+d*k)%n+n)%n]
					if s.fail || k == skip {
						continue
					}
					if d == 1 {
						up = append(up, s.name)
					} else {
						down = append(down, s.name)
					}
				}
			}
			if !fn(&Case{Extra: strings.Join(up, " ")}) || !fn(&Case{Extra: strings.Join(down, " ")}) {
				return
			}
		}
	}
	if th {
		rec(nil, 4)
	}
}
