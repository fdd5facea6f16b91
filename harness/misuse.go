package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"strings"
	"sync"
	"time"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/locale"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/pants"
)

// C19: a navigation which can not be set up is refused.

// misuse is one way of asking for a navigation, with the mistakes in it.
type misuse struct {
	Resume, Run bool
	Via         string   // direct, hydra, narrow (tortoise/hare), goldfish
	Facade      string   // ok, none, wrong, alien
	Lacks       []string // fields of the facade: handler, tree, sub, badsub, strat, badstrat, from
	Forest      string   // ok, nil, noT, noR
	From        string   // good, missing, dir, empty, garbage, other, kind, kindT, kindR
	Opts        []string // names of optionMoves
	Own         bool     // the options are made by the client (Using.O)
}

type optionMove struct {
	name string
	bad  bool
	want error // what the error has to be, if that is known
	opt  func() pref.Option
}

var errOption = errors.New("option fails")

func optionMoves() []optionMove {
	filter := func(d core.FilterDef) func() pref.Option {
		return func() pref.Option { return age.WithFilter(&pref.FilterOptions{Node: cloneDef(&d)}) }
	}
	child := func(d core.ChildFilterDef) func() pref.Option {
		return func() pref.Option { d := d; return age.WithFilter(&pref.FilterOptions{Child: &d}) }
	}
	sample := func(d core.SampleFilterDef, f, n uint) func() pref.Option {
		return func() pref.Option {
			d := d
			return func(o *pref.Options) error {
				o.Filter = pref.FilterOptions{Sample: &d}
				o.Sampling = pref.SamplingOptions{Type: enums.SampleTypeFilter, NoOf: pref.EntryQuantities{Files: f, Directories: n}}
				return nil
			}
		}
	}
	poly := func(f, d core.FilterDef) core.FilterDef {
		return core.FilterDef{Type: enums.FilterTypePoly, Poly: &core.PolyFilterDef{File: f, Directory: d}}
	}
	glob := core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "*"}
	rx := core.FilterDef{Type: enums.FilterTypeRegex, Pattern: "(["}
	return []optionMove{
		{name: "nil", opt: func() pref.Option { return nil }},
		{name: "ok", opt: func() pref.Option { return age.WithDepth(7) }},
		{name: "none", opt: func() pref.Option { return age.IfOption(false, age.WithNoRecurse()) }},
		{name: "fail", bad: true, want: errOption, opt: func() pref.Option { return func(*pref.Options) error { return errOption } }},
		{name: "filter-regex", bad: true, opt: filter(rx)},
		{name: "filter-glob", bad: true, opt: filter(core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "a*[z"})},
		{name: "filter-glob-negate", bad: true, opt: filter(core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "x\\", Negate: true})},
		{name: "filter-globex", bad: true, opt: filter(core.FilterDef{Type: enums.FilterTypeGlobEx, Pattern: "nosep"})},
		{name: "filter-globex-part", bad: true, opt: filter(core.FilterDef{Type: enums.FilterTypeGlobEx, Pattern: "*|nodot"})},
		{name: "filter-undefined", bad: true, want: locale.ErrFilterMissingType, opt: filter(core.FilterDef{Pattern: "*"})},
		{name: "filter-unknown", bad: true, opt: filter(core.FilterDef{Type: 77, Pattern: "*"})},
		{name: "filter-custom-missing", bad: true, opt: filter(core.FilterDef{Type: enums.FilterTypeCustom, Pattern: "*"})},
		{name: "filter-poly-missing", bad: true, opt: filter(core.FilterDef{Type: enums.FilterTypePoly, Pattern: "*"})},
		{name: "filter-poly-file", bad: true, opt: filter(poly(rx, glob))},
		{name: "filter-poly-dir", bad: true, opt: filter(poly(glob, rx))},
		{name: "filter-poly-nested", bad: true, want: locale.ErrPolyFilterIsInvalid, opt: filter(poly(poly(glob, glob), glob))},
		{name: "filter-poly-nested-dir", bad: true, want: locale.ErrPolyFilterIsInvalid, opt: filter(poly(glob, poly(glob, glob)))},
		{name: "filter-poly-untyped", bad: true, opt: filter(poly(core.FilterDef{Pattern: "*"}, glob))},
		{name: "child-regex", bad: true, opt: child(core.ChildFilterDef{Type: enums.FilterTypeRegex, Pattern: "(["})},
		{name: "child-glob", bad: true, opt: child(core.ChildFilterDef{Type: enums.FilterTypeGlob, Pattern: "[]"})},
		{name: "child-globex", bad: true, want: locale.ErrFilterChildGlobExNotSupported, opt: child(core.ChildFilterDef{Type: enums.FilterTypeGlobEx, Pattern: "*|*"})},
		{name: "child-custom", bad: true, want: locale.ErrFilterCustomNotSupported, opt: child(core.ChildFilterDef{Type: enums.FilterTypeCustom, Pattern: "*"})},
		{name: "child-undefined", bad: true, opt: child(core.ChildFilterDef{Pattern: "*"})},
		{name: "child-poly", bad: true, opt: child(core.ChildFilterDef{Type: enums.FilterTypePoly, Pattern: "*"})},
		{name: "child-unknown", bad: true, opt: child(core.ChildFilterDef{Type: 77, Pattern: "*"})},
		{name: "sample-regex", bad: true, opt: sample(core.SampleFilterDef{Type: enums.FilterTypeRegex, Pattern: "([", Scope: enums.ScopeFile}, 2, 2)},
		{name: "sample-glob", bad: true, opt: sample(core.SampleFilterDef{Type: enums.FilterTypeGlob, Pattern: "[a", Scope: enums.ScopeFile}, 2, 2)},
		{name: "sample-nofiles", bad: true, want: locale.ErrInvalidFileSamplingSpecMissingFiles, opt: sample(core.SampleFilterDef{Type: enums.FilterTypeGlob, Pattern: "*", Scope: enums.ScopeFile}, 0, 2)},
		{name: "sample-nodirs", bad: true, want: locale.ErrInvalidSamplingSpecMissingDirectories, opt: sample(core.SampleFilterDef{Type: enums.FilterTypeGlob, Pattern: "*", Scope: enums.ScopeDirectory}, 2, 0)},
		{name: "sample-undefined", bad: true, want: locale.ErrFilterMissingType, opt: sample(core.SampleFilterDef{Pattern: "*", Scope: enums.ScopeFile}, 2, 2)},
		{name: "sample-custom-missing", bad: true, opt: sample(core.SampleFilterDef{Type: enums.FilterTypeCustom, Scope: enums.ScopeFile}, 2, 2)},
		{name: "sample-globex", bad: true, opt: sample(core.SampleFilterDef{Type: enums.FilterTypeGlobEx, Pattern: "*|*.a", Scope: enums.ScopeFile}, 2, 2)},
		{name: "wake-regex", bad: true, opt: func() pref.Option { return age.WithHibernationFilterWake(cloneDef(&rx)) }},
		{name: "wake-glob", bad: true, opt: func() pref.Option {
			return age.WithHibernationFilterWake(&core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "[a"})
		}},
		{name: "wake-undefined", bad: true, opt: func() pref.Option { return age.WithHibernationFilterWake(&core.FilterDef{Pattern: "*"}) }},
		{name: "sleep-regex", bad: true, opt: func() pref.Option { return age.WithHibernationFilterSleep(cloneDef(&rx)) }},
		{name: "sleep-custom", bad: true, opt: func() pref.Option {
			return age.WithHibernationFilterSleep(&core.FilterDef{Type: enums.FilterTypeCustom, Pattern: "*"})
		}},
	}
}

func optionMoveOf(name string) *optionMove {
	for _, m := range optionMoves() {
		if m.name == name {
			return &m
		}
	}
	return nil
}

// alien is a facade which the library does not know.
type alien struct{ pref.Using }

func (m *misuse) js() string {
	b, _ := json.Marshal(m)
	return string(b)
}

// mistakes: what is wrong with the request; each with the error which says so,
// nil if it isn't known which one does.
func (m *misuse) mistakes() (bad bool, errs []error) {
	is := func(err error) {
		bad = true
		errs = append(errs, err)
	}
	switch m.Facade {
	case "none", "wrong", "alien":
		if m.Resume {
			is(core.ErrWrongResumeFacade)
		} else {
			is(core.ErrWrongPrimaryFacade)
		}
		return
	}
	for _, l := range m.Lacks {
		switch l {
		case "handler":
			is(locale.ErrUsageMissingHandler)
		case "tree":
			is(locale.ErrUsageMissingTreePath)
		case "sub":
			is(locale.ErrUsageMissingSubscription)
		case "from":
			is(locale.ErrUsageMissingRestorePath)
		default:
			is(nil)
		}
	}
	if m.Forest != "ok" {
		is(nil)
	}
	if m.Resume && strings.HasPrefix(m.From, "kind") {
		is(locale.ErrCoreResumeFsMismatch)
	} else if m.Resume && m.From != "good" {
		is(nil)
	}
	for _, o := range m.Opts {
		if mv := optionMoveOf(o); mv.bad {
			is(mv.want)
		}
	}
	return
}

var goodSaved []byte

func misuseState() []byte {
	if goodSaved == nil {
		c := Case{Entries: misuseTree, Sub: subAll, CB: []Act{{"root/b", "panic"}}}
		goodSaved = execWalk(&c).SavedRaw
	}
	return goodSaved
}

// otherKind is the state as saved with file systems of another kind: that of
// the tree (kindT), that of what is saved (kindR), or both.
func otherKind(data []byte, which string) ([]byte, error) {
	var state map[string]map[string]any
	if err := json.Unmarshal(data, &state); err != nil {
		return nil, err
	}
	flipped := 0
	for key, when := range map[string]string{"TraverseDescription": "kindT", "ResumeDescription": "kindR"} {
		for _, part := range state {
			d, ok := part[key].(map[string]any)
			if rel, is := d["IsRelative"].(bool); ok && is && (which == "kind" || which == when) {
				d["IsRelative"] = !rel
				flipped++
			}
		}
	}
	if want := map[string]int{"kind": 2, "kindT": 1, "kindR": 1}[which]; flipped != want {
		return nil, fmt.Errorf("the saved state has changed")
	}
	return json.Marshal(state)
}

var misuseTree = []string{"a", "b/", "b/x", "c/", "c/z"}

func genMisuse(th bool, fn yield) {
	emit := func(m misuse) bool {
		if !m.Resume && !slices.Contains(m.Opts, "fail") {
			own := m
			own.Own = true
			if !fn(&Case{Entries: misuseTree, Sub: subAll, Extra: own.js()}) {
				return false
			}
		}
		return fn(&Case{Entries: misuseTree, Sub: subAll, Extra: m.js()})
	}
	vias := func(m misuse) []string {
		if m.Resume {
			return []string{"direct", "hydra", "narrow"}
		}
		return []string{"direct", "hydra", "narrow", "goldfish"}
	}
	both := func(fn func(misuse) bool) bool {
		for _, resume := range []bool{false, true} {
			for _, run := range []bool{false, true} {
				m := misuse{Resume: resume, Run: run, Facade: "ok", Forest: "ok", From: "good"}
				if !fn(m) {
					return false
				}
			}
		}
		return true
	}
	moves := optionMoves()
	ok := both(func(m misuse) bool {
		for _, via := range vias(m) {
			m := m
			m.Via = via
			lacks := []string{"handler", "tree", "sub", "badsub"}
			if m.Resume {
				lacks = []string{"handler", "from", "strat", "badstrat"}
			}
			for _, f := range []string{"ok", "none", "wrong", "alien"} {
				m.Facade = f
				for set := 0; set < 1<<len(lacks); set++ {
					m.Lacks = nil
					for i, l := range lacks {
						if set&(1<<i) != 0 {
							m.Lacks = append(m.Lacks, l)
						}
					}
					if set&12 == 12 || (f != "ok" && set > 1) {
						continue
					}
					for _, fo := range []string{"ok", "nil", "noT", "noR"} {
						if fo == "noR" && !m.Resume {
							continue // only needed once something is to be saved
						}
						froms := []string{"good"}
						if m.Resume && f == "ok" {
							froms = []string{"good", "missing", "dir", "empty", "garbage", "kind", "kindT", "kindR", "other"}
						}
						for _, from := range froms {
							for _, o := range []string{"", "fail", "filter-regex"} {
								x := m
								x.Forest, x.From = fo, from
								if o != "" {
									x.Opts = []string{o}
								}
								if !emit(x) {
									return false
								}
							}
						}
					}
				}
			}
		}
		return true
	})
	if !ok {
		return
	}
	both(func(m misuse) bool {
		m.Via = "direct"
		for _, a := range moves {
			m.Opts = []string{a.name}
			if !emit(m) {
				return false
			}
			for _, b := range moves {
				m.Opts = []string{a.name, b.name}
				if !emit(m) {
					return false
				}
				if !th && (a.bad || b.bad) && m.Run {
					continue
				}
				for _, c := range moves {
					m.Opts = []string{a.name, b.name, c.name}
					if !emit(m) {
						return false
					}
				}
			}
		}
		return true
	})
}

func checkMisuse(c *Case) verdict {
	var m misuse
	if err := json.Unmarshal([]byte(c.Extra), &m); err != nil {
		return verdict{bad: "harness: " + err.Error()}
	}
	t, err, extra := execMisuse(c, &m)
	r := verdict{execs: 1, sig: sigOf(t) + extra}
	bad, errs := m.mistakes()
	r.steps = []string{m.js(), fmt.Sprint("refused ", bad)}
	switch {
	case t.Panic != "":
		r.bad = "panic escapes: " + t.Panic
	case extra != "":
		r.bad = extra
	case bad && t.Err == "":
		r.bad = "a navigation which can't be set up is not refused"
	case !bad && t.Err != "":
		r.bad = "refused although there is nothing wrong: " + t.ErrText
	case bad && len(t.invoked()) > 0:
		r.bad = "the client is invoked although the navigation is refused"
	case bad && len(t.Metrics) > 0:
		r.bad = fmt.Sprintf("something is counted although the navigation is refused: %v", t.Metrics)
	case len(t.Writes) > 0:
		r.bad = fmt.Sprintf("files are written: %v", t.Writes)
	case !bad:
		want := map[string]bool{}
		for _, p := range []string{"root", "root/a", "root/b", "root/b/x", "root/c", "root/c/z"} {
			if !(m.Resume && (p == "root" || p == "root/a")) {
				want[p] = true
			}
		}
		got := map[string]bool{}
		for _, p := range t.invoked() {
			if m.Resume && !want[p] {
				continue // the directory it starts from
			}
			got[p] = true
		}
		if !reflect.DeepEqual(want, got) {
			r.bad = fmt.Sprintf("presents %v", t.invoked())
		}
	default:
		match := false
		for _, e := range errs {
			match = match || e == nil || errors.Is(err, e)
		}
		if !match {
			r.bad = fmt.Sprintf("refused with an error which does not say why: %s", t.ErrText)
		}
	}
	return r
}

func execMisuse(c *Case, m *misuse) (*Trace, error, string) {
	fixedClock()
	fsys := c.fsys()
	t := &Trace{}
	r := &recorder{t: t, max: eventBudget}
	var mu sync.Mutex
	head := pref.Head{
		Handler: func(s age.Servant) error {
			mu.Lock()
			defer mu.Unlock()
			r.add(Ev{K: "invoke", P: s.Node().Path})
			return nil
		},
		GetForest: func(string) *core.Forest {
			switch m.Forest {
			case "nil":
				return nil
			case "noT":
				return &core.Forest{R: fsys}
			case "noR":
				return &core.Forest{T: fsys}
			}
			return fsys.forest()
		},
	}
	using := &pref.Using{Head: head, Subscription: enums.SubscribeUniversal, Tree: "root"}
	relic := &pref.Relic{Head: head, Strategy: enums.ResumeStrategyFastward}
	for _, l := range m.Lacks {
		switch l {
		case "handler":
			using.Handler, relic.Handler = nil, nil
		case "tree":
			using.Tree = ""
		case "sub":
			using.Subscription = enums.SubscribeUndefined
		case "badsub":
			using.Subscription = 99
		case "strat":
			relic.Strategy = enums.ResumeStrategyUndefined
		case "badstrat":
			relic.Strategy = 99
		}
	}
	if m.Resume {
		dir := scratch()
		relic.From = filepath.Join(dir, "misuse.json")
		data := misuseState()
		switch m.From {
		case "missing":
			relic.From = filepath.Join(dir, "not-there.json")
		case "dir":
			relic.From = dir
		case "empty":
			data = nil
		case "garbage":
			data = []byte("{\"this\": [is not it")
		case "other":
			data = []byte("[1, 2, 3]\n")
		case "kind", "kindT", "kindR":
			var err error
			if data, err = otherKind(data, m.From); err != nil {
				return t, nil, "harness: " + err.Error()
			}
		}
		if err := os.WriteFile(filepath.Join(dir, "misuse.json"), data, 0o600); err != nil {
			return t, nil, "harness: " + err.Error()
		}
		for _, l := range m.Lacks {
			if l == "from" {
				relic.From = ""
			}
		}
	}
	var facade pref.Facade
	switch {
	case m.Facade == "none":
	case m.Facade == "alien":
		facade = &alien{*using}
	case (m.Facade == "ok") != m.Resume:
		facade = using
	default:
		facade = relic
	}
	settings := []pref.Option{age.WithAdminPath("/admin-area"), age.WithNoW(2)}
	for _, o := range m.Opts {
		settings = append(settings, optionMoveOf(o).opt())
	}
	if m.Own {
		using.O = pref.DefaultOptions()
		for _, set := range settings {
			if set == nil {
				continue
			}
			if err := set(using.O); err != nil {
				return t, nil, "harness: " + err.Error()
			}
		}
		settings = nil
	}
	var wg sync.WaitGroup
	var rerr error
	extra := ""
	guard(t, func() {
		var nav age.Navigator
		switch m.Via {
		case "hydra":
			nav = age.Hydra(!m.Run, !m.Resume, &wg)(facade, settings...)
		case "narrow":
			if m.Run {
				nav = age.Hare(!m.Resume, &wg)(facade, settings...)
			} else {
				nav = age.Tortoise(!m.Resume)(facade, settings...)
			}
		case "goldfish":
			nav = age.Goldfish(!m.Run, &wg)(facade, settings...)
		default:
			nav = direct(m.Run, m.Resume, &wg, facade, settings...)
		}
		if nav == nil {
			extra = "no navigator"
			return
		}
		result, err := nav.Navigate(context.Background())
		rerr = err
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			extra = "the wait group is never done"
		}
		mu.Lock()
		defer mu.Unlock()
		if result == nil || reflect.ValueOf(result).IsNil() {
			extra = "no result"
			return
		}
		t.finish(result, err)
		s := result.Session()
		if s == nil || reflect.ValueOf(s).IsNil() {
			extra = "the result has no session"
			return
		}
		if s.Elapsed() < 0 || s.StartedAt().IsZero() {
			extra = "the session has no time"
		}
		_ = s.IsComplete()
	})
	t.Writes = fsys.written()
	return t, rerr, extra
}

func direct(run, resume bool, wg pants.WaitGroup, facade pref.Facade, settings ...pref.Option) age.Navigator {
	factory := age.Walk()
	if run {
		factory = age.Run(wg)
	}
	if resume {
		return factory.Configure().Extent(age.Resume(facade, settings...))
	}
	return factory.Configure().Extent(age.Prime(facade, settings...))
}
