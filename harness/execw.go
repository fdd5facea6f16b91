package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/life"
	"github.com/snivilised/agenor/locale"
	"github.com/snivilised/agenor/pref"
)

const eventBudget = 20000

var errClient = errors.New("client error")
var errReplaced = errors.New("replaced fault")
var errAsk = errors.New("skip handler error")
var errPanicVal = errors.New("panicked error value")

func errClass(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, errClient):
		return "client"
	case errors.Is(err, errReplaced):
		return "replaced"
	case errors.Is(err, errAsk):
		return "ask"
	case isSaved(err):
		return "saved"
	case isNotSaved(err):
		return "notsaved"
	case errors.Is(err, errInjected):
		return "injected"
	case errors.Is(err, fs.SkipAll):
		return "SkipAll"
	case errors.Is(err, fs.SkipDir):
		return "SkipDir"
	case errors.Is(err, fs.ErrNotExist):
		return "notexist"
	case errors.Is(err, context.Canceled):
		return "cancelled"
	default:
		return "other"
	}
}

func isSaved(err error) bool {
	var e *locale.TraversalSavedError
	return errors.As(err, &e)
}
func isNotSaved(err error) bool {
	var e *locale.TraversalNotSavedError
	return errors.As(err, &e)
}

func names(es []fs.DirEntry) []string {
	if len(es) == 0 {
		return nil
	}
	out := make([]string, len(es))
	for i, e := range es {
		out[i] = e.Name()
	}
	return out
}

func infoText(i fs.FileInfo) string {
	p, _ := i.Sys().(string)
	if i.IsDir() {
		p += "/"
	}
	return p
}

func snap(k string, n *core.Node) Ev {
	e := Ev{K: k, P: n.Path, Dir: n.IsDirectory(),
		Name: n.Extension.Name, Parent: n.Extension.Parent, SubP: n.Extension.SubPath,
		Depth: n.Extension.Depth, Scope: uint32(n.Extension.Scope), Leaf: n.Extension.IsLeaf,
		Kids: names(n.Children)}
	if n.Parent != nil {
		e.NP = n.Parent.Path
	}
	if n.Entry != nil {
		e.Entry = n.Entry.Name()
	}
	if n.Info != nil {
		e.Info = infoText(n.Info)
	}
	if n.Error != nil {
		e.Err = errClass(n.Error)
	}
	return e
}

type customFilter struct{ f *CustomF }

func (c *customFilter) Description() string            { return "custom" }
func (c *customFilter) Validate() error                { return nil }
func (c *customFilter) Source() string                 { return strings.Join(c.f.Names, ",") }
func (c *customFilter) IsMatch(n *core.Node) bool      { return has(c.f.Names, n.Extension.Name) }
func (c *customFilter) IsApplicable(n *core.Node) bool { return true }
func (c *customFilter) Scope() enums.FilterScope       { return enums.ScopeAll }

type recorder struct {
	t   *Trace
	max int
	mu  sync.Mutex
	on  func(Ev) // what comes about at an event
	// what the client was given, and what it looked like
	kept *souvenirs
}

func (r *recorder) add(e Ev) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.t.Ev = append(r.t.Ev, e)
	if len(r.t.Ev) > r.max {
		r.t.Runaway = true
		runtime.Goexit()
	}
	if r.on != nil {
		r.on(e)
	}
}

func cloneDef(d *core.FilterDef) *core.FilterDef {
	if d == nil {
		return nil
	}
	x := *d
	if d.Poly != nil {
		p := *d.Poly
		x.Poly = &p
	}
	return &x
}

// options builds the option list of a case. Client supplied functions record
// what they see in r.
func (c *Case) options(r *recorder) []pref.Option {
	return append(c.persisted(), c.again(r)...)
}

// persisted: the settings which are part of what is saved.
func (c *Case) persisted() []pref.Option {
	o := []pref.Option{}
	if c.Depth > 0 {
		o = append(o, age.WithDepth(c.Depth))
	}
	if c.NoRecurse {
		o = append(o, age.WithNoRecurse())
	}
	if c.FilesFirst {
		o = append(o, age.WithSortBehaviour(&pref.SortBehaviour{SortFilesFirst: true}))
	}
	if c.DropSep {
		o = append(o, age.WithSubPathBehaviour(&pref.SubPathBehaviour{KeepTrailingSep: false}))
	}
	if c.Node != nil || c.Child != nil || c.Sample != nil {
		fo := pref.FilterOptions{}
		fo.Node = cloneDef(c.Node)
		if c.Child != nil {
			x := *c.Child
			fo.Child = &x
		}
		if c.Sample != nil {
			x := *c.Sample
			if x.Type == enums.FilterTypeCustom {
				x.Custom = newCustomSample(&x)
			}
			fo.Sample = &x
		}
		o = append(o, age.WithFilter(&fo))
	}
	if c.Samp != nil {
		ty := enums.SampleTypeSlice
		if c.Sample != nil {
			ty = enums.SampleTypeFilter
			if c.Sample.Type == enums.FilterTypeCustom {
				ty = enums.SampleTypeCustom
			}
		}
		o = append(o, age.WithSamplingOptions(&pref.SamplingOptions{
			Type: ty, InReverse: c.Samp.Rev,
			NoOf: pref.EntryQuantities{Files: c.Samp.Files, Directories: c.Samp.Dirs},
		}))
	}
	if c.Wake != nil || c.Sleep != nil {
		o = append(o, age.WithHibernationOptions(&core.HibernateOptions{
			WakeAt: cloneDef(c.Wake), SleepAt: cloneDef(c.Sleep),
			Behaviour: core.HibernationBehaviour{
				InclusiveWake: !c.WakeExcl, InclusiveSleep: c.SleepIncl,
			},
		}))
	}
	return o
}

// again: what can not be saved; a client gives it again to resume.
func (c *Case) again(r *recorder) []pref.Option {
	o := []pref.Option{}
	if c.CSSort {
		o = append(o, age.WithHookCaseSensitiveSort())
	}
	o = append(o, c.hookOptions()...)
	if c.Custom != nil {
		o = append(o, func(o *pref.Options) error {
			o.Filter.Custom = &customFilter{c.Custom}
			return nil
		})
	}
	nl := c.Listeners
	if nl == 0 {
		nl = 1
	}
	for i := 0; i < nl; i++ {
		i := i
		o = append(o,
			age.WithOnBegin(func(s *life.BeginState) { r.add(Ev{K: "begin", P: s.Tree, L: i}) }),
			age.WithOnEnd(func(core.TraverseResult) { r.add(Ev{K: "end", L: i}) }),
			age.WithOnDescend(func(n *core.Node) { r.add(Ev{K: "descend", P: n.Path, Dir: n.IsDirectory(), L: i}) }),
			age.WithOnAscend(func(n *core.Node) {
				r.kept.node("ascend", n)
				r.add(Ev{K: "ascend", P: n.Path, Dir: n.IsDirectory(), L: i})
			}),
			age.WithOnWake(func(d string) { r.add(Ev{K: "wake", P: d, L: i}) }),
			age.WithOnSleep(func(d string) { r.add(Ev{K: "sleep", P: d, L: i}) }),
		)
	}
	if c.Asker {
		o = append(o, age.WithSkipHandler(pref.Asker(
			func(n *core.Node, dc core.DirectoryContents, err error) (enums.SkipTraversal, error) {
				e := Ev{K: "ask", P: n.Path, Dir: n.IsDirectory()}
				if err != nil {
					e.Err = errClass(err)
				}
				if n.IsDirectory() || c.Extra == "contents" {
					e.Files, e.Dirs = names(dc.Files()), names(dc.Directories())
				}
				r.kept.node("ask", n)
				r.kept.contents(n, dc)
				r.add(e)
				switch act(c.Ask, n.Path) {
				case "dir":
					return enums.SkipDirTraversal, nil
				case "all":
					return enums.SkipAllTraversal, nil
				case "allerr":
					return enums.SkipAllTraversal, errAsk
				}
				return enums.SkipNoneTraversal, nil
			})))
	}
	switch c.Fault {
	case "nil":
		o = append(o, age.WithFaultHandler(pref.Accepter(func(f *pref.NavigationFault) error {
			r.add(Ev{K: "fault", P: f.Path, Err: errClass(f.Err)})
			return nil
		})))
	case "other":
		o = append(o, age.WithFaultHandler(pref.Accepter(func(f *pref.NavigationFault) error {
			r.add(Ev{K: "fault", P: f.Path, Err: errClass(f.Err)})
			return errReplaced
		})))
	}
	switch c.Rescue {
	case "own":
		o = append(o, age.WithPanicHandler(pref.Rescuer(func(pref.Recovery, pref.RescueData) (string, error) {
			r.add(Ev{K: "rescue"})
			return "nowhere", nil
		})))
	case "ownerr":
		o = append(o, age.WithPanicHandler(pref.Rescuer(func(pref.Recovery, pref.RescueData) (string, error) {
			r.add(Ev{K: "rescue"})
			return "", errReplaced
		})))
	}
	if c.Admin != "" {
		o = append(o, age.WithAdminPath(c.Admin))
	} else {
		o = append(o, age.WithAdminPath("/admin-area"))
	}
	return o
}

func (c *Case) handler(r *recorder) core.Client {
	return func(s age.Servant) error {
		n := s.Node()
		r.kept.node("invoke", n)
		r.add(snap("invoke", n))
		switch act(c.CB, n.Path) {
		case "err":
			return errClient
		case "errwrap":
			return fmt.Errorf("wrapped: %w", errClient)
		case "dir":
			return fs.SkipDir
		case "dirwrap":
			return fmt.Errorf("wrapped: %w", fs.SkipDir)
		case "all":
			return fs.SkipAll
		case "allwrap":
			return fmt.Errorf("wrapped: %w", fs.SkipAll)
		case "panic":
			panic("client panic")
		case "panicerr":
			panic(errPanicVal)
		}
		return nil
	}
}

var metricNames = map[string]enums.Metric{
	"files": enums.MetricNoFilesInvoked, "filesOut": enums.MetricNoFilesFilteredOut,
	"dirs": enums.MetricNoDirectoriesInvoked, "dirsOut": enums.MetricNoDirectoriesFilteredOut,
	"kids": enums.MetricNoChildFilesFound, "kidsOut": enums.MetricNoChildFilesFilteredOut,
}

// guard runs fn in its own goroutine so that a runaway execution can be ended
// with Goexit, and turns an escaping panic into an observation.
func guard(t *Trace, fn func()) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if x := recover(); x != nil {
				t.Panic = fmt.Sprint(x)
			}
		}()
		fn()
	}()
	<-done
}

func (t *Trace) finish(result core.TraverseResult, err error) {
	t.Done = true
	t.Err = errClass(err)
	if err != nil {
		t.ErrText = err.Error()
		var saved *locale.TraversalSavedError
		if errors.As(err, &saved) {
			t.Dest = saved.Destination
		}
	}
	if result != nil {
		t.Metrics = map[string]uint{}
		for k, m := range metricNames {
			if v := result.Metrics().Count(m); v > 0 {
				t.Metrics[k] = v
			}
		}
	}
}

// execWalk runs the case against the implementation.
func execWalk(c *Case) *Trace {
	t, _ := execWalkFS(c)
	return t
}

func execWalkFS(c *Case) (*Trace, *memFS) {
	fixedClock()
	m := c.fsys()
	t := &Trace{}
	r := &recorder{t: t, max: eventBudget, kept: c.kept, on: func(e Ev) { c.changes(m, e); c.happens(e) }}
	if c.on != nil {
		m.onRead = func(p string) { c.on("read " + p) }
	}
	guard(t, func() {
		result, err := age.Walk().Configure().Extent(age.Prime(
			&pref.Using{
				Head:         c.head(r, m),
				Subscription: c.sub(),
				Tree:         c.tree(),
			}, c.options(r)...,
		)).Navigate(context.Background())
		t.finish(result, err)
	})
	t.effects(m)
	return t, m
}

// execPanicAnywhere navigates with settings which the model does not know;
// the client panics when it is invoked for the second time.
func execPanicAnywhere(c *Case, more ...pref.Option) *Trace {
	fixedClock()
	m := c.fsys()
	t := &Trace{}
	r := &recorder{t: t, max: eventBudget}
	h := c.head(r, m)
	h.Handler = func(s age.Servant) error {
		r.add(snap("invoke", s.Node()))
		if len(t.invoked()) > 1 {
			panic("client panic")
		}
		return nil
	}
	guard(t, func() {
		result, err := age.Walk().Configure().Extent(age.Prime(
			&pref.Using{Head: h, Subscription: c.sub(), Tree: c.tree()}, append(c.options(r), more...)...,
		)).Navigate(context.Background())
		t.finish(result, err)
	})
	t.effects(m)
	return t
}

// clockAt is how much time has gone by.
var clockAt time.Duration

func fixedClock() {
	core.Now = func() time.Time { return time.Unix(1700000000, 0).UTC().Add(clockAt) }
}

func (c *Case) head(r *recorder, m *memFS) pref.Head {
	return pref.Head{
		Handler:   c.handler(r),
		GetForest: func(string) *core.Forest { return m.forest() },
	}
}

// effects notes what the navigation did to the file system.
func (t *Trace) effects(m *memFS) {
	t.Reads, t.Infos, t.Stats = m.reads, m.infos, m.stats
	t.aside = true
	t.Writes = m.written()
	if len(t.Writes) == 1 {
		t.SavedRaw = m.writes[t.Writes[0]]
		var x struct{ Active *core.ActiveState }
		if json.Unmarshal(t.SavedRaw, &x) == nil {
			t.Saved = x.Active
		}
	}
}

// scratch is a folder for the one file of a case which has to be a real one.
func scratch() string {
	if d := os.Getenv("VERIF_SCRATCH"); d != "" {
		return d
	}
	scratchOnce.Do(func() { scratchDir, _ = os.MkdirTemp("", "verif-scratch") })
	return scratchDir
}

var (
	scratchOnce sync.Once
	scratchDir  string
)

// execLeg resumes a navigation of which saved is what it left behind; the
// client gives again what can not be saved.
func execLeg(c *Case, leg *Leg, saved []byte, more ...pref.Option) *Trace {
	fixedClock()
	from := filepath.Join(scratch(), "saved.json")
	t := &Trace{}
	if err := os.WriteFile(from, saved, 0o600); err != nil {
		t.Panic = "harness: " + err.Error()
		return t
	}
	x := *c
	x.CB = leg.CB
	m := x.fsys()
	m.change(leg.Chg)
	r := &recorder{t: t, max: eventBudget, kept: c.kept, on: c.happens}
	if c.on != nil {
		m.onRead = func(p string) { c.on("read " + p) }
	}
	strat := enums.ResumeStrategyFastward
	if leg.Strat == "spawn" {
		strat = enums.ResumeStrategySpawn
	}
	guard(t, func() {
		result, err := age.Walk().Configure().Extent(age.Resume(
			&pref.Relic{
				Head:     x.head(r, m),
				From:     from,
				Strategy: strat,
			}, append(x.again(r), more...)...,
		)).Navigate(context.Background())
		t.finish(result, err)
	})
	t.effects(m)
	return t
}

// savedFile puts what has been saved where it can be resumed from.
func savedFile(saved []byte) string {
	from := filepath.Join(scratch(), "saved.json")
	_ = os.WriteFile(from, saved, 0o600)
	return from
}

// customSample is a sample filter defined by the client, with the help of the
// one it can base it on.
type customSample struct {
	description string
	matching    func([]fs.DirEntry) []fs.DirEntry
	validate    func() error
}

func newCustomSample(d *core.SampleFilterDef) *customSample {
	b := age.NewCustomSampleFilter(d.Scope)
	pattern, negate := d.Pattern, d.Negate
	return &customSample{
		description: d.Description,
		validate:    b.Validate,
		matching: func(es []fs.DirEntry) []fs.DirEntry {
			return b.Matching(es, func(e fs.DirEntry, _ int) bool {
				return patternMatch(enums.FilterTypeGlob, pattern, e.Name()) != negate
			})
		},
	}
}

func (f *customSample) Description() string { return f.description }
func (f *customSample) Validate() error     { return f.validate() }
func (f *customSample) Matching(es []fs.DirEntry) []fs.DirEntry {
	return f.matching(es)
}
