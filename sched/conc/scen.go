package main

import (
	"cmp"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"slices"
	"sort"
	"strings"
	"time"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/life"
	"github.com/snivilised/agenor/locale"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/tfs"
	"verif/vs"
	"verif/vs/vctx"
	"verif/vs/vlog"
	"verif/vs/vsync"
	"verif/vs/vtime"
)

// Scen is a closed program: what is traversed, how, and what else goes on at
// the same time. All that is left open is the schedule.
type Scen struct {
	Fam     string
	Entries []string
	Sub     uint
	Walk    bool              `json:",omitempty"`
	NoW     uint              `json:",omitempty"`
	In      uint              `json:",omitempty"`
	Out     string            `json:",omitempty"` // "", range: until it's closed, ctx: or the context is done
	OutSize uint              `json:",omitempty"`
	CB      map[string]string `json:",omitempty"` // what the callback does for a path
	Feat    string            `json:",omitempty"`
	Cancel  string            `json:",omitempty"` // "", before, any (another goroutine), cb (the callback of a path), late (a timeout)
	Fault   string            `json:",omitempty"` // the directory which can't be read
	Early   bool              `json:",omitempty"` // timers may fire early
	Order   int               `json:",omitempty"` // who runs by default: 1 the oldest goroutine, 2 the newest
	Slow    int               `json:",omitempty"` // the goroutine which is slow to run
	Tree    string            `json:",omitempty"` // what is traversed; root, if empty
	Resume  string            `json:",omitempty"` // fast, spawn: it's resumed from where a panic came
	From    string            `json:",omitempty"` // where that was
	OneFS   bool              `json:",omitempty"` // the sessions use the same file system
	OneDef  bool              `json:",omitempty"` // the sessions are given the same definitions of what they ask for
	Others  []*Scen           `json:",omitempty"` // sessions which run at the same time
	Bound   [2]int            // deviations from the default schedule: quick, thorough
}

func (sc *Scen) js() string {
	b, _ := json.Marshal(sc)
	return string(b)
}

const root = "root"

// slowFS has a step of its own for every access, so that other goroutines can
// come in between.
type slowFS struct {
	*memFS
}

func (f *slowFS) ReadDir(name string) ([]fs.DirEntry, error) {
	vs.Point("fs.ReadDir")
	return f.memFS.ReadDir(name)
}

func (f *slowFS) Stat(name string) (fs.FileInfo, error) {
	vs.Point("fs.Stat")
	return f.memFS.Stat(name)
}

func (f *slowFS) FileExists(name string) bool {
	vs.Point("fs.FileExists")
	return f.memFS.FileExists(name)
}

func (f *slowFS) DirectoryExists(name string) bool {
	vs.Point("fs.DirectoryExists")
	return f.memFS.DirectoryExists(name)
}

func (f *slowFS) MakeDirAll(name string, perm fs.FileMode) error {
	vs.Point("fs.MakeDirAll")
	return f.memFS.MakeDirAll(name, perm)
}

func (f *slowFS) WriteFile(name string, data []byte, perm fs.FileMode) error {
	vs.Point("fs.WriteFile")
	return f.memFS.WriteFile(name, data, perm)
}

var _ tfs.TraversalFS = &slowFS{}

// dest is where a navigation has been saved, if it was.
func dest(err error) string {
	var e *locale.TraversalSavedError
	if errors.As(err, &e) {
		return e.Destination
	}
	return ""
}

var errClient = errors.New("client error")

func errClass(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, errClient):
		return "client"
	case dest(err) != "":
		return "saved"
	case errors.Is(err, context.Canceled):
		return "canceled"
	case errors.Is(err, context.DeadlineExceeded):
		return "deadline"
	case errors.Is(err, errInjected):
		return "fault"
	case errors.Is(err, fs.SkipAll):
		return "SkipAll"
	case errors.Is(err, fs.SkipDir):
		return "SkipDir"
	default:
		return "other: " + err.Error()
	}
}

// snap is all a client can see of a node.
func snap(n *core.Node) string {
	var b strings.Builder
	fmt.Fprintf(&b, "path=%q dir=%v name=%q parent=%q sub=%q depth=%d scope=%d leaf=%v err=%v",
		n.Path, n.IsDirectory(), n.Extension.Name, n.Extension.Parent, n.Extension.SubPath,
		n.Extension.Depth, n.Extension.Scope, n.Extension.IsLeaf, n.Error)
	for _, c := range n.Children {
		fmt.Fprintf(&b, " child=%q", c.Name())
	}
	for p := n.Parent; p != nil; p = p.Parent {
		fmt.Fprintf(&b, " up=%q/%d", p.Path, p.Extension.Depth)
	}
	if n.Entry != nil {
		fmt.Fprintf(&b, " entry=%q", n.Entry.Name())
	}
	if n.Info != nil {
		fmt.Fprintf(&b, " info=%q", n.Info.Name())
	}
	return b.String()
}

// session is one navigation, and what was seen of it.
type session struct {
	sc      *Scen
	fs      *slowFS
	log     vlog.Log
	obj     vs.Obj
	wg      vsync.WaitGroup
	ctx     context.Context
	cancel  context.CancelFunc
	result  core.TraverseResult
	err     error
	done    bool
	waited  bool
	from    string // the file it's resumed from
	feat    []pref.Option
	left    int
	metrics map[string]uint
}

func newSession(sc *Scen) *session {
	m := newMemFS(root, sc.Entries, false, false)
	if sc.Fault != "" {
		m.readErr[sc.Fault] = true
	}
	return &session{sc: sc, fs: &slowFS{m}, from: sc.savedFile(), feat: sc.feature()}
}

// interrupted is what comes before a navigation which is resumed.
func (sc *Scen) interrupted() *Scen {
	w := *sc
	w.Walk, w.Cancel, w.Out, w.Resume, w.Others = true, "", "", "", nil
	w.CB = map[string]string{sc.From: "panic"}
	return &w
}

var savedFiles = map[string]string{}

// savedFile is what a navigation which panicked has left behind.
func (sc *Scen) savedFile() string {
	if sc.Resume == "" {
		return ""
	}
	w := sc.interrupted()
	if f, ok := savedFiles[w.js()]; ok {
		return f
	}
	x := newSession(w)
	x.navigate()
	raw := x.fs.writes[dest(x.err)]
	if len(raw) == 0 {
		panic(fmt.Sprintf("harness: nothing is saved: %v", x.err))
	}
	dir := os.Getenv("VERIF_SCRATCH")
	f, err := os.CreateTemp(dir, "saved*.json")
	if err != nil {
		panic(err)
	}
	if _, err = f.Write(raw); err == nil {
		err = f.Close()
	}
	if err != nil {
		panic(err)
	}
	savedFiles[w.js()] = f.Name()
	return f.Name()
}

func (x *session) options() []pref.Option {
	sc := x.sc
	note := func(k, p string) { x.log.Add("life", k+" "+p, "", nil) }
	o := []pref.Option{
		age.WithOnBegin(func(b *life.BeginState) {
			x.log.Add("begin", "", "", nil)
			note("begin", b.Tree)
		}),
		age.WithOnEnd(func(core.TraverseResult) {
			x.log.Add("end", "", "", nil)
			note("end", "")
		}),
		age.WithOnDescend(func(n *core.Node) { note("descend", n.Path) }),
		age.WithOnAscend(func(n *core.Node) { note("ascend", n.Path) }),
		age.WithOnWake(func(d string) { note("wake", d) }),
		age.WithOnSleep(func(d string) { note("sleep", d) }),
		age.WithAdminPath("/admin-area"),
	}
	if sc.NoW > 0 {
		o = append(o, age.WithNoW(sc.NoW))
	}
	if sc.In > 0 {
		o = append(o, func(o *pref.Options) error {
			o.Concurrency.Input.Size = sc.In
			return nil
		})
	}
	o = append(o, x.feat...)
	if sc.Out != "" {
		var patience time.Duration
		if sc.Slow > 0 {
			patience = 10 * time.Second // nothing is to be dropped
		}
		o = append(o, age.WithOutput(&pref.OutputOptions{
			Size:          sc.OutSize,
			On:            x.consume,
			TimeoutOnSend: patience,
		}))
	}
	return o
}

// feature is what the client asks for besides. The definitions are its own, two
// sessions may be given the same ones.
func (sc *Scen) feature() (o []pref.Option) {
	if sc.Resume != "" {
		return nil // that's saved
	}
	switch sc.Feat {
	case "filter":
		o = append(o, age.WithFilter(&pref.FilterOptions{Node: &core.FilterDef{
			Type: enums.FilterTypeRegex, Pattern: "^[a-z]", Description: "lower",
		}}))
	case "sampling":
		o = append(o, age.WithSamplingOptions(&pref.SamplingOptions{
			Type: enums.SampleTypeSlice, NoOf: pref.EntryQuantities{Files: 1, Directories: 1},
		}))
	case "child":
		o = append(o, age.WithFilter(&pref.FilterOptions{Child: &core.ChildFilterDef{
			Type: enums.FilterTypeRegex, Pattern: "^[a-z]", Description: "lower",
		}}))
	case "cascade":
		o = append(o, age.WithNoRecurse())
	case "subpath":
		o = append(o, age.WithSubPathBehaviour(&pref.SubPathBehaviour{KeepTrailingSep: false}))
	case "depth":
		o = append(o, age.WithDepth(2))
	case "hiber":
		o = append(o, age.WithHibernationOptions(&core.HibernateOptions{
			WakeAt:    &core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "f*", Scope: enums.ScopeAll, Description: "wake"},
			Behaviour: core.HibernationBehaviour{InclusiveWake: true},
		}))
	case "poly":
		o = append(o, age.WithFilter(&pref.FilterOptions{Node: &core.FilterDef{
			Type: enums.FilterTypePoly, Description: "poly", Poly: &core.PolyFilterDef{
				File:      core.FilterDef{Type: enums.FilterTypeRegex, Pattern: "^[f-z]", Scope: enums.ScopeAll, Description: "files"},
				Directory: core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "[a-e]*", Scope: enums.ScopeAll, Description: "directories"},
			},
		}}))
	case "ext":
		o = append(o, age.WithFilter(&pref.FilterOptions{Node: &core.FilterDef{
			Type: enums.FilterTypeGlobEx, Pattern: "[a-z]*|", Description: "ext", Negate: true,
		}}))
	case "both":
		o = append(o, age.WithFilter(&pref.FilterOptions{
			Node:  &core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "[a-z]*", Scope: enums.ScopeDirectory, Description: "node"},
			Child: &core.ChildFilterDef{Type: enums.FilterTypeRegex, Pattern: "^[a-z]", Description: "lower", Negate: true},
		}))
	case "samples":
		o = append(o, age.WithFilter(&pref.FilterOptions{Sample: &core.SampleFilterDef{
			Type: enums.FilterTypeRegex, Pattern: "^[f-z]", Scope: enums.ScopeFile, Description: "sample",
		}}), age.WithSamplingOptions(&pref.SamplingOptions{
			Type: enums.SampleTypeFilter, NoOf: pref.EntryQuantities{Files: 1, Directories: 1}, InReverse: true,
		}))
	case "naps":
		o = append(o, age.WithHibernationOptions(&core.HibernateOptions{
			WakeAt:    &core.FilterDef{Type: enums.FilterTypeRegex, Pattern: "^[a-f]", Description: "wake"},
			SleepAt:   &core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "g*", Scope: enums.ScopeFile, Description: "sleep"},
			Behaviour: core.HibernationBehaviour{InclusiveSleep: true},
		}))
	case "sort":
		o = append(o, age.WithSortBehaviour(&pref.SortBehaviour{SortFilesFirst: true}))
	}
	return o
}

// consume is what a client does with the outputs.
func (x *session) consume(outs core.OutputStream) {
	// whether it comes before the client has waited is part of what is seen
	vs.Op("consume", &x.obj, true, nil)
	if x.log.IsOver() {
		x.log.Add("bad", "", "the outputs are handed over after the wait group was waited for", nil)
	}
	x.wg.Add(1)
	vs.Go("consumer", func() {
		defer x.wg.Done()
		take := func(k, key string, err, perr error) {
			x.log.Add("out", key, errClass(perr), err)
		}
		for {
			if x.sc.Out == "ctx" {
				a, b := vs.RecvCase(outs), vs.RecvCase(x.ctx.Done())
				if vs.Select("consumer", false, a, b) == 1 {
					return
				}
				if !a.OK {
					x.log.Add("closed", "", "", nil)
					return
				}
				x.log.Add("outnode", a.V.Payload.Servant.Node().Path, snap(a.V.Payload.Servant.Node()), nil)
				take("out", a.V.Payload.Servant.Node().Path, a.V.Error, a.V.Payload.Error)
				continue
			}
			v, ok := vs.Recv2("consumer", outs)
			if !ok {
				x.log.Add("closed", "", "", nil)
				return
			}
			if v.Payload == nil || v.Payload.Servant == nil {
				x.log.Add("bad", "", "output without a payload", v.Error)
				continue
			}
			x.log.Add("outnode", v.Payload.Servant.Node().Path, snap(v.Payload.Servant.Node()), nil)
			take("out", v.Payload.Servant.Node().Path, v.Error, v.Payload.Error)
		}
	})
}

func (x *session) client(s age.Servant) error {
	// how callbacks overlap is part of what is seen
	vs.Op("enter", &x.obj, true, nil)
	if !x.log.Enter() {
		x.log.Add("late", s.Node().Path, "", nil)
	}
	defer func() {
		vs.Op("leave", &x.obj, true, nil)
		x.log.Leave()
	}()
	n := s.Node()
	before := snap(n)
	x.log.Add("in", n.Path, before, nil)
	if x.sc.Walk {
		vs.Point("callback")
	}
	if after := snap(n); after != before {
		x.log.Add("bad", n.Path, "the node changes while it is presented: "+before+" / "+after, nil)
	}
	do := x.sc.CB[n.Path]
	if d, ok := strings.CutPrefix(do, "sleep:"); ok {
		var ms int
		fmt.Sscan(d, &ms)
		vtime.Sleep(time.Duration(ms) * time.Millisecond)
	}
	switch do {
	case "err":
		return errClient
	case "dir":
		return fs.SkipDir
	case "all":
		return fs.SkipAll
	case "panic":
		panic("client panic")
	case "cancel":
		x.cancel()
	}
	return nil
}

func (x *session) head() pref.Head {
	return pref.Head{
		Handler:   x.client,
		GetForest: func(string) *core.Forest { return x.fs.forest() },
	}
}

// builders are of a navigation from the top, or of one which is resumed.
func (x *session) builders() *age.Builders {
	switch x.sc.Resume {
	case "":
		return age.Prime(&pref.Using{
			Subscription: enums.Subscription(x.sc.Sub),
			Head:         x.head(),
			Tree:         cmp.Or(x.sc.Tree, root),
		}, x.options()...)
	case "spawn":
		return age.Resume(&pref.Relic{Head: x.head(), From: x.from, Strategy: enums.ResumeStrategySpawn}, x.options()...)
	default:
		return age.Resume(&pref.Relic{Head: x.head(), From: x.from, Strategy: enums.ResumeStrategyFastward}, x.options()...)
	}
}

// navigate is the client's main function.
func (x *session) navigate() {
	sc := x.sc
	x.ctx, x.cancel = vctx.WithCancel(context.Background())
	switch sc.Cancel {
	case "before":
		x.cancel()
	case "any":
		vs.GoLow("canceller", func() { x.cancel() })
	case "late":
		x.ctx, x.cancel = vctx.WithTimeout(context.Background(), 700*time.Millisecond)
	}
	var nav age.Navigator
	if sc.Walk {
		nav = age.Walk().Configure().Extent(x.builders())
	} else {
		nav = age.Run(&x.wg).Configure().Extent(x.builders())
	}
	x.result, x.err = nav.Navigate(x.ctx)
	x.done = true
	x.log.Add("returned", "", "", nil)
	if !sc.Walk {
		x.wg.Wait()
	}
	vs.Op("end", &x.obj, true, nil)
	x.left = x.log.End()
	x.waited = true
	x.metrics = map[string]uint{}
	if x.result != nil {
		for k, m := range metricNames {
			x.metrics[k] = uint(x.result.Metrics().Count(m))
		}
	}
}

var metricNames = map[string]enums.Metric{
	"files": enums.MetricNoFilesInvoked, "filesOut": enums.MetricNoFilesFilteredOut,
	"dirs": enums.MetricNoDirectoriesInvoked, "dirsOut": enums.MetricNoDirectoriesFilteredOut,
	"kids": enums.MetricNoChildFilesFound, "kidsOut": enums.MetricNoChildFilesFilteredOut,
}

// oracle is what a sequential traversal of the same, by itself, presents.
type oracle struct {
	order   []string
	snaps   map[string]string
	metrics map[string]uint
	err     string
	begins  int
	ends    int
	life    []string // all it's notified of, in order
	saved   string   // what is in the file it leaves behind
}

func (sc *Scen) oracle() *oracle {
	w := *sc
	w.Walk, w.Cancel, w.Out = true, "", ""
	if !sc.Walk {
		w.CB = nil // what the callback says doesn't steer a concurrent traversal
	}
	x := newSession(&w)
	x.navigate()
	o := &oracle{snaps: map[string]string{}, metrics: x.metrics, err: errClass(x.err)}
	o.saved = string(x.fs.writes[dest(x.err)])
	for _, e := range x.log.Es {
		switch e.Kind {
		case "begin":
			o.begins++
		case "end":
			o.ends++
		case "life":
			o.life = append(o.life, e.Key)
		}
		if e.Kind == "in" {
			o.order = append(o.order, e.Key)
			o.snaps[e.Key] = e.Text
		}
	}
	return o
}

// run executes the program; to be called under the scheduler.
func (sc *Scen) run(xs []*session) {
	if len(xs) == 1 {
		xs[0].navigate()
		return
	}
	done := make(chan int, len(xs))
	for i := 1; i < len(xs); i++ {
		x := xs[i]
		vs.Go("session", func() {
			x.navigate()
			vs.Send("session", done)(1)
		})
	}
	xs[0].navigate()
	for i := 1; i < len(xs); i++ {
		vs.Recv("main", done)
	}
}

// judge what was seen of a session.
func (x *session) judge(o *oracle) string {
	sc := x.sc
	if !x.done || !x.waited {
		return "the traversal doesn't come to an end"
	}
	seen := map[string]int{}
	outs := map[string]int{}
	var order, notes []string
	begin, end, closed := 0, 0, 0
	for _, e := range x.log.Es {
		switch e.Kind {
		case "bad":
			return e.Text
		case "late":
			return fmt.Sprintf("the callback is called for %s after the wait group was waited for", e.Key)
		case "begin":
			begin++
		case "end":
			end++
		case "closed":
			closed++
		case "life":
			notes = append(notes, e.Key)
		case "in":
			seen[e.Key]++
			order = append(order, e.Key)
			if s, ok := o.snaps[e.Key]; !ok {
				return fmt.Sprintf("%s is presented, a sequential traversal doesn't", e.Key)
			} else if s != e.Text {
				return fmt.Sprintf("the node of %s is %s, in a sequential traversal %s", e.Key, e.Text, s)
			}
			if seen[e.Key] > 1 {
				return fmt.Sprintf("%s is presented twice", e.Key)
			}
		case "outnode":
			if s, ok := o.snaps[e.Key]; ok && s != e.Text {
				return fmt.Sprintf("the node in the output for %s is %s, in a sequential traversal %s", e.Key, e.Text, s)
			}
		case "out":
			outs[e.Key]++
			if outs[e.Key] > 1 {
				return fmt.Sprintf("two outputs for %s", e.Key)
			}
			if c := errClass(e.Err); seen[e.Key] == 0 && c == e.Text && (c == "canceled" || c == "deadline") && sc.Cancel != "" {
				break // it was not to be, any more
			}
			if seen[e.Key] == 0 {
				return fmt.Sprintf("an output for %s, which was not presented", e.Key)
			}
			want := ""
			switch sc.CB[e.Key] {
			case "err":
				want = "client"
			case "dir":
				want = "SkipDir"
			case "all":
				want = "SkipAll"
			}
			if got := errClass(e.Err); got != want || e.Text != want {
				return fmt.Sprintf("the output for %s has error %q and %q, the callback returned %q", e.Key, got, e.Text, want)
			}
		}
	}
	if sc.Resume == "" && begin != 1 || begin != o.begins || end != o.ends {
		return fmt.Sprintf("begin was notified %d times, end %d times, by itself %d and %d", begin, end, o.begins, o.ends)
	}
	if s := notified(notes, o.life, sc.Cancel != ""); s != "" {
		return s
	}
	if o.saved != "" {
		if got := string(x.fs.writes[dest(x.err)]); got != o.saved {
			return fmt.Sprintf("what is saved is %q, by itself %q", got, o.saved)
		}
	}
	if x.left > 0 {
		return fmt.Sprintf("%d callbacks are still under way after the wait group was waited for", x.left)
	}
	now := int(sc.NoW)
	if sc.Walk {
		now = 1
	} else if now == 0 {
		now = 2 // vrt.NumCPU
	}
	if x.log.Peak > now {
		return fmt.Sprintf("%d callbacks at the same time, %d workers were asked for", x.log.Peak, now)
	}
	if x.result == nil {
		return "no result"
	}
	if sc.Walk {
		if strings.Join(order, " ") != strings.Join(o.order, " ") {
			return fmt.Sprintf("presented %v, by itself %v", order, o.order)
		}
	}
	if sc.Cancel == "" {
		if c := errClass(x.err); c != o.err {
			return fmt.Sprintf("the traversal ends with error %q, by itself with %q", c, o.err)
		}
	} else {
		switch c := errClass(x.err); c {
		case "canceled", "deadline":
		default:
			if c != o.err {
				return fmt.Sprintf("the traversal ends with error %q, by itself with %q", c, o.err)
			}
		}
		if x.err != nil {
			return ""
		}
		if x.ctx.Err() != nil {
			return "" // jobs which were queued may have been abandoned
		}
	}
	for _, p := range o.order {
		if seen[p] == 0 {
			return fmt.Sprintf("%s is never presented", p)
		}
	}
	if sc.Out != "" && sc.Cancel == "" {
		for _, p := range o.order {
			if outs[p] == 0 && sc.CB[p] != "panic" {
				return fmt.Sprintf("no output for %s", p)
			}
		}
		if closed != 1 {
			return "the output channel is not closed"
		}
	}
	if a, b := fmt.Sprint(sortedMetrics(x.metrics)), fmt.Sprint(sortedMetrics(o.metrics)); a != b {
		return fmt.Sprintf("metrics %s, by a sequential traversal %s", a, b)
	}
	return ""
}

// notified: the client is told of the same, in the same order, as by a
// sequential traversal. When that's cut short, of some of it, but whatever is
// descended into is ascended from.
func notified(got, want []string, short bool) string {
	if !short {
		if strings.Join(got, ";") != strings.Join(want, ";") {
			return fmt.Sprintf("notified of %v, by a sequential traversal of %v", got, want)
		}
		return ""
	}
	i := 0
	open := []string{}
	// what a resumed navigation descends into while the client is not told yet
	muted := map[string]bool{}
	for _, n := range want {
		if p, ok := strings.CutPrefix(n, "ascend "); ok && !slices.Contains(want, "descend "+p) {
			muted[p] = true
		}
	}
	for _, n := range got {
		for i < len(want) && want[i] != n {
			i++
		}
		if i == len(want) {
			return fmt.Sprintf("notified of %v, by a sequential traversal of %v", got, want)
		}
		i++
		if p, ok := strings.CutPrefix(n, "descend "); ok {
			open = append(open, p)
		}
		if p, ok := strings.CutPrefix(n, "ascend "); ok {
			if len(open) == 0 && muted[p] {
				continue
			}
			if len(open) == 0 || open[len(open)-1] != p {
				return fmt.Sprintf("notified of %v: ascends from where it has not descended into", got)
			}
			open = open[:len(open)-1]
		}
	}
	if len(open) > 0 {
		return fmt.Sprintf("notified of %v: does not ascend from %v", got, open)
	}
	return ""
}

func sortedMetrics(m map[string]uint) []string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(l)
	return l
}
