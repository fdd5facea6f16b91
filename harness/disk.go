package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/tfs"
	nef "github.com/snivilised/nefilim"
)

// C26: the local file system, with nothing replaced: trees are made in a
// scratch folder, navigated, interrupted and resumed from the file which has
// been written.

// Extra of a case: what kind of file system, then links (name=target).
//
//	default   no forest is given
//	home      no forest is given, nor where to save
//	abs       an absolute local file system is given
//	rel       a relative local file system is given
//	rootlink  as default, the top level is a symbolic link to the directory
//	here      a relative local file system of the tree itself, which is "."
//	cwd       no forest is given, and the tree is ".", the working directory
func (c *Case) disk() (mode string, links map[string]string) {
	mode, rest, _ := strings.Cut(c.Extra, "|")
	links = map[string]string{}
	for _, l := range strings.Fields(rest) {
		name, target, _ := strings.Cut(l, "=")
		links[name] = target
	}
	return mode, links
}

type disk struct {
	dir   string // the scratch folder, stands for the folder the root is in
	above string // which is that in the model
	top   string // the scratch folder of the tree
	mode  string
}

// same: the paths on the disk are those of the model.
func (d *disk) same() bool {
	return d.mode == "rel" || d.mode == "here" || d.mode == "cwd"
}

var diskCount int

func makeDisk(c *Case) (*disk, error) {
	mode, links := c.disk()
	diskCount++
	d := &disk{dir: filepath.Join(scratch(), fmt.Sprint("disk", os.Getpid(), ".", diskCount)), mode: mode, above: path.Dir(c.root())}
	top := filepath.Join(d.dir, path.Base(c.root()))
	switch mode {
	case "rel":
		top = filepath.Join(d.dir, c.root())
	case "here", "cwd":
		top = filepath.Join(d.dir, "root")
	}
	d.top = top
	real := top
	if mode == "rootlink" {
		real = filepath.Join(d.dir, "elsewhere")
		if err := os.MkdirAll(d.dir, 0o700); err != nil {
			return d, err
		}
		if err := os.Symlink("elsewhere", top); err != nil {
			return d, err
		}
	}
	if err := os.MkdirAll(filepath.Dir(real), 0o700); err != nil {
		return d, err
	}
	if c.RootFile {
		return d, os.WriteFile(real, nil, 0o600)
	}
	if err := os.MkdirAll(real, 0o700); err != nil {
		return d, err
	}
	for _, e := range c.Entries {
		p := filepath.Join(real, e)
		if strings.HasSuffix(e, "/") {
			if err := os.MkdirAll(p, 0o700); err != nil {
				return d, err
			}
			continue
		}
		if err := os.MkdirAll(filepath.Dir(p), 0o700); err != nil {
			return d, err
		}
		if target, ok := links[e]; ok {
			if err := os.Symlink(target, p); err != nil {
				return d, err
			}
			continue
		}
		if err := os.WriteFile(p, []byte(e), 0o600); err != nil {
			return d, err
		}
	}
	return d, nil
}

// model turns a real path into that of the model, and back.
func (d *disk) model(p string) string {
	if d.same() {
		return p
	}
	if p == d.dir || strings.HasPrefix(p, d.dir+"/") {
		return d.above + p[len(d.dir):]
	}
	return p
}

func (d *disk) real(p string) string {
	if d.same() {
		return p
	}
	return d.dir + strings.TrimPrefix(p, d.above)
}

func (d *disk) acts(in []Act) []Act {
	out := []Act{}
	for _, a := range in {
		out = append(out, Act{d.real(a.Path), a.Do})
	}
	return out
}

func (d *disk) head(c *Case, r *recorder) pref.Head {
	client := c.handler(r)
	h := pref.Head{Handler: func(s age.Servant) error {
		n := len(r.t.Ev)
		defer func() {
			// the information is that of this very file
			node := s.Node()
			at := node.Path
			switch d.mode {
			case "rel":
				at = filepath.Join(d.dir, at)
			case "here", "cwd":
				at = filepath.Join(d.top, at)
			}
			stat := os.Lstat
			if node.Parent == nil {
				stat = os.Stat
			}
			have, err := stat(at)
			if err == nil && node.Info != nil && os.SameFile(have, node.Info) && len(r.t.Ev) > n {
				r.t.Ev[n].Info = node.Path
				if node.Info.IsDir() {
					r.t.Ev[n].Info += "/"
				}
			}
		}()
		return client(s)
	}}
	switch d.mode {
	case "abs":
		h.GetForest = func(string) *core.Forest { return &core.Forest{T: tfs.New(), R: tfs.New()} }
	case "rel":
		h.GetForest = func(string) *core.Forest {
			f := tfs.NewFS(nef.Rel{Root: d.dir})
			return &core.Forest{T: f, R: f}
		}
	case "here":
		h.GetForest = func(string) *core.Forest {
			return &core.Forest{T: tfs.NewFS(nef.Rel{Root: d.top}), R: tfs.NewFS(nef.Rel{Root: d.dir})}
		}
	}
	return h
}

func (d *disk) admin() (folder string, o pref.Option) {
	switch d.mode {
	case "rel", "here":
		return filepath.Join(d.dir, "admin-area"), age.WithAdminPath("admin-area")
	case "home":
		os.Setenv("HOME", d.dir)
		return filepath.Join(d.dir, "agenor/admin/resume"), func(o *pref.Options) error {
			o.Monitor.Admin.Path = "~/agenor/admin/resume" // what is there by default
			return nil
		}
	}
	return filepath.Join(d.dir, "admin-area"), age.WithAdminPath(filepath.Join(d.dir, "admin-area"))
}

// run navigates the disk; from is the saved state if it is to be resumed.
func (d *disk) run(c *Case, cb []Act, leg *Leg, from string) *Trace {
	fixedClock()
	t := &Trace{}
	r := &recorder{t: t, max: eventBudget}
	x := *c
	x.CB = d.acts(cb)
	x.Ask = d.acts(c.Ask)
	folder, admin := d.admin()
	earlier := tree(folder)
	if d.mode == "cwd" {
		if was, err := os.Getwd(); err == nil && os.Chdir(d.top) == nil {
			defer os.Chdir(was)
		}
	}
	guard(t, func() {
		var result core.TraverseResult
		var err error
		if leg == nil {
			result, err = age.Walk().Configure().Extent(age.Prime(
				&pref.Using{Head: d.head(&x, r), Subscription: c.sub(), Tree: d.real(c.tree())},
				append(x.options(r), admin)...,
			)).Navigate(context.Background())
		} else {
			strat := enums.ResumeStrategyFastward
			if leg.Strat == "spawn" {
				strat = enums.ResumeStrategySpawn
			}
			result, err = age.Walk().Configure().Extent(age.Resume(
				&pref.Relic{Head: d.head(&x, r), From: from, Strategy: strat},
				append(x.again(r), admin)...,
			)).Navigate(context.Background())
		}
		t.finish(result, err)
	})
	for i := range t.Ev {
		e := &t.Ev[i]
		for _, s := range []*string{&e.P, &e.Parent, &e.NP, &e.Entry, &e.Info} {
			*s = d.model(*s)
		}
		if e.NP == d.above && !d.same() {
			e.NP = ""
		}
	}
	for p, raw := range tree(folder) {
		if old, ok := earlier[p]; ok && old == raw {
			continue
		}
		if !strings.HasSuffix(p, "/") {
			t.Writes = append(t.Writes, filepath.Join(folder, p))
			t.SavedRaw = []byte(raw)
		}
	}
	sort.Strings(t.Writes)
	if len(t.Writes) == 1 {
		var s struct{ Active *core.ActiveState }
		if json.Unmarshal(t.SavedRaw, &s) == nil && s.Active != nil {
			s.Active.Tree = d.model(s.Active.Tree)
			s.Active.CurrentPath = d.model(s.Active.CurrentPath)
			t.Saved = s.Active
		}
	}
	return t
}

// tree: everything there is below a folder.
func tree(dir string) map[string]string {
	out := map[string]string{}
	filepath.WalkDir(dir, func(p string, e os.DirEntry, err error) error {
		if err != nil || p == dir {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case e.IsDir():
			out[rel+"/"] = ""
		case e.Type()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			out[rel] = "-> " + t
		default:
			b, _ := os.ReadFile(p)
			out[rel] = string(b)
		}
		return nil
	})
	return out
}

func checkDisk(c *Case) (v verdict) {
	d, err := makeDisk(c)
	defer os.RemoveAll(d.dir)
	if err != nil {
		v.bad = "harness: " + err.Error()
		return v
	}
	vw := view{kinds: allKinds, meta: true, kids: true, metrics: "files dirs"}
	if len(c.Legs) > 0 || c.CB != nil {
		vw = view{kinds: "invoke end", meta: true, kids: true, metrics: "files dirs"}
	}
	before := tree(d.dir)
	first := *c
	first.Legs = nil
	m := newModel(&first)
	want := m.run()
	got := d.run(c, c.CB, nil, "")
	v.execs = 1
	v.steps = stepsOf(want)
	v.sig = sigOf(got)
	folder, _ := d.admin()
	inFolder := func(t *Trace) {
		for i, w := range t.Writes {
			if strings.HasPrefix(w, folder+"/") {
				t.Writes[i] = "/admin-area/" + w[len(folder)+1:]
				if d.mode == "rel" || d.mode == "here" {
					t.Dest = filepath.Join(d.dir, t.Dest)
				}
				if t.Dest == w {
					t.Dest = t.Writes[i]
				}
			}
		}
	}
	total := want.Metrics
	at := ""
	from := ""
	next := func(t *Trace) { // where it has been saved
		if len(t.Writes) == 1 {
			from = t.Writes[0]
		}
	}
	if v.bad = diff(vw, want, got); v.bad == "" && want.Err == "saved" {
		next(got)
		inFolder(got)
		if v.bad == "" {
			v.bad = savedAt(c, m.panicAt, total, got)
		}
		at = m.panicAt.path
	}
	for i := range c.Legs {
		if v.bad != "" || want.Err != "saved" {
			break
		}
		leg := &c.Legs[i]
		m = resumeModel(c, leg, at)
		want = m.run()
		if leg.Strat == "spawn" {
			sum := map[string]uint{}
			for k, n := range want.Metrics {
				sum[k] = n
			}
			for _, k := range []string{"files", "dirs"} {
				if n := total[k]; n > 0 {
					sum[k] += n
				}
			}
			want.Metrics = sum
		}
		total = want.Metrics
		got = d.run(c, leg.CB, leg, from)
		v.execs++
		v.steps = append(v.steps, stepsOf(want)...)
		v.sig += " / " + sigOf(got)
		if v.bad = diff(vw, want, got); v.bad != "" {
			v.bad = fmt.Sprintf("resumed navigation %d: %s", i+1, v.bad)
		}
	}
	if v.bad == "" {
		// nothing else has been touched
		after := tree(d.dir)
		adm, _ := filepath.Rel(d.dir, folder)
		for p := range after {
			if p+"/" == adm+"/" || strings.HasPrefix(p, adm+"/") || strings.HasPrefix(adm+"/", p) && strings.HasSuffix(p, "/") {
				if _, ok := before[p]; !ok {
					delete(after, p)
				}
			}
		}
		if a, b := fmt.Sprint(before), fmt.Sprint(after); a != b {
			v.bad = fmt.Sprintf("the folder has been changed: %s, was %s", b, a)
		}
	}
	return v
}

// bytewise puts entries into the order in which a local directory is listed.
func bytewise(es []string) []string {
	out := append([]string{}, es...)
	key := func(s string) string { return strings.ReplaceAll(strings.TrimSuffix(s, "/"), "/", "\x00") }
	sort.SliceStable(out, func(i, j int) bool { return key(out[i]) < key(out[j]) })
	return out
}

func genDisk(th bool, fn yield) {
	modes := []string{"default", "home", "abs", "rel", "rootlink", "here", "cwd"}
	roots := map[string]string{"rel": "root", "here": ".", "cwd": "."}
	settings := []func(*Case){
		func(*Case) {},
		func(c *Case) { c.FilesFirst, c.CSSort = true, true },
		func(c *Case) { c.Node = fdef(enums.FilterTypeGlob, "[a-m]*", 0, false, 0); c.Depth = 2 },
		func(c *Case) { c.Samp = &Quant{1, 1, true}; c.DropSep = true },
	}
	mk := func(es []string, mode string, s uint, set int, links string) *Case {
		c := &Case{Entries: bytewise(es), Sub: s, Extra: mode + "|" + links, Root: "/srv/root", Abs: mode != "rel" && mode != "here"}
		if r := roots[mode]; r != "" {
			c.Root = r
		}
		settings[set](c)
		return c
	}
	treesOf(pick(th, 4, 5), []string{"mix"}, true, func(es []string) bool {
		for _, s := range allSubs {
			for _, mode := range modes {
				for set := range settings {
					if !fn(mk(es, mode, s, set, "")) {
						return false
					}
				}
			}
		}
		return true
	})
	// links in every directory: to a file, to a directory, to the top (which
	// makes a cycle), to nothing
	treesOf(pick(th, 3, 4), []string{"mix"}, true, func(es []string) bool {
		dirs := []string{""}
		for _, e := range es {
			if strings.HasSuffix(e, "/") {
				dirs = append(dirs, e)
			}
		}
		for _, dd := range dirs {
			for _, target := range []string{".", "..", "nothing", "/dev/null", "b.txt", "k"} {
				for _, s := range allSubs {
					for _, mode := range modes {
						x := append(append([]string{}, es...), dd+"Link")
						if !fn(mk(x, mode, s, 0, dd+"Link="+target)) {
							return false
						}
					}
				}
			}
		}
		return true
	})
	// however the tree is spelled
	treesOf(pick(th, 3, 4), []string{"mix"}, true, func(es []string) bool {
		for _, s := range allSubs {
			for _, mode := range modes {
				c := mk(es, mode, s, 0, "")
				for _, spell := range spelt(c.rootv()) {
					if c.root()[0] == '/' && !strings.HasPrefix(spell, path.Dir(c.root())+"/") {
						continue
					}
					x := *c
					x.Spell = spell
					if !fn(&x) {
						return false
					}
					for _, p := range Model(c).invoked() {
						y := x
						y.CB = []Act{{p, "panic"}}
						for _, strat := range []string{"fast", "spawn"} {
							y.Legs = []Leg{{Strat: strat}}
							if z := y; !fn(&z) {
								return false
							}
						}
					}
				}
			}
		}
		return true
	})
	// interrupted and resumed
	treesOf(pick(th, 3, 4), []string{"mix"}, true, func(es []string) bool {
		for _, s := range allSubs {
			for _, mode := range modes {
				for set := range settings {
					c := mk(es, mode, s, set, "")
					if tied(c) {
						continue
					}
					for _, p := range Model(c).invoked() {
						for _, strat := range []string{"fast", "spawn"} {
							x := *c
							x.CB = []Act{{p, "panic"}}
							x.Legs = []Leg{{Strat: strat}}
							if !fn(&x) {
								return false
							}
						}
					}
				}
			}
		}
		return true
	})
	// no directory at all
	for _, s := range allSubs {
		for _, mode := range modes {
			c := mk(nil, mode, s, 0, "")
			c.RootFile = true
			if mode != "rootlink" && c.root() != "." && !fn(c) {
				return
			}
		}
	}
}
