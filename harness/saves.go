package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"strings"
	"time"
)

// C29: a history of interruptions, at the same time as far as the clock tells,
// in a local file system: everything that has been saved is still there, and
// can be resumed from.

type saveStep struct {
	From  int    // the save which is resumed from, counted from 1; 0: none, the tree is navigated from its top
	Strat string // how it is resumed
	At    string // where the panic comes
	Later int    // seconds that go by before it
}

type saves struct {
	Mode  string
	Taken []string // what has the name already: file, dir, link
	Steps []saveStep
}

func (s *saves) js() string {
	b, _ := json.Marshal(s)
	return string(b)
}

type saved struct {
	file  string // where it is
	raw   string
	at    string
	total map[string]uint
}

var savesTree = []string{"a", "b/", "b/x", "c/", "c/z"}

func savesCase(mode string) *Case {
	c := &Case{Entries: savesTree, Sub: subAll, Root: "/srv/root", Extra: mode + "|", Abs: mode != "rel"}
	if mode == "rel" {
		c.Root = "root"
	}
	return c
}

// interrupt navigates, and panics at a path.
func (d *disk) interrupt(c *Case, st saveStep, from *saved, v *verdict) (*saved, string) {
	var leg *Leg
	cb := []Act{}
	if st.At != "" {
		cb = []Act{{path.Join(c.root(), st.At), "panic"}}
	}
	var m *model
	total := map[string]uint{}
	file := ""
	if from == nil {
		x := *c
		x.CB = cb
		m = newModel(&x)
	} else {
		leg = &Leg{Strat: st.Strat, CB: cb}
		m = resumeModel(c, leg, from.at)
		file = from.file
		if st.Strat == "spawn" {
			total = from.total
		}
	}
	want := m.run()
	if leg != nil && leg.Strat == "spawn" {
		sum := map[string]uint{}
		for k, n := range want.Metrics {
			sum[k] = n
		}
		for _, k := range []string{"files", "dirs"} {
			if n := total[k]; n > 0 {
				sum[k] += n
			}
		}
		want.Metrics = sum
	}
	got := d.run(c, cb, leg, file)
	v.execs++
	v.steps = append(v.steps, stepsOf(want)...)
	v.sig += " / " + sigOf(got)
	vw := view{kinds: "invoke end", meta: true, kids: true, metrics: "files dirs"}
	if bad := diff(vw, want, got); bad != "" {
		return nil, bad
	}
	if want.Err != "saved" {
		return nil, ""
	}
	if len(got.Writes) != 1 {
		return nil, fmt.Sprintf("files written: %v", got.Writes)
	}
	dest := got.Dest
	if d.mode == "rel" {
		dest = filepath.Join(d.dir, dest)
	}
	if filepath.Clean(dest) != got.Writes[0] {
		return nil, fmt.Sprintf("saved as %v, but the error says %q", got.Writes, got.Dest)
	}
	s := &saved{file: got.Writes[0], raw: string(got.SavedRaw), total: want.Metrics}
	if got.Saved == nil {
		return nil, "what is saved can't be read"
	}
	s.at = got.Saved.CurrentPath
	at := m.panicAt
	if leg != nil && leg.Strat == "spawn" && s.at == m.panicked.path {
		at = m.panicked
	}
	if at == nil || s.at != at.path {
		return nil, fmt.Sprintf("saved at %s, expected %v", s.at, at)
	}
	return s, ""
}

func checkSaves(c *Case) (v verdict) {
	var h saves
	if err := json.Unmarshal([]byte(c.Extra), &h); err != nil {
		return verdict{bad: "harness: " + err.Error()}
	}
	defer func() { clockAt = 0 }()
	clockAt = 0
	c = savesCase(h.Mode)
	// what it is called is found out beforehand
	names := []string{}
	if len(h.Taken) > 0 {
		d, err := makeDisk(c)
		defer os.RemoveAll(d.dir)
		if err != nil {
			return verdict{bad: "harness: " + err.Error()}
		}
		for range h.Taken {
			s, bad := d.interrupt(c, h.Steps[0], nil, &v)
			if bad != "" {
				v.bad = "beforehand: " + bad
				return v
			}
			folder, _ := d.admin()
			rel, _ := filepath.Rel(folder, s.file)
			names = append(names, rel)
		}
	}
	d, err := makeDisk(c)
	defer os.RemoveAll(d.dir)
	if err != nil {
		return verdict{bad: "harness: " + err.Error()}
	}
	folder, _ := d.admin()
	for i, what := range h.Taken {
		p := filepath.Join(folder, names[i])
		os.MkdirAll(filepath.Dir(p), 0o700)
		switch what {
		case "file":
			err = os.WriteFile(p, []byte("mine"), 0o600)
		case "dir":
			err = os.Mkdir(p, 0o700)
		case "link":
			err = os.WriteFile(p+".else", []byte("mine"), 0o600)
			if err == nil {
				err = os.Symlink(filepath.Base(p)+".else", p)
			}
		}
		if err != nil {
			return verdict{bad: "harness: " + err.Error()}
		}
	}
	before := tree(d.dir)
	all := []*saved{}
	for i, st := range h.Steps {
		clockAt += time.Duration(st.Later) * time.Second
		var from *saved
		if st.From > 0 {
			from = all[st.From-1]
		}
		s, bad := d.interrupt(c, st, from, &v)
		if bad != "" {
			v.bad = fmt.Sprintf("interruption %d: %s", i+1, bad)
			return v
		}
		if s == nil {
			v.bad = "harness: it isn't interrupted"
			return v
		}
		for j, o := range all {
			if o.file == s.file {
				v.bad = fmt.Sprintf("interruption %d is saved as %s, and so was interruption %d", i+1, filepath.Base(s.file), j+1)
				return v
			}
		}
		all = append(all, s)
		// all that was there is there
		now := tree(d.dir)
		for _, o := range all {
			rel, _ := filepath.Rel(d.dir, o.file)
			if now[rel] != o.raw {
				v.bad = fmt.Sprintf("after interruption %d, %s has changed", i+1, rel)
				return v
			}
			delete(now, rel)
		}
		adm, _ := filepath.Rel(d.dir, folder)
		for p := range now {
			if _, ok := before[p]; !ok && strings.HasSuffix(p, "/") && (strings.HasPrefix(adm+"/", p) || strings.HasPrefix(p, adm+"/")) {
				delete(now, p)
			}
		}
		if a, b := fmt.Sprint(before), fmt.Sprint(now); a != b {
			v.bad = fmt.Sprintf("after interruption %d there is %s, expected %s", i+1, b, a)
			return v
		}
	}
	// each of them can be resumed
	for i, o := range all {
		for _, strat := range []string{"fast", "spawn"} {
			if _, bad := d.interrupt(c, saveStep{From: i + 1, Strat: strat}, o, &v); bad != "" {
				v.bad = fmt.Sprintf("resumed from save %d: %s", i+1, bad)
				return v
			}
		}
	}
	return v
}

// savePoints: where a navigation can be interrupted, given where it starts.
func savePoints(c *Case, from string, strat string) []string {
	var t *Trace
	if from == "" {
		t = Model(c)
	} else {
		t = resumeModel(c, &Leg{Strat: strat}, from).run()
	}
	out := []string{}
	for _, p := range t.invoked() {
		rel, _ := filepath.Rel(c.root(), p)
		out = append(out, rel)
	}
	return out
}

func genSaves(th bool, fn yield) {
	for _, mode := range []string{"default", "home", "abs", "rel"} {
		c := savesCase(mode)
		emit := func(h *saves) bool { return fn(&Case{Sub: subAll, Extra: h.js()}) }
		// where each of the saves so far is at
		var extend func(h saves, ats []string, k int) bool
		extend = func(h saves, ats []string, k int) bool {
			if len(h.Steps) > 0 && !emit(&h) {
				return false
			}
			if k == 0 {
				return true
			}
			next := func(st saveStep, base string) bool {
				for _, p := range savePoints(c, base, st.Strat) {
					for later := 0; later < 2; later++ {
						if len(h.Steps) == 0 && later > 0 {
							continue
						}
						st.At, st.Later = p, later
						m := newModel(c)
						x := *c
						x.CB = []Act{{path.Join(c.root(), p), "panic"}}
						if base == "" {
							m = newModel(&x)
						} else {
							m = resumeModel(c, &Leg{Strat: st.Strat, CB: x.CB}, base)
						}
						m.run()
						if m.panicAt == nil {
							continue
						}
						n := h
						n.Steps = append(append([]saveStep{}, h.Steps...), st)
						if !extend(n, append(append([]string{}, ats...), m.panicAt.path), k-1) {
							return false
						}
					}
				}
				return true
			}
			if !next(saveStep{}, "") {
				return false
			}
			for i, at := range ats {
				for _, strat := range []string{"fast", "spawn"} {
					if !next(saveStep{From: i + 1, Strat: strat}, at) {
						return false
					}
				}
			}
			return true
		}
		if !extend(saves{Mode: mode}, nil, pick(th, 2, 3)) {
			return
		}
		// many in a row
		for n := 3; n <= pick(th, 12, 30); n++ {
			h := saves{Mode: mode}
			for i := 0; i < n; i++ {
				st := saveStep{At: "."}
				if i%3 == 2 {
					st = saveStep{From: i - 1, Strat: "fast", At: "c/z"}
				}
				h.Steps = append(h.Steps, st)
			}
			if !emit(&h) {
				return
			}
		}
		// names that are taken
		for set := 0; set < 27; set++ {
			kinds := []string{"file", "dir", "link"}
			taken := []string{kinds[set%3], kinds[set/3%3], kinds[set/9]}
			for n := 1; n <= 3; n++ {
				if !extend(saves{Mode: mode, Taken: taken[:n]}, nil, 1) {
					return
				}
				h := saves{Mode: mode, Taken: taken[:n], Steps: []saveStep{{At: "."}, {At: "b"}, {At: "c/z"}}}
				if !emit(&h) {
					return
				}
			}
		}
	}
}
