package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"path"
	"sort"
	"strings"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
)

// Act is an action taken by a client supplied function for one path.
type Act struct {
	Path string // full path of the node
	Do   string // err, dir, all, panic, panicerr; for the skip handler: dir, all, allerr
}

// Chg is a change to the tree which comes about at an event ("invoke root/a")
// of the navigation, before whoever is notified of it returns.
type Chg struct {
	At string // kind and path of the event
	Do string // see memFS.change
}

// CustomF describes a client supplied filter: it matches nodes by base name.
type CustomF struct {
	Names []string
}

// Leg is a navigation which resumes the one before it, which panicked.
type Leg struct {
	Strat string // fast, spawn
	CB    []Act  `json:",omitempty"`
	Chg   string `json:",omitempty"` // how the tree has changed in between
}

type Quant struct {
	Files, Dirs uint
	Rev         bool
}

// Case is one closed, serialisable input of the library: a file tree, a
// configuration and the behaviour of every client supplied function. It is
// what the enumerators produce, what the model interprets, what the executor
// runs against the implementation, and what a replay file holds.
type Case struct {
	Entries  []string `json:",omitempty"` // "A/", "A/x": in file system order
	Root     string   `json:",omitempty"`
	Spell    string   `json:",omitempty"` // how the client spells Root, if not like that
	RootFile bool     `json:",omitempty"`
	Missing  bool     `json:",omitempty"` // the tree does not exist
	Abs      bool     `json:",omitempty"`
	Sub      uint     `json:",omitempty"`

	Depth      uint `json:",omitempty"`
	NoRecurse  bool `json:",omitempty"`
	FilesFirst bool `json:",omitempty"`
	CSSort     bool `json:",omitempty"`
	DropSep    bool `json:",omitempty"`

	Node   *core.FilterDef       `json:",omitempty"`
	Child  *core.ChildFilterDef  `json:",omitempty"`
	Sample *core.SampleFilterDef `json:",omitempty"`
	Custom *CustomF              `json:",omitempty"`
	Samp   *Quant                `json:",omitempty"`

	Wake      *core.FilterDef `json:",omitempty"`
	Sleep     *core.FilterDef `json:",omitempty"`
	WakeExcl  bool            `json:",omitempty"`
	SleepIncl bool            `json:",omitempty"`

	CB    []Act  `json:",omitempty"`
	Ask   []Act  `json:",omitempty"`
	Asker bool   `json:",omitempty"` // a skip handler is installed
	Fault string `json:",omitempty"` // "": default, nil: swallow, other: replace

	Chg []Chg `json:",omitempty"` // the tree changes while it is navigated

	on   func(at string) // is told of what happens
	kept *souvenirs      // what the client keeps

	StatErr  bool     `json:",omitempty"`
	ReadErr  []string `json:",omitempty"` // full paths
	InfoErr  []string `json:",omitempty"`
	WriteErr bool     `json:",omitempty"`
	MkErr    bool     `json:",omitempty"`
	NoSaves  bool     `json:",omitempty"` // the client has no file system to save to
	Rescue   string   `json:",omitempty"` // "": default (save), own: custom handler without saving, ownerr

	Listeners int    `json:",omitempty"` // listeners per life cycle event (default 1)
	Hooks     string `json:",omitempty"` // comma separated hook variations
	Admin     string `json:",omitempty"`

	Legs []Leg `json:",omitempty"` // after a panic: the resumed navigations, one after the other

	Run bool `json:",omitempty"`
	NoW uint `json:",omitempty"`

	Extra string `json:",omitempty"`
}

func (c *Case) root() string {
	if c.Root == "" {
		return "root"
	}
	return c.Root
}

// tree is how the client spells it.
func (c *Case) tree() string {
	if c.Spell == "" {
		return c.root()
	}
	return c.Spell
}

// below is the path of something within the tree relative to it.
func (c *Case) below(p string) string {
	if c.root() == "." {
		if p == "." {
			return ""
		}
		return p
	}
	return strings.Trim(strings.TrimPrefix(p, c.root()), "/")
}

func (c *Case) js() string {
	b, _ := json.Marshal(c)
	return string(b)
}

func (c *Case) hash() string {
	h := sha256.Sum256([]byte(c.js()))
	return hex.EncodeToString(h[:8])
}

func (c *Case) sub() enums.Subscription { return enums.Subscription(c.Sub) }

func act(list []Act, p string) string {
	for _, a := range list {
		if a.Path == p {
			return a.Do
		}
	}
	return ""
}

func has(list []string, p string) bool {
	for _, a := range list {
		if a == p {
			return true
		}
	}
	return false
}

// changes makes the changes which come about at an event.
func (c *Case) changes(m *memFS, e Ev) {
	if len(c.Chg) == 0 || e.L != 0 {
		return
	}
	for _, x := range c.Chg {
		if x.At == e.K+" "+e.P {
			m.change(x.Do)
		}
	}
}

func (c *Case) happens(e Ev) {
	if c.on != nil && e.L == 0 {
		c.on(e.K + " " + e.P)
	}
}

func (c *Case) fsys() *memFS {
	m := newMemFS(c.root(), c.Entries, c.RootFile, !c.Abs)
	for _, p := range c.ReadErr {
		m.readErr[p] = true
	}
	for _, p := range c.InfoErr {
		m.infoErr[p] = true
	}
	if c.StatErr {
		m.statErr[c.root()] = true
	}
	if c.Missing {
		m.nodes = map[string]*memNode{}
	}
	m.writeErr = c.WriteErr
	m.mkErr = c.MkErr
	m.noSaves = c.NoSaves
	return m
}

// paths lists every path of the case's tree, including the root.
func (c *Case) paths() []string {
	m := c.fsys()
	out := []string{}
	for p := range m.nodes {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

func (c *Case) dirs() []string {
	m := c.fsys()
	out := []string{}
	for p, n := range m.nodes {
		if n.dir {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

// Ev is one observable event of a traversal.
type Ev struct {
	K      string   // begin, end, descend, ascend, invoke, wake, sleep, ask, fault
	P      string   `json:",omitempty"` // path or description
	Dir    bool     `json:",omitempty"`
	Name   string   `json:",omitempty"`
	Parent string   `json:",omitempty"`
	SubP   string   `json:",omitempty"`
	Depth  int      `json:",omitempty"`
	Scope  uint32   `json:",omitempty"`
	Leaf   bool     `json:",omitempty"`
	NP     string   `json:",omitempty"` // path of the parent node
	Kids   []string `json:",omitempty"`
	Err    string   `json:",omitempty"`
	Entry  string   `json:",omitempty"`
	Info   string   `json:",omitempty"`
	L      int      `json:",omitempty"` // listener index
	Files  []string `json:",omitempty"` // contents given to the skip handler
	Dirs   []string `json:",omitempty"`
}

// Trace is everything observed in one traversal.
type Trace struct {
	Ev       []Ev
	Err      string            `json:",omitempty"` // class of the error returned by Navigate
	ErrText  string            `json:",omitempty"`
	Metrics  map[string]uint   `json:",omitempty"`
	Panic    string            `json:",omitempty"`
	Runaway  bool              `json:",omitempty"`
	Reads    []string          `json:",omitempty"`
	Infos    []string          `json:",omitempty"`
	Stats    []string          `json:",omitempty"`
	Writes   []string          `json:",omitempty"`
	Dest     string            `json:",omitempty"` // where the error says it has been saved
	Saved    *core.ActiveState `json:",omitempty"`
	aside    bool              // what is saved goes to a file system of another kind than the one navigated
	SavedRaw []byte            `json:"-"`
	Done     bool              `json:",omitempty"`
}

func (t *Trace) invoked() []string {
	out := []string{}
	for _, e := range t.Ev {
		if e.K == "invoke" {
			out = append(out, e.P)
		}
	}
	return out
}

func (t *Trace) kinds(ks ...string) []Ev {
	out := []Ev{}
	for _, e := range t.Ev {
		for _, k := range ks {
			if e.K == k {
				out = append(out, e)
			}
		}
	}
	return out
}

func lower(s string) string { return strings.ToLower(s) }

func base(p string) string { return path.Base(p) }
