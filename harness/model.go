package main

import (
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
)

// The reference model: a deliberately plain interpreter of a Case. It knows
// nothing about chains, plugins, roles, brokers or hooks; it states what a
// client is promised.

type mnode struct {
	*memNode
	up    *mnode
	depth int
	leaf  bool
	scope uint32
	sub   string
	info  string // what there was at the path, when it was visited
	fail  string // why that could not be told
}

type ctl int

const (
	goOn ctl = iota
	stopSiblings
	stopAll
)

type model struct {
	c        *Case
	fs       *memFS
	t        *Trace
	hib      int // 0: off, 1: pending, 2: active, 3: retired
	err      string
	panicAt  *mnode // directory whose contents were being visited at a panic
	hits     int    // states visited (statistics)
	max      uint
	panicked *mnode            // node at which the client panicked
	all      map[string]*mnode // what has been described, if asked for
	from     string            // resuming: everything before this node has been visited already
}

const (
	subFiles  = 1
	subDirs   = 2
	subDirsF  = 3
	subAll    = 4
	scTree    = 1
	scTop     = 2
	scLeaf    = 4
	scInter   = 8
	scFile    = 16
	scDir     = 32
	scAllMask = 1<<32 - 1
)

// Model computes the trace which the specification allows for a case.
func Model(c *Case) *Trace {
	m := newModel(c)
	return m.run()
}

func newModel(c *Case) *model {
	m := &model{c: c, fs: c.fsys(), t: &Trace{Metrics: map[string]uint{}, Done: true}}
	m.max = c.Depth
	if c.NoRecurse {
		m.max = 1
	}
	if c.Sleep != nil {
		m.hib = 2
	}
	if c.Wake != nil {
		m.hib = 1
	}
	return m
}

func (m *model) emit(e Ev) {
	n := m.c.Listeners
	if n == 0 || e.K == "invoke" || e.K == "ask" || e.K == "fault" || e.K == "rescue" {
		n = 1
	}
	for i := 0; i < n; i++ {
		e.L = i
		m.t.Ev = append(m.t.Ev, e)
	}
	e.L = 0
	m.c.changes(m.fs, e)
}

func (m *model) tick(k string, by int) {
	if by > 0 {
		m.t.Metrics[k] += uint(by)
	}
}

// resumeModel is the specification of resuming: what a navigation of the
// whole tree does from the directory on in which the panic happened.
func resumeModel(c *Case, leg *Leg, from string) *model {
	x := *c
	x.CB = leg.CB
	m := newModel(&x)
	m.fs.change(leg.Chg)
	m.from = from
	return m
}

func (m *model) run() *Trace {
	c := m.c
	m.emit(Ev{K: "begin", P: c.root()})
	rootN := m.fs.nodes[c.root()]
	tap, chain := c.plan("stat")
	missing := rootN == nil
	failed := c.StatErr || missing
	for _, w := range append([]string{tap}, chain...) {
		failed = statFn(w, failed)
	}
	switch {
	case failed:
		cls := "injected"
		if missing && !c.StatErr {
			cls = "notexist"
		}
		switch c.Fault {
		case "nil":
			m.emit(Ev{K: "fault", P: c.root(), Err: cls})
		case "other":
			m.emit(Ev{K: "fault", P: c.root(), Err: cls})
			m.err = "replaced"
		default:
			m.err = cls
		}
	default:
		top := &mnode{memNode: rootN}
		m.inform(top)
		m.visit(top)
	}
	m.t.Err = m.err
	m.emit(Ev{K: "end"})
	return m.t
}

// listing gives the directories and files of a directory, in visiting order
// within each group.
func (m *model) listing(n *mnode) (dirs, files []*mnode, failed string) {
	m.t.Reads = append(m.t.Reads, n.path)
	var listed []*memNode
	switch now := m.fs.nodes[n.path]; {
	case has(m.c.ReadErr, n.path):
		failed = "injected"
	case now == nil:
		failed = "notexist"
	case !now.dir:
		failed = "other"
	default:
		for _, k := range now.kids {
			if k.name != ".DS_Store" {
				listed = append(listed, k)
			}
		}
	}
	hooked := false
	switch listed, hooked = m.c.hookList(n.path, listed, failed != ""); {
	case hooked && failed != "":
		return nil, nil, failed
	case hooked:
		return nil, nil, "injected"
	}
	var d, f []*mnode
	for _, k := range listed {
		x := &mnode{memNode: k, up: n, depth: n.depth + 1}
		if k.dir {
			d = append(d, x)
		} else {
			f = append(f, x)
		}
	}
	if s := m.c.Sample; s != nil {
		pick := func(in []*mnode) (out []*mnode) {
			for _, x := range in {
				if patternMatch(s.Type, s.Pattern, x.name) != s.Negate {
					out = append(out, x)
				}
			}
			return
		}
		switch {
		case s.Scope.IsDirectory():
			d = pick(d)
		case s.Scope.IsFile():
			f = pick(f)
		default:
			d, f = pick(d), pick(f)
		}
	}
	if q := m.c.Samp; q != nil {
		cut := func(in []*mnode, n uint) []*mnode {
			if n == 0 || int(n) >= len(in) {
				return in
			}
			if q.Rev {
				return in[len(in)-int(n):]
			}
			return in[:n]
		}
		d, f = cut(d, q.Dirs), cut(f, q.Files)
	}
	key := lower
	if m.c.CSSort {
		key = func(s string) string { return s }
	}
	tap, chain := m.c.plan("sort")
	for _, g := range [][]*mnode{d, f} {
		g := g
		name := func(n *mnode) string { return n.name }
		if tap == "" {
			sort.SliceStable(g, func(i, j int) bool { return key(g[i].name) < key(g[j].name) })
		} else {
			sortFn(tap, g, name)
		}
		for _, w := range chain {
			sortFn(w, g, name)
		}
	}
	return d, f, ""
}

func (m *model) describe(n *mnode, dirs []*mnode) {
	n.leaf = n.dir && len(dirs) == 0
	switch {
	case !n.dir:
		n.scope = scLeaf | scFile
	default:
		switch {
		case n.depth == 0:
			n.scope = scTree
		case n.depth == 1:
			n.scope = scTop
		case !n.leaf:
			n.scope = scInter
		}
		if n.leaf {
			n.scope |= scLeaf
		}
		n.scope |= scDir
	}
	n.sub = m.subPath(n)
	if m.all != nil {
		m.all[n.path] = n
	}
}

// inform: what a node says about itself is so at the time of its visit.
func (m *model) inform(n *mnode) {
	now := m.fs.nodes[n.path]
	switch {
	case has(m.c.InfoErr, n.path) && n.up != nil:
		n.fail = "injected"
	case now == nil:
		n.fail = "notexist"
	default:
		n.info = infoText(memInfo{now})
	}
}

// subPath: the part of the path strictly between the tree and the node's
// name, written with a leading separator; the trailing separator is optional.
func (m *model) subPath(n *mnode) string {
	s := ""
	if n.depth > 0 {
		s = "/"
		if in := m.c.below(path.Dir(n.path)); in != "" {
			s += in + "/"
		}
	}
	hook := "file"
	if n.dir {
		hook = "dir"
	}
	tap, chain := m.c.plan(hook)
	if tap != "" {
		s = subFn(tap, "", m.c.root(), n.path, !m.c.DropSep)
	}
	for _, w := range chain {
		s = subFn(w, s, m.c.root(), n.path, !m.c.DropSep)
	}
	if m.c.DropSep {
		s = strings.TrimSuffix(s, "/")
	}
	return s
}

func splitParent(p string) (string, string) {
	i := strings.LastIndex(p, "/")
	return p[:i+1], p[i+1:]
}

func (m *model) event(n *mnode, kids []string) Ev {
	par, nm := splitParent(n.path)
	e := Ev{K: "invoke", P: n.path, Dir: n.dir, Name: nm, Parent: par,
		SubP: n.sub, Depth: n.depth, Scope: n.scope, Leaf: n.leaf, Kids: kids}
	if n.up != nil {
		e.NP = n.up.path
		e.Entry = n.name
	}
	e.Info, e.Err = n.info, n.fail
	return e
}

func nodeNames(ns []*mnode) []string {
	if len(ns) == 0 {
		return nil
	}
	out := []string{}
	for _, n := range ns {
		out = append(out, n.name)
	}
	return out
}

func (m *model) visit(n *mnode) (r ctl) {
	m.hits++
	if m.max > 0 && uint(n.depth) > m.max {
		return goOn
	}
	if n.path == m.from {
		m.from = ""
	}
	m.emit(Ev{K: "descend", P: n.path, Dir: n.dir})
	defer func() { m.emit(Ev{K: "ascend", P: n.path, Dir: n.dir}) }()

	var dirs, files []*mnode
	failed := ""
	if n.dir || m.c.Sub == subDirs || m.c.Sub == subDirsF {
		dirs, files, failed = m.listing(n)
	}
	m.describe(n, dirs)

	if m.c.Sub != subFiles || !n.dir {
		switch res := m.offer(n, files); res {
		case "", "pass":
		case "dir", "dirwrap":
			if n.dir {
				return goOn
			}
			return stopSiblings
		case "all", "allwrap", "retired":
			return stopAll
		case "err", "errwrap":
			m.err = "client"
			return stopAll
		case "panic", "panicerr":
			m.rescue(n)
			return stopAll
		}
		if m.c.Sub == subFiles {
			return goOn
		}
	}
	if m.c.Asker {
		e := Ev{K: "ask", P: n.path, Dir: n.dir}
		e.Err = failed
		if n.dir || m.c.Extra == "contents" {
			e.Files, e.Dirs = nodeNames(files), nodeNames(dirs)
		}
		m.emit(e)
		switch act(m.c.Ask, n.path) {
		case "all":
			return stopAll
		case "allerr":
			m.err = "ask"
			return stopAll
		case "dir":
			return goOn
		}
	}
	order := append(append([]*mnode{}, dirs...), files...)
	if m.c.Sub == subDirs || m.c.Sub == subDirsF {
		order = dirs
	} else if m.c.FilesFirst {
		order = append(append([]*mnode{}, files...), dirs...)
	}
	for _, k := range order {
		m.inform(k)
		switch m.visit(k) {
		case stopSiblings:
			return goOn
		case stopAll:
			return stopAll
		}
	}
	return goOn
}

func (m *model) rescue(n *mnode) {
	m.panicked = n
	m.panicAt = n.up
	if n.up == nil {
		m.panicAt = n
	}
	switch m.c.Rescue {
	case "own":
		m.emit(Ev{K: "rescue"})
		m.err = "saved"
	case "ownerr":
		m.emit(Ev{K: "rescue"})
		m.err = "notsaved"
	default:
		m.err = "saved"
		if m.c.WriteErr || m.c.MkErr || m.c.NoSaves {
			m.err = "notsaved"
		}
	}
}

// offer presents a node of the subscribed kind to hibernation, the filters
// and finally the client; the result is what the client did ("pass" when the
// client did not get to see the node).
func (m *model) offer(n *mnode, files []*mnode) string {
	c := m.c
	if m.from != "" {
		return "pass"
	}
	switch m.hib {
	case 1:
		if !m.matchDef(c.Wake, n) {
			return "pass"
		}
		m.emit(Ev{K: "wake", P: c.Wake.Description})
		m.hib = 2
		if c.WakeExcl {
			return "pass"
		}
	case 2:
		if c.Sleep != nil && m.matchDef(c.Sleep, n) {
			m.emit(Ev{K: "sleep", P: c.Sleep.Description})
			m.hib = 3
			if !c.SleepIncl {
				return "pass"
			}
		}
	case 3:
		return "retired"
	}
	var kids []string
	filtering := c.Node != nil || c.Child != nil || c.Sample != nil || c.Custom != nil
	if !filtering && c.Sub == subDirsF {
		kids = nodeNames(files)
		m.tick("kids", len(files))
	}
	pass := true
	switch {
	case c.Custom != nil:
		pass = has(c.Custom.Names, n.name)
	case c.Node != nil:
		pass = m.matchDef(c.Node, n)
	case c.Sample != nil:
		// the tree has been through no directory listing, it is matched here
		if n.depth == 0 && (n.dir && c.Sample.Scope.IsDirectory() || !n.dir && c.Sample.Scope.IsFile() && !c.Sample.Scope.IsDirectory()) {
			if patternMatch(c.Sample.Type, c.Sample.Pattern, n.name) == c.Sample.Negate {
				return "pass"
			}
		}
	}
	if !pass {
		if n.dir {
			m.tick("dirsOut", 1)
		} else {
			m.tick("filesOut", 1)
		}
		return "pass"
	}
	if c.Child != nil {
		for _, f := range files {
			if patternMatch(c.Child.Type, c.Child.Pattern, f.name) != c.Child.Negate {
				kids = append(kids, f.name)
			}
		}
		m.tick("kids", len(kids))
		m.tick("kidsOut", len(files)-len(kids))
	}
	if n.dir {
		m.tick("dirs", 1)
	} else {
		m.tick("files", 1)
	}
	m.emit(m.event(n, kids))
	return act(c.CB, n.path)
}

func patternMatch(t enums.FilterType, pattern, name string) bool {
	if t == enums.FilterTypeRegex {
		return regexp.MustCompile(pattern).MatchString(name)
	}
	ok, _ := filepath.Match(pattern, name)
	return ok
}

// matchDef: does a node pass a filter definition.
func (m *model) matchDef(d *core.FilterDef, n *mnode) bool {
	switch d.Type {
	case enums.FilterTypePoly:
		if n.dir {
			return true
		}
		df, ff := d.Poly.Directory, d.Poly.File
		df.Scope = df.Scope&^scFile | scDir
		ff.Scope = ff.Scope&^scDir | scFile
		return n.up != nil && m.matchDef(&df, n.up) && m.matchDef(&ff, n)
	case enums.FilterTypeGlobEx:
		if n.dir || !globExDir(d.Pattern, n.up) {
			return d.IfNotApplicable != enums.TriStateBoolFalse
		}
		return globExFile(d.Pattern, n.name) != d.Negate
	}
	scope := uint32(d.Scope)
	if scope == 0 {
		scope = scAllMask
	}
	if scope&n.scope == 0 {
		return d.IfNotApplicable != enums.TriStateBoolFalse
	}
	return patternMatch(d.Type, d.Pattern, n.name) != d.Negate
}

// glob-ex: "<directory glob>[/<excluded directory glob>]|<csv of file globs>",
// case insensitive; a "!" before the extension of a file glob excludes it.
func globExDir(pattern string, parent *mnode) bool {
	if parent == nil {
		return true
	}
	dg := lower(strings.Split(pattern, "|")[0])
	ex := ""
	if segs := strings.Split(dg, "/"); len(segs) > 1 {
		dg, ex = segs[0], segs[1]
	}
	nm := lower(parent.name)
	if ok, _ := filepath.Match(dg, nm); !ok {
		return false
	}
	excluded, _ := filepath.Match(ex, nm)
	return !excluded
}

func globExFile(pattern, name string) bool {
	name = lower(name)
	for _, p := range strings.Split(strings.Split(pattern, "|")[1], ",") {
		if p == "" || p == "!" {
			continue
		}
		p = lower(strings.TrimSpace(p))
		i := strings.LastIndex(p, ".")
		b, ext := p[:i], p[i+1:]
		neg := strings.HasPrefix(ext, "!")
		ext = strings.TrimPrefix(ext, "!")
		if b == "" {
			b = "*"
		}
		ok, _ := filepath.Match(b+"."+ext, name)
		if neg {
			// an exclusion admits everything else
			return !ok
		}
		if ok {
			return true
		}
	}
	return false
}
