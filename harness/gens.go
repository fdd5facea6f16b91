package main

import (
	"fmt"
	"path"
	"strings"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
)

type yield func(*Case) bool

var allSubs = []uint{subFiles, subDirs, subDirsF, subAll}

func pick[T any](thorough bool, quick, deep T) T {
	if thorough {
		return deep
	}
	return quick
}

// treesOf enumerates the trees of a domain: every forest of up to k nodes
// under each naming, followed by the curated trees.
func treesOf(k int, names []string, curate bool, fn func(es []string) bool) bool {
	for i := 0; i <= k; i++ {
		for _, f := range forests(i) {
			for _, nm := range names {
				if !fn(entries(f, namings[nm])) {
					return false
				}
				if i == 0 {
					break
				}
			}
		}
	}
	if curate {
		cs := curated()
		for _, k := range sortedKeys(cs) {
			if !fn(cs[k]) {
				return false
			}
		}
	}
	return true
}

// permute calls fn with every permutation of xs.
func permute(xs []string, fn func([]string) bool) bool {
	var rec func(k int) bool
	rec = func(k int) bool {
		if k == len(xs) {
			return fn(append([]string(nil), xs...))
		}
		for i := k; i < len(xs); i++ {
			xs[k], xs[i] = xs[i], xs[k]
			ok := rec(k + 1)
			xs[k], xs[i] = xs[i], xs[k]
			if !ok {
				return false
			}
		}
		return true
	}
	return rec(0)
}

type rootv struct {
	root string
	abs  bool
}

var roots = []rootv{{"root", false}, {"home/user/root", false}, {"/root", true}, {"/srv/d.d/Ünï", true}, {".", false}, {"/", true}}

func (c *Case) rootv() rootv { return rootv{c.root(), c.root()[0] == '/'} }

// spelt: other ways to spell a tree.
func spelt(r rootv) (out []string) {
	for _, s := range []string{r.root + "/", r.root + "//", r.root + "/.", r.root + "/x/..", "./" + r.root, strings.Replace(r.root, "/", "//", 1)} {
		if s = strings.Replace(s, "///", "//", 1); r.abs == (s[0] == '/') && s != r.root {
			out = append(out, s)
		}
	}
	return out
}

func spellings(r rootv, fn func(c *Case) bool) bool {
	for _, s := range spelt(r) {
		if !fn(&Case{Root: r.root, Abs: r.abs, Spell: s}) {
			return false
		}
	}
	return true
}

// withConfigs extends a case with every combination of the orthogonal
// navigation settings.
func withConfigs(c Case, fn yield) bool {
	for cfg := 0; cfg < 8; cfg++ {
		x := c
		x.FilesFirst, x.CSSort, x.DropSep = cfg&1 != 0, cfg&2 != 0, cfg&4 != 0
		if !fn(&x) {
			return false
		}
	}
	return true
}

func genVisit(th bool, fn yield) {
	// every permutation of the file system order of small sibling groups
	pool := [][]string{
		{"b.txt", "A.log", "c/", "B/"}, {"a.txt", "B.txt", "c.txt", "D.txt"}, {"a/", "B/", "c/", "D/"},
		{"a", "B/", "B/x", "B/Y"}, {"x", "X2/", "x1", "X3/"}, {"é", "z", "Ç", "a"},
	}
	if th {
		pool = append(pool, []string{"b.txt", "A.log", "c/", "B/", "a.txt"}, []string{"e", "D/", "c", "B/", "a"},
			[]string{"f", "E/", "d", "C/", "b", "A/"})
	}
	for _, p := range pool {
		if !permute(append([]string(nil), p...), func(es []string) bool {
			for _, s := range allSubs {
				if !withConfigs(Case{Entries: es, Sub: s}, fn) {
					return false
				}
			}
			return true
		}) {
			return
		}
	}
	treesOf(pick(th, 5, 7), []string{"mix", "desc", "case", "uni", "echo"}, true, func(es []string) bool {
		for _, s := range allSubs {
			for i, r := range roots {
				if i > 0 && len(es) > 3 && !th {
					break
				}
				c := Case{Entries: es, Sub: s, Root: r.root, Abs: r.abs}
				if !withConfigs(c, func(x *Case) bool { return tied(x) || fn(x) }) {
					return false
				}
			}
		}
		return true
	})
	for _, s := range allSubs {
		for _, r := range roots {
			fn(&Case{Sub: s, Root: r.root, Abs: r.abs})
			fn(&Case{Sub: s, Root: path.Join(r.root, "f.txt"), Abs: r.abs, RootFile: true})
		}
	}
	// however the tree is spelled
	treesOf(pick(th, 3, 4), []string{"mix", "echo"}, true, func(es []string) bool {
		for _, s := range allSubs {
			for _, r := range roots {
				if !spellings(r, func(c *Case) bool {
					c.Entries, c.Sub = es, s
					return withConfigs(*c, func(x *Case) bool { return tied(x) || fn(x) })
				}) {
					return false
				}
			}
		}
		return true
	})
	for _, s := range allSubs {
		for _, r := range roots {
			spellings(r, func(c *Case) bool {
				c.Sub = s
				return fn(c)
			})
		}
	}
}

// tied: there are siblings of one kind whose names only differ in case and
// the order ignores case; which of them comes first is not promised.
func tied(c *Case) bool {
	if c.CSSort {
		return false
	}
	seen := map[string]bool{}
	for _, e := range c.Entries {
		l := lower(e)
		if seen[l] {
			return true
		}
		seen[l] = true
	}
	return false
}

func genDepth(th bool, fn yield) {
	treesOf(pick(th, 5, 6), []string{"mix", "desc"}, true, func(es []string) bool {
		for _, s := range allSubs {
			for d := uint(0); d <= 5; d++ {
				for nr := 0; nr < 2; nr++ {
					for _, ff := range []bool{false, true} {
						for _, ab := range []bool{false, true} {
							if ab && len(es) > 4 {
								continue
							}
							c := &Case{Entries: es, Sub: s, Depth: d, NoRecurse: nr == 1, FilesFirst: ff, Abs: ab}
							if ab {
								c.Root = "/srv/root"
							}
							if !fn(c) {
								return false
							}
						}
					}
				}
			}
		}
		return true
	})
}

func genMeta(th bool, fn yield) {
	treesOf(pick(th, 5, 6), []string{"mix", "uni", "desc", "echo"}, true, func(es []string) bool {
		for _, s := range allSubs {
			for i, r := range roots {
				if i > 1 && len(es) > 4 && !th {
					break
				}
				for _, ds := range []bool{false, true} {
					for _, d := range []uint{0, 2} {
						c := Case{Entries: es, Sub: s, Root: r.root, Abs: r.abs, DropSep: ds, Depth: d}
						if !fn(&c) {
							return false
						}
					}
				}
				if len(es) <= 4 {
					c := Case{Entries: es, Sub: s, Root: r.root, Abs: r.abs}
					for _, p := range c.paths() {
						x := c
						x.InfoErr = []string{p}
						if p != c.root() && !fn(&x) {
							return false
						}
					}
				}
			}
		}
		return true
	})
	for _, s := range allSubs {
		for _, r := range roots {
			for _, ds := range []bool{false, true} {
				fn(&Case{Sub: s, Root: path.Join(r.root, "f.txt"), Abs: r.abs, RootFile: true, DropSep: ds})
			}
		}
	}
}

func fdef(ty enums.FilterType, pattern string, sc enums.FilterScope, neg bool, na enums.TriStateBool) *core.FilterDef {
	return &core.FilterDef{Type: ty, Description: pattern, Pattern: pattern, Scope: sc, Negate: neg, IfNotApplicable: na}
}

var scopes = []enums.FilterScope{0, enums.ScopeAll, enums.ScopeFile, enums.ScopeDirectory, enums.ScopeLeaf,
	enums.ScopeTop, enums.ScopeIntermediate, enums.ScopeTree, enums.ScopeLeaf | enums.ScopeTop, enums.ScopeTree | enums.ScopeFile}

var tris = []enums.TriStateBool{enums.TriStateBoolUndefined, enums.TriStateBoolTrue, enums.TriStateBoolFalse}

func nodeFilters(th bool) []*core.FilterDef {
	out := []*core.FilterDef{}
	for _, p := range []struct {
		ty enums.FilterType
		p  string
	}{
		{enums.FilterTypeGlob, "*.txt"}, {enums.FilterTypeGlob, "[a-m]*"}, {enums.FilterTypeGlob, "root"},
		{enums.FilterTypeRegex, "^[b-l]"}, {enums.FilterTypeRegex, `\.log$`}, {enums.FilterTypeRegex, "(?i)^[k-m]$"},
	} {
		for _, sc := range scopes {
			for _, neg := range []bool{false, true} {
				for _, na := range tris {
					if !th && na == enums.TriStateBoolTrue && sc != enums.ScopeFile && sc != enums.ScopeTop {
						continue
					}
					out = append(out, fdef(p.ty, p.p, sc, neg, na))
				}
			}
		}
	}
	for _, p := range []string{"*|*.txt", "m*|*.txt,*.log", "*/m|*.log", "K|c*.txt", "[k-l]*|.txt", "*|a*.*,b*.*", "*|*.!txt", "ROOT|*.TXT", "*|"} {
		for _, neg := range []bool{false, true} {
			for _, na := range tris {
				out = append(out, fdef(enums.FilterTypeGlobEx, p, 0, neg, na))
			}
		}
	}
	polyParts := []core.FilterDef{
		*fdef(enums.FilterTypeGlob, "*.txt", 0, false, 0),
		*fdef(enums.FilterTypeRegex, "^[b-l]", enums.ScopeLeaf, false, enums.TriStateBoolFalse),
		*fdef(enums.FilterTypeGlob, "[a-l]*", enums.ScopeTop, true, enums.TriStateBoolFalse),
		*fdef(enums.FilterTypeRegex, "o", enums.ScopeAll, true, enums.TriStateBoolTrue),
		*fdef(enums.FilterTypeGlobEx, "*|*.txt,*.log", 0, false, enums.TriStateBoolFalse),
	}
	for _, f := range polyParts {
		for i, d := range polyParts {
			if i == 4 {
				continue
			}
			out = append(out, &core.FilterDef{Type: enums.FilterTypePoly, Poly: &core.PolyFilterDef{File: f, Directory: d}})
		}
	}
	return out
}

func genFilter(th bool, fn yield) {
	defs := nodeFilters(th)
	customs := []*CustomF{{[]string{"root"}}, {[]string{"c.txt", "m"}}, {[]string{"A.log", "K", "g"}}, {nil}}
	treesOf(pick(th, 4, 5), []string{"mix"}, true, func(es []string) bool {
		for _, s := range allSubs {
			for _, d := range defs {
				if !fn(&Case{Entries: es, Sub: s, Node: d}) {
					return false
				}
			}
			for _, cu := range customs {
				if !fn(&Case{Entries: es, Sub: s, Custom: cu}) {
					return false
				}
			}
		}
		return true
	})
	// together with the other settings
	treesOf(3, []string{"mix", "desc", "uni"}, true, func(es []string) bool {
		for _, s := range allSubs {
			for i, d := range defs {
				c := Case{Entries: es, Sub: s, Node: d, Depth: uint(i % 3), FilesFirst: i%2 == 0, CSSort: i%4 < 2, Abs: i%8 < 4}
				if c.Abs {
					c.Root = "/srv/root"
				}
				if !fn(&c) {
					return false
				}
			}
		}
		return true
	})
}

func childDefs() []*core.ChildFilterDef {
	out := []*core.ChildFilterDef{}
	for _, neg := range []bool{false, true} {
		for _, p := range []string{"*.txt", "[a-c]*", "*", "nothing"} {
			out = append(out, &core.ChildFilterDef{Type: enums.FilterTypeGlob, Pattern: p, Negate: neg})
		}
		for _, p := range []string{`\.log$`, "^[b-z]", "(?i)^a"} {
			out = append(out, &core.ChildFilterDef{Type: enums.FilterTypeRegex, Pattern: p, Negate: neg})
		}
	}
	return out
}

func genChild(th bool, fn yield) {
	nodeF := []*core.FilterDef{nil,
		fdef(enums.FilterTypeGlob, "[a-l]*", 0, false, 0),
		fdef(enums.FilterTypeRegex, "^[k-m]$", enums.ScopeDirectory, true, enums.TriStateBoolFalse),
		fdef(enums.FilterTypeGlob, "*", enums.ScopeLeaf, false, enums.TriStateBoolFalse)}
	treesOf(pick(th, 5, 6), []string{"mix", "uni"}, true, func(es []string) bool {
		for _, ff := range []bool{false, true} {
			for d := uint(0); d < 3; d++ {
				if !fn(&Case{Entries: es, Sub: subDirsF, FilesFirst: ff, Depth: d, CSSort: ff}) {
					return false
				}
			}
		}
		for _, ch := range childDefs() {
			for _, nf := range nodeF {
				if !fn(&Case{Entries: es, Sub: subDirsF, Child: ch, Node: nf}) {
					return false
				}
			}
			// what is reduced must not be what others see of the directory
			for _, s := range allSubs {
				for _, ff := range []bool{false, true} {
					for _, ask := range []bool{false, true} {
						if !th && len(es) > 4 && (ask || !ff) && len(es) < 7 {
							continue
						}
						if !fn(&Case{Entries: es, Sub: s, Child: ch, FilesFirst: ff, Asker: ask}) {
							return false
						}
					}
				}
			}
		}
		return true
	})
}

func sampleDefs() []*core.SampleFilterDef {
	out := []*core.SampleFilterDef{}
	for _, sc := range []enums.FilterScope{enums.ScopeFile, enums.ScopeDirectory} {
		for _, neg := range []bool{false, true} {
			for _, p := range []string{"*.txt", "[a-l]*"} {
				out = append(out, &core.SampleFilterDef{Type: enums.FilterTypeGlob, Pattern: p, Negate: neg, Scope: sc})
			}
			out = append(out, &core.SampleFilterDef{Type: enums.FilterTypeCustom, Pattern: "[a-l]*", Negate: neg, Scope: sc})
			for _, p := range []string{`\.log$`, "^[b-l]"} {
				out = append(out, &core.SampleFilterDef{Type: enums.FilterTypeRegex, Pattern: p, Negate: neg, Scope: sc})
			}
		}
	}
	return out
}

func genSample(th bool, fn yield) {
	treesOf(pick(th, 5, 6), []string{"mix", "desc"}, true, func(es []string) bool {
		for _, s := range allSubs {
			for f := uint(0); f <= 3; f++ {
				for d := uint(0); d <= 3; d++ {
					for _, rev := range []bool{false, true} {
						if f+d == 0 {
							continue
						}
						c := &Case{Entries: es, Sub: s, Samp: &Quant{f, d, rev}, FilesFirst: (f+d)%2 == 1}
						if !fn(c) {
							return false
						}
					}
				}
			}
		}
		return true
	})
	treesOf(pick(th, 4, 5), []string{"mix", "desc"}, true, func(es []string) bool {
		for _, s := range allSubs {
			for _, sd := range sampleDefs() {
				for q := uint(1); q <= 2; q++ {
					for _, rev := range []bool{false, true} {
						if !fn(&Case{Entries: es, Sub: s, Sample: sd, Samp: &Quant{q, 3 - q, rev}}) {
							return false
						}
					}
				}
			}
		}
		return true
	})
}

func genHiber(th bool, fn yield) {
	treesOf(pick(th, 5, 6), []string{"mix"}, true, func(es []string) bool {
		big := len(es) > 7
		for _, s := range allSubs {
			// a condition on the name of each node which occurs, and one which never does
			nms := []string{"nowhere"}
			seen := map[string]bool{}
			c0 := &Case{Entries: es, Sub: s}
			for _, p := range c0.paths() {
				if b := base(p); !seen[b] {
					seen[b] = true
					nms = append(nms, b)
				}
			}
			if big {
				nms = nms[:6]
			}
			mk := func(nm string, i int) *core.FilterDef {
				d := fdef(enums.FilterTypeGlob, nm, 0, false, 0)
				if i%2 == 1 {
					d = fdef(enums.FilterTypeRegex, "^"+nm+"$", enums.ScopeAll, false, enums.TriStateBoolFalse)
				}
				d.Description = "at " + nm
				return d
			}
			for i, w := range nms {
				for b := 0; b < 2; b++ {
					if !fn(&Case{Entries: es, Sub: s, Wake: mk(w, i), WakeExcl: b == 1}) ||
						!fn(&Case{Entries: es, Sub: s, Sleep: mk(w, i), SleepIncl: b == 1}) {
						return false
					}
				}
				for j, z := range nms {
					for b := 0; b < 4; b++ {
						if !fn(&Case{Entries: es, Sub: s, Wake: mk(w, i), Sleep: mk(z, j), WakeExcl: b&1 == 1, SleepIncl: b&2 == 2, Listeners: 1 + b%2}) {
							return false
						}
					}
				}
			}
		}
		return true
	})
	// conditions which match many nodes, with scopes, and together with a node filter
	conds := []*core.FilterDef{}
	for _, sc := range []enums.FilterScope{0, enums.ScopeFile, enums.ScopeDirectory, enums.ScopeLeaf, enums.ScopeTop} {
		for _, neg := range []bool{false, true} {
			conds = append(conds, fdef(enums.FilterTypeGlob, "[k-m]*", sc, neg, enums.TriStateBoolFalse), fdef(enums.FilterTypeRegex, "txt", sc, neg, enums.TriStateBoolFalse))
		}
	}
	treesOf(pick(th, 3, 4), []string{"mix"}, true, func(es []string) bool {
		for _, s := range allSubs {
			for i, w := range conds {
				for j, z := range conds {
					c := &Case{Entries: es, Sub: s, Wake: w, Sleep: z, WakeExcl: (i+j)%2 == 1, SleepIncl: i%2 == 1}
					if (i+j)%3 == 0 {
						c.Node = fdef(enums.FilterTypeGlob, "*[a-t]", 0, false, 0)
					}
					if !fn(c) {
						return false
					}
				}
			}
		}
		return true
	})
}

func genLife(th bool, fn yield) {
	filters := []*core.FilterDef{nil, fdef(enums.FilterTypeGlob, "*.txt", 0, false, 0), fdef(enums.FilterTypeGlob, "[a-l]", enums.ScopeDirectory, false, enums.TriStateBoolFalse)}
	treesOf(pick(th, 4, 5), []string{"mix"}, true, func(es []string) bool {
		for _, s := range allSubs {
			for l := 1; l <= 3; l++ {
				for _, f := range filters {
					for d := uint(0); d < 3; d++ {
						c := Case{Entries: es, Sub: s, Node: f, Depth: d, Listeners: l, FilesFirst: l == 2}
						if !fn(&c) {
							return false
						}
					}
				}
				for _, p := range (&Case{Entries: es}).paths() {
					for _, do := range []string{"err", "dir", "all", "panic"} {
						c := Case{Entries: es, Sub: s, Listeners: l, CB: []Act{{p, do}}}
						if ambiguousSkip(&c) || do == "panic" && l > 1 {
							continue
						}
						if !fn(&c) {
							return false
						}
					}
				}
			}
			w := fdef(enums.FilterTypeGlob, "[l-m]*", 0, false, 0)
			z := fdef(enums.FilterTypeGlob, "*.txt", 0, false, 0)
			if !fn(&Case{Entries: es, Sub: s, Wake: w, Sleep: z, Listeners: 2}) ||
				!fn(&Case{Entries: es, Sub: s, StatErr: true, Listeners: 2}) ||
				!fn(&Case{Entries: es, Sub: s, StatErr: true, Fault: "nil"}) {
				return false
			}
		}
		return true
	})
}

// ambiguousSkip: a request to skip the directory made for a file under the
// universal subscription; its extent is not documented.
func ambiguousSkip(c *Case) bool {
	if c.Sub != subAll {
		return false
	}
	m := c.fsys()
	for _, a := range c.CB {
		if a.Do == "dir" || a.Do == "dirwrap" {
			if n := m.nodes[a.Path]; n != nil && !n.dir {
				return true
			}
		}
	}
	return false
}

func genSkip(th bool, fn yield) {
	// one deviation at every node, every pair of deviations, on every tree
	dos := []string{"err", "dir", "all", "errwrap", "dirwrap", "allwrap"}
	treesOf(pick(th, 5, 6), []string{"mix"}, true, func(es []string) bool {
		for _, s := range allSubs {
			ps := (&Case{Entries: es}).paths()
			for _, ff := range []bool{false, true} {
				for _, p := range ps {
					for _, do := range dos {
						c := &Case{Entries: es, Sub: s, CB: []Act{{p, do}}, FilesFirst: ff}
						if !ambiguousSkip(c) && !fn(c) {
							return false
						}
					}
				}
			}
		}
		return true
	})
	treesOf(pick(th, 4, 5), []string{"mix"}, true, func(es []string) bool {
		for _, s := range allSubs {
			ps := (&Case{Entries: es}).paths()
			for i, p := range ps {
				for _, q := range ps[i+1:] {
					for _, a := range dos[:3] {
						for _, b := range dos[:3] {
							c := &Case{Entries: es, Sub: s, CB: []Act{{p, a}, {q, b}}}
							if !ambiguousSkip(c) && !fn(c) {
								return false
							}
						}
					}
				}
			}
			// the skip handler
			for _, p := range ps {
				for _, do := range []string{"dir", "all", "allerr"} {
					c := &Case{Entries: es, Sub: s, Asker: true, Ask: []Act{{p, do}}}
					if !askable(c) {
						continue
					}
					if !fn(c) {
						return false
					}
				}
			}
			if !fn(&Case{Entries: es, Sub: s, Asker: true}) {
				return false
			}
		}
		return true
	})
}

func askable(c *Case) bool {
	m := c.fsys()
	for _, a := range c.Ask {
		if n := m.nodes[a.Path]; n == nil || !n.dir {
			return false
		}
	}
	return true
}

func subsets(xs []string, max int, fn func([]string) bool) bool {
	var rec func(i int, cur []string) bool
	rec = func(i int, cur []string) bool {
		if i == len(xs) {
			return fn(append([]string(nil), cur...))
		}
		if !rec(i+1, cur) {
			return false
		}
		if len(cur) < max {
			return rec(i+1, append(cur, xs[i]))
		}
		return true
	}
	return rec(0, nil)
}

func genFault(th bool, fn yield) {
	treesOf(pick(th, 5, 6), []string{"mix"}, true, func(es []string) bool {
		c0 := &Case{Entries: es}
		ds := c0.dirs()
		mx := 3
		if len(ds) > 6 {
			mx = 1
		}
		for _, s := range allSubs {
			if !subsets(ds, mx, func(bad []string) bool {
				for _, ask := range []bool{false, true} {
					if !fn(&Case{Entries: es, Sub: s, ReadErr: bad, Asker: ask}) {
						return false
					}
				}
				if len(es) <= 4 {
					// with entry information failing as well, and a later callback error
					for _, p := range c0.paths() {
						if p == c0.root() {
							continue
						}
						if !fn(&Case{Entries: es, Sub: s, ReadErr: bad, InfoErr: []string{p}}) ||
							!fn(&Case{Entries: es, Sub: s, ReadErr: bad, CB: []Act{{p, "err"}}}) {
							return false
						}
					}
					if !fn(&Case{Entries: es, Sub: s, ReadErr: bad, Samp: &Quant{1, 1, false}}) {
						return false
					}
				}
				return true
			}) {
				return false
			}
			for _, f := range []string{"", "nil", "other"} {
				if !fn(&Case{Entries: es, Sub: s, StatErr: true, Fault: f}) ||
					!fn(&Case{Entries: es, Sub: s, Missing: true, Fault: f}) {
					return false
				}
			}
		}
		return true
	})
}

func genPanic(th bool, fn yield) {
	treesOf(pick(th, 5, 6), []string{"mix"}, true, func(es []string) bool {
		for _, s := range allSubs {
			for _, p := range (&Case{Entries: es}).paths() {
				for _, do := range []string{"panic", "panicerr"} {
					for _, ff := range []bool{false, true} {
						c := Case{Entries: es, Sub: s, CB: []Act{{p, do}}, FilesFirst: ff}
						if !fn(&c) {
							return false
						}
						if len(es) > 4 && !th {
							continue
						}
						for v := 0; v < 7; v++ {
							x := c
							switch v {
							case 6:
								x.NoSaves = true
							case 0:
								x.WriteErr = true
							case 1:
								x.MkErr = true
							case 2:
								x.Rescue = "own"
							case 3:
								x.Rescue = "ownerr"
							case 4:
								x.Abs, x.Root = true, "/srv/root"
								x.CB = []Act{{"/srv/" + p, do}}
							case 5:
								x.Node = fdef(enums.FilterTypeGlob, "[a-l]*", 0, false, 0)
							}
							if !fn(&x) {
								return false
							}
						}
					}
				}
			}
		}
		return true
	})
}

var _ = fmt.Sprint
