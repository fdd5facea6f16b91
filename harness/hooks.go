package main

import (
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/pref"
)

// C20: what a client hooks in, is what is used.
//
// Case.Hooks is a program: "hook.how.what" separated by spaces, in the order
// in which the options are given; hook: read, stat, sort, file, dir; how: opt
// (the WithHook option), tap (replaces the default) and chain (works on the
// result of what is there).

type hookMove struct{ hook, how, what string }

func (c *Case) hookMoves() []hookMove {
	out := []hookMove{}
	for _, s := range strings.Fields(c.Hooks) {
		p := strings.SplitN(s, ".", 3)
		out = append(out, hookMove{p[0], p[1], p[2]})
	}
	return out
}

// plan: the program of one hook, as the specification has it: the last tap is
// what counts, and all that is chained is applied to its result in order.
func (c *Case) plan(hook string) (tap string, chain []string) {
	for _, m := range c.hookMoves() {
		switch {
		case m.hook != hook:
		case m.how == "chain":
			chain = append(chain, m.what)
		default:
			tap = m.what
		}
	}
	return
}

// listFn transforms the listing of a directory, or a failure to list it.
func listFn[T any](what, dir string, in []T, failed bool, isRoot bool, name func(T) string) ([]T, bool) {
	switch {
	case what == "fail":
		if !isRoot {
			return nil, true
		}
	case what == "clean":
		return in, false
	case failed:
	case what == "rev":
		out := make([]T, 0, len(in))
		for i := len(in) - 1; i >= 0; i-- {
			out = append(out, in[i])
		}
		return out, false
	case what == "pop":
		if len(in) > 0 {
			return in[1:], false
		}
	case strings.HasPrefix(what, "hide:"):
		out := make([]T, 0, len(in))
		for _, x := range in {
			if name(x) != what[5:] {
				out = append(out, x)
			}
		}
		return out, false
	}
	return in, failed
}

// sortFn arranges entries in place.
func sortFn[T any](what string, in []T, name func(T) string) {
	switch what {
	case "rev": // back to front
		for i, j := 0, len(in)-1; i < j; i, j = i+1, j-1 {
			in[i], in[j] = in[j], in[i]
		}
	case "rot": // the first one goes last
		if len(in) > 1 {
			x := in[0]
			copy(in, in[1:])
			in[len(in)-1] = x
		}
	case "down":
		sort.SliceStable(in, func(i, j int) bool { return name(in[i]) > name(in[j]) })
	case "len":
		sort.SliceStable(in, func(i, j int) bool {
			a, b := name(in[i]), name(in[j])
			return len(a) < len(b) || len(a) == len(b) && a < b
		})
	case "none":
	}
}

// subFn makes a sub path of what there is to know about the node.
func subFn(what, was, tree, p string, keep bool) string {
	switch {
	case what == "empty":
		return ""
	case what == "seen":
		return fmt.Sprintf("%s|%s|%v/", tree, p, keep)
	case what == "up":
		return path.Base(path.Dir(p)) + "/"
	case strings.HasPrefix(what, "add:"):
		return was + what[4:]
	case what == "cut":
		if len(was) > 0 {
			return was[1:]
		}
	}
	return was
}

// statFn: the outcome of looking at the tree: what it is, or a failure.
func statFn(what string, failed bool) bool {
	switch what {
	case "fail":
		return true
	case "fix":
		return false
	case "flip":
		return !failed
	}
	return failed
}

// hookOptions gives the program to the implementation.
func (c *Case) hookOptions() []pref.Option {
	out := []pref.Option{}
	for _, m := range c.hookMoves() {
		m := m
		entryName := func(e fs.DirEntry) string { return e.Name() }
		var opt pref.Option
		switch m.hook {
		case "read":
			f := func(es []fs.DirEntry, err error, dir string) ([]fs.DirEntry, error) {
				r, failed := listFn(m.what, dir, es, err != nil, dir == c.root(), entryName)
				switch {
				case failed && err == nil:
					err = &fs.PathError{Op: "hook", Path: dir, Err: errInjected}
				case !failed:
					err = nil
				}
				return r, err
			}
			tap := func(sys fs.ReadDirFS, dir string) ([]fs.DirEntry, error) {
				es, err := pref.DefaultReadEntriesHook(sys, dir)
				return f(es, err, dir)
			}
			opt = hookOption(m.how, age.WithHookReadDirectory(tap), func(o *pref.Options) {
				o.Hooks.ReadDirectory.Tap(tap)
			}, func(o *pref.Options) {
				o.Hooks.ReadDirectory.Chain(func(es []fs.DirEntry, err error, _ fs.ReadDirFS, dir string) ([]fs.DirEntry, error) {
					return f(es, err, dir)
				})
			})
		case "stat":
			f := func(info fs.FileInfo, err error, sys fs.StatFS, p string) (fs.FileInfo, error) {
				failed := statFn(m.what, err != nil)
				switch {
				case failed && err == nil:
					return nil, &fs.PathError{Op: "hook", Path: p, Err: errInjected}
				case !failed && err != nil:
					n := sys.(*memFS).nodes[p]
					if n == nil {
						return nil, err
					}
					return memInfo{n}, nil
				}
				return info, err
			}
			tap := func(sys fs.StatFS, p string) (fs.FileInfo, error) {
				info, err := pref.DefaultQueryStatusHook(sys, p)
				return f(info, err, sys, p)
			}
			opt = hookOption(m.how, age.WithHookQueryStatus(tap), func(o *pref.Options) {
				o.Hooks.QueryStatus.Tap(tap)
			}, func(o *pref.Options) {
				o.Hooks.QueryStatus.Chain(f)
			})
		case "sort":
			tap := func(es []fs.DirEntry, _ ...any) { sortFn(m.what, es, entryName) }
			opt = hookOption(m.how, age.WithHookSort(tap), func(o *pref.Options) {
				o.Hooks.Sort.Tap(tap)
			}, func(o *pref.Options) {
				o.Hooks.Sort.Chain(tap)
			})
		case "file", "dir":
			f := func(was string, i *core.SubPathInfo) string {
				return subFn(m.what, was, i.Tree, i.Node.Path, i.KeepTrailingSep)
			}
			tap := func(i *core.SubPathInfo) string { return f("", i) }
			if m.hook == "file" {
				opt = hookOption(m.how, age.WithHookFileSubPath(tap), func(o *pref.Options) {
					o.Hooks.FileSubPath.Tap(tap)
				}, func(o *pref.Options) { o.Hooks.FileSubPath.Chain(f) })
			} else {
				opt = hookOption(m.how, age.WithHookDirectorySubPath(tap), func(o *pref.Options) {
					o.Hooks.DirectorySubPath.Tap(tap)
				}, func(o *pref.Options) { o.Hooks.DirectorySubPath.Chain(f) })
			}
		}
		out = append(out, opt)
	}
	return out
}

func hookOption(how string, opt pref.Option, tap, chain func(*pref.Options)) pref.Option {
	switch how {
	case "opt":
		return opt
	case "tap":
		return func(o *pref.Options) error { tap(o); return nil }
	}
	return func(o *pref.Options) error { chain(o); return nil }
}

// hookList is the model's version of the read hook.
func (c *Case) hookList(dir string, in []*memNode, failed bool) ([]*memNode, bool) {
	tap, chain := c.plan("read")
	name := func(n *memNode) string { return n.name }
	for _, w := range append([]string{tap}, chain...) {
		in, failed = listFn(w, dir, in, failed, dir == c.root(), name)
	}
	return in, failed
}

var hookPool = map[string]struct{ taps, chains []string }{
	"read": {[]string{"rev", "fail", "clean", "hide:m", "pop"}, []string{"fail", "clean", "hide:K", "pop", "rev"}},
	"stat": {[]string{"fail", "fix", "flip"}, []string{"fail", "fix", "flip"}},
	"sort": {[]string{"none", "down", "len", "rev"}, []string{"rev", "rot", "len"}},
	"file": {[]string{"empty", "seen", "up", "add:x/"}, []string{"add:1/", "add:2", "cut", "seen"}},
	"dir":  {[]string{"empty", "seen", "up", "add:x/"}, []string{"add:1/", "add:2", "cut", "seen"}},
}

var hookNames = []string{"read", "stat", "sort", "file", "dir"}

// hookPrograms: every program of one hook with up to t taps followed by up to
// k chained functions.
func hookPrograms(h string, t, k int) []string {
	p := hookPool[h]
	out := []string{}
	var chains func(prog string, k int)
	chains = func(prog string, k int) {
		out = append(out, strings.TrimSpace(prog))
		if k == 0 {
			return
		}
		for _, w := range p.chains {
			chains(prog+" "+h+".chain."+w, k-1)
		}
	}
	var taps func(prog string, t int)
	taps = func(prog string, t int) {
		chains(prog, k)
		if t == 0 {
			return
		}
		for i, w := range p.taps {
			how := []string{"opt", "tap"}[(i+t)%2]
			taps(prog+" "+h+"."+how+"."+w, t-1)
		}
	}
	taps("", t)
	return out
}

func genHooks(th bool, fn yield) {
	trees := [][]string{
		{"m/", "m/c.txt", "m/A.log", "K/", "K/l/", "K/l/b.txt", "b.txt", "A.log"},
		{"c.txt", "m/", "K/", "m/K/", "m/K/c.txt", "m/m/", "m/c.txt", "K/m/", "K/a", "A.log", "b.txt"},
		{"c.txt", "A.log", "b.txt", "D.log"}, {"m/", "m/m/", "m/m/m/", "m/m/m/x"}, {},
	}
	sets := []func(*Case){
		func(*Case) {},
		func(c *Case) { c.DropSep = true },
		func(c *Case) { c.FilesFirst = true },
		func(c *Case) { c.Samp = &Quant{2, 1, false} },
		func(c *Case) { c.Samp = &Quant{1, 1, true}; c.DropSep = true },
		func(c *Case) { c.Depth = 2; c.Asker = true },
		func(c *Case) { c.ReadErr = []string{"root/m", "root/K"}; c.Asker = true },
		func(c *Case) { c.StatErr = true },
		func(c *Case) { c.StatErr = true; c.Fault = "nil" },
		func(c *Case) { c.CSSort = true },
		func(c *Case) {
			c.Sample = &core.SampleFilterDef{Type: enums.FilterTypeGlob, Pattern: "[a-lA-L]*", Scope: enums.ScopeFile}
			c.Samp = &Quant{1, 2, false}
		},
		func(c *Case) { c.Node = fdef(enums.FilterTypeGlob, "[b-m]*", 0, false, 0) },
	}
	one := func(c Case) bool {
		return tied(&c) || fn(&c)
	}
	// everything about one hook
	for _, h := range hookNames {
		for _, prog := range hookPrograms(h, 2, pick(th, 2, 3)) {
			for _, es := range trees {
				for _, s := range allSubs {
					for _, set := range sets {
						c := Case{Entries: es, Sub: s, Hooks: prog}
						set(&c)
						if h != "stat" && c.StatErr && len(strings.Fields(prog)) > 1 {
							continue
						}
						if !one(c) {
							return
						}
					}
				}
			}
		}
	}
	// combinations of hooks, in both orders
	for _, h1 := range hookNames {
		for _, h2 := range hookNames {
			if h1 == h2 {
				continue
			}
			for _, p1 := range hookPrograms(h1, 1, 1) {
				for _, p2 := range hookPrograms(h2, 1, 1) {
					if p1 == "" || p2 == "" {
						continue
					}
					for _, es := range trees[:pick(th, 1, 3)] {
						for _, s := range allSubs {
							for i, set := range sets {
								if i > 4 && !th {
									break
								}
								c := Case{Entries: es, Sub: s, Hooks: p1 + " " + p2}
								set(&c)
								if !one(c) {
									return
								}
							}
						}
					}
				}
			}
		}
	}
	// small trees
	progs := []string{}
	for _, h := range hookNames {
		for _, p := range hookPrograms(h, 1, 1) {
			if p != "" {
				progs = append(progs, p)
			}
		}
	}
	treesOf(pick(th, 4, 5), []string{"mix"}, true, func(es []string) bool {
		for _, s := range allSubs {
			for _, prog := range progs {
				for _, set := range sets[:pick(th, 4, 5)] {
					c := Case{Entries: es, Sub: s, Hooks: prog}
					set(&c)
					if !one(c) {
						return false
					}
				}
			}
		}
		return true
	})
	// hooked again, when resumed
	for _, strat := range []string{"fast", "spawn"} {
		for _, prog := range []string{"sort.opt.none", "sort.tap.down", "sort.chain.rev", "sort.opt.len sort.chain.rot",
			"read.opt.rev", "read.chain.hide:K", "read.tap.pop read.chain.pop", "file.opt.seen", "dir.opt.up", "file.chain.add:1/", "dir.chain.add:2",
			"read.chain.hide:m sort.opt.down file.opt.up"} {
			treesOf(pick(th, 4, 5), []string{"mix"}, true, func(es []string) bool {
				for _, s := range allSubs {
					for _, set := range sets[:5] {
						c := Case{Entries: es, Sub: s, Hooks: prog}
						set(&c)
						if tied(&c) {
							continue
						}
						ps := Model(&c).invoked()
						for i, p := range ps {
							if len(es) > 6 && i%3 != 1 && !th {
								continue
							}
							x := c
							x.CB = []Act{{p, "panic"}}
							x.Legs = []Leg{{Strat: strat}}
							if !fn(&x) {
								return false
							}
						}
					}
				}
				return true
			})
		}
	}
}

func checkHooks() func(*Case) verdict {
	plain := conform(view{kinds: allKinds, meta: true, kids: true, metrics: invMetrics})
	again := resumption(view{kinds: "invoke end", meta: true, kids: true, metrics: "files dirs"})
	return func(c *Case) verdict {
		if len(c.Legs) > 0 {
			return again(c)
		}
		return plain(c)
	}
}
