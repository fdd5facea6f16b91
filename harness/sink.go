package main

import (
	"context"
	"fmt"
	"io/fs"
	"sort"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/pref"
)

// C23: the filter which the client is handed is the one it has defined and the
// one that is applied.

// observed runs the case, and gives the nodes the client is invoked with.
func observed(c *Case, r *recorder, opts []pref.Option, visit func(*core.Node)) *Trace {
	fixedClock()
	m := c.fsys()
	guard(r.t, func() {
		result, err := age.Walk().Configure().Extent(age.Prime(
			&pref.Using{
				Head: pref.Head{
					Handler: func(s age.Servant) error {
						n := s.Node()
						r.add(snap("invoke", n))
						if visit != nil {
							visit(n)
						}
						return nil
					},
					GetForest: func(string) *core.Forest { return m.forest() },
				},
				Subscription: c.sub(),
				Tree:         c.tree(),
			}, opts...,
		)).Navigate(context.Background())
		r.t.finish(result, err)
	})
	return r.t
}

func checkSink(c *Case) (v verdict) {
	v.execs = 2
	// the nodes there are
	plain := *c
	plain.Node, plain.Child, plain.Sample, plain.Samp, plain.Sub = nil, nil, nil, nil, subAll
	mo := newModel(&plain)
	mo.all = map[string]*mnode{}
	mo.run()
	nodes := map[string]*core.Node{}
	rec := func() *recorder { return &recorder{t: &Trace{}, max: eventBudget} }
	r := rec()
	observed(&plain, r, plain.options(r), func(n *core.Node) { nodes[n.Path] = n })
	// the filters there are
	replies := []pref.FilterReply{}
	r = rec()
	late := ""
	opts := append(c.options(r), func(o *pref.Options) error {
		o.Filter.Sink = func(reply pref.FilterReply) {
			if len(r.t.Ev) > 0 {
				late = "the client is handed the filter when the navigation has begun"
			}
			replies = append(replies, reply)
		}
		return nil
	})
	bad := ""
	var node core.TraverseFilter
	var child core.ChildTraverseFilter
	var sampler core.SampleTraverseFilter
	looked := false
	look := func(n *core.Node) {
		if !looked {
			looked = true
			for _, x := range replies {
				if x.Node != nil {
					if node != nil {
						bad = "the node filter is handed out twice"
					}
					node = x.Node
				}
				if x.Child != nil {
					if child != nil {
						bad = "the child filter is handed out twice"
					}
					child = x.Child
				}
				if x.Sampler != nil {
					if sampler != nil {
						bad = "the sample filter is handed out twice"
					}
					sampler = x.Sampler
				}
			}
		}
		if bad == "" && node != nil && !node.IsMatch(n) {
			bad = "invoked with " + n.Path + " which the filter does not match"
		}
	}
	t := observed(c, r, opts, look)
	v.steps = append(stepsOf(t), fmt.Sprint(len(replies)))
	defer func() { v.sig = sigOf(t) + v.bad }()
	if !looked && t.Err == "" {
		look2 := look
		if len(nodes) > 0 {
			node = nil
			looked = false
			save := bad
			look2(nodes[c.root()])
			bad = save // the top need not match
		}
	}
	switch {
	case t.Panic != "":
		v.bad = "panic escapes to the caller: " + t.Panic
	case late != "":
		v.bad = late
	case bad != "":
		v.bad = bad
	case (c.Node != nil) != (node != nil):
		v.bad = fmt.Sprintf("node filter defined: %v, handed to the client: %v", c.Node != nil, node != nil)
	case (c.Child != nil) != (child != nil):
		v.bad = fmt.Sprintf("child filter defined: %v, handed to the client: %v", c.Child != nil, child != nil)
	case (c.Sample != nil && c.Node == nil) != (sampler != nil):
		v.bad = fmt.Sprintf("sample filter defined: %v, handed to the client: %v", c.Sample != nil, sampler != nil)
	}
	if v.bad != "" {
		return v
	}
	paths := []string{}
	for p := range mo.all {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	if len(paths) != len(nodes) {
		v.bad = fmt.Sprintf("there are %d nodes, invoked with %d", len(paths), len(nodes))
		return v
	}
	if d := c.Node; d != nil {
		if err := node.Validate(); err != nil {
			v.bad = "the filter handed to the client is not valid: " + err.Error()
		}
		if d.Type != enums.FilterTypePoly {
			sc := d.Scope
			if sc == enums.ScopeUndefined {
				sc = enums.ScopeAll
			}
			if d.Type == enums.FilterTypeGlobEx {
				sc = enums.ScopeFile
			}
			if node.Source() != d.Pattern || node.Description() != d.Description || node.Scope() != sc {
				v.bad = fmt.Sprintf("defined %s, handed to the client %q %q %d", defText(d), node.Source(), node.Description(), node.Scope())
			}
		}
		for _, p := range paths {
			if v.bad == "" && node.IsMatch(nodes[p]) != mo.matchDef(d, mo.all[p]) {
				v.bad = fmt.Sprintf("the filter handed to the client matches %s: %v, defined %s", p, node.IsMatch(nodes[p]), defText(d))
			}
		}
	}
	some := func(entries []fs.DirEntry, got []fs.DirEntry, want func(e fs.DirEntry) bool) string {
		w := []string{}
		for _, e := range entries {
			if want(e) {
				w = append(w, e.Name())
			}
		}
		g := names(got)
		sort.Strings(w)
		sort.Strings(g)
		if fmt.Sprint(w) != fmt.Sprint(g) {
			return fmt.Sprintf("the filter handed to the client admits %v of %v, expected %v", g, names(entries), w)
		}
		return ""
	}
	for _, p := range paths {
		es := []fs.DirEntry{}
		if !mo.all[p].dir {
			continue
		}
		for _, k := range mo.all[p].kids {
			es = append(es, memEntry{mo.fs, k})
		}
		files := []fs.DirEntry{}
		for _, e := range es {
			if !e.IsDir() {
				files = append(files, e)
			}
		}
		clone := func(x []fs.DirEntry) []fs.DirEntry { return append([]fs.DirEntry{}, x...) }
		if d := c.Child; d != nil && v.bad == "" {
			if child.Source() != d.Pattern || child.Description() != d.Description {
				v.bad = fmt.Sprintf("defined %v, handed to the client %q %q", d, child.Source(), child.Description())
			} else {
				v.bad = some(files, child.Matching(clone(files)), func(e fs.DirEntry) bool {
					return patternMatch(d.Type, d.Pattern, e.Name()) != d.Negate
				})
			}
		}
		if d := c.Sample; sampler != nil && v.bad == "" {
			if sampler.Description() != d.Description {
				v.bad = fmt.Sprintf("defined %v, handed to the client %q", d, sampler.Description())
			} else {
				v.bad = some(es, sampler.Matching(clone(es)), func(e fs.DirEntry) bool {
					if !d.Scope.IsFile() && !e.IsDir() || !d.Scope.IsDirectory() && e.IsDir() {
						return true // is let past
					}
					return patternMatch(d.Type, d.Pattern, e.Name()) != d.Negate
				})
			}
		}
	}
	return v
}

func genSink(th bool, fn yield) {
	nodeF := append([]*core.FilterDef{nil}, nodeFilters(th)...)
	for i, d := range nodeF {
		if d != nil {
			x := cloneDef(d)
			x.Description = fmt.Sprint("node filter ", i)
			nodeF[i] = x
		}
	}
	childF := append([]*core.ChildFilterDef{nil}, childDefs()...)
	for i, d := range childF {
		if d != nil {
			d.Description = fmt.Sprint("child filter ", i)
		}
	}
	sampleF := append([]*core.SampleFilterDef{nil}, sampleDefs()...)
	for i, d := range sampleF {
		if d != nil {
			d.Description = fmt.Sprint("sample filter ", i)
		}
	}
	treesOf(pick(th, 3, 5), []string{"mix", "uni"}, true, func(es []string) bool {
		for _, s := range allSubs {
			for i, nf := range nodeF {
				for j, ch := range childF {
					if i*j > 0 && (i+j)%pick(th, 7, 2) != 0 {
						continue
					}
					if !fn(&Case{Entries: es, Sub: s, Node: nf, Child: ch}) {
						return false
					}
				}
			}
			for _, sf := range sampleF[1:] {
				for j, ch := range childF {
					if !fn(&Case{Entries: es, Sub: s, Sample: sf, Child: ch, Samp: &Quant{2, 2, j%2 == 1}}) {
						return false
					}
				}
			}
		}
		return true
	})
}
