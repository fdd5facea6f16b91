package main

import (
	"fmt"
	"path"
	"strings"

	"github.com/snivilised/agenor/core"
)

const allKinds = "begin end descend ascend invoke wake sleep ask fault rescue"
const invMetrics = "files filesOut dirs dirsOut"

var treeBounds = map[string]any{
	"trees": "every forest of up to k nodes (k below), under every naming listed in the rule, plus curated deep, wide and mixed trees",
}

func bounds(kv ...any) map[string]any {
	m := map[string]any{}
	for i := 0; i+1 < len(kv); i += 2 {
		m[fmt.Sprint(kv[i])] = kv[i+1]
	}
	return m
}

func step(e Ev) string {
	return fmt.Sprintf("%s %s %v %d", e.K, e.P, e.Dir, e.L)
}

func stepsOf(t *Trace) []string {
	out := make([]string, 0, len(t.Ev)+1)
	for _, e := range t.Ev {
		out = append(out, step(e))
	}
	return append(out, "return "+t.Err)
}

func sigOf(t *Trace) string {
	return strings.Join(stepsOf(t), ";") + fmt.Sprint(t.Metrics)
}

// conform is the check shared by the sequential properties: the trace of the
// model against the trace of the implementation.
func conform(v view, more ...func(c *Case, want, got *Trace) string) func(*Case) verdict {
	return func(c *Case) verdict {
		want := Model(c)
		got := execWalk(c)
		r := verdict{execs: 1, steps: stepsOf(want), sig: sigOf(got)}
		r.bad = diff(v, want, got)
		for _, f := range more {
			if r.bad == "" {
				r.bad = f(c, want, got)
			}
		}
		return r
	}
}

// withinDepth: no directory below the limit is even listed.
func withinDepth(c *Case, _, got *Trace) string {
	max := c.Depth
	if c.NoRecurse {
		max = 1
	}
	if max == 0 {
		return ""
	}
	for _, p := range got.Reads {
		d := uint(0)
		if in := c.below(p); in != "" {
			d = uint(strings.Count(in, "/")) + 1
		}
		if d > max {
			return "directory " + p + " is read although it is beyond the depth limit"
		}
	}
	return ""
}

// savedState: a rescued panic leaves the state needed to resume, exactly when
// the client was told so.
func savedState(c *Case, want, got *Trace) string {
	panicked := strings.HasPrefix(want.Err, "saved") || want.Err == "notsaved"
	if c.Rescue != "" || !panicked || want.Err == "notsaved" {
		if got.Saved != nil {
			return "state saved although it was not asked for"
		}
		return ""
	}
	m := newModel(c)
	m.run()
	return savedAt(c, m.panicAt, want.Metrics, got)
}

// savedAt: what is saved is the directory in which the panic happened.
func savedAt(c *Case, at *mnode, metrics map[string]uint, got *Trace) string {
	s := got.Saved
	if s == nil {
		return fmt.Sprintf("no state saved (files written: %v)", got.Writes)
	}
	if at == nil {
		return ""
	}
	if s.CurrentPath != at.path || s.Tree != c.root() || s.Depth != at.depth || s.Subscription != c.sub() {
		return fmt.Sprintf("saved state: expected path %s depth %d tree %s subscription %v, got %+v", at.path, at.depth, c.root(), c.sub(), *s)
	}
	if s.TraverseDescription.IsRelative != !c.Abs || s.ResumeDescription.IsRelative != (c.Abs == got.aside) {
		return fmt.Sprintf("saved state: wrong kind of file system %+v", *s)
	}
	for k, n := range metricNames {
		if k != "files" && k != "dirs" {
			continue // how much was filtered out is not part of what is saved
		}
		var have uint
		if x := s.Metrics[n]; x != nil {
			have = x.Value()
		}
		if metrics[k] != have {
			return fmt.Sprintf("saved metric %s: expected %d, got %d", k, metrics[k], have)
		}
	}
	if len(got.Writes) != 1 || path.Clean(got.Dest) != path.Clean(got.Writes[0]) {
		return fmt.Sprintf("saved as %v, but the error says %q", got.Writes, got.Dest)
	}
	for _, w := range got.Writes {
		if !strings.HasPrefix(path.Clean(w), "/admin-area/") {
			return "state written outside of the admin area: " + w
		}
	}
	return ""
}

var _ core.Metrics

var propTable map[string]*prop

func register(p *prop) {
	if propTable == nil {
		propTable = map[string]*prop{}
	}
	if p.level == "" {
		p.level = "model_checking"
	}
	propTable[p.id] = p
}

func props() map[string]*prop { return propTable }

func init() {
	full := view{kinds: allKinds, meta: true, kids: true, metrics: invMetrics}
	nokids := view{kinds: allKinds, meta: true, metrics: invMetrics}
	namesRule := "distinct trees x subscriptions x settings; a case is the closed input of one navigation; a state is a distinct history of observable events"

	register(&prop{id: "C01", gen: both(genVisit, sizesVisit), check: conform(full), rule: namesRule,
		bounds: bounds("sizes", "every width 1..70 / 1..210, every depth 1..40 / 1..130", "nodes", "5 (quick) / 7 (thorough)", "subscriptions", 4, "settings", "files first, case sensitive order, trailing separator: all 8 combinations", "listings", "all permutations of 6 (9) sibling groups")})
	register(&prop{id: "C02", gen: both(genDepth, sizesDepth, extremeDepth), check: conform(full, withinDepth), rule: namesRule,
		bounds: bounds("sizes", "every depth 1..24 / 1..70 with every limit, depth 300 / 600", "nodes", "5 / 6", "depth limit", "0..5, 23 powers of two and thereabouts", "no-recurse", "on and off")})
	register(&prop{id: "C03", gen: both(genMeta, sizesMeta), check: conform(full), rule: namesRule,
		bounds: bounds("sizes", "every depth 1..40 / 1..130", "nodes", "5 / 6", "roots", "6: relative, nested relative, absolute, absolute non-ASCII, \".\", \"/\"", "spellings", "6 per root (C01)")})
	register(&prop{id: "C04", gen: genFilter, check: conform(nokids), rule: namesRule,
		bounds: bounds("nodes", "see gens.go", "filters", "glob, regex, glob-ex, poly and custom over 10 scopes, negation, 3 answers for nodes out of scope")})
	register(&prop{id: "C05", gen: genChild, check: conform(view{kinds: allKinds, meta: true, kids: true, metrics: invMetrics + " kids kidsOut"}), rule: namesRule,
		bounds: bounds("nodes", "5 / 6")})
	register(&prop{id: "C06", gen: both(genSample, sizesSample), check: conform(nokids), rule: namesRule,
		bounds: bounds("sizes", "every width 1..14 / 1..40 with every quantity", "nodes", "5 / 6", "quantities", "0..3 files x 0..3 directories, forwards and in reverse; sampling filters of both scopes")})
	register(&prop{id: "C07", gen: genHiber, check: conform(nokids), rule: namesRule,
		bounds: bounds("nodes", "5 / 6", "conditions", "wake and sleep at every pair of node names, and conditions which match many, inclusive and exclusive")})
	register(&prop{id: "C08", gen: genLife, check: conform(view{kinds: allKinds, metrics: invMetrics}), rule: namesRule,
		bounds: bounds("nodes", "4 / 5", "listeners per event", "1..3")})
	register(&prop{id: "C09", gen: both(genSkip, sizesSkip), check: conform(full), rule: namesRule,
		bounds: bounds("sizes", "every width 1..14 / 1..40, depth 1..9 / 1..25, deviating anywhere", "nodes", "5 / 6", "deviations", "every single one, every pair on trees of up to 4 / 5 nodes")})
	register(&prop{id: "C10", gen: both(genFault, sizesFault), check: conform(full), rule: namesRule,
		bounds: bounds("sizes", "every width 1..14 / 1..40, depth 1..12 / 1..30, failing anywhere", "nodes", "5 / 6", "faults", "up to 3 unreadable directories, failing top level, failing entry information")})
	register(&prop{id: "C11", gen: both(genPanic, sizesPanic), check: conform(view{kinds: "begin invoke rescue end", meta: true, metrics: ""}, savedState), rule: namesRule,
		bounds: bounds("sizes", "every width 1..12 / 1..40, depth 1..10 / 1..25", "nodes", "5 / 6", "panic", "at every node")})
	again := view{kinds: "invoke end", meta: true, kids: true, metrics: "files dirs"}
	register(&prop{id: "C12", gen: both(genResume("fast"), sizesResume("fast")), check: resumption(again), rule: namesRule,
		bounds: bounds("sizes", "every width 1..10 / 1..30, depth 1..8 / 1..20", "nodes", "5 / 6", "panic", "at every node", "resumed navigation", "every single deviation on trees of up to 4 (3) nodes", "panics in a row", "up to 3")})
	register(&prop{id: "C13", gen: both(genResume("spawn"), sizesResume("spawn")), check: resumption(again), rule: namesRule,
		bounds: bounds("sizes", "every width 1..10 / 1..30, depth 1..8 / 1..20", "nodes", "5 / 6", "panic", "at every node", "resumed navigation", "every single deviation on trees of up to 4 (3) nodes", "panics in a row", "up to 3")})
	register(&prop{id: "C14", gen: genSaved, check: checkSaved, rule: "every combination of up to k values of different saved settings; every prefix, every single byte change of a list of operations, every single value change, of four saved states, resumed by both strategies",
		bounds: bounds("k", "3 / 4", "settings", "16 saved settings, 60 values", "byte operations", "14 / 34", "value operations", len(jsonOps))})
	register(&prop{id: "C20", gen: genHooks, check: checkHooks(), rule: namesRule + "; programs of hooks: up to 2 taps followed by up to 2 (3) chained functions of each hook, pairs of hooks, hooks under sampling, filters, failures and when resumed",
		bounds: bounds("nodes", "4 / 5 and curated", "hooks", "5 hooks, 19 functions to tap, 19 to chain", "taps", 2, "chained", "2 / 3")})
	register(&prop{id: "C21", gen: genHist, check: checkHist, rule: "every sequence of up to 3 (4) navigations of each kind (completes, fails, stops, panics, resumed by either strategy, tree missing, refused, cancelled, concurrent) with 21 settings, sharing nothing, the options, the facade, or the options by Using.O",
		bounds: bounds("navigations", "3 / 4", "settings", 21, "kinds", 10, "sharing", 4)})
	register(&prop{id: "C22", gen: genOptions, check: checkOptions, rule: "every sequence of up to 3 (4) options out of all there are, conditional, missing and failing ones included, and all of them but one from every starting point in both directions",
		bounds: bounds("options", len(settingsPool()), "sequence", "3 / 4")})
	register(&prop{id: "C23", gen: genSink, check: checkSink, rule: namesRule + "; filters of all kinds, alone and together with a child filter",
		bounds: bounds("nodes", "3 / 5 and curated", "filters", "node filters of C04 x child filters of C05; sample filters of C06 x child filters of C05")})
	register(&prop{id: "C24", gen: genCollections, check: checkMachine(collection), rule: "every sequence of operations of every container (positional set, stack, iterators, metrics, filter scope), from every way listed of creating it; a case is all the sequences with the same first two operations; after every operation everything observable is compared with the reference machine",
		bounds: bounds("operations", "set 4 / 5 of 16, stack 8 / 9 of 5, iterators 7 / 8 of 6, runnable iterators 6 / 7 of 9, metrics 5 / 6 of 15", "set orders", 2*len(setOrders))})
	register(&prop{id: "C25", gen: genLifeCtl, check: checkMachine(lifeTable), rule: "every sequence of subscribing (also while being notified), muting, unmuting and binding again; after every operation all six events are raised and who is notified is compared with the reference machine",
		bounds: bounds("operations", "5 / 6 of 21; with nested subscriptions 5 / 6 of 15")})
	register(&prop{id: "C26", gen: genDisk, check: checkDisk, rule: namesRule + "; every tree is made on the local file system, with a symbolic link of six kinds in every directory, and navigated by the default, an absolute and a relative local file system; interrupted at every node, and resumed from the file written",
		bounds: bounds("nodes", "4 / 5, with links 3 / 4, interrupted 3 / 4, and curated", "file systems", 5, "settings", 4)})
	register(&prop{id: "C27", gen: genResult, check: checkResult, rule: "every tree with every subscription and setting, navigated to every kind of end: complete, the tree missing, stopped, failed and panicked at every node, resumed by both strategies from every node, refused, cancelled, run concurrently",
		bounds: bounds("nodes", "4 / 5 and curated", "settings", 5, "ends", 12)})
	register(&prop{id: "C28", gen: genErrs, check: checkErr, rule: "every error the library defines, with every kind of argument, wrapped in every sequence of up to two wrappings and joined with every other one, asked every question about it",
		bounds: bounds("errors", len(allMakers()), "wrappings", "up to 2 / 3 of 129", "arguments", len(errArgs))})
	register(&prop{id: "C29", gen: genSaves, check: checkSaves, rule: "every history of up to 2 (3) interruptions at every path of a tree, of a navigation from the top or resumed from any of the files saved so far by either strategy, in the same second or later, on four kinds of local file system; up to 12 (30) in a row; with the name taken already by every combination of up to 3 files, directories and links",
		bounds: bounds("interruptions", "2 / 3, in a row 12 / 30", "file systems", 4, "taken", "every sequence of up to 3 of file, directory, link")})
	register(&prop{id: "C30", gen: genChange, check: conform(full), rule: namesRule + "; with every change (removing, making, replacing by the other kind) of every path at every event somebody is told of, and every pair of them",
		bounds: bounds("nodes", "3 / 4, with deviating clients and pairs of changes 2 / 3, and curated", "changes", "up to 2")})
	register(&prop{id: "C31", gen: genStale, check: checkStale(again), rule: namesRule,
		bounds: bounds("nodes", "4 / 5, with pairs of changes 2 / 3, and curated", "panic", "at every node", "changes", "removing, making and replacing every path; new paths in every directory")})
	register(&prop{id: "C32", gen: genReads, check: checkReads, rule: namesRule + "; every read and query the file system receives is compared",
		bounds: bounds("sizes", "every width 1..30 / 1..120, depth 1..20 / 1..80", "nodes", "5 / 6", "settings", 15, "deviations, unreadable directories, interruptions and resumes", "every single one on trees of up to 4 / 5 nodes")})
	register(&prop{id: "C33", gen: genReads, check: checkKept, rule: namesRule + "; every node and contents which the client, listeners and the skip handler were given is looked at again when all is over",
		bounds: bounds("nodes", "5 / 6", "settings", 15, "deviations, unreadable directories, interruptions and resumes", "every single one on trees of up to 4 / 5 nodes")})
	register(&prop{id: "C34", gen: genWithin, check: checkWithin, rule: "every event (notification, callback, skip handler, read) of every outer navigation x every inner navigation",
		bounds: bounds("trees", "all of up to 3 / 4 nodes, two of 4 and 8", "inner", "10 kinds x 2 trees", "depth", "3, a navigation within one within one")})
	register(&prop{id: "C19", gen: genMisuse, check: checkMisuse, rule: "every combination of the mistakes listed in misuse.go in the facade, the file systems, the saved file and the settings, in every scenario and through every composite",
		bounds: bounds("settings", "every sequence of up to 3 of 32", "scenarios", "walk/run x prime/resume, direct and through all composites")})
}
