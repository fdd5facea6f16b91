package main

import (
	"bufio"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// prop is the check of one property: a finite domain of cases, and a
// judgement of one of them.
type prop struct {
	id     string
	level  string
	gen    func(th bool, fn yield)
	check  func(*Case) verdict
	rule   string // how cases are made
	bounds map[string]any
	serial bool // cases use process wide state, one at a time is what they do anyway
	assume []string
}

// verdict of one case.
type verdict struct {
	bad   string   // "" or why the property does not hold
	steps []string // observable events, in the order of the model
	execs int      // executions of the implementation which were compared with the model
	sig   string   // what was observed
}

type violation struct {
	Prop string
	Tier string
	Case *Case `json:",omitempty"`
	Why  string
	From int    `json:",omitempty"` // window replay: cases From..To of worker I of N, in order
	To   int    `json:",omitempty"`
	I, N int    `json:",omitempty"`
	Kind string // case, window
}

type workerOut struct {
	Cases, Execs, Transitions int
	Outcomes                  int
	Exhaustive                bool
	Violation                 *violation
	Samples                   []string
	States                    int
	Capped                    bool
}

const stateCap = 6 << 20

func fnvs(h uint64, s string) uint64 {
	f := fnv.New64a()
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], h)
	f.Write(b[:])
	f.Write([]byte(s))
	return f.Sum64()
}

func budget(th bool) time.Duration {
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		n, _ := strconv.Atoi(s)
		return time.Duration(n) * time.Second
	}
	if th {
		return 3000 * time.Second
	}
	return 420 * time.Second
}

const caseLimit = 60 * time.Second

// safely judges a case; a panic of the harness itself counts as one of the
// case, since the implementation is what it calls.
func (p *prop) safely(c *Case) (v verdict) {
	defer func() {
		if x := recover(); x != nil {
			v.bad = fmt.Sprintf("panic escapes to the caller: %v", x)
		}
	}()
	return p.check(c)
}

func runWorker(id string, th bool, i, n int, dir string) {
	p := props()[id]
	out := &workerOut{Exhaustive: true}
	states := map[uint64]struct{}{}
	outcomes := map[uint64]struct{}{}
	end := time.Now().Add(budget(th))
	var pos atomic.Int64
	pos.Store(-1)
	var started atomic.Int64
	started.Store(time.Now().UnixNano())
	posFile, _ := os.Create(filepath.Join(dir, fmt.Sprintf("pos.%d", i)))
	mark := func(k int) {
		pos.Store(int64(k))
		started.Store(time.Now().UnixNano())
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(k))
		posFile.WriteAt(b[:], 0)
	}
	var cur atomic.Pointer[Case]
	finish := func() {
		out.States, out.Outcomes = len(states), len(outcomes)
		hs := make([]byte, 0, len(states)*8)
		for h := range states {
			hs = binary.LittleEndian.AppendUint64(hs, h)
		}
		os.WriteFile(filepath.Join(dir, fmt.Sprintf("states.%d", i)), hs, 0o644)
		hs = hs[:0]
		for h := range outcomes {
			hs = binary.LittleEndian.AppendUint64(hs, h)
		}
		os.WriteFile(filepath.Join(dir, fmt.Sprintf("outcomes.%d", i)), hs, 0o644)
		b, _ := json.Marshal(out)
		os.WriteFile(filepath.Join(dir, fmt.Sprintf("out.%d", i)), b, 0o644)
	}
	go func() {
		for {
			time.Sleep(time.Second)
			if time.Since(time.Unix(0, started.Load())) > caseLimit && pos.Load() >= 0 {
				v := &violation{Prop: id, Kind: "case", Case: cur.Load(), Why: "the case does not come to an end"}
				b, _ := json.Marshal(&workerOut{Violation: v})
				os.WriteFile(filepath.Join(dir, fmt.Sprintf("out.%d", i)), b, 0o644)
				os.Exit(0)
			}
		}
	}()
	skipFrom, skipTo := window()
	k := -1
	p.gen(th, func(c *Case) bool {
		k++
		if k%n != i {
			return true
		}
		if skipTo >= 0 && (k < skipFrom || k > skipTo) {
			return k <= skipTo
		}
		if out.Cases%16 == 0 && time.Now().After(end) {
			out.Exhaustive = false
			return false
		}
		x := *c
		cur.Store(&x)
		mark(k)
		v := p.safely(&x)
		out.Cases++
		if out.Cases <= 25 && v.bad == "" {
			// determinism: the same case, the same observation
			if w := p.safely(&x); w.sig != v.sig {
				fmt.Fprintf(os.Stderr, "note: %s is not deterministic: %s: %q / %q\n", id, x.js(), clip(v.sig), clip(w.sig))
			}
		}
		out.Execs += v.execs
		out.Transitions += len(v.steps)
		outcomes[fnvs(0, v.sig)] = struct{}{}
		if len(states) < stateCap {
			h := uint64(0)
			for _, s := range v.steps {
				h = fnvs(h, s)
				states[h] = struct{}{}
			}
		} else {
			out.Capped = true
		}
		if len(out.Samples) < 1 && len(v.steps) > 6 {
			out.Samples = append(out.Samples, clip(x.js()+" => "+strings.Join(v.steps, " ; ")))
		}
		if v.bad != "" {
			if known(id, &x, v.bad) {
				return true
			}
			if f := os.Getenv("VERIF_ALL"); f != "" {
				// development: list all violations
				g, _ := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
				fmt.Fprintf(g, "%s\t%s\n", v.bad, x.js())
				g.Close()
				return true
			}
			out.Violation = &violation{Prop: id, Kind: "case", Case: &x, Why: v.bad, I: i, N: n, To: k}
			return false
		}
		return true
	})
	pos.Store(-1)
	finish()
}

// window limits a worker to a range of the domain (replays).
func window() (int, int) {
	if s := os.Getenv("VERIF_WINDOW"); s != "" {
		var a, b int
		fmt.Sscanf(s, "%d-%d", &a, &b)
		return a, b
	}
	return -1, -1
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "…"
	}
	return s
}

var (
	knownMu   sync.Mutex
	knownList []knownFinding
	knownRead bool
)

type knownFinding struct {
	Property string
	Kind     string // known, fixed
	Match    string // substring of the case and of the reason
	What     string
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func knowns() []knownFinding {
	knownMu.Lock()
	defer knownMu.Unlock()
	if !knownRead {
		knownRead = true
		if f, err := os.Open(filepath.Join(verifDir(), "known_findings.jsonl")); err == nil {
			defer f.Close()
			sc := bufio.NewScanner(f)
			for sc.Scan() {
				var k knownFinding
				if json.Unmarshal(sc.Bytes(), &k) == nil && k.Kind == "known" {
					knownList = append(knownList, k)
				}
			}
		}
	}
	return knownList
}

func known(id string, c *Case, why string) bool {
	for _, k := range knowns() {
		if k.Property == id && k.Match != "" && strings.Contains(c.js()+" "+why, k.Match) {
			return true
		}
	}
	return false
}

func self() string {
	s, err := os.Executable()
	if err != nil {
		return os.Args[0]
	}
	return s
}

// replayOnce runs a recorded violation in a process of its own; true if it
// fails there.
func replayOnce(file string) bool {
	ctx, cancel := context.WithTimeout(context.Background(), 2*caseLimit)
	defer cancel()
	cmd := exec.CommandContext(ctx, self(), "replay", file)
	cmd.Env = os.Environ()
	err := cmd.Run()
	return err != nil
}

func runReplay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props()[v.Prop]
	time.AfterFunc(caseLimit, func() {
		fmt.Println("the case does not come to an end")
		os.Exit(1)
	})
	if v.Kind == "window" {
		k, code := -1, 0
		p.gen(v.Tier == "thorough", func(c *Case) bool {
			k++
			if k%v.N != v.I || k < v.From {
				return true
			}
			x := *c
			r := p.safely(&x)
			if r.bad != "" {
				fmt.Println(x.js(), r.bad)
				code = 1
				return false
			}
			return k < v.To
		})
		return code
	}
	r := p.safely(v.Case)
	if r.bad != "" {
		fmt.Println(r.bad)
		return 1
	}
	fmt.Println("holds")
	return 0
}

func mergeHashes(dir, pat string) int {
	fs, _ := filepath.Glob(filepath.Join(dir, pat))
	all := []uint64{}
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for len(b) >= 8 {
			all = append(all, binary.LittleEndian.Uint64(b))
			b = b[8:]
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	n := 0
	for i, h := range all {
		if i == 0 || h != all[i-1] {
			n++
		}
	}
	return n
}

func runCheck(id string, th bool) int {
	start := time.Now()
	p := props()[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", id)
		return 2
	}
	dir, err := os.MkdirTemp("", "verif-run")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	tier := "quick"
	if th {
		tier = "thorough"
	}
	outs := make([]*workerOut, n)
	var wg sync.WaitGroup
	var stop atomic.Bool
	cmds := make([]*exec.Cmd, n)
	var mu sync.Mutex
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			cmd := exec.Command(self(), "worker", id, fmt.Sprint(i), fmt.Sprint(n), dir)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "VERIF_SCRATCH="+filepath.Join(dir, fmt.Sprintf("scratch.%d", i)))
			os.MkdirAll(filepath.Join(dir, fmt.Sprintf("scratch.%d", i)), 0o777)
			errf, _ := os.Create(filepath.Join(dir, fmt.Sprintf("err.%d", i)))
			cmd.Stderr = errf
			mu.Lock()
			if stop.Load() {
				mu.Unlock()
				return
			}
			cmds[i] = cmd
			serr := cmd.Start()
			mu.Unlock()
			if serr != nil {
				return
			}
			werr := cmd.Wait()
			errf.Close()
			b, rerr := os.ReadFile(filepath.Join(dir, fmt.Sprintf("out.%d", i)))
			var o workerOut
			if rerr == nil && json.Unmarshal(b, &o) == nil {
				outs[i] = &o
			} else if !stop.Load() {
				// the process died: the case it was at is to blame
				pb, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("pos.%d", i)))
				eb, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("err.%d", i)))
				if len(pb) >= 8 {
					at := int(binary.LittleEndian.Uint64(pb))
					var cc *Case
					k := -1
					p.gen(th, func(c *Case) bool {
						k++
						if k == at {
							x := *c
							cc = &x
						}
						return k < at
					})
					outs[i] = &workerOut{Violation: &violation{Prop: id, Kind: "case", Case: cc, I: i, N: n, To: at,
						Why: fmt.Sprintf("the process dies (%v): %s", werr, firstLine(eb))}}
				} else {
					fmt.Fprintf(os.Stderr, "worker %d: %v %s\n", i, werr, firstLine(eb))
				}
			}
			if outs[i] != nil && outs[i].Violation != nil {
				stop.Store(true)
				mu.Lock()
				for j, c := range cmds {
					if j != i && c != nil && c.Process != nil {
						c.Process.Kill()
					}
				}
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()

	code := 0
	nviol := 0
	for i, o := range outs {
		if o == nil {
			if !stop.Load() {
				fmt.Fprintf(os.Stderr, "worker %d gave no result\n", i)
				code = 2
			}
			continue
		}
		if v := o.Violation; v != nil && nviol == 0 {
			v.Tier = tier
			if file := confirm(v); file != "" {
				nviol++
				fmt.Printf("case: %s\nwhy: %s\n", clip(v.Case.js()), clip(v.Why))
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, file)
				code = 1
			} else {
				fmt.Fprintf(os.Stderr, "note: not reproducible, not reported: %s: %s\n", clip(v.Case.js()), clip(v.Why))
			}
		}
	}
	for _, k := range knowns() {
		if k.Property == id {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
		}
	}
	if nviol > 0 {
		code = 1
	}
	for i := 0; i < n; i++ {
		if b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("err.%d", i))); len(b) > 0 && code == 0 {
			fmt.Fprintln(os.Stderr, firstLine(b))
			break
		}
	}
	writeEvidence(p, tier, dir, outs, nviol, time.Since(start))
	return code
}

func firstLine(b []byte) string {
	s := string(b)
	if i := strings.IndexByte(s, '\n'); i > 0 {
		s = s[:i]
	}
	return clip(s)
}

// confirm re-runs a violation five times, each in a process of its own. What
// does not fail every time is not believed. A case which holds by itself is
// tried together with those before it, since a traversal may spoil another.
func confirm(v *violation) string {
	dir := filepath.Join(verifDir(), "replay")
	os.MkdirAll(dir, 0o755)
	write := func() string {
		b, _ := json.MarshalIndent(v, "", " ")
		f := filepath.Join(dir, v.Prop+"-"+v.Case.hash()+".json")
		os.WriteFile(f, b, 0o644)
		return f
	}
	all := func(f string, times int) bool {
		for i := 0; i < times; i++ {
			if !replayOnce(f) {
				return false
			}
		}
		return true
	}
	f := write()
	times := 5
	if strings.Contains(v.Why, "come to an end") {
		times = 2
	}
	if all(f, times) {
		return f
	}
	if v.N > 0 {
		v.Kind = "window"
		for _, back := range []int{50, 2000} {
			v.From = max(0, v.To-back*v.N)
			if all(write(), 3) {
				return f
			}
		}
	}
	os.Remove(f)
	return ""
}

func writeEvidence(p *prop, tier, dir string, outs []*workerOut, nviol int, wall time.Duration) {
	cov := map[string]any{}
	cases, execs, trans := 0, 0, 0
	exh, capped := true, false
	samples := []string{}
	for _, o := range outs {
		if o == nil {
			exh = false
			continue
		}
		cases += o.Cases
		execs += o.Execs
		trans += o.Transitions
		exh = exh && o.Exhaustive && o.Violation == nil
		capped = capped || o.Capped
		samples = append(samples, o.Samples...)
	}
	if len(samples) > 4 {
		samples = samples[:4]
	}
	states := mergeHashes(dir, "states.*")
	outcomes := mergeHashes(dir, "outcomes.*")
	if len(samples) == 0 {
		samples = []string{"none longer than six steps"}
	}
	if p.level == "model_checking" {
		cov["states"] = states
		cov["transitions"] = trans
		cov["traces_validated_against_impl"] = execs
	} else {
		cov["evaluations"] = execs
		cov["distinct_nontrivial"] = outcomes
	}
	cov["samples"] = samples
	cov["rule"] = p.rule
	cov["cases"] = cases
	cov["distinct_outcomes"] = outcomes
	cov["exhaustive"] = exh
	if capped {
		cov["states_note"] = "the set of states was capped per worker, states is a lower bound"
	}
	for k, v := range p.bounds {
		cov[k] = v
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": p.id, "tier": tier, "seed": seed, "level": p.level,
		"coverage": cov, "wall_s": wall.Seconds(), "violations": nviol,
		"assumptions": append([]string{"the reference model (harness/model.go) states the intended behaviour"}, p.assume...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	d := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(d, 0o755)
	os.WriteFile(filepath.Join(d, p.id+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s %s: cases=%d executions=%d states=%d transitions=%d outcomes=%d exhaustive=%v violations=%d %.1fs\n",
		p.id, tier, cases, execs, states, trans, outcomes, exh, nviol, wall.Seconds())
}
