package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/vs"
	"verif/vs/vexp"
)

// job is the exploration of one program up to a bound.
type job struct {
	Scen    *Scen
	Bound   int
	Seconds float64
}

// found is a violation.
type found struct {
	Prop    string
	Scen    *Scen
	Choices []int
	Why     string
	Trace   []string `json:",omitempty"`
}

const hang = 40 * time.Second // of real time, for one execution

// watch ends the process if an execution doesn't come to an end.
var watching struct {
	mx    sync.Mutex
	since time.Time
	on    bool
	tell  func()
}

func watchdog() {
	go func() {
		for {
			time.Sleep(time.Second)
			watching.mx.Lock()
			late := watching.on && time.Since(watching.since) > hang
			watching.mx.Unlock()
			if late {
				watching.tell()
				os.Exit(0)
			}
		}
	}()
}

func watchOn() {
	watching.mx.Lock()
	watching.on, watching.since = true, time.Now()
	watching.mx.Unlock()
}

func watchOff() {
	watching.mx.Lock()
	watching.on = false
	watching.mx.Unlock()
}

func worker() {
	in := bufio.NewReader(os.Stdin)
	out := bufio.NewWriter(os.Stdout)
	watchdog()
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var j job
		if err := json.Unmarshal(line, &j); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		st := j.Scen.explore(j.Bound, time.Now().Add(time.Duration(j.Seconds*float64(time.Second))), true)
		b, _ := json.Marshal(st)
		out.Write(append(b, '\n'))
		out.Flush()
		runtime.GC()
	}
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *tail
}

// tail keeps the last of what is written.
type tail struct {
	mx sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mx.Lock()
	defer t.mx.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append([]byte{}, t.b[len(t.b)-1<<15:]...)
	}
	return len(p), nil
}

func self() string {
	s, err := os.Executable()
	if err != nil {
		return os.Args[0]
	}
	return s
}

func env() []string {
	return append(os.Environ(), "GOMAXPROCS=1", "GOGC=400",
		"GORACE=halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0")
}

func startProc() (*proc, error) {
	cmd := exec.Command(self(), "worker")
	cmd.Env = env()
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	t := &tail{}
	cmd.Stderr = t
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &proc{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<20), err: t}, nil
}

func (p *proc) stop() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

func (p *proc) do(j *job) (*stats, error) {
	b, _ := json.Marshal(j)
	if _, err := p.in.Write(append(b, '\n')); err != nil {
		return nil, err
	}
	line, err := p.out.ReadBytes('\n')
	if err != nil {
		return nil, err
	}
	st := &stats{}
	return st, json.Unmarshal(line, st)
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type knownFinding struct{ Property, Kind, Match, What string }

func knowns(id string) []knownFinding {
	var l []knownFinding
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	for _, line := range bytes.Split(b, []byte("\n")) {
		var k knownFinding
		if json.Unmarshal(line, &k) == nil && k.Kind == "known" && k.Property == id && k.Match != "" {
			l = append(l, k)
		}
	}
	return l
}

func isKnown(ks []knownFinding, sc *Scen, why string) bool {
	for _, k := range ks {
		if strings.Contains(sc.js()+" "+why, k.Match) {
			return true
		}
	}
	return false
}

// replay of a recorded violation: 1 if it fails.
func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var f found
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	time.AfterFunc(hang, func() {
		fmt.Println("the execution does not come to an end")
		os.Exit(1)
	})
	bad, out, _ := f.Scen.once(&vexp.Explorer{Replay: true, Fixed: f.Choices}, f.Scen.oracles(), os.Getenv("TRACE") != "")
	for _, l := range out.Trace {
		fmt.Println(l)
	}
	if bad != "" {
		fmt.Println(bad)
		return 1
	}
	fmt.Println("holds")
	return 0
}

// confirm by repeating the execution, each time in a process of its own.
func confirm(f *found) string {
	dir := filepath.Join(verifDir(), "replay")
	os.MkdirAll(dir, 0o755)
	h := fnv.New32a()
	h.Write([]byte(f.Scen.js()))
	fmt.Fprint(h, f.Choices)
	file := filepath.Join(dir, fmt.Sprintf("%s-%08x.json", f.Prop, h.Sum32()))
	b, _ := json.MarshalIndent(f, "", " ")
	os.WriteFile(file, b, 0o644)
	for i := 0; i < 3; i++ {
		cmd := exec.Command(self(), "replay", file)
		cmd.Env = env()
		var o bytes.Buffer
		cmd.Stdout = &o
		err := cmd.Run()
		if err == nil || strings.Contains(o.String(), "holds") {
			os.Remove(file)
			return ""
		}
	}
	return file
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "…"
	}
	return s
}

func lastLines(b []byte) string {
	s := string(b)
	if i := strings.Index(s, "fatal error"); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 600 {
		s = s[:600]
	}
	return s
}

func check(id string) int {
	start := time.Now()
	tier, ti := "quick", 0
	if os.Getenv("VERIF_TIER") == "thorough" {
		tier, ti = "thorough", 1
	}
	limit := 400 * time.Second
	if ti == 1 {
		limit = 3000 * time.Second
	}
	if x, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil {
		limit = time.Duration(x) * time.Second
	}
	end := start.Add(limit)
	list := scenarios(id)
	if len(list) == 0 {
		fmt.Fprintln(os.Stderr, "no such property", id)
		return 2
	}
	ks := knowns(id)

	// the jobs, shallow ones first; the deeper the bound, the more of the time
	// that is left a single job may take
	type todo struct {
		i, b int
		secs float64
	}
	var jobs []todo
	for b := 0; b <= 8; b++ {
		for i, sc := range list {
			if b > sc.Bound[ti] || (b == 0 && sc.Bound[ti] > 0) {
				continue
			}
			jobs = append(jobs, todo{i: i, b: b})
		}
	}
	var mx sync.Mutex
	next := 0
	results := make([]*stats, len(list))
	asked := make([]int, len(list))
	for i := range asked {
		asked[i] = -1
	}
	total := stats{Outcomes: map[string]int{}}
	var bad []*found
	skipped, knownHits, deaths := 0, 0, 0
	n := min(8, runtime.NumCPU())
	var wg sync.WaitGroup
	var procs []*proc
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *proc
			defer func() {
				if p != nil {
					p.stop()
				}
			}()
			for {
				mx.Lock()
				if next >= len(jobs) || len(bad) > 0 {
					mx.Unlock()
					return
				}
				t := jobs[next]
				next++
				left := time.Until(end).Seconds()
				rest := len(jobs) - next
				if left <= 0 {
					skipped++
					mx.Unlock()
					continue
				}
				// a fair share, several times over
				secs := min(left, max(20, 16*float64(n)*left/float64(rest+n)))
				mx.Unlock()
				sc := list[t.i]
				j := &job{Scen: sc, Bound: t.b, Seconds: secs}
				var st *stats
				var err error
				for try := 0; try < 2; try++ {
					if p == nil {
						if p, err = startProc(); err != nil {
							break
						}
						mx.Lock()
						procs = append(procs, p)
						mx.Unlock()
					}
					if st, err = p.do(j); err == nil {
						break
					}
					p.cmd.Wait()
					mx.Lock()
					stopping := len(bad) > 0
					if !stopping {
						deaths++
						if try == 1 {
							bad = append(bad, &found{Prop: id, Scen: sc, Why: "the process dies: " + lastLines(p.err.b)})
						}
					}
					mx.Unlock()
					p = nil
					if stopping {
						return
					}
				}
				if st == nil {
					continue
				}
				mx.Lock()
				total.Schedules += st.Schedules
				total.Complete += st.Complete
				total.Steps += st.Steps
				total.Diverged += st.Diverged
				total.MaxSteps = max(total.MaxSteps, st.MaxSteps)
				total.MaxThreads = max(total.MaxThreads, st.MaxThreads)
				total.MaxPoints = max(total.MaxPoints, st.MaxPoints)
				for k, v := range st.Outcomes {
					total.Outcomes[fmt.Sprint(t.i, k)] += v
				}
				asked[t.i] = max(asked[t.i], t.b)
				if r := results[t.i]; r == nil || st.States > r.States || st.Bound > r.Bound {
					if r != nil {
						st.States = max(st.States, r.States)
						st.Bound = max(st.Bound, r.Bound)
					}
					results[t.i] = st
				}
				if st.Bad != "" {
					if isKnown(ks, sc, st.Bad) {
						knownHits++
					} else if os.Getenv("VERIF_ALL") != "" {
						fmt.Println(clip(st.Bad), "\n   ", sc.js(), st.Choices)
					} else if len(bad) == 0 {
						bad = append(bad, &found{Prop: id, Scen: sc, Choices: st.Choices, Why: st.Bad})
						for _, q := range procs {
							q.cmd.Process.Kill()
						}
					}
				}
				mx.Unlock()
			}
		}()
	}
	wg.Wait()

	code, violations := 0, 0
	for _, f := range bad {
		file := confirm(f)
		if file == "" {
			// once more from the start: is it found again?
			if p, err := startProc(); err == nil {
				st, err := p.do(&job{Scen: f.Scen, Bound: f.Scen.Bound[ti], Seconds: 120})
				if err == nil && st.Bad != "" {
					f.Why, f.Choices = st.Bad, st.Choices
					dir := filepath.Join(verifDir(), "replay")
					file = filepath.Join(dir, id+"-explore.json")
					b, _ := json.MarshalIndent(f, "", " ")
					os.WriteFile(file, b, 0o644)
				}
				p.stop()
			}
		}
		if file == "" {
			fmt.Fprintf(os.Stderr, "note: not reproducible, not reported: %s: %s\n", f.Scen.js(), clip(f.Why))
			continue
		}
		violations++
		fmt.Printf("program: %s\nwhy: %s\n", clip(f.Scen.js()), clip(f.Why))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, file)
		code = 1
		break
	}
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
	}

	bounds := map[string]int{}
	exhaustive := skipped == 0 && total.Diverged == 0
	var deep string
	for i, sc := range list {
		st := results[i]
		if st == nil {
			exhaustive = false
			bounds["none"]++
			continue
		}
		total.States += st.States
		bounds[fmt.Sprint(st.Bound)]++
		if st.Bound < sc.Bound[ti] {
			exhaustive = false
			if os.Getenv("VERIF_ALL") != "" {
				fmt.Fprintf(os.Stderr, "note: explored up to %d of %d: %s\n", st.Bound, sc.Bound[ti], sc.js())
			}
		}
	}
	var keys []string
	for k := range bounds {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		deep += fmt.Sprintf("%s: %d programs; ", k, bounds[k])
	}
	samples := []string{}
	for i := 0; i < len(list) && len(samples) < 3; i += 1 + len(list)/3 {
		if os := samples; os != nil {
			x := &vexp.Explorer{Replay: true}
			if vs.Race {
				break
			}
			_, out, sig := list[i].once(x, list[i].oracles(), true)
			samples = append(samples, clip(list[i].js()+" => "+strings.Join(out.Trace, " ; ")+" => "+sig))
		}
	}
	if len(samples) == 0 {
		samples = append(samples, list[0].js())
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"states": total.States, "transitions": total.Steps,
		"traces_validated_against_impl": total.Complete,
		"samples":                       samples,
		"schedules":                     total.Schedules,
		"programs":                      len(list),
		"distinct_outcomes":             len(total.Outcomes),
		"exhaustive":                    exhaustive,
		"deviation_bound_finished":      deep,
		"longest_schedule":              total.MaxSteps,
		"most_goroutines":               total.MaxThreads,
		"most_choice_points":            total.MaxPoints,
		"diverged":                      total.Diverged,
		"known_finding_hits":            knownHits,
		"rule": "every schedule of the woven implementation with at most so many deviations from the default schedule; " +
			"states are distinct happens-before histories, transitions are steps, a trace is an execution of the " +
			"implementation which ran to its end and was judged against a sequential traversal; schedules also counts " +
			"those which were abandoned in a state that had been explored already",
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": violations,
		"assumptions": []string{
			"goroutines interact only by what the weaver puts under control (go, channels, select, sync, sync/atomic, context, timers); C17 looks for anything else under the race detector",
			"the spin lock of the worker pool is a mutex",
			"the clock moves on when nothing else can, unless a program lets timers fire early",
		},
	}
	d := filepath.Join(verifDir(), "evidence")
	if os.Getenv("VERIF_MERGE") != "" {
		// what was covered one after another, and this
		var seq map[string]any
		b, err := os.ReadFile(filepath.Join(d, id+".json"))
		if err == nil {
			err = json.Unmarshal(b, &seq)
		}
		sc, ok := seq["coverage"].(map[string]any)
		if err != nil || !ok {
			fmt.Fprintln(os.Stderr, "no evidence to add to", err)
			return 3
		}
		for _, k := range []string{"states", "transitions", "traces_validated_against_impl"} {
			n, _ := sc[k].(float64)
			cov["concurrently_"+k] = cov[k]
			cov[k] = int(n) + cov[k].(int)
		}
		x, _ := sc["exhaustive"].(bool)
		cov["exhaustive"] = exhaustive && x
		cov["one_after_another"] = sc
		wall, _ := seq["wall_s"].(float64)
		ev["wall_s"] = ev["wall_s"].(float64) + wall
		more, _ := seq["assumptions"].([]any)
		for _, m := range more {
			ev["assumptions"] = append(ev["assumptions"].([]string), fmt.Sprint(m))
		}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(d, 0o755)
	os.WriteFile(filepath.Join(d, id+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s %s: programs=%d schedules=%d complete=%d states=%d steps=%d outcomes=%d bounds [%s] exhaustive=%v diverged=%d deaths=%d violations=%d %.1fs\n",
		id, tier, len(list), total.Schedules, total.Complete, total.States, total.Steps, len(total.Outcomes), strings.TrimSpace(deep), exhaustive, total.Diverged, deaths, violations, time.Since(start).Seconds())
	return code
}
