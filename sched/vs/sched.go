// Package vs is a scheduler for woven code: of the goroutines it runs, one at a
// time proceeds from an operation upon a synchronisation object to the next, and
// which one, is a choice. All else (the clock included) follows from the
// choices, so that executions can be enumerated and repeated.
package vs

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// Waiter says whether an operation can go ahead.
type Waiter interface{ Ready() bool }

// Obj is what the scheduler knows of a synchronisation object: a hash of the
// history of the operations upon it.
type Obj struct {
	epoch uint64
	w, r  uint64
}

// Fresh is true the first time the object is met in an execution.
func (o *Obj) Fresh() bool {
	if o.epoch != epoch {
		o.epoch, o.w, o.r = epoch, 0, 0
		return true
	}
	return false
}

var epoch uint64

type opKind uint8

const (
	opStart opKind = iota
	opObj
	opChan
	opYield
	opSleep
)

type op struct {
	kind  opKind
	name  string
	where string
	obj   *Obj
	addr  unsafe.Pointer // the object is that of an address
	ref   chanRef        // the object is that of a channel
	shut  bool
	write bool
	wait  Waiter
	cases []*chanCase
	dflt  bool
	until time.Duration
	// outcome
	idx  int
	done bool // completed by a partner
	from *chanCase
}

type chanCase struct {
	ch    chanRef
	send  bool
	val   any
	obj   *Obj
	sync  byte // address to synchronise upon
	taken bool
}

type chanRef interface {
	length() int
	capacity() int
	closed() bool
	ptr() unsafe.Pointer
}

// Thread is a goroutine under control.
type Thread struct {
	ID      int
	Name    string
	gate    chan struct{}
	op      op
	hash    uint64
	dead    bool
	killed  bool
	settle  bool
	yielded bool
	low     bool          // runs by default only when nothing else can
	slow    bool          // low, and comes after timers, too, for some time
	till    time.Duration // for how long
	main    bool
	ops     int
}

// Alt is one of the ways in which an execution can go on.
type Alt struct {
	t       *Thread
	idx     int // case
	partner *Thread
	pidx    int
	timer   *timer
}

type timer struct {
	at     time.Duration
	seq    int
	period time.Duration
	fire   func()
	off    bool
	hash   uint64
}

// Chooser decides between the alternatives of a step; costs says what each of
// them costs. Returns -1 to abandon the execution.
type Chooser interface {
	Choose(state uint64, alts []Alt, costs []int) int
}

// Config of an execution.
type Config struct {
	Early   bool // timers may fire while there's something else to do
	Order   int  // who comes first by default: 0 the current, then in turn; 1 the oldest; 2 the newest
	Slow    int  // the number of the goroutine which is slow to run; 0 none
	SlowFor time.Duration
	Steps   int
	Horizon time.Duration
	Trace   bool
}

// Outcome of an execution.
type Outcome struct {
	Steps     int
	Points    int // steps at which there was a choice
	Threads   int
	Abandoned bool
	Stuck     string // the main function doesn't come to an end
	Panic     string // a panic that no one recovers from
	Trace     []string
	Hash      uint64
	Now       time.Duration
	Races     int      // data races which were reported
	Left      []string // goroutines which are still there at the end
}

type Sched struct {
	cfg      Config
	ch       Chooser
	threads  []*Thread
	cur      *Thread
	back     chan struct{}
	now      time.Duration
	timers   []*timer
	tseq     int
	thash    uint64
	chans    table
	keep     []chanRef
	atoms    table
	shut     table
	after    int
	finished chan struct{}
	out      Outcome
	mainEnd  bool
	alts     []Alt
	costs    []int
	killing  bool
}

var s *Sched

// ended orders what goroutines do before what comes after the execution
var ended byte

// cur is the goroutine which may go on.
var cur *Thread

// Active is true during an execution.
func Active() bool { return s != nil && cur != nil && !cur.killed }

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h ^= h >> 30
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 27
	h *= 0x94d049bb133111eb
	h ^= h >> 31
	return h
}

func hashString(x string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(x); i++ {
		h = (h ^ uint64(x[i])) * 1099511628211
	}
	return h
}

// Run executes main under the scheduler.
func Run(cfg Config, ch Chooser, main func()) *Outcome {
	epoch++
	races := Races()
	s = &Sched{cfg: cfg, ch: ch, back: make(chan struct{}, 1), finished: make(chan struct{}, 1)}
	x := s
	t := s.spawn("main", main)
	t.main = true
	syncOff()
	if u := x.decide(); u != nil {
		x.pass(u)
		<-x.finished
	}
	cur = nil
	x.out.Threads = len(x.threads)
	x.out.Hash = x.state()
	x.out.Now = x.now
	for _, t := range x.threads {
		if !t.dead {
			x.out.Left = append(x.out.Left, t.Name+" ["+t.op.name+" "+t.op.where+"]")
		}
	}
	x.out.Races = Races() - races
	x.killing = true
	if Race {
		// what has been done so far comes before what is done on the way out
		for _, t := range x.threads {
			if !t.dead && t.op.kind != opStart {
				t.killed, t.settle = true, true
				x.pass(t)
				<-x.back
			}
		}
	}
	for i := 0; i < len(x.threads); i++ {
		if t := x.threads[i]; !t.dead {
			t.killed = true
			x.pass(t)
			<-x.back
		}
	}
	syncOn()
	acquire(unsafe.Pointer(&ended))
	s, cur = nil, nil
	out := x.out
	return &out
}

// pass control to a goroutine.
func (s *Sched) pass(t *Thread) {
	cur = t
	t.gate <- struct{}{}
}

func (s *Sched) spawn(name string, fn func()) *Thread {
	t := &Thread{ID: len(s.threads), Name: name, gate: make(chan struct{}, 1)}
	t.op = op{kind: opStart, name: "start"}
	if cur != nil {
		cur.ops++
		t.hash = mix(mix(cur.hash, 77), hashString(name))
		cur.hash = mix(cur.hash, 78)
	} else {
		t.hash = hashString(name)
	}
	if s.cfg.Slow > 0 && t.ID == s.cfg.Slow {
		t.low, t.slow, t.till = true, true, s.now+s.cfg.SlowFor
	}
	s.threads = append(s.threads, t)
	go func() {
		syncOff()
		<-t.gate
		syncOn()
		defer s.exit(t)
		if t.killed {
			return
		}
		fn()
		if t.main {
			s.mainEnd = true
		}
	}()
	return t
}

// exit is the end of a goroutine; deferred.
func (s *Sched) exit(t *Thread) {
	if p := recover(); p != nil {
		if !t.killed && s.out.Panic == "" {
			s.out.Panic = fmt.Sprintf("goroutine %s: %v\n%s", t.Name, p, debug.Stack())
		}
	}
	t.dead = true
	release(unsafe.Pointer(&ended))
	syncOff()
	if t.killed {
		s.back <- struct{}{}
	} else {
		cur = nil
		if u := s.decide(); u != nil {
			s.pass(u)
		} else {
			s.finished <- struct{}{}
		}
	}
	syncOn()
}

// point is where the current goroutine stops until it is chosen.
func point(o op) *Thread {
	t := cur
	if t == nil || t.killed {
		return nil
	}
	t.op = o
	syncOff()
	cur = nil
	u := s.decide()
	if u == t {
		cur = t
	} else {
		if u != nil {
			s.pass(u)
		} else {
			s.finished <- struct{}{}
		}
		<-t.gate
	}
	syncOn()
	if t.killed {
		if t.settle {
			t.settle = false
			release(unsafe.Pointer(&ended))
			syncOff()
			s.back <- struct{}{}
			<-t.gate
			syncOn()
			acquire(unsafe.Pointer(&ended))
		}
		runtime.Goexit()
	}
	return t
}

// decide who goes on; nil at the end of the execution.
func (s *Sched) decide() *Thread {
	for {
		if s.out.Panic != "" {
			return nil
		}
		if s.out.Steps >= s.cfg.Steps {
			s.stuck("does not come to an end")
			return nil
		}
		if s.mainEnd {
			// what is left may go on for as long as it can by itself
			if s.after++; s.after > 400 {
				return nil
			}
		}
		s.collect()
		if len(s.alts) == 0 {
			tm := s.earliest()
			if s.mainEnd && (tm == nil || s.now > s.cfg.Horizon) {
				return nil
			}
			if tm == nil {
				s.stuck("deadlock")
				return nil
			}
			if s.now > s.cfg.Horizon {
				s.stuck("does not come to an end (only timers go on)")
				return nil
			}
			s.fire(tm)
			continue
		}
		if a := s.alts[0]; a.t != nil && a.t.slow && !s.mainEnd {
			// nothing but the slow one can go on: the clock does
			if tm := s.earliest(); tm != nil && tm.at <= a.t.till {
				s.fire(tm)
				continue
			}
		}
		i := 0
		if len(s.alts) > 1 && !s.mainEnd {
			s.out.Points++
			i = s.ch.Choose(s.state(), s.alts, s.costs)
			if i < 0 || i >= len(s.alts) {
				s.out.Abandoned = true
				return nil
			}
		}
		a := s.alts[i]
		if a.timer != nil {
			s.fire(a.timer)
			continue
		}
		s.grant(a)
		return a.t
	}
}

func (s *Sched) stuck(why string) {
	if s.mainEnd {
		return
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s after %d steps, at %v:", why, s.out.Steps, s.now)
	for _, t := range s.threads {
		if !t.dead {
			fmt.Fprintf(&b, " %s[%s %s]", t.Name, t.op.name, t.op.where)
		}
	}
	s.out.Stuck = b.String()
}

func (s *Sched) state() uint64 {
	h := s.thash + uint64(s.now)
	for _, t := range s.threads {
		h += mix(t.hash, uint64(3))
	}
	for _, tm := range s.timers {
		if !tm.off {
			h += mix(tm.hash, uint64(tm.at))
		}
	}
	return mix(h, 99)
}

func (s *Sched) earliest() *timer {
	var e *timer
	live := s.timers[:0]
	for _, tm := range s.timers {
		if tm.off {
			continue
		}
		live = append(live, tm)
		if e == nil || tm.at < e.at || (tm.at == e.at && tm.seq < e.seq) {
			e = tm
		}
	}
	s.timers = live
	return e
}

func (s *Sched) fire(tm *timer) {
	if tm.at > s.now {
		s.now = tm.at
	}
	s.out.Steps++
	if s.cfg.Trace {
		s.out.Trace = append(s.out.Trace, fmt.Sprintf("timer %d at %v", tm.seq, s.now))
	}
	if tm.period > 0 {
		tm.at += tm.period
	} else {
		tm.off = true
	}
	s.thash += mix(tm.hash, uint64(s.now))
	tm.fire()
}

// collect finds out how the execution can go on: the default comes first.
func (s *Sched) collect() {
	s.alts = s.alts[:0]
	s.costs = s.costs[:0]
	last := s.cur
	n := len(s.threads)
	start := 0
	if last != nil {
		start = last.ID
	}
	at := func(k int) int {
		switch s.cfg.Order {
		case 1:
			return k
		case 2:
			return n - 1 - k
		}
		return (start + k) % n
	}
	anyYield := false
	for pass := 0; pass < 3; pass++ {
		// those which have given way come after the others; those of low
		// priority last
		if pass == 1 && (!anyYield || len(s.alts) > 0) {
			continue
		}
		for k := 0; k < n; k++ {
			t := s.threads[at(k)]
			if t.dead {
				continue
			}
			switch pass {
			case 0:
				if t.low {
					continue
				}
				if t.yielded {
					anyYield = true
					continue
				}
			case 1:
				if t.low || !t.yielded {
					continue
				}
			case 2:
				if !t.low {
					continue
				}
			}
			s.options(t)
		}
	}
	if s.cfg.Early && len(s.alts) > 0 {
		if tm := s.earliest(); tm != nil {
			s.alts = append(s.alts, Alt{timer: tm})
			s.costs = append(s.costs, 1)
		}
	}
	if len(s.costs) > 0 {
		s.costs[0] = 0
	}
}

func (s *Sched) add(a Alt) {
	s.alts = append(s.alts, a)
	s.costs = append(s.costs, 1)
}

// options are the ways in which a goroutine can go on.
func (s *Sched) options(t *Thread) {
	switch t.op.kind {
	case opStart, opYield:
		s.add(Alt{t: t})
	case opObj:
		if t.op.done || t.op.wait == nil || t.op.wait.Ready() {
			s.add(Alt{t: t})
		}
	case opSleep:
		if s.now >= t.op.until {
			s.add(Alt{t: t})
		}
	case opChan:
		if t.op.done {
			s.add(Alt{t: t, idx: t.op.idx})
			return
		}
		some := false
		for i, c := range t.op.cases {
			if c.ch == nil {
				continue
			}
			if c.send {
				if c.ch.closed() || (c.ch.capacity() > 0 && c.ch.length() < c.ch.capacity()) {
					s.add(Alt{t: t, idx: i})
					some = true
					continue
				}
			} else if c.ch.length() > 0 || c.ch.closed() {
				s.add(Alt{t: t, idx: i})
				some = true
				continue
			}
			if c.ch.capacity() > 0 {
				continue
			}
			for _, u := range s.threads {
				if u == t || u.dead || u.op.kind != opChan || u.op.done || u.op.dflt {
					continue
				}
				for j, d := range u.op.cases {
					if d.ch != nil && d.send != c.send && d.ch.ptr() == c.ch.ptr() {
						s.add(Alt{t: t, idx: i, partner: u, pidx: j})
						some = true
					}
				}
			}
		}
		if !some && t.op.dflt {
			s.add(Alt{t: t, idx: -1})
		}
	}
}

func (s *Sched) touch(t *Thread, o *Obj, write bool, kind uint64) {
	if o == nil {
		t.hash = mix(t.hash, kind)
		return
	}
	o.Fresh()
	if write {
		h := mix(mix(mix(t.hash, o.w), o.r), kind)
		t.hash, o.w, o.r = h, h, 0
	} else {
		h := mix(mix(t.hash, o.w), kind)
		t.hash = h
		o.r += mix(h, 5)
	}
}

func (s *Sched) grant(a Alt) {
	t := a.t
	s.out.Steps++
	t.ops++
	for _, u := range s.threads {
		if u != t {
			u.yielded = false
		}
	}
	o := &t.op
	switch o.kind {
	case opStart:
		s.touch(t, nil, false, 1)
	case opYield:
		t.yielded = true
		s.touch(t, nil, false, 2)
	case opSleep:
		s.touch(t, nil, false, 3)
	case opObj:
		if o.ref != nil {
			o.obj = s.chanObj(o.ref)
			if o.shut {
				s.shut.put(o.ref.ptr(), o.obj)
			}
		} else if o.addr != nil {
			o.obj = s.atomObj(o.addr)
		}
		s.touch(t, o.obj, o.write, hashString(o.name))
	case opChan:
		if o.done {
			break // has happened already
		}
		o.idx = a.idx
		if a.idx < 0 {
			for _, c := range o.cases {
				if c.ch != nil {
					s.touch(t, s.chanObj(c.ch), false, 11)
				}
			}
			s.touch(t, nil, false, 12)
			break
		}
		c := o.cases[a.idx]
		obj := s.chanObj(c.ch)
		if a.partner != nil {
			u := a.partner
			d := u.op.cases[a.pidx]
			h := mix(mix(mix(t.hash+u.hash, obj.w), obj.r), uint64(20+a.idx))
			obj.w, obj.r = h, 0
			t.hash, u.hash = mix(h, uint64(a.idx)), mix(h, uint64(100+a.pidx))
			u.op.idx, u.op.done, u.op.from = a.pidx, true, c
			o.from = d
			if c.send {
				d.val = c.val
			} else {
				c.val = d.val
			}
		} else {
			s.touch(t, obj, true, uint64(30+a.idx))
		}
	}
	if t.op.kind != opYield {
		t.yielded = false
	}
	if s.cfg.Trace {
		s.out.Trace = append(s.out.Trace, fmt.Sprintf("%d:%s %s %s #%d", t.ID, t.Name, o.name, o.where, o.idx))
	}
	s.cur = t
}

func (s *Sched) chanObj(c chanRef) *Obj {
	p := c.ptr()
	o := s.chans.get(p)
	if o == nil {
		o = &Obj{}
		s.chans.put(p, o)
		s.keep = append(s.keep, c) // no other channel gets this address
	}
	return o
}

func (s *Sched) addTimer(d time.Duration, period time.Duration, fire func()) *timer {
	if d < 0 {
		d = 0
	}
	s.tseq++
	tm := &timer{at: s.now + d, seq: s.tseq, period: period, fire: fire}
	if cur != nil {
		tm.hash = mix(cur.hash, 55)
		cur.hash = mix(cur.hash, 56)
	}
	s.timers = append(s.timers, tm)
	return tm
}

// ---- operations

// Op is an operation upon an object: the goroutine stops before it, until it
// is chosen, and w (if any) is ready.
func Op(name string, o *Obj, write bool, w Waiter) {
	if !Active() {
		return
	}
	point(op{kind: opObj, name: name, obj: o, write: write, wait: w})
}

// Atom is an operation upon an address.
func Atom(name string, p unsafe.Pointer, write bool) {
	if !Active() {
		return
	}
	point(op{kind: opObj, name: name, addr: p, write: write})
}

func (s *Sched) atomObj(p unsafe.Pointer) *Obj {
	o := s.atoms.get(p)
	if o == nil {
		o = &Obj{}
		s.atoms.put(p, o)
	}
	return o
}

// Point is a step of its own, by which other goroutines can be preempted.
func Point(name string) {
	if Active() {
		point(op{kind: opObj, name: name})
	}
}

// Acquire, Release tell the race detector of an ordering.
func Acquire(p unsafe.Pointer) { acquire(p) }
func Release(p unsafe.Pointer) { release(p) }

// Synced calls f, in the context of the scheduler, with the race detector aware
// of what it synchronises.
func Synced(f func()) {
	syncOn()
	f()
	syncOff()
}

// Go starts a goroutine.
func Go(where string, fn func()) {
	if !Active() {
		if !idle() {
			go fn()
		}
		return
	}
	s.spawn(where, fn)
}

// GoLow starts a goroutine which by default runs last.
func GoLow(where string, fn func()) {
	if !Active() {
		if !idle() {
			go fn()
		}
		return
	}
	s.spawn(where, fn).low = true
}

// Gosched gives way.
func Gosched() {
	if !Active() {
		if !idle() {
			runtime.Gosched()
		}
		return
	}
	point(op{kind: opYield, name: "gosched"})
}

// Now is the time of the scheduler's clock.
func Now() (time.Duration, bool) {
	if !Active() {
		return 0, false
	}
	cur.hash = mix(cur.hash, uint64(s.now))
	return s.now, true
}

// Sleep until the clock has advanced.
func Sleep(d time.Duration) bool {
	if !Active() {
		return false
	}
	t := cur
	until := s.now + d
	s.addTimer(d, 0, func() {})
	_ = t
	point(op{kind: opSleep, name: "sleep", until: until})
	return true
}

// Timer calls fire when it is due: in the context of the scheduler.
type Timer struct{ t *timer }

// NewTimer makes a timer, nil when no execution is under way.
func NewTimer(d, period time.Duration, fire func()) *Timer {
	if !Active() {
		return nil
	}
	return &Timer{t: s.addTimer(d, period, fire)}
}

// Stop the timer.
func (t *Timer) Stop() bool {
	was := !t.t.off
	t.t.off = true
	if Active() {
		cur.hash = mix(cur.hash, 57)
	}
	return was
}

// table of objects by address. It is a map, but one which the race detector
// doesn't know of.
type table struct {
	keys []unsafe.Pointer
	vals []*Obj
	n    int
}

func (t *table) slot(p unsafe.Pointer) int {
	i := int(mix(uint64(uintptr(p)), 1)) & (len(t.keys) - 1)
	for t.keys[i] != nil && t.keys[i] != p {
		i = (i + 1) & (len(t.keys) - 1)
	}
	return i
}

func (t *table) get(p unsafe.Pointer) *Obj {
	if len(t.keys) == 0 {
		return nil
	}
	return t.vals[t.slot(p)]
}

func (t *table) put(p unsafe.Pointer, o *Obj) {
	if 2*t.n >= len(t.keys) {
		old := *t
		size := max(16, 2*len(old.keys))
		t.keys, t.vals, t.n = make([]unsafe.Pointer, size), make([]*Obj, size), 0
		for i, k := range old.keys {
			if k != nil {
				t.put(k, old.vals[i])
			}
		}
	}
	i := t.slot(p)
	if t.keys[i] == nil {
		t.keys[i] = p
		t.n++
	}
	t.vals[i] = o
}

// Later starts a goroutine from within the scheduler (a timer).
func Later(name string, fn func()) {
	if s != nil && !s.killing {
		s.spawn(name, fn)
	}
}

// Clock in the context of the scheduler.
func Clock() time.Duration {
	if s == nil {
		return 0
	}
	return s.now
}

// Describe an alternative.
func (a Alt) Describe() string {
	if a.timer != nil {
		return "timer"
	}
	return fmt.Sprintf("%d:%s %s", a.t.ID, a.t.Name, a.t.op.name)
}

// Cur is an identity of the goroutine of an alternative.
func (a Alt) Cur() uint64 {
	if a.t == nil {
		return 7
	}
	return a.t.hash
}

var _ = sort.Ints
