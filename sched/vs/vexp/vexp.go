// Package vexp enumerates the schedules of a program depth first.
package vexp

import "verif/vs"

// Explorer enumerates the schedules with at most Bound deviations from the
// default one. An execution which arrives in a state (the happens-before
// history of every goroutine) from which all of that has been explored already,
// is abandoned.
type Explorer struct {
	Bound   int
	Prune   bool
	Fixed   []int // replay of these choices
	Replay  bool
	stack   []choice
	at      int
	spent   int
	visited set
	Diverge int
}

type choice struct{ n, cur, spent int }

const setCap = 8 << 20

// set of states, with how much was left to explore from each.
type set struct {
	keys []uint64
	left []int8
	n    int
}

func (t *set) slot(k uint64) int {
	m := len(t.keys) - 1
	i := int(k*0x9e3779b97f4a7c15>>20) & m
	for t.keys[i] != 0 && t.keys[i] != k {
		i = (i + 1) & m
	}
	return i
}

// visit says whether there's anything new.
func (t *set) visit(k uint64, left int) bool {
	if k == 0 {
		k = 1
	}
	if 2*t.n >= len(t.keys) {
		if t.n >= setCap {
			i := t.slot(k)
			return !(t.keys[i] == k && int(t.left[i]) >= left)
		}
		old := *t
		size := max(1024, 2*len(old.keys))
		t.keys, t.left = make([]uint64, size), make([]int8, size)
		for i, x := range old.keys {
			if x != 0 {
				j := t.slot(x)
				t.keys[j], t.left[j] = x, old.left[i]
			}
		}
	}
	i := t.slot(k)
	if t.keys[i] == 0 {
		t.keys[i] = k
		t.n++
	} else if int(t.left[i]) >= left {
		return false
	}
	t.left[i] = int8(left)
	return true
}

// States which were met.
func (e *Explorer) States() int { return e.visited.n }

// Choose is for the scheduler.
func (e *Explorer) Choose(state uint64, alts []vs.Alt, costs []int) int {
	d := e.at
	e.at++
	if e.Replay {
		if d < len(e.Fixed) {
			return e.Fixed[d]
		}
		return 0
	}
	if d < len(e.stack) {
		c := e.stack[d]
		if c.cur >= len(alts) {
			e.Diverge++
			return -1
		}
		e.spent = c.spent
		if c.cur > 0 {
			e.spent++
		}
		return c.cur
	}
	left := e.Bound - e.spent
	if e.Prune && !e.visited.visit(state^(alts[0].Cur()*0x9e3779b97f4a7c15), left) {
		return -1
	}
	n := len(alts)
	if left <= 0 {
		n = 1
	}
	e.stack = append(e.stack, choice{n: n, spent: e.spent})
	return 0
}

// Begin an execution.
func (e *Explorer) Begin() { e.at, e.spent = 0, 0 }

// Next schedule; false when there is none.
func (e *Explorer) Next() bool {
	for len(e.stack) > 0 {
		t := &e.stack[len(e.stack)-1]
		if t.cur+1 < t.n {
			t.cur++
			return true
		}
		e.stack = e.stack[:len(e.stack)-1]
	}
	return false
}

// Choices of the execution at hand.
func (e *Explorer) Choices() []int {
	c := []int{}
	for _, s := range e.stack {
		c = append(c, s.cur)
	}
	for len(c) > 0 && c[len(c)-1] == 0 {
		c = c[:len(c)-1]
	}
	return c
}
