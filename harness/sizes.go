package main

import "fmt"

// Trees of every size up to a bound, one directory which grows and a chain of
// directories which grows: what goes wrong beyond some size or depth.

func both(gs ...func(bool, yield)) func(bool, yield) {
	return func(th bool, fn yield) {
		stop := false
		for _, g := range gs {
			g(th, func(c *Case) bool {
				if !fn(c) {
					stop = true
				}
				return !stop
			})
			if stop {
				return
			}
		}
	}
}

// broad is a directory of n entries, declared out of order: files, directories,
// both, or directories with something in them.
func broad(n int, kind string) []string {
	var es []string
	for i := 0; i < n; i++ {
		k := (i*37 + 11) % 211
		name := fmt.Sprintf("%c%03d", "nN"[k%2], k)
		switch {
		case kind == "files" || kind == "mixed" && i%2 == 0:
			es = append(es, name+".txt")
		case kind == "full":
			es = append(es, name+"/", name+"/x.txt")
		default:
			es = append(es, name+"/")
		}
	}
	return es
}

// chain is n directories, one in the other, with a file and an empty directory
// at either side of every one of them when dressed.
func chain(n int, dressed bool) []string {
	var es []string
	p := ""
	for i := 0; i < n; i++ {
		if dressed {
			es = append(es, p+"z.txt", p+"y/", p+"b/", p+"A.txt")
		}
		p += fmt.Sprintf("m%d/", i%3)
		es = append(es, p)
	}
	return append(es, p+"end.txt")
}

var flatKinds = []string{"files", "dirs", "mixed", "full"}

// sized yields all of them, with what the size is.
func sized(wide, deep int, fn func(es []string, n int, isChain bool) bool) bool {
	for n := 1; n <= wide; n++ {
		for _, k := range flatKinds {
			if !fn(broad(n, k), n, false) {
				return false
			}
		}
	}
	for n := 1; n <= deep; n++ {
		for _, dressed := range []bool{false, true} {
			if !fn(chain(n, dressed), n, true) {
				return false
			}
		}
	}
	return true
}

func sizesVisit(th bool, fn yield) {
	sized(pick(th, 70, 210), pick(th, 40, 130), func(es []string, n int, _ bool) bool {
		for _, s := range allSubs {
			for _, ff := range []bool{false, true} {
				if !fn(&Case{Entries: es, Sub: s, FilesFirst: ff, CSSort: n%2 == 1}) {
					return false
				}
			}
		}
		return true
	})
}

// every depth limit, up to and beyond the depth of the tree
func sizesDepth(th bool, fn yield) {
	for n := 1; n <= pick(th, 24, 70); n++ {
		for _, dressed := range []bool{false, true} {
			es := chain(n, dressed)
			for _, s := range allSubs {
				for d := uint(1); d <= uint(n)+3; d++ {
					if !fn(&Case{Entries: es, Sub: s, Depth: d}) {
						return
					}
				}
			}
		}
	}
}

// limits where a number may be cut short
func extremeDepth(th bool, fn yield) {
	limits := []uint{}
	for _, k := range []uint{7, 8, 15, 16, 31, 32, 63} {
		limits = append(limits, 1<<k-1, 1<<k, 1<<k+1)
	}
	limits = append(limits, 1<<64-2, 1<<64-1)
	for _, es := range [][]string{{}, {"f"}, chain(3, true), chain(9, false)} {
		for _, s := range allSubs {
			for _, d := range limits {
				for _, nr := range []bool{false, true} {
					if !fn(&Case{Entries: es, Sub: s, Depth: d, NoRecurse: nr}) {
						return
					}
				}
			}
		}
	}
	es := chain(pick(th, 300, 600), false)
	for _, s := range allSubs {
		for d := 125; d < len(es)+2; d++ {
			if !th && d > 130 && d < 253 || d > 258 && d < 298 || d > 302 && d < 510 || d > 515 && d < 598 {
				continue
			}
			if !fn(&Case{Entries: es, Sub: s, Depth: uint(d)}) {
				return
			}
		}
	}
}

func sizesMeta(th bool, fn yield) {
	for n := 1; n <= pick(th, 40, 130); n++ {
		for i, r := range roots {
			for _, s := range allSubs {
				if !fn(&Case{Entries: chain(n, i%2 == 0), Sub: s, Root: r.root, Abs: r.abs, DropSep: n%2 == 0}) {
					return
				}
			}
		}
	}
}

// every quantity, up to and beyond what there is
func sizesSample(th bool, fn yield) {
	for n := 1; n <= pick(th, 14, 40); n++ {
		for _, k := range flatKinds {
			es := broad(n, k)
			for _, s := range allSubs {
				for q := uint(1); q <= uint(n)+2; q++ {
					for _, rev := range []bool{false, true} {
						if !fn(&Case{Entries: es, Sub: s, Samp: &Quant{q, 0, rev}}) ||
							!fn(&Case{Entries: es, Sub: s, Samp: &Quant{0, q, rev}}) ||
							!fn(&Case{Entries: es, Sub: s, Samp: &Quant{q, uint(n)/2 + 1, rev}}) {
							return
						}
					}
				}
			}
		}
	}
}

// one deviation, wherever it is
func sizesSkip(th bool, fn yield) {
	sized(pick(th, 14, 40), pick(th, 9, 25), func(es []string, _ int, _ bool) bool {
		for _, p := range (&Case{Entries: es}).paths() {
			for _, s := range allSubs {
				for _, do := range []string{"err", "dir", "all"} {
					c := &Case{Entries: es, Sub: s, CB: []Act{{p, do}}}
					if !ambiguousSkip(c) && !fn(c) {
						return false
					}
				}
			}
		}
		return true
	})
}

func sizesFault(th bool, fn yield) {
	sized(pick(th, 14, 40), pick(th, 12, 30), func(es []string, _ int, _ bool) bool {
		for _, p := range (&Case{Entries: es}).dirs() {
			for _, s := range allSubs {
				for _, ask := range []bool{false, true} {
					if !fn(&Case{Entries: es, Sub: s, ReadErr: []string{p}, Asker: ask}) {
						return false
					}
				}
			}
		}
		return true
	})
}

// interrupted at every node
func sizesPanic(th bool, fn yield) {
	sized(pick(th, 12, 40), pick(th, 10, 25), func(es []string, _ int, _ bool) bool {
		for _, s := range allSubs {
			c := Case{Entries: es, Sub: s}
			for _, p := range Model(&c).invoked() {
				x := c
				x.CB = []Act{{p, "panic"}}
				if !fn(&x) {
					return false
				}
			}
		}
		return true
	})
}

// interrupted at every node, and resumed
func sizesResume(strat string) func(bool, yield) {
	return func(th bool, fn yield) {
		sized(pick(th, 10, 30), pick(th, 8, 20), func(es []string, n int, isChain bool) bool {
			for _, s := range allSubs {
				for _, set := range []func(*Case){
					func(*Case) {}, func(c *Case) { c.FilesFirst = true }, func(c *Case) { c.Samp = &Quant{2, 2, n%2 == 0} },
					func(c *Case) { c.Depth = uint(n) },
				} {
					c := Case{Entries: es, Sub: s}
					set(&c)
					for _, p := range Model(&c).invoked() {
						x := c
						x.CB = []Act{{p, "panic"}}
						x.Legs = []Leg{{Strat: strat}}
						if !fn(&x) {
							return false
						}
					}
				}
			}
			return true
		})
	}
}
