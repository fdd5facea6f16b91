package main

import "strings"

// shape is an ordered forest; kids == nil means file.
type shape struct {
	dir  bool
	kids []shape
}

var forestMemo = map[int][][]shape{}

// forests enumerates every ordered forest of exactly k nodes in which every
// node is a file or a (possibly empty) directory: 1, 2, 6, 22, 90, 394, 1806.
func forests(k int) [][]shape {
	if k == 0 {
		return [][]shape{nil}
	}
	if f, ok := forestMemo[k]; ok {
		return f
	}
	var out [][]shape
	for _, rest := range forests(k - 1) {
		out = append(out, append([]shape{{}}, rest...))
	}
	for j := 0; j < k; j++ {
		for _, in := range forests(j) {
			for _, rest := range forests(k - 1 - j) {
				out = append(out, append([]shape{{dir: true, kids: in}}, rest...))
			}
		}
	}
	forestMemo[k] = out
	return out
}

func forestsUpTo(k int) [][]shape {
	var out [][]shape
	for i := 0; i <= k; i++ {
		out = append(out, forests(i)...)
	}
	return out
}

// A naming gives the names of the siblings of one directory, by position.
type naming struct {
	id    string
	files []string
	dirs  []string
}

var namings = map[string]naming{
	// siblings are declared out of order, in mixed case, with two extensions
	"mix": {"mix", []string{"c.txt", "A.log", "b.txt", "D.log", "e.TXT", "B2.log", "a0.txt"},
		[]string{"m", "K", "l", "N", "j", "O", "i"}},
	// the same letters for files and directories, descending
	"desc": {"desc", []string{"g.b", "f.a", "e.b", "d.a", "c.b", "b.a", "a.b"},
		[]string{"g", "f", "e", "d", "c", "b", "a"}},
	// the name of the tree further down, names which are prefixes of others
	"echo": {"echo", []string{"z.b", "root.a", "roo.t", "zz.", "A.b", "a.z", "Zz"},
		[]string{"root", "z", "A", "zz", "roo", "b", "Y"}},
	// names which only differ in case
	"case": {"case", []string{"a.x", "A.x", "b.x", "B.x", "c.x", "C.x", "d.x"},
		[]string{"a", "A", "b", "B", "c", "C", "d"}},
	// outside ASCII, with dots, spaces and no extension
	"uni": {"uni", []string{"été.txt", "a b.log", ".hid", "日本.txt", "ÀÉ", "x.y.z", "ß"},
		[]string{"ünï", "dir.d", "日本", ".git", "A b", "root", "ÿ"}},
}

// entries turns a forest into the declaration of a tree.
func entries(f []shape, nm naming) []string {
	var out []string
	var walk func(prefix string, f []shape)
	walk = func(prefix string, f []shape) {
		for i, s := range f {
			if s.dir {
				p := prefix + nm.dirs[i%len(nm.dirs)]
				out = append(out, p+"/")
				walk(p+"/", s.kids)
			} else {
				out = append(out, prefix+nm.files[i%len(nm.files)])
			}
		}
	}
	walk("", f)
	return out
}

func curated() map[string][]string {
	wide := []string{}
	for _, n := range strings.Fields("p O n M l K j I h G f E d C b A") {
		wide = append(wide, n+".txt", n+"d/", n+"d/"+n+".log")
	}
	deep := []string{}
	p := ""
	for _, n := range strings.Fields("d1 d2 d3 d4 d5 d6") {
		p += n + "/"
		deep = append(deep, p, p+"x.txt", p+"B.log")
	}
	return map[string][]string{
		"wide":  wide,
		"deep":  deep,
		"ds":    {".DS_Store", "a/", "a/.DS_Store", "a/.ds_store", "a/x.txt", "b/", "b/.DS_Store", "b/c/"},
		"same":  {"root/", "root/root/", "root/root/root", "root/x.txt", "x.txt"},
		"bush":  {"C/", "C/z.txt", "C/y/", "C/y/q.log", "C/y/p.txt", "a.txt", "B/", "B/b.log", "B/A/", "B/A/c.txt", "D/", "E.log", "d2/", "d2/e/", "d2/e/f/", "d2/e/f/g.txt"},
		"mixed": {"zz.txt", "Sub/", "Sub/Deep/", "Sub/Deep/k.log", "Sub/Deep/K2.txt", "Sub/a.txt", "aa/", "aa/m.txt", "aa/N.log", "MM.log", "aa/bb/", "aa/bb/cc/", "aa/bb/cc/dd.txt"},
	}
}

func sortedKeys[T any](m map[string]T) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}
