package main

import (
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/snivilised/agenor/core"
	nef "github.com/snivilised/nefilim"
)

// memFS is a small in-memory file system that implements the traversal file
// system interface the library asks its clients for. Directory entries come
// back in exactly the order in which they were declared (fs.ReadDir sorts for
// plain fs.FS only), so that "the order of the file system" is under the
// control of the enumeration. Every operation can be made to fail.
type memFS struct {
	mu       sync.Mutex
	rel      bool
	root     string
	nodes    map[string]*memNode
	readErr  map[string]bool // ReadDir of this path fails
	partial  map[string]int  // ReadDir of this path returns so many entries and an error
	infoErr  map[string]bool // DirEntry.Info of this path fails
	statErr  map[string]bool
	onRead   func(string)
	reads    []string // log of ReadDir calls
	stats    []string
	infos    []string // log of DirEntry.Info calls
	writes   map[string][]byte
	mkdirs   []string
	writeErr bool
	mkErr    bool
	noSaves  bool     // there is nowhere to save to
	stray    []string // what must only be done to the file system that states are saved to
}

// memAside is the file system that the states are saved to. It is not the one
// that is navigated, nor of its kind, and has nothing in it but what is saved.
type memAside struct {
	*memFS
	of *memFS
}

// forest of a tree which is kept apart from what is saved.
func (m *memFS) forest() *core.Forest {
	if m.noSaves {
		return &core.Forest{T: m}
	}
	return &core.Forest{T: m, R: &memAside{newMemFS("aside", nil, false, !m.rel), m}}
}

func (a *memAside) FileExists(name string) bool {
	a.of.mu.Lock()
	defer a.of.mu.Unlock()
	_, ok := a.of.writes[name]
	return ok
}

func (a *memAside) MakeDir(name string, _ os.FileMode) error { return a.MakeDirAll(name, 0) }

func (a *memAside) MakeDirAll(name string, _ os.FileMode) error {
	if a.of.mkErr {
		return errInjected
	}
	a.of.mu.Lock()
	defer a.of.mu.Unlock()
	a.of.mkdirs = append(a.of.mkdirs, name)
	return nil
}

func (a *memAside) WriteFile(name string, data []byte, _ os.FileMode) error {
	a.of.mu.Lock()
	defer a.of.mu.Unlock()
	if a.of.writeErr {
		return &fs.PathError{Op: "write", Path: name, Err: errInjected}
	}
	a.of.writes[name] = append([]byte(nil), data...)
	return nil
}

func (a *memAside) ReadFile(name string) ([]byte, error) {
	a.of.mu.Lock()
	defer a.of.mu.Unlock()
	if b, ok := a.of.writes[name]; ok {
		return b, nil
	}
	return nil, &fs.PathError{Op: "read", Path: name, Err: fs.ErrNotExist}
}

type memNode struct {
	path string
	name string
	dir  bool
	kids []*memNode
	size int64
}

var errInjected = fmt.Errorf("injected fault")

func newMemFS(root string, entries []string, rootFile bool, rel bool) *memFS {
	m := &memFS{
		rel: rel, root: root, nodes: map[string]*memNode{},
		readErr: map[string]bool{}, infoErr: map[string]bool{}, statErr: map[string]bool{},
		partial: map[string]int{}, writes: map[string][]byte{},
	}
	m.nodes[root] = &memNode{path: root, name: path.Base(root), dir: !rootFile}
	for _, e := range entries {
		m.add(e)
	}
	return m
}

func (m *memFS) add(e string) {
	dir := strings.HasSuffix(e, "/")
	e = strings.TrimSuffix(e, "/")
	parent := m.root
	segs := strings.Split(e, "/")
	for i, s := range segs {
		p := path.Join(parent, s)
		if m.nodes[p] == nil {
			n := &memNode{path: p, name: s, dir: dir || i < len(segs)-1, size: int64(len(p))}
			m.nodes[p] = n
			pn := m.nodes[parent]
			pn.kids = append(pn.kids, n)
		}
		parent = p
	}
}

// change alters the tree: "rm PATH" removes something and all it contains,
// "file PATH" and "dir PATH" make something new, last in its directory, in
// place of what there was. Nothing happens when there is no such directory.
func (m *memFS) change(do string) {
	if do == "" {
		return
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, d := range strings.Split(do, ";") {
		verb, p, _ := strings.Cut(d, " ")
		parent := m.nodes[path.Dir(p)]
		if p == m.root {
			parent = nil
		}
		if verb != "rm" && (parent == nil || !parent.dir) {
			continue
		}
		for q := range m.nodes {
			if q == p || strings.HasPrefix(q, p+"/") {
				delete(m.nodes, q)
			}
		}
		if parent != nil {
			kids := make([]*memNode, 0, len(parent.kids))
			for _, k := range parent.kids {
				if k.path != p {
					kids = append(kids, k)
				}
			}
			parent.kids = kids
		}
		if verb != "rm" {
			n := &memNode{path: p, name: path.Base(p), dir: verb == "dir", size: int64(len(p))}
			m.nodes[p] = n
			parent.kids = append(parent.kids, n)
		}
	}
}

type memInfo struct{ n *memNode }

func (i memInfo) Name() string { return i.n.name }
func (i memInfo) Size() int64  { return i.n.size }
func (i memInfo) Mode() fs.FileMode {
	if i.n.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}
func (i memInfo) ModTime() time.Time { return time.Unix(1700000000, 0) }
func (i memInfo) IsDir() bool        { return i.n.dir }
func (i memInfo) Sys() any           { return i.n.path }

type memEntry struct {
	m *memFS
	n *memNode
}

func (e memEntry) Name() string { return e.n.name }
func (e memEntry) IsDir() bool  { return e.n.dir }
func (e memEntry) Type() fs.FileMode {
	return memInfo{e.n}.Mode().Type()
}
func (e memEntry) Info() (fs.FileInfo, error) {
	e.m.mu.Lock()
	defer e.m.mu.Unlock()
	e.m.infos = append(e.m.infos, e.n.path)
	if e.m.infoErr[e.n.path] {
		return nil, &fs.PathError{Op: "info", Path: e.n.path, Err: errInjected}
	}
	n := e.m.nodes[e.n.path]
	if n == nil {
		return nil, &fs.PathError{Op: "lstat", Path: e.n.path, Err: fs.ErrNotExist}
	}
	return memInfo{n}, nil
}

type memFile struct{ n *memNode }

func (f *memFile) Stat() (fs.FileInfo, error) { return memInfo{f.n}, nil }
func (f *memFile) Read([]byte) (int, error)   { return 0, io.EOF }
func (f *memFile) Close() error               { return nil }

func (m *memFS) Calc() nef.PathCalc {
	if m.rel {
		return &nef.RelativeCalc{Root: m.root}
	}
	return &nef.AbsoluteCalc{}
}
func (m *memFS) IsRelative() bool { return m.rel }

func (m *memFS) FileExists(name string) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	n := m.nodes[name]
	return n != nil && !n.dir
}
func (m *memFS) DirectoryExists(name string) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	n := m.nodes[name]
	return n != nil && n.dir
}
func (m *memFS) MakeDir(name string, _ os.FileMode) error { return m.MakeDirAll(name, 0) }
func (m *memFS) MakeDirAll(name string, _ os.FileMode) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.stray = append(m.stray, "the tree: mkdir "+name)
	return nil
}
func (m *memFS) Ensure(as nef.PathAs) (string, error) { return as.Default, nil }

func (m *memFS) Open(name string) (fs.File, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	n := m.nodes[name]
	if n == nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	return &memFile{n}, nil
}

func (m *memFS) Stat(name string) (fs.FileInfo, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.stats = append(m.stats, name)
	if m.statErr[name] {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: errInjected}
	}
	n := m.nodes[name]
	if n == nil {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: fs.ErrNotExist}
	}
	return memInfo{n}, nil
}

func (m *memFS) ReadDir(name string) ([]fs.DirEntry, error) {
	if m.onRead != nil {
		m.onRead(name)
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	m.reads = append(m.reads, name)
	if m.readErr[name] {
		return nil, &fs.PathError{Op: "readdir", Path: name, Err: errInjected}
	}
	n := m.nodes[name]
	if n == nil {
		return nil, &fs.PathError{Op: "readdir", Path: name, Err: fs.ErrNotExist}
	}
	if !n.dir {
		return nil, &fs.PathError{Op: "readdir", Path: name, Err: fmt.Errorf("not a directory")}
	}
	out := make([]fs.DirEntry, 0, len(n.kids))
	for _, k := range n.kids {
		out = append(out, memEntry{m, k})
	}
	if c, ok := m.partial[name]; ok {
		if c < len(out) {
			out = out[:c]
		}
		return out, &fs.PathError{Op: "readdir", Path: name, Err: errInjected}
	}
	return out, nil
}

func (m *memFS) ReadFile(name string) ([]byte, error) {
	return nil, &fs.PathError{Op: "read", Path: name, Err: fs.ErrNotExist}
}
func (m *memFS) Create(name string) (fs.File, error) {
	return nil, &fs.PathError{Op: "create", Path: name, Err: fs.ErrPermission}
}
func (m *memFS) WriteFile(name string, _ []byte, _ os.FileMode) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.stray = append(m.stray, "the tree: write "+name)
	return nil
}

func (m *memFS) written() []string {
	out := append([]string{}, m.stray...)
	for k := range m.writes {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
