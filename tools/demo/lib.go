package main

import (
	"context"
	"fmt"
	"os"
	"reflect"
	"strings"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/li18ngo"
)

var _ = li18ngo.Use()

// tree makes an in-memory file system; entries that end in / are directories.
func tree(root string, entries ...string) *memFS {
	return newMemFS(root, entries, false, !strings.HasPrefix(root, "/"))
}

// walk navigates the tree, and returns what the client was invoked with.
func walk(m *memFS, sub enums.Subscription, fn func(*core.Node) error, opts ...pref.Option) (seen []string, res core.TraverseResult, err error) {
	res, err = age.Walk().Configure().Extent(age.Prime(
		&pref.Using{
			Head: pref.Head{
				Handler: func(s age.Servant) error {
					seen = append(seen, s.Node().Path)
					if fn != nil {
						return fn(s.Node())
					}
					return nil
				},
				GetForest: func(string) *core.Forest { return m.forest() },
			},
			Subscription: sub,
			Tree:         m.root,
		}, opts...,
	)).Navigate(context.Background())
	return
}

func expect(what string, got, want any) {
	if !reflect.DeepEqual(got, want) {
		fmt.Printf("%s: got %v, want %v\n", what, got, want)
		os.Exit(1)
	}
}

func list(s ...string) []string { return s }

// resume carries on from what an interrupted navigation of a tree like m saved.
func resume(m *memFS, saved []byte, strategy enums.ResumeStrategy, fn func(*core.Node) error, opts ...pref.Option) (seen []string, res core.TraverseResult, err error) {
	dir, derr := os.MkdirTemp("", "demo")
	if derr != nil {
		panic(derr)
	}
	defer os.RemoveAll(dir)
	from := dir + "/saved.json"
	if err := os.WriteFile(from, saved, 0o600); err != nil {
		panic(err)
	}
	res, err = age.Walk().Configure().Extent(age.Resume(
		&pref.Relic{
			Head: pref.Head{
				Handler: func(s age.Servant) error {
					seen = append(seen, s.Node().Path)
					if fn != nil {
						return fn(s.Node())
					}
					return nil
				},
				GetForest: func(string) *core.Forest { return m.forest() },
			},
			From:     from,
			Strategy: strategy,
		}, append([]pref.Option{pref.WithAdminPath("/admin")}, opts...)...,
	)).Navigate(context.Background())
	return
}

// saved is the one file which was written.
func saved(m *memFS) []byte {
	for _, b := range m.writes {
		return b
	}
	return nil
}

func panicAt(path string) func(*core.Node) error {
	return func(n *core.Node) error {
		if n.Path == path {
			panic("client panic")
		}
		return nil
	}
}
