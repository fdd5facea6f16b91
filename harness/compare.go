package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
)

// view selects what of a trace a property talks about.
type view struct {
	kinds   string // event kinds which are compared, in order
	meta    bool   // compare the whole node snapshot, not just path and kind
	kids    bool
	metrics string // names of the metrics which are compared
	text    bool
}

func (v view) ev(e Ev) Ev {
	o := Ev{K: e.K, P: e.P, L: e.L}
	// the contents handed to the skip handler are compared as sets
	e.Files, e.Dirs = sorted(e.Files), sorted(e.Dirs)
	switch e.K {
	case "invoke":
		o.Dir = e.Dir
		if v.meta {
			o = e
			o.Kids = nil
		}
		if v.kids {
			o.Kids = e.Kids
		}
	case "ask":
		o.Err = e.Err
		o.Files, o.Dirs = e.Files, e.Dirs
	case "fault":
		o.Err = e.Err
	case "end":
		o.P = ""
	}
	return o
}

func (v view) of(t *Trace) []Ev {
	out := []Ev{}
	for _, e := range t.Ev {
		if strings.Contains(" "+v.kinds+" ", " "+e.K+" ") {
			out = append(out, v.ev(e))
		}
	}
	return out
}

func evs(e []Ev) string {
	b, _ := json.Marshal(e)
	return string(b)
}

// diff explains the first difference between what the model allows and what
// the implementation did; "" if there is none.
func diff(v view, want, got *Trace) string {
	if s := abnormal(got); s != "" {
		return s
	}
	a, b := v.of(want), v.of(got)
	for i := 0; i < len(a) || i < len(b); i++ {
		var x, y *Ev
		if i < len(a) {
			x = &a[i]
		}
		if i < len(b) {
			y = &b[i]
		}
		if x == nil || y == nil || !reflect.DeepEqual(norm(*x), norm(*y)) {
			jx, _ := json.Marshal(x)
			jy, _ := json.Marshal(y)
			return fmt.Sprintf("event %d: expected %s, got %s", i, jx, jy)
		}
	}
	if want.Err != got.Err {
		return fmt.Sprintf("error: expected %q, got %q (%s)", want.Err, got.Err, got.ErrText)
	}
	for _, k := range strings.Fields(v.metrics) {
		if want.Metrics[k] != got.Metrics[k] {
			return fmt.Sprintf("metric %s: expected %d, got %d", k, want.Metrics[k], got.Metrics[k])
		}
	}
	return ""
}

func sorted(x []string) []string {
	y := append([]string(nil), x...)
	sort.Strings(y)
	return y
}

func norm(e Ev) Ev {
	if len(e.Kids) == 0 {
		e.Kids = nil
	}
	if len(e.Files) == 0 {
		e.Files = nil
	}
	if len(e.Dirs) == 0 {
		e.Dirs = nil
	}
	return e
}

func abnormal(got *Trace) string {
	switch {
	case got.Runaway:
		return "the traversal does not come to an end"
	case got.Panic != "":
		return "panic escapes to the caller: " + got.Panic
	case !got.Done:
		return "the traversal did not return"
	}
	return ""
}
