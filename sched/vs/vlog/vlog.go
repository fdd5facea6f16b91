// Package vlog records what happens, without ordering anything.
package vlog

// Entry of a log.
type Entry struct {
	Kind, Key, Text string
	Err             error
}

// Log of an execution.
type Log struct {
	Es           []Entry
	Flying, Peak int
	Over         bool // the client has gone
}

// Add an entry.
func (l *Log) Add(kind, key, text string, err error) {
	l.Es = append(l.Es, Entry{kind, key, text, err})
}

// Enter a callback; false if it's too late.
func (l *Log) Enter() bool {
	l.Flying++
	if l.Flying > l.Peak {
		l.Peak = l.Flying
	}
	return !l.Over
}

// Leave a callback.
func (l *Log) Leave() { l.Flying-- }

// End: the client has waited; the number of callbacks still under way.
func (l *Log) End() int {
	l.Over = true
	return l.Flying
}

// IsOver says whether the client has gone.
func (l *Log) IsOver() bool { return l.Over }
