package vs

import (
	"context"
	"time"
	"unsafe"
)

type chanOf[T any] struct{ ch chan T }

func (c chanOf[T]) length() int   { return len(c.ch) }
func (c chanOf[T]) capacity() int { return cap(c.ch) }
func (c chanOf[T]) ptr() unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&c.ch))
}

// closed: no one ever waits upon the channel proper, so that what can be
// received from it without there being anything in it, is that it's closed.
func (c chanOf[T]) closed() bool {
	if len(c.ch) > 0 {
		return isClosed(c.ptr())
	}
	select {
	case _, ok := <-c.ch:
		return !ok
	default:
		return false
	}
}

func isClosed(p unsafe.Pointer) bool {
	if s == nil {
		return false
	}
	return s.shut.get(p) != nil
}

func both[T any](ch <-chan T) chan T { return *(*chan T)(unsafe.Pointer(&ch)) }

func sends[T any](ch chan<- T) chan T { return *(*chan T)(unsafe.Pointer(&ch)) }

func ref[T any](ch chan T) chanRef {
	if ch == nil {
		return nil
	}
	return chanOf[T]{ch}
}

// Send is ch <- v.
func Send[T any](where string, ch chan<- T) func(T) {
	return func(v T) {
		c := sends(ch)
		if !Active() {
			if idle() {
				return
			}
			c <- v
			return
		}
		k := &chanCase{ch: ref(c), send: true, val: v}
		sendOne(where, k)
		if k.taken {
			return
		}
		c <- v
	}
}

func idle() bool { return s != nil && cur != nil && cur.killed }

// Idle is true in a goroutine which is being got rid of.
func Idle() bool { return idle() }

func sendOne(where string, k *chanCase) {
	release(unsafe.Pointer(&k.sync))
	t := point(op{kind: opChan, name: "send", where: where, cases: []*chanCase{k}})
	k.taken = t != nil && t.op.from != nil
	if k.taken {
		acquire(unsafe.Pointer(&t.op.from.sync))
	}
}

func recvOne(where string, k *chanCase) {
	release(unsafe.Pointer(&k.sync))
	t := point(op{kind: opChan, name: "recv", where: where, cases: []*chanCase{k}})
	k.taken = t != nil && t.op.from != nil
	if k.taken {
		acquire(unsafe.Pointer(&t.op.from.sync))
	}
}

// Recv is <-ch.
func Recv[T any](where string, ch <-chan T) T {
	v, _ := Recv2(where, ch)
	return v
}

// Recv2 is the receive of which both values are used.
func Recv2[T any](where string, ch <-chan T) (T, bool) {
	c := both(ch)
	var zero T
	if !Active() {
		if idle() {
			return zero, false
		}
		v, ok := <-c
		return v, ok
	}
	k := &chanCase{ch: ref(c)}
	recvOne(where, k)
	if k.taken {
		v, _ := k.val.(T)
		return v, true
	}
	v, ok := <-c
	return v, ok
}

// SelCase is a case of a select statement.
type SelCase interface {
	the() *chanCase
	try() bool
	complete()
}

// RecvSel is a receive.
type RecvSel[T any] struct {
	k  chanCase
	c  chan T
	V  T
	OK bool
}

func (r *RecvSel[T]) the() *chanCase { return &r.k }
func (r *RecvSel[T]) complete() {
	if r.k.taken {
		r.V, _ = r.k.val.(T)
		r.OK = true
		return
	}
	r.V, r.OK = <-r.c
}

func (r *RecvSel[T]) try() bool {
	select {
	case r.V, r.OK = <-r.c:
		return true
	default:
		return false
	}
}

// RecvCase makes a receive case.
func RecvCase[T any](ch <-chan T) *RecvSel[T] {
	c := both(ch)
	return &RecvSel[T]{c: c, k: chanCase{ch: ref(c)}}
}

// SendSel is a send.
type SendSel[T any] struct {
	k chanCase
	c chan T
	v T
}

func (r *SendSel[T]) the() *chanCase { return &r.k }
func (r *SendSel[T]) complete() {
	if !r.k.taken {
		r.c <- r.v
	}
}

func (r *SendSel[T]) try() bool {
	select {
	case r.c <- r.v:
		return true
	default:
		return false
	}
}

// SendCase makes a send case.
func SendCase[T any](ch chan<- T) func(T) *SendSel[T] {
	c := sends(ch)
	return func(v T) *SendSel[T] {
		return &SendSel[T]{c: c, v: v, k: chanCase{ch: ref(c), send: true, val: v}}
	}
}

// Select is the select statement: the index of the case, -1 for the default.
func Select(where string, dflt bool, cs ...SelCase) int {
	if !Active() {
		if idle() {
			if dflt {
				return -1
			}
			// on the way out: the first that can be, or else the last
			return len(cs) - 1
		}
		return realSelect(dflt, cs)
	}
	cases := make([]*chanCase, len(cs))
	for i, c := range cs {
		cases[i] = c.the()
		release(unsafe.Pointer(&cases[i].sync))
	}
	t := point(op{kind: opChan, name: "select", where: where, cases: cases, dflt: dflt})
	i := t.op.idx
	if i < 0 {
		return -1
	}
	if f := t.op.from; f != nil {
		cases[i].taken = true
		acquire(unsafe.Pointer(&f.sync))
	}
	cs[i].complete()
	return i
}

// realSelect is for when there's no execution under way.
func realSelect(dflt bool, cs []SelCase) int {
	for {
		for i, c := range cs {
			if c.try() {
				return i
			}
		}
		if dflt {
			return -1
		}
		time.Sleep(20 * time.Microsecond)
	}
}

// Close is close(ch).
func Close[T any](where string, ch chan<- T) {
	c := sends(ch)
	if Active() {
		closing(where, ref(c))
	} else if idle() {
		defer func() { _ = recover() }()
	}
	close(c)
}

func closing(where string, c chanRef) {
	if c != nil {
		point(op{kind: opObj, name: "close", where: where, ref: c, shut: true, write: true})
	}
}

// Len is len(ch).
func Len[T any](where string, ch <-chan T) int {
	c := both(ch)
	if Active() {
		looking(where, ref(c))
	}
	return len(c)
}

func looking(where string, c chanRef) {
	if c != nil {
		point(op{kind: opObj, name: "len", where: where, ref: c})
	}
}

var ctxObj Obj

// CtxErr is ctx.Err().
func CtxErr(where string, ctx context.Context) error {
	if Active() {
		point(op{kind: opObj, name: "ctx.Err", where: where, obj: &ctxObj})
	}
	return ctx.Err()
}

// Cancelling comes before a context is cancelled.
func Cancelling() {
	if Active() {
		point(op{kind: opObj, name: "cancel", obj: &ctxObj, write: true})
	}
}
