package simrt

import (
	"fmt"
	"runtime"
	"unsafe"
)

type waiter struct {
	t    *Task
	val  any
	idx  int
	tick *int // shared by all waiters of one select; fired when *tick >= 0
}

type chanState struct {
	ref    any
	cap    int
	buf    []any
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	id     int
	// race mode
	slots        []vclock
	sendx, recvx int
	closeVC      vclock
}

func (c *chanState) slot(x *int, t *Task) {
	if !RaceMode || c.cap == 0 {
		return
	}
	if c.slots == nil {
		c.slots = make([]vclock, c.cap)
	}
	acqRelT(&c.slots[*x%c.cap], t)
	*x++
}

func chanKey[T any](ch <-chan T) uintptr {
	return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
}

func stateOf[T any](ch <-chan T) *chanState {
	if ch == nil {
		return nil
	}
	s := S
	if s == nil {
		panic("simrt: channel operation outside of a simulation")
	}
	k := chanKey(ch)
	c := s.chans[k]
	if c == nil {
		c = &chanState{ref: ch, cap: cap(ch), id: len(s.chans)}
		s.chans[k] = c
	}
	return c
}

func sendToRecv[T any](ch chan<- T) <-chan T {
	return *(*<-chan T)(unsafe.Pointer(&ch))
}

func pop(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if *w.tick < 0 && w.t.state != tsDone {
			return w
		}
	}
	return nil
}

func has(q *[]*waiter) bool {
	for len(*q) > 0 {
		w := (*q)[0]
		if *w.tick < 0 && w.t.state != tsDone {
			return true
		}
		*q = (*q)[1:]
	}
	return false
}

func fire(w *waiter, v any, ok bool) {
	*w.tick = w.idx
	w.t.selVal = v
	w.t.selOk = ok
	S.ready(w.t)
}

func (c *chanState) canRecv() bool {
	return len(c.buf) > 0 || c.closed || has(&c.sendq)
}

func (c *chanState) canSend() bool {
	return c.closed || len(c.buf) < c.cap || has(&c.recvq)
}

func (c *chanState) doRecv() (any, bool) {
	S.hashIn(uint64(c.id)*31 + 3)
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		c.slot(&c.recvx, nil)
		if w := pop(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			c.slot(&c.sendx, w.t)
			fire(w, nil, true)
		}
		return v, true
	}
	if w := pop(&c.sendq); w != nil {
		v := w.val
		rendezvous(w.t)
		fire(w, nil, true)
		return v, true
	}
	acquire(c.closeVC)
	return nil, false // closed
}

func (c *chanState) doSend(v any) {
	S.hashIn(uint64(c.id)*31 + 5)
	if c.closed {
		panic("send on closed channel")
	}
	if w := pop(&c.recvq); w != nil {
		if c.cap == 0 {
			rendezvous(w.t)
		} else {
			c.slot(&c.sendx, nil)
			c.slot(&c.recvx, w.t)
		}
		fire(w, v, true)
		return
	}
	c.buf = append(c.buf, v)
	c.slot(&c.sendx, nil)
}

// SendC returns the send operation on ch.
func SendC[T any](ch chan<- T) func(v T) {
	return func(v T) { send(sendToRecv(ch), v) }
}

func send[T any](ch <-chan T, v T) {
	point()
	s := S
	if ch == nil {
		s.block("send on nil channel")
		panic("unreachable")
	}
	c := stateOf(ch)
	if c.canSend() {
		c.doSend(v)
		return
	}
	tick := -1
	t := s.cur
	c.sendq = append(c.sendq, &waiter{t: t, val: v, idx: 0, tick: &tick})
	s.block(fmt.Sprintf("send chan%d", c.id))
	if !t.selOk {
		panic("send on closed channel")
	}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (r T, ok bool) {
	point()
	s := S
	if ch == nil {
		s.block("receive on nil channel")
		panic("unreachable")
	}
	c := stateOf(ch)
	if c.canRecv() {
		v, ok := c.doRecv()
		if v != nil {
			r = v.(T)
		}
		return r, ok
	}
	tick := -1
	t := s.cur
	c.recvq = append(c.recvq, &waiter{t: t, idx: 0, tick: &tick})
	s.block(fmt.Sprintf("recv chan%d", c.id))
	v := t.selVal
	t.selVal = nil
	if v != nil {
		r = v.(T)
	}
	return r, t.selOk
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	point()
	if ch == nil {
		panic("close of nil channel")
	}
	c := stateOf(sendToRecv(ch))
	if c.closed {
		panic("close of closed channel")
	}
	c.closeNow()
}

func (c *chanState) closeNow() {
	c.closed = true
	release(&c.closeVC)
	for {
		w := pop(&c.recvq)
		if w == nil {
			break
		}
		if !hbOff() {
			w.t.vc.join(c.closeVC)
		}
		fire(w, nil, false)
	}
	for {
		w := pop(&c.sendq)
		if w == nil {
			break
		}
		fire(w, nil, false)
	}
}

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	if ch == nil {
		return 0
	}
	return len(stateOf(ch).buf)
}

// Cap is cap(ch).
func Cap[T any](ch <-chan T) int { return cap(ch) }

// LenS and CapS are for send-only channels.
func LenS[T any](ch chan<- T) int { return Len(sendToRecv(ch)) }
func CapS[T any](ch chan<- T) int { return cap(ch) }

// Case is a select case.
type Case interface {
	state() *chanState
	isSend() bool
	sendVal() any
	got(v any, ok bool)
}

type RecvCase[T any] struct {
	c  *chanState
	V  T
	Ok bool
}

func (r *RecvCase[T]) state() *chanState { return r.c }
func (r *RecvCase[T]) isSend() bool      { return false }
func (r *RecvCase[T]) sendVal() any      { return nil }
func (r *RecvCase[T]) got(v any, ok bool) {
	if v != nil {
		r.V = v.(T)
	}
	r.Ok = ok
}

func NewRecv[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{c: stateOf(ch)} }

type SendCase struct {
	c *chanState
	v any
}

func (r *SendCase) state() *chanState  { return r.c }
func (r *SendCase) isSend() bool       { return true }
func (r *SendCase) sendVal() any       { return r.v }
func (r *SendCase) got(v any, ok bool) {}

func NewSend[T any](ch chan<- T) func(v T) *SendCase {
	return func(v T) *SendCase { return &SendCase{c: stateOf(sendToRecv(ch)), v: v} }
}

// Select performs a select; -1 means the default case was taken.
func Select(hasDefault bool, cases ...Case) int {
	point()
	s := S
	var readyArr [8]int
	ready := readyArr[:0]
	for i, cs := range cases {
		c := cs.state()
		if c == nil {
			continue
		}
		if cs.isSend() && c.canSend() || !cs.isSend() && c.canRecv() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[0]
		if len(ready) > 1 {
			i = ready[s.Src.Choose(StSched, len(ready))]
			s.counts["sched.select_race"]++
		}
		cs := cases[i]
		c := cs.state()
		if cs.isSend() {
			c.doSend(cs.sendVal())
		} else {
			v, ok := c.doRecv()
			cs.got(v, ok)
		}
		return i
	}
	if hasDefault {
		return -1
	}
	tick := -1
	t := s.cur
	why := "select"
	for i, cs := range cases {
		c := cs.state()
		if c == nil {
			continue
		}
		w := &waiter{t: t, idx: i, tick: &tick, val: cs.sendVal()}
		if cs.isSend() {
			c.sendq = append(c.sendq, w)
			why += fmt.Sprintf(" send chan%d", c.id)
		} else {
			c.recvq = append(c.recvq, w)
			why += fmt.Sprintf(" recv chan%d", c.id)
		}
	}
	s.block(why)
	v := t.selVal
	t.selVal = nil
	cs := cases[tick]
	if cs.isSend() {
		if !t.selOk {
			panic("send on closed channel")
		}
	} else {
		cs.got(v, t.selOk)
	}
	return tick
}

// BlockForever is select{}.
func BlockForever() any {
	point()
	S.block("select{}")
	runtime.Goexit()
	return nil
}
