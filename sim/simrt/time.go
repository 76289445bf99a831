package simrt

import (
	"time"
)

var epoch = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

// Now replaces time.Now.
func Now() time.Time {
	if S == nil {
		return epoch
	}
	S.account()
	return epoch.Add(time.Duration(S.now))
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep replaces time.Sleep.
func Sleep(d time.Duration) {
	s := S
	if s == nil {
		return
	}
	if d <= 0 {
		point()
		return
	}
	point()
	t := s.cur
	s.account()
	s.addTimer(int64(d), func() { s.ready(t) })
	s.block("sleep")
}

// Timer replaces time.Timer.
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	t  *timer
	fn func()
}

func trySend(c chan time.Time) func() {
	return func() {
		st := stateOf((<-chan time.Time)(c))
		if st.canSend() {
			st.doSend(Now())
		}
	}
}

func NewTimer(d time.Duration) *Timer {
	S.account()
	c := make(chan time.Time, 1)
	tm := &Timer{C: c, c: c}
	tm.fn = trySend(c)
	tm.t = S.addTimer(int64(d), tm.fn)
	point()
	return tm
}

func (t *Timer) Stop() bool {
	if S == nil || S.ending {
		return false
	}
	point()
	return S.delTimer(t.t)
}

func (t *Timer) Reset(d time.Duration) bool {
	if S.ending {
		return false
	}
	S.account()
	r := S.delTimer(t.t)
	t.t = S.addTimer(int64(d), t.fn)
	return r
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func AfterFunc(d time.Duration, f func()) *Timer {
	S.account()
	tm := &Timer{}
	snap := raceSnapshot()
	tm.fn = func() {
		t := S.newTask("afterfunc", f)
		if RaceMode {
			t.vc.join(snap)
		}
	}
	tm.t = S.addTimer(int64(d), tm.fn)
	return tm
}

// Ticker replaces time.Ticker.
type Ticker struct {
	C   <-chan time.Time
	c   chan time.Time
	t   *timer
	d   time.Duration
	off bool
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	S.account()
	c := make(chan time.Time, 1)
	tk := &Ticker{C: c, c: c, d: d}
	tk.arm()
	point()
	return tk
}

func (t *Ticker) arm() {
	send := trySend(t.c)
	t.t = S.addTimer(int64(t.d), func() {
		if t.off {
			return
		}
		send()
		t.arm()
	})
}

func (t *Ticker) Stop() {
	if S == nil || S.ending {
		return
	}
	t.off = true
	S.delTimer(t.t)
	point()
}

func (t *Ticker) Reset(d time.Duration) {
	if S.ending {
		return
	}
	S.delTimer(t.t)
	t.d = d
	t.off = false
	t.arm()
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
