package simrt

import (
	"context"
	"flag"
	"net"
	"os"
	"time"
)

type resetEntry struct {
	rel string
	fn  func()
}

var resets []resetEntry

// RegisterReset is called by every instrumented package: fn re-runs its variable
// initialisers and init functions, so that every run starts from fresh state.
func RegisterReset(rel string, fn func()) { resets = append(resets, resetEntry{rel, fn}) }

func isCmd(rel string) bool { return len(rel) > 4 && rel[:4] == "cmd/" }

func resetLibs() {
	for _, r := range resets {
		if !isCmd(r.rel) {
			r.fn()
		}
	}
}

// ResetCmd re-initialises a command's package (its flags included).
func ResetCmd(rel string) bool {
	flag.CommandLine = flag.NewFlagSet(rel, flag.ContinueOnError)
	for _, r := range resets {
		if r.rel == rel {
			r.fn()
			return true
		}
	}
	return false
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func GC() {}

// Notify stands for signal.Notify.
func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	S.notify = append(S.notify, notifyReg{c, sigs})
}

type notifyReg struct {
	c    chan<- os.Signal
	sigs []os.Signal // none: all
}

func (r notifyReg) wants(sg os.Signal) bool {
	for _, s := range r.sigs {
		if s == sg {
			return true
		}
	}
	return len(r.sigs) == 0
}

// NotifyStop stands for signal.Stop.
func NotifyStop(c chan<- os.Signal) {
	var l []notifyReg
	for _, r := range S.notify {
		if r.c != c {
			l = append(l, r)
		}
	}
	S.notify = l
}

// Signal delivers a signal to the registered channels.
func Signal(sg os.Signal) {
	for _, r := range S.notify {
		if !r.wants(sg) {
			continue
		}
		st := stateOf(sendToRecv(r.c))
		if st.canSend() {
			st.doSend(sg)
		}
	}
}

type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	KeepAlive time.Duration
}

func (d *Dialer) Dial(n, a string) (net.Conn, error) { return Dial(n, a) }
func (d *Dialer) DialContext(_ context.Context, n, a string) (net.Conn, error) {
	return Dial(n, a)
}

type simCtx struct {
	context.Context
	done chan struct{}
	err  error
	dl   time.Time
	kids []*simCtx
	t    *timer
}

func (c *simCtx) Done() <-chan struct{} { return c.done }
func (c *simCtx) Err() error            { return c.err }
func (c *simCtx) Deadline() (time.Time, bool) {
	if c.dl.IsZero() {
		return c.Context.Deadline()
	}
	return c.dl, true
}

type simCtxKey struct{}

func (c *simCtx) Value(k any) any {
	if _, ok := k.(simCtxKey); ok {
		return c
	}
	return c.Context.Value(k)
}
func (c *simCtx) cancel(err error) {
	if c.err != nil || S == nil || S.ending {
		return
	}
	c.err = err
	st := stateOf((<-chan struct{})(c.done))
	st.closeNow()
	S.delTimer(c.t)
	for _, k := range c.kids {
		k.cancel(err)
	}
}

func newCtx(parent context.Context) *simCtx {
	c := &simCtx{Context: parent, done: make(chan struct{})}
	if p, ok := parent.Value(simCtxKey{}).(*simCtx); ok {
		p.kids = append(p.kids, c)
		if p.err != nil {
			c.cancel(p.err)
		}
	}
	return c
}

func CtxWithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() { point(); c.cancel(context.Canceled) }
}
func CtxWithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return CtxWithDeadline(parent, Now().Add(d))
}
func CtxWithDeadline(parent context.Context, t time.Time) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	c.dl = t
	c.t = S.addTimer(int64(t.Sub(Now())), func() { c.cancel(context.DeadlineExceeded) })
	return c, func() { point(); c.cancel(context.Canceled) }
}
