package simrt

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strings"
	"syscall"
	"time"
)

// NetConfig is the behaviour of the simulated network in one run.
type NetConfig struct {
	LatMin, LatMax int64 // ns per segment
	FragPct        int   // percent of writes split into small segments
	ShortReadPct   int   // percent of reads returning fewer bytes than available
	BufCap         int   // bytes in flight per direction before writers block
	StallPct       int   // percent of segments delayed by StallNs
	StallNs        int64
	AcceptErrPct   int // percent of accepts failing for want of file descriptors
}

type simNet struct {
	s         *Sim
	cfg       NetConfig
	listeners map[string]*SimListener
	conns     []*SimConn
	nconn     int
	// OnConn is called for every new connection pair (client side, server side).
	onConn func(c, srv *SimConn)
}

func newSimNet(s *Sim) *simNet {
	return &simNet{s: s, cfg: NetConfig{LatMin: 1000, LatMax: 1000, BufCap: 1 << 16}, listeners: map[string]*SimListener{}}
}

// SetNet configures the network of the current run.
func SetNet(c NetConfig) {
	if c.BufCap <= 0 {
		c.BufCap = 1 << 16
	}
	S.net.cfg = c
}

// OnConn installs a callback run when a connection is made.
func OnConn(f func(c, srv *SimConn)) { S.net.onConn = f }

type simAddr struct{ n, a string }

func (a simAddr) Network() string { return a.n }
func (a simAddr) String() string  { return a.a }

type seg struct {
	at  int64
	b   []byte
	fin bool
	rst bool
}

// half is one direction of a connection.
type half struct {
	segs      []seg
	buffered  int
	readers   []*Task
	writers   []*Task
	lastAt    int64
	delivered int64 // bytes handed to the reader
	written   int64
	// fault: after cutAfter bytes written the direction breaks
	cutAfter int64 // -1: never
	cutKind  CutKind
	cut      bool
}

type CutKind int

const (
	CutNone CutKind = iota
	CutFIN          // both directions end cleanly (peer closed)
	CutRST          // connection reset: pending data is lost, both sides get errors
	CutHalf         // the writing direction silently ends with FIN, the other later
)

func (k CutKind) String() string { return [...]string{"none", "fin", "rst", "half"}[k] }

// SimConn implements net.Conn.
type SimConn struct {
	ID       int
	Server   bool
	la, ra   simAddr
	in, out  *half
	peer     *SimConn
	closed   bool
	err      error // sticky error (reset)
	rdl, wdl int64 // deadlines; 0 none
	group    int
	n        *simNet
	BytesIn  int64
	BytesOut int64
}

var errReset = &net.OpError{Op: "read", Net: "sim", Err: os.NewSyscallError("read", syscall.ECONNRESET)}
var errPipe = &net.OpError{Op: "write", Net: "sim", Err: os.NewSyscallError("write", syscall.EPIPE)}
var errClosedConn = &net.OpError{Op: "use", Net: "sim", Err: net.ErrClosed}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }
func (timeoutErr) Unwrap() error   { return os.ErrDeadlineExceeded }

func endingCheck() {
	if S != nil && S.ending {
		runtime.Goexit()
	}
}

// Cut arms a fault: after n more bytes written by this side the connection breaks.
func (c *SimConn) Cut(n int64, k CutKind) {
	c.out.cutAfter = c.out.written + n
	c.out.cutKind = k
}

// Break breaks the connection now.
func (c *SimConn) Break(k CutKind) { c.doCut(k) }

// Broken tells whether a fault hit this connection.
func (c *SimConn) Broken() bool { return c.in.cut || c.out.cut }

func (c *SimConn) Group() int { return c.group }

func (c *SimConn) doCut(k CutKind) {
	s := c.n.s
	if c.out.cut && c.in.cut {
		return
	}
	s.counts["fault.conn_"+k.String()]++
	s.tracef("fault: connection %d cut (%s) after %d bytes written by %s", c.ID, k, c.out.written, side(c))
	switch k {
	case CutFIN:
		c.out.push(s, seg{fin: true, at: s.now + c.n.lat()})
		c.in.push(s, seg{fin: true, at: s.now + c.n.lat()})
		c.out.cut, c.in.cut = true, true
	case CutHalf:
		c.out.push(s, seg{fin: true, at: s.now + c.n.lat()})
		c.out.cut = true
	case CutRST:
		c.err, c.peer.err = errReset, errReset
		c.out.cut, c.in.cut = true, true
	}
	c.wakeAll()
}

func side(c *SimConn) string {
	if c.Server {
		return "server"
	}
	return "client"
}

func (c *SimConn) wakeAll() {
	for _, h := range []*half{c.in, c.out} {
		wakeAll(&h.readers)
		wakeAll(&h.writers)
	}
}

func (n *simNet) lat() int64 {
	d := n.cfg.LatMin
	if n.cfg.LatMax > n.cfg.LatMin {
		span := n.cfg.LatMax - n.cfg.LatMin
		d += span * int64(n.s.Src.Choose(StNet, 64)) / 64
	}
	if n.cfg.StallPct > 0 && n.s.Src.Chance(StNet, n.cfg.StallPct, 100) {
		n.s.counts["fault.net_stall"]++
		d += n.cfg.StallNs
	}
	return d
}

func (h *half) push(s *Sim, g seg) {
	if g.at < h.lastAt {
		g.at = h.lastAt // a stream keeps its order
	}
	h.lastAt = g.at
	h.segs = append(h.segs, g)
	h.buffered += len(g.b)
	if d := g.at - s.now; d > 0 {
		s.addTimer(d, func() { wakeAll(&h.readers) })
	} else {
		wakeAll(&h.readers)
	}
}

func (c *SimConn) Read(p []byte) (int, error) {
	endingCheck()
	point()
	s := c.n.s
	if len(p) == 0 {
		return 0, nil
	}
	for {
		if c.closed {
			return 0, errClosedConn
		}
		if c.err != nil {
			return 0, c.err
		}
		if c.rdl != 0 && s.now >= c.rdl {
			return 0, &net.OpError{Op: "read", Net: "sim", Err: timeoutErr{}}
		}
		h := c.in
		s.account()
		if len(h.segs) > 0 && h.segs[0].at <= s.now {
			if h.segs[0].fin {
				return 0, io.EOF
			}
			// coalesce what has arrived
			avail := 0
			for _, g := range h.segs {
				if g.at > s.now || g.fin {
					break
				}
				avail += len(g.b)
			}
			n := avail
			if n > len(p) {
				n = len(p)
			}
			if n > 1 && s.Src.Chance(StNet, c.n.cfg.ShortReadPct, 100) {
				n = 1 + s.Src.Choose(StNet, n-1)
				s.counts["fault.short_read"]++
			}
			got := 0
			for got < n {
				g := &h.segs[0]
				k := copy(p[got:n], g.b)
				got += k
				g.b = g.b[k:]
				if len(g.b) == 0 {
					h.segs = h.segs[1:]
				}
			}
			h.buffered -= got
			h.delivered += int64(got)
			c.BytesIn += int64(got)
			wakeAll(&h.writers)
			s.tracef("conn %d %s read % x", c.ID, side(c), p[:got])
			return got, nil
		}
		h.readers = append(h.readers, s.cur)
		if c.rdl != 0 {
			s.addTimer(c.rdl-s.now, func() { wakeAll(&h.readers) })
		}
		s.block(fmt.Sprintf("net read conn%d", c.ID))
	}
}

func (c *SimConn) Write(p []byte) (int, error) {
	endingCheck()
	point()
	s := c.n.s
	total := 0
	for total < len(p) || len(p) == 0 {
		if c.closed {
			return total, errClosedConn
		}
		if c.err != nil {
			return total, errPipe
		}
		h := c.out
		if h.cut || c.peer.closed {
			s.account()
			if c.peer.closed && !h.cut {
				// writing to a closed peer: first write is swallowed, then reset
				h.cut = true
				return len(p), nil
			}
			return total, errPipe
		}
		if len(p) == 0 {
			return 0, nil
		}
		if c.wdl != 0 && s.now >= c.wdl {
			return total, &net.OpError{Op: "write", Net: "sim", Err: timeoutErr{}}
		}
		room := c.n.cfg.BufCap - h.buffered
		if room <= 0 {
			h.writers = append(h.writers, s.cur)
			if c.wdl != 0 {
				s.addTimer(c.wdl-s.now, func() { wakeAll(&h.writers) })
			}
			s.counts["net.backpressure"]++
			s.block(fmt.Sprintf("net write conn%d", c.ID))
			continue
		}
		chunk := p[total:]
		if len(chunk) > room {
			chunk = chunk[:room]
		}
		if len(chunk) > 1 && s.Src.Chance(StNet, c.n.cfg.FragPct, 100) {
			chunk = chunk[:1+s.Src.Choose(StNet, len(chunk)-1)]
			s.counts["fault.fragment"]++
		}
		cutNow := false
		if h.cutAfter >= 0 && h.written+int64(len(chunk)) >= h.cutAfter {
			chunk = chunk[:h.cutAfter-h.written]
			cutNow = true
		}
		if len(chunk) > 0 {
			b := append([]byte(nil), chunk...)
			s.account()
			h.push(s, seg{at: s.now + c.n.lat(), b: b})
			h.written += int64(len(b))
			total += len(b)
			c.BytesOut += int64(len(b))
			s.tracef("conn %d %s wrote % x", c.ID, side(c), b)
		}
		if cutNow {
			k := h.cutKind
			h.cutAfter = -1
			c.doCut(k)
		}
	}
	return total, nil
}

func (c *SimConn) Close() error {
	if S == nil || S.ending {
		return nil
	}
	point()
	if c.closed {
		return errClosedConn
	}
	s := c.n.s
	c.closed = true
	s.tracef("conn %d %s closed", c.ID, side(c))
	s.account()
	if !c.out.cut {
		c.out.push(s, seg{fin: true, at: s.now + c.n.lat()})
	}
	c.wakeAll()
	return nil
}

// Closed tells whether this end was closed.
func (c *SimConn) Closed() bool         { return c.closed }
func (c *SimConn) Peer() *SimConn       { return c.peer }
func (c *SimConn) LocalAddr() net.Addr  { return c.la }
func (c *SimConn) RemoteAddr() net.Addr { return c.ra }
func (c *SimConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func dl(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := int64(t.Sub(epoch))
	if d <= 0 {
		d = 1
	}
	return d
}
func (c *SimConn) SetReadDeadline(t time.Time) error {
	c.rdl = dl(t)
	wakeAll(&c.in.readers)
	return nil
}
func (c *SimConn) SetWriteDeadline(t time.Time) error {
	c.wdl = dl(t)
	wakeAll(&c.out.writers)
	return nil
}

// SimListener implements net.Listener.
type SimListener struct {
	addr    simAddr
	backlog []*SimConn
	waiters []*Task
	closed  bool
	n       *simNet
	group   int
	broken  error
	served  bool // Accept has been called
}

// Listen replaces net.Listen.
func Listen(network, addr string) (net.Listener, error) {
	point()
	n := S.net
	k := network + " " + addr
	if l := n.listeners[k]; l != nil && !l.closed {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: simAddr{network, addr}, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	if strings.HasPrefix(network, "unix") {
		if FileExists(addr) {
			return nil, &net.OpError{Op: "listen", Net: network, Addr: simAddr{network, addr}, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
		}
		d, name, _, e := S.fs.find(addr, false)
		if e != nil || d == nil {
			return nil, &net.OpError{Op: "listen", Net: network, Addr: simAddr{network, addr}, Err: os.NewSyscallError("bind", syscall.ENOENT)}
		}
		d.kids[name] = &node{mode: os.ModeSocket | 0755}
	}
	l := &SimListener{addr: simAddr{network, addr}, n: n, group: S.cur.Group}
	n.listeners[k] = l
	return l, nil
}

func (l *SimListener) Addr() net.Addr { return l.addr }
func (l *SimListener) Accept() (net.Conn, error) {
	endingCheck()
	l.served = true
	point()
	for {
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: l.addr.n, Addr: l.addr, Err: net.ErrClosed}
		}
		if l.broken != nil {
			return nil, &net.OpError{Op: "accept", Net: l.addr.n, Addr: l.addr, Err: os.NewSyscallError("accept", l.broken)}
		}
		if len(l.backlog) > 0 && S.Src.Chance(StFault, l.n.cfg.AcceptErrPct, 100) {
			S.counts["fault.accept_emfile"]++
			return nil, &net.OpError{Op: "accept", Net: l.addr.n, Addr: l.addr, Err: os.NewSyscallError("accept", syscall.EMFILE)}
		}
		if len(l.backlog) > 0 {
			c := l.backlog[0]
			l.backlog = l.backlog[1:]
			c.group = S.cur.Group
			return c, nil
		}
		l.waiters = append(l.waiters, S.cur)
		S.block("accept")
	}
}
func (l *SimListener) Close() error {
	if S == nil || S.ending {
		return nil
	}
	point()
	if l.closed {
		return &net.OpError{Op: "close", Net: l.addr.n, Addr: l.addr, Err: net.ErrClosed}
	}
	l.closed = true
	if strings.HasPrefix(l.addr.n, "unix") {
		if d, name, n, e := S.fs.find(l.addr.a, false); e == nil && n != nil { // Go unlinks the socket on close
			delete(d.kids, name)
		}
	}
	for _, c := range l.backlog {
		c.err, c.peer.err = errReset, errReset
		c.wakeAll()
	}
	wakeAll(&l.waiters)
	return nil
}

// Listening tells whether something listens at an address.
func Listening(network, addr string) bool {
	l := S.net.listeners[network+" "+addr]
	return l != nil && !l.closed
}

// Accepting tells whether Accept has been called for an address which is listened at.
func Accepting(network, addr string) bool {
	l := S.net.listeners[network+" "+addr]
	return l != nil && !l.closed && l.served
}

// SetAcceptErr sets the percentage of accepts failing for want of file descriptors.
func SetAcceptErr(pct int) { S.net.cfg.AcceptErrPct = pct }

// BreakListener has accepting at an address fail for good.
func BreakListener(network, addr string, e error) {
	l := S.net.listeners[network+" "+addr]
	l.broken = e
	S.counts["fault.accept_broken"]++
	wakeAll(&l.waiters)
}

// SetUnlinkOnClose exists on net.UnixListener.
func (l *SimListener) SetUnlinkOnClose(bool) {}

// Dial replaces net.Dial.
func Dial(network, addr string) (net.Conn, error) {
	point()
	n := S.net
	l := n.listeners[network+" "+addr]
	if l == nil || l.closed || len(l.backlog) >= 128 {
		return nil, &net.OpError{Op: "dial", Net: network, Addr: simAddr{network, addr}, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	n.nconn++
	a, b := &half{cutAfter: -1}, &half{cutAfter: -1}
	cl := &SimConn{ID: n.nconn, la: simAddr{network, fmt.Sprintf("client%d", n.nconn)}, ra: l.addr, in: a, out: b, n: n, group: S.cur.Group}
	sv := &SimConn{ID: n.nconn, Server: true, la: l.addr, ra: cl.la, in: b, out: a, n: n}
	cl.peer, sv.peer = sv, cl
	n.conns = append(n.conns, cl, sv)
	if n.onConn != nil {
		n.onConn(cl, sv)
	}
	l.backlog = append(l.backlog, sv)
	wakeAll(&l.waiters)
	S.tracef("dial %s %s -> conn %d", network, addr, cl.ID)
	return cl, nil
}

func DialTimeout(network, addr string, d time.Duration) (net.Conn, error) { return Dial(network, addr) }

// Pipe-like unknown networks are errors.
var errNet = errors.New("simrt: unsupported network function")

func unsupportedNet() error { return errNet }
