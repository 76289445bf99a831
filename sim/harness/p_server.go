package main

import (
	"fmt"
	"os"
	"reflect"
	"strings"
	"syscall"
	"time"

	crispdmain "github.com/go-air/gini/cmd/crispd"
	"github.com/go-air/gini/crisp"
	"github.com/go-air/gini/internal/simrt"
)

func init() {
	register(&Prop{ID: "C28", Quick: 25000, Thorough: 400000,
		Title: "A CRISP server starts, shuts down and is replaced without harm",
		Rule:  "1-3 servers one after another at one address (by NewServer, ListenAndServe or the crispd command), each with up to 5 client sessions checked as for C13, temporary accept errors, and a shutdown, a fatal accept error or a signal at a random moment; a successor starts at once while earlier sessions go on; non-trivial when a server was ended or refused to start after or while a session was served",
		Real:  append([]string{"crisp.NewServer, Serve, ListenAndServe, Shutdown, Trace, ParseAddr", "crispd command"}, crispReal...), Stub: append([]string{"signals"}, crispStub...),
		Assume: []string{"a listener on a unix address removes its socket when it is closed (as Go's does)", "at most one server at a time listens on a unix address"},
		Setup:  setupCrisp, Body: bodyC28})
}

// server is a running server.
type server struct {
	x      *X
	s      *crisp.Server // nil: it cannot be reached
	a      *crisp.Addr
	how    int
	task   *simrt.Task
	ret    error
	down   bool // it was told to end
	done   bool
	served int
}

// startServer starts a server: by NewServer (0; 1: with trace), ListenAndServe (2) or
// crispd (3).
func (x *X) startServer(addr string, how int) *server {
	v := &server{x: x, a: crisp.ParseAddr(addr), how: how}
	switch how {
	case 0, 1:
		var e error
		v.s, e = crisp.NewServer(addr)
		if e != nil {
			x.Fail("server", "NewServer(%s): %s", addr, e)
		}
		if how == 1 {
			v.s.Trace(true)
		}
		v.task = simrt.GoTask("server", func() { v.ret = v.s.Serve(); v.done = true })
		return v
	case 2:
		v.task = simrt.GoTask("server", func() { v.ret = crisp.ListenAndServe(addr); v.done = true })
	case 3:
		os.Args = []string{"crispd", addr}
		if x.W(2) == 0 {
			os.Args = []string{"crispd", "-trace", addr}
		}
		if !simrt.ResetCmd("cmd/crispd") {
			panic("no crispd")
		}
		v.task = simrt.GoTask("server", func() { crispdmain.Main(); v.done = true })
	}
	x.Bounded("call:start", "starting a server", 2000000, func() {
		for !simrt.Listening(v.a.Network, v.a.NetAddr) {
			simrt.Sleep(time.Duration(100 * x.Cfg.NsPerStep))
			if v.done {
				x.Fail("server", "the server at %s does not start: %v", addr, v.ret)
			}
		}
	})
	return v
}

// client runs a session against the server.
func (v *server) client(name, addr string, ops int) {
	x := v.x
	s := &csess{x: x, name: name, r: &ref{}, last: 2, bd: 100000000, mv: true}
	var e error
	x.Bounded("call:Dial", name+" Dial", s.bd, func() { s.c, e = crisp.Dial(addr) })
	if e != nil {
		s.log("Dial: error")
		if !v.down {
			x.Fail("dial", "%s: the server does not accept a connection: %v", name, e)
		}
		x.Hit("dial.refused")
		return
	}
	s.bd = x.crispBound() * 12
	v.served++
	s.run(ops)
	s.quit()
	if v.down {
		x.Hit("session.over_end")
	}
}

// refuse has a server refuse to start, which changes nothing.
func (x *X) refuse(addr, why string) {
	before := fsState()
	var e error
	x.Bounded("call:NewServer", "NewServer", 100000, func() { _, e = crisp.NewServer(addr) })
	if e == nil {
		x.Fail("started", "NewServer(%s) with %s there gave no error", addr, why)
	}
	if after := fsState(); !reflect.DeepEqual(before, after) {
		x.Fail("harm", "NewServer(%s) with %s there changed the files from %v to %v", addr, why, before, after)
	}
	x.Hit("refused." + why)
	x.NonTrivial = true
}

func fsState() []string {
	t := simrt.FileTree("/")
	for i, p := range t {
		if d, ok := simrt.FileData(p); ok {
			t[i] = fmt.Sprintf("%s %q", p, d)
		}
	}
	return t
}

func bodyC28(x *X) {
	x.netUpMax(100000)
	simrt.SetAcceptErr(x.PickI(0, 0, 20, 60))
	addr := []string{"@/tmp/crisp.sock", "localhost:6060", "@c.sock", "@/tmp/@:1 x", ":6060", "[::1]:99"}[x.W(6)]
	a := crisp.ParseAddr(addr)
	unix := a.Network == "unix"
	if a.String() != addr {
		x.Fail("addr", "the address %q prints as %q", addr, a.String())
	}
	if unix != (addr[0] == '@') || a.NetAddr != strings.TrimPrefix(addr, "@") {
		x.Fail("addr", "the address %q is parsed as %v", addr, *a)
	}
	simrt.AddDir("/tmp")
	simrt.AddFile("/tmp/crisp.sock0", []byte("x"), 0644, nil)
	simrt.AddFile("/@c.sock", []byte("y"), 0644, nil)
	simrt.AddFile("/localhost:6060", []byte("z"), 0644, nil)
	before := fsState()
	if x.W(8) == 7 {
		simrt.SetEnv([]string{"TRACE_CRISP=1"})
	}
	if unix {
		p := a.NetAddr
		switch x.W(10) {
		case 5:
			x.refuse("@/nowhere/sock", "no directory")
		case 6:
			simrt.AddFile(p, []byte("not a socket"), 0644, nil)
			x.refuse(addr, "a file")
			simrt.Remove(p)
		case 7:
			simrt.AddDir(p)
			x.refuse(addr, "a directory")
			simrt.Remove(p)
		case 8, 9:
			// of a server which crashed
			x.Hit("stale_socket")
			simrt.AddSocket(p)
		}
	}
	sock := func() bool { return unix && simrt.FileExists(a.NetAddr) }
	var all []*server
	var ts []*simrt.Task
	join := func() {
		x.Bounded("clients", "the clients", 130000000, func() {
			for _, t := range ts {
				t.Join()
			}
		})
	}
	rounds := 1 + x.W(3)
	// how the last server is started and ends
	how := x.W(4)
	const byShutdown, byError, bySignal, byNothing = 0, 1, 2, 3
	end := [][]int{{0, 1, 3}, {0, 1, 3}, {1, 1, 3}, {2, 1, 3}}[how][x.W(3)]
	for r := 0; r < rounds; r++ {
		h, e := x.W(2), byShutdown
		if r == rounds-1 {
			h, e = how, end
		}
		x.Log("server %d at %s started by %d, ended by %d", r, addr, h, e)
		v := x.startServer(addr, h)
		all = append(all, v)
		if unix && !sock() {
			x.Fail("nosocket", "a server was started at %s, but there is no socket", addr)
		}
		if !unix && x.W(4) == 0 {
			x.refuse(addr, "a server")
		}
		for i := x.W(4); i >= 0; i-- {
			name := fmt.Sprintf("c%d.%d", r, i)
			ops := 3 + x.W(10)
			d := x.dur() * time.Duration(x.PickI(0, 0, 1, 10))
			ts = append(ts, simrt.GoHarness(name, func() {
				simrt.Sleep(d)
				v.client(name, addr, ops)
			}))
		}
		if e == byNothing {
			break
		}
		simrt.Sleep(x.dur() * time.Duration(x.PickI(1, 10, 100)))
		v.down = true
		switch e {
		case byShutdown:
			x.Log("shutdown of server %d", r)
			if e := v.s.Shutdown(); e != nil {
				x.Fail("shutdown", "Shutdown failed: %v", e)
			}
			if x.W(4) == 0 {
				simrt.GoTask("again", func() { v.s.Shutdown() })
			}
		case byError:
			x.Log("accepting fails")
			simrt.BreakListener(a.Network, a.NetAddr, syscall.EINVAL)
			// the server may wait for a free slot
			x.Bounded("ending", "the end of listening after a fatal error", 130000000, func() {
				for simrt.Listening(a.Network, a.NetAddr) {
					simrt.Sleep(time.Duration(1000 * x.Cfg.NsPerStep))
				}
			})
		case bySignal:
			if x.W(3) == 0 {
				join()
			}
			x.sigCrispd(a, sock)
		}
		if simrt.Listening(a.Network, a.NetAddr) {
			x.Fail("listening", "after its end the server listens")
		}
		if c, e := simrt.Dial(a.Network, a.NetAddr); e == nil {
			x.Fail("open", "after its end the server accepts connections at %s", c.RemoteAddr())
		}
		if sock() {
			x.Fail("socket", "after the end of its server the socket %s is left", addr)
		}
	}
	join()
	live := 0
	for i, v := range all {
		if !v.down {
			live += x.Cfg.NumCPU
			continue
		}
		x.NonTrivial = x.NonTrivial || v.served > 0
		x.Bounded("serve", fmt.Sprintf("the end of server %d", i), 3000000, func() { v.task.Join() })
		if v.how != 3 && v.ret == nil {
			x.Fail("serve", "server %d returned without an error", i)
		}
	}
	// all which is left are the handlers of a live server, waiting
	until, late := simrt.Steps()+2*x.crispBound(), simrt.NowNs()+60e9
	for {
		var left []simrt.TaskInfo
		busy := false
		for _, t := range libTasks() {
			if !strings.HasPrefix(t.Name, "cmd/crispd.init") {
				left = append(left, t)
				busy = busy || !strings.HasPrefix(t.Why, "recv chan")
			}
		}
		if !busy && len(left) == live {
			break
		}
		if simrt.Steps() > until || simrt.NowNs() > late {
			x.Fail("left", "the clients are gone and %d handlers may wait, but there are %v", live, left)
		}
		simrt.Sleep(time.Millisecond)
	}
	if live > 0 {
		all[len(all)-1].client("after", addr, 3)
		if unix {
			simrt.Remove(a.NetAddr)
		}
	}
	if after := fsState(); !reflect.DeepEqual(before, after) {
		x.Fail("harm", "the servers changed the files from %v to %v", before, after)
	}
}

// sigCrispd sends signals to crispd, the last of which ends it.
func (x *X) sigCrispd(a *crisp.Addr, sock func() bool) {
	code := -1
	had := false
	simrt.OnExit(func(c int) {
		code = c
		if had && sock() {
			x.Fail("socket", "after its end by a signal crispd leaves its socket")
		}
	})
	x.PanicOK = func(p *simrt.PanicInfo) bool { return p.Exit && code == 1 }
	x.NonTrivial = true
	for k := x.F(3); k > 0; k-- {
		x.Log("SIGUSR1")
		simrt.Signal(syscall.SIGUSR1)
		if x.F(2) == 0 {
			simrt.Sleep(x.dur())
		}
	}
	sg := []os.Signal{syscall.SIGTERM, syscall.SIGINT}[x.F(2)]
	x.Log("%s", sg)
	had = simrt.Accepting(a.Network, a.NetAddr)
	simrt.Signal(sg)
	x.Bounded("signal", "crispd after a signal", 3000000, func() { simrt.Sleep(time.Duration(2000000 * x.Cfg.NsPerStep)) })
	x.Fail("signal", "crispd goes on after %s", sg)
}
