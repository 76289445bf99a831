package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/go-air/gini/crisp"
	"github.com/go-air/gini/internal/simrt"
	"github.com/go-air/gini/z"
)

var crispReal = []string{"CRISP client, server, handlers, varuint codec, background control", "gini/xo solver behind the server", "dimacs reader (client Dimacs)"}
var crispStub = []string{"network (simulated streams: latency, fragmentation, coalescing, back pressure, cuts)", "goroutine scheduling, clocks and timers (simulated)", "file system (socket path)"}

func init() {
	register(&Prop{ID: "C13", Quick: 120000, Thorough: 1000000,
		Title: "A remote CRISP session gives the same results as a local solver",
		Rule:  "one client session of 4-40 random operations against a real server over a simulated stream with random latency, fragmentation, short reads and buffer sizes; every result checked against the reference; non-trivial when at least one solve was answered and one model or explanation checked",
		Real:  crispReal, Stub: crispStub, Setup: setupCrisp, Body: bodyC13})
	register(&Prop{ID: "C14", Quick: 200000, Thorough: 1500000,
		Title: "CRISP client reports connection failures, never wrong data or a hang",
		Rule:  "a session as for C13 whose connection is cut at a random byte of either direction, or broken at a random operation or while a solve runs, by end of stream, reset or half close; every call must return; non-trivial when the fault hit",
		Real:  crispReal, Stub: crispStub, Setup: setupCrisp, Body: bodyC14})
	register(&Prop{ID: "C15", Quick: 40000, Thorough: 500000,
		Title: "One CRISP client can neither disturb others nor take the server down",
		Rule:  "2-7 clients on a server with 1-8 slots: well-behaved sessions checked as for C13, clients sending random bytes or operations, clients vanishing at random points; non-trivial when a misbehaving or vanishing client met a well-behaved one",
		Real:  crispReal, Stub: append([]string{"misbehaving clients (harness)"}, crispStub...), Setup: setupCrisp, Body: bodyC15})
	register(&Prop{ID: "C16", Quick: 200000, Thorough: 1500000,
		Title: "CRISP server answers protocol violations with an error and a disconnect",
		Rule:  "a raw client sends random protocol operations, in order and out of order, with random segmentation and pipelining; the reply stream is compared with a model of the documented protocol; non-trivial when a violation was answered or at least three solves were accepted",
		Real:  []string{"CRISP server, handlers, varuint codec", "gini/xo solver behind the server"}, Stub: append([]string{"CRISP client (harness, from the protocol description)"}, crispStub...), Setup: setupCrisp, Body: bodyC16})
	register(&Prop{ID: "C17", Quick: 80000, Thorough: 1000000,
		Title: "CRISP background solve control is right and never hangs",
		Rule:  "background solves on easy to hopeless instances controlled by random sequences of Test, sleeps, Stop and Try, some with a connection failure, then further use of the client; non-trivial when a solve was stopped or timed out while running or a failure met it",
		Real:  crispReal, Stub: crispStub, Setup: setupCrisp, Body: bodyC17})
}

func setupCrisp(x *X) {
	x.stdSetup()
	x.Cfg.MaxSteps = 150000000
	x.Cfg.MaxSimTime = 600e9
	x.Cfg.StallPct = x.PickI(0, 0, 10)
	x.Cfg.Quantum = x.Pick(5000, 20000)
	if _, ok := x.Knobs["PropTick"]; !ok || x.Knobs["PropTick"] > 100 {
		x.Knobs["PropTick"] = x.Pick(1, 5, 20, 100)
	}
}

// netUp configures the network of the run.
func (x *X) netUp() { x.netUpMax(0) }

// netUpMax is netUp with delays of at most so many statements (0: any), for runs in
// which solves do not end by themselves.
func (x *X) netUpMax(max int64) {
	c := simrt.NetConfig{LatMin: x.Pick(0, 1000, 20000, 500000)}
	c.LatMax = c.LatMin + x.Pick(0, 1000, 100000)
	c.FragPct = x.PickI(0, 20, 60, 95)
	c.ShortReadPct = x.PickI(0, 20, 60, 95)
	c.BufCap = x.PickI(1<<16, 1<<16, 2048, 64, 7)
	if x.W(4) == 0 {
		c.StallPct = x.PickI(2, 20)
		c.StallNs = x.Pick(1e5, 5e6)
	}
	if m := max * x.Cfg.NsPerStep; m > 0 {
		c.LatMin = min(c.LatMin, m/4)
		c.LatMax = min(c.LatMax, m/2)
		c.StallNs = min(c.StallNs, m/2)
	}
	// the statements a running solve can execute while one message is on its way
	x.netDelay = (c.LatMax + c.StallNs) / x.Cfg.NsPerStep
	simrt.SetNet(c)
}

// crispServer starts a server and returns its address.
func (x *X) crispServer() string {
	addr := []string{"@/tmp/crisp.sock", "localhost:6060"}[x.W(2)]
	simrt.AddDir("/tmp")
	simrt.SetAcceptErr(x.PickI(0, 0, 0, 20))
	x.startServer(addr, x.PickI(0, 0, 1, 2))
	return addr
}

// csess is a client session next to its reference.
type csess struct {
	x      *X
	name   string
	c      *crisp.Client
	conn   *simrt.SimConn // if known
	r      *ref
	last   int   // result of the last solve, 2: none
	lastAs []int // its assumptions
	dirty  bool  // added or assumed since
	faulty bool  // errors are legal
	failed bool  // an error was met
	bd     int64
	mv     bool // the client's MaxVar is certain
	buf    []bool
	mod    []bool // the model of the last solve, once Model has returned it
	have   bool   // the client has got that model
	nres   int
	ndata  int
}

func (s *csess) log(f string, a ...any) { s.x.Log("%s: %s", s.name, fmt.Sprintf(f, a...)) }

// call runs one client call, bounded, and tells whether it returned without error.
func (s *csess) call(name string, f func() error) bool {
	var e error
	s.x.Bounded("call:"+name, s.name+" "+name, s.bd, func() { e = f() })
	if e == nil {
		return true
	}
	s.log("%s: error", name)
	if !s.faulty {
		s.x.Fail("error:"+name, "%s: %s failed: %v", s.name, name, e)
	}
	s.failed = true
	s.x.Hit("error." + name)
	return false
}

// crispBound bounds the statements of a client call: a few messages, each in a few
// parts when buffers are small, while solves run on.
func (x *X) crispBound() int64 { return 4*x.ctlBound() + 4000000 + 12*x.netDelay }

func (x *X) dial(name, addr string, faulty bool) *csess {
	s := &csess{x: x, name: name, r: &ref{}, last: 2, bd: x.crispBound(), faulty: faulty, mv: true}
	if !s.call("Dial", func() error { var e error; s.c, e = crisp.Dial(addr); return e }) {
		return nil
	}
	return s
}

func (s *csess) addClause(c []int) {
	s.log("add %v", c)
	s.dirty = true
	if s.x.W(12) == 0 && len(c) > 0 {
		// as a file
		var b bytes.Buffer
		writeCnf(&b, &CNF{N: maxVarOf([][]int{c}), Cls: [][]int{c}})
		s.mv = s.mv && s.c.MaxVar() >= z.Var(maxVarOf([][]int{c}))
		s.call("Dimacs", func() error { return s.c.Dimacs(&b) })
	} else {
		for _, l := range c {
			s.call("Add", func() error { return s.c.Add(lit(l)) })
		}
		s.call("Add", func() error { return s.c.Add(z.LitNull) })
	}
	for _, l := range c {
		s.r.note(l)
	}
	s.r.cls = append(s.r.cls, refCl{lits: c})
}

func (s *csess) addCNF(f *CNF) {
	s.log("add %d clauses over %d variables %s", len(f.Cls), f.N, brief(f))
	s.dirty = true
	if s.x.W(4) == 0 {
		var b bytes.Buffer
		writeCnf(&b, f)
		s.mv = false // literals of trivially true clauses are not sent
		s.call("Dimacs", func() error { return s.c.Dimacs(&b) })
	} else {
		for _, c := range f.Cls {
			for _, l := range c {
				s.call("Add", func() error { return s.c.Add(lit(l)) })
			}
			s.call("Add", func() error { return s.c.Add(z.LitNull) })
			if s.failed {
				break
			}
		}
	}
	for _, c := range f.Cls {
		for _, l := range c {
			s.r.note(l)
		}
		s.r.cls = append(s.r.cls, refCl{lits: c})
	}
}

func writeCnf(b *bytes.Buffer, f *CNF) {
	fmt.Fprintf(b, "c test\np cnf %d %d\n", f.N, len(f.Cls))
	for _, c := range f.Cls {
		for _, l := range c {
			fmt.Fprintf(b, "%d ", l)
		}
		fmt.Fprintf(b, "0\n")
	}
}

func (s *csess) assume(ms ...int) {
	s.log("assume %v", ms)
	if s.call("Assume", func() error { return s.c.Assume(lits(ms)...) }) {
		for _, l := range ms {
			s.r.note(l)
		}
	}
	if len(ms) > 0 {
		s.dirty = true
	}
	s.r.pending = append(s.r.pending, ms...)
}

// solved takes note of a solve's outcome.
func (s *csess) solved(how string, res int, ok bool, as []int) {
	s.r.pending = nil
	if !ok {
		s.last = 2
		s.mod, s.have = nil, false
		return
	}
	s.log("%s under %v -> %d", how, as, res)
	s.last, s.lastAs, s.dirty = res, as, false
	s.mod, s.have = nil, false
	switch res {
	case 1, -1:
		s.nres++
		if o := oracle(s.r.formula(), as); o != 0 && o != res {
			s.x.Fail("answer", "%s: %s answered %d under %v, the truth is %d", s.name, how, res, as, o)
		}
	case 0:
	default:
		s.x.Fail("answer", "%s: %s answered %d", s.name, how, res)
	}
}

// solve runs one solve to its end, sometimes in the background.
func (s *csess) solve() {
	x := s.x
	as := s.r.assumed()
	if x.W(3) > 0 {
		var r int
		ok := s.call("Solve", func() error { var e error; r, e = s.c.Solve(); return e })
		if ok && r == 0 {
			x.Fail("zero", "%s: Solve answered 0 without an error", s.name)
		}
		s.solved("Solve", r, ok, as)
		return
	}
	s.bgSolve(as, true)
}

func (s *csess) broken() bool { return s.conn != nil && s.conn.Broken() }

// stopped checks that a solve which was stopped over a connection which was broken
// before is not told to have ended in good order: the server cannot have said so.
func (s *csess) stopped(name string, r int, ok, was bool) {
	if was && ok && r == 0 {
		s.x.Fail("success", "%s: %s returned 0 and no error over a connection broken before", s.name, name)
	}
}

// bgSolve runs a background solve under control.
func (s *csess) bgSolve(as []int, finish bool) {
	x := s.x
	c := s.c.GoSolve()
	for i := x.W(5); i > 0; i-- {
		if x.W(2) == 0 {
			simrt.Sleep(x.dur() * time.Duration(x.PickI(1, 10)))
			continue
		}
		var r int
		var done bool
		before := simrt.Cur().StepsRun()
		ok := s.call("Test", func() error { var e error; r, done, e = c.Test(); return e })
		if u := simrt.Cur().StepsRun() - before; u > 1000 {
			x.Fail("test", "%s: Test executed %d statements", s.name, u)
		}
		if !ok {
			s.solved("Test", 0, false, as)
			return
		}
		if done {
			if r == 0 {
				x.Fail("zero", "%s: Test: result 0 without a stop or an error", s.name)
			}
			s.solved("Test", r, ok, as)
			return
		}
		if r != 0 {
			x.Fail("answer", "%s: Test returned (%d, false)", s.name, r)
		}
	}
	op := x.W(3)
	if finish {
		op = 2
	}
	var r int
	switch op {
	case 0:
		was := s.broken()
		ok := s.call("Stop", func() error { var e error; r, e = c.Stop(); return e })
		s.stopped("Stop", r, ok, was)
		s.solved("Stop", r, ok, as)
	case 1:
		d := x.dur() * time.Duration(x.PickI(1, 10))
		t0 := simrt.NowNs()
		s.bd += int64(d) / x.Cfg.NsPerStep
		was := s.broken()
		ok := s.call("Try", func() error { var e error; r, e = c.Try(d); return e })
		s.bd -= int64(d) / x.Cfg.NsPerStep
		s.stopped("Try", r, ok, was)
		if el := simrt.NowNs() - t0; ok && r == 0 && el < int64(d) {
			x.Fail("early", "%s: Try(%s) gave up after %s", s.name, d, time.Duration(el))
		}
		s.solved("Try", r, ok, as)
	case 2:
		// wait for the answer, which must come
		ok := s.call("Test", func() error {
			for {
				v, done, e := c.Test()
				if e != nil {
					return e
				}
				if done {
					r = v
					return nil
				}
				simrt.Sleep(10 * time.Microsecond)
			}
		})
		if ok && r == 0 {
			x.Fail("zero", "%s: result 0 without a stop or an error", s.name)
		}
		s.solved("Test", r, ok, as)
	}
	if s.last == 0 {
		x.Hit("remote.stopped")
	}
}

// data asks for what the last solve allows.
func (s *csess) data() {
	x := s.x
	if s.last == 1 && !s.dirty {
		switch x.W(4) {
		case 0, 1:
			var m []bool
			switch {
			case x.W(2) == 0:
			case x.W(2) == 0 && s.buf != nil:
				m = s.buf // reuse the storage
			default:
				m = make([]bool, x.PickI(0, 1, 32, 33, 34, 64, 65, 100))
			}
			in := m
			if s.call("Model", func() error { var e error; m, e = s.c.Model(in); return e }) {
				s.have = true
				s.checkModel("Model", m, s.lastAs)
				s.agrees("Model", func(v int) (bool, bool) { return v < len(m) && m[v], true })
				s.mod = append([]bool(nil), m...)
				// the slice is ours
				switch x.W(4) {
				case 0:
					s.buf = m
				case 1:
					for i := range m {
						m[i] = x.W(2) == 0
					}
				case 2:
					s.modelFor(m)
				}
			}
		case 2:
			ok := true
			vals := map[int]bool{}
			val := func(l int) bool {
				if !ok {
					return false
				}
				if v, have := vals[l]; have {
					return v
				}
				var v bool
				ok = s.call("Value", func() error { var e error; v, e = s.c.Value(lit(l)); return e })
				vals[l] = v
				s.have = s.have || ok
				return v
			}
			for _, l := range s.lastAs {
				v := val(l)
				if ok && !v {
					x.Fail("model", "%s: Value(%d) is false although assumed", s.name, l)
				}
			}
			for _, c := range s.r.formula() {
				sat := false
				for _, l := range c {
					sat = sat || val(l)
				}
				if ok && !sat {
					x.Fail("model", "%s: the values falsify %v", s.name, c)
				}
			}
			for k := x.W(4); k > 0; k-- {
				// also of variables the problem does not have
				v := 1 + x.W(s.r.maxv+3)
				if x.W(2) == 0 {
					v = 1 + 32*(1+(s.r.maxv-1)/32)
				}
				if val(v) == val(-v) && ok {
					x.Fail("model", "%s: Value(%d) and Value(%d) agree", s.name, v, -v)
				}
			}
			if ok {
				s.ndata++
				s.agrees("Value", func(v int) (bool, bool) {
					b, have := vals[v]
					return b, have
				})
			}
		case 3:
			s.modelFor(nil)
		}
	}
	if s.last == -1 && !s.dirty {
		var why []z.Lit
		if !s.call("Why", func() error { var e error; why, e = s.c.Why(nil); return e }) {
			return
		}
		w := ints(why)
		s.log("Why -> %v", w)
		checkWhySet(x, "why", s.name, s.r.formula(), s.lastAs, w)
		s.ndata++
		if x.W(2) == 0 {
			s.whySelect(w)
		}
		if x.W(4) == 0 {
			pre := []z.Lit{lit(1)}
			var w2 []z.Lit
			if s.call("Why", func() error { var e error; w2, e = s.c.Why(pre); return e }) && len(w2) > 0 && w2[0] == lit(1) {
				checkWhySet(x, "why", s.name, s.r.formula(), s.lastAs, ints(w2[1:]))
			}
		}
	}
}

func (s *csess) checkModel(name string, m []bool, as []int) {
	s.ndata++
	if len(m) <= s.r.maxv && s.mv {
		// every variable of a clause or an assumption must be there
		for _, c := range append(append([][]int(nil), s.r.formula()...), as) {
			for _, l := range c {
				if iabs(l) >= len(m) {
					s.x.Fail("model", "%s: %s has %d values, variable %d is missing", s.name, name, len(m), iabs(l))
				}
			}
		}
	}
	checkModelV(s.x, "model", s.name, s.r.formula(), as, func(l int) bool {
		if iabs(l) >= len(m) {
			return l < 0
		}
		return m[iabs(l)] == (l > 0)
	})
}

// agrees checks values against what Model has returned before.
func (s *csess) agrees(name string, val func(v int) (b, have bool)) {
	for v := 1; v < len(s.mod) && v <= s.r.maxv; v++ {
		if b, have := val(v); have && b != s.mod[v] {
			s.x.Fail("model", "%s: %s has %v for variable %d, Model had %v", s.name, name, b, v, s.mod[v])
		}
	}
}

// modelFor asks for a partial model and checks it.
func (s *csess) modelFor(in []bool) {
	x := s.x
	var q []int
	mode := x.W(3)
	switch mode {
	case 0: // all assumptions and some clauses' literals
		q = append(q, s.lastAs...)
	case 1: // a complete model through literals of random sign
		for v := 1; v <= s.r.maxv; v++ {
			q = append(q, v*(1-2*x.W(2)))
		}
	}
	for k := x.W(40); k > 0 && s.r.maxv > 0; k-- {
		q = append(q, x.litOver(s.r.maxv))
	}
	if x.W(3) == 0 {
		q = append(q, -q2(q)) // the opposite of some literal
	}
	if x.W(6) == 0 {
		q = append(q, s.r.maxv+1+x.W(50)) // not in the problem
	}
	if in == nil && x.W(2) == 0 {
		in = make([]bool, x.PickI(0, 1, 32, 33, 34, 64, 65, 100))
	}
	var m []bool
	if !s.call("ModelFor", func() error { var e error; m, e = s.c.ModelFor(in, lits(q)); return e }) {
		return
	}
	if len(m) < len(q)+1 {
		x.Fail("modelfor", "%s: ModelFor of %d literals returned %d values", s.name, len(q), len(m))
		return
	}
	s.ndata++
	val := map[int]bool{}
	for i, l := range q {
		v := m[i+1]
		if o, have := val[l]; have && o != v {
			x.Fail("modelfor", "%s: ModelFor(%v): two values for %d", s.name, q, l)
		}
		val[l] = v
		val[-l] = !v
	}
	s.agrees("ModelFor", func(v int) (bool, bool) {
		b, have := val[v]
		return b, have
	})
	for _, l := range s.lastAs {
		if v, have := val[l]; have && !v {
			x.Fail("modelfor", "%s: ModelFor: assumption %d is false", s.name, l)
		}
	}
	for _, c := range s.r.formula() {
		sat := false
		for _, l := range c {
			v, have := val[l]
			sat = sat || !have || v
		}
		if !sat {
			x.Fail("modelfor", "%s: ModelFor falsifies the clause %v", s.name, c)
		}
	}
}

func q2(q []int) int {
	if len(q) == 0 {
		return 1
	}
	return q[len(q)/2]
}

func (s *csess) whySelect(why []int) {
	x := s.x
	var q []int
	for _, l := range s.lastAs {
		if x.W(3) > 0 {
			q = append(q, l)
		}
	}
	if x.W(2) == 0 && s.r.maxv > 0 {
		q = append(q, x.litOver(s.r.maxv))
	}
	for i := len(q) - 1; i > 0; i-- {
		j := x.W(i + 1)
		q[i], q[j] = q[j], q[i]
	}
	var out []z.Lit
	in := lits(q)
	var dst []z.Lit
	switch x.W(3) {
	case 1:
		dst = make([]z.Lit, 0, x.W(8))
	case 2:
		dst = []z.Lit{stray, stray}[:1+x.W(2)]
	}
	if !s.call("WhySelect", func() error { var e error; out, e = s.c.WhySelect(dst, in); return e }) {
		return
	}
	if n := len(dst); n > 0 && len(out) >= n && out[0] == stray {
		out = out[n:] // appended
	}
	if fmt.Sprint(ints(in)) != fmt.Sprint(q) {
		x.Fail("whyselect", "%s: WhySelect changed the literals it was asked for: %v, %v before", s.name, ints(in), q)
	}
	s.ndata++
	s.log("WhySelect(%v) -> %v", q, ints(out))
	var want []int
	for _, l := range q {
		if contains(why, l) {
			want = append(want, l)
		}
	}
	if fmt.Sprint(want) != fmt.Sprint(ints(out)) && !(len(want) == 0 && len(out) == 0) {
		x.Fail("whyselect", "%s: WhySelect(%v) returned %v, Why had %v", s.name, q, ints(out), why)
	}
}

// op performs one random operation.
func (s *csess) op(n *int) {
	x := s.x
	switch x.W(10) {
	case 0, 1:
		if x.W(8) == 0 {
			*n++
		}
		for k := 1 + x.W(4); k > 0; k-- {
			switch x.W(12) {
			case 0:
				s.addClause(x.clause(*n, 1+x.W(4)))
			case 1:
				s.addClause([]int{x.litOver(*n)})
			case 2:
				if x.W(20) == 0 {
					s.addClause(nil)
				}
			default:
				s.addClause(x.clauseNoRep(*n, 2+x.W(3)))
			}
		}
	case 2, 3:
		s.assume(x.pickAssumps(*n, 4)...)
	case 4, 5, 6:
		s.solve()
		for k := x.W(4); k > 0 && !s.failed; k-- {
			s.data()
		}
	case 7:
		if x.W(3) == 0 && s.last != 2 {
			s.log("reset")
			if s.call("Reset", func() error { return s.c.Reset() }) {
				s.r = &ref{}
				s.last, s.dirty = 2, false
				s.mod, s.have = nil, false
				s.mv = false
				if v := s.c.MaxVar(); v != 0 {
					x.Fail("maxvar", "%s: MaxVar is %d after Reset", s.name, v)
				}
			}
			break
		}
		s.data()
	case 8:
		var k int
		if s.call("GetExts", func() error { var e error; k, e = s.c.GetExts(); return e }) && k != 0 {
			x.Fail("exts", "%s: GetExts returned %d", s.name, k)
		}
	case 9:
		if s.mv && int(s.c.MaxVar()) != s.r.maxv {
			x.Fail("maxvar", "%s: MaxVar %d, added and assumed up to %d", s.name, s.c.MaxVar(), s.r.maxv)
		}
		if x.W(4) == 0 {
			simrt.Sleep(x.dur())
		}
	}
}

func (s *csess) run(ops int) {
	x := s.x
	n := 3 + x.W(12)
	if x.W(3) > 0 {
		f := x.midCNF()
		x.looser(f)
		n = f.N
		s.addCNF(f)
	}
	if x.W(12) == 0 {
		// a model of more than a buffer
		s.addClause([]int{n + 1 + x.W(4000), x.litOver(n)})
	}
	for i := 0; i < ops && !s.failed; i++ {
		s.op(&n)
	}
}

func (s *csess) quit() {
	if s.x.W(3) > 0 {
		s.call("Quit", func() error { return s.c.Quit() })
	}
	s.c.Close()
}

func bodyC13(x *X) {
	x.netUp()
	addr := x.crispServer()
	for k := 0; k < 2; k++ {
		s := x.dial(fmt.Sprintf("c%d", k), addr, false)
		s.run(4 + x.W(24))
		if s.nres > 0 && s.ndata > 0 {
			x.NonTrivial = true
		}
		s.quit()
		if x.W(3) > 0 {
			break
		}
	}
}

func bodyC14(x *X) {
	x.netUp()
	addr := x.crispServer()
	mode := x.W(4)
	kind := simrt.CutKind(1 + x.W(3))
	at := int64(x.W(x.PickI(60, 400, 3000)))
	var cc, cs *simrt.SimConn
	simrt.OnConn(func(c, srv *simrt.SimConn) {
		if cc != nil {
			return
		}
		cc, cs = c, srv
		switch mode {
		case 0:
			c.Cut(at, kind)
		case 1:
			srv.Cut(at, kind)
		}
	})
	opAt := -1
	if mode == 2 {
		opAt = x.W(20)
	}
	if mode == 3 {
		// at any moment
		d := x.dur() * time.Duration(x.PickI(1, 10, 100))
		simrt.GoTask("fault", func() {
			simrt.Sleep(d)
			if cc != nil {
				if x.F(2) == 0 {
					cc.Break(kind)
				} else {
					cs.Break(kind)
				}
			}
		})
	}
	x.Log("fault mode %d kind %s at byte %d, operation %d", mode, kind, at, opAt)
	s := x.dial("c", addr, true)
	if s == nil {
		x.NonTrivial = true
		return
	}
	n := 3 + x.W(12)
	if x.W(2) == 0 {
		f := x.midCNF()
		x.looser(f)
		n = f.N
		s.addCNF(f)
	}
	after := 0
	for i := 0; i < 30 && after < 4; i++ {
		if i == opAt {
			if x.F(2) == 0 {
				cc.Break(kind)
			} else {
				cs.Break(kind)
			}
		}
		if !s.failed {
			if x.W(6) == 0 {
				s.bgSolve(s.r.assumed(), false)
			} else {
				s.op(&n)
			}
			continue
		}
		// the client is used on after an error
		after++
		s.anyOp(n)
	}
	if s.failed {
		x.NonTrivial = true
	}
	s.call("Quit", func() error { return s.c.Quit() })
	s.c.Close()
	// the client leaves no goroutine of its own behind: only the server's remain
}

// anyOp calls anything, whatever the state.
func (s *csess) anyOp(n int) {
	x := s.x
	switch x.W(10) {
	case 0:
		s.call("Add", func() error { return s.c.Add(lit(x.litOver(n))) })
	case 9:
		v := 1 + x.W(n+2)
		var b bool
		if s.call("Value", func() error { var e error; b, e = s.c.Value(lit(v)); return e }) {
			if !s.have {
				x.Fail("success", "Value(%d) is %v without an error after the connection had failed", v, b)
			}
			s.agrees("Value", func(u int) (bool, bool) { return b, u == v })
		}
	case 1:
		s.call("Assume", func() error { return s.c.Assume(lits(x.pickAssumps(n, 3))...) })
	case 2:
		var r int
		if s.call("Solve", func() error { var e error; r, e = s.c.Solve(); return e }) {
			x.Fail("success", "Solve succeeded with %d after the connection had failed", r)
		}
	case 3:
		var m []bool
		if s.call("Model", func() error { var e error; m, e = s.c.Model(nil); return e }) {
			x.Fail("success", "Model returned %v and no error after the connection had failed", len(m))
		}
	case 4:
		var m []bool
		if s.call("ModelFor", func() error { var e error; m, e = s.c.ModelFor(nil, lits([]int{1, 2})); return e }) {
			x.Fail("success", "ModelFor returned %v and no error after the connection had failed", len(m))
		}
	case 5:
		var w []z.Lit
		if s.call("Why", func() error { var e error; w, e = s.c.Why(nil); return e }) {
			x.Fail("success", "Why returned %v and no error after the connection had failed", ints(w))
		}
	case 6:
		var w []z.Lit
		if s.call("WhySelect", func() error { var e error; w, e = s.c.WhySelect(nil, lits([]int{1, 2})); return e }) {
			x.Fail("success", "WhySelect returned %v and no error after the connection had failed", ints(w))
		}
	case 7:
		var k int
		if s.call("GetExts", func() error { var e error; k, e = s.c.GetExts(); return e }) {
			x.Fail("success", "GetExts returned %d and no error after the connection had failed", k)
		}
	case 8:
		c := s.c.GoSolve()
		var r int
		if s.call("Stop", func() error { var e error; r, e = c.Stop(); return e }) {
			x.Fail("success", "Stop returned %d and no error after the connection had failed", r)
		}
	}
}

func bodyC17(x *X) {
	x.netUpMax(400000)
	addr := x.crispServer()
	faulty := x.W(4) == 0
	var cc, cs *simrt.SimConn
	simrt.OnConn(func(c, srv *simrt.SimConn) { cc, cs = c, srv })
	s := x.dial("c", addr, false)
	s.faulty, s.conn = faulty, cc
	hard := x.W(2) == 0
	var f *CNF
	sel := 0
	easyN := 0
	if hard {
		var cls [][]int
		cls, easyN, sel = axHard(x)
		f = &CNF{N: maxVarOf(cls), Cls: cls}
	} else {
		f = x.midCNF()
		x.looser(f)
		easyN = f.N
	}
	s.addCNF(f)
	if faulty {
		d := x.dur() * time.Duration(x.PickI(1, 10, 100))
		kind := simrt.CutKind(1 + x.W(3))
		simrt.GoTask("fault", func() {
			simrt.Sleep(d)
			if x.F(2) == 0 {
				cc.Break(kind)
			} else {
				cs.Break(kind)
			}
		})
	}
	base := -1
	for rd := 1 + x.W(4); rd > 0 && !s.failed; rd-- {
		if !s.dirty && x.W(3) == 0 && !hard {
			s.addClause(x.clauseNoRep(easyN, 3))
		}
		as := x.pickAssumps(easyN, 3)
		hardNow := hard && x.W(3) > 0
		if hard {
			for i := range as {
				if iabs(as[i]) > easyN {
					as[i] = 1
				}
			}
			if hardNow {
				as = []int{sel}
			} else {
				as = append(as, -sel)
			}
		}
		s.assume(as...)
		if s.failed {
			break
		}
		if hardNow {
			// checked by hand: the oracle cannot do it
			s.hardBg(as)
		} else if hard {
			s.selBg(as, sel, f.Cls, easyN)
		} else {
			s.bgSolve(s.r.assumed(), false)
			if !s.failed && x.W(2) == 0 {
				s.data()
			}
		}
		if s.last == 0 || s.failed {
			x.NonTrivial = true
		}
	}
	_ = base
	if s.failed {
		for k := x.W(3); k > 0; k-- {
			s.anyOp(easyN)
		}
		return
	}
	s.quit()
}

// hardBg controls a solve which does not end by itself.
func (s *csess) hardBg(as []int) {
	x := s.x
	c := s.c.GoSolve()
	end := func(name string, r int, ok bool) {
		s.log("%s under %v -> %d %v", name, as, r, ok)
		s.r.pending = nil
		s.last, s.lastAs, s.dirty = r, as, false
		s.mod, s.have = nil, false
		if r == 1 {
			x.Fail("answer", "%s answered 1 on an unsatisfiable problem", name)
		}
		if !ok {
			s.last = 2
			s.mod, s.have = nil, false
		}
	}
	for i := x.W(6); i > 0; i-- {
		if x.W(2) == 0 {
			simrt.Sleep(x.dur() * time.Duration(x.PickI(1, 10)))
			continue
		}
		var r int
		var done bool
		ok := s.call("Test", func() error { var e error; r, done, e = c.Test(); return e })
		if !ok {
			end("Test", 0, false)
			return
		}
		if done && r == 0 {
			x.Fail("zero", "Test: result 0 without a stop or an error")
		}
		if done {
			end("Test", r, true)
			return
		}
	}
	var r int
	was := s.broken()
	if x.W(2) == 0 {
		ok := s.call("Stop", func() error { var e error; r, e = c.Stop(); return e })
		s.stopped("Stop", r, ok, was)
		end("Stop", r, ok)
		return
	}
	d := x.dur() * time.Duration(x.PickI(1, 10))
	s.bd += int64(d) / x.Cfg.NsPerStep
	t0 := simrt.NowNs()
	ok := s.call("Try", func() error { var e error; r, e = c.Try(d); return e })
	s.bd -= int64(d) / x.Cfg.NsPerStep
	s.stopped("Try", r, ok, was)
	if el := simrt.NowNs() - t0; ok && r == 0 && el < int64(d) {
		x.Fail("early", "Try(%s) gave up after %s", d, time.Duration(el))
	}
	end("Try", r, ok)
}

// selBg solves the easy part of a hard problem: the client carries on after stops.
func (s *csess) selBg(as []int, sel int, cls [][]int, easyN int) {
	x := s.x
	var easy [][]int
	for _, c := range cls {
		if maxVarOf([][]int{c}) <= easyN {
			easy = append(easy, c)
		}
	}
	var r int
	ok := s.call("Solve", func() error { var e error; r, e = s.c.Solve(); return e })
	s.log("Solve under %v -> %d %v", as, r, ok)
	s.r.pending = nil
	if !ok {
		s.last = 2
		s.mod, s.have = nil, false
		return
	}
	s.last, s.lastAs, s.dirty = r, as, false
	s.mod, s.have = nil, false
	if o := oracle(easy, as); o != r {
		x.Fail("answer", "after control of earlier solves, Solve under %v answers %d, the truth is %d", as, r, o)
	}
	switch r {
	case 1:
		var m []bool
		if s.call("Model", func() error { var e error; m, e = s.c.Model(nil); return e }) {
			s.have = true
			s.checkModel("Model", m, as)
		}
	case -1:
		var w []z.Lit
		if s.call("Why", func() error { var e error; w, e = s.c.Why(nil); return e }) {
			checkWhySet(x, "why", s.name, easy, as, ints(w))
		}
	}
}
