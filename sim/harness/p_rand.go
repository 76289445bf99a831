package main

import (
	"fmt"
	"math/rand"
	"time"

	"github.com/go-air/gini/ax"
	"github.com/go-air/gini/gen"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/internal/simrt"
	"github.com/go-air/gini/z"
)

func init() {
	register(&Prop{ID: "C21", Quick: 800000, Thorough: 12000000,
		Rule: "One run takes a stub solver through a history of plain, timed and background solves driven by random Test, Pause, Unpause, Try, Stop and Wait calls around the expiry of its timer, copies it (also while paused), and checks every result, every call's simulated time and statement bound, and the end for leftover goroutines; some runs put stub solvers under the assumption exchanger. Non-trivial: a control call met a running solve, or two solves followed one another.",
		Real: []string{"gen/rands.go", "ax (some runs)", "z", "inter"}, Stub: []string{"goroutine scheduler, channels, sync, select (simrt)", "time (simulated clock and timers)"},
		Assume: []string{"one task controls one solver at a time, as the interface demands"}, Setup: setupC21, Body: bodyC21})
}

func setupC21(x *X) {
	x.stdSetup()
	x.Cfg.MaxSteps = 4000000
	x.Cfg.MaxSimTime = 0
}

// stub drives one stub solver.
type stub struct {
	x    *X
	name string
	s    inter.S
	d    time.Duration
	res  int
	n    int // solves done
}

const stubSteps = 400000

// timed runs f, which must return within d simulated time (and a slack for the statements
// it and others execute meanwhile).
func (s *stub) timed(what string, d time.Duration, f func()) {
	x := s.x
	t0 := simrt.NowNs()
	st := simrt.Steps()
	x.Bounded("control", s.name+" "+what, stubSteps, f)
	el := simrt.NowNs() - t0
	own := (simrt.Steps()-st)*x.Cfg.NsPerStep + int64(stubSteps)*x.Cfg.NsPerStep
	if lim := int64(d) + own; el > lim {
		x.Fail("late", "%s: %s took %s, the bound is %s", s.name, what, time.Duration(el), time.Duration(lim))
	}
}

// result checks the result of a solve; zero tells whether 0 is possible.
func (s *stub) result(what string, r int, zero bool) {
	s.x.Log("%s: %s -> %d", s.name, what, r)
	if r == 0 && zero {
		s.x.Hit("stopped." + what)
		return
	}
	if r != 1 && r != -1 || s.res != 0 && r != s.res {
		s.x.Fail("result", "%s: %s returned %d (made with result %d, 0 possible: %v)", s.name, what, r, s.res, zero)
	}
	s.x.Hit("result." + what)
}

func (s *stub) timeout() time.Duration {
	x := s.x
	switch x.W(4) {
	case 0:
		return s.d * 2
	case 1:
		return s.d / 2
	case 2:
		return time.Duration(1 + x.W(int(s.d)))
	}
	return time.Duration(1 + x.W(100))
}

func (s *stub) nap() {
	switch s.x.W(4) {
	case 0:
		simrt.Sleep(s.timeout())
	case 1:
		simrt.Gosched()
	case 2:
		simrt.Sleep(time.Duration(s.x.W(int(s.d))))
	}
}

func (s *stub) solve() {
	x := s.x
	if s.n++; s.n > 1 {
		x.NonTrivial = true
	}
	switch x.W(6) {
	case 0:
		r := 0
		s.timed("Solve", s.d, func() { r = s.s.Solve() })
		s.result("Solve", r, false)
		return
	case 1:
		d := s.timeout()
		r := 0
		s.timed("Try", min(d, s.d), func() { r = inter.S(s.s).Try(d) })
		s.result("Try", r, d <= s.d+stubSteps*time.Duration(x.Cfg.NsPerStep))
		return
	}
	var c inter.Solve
	s.timed("GoSolve", 0, func() { c = s.s.GoSolve() })
	late := false
	for i := x.W(6); i >= 0; i-- {
		switch x.W(4) {
		case 0:
			r, ok := 0, false
			s.timed("Test", 0, func() { r, ok = c.Test() })
			if ok {
				s.result("Test", r, false)
				return
			}
			if r != 0 {
				x.Fail("result", "%s: Test returned (%d, false)", s.name, r)
			}
			if late {
				x.Fail("lost", "%s: no result although nothing but the solve has been running", s.name)
			}
			x.NonTrivial = true
		case 1:
			r, ok := 0, false
			s.timed("Pause", 0, func() { r, ok = c.Pause() })
			if !ok {
				s.result("Pause", r, false)
				return
			}
			if r != 0 {
				x.Fail("result", "%s: Pause returned (%d, true)", s.name, r)
			}
			x.NonTrivial = true
			x.Hit("paused")
			if x.W(4) == 0 {
				s.copy("copy of the paused "+s.name, 1)
			}
			s.nap()
			s.timed("Unpause", 0, c.Unpause)
		default:
			s.nap()
		}
	}
	if x.W(8) == 0 {
		// long after its time the result is there
		simrt.Quiesce() // it has begun
		simrt.Sleep(s.d * 2)
		simrt.Quiesce()
		late = true
		r, ok := 0, false
		s.timed("Test", 0, func() { r, ok = c.Test() })
		if !ok {
			x.Fail("lost", "%s: no result long after the time of the solve", s.name)
		}
		s.result("Test", r, false)
		return
	}
	switch x.W(3) {
	case 0:
		r := 0
		s.timed("Stop", 0, func() { r = c.Stop() })
		s.result("Stop", r, true)
	case 1:
		d := s.timeout()
		r := 0
		s.timed("Solve.Try", min(d, s.d), func() { r = c.Try(d) })
		s.result("Solve.Try", r, d <= s.d+stubSteps*time.Duration(x.Cfg.NsPerStep))
	case 2:
		r := 0
		s.timed("Wait", s.d, func() { r = c.Wait() })
		s.result("Wait", r, false)
	}
}

// copy checks a copy by itself.
func (s *stub) copy(name string, n int) {
	var c inter.S
	s.timed("SCopy", 0, func() { c = s.s.SCopy() })
	t := &stub{x: s.x, name: name, s: c, d: s.d, res: s.res}
	for i := 0; i < n; i++ {
		t.solve()
	}
}

// use calls the rest of the interface: after a solve everything is unlocked.
func (s *stub) use() {
	s.timed("other calls", 0, func() {
		m := s.s.Lit()
		s.s.Add(m)
		s.s.Add(z.LitNull)
		if v := s.s.MaxVar(); v < m.Var() {
			s.x.Fail("maxvar", "%s: MaxVar is %d behind Lit %s", s.name, v, m)
		}
		s.s.Assume(m)
		s.s.Value(m)
		s.s.Why(nil)
		s.s.Reasons(nil, m)
		if r, _ := s.s.Test(nil); r < -1 || r > 1 {
			s.x.Fail("result", "%s: Test of assumptions returned %d", s.name, r)
		}
		if r := s.s.Untest(); r < -1 || r > 1 {
			s.x.Fail("result", "%s: Untest returned %d", s.name, r)
		}
	})
}

func bodyC21(x *X) {
	if x.W(12) == 11 {
		x.stubExchanger()
		return
	}
	n := x.PickI(1, 1, 2, 3)
	var ts []*simrt.Task
	for i := 0; i < n; i++ {
		d := time.Duration(x.Pick(1000, 1, 30, 300, 20000, 1000000)) * time.Duration(x.Cfg.NsPerStep)
		res := x.PickI(0, 1, -1)
		s := &stub{x: x, name: fmt.Sprintf("stub%d", i), s: gen.RandSr(d, res, rand.NewSource(int64(x.W(1000)))), d: d, res: res}
		x.Log("%s: up to %s, result %d", s.name, d, res)
		k := 1 + x.W(5)
		ts = append(ts, simrt.GoHarness(s.name, func() {
			for ; k > 0; k-- {
				s.solve()
				if x.W(2) == 0 {
					s.use()
				}
				if x.W(5) == 0 {
					s.copy("copy of "+s.name, 2)
				}
			}
		}))
	}
	for _, t := range ts {
		t.Join()
	}
	simrt.Quiesce()
	if l := libTasks(); len(l) > 0 {
		x.Fail("leak", "after the last solve goroutines are left: %v", l)
	}
}

// stubExchanger puts stub solvers under the assumption exchanger.
func (x *X) stubExchanger() {
	d := time.Duration(x.Pick(1000, 30, 20000)) * time.Duration(x.Cfg.NsPerStep)
	res := x.PickI(0, 1, -1)
	units := 1 + x.W(4)
	a := ax.NewT(gen.RandSr(d, res, rand.NewSource(int64(x.W(1000)))), units)
	n := 1 + x.W(8)
	x.Log("exchanger of %d units over a stub of up to %s, result %d, %d requests", units, d, res, n)
	seen := make([]bool, n)
	next, got := 0, 0
	var req *ax.Request
	for calls := 0; got < n; calls++ {
		if req == nil && next < n {
			req = ax.NewRequest(z.Var(1 + x.W(5)).Pos())
			req.Id = next
			if x.W(3) == 0 {
				req.Limit = time.Duration(1 + x.W(int(d)))
			}
			next++
		}
		var r *ax.Response
		x.Bounded("ex", "Ex", 4*stubSteps, func() { r = a.Ex(req) })
		if r == nil {
			req = nil
			continue
		}
		if seen[r.Req.Id] {
			x.Fail("twice", "request %d got a second response", r.Req.Id)
		}
		seen[r.Req.Id] = true
		got++
		x.NonTrivial = true
		if r.Res < -1 || r.Res > 1 || r.Res == 0 && r.Req.Limit == 0 || res != 0 && r.Res != 0 && r.Res != res {
			x.Fail("result", "request %d (limit %s) answered %d by stubs of result %d", r.Req.Id, r.Req.Limit, r.Res, res)
		}
	}
	x.Bounded("stop", "Stop", 4*stubSteps, func() { a.Stop() })
	simrt.Sleep(d * 2)
	simrt.Quiesce()
	if l := libTasks(); len(l) > 0 {
		x.Fail("leak", "after Stop goroutines are left: %v", l)
	}
}
