package main

import (
	"fmt"
	"time"

	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/internal/simrt"
	"github.com/go-air/gini/internal/xo"
	"github.com/go-air/gini/z"
)

var solverReal = []string{"gini", "internal/xo (solver, control, clause database, gc, activation)", "z", "inter"}
var solverStub = []string{"goroutine scheduler, channels, sync, select (simrt)", "time (simulated clock and timers)", "solver tuning constants drawn per run"}
var simAssume = []string{
	"preemption points are statements (function entries and loop iterations in the solver core); single statements are atomic",
	"the memory model is sequentially consistent",
	"the oracle's unsatisfiable answers are trusted (its satisfiable answers are evaluated); it is compared with enumeration in the self test",
}

func init() {
	register(&Prop{ID: "C01", Quick: 80000, Thorough: 1500000,
		Rule: "One run draws an instance, scheduler and tuning constants, starts a background solve and applies a random schedule of Test, Pause, Unpause, Try, Stop, Wait with sleeps in between, then solves again. Non-trivial: the solver task was preempted or paused, or a definite result was handed out by a control call.",
		Real: solverReal, Stub: solverStub, Assume: simAssume, Body: bodyC01})
	register(&Prop{ID: "C02", Quick: 25000, Thorough: 500000,
		Rule: "One run starts a background solve of an easy or practically unsolvable instance and checks every control call against a step bound, every pause for absence of progress, and the end for leftover goroutines. Non-trivial: a stop, pause or timeout hit a running solve.",
		Real: solverReal, Stub: solverStub, Assume: simAssume, Setup: setupC02, Body: bodyC02})
	register(&Prop{ID: "C03", Quick: 90000, Thorough: 2000000,
		Rule: "One run is a random history of adds, assumptions and solves, solves being plain, timed, or background solves that are stopped, timed out or paused at random moments; every answer and model is checked against the reference. Non-trivial: at least two solves, one of them interrupted or after an interrupted one.",
		Real: solverReal, Stub: solverStub, Assume: simAssume, Body: bodyC03})
	register(&Prop{ID: "C04", Quick: 120000, Thorough: 2500000,
		Rule: "As C03 with assumption-heavy histories; every explanation after -1 is checked for membership and sufficiency with the oracle. Non-trivial: at least one explanation was checked in a history with an interrupted or background solve, or with two or more unsatisfiable solves.",
		Real: solverReal, Stub: solverStub, Assume: simAssume, Body: bodyC04})
}

func (s *sess) solveChecked(class string, how solveHow) int {
	as := s.r.assumed()
	res := s.solve(how)
	s.r.pending = nil
	s.checkAnswer(class, res, as)
	return res
}

func bodyC01(x *X) {
	f := x.anyCNF()
	as := x.pickAssumps(f.N, x.PickI(0, 2, 4))
	useXo := x.W(2) == 0
	var g inter.S
	var xs *xo.S
	if useXo {
		xs = xo.NewS()
		g = xs
	} else {
		g = newGini(x)
	}
	x.Log("instance %d clauses over %d variables %s", len(f.Cls), f.N, brief(f))
	for _, c := range f.Cls {
		for _, l := range c {
			g.Add(lit(l))
		}
		g.Add(z.LitNull)
	}
	truth := oracle(f.Cls, as)
	rounds := 1 + x.W(3)
	for rd := 0; rd < rounds; rd++ {
		g.Assume(lits(as)...)
		x.Log("round %d: GoSolve under %v, truth %d", rd, as, truth)
		if xs != nil {
			xs.ReadStats(xo.NewStats())
		}
		c := g.GoSolve()
		finished := false // the solve certainly has its result
		nctl := 0
		// handed checks the result of the call which ended the solve
		handed := func(name string, res int, zeroOK bool) {
			x.Log("%s -> %d", name, res)
			if res != 0 {
				x.Hit("result." + name)
				x.NonTrivial = true
			}
			if truth != 0 && res != 0 && res != truth {
				x.Fail("wrong", "%s returned %d, the truth is %d", name, res, truth)
			}
			if res == 0 && finished {
				x.Fail("lost", "%s returned 0 although the solve had already produced its result", name)
			}
			if res == 0 && !zeroOK {
				x.Fail("zero", "%s returned 0 although the solve was neither stopped nor timed out", name)
			}
			if res == 0 && xs != nil {
				st := xo.NewStats()
				xs.ReadStats(st)
				if st.Sat+st.Unsat > 0 {
					x.Fail("lost", "%s returned 0 although the solver counted an answer (sat %d unsat %d)", name, st.Sat, st.Unsat)
				}
			}
			if res == 1 {
				checkModelV(x, "model", "after "+name, f.Cls, as, func(l int) bool { return g.Value(lit(l)) })
			}
			if res < -1 || res > 1 {
				x.Fail("wrong", "%s returned %d", name, res)
			}
			if res == 0 {
				x.Hit("stopped." + name)
				x.NonTrivial = true
			}
		}
		over := false
		control := func() {
			nctl++
			op := x.W(8)
			if nctl > 8 {
				op = x.PickI(0, 5, 4)
			}
			switch op {
			case 0: // stop
				handed("Stop", c.Stop(), true)
				over = true
			case 1:
				r, ok := c.Test()
				if !ok && finished {
					x.Fail("lost", "Test found no result although the solve had finished")
				}
				if !ok && r != 0 {
					x.Fail("wrong", "Test returned (%d, false)", r)
				}
				if ok {
					handed("Test", r, false)
					over = true
				}
			case 2:
				r, ok := c.Pause()
				if !ok {
					handed("Pause", r, false)
					over = true
					break
				}
				if r != 0 {
					x.Fail("wrong", "Pause returned (%d, true)", r)
				}
				if finished {
					x.Fail("lost", "Pause succeeded although the solve had finished")
				}
				x.Hit("paused")
				x.NonTrivial = true
				if x.W(2) == 0 {
					simrt.Sleep(x.dur())
				}
				c.Unpause()
			case 3:
				simrt.Sleep(x.dur())
			case 4:
				d := x.dur()
				st := simrt.NowNs()
				r := c.Try(d)
				if el := simrt.NowNs() - st; r == 0 && el < int64(d) {
					x.Fail("early", "Try(%s) gave up after %s", d, time.Duration(el))
				}
				handed("Try", r, true)
				over = true
			case 5:
				handed("Wait", c.Wait(), false)
				over = true
			case 6:
				simrt.Gosched()
			case 7: // let the solve finish by itself
				simrt.Quiesce()
				finished = true
				x.Hit("finished_before_call")
			}
		}
		x.small(f.N, "GoSolve", func() {
			for !over {
				control()
			}
		})
		// the same solver gives right answers afterwards
		if x.W(3) > 0 {
			as2 := x.pickAssumps(f.N, 3)
			g.Assume(lits(as2)...)
			x.Log("later solve under %v", as2)
			var r int
			x.small(f.N, "a later solve", func() {
				switch x.W(3) {
				case 0:
					r = g.Solve()
				case 1:
					r = g.GoSolve().Wait()
				case 2:
					r = g.Try(time.Hour)
				}
			})
			x.Log("-> %d", r)
			t2 := oracle(f.Cls, as2)
			if r == 0 || t2 != 0 && r != t2 {
				x.Fail("later", "a later solve under %v answered %d, the truth is %d", as2, r, t2)
			}
			if r == 1 {
				checkModelV(x, "later:model", "later solve", f.Cls, as2, func(l int) bool { return g.Value(lit(l)) })
			}
		}
	}
}

func setupC02(x *X) {
	x.stdSetup()
	if x.W(4) == 0 {
		// the shipped constants
		delete(x.Knobs, "PropTick")
	}
	x.Cfg.MaxSteps = 80000000
	x.Cfg.StallPct = 0
	x.Cfg.Quantum = 5000
	if x.Cfg.NsPerStep > 100 {
		x.Cfg.NsPerStep = 100
	}
}

// ctlBound is the number of statements within which a running solve must react.
func (x *X) ctlBound() int64 {
	pt := int64(20000)
	if v, ok := x.Knobs["PropTick"]; ok && simrt.HasKnob("PropTick") {
		pt = v
	}
	return 300000 + 1500*pt
}

func bodyC02(x *X) {
	hard := x.W(3) > 0
	var f *CNF
	if hard {
		f, _ = x.hardCNF()
	} else {
		f = x.anyCNF()
	}
	var g inter.S
	var xs *xo.S // the solver below, for its statistics
	if x.W(2) == 0 {
		xs = xo.NewSVc(1+x.W(30), 1+x.W(30))
		g = xs
	} else {
		g = newGini(x)
	}
	x.Log("instance %d clauses over %d variables (hard %v)", len(f.Cls), f.N, hard)
	for _, c := range f.Cls {
		for _, l := range c {
			g.Add(lit(l))
		}
		g.Add(z.LitNull)
	}
	as := x.pickAssumps(f.N, x.PickI(0, 1))
	truth := -1
	if !hard {
		truth = oracle(f.Cls, as)
	}
	bd := x.ctlBound()
	end := func(res int) {
		if res != 0 && truth != 0 && res != truth {
			x.Fail("wrong", "the solve answered %d, the truth is %d", res, truth)
		}
		// every solving goroutine must end
		x.Bounded("leak", "ending of the solve's goroutines", bd, func() { simrt.Quiesce() })
		if l := libTasks(); len(l) > 0 {
			x.Fail("leak", "goroutines left after the solve is over: %v", l)
		}
	}
	// long is a time in which a solve does far more than what its bounds allow.
	long := func() time.Duration {
		return time.Duration((2*bd + int64(x.W(int(bd)))) * x.Cfg.NsPerStep)
	}
	longs := 1
	rounds := 1 + x.W(2)
	for rd := 0; rd < rounds; rd++ {
		g.Assume(lits(as)...)
		c := g.GoSolve()
		x.Log("GoSolve under %v", as)
		over := false
		if xs != nil && x.W(4) == 0 {
			freq, limit := x.dur(), x.dur()
			if x.W(2) == 0 && bd < 2000000 {
				freq = long()
				limit = freq + x.dur()
			}
			st := simrt.NowNs()
			res, n := 0, 0
			x.Bounded("mon", "TryStats", int64(limit)/x.Cfg.NsPerStep+2*bd+bd*min(10, 10*bd*x.Cfg.NsPerStep/int64(freq)), func() {
				reports := c.(*xo.Ctl).TryStats(limit, freq)
				for {
					sr, ok := simrt.Recv2(reports)
					if !ok {
						break
					}
					n++
					res = sr.Result
				}
			})
			el := simrt.NowNs() - st
			x.Log("TryStats(%s, %s) -> %d after %s, %d reports", limit, freq, res, time.Duration(el), n)
			x.Hit("trystats")
			if n == 0 {
				x.Fail("mon:none", "TryStats reported nothing")
			}
			if res == 0 {
				x.NonTrivial = true
				if el < int64(limit) {
					x.Fail("mon:early", "TryStats(%s) gave up after %s", limit, time.Duration(el))
				}
			}
			end(res)
			continue
		}
		for n := 0; !over; n++ {
			op := x.W(6)
			if n > 6 {
				op = x.PickI(0, 4)
			}
			switch op {
			case 0:
				var r int
				x.Bounded("stop", "Stop", bd, func() { r = c.Stop() })
				x.Log("Stop -> %d", r)
				if r == 0 {
					x.NonTrivial = true
					x.Hit("stop.running")
				}
				end(r)
				over = true
			case 1:
				before := simrt.Cur().StepsRun()
				var r int
				var ok bool
				x.Bounded("test", "Test", 40*x.Cfg.Quantum+20000, func() { r, ok = c.Test() })
				if u := simrt.Cur().StepsRun() - before; u > 2000 {
					x.Fail("test", "Test executed %d statements", u)
				}
				x.Log("Test -> %d %v", r, ok)
				if ok {
					end(r)
					over = true
				}
			case 2:
				var r int
				var ok bool
				x.Bounded("pause", "Pause", bd, func() { r, ok = c.Pause() })
				x.Log("Pause -> %d %v", r, ok)
				if !ok {
					end(r)
					over = true
					break
				}
				x.NonTrivial = true
				x.Hit("pause.running")
				if xs != nil && x.W(2) == 0 {
					xs.ReadStats(xo.NewStats())
					x.Hit("stats.paused")
				}
				st0 := simrt.Steps()
				me0 := simrt.Cur().StepsRun()
				d := x.dur()
				x.Bounded("pauseprogress", "quiet during a pause", bd, func() {
					simrt.Quiesce()
					simrt.Sleep(d)
				})
				if u := simrt.Steps() - st0 - (simrt.Cur().StepsRun() - me0); u > 500 {
					x.Fail("pauseprogress", "the paused solve executed %d statements", u)
				}
				x.Bounded("unpause", "Unpause", bd, func() { c.Unpause() })
				if hard {
					// the solve must go on
					s0 := simrt.Steps()
					me0 := simrt.Cur().StepsRun()
					for k := 0; k < 50 && simrt.Steps()-s0 < 4000; k++ {
						simrt.Sleep(time.Duration(x.Cfg.NsPerStep * 100))
					}
					if u := simrt.Steps() - s0 - (simrt.Cur().StepsRun() - me0); u < 500 {
						x.Fail("unpause", "after Unpause the solve makes no progress (%d statements)", u)
					}
				} else if x.W(3) == 0 {
					x.Log("finishing after Unpause")
					r := c.Wait()
					if r == 0 {
						x.Fail("unpause", "after Unpause the solve answered 0")
					}
					end(r)
					over = true
				}
			case 3:
				if longs > 0 && hard && bd < 2000000 && x.W(8) == 0 {
					longs--
					simrt.Sleep(long())
					break
				}
				simrt.Sleep(x.dur())
			case 4:
				d := x.dur()
				st := simrt.NowNs()
				var r int
				x.Bounded("try", "Try", int64(d)/x.Cfg.NsPerStep+bd, func() { r = c.Try(d) })
				el := simrt.NowNs() - st
				x.Log("Try(%s) -> %d after %s", d, r, time.Duration(el))
				if r == 0 {
					x.NonTrivial = true
					x.Hit("try.timeout")
					if el < int64(d) {
						x.Fail("try:early", "Try(%s) gave up after %s", d, time.Duration(el))
					}
				}
				end(r)
				over = true
			case 5:
				if hard {
					simrt.Gosched()
					break
				}
				r := c.Wait()
				x.Log("Wait -> %d", r)
				if r == 0 {
					x.Fail("wait", "Wait returned 0")
				}
				end(r)
				over = true
			}
		}
	}
	_ = fmt.Sprint
}

// grow adds clauses over the current variables or some new ones.
func (s *sess) grow(n *int) {
	x := s.x
	switch x.W(10) {
	case 0:
		*n += 1 + x.W(3)
	case 1:
		s.addClause(x.clause(*n, 1+x.W(4))) // may be a tautology or repeat literals
		return
	case 2:
		if x.W(30) == 0 {
			s.addClause(nil) // the empty clause
			return
		}
	case 3:
		s.addClause([]int{x.litOver(*n)})
		return
	}
	k := 1 + x.W(6)
	for i := 0; i < k; i++ {
		s.addClause(x.clauseNoRep(*n, 2+x.W(3)))
	}
}

func bodyC03(x *X) {
	for k := 0; k < 3; k++ {
		if !historyC03(x, k) {
			return
		}
	}
}

// historyC03 is one history with one solver; it tells whether the clauses became
// unsatisfiable early.
func historyC03(x *X, k int) bool {
	s := newSess(x, fmt.Sprintf("g%d", k))
	var n int
	if x.W(4) > 0 {
		f := x.anyCNF()
		x.looser(f)
		n = f.N
		s.addCNF(f)
	} else {
		n = 3 + x.W(12)
		s.grow(&n)
	}
	ops := 3 + x.W(25)
	solves, intr := 0, 0
	for i := 0; i < ops; i++ {
		switch x.W(6) {
		case 0, 1:
			s.grow(&n)
		case 2:
			s.assume(x.pickAssumps(n, 4)...)
		default:
			how := solveHow(x.PickI(0, 1, 1, 2, 3, 3, 4, 4, 5, 5, 6))
			free := len(s.r.pending) == 0
			res := s.solveChecked("solve", how)
			solves++
			if res == -1 && free && x.W(4) > 0 {
				s.final("final")
				return true
			}
			if res == 0 {
				intr++
				if how == howSolve || how == howBgWait {
					x.Fail("zero", "%s returned 0", howNames[how])
				}
			}
			if res == 1 && x.W(3) == 0 {
				// the values stay readable
				s.checkModel("solve:model", nil)
			}
			if res == -1 && x.W(3) == 0 {
				s.g.Why(nil)
			}
			if solves > 1 && intr > 0 {
				x.NonTrivial = true
			}
		}
	}
	// a final solve without assumptions
	s.final("final")
	return false
}

// final checks that the solver still gives right, definite answers.
func (s *sess) final(class string) {
	r := s.g.Solve() // forgets pending assumptions
	s.log("solve -> %d", r)
	s.r.pending = nil
	r = s.g.Solve()
	s.log("final solve -> %d", r)
	if r == 0 {
		s.x.Fail(class+":zero", "%s: Solve returned 0", s.name)
	}
	s.checkAnswer(class, r, s.r.scoped())
}

func bodyC04(x *X) {
	s := newSess(x, "g")
	var n int
	if x.W(3) == 0 {
		f := x.anyCNF()
		x.looser(f)
		n = f.N
		s.addCNF(f)
	} else {
		n = 3 + x.W(10)
		s.grow(&n)
		s.grow(&n)
	}
	ops := 4 + x.W(20)
	bg, whys := 0, 0
	for i := 0; i < ops; i++ {
		switch x.W(8) {
		case 0:
			if len(s.r.scopes) == 0 {
				s.grow(&n)
			}
		case 1:
			if len(s.r.scopes) < 3 && !s.unsatScope {
				s.assume(x.pickAssumps(n, 3)...)
				s.test()
				if s.unsatScope {
					s.checkWhy("why", s.r.assumed())
					whys++
				}
			}
		case 2:
			if len(s.r.scopes) > 0 {
				s.untest()
			}
		default:
			if s.unsatScope && len(s.r.scopes) > 0 && x.W(2) == 0 {
				s.untest()
				break
			}
			s.assume(x.pickAssumps(n, 6)...)
			how := solveHow(x.W(int(nHow)))
			as := s.r.assumed()
			res := s.solveChecked("solve", how)
			if how != howSolve {
				bg++
			}
			if res == -1 {
				s.checkWhy("why", as)
				whys++
				x.Hit("why")
				if x.W(3) == 0 {
					s.checkWhy("why2", as)
				}
				if len(s.r.scopes) > 0 {
					s.unsatScope = true
				}
			} else {
				// no explanation to give
				if len(s.r.scopes) > 0 && res == 0 {
					x.Hit("scope.interrupted")
				}
			}
			if whys > 0 && bg > 0 || whys > 1 {
				x.NonTrivial = true
			}
		}
	}
}

// test opens a scope with the pending assumptions and checks what it reports.
func (s *sess) test() (int, []int) {
	x := s.x
	var dst []z.Lit
	withDst := x.W(4) > 0
	if withDst {
		dst = make([]z.Lit, 0, x.W(8))
	}
	res, out := s.g.Test(dst)
	os := ints(out)
	s.log("test %v -> %d %v", s.r.pending, res, os)
	s.r.scopes = append(s.r.scopes, s.r.pending)
	s.r.pending = nil
	as := s.r.scoped()
	f := s.r.formula()
	switch res {
	case 1:
		s.checkModel("test:model", as)
	case -1:
		s.unsatScope = true
		if o := oracle(f, as); o == 1 {
			x.Fail("test:answer", "%s: Test answered -1 but the scope %v is satisfiable", s.name, as)
		}
	case 0:
	default:
		x.Fail("test:answer", "%s: Test answered %d", s.name, res)
	}
	if res != -1 {
		for _, l := range os {
			if contains(as, l) {
				continue
			}
			if o := oracle(f, append(append([]int(nil), as...), -l)); o == 1 {
				x.Fail("test:implied", "%s: Test reported %d, which the clauses and %v do not imply", s.name, l, as)
			}
		}
		if !withDst && out != nil {
			x.Fail("test:nil", "%s: Test(nil) returned literals", s.name)
		}
	}
	return res, os
}

func (s *sess) untest() int {
	r := s.g.Untest()
	s.log("untest -> %d", r)
	s.r.scopes = s.r.scopes[:len(s.r.scopes)-1]
	switch r {
	case -1:
		s.unsatScope = true
		if o := oracle(s.r.formula(), s.r.scoped()); o == 1 {
			s.x.Fail("untest:answer", "%s: Untest answered -1 but the remaining scopes %v are satisfiable", s.name, s.r.scopes)
		}
	case 0:
		s.unsatScope = false
	default:
		s.x.Fail("untest:answer", "%s: Untest answered %d", s.name, r)
	}
	return r
}
