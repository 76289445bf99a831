package main

import (
	"fmt"
	"sort"
	"time"

	"github.com/go-air/gini/ax"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/internal/simrt"
	"github.com/go-air/gini/z"
)

var axReal = []string{"ax exchanger, units and request generator", "gini/xo solver, background solve control"}
var axStub = []string{"goroutine scheduling, select choice, clocks, tickers and timers (simulated)"}

func init() {
	register(&Prop{ID: "C09", Quick: 120000, Thorough: 3000000,
		Title: "The assumption exchanger answers every accepted request once and rightly",
		Rule:  "a prototype with an oracle-decidable formula, 1-3 client goroutines exchanging 1-14 requests of random flags, limits and assumptions by Ex and TryEx over an exchanger of capacity 1-5; non-trivial when at least two requests were answered",
		Real:  axReal, Stub: axStub, Setup: setupAx, Body: bodyC09})
	register(&Prop{ID: "C10", Quick: 80000, Thorough: 2000000,
		Title: "The exchanger makes progress in parallel, in bounded time and within limits",
		Rule:  "a formula with a selector between an easy part and a pigeon hole instance no run finishes; hard requests with and without limits are kept running while easy ones must be answered; non-trivial when a hard request was running while an easy one was answered, or a limit ran out",
		Real:  axReal, Stub: axStub, Setup: setupC10, Body: bodyC10})
	register(&Prop{ID: "C11", Quick: 120000, Thorough: 2500000,
		Title: "Stopping the exchanger ends all of its activity",
		Rule:  "Stop at a random instant of a random session of 1-3 clients, easy and hard requests, receiving or not; non-trivial when a request was pending at Stop",
		Real:  axReal, Stub: axStub, Setup: setupC10, Body: bodyC11})
	register(&Prop{ID: "C12", Quick: 600000, Thorough: 12000000,
		Title: "Request generation is safe and unique under concurrent use",
		Rule:  "2-4 goroutines call New, SetFlag, Limit and Flag on one generator (own or package default); the recorded history must be linearizable; non-trivial when at least two goroutines overlapped",
		Real:  []string{"ax request generator"}, Stub: axStub, Setup: setupC12, Body: bodyC12})
}

func setupAx(x *X) {
	x.stdSetup()
	x.Cfg.MaxSteps = 40000000
}

// countS is the prototype handed to the exchanger: it counts copies and running
// solves, and otherwise is the real solver.
type countS struct {
	inter.S
	st *axStats
}

type axStats struct {
	copies  int
	running int
	maxRun  int
	started int
	decided int // solves which handed over a definite result
}

func (st *axStats) over(r int) {
	st.running--
	if r != 0 {
		st.decided++
	}
}

func (c *countS) SCopy() inter.S {
	c.st.copies++
	return &countS{c.S.SCopy(), c.st}
}

func (c *countS) GoSolve() inter.Solve {
	c.st.running++
	c.st.started++
	if c.st.running > c.st.maxRun {
		c.st.maxRun = c.st.running
	}
	return &countSolve{c.S.GoSolve(), c.st}
}

type countSolve struct {
	inter.Solve
	st *axStats
}

func (c *countSolve) Stop() int { r := c.Solve.Stop(); c.st.over(r); return r }
func (c *countSolve) Try(d time.Duration) int {
	r := c.Solve.Try(d)
	c.st.over(r)
	return r
}
func (c *countSolve) Wait() int { r := c.Solve.Wait(); c.st.over(r); return r }
func (c *countSolve) Test() (int, bool) {
	r, ok := c.Solve.Test()
	if ok {
		c.st.over(r)
	}
	return r, ok
}
func (c *countSolve) Pause() (int, bool) {
	r, ok := c.Solve.Pause()
	if !ok {
		c.st.over(r)
	}
	return r, ok
}

// axReq is what the harness knows of a request.
type axReq struct {
	req      *ax.Request
	as       []int
	from     int64 // before the exchange which submitted it
	accepted bool
	accAt    int64 // steps
	answers  int
	hard     bool
	ansAt    int64
}

// axSess drives one exchanger.
type axSess struct {
	x       *X
	t       ax.T
	cls     [][]int
	maxv    int
	cap     int
	reqs    map[*ax.Request]*axReq
	order   []*axReq
	nacc    int
	nans    int
	decided int
	gen     *ax.RequestGen
	truth   func(r *axReq) int // 1, -1; 0 unknown
	whyC    [][]int            // clauses which decide explanations without hard assumptions
}

func newAxSess(x *X, cls [][]int) *axSess {
	m := &axSess{x: x, cls: cls, whyC: cls, reqs: map[*ax.Request]*axReq{}, gen: ax.NewRequestGen()}
	m.maxv = maxVarOf(cls)
	m.truth = func(r *axReq) int { return oracle(m.cls, r.as) }
	return m
}

func maxVarOf(cls [][]int) int {
	n := 0
	for _, c := range cls {
		for _, l := range c {
			if a := iabs(l); a > n {
				n = a
			}
		}
	}
	return n
}

// newReq makes a request.
func (m *axSess) newReq(as []int, limit time.Duration) *axReq {
	x := m.x
	fl := ax.ReqFlag(x.W(4))
	var r *ax.Request
	if x.W(3) == 0 {
		r = &ax.Request{Id: len(m.order) + 1000, Flag: fl, Limit: limit, Ms: lits(as)}
	} else {
		m.gen.SetFlag(fl)
		m.gen.Limit(limit)
		r = m.gen.New(lits(as)...)
	}
	q := &axReq{req: r, as: as, from: -1}
	m.reqs[r] = q
	m.order = append(m.order, q)
	return q
}

func (m *axSess) name(q *axReq) string {
	return fmt.Sprintf("request %v flag %s limit %s", q.as, q.req.Flag, q.req.Limit)
}

// onResp checks a response.
func (m *axSess) onResp(r *ax.Response) {
	x := m.x
	m.nans++
	q := m.reqs[r.Req]
	if q == nil {
		x.Fail("madeup", "a response refers to a request which was never made: %v", r.Req)
		return
	}
	x.Log("response to %s: %d", m.name(q), r.Res)
	q.answers++
	q.ansAt = simrt.Steps()
	if q.from < 0 {
		x.Fail("madeup", "response to %s, which was not submitted", m.name(q))
	}
	if q.answers > 1 {
		x.Fail("twice", "%s was answered %d times", m.name(q), q.answers)
	}
	if r.Res != 0 {
		m.decided++
	}
	t := m.truth(q)
	switch r.Res {
	case 0:
		el := simrt.NowNs() - q.from
		if q.req.Limit == 0 {
			x.Fail("zero", "%s, which has no limit, was answered 0", m.name(q))
		} else if el < int64(q.req.Limit) {
			x.Fail("zero", "%s was answered 0 after %s", m.name(q), time.Duration(el))
		}
		x.Hit("limit.out")
	case 1:
		if t == -1 {
			x.Fail("wrong", "%s was answered 1 but is unsatisfiable", m.name(q))
		}
		if q.req.Flag.Model() {
			mv := m.maxv
			for _, a := range q.as {
				if iabs(a) > mv {
					mv = iabs(a)
				}
			}
			val := map[int]bool{}
			for _, l := range ints(r.Ms) {
				if val[-l] {
					x.Fail("model", "%s: the model has %d and %d", m.name(q), l, -l)
				}
				val[l] = true
			}
			checkModelV(x, "model", m.name(q), m.cls, q.as, func(l int) bool { return val[l] })
			x.Hit("model.checked")
		}
	case -1:
		if t == 1 {
			x.Fail("wrong", "%s was answered -1 but is satisfiable", m.name(q))
		}
		if q.req.Flag.Why() {
			if q.hard {
				for _, l := range ints(r.Ms) {
					if !contains(q.as, l) {
						x.Fail("why:notassumed", "%s: explanation %v", m.name(q), ints(r.Ms))
					}
				}
			} else {
				checkWhySet(x, "why", m.name(q), m.whyC, q.as, ints(r.Ms))
				x.Hit("why.checked")
			}
		}
	default:
		x.Fail("wrong", "%s was answered %d", m.name(q), r.Res)
	}
}

func (m *axSess) accept(q *axReq) {
	q.accepted = true
	q.accAt = simrt.Steps()
	m.nacc++
	m.x.Log("accepted %s", m.name(q))
}

// ex performs one blocking exchange and tells whether q was accepted.
func (m *axSess) ex(q *axReq) bool {
	if q.from < 0 {
		q.from = simrt.NowNs()
	}
	r := m.t.Ex(q.req)
	if r == nil {
		m.accept(q)
		return true
	}
	m.onResp(r)
	return false
}

// tryEx performs one non-blocking exchange.
func (m *axSess) tryEx(q *axReq) bool {
	var rq *ax.Request
	if q != nil {
		if q.from < 0 {
			q.from = simrt.NowNs()
		}
		rq = q.req
	}
	before := simrt.Cur().StepsRun()
	var r *ax.Response
	var ok bool
	m.x.Bounded("tryex", "TryEx", 60*m.x.Cfg.Quantum+100000, func() { r, ok = m.t.TryEx(rq) })
	if u := simrt.Cur().StepsRun() - before; u > 3000 {
		m.x.Fail("tryex", "TryEx executed %d statements", u)
	}
	if r != nil {
		if !ok {
			m.x.Fail("tryex", "TryEx returned a response and ok false")
		}
		m.onResp(r)
		return false
	}
	if ok && q == nil {
		m.x.Fail("tryex", "TryEx(nil) returned ok and no response")
	}
	if ok {
		m.accept(q)
		return true
	}
	return false
}

// submit exchanges until q is accepted.
func (m *axSess) submit(q *axReq) {
	x := m.x
	for i := 0; ; i++ {
		if x.W(3) == 0 && i < 50 {
			if m.tryEx(q) {
				return
			}
			if x.W(2) == 0 {
				simrt.Sleep(x.dur())
			}
			continue
		}
		if m.ex(q) {
			return
		}
	}
}

// wrapS sometimes puts the prototype behind a counting wrapper.
func newProto(x *X, cls [][]int) *sess {
	p := newSess(x, "proto")
	p.addCNF(&CNF{N: maxVarOf(cls), Cls: cls})
	return p
}

func bodyC09(x *X) {
	f := x.midCNF()
	x.looser(f)
	p := newProto(x, f.Cls)
	if x.W(3) == 0 {
		// a prototype with a past
		p.assume(x.pickAssumpsOld(p.r.maxv, 2)...)
		p.solve(solveHow(x.W(int(nHow))))
		p.r.pending = nil
	}
	m := newAxSess(x, f.Cls)
	m.cap = 1 + x.W(5)
	st := &axStats{}
	counted := x.W(2) == 0
	if counted {
		m.t = ax.NewT(&countS{p.g, st}, m.cap)
	} else {
		m.t = ax.NewT(p.g, m.cap)
	}
	n := 1 + x.W(14)
	nc := x.PickI(1, 1, 2, 3)
	x.Log("exchanger of capacity %d, %d clients, %d requests", m.cap, nc, n)
	limits := x.W(3) == 0
	client := func(k int) {
		for i := 0; i < k; i++ {
			var lim time.Duration
			if limits && x.W(2) == 0 {
				lim = x.dur()
				if x.W(8) == 0 {
					lim = -1
				}
			}
			q := m.newReq(x.pickAssumps(f.N, x.PickI(3, 6)), lim)
			m.submit(q)
			if x.W(4) == 0 {
				simrt.Sleep(x.dur())
			}
			if nc == 1 && x.W(4) == 0 && m.nans < m.nacc {
				m.onResp(m.t.Ex(nil))
			}
			if x.W(4) == 0 {
				m.tryEx(nil)
			}
		}
	}
	var ts []*simrt.Task
	per := n/nc + 1
	for c := 1; c < nc; c++ {
		ts = append(ts, simrt.GoTask("client", func() { client(per) }))
	}
	client(per)
	for _, t := range ts {
		// another client may wait for a response to be taken
		for !t.Done() {
			m.tryEx(nil)
			simrt.Sleep(20 * time.Microsecond)
		}
		t.Join()
	}
	// receive what is left
	for m.nans < m.nacc {
		before := m.nans
		x.Bounded("unanswered", "a response to an accepted request", 30000000, func() {
			if x.W(2) == 0 {
				m.onResp(m.t.Ex(nil))
				return
			}
			for m.nans == before {
				m.tryEx(nil)
				simrt.Sleep(50 * time.Microsecond)
			}
		})
	}
	for k := x.W(4); k > 0; k-- {
		simrt.Sleep(x.dur())
		m.tryEx(nil)
	}
	for _, q := range m.order {
		if q.accepted && q.answers != 1 {
			x.Fail("unanswered", "%s was answered %d times", m.name(q), q.answers)
		}
	}
	if m.nans >= 2 {
		x.NonTrivial = true
	}
	if counted && st.decided != m.decided {
		x.Fail("lost", "the solvers decided %d requests, %d were answered 1 or -1", st.decided, m.decided)
	}
	m.t.Stop()
}

func setupC10(x *X) {
	x.stdSetup()
	x.Cfg.MaxSteps = 60000000
	x.Cfg.MaxSimTime = 200e9
	x.Cfg.StallPct = 0
	x.Cfg.Quantum = 5000
	if _, ok := x.Knobs["PropTick"]; !ok || x.Knobs["PropTick"] > 100 {
		x.Knobs["PropTick"] = x.Pick(1, 5, 20, 100)
	}
	if x.Cfg.NsPerStep < 20 {
		x.Cfg.NsPerStep = 20
	}
}

// axHard builds clauses which are easy under -sel and hopeless under sel.
func axHard(x *X) (cls [][]int, easyN, sel int) {
	e := x.smallCNF(12)
	h, _ := x.hardCNF()
	easyN = e.N
	sel = e.N + 1
	for _, c := range e.Cls {
		cls = append(cls, c)
	}
	for _, c := range h.Cls {
		d := []int{-sel}
		for _, l := range c {
			if l > 0 {
				d = append(d, l+sel)
			} else {
				d = append(d, l-sel)
			}
		}
		cls = append(cls, d)
	}
	return
}

func newHardAx(x *X) (m *axSess, st *axStats, p *sess, sel, easyN int) {
	var cls [][]int
	cls, easyN, sel = axHard(x)
	p = newProto(x, cls)
	m = newAxSess(x, cls)
	m.cap = 1 + x.W(4)
	st = &axStats{}
	m.t = ax.NewT(&countS{p.g, st}, m.cap)
	easy := 0
	for _, c := range cls {
		if maxVarOf([][]int{c}) <= easyN {
			easy++
		}
	}
	m.whyC = cls[:easy] // the rest is satisfied by -sel
	m.truth = func(q *axReq) int {
		if contains(q.as, sel) {
			return -1
		}
		if contains(q.as, -sel) {
			return oracle(cls[:easy], q.as)
		}
		return 0
	}
	return
}

func bodyC10(x *X) {
	m, st, _, sel, easyN := newHardAx(x)
	bd := x.ctlBound()*2 + 400000
	x.Log("exchanger of capacity %d, hard under %d", m.cap, sel)
	// keep up to cap hard requests running
	running := 0 // hard requests without a limit
	var limited []*axReq
	inflight := 0
	check := func() {
		if st.copies+1 > m.cap {
			x.Fail("copies", "%d copies of the prototype, capacity %d", st.copies, m.cap)
		}
		if st.maxRun > m.cap {
			x.Fail("copies", "%d solves at the same time, capacity %d", st.maxRun, m.cap)
		}
	}
	nOps := 2 + x.W(6)
	for i := 0; i < nOps; i++ {
		switch op := x.W(3); {
		case op == 0 && running < m.cap-1, op == 0 && running < m.cap && i == nOps-1:
			q := m.newReq([]int{sel}, 0)
			q.hard = true
			started := st.started
			running++
			acc := false
			x.Bounded("accept", "acceptance of a request while a unit is free", bd, func() {
				for !acc {
					acc = m.ex(q)
				}
			})
			inflight++
			x.Bounded("parallel", "start of a hard request while a unit is free", bd, func() {
				for st.started == started {
					m.tryEx(nil) // clients keep receiving
					simrt.Sleep(time.Microsecond)
				}
			})
		case op == 1:
			if running >= m.cap {
				continue
			}
			// a hard request with a limit
			d := x.dur()
			q := m.newReq([]int{sel}, d)
			q.hard = true
			limited = append(limited, q)
			var w int64
			for _, l := range limited {
				if l.answers == 0 {
					w += int64(l.req.Limit) / x.Cfg.NsPerStep
				}
			}
			acc := false
			x.Bounded("accept", "acceptance of a limited request", bd+w*int64(len(limited)), func() {
				for !acc {
					acc = m.ex(q)
				}
			})
			if x.W(2) == 0 {
				t0 := q.from
				x.Bounded("limit", "the answer to a limited request", 4*bd+w*int64(len(limited)), func() {
					for q.answers == 0 {
						if x.W(4) == 0 {
							m.tryEx(nil)
							simrt.Sleep(10 * time.Microsecond)
						} else {
							m.onResp(m.t.Ex(nil))
						}
					}
				})
				el := simrt.NowNs() - t0
				if lim := int64(d) + w*x.Cfg.NsPerStep*int64(len(limited)) + 4*bd*x.Cfg.NsPerStep; el > lim {
					x.Fail("limit", "a request with limit %s was answered after %s", d, time.Duration(el))
				}
				x.NonTrivial = true
			}
		default:
			if running >= m.cap {
				continue
			}
			// an easy request must be answered while hard ones run
			as := append(x.pickAssumps(easyN, 3), -sel)
			for k := range as {
				if iabs(as[k]) > easyN && as[k] != -sel {
					as[k] = 1
				}
			}
			q := m.newReq(as, 0)
			var w int64
			for _, l := range limited {
				if l.answers == 0 {
					w += int64(l.req.Limit) / x.Cfg.NsPerStep
				}
			}
			w *= int64(len(limited) + 1)
			acc := false
			x.Bounded("accept", "acceptance of an easy request", bd+w, func() {
				for !acc {
					acc = m.ex(q)
				}
			})
			x.Bounded("blocked", "the answer to an easy request while a unit is free", 2*bd+w, func() {
				for q.answers == 0 {
					m.onResp(m.t.Ex(nil))
				}
			})
			if running > 0 {
				x.NonTrivial = true
				x.Hit("easy.while.hard")
			}
		}
		check()
	}
	// limited ones are all answered
	for _, q := range limited {
		if q.answers == 0 {
			x.Bounded("limit", "the answers to limited requests", 4*bd*int64(len(limited)+1)+int64(q.req.Limit)/x.Cfg.NsPerStep*int64(len(limited)), func() {
				for q.answers == 0 {
					m.onResp(m.t.Ex(nil))
				}
			})
		}
	}
	check()
	// the non-blocking exchange returns at once while units are busy
	for k := x.W(3); k > 0; k-- {
		m.tryEx(nil)
	}
	m.t.Stop()
}

func bodyC11(x *X) {
	var m *axSess
	var p *sess
	hard := x.W(2) == 0
	sel, n := 0, 0
	if hard {
		m, _, p, sel, n = newHardAx(x)
	} else {
		f := x.anyCNF()
		x.looser(f)
		n = f.N
		p = newProto(x, f.Cls)
		m = newAxSess(x, f.Cls)
		m.cap = 1 + x.W(4)
		m.t = ax.NewT(p.g, m.cap)
	}
	x.Log("exchanger of capacity %d (hard %v)", m.cap, hard)
	stopped := false
	gen := func() *axReq {
		var lim time.Duration
		if x.W(4) == 0 {
			lim = x.dur()
		}
		if hard {
			as := []int{sel}
			if x.W(2) == 0 {
				as = []int{-sel, 1 + x.W(n)}
			}
			q := m.newReq(as, lim)
			q.hard = as[0] == sel
			return q
		}
		return m.newReq(x.pickAssumpsOld(n, 4), lim)
	}
	client := func(k int, receive bool) {
		for i := 0; i < k && !stopped; i++ {
			q := gen()
			for !stopped && q.answers == 0 {
				if x.W(2) == 0 {
					if m.tryEx(q) {
						break
					}
					simrt.Sleep(20 * time.Microsecond)
					continue
				}
				if q.from < 0 {
					q.from = simrt.NowNs()
				}
				r := m.t.Ex(q.req)
				if r == nil {
					if !stopped {
						m.accept(q)
					}
					break
				}
				m.onResp(r)
			}
			if x.W(3) == 0 {
				simrt.Sleep(x.dur())
			}
			if receive && !stopped {
				m.tryEx(nil)
			}
		}
	}
	var ts []*simrt.Task
	for c := x.W(3); c >= 0; c-- {
		k := x.W(6)
		rec := x.W(2) == 0
		ts = append(ts, simrt.GoTask("client", func() { client(k, rec) }))
	}
	switch x.W(4) {
	case 0:
		simrt.Sleep(x.dur())
	case 1:
		simrt.Sleep(x.dur() * 10)
	case 2:
		simrt.Gosched()
	}
	if m.nacc > m.nans {
		x.NonTrivial = true
		x.Hit("stop.pending")
	} else {
		x.Hit("stop.idle")
	}
	stopped = true
	bd := x.ctlBound() * 4
	x.Log("Stop with %d accepted, %d answered", m.nacc, m.nans)
	x.Bounded("stop", "Stop", bd, func() { m.t.Stop() })
	x.Bounded("leak", "end of the exchanger's goroutines", bd, func() { simrt.Quiesce() })
	if l := libTasks(); len(l) > 0 {
		x.Fail("leak", "goroutines of the exchanger left after Stop: %v", l)
	}
	for _, t := range ts {
		t := t
		x.Bounded("client", "return of an exchange which was under way at Stop", bd, func() { t.Join() })
	}
	// the prototype can be used again
	if hard {
		as := []int{-sel, x.litOver(n)}
		p.g.Assume(lits(as)...)
		r := p.g.Solve()
		if t := m.truth(&axReq{as: as}); t != r {
			x.Fail("proto", "after Stop the prototype answers %d under %v, the truth is %d", r, as, t)
		}
		return
	}
	for k := 1 + x.W(2); k > 0; k-- {
		p.assume(x.pickAssumpsOld(p.r.maxv, 3)...)
		p.solveChecked("proto", solveHow(x.W(int(nHow))))
	}
}

// ---- C12

func setupC12(x *X) {
	x.stdSetup()
	x.Cfg.MaxSteps = 1000000
	x.Cfg.YieldMean = x.PickI(2, 1, 3, 6)
	x.Cfg.SwitchPct = x.PickI(30, 60, 90)
}

// rgOp is one operation on a request generator.
type rgOp struct {
	kind       int // 0 New, 1 SetFlag, 2 Limit, 3 Flag
	flag       ax.ReqFlag
	lim        time.Duration
	id         int
	start, end int64
	as         []int
	req        *ax.Request
}

func (o *rgOp) String() string {
	switch o.kind {
	case 0:
		return fmt.Sprintf("New -> %d %s %d", o.id, o.flag, o.lim)
	case 1:
		return fmt.Sprintf("SetFlag(%s)", o.flag)
	case 2:
		return fmt.Sprintf("Limit(%d)", o.lim)
	}
	return fmt.Sprintf("Flag -> %s", o.flag)
}

func bodyC12(x *X) {
	type iface struct {
		New     func(...z.Lit) *ax.Request
		SetFlag func(ax.ReqFlag)
		Limit   func(time.Duration)
		Flag    func() ax.ReqFlag
	}
	var g iface
	if x.W(3) == 0 {
		g = iface{ax.NewRequest, ax.SetFlag, ax.Limit, ax.Flag}
	} else {
		r := ax.NewRequestGen()
		g = iface{r.New, r.SetFlag, r.Limit, r.Flag}
	}
	var hist []*rgOp
	var clock int64
	tick := func() int64 { clock++; return clock }
	g.SetFlag(0)
	nt := 2 + x.W(3)
	total := 4 + x.W(10)
	var ts []*simrt.Task
	writers := x.PickI(0, 1, 2)
	for t := 0; t < nt; t++ {
		k := total / nt
		w := t < writers || x.W(2) == 0
		ts = append(ts, simrt.GoTask("client", func() {
			buf := make([]z.Lit, 0, 8)
			for i := 0; i < k; i++ {
				o := &rgOp{}
				if w {
					o.kind = x.PickI(0, 1, 2, 3)
				}
				switch o.kind {
				case 0:
					buf = buf[:0]
					for n := x.W(5); n > 0; n-- {
						l := x.litOver(9)
						buf = append(buf, lit(l))
						o.as = append(o.as, l)
					}
					o.start = tick()
					o.req = g.New(buf...)
					o.end = tick()
					o.flag, o.lim, o.id = o.req.Flag, o.req.Limit, o.req.Id
					// the caller's slice is reused
					for j := range buf {
						buf[j] = lit(77)
					}
					if x.W(4) == 0 {
						o.req.Ms = append(o.req.Ms, lit(99)) // must not reach other requests
						o.as = append(o.as, 99)
					}
				case 1:
					o.flag = ax.ReqFlag(x.W(4))
					o.start = tick()
					g.SetFlag(o.flag)
					o.end = tick()
				case 2:
					o.lim = time.Duration(x.W(5))
					o.start = tick()
					g.Limit(o.lim)
					o.end = tick()
				case 3:
					o.start = tick()
					o.flag = g.Flag()
					o.end = tick()
				}
				hist = append(hist, o)
			}
		}))
	}
	x.Bounded("hang", "request generation", 500000, func() {
		for _, t := range ts {
			t.Join()
		}
	})
	sort.Slice(hist, func(i, j int) bool { return hist[i].start < hist[j].start })
	ids := map[int]bool{}
	over := false
	for i, o := range hist {
		x.Log("[%d,%d] %s", o.start, o.end, o)
		if i > 0 && hist[i-1].end > o.start {
			over = true
		}
		if o.kind != 0 {
			continue
		}
		if ids[o.id] {
			x.Fail("ids", "two requests have the identifier %d", o.id)
		}
		ids[o.id] = true
		if fmt.Sprint(ints(o.req.Ms)) != fmt.Sprint(append([]int{}, o.as...)) {
			x.Fail("assumptions", "request made for %v has assumptions %v", o.as, ints(o.req.Ms))
		}
	}
	x.NonTrivial = over
	if !rgLinear(hist) {
		x.Fail("settings", "no order of the operations explains flags and limits: %v", hist)
	}
}

// rgLinear decides whether the history is linearizable with respect to (flag, limit).
func rgLinear(h []*rgOp) bool {
	type st struct {
		done uint32
		flag ax.ReqFlag
		lim  time.Duration
	}
	seen := map[st]bool{}
	full := uint32(1)<<uint(len(h)) - 1
	var rec func(s st) bool
	rec = func(s st) bool {
		if s.done == full {
			return true
		}
		if seen[s] {
			return false
		}
		seen[s] = true
		first := int64(1) << 60
		for i, o := range h {
			if s.done>>uint(i)&1 == 0 && o.end < first {
				first = o.end
			}
		}
		for i, o := range h {
			if s.done>>uint(i)&1 == 1 || o.start > first {
				continue
			}
			n := s
			n.done |= 1 << uint(i)
			switch o.kind {
			case 0:
				if o.flag != s.flag || o.lim != s.lim {
					continue
				}
			case 1:
				n.flag = o.flag
			case 2:
				n.lim = o.lim
			case 3:
				if o.flag != s.flag {
					continue
				}
			}
			if rec(n) {
				return true
			}
		}
		return false
	}
	return rec(st{})
}
