package main

import (
	"fmt"
	"sort"
	"time"

	"github.com/go-air/gini"
	"github.com/go-air/gini/ax"
	"github.com/go-air/gini/internal/simrt"
	"github.com/go-air/gini/z"
)

func init() {
	register(&Prop{ID: "C30", Quick: 1600, Thorough: 60000,
		Rule: "One run puts solvers through one kind of history (copies taken idle and in the middle of a search, stopped, timed-out and paused solves, solves and tests under assumptions, scopes, activation literals, an exchanger, long use for another problem) on five unsatisfiable instances and compares the statements the final solve executes with those of new solvers given the same clauses; the median over the instances must stay within a factor; activation literals given back must be used again. Non-trivial: all five needed a search.",
		Real: solverReal, Stub: solverStub, Assume: simAssume, Setup: setupC30, Body: bodyC30})
}

func setupC30(x *X) {
	x.stdSetup()
	x.Cfg.MaxSteps = 900000000
	x.Cfg.StallPct = 0
	// tuning constants near those shipped: the effort is what is looked at
	x.Knobs = map[string]int64{"PropTick": x.Pick(20, 100, 1000)}
	if x.W(4) == 0 {
		x.Knobs["GcFactor"] = x.Pick(100, 500)
	}
}

// effortCNF draws an instance whose refutation takes a search, but a short one.
func (x *X) effortCNF(kind int) *CNF {
	switch kind {
	case 1:
		p := 6 + x.W(2)
		return x.renamed(php(p, p-1))
	}
	n := 95 + x.W(35)
	f := &CNF{N: n}
	m := n * (450 + x.W(60)) / 100
	for i := 0; i < m; i++ {
		f.Cls = append(f.Cls, x.clauseNoRep(n, 3))
	}
	return f
}

// renamed shuffles variables and clauses.
func (x *X) renamed(f *CNF) *CNF {
	p := make([]int, f.N+1)
	for i := range p {
		p[i] = i
	}
	for i := f.N; i > 1; i-- {
		j := 1 + x.W(i)
		p[i], p[j] = p[j], p[i]
	}
	g := &CNF{N: f.N}
	for _, c := range f.Cls {
		d := make([]int, len(c))
		for i, l := range c {
			d[i] = p[iabs(l)]
			if l < 0 {
				d[i] = -d[i]
			}
		}
		g.Cls = append(g.Cls, d)
	}
	for i := len(g.Cls) - 1; i > 0; i-- {
		j := x.W(i + 1)
		g.Cls[i], g.Cls[j] = g.Cls[j], g.Cls[i]
	}
	return g
}

func effort(f func()) int64 {
	t := simrt.Steps()
	f()
	return simrt.Steps() - t
}

func addFrom(g *gini.Gini, f *CNF, from int) {
	for i := range f.Cls {
		for _, l := range f.Cls[(i+from)%len(f.Cls)] {
			g.Add(lit(l))
		}
		g.Add(z.LitNull)
	}
}

// effortFactor bounds the medians; on correct code they stay below 1.
const effortFactor = 3

// effortModes are the kinds of histories.
var effortModes = []string{"copy.idle", "copy.paused", "tries", "pauses", "stops", "assumptions", "scopes", "activations", "exchange", "again", "together", "underscope", "ways", "long"}

func bodyC30(x *X) {
	mode := effortModes[x.W(len(effortModes))]
	kind := 0
	if mode != "tries" && x.W(5) == 0 {
		kind = 1
	}
	x.Log("history: %s", mode)
	x.Hit("history." + mode)
	var rs, ps []float64
	x.NonTrivial = true
	for inst := 0; inst < 5; inst++ {
		f := x.effortCNF(kind)
		var base int64
		var other *CNF
		if mode == "long" {
			other = x.besides(f)
		}
		for i := 0; i < 3; i++ {
			g := gini.New()
			if other != nil {
				addFrom(g, other, i*len(other.Cls)/3)
			}
			addFrom(g, f, i*len(f.Cls)/3)
			res := 0
			if e := effort(func() { res = g.Solve() }); e > base {
				base = e
			}
			if res == 1 { // rare: a satisfiable one
				f = nil
				break
			}
		}
		if f == nil {
			continue
		}
		if base < 20000 {
			x.NonTrivial = false
		}
		pre, e := x.effortOf(mode, f, other, base)
		const c = 300000
		rs = append(rs, float64(e)/float64(base+c))
		ps = append(ps, float64(pre)/float64(base+c))
		x.Log("%d variables, %d clauses: %d statements new, %d during the history, %d after it", f.N, len(f.Cls), base, pre, e)
	}
	if len(rs) < 4 {
		x.NonTrivial = false
		return
	}
	if m := median(rs); m > effortFactor {
		x.Fail("effort:"+mode, "after a history of %s a solver takes %.1f times the statements of a new one with the same clauses (median of %d instances)", mode, m, len(rs))
	}
	if m := median(ps); m > effortFactor {
		x.Fail("progress:"+mode, "%s: the interrupted solves took %.1f times the statements of one solve of a new solver (median of %d instances)", mode, m, len(ps))
	}
}

func median(a []float64) float64 {
	b := append([]float64(nil), a...)
	sort.Float64s(b)
	return b[len(b)/2]
}

// effortOf runs a history on f; it returns the statements executed by those parts of
// it which must make progress, and by the final solve.
func (x *X) effortOf(mode string, f, other *CNF, base int64) (pre, after int64) {
	g := gini.New()
	if mode != "long" {
		addFrom(g, f, 0)
	}
	ns := time.Duration(x.Cfg.NsPerStep)
	upto := func(k int64) time.Duration { return time.Duration(x.W(int(base/k)+1)) * ns }
	solve := func(how func() int) {
		res := 0
		after = effort(func() { res = how() })
		if res != -1 {
			x.Fail("answer", "history of %s: answer %d of an unsatisfiable instance", mode, res)
		}
	}
	final := g.Solve
	switch mode {
	case "copy.idle":
		for i := 0; i < 1+x.W(3); i++ {
			g = g.Copy()
		}
		final = g.Solve
	case "copy.paused":
		for i := 0; i < 1+x.W(3); i++ {
			c := g.GoSolve()
			simrt.Sleep(upto(4))
			if _, ok := c.Pause(); ok {
				h := g.Copy()
				if x.W(2) == 0 {
					c.Unpause()
					c.Stop()
					g = h
				} else {
					c.Unpause()
					c.Stop()
				}
			} else {
				g = g.Copy()
			}
		}
		g = g.Copy()
		final = g.Solve
	case "tries":
		// limited solves, until one is done
		d := time.Duration(base/int64(2+x.W(12))) * ns
		pre = effort(func() {
			for n := 0; g.Try(d) == 0; n++ {
				if n > 400 {
					x.Fail("progress:tries", "400 limited solves of %s did not come to the answer a new solver gives in %s", d, time.Duration(base)*ns)
				}
			}
		})
	case "pauses":
		pre = effort(func() {
			c := g.GoSolve()
			for i := 0; i < 30; i++ {
				if _, ok := c.Pause(); !ok {
					return
				}
				c.Unpause()
				simrt.Sleep(upto(20))
			}
			c.Wait()
		})
	case "stops":
		for i := 0; i < 1+x.W(20); i++ {
			c := g.GoSolve()
			simrt.Sleep(upto(8))
			c.Stop()
		}
	case "assumptions":
		for i := 0; i < 1+x.W(20); i++ {
			g.Assume(lits(x.pickAssumps(f.N, 5))...)
			if x.W(2) == 0 {
				g.Try(upto(4))
			} else {
				g.Solve()
			}
		}
	case "scopes":
		for i := 0; i < 1+x.W(200); i++ {
			g.Assume(lits(x.pickAssumps(f.N, 5))...)
			g.Test(nil)
			g.Untest()
		}
	case "activations":
		rec := &recycled{x: x, seen: map[z.Var]bool{}}
		var live []z.Lit
		drop := func() {
			j := x.W(len(live))
			g.Deactivate(live[j])
			rec.done(live[j])
			live = append(live[:j:j], live[j+1:]...)
		}
		for i := 0; i < 1+x.W(60); i++ {
			for _, l := range x.clauseNoRep(f.N, 1+x.W(3)) {
				g.Add(lit(l))
			}
			m := g.Activate()
			rec.fresh(g, m)
			live = append(live, m)
			if x.W(3) == 0 {
				g.Assume(m)
				g.Try(upto(10))
			}
			for len(live) > 0 && x.W(4) > 0 {
				drop()
			}
			if x.W(16) == 0 { // a copy goes on
				g = g.Copy()
				final = g.Solve
			}
		}
		for len(live) > 0 {
			drop()
		}
	case "exchange":
		// several requests at once, most of them solved by copies
		k := 1 + x.W(3)
		t := ax.NewT(g, k)
		after = effort(func() {
			for i, n := 0, 0; n < k; {
				var q *ax.Request
				if i < k {
					q = &ax.Request{Id: i}
				}
				r := t.Ex(q)
				if r == nil {
					i++
					continue
				}
				n++
				if r.Res != -1 {
					x.Fail("answer", "response %d to a request without assumptions on an unsatisfiable instance", r.Res)
				}
			}
		}) / int64(k)
		t.Stop()
		return
	case "again":
		pre = effort(func() { g.Solve() })
		for i := 0; i < x.W(4); i++ {
			g.Assume(lits(x.pickAssumps(f.N, 3))...)
			g.Solve()
		}
	case "together":
		// copies solving at the same time
		k := 2 + x.W(2)
		var ts []*simrt.Task
		pre = effort(func() {
			for i := 0; i < k; i++ {
				h := g.Copy()
				ts = append(ts, simrt.GoTask(fmt.Sprint("copy", i), func() { h.Solve() }))
			}
			for _, t := range ts {
				t.Join()
			}
		}) / int64(k)
	case "underscope":
		m := lit(f.N + 1)
		g.Assume(m)
		g.Test(nil)
	case "long":
		// long use with other clauses, then these are added
		x.longUse(g, other, f.N)
		addFrom(g, f, 0)
		if x.W(4) == 0 {
			g = g.Copy()
		}
		final = g.Solve
	case "ways":
		final = func() int { return bgDrive(x, g.GoSolve(), howBgWait) }
		if x.W(2) == 0 {
			final = func() int { return g.Try(time.Duration(base) * ns * 1000) }
		}
	}
	solve(final)
	return
}

// besides draws a satisfiable problem over the variables behind those of f.
func (x *X) besides(f *CNF) *CNF {
	n := x.PickI(90, 110, 30, 130)
	a := x.plantedCNF(n, n*(400+x.W(40))/100)
	for _, c := range a.Cls {
		for j, l := range c {
			if l > 0 {
				c[j] = l + f.N
			} else {
				c[j] = l - f.N
			}
		}
	}
	a.N += f.N
	return a
}

// longUse uses g for a satisfiable problem over other variables: many solves under
// assumptions, with many conflicts or next to none.
func (x *X) longUse(g *gini.Gini, f *CNF, from int) {
	addFrom(g, f, 0)
	n := f.N - from
	t := simrt.Steps()
	k := x.PickI(3000, 1000, 300)
	i := 0
	for ; i < k && simrt.Steps()-t < 30000000; i++ {
		for j := x.W(9); j > 0; j-- {
			m := lit(from + 1 + x.W(n))
			if x.W(2) == 0 {
				m = m.Not()
			}
			g.Assume(m)
		}
		g.Solve()
	}
	x.Log("%d solves of another problem with %d variables: %d statements", i, n, simrt.Steps()-t)
}

// recycled checks that activation literals which were given back are used again.
type recycled struct {
	x    *X
	seen map[z.Var]bool
	free []z.Lit
}

func (r *recycled) done(m z.Lit) { r.free = append(r.free, m) }

// fresh looks at an activation literal which was just made.
func (r *recycled) fresh(g *gini.Gini, m z.Lit) {
	if r.seen[m.Var()] {
		r.x.Hit("activation literal used again")
		for i, f := range r.free {
			if f.Var() == m.Var() {
				r.free = append(r.free[:i:i], r.free[i+1:]...)
				return
			}
		}
		r.x.Fail("recycle.used", "the activation literal %s is in use and was given out again", m)
		return
	}
	r.seen[m.Var()] = true
	// those given back are only left out when the solver knows their value
	for _, f := range r.free {
		h := g.Copy()
		h.Assume(f)
		if res, _ := h.Test(nil); res != -1 {
			r.x.Fail("recycle", "a new activation literal %s was made while %s, given back, is free", m, f)
		}
	}
}
