package main

import (
	"fmt"
	"time"

	"github.com/go-air/gini"
	"github.com/go-air/gini/ax"
	"github.com/go-air/gini/gen"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/internal/simrt"
	"github.com/go-air/gini/logic"
	"github.com/go-air/gini/z"
)

// ---- C31: no data races in the uses which the documentation allows

func init() {
	register(&Prop{ID: "C31", Quick: 24000, Thorough: 1500000, Races: true,
		Title: "Goroutines which may run together share no memory without synchronisation",
		Rule:  "One run is a run of one of the other properties' workloads which use several goroutines (background control, copies, exchanger, request generation, CRISP sessions and servers, random solvers, bench, commands), or two to four unrelated workloads side by side, each in a goroutine with objects of its own. Every load and store of shared memory is ordered by vector clocks which the simulated channels, locks, wait groups, atomics, timers and goroutine starts advance; two unordered accesses to the same bytes, one a store, are a violation in whichever order the schedule ran them. Non-trivial: at least two goroutines of the code under test or of its users ran.",
		Real:  []string{"gini, internal/xo, ax, crisp, gen, bench, dimacs, logic, logic/aiger, cmd/gini, cmd/crispd, cmd/bench"},
		Stub:  []string{"goroutine scheduler, channels, sync, select (simrt, which also orders what they synchronise)", "time, network, files, processes, signals (simulated)"},
		Assume: append([]string{"accesses inside the standard library are seen only as far as they are calls of methods of single-goroutine objects (buffered readers and writers, buffers, random sources)",
			"the synchronisation that a workload itself does counts: unrelated uses are ordered only where the harness starts and joins goroutines"}, simAssume...),
		Setup: setupC31, Body: bodyC31})
}

var raceTogether = []string{"C07", "C09", "C10", "C12", "C13", "C14", "C15", "C17", "C05", "C21", "C28", "C26", "C27", "C22", "C20"}
var raceAside = []string{"C01", "C03", "C04", "C05", "C06", "C07", "C18", "C19", "C20", "C21", "C29", "C12", "C09", "C13"}

func setupC31(x *X) {
	switch x.W(6) {
	case 5:
		x.mix = []string{[]string{"copies", "copies", "copies", "generators", "requests", "tracing"}[x.W(6)]}
		if x.mix[0] == "tracing" {
			setupCrisp(x)
			x.Cfg.MaxSteps = 20000000
		} else {
			x.stdSetup()
		}
		return
	case 0, 1, 2:
		x.mix = []string{raceTogether[x.W(len(raceTogether))]}
		if s := props[x.mix[0]].Setup; s != nil {
			s(x)
		} else {
			x.stdSetup()
		}
		if x.Cfg.MaxSteps > 20000000 {
			x.Cfg.MaxSteps = 20000000
		}
		return
	}
	x.stdSetup()
	n := 2 + x.W(3)
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		id := raceAside[x.W(len(raceAside))]
		if id == "C13" && used[id] || id == "C09" && used[id] {
			id = "C01"
		}
		used[id] = true
		x.mix = append(x.mix, id)
	}
	if !used["C13"] && x.W(3) == 0 {
		x.mix[1] = x.mix[0] // the same kind of work
		if x.mix[0] == "C09" {
			x.mix[1] = "C01"
		}
	}
}

func bodyC31(x *X) {
	if len(x.mix) == 1 {
		x.Log("workload of %s", x.mix[0])
		x.Hit("workload." + x.mix[0])
		switch x.mix[0] {
		case "copies":
			x.copies()
			return
		case "generators":
			x.generators()
			return
		case "requests":
			x.requests()
			return
		case "tracing":
			x.tracing()
			return
		}
		props[x.mix[0]].Body(x)
		return
	}
	x.Log("side by side: %v", x.mix)
	var ts []*simrt.Task
	for i, id := range x.mix {
		p := props[id]
		x.Hit("aside." + id)
		ts = append(ts, simrt.GoTask(fmt.Sprintf("%s.%d", id, i), func() { p.Body(x) }))
	}
	for _, t := range ts {
		t.Join()
	}
	x.NonTrivial = true
}

// together runs functions in goroutines of their own.
func (x *X) together(what string, n int, f func(i int)) {
	var ts []*simrt.Task
	for i := 0; i < n; i++ {
		i := i
		ts = append(ts, simrt.GoTask(fmt.Sprintf("%s.%d", what, i), func() { f(i) }))
	}
	for _, t := range ts {
		t.Join()
	}
	x.NonTrivial = true
}

// litCount is an adder which counts.
type litCount struct{ lits, cls int }

func (a *litCount) Add(m z.Lit) {
	if m == z.LitNull {
		a.cls++
	} else {
		a.lits++
	}
}

// generators has goroutines make formulas with package gen at the same time.
func (x *X) generators() {
	x.together("gen", 2+x.W(3), func(i int) {
		a := &litCount{}
		var add inter.Adder = a
		if x.W(3) == 0 {
			add = gini.New()
		}
		for k := 1 + x.W(5); k > 0; k-- {
			n := 3 + x.W(4)
			switch x.W(10) {
			case 0:
				gen.Rand3Cnf(add, n, 1+x.W(12))
			case 1:
				gen.HardRand3Cnf(add, n)
			case 2:
				gen.Seed(int64(x.W(100)))
			case 3:
				gen.Php(add, n, n-1)
			case 4:
				gen.RandColor(add, n, x.W(n), 1+x.W(3))
			case 5:
				gen.BinCycle(add, n)
			case 6:
				gen.NewRandCuber(1+x.W(5), z.Var(n)).RandCube(nil)
			case 7:
				gen.Partition(add, n, 1+x.W(3))
			case 8:
				gen.PyTriples(add, n, 2)
			case 9:
				gen.Py2Triples(add, n)
			}
		}
	})
}

// requests has goroutines use request generators: the package's and one of their own.
func (x *X) requests() {
	g := ax.NewRequestGen()
	x.together("req", 2+x.W(3), func(i int) {
		for k := 1 + x.W(6); k > 0; k-- {
			var r *ax.Request
			m := z.Var(1 + x.W(4)).Pos()
			switch x.W(8) {
			case 0:
				r = ax.NewRequest(m, m)
			case 1:
				r = g.New(m)
			case 2:
				ax.SetFlag(ax.ReqFlag(x.W(4)))
			case 3:
				g.SetFlag(ax.ReqFlag(x.W(4)))
			case 4:
				ax.Limit(time.Duration(x.W(100)))
			case 5:
				g.Limit(time.Duration(x.W(100)))
			case 6:
				_ = ax.Flag().String()
			case 7:
				_ = g.Flag().Why()
			}
			if r != nil {
				_ = r.String()
				r.Ms[0] = r.Ms[0].Not()
			}
		}
	})
}

// tracing has a server told to trace or not while it serves clients, and shut down by
// another goroutine.
func (x *X) tracing() {
	x.netUpMax(100000)
	addr := "@/crisp.sock"
	v := x.startServer(addr, 0)
	n := 1 + x.W(3)
	var ts []*simrt.Task
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("c%d", i)
		ops := 2 + x.W(6)
		ts = append(ts, simrt.GoHarness(name, func() { v.client(name, addr, ops) }))
	}
	for k := 1 + x.W(5); k > 0; k-- {
		on := x.W(2) == 0
		d := x.dur() * time.Duration(x.PickI(1, 10))
		ts = append(ts, simrt.GoTask("trace", func() {
			simrt.Sleep(d)
			v.s.Trace(on)
		}))
	}
	if x.W(2) == 0 {
		ts = append(ts, simrt.GoTask("shutdown", func() {
			simrt.Sleep(x.dur() * 10)
			v.down = true
			v.s.Shutdown()
		}))
	}
	for _, t := range ts {
		t.Join()
	}
	x.NonTrivial = true
}

// user works on a solver and a circuit with no care for the answers.
type user struct {
	x   *X
	g   *gini.Gini
	n   int
	lvl int
	bad bool // the last scope is inconsistent
	act []z.Lit
	c   *logic.C
	ms  []z.Lit // of the circuit
	enc []int8
}

func (u *user) lits(k int) []z.Lit {
	var ms []z.Lit
	for ; k > 0; k-- {
		m := z.Var(1 + u.x.W(u.n)).Pos()
		if u.x.W(2) == 0 {
			m = m.Not()
		}
		ms = append(ms, m)
	}
	return ms
}

func (u *user) work(ops int) {
	x, g := u.x, u.g
	for ; ops > 0; ops-- {
		switch op := x.W(12); {
		case op < 3:
			if u.lvl < 4 && !u.bad {
				g.Assume(u.lits(1 + x.W(3))...)
				r, _ := g.Test(nil)
				u.lvl++
				u.bad = r == -1
			}
		case op < 5:
			if u.lvl > 0 {
				u.bad = g.Untest() == -1
				u.lvl--
			}
		case op == 5:
			if u.lvl == 0 {
				for _, m := range u.lits(2 + x.W(3)) {
					g.Add(m)
				}
				g.Add(0)
			}
		case op == 6:
			if u.lvl > 0 {
				break
			}
			if len(u.act) > 0 && x.W(2) == 0 {
				g.Deactivate(u.act[0])
				u.act = u.act[1:]
				break
			}
			for _, m := range u.lits(2) {
				g.Add(m)
			}
			u.act = append(u.act, g.Activate())
		case op == 7:
			u.ms = append(u.ms, u.c.Lit())
			a, b := u.ms[x.W(len(u.ms))], u.ms[x.W(len(u.ms))]
			u.ms = append(u.ms, u.c.And(a, b.Not()), u.c.Choice(a, b, u.ms[0]))
			cs := u.c.CardSort(u.ms[:1+x.W(len(u.ms))])
			u.ms = append(u.ms, cs.Leq(1))
			u.enc, _ = u.c.CnfSince(&litCount{}, u.enc, u.ms[len(u.ms)-1])
		default:
			if u.bad {
				break
			}
			if x.W(2) == 0 {
				g.Assume(u.lits(1 + x.W(2))...)
			}
			g.Assume(u.act...)
			switch x.W(3) {
			case 0:
				g.Solve()
			case 1:
				g.Try(x.dur())
			case 2:
				c := g.GoSolve()
				simrt.Sleep(x.dur())
				c.Stop()
			}
			if x.W(2) == 0 {
				g.Why(nil)
			}
			if u.lvl > 0 {
				// what the solve found may leave the scope inconsistent
				u.bad = true
			}
		}
	}
}

func (u *user) copyOf() *user {
	o := *u
	o.g = u.g.Copy()
	o.c = u.c.Copy()
	o.act = append([]z.Lit(nil), u.act...)
	o.ms = append([]z.Lit(nil), u.ms...)
	o.enc = append([]int8(nil), u.enc...)
	return &o
}

// copies has goroutines use copies of one solver and one circuit.
func (x *X) copies() {
	f := x.threshold(12 + x.W(30))
	if x.W(3) > 0 {
		f.Cls = f.Cls[:len(f.Cls)*(50+x.W(50))/100]
	}
	us := []*user{{x: x, g: gini.New(), n: f.N, c: logic.NewC()}}
	for _, c := range f.Cls {
		for _, m := range c {
			us[0].g.Add(lit(m))
		}
		us[0].g.Add(0)
	}
	us[0].work(x.W(16))
	for round := 1 + x.W(2); round > 0; round-- {
		for k := 1 + x.W(3); k > 0 && len(us) < 5; k-- {
			us = append(us, us[x.W(len(us))].copyOf())
		}
		x.together("copy", len(us), func(i int) { us[i].work(1 + x.W(12)) })
	}
}
