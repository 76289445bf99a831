package main

import (
	"fmt"
	"reflect"
	"strings"
	"time"
	"unsafe"

	"github.com/go-air/gini"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/internal/simrt"
	"github.com/go-air/gini/internal/xo"
	"github.com/go-air/gini/z"
)

func init() {
	register(&Prop{ID: "C05", Quick: 60000, Thorough: 1500000,
		Rule: "One run is a random history of opening and closing test scopes with solves of every kind (interrupted ones too) inside them; every reported literal, reason, answer and model is checked against the reference. Non-trivial: a scope was open during a solve that was interrupted or ran in the background.",
		Real: solverReal, Stub: solverStub, Assume: simAssume, Body: bodyC05})
	register(&Prop{ID: "C06", Quick: 60000, Thorough: 1500000,
		Rule: "One run is a random history of adding, activating and deactivating clauses and of solves under random sets of activation literals, with interrupted solves, clause collection and copies; every answer is checked against the reference. Non-trivial: at least one clause was deactivated and one answer checked after that.",
		Real: solverReal, Stub: solverStub, Assume: simAssume, Setup: longSetup, Body: bodyC06})
	register(&Prop{ID: "C07", Quick: 30000, Thorough: 800000,
		Rule: "One run copies a solver after a random history, while idle, during a pause, or requested during a running solve, and then works with original and copies in concurrent tasks; every answer is checked against the reference of each, and an idle one must not change while another works. Non-trivial: original and copy both answered definitely after the copy.",
		Real: solverReal, Stub: solverStub, Assume: simAssume, Body: bodyC07})
	register(&Prop{ID: "C08", Quick: 25000, Thorough: 800000,
		Rule: "One run is a history of time-limited solves on easy and practically unsolvable instances mixed with other solves and copies; the simulated clock decides whether a limit was kept. Non-trivial: one call ran into its limit.",
		Real: solverReal, Stub: solverStub, Assume: simAssume, Setup: setupC08, Body: bodyC08})
}

// ---- C05

// upClosure propagates units: the literals found true, or false if there is a conflict.
func upClosure(cls [][]int, as []int) (map[int]bool, bool) {
	val := map[int]bool{}
	for _, a := range as {
		if val[-a] {
			return nil, false
		}
		val[a] = true
	}
	for again := true; again; {
		again = false
		for _, c := range cls {
			var free int
			n := 0
			sat := false
			for _, l := range c {
				if val[l] {
					sat = true
					break
				}
				if !val[-l] && l != free {
					free = l
					n++
				}
			}
			if sat {
				continue
			}
			if n == 0 {
				return nil, false
			}
			if n == 1 {
				val[free] = true
				again = true
			}
		}
	}
	return val, true
}

func (s *sess) checkReasons(scopeLits []int) {
	x := s.x
	f := s.r.formula()
	as := s.r.scoped()
	graph := map[int][]int{}
	for _, l := range scopeLits {
		rs := ints(s.g.Reasons(nil, lit(l)))
		graph[l] = rs
		neg := []int{-l}
		for _, r := range rs {
			if r == l || r == -l {
				x.Fail("reasons:self", "%s: the reasons %v of %d contain it", s.name, rs, l)
			}
			if o := oracle(f, append(append([]int(nil), as...), -r)); o == 1 {
				x.Fail("reasons:untrue", "%s: the reason %d of %d is not true in the scope %v", s.name, r, l, as)
			}
			neg = append(neg, r)
		}
		if len(rs) == 0 && contains(as, l) {
			continue
		}
		if o := oracle(f, neg); o == 1 {
			x.Fail("reasons:insufficient", "%s: the reasons %v do not imply %d", s.name, rs, l)
		}
	}
	// the graph of reasons is acyclic
	state := map[int]int{}
	var visit func(l int)
	visit = func(l int) {
		if state[l] == 2 {
			return
		}
		if state[l] == 1 {
			x.Fail("reasons:cyclic", "%s: the reasons of %d depend on it", s.name, l)
		}
		state[l] = 1
		for _, r := range graph[l] {
			visit(r)
		}
		state[l] = 2
	}
	for _, l := range scopeLits {
		visit(l)
	}
	x.HitN("reasons", len(scopeLits))
}

func bodyC05(x *X) {
	for k := 0; k < 3; k++ {
		if !historyC05(x, k) {
			return
		}
	}
}

func historyC05(x *X, k int) bool {
	s := newSess(x, fmt.Sprintf("g%d", k))
	var n int
	if x.W(4) > 0 {
		f := x.anyCNF()
		x.looser(f)
		if x.W(2) == 0 && len(f.Cls) > f.N {
			f.Cls = f.Cls[:f.N+x.W(len(f.Cls)-f.N)]
		}
		n = f.N
		s.addCNF(f)
	} else {
		n = 3 + x.W(12)
		s.grow(&n)
		s.grow(&n)
	}
	ops := 6 + x.W(30)
	var outs [][]int // literals reported per open scope
	complete := true // the literals of each scope are known
	for i := 0; i < ops; i++ {
		switch op := x.W(10); {
		case op == 0:
			if len(s.r.scopes) == 0 {
				s.grow(&n)
			}
		case op <= 4:
			if s.unsatScope || len(s.r.scopes) > 5 {
				break
			}
			s.assume(x.pickAssumps(n, 4)...)
			f := s.r.formula()
			all := s.r.assumed()
			res, out := s.test()
			x.Hit("test." + sgn(res))
			if res == -1 {
				s.checkWhy("why", all)
				outs = append(outs, nil)
				complete = false
				break
			}
			outs = append(outs, out)
			cl, ok := upClosure(f, all)
			if !ok {
				x.Fail("test:bcp", "%s: unit propagation refutes the scopes %v, Test answered %d", s.name, s.r.scopes, res)
			}
			for l := range cl {
				if !s.g.Value(lit(l)) && res == 1 {
					x.Fail("test:value", "%s: Test answered 1 but %d, implied by unit propagation, is not true", s.name, l)
				}
			}
			for _, a := range s.r.scopes[len(s.r.scopes)-1] {
				if !s.g.Value(lit(a)) {
					x.Fail("test:value", "%s: after Test the assumption %d is not true", s.name, a)
				}
			}
			if x.W(2) == 0 {
				s.checkReasons(out)
			}
			if x.W(4) == 0 {
				for _, o := range outs {
					s.checkReasons(o)
				}
			}
		case op == 5, op == 6:
			if len(s.r.scopes) == 0 {
				break
			}
			s.untest()
			outs = outs[:len(outs)-1]
		default:
			s.assume(x.pickAssumps(n, 3)...)
			how := solveHow(x.PickI(0, 1, 1, 2, 3, 3, 4, 4, 5, 5, 6))
			as := s.r.assumed()
			free := len(as) == 0
			res := s.solveChecked("solve", how)
			if res == 0 && (how == howSolve || how == howBgWait) {
				x.Fail("zero", "%s returned 0", howNames[how])
			}
			if len(s.r.scopes) > 0 && (res == 0 || how != howSolve) {
				x.NonTrivial = true
				x.Hit("scope.solve")
			}
			if res == -1 {
				s.checkWhy("why", as)
				if len(s.r.scopes) > 0 {
					s.unsatScope = true
				}
				if free && x.W(4) > 0 {
					s.final("final")
					return true
				}
			}
		}
	}
	_ = complete
	for len(s.r.scopes) > 0 {
		s.untest()
		if x.W(3) == 0 {
			s.solveChecked("unwind", solveHow(x.W(int(nHow))))
		}
	}
	s.final("final")
	return false
}

// ---- C06

// implied0 tells whether every literal of c is refuted by the clauses: such a clause
// may not be activated.
func (r *ref) impliedFalse(c []int) bool {
	f := r.formula()
	for _, l := range c {
		if oracle(f, []int{l}) != -1 {
			return false
		}
	}
	return true
}

func (s *sess) freshAct(a int, recycled map[int]bool) {
	x := s.x
	if a <= 0 {
		x.Fail("actlit", "%s: activation literal %d is not positive", s.name, a)
	}
	for _, b := range s.r.actives {
		if a == b {
			x.Fail("actlit", "%s: activation literal %d is still in use", s.name, a)
		}
	}
	for _, c := range s.r.cls {
		for _, l := range c.lits {
			if iabs(l) == a {
				x.Fail("actlit", "%s: activation literal %d occurs in clause %v", s.name, a, c.lits)
			}
		}
	}
	if a <= s.r.maxv && !recycled[a] {
		x.Fail("actlit", "%s: activation literal %d is not fresh (largest variable so far %d)", s.name, a, s.r.maxv)
	}
	s.r.note(a)
}

// activate adds a clause under a new activation literal.
func (s *sess) activate(n int, recycled map[int]bool) {
	x := s.x
	var cs [][]int
	for i, k := 0, x.PickI(1, 1, 2, 4); i < k; i++ {
		var c []int
		if x.W(6) == 0 {
			c = x.clause(n, 1+x.W(4))
		} else {
			c = x.clauseNoRep(n, 1+x.W(3))
		}
		if s.r.impliedFalse(c) {
			continue
		}
		cs = append(cs, c)
	}
	if len(cs) == 0 {
		return
	}
	var a int
	if len(cs) == 1 && x.W(2) == 0 {
		for _, l := range cs[0] {
			s.g.Add(lit(l))
			s.r.note(l)
		}
		a = s.g.Activate().Dimacs()
		s.log("activate %v -> %d", cs[0], a)
	} else {
		a = s.g.ActivationLit().Dimacs()
		s.log("activation literal %d for %v", a, cs)
		for _, c := range cs {
			for _, l := range c {
				s.g.Add(lit(l))
			}
			s.g.ActivateWith(lit(a))
		}
	}
	s.freshAct(a, recycled)
	for _, c := range cs {
		for _, l := range c {
			s.r.note(l)
		}
		s.r.cls = append(s.r.cls, refCl{lits: c, act: a})
	}
	s.r.actives = append(s.r.actives, a)
	x.Hit("activated")
}

func (s *sess) deactivate(i int, recycled map[int]bool) {
	a := s.r.actives[i]
	s.log("deactivate %d", a)
	s.g.Deactivate(lit(a))
	s.r.actives = append(s.r.actives[:i:i], s.r.actives[i+1:]...)
	var k []refCl
	for _, c := range s.r.cls {
		if c.act != a {
			k = append(k, c)
		}
	}
	s.r.cls = k
	recycled[a] = true
	s.x.Hit("deactivated")
}

func bodyC06(x *X) {
	s := newSess(x, "g")
	var n int
	if x.W(4) > 0 {
		f := x.anyCNF()
		x.looser(f)
		if len(f.Cls) > 3*f.N {
			f.Cls = f.Cls[:3*f.N]
		}
		n = f.N
		s.addCNF(f)
	} else {
		n = 3 + x.W(12)
		s.grow(&n)
	}
	n = s.r.maxv // activation literals follow
	recycled := map[int]bool{}
	ops := 8 + x.W(40)
	deact := 0
	growth := x.W(3) == 0
	for i := 0; i < ops; i++ {
		switch x.W(10) {
		case 0, 1, 2:
			s.activate(n, recycled)
		case 3:
			if len(s.r.actives) > 0 {
				s.deactivate(x.W(len(s.r.actives)), recycled)
				deact++
			}
		case 4:
			if growth || x.W(3) == 0 {
				// only old variables: activation literals must stay out of clauses
				m := n
				s.growOld(&m)
			}
		case 5:
			if x.W(4) == 0 {
				// go on with a copy
				c := s.g.Copy()
				s.log("go on with a copy")
				if x.W(2) == 0 {
					// the original is worked on too
					o := &sess{x: x, name: s.name + "'", g: s.g, r: s.r.clone()}
					for len(o.r.actives) > 0 && x.W(3) > 0 {
						o.deactivate(x.W(len(o.r.actives)), map[int]bool{})
					}
					o.final("original")
				}
				s.g = c
				x.Hit("copied")
			}
		default:
			var as []int
			for _, a := range s.r.actives {
				switch x.W(8) {
				case 0, 1, 2, 3:
					as = append(as, a)
				case 4:
					as = append(as, -a)
				}
			}
			as = append(as, x.pickAssumpsOld(n, 2)...)
			if x.W(3) == 0 {
				// assume in another order
				for i := len(as) - 1; i > 0; i-- {
					j := x.W(i + 1)
					as[i], as[j] = as[j], as[i]
				}
			}
			if len(as) > 0 {
				s.assume(as...)
			}
			how := solveHow(x.PickI(0, 0, 1, 2, 3, 4, 5, 6))
			all := s.r.assumed()
			res := s.solveChecked("solve", how)
			if res == 0 && (how == howSolve || how == howBgWait) {
				x.Fail("zero", "%s returned 0", howNames[how])
			}
			if res == -1 && x.W(2) == 0 {
				s.checkWhy("why", all)
			}
			if deact > 0 && res != 0 {
				x.NonTrivial = true
			}
		}
	}
	// each group once more on its own
	for _, a := range append([]int(nil), s.r.actives...) {
		s.assume(a)
		if r := s.solveChecked("each", howSolve); r == 0 {
			x.Fail("zero", "Solve returned 0")
		}
	}
	for len(s.r.actives) > 0 {
		s.deactivate(x.W(len(s.r.actives)), recycled)
	}
	s.final("final")
}

// growOld adds plain clauses over existing variables only.
func (s *sess) growOld(n *int) {
	x := s.x
	for i, k := 0, 1+x.W(4); i < k; i++ {
		switch x.W(6) {
		case 0:
			s.addClause([]int{x.litOver(*n)})
		case 1:
			s.addClause(x.clause(*n, 1+x.W(4)))
		default:
			s.addClause(x.clauseNoRep(*n, 2+x.W(3)))
		}
	}
}

func (x *X) pickAssumpsOld(n, max int) []int {
	k := x.W(max + 1)
	var a []int
	for i := 0; i < k; i++ {
		a = append(a, x.litOver(n))
	}
	return a
}

// ---- C07

// snapshot hashes the values reachable from a solver, without locks, channels and
// functions.
func snapshot(v any) uint64 {
	h := uint64(14695981039346656037)
	seen := map[unsafe.Pointer]bool{}
	mix := func(u uint64) { h = (h ^ u) * 1099511628211 }
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if !v.IsValid() {
			return
		}
		t := v.Type()
		if strings.Contains(t.PkgPath(), "simrt") || strings.HasPrefix(t.PkgPath(), "sync") {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || t.Elem().Name() == "Ctl" {
				return
			}
			p := v.UnsafePointer()
			if seen[p] {
				return
			}
			seen[p] = true
			walk(v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if n := t.Field(i).Name; strings.HasPrefix(n, "st") && len(n) > 2 && n[2] < 'a' {
					continue // statistics
				}
				walk(v.Field(i))
			}
		case reflect.Slice:
			mix(uint64(v.Len()))
			if v.Len() > 0 {
				switch v.Type().Elem().Kind() {
				case reflect.Int8:
					for i := 0; i < v.Len(); i++ {
						mix(uint64(v.Index(i).Int()))
					}
					return
				}
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			mix(uint64(v.Int()))
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			mix(v.Uint())
		case reflect.Bool:
			if v.Bool() {
				mix(1)
			} else {
				mix(2)
			}
		case reflect.Float32, reflect.Float64:
			mix(uint64(v.Float() * 1e6))
		case reflect.String:
			for _, c := range []byte(v.String()) {
				mix(uint64(c))
			}
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		}
	}
	walk(reflect.ValueOf(v))
	return h
}

// work applies a random piece of history to a session.
func (s *sess) work(n int, ops int) {
	x := s.x
	for i := 0; i < ops; i++ {
		switch x.W(8) {
		case 0, 1:
			if len(s.r.scopes) == 0 {
				if s.acts {
					s.growOld(&n)
				} else {
					s.grow(&n)
				}
			}
		case 2:
			if len(s.r.scopes) < 3 && !s.unsatScope {
				s.assume(x.pickAssumpsOld(n, 3)...)
				s.test()
			}
		case 3:
			if len(s.r.scopes) > 0 {
				s.untest()
			}
		case 4:
			if s.acts && len(s.r.scopes) == 0 && x.W(2) == 0 {
				if len(s.r.actives) > 0 && x.W(2) == 0 {
					s.deactivate(x.W(len(s.r.actives)), s.recycled)
				} else {
					s.activate(n, s.recycled)
				}
			}
		default:
			as := x.pickAssumpsOld(n, 3)
			for _, a := range s.r.actives {
				if x.W(2) == 0 {
					as = append(as, a)
				}
			}
			if len(as) > 0 {
				s.assume(as...)
			}
			how := solveHow(x.PickI(0, 1, 2, 3, 4, 5, 6))
			all := s.r.assumed()
			res := s.solveChecked("solve", how)
			if res == 0 && (how == howSolve || how == howBgWait) {
				x.Fail("zero", "%s: %s returned 0", s.name, howNames[how])
			}
			if res == -1 {
				if x.W(2) == 0 {
					s.checkWhy("why", all)
				}
				if len(s.r.scopes) > 0 {
					s.unsatScope = true
				}
			}
		}
	}
}

func (s *sess) fork(name string, g *solverG) *sess {
	g.name = name
	o := &sess{x: s.x, name: name, g: g, r: s.r.clone(), unsatScope: s.unsatScope, acts: s.acts, recycled: map[int]bool{}}
	for k := range s.recycled {
		o.recycled[k] = true
	}
	return o
}

func (s *sess) unwind() {
	for len(s.r.scopes) > 0 {
		s.untest()
	}
}

func bodyC07(x *X) {
	s := newSess(x, "g")
	s.acts = x.W(2) == 0
	s.recycled = map[int]bool{}
	f := x.anyCNF()
	x.looser(f)
	n := f.N
	s.addCNF(f)
	n = s.r.maxv
	s.work(n, x.W(10))
	k := 1
	for round := 0; round < 1+x.W(3); round++ {
		var o *sess
		switch mode := x.W(4); mode {
		case 0, 1: // idle, possibly with scopes and pending assumptions
			if x.W(3) == 0 {
				s.assume(x.pickAssumpsOld(n, 3)...)
			}
			var begun []int // a clause which is not complete when the copy is made
			if len(s.r.scopes) == 0 && !s.unsatScope && x.W(3) == 0 {
				for i := 1 + x.W(3); i > 0; i-- {
					l := x.litOver(n)
					s.g.Add(lit(l))
					begun = append(begun, l)
				}
				s.log("begun clause %v", begun)
			}
			before := snapshot(s.g.Gini)
			o = s.fork(fmt.Sprintf("c%d", k), s.g.Copy())
			s.log("copied to %s while idle", o.name)
			x.Hit("copy.idle")
			if begun != nil {
				ws := []*sess{s, o}
				i := x.W(2)
				ws[i].complete(begun, x.litOver(n))
				if i == 1 && snapshot(s.g.Gini) != before {
					x.Fail("influence", "the idle original changed when its copy completed a clause")
				}
				ws[1-i].complete(begun, x.litOver(n))
				before = snapshot(s.g.Gini)
				x.Hit("copy.begun")
			}
			if x.W(2) == 0 {
				// the copy works while the original is idle
				o.work(n, 1+x.W(6))
				if snapshot(s.g.Gini) != before {
					x.Fail("influence", "the idle original changed while its copy was at work")
				}
				x.Hit("idle.unchanged")
			} else if x.W(2) == 0 {
				bo := snapshot(o.g.Gini)
				s.work(n, 1+x.W(6))
				if snapshot(o.g.Gini) != bo {
					x.Fail("influence", "the idle copy changed while the original was at work")
				}
				x.Hit("idle.unchanged")
			}
		case 2: // during a pause
			s.assume(x.pickAssumpsOld(n, 3)...)
			as := s.r.assumed()
			c := s.g.GoSolve()
			if x.W(2) == 0 {
				simrt.Sleep(x.dur())
			}
			r, ok := c.Pause()
			if !ok {
				s.r.pending = nil
				s.checkAnswer("solve", r, as)
				o = s.fork(fmt.Sprintf("c%d", k), s.g.Copy())
				if r == -1 && len(s.r.scopes) > 0 {
					s.unsatScope, o.unsatScope = true, true
				}
				break
			}
			s.r.pending = nil
			before := snapshot(s.g.Gini)
			o = s.fork(fmt.Sprintf("c%d", k), s.g.Copy())
			s.log("copied to %s while paused", o.name)
			x.Hit("copy.paused")
			if x.W(2) == 0 {
				o.work(n, 1+x.W(4))
				if snapshot(s.g.Gini) != before {
					x.Fail("influence", "the paused original changed while its copy was at work")
				}
			}
			var other *simrt.Task
			if x.W(2) == 0 {
				other = simrt.GoTask("copy", func() { o.work(n, 1+x.W(5)) })
			}
			c.Unpause()
			r = bgDrive(x, c, howBgMix)
			s.log("resumed original -> %d", r)
			s.checkAnswer("resumed", r, as)
			if r == -1 && len(s.r.scopes) > 0 {
				s.unsatScope = true
			}
			if other != nil {
				other.Join()
			}
		case 3: // requested while a solve runs
			s.assume(x.pickAssumpsOld(n, 3)...)
			as := s.r.assumed()
			c := s.g.GoSolve()
			if x.W(2) == 0 {
				simrt.Sleep(x.dur())
			}
			var cp *solverG
			t := simrt.GoTask("copier", func() { cp = s.g.Copy() })
			r := bgDrive(x, c, solveHow(x.PickI(2, 3, 4, 5, 6, 6)))
			s.r.pending = nil
			s.log("solve while copying -> %d", r)
			if x.W(2) == 0 {
				t.Join()
				s.checkAnswer("solve", r, as)
			} else {
				// the original's values are read while the copy may still be made
				s.checkAnswer("solve", r, as)
				t.Join()
			}
			if r == -1 && len(s.r.scopes) > 0 {
				s.unsatScope = true
			}
			x.Hit("copy.running")
			o = s.fork(fmt.Sprintf("c%d", k), cp)
			// whether the solve had taken its assumptions is not known
			if o.g.Solve() == -1 && len(o.r.scopes) > 0 {
				o.unsatScope = true
			}
		}
		k++
		// both go on, at the same time
		var ts []*simrt.Task
		for _, w := range []*sess{s, o} {
			w := w
			ts = append(ts, simrt.GoTask(w.name, func() { w.work(n, 1+x.W(8)) }))
		}
		for _, t := range ts {
			t.Join()
		}
		for i, w := range []*sess{s, o} {
			if i == 0 && round == 0 && x.W(3) > 0 {
				continue
			}
			w.unwind()
			w.unsatScope = false
			w.final("final")
		}
		x.NonTrivial = true
		if x.W(2) == 0 {
			s.unwind()
			o.unwind()
			s = o // copies of copies
		}
	}
}

// ---- C08

func setupC08(x *X) {
	x.stdSetup()
	x.Cfg.MaxSteps = 90000000
	x.Cfg.StallPct = 0
	x.Cfg.Quantum = 5000
	if x.W(6) == 0 {
		delete(x.Knobs, "PropTick")
	}
}

// limited is what the property is about: Solver.Try.
type limited interface {
	Try(time.Duration) int
}

func bodyC08(x *X) {
	hard := x.W(3) == 0
	var f *CNF
	if hard {
		f, _ = x.hardCNF()
	} else {
		f = x.anyCNF()
	}
	var g inter.S
	switch x.W(3) {
	case 0:
		g = newGini(x)
	case 1:
		g = xo.NewS()
	case 2:
		g = gini.NewSv().(inter.S)
	}
	x.Log("instance %d clauses over %d variables %s (hard %v, %T)", len(f.Cls), f.N, brief(f), hard, g)
	for _, c := range f.Cls {
		for _, l := range c {
			g.Add(lit(l))
		}
		g.Add(z.LitNull)
	}
	bd := x.ctlBound()
	unsat := false
	truthOf := func(as []int) int {
		if hard {
			return -1
		}
		return oracle(f.Cls, as)
	}
	check := func(name string, r int, as []int) {
		t := truthOf(as)
		if r != 0 && t != 0 && r != t {
			x.Fail("wrong", "%s answered %d, the truth is %d", name, r, t)
		}
		if r == 1 {
			checkModelV(x, "model", name, f.Cls, as, func(l int) bool { return g.Value(lit(l)) })
		}
		if r == -1 {
			checkWhySet(x, "why", name, whyCls(f, hard), as, ints(g.Why(nil)))
			unsat = true
		}
	}
	var scopes [][]int
	scoped := func() (a []int) {
		for _, s := range scopes {
			a = append(a, s...)
		}
		return
	}
	untest := func() {
		r := g.Untest()
		x.Log("Untest -> %d", r)
		scopes = scopes[:len(scopes)-1]
		unsat = r == -1
		if unsat && truthOf(scoped()) == 1 {
			x.Fail("wrong", "Untest answered -1, the scopes %v are satisfiable", scopes)
		}
	}
	inScopes := x.PickI(0, 0, 4)
	for i, n := 0, 2+x.W(6+inScopes); i < n; i++ {
		as := x.pickAssumpsOld(f.N, x.PickI(0, 2))
		op := x.W(8 + inScopes)
		if op >= 8 {
			if op == 11 && len(scopes) > 0 {
				untest()
				continue
			}
			if len(scopes) > 3 || unsat {
				continue
			}
			g.Assume(lits(as)...)
			r, _ := g.Test(nil)
			scopes = append(scopes, as)
			x.Log("Test of %v -> %d", as, r)
			x.Hit("scope.opened")
			if r != 0 && !hard && truthOf(scoped()) != r {
				x.Fail("wrong", "Test answered %d under %v", r, scoped())
			}
			unsat = r == -1
			if unsat {
				untest()
			}
			continue
		}
		if unsat && len(scopes) > 0 {
			untest()
			continue
		}
		g.Assume(lits(as)...)
		as = append(scoped(), as...)
		if hard && (op == 5 || op == 6) {
			op = x.W(5)
		}
		switch op {
		case 0, 1, 2, 3:
			d := x.dur()
			if x.W(12) == 0 && len(as) == 0 {
				d = -time.Duration(x.W(1000))
				var r int
				x.Bounded("try", "Try", bd, func() { r = g.Try(d) })
				x.Log("Try(%s) -> %d", d, r)
				if r != 0 {
					check("Try", r, as)
				}
				break
			}
			st := simrt.NowNs()
			var r int
			x.Bounded("try", "Try", int64(d)/x.Cfg.NsPerStep+bd, func() { r = g.Try(d) })
			el := simrt.NowNs() - st
			x.Log("Try(%s) under %v -> %d after %s", d, as, r, time.Duration(el))
			if r == 0 {
				x.NonTrivial = true
				x.Hit("try.timeout")
				if el < int64(d) {
					x.Fail("early", "Try(%s) gave up after %s", d, time.Duration(el))
				}
			}
			check("Try", r, as)
		case 4:
			// a background solve is not cut short by an earlier limit
			c := g.GoSolve()
			d := x.dur()
			st := simrt.NowNs()
			r := c.Try(d)
			el := simrt.NowNs() - st
			x.Log("GoSolve.Try(%s) under %v -> %d after %s", d, as, r, time.Duration(el))
			if r == 0 && el < int64(d) {
				x.Fail("early", "a background solve ended with 0 after %s of its %s", time.Duration(el), d)
			}
			check("GoSolve.Try", r, as)
		case 5:
			// much longer than any of the instances needs
			r := g.Try(1000 * time.Hour)
			x.Log("Try(1000h) under %v -> %d", as, r)
			if r == 0 {
				x.Fail("cut", "Try(1000h) answered 0")
			}
			check("Try", r, as)
		case 6:
			var r int
			if x.W(2) == 0 {
				r = g.Solve()
			} else {
				r = g.GoSolve().Wait()
			}
			x.Log("Solve under %v -> %d", as, r)
			if r == 0 {
				x.Fail("cut", "a solve without limit answered 0")
			}
			check("Solve", r, as)
		case 7:
			g = g.SCopy()
			x.Log("go on with a copy")
			// pending assumptions go along
			r := g.Try(1 + x.dur())
			check("Try of the copy", r, as)
		}
	}
	x.Bounded("leak", "end of the solves' goroutines", bd, func() { simrt.Quiesce() })
	if l := libTasks(); len(l) > 0 {
		x.Fail("leak", "goroutines left: %v", l)
	}
}

// whyCls is the clause set explanations are checked against; for the hard instances
// the check would be as hard, and they are unsatisfiable by themselves.
func whyCls(f *CNF, hard bool) [][]int {
	if hard {
		return [][]int{{}}
	}
	return f.Cls
}
