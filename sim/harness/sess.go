package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/go-air/gini"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/internal/simrt"
	"github.com/go-air/gini/z"
)

func lit(i int) z.Lit { return z.Dimacs2Lit(i) }

func lits(a []int) []z.Lit {
	r := make([]z.Lit, len(a))
	for i, v := range a {
		r[i] = lit(v)
	}
	return r
}

func ints(ms []z.Lit) []int {
	r := make([]int, len(ms))
	for i, m := range ms {
		r[i] = m.Dimacs()
	}
	return r
}

func sgn(r int) string {
	switch r {
	case 1:
		return "1"
	case -1:
		return "-1"
	}
	return fmt.Sprint(r)
}

// refCl is a clause of the reference model.
type refCl struct {
	lits []int
	act  int // activation literal, 0 none
}

// ref is the reference model of one solver: what was added, assumed, scoped.
type ref struct {
	cls     []refCl
	scopes  [][]int
	pending []int
	actives []int // live activation literals
	maxv    int
}

func (r *ref) clone() *ref {
	n := &ref{maxv: r.maxv}
	n.cls = append([]refCl(nil), r.cls...)
	for _, s := range r.scopes {
		n.scopes = append(n.scopes, append([]int(nil), s...))
	}
	n.pending = append([]int(nil), r.pending...)
	n.actives = append([]int(nil), r.actives...)
	return n
}

// formula is the clause set in force (activation literals are ordinary literals).
func (r *ref) formula() [][]int {
	out := make([][]int, 0, len(r.cls))
	for _, c := range r.cls {
		if c.act == 0 {
			out = append(out, c.lits)
		} else {
			out = append(out, append(append([]int(nil), c.lits...), -c.act))
		}
	}
	return out
}

func (r *ref) scoped() []int {
	var a []int
	for _, s := range r.scopes {
		a = append(a, s...)
	}
	return a
}

func (r *ref) assumed() []int { return append(r.scoped(), r.pending...) }

func (r *ref) note(l int) {
	if a := iabs(l); a > r.maxv {
		r.maxv = a
	}
}

// sess drives one solver next to its reference.
type sess struct {
	x    *X
	name string
	g    *solverG
	r    *ref
	// lastUnsat: the last operation was a solve or test that answered -1
	unsatScope bool
	acts       bool         // activation literals are used
	recycled   map[int]bool // variables of deactivated literals
	limit      int64        // step bound for synchronous interruptions
}

func newGini(x *X) *gini.Gini {
	switch x.W(4) {
	case 1:
		return gini.NewV(1 + x.W(20))
	case 2:
		return gini.NewVc(1+x.W(8), 1+x.W(16))
	}
	return gini.New()
}

// solverG is a solver whose operations, other than solving, must end promptly: within a
// number of statements of their own, which time spent by others or blocked is not part of.
type solverG struct {
	*gini.Gini
	x    *X
	name string
}

const promptSteps = 300000

func (g *solverG) own(op string, f func()) {
	g.x.Own("op:"+op, g.name+" "+op, promptSteps, f)
}

func (g *solverG) Add(m z.Lit)          { g.own("Add", func() { g.Gini.Add(m) }) }
func (g *solverG) ActivateWith(a z.Lit) { g.own("ActivateWith", func() { g.Gini.ActivateWith(a) }) }
func (g *solverG) Deactivate(m z.Lit)   { g.own("Deactivate", func() { g.Gini.Deactivate(m) }) }

// stray is a literal which no problem has.
var stray = z.Var(1 << 22).Pos()

// spoil overwrites a slice which the solver has no more business with.
func spoil(ms []z.Lit) {
	ms = ms[:cap(ms)]
	for i := range ms {
		ms[i] = stray
	}
}

// buffer returns storage for results of the solver, which may hold something.
func (g *solverG) buffer() []z.Lit {
	switch g.x.W(4) {
	case 1:
		return make([]z.Lit, 0, g.x.W(8))
	case 2, 3:
		ms := make([]z.Lit, 8)
		spoil(ms)
		return ms[:g.x.W(4)]
	}
	return nil
}

// taken returns a copy of a result, without what the n first elements of the storage for it
// were if the result was appended to them, and spoils the storage.
func (g *solverG) taken(op string, r []z.Lit, n int) []z.Lit {
	if r == nil {
		return nil
	}
	out := append([]z.Lit{}, r...)
	spoil(r)
	if len(out) >= n && n > 0 && out[0] == stray {
		for i := 0; i < n; i++ {
			if out[i] != stray {
				g.x.Fail("buffer", "%s: %s has overwritten element %d of the slice it was to append to", g.name, op, i)
			}
		}
		out = out[n:]
	}
	for _, m := range out {
		if m == stray {
			g.x.Fail("buffer", "%s: the result of %s has something which was in the storage before", g.name, op)
		}
	}
	return out
}

func (g *solverG) Assume(ms ...z.Lit) {
	own := append([]z.Lit(nil), ms...)
	g.own("Assume", func() { g.Gini.Assume(own...) })
	for i, m := range ms {
		if own[i] != m {
			g.x.Fail("buffer", "%s: Assume has changed its argument", g.name)
		}
	}
	spoil(own)
}

func (g *solverG) Value(m z.Lit) (v bool) {
	g.own("Value", func() { v = g.Gini.Value(m) })
	return
}

func (g *solverG) Why(ms []z.Lit) (r []z.Lit) {
	if ms == nil {
		ms = g.buffer()
	}
	n := len(ms)
	g.own("Why", func() { r = g.Gini.Why(ms) })
	return g.taken("Why", r, n)
}

func (g *solverG) Reasons(ms []z.Lit, m z.Lit) (r []z.Lit) {
	if ms == nil {
		ms = g.buffer()
	}
	n := len(ms)
	g.own("Reasons", func() { r = g.Gini.Reasons(ms, m) })
	return g.taken("Reasons", r, n)
}

func (g *solverG) Test(ms []z.Lit) (r int, out []z.Lit) {
	if ms != nil && g.x.W(2) == 0 {
		spoil(ms)
		ms = ms[:g.x.W(cap(ms)+1)]
	}
	g.own("Test", func() { r, out = g.Gini.Test(ms) })
	return r, g.taken("Test", out, 0)
}

func (g *solverG) Untest() (r int) {
	g.own("Untest", func() { r = g.Gini.Untest() })
	return
}

func (g *solverG) Activate() (m z.Lit) {
	g.own("Activate", func() { m = g.Gini.Activate() })
	return
}

func (g *solverG) ActivationLit() (m z.Lit) {
	g.own("ActivationLit", func() { m = g.Gini.ActivationLit() })
	return
}

func (g *solverG) GoSolve() (c inter.Solve) {
	g.own("GoSolve", func() { c = g.Gini.GoSolve() })
	return
}

func (g *solverG) Copy() *solverG {
	c := &solverG{x: g.x, name: g.name + "'"}
	g.own("Copy", func() { c.Gini = g.Gini.Copy() })
	return c
}

// smallVars: a formula over so few variables is solved within solveSteps in any history.
const (
	smallVars  = 32
	solveSteps = 3000000
)

// small runs a solve of a formula over n variables.
func (x *X) small(n int, name string, f func()) {
	if n > smallVars {
		f()
		return
	}
	x.Spend("solve", name+" of a small formula", solveSteps, f)
}

func newSess(x *X, name string) *sess {
	return &sess{x: x, name: name, g: &solverG{newGini(x), x, name}, r: &ref{}}
}

func (s *sess) log(f string, a ...any) { s.x.Log("%s: %s", s.name, fmt.Sprintf(f, a...)) }

func (s *sess) addClause(c []int) {
	s.log("add %v", c)
	for _, l := range c {
		s.g.Add(lit(l))
		s.r.note(l)
	}
	s.g.Add(z.LitNull)
	s.r.cls = append(s.r.cls, refCl{lits: c})
}

// complete ends a clause which has been begun.
func (s *sess) complete(begun []int, l int) {
	s.g.Add(lit(l))
	s.g.Add(z.LitNull)
	c := append(append([]int(nil), begun...), l)
	s.log("complete %v", c)
	for _, l := range c {
		s.r.note(l)
	}
	s.r.cls = append(s.r.cls, refCl{lits: c})
}

func (s *sess) addCNF(f *CNF) {
	s.log("add %d clauses over %d variables %s", len(f.Cls), f.N, brief(f))
	for _, c := range f.Cls {
		for _, l := range c {
			s.g.Add(lit(l))
			s.r.note(l)
		}
		s.g.Add(z.LitNull)
		s.r.cls = append(s.r.cls, refCl{lits: c})
	}
}

func brief(f *CNF) string {
	if len(f.Cls) <= 12 {
		return fmt.Sprint(f.Cls)
	}
	return fmt.Sprintf("%v...", f.Cls[:6])
}

func (s *sess) assume(ms ...int) {
	s.log("assume %v", ms)
	s.g.Assume(lits(ms)...)
	for _, l := range ms {
		s.r.note(l)
	}
	s.r.pending = append(s.r.pending, ms...)
}

// checkModel checks the reported values against clauses and assumptions.
func (s *sess) checkModel(class string, as []int) {
	checkModelV(s.x, class, s.name, s.r.formula(), as, func(l int) bool { return s.g.Value(lit(l)) })
}

func checkModelV(x *X, class, name string, cls [][]int, as []int, val func(int) bool) {
	for _, c := range cls {
		ok := false
		for _, l := range c {
			if val(l) {
				ok = true
				break
			}
		}
		if !ok {
			x.Fail(class, "%s answered 1 but its values falsify the clause %v", name, c)
		}
	}
	for _, l := range as {
		if !val(l) || val(-l) {
			x.Fail(class, "%s answered 1 but its values do not satisfy the assumption %d", name, l)
		}
	}
}

// checkAnswer checks a definite answer; assumptions as of the solve are given.
func (s *sess) checkAnswer(class string, res int, as []int) {
	f := s.r.formula()
	switch res {
	case 1:
		s.checkModel(class+":model", as)
	case -1:
		if o := oracle(f, as); o == 1 {
			s.x.Fail(class+":answer", "%s answered -1 but the clauses with assumptions %v are satisfiable", s.name, as)
		}
	case 0:
	default:
		s.x.Fail(class+":answer", "%s: result %d", s.name, res)
	}
}

// checkWhy checks a failed-assumption explanation.
func (s *sess) checkWhy(class string, as []int) {
	why := ints(s.g.Why(nil))
	s.log("why -> %v", why)
	checkWhySet(s.x, class, s.name, s.r.formula(), as, why)
}

func checkWhySet(x *X, class, name string, cls [][]int, as, why []int) {
	for _, w := range why {
		if !contains(as, w) {
			x.Fail(class+":notassumed", "%s: Why returned %v: %d was not assumed (assumptions %v)", name, why, w, as)
		}
	}
	if o := oracle(cls, why); o == 1 {
		x.Fail(class+":insufficient", "%s: Why returned %v for assumptions %v, which with the clauses is satisfiable", name, why, as)
	}
}

func contains(a []int, v int) bool {
	for _, w := range a {
		if w == v {
			return true
		}
	}
	return false
}

func setOf(a []int) string {
	b := append([]int(nil), a...)
	sort.Ints(b)
	return strings.Trim(fmt.Sprint(b), "[]")
}

// solveHow is a way of solving.
type solveHow int

const (
	howSolve solveHow = iota
	howTry
	howBgWait
	howBgStop
	howBgTry
	howBgPauseStop
	howBgMix
	nHow
)

var howNames = []string{"Solve", "Try", "GoSolve.Wait", "GoSolve.Stop", "GoSolve.Try", "GoSolve.Pause.Stop", "GoSolve.mix"}

// dur draws a duration between a few and very many statements of solving.
func (x *X) dur() time.Duration {
	n := x.Pick(1000, 1, 30, 300, 3000, 10000, 30000, 100000, 5)
	if x.durMax > 0 && n > x.durMax {
		n = x.durMax
	}
	n += int64(x.W(int(n)))
	return time.Duration(n * x.Cfg.NsPerStep)
}

// solve runs one solve in the given way and returns its result (0: interrupted).
func (s *sess) solve(how solveHow) int {
	x := s.x
	res := 0
	run := func() {
		switch how {
		case howSolve:
			res = s.g.Solve()
		case howTry:
			res = s.g.Try(x.dur() * time.Duration(x.PickI(1, 1000000)))
		default:
			res = s.bg(s.g.GoSolve(), how)
		}
	}
	s.log("solve by %s, assumptions %v scopes %v", howNames[how], s.r.pending, s.r.scopes)
	x.small(s.r.maxv, s.name+" "+howNames[how], run)
	s.log("-> %s", sgn(res))
	if res == 0 {
		x.Hit("solve.interrupted")
	} else {
		x.Hit("solve.answered")
	}
	return res
}

// bg drives a background solve to its end.
func (s *sess) bg(c inter.Solve, how solveHow) int {
	return bgDrive(s.x, c, how)
}

func bgDrive(x *X, c inter.Solve, how solveHow) int {
	switch how {
	case howBgWait:
		return c.Wait()
	case howBgStop:
		if x.W(3) > 0 {
			simrt.Sleep(x.dur())
		}
		return c.Stop()
	case howBgTry:
		return c.Try(x.dur() * time.Duration(x.PickI(1, 1000000)))
	case howBgPauseStop:
		if x.W(3) > 0 {
			simrt.Sleep(x.dur())
		}
		if r, ok := c.Pause(); !ok {
			return r
		}
		x.Hit("solve.paused")
		if x.W(2) == 0 {
			simrt.Sleep(x.dur())
		}
		c.Unpause()
		return c.Stop()
	}
	for i := 0; i < 6; i++ {
		switch x.W(4) {
		case 0:
			if r, ok := c.Test(); ok {
				return r
			}
		case 1:
			simrt.Sleep(x.dur())
		case 2:
			r, ok := c.Pause()
			if !ok {
				return r
			}
			x.Hit("solve.paused")
			if x.W(2) == 0 {
				simrt.Sleep(x.dur())
			}
			c.Unpause()
		case 3:
			simrt.Gosched()
		}
	}
	switch x.W(3) {
	case 0:
		return c.Stop()
	case 1:
		return c.Try(x.dur())
	}
	return c.Wait()
}

// pickAssumps draws assumptions, sometimes conflicting or over new variables.
func (x *X) pickAssumps(n, max int) []int {
	k := x.W(max + 1)
	var a []int
	for i := 0; i < k; i++ {
		a = append(a, x.litOver(n+x.PickI(0, 0, 0, 2)))
	}
	return a
}

// soloTasks are the tasks of the code under test which are alive.
func libTasks() []simrt.TaskInfo {
	return simrt.Alive(func(t simrt.TaskInfo) bool { return !t.Harn })
}
