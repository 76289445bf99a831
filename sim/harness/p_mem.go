package main

import (
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"strings"
	"time"
	"unsafe"

	"github.com/go-air/gini"
	"github.com/go-air/gini/ax"
	"github.com/go-air/gini/crisp"
	"github.com/go-air/gini/gen"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/internal/simrt"
	"github.com/go-air/gini/logic"
	"github.com/go-air/gini/z"
)

func init() {
	register(&Prop{ID: "C32", Quick: 8000, Thorough: 300000,
		Title: "Long use does not pile up memory",
		Rule:  "One run uses one object (a solver, alone, in a chain of copies or under an exchanger; a stub solver; a CRISP server, one long session or many short ones; a circuit which is asked for the same gates) for hundreds of rounds of a random mix of operations, each of which ends with the content it began with, some interrupted, timed out or cut off, and computes the size of everything reachable from the object after an eighth, a quarter, a half and all of the rounds. Non-trivial: the run got to the end.",
		Real:  append([]string{"crisp", "ax", "logic", "gen/rands.go"}, solverReal...), Stub: append([]string{"network (simulated)"}, solverStub...),
		Assume: []string{"memory which only goroutines or the allocator hold is not seen: goroutines left behind are counted, closures are not"}, Setup: setupC32, Body: bodyC32})
}

func setupC32(x *X) {
	x.stdSetup()
	x.Cfg.MaxSteps = 900000000
	x.Cfg.MaxSimTime = 0
	x.Cfg.StallPct = 0
	x.Cfg.SwitchPct = 0
	x.Knobs = map[string]int64{"PropTick": x.Pick(20, 100, 1000), "GcFactor": x.Pick(30, 100)}
}

// sizer computes the memory reachable from values.
type sizer struct {
	seen map[unsafe.Pointer]bool
	by   map[string]int64
}

// deepSize returns the size of what is reachable from v in bytes, by type.
func deepSize(v any) (int64, map[string]int64) {
	s := &sizer{map[unsafe.Pointer]bool{}, map[string]int64{}}
	s.walk(reflect.ValueOf(v))
	var n int64
	for _, k := range s.by {
		n += k
	}
	return n, s.by
}

func (s *sizer) add(t reflect.Type, n int64) { s.by[t.String()] += n }

// plain tells whether values of the type hold no references.
func plain(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Interface, reflect.Chan, reflect.Func, reflect.String, reflect.UnsafePointer:
		return false
	case reflect.Array:
		return plain(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !plain(t.Field(i).Type) {
				return false
			}
		}
	}
	return true
}

// foreign tells whether a type belongs to the simulator or the standard library.
func foreign(t reflect.Type) bool {
	p := t.PkgPath()
	return p != "" && (strings.Contains(p, "internal/simrt") || strings.Contains(p, "verifsim") || !strings.Contains(p, "."))
}

func (s *sizer) walk(v reflect.Value) {
	if !v.IsValid() {
		return
	}
	t := v.Type()
	if foreign(t) {
		return
	}
	switch t.Kind() {
	case reflect.Ptr:
		if v.IsNil() || s.seen[v.UnsafePointer()] || foreign(t.Elem()) {
			return
		}
		s.seen[v.UnsafePointer()] = true
		s.add(t, int64(t.Elem().Size()))
		s.walk(v.Elem())
	case reflect.Interface:
		if !v.IsNil() {
			s.walk(v.Elem())
		}
	case reflect.Slice:
		if v.Cap() == 0 || s.seen[v.UnsafePointer()] {
			return
		}
		if v.Len() > 0 || t.Elem().Size() > 0 {
			s.seen[v.UnsafePointer()] = true
		}
		s.add(t, int64(v.Cap())*int64(t.Elem().Size()))
		if plain(t.Elem()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			s.walk(v.Index(i))
		}
	case reflect.Array:
		if !plain(t.Elem()) {
			for i := 0; i < v.Len(); i++ {
				s.walk(v.Index(i))
			}
		}
	case reflect.Map:
		if v.IsNil() || s.seen[v.UnsafePointer()] {
			return
		}
		s.seen[v.UnsafePointer()] = true
		s.add(t, 48+int64(v.Len())*int64(t.Key().Size()+t.Elem().Size()))
		if plain(t.Key()) && plain(t.Elem()) {
			return
		}
		for it := v.MapRange(); it.Next(); {
			s.walk(it.Key())
			s.walk(it.Value())
		}
	case reflect.String:
		s.add(t, int64(v.Len()))
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			s.walk(v.Field(i))
		}
	}
}

// meter watches the size of an object over the rounds of its use.
type meter struct {
	x     *X
	what  string
	slack int64
	get   func() any
	at    []int64
	types []map[string]int64
}

// memSlack is what a solver may grow without reason: learnt clauses, growing buffers. It is
// unsatSlack when its formula may be unsatisfiable, other objects have smallSlack.
const (
	memSlack   = 8 << 10
	unsatSlack = 48 << 10
	smallSlack = 1 << 10
)

func (m *meter) sample() {
	n, by := deepSize(m.get())
	m.at = append(m.at, n)
	m.types = append(m.types, by)
	m.x.Log("%s: %d bytes", m.what, n)
}

// rounds calls f n times and checks that the object does not grow with it.
func (m *meter) rounds(n int, f func(i int)) {
	for i := 1; i <= n; i++ {
		f(i)
		if i == n/8 || i == n/4 || i == n/2 || i == n {
			m.sample()
		}
	}
	m.x.NonTrivial = true
	a, b, c, d := m.at[0], m.at[1], m.at[2], m.at[3]
	if d <= c || c <= b || d <= a+a/4+m.slack {
		return
	}
	// buffers double now and then, and learnt clauses come and go: what grows has to go on growing
	for i := n + 1; i <= 4*n; i++ {
		f(i)
	}
	m.sample()
	if e := m.at[4]; e > d+(d-a) {
		t, most := "", int64(0)
		for k, v := range m.types[3] {
			if g := v - m.types[0][k]; g > most || g == most && k < t {
				t, most = k, g
			}
		}
		m.x.Fail("memory", "%s grows with its use: %d bytes after %d rounds, %d, %d, %d after %d, %d after %d; most (%d) in %s", m.what, a, n/8, b, c, d, n, e, 4*n, most, t)
	}
}

// memMix is a mix of solver operations.
type memMix struct {
	x     *X
	f     *CNF
	ops   []int
	slack int64
}

const memOps = 14

func (x *X) newMix() *memMix {
	n := 8 + x.W(18)
	f := &CNF{N: n}
	m := n * (2 + x.W(3))
	sat := x.WP(1, 2)
	if sat {
		f = x.plantedCNF(n, m)
	} else {
		for ; m > 0; m-- {
			f.Cls = append(f.Cls, x.clauseNoRep(n, 3))
		}
	}
	f.Cls = append(f.Cls, []int{n + 1, n + 2, n + 3})
	mix := &memMix{x: x, f: f, slack: memSlack}
	if !sat {
		// every solve under assumptions learns again what makes it unsatisfiable, and the
		// solver removes learnt clauses at ever longer intervals
		mix.slack = unsatSlack
	}
	for i := 1 + x.W(4); i > 0; i-- {
		mix.ops = append(mix.ops, x.W(memOps))
	}
	return mix
}

func (m *memMix) lits(k int) []z.Lit {
	var r []z.Lit
	for ; k > 0; k-- {
		r = append(r, lit(m.x.litOver(m.f.N)))
	}
	return r
}

// round does one round; g is replaced when it is copied.
func (m *memMix) round(g **gini.Gini) {
	x := m.x
	for _, o := range m.ops {
		g := g
		switch o {
		case 0, 1: // clauses which are switched on for a time
			var as []z.Lit
			for k := 1 + x.W(3); k > 0; k-- {
				// one literal which only occurs here, so that the clause is never empty
				e := z.Var(m.f.N + 1 + x.W(3)).Pos()
				for _, l := range append(m.lits(x.W(4)), e) {
					(*g).Add(l)
				}
				as = append(as, (*g).Activate(), e.Not())
			}
			(*g).Assume(as...)
			if o == 1 {
				(*g).Solve()
			} else {
				(*g).Test(nil)
				(*g).Untest()
			}
			for i := 0; i < len(as); i += 2 {
				(*g).Deactivate(as[i])
			}
		case 2:
			(*g).Assume(m.lits(1 + x.W(6))...)
			(*g).Solve()
		case 3: // nested scopes
			d := 0
			var buf []z.Lit
			for k := 1 + x.W(4); k > 0; k-- {
				(*g).Assume(m.lits(1)...)
				r, b := (*g).Test(buf)
				buf = b
				d++
				if r == -1 {
					break
				}
			}
			(*g).Assume(m.lits(1)...)
			(*g).Solve()
			for ; d > 0; d-- {
				(*g).Untest()
			}
		case 4: // controlled
			(*g).Assume(m.lits(2)...)
			c := (*g).GoSolve()
			switch x.W(4) {
			case 0:
				c.Stop()
			case 1:
				c.Try(time.Duration(x.W(2000)) * time.Duration(x.Cfg.NsPerStep))
			case 2:
				if _, ok := c.Pause(); ok {
					c.Unpause()
					c.Wait()
				}
			case 3:
				c.Wait()
			}
		case 5:
			(*g).Assume(m.lits(3)...)
			(*g).Try(time.Duration(x.W(3000)) * time.Duration(x.Cfg.NsPerStep))
		case 6: // explanations
			(*g).Assume(m.lits(6)...)
			if (*g).Solve() == -1 {
				(*g).Why(nil)
			}
		case 7: // a copy which goes away
			c := (*g).Copy()
			c.Assume(m.lits(2)...)
			c.Solve()
		case 8: // the copy goes on
			*g = (*g).Copy()
		case 9: // copied in the middle
			(*g).Assume(m.lits(2)...)
			c := (*g).GoSolve()
			if _, ok := c.Pause(); ok {
				d := (*g).Copy()
				c.Unpause()
				c.Stop()
				*g = d
			}
		case 10:
			(*g).Write(io.Discard)
			(*g).Assume(m.lits(4)...)
			_, b := (*g).Test(nil)
			if len(b) > 0 {
				(*g).Reasons(nil, b[x.W(len(b))])
			}
			(*g).Untest()
		case 11: // a clause which is there already
			for _, l := range m.f.Cls[x.W(len(m.f.Cls))] {
				(*g).Add(lit(l))
			}
			(*g).Add(z.Var(m.f.N + 1).Pos())
			a := (*g).Activate()
			(*g).Deactivate(a)
		case 12: // clauses which say nothing
			ms := m.lits(3)
			(*g).Add(ms[0])
			(*g).Add(ms[1])
			(*g).Add(ms[0].Not())
			(*g).Add(z.LitNull)
			(*g).Assume(ms[1:]...)
			(*g).Solve()
		case 13: // many clauses under one activation literal
			a := (*g).ActivationLit()
			for k := 1 + x.W(4); k > 0; k-- {
				for _, l := range append(m.lits(x.W(4)), z.Var(m.f.N+1+x.W(3)).Pos()) {
					(*g).Add(l)
				}
				(*g).ActivateWith(a)
			}
			(*g).Assume(append(m.lits(2), a)...)
			(*g).Solve()
			(*g).Deactivate(a)
		}
	}
}

func bodyC32(x *X) {
	n := 8 * x.PickI(64, 128, 256, 512, 1024)
	switch x.W(8) {
	case 0, 1, 2, 3:
		mix := x.newMix()
		if mix.slack == unsatSlack && n > 8*256 {
			n = 8 * 256
		}
		g := gini.New()
		addFrom(g, mix.f, 0)
		x.Log("a solver, %d rounds of %v", n, mix.ops)
		for _, o := range mix.ops {
			x.Hit(fmt.Sprintf("solver.op%d", o))
		}
		m := &meter{x: x, what: "a solver", slack: mix.slack, get: func() any { return g }}
		m.rounds(n, func(int) { mix.round(&g) })
	case 4:
		x.memExchange(n / 4)
	case 5:
		x.memStub(n / 4)
	case 6:
		x.memCrisp(n / 16)
	case 7:
		x.memCircuit(n / 4)
	}
	simrt.Quiesce()
}

func (x *X) memExchange(n int) {
	mix := x.newMix()
	g := gini.New()
	addFrom(g, mix.f, 0)
	units := 1 + x.W(4)
	a := ax.NewT(g, units)
	x.Log("an exchanger of %d units, %d rounds", units, n)
	x.Hit("exchange")
	m := &meter{x: x, what: "an exchanger", slack: mix.slack, get: func() any { return []any{a, simrt.Held()} }}
	m.rounds(n, func(i int) {
		open := 0
		for k := 1 + x.W(2*units); k > 0; {
			r := ax.NewRequest(mix.lits(2)...)
			if x.W(3) == 0 {
				r.Limit = time.Duration(1+x.W(3000)) * time.Duration(x.Cfg.NsPerStep)
			}
			for a.Ex(r) != nil {
				open--
			}
			open++
			k--
		}
		for ; open > 0; open-- {
			a.Ex(nil)
		}
	})
	a.Stop()
}

func (x *X) memStub(n int) {
	d := time.Duration(1+x.W(2000)) * time.Duration(x.Cfg.NsPerStep)
	var s inter.S = gen.RandSr(d, x.PickI(0, 1, -1), rand.NewSource(int64(x.W(1000))))
	chain := x.W(2) == 0
	x.Log("a stub solver, %d rounds", n)
	x.Hit("stub")
	m := &meter{x: x, what: "a stub solver", slack: smallSlack, get: func() any { return s }}
	m.rounds(n, func(i int) {
		s.Assume(z.Var(1 + x.W(9)).Pos())
		switch x.W(4) {
		case 0:
			s.Solve()
		case 1:
			s.Try(d / 2)
		case 2:
			s.GoSolve().Stop()
		case 3:
			if chain {
				s = s.SCopy()
			}
			s.Test(nil)
			s.Untest()
		}
	})
}

func (x *X) memCircuit(n int) {
	c := logic.NewC()
	var ms []z.Lit
	for i := 3 + x.W(4); i > 0; i-- {
		ms = append(ms, c.Lit())
	}
	seed := x.W(1 << 16)
	x.Log("a circuit over %d inputs, %d rounds", len(ms), n)
	x.Hit("circuit")
	build := func() {
		r := rand.New(rand.NewSource(int64(seed)))
		t := append([]z.Lit(nil), ms...)
		pick := func() z.Lit {
			m := t[r.Intn(len(t))]
			if r.Intn(2) == 0 {
				m = m.Not()
			}
			return m
		}
		for i := 0; i < 12; i++ {
			switch r.Intn(6) {
			case 0:
				t = append(t, c.And(pick(), pick()))
			case 1:
				t = append(t, c.Or(pick(), pick()))
			case 2:
				t = append(t, c.Xor(pick(), pick()))
			case 3:
				t = append(t, c.Choice(pick(), pick(), pick()))
			case 4:
				t = append(t, c.Ands(pick(), pick(), pick()))
			case 5:
				t = append(t, c.Implies(pick(), pick()))
			}
		}
		vs := make([]bool, c.Len())
		c.Eval(vs)
		c.CnfSince(&recorder{x: x}, nil, t[len(t)-1])
	}
	m := &meter{x: x, what: "a circuit", slack: smallSlack, get: func() any { return c }}
	cp := x.W(2) == 0
	m.rounds(n, func(int) {
		build()
		if cp {
			c = c.Copy()
		}
	})
}

func (x *X) memCrisp(n int) {
	x.netUpMax(1000)
	addr := "@/tmp/m.sock"
	simrt.AddDir("/tmp")
	s, e := crisp.NewServer(addr)
	if e != nil {
		x.Fail("server", "NewServer: %v", e)
	}
	t := simrt.GoTask("server", func() { s.Serve() })
	defer func() {
		s.Shutdown()
		t.Join()
	}()
	mix := x.newMix()
	dial := func() *crisp.Client {
		c, e := crisp.Dial(addr)
		if e != nil {
			x.Fail("dial", "Dial: %v", e)
		}
		for _, cl := range mix.f.Cls {
			for _, l := range cl {
				c.Add(lit(l))
			}
			c.Add(z.LitNull)
		}
		return c
	}
	use := func(c *crisp.Client) {
		c.Assume(mix.lits(1 + x.W(3))...)
		switch x.W(6) {
		case 0:
			c.GoSolve().Stop()
			return
		case 1:
			c.GoSolve().Try(time.Duration(x.W(100000) * int(x.Cfg.NsPerStep)))
			return
		}
		switch r, _ := c.Solve(); r {
		case 1:
			switch x.W(3) {
			case 0:
				c.Model(nil)
			case 1:
				c.ModelFor(nil, mix.lits(3))
			case 2:
				c.Value(mix.lits(1)[0])
			}
		case -1:
			if x.W(2) == 0 {
				c.Why(nil)
			} else {
				c.WhySelect(nil, mix.lits(3))
			}
		}
	}
	if x.W(2) == 0 {
		c := dial()
		x.Log("one session, %d rounds", n)
		x.Hit("session")
		m := &meter{x: x, what: "a CRISP server and a client", slack: mix.slack, get: func() any { return []any{s, c, simrt.Held()} }}
		m.rounds(n, func(int) { use(c) })
		c.Quit()
		return
	}
	x.Log("%d sessions", n)
	x.Hit("sessions")
	tasks := 0
	m := &meter{x: x, what: "a CRISP server", slack: smallSlack, get: func() any {
		// all sessions have ended: their handlers keep nothing
		simrt.Sleep(time.Duration(100*x.netDelay + 1000000*x.Cfg.NsPerStep))
		simrt.Quiesce()
		return []any{s, simrt.Held()}
	}}
	m.rounds(n, func(i int) {
		c := dial()
		use(c)
		if x.W(2) == 0 {
			c.Quit()
		} else {
			c.Close()
		}
		if i%8 == 0 {
			simrt.Quiesce()
			k := len(libTasks())
			if tasks == 0 {
				tasks = k
			} else if k > tasks+2 {
				x.Fail("tasks", "%d goroutines after %d sessions, %d after 8", k, i, tasks)
			}
		}
	})
}
