package main

import (
	"fmt"

	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/internal/simrt"
	"github.com/go-air/gini/logic"
	"github.com/go-air/gini/z"
)

func init() {
	register(&Prop{ID: "C29", Quick: 150000, Thorough: 2500000,
		Title: "Growing circuits and solvers used together mean what was built",
		Rule:  "random sequential circuits unrolled step by step, gates and cardinality constraints built over the unrolling, the new parts added to solvers in three ways between, during and after solves of all kinds (interrupted, in the background, within scopes), with copies of circuits and solvers; every answer, model, explanation and simulation compared with exhaustive truth tables; non-trivial when a solve was answered after the circuit grew behind an earlier solve, and a solve was interrupted, ran in the background while the circuit grew, or was of a copy",
		Real:  []string{"logic.S, C, Roll, CardSort, CNF conversion", "gini.Gini / xo solver and background control"}, Stub: []string{"goroutine scheduling, clocks and timers (simulated)"},
		Assume: []string{"one task at a time builds on a circuit", "clauses are not added within test scopes or while a solve runs (as documented)"},
		Setup:  longSetup, Body: bodyC29})
}

const (
	ttBits  = 10
	ttWords = 1 << ttBits / 64
)

// tt is the truth table of a function of ttBits free bits.
type tt [ttWords]uint64

func ttBit(b int) (t tt) {
	for p := 0; p < 1<<ttBits; p++ {
		if p>>b&1 == 1 {
			t[p/64] |= 1 << (p % 64)
		}
	}
	return
}

func (t tt) not() tt {
	for i := range t {
		t[i] = ^t[i]
	}
	return t
}

func (t tt) and(u tt) tt {
	for i := range t {
		t[i] &= u[i]
	}
	return t
}

func (t tt) or(u tt) tt { return t.not().and(u.not()).not() }

func (t tt) at(p int) bool { return t[p/64]>>(p%64)&1 == 1 }

func (t tt) none() bool { return t == tt{} }

// sqNode is a node of the reference circuit; arguments are node<<1|sign.
type sqNode struct {
	kind byte // 'T', 'i', 'l', or an operation
	args []int
	idx  int // of an input or latch
	m    z.Lit
}

// seq is a sequential circuit next to its reference.
type seq struct {
	x     *X
	s     *logic.S
	nodes []sqNode
	init  []int // of latches: 0, 1, 2 unknown
	next  []int
	xbit  []int // free bit of an unknown initial value
	nin   int
	free  int // first unused free bit
	memo  map[[2]int]tt
}

func (q *seq) lit(a int) z.Lit {
	m := q.nodes[a>>1].m
	if a&1 == 1 {
		return m.Not()
	}
	return m
}

// build builds a gate in c.
func build(c *logic.C, kind byte, m []z.Lit) z.Lit {
	switch kind {
	case 'a':
		return c.And(m[0], m[1])
	case 'o':
		return c.Or(m[0], m[1])
	case 'x':
		return c.Xor(m[0], m[1])
	case 'm':
		return c.Implies(m[0], m[1])
	case 'c':
		return c.Choice(m[0], m[1], m[2])
	case 'A':
		return c.Ands(m...)
	}
	return c.Ors(m...)
}

// tabulate is the table of a gate.
func tabulate(kind byte, t []tt) tt {
	switch kind {
	case 'a':
		return t[0].and(t[1])
	case 'o':
		return t[0].or(t[1])
	case 'x':
		return t[0].and(t[1].not()).or(t[1].and(t[0].not()))
	case 'm':
		return t[0].not().or(t[1])
	case 'c':
		return t[0].and(t[1]).or(t[0].not().and(t[2]))
	case 'A':
		r := tt{}.not()
		for _, u := range t {
			r = r.and(u)
		}
		return r
	}
	r := tt{}
	for _, u := range t {
		r = r.or(u)
	}
	return r
}

func (x *X) gateKind() (byte, int) {
	switch x.W(7) {
	case 0, 1:
		return 'a', 2
	case 2:
		return 'o', 2
	case 3:
		return 'x', 2
	case 4:
		return 'm', 2
	case 5:
		return 'c', 3
	}
	if x.W(2) == 0 {
		return 'A', x.W(5)
	}
	return 'O', x.W(5)
}

func (x *X) buildSeq() *seq {
	q := &seq{x: x, memo: map[[2]int]tt{}}
	if x.W(2) == 0 {
		q.s = logic.NewS()
	} else {
		q.s = logic.NewSCap(x.W(12))
	}
	q.nodes = append(q.nodes, sqNode{kind: 'T', m: q.s.T})
	q.nin = x.PickI(1, 2, 3, 2, 0)
	lat := x.W(6)
	leaf := func(isLatch bool) {
		if !isLatch {
			k := 0
			for _, n := range q.nodes {
				if n.kind == 'i' {
					k++
				}
			}
			q.nodes = append(q.nodes, sqNode{kind: 'i', idx: k, m: q.s.Lit()})
			return
		}
		in := x.PickI(0, 1, 0, 1, 2)
		if in == 2 && q.free >= 3 {
			in = 0
		}
		xb := -1
		if in == 2 {
			xb = q.free
			q.free++
		}
		q.init, q.xbit, q.next = append(q.init, in), append(q.xbit, xb), append(q.next, -1)
		m := q.s.Latch([]z.Lit{q.s.F, q.s.T, z.LitNull}[in])
		q.nodes = append(q.nodes, sqNode{kind: 'l', idx: len(q.init) - 1, m: m})
		q.next[len(q.next)-1] = (len(q.nodes) - 1) << 1 // itself by default
	}
	todo := []bool{}
	for i := 0; i < q.nin; i++ {
		todo = append(todo, false)
	}
	for i := 0; i < lat; i++ {
		todo = append(todo, true)
	}
	gates := 1 + x.W(x.PickI(6, 14, 24, 60))
	for len(todo) > 0 || gates > 0 {
		if len(todo) > 0 && (gates == 0 || x.W(4) > 0 || len(q.nodes) < 3) {
			i := x.W(len(todo))
			leaf(todo[i])
			todo = append(todo[:i:i], todo[i+1:]...)
			continue
		}
		gates--
		q.gate()
	}
	pick := func() int { return x.W(2 * len(q.nodes)) }
	for i := range q.nodes {
		if n := q.nodes[i]; n.kind == 'l' && x.W(8) > 0 {
			q.next[n.idx] = pick()
			q.s.SetNext(n.m, q.lit(q.next[n.idx]))
			if x.W(8) == 0 { // another one
				q.next[n.idx] = pick()
				q.s.SetNext(n.m, q.lit(q.next[n.idx]))
			}
			if q.init[n.idx] < 2 && x.W(8) == 0 {
				q.init[n.idx] ^= 1
				q.s.SetInit(n.m, []z.Lit{q.s.F, q.s.T}[q.init[n.idx]])
			}
		}
	}
	q.checkShape()
	return q
}

func (q *seq) gate() { q.gateIn(q.s) }

// growIn adds to the circuit s, which is unrolled already.
func (q *seq) growIn(s *logic.S) {
	for k := q.x.W(3); k >= 0; k-- {
		q.gateIn(s)
	}
	if q.x.W(4) == 3 {
		in := q.x.W(2)
		m := s.Latch([]z.Lit{s.F, s.T}[in])
		a := q.x.W(2 * len(q.nodes))
		s.SetNext(m, q.lit(a))
		q.init, q.xbit, q.next = append(q.init, in), append(q.xbit, -1), append(q.next, a)
		q.nodes = append(q.nodes, sqNode{kind: 'l', idx: len(q.init) - 1, m: m})
	}
	q.x.Hit("unrolled circuit grown")
}

func (q *seq) gateIn(s *logic.S) {
	x := q.x
	kind, n := x.gateKind()
	var args []int
	var ms []z.Lit
	for i := 0; i < n; i++ {
		a := x.W(2 * len(q.nodes))
		if x.W(3) > 0 { // a recent one
			a = 2*len(q.nodes) - 1 - x.W(min(2*len(q.nodes), 12))
		}
		args = append(args, a)
		ms = append(ms, q.lit(a))
	}
	m := build(&s.C, kind, ms)
	q.nodes = append(q.nodes, sqNode{kind: kind, args: args, m: m})
}

// checkShape checks what the circuit tells of itself.
func (q *seq) checkShape() {
	x, s := q.x, q.s
	if len(s.Latches) != len(q.init) {
		x.Fail("latches", "%d latches, want %d", len(s.Latches), len(q.init))
	}
	ins := map[int]bool{}
	for _, n := range q.nodes {
		switch n.kind {
		case 'T':
			if s.Type(n.m) != logic.SConst {
				x.Fail("type", "the constant has type %s", s.Type(n.m))
			}
		case 'i':
			ins[int(n.m.Var())] = true
			if s.Type(n.m) != logic.SInput {
				x.Fail("type", "the input %s has type %s", n.m, s.Type(n.m))
			}
		case 'l':
			if s.Type(n.m) != logic.SLatch || s.Latches[n.idx] != n.m {
				x.Fail("type", "latch %d, %s, has type %s and is listed as %s", n.idx, n.m, s.Type(n.m), s.Latches[n.idx])
			}
			if w := []z.Lit{s.F, s.T, z.LitNull}[q.init[n.idx]]; s.Init(n.m) != w {
				x.Fail("init", "latch %d has the initial value %s, want %s", n.idx, s.Init(n.m), w)
			}
			if w := q.lit(q.next[n.idx]); s.Next(n.m) != w {
				x.Fail("next", "latch %d has the next state %s, want %s", n.idx, s.Next(n.m), w)
			}
		}
	}
	ps := s.InPos(make([]int, x.W(3)))
	for _, p := range ps {
		if !ins[p] {
			x.Fail("inpos", "InPos gives %d, which is no input", p)
		}
	}
	if len(ps) != len(ins) {
		x.Fail("inpos", "InPos gives %v for %d inputs", ps, len(ins))
	}
}

// val is the table of a reference literal at a time.
func (q *seq) val(a, t int) tt {
	k := [2]int{a >> 1, t}
	v, ok := q.memo[k]
	if !ok {
		n := q.nodes[a>>1]
		switch n.kind {
		case 'T':
			v = tt{}.not()
		case 'i':
			v = ttBit(q.free + t*q.nin + n.idx)
		case 'l':
			switch {
			case t > 0:
				v = q.val(q.next[n.idx], t-1)
			case q.init[n.idx] == 2:
				v = ttBit(q.xbit[n.idx])
			case q.init[n.idx] == 1:
				v = tt{}.not()
			}
		default:
			ts := make([]tt, len(n.args))
			for i, b := range n.args {
				ts[i] = q.val(b, t)
			}
			v = tabulate(n.kind, ts)
		}
		q.memo[k] = v
	}
	if a&1 == 1 {
		return v.not()
	}
	return v
}

// bx is a literal of a combinational circuit with its table.
type bx struct {
	m    z.Lit
	t    tt
	what string
}

// bsess is a solver with the circuit it is used with.
type bsess struct {
	*sess
	q     *seq
	c     *logic.C
	roll  *logic.Roll // nil for a copied circuit
	pool  []bx
	enc   []bool // in the solver
	mark  []int8
	marks int
	f     tt // the clauses in force
	scope []tt
	depth int
	bits  []bx // free bits by index
	nsol  int
	grown bool
	and   [3]z.Lit // a conjunction which was built
}

func (b *bsess) push(m z.Lit, t tt, f string, a ...any) {
	b.pool = append(b.pool, bx{m, t, fmt.Sprintf(f, a...)})
	b.enc = append(b.enc, false)
	if b.nsol > 0 {
		b.grown = true
	}
}

func (b *bsess) pick() int {
	x, n := b.x, len(b.pool)
	i := x.W(n)
	if x.W(3) > 0 { // a recent one
		i = n - 1 - x.W(min(n, 6))
	}
	for k := 0; k < 3 && b.pool[i].m.Var() == 1; k++ {
		i = x.W(n)
	}
	return i
}

// signed is a literal of the pool or its negation.
func (b *bsess) signed(i int, neg bool) (z.Lit, tt) {
	if neg {
		return b.pool[i].m.Not(), b.pool[i].t.not()
	}
	return b.pool[i].m, b.pool[i].t
}

// extend builds something.
func (b *bsess) extend() {
	x := b.x
	if b.and[2] != z.LitNull {
		if m := b.c.And(b.and[0], b.and[1]); m != b.and[2] {
			x.Fail("shared", "%s: %s and %s is %s, was %s", b.name, b.and[0], b.and[1], m, b.and[2])
		}
	}
	op := x.W(8)
	switch {
	case op < 4 && b.roll != nil || len(b.pool) == 0:
		t := x.W(b.depth + 1)
		if x.W(2) == 0 {
			t = b.depth
		}
		if x.W(8) == 7 {
			b.q.growIn(b.roll.S)
		}
		a := x.W(2 * len(b.q.nodes))
		if x.W(3) > 0 {
			a = 2*len(b.q.nodes) - 1 - x.W(min(2*len(b.q.nodes), 20))
		}
		m := b.roll.At(b.q.lit(a), t)
		if b.roll.At(b.q.lit(a), t) != m {
			x.Fail("at", "At gives different literals for the same value")
		}
		if n := b.roll.Len(b.q.lit(a)); n <= t {
			x.Fail("len", "after At(%s, %d) its length is %d", b.q.lit(a), t, n)
		}
		if n := b.roll.MaxLen(); n < t+1 || n > b.depth+1 {
			x.Fail("maxlen", "MaxLen %d for unrollings to at least %d and at most %d", n, t+1, b.depth+1)
		}
		b.push(m, b.q.val(a, t), "node %d at %d", a, t)
	case op < 7:
		kind, n := x.gateKind()
		var ms []z.Lit
		var ts []tt
		for i := 0; i < n; i++ {
			m, t := b.signed(b.pick(), x.W(2) == 0)
			ms, ts = append(ms, m), append(ts, t)
		}
		cp := append([]z.Lit(nil), ms...)
		m := build(b.c, kind, ms)
		for i := range cp {
			if cp[i] != ms[i] {
				x.Fail("args", "building a gate changed its arguments")
			}
		}
		if n == 2 && kind == 'a' {
			l := b.c.Len()
			if r := b.c.And(ms[1], ms[0]); r != m || b.c.Len() != l {
				x.Fail("shared", "%s and %s is %s, then %s", ms[0], ms[1], m, r)
			}
			b.and = [3]z.Lit{ms[0], ms[1], m}
		}
		b.push(m, tabulate(kind, ts), "gate %c", kind)
	default:
		n := x.W(9)
		var ms []z.Lit
		var ts []tt
		for i := 0; i < n; i++ {
			m, t := b.signed(b.pick(), x.W(2) == 0)
			ms, ts = append(ms, m), append(ts, t)
		}
		cp := append([]z.Lit(nil), ms...)
		cs := b.c.CardSort(ms)
		for i := range cp {
			if cp[i] != ms[i] {
				x.Fail("args", "building a cardinality constraint changed its arguments")
			}
		}
		spoil(ms)
		if cs.N() != n {
			x.Fail("cardn", "a cardinality constraint over %d literals has N %d", n, cs.N())
		}
		for k := 1 + x.W(3); k > 0; k-- {
			bd := x.W(n+5) - 2
			geq := func(v int) tt {
				if v <= 0 {
					return tt{}.not()
				}
				var r tt
				for p := 0; p < 1<<ttBits; p++ {
					c := 0
					for _, t := range ts {
						if t.at(p) {
							c++
						}
					}
					if c >= v {
						r[p/64] |= 1 << (p % 64)
					}
				}
				return r
			}
			switch x.W(4) {
			case 0:
				b.push(cs.Leq(bd), geq(bd+1).not(), "at most %d of %d", bd, n)
			case 1:
				b.push(cs.Geq(bd), geq(bd), "at least %d of %d", bd, n)
			case 2:
				b.push(cs.Less(bd), geq(bd).not(), "less than %d of %d", bd, n)
			case 3:
				b.push(cs.Gr(bd), geq(bd+1), "more than %d of %d", bd, n)
			}
		}
		x.Hit("card")
	}
}

// simulate evaluates the whole circuit and compares it with the tables.
func (b *bsess) simulate() {
	x := b.x
	n := b.c.Len()
	w := x.W(ttWords)
	vs64 := make([]uint64, n)
	p := 64*w + x.W(64)
	vs := make([]bool, n)
	for _, in := range b.inputs() {
		vs64[in.m.Var()] = in.t[w]
		vs[in.m.Var()] = in.t.at(p)
	}
	b.c.Eval64(vs64)
	b.c.Eval(vs)
	for _, e := range b.pool {
		v, v64 := vs[e.m.Var()], vs64[e.m.Var()]
		if !e.m.IsPos() {
			v, v64 = !v, ^v64
		}
		if v != e.t.at(p) {
			x.Fail("eval", "%s: Eval gives %v for %s (%s), want %v", b.name, v, e.m, e.what, e.t.at(p))
		}
		if v64 != e.t[w] {
			x.Fail("eval64", "%s: Eval64 gives %x for %s (%s), want %x", b.name, v64, e.m, e.what, e.t[w])
		}
	}
	for i := 1; i < n; i++ {
		m := b.c.At(i)
		l, r := b.c.Ins(m)
		if l == z.LitNull || r == z.LitNull {
			continue
		}
		if int(l.Var()) >= i || int(r.Var()) >= i {
			x.Fail("order", "%s: element %d has the inputs %s and %s", b.name, i, l, r)
		}
	}
	x.Hit("simulated")
}

// evalSeq evaluates the sequential circuit step by step and compares every
// state with the tables.
func (q *seq) evalSeq(s *logic.S, depth int) {
	x := q.x
	w := x.W(ttWords)
	p := 64*w + x.W(64)
	n := s.Len()
	vs, vs64 := make([]bool, n), make([]uint64, n)
	for t := 0; t <= depth; t++ {
		ws, ws64 := make([]bool, n), make([]uint64, n)
		for i, nd := range q.nodes {
			v := nd.m.Var()
			switch {
			case nd.kind == 'i', nd.kind == 'l' && t == 0 && s.Init(nd.m) == z.LitNull:
				u := q.val(i<<1, t)
				ws[v], ws64[v] = u.at(p), u[w]
			case nd.kind == 'l' && t == 0:
				if s.Init(nd.m) == s.T {
					ws[v], ws64[v] = true, ^uint64(0)
				}
			case nd.kind == 'l':
				m := s.Next(nd.m)
				ws[v], ws64[v] = vs[m.Var()], vs64[m.Var()]
				if !m.IsPos() {
					ws[v], ws64[v] = !ws[v], ^ws64[v]
				}
			}
		}
		s.Eval(ws)
		s.Eval64(ws64)
		for i, nd := range q.nodes {
			u := q.val(i<<1, t)
			v, v64 := ws[nd.m.Var()], ws64[nd.m.Var()]
			if !nd.m.IsPos() {
				v, v64 = !v, ^v64
			}
			if v != u.at(p) {
				x.Fail("seq.eval", "at time %d Eval gives %v for node %d (%c, %s), want %v", t, v, i, nd.kind, nd.m, u.at(p))
			}
			if v64 != u[w] {
				x.Fail("seq.eval64", "at time %d Eval64 gives %x for node %d (%c, %s), want %x", t, v64, i, nd.kind, nd.m, u[w])
			}
		}
		vs, vs64 = ws, ws64
	}
	x.Hit("evaluated step by step")
}

// inputs are the inputs of the circuit which are known, with their free bits.
func (b *bsess) inputs() []bx { return b.bits }

// free makes the free bits' literals: inputs over time and unknown initial values.
func (b *bsess) freeBits() {
	for i, n := range b.q.nodes {
		switch n.kind {
		case 'i':
			for t := 0; t <= b.depth; t++ {
				b.bits = append(b.bits, bx{b.roll.At(n.m, t), b.q.val(i<<1, t), ""})
			}
		case 'l':
			if b.q.init[n.idx] == 2 {
				b.bits = append(b.bits, bx{b.roll.At(n.m, 0), b.q.val(i<<1, 0), ""})
			}
		}
	}
}

// Add implements inter.Adder for the session's solver and its reference.
type recAdder struct {
	s   *sess
	cur []int
	n   int
}

var _ inter.Adder = (*recAdder)(nil)

func (a *recAdder) Add(m z.Lit) {
	a.s.g.Add(m)
	if m != z.LitNull {
		l := m.Dimacs()
		a.cur = append(a.cur, l)
		a.s.r.note(l)
		return
	}
	a.s.r.cls = append(a.s.r.cls, refCl{lits: a.cur})
	a.cur = nil
	a.n++
}

// encode puts literals of the pool into the solver.
func (b *bsess) encode(is []int) {
	x := b.x
	var roots []z.Lit
	all := true
	for _, i := range is {
		all = all && b.enc[i]
		m, _ := b.signed(i, x.W(2) == 0)
		roots = append(roots, m)
	}
	if all && x.W(4) > 0 || len(b.r.scopes) > 0 {
		return
	}
	a := &recAdder{s: b.sess}
	switch x.W(8) {
	default:
		var n int
		first := 0
		if b.marks == 0 {
			first = 1
		}
		b.mark, n = b.c.CnfSince(a, b.mark, roots...)
		b.marks++
		if want := 3*(n-first) + first; a.n != want {
			x.Fail("total", "%s: CnfSince says %d nodes (%d the constant) and added %d clauses", b.name, n, first, a.n)
		}
		if len(b.mark) != b.c.Len() {
			x.Fail("marks", "%s: %d marks for %d nodes", b.name, len(b.mark), b.c.Len())
		}
		b.log("CnfSince %v: %d clauses", ints(roots), a.n)
	case 6:
		b.c.ToCnfFrom(a, roots...)
		b.log("ToCnfFrom %v: %d clauses", ints(roots), a.n)
	case 7:
		b.c.ToCnf(a)
		b.log("ToCnf: %d clauses", a.n)
		for i := range b.enc {
			b.enc[i] = true
		}
	}
	for _, i := range is {
		b.enc[i] = true
	}
}

// some picks literals of the pool which are in the solver (or puts them there).
func (b *bsess) some(max int) (is []int) {
	for k := b.x.W(max + 1); k > 0; k-- {
		is = append(is, b.pick())
	}
	b.encode(is)
	var r []int
	for _, i := range is {
		if b.enc[i] {
			r = append(r, i)
		}
	}
	return r
}

// constrain adds a clause over built literals for good.
func (b *bsess) constrain() {
	is := b.some(3)
	if len(is) == 0 {
		return
	}
	var c []int
	t := tt{}
	for _, i := range is {
		m, u := b.signed(i, b.x.W(2) == 0)
		c = append(c, m.Dimacs())
		t = t.or(u)
	}
	if b.f.and(t).none() && b.x.W(8) > 0 {
		return
	}
	b.f = b.f.and(t)
	b.addClause(c)
}

// hypo assumes built literals.
func (b *bsess) hypo(max int) tt {
	t := tt{}.not()
	var as []int
	for _, i := range b.some(max) {
		m, u := b.signed(i, b.x.W(2) == 0)
		if t.and(u).none() && b.x.W(3) > 0 {
			m, u = m.Not(), u.not()
		}
		as = append(as, m.Dimacs())
		t = t.and(u)
	}
	if len(as) > 0 {
		b.assume(as...)
	}
	return t
}

func (b *bsess) table() tt {
	t := b.f
	for _, u := range b.scope {
		t = t.and(u)
	}
	return t
}

// judge compares an answer with the table of what was asked.
func (b *bsess) judge(class string, res int, as []int, t tt) {
	x := b.x
	b.nsol++
	switch res {
	case 1:
		b.checkModel(class+":model", as)
		p := b.pattern()
		if !t.at(p) {
			x.Fail(class+":answer", "%s answered 1, but in its model (pattern %#x) the circuit does not satisfy what was asked (satisfiable: %v)", b.name, p, !t.none())
		}
		for i, e := range b.pool {
			if b.enc[i] && e.m.Var() <= b.g.MaxVar() && b.g.Value(e.m) != e.t.at(p) {
				x.Fail(class+":value", "%s: the value of %s (%s) is %v in the model with pattern %#x", b.name, e.m, e.what, !e.t.at(p), p)
			}
		}
	case -1:
		if !t.none() {
			x.Fail(class+":answer", "%s answered -1, but what was asked is satisfiable", b.name)
		}
	}
}

// pattern reads the free bits off the solver.
func (b *bsess) pattern() (p int) {
	for _, e := range b.bits {
		if e.m.Var() <= b.g.MaxVar() && b.g.Value(e.m) {
			for k := 0; k < ttBits; k++ {
				if e.t == ttBit(k) {
					p |= 1 << k
				}
			}
		}
	}
	return
}

// why checks an explanation against the tables.
func (b *bsess) why(as []int, ts map[int]tt) {
	why := ints(b.g.Why(nil))
	b.log("why -> %v", why)
	t := b.f
	for _, w := range why {
		u, ok := ts[w]
		if !ok || !contains(as, w) {
			b.x.Fail("why:notassumed", "%s: Why returned %v, but assumed were %v", b.name, why, as)
		}
		t = t.and(u)
	}
	if !t.none() {
		b.x.Fail("why:insufficient", "%s: Why returned %v, with which the circuit is satisfiable", b.name, why)
	}
}

// tables of the literals in the pool
func (b *bsess) tables() map[int]tt {
	r := map[int]tt{}
	for _, e := range b.pool {
		r[e.m.Dimacs()] = e.t
		r[-e.m.Dimacs()] = e.t.not()
	}
	return r
}

func (b *bsess) query() {
	x := b.x
	t := b.hypo(4)
	as := b.r.assumed()
	how := solveHow(x.W(int(nHow)))
	again := b.nsol > 0 && b.grown
	res := b.solve(how)
	b.r.pending = nil
	if res == 0 && (how == howSolve || how == howBgWait) {
		x.Fail("zero", "%s returned 0", howNames[how])
	}
	b.judge("solve", res, as, b.table().and(t))
	if res == -1 && x.W(2) == 0 {
		b.why(as, b.tables())
	}
	b.unsatScope = b.unsatScope || res == -1 && len(b.r.scopes) > 0
	b.note(res, how, again)
}

func (b *bsess) note(res int, how solveHow, again bool) {
	if again && res != 0 {
		b.x.Hit("answered.grown")
		b.x.feat["k.grown"] = 1
	}
	if res == 0 {
		b.x.feat["k.odd"] = 1
	}
}

// background runs a solve in the background while circuits grow and other sessions work.
func (b *bsess) background(others []*bsess) {
	x := b.x
	t := b.hypo(4)
	as := b.r.assumed()
	again := b.nsol > 0 && b.grown
	b.log("GoSolve, assumptions %v", as)
	c := b.g.GoSolve()
	for k := x.W(5); k > 0; k-- {
		switch o := others[x.W(len(others))]; x.W(3) {
		case 0:
			b.extend()
		case 1:
			b.simulate()
		case 2:
			if o != b {
				o.op(nil)
			}
		}
		if x.W(2) == 0 {
			simrt.Sleep(x.dur())
		}
	}
	x.feat["k.odd"] = 1
	res := bgDrive(x, c, solveHow(x.PickI(int(howBgWait), int(howBgStop), int(howBgTry), int(howBgPauseStop), int(howBgMix))))
	b.log("-> %s", sgn(res))
	b.r.pending = nil
	b.judge("solve", res, as, b.table().and(t))
	b.unsatScope = b.unsatScope || res == -1 && len(b.r.scopes) > 0
	b.note(res, howBgMix, again)
	x.Hit("background")
}

func (b *bsess) open() {
	if len(b.r.scopes) > 2 || b.unsatScope {
		return
	}
	t := b.hypo(3)
	res, out := b.g.Test(nil)
	b.log("test %v -> %d %v", b.r.pending, res, out)
	b.r.scopes = append(b.r.scopes, b.r.pending)
	b.r.pending = nil
	b.scope = append(b.scope, t)
	if res == -1 {
		b.unsatScope = true
	}
	b.judge("test", res, b.r.scoped(), b.table())
}

func (b *bsess) close() {
	if len(b.r.scopes) == 0 {
		return
	}
	r := b.g.Untest()
	b.log("untest -> %d", r)
	b.r.scopes = b.r.scopes[:len(b.r.scopes)-1]
	b.scope = b.scope[:len(b.scope)-1]
	b.unsatScope = r == -1
	if r == -1 && !b.table().none() {
		b.x.Fail("untest", "%s: Untest answered -1, but the remaining scopes are satisfiable", b.name)
	}
}

func (b *bsess) copyOf(name string) *bsess {
	o := *b
	o.sess = b.fork(name, b.g.Copy())
	o.pool = append([]bx(nil), b.pool...)
	o.enc = append([]bool(nil), b.enc...)
	o.scope = append([]tt(nil), b.scope...)
	o.mark = append([]int8(nil), b.mark...)
	if b.x.W(4) == 0 {
		// fresh storage on the next use
		o.mark = o.mark[:len(o.mark):len(o.mark)]
	}
	if b.x.W(2) == 0 {
		o.c = b.c.Copy()
		o.roll = nil
	}
	b.log("copy to %s, circuit copied: %v", name, o.c != b.c)
	b.x.Hit("copy")
	b.x.feat["k.odd"] = 1
	return &o
}

// op runs one operation; others are the sessions, nil while one of them is busy.
func (b *bsess) op(all []*bsess) {
	x := b.x
	switch x.W(11) {
	case 0, 1, 2:
		for k := x.W(5); k >= 0; k-- {
			b.extend()
		}
	case 3:
		b.simulate()
	case 4:
		if len(b.r.scopes) == 0 {
			b.constrain()
		}
	case 5:
		b.open()
	case 6:
		b.close()
	case 7:
		if all != nil {
			b.background(all)
			break
		}
		fallthrough
	default:
		b.query()
	}
}

func bodyC29(x *X) {
	q := x.buildSeq()
	b := &bsess{sess: newSess(x, "g0"), q: q, f: tt{}.not()}
	s := q.s
	if x.W(4) == 0 {
		s = q.s.Copy()
		if x.W(2) == 0 { // both grow
			s.Lit()
			m, l := q.s.Latch(q.s.F), s.Latch(s.T)
			n := len(q.init)
			if len(s.Latches) != n+1 || len(q.s.Latches) != n+1 || s.Latches[n] != l || q.s.Latches[n] != m || s.Init(l) != s.T || q.s.Init(m) != q.s.F {
				x.Fail("latches", "a new latch of a circuit and one of its copy: listed %v and %v", q.s.Latches, s.Latches)
			}
		}
	}
	b.depth = 8
	if q.nin > 0 {
		b.depth = (ttBits-q.free)/q.nin - 1
	}
	b.depth = min(b.depth, x.PickI(8, 8, 4, 2, 1, 0))
	b.roll = logic.NewRoll(s)
	b.c = b.roll.C
	if s != q.s {
		// what happens to the original is no matter
		m := q.s.T
		for i := 0; i < 5; i++ {
			m = q.s.And(q.s.Lit(), m.Not()).Not()
			for _, l := range q.s.Latches {
				q.s.SetNext(l, m)
			}
		}
		x.Hit("circuit copied")
	}
	if x.W(2) == 0 {
		b.freeBits()
	}
	if x.W(3) == 0 {
		q.evalSeq(s, b.depth)
	}
	x.Log("%d inputs, %d latches, %d nodes, depth %d", q.nin, len(q.init), len(q.nodes), b.depth)
	b.extend()
	b.extend()
	if b.bits == nil {
		b.freeBits()
	}
	all := []*bsess{b}
	for i := 8 + x.W(60); i > 0; i-- {
		o := all[x.W(len(all))]
		if len(all) < 3 && x.W(16) == 15 {
			all = append(all, o.copyOf(fmt.Sprintf("g%d", len(all))))
			continue
		}
		o.op(all)
	}
	for _, o := range all {
		for len(o.r.scopes) > 0 {
			o.close()
		}
		o.simulate()
		o.g.Solve() // forgets pending assumptions
		o.r.pending = nil
		r := o.g.Solve()
		o.log("final solve -> %d", r)
		if r == 0 {
			x.Fail("final:zero", "%s: Solve returned 0", o.name)
		}
		o.judge("final", r, nil, o.f)
	}
	x.NonTrivial = x.feat["k.grown"] == 1 && x.feat["k.odd"] == 1
	delete(x.feat, "k.grown")
	delete(x.feat, "k.odd")
}
