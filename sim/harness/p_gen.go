package main

import (
	"fmt"
	"sort"
	"time"

	"github.com/go-air/gini"
	"github.com/go-air/gini/gen"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/internal/simrt"
	"github.com/go-air/gini/z"
)

func init() {
	register(&Prop{ID: "C25", Quick: 200000, Thorough: 4000000,
		Rule: "One run has one to three goroutines call generators of random sizes at once, into recording adders and real solvers, some of them slow (they sleep in Add) or failing (they panic in the middle, the caller recovers and goes on), with the package's random numbers drawn by the simulator or seeded; every formula is then compared with the problem it names, by enumeration where it is small and by its structure otherwise; afterwards some runs check seeding and that every literal, edge and size can occur. Non-trivial: two goroutines generated at once, or an adder was slow or failed.",
		Real: []string{"gen", "gini and internal/xo (some runs)", "z", "inter"}, Stub: []string{"goroutine scheduler, sync (simrt)", "time (simulated clock)", "math/rand's shared source (seeded choices)"},
		Assume: []string{"Rand3Cnf has at least 3 variables, RandColor no more edges than its graph can have"}, Setup: setupC25, Body: bodyC25})
}

func setupC25(x *X) {
	x.stdSetup()
	x.Cfg.MaxSteps = 8000000
	x.Cfg.MaxSimTime = 0
}

// recorder is an adder which takes down a formula.
type recorder struct {
	x     *X
	f     CNF
	cur   []int
	n     int // calls
	every int // sleeps after so many calls
	nap   time.Duration
	fail  int // panics in this call
	fired bool
	tee   inter.Adder
}

type adderFailed struct{}

func (r *recorder) Add(m z.Lit) {
	if r.n++; r.every > 0 && r.n%r.every == 0 {
		if r.nap == 0 {
			simrt.Gosched()
		} else {
			simrt.Sleep(r.nap)
		}
	}
	if r.n == r.fail {
		r.fired = true
		panic(adderFailed{})
	}
	if r.tee != nil {
		r.tee.Add(m)
	}
	if m == z.LitNull {
		r.f.Cls = append(r.f.Cls, r.cur)
		r.cur = nil
		return
	}
	l := m.Dimacs()
	if iabs(l) > r.f.N {
		r.f.N = iabs(l)
	}
	r.cur = append(r.cur, l)
}

// gjob is one goroutine which generates.
type gjob struct {
	x      *X
	name   string
	faults bool
}

// emit runs a generator; ok is false when the adder failed.
func (j *gjob) emit(what string, g inter.Adder, f func(dst inter.Adder)) (*CNF, bool) {
	x := j.x
	r := &recorder{x: x, tee: g}
	if j.faults && g == nil {
		switch x.F(4) {
		case 1:
			r.every = 1 + x.F(9)
			r.nap = time.Duration(x.F(3)) * 100 * time.Duration(x.Cfg.NsPerStep)
			x.Hit("fault.slow_adder")
			x.NonTrivial = true
		case 2:
			r.fail = 1 + x.F(30)
		}
	}
	func() {
		defer func() {
			if r.fired {
				recover()
			}
		}()
		x.Spend("steps", j.name+" "+what, 3000000, func() { f(r) })
	}()
	if r.fired {
		x.Hit("fault.failing_adder")
		x.NonTrivial = true
		x.Log("%s: %s: the adder failed", j.name, what)
		return nil, false
	}
	if len(r.cur) != 0 {
		x.Fail("open", "%s leaves a clause open: %v", what, r.cur)
	}
	x.Hit("gen." + firstWord(what))
	x.Log("%s: %s: %d clauses", j.name, what, len(r.f.Cls))
	return &r.f, true
}

func firstWord(s string) string {
	for i := range s {
		if s[i] == '(' {
			return s[:i]
		}
	}
	return s
}

// models calls f with every assignment of the variables 1..n which satisfies the clauses.
func models(cls [][]int, n int, f func(m uint) bool) {
	type cl struct{ p, n uint }
	cs := make([]cl, len(cls))
	for i, c := range cls {
		for _, l := range c {
			if l > 0 {
				cs[i].p |= 1 << (l - 1)
			} else {
				cs[i].n |= 1 << (-l - 1)
			}
		}
	}
next:
	for m := uint(0); m < 1<<n; m++ {
		for _, c := range cs {
			if m&c.p == 0 && ^m&c.n == 0 {
				continue next
			}
		}
		if !f(m) {
			return
		}
	}
}

func countModels(f *CNF, n int) (c int) {
	models(f.Cls, n, func(uint) bool { c++; return true })
	return
}

// holds evaluates a formula.
func holds(f *CNF, v func(int) bool) bool {
next:
	for _, c := range f.Cls {
		for _, l := range c {
			if v(iabs(l)) == (l > 0) {
				continue next
			}
		}
		return false
	}
	return true
}

// rows splits a formula into its positive clauses and the pairs of its negative clauses. It
// fails on clauses of another kind, and if the positive ones share variables.
func (j *gjob) rows(what string, f *CNF, n, k int) (row map[int]int, pairs map[[2]int]bool) {
	x := j.x
	row = map[int]int{}
	pairs = map[[2]int]bool{}
	nr := 0
	for _, c := range f.Cls {
		pos, neg := 0, 0
		for _, l := range c {
			if l > 0 {
				pos++
			} else {
				neg++
			}
		}
		switch {
		case neg == 0:
			for _, l := range c {
				if _, ok := row[l]; ok {
					x.Fail("shape", "%s: variable %d is in two positive clauses or twice in one", what, l)
				}
				row[l] = nr
			}
			if len(c) != k {
				x.Fail("shape", "%s: clause %v has not %d literals", what, c, k)
			}
			nr++
		case pos == 0 && neg == 2 && c[0] != c[1]:
			a, b := -c[0], -c[1]
			if a > b {
				a, b = b, a
			}
			pairs[[2]int{a, b}] = true
		default:
			x.Fail("shape", "%s: clause %v is neither a row nor a conflict", what, c)
		}
	}
	if nr != n {
		x.Fail("shape", "%s: %d positive clauses, want %d", what, nr, n)
	}
	for p := range pairs {
		for _, v := range p {
			if _, ok := row[v]; !ok {
				x.Fail("shape", "%s: a conflict on a variable which is in no row", what)
			}
		}
	}
	return
}

// columns checks that the conflicts are between variables of the same column, where every
// row has one variable in every column, and returns which rows conflict (each in all
// columns).
func (j *gjob) columns(what string, f *CNF, n, k int) map[[2]int]bool {
	x := j.x
	row, pairs := j.rows(what, f, n, k)
	parent := map[int]int{}
	for v := range row {
		parent[v] = v
	}
	var find func(v int) int
	find = func(v int) int {
		for parent[v] != v {
			v = parent[v]
		}
		return v
	}
	deg := map[[2]int]int{}
	for _, p := range sortedPairs(pairs) {
		a, b := row[p[0]], row[p[1]]
		if a == b {
			x.Fail("shape", "%s: conflict %v inside of a row", what, p)
		}
		if a > b {
			a, b = b, a
		}
		deg[[2]int{a, b}]++
		parent[find(p[0])] = find(p[1])
	}
	edges := map[[2]int]bool{}
	for _, e := range sortedCounts(deg) {
		if deg[e] != k {
			x.Fail("shape", "%s: rows %d and %d exclude each other in %d of %d columns", what, e[0], e[1], deg[e], k)
		}
		edges[e] = true
	}
	// within a column no two variables may be of the same row
	seen := map[[2]int]int{}
	vs := make([]int, 0, len(row))
	for v := range row {
		vs = append(vs, v)
	}
	sort.Ints(vs)
	for _, v := range vs {
		key := [2]int{find(v), row[v]}
		if w, ok := seen[key]; ok {
			x.Fail("shape", "%s: variables %d and %d of one row are in the same column", what, w, v)
		}
		seen[key] = v
	}
	return edges
}

func sortedPairs(m map[[2]int]bool) [][2]int {
	var r [][2]int
	for p := range m {
		r = append(r, p)
	}
	sort.Slice(r, func(i, j int) bool { return r[i][0] < r[j][0] || r[i][0] == r[j][0] && r[i][1] < r[j][1] })
	return r
}

func sortedCounts(m map[[2]int]int) [][2]int {
	b := map[[2]int]bool{}
	for p := range m {
		b[p] = true
	}
	return sortedPairs(b)
}

func pow(a, b int) int {
	r := 1
	for ; b > 0; b-- {
		r *= a
	}
	return r
}

// onto counts the functions of h holes to p pigeons or none, in which every pigeon occurs.
func onto(p, h int) int {
	r, c, sign := 0, 1, 1
	for i := 0; i <= p; i++ {
		r += sign * c * pow(p+1-i, h)
		c = c * (p - i) / (i + 1)
		sign = -sign
	}
	return r
}

// solved checks the answer of a solver which has the formula.
func (j *gjob) solved(what string, g *gini.Gini, f *CNF, sat bool) {
	if g == nil {
		return
	}
	x := j.x
	want := -1
	if sat {
		want = 1
	}
	r := 0
	x.Spend("solve", j.name+" "+what, 8000000, func() { r = g.Solve() })
	x.Hit("solved")
	if r != want {
		x.Fail("answer", "%s: the solver answers %d, the problem's is %d", what, r, want)
	}
	if sat && !holds(f, func(v int) bool { return g.Value(z.Var(v).Pos()) }) {
		x.Fail("model", "%s: the solver's model is none", what)
	}
}

func (j *gjob) solver() *gini.Gini {
	if j.x.W(4) != 0 {
		return nil
	}
	return gini.New()
}

func asAdder(g *gini.Gini) inter.Adder {
	if g == nil {
		return nil
	}
	return g
}

func (j *gjob) php() {
	x := j.x
	p, h := x.W(5), x.W(5)
	big := x.W(3) == 2
	if big {
		p, h = 1+x.W(12), 1+x.W(12)
	}
	what := fmt.Sprintf("Php(%d, %d)", p, h)
	var g *gini.Gini
	if p <= 5 && h <= 5 {
		g = j.solver()
	}
	f, ok := j.emit(what, asAdder(g), func(dst inter.Adder) { gen.Php(dst, p, h) })
	if !ok {
		return
	}
	if !big && p*h <= 16 {
		n := f.N
		if p > 0 && n != p*h {
			x.Fail("shape", "%s: %d variables", what, n)
		}
		inj := 1
		for i := 0; i < p; i++ {
			inj *= max(h-i, 0)
		}
		if p == 0 {
			n = 0
		}
		want := onto(p, h)
		if p == 0 {
			want = 1
		}
		if c := countModels(f, n); c != want && c != inj {
			x.Fail("models", "%s has %d models, want %d (or %d with every pigeon in one hole)", what, c, want, inj)
		}
	}
	if big && h > 0 {
		e := j.columns(what, f, p, h)
		if len(e) != p*(p-1)/2 {
			x.Fail("shape", "%s: %d of %d pairs of pigeons exclude each other", what, len(e), p*(p-1)/2)
		}
	}
	j.solved(what, g, f, p <= h)
}

// isPart tells whether v is a partition of n elements into k parts.
func isPart(v func(int) bool, n, k int) bool {
	for i := 0; i < n; i++ {
		c := 0
		for p := 0; p < k; p++ {
			if v(gen.PartVar(i, p, n).Dimacs()) {
				c++
			}
		}
		if c != 1 {
			return false
		}
	}
	return true
}

func (j *gjob) partition() {
	x := j.x
	n, k := x.W(6), x.W(5)
	if x.W(3) == 2 {
		n, k = 1+x.W(15), 1+x.W(6)
	}
	what := fmt.Sprintf("Partition(%d, %d)", n, k)
	seen := map[z.Var]bool{}
	for i := 0; i < n; i++ {
		for p := 0; p < k; p++ {
			v := gen.PartVar(i, p, n)
			if !v.IsPos() || v == 0 || seen[v.Var()] {
				x.Fail("partvar", "PartVar(%d, %d, %d) is %s", i, p, n, v)
			}
			seen[v.Var()] = true
		}
	}
	var g *gini.Gini
	if n*k <= 20 {
		g = j.solver()
	}
	f, ok := j.emit(what, asAdder(g), func(dst inter.Adder) { gen.Partition(dst, n, k) })
	if !ok {
		return
	}
	if n*k <= 14 {
		c := 0
		if f.N > n*k {
			x.Fail("shape", "%s: %d variables", what, f.N)
		}
		models(f.Cls, n*k, func(m uint) bool {
			c++
			if !isPart(func(v int) bool { return m>>(v-1)&1 == 1 }, n, k) {
				x.Fail("models", "%s: the model %b is no partition", what, m)
			}
			return true
		})
		if c != pow(k, n) {
			x.Fail("models", "%s has %d models, there are %d partitions", what, c, pow(k, n))
		}
	} else {
		j.partModels(what, f, n, k)
	}
	j.solved(what, g, f, n == 0 || k > 0)
}

// partModels checks random partitions, and assignments close to them.
func (j *gjob) partModels(what string, f *CNF, n, k int) {
	x := j.x
	for t := 0; t < 4; t++ {
		as := map[int]bool{}
		for i := 0; i < n; i++ {
			as[gen.PartVar(i, x.W(k), n).Dimacs()] = true
		}
		v := func(v int) bool { return as[v] }
		if !holds(f, v) {
			x.Fail("models", "%s: a partition is no model", what)
		}
		p := gen.PartVar(x.W(n), x.W(k), n).Dimacs()
		as[p] = !as[p]
		if holds(f, v) {
			x.Fail("models", "%s: a model is no partition", what)
		}
	}
}

// triples lists a < b < c <= n with a*a + b*b = c*c.
func triples(n int) (r [][3]int) {
	for c := 1; c <= n; c++ {
		for b := 1; b < c; b++ {
			for a := 1; a < b; a++ {
				if a*a+b*b == c*c {
					r = append(r, [3]int{a, b, c})
				}
			}
		}
	}
	return
}

// colouring colours 1..n with k colours so that no triple has one colour, with at most n
// steps back; nil if it found none.
func (j *gjob) colouring(n, k int, ts [][3]int) []int {
	col := make([]int, n+1)
	for i := 1; i <= n; i++ {
		c0 := j.x.W(k)
		ok := false
		for d := 0; d < k && !ok; d++ {
			col[i] = (c0 + d) % k
			ok = true
			for _, t := range ts {
				if t[2] == i && col[t[0]] == col[i] && col[t[1]] == col[i] {
					ok = false
				}
			}
		}
		if !ok {
			return nil
		}
	}
	return col
}

func (j *gjob) pyTriples() {
	x := j.x
	n, k := x.W(31), 1+x.W(3)
	what := fmt.Sprintf("PyTriples(%d, %d)", n, k)
	f, ok := j.emit(what, nil, func(dst inter.Adder) { gen.PyTriples(dst, n, k) })
	if !ok || n == 0 {
		return
	}
	ts := triples(n)
	as := map[int]bool{}
	v := func(v int) bool { return as[v] }
	set := func(col []int) {
		clear(as)
		for i := 1; i <= n; i++ {
			as[gen.PartVar(i-1, col[i], n).Dimacs()] = true
		}
	}
	col := j.colouring(n, k, ts)
	if col == nil {
		return
	}
	set(col)
	if !holds(f, v) {
		x.Fail("models", "%s: not true of the colouring %v, in which no triple has one colour", what, col[1:])
	}
	x.Hit("triples.free")
	if len(ts) > 0 && k > 1 {
		// make one triple all of one colour, and others as far as they share a number
		t := ts[x.W(len(ts))]
		c2 := append([]int(nil), col...)
		c := x.W(k)
		c2[t[0]], c2[t[1]], c2[t[2]] = c, c, c
		set(c2)
		if holds(f, v) {
			x.Fail("models", "%s: true of the colouring %v, in which %v has one colour", what, c2[1:], t)
		}
		x.Hit("triples.mono")
	}
	set(col)
	p := gen.PartVar(x.W(n), x.W(k), n).Dimacs()
	as[p] = !as[p]
	if holds(f, v) {
		x.Fail("models", "%s: true of what is no partition", what)
	}
}

func (j *gjob) py2Triples() {
	x := j.x
	n := x.W(30)
	what := fmt.Sprintf("Py2Triples(%d)", n)
	f, ok := j.emit(what, nil, func(dst inter.Adder) { gen.Py2Triples(dst, n) })
	if !ok {
		return
	}
	have := map[[4]int]bool{}
	beyond := false
	for _, c := range f.Cls {
		if len(c) != 3 {
			x.Fail("shape", "%s: clause %v", what, c)
		}
		s := 0
		if c[0] < 0 {
			s = 1
		}
		t := []int{iabs(c[0]), iabs(c[1]), iabs(c[2])}
		sort.Ints(t)
		if (c[0] < 0) != (c[1] < 0) || (c[0] < 0) != (c[2] < 0) || t[0]*t[0]+t[1]*t[1] != t[2]*t[2] || t[0] == 0 {
			x.Fail("shape", "%s: clause %v is of no triple", what, c)
		}
		if t[2] > n {
			beyond = true
		}
		have[[4]int{s, t[0], t[1], t[2]}] = true
	}
	for _, t := range triples(n) {
		for s := 0; s < 2; s++ {
			if !have[[4]int{s, t[0], t[1], t[2]}] {
				x.Fail("models", "%s does not exclude that %v is all in part %d", what, t, s)
			}
		}
	}
	if !beyond {
		return
	}
	// the finding is that it takes exactly the first n triples by their second number
	first := map[[4]int]bool{}
	for b := 1; len(first) < 2*n; b++ {
		for a := 1; a < b && len(first) < 2*n; a++ {
			for c := b; c < a+b; c++ {
				if a*a+b*b == c*c {
					first[[4]int{0, a, b, c}] = true
					first[[4]int{1, a, b, c}] = true
				}
			}
		}
	}
	same := len(first) == len(have)
	for t := range have {
		same = same && first[t]
	}
	if !same || !x.known("Py2Triples(n) speaks of the first n triples, with numbers beyond n, instead of the triples in [1..n]") {
		x.Fail("beyond", "%s: speaks of numbers beyond %d", what, n)
	}
}

func (j *gjob) binCycle() {
	x := j.x
	n := 2 + x.W(11)
	what := fmt.Sprintf("BinCycle(%d)", n)
	f, ok := j.emit(what, nil, func(dst inter.Adder) { gen.BinCycle(dst, n) })
	if !ok {
		return
	}
	if len(f.Cls) != n || f.N != n {
		x.Fail("shape", "%s: %d clauses over %d variables", what, len(f.Cls), f.N)
	}
	for _, c := range f.Cls {
		if len(c) != 2 {
			x.Fail("shape", "%s: clause %v", what, c)
		}
	}
	all := false
	models(f.Cls, n, func(m uint) bool {
		if m == 1<<n-1 {
			all = true
		} else if m != 0 {
			x.Fail("models", "%s: %b is a model", what, m)
		}
		return true
	})
	if !all {
		x.Fail("models", "%s: all true is no model", what)
	}
}

func (j *gjob) check3(what string, f *CNF, n, lo, hi int) {
	x := j.x
	if len(f.Cls) < lo || len(f.Cls) > hi {
		x.Fail("shape", "%s: %d clauses", what, len(f.Cls))
	}
	for _, c := range f.Cls {
		if len(c) != 3 || iabs(c[0]) == iabs(c[1]) || iabs(c[0]) == iabs(c[2]) || iabs(c[1]) == iabs(c[2]) {
			x.Fail("shape", "%s: clause %v", what, c)
		}
	}
	if f.N > n {
		x.Fail("shape", "%s: variable %d", what, f.N)
	}
}

func (j *gjob) rand3() {
	x := j.x
	n, m := 3+x.W(10), x.W(40)
	if x.W(4) == 3 {
		what := fmt.Sprintf("HardRand3Cnf(%d)", n)
		if f, ok := j.emit(what, nil, func(dst inter.Adder) { gen.HardRand3Cnf(dst, n) }); ok {
			j.check3(what, f, n, 7*n/2, 5*n)
		}
		return
	}
	what := fmt.Sprintf("Rand3Cnf(%d, %d)", n, m)
	if f, ok := j.emit(what, nil, func(dst inter.Adder) { gen.Rand3Cnf(dst, n, m) }); ok {
		j.check3(what, f, n, m, m)
	}
}

func (j *gjob) graph() {
	x := j.x
	n := x.W(9)
	m := x.W(n*(n-1)/2 + 2)
	what := fmt.Sprintf("RandGraph(%d, %d)", n, m)
	var g [][]int
	x.Spend("steps", j.name+" "+what, 3000000, func() { g = gen.RandGraph(n, m) })
	x.Hit("gen.RandGraph")
	x.Log("%s: %s: %v", j.name, what, g)
	if m > n*(n-1)/2 {
		if g != nil {
			x.Fail("graph", "%s is %v, want nil", what, g)
		}
		return
	}
	if len(g) != n {
		x.Fail("graph", "%s has %d nodes", what, len(g))
	}
	es := map[[2]int]bool{}
	for a, l := range g {
		for _, b := range l {
			if b < 0 || b >= n || a == b || es[[2]int{a, b}] {
				x.Fail("graph", "%s: %v: edge %d,%d out of range, of a node to itself, or twice", what, g, a, b)
			}
			es[[2]int{a, b}] = true
		}
	}
	for a, l := range g {
		for _, b := range l {
			if !es[[2]int{b, a}] {
				x.Fail("graph", "%s: %v: edge %d,%d only in one direction", what, g, a, b)
			}
		}
	}
	if len(es) != 2*m {
		x.Fail("graph", "%s: %v has not %d edges", what, g, m)
	}
}

func (j *gjob) color() {
	x := j.x
	n, k := 1+x.W(6), 1+x.W(3)
	if x.W(4) == 3 {
		n, k = 1+x.W(12), 1+x.W(6)
	}
	m := x.W(n*(n-1)/2 + 1)
	what := fmt.Sprintf("RandColor(%d, %d, %d)", n, m, k)
	var g *gini.Gini
	if n*k <= 18 {
		g = j.solver()
	}
	f, ok := j.emit(what, asAdder(g), func(dst inter.Adder) { gen.RandColor(dst, n, m, k) })
	if !ok {
		return
	}
	es := j.columns(what, f, n, k)
	if len(es) != m {
		x.Fail("shape", "%s: %d pairs of nodes exclude each other", what, len(es))
	}
	if g == nil {
		return
	}
	// colour the graph by trying
	list := sortedPairs(es)
	col := make([]int, n)
	var try func(i int) bool
	try = func(i int) bool {
		if i == n {
			return true
		}
	next:
		for c := 0; c < k; c++ {
			for _, e := range list {
				if e[1] == i && col[e[0]] == c {
					continue next
				}
			}
			col[i] = c
			if try(i + 1) {
				return true
			}
		}
		return false
	}
	j.solved(what, g, f, try(0))
}

func (j *gjob) cuber() {
	x := j.x
	size, mv := 1+x.W(8), 1+x.W(8)
	what := fmt.Sprintf("NewRandCuber(%d, %d)", size, mv)
	c := gen.NewRandCuber(size, z.Var(mv))
	var buf []z.Lit
	for i := 1 + x.W(6); i > 0; i-- {
		if x.W(3) == 0 {
			buf = nil
		}
		x.Spend("steps", j.name+" "+what, 1000000, func() { buf = c.RandCube(buf) })
		j.checkCube(what, buf, size, mv)
	}
	x.Hit("gen.RandCuber")
	x.Log("%s: %s", j.name, what)
}

func (j *gjob) checkCube(what string, cube []z.Lit, size, mv int) {
	if len(cube) < 1 || len(cube) > size {
		j.x.Fail("cube", "%s: cube %v", what, cube)
	}
	seen := map[z.Var]bool{}
	for _, m := range cube {
		if v := m.Var(); v == 0 || int(v) > mv || seen[v] {
			j.x.Fail("cube", "%s: cube %v", what, cube)
		} else {
			seen[v] = true
		}
	}
}

// alone checks what needs the package's random numbers for itself.
func (j *gjob) alone() {
	x := j.x
	switch x.W(4) {
	case 1:
		n, m, s := 3+x.W(10), 1+x.W(30), int64(x.W(1000))-500
		var fs [2]string
		for i := range fs {
			gen.Seed(s)
			a, _ := j.emit(fmt.Sprintf("Rand3Cnf(%d, %d)", n, m), nil, func(dst inter.Adder) { gen.Rand3Cnf(dst, n, m) })
			b, _ := j.emit(fmt.Sprintf("HardRand3Cnf(%d)", n), nil, func(dst inter.Adder) { gen.HardRand3Cnf(dst, n) })
			fs[i] = fmt.Sprint(a.Cls, b.Cls)
		}
		x.Hit("seeded")
		if fs[0] != fs[1] {
			x.Fail("seed", "Seed(%d), Rand3Cnf(%d, %d) and HardRand3Cnf give %s, then %s", s, n, m, fs[0], fs[1])
		}
	case 2:
		n := 3 + x.W(4)
		what := fmt.Sprintf("Rand3Cnf(%d, %d)", n, 60*n)
		f, _ := j.emit(what, nil, func(dst inter.Adder) { gen.Rand3Cnf(dst, n, 60*n) })
		j.check3(what, f, n, 60*n, 60*n)
		seen := map[int]bool{}
		for _, c := range f.Cls {
			for _, l := range c {
				seen[l] = true
			}
		}
		x.Hit("spread.cnf")
		if len(seen) != 2*n {
			x.Fail("spread", "%s has only %d of %d literals", what, len(seen), 2*n)
		}
	case 3:
		if x.W(2) == 0 {
			n := 3 + x.W(2)
			m := 1 + x.W(2)
			seen := map[[2]int]bool{}
			for i := 0; i < 250; i++ {
				for a, l := range gen.RandGraph(n, m) {
					for _, b := range l {
						seen[[2]int{a, b}] = true
					}
				}
			}
			x.Hit("spread.graph")
			if len(seen) != n*(n-1) {
				x.Fail("spread", "250 calls of RandGraph(%d, %d) give only %d of %d edges", n, m, len(seen)/2, n*(n-1)/2)
			}
			return
		}
		size, mv := 1+x.W(3), 3+x.W(2)
		what := fmt.Sprintf("NewRandCuber(%d, %d)", size, mv)
		c := gen.NewRandCuber(size, z.Var(mv))
		sizes, lits := map[int]bool{}, map[z.Lit]bool{}
		var buf []z.Lit
		for i := 0; i < 600; i++ {
			buf = c.RandCube(buf)
			j.checkCube(what, buf, size, mv)
			sizes[len(buf)] = true
			for _, m := range buf {
				lits[m] = true
			}
		}
		x.Hit("spread.cuber")
		if len(sizes) != size || len(lits) != 2*mv {
			x.Fail("spread", "600 cubes of %s have %d of %d sizes and %d of %d literals", what, len(sizes), size, len(lits), 2*mv)
		}
	}
}

func (j *gjob) step() {
	x := j.x
	switch x.W(12) {
	case 0, 1:
		j.php()
	case 2:
		j.partition()
	case 3:
		j.pyTriples()
	case 4:
		j.py2Triples()
	case 5:
		j.binCycle()
	case 6, 7:
		j.rand3()
	case 8:
		j.graph()
	case 9:
		j.color()
	case 10:
		j.cuber()
	case 11:
		s := int64(x.W(1000))
		x.Log("%s: Seed(%d)", j.name, s)
		x.Spend("steps", j.name+" Seed", 100000, func() { gen.Seed(s) })
	}
}

func bodyC25(x *X) {
	gen.Seed(int64(x.W(1 << 20)))
	n := x.PickI(1, 2, 3)
	faults := x.F(3) != 0
	if n > 1 {
		x.NonTrivial = true
	}
	var ts []*simrt.Task
	for i := 0; i < n; i++ {
		j := &gjob{x: x, name: fmt.Sprintf("user%d", i), faults: faults}
		k := 1 + x.W(5)
		ts = append(ts, simrt.GoHarness(j.name, func() {
			for ; k > 0; k-- {
				j.step()
			}
		}))
	}
	for _, t := range ts {
		t.Join()
	}
	(&gjob{x: x, name: "alone"}).alone()
	if l := libTasks(); len(l) > 0 {
		x.Fail("leak", "generators left goroutines: %v", l)
	}
}
