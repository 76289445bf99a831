package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/go-air/gini/logic"
	"github.com/go-air/gini/logic/aiger"
	"github.com/go-air/gini/z"
)

// ckt is the reference model of a sequential circuit.  Literals are id<<1|sign; node 0
// is the constant false.
type ckt struct {
	nodes []cnode
	in    []int // node ids
	lat   []int
	next  []int  // literals
	init  []byte // 0, 1, 2: uninitialized
	out   []int
	bad   []int
	con   []int
	just  [][]int
	fair  []int
	names map[string]string
}

type cnode struct {
	kind byte // 'c', 'i', 'l', 'a'
	a, b int
}

func newCkt() *ckt {
	return &ckt{nodes: []cnode{{kind: 'c'}}, names: map[string]string{}}
}

func (c *ckt) node(k byte, a, b int) int {
	c.nodes = append(c.nodes, cnode{k, a, b})
	return (len(c.nodes) - 1) << 1
}

// lists are the named groups of literals which are part of the interface, in order.
func (c *ckt) lists() (names []string, ls [][]int) {
	names = []string{"output", "bad", "constraint", "fair"}
	ls = [][]int{c.out, c.bad, c.con, c.fair}
	for i, j := range c.just {
		names = append(names, fmt.Sprintf("justice%d", i))
		ls = append(ls, j)
	}
	names = append(names, "next")
	ls = append(ls, c.next)
	return
}

// rng is a small generator for input patterns.
type rng uint64

func (r *rng) next() uint64 {
	*r += 0x9e3779b97f4a7c15
	v := uint64(*r)
	v = (v ^ v>>30) * 0xbf58476d1ce4e5b9
	v = (v ^ v>>27) * 0x94d049bb133111eb
	return v ^ v>>31
}

// step evaluates every node for 64 patterns at once.
func (c *ckt) step(in, lat []uint64) []uint64 {
	vs := make([]uint64, len(c.nodes))
	done := make([]bool, len(c.nodes))
	done[0] = true
	for i, n := range c.in {
		vs[n], done[n] = in[i], true
	}
	for i, n := range c.lat {
		vs[n], done[n] = lat[i], true
	}
	var ev func(n int) uint64
	ev = func(n int) uint64 {
		if done[n] {
			return vs[n]
		}
		done[n] = true
		nd := c.nodes[n]
		if nd.kind == 'a' {
			a, b := ev(nd.a>>1), ev(nd.b>>1)
			if nd.a&1 == 1 {
				a = ^a
			}
			if nd.b&1 == 1 {
				b = ^b
			}
			vs[n] = a & b
		}
		return vs[n]
	}
	for n := range c.nodes {
		ev(n)
	}
	return vs
}

func lval(vs []uint64, l int) uint64 {
	v := vs[l>>1]
	if l&1 == 1 {
		return ^v
	}
	return v
}

// diffCkt tells how got differs from want ("" if it does not): the interface, names,
// initial values, and the values of everything visible for random input sequences.
func diffCkt(want, got *ckt, seed uint64, steps int, names bool) string {
	if len(want.in) != len(got.in) {
		return fmt.Sprintf("%d inputs, want %d", len(got.in), len(want.in))
	}
	if len(want.lat) != len(got.lat) {
		return fmt.Sprintf("%d latches, want %d", len(got.lat), len(want.lat))
	}
	for i := range want.init {
		if want.init[i] != got.init[i] {
			return fmt.Sprintf("initial value of latch %d is %d, want %d (2: uninitialized)", i, got.init[i], want.init[i])
		}
	}
	wn, wl := want.lists()
	_, gl := got.lists()
	if len(wl) != len(gl) {
		return fmt.Sprintf("%d justice properties, want %d", len(got.just), len(want.just))
	}
	for i := range wl {
		if len(wl[i]) != len(gl[i]) {
			return fmt.Sprintf("%d %s literals, want %d", len(gl[i]), wn[i], len(wl[i]))
		}
	}
	if names {
		for k, v := range want.names {
			if w, ok := got.names[k]; !ok || w != v {
				return fmt.Sprintf("name of %s is %q (present %v), want %q", k, w, ok, v)
			}
		}
		for k, v := range got.names {
			if _, ok := want.names[k]; !ok {
				return fmt.Sprintf("%s has the name %q, want none", k, v)
			}
		}
	}
	r := rng(seed)
	wlat := make([]uint64, len(want.lat))
	for i, v := range want.init {
		switch v {
		case 1:
			wlat[i] = ^uint64(0)
		case 2:
			wlat[i] = r.next()
		}
	}
	glat := append([]uint64(nil), wlat...)
	for t := 0; t < steps; t++ {
		in := make([]uint64, len(want.in))
		for i := range in {
			in[i] = r.next()
		}
		wv, gv := want.step(in, wlat), got.step(in, glat)
		for i := range wl {
			for j := range wl[i] {
				if a, b := lval(wv, wl[i][j]), lval(gv, gl[i][j]); a != b {
					return fmt.Sprintf("the value of %s %d differs at time %d for %d of 64 input sequences", wn[i], j, t, ones(a^b))
				}
			}
		}
		for i := range want.next {
			wlat[i] = lval(wv, want.next[i])
			glat[i] = lval(gv, got.next[i])
		}
	}
	return ""
}

func ones(u uint64) (n int) {
	for ; u != 0; u &= u - 1 {
		n++
	}
	return
}

// cktOf reads a circuit off an aiger object through its exported methods.
func cktOf(a *aiger.T) (c *ckt, err string) {
	c = newCkt()
	n := a.Len()
	id := make([]int, n+1)
	tv := int(a.T.Var())
	conv := func(m z.Lit, what string) int {
		v := int(m.Var())
		if m == z.LitNull || v >= n {
			if err == "" {
				err = fmt.Sprintf("%s is %s, which is no literal of the circuit", what, m)
			}
			return 0
		}
		l := id[v] << 1
		if v == tv {
			l = 1
		}
		if (m.IsPos()) != (v != tv || a.T.IsPos()) {
			l ^= 1
		}
		return l
	}
	for i := 1; i < n; i++ {
		m := a.At(i)
		if int(m.Var()) == tv {
			continue
		}
		switch a.Type(m) {
		case logic.SInput:
			id[m.Var()] = c.node('i', 0, 0) >> 1
		case logic.SLatch:
			id[m.Var()] = c.node('l', 0, 0) >> 1
		case logic.SAnd:
			id[m.Var()] = c.node('a', 0, 0) >> 1
		}
	}
	for i := 1; i < n; i++ {
		m := a.At(i)
		if int(m.Var()) == tv || a.Type(m) != logic.SAnd {
			continue
		}
		p, q := a.Ins(m)
		nd := &c.nodes[id[m.Var()]]
		nd.a, nd.b = conv(p, "gate input"), conv(q, "gate input")
	}
	for i, m := range a.Inputs {
		l := conv(m, "input")
		if l&1 == 1 || c.nodes[l>>1].kind != 'i' {
			return nil, fmt.Sprintf("input %d is %s, no input of the circuit", i, m)
		}
		c.in = append(c.in, l>>1)
	}
	for i, m := range a.Latches {
		l := conv(m, "latch")
		if l&1 == 1 || c.nodes[l>>1].kind != 'l' {
			return nil, fmt.Sprintf("latch %d is %s, no latch of the circuit", i, m)
		}
		c.lat = append(c.lat, l>>1)
		c.next = append(c.next, conv(a.Next(m), "next state"))
		switch a.Init(m) {
		case a.F:
			c.init = append(c.init, 0)
		case a.T:
			c.init = append(c.init, 1)
		default:
			c.init = append(c.init, 2)
		}
	}
	all := func(what string, ms []z.Lit) (r []int) {
		for _, m := range ms {
			r = append(r, conv(m, what))
		}
		return
	}
	c.out = all("output", a.Outputs)
	c.bad = all("bad", a.Bad)
	c.con = all("constraint", a.Constraints)
	c.fair = all("fair", a.Fair)
	for _, j := range a.Justice {
		c.just = append(c.just, all("justice", j))
	}
	for k, f := range nameGetters(a) {
		for i := -1; i < 40; i++ {
			if nm, ok := f(i); ok {
				c.names[fmt.Sprintf("%c%d", k, i)] = nm
			}
		}
	}
	return
}

func nameGetters(a *aiger.T) map[byte]func(int) (string, bool) {
	return map[byte]func(int) (string, bool){'i': a.InputName, 'l': a.LatchName, 'o': a.OutputName, 'b': a.BadName,
		'c': a.ConstraintName, 'j': a.JusticeName, 'f': a.FairName}
}

// dumpT describes an aiger object completely, node for node.
func dumpT(a *aiger.T) string {
	var b strings.Builder
	c, e := cktOf(a)
	if e != "" {
		return "broken: " + e
	}
	fmt.Fprintf(&b, "%v %v %v %v %v %v %v %v %v %v\n", c.nodes, c.in, c.lat, c.next, c.init, c.out, c.bad, c.con, c.just, c.fair)
	for _, k := range "ilobcjf" {
		for i := -1; i < 40; i++ {
			if nm, ok := c.names[fmt.Sprintf("%c%d", k, i)]; ok {
				fmt.Fprintf(&b, "%c%d %q\n", k, i, nm)
			}
		}
	}
	return b.String()
}

// randName draws a symbol.
func (x *X) randName() string {
	pool := []string{"x", "input one", "c", "c ", "i0 l0", "0", " lead", "trail ", "", "tab\tname", "ünicode", "long_" + strings.Repeat("n", 60), "cr\r", "aag 1 2", "~!@"}
	return pool[x.W(len(pool))] + []string{"", "", "1", "x"}[x.W(4)]
}

// randCktShape draws the size of a circuit.
type cktShape struct{ in, lat, gates, out, bad, con, just, fair, names int }

func (x *X) cktShape() (s cktShape) {
	s.in = x.PickI(2, 0, 1, 3, 6)
	s.lat = x.PickI(1, 0, 2, 3, 8)
	s.gates = x.PickI(4, 0, 1, 10, 30, 80)
	s.out = x.PickI(1, 0, 2, 4)
	if x.W(2) == 0 {
		s.bad, s.con, s.just, s.fair = x.W(3), x.W(3), x.W(3), x.W(3)
	}
	if x.W(2) == 0 {
		s.names = 1 + x.W(6)
	}
	return
}

// buildT builds a random circuit through the API of aiger.T and its model beside it.
func (x *X) buildT() (*aiger.T, *ckt) {
	sh := x.cktShape()
	c := newCkt()
	var a *aiger.T
	type pair struct {
		m z.Lit
		l int
	}
	var pool []pair
	if x.W(4) == 0 {
		// an existing system gets its Aiger object later
		sys := logic.NewS()
		pool = []pair{{sys.T, 1}, {sys.F, 0}}
		for i := x.W(6); i > 0; i-- {
			switch x.W(3) {
			case 0:
				m := sys.Lit()
				l := c.node('i', 0, 0)
				c.in = append(c.in, l>>1)
				pool = append(pool, pair{m, l})
			case 1:
				m := sys.Latch(sys.F)
				l := c.node('l', 0, 0)
				c.lat = append(c.lat, l>>1)
				c.init = append(c.init, 0)
				c.next = append(c.next, l)
				pool = append(pool, pair{m, l})
			default:
				p, q := pool[x.W(len(pool))], pool[x.W(len(pool))]
				pool = append(pool, pair{sys.And(p.m, q.m.Not()), c.node('a', p.l, q.l^1)})
			}
		}
		var outs []z.Lit
		for i := x.W(3); i > 0; i-- {
			p := pool[x.W(len(pool))]
			outs = append(outs, p.m)
			c.out = append(c.out, p.l)
		}
		a = aiger.MakeFor(sys, outs...)
	} else {
		a = aiger.Make(x.PickI(2, 1, 8, 100))
		pool = []pair{{a.T, 1}, {a.F, 0}}
	}
	pick := func() pair {
		n := len(pool)
		var p pair
		switch x.W(8) {
		case 0:
			p = pool[x.W(2)]
		case 1, 2, 3:
			p = pool[x.W(n)]
		default: // recent ones, for depth
			k := 12
			if k > n {
				k = n
			}
			p = pool[n-1-x.W(k)]
		}
		if x.W(2) == 0 {
			return pair{p.m.Not(), p.l ^ 1}
		}
		return p
	}
	and := func(p, q pair) pair { return pair{0, c.node('a', p.l, q.l)} }
	inv := func(p pair) pair { return pair{p.m.Not(), p.l ^ 1} }
	nin, nlat, ngate := 0, 0, 0
	for nin < sh.in || nlat < sh.lat || ngate < sh.gates {
		switch k := x.W(6); {
		case k == 0 && nin < sh.in:
			m := a.NewIn()
			l := c.node('i', 0, 0)
			c.in = append(c.in, l>>1)
			pool = append(pool, pair{m, l})
			nin++
		case k == 1 && nlat < sh.lat:
			ini := x.W(3)
			m := a.Latch([]z.Lit{a.F, a.T, z.LitNull}[ini])
			l := c.node('l', 0, 0)
			c.lat = append(c.lat, l>>1)
			c.init = append(c.init, byte(ini))
			c.next = append(c.next, l)
			pool = append(pool, pair{m, l})
			nlat++
		case ngate < sh.gates:
			p, q := pick(), pick()
			var g pair
			switch x.W(4) {
			case 0, 1:
				g = and(p, q)
				g.m = a.And(p.m, q.m)
			case 2:
				g = inv(and(inv(p), inv(q)))
				g.m = a.Or(p.m, q.m)
			case 3:
				g = inv(and(inv(and(p, inv(q))), inv(and(inv(p), q))))
				g.m = a.Xor(p.m, q.m)
			}
			pool = append(pool, g)
			ngate++
		case nin < sh.in || nlat < sh.lat:
			if ngate == sh.gates {
				// force progress
				if nin < sh.in {
					m := a.NewIn()
					l := c.node('i', 0, 0)
					c.in = append(c.in, l>>1)
					pool = append(pool, pair{m, l})
					nin++
				} else {
					m := a.Latch(a.F)
					l := c.node('l', 0, 0)
					c.lat = append(c.lat, l>>1)
					c.init = append(c.init, 0)
					c.next = append(c.next, l)
					pool = append(pool, pair{m, l})
					nlat++
				}
			}
		}
	}
	for i := range c.lat {
		if x.W(5) > 0 {
			p := pick()
			a.SetNext(a.Latches[i], p.m)
			c.next[i] = p.l
		}
		if x.W(6) == 0 {
			ini := x.W(3)
			a.SetInit(a.Latches[i], []z.Lit{a.F, a.T, z.LitNull}[ini])
			c.init[i] = byte(ini)
		}
	}
	for i := 0; i < sh.out; i++ {
		p := pick()
		a.SetOutput(p.m)
		c.out = append(c.out, p.l)
	}
	for i := 0; i < sh.bad; i++ {
		p := pick()
		a.Bad = append(a.Bad, p.m)
		c.bad = append(c.bad, p.l)
	}
	for i := 0; i < sh.con; i++ {
		p := pick()
		a.Constraints = append(a.Constraints, p.m)
		c.con = append(c.con, p.l)
	}
	for i := 0; i < sh.just; i++ {
		var ms []z.Lit
		var ls []int
		for j := x.W(4); j > 0; j-- {
			p := pick()
			ms, ls = append(ms, p.m), append(ls, p.l)
		}
		a.Justice = append(a.Justice, ms)
		c.just = append(c.just, ls)
	}
	for i := 0; i < sh.fair; i++ {
		p := pick()
		a.Fair = append(a.Fair, p.m)
		c.fair = append(c.fair, p.l)
	}
	set := map[byte]func(int, string) error{'i': a.NameInput, 'l': a.NameLatch, 'o': a.NameOutput, 'b': a.NameBad,
		'c': a.NameConstraint, 'j': a.NameJustice, 'f': a.NameFair}
	size := map[byte]int{'i': len(c.in), 'l': len(c.lat), 'o': len(c.out), 'b': len(c.bad), 'c': len(c.con), 'j': len(c.just), 'f': len(c.fair)}
	for i := 0; i < sh.names; i++ {
		k := "ilobcjf"[x.W(7)]
		if size[k] == 0 {
			continue
		}
		j, nm := x.W(size[k]), x.randName()
		if e := set[k](j, nm); e != nil {
			x.Fail("name", "naming %c%d %q: %s", k, j, nm, e)
		}
		c.names[fmt.Sprintf("%c%d", k, j)] = nm
	}
	return a, c
}

// foreign draws a circuit as another tool would write it: gates which are constant, equal
// to others or unused are kept.
func (x *X) foreign() *ckt {
	sh := x.cktShape()
	c := newCkt()
	var pool []int
	pool = append(pool, 0)
	pick := func() int {
		n := len(pool)
		l := pool[x.W(n)]
		if x.W(3) == 0 && n > 6 {
			l = pool[n-1-x.W(6)]
		}
		return l | x.W(2)
	}
	for i := 0; i < sh.in; i++ {
		l := c.node('i', 0, 0)
		c.in = append(c.in, l>>1)
		pool = append(pool, l)
	}
	for i := 0; i < sh.lat; i++ {
		l := c.node('l', 0, 0)
		c.lat = append(c.lat, l>>1)
		c.init = append(c.init, byte(x.W(3)))
		pool = append(pool, l)
	}
	for i := 0; i < sh.gates; i++ {
		pool = append(pool, c.node('a', pick(), pick()))
	}
	for range c.lat {
		c.next = append(c.next, pick())
	}
	for i := 0; i < sh.out; i++ {
		c.out = append(c.out, pick())
	}
	for i := 0; i < sh.bad; i++ {
		c.bad = append(c.bad, pick())
	}
	for i := 0; i < sh.con; i++ {
		c.con = append(c.con, pick())
	}
	for i := 0; i < sh.just; i++ {
		var ls []int
		for j := x.W(4); j > 0; j-- {
			ls = append(ls, pick())
		}
		c.just = append(c.just, ls)
	}
	for i := 0; i < sh.fair; i++ {
		c.fair = append(c.fair, pick())
	}
	size := map[byte]int{'i': len(c.in), 'l': len(c.lat), 'o': len(c.out), 'b': len(c.bad), 'c': len(c.con), 'j': len(c.just), 'f': len(c.fair)}
	for i := 0; i < sh.names; i++ {
		k := "ilobcjf"[x.W(7)]
		if size[k] > 0 {
			c.names[fmt.Sprintf("%c%d", k, x.W(size[k]))] = x.randName()
		}
	}
	return c
}

func (c *ckt) symtab(b *bytes.Buffer) {
	for _, k := range "ilobcjf" {
		for i := 0; i < 40; i++ {
			if nm, ok := c.names[fmt.Sprintf("%c%d", k, i)]; ok {
				fmt.Fprintf(b, "%c%d %s\n", k, i, nm)
			}
		}
	}
}

func (c *ckt) nands() (n int) {
	for _, nd := range c.nodes {
		if nd.kind == 'a' {
			n++
		}
	}
	return
}

// header writes the sizes; short leaves out trailing zeros as old files do.
func (c *ckt) header(x *X, b *bytes.Buffer, tag string, max int) {
	all := []int{max, len(c.in), len(c.lat), len(c.out), c.nands(), len(c.bad), len(c.con), len(c.just), len(c.fair)}
	n := 9
	if x.W(3) == 0 {
		for n > 5 && all[n-1] == 0 {
			n--
		}
	}
	b.WriteString(tag)
	for _, v := range all[:n] {
		fmt.Fprintf(b, " %d", v)
	}
	b.WriteString("\n")
}

func (c *ckt) tail(x *X, b *bytes.Buffer, num func(int) int) {
	for _, ls := range [][]int{c.out, c.bad, c.con} {
		for _, l := range ls {
			fmt.Fprintf(b, "%d\n", num(l))
		}
	}
	for _, j := range c.just {
		fmt.Fprintf(b, "%d\n", len(j))
	}
	for _, j := range c.just {
		for _, l := range j {
			fmt.Fprintf(b, "%d\n", num(l))
		}
	}
	for _, l := range c.fair {
		fmt.Fprintf(b, "%d\n", num(l))
	}
}

func (c *ckt) comment(x *X, b *bytes.Buffer) {
	c.symtab(b)
	switch x.W(4) {
	case 0:
		b.WriteString("c\nby another tool\n")
	case 1:
		b.WriteString("c\n")
	case 2:
		b.WriteString("c\ni0 not a symbol\n\nl9\n")
	}
}

func (c *ckt) initText(i, self int) string {
	switch c.init[i] {
	case 1:
		return " 1"
	case 2:
		return fmt.Sprintf(" %d", self)
	}
	return " 0"
}

// ascii writes an aag file, its variables numbered at random and gates in any order.
func (c *ckt) ascii(x *X) []byte {
	n := len(c.nodes)
	perm := make([]int, n)
	for i := range perm {
		perm[i] = i
	}
	max := n - 1
	if x.W(2) == 0 {
		for i := 1; i < n; i++ {
			j := i + x.W(n-i)
			perm[i], perm[j] = perm[j], perm[i]
		}
		if k := x.W(4); k > 0 && n > 1 { // unused numbers
			max += k
			perm[1+x.W(n-1)] = max
		}
	}
	num := func(l int) int { return perm[l>>1]<<1 | l&1 }
	var b bytes.Buffer
	c.header(x, &b, "aag", max)
	for _, i := range c.in {
		fmt.Fprintf(&b, "%d\n", num(i<<1))
	}
	for i, l := range c.lat {
		s := num(l << 1)
		t := c.initText(i, s)
		if c.init[i] == 0 && x.W(2) == 0 {
			t = ""
		}
		fmt.Fprintf(&b, "%d %d%s\n", s, num(c.next[i]), t)
	}
	c.tail(x, &b, num)
	var ands []int
	for i, nd := range c.nodes {
		if nd.kind == 'a' {
			ands = append(ands, i)
		}
	}
	if x.W(2) == 0 {
		for i := range ands {
			j := i + x.W(len(ands)-i)
			ands[i], ands[j] = ands[j], ands[i]
		}
	}
	for _, i := range ands {
		fmt.Fprintf(&b, "%d %d %d\n", num(i<<1), num(c.nodes[i].a), num(c.nodes[i].b))
	}
	c.comment(x, &b)
	return b.Bytes()
}

// binary writes an aig file (the nodes of a foreign circuit are in the order it needs).
func (c *ckt) binary(x *X) []byte {
	var b bytes.Buffer
	c.header(x, &b, "aig", len(c.nodes)-1)
	for i, l := range c.lat {
		t := c.initText(i, l<<1)
		if c.init[i] == 0 && x.W(2) == 0 {
			t = ""
		}
		fmt.Fprintf(&b, "%d%s\n", c.next[i], t)
	}
	c.tail(x, &b, func(l int) int { return l })
	w7 := func(v int) {
		for v >= 0x80 {
			b.WriteByte(byte(v) | 0x80)
			v >>= 7
		}
		b.WriteByte(byte(v))
	}
	for i, nd := range c.nodes {
		if nd.kind != 'a' {
			continue
		}
		p, q := nd.a, nd.b
		if p < q {
			p, q = q, p
		}
		w7(i<<1 - p)
		w7(p - q)
	}
	c.comment(x, &b)
	return b.Bytes()
}
