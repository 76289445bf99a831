package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/go-air/gini"
	"github.com/go-air/gini/dimacs"
	"github.com/go-air/gini/internal/simrt"
	"github.com/go-air/gini/logic/aiger"
	"github.com/go-air/gini/z"
)

func init() {
	register(&Prop{ID: "C20", Quick: 250000, Thorough: 6000000,
		Rule: "One run builds a random sequential circuit through the API (or draws a file as another tool writes it), writes it as ASCII or binary AIGER to a segmented stream or a simulated connection read at the other end, copies and rewrites it, and compares interface, names, initial values and the values of everything visible for random input sequences with the model built beside it; or it takes a solver through a history of adds and interrupted solves, writes its clauses over a stream, and compares them with what was added. Non-trivial: a circuit with a latch or gate, or a solver with clauses, went through a stream in several pieces or after an interrupted solve.",
		Real: ioReal, Stub: append(append([]string(nil), solverStub...), ioStub...), Assume: []string{"sequential equivalence is tested on 64 random input sequences of up to 12 steps per comparison"}, Setup: setupC20, Body: bodyC20})
}

func setupC20(x *X) {
	x.stdSetup()
	x.Cfg.MaxSteps = 40000000
	x.Cfg.MaxSimTime = 0
}

// pieces writes to a reader in pieces and counts them.
type pieceWriter struct{ b bytes.Buffer }

func (w *pieceWriter) Write(p []byte) (int, error) { simrt.Yield(); return w.b.Write(p) }

// through sends what write writes over a stream to read.
func (x *X) through(write func(io.Writer) error, read func(io.Reader) error) (data []byte, we, re error) {
	if x.W(4) == 0 {
		// both ends at the same time
		x.netUpMax(20000)
		l, e := simrt.Listen("tcp", "localhost:98")
		if e != nil {
			x.Fail("harness", "listen: %s", e)
		}
		var tee pieceWriter
		t := simrt.GoHarness("writer", func() {
			c, e := l.Accept()
			if e != nil {
				return
			}
			we = write(io.MultiWriter(c, &tee))
			c.Close()
		})
		c, e := simrt.Dial("tcp", "localhost:98")
		if e != nil {
			x.Fail("harness", "dial: %s", e)
		}
		re = read(c)
		c.Close()
		t.Join()
		l.Close()
		x.Hit("fault.network")
		x.NonTrivial = true
		return tee.b.Bytes(), we, re
	}
	var w pieceWriter
	we = write(&w)
	data = w.b.Bytes()
	if we != nil {
		return
	}
	r := x.segReader(data)
	re = read(r)
	if r.pieces > 1 {
		x.NonTrivial = true
	}
	return
}

func bodyC20(x *X) {
	switch x.W(5) {
	case 0, 1:
		x.circuitTrip()
	case 2:
		x.foreignTrip()
	default:
		x.clauseTrip()
	}
}

const negInit = "WriteBinary writes the initial value of an initialized latch negated (the stable test TestWriteBinary expects it)"

// trip writes a in the given encoding, reads it back and compares it with c.
func (x *X) trip(name string, a *aiger.T, c *ckt, bin bool) *aiger.T {
	write, rd, enc := a.WriteAscii, aiger.ReadAscii, "ascii"
	if bin {
		write, rd, enc = a.WriteBinary, aiger.ReadBinary, "binary"
	}
	var b *aiger.T
	var we, re error
	var data []byte
	x.Bounded("trip", name+" "+enc, 30000000, func() {
		data, we, re = x.through(write, func(r io.Reader) (e error) { b, e = rd(r); return })
	})
	x.Log("%s: %s, %d bytes: %s", name, enc, len(data), brief80(data))
	if re != nil {
		x.Fail("read", "%s: reading what was written as %s: %s: %q", name, enc, re, data)
	}
	if we != nil {
		x.Fail("write", "%s: writing %s: %s", name, enc, we)
	}
	x.Hit("trip." + enc)
	got, e := cktOf(b)
	if e != "" {
		x.Fail("broken", "%s: read back from %s: %s", name, enc, e)
	}
	want := c
	if bin && len(got.init) == len(c.init) && !bytes.Equal(got.init, c.init) {
		// known: the initial values of all initialized latches are negated, and no others
		neg := true
		for i, v := range c.init {
			if v < 2 && got.init[i] != 1-v || v == 2 && got.init[i] != 2 {
				neg = false
			}
		}
		if neg && x.known(negInit) {
			w := *c
			w.init = got.init
			want = &w
			for i, m := range b.Latches { // go on with what was meant
				switch c.init[i] {
				case 0:
					b.SetInit(m, b.F)
				case 1:
					b.SetInit(m, b.T)
				}
			}
		}
	}
	if d := diffCkt(want, got, x.seed64(), 12, true); d != "" {
		x.Fail("differs", "%s: written and read back (%s): %s; file %q", name, enc, d, data)
	}
	return b
}

func (x *X) seed64() uint64 { return uint64(x.W(1<<30))<<30 | uint64(x.W(1<<30)) }

func (x *X) circuitTrip() {
	a, c := x.buildT()
	x.Log("circuit: %d inputs, %d latches, %d nodes", len(c.in), len(c.lat), len(c.nodes))
	if got, e := cktOf(a); e != "" {
		x.Fail("broken", "built circuit: %s", e)
	} else if d := diffCkt(c, got, x.seed64(), 6, true); d != "" {
		x.Fail("built", "the circuit as built: %s", d)
	}
	for k := 1 + x.W(3); k > 0; k-- {
		if x.W(4) == 0 {
			b := aiger.Copy(a)
			x.Log("copy")
			if x.W(2) == 0 && len(a.Latches) > 0 {
				// what happens to the original must not matter to the copy
				a.NewIn()
				a.Outputs = append(a.Outputs, a.T)
				a.SetNext(a.Latches[0], a.F)
			}
			a = b
		}
		b := x.trip("circuit", a, c, x.W(2) == 0)
		if x.W(2) == 0 {
			a = b
		}
	}
}

func (x *X) foreignTrip() {
	c := x.foreign()
	var d []byte
	rd, enc := aiger.ReadAscii, "ascii"
	if x.W(2) == 0 {
		d = c.ascii(x)
	} else {
		d = c.binary(x)
		rd, enc = aiger.ReadBinary, "binary"
	}
	x.Log("foreign %s file: %s", enc, brief80(d))
	var a *aiger.T
	_, _, e := x.through(func(w io.Writer) error { _, e := w.Write(d); return e }, func(r io.Reader) (e error) { a, e = rd(r); return })
	if e != nil {
		x.Fail("read", "reading a valid %s file: %s: %q", enc, e, d)
	}
	got, s := cktOf(a)
	if s != "" {
		x.Fail("broken", "read from %s: %s; file %q", enc, s, d)
	}
	if df := diffCkt(c, got, x.seed64(), 12, true); df != "" {
		x.Fail("differs", "read from %s: %s; file %q", enc, df, d)
	}
	x.Hit("trip.foreign." + enc)
	if x.W(2) == 0 {
		x.trip("foreign circuit", a, c, x.W(2) == 0)
	}
}

// cnfCollect collects the clauses of a file.
type cnfCollect struct {
	v, c int
	cls  [][]int
	cur  []int
}

func (k *cnfCollect) Init(v, c int) { k.v, k.c = v, c }
func (k *cnfCollect) Add(m z.Lit) {
	if m == z.LitNull {
		k.cls = append(k.cls, k.cur)
		k.cur = nil
		return
	}
	k.cur = append(k.cur, m.Dimacs())
}
func (k *cnfCollect) Eof() {}

// clauseTrip takes a solver through a history and writes its clauses now and then.
func (x *X) clauseTrip() {
	s := newSess(x, "solver")
	var f *CNF
	if x.W(6) == 0 {
		f = &CNF{N: 3}
	} else {
		f = x.midCNF()
		x.looser(f)
	}
	s.addCNF(f)
	n := f.N + 2
	for k := 1 + x.W(4); k > 0; k-- {
		for j := x.W(4); j > 0; j-- {
			switch x.W(4) {
			case 0:
				s.addClause(x.clause(n, 1+x.W(3)))
			case 1:
				s.assume(x.pickAssumps(n, 3)...)
				fallthrough
			default:
				as := s.r.assumed()
				res := s.solve(solveHow(x.W(int(nHow))))
				s.r.pending = nil
				s.checkAnswer("answer", res, as)
				if res == 0 {
					x.NonTrivial = true
				}
			}
		}
		x.checkWritten(s, n)
	}
}

func (x *X) checkWritten(s *sess, n int) {
	var k cnfCollect
	var g *gini.Gini
	useGini := x.W(2) == 0
	var data []byte
	var we, re error
	x.Bounded("write", "Write", 30000000, func() {
		data, we, re = x.through(s.g.Write, func(r io.Reader) (e error) {
			if useGini {
				g, e = gini.NewDimacs(r)
				return
			}
			return dimacs.ReadCnf(r, &k)
		})
	})
	if re != nil {
		x.Fail("read", "reading the written clauses: %s: %q", re, data)
	}
	if we != nil {
		x.Fail("write", "writing the clauses: %s", we)
	}
	if useGini {
		if e := dimacs.ReadCnf(bytes.NewReader(data), &k); e != nil {
			x.Fail("read", "reading the written clauses: %s: %q", e, data)
		}
	}
	s.log("wrote %d bytes: %d clauses", len(data), len(k.cls))
	x.Hit("trip.cnf")
	var hv, hc int
	if m, _ := fmt.Sscanf(string(data), "p cnf %d %d\n", &hv, &hc); m != 2 || !strings.HasPrefix(string(data), "p cnf ") {
		x.Fail("header", "the clauses are written without header: %s", brief80(data))
	}
	if hc != len(k.cls) {
		x.Fail("header", "the header says %d clauses, %d are written", hc, len(k.cls))
	}
	if mv := maxVarOf(k.cls); mv > hv {
		x.Fail("header", "the header says %d variables, variable %d is written", hv, mv)
	}
	want := s.r.formula()
	// every written clause follows from those added, every added one from those written
	if bad := notImplied(want, k.cls); bad != nil {
		x.Fail("stronger", "the written clause %v does not follow from the clauses which were added", bad)
	}
	if bad := notImplied(k.cls, want); bad != nil {
		x.Fail("weaker", "the added clause %v does not follow from the clauses which were written", bad)
	}
	if !useGini {
		return
	}
	t := &sess{x: x, name: "read", g: &solverG{g, x, "read"}, r: s.r.clone()}
	t.r.pending, t.r.scopes, t.r.actives = nil, nil, nil
	t.r.cls = nil // clauses which are always true are not written, nor are their variables
	for _, c := range s.r.cls {
		taut := false
		for _, l := range c.lits {
			if contains(c.lits, -l) {
				taut = true
			}
		}
		if !taut {
			t.r.cls = append(t.r.cls, c)
		}
	}
	for i := x.W(3); i >= 0; i-- {
		t.assume(x.pickAssumps(n, 3)...)
		t.solveChecked("reread", solveHow(x.W(2)))
	}
}

// notImplied returns a clause of cs which does not follow from f, if there is one.
func notImplied(f, cs [][]int) []int {
	max := maxVarOf(f)
	if m := maxVarOf(cs); m > max {
		max = m
	}
	o := newOsolver(max)
	o.maxConf = 20000
	has := map[string]bool{}
	for _, c := range f {
		o.add(c)
		has[setOf(c)] = true
	}
	for _, c := range cs {
		if has[setOf(c)] {
			continue
		}
		as := make([]int, 0, len(c))
		taut := false
		for _, l := range c {
			if contains(c, -l) {
				taut = true
			}
			as = append(as, -l)
		}
		if taut {
			continue
		}
		if o.solve(as) == 1 {
			if c == nil {
				c = []int{}
			}
			return c
		}
	}
	return nil
}
