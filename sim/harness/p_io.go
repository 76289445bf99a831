package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/go-air/gini"
	"github.com/go-air/gini/dimacs"
	"github.com/go-air/gini/internal/simrt"
	"github.com/go-air/gini/logic/aiger"
	"github.com/go-air/gini/z"
)

var ioReal = []string{"dimacs (cnf, icnf and solver output readers, comment filter)", "logic/aiger", "logic", "gini (Write, NewDimacs)", "internal/xo"}
var ioStub = []string{"byte streams: readers and writers whose segmentation, errors and end are drawn per run, and simulated connections"}

func init() {
	register(&Prop{ID: "C18", Quick: 300000, Thorough: 8000000,
		Rule: "One run draws a file (DIMACS CNF, iCNF, solver output, ASCII or binary AIGER; valid, truncated or corrupted), reads it from memory in one piece, and reads it again from streams which deliver it in random pieces: short reads, empty reads, the end together with the last bytes or apart, and a simulated connection with a concurrent writer. Non-trivial: some stream delivered the file in several pieces.",
		Real: ioReal, Stub: ioStub, Assume: []string{"streams return fewer than 100 empty reads in a row (bufio gives up after that)"}, Setup: setupIO, Body: bodyC18})
	register(&Prop{ID: "C19", Quick: 600000, Thorough: 15000000,
		Rule: "One run injects a failure at a random byte of a read or a write, alone or together with data, permanent or transient, or tears and corrupts a file. Non-trivial: the failure reached the reader or writer.",
		Real: ioReal, Stub: ioStub, Assume: []string{"numbers in the headers of corrupted AIGER files stay below 1000000 (memory is proportional to the number of variables they announce)"}, Setup: setupIO, Body: bodyC19})
}

func setupIO(x *X) {
	x.stdSetup()
	x.Cfg.MaxSteps = 40000000
	x.Cfg.MaxSimTime = 0
}

// calls records what a reader reports.
type calls struct {
	b    strings.Builder
	n    int
	eof  int
	late bool // something came behind Eof
}

func (c *calls) add(f string, a ...any) {
	if c.eof > 0 {
		c.late = true
	}
	c.n++
	fmt.Fprintf(&c.b, f, a...)
}
func (c *calls) Init(v, cl int) { c.add("init %d %d\n", v, cl) }
func (c *calls) Add(m z.Lit)    { c.add("%d ", m.Dimacs()) }
func (c *calls) Assume(m z.Lit) { c.add("a%d ", m.Dimacs()) }
func (c *calls) Solution(r int) { c.add("s%d ", r) }
func (c *calls) Value(m z.Lit)  { c.add("v%d ", m.Dimacs()) }
func (c *calls) Eof()           { c.add("eof"); c.eof++ }

// format is a kind of file with its reader.
type format struct {
	name string
	gen  func(x *X) []byte
	// read returns what was read, as text
	read func(r io.Reader) (string, error)
	vis  bool
}

func visRead(f func(r io.Reader, c *calls) error) func(io.Reader) (string, error) {
	return func(r io.Reader) (string, error) {
		c := &calls{}
		e := f(r, c)
		s := c.b.String()
		if c.late || c.eof > 1 {
			s += " BROKEN: calls behind Eof"
		} else if e == nil && c.eof != 1 {
			s += " BROKEN: success without Eof"
		}
		return s, e
	}
}

var formats = []format{
	{"cnf", (*X).cnfText, visRead(func(r io.Reader, c *calls) error { return dimacs.ReadCnf(r, c) }), true},
	{"strict cnf", (*X).cnfText, visRead(func(r io.Reader, c *calls) error { return dimacs.ReadCnfStrict(r, c, true) }), true},
	{"icnf", (*X).icnfText, visRead(func(r io.Reader, c *calls) error { return dimacs.ReadICnf(r, c) }), true},
	{"solver output", (*X).solveText, visRead(func(r io.Reader, c *calls) error { return dimacs.ReadSolve(r, c) }), true},
	{"aag", func(x *X) []byte { return x.foreign().ascii(x) }, aigRead(aiger.ReadAscii), false},
	{"aig", func(x *X) []byte { return x.foreign().binary(x) }, aigRead(aiger.ReadBinary), false},
	{"gini cnf", (*X).cnfTextSmall, func(r io.Reader) (string, error) {
		g, e := gini.NewDimacs(r)
		if e != nil {
			return "", e
		}
		var b bytes.Buffer
		if e := g.Write(&b); e != nil {
			panic("Write to memory: " + e.Error())
		}
		return b.String(), nil
	}, false},
}

func aigRead(f func(io.Reader) (*aiger.T, error)) func(io.Reader) (string, error) {
	return func(r io.Reader) (string, error) {
		a, e := f(r)
		if (a == nil) != (e != nil) {
			return fmt.Sprintf("BROKEN: object %v with error %v", a != nil, e), e
		}
		if e != nil {
			return "", e
		}
		return dumpT(a), nil
	}
}

var wss = []string{" ", "  ", "\t", "\n", "\r\n", " \n"}

func (x *X) ws() string { return wss[x.PickI(0, 0, 0, 3, 3, 1, 2, 4, 5)] }

func (x *X) commentLines(b *bytes.Buffer) {
	for x.W(4) == 3 {
		b.WriteString([]string{"c\n", "c a comment\n", "c 1 2 0\n", "ccc\n", "c p cnf 1 1\n", "\n"}[x.W(6)])
	}
}

// litText writes clauses (each ended by 0), separated by any white space.
func (x *X) litText(b *bytes.Buffer, pre string, c []int) {
	b.WriteString(pre)
	for _, l := range append(append([]int(nil), c...), 0) {
		fmt.Fprintf(b, "%d", l)
		w := x.ws()
		b.WriteString(w)
		if strings.HasSuffix(w, "\n") {
			x.commentLines(b)
		}
	}
}

// finish ends a text file with or without its last newline.
func (x *X) finish(b *bytes.Buffer) []byte {
	d := b.Bytes()
	switch x.W(4) {
	case 0:
		d = bytes.TrimRight(d, " \t\r\n")
	case 1:
		d = append(bytes.TrimRight(d, " \t\r\n"), '\n')
	case 2:
		d = append(bytes.TrimRight(d, " \t\r\n"), "\nc the end"...)
	}
	return d
}

func (x *X) someCls() *CNF {
	switch x.W(4) {
	case 0:
		return x.smallCNF(8)
	case 1:
		f := x.smallCNF(6)
		f.Cls = f.Cls[:x.W(len(f.Cls)+1)]
		return f
	case 2:
		return x.plantedCNF(30+x.W(200), 20+x.W(400))
	}
	f := &CNF{N: 1 + x.W(2000000)}
	for i := x.W(8); i > 0; i-- {
		c := x.clause(f.N, x.W(5))
		f.Cls = append(f.Cls, c)
	}
	return f
}

func (x *X) cnfText() []byte { return x.cnfTextOf(x.someCls()) }

// cnfTextSmall has few variables: a solver's memory is proportional to the greatest.
func (x *X) cnfTextSmall() []byte {
	f := x.someCls()
	if f.N > 1000 {
		f = x.smallCNF(10)
	}
	return x.cnfTextOf(f)
}

func (x *X) cnfTextOf(f *CNF) []byte {
	var b bytes.Buffer
	x.commentLines(&b)
	if b.Len() > 0 && bytes.Contains(b.Bytes(), []byte("\n\n")) || x.W(5) == 0 {
		b.Reset() // blank lines before the header are not allowed
	}
	if bytes.HasPrefix(b.Bytes(), []byte("\n")) {
		b.Reset()
	}
	switch x.W(5) {
	case 0: // no header
	case 1:
		fmt.Fprintf(&b, "p cnf %d %d\n", x.W(100), x.W(100))
	default:
		fmt.Fprintf(&b, "p cnf %d %d\n", maxVarOf(f.Cls), len(f.Cls))
	}
	x.commentLines(&b)
	for _, c := range f.Cls {
		x.litText(&b, "", c)
	}
	return x.finish(&b)
}

func (x *X) icnfText() []byte {
	var b bytes.Buffer
	b.WriteString("p inccnf\n")
	f := x.someCls()
	for _, c := range f.Cls {
		for x.W(4) == 3 {
			x.litText(&b, []string{"a ", "a"}[x.W(2)], x.clause(f.N, x.W(4)))
		}
		x.litText(&b, "", c)
	}
	if x.W(3) > 0 {
		x.litText(&b, "a ", x.clause(f.N, x.W(4)))
	}
	if d := x.finish(&b); len(d) > len("p inccnf") {
		return d
	}
	return []byte("p inccnf\n")
}

func (x *X) solveText() []byte {
	var b bytes.Buffer
	x.commentLines(&b)
	b.WriteString([]string{"s SATISFIABLE", "s UNSATISFIABLE", "s UNKNOWN", "s  SATISFIABLE \r"}[x.W(4)])
	b.WriteString("\n")
	x.commentLines(&b)
	if x.W(3) > 0 {
		col := 0
		b.WriteString("v ")
		for i := 1 + x.W(60); i > 0; i-- {
			n, _ := fmt.Fprintf(&b, "%d ", x.litOver(1+x.W(3000)))
			if col += n; col > 70 {
				b.WriteString("\nv ")
				x.Hit("solve.multiline")
				col = 0
			}
		}
		b.WriteString("0\n")
	}
	x.commentLines(&b)
	return x.finish(&b)
}

// damage tears or corrupts a file.
func (x *X) damage(d []byte, name string) ([]byte, string) {
	aig, digits := strings.HasPrefix(name, "a"), 0
	if aig {
		digits = 6
	} else if name == "gini cnf" {
		digits = 4
	}
	d = append([]byte(nil), d...)
	what := ""
	for k := 1 + x.F(2); k > 0 && len(d) > 0; k-- {
		i := x.F(len(d))
		switch x.F(7) {
		case 0, 1:
			d = d[:i]
			what += fmt.Sprintf(" torn at %d", i)
			x.Hit("fault.torn")
		case 2:
			d[i] ^= 1 << uint(x.F(8))
			what += fmt.Sprintf(" bit flipped in byte %d", i)
			x.Hit("fault.bitflip")
		case 3:
			d[i] = " \n\r\tc0p-va9s%\x00\xff"[x.F(15)]
			what += fmt.Sprintf(" byte %d replaced", i)
			x.Hit("fault.byte")
		case 4:
			j := i + 1 + x.F(20)
			if j > len(d) {
				j = len(d)
			}
			d = append(d[:i:i], d[j:]...)
			what += fmt.Sprintf(" bytes %d-%d lost", i, j)
			x.Hit("fault.lostbytes")
		case 5:
			j := i + 1 + x.F(20)
			if j > len(d) {
				j = len(d)
			}
			d = append(append(append([]byte(nil), d[:j]...), d[i:j]...), d[j:]...)
			what += fmt.Sprintf(" bytes %d-%d doubled", i, j)
			x.Hit("fault.dupbytes")
		case 6:
			j := i + 1 + x.F(20)
			if j > len(d) {
				j = len(d)
			}
			for ; i < j; i++ {
				d[i] = 0
			}
			what += fmt.Sprintf(" bytes up to %d zeroed", j)
			x.Hit("fault.zeroed")
		}
	}
	if digits > 0 { // keep announced sizes small
		run := 0
		for i := 0; i < len(d); i++ {
			if aig && d[i] == '\n' {
				break
			}
			if d[i] >= '0' && d[i] <= '9' {
				if run++; run > digits {
					d[i] = ' '
					run = 0
				}
			} else {
				run = 0
			}
		}
	}
	return d, what
}

// segReader delivers data in pieces.
type segReader struct {
	x        *X
	d        []byte
	pos      int
	style    int // 0 random, 1 byte by byte, 2 as asked, 3 lines
	emptyPct int
	empties  int
	eofWith  bool // the end comes together with the last bytes
	pieces   int
	// fault
	errAt     int // -1: none
	err       error
	withData  bool // the error comes together with the bytes before it
	transient bool // the stream goes on behind the error
	hit       bool
}

func (x *X) segReader(d []byte) *segReader {
	return &segReader{x: x, d: d, style: x.F(4), emptyPct: x.PickF(0, 10, 50), eofWith: x.F(2) == 1, errAt: -1}
}

func (x *X) PickF(vs ...int) int { return vs[x.F(len(vs))] }

func (r *segReader) Read(p []byte) (int, error) {
	simrt.Yield()
	x := r.x
	if len(p) == 0 {
		return 0, nil
	}
	end := len(r.d)
	fault := r.errAt >= 0 && !(r.hit && r.transient)
	if fault {
		end = r.errAt
	}
	if fault && r.pos >= end {
		r.hit = true
		return 0, r.err
	}
	if r.empties < 30 && x.F(100) < r.emptyPct {
		r.empties++
		x.Hit("fault.emptyread")
		return 0, nil
	}
	r.empties = 0
	rest := end - r.pos
	if rest == 0 {
		return 0, io.EOF
	}
	n := rest
	switch r.style {
	case 0:
		n = 1 + x.F(1+x.F(rest))
	case 1:
		n = 1
	case 3:
		if i := bytes.IndexByte(r.d[r.pos:end], '\n'); i >= 0 {
			n = i + 1
		}
	}
	if n > rest {
		n = rest
	}
	if n < rest && n < len(p) {
		x.Hit("fault.shortread")
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.d[r.pos:r.pos+n])
	for i := n; i < len(p) && i < n+8; i++ {
		p[i] = "c\n01 -a"[i%7] // the rest of the buffer is scratch space
	}
	r.pos += n
	r.pieces++
	if r.pos == end {
		if fault && r.withData {
			r.hit = true
			x.Hit("fault.errwithdata")
			return n, r.err
		}
		if !fault && r.eofWith {
			x.Hit("fault.eofwithdata")
			return n, io.EOF
		}
	}
	return n, nil
}

// overConn gives a reader which reads d from a simulated connection written to at the
// same time; cut is what happens to it behind its byte cutAt.
func (x *X) overConn(d []byte, cutAt int, kind simrt.CutKind) (io.Reader, func()) {
	x.netUpMax(20000)
	l, e := simrt.Listen("tcp", "localhost:99")
	if e != nil {
		x.Fail("harness", "listen: %s", e)
	}
	if kind != simrt.CutNone {
		simrt.OnConn(func(c, srv *simrt.SimConn) { srv.Cut(int64(cutAt), kind) })
	}
	t := simrt.GoHarness("writer", func() {
		c, e := l.Accept()
		if e != nil {
			return
		}
		for p := d; len(p) > 0; {
			n := 1 + x.F(len(p))
			if _, e := c.Write(p[:n]); e != nil {
				return
			}
			p = p[n:]
		}
		c.Close()
	})
	c, e := simrt.Dial("tcp", "localhost:99")
	if e != nil {
		x.Fail("harness", "dial: %s", e)
	}
	return c, func() { c.Close(); t.Join(); l.Close() }
}

func outcome(s string, e error) string {
	if e != nil {
		return "error " + strings.TrimSpace(e.Error()) + ", before it: " + s
	}
	return "success: " + s
}

// same compares two outcomes: equal calls and data, and an error in both or in none.
func sameOutcome(s1 string, e1 error, s2 string, e2 error) bool {
	return s1 == s2 && (e1 == nil) == (e2 == nil)
}

func diffText(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	j := i - 20
	if j < 0 {
		j = 0
	}
	f := func(s string) string {
		s = s[j:]
		if len(s) > 80 {
			s = s[:80]
		}
		return s
	}
	return fmt.Sprintf("at byte %d: %q against %q", i, f(a), f(b))
}

func brief80(d []byte) string {
	if len(d) > 90 {
		return fmt.Sprintf("%q...", d[:90])
	}
	return fmt.Sprintf("%q", d)
}

func (x *X) ioBound(d []byte) int64 { return 400000 + 20000*int64(len(d)) }

func bodyC18(x *X) {
	f := formats[x.W(len(formats))]
	d := f.gen(x)
	if x.W(3) == 0 {
		var w string
		d, w = x.damage(d, f.name)
		x.Log("%s file of %d bytes,%s: %s", f.name, len(d), w, brief80(d))
	} else {
		x.Log("%s file of %d bytes: %s", f.name, len(d), brief80(d))
	}
	var s0 string
	var e0 error
	x.Bounded("read", "reading from memory", x.ioBound(d), func() { s0, e0 = f.read(bytes.NewReader(d)) })
	if strings.Contains(s0, "BROKEN") {
		x.Fail("calls", "%s reader: %s", f.name, outcome(s0, e0))
	}
	if e0 == nil {
		x.Hit("read.ok." + f.name)
	} else {
		x.Hit("read.error." + f.name)
	}
	for k := 1 + x.W(3); k > 0; k-- {
		var s string
		var e error
		if x.W(6) == 0 {
			r, done := x.overConn(d, 0, simrt.CutNone)
			x.Log("read over a connection")
			x.Bounded("read", "reading from a connection", x.ioBound(d)+20*x.netDelay*int64(len(d)+10), func() { s, e = f.read(r) })
			done()
			x.Hit("fault.network")
			x.NonTrivial = true
		} else {
			r := x.segReader(d)
			x.Log("read in pieces: style %d, empty reads %d%%, end with data %v", r.style, r.emptyPct, r.eofWith)
			x.Bounded("read", "reading in pieces", x.ioBound(d), func() { s, e = f.read(r) })
			if r.pieces > 1 {
				x.NonTrivial = true
			}
		}
		if !sameOutcome(s0, e0, s, e) {
			a, b := outcome(s0, e0), outcome(s, e)
			x.Fail("differs", "%s reader: in one piece and in pieces differ %s (%s | %s)", f.name, diffText(a, b), firstLine(a, 120), firstLine(b, 120))
		}
	}
}

var errIO = errors.New("input/output error")

type tempErr struct{}

func (tempErr) Error() string   { return "resource temporarily unavailable" }
func (tempErr) Timeout() bool   { return true }
func (tempErr) Temporary() bool { return true }

// faultWriter fails behind limit bytes.
type faultWriter struct {
	x         *X
	n         int // bytes taken
	limit     int
	err       error
	transient bool
	whole     bool // the failing write takes nothing
	hit       bool
	b         bytes.Buffer
}

func (w *faultWriter) Write(p []byte) (int, error) {
	simrt.Yield()
	if w.hit && w.transient {
		w.b.Write(p)
		return len(p), nil
	}
	if w.hit {
		return 0, w.err
	}
	if w.limit < 0 || w.n+len(p) <= w.limit {
		w.n += len(p)
		w.b.Write(p)
		return len(p), nil
	}
	w.hit = true
	k := w.limit - w.n
	if w.whole {
		k = 0
	}
	w.n += k
	w.b.Write(p[:k])
	if k > 0 {
		w.x.Hit("fault.shortwrite")
	} else {
		w.x.Hit("fault.writeerr")
	}
	return k, w.err
}

func bodyC19(x *X) {
	switch x.W(5) {
	case 0, 1:
		x.readFaults()
	case 2:
		x.tornFiles()
	default:
		x.writeFaults()
	}
}

func (x *X) readFaults() {
	f := formats[x.W(len(formats))]
	d := f.gen(x)
	_, e0 := f.read(bytes.NewReader(d))
	x.Log("%s file of %d bytes (read whole: %v): %s", f.name, len(d), e0, brief80(d))
	if e0 != nil && f.name != "strict cnf" {
		x.Fail("refused", "%s reader: a valid file gives the error %s: %q", f.name, e0, d)
	}
	if x.F(6) == 5 {
		// a connection which is reset
		at := x.F(len(d) + 1)
		r, done := x.overConn(d, at, simrt.CutRST)
		x.Log("connection reset behind byte %d", at)
		var e error
		var s string
		x.Bounded("read", "reading from a broken connection", x.ioBound(d)+20*x.netDelay*int64(len(d)+10), func() { s, e = f.read(r) })
		done()
		if at < len(d) {
			x.Hit("fault.reset")
			x.NonTrivial = true
			if e == nil {
				x.Fail("success", "%s reader: the connection was reset behind byte %d of %d, but the reader succeeded: %s", f.name, at, len(d), firstLine(s, 200))
			}
		}
		return
	}
	r := x.segReader(d)
	r.errAt = x.F(len(d) + 1)
	r.err = []error{errIO, io.ErrUnexpectedEOF, tempErr{}, io.ErrClosedPipe}[x.F(4)]
	r.withData = x.F(2) == 1
	r.transient = x.F(3) == 1
	x.Log("read error %q at byte %d of %d, with data %v, transient %v", r.err, r.errAt, len(d), r.withData, r.transient)
	var s string
	var e error
	x.Bounded("read", "reading a failing stream", x.ioBound(d), func() { s, e = f.read(r) })
	if strings.Contains(s, "BROKEN") {
		x.Fail("calls", "%s reader: %s", f.name, outcome(s, e))
	}
	if r.hit {
		x.Hit("fault.readerr")
		x.NonTrivial = true
		if e == nil {
			x.Fail("success", "%s reader: the stream failed at byte %d of %d (%s), but the reader succeeded with %s", f.name, r.errAt, len(d), r.err, firstLine(s, 200))
		}
		return
	}
	if e == nil {
		x.Fail("success", "%s reader: succeeded without reading byte %d of %d", f.name, r.errAt, len(d))
	}
}

// tornFiles: whatever is in the file, readers return.
func (x *X) tornFiles() {
	f := formats[x.W(len(formats))]
	d0 := f.gen(x)
	d, w := x.damage(d0, f.name)
	x.Log("%s file of %d bytes,%s: %s", f.name, len(d), w, brief80(d))
	r := x.segReader(d)
	var s string
	var e error
	x.Bounded("read", "reading a damaged file", x.ioBound(d), func() { s, e = f.read(r) })
	x.NonTrivial = true
	if strings.Contains(s, "BROKEN") || strings.HasPrefix(s, "broken") {
		x.Fail("calls", "%s reader, damaged file (%s): %s", f.name, w, firstLine(outcome(s, e), 300))
	}
	if e != nil {
		x.Hit("damaged.error")
	} else {
		x.Hit("damaged.read")
	}
}

func (x *X) writeFaults() {
	var name string
	var write func(w io.Writer) error
	switch x.W(3) {
	case 0:
		a, _ := x.buildT()
		name, write = "WriteAscii", a.WriteAscii
	case 1:
		a, _ := x.buildT()
		name, write = "WriteBinary", a.WriteBinary
	default:
		f := x.someCls()
		if f.N > 5000 {
			f = x.smallCNF(10)
		}
		g := gini.New()
		for _, c := range f.Cls {
			for _, l := range c {
				g.Add(lit(l))
			}
			g.Add(z.LitNull)
		}
		name, write = "Gini.Write", g.Write
	}
	w0 := &faultWriter{x: x, limit: -1}
	if e := write(w0); e != nil {
		x.Fail("refused", "%s to a working writer: %s", name, e)
	}
	size := w0.b.Len()
	w := &faultWriter{x: x, limit: x.F(size), err: []error{errIO, tempErr{}, io.ErrShortWrite, io.ErrClosedPipe}[x.F(4)], transient: x.F(3) == 1, whole: x.F(2) == 1}
	x.Log("%s of %d bytes, write error %q behind %d bytes, transient %v", name, size, w.err, w.limit, w.transient)
	var e error
	x.Bounded("write", name, 400000+int64(size)*4000, func() { e = write(w) })
	if !w.hit {
		x.Fail("length", "%s wrote %d bytes the second time and %d the first", name, w.n, size)
	}
	x.NonTrivial = true
	if e == nil {
		x.Fail("success", "%s: the writer failed behind byte %d of %d (%s), but no error is reported", name, w.limit, size, w.err)
	}
}
