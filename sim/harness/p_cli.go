package main

import (
	"bytes"
	"compress/bzip2"
	"compress/gzip"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	ginimain "github.com/go-air/gini/cmd/gini"
	"github.com/go-air/gini/internal/simrt"
)

func init() {
	register(&Prop{ID: "C22", Quick: 40000, Thorough: 1500000,
		Rule:   "One run is one process of the gini command with random options (model, failed, assume, timeout, stats, mon, satcomp, ax, crisp) on one to three inputs (CNF or iCNF; plain, gzip, bzip2, stdin) read in random pieces; inputs may be missing, malformed, torn or fail while being read, signals arrive at random times, the CRISP connection may break. What it prints and when, and its exit code are checked against the oracle. Non-trivial: a problem was answered, the time ran out during a solve, or a fault was met.",
		Real:   []string{"cmd/gini", "dimacs", "crisp client and server", "ax", "gini", "internal/xo"},
		Stub:   []string{"file system, stdin, stdout", "network", "signals", "command line parsing errors are not exercised", "goroutine scheduler, channels, sync, select (simrt)", "time (simulated clock and timers)"},
		Assume: []string{"truth of the hard problems is known by construction (pigeon hole)", "headers announce at most 100 variables or clauses more than there are"},
		Setup:  setupCli, Body: bodyC22})
}

func setupCli(x *X) {
	x.stdSetup()
	x.Cfg.MaxSteps = 150000000
	x.Cfg.MaxSimTime = 0
	x.Cfg.StallPct = x.PickI(0, 0, 10)
	x.Cfg.Quantum = x.Pick(5000, 20000)
	if _, ok := x.Knobs["PropTick"]; !ok || x.Knobs["PropTick"] > 100 {
		x.Knobs["PropTick"] = x.Pick(1, 5, 20, 100)
	}
}

// cliQ is one problem put to the command.
type cliQ struct {
	cls [][]int // what decides it
	all [][]int // what a model satisfies
	as  []int
	res int // known truth, 0: ask the oracle
}

// cliFile is one input of the command.
type cliFile struct {
	name  string
	cnf   bool
	qs    []cliQ
	exact bool // every problem gets its status line
	fault string

	top     int           // the greatest variable
	late    time.Duration // the input stops once for so long
	lastIn  int64         // when the last of it came
	firstIn int64
	size    int
}

// lateReader stops once, and notes when its bytes came.
type lateReader struct {
	r   io.Reader
	f   *cliFile
	at  int
	pos int
}

func (l *lateReader) Read(p []byte) (int, error) {
	if l.f.firstIn < 0 {
		l.f.firstIn = simrt.NowNs()
	}
	if l.pos >= l.at && l.f.late > 0 {
		simrt.Sleep(l.f.late)
		l.f.late = 0
	}
	if l.f.late > 0 && len(p) > l.at-l.pos {
		p = p[:l.at-l.pos]
	}
	n, e := l.r.Read(p)
	l.pos += n
	l.f.lastIn = simrt.NowNs()
	return n, e
}

var bz2s = func() (t []string) {
	for _, s := range []string{
		"QlpoOTFBWSZTWXQkh/AAABJZgAAQQAJ8AAkBQAAgADEDQNASmSGmmkxS3woY7nKOwItiSUZmvi7kinChIOhJD+A=",
		"QlpoOTFBWSZTWeGGpoIAABLZgAAQQAJ0AAkBQAAgADEA000CU9SGmmmop4UCXOUdIbUkWMzfxdyRThQkOGGpoIA=",
		"QlpoOTFBWSZTWY/LfEcAAA/ZgAAQQAJ+AAsDxAAgADFDTTAANU/1Kep5T1HqZqczLLGl6VPeX56kcFgAwtbMjCOvxdyRThQkI/LfEcA=",
	} {
		b, _ := base64.StdEncoding.DecodeString(s)
		t = append(t, string(b))
	}
	return
}()

// clsOf reads plain text (comments on lines of their own).
func clsOf(text string) (cls [][]int) {
	var c []int
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, "c") || strings.HasPrefix(l, "p") {
			continue
		}
		for _, w := range strings.Fields(l) {
			n, _ := strconv.Atoi(w)
			if n == 0 {
				cls = append(cls, c)
				c = nil
				continue
			}
			c = append(c, n)
		}
	}
	return
}

// cli is one run of the command.
type cli struct {
	x        *X
	args     []string
	files    []*cliFile
	timeout  time.Duration
	model    bool
	failed   bool
	satcomp  bool
	ax       bool
	crisp    bool
	netFault bool
	nAs      int
	as       []int
	hard     bool
	many     bool // many assumptions
	late     bool // long timeouts, input which comes late
	sel      int
	noCrisp  bool // there is no server
	steps    int64

	lines []cliLine
	part  string
	intr  bool  // interrupted by a signal
	sigAt int64 // steps
	code  int
	done  bool // Main returned
}

type cliLine struct {
	s  string
	at int64
}

var errDisk = errors.New("input/output error")

// put adds the file with its text, damaged or not.
func (c *cli) put(f *cliFile, name, text string) {
	x := c.x
	d := []byte(text)
	f.name, f.size = name, len(text)
	bad := func(what string, qs int) {
		f.fault = what
		f.exact = false
		f.qs = f.qs[:qs]
		x.Hit("fault." + strings.ReplaceAll(what, " ", "_"))
	}
	// the problems which are complete before byte i
	upto := func(i int) int {
		if f.cnf || i > len(text) {
			return 0
		}
		return cubesIn(text[:i])
	}
	gz := x.W(5) == 4 && name != "-"
	all := f.qs
	fault := -1
	if x.W(4) == 3 {
		fault = x.F(5)
	}
	errAt := -1
	switch fault {
	case 0:
		// torn inside of a clause
		var at []int
		for i := 1; i < len(d); i++ {
			if openAt(text[:i]) {
				at = append(at, i)
			}
		}
		if len(at) > 0 {
			i := at[x.F(len(at))]
			d = d[:i]
			bad("torn inside of a clause", upto(i))
		}
	case 1:
		// a token which is none
		i := bytes.LastIndexByte(d[:len(d)-1-x.F(len(d)-1)], ' ')
		if i < 0 || !openAt(text[:i]) {
			break
		}
		junk := []string{" x", " --3", " -", " 99999999999", " +1", " 1a", " 2.5", " %", " -x", " \x00"}[x.F(10)]
		d = append(append(append([]byte(nil), d[:i]...), junk...), d[i:]...)
		bad("malformed token", upto(i))
	case 2:
		// the head
		i := bytes.IndexByte(d, '\n')
		if !bytes.HasPrefix(d, []byte("p ")) {
			break
		}
		h := []string{"p dnf 3 4", "p cnf -1 2", "p cnf 3", "p cnf", "pcnf 1 1", "q cnf 1 1", "p inccnff", "p inccnf 3", "p cnf x 3", "p cnf 3 -9"}[x.F(10)]
		d = append([]byte(h), d[i:]...)
		bad("malformed header", 0)
		if f.cnf && h == "p cnf 3" {
			// the first literal is taken for the number of clauses
			f.fault = ""
			d = []byte("p cnf 3\n")
			bad("malformed header", 0)
		}
	case 3:
		errAt = x.F(len(d) + 1)
		bad("read error", upto(errAt))
	case 4:
		if !f.cnf {
			if i := strings.LastIndex(text, " 0\na"); i > 0 && !strings.HasPrefix(text[strings.LastIndexByte(text[:i], '\n')+1:], "a") {
				// a clause which is not ended before a cube begins
				d = append(append([]byte(nil), d[:i]...), d[i+2:]...)
				bad("cube inside of a clause", upto(i))
			}
		}
	}
	if gz {
		var b bytes.Buffer
		k := 0
		if x.W(4) == 3 {
			k = x.W(len(d) + 1) // two members
		}
		for _, m := range [][]byte{d[:k], d[k:]} {
			if k == 0 && len(m) == 0 {
				continue
			}
			w := gzip.NewWriter(&b)
			w.Write(m)
			w.Close()
		}
		d = b.Bytes()
		f.name += ".gz"
		if errAt >= 0 {
			errAt = x.F(len(d) + 1)
			if errAt > len(d)-8 {
				errAt = len(d) - 8
			}
			if !f.cnf {
				f.qs = all // any of them may be complete before the error
			}
		} else if x.W(4) == 3 && f.fault == "" {
			n := len(f.qs)
			if f.cnf {
				n = 0
			}
			if x.F(2) == 0 {
				d = d[:x.F(len(d))]
				bad("torn gzip file", n)
			} else {
				d[len(d)-1-x.F(8)] ^= 1 << uint(x.F(8))
				bad("corrupt gzip file", n)
			}
		}
	}
	c.addFile(f, d, errAt)
}

func (c *cli) addFile(f *cliFile, d []byte, errAt int) {
	x := c.x
	path := f.name
	if path == "-" {
		path = "<stdin>"
	}
	at := 0
	f.firstIn = -1
	if c.late && x.W(4) > 0 {
		f.late = c.timeout / 100 * time.Duration(30+x.F(61))
		at = len(d)
		if i := bytes.LastIndexByte(d[:len(d)-1], '\n'); i > 0 && x.W(4) > 0 {
			at = i
		} else {
			at = x.F(at)
		}
		c.steps += int64(f.late) / x.Cfg.NsPerStep
		x.Hit("fault.slow_input")
	}
	if f.name != "-" && x.W(6) == 0 {
		// by a symbolic link to a file with another name
		simrt.AddDir("/data")
		to := fmt.Sprintf("/data/file%d", x.W(1000))
		simrt.AddLink(path, to)
		path = to
		x.Hit("input.link")
	}
	simrt.AddFile(path, d, 0644, func(d []byte) io.Reader {
		r := x.segReader(d)
		if errAt >= 0 {
			r.errAt, r.err, r.withData = errAt, errDisk, x.F(2) == 0
		}
		return &lateReader{r: r, f: f, at: at}
	})
	c.steps += 30000 * int64(len(d))
	x.Log("%s: %d problems%s, %s", f.name, len(f.qs), map[bool]string{true: "", false: " (" + f.fault + ")"}[f.fault == ""], brief80(d))
}

// openAt tells whether text ends inside of a clause or cube.
func openAt(text string) bool {
	if strings.HasPrefix(text, "p") {
		text = text[len(strings.SplitN(text, "\n", 2)[0]):]
	}
	w := strings.Fields(text)
	return len(w) > 0 && w[len(w)-1] != "0" && w[len(w)-1] != "a0"
}

// cubesIn counts the cubes complete in the text of an icnf file.
func cubesIn(text string) (n int) {
	in := false
	for _, w := range strings.Fields(text) {
		if strings.HasPrefix(w, "a") {
			in = true
			w = w[1:]
		}
		if w == "0" {
			if in {
				n++
			}
			in = false
		}
	}
	return
}

func (c *cli) cnfFile(i int) *cliFile {
	x := c.x
	f := &cliFile{cnf: true, exact: true}
	var cls [][]int
	q := cliQ{as: c.as}
	if c.hard {
		h, res := x.hardCNF()
		cls, q.res = h.Cls, res
	} else {
		m := x.midCNF()
		x.looser(m)
		cls = m.Cls
	}
	if c.many && x.W(3) > 0 {
		// all of the assumptions are needed
		var k []int
		for _, a := range c.as {
			k = append(k, -a)
		}
		cls = append(cls[:len(cls):len(cls)], k)
		x.Hit("many_assumptions")
	}
	q.cls, q.all = cls, cls
	f.qs = []cliQ{q}
	f.top = max(maxVarOf(cls), maxVarOf([][]int{c.as}))
	name := fmt.Sprintf("f%d.cnf", i)
	if !c.hard && x.W(12) == 11 {
		t := bz2s[x.W(len(bz2s))]
		r := bzip2.NewReader(strings.NewReader(t))
		b, _ := io.ReadAll(r)
		q.cls = clsOf(string(b))
		q.all = q.cls
		f.qs = []cliQ{q}
		f.top = max(maxVarOf(q.cls), maxVarOf([][]int{c.as}))
		f.name, f.size = name+".bz2", len(b)
		errAt := -1
		if x.W(3) == 2 {
			errAt = x.F(len(t))
			f.fault, f.exact, f.qs = "read error", false, nil
			x.Hit("fault.read_error")
		}
		c.addFile(f, []byte(t), errAt)
		return f
	}
	if i == 0 && x.W(6) == 5 {
		name = "-"
	}
	var b strings.Builder
	if x.W(4) > 0 {
		fmt.Fprintf(&b, "p cnf %d %d\n", maxVarOf(cls)+x.W(2)*x.W(100), len(cls)+x.W(2)*x.W(100))
	}
	for _, c := range cls {
		for _, l := range c {
			fmt.Fprintf(&b, "%d ", l)
		}
		b.WriteString("0\n")
	}
	c.put(f, name, b.String())
	return f
}

func (c *cli) icnfFile(i int) *cliFile {
	x := c.x
	f := &cliFile{exact: true}
	var cls, easy [][]int
	n := 0
	if c.hard {
		cls, n, c.sel = axHard(x)
		for _, k := range cls {
			if maxVarOf([][]int{k}) <= n {
				easy = append(easy, k)
			}
		}
	} else {
		m := x.midCNF()
		x.looser(m)
		cls, n = m.Cls, m.N
	}
	var b strings.Builder
	b.WriteString("p inccnf\n")
	cube := func(upto int) {
		as := x.pickAssumps(n, 4)
		q := cliQ{cls: cls[:upto], all: cls[:upto]}
		if c.hard {
			for i := range as {
				if iabs(as[i]) > n {
					as[i] = 1
				}
			}
			if x.W(3) == 0 {
				as, q.res = append(as, c.sel), -1
			} else {
				as = append(as, -c.sel)
				q.cls = easy
			}
		}
		q.as = as
		f.qs = append(f.qs, q)
		b.WriteString([]string{"a ", "a"}[x.W(2)])
		for _, l := range as {
			fmt.Fprintf(&b, "%d ", l)
		}
		b.WriteString("0\n")
	}
	for i, k := range cls {
		if !c.hard && x.W(len(cls)+2) == len(cls) {
			for j := x.W(4); j > 0; j-- {
				cube(i)
			}
		}
		for _, l := range k {
			fmt.Fprintf(&b, "%d ", l)
		}
		b.WriteString("0\n")
	}
	for j := x.W(6); j > 0; j-- {
		cube(len(cls))
	}
	f.top = maxVarOf(cls)
	for _, q := range f.qs {
		f.top = max(f.top, maxVarOf([][]int{q.as}))
	}
	f.qs = f.qs[:len(f.qs):len(f.qs)]
	c.put(f, fmt.Sprintf("f%d.icnf", i), b.String())
	return f
}

func bodyC22(x *X) {
	c := &cli{x: x, code: -1}
	if !simrt.ResetCmd("cmd/gini") {
		x.Fail("harness", "no command")
	}
	opt := func(f string, a ...any) { c.args = append(c.args, fmt.Sprintf(f, a...)) }
	c.hard = x.W(3) == 2
	if c.hard {
		c.timeout = x.dur() * time.Duration(x.PickI(1, 10))
		if x.W(25) == 24 {
			c.late = true
			c.timeout = time.Duration((4000000 + int64(x.W(2000000))) * x.Cfg.NsPerStep)
		}
	} else {
		c.timeout = time.Hour
		if x.W(3) == 0 {
			c.timeout = x.dur() * time.Duration(x.PickI(1, 10, 100))
		} else if x.W(12) == 11 {
			c.timeout = time.Duration(-x.W(2))
		}
	}
	opt("-timeout=%s", c.timeout)
	if x.W(2) == 0 {
		opt("-model")
		c.model = true
	}
	if x.W(2) == 0 {
		opt("-failed")
		c.failed = true
	}
	if x.W(4) == 3 {
		opt("-stats")
	}
	if x.W(4) == 3 {
		opt("-mon=%s", x.dur()*time.Duration(x.PickI(1, 10)))
		x.Hit("mon")
	}
	if x.W(3) == 2 {
		opt("-ax")
		c.ax = true
		x.Hit("ax")
	}
	if x.W(3) == 2 {
		c.satcomp = true
		opt("-satcomp")
	}
	if x.W(3) > 0 {
		c.as = x.pickAssumps(12, 5)
		if c.many = !c.hard && x.W(6) == 5; c.many {
			c.as = nil
			for v, top := 1+x.W(3), 12+x.W(40); v <= top; v++ {
				c.as = append(c.as, v*(1-2*x.W(2)))
			}
		}
		k := x.W(2)
		var s []string
		for _, a := range c.as {
			s = append(s, strconv.Itoa(a))
			if k == 1 {
				opt("-assume=%d", a)
			}
		}
		if k == 0 && len(s) > 0 {
			opt("-assume=%s", strings.Join(s, ","))
		}
	}
	if x.W(4) == 3 {
		c.crisp = true
		x.Hit("crisp")
		if c.hard {
			x.netUpMax(100000)
		} else {
			x.netUp()
		}
		addr := "@/tmp/crisp.sock"
		if x.W(10) == 9 {
			c.noCrisp = true
		} else {
			addr = x.crispServer()
		}
		opt("-crisp=%s", addr)
		if x.W(3) == 0 {
			c.netFault = true
			mode, kind, at := x.F(2), simrt.CutKind(1+x.F(3)), int64(x.F(int(x.Pick(60, 400, 3000))))
			first := true
			simrt.OnConn(func(cl, srv *simrt.SimConn) {
				if !first {
					return
				}
				first = false
				if mode == 0 {
					cl.Cut(at, kind)
				} else {
					srv.Cut(at, kind)
				}
			})
			x.Log("connection: %s at byte %d of direction %d", kind, at, mode)
		}
	}
	n := 1
	if !c.satcomp && !c.netFault {
		n = x.PickI(1, 1, 2, 3)
	}
	stdin := false
	for i := 0; i < n; i++ {
		var f *cliFile
		switch {
		case x.W(14) == 13:
			f = &cliFile{name: fmt.Sprintf("missing%d.cnf", i), fault: "missing"}
			x.Hit("fault.missing_file")
		case x.W(14) == 13:
			f = &cliFile{fault: "unknown extension"}
			f.name = fmt.Sprintf("f%d.txt", i)
			c.addFile(f, []byte("p cnf 1 1\n1 0\n"), -1)
			x.Hit("fault.extension")
		case x.W(3) == 2:
			f = c.icnfFile(i)
		default:
			f = c.cnfFile(i)
		}
		if f.name == "-" {
			stdin = true
		}
		c.files = append(c.files, f)
		if !f.cnf && f.fault != "" && f.fault != "missing" && len(f.qs) > 0 {
			break // it is not known how many lines it gets
		}
	}
	for _, f := range c.files {
		if !(c.satcomp && stdin && x.W(2) == 0) { // it reads from stdin then
			c.args = append(c.args, f.name)
		}
		c.steps += int64(1+len(f.qs))*x.ctlBound() + 2000000
	}
	if c.crisp {
		c.steps += int64(len(c.files)) * (12*x.crispBound() + 600*x.netDelay)
	}
	if c.timeout < time.Hour {
		c.steps += int64(len(c.files)) * max(0, int64(c.timeout)) / x.Cfg.NsPerStep
	} else {
		c.steps += 60000000
	}
	if c.netFault {
		c.steps += 3000 * x.netDelay
	}
	os.Args = append([]string{"gini"}, c.args...)
	x.Log("gini %s", strings.Join(c.args, " "))
	simrt.OnOut(c.out)
	x.PanicOK = func(p *simrt.PanicInfo) bool {
		if p.Exit {
			c.code, c.done = p.Code, true
		}
		return p.Exit
	}
	x.Post = c.check
	c.signals()
	x.Bounded("main", "gini", c.steps, ginimain.Main)
	c.code, c.done = 0, true
	if c.crisp {
		return // the server lives on
	}
	simrt.Sleep(time.Duration(x.ctlBound() * x.Cfg.NsPerStep))
	for _, t := range libTasks() {
		if !strings.HasPrefix(t.Name, "cmd/gini.init") {
			x.Fail("left", "after its last input gini still runs %v", libTasks())
		}
	}
}

func (c *cli) signals() {
	x := c.x
	if x.W(6) != 5 {
		return
	}
	k := 1 + x.F(3)
	var ds []time.Duration
	var sg []os.Signal
	for i := 0; i < k; i++ {
		ds = append(ds, x.dur()*time.Duration(x.PickI(1, 10, 100)))
		sg = append(sg, []os.Signal{syscall.SIGUSR1, syscall.SIGTERM, syscall.SIGINT}[x.F(3)])
	}
	simrt.GoHarness("signals", func() {
		for i := range ds {
			simrt.Sleep(ds[i])
			x.Log("signal %s", sg[i])
			x.Hit("fault." + sg[i].String())
			simrt.Signal(sg[i])
			if sg[i] != syscall.SIGUSR1 {
				c.sigAt = simrt.Steps()
				x.Bounded("signal", "gini after "+sg[i].String(), 3000000, func() { simrt.Sleep(time.Duration(2000000 * x.Cfg.NsPerStep)) })
				x.Fail("signal", "gini goes on after %s", sg[i])
			}
		}
	})
}

func (c *cli) out(s string) {
	if s == "\nc interrupted USR1\n" {
		return
	}
	if s == "\nc interrupted\ns UNKNOWN\n" {
		c.intr = true
		return
	}
	if c.intr {
		return // the process has ended but for its last statements
	}
	c.part += s
	for {
		i := strings.IndexByte(c.part, '\n')
		if i < 0 {
			return
		}
		c.lines = append(c.lines, cliLine{c.part[:i], simrt.NowNs()})
		c.part = c.part[i+1:]
	}
}

// check looks at what the process printed, after its end.
func (c *cli) check() {
	x := c.x
	if !c.done {
		return // capped
	}
	text := func() string {
		var s []string
		for _, l := range c.lines {
			s = append(s, l.s)
		}
		return strings.Join(append(s, c.part), " | ")
	}
	sent := c.sigAt > 0
	if c.part != "" && !c.intr {
		x.Fail("output", "incomplete last line %q", c.part)
		return
	}
	if c.intr && !sent {
		x.Fail("output", "interrupted without a signal")
		return
	}
	i := 0
	next := func() (cliLine, bool) {
		for i < len(c.lines) && strings.HasPrefix(c.lines[i].s, "c ") {
			i++
		}
		if i < len(c.lines) {
			return c.lines[i], true
		}
		return cliLine{}, false
	}
	begin := int64(0) // the file did not begin before
	last := 2
	nst := 0
	for _, f := range c.files {
		for k, q := range f.qs {
			l, ok := next()
			if !ok {
				if c.intr || !f.exact || c.netFault || c.noCrisp && f.cnf {
					if k == 0 && f.cnf && c.satcomp {
						last = 0
					}
					break
				}
				x.Fail("missing", "%s: no status line for problem %d of %d; output: %s", f.name, k, len(f.qs), text())
				return
			}
			if c.noCrisp && f.cnf {
				break
			}
			i++
			nst++
			res := 0
			switch l.s {
			case "s SATISFIABLE":
				res = 1
			case "s UNSATISFIABLE":
				res = -1
			case "s UNKNOWN":
			default:
				x.Fail("output", "%s: %q where a status line is due; output: %s", f.name, l.s, text())
				return
			}
			last = res
			x.Hit("status." + sgn(res))
			x.NonTrivial = true
			if res == 0 {
				if el := time.Duration(l.at - begin); el < c.timeout {
					x.Fail("unknown", "%s: problem %d is UNKNOWN after at most %s, the time limit is %s", f.name, k, el, c.timeout)
					return
				}
				if !c.crisp && f.firstIn >= 0 {
					// the limit is for one CNF, and for all cubes of an iCNF
					lim := f.lastIn + max(0, int64(c.timeout))
					if !f.cnf {
						lim = max(f.lastIn, f.firstIn+max(0, int64(c.timeout)))
					}
					slack := (int64(2+k)*x.ctlBound() + 100*int64(f.size)) * x.Cfg.NsPerStep
					if !f.cnf && !c.ax {
						slack = (3*x.ctlBound() + 100*int64(f.size)) * x.Cfg.NsPerStep
					}
					if over := l.at - lim; over > slack {
						x.Fail("overrun", "%s: problem %d is UNKNOWN only %s behind the time limit of %s", f.name, k, time.Duration(over), c.timeout)
						return
					}
				}
				continue
			}
			want := q.res
			if want == 0 {
				want = oracle(q.cls, q.as)
			}
			if res != want {
				x.Fail("answer", "%s: problem %d (%d clauses, assumptions %v): %q, the truth is %d", f.name, k, len(q.all), q.as, l.s, want)
				return
			}
			if !f.cnf {
				continue
			}
			if res == 1 && c.model {
				if !c.checkModel(f, q, &i) {
					return
				}
			}
			if res == -1 && c.failed {
				if !c.checkFailed(f, q, &i) {
					return
				}
			}
		}
		if i > 0 {
			begin = c.lines[i-1].at
		}
	}
	if l, ok := next(); ok {
		x.Fail("output", "output %q although there is nothing to say (%d problems answered); output: %s", l.s, nst, text())
		return
	}
	for _, f := range c.files {
		if f.fault != "" {
			x.NonTrivial = true
		}
	}
	// exit code
	want := 0
	switch {
	case c.intr:
		want = 1
	case c.satcomp && c.files[0].cnf && last != 2:
		want = map[int]int{1: 10, -1: 20, 0: 0}[last]
	case c.satcomp && (c.files[0].fault == "missing" || c.files[0].fault == "unknown extension"):
		want = 1
	case c.satcomp && c.files[0].fault != "":
		want = c.code
		if c.code == 10 || c.code == 20 {
			want = 0
		}
	}
	if c.code != want {
		x.Fail("code", "exit code %d, expected %d; output: %s", c.code, want, text())
	}
}

func (c *cli) checkModel(f *cliFile, q cliQ, i *int) bool {
	x := c.x
	val := map[int]bool{}
	done := false
	for !done {
		if *i >= len(c.lines) || !strings.HasPrefix(c.lines[*i].s, "v") {
			if c.intr || c.netFault && len(val) == 0 {
				return true
			}
			x.Fail("model", "%s: SATISFIABLE, but no complete model follows", f.name)
			return false
		}
		for _, w := range strings.Fields(c.lines[*i].s)[1:] {
			n, e := strconv.Atoi(w)
			if done || e != nil {
				x.Fail("model", "%s: bad word %q in the model", f.name, w)
				return false
			}
			if n == 0 {
				done = true
				continue
			}
			if _, ok := val[iabs(n)]; ok {
				x.Fail("model", "%s: variable %d has two values", f.name, iabs(n))
				return false
			}
			val[iabs(n)] = n > 0
		}
		*i++
	}
	for v := 1; v <= maxVarOf(q.all); v++ {
		// a variable which does not matter need not be known to a CRISP server
		if _, ok := val[v]; !ok && !c.crisp {
			x.Fail("model", "%s: no value for variable %d", f.name, v)
			return false
		}
	}
	big := 0
	for v := range val {
		if v > big {
			big = v
		}
	}
	if big > f.top {
		x.Fail("model", "%s: a value for variable %d, the problem has %d", f.name, big, f.top)
		return false
	}
	for _, a := range q.as {
		if v, ok := val[iabs(a)]; !ok || v != (a > 0) {
			x.Fail("model", "%s: the model contradicts the assumption %d", f.name, a)
			return false
		}
	}
	checkModelV(x, "model", f.name, q.all, q.as, func(l int) bool {
		v, ok := val[iabs(l)]
		return !ok && taut(q.all, iabs(l)) || ok && v == (l > 0)
	})
	x.Hit("model")
	return x.Viol == nil
}

func (c *cli) checkFailed(f *cliFile, q cliQ, i *int) bool {
	x := c.x
	if *i >= len(c.lines) || !strings.HasPrefix(c.lines[*i].s, "f") {
		if c.intr || c.netFault {
			return true
		}
		x.Fail("failed", "%s: UNSATISFIABLE, but no failed assumptions follow", f.name)
		return false
	}
	var why []int
	for *i < len(c.lines) && strings.HasPrefix(c.lines[*i].s, "f") {
		for _, w := range strings.Fields(c.lines[*i].s)[1:] {
			n, e := strconv.Atoi(w)
			if e != nil || n == 0 {
				x.Fail("failed", "%s: bad word %q in the failed assumptions", f.name, w)
				return false
			}
			why = append(why, n)
		}
		*i++
	}
	if q.res == 0 {
		checkWhySet(x, "failed", f.name, q.cls, q.as, why)
	} else {
		for _, w := range why {
			if !contains(q.as, w) {
				x.Fail("failed", "%s: failed assumption %d is none of %v", f.name, w, q.as)
			}
		}
	}
	x.Hit("failed")
	return x.Viol == nil
}

// taut tells whether v is met in tautologies only (they are not sent to a server).
func taut(cls [][]int, v int) bool {
	for _, c := range cls {
		if contains(c, v) != contains(c, -v) {
			return false
		}
	}
	return true
}
