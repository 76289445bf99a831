package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/go-air/gini/bench"
	benchmain "github.com/go-air/gini/cmd/bench"
	"github.com/go-air/gini/internal/simrt"
)

func init() {
	real := []string{"bench", "cmd/bench (some runs)"}
	stub := []string{"file system (simulated, with faults and crashes of the process at any operation)", "child processes and pipes (simulated programs)", "environment", "math/rand", "goroutine scheduler, channels, sync, select (simrt)", "time (simulated clock and timers)"}
	register(&Prop{ID: "C26", Quick: 40000, Thorough: 1200000,
		Rule: "One run creates a suite and one or two runs of a command on it. The command is a simulated program per instance: it writes random amounts to its output and error output through small pipes, sleeps, uses processor time, closes its output early, exits with some code, crashes or never ends. Instance and run limits, pauses between instances, failures to start it, failing, short and full disk writes are random. Each record is checked against what the program did, in memory and after reopening the suite. Non-trivial: a program was killed at its limit, wrote output, or a fault was met.",
		Real: real, Stub: stub, Assume: []string{"the command leaves no other process behind which holds its output open", "environment values have no line breaks", "one task uses a suite at a time (running changes the working directory)"},
		Setup: setupBench, Body: bodyC26})
	register(&Prop{ID: "C27", Quick: 40000, Thorough: 1200000,
		Rule: "One run is a history of operations on one or two suites: create (copies or links), open, select instances, run all or some instances, remove runs, select runs, compare, through the library or the bench command. Disk errors, full disks, short writes and crashes of the process strike at any file operation; afterwards the suites are reopened and compared with a reference model. Non-trivial: a fault or crash was met, or a suite with two runs was reopened.",
		Real: real, Stub: stub, Assume: []string{"a crash is one of the process: what was written stays", "closing a written file does not fail", "environment values and file names have no line breaks"},
		Setup: setupBench, Body: bodyC27})
}

func setupBench(x *X) {
	x.stdSetup()
	x.Cfg.NsPerStep = x.Pick(1, 20)
	x.Cfg.StallPct = x.PickI(0, 0, 10)
	x.Cfg.MaxSteps = 6000000
	x.Cfg.MaxSimTime = 0
}

const benchSteps = 100000 // statements bench may take around a command

// bact is something a command does.
type bact struct {
	op byte // o, e: write; s: sleep; u: use the processor; c: close the outputs
	n  int
	d  time.Duration
}

// bplan is what a command does on an instance.
type bplan struct {
	acts []bact
	end  int  // exit code, -1: never ends, -2: crash
	deaf bool // ignores the signals which can be ignored
}

// btruth is what happened when an instance was run.
type btruth struct {
	st     int // 0 not done, 1 recorded, 2 something went wrong
	proc   *simrt.Proc
	t0, t1 time.Time // around Do
	ir     bench.InstRun
	fault  bool
}

// brun and bsuite are the reference model.
type brun struct {
	name, cmd string
	ito, to   time.Duration
	st        int // 1 made, 2 making or removing it failed
	t0, t1    time.Time
	env       map[string]string
	insts     []*btruth
	plans     []*bplan
}

type bsuite struct {
	root  string
	orgs  []string
	datas [][]byte
	abs   []string
	link  bool
	st    int // 1 made, 2 making it failed
	runs  []*brun
}

type benchW struct {
	x       *X
	orgs    []string
	data    map[string][]byte
	suites  []*bsuite
	group   int
	sels    int
	crashed bool
	everC   bool

	// the planned fault
	at     int // operations until it, <0: none
	kind   int // 0 one operation, 1 disk full from then on, 2 crash
	err    error
	met    bool
	end    chan struct{}
	full   bool
	short  bool
	noExec bool
}

func (b *benchW) fault(op, path string, n int) (int, error) {
	x := b.x
	if simrt.Cur().Group < 100 {
		return n, nil
	}
	if simrt.Cur().Group != b.group {
		simrt.Freeze("crashed")
	}
	if b.crashed {
		simrt.Freeze("crashed")
	}
	if op == "read" && b.short && n > 1 {
		if n > 2000 {
			return n/20 + x.F(n-n/20+1), nil
		}
		return 1 + x.F(n), nil
	}
	if op == "close" {
		return n, nil
	}
	writes := op == "write" || op == "create" || op == "mkdir" || op == "symlink"
	if b.full && writes {
		return x.F(n + 1), syscall.ENOSPC
	}
	if b.at < 0 {
		return n, nil
	}
	if b.at--; b.at >= 0 {
		return n, nil
	}
	if b.kind == 1 && !writes {
		b.at = 0
		return n, nil
	}
	b.met = true
	x.NonTrivial = true
	switch b.kind {
	case 1:
		b.full = true
		simrt.Tracef("disk full at %s %s", op, path)
		x.Hit("disk full")
		return x.F(n + 1), syscall.ENOSPC
	case 2:
		b.crashed, b.everC = true, true
		simrt.Tracef("crash at %s %s", op, path)
		simrt.SendC(b.end)(struct{}{})
		x.Hit("crash")
		simrt.Freeze("crashed")
	}
	simrt.Tracef("fault %v at %s %s", b.err, op, path)
	x.Hit("fault." + op)
	return x.F(n + 1), b.err
}

// arm plans a fault for the next operation of the library.
func (b *benchW) arm(max int, crash bool) {
	x := b.x
	b.at, b.met, b.full = x.F(max), false, false
	b.kind = x.F(2)
	if crash {
		b.kind = x.F(3)
	}
	b.err = []error{syscall.EIO, syscall.EACCES, syscall.EMFILE, syscall.ENOSPC}[x.F(4)]
}

func (b *benchW) disarm() { b.at, b.full = -1, false }

// lib runs f as the process of the library; false if it crashed.
func (b *benchW) lib(name string, f func()) bool {
	x := b.x
	wd := simrt.Cwd()
	open := len(simrt.OpenFiles())
	b.crashed = false
	g := b.group
	end := make(chan struct{}, 2)
	b.end = end
	simrt.GoTask(name, func() {
		simrt.SetGroup(g)
		f()
		simrt.SendC(end)(struct{}{})
	})
	simrt.Recv(end)
	if b.crashed {
		b.group++
		b.disarm()
		simrt.Chdir(wd)
		x.Log("%s: crash", name)
		b.crashed = false
		return false
	}
	if !b.met && simrt.Cwd() != wd {
		x.Fail("cwd", "%s left the working directory %s for %s", name, wd, simrt.Cwd())
	}
	if simrt.Cwd() != wd {
		simrt.Chdir(wd)
	}
	if o := simrt.OpenFiles(); len(o) > open && !b.everC {
		x.Fail("leak", "%s left files open: %v", name, o)
	}
	if l := libTasks(); len(l) > 0 && !b.everC {
		simrt.Quiesce()
		if l = libTasks(); len(l) > 0 {
			x.Fail("leak", "%s left goroutines: %v", name, l)
		}
	}
	return true
}

func (b *benchW) bytes() []byte {
	x := b.x
	n := x.PickI(20, 0, 1, 300, 33000)
	if n == 33000 && x.W(3) > 0 {
		n = x.PickI(70000, 140000, 1100000)
	}
	d := make([]byte, n)
	v := uint32(x.W(1 << 20))
	for i := range d {
		v = v*1664525 + 1013904223
		d[i] = byte(v >> 24)
	}
	return d
}

func newBenchW(x *X) *benchW {
	b := &benchW{x: x, data: map[string][]byte{}, group: 100, at: -1}
	b.short = x.WP(1, 3)
	env := []string{"HOME=/root", "EMPTY=", "PATH=/bin:/usr/bin", "OPTS=-a=1 -b==2", "LC ALL=C "}
	simrt.SetEnv(env[:x.W(len(env)+1)])
	names := []string{"a.cnf", "b.cnf.gz", "sub/c.icnf", "sub/d e.cnf.bz2", "sub/x/f.dimacs", "g", "h.1.cnf", ".hid.cnf", "sub/a.cnf"}
	n := 1 + x.W(len(names))
	for _, nm := range names[:n] {
		p := "/work/data/" + nm
		d := b.bytes()
		b.orgs = append(b.orgs, p)
		b.data[p] = d
		simrt.AddFile(p, d, 0644, nil)
	}
	simrt.AddDir("/work")
	simrt.Chdir("/work")
	simrt.SetFsFault(b.fault)
	simrt.SetExec(b.program)
	return b
}

// plan draws what a command does.
func (b *benchW) plan(ito time.Duration) *bplan {
	x := b.x
	p := &bplan{end: x.PickI(10, 20, 0, 1, 2, -1, -2, 10, 20, 9, 30, 21)}
	for i := x.W(5); i > 0; i-- {
		a := bact{op: "oesuoseuc"[x.W(9)]}
		switch a.op {
		case 'o', 'e':
			a.n = x.PickI(10, 1, 100, 3000, 70000)
		case 's', 'u':
			a.d = []time.Duration{0, time.Millisecond, 30 * time.Millisecond, ito / 2, ito, ito * 9 / 10, ito * 11 / 10, 3 * time.Second}[x.W(8)]
		}
		p.acts = append(p.acts, a)
	}
	p.deaf = x.W(4) == 3
	return p
}

// program is what the child processes run.
func (b *benchW) program(p *simrt.Proc) int {
	var r *brun
	var s *bsuite
	i := -1
	for _, s1 := range b.suites {
		for _, r1 := range s1.runs {
			pre := b.abs(s1.root) + "/runs/" + r1.name + "/inst-"
			if r1.st != 0 && strings.HasPrefix(p.Dir, pre) {
				fmt.Sscanf(p.Dir[len(pre):], "%d", &i)
				s, r = s1, r1
			}
		}
	}
	x := b.x
	if r == nil || i < 0 || i >= len(r.plans) {
		x.Fail("dir", "the command runs in %s, which belongs to no instance", p.Dir)
		return 1
	}
	t := r.insts[i]
	t.proc = p
	want := strings.Split(r.cmd, " ")
	if len(p.Args) != len(want)+1 || strings.Join(p.Args[:len(want)], "\x00") != strings.Join(want, "\x00") {
		x.Fail("args", "command %q was started as %q", r.cmd, p.Args)
	}
	f := p.Args[len(want)]
	if !filepath.IsAbs(f) {
		f = p.Dir + "/" + f
	}
	d, ok := simrt.FileData(f)
	if !ok || !bytes.Equal(d, s.datas[i]) {
		x.Fail("instance", "instance %d of %s: the command was given %s: exists %v, %d bytes instead of the %d of %s", i, s.root, f, ok, len(d), len(s.datas[i]), s.orgs[i])
	}
	pl := r.plans[i]
	p.Ignores = pl.deaf
	for _, a := range pl.acts {
		switch a.op {
		case 'o', 'e':
			w := p.Stdout
			if a.op == 'e' {
				w = p.Stderr
			}
			buf := make([]byte, a.n)
			for j := range buf {
				buf[j] = byte(len(p.Wrote[0])*7 + j + i)
			}
			w.Write(buf)
		case 's':
			p.Sleep(a.d)
		case 'u':
			p.Cpu(a.d, a.d/3)
			p.Sleep(a.d)
		case 'c':
			if c, ok := p.Stdout.(interface{ Close() error }); ok {
				c.Close()
				p.Stdout = nullW{}
			}
			if c, ok := p.Stderr.(interface{ Close() error }); ok {
				c.Close()
				p.Stderr = nullW{}
			}
		}
	}
	switch pl.end {
	case -1:
		p.Sleep(1000 * time.Hour)
	case -2:
		p.Crash(11)
	}
	return pl.end
}

type nullW struct{}

func (nullW) Write(p []byte) (int, error) { return len(p), nil }

func (b *benchW) abs(p string) string {
	if filepath.IsAbs(p) {
		return p
	}
	return filepath.Join("/work", p)
}

// ---- suites

func sha(d []byte) string {
	h := sha256.Sum256(d)
	return hex.EncodeToString(h[:])
}

// create makes a suite; faults may be armed.
func (b *benchW) create(max int) *bsuite {
	x := b.x
	s := &bsuite{link: x.WP(1, 3)}
	s.root = []string{"s0", "/work/s0", "./s0", "deep/er/s0"}[x.W(4)]
	for b.find(s.root) != nil {
		s.root += "x"
	}
	n := x.W(max + 1)
	for i := 0; i < n; i++ {
		o := b.orgs[x.W(len(b.orgs))]
		s.datas = append(s.datas, b.data[o])
		s.abs = append(s.abs, o)
		if x.WP(1, 3) {
			o = strings.TrimPrefix(o, "/work/")
		}
		s.orgs = append(s.orgs, o)
	}
	var su *bench.Suite
	var e error
	args := append([]string(nil), s.orgs...)
	pre := simrt.FileExists(b.abs(s.root))
	if !b.lib("create", func() {
		if s.link {
			su, e = bench.LinkSuite(s.root, args)
		} else {
			su, e = bench.CreateSuite(s.root, args)
		}
	}) {
		s.st = 2
		b.suites = append(b.suites, s)
		return s
	}
	x.Log("create %s link %v %d instances: %v", s.root, s.link, n, e)
	if e != nil && !b.met {
		x.Fail("create", "CreateSuite %s of %q failed: %v", s.root, s.orgs, e)
	}
	if e == nil && pre {
		x.Fail("create", "%s existed already and a suite was created there", s.root)
	}
	s.st = 1
	if e != nil {
		s.st = 2
	} else {
		b.checkSuite(s, su, "created")
	}
	b.suites = append(b.suites, s)
	return s
}

func (b *benchW) find(root string) *bsuite {
	for _, s := range b.suites {
		if b.abs(s.root) == b.abs(root) {
			return s
		}
	}
	return nil
}

// checkSuite compares su with the model.
func (b *benchW) checkSuite(s *bsuite, su *bench.Suite, how string) {
	x := b.x
	n := len(s.orgs)
	if su.Root != s.root {
		x.Fail("suite", "%s suite %s has root %s", how, s.root, su.Root)
	}
	if len(su.Insts) != n || su.Len() != n {
		x.Fail("suite.insts", "%s suite %s has %d instances (Len %d) instead of %d", how, s.root, len(su.Insts), su.Len(), n)
	}
	if strings.Join(su.Map, "\x00") != strings.Join(s.orgs, "\x00") || len(su.Map) != n {
		x.Fail("suite.map", "%s suite %s has map %q, the origins are %q", how, s.root, su.Map, s.orgs)
	}
	if len(su.Hashes) != n {
		x.Fail("suite.hash", "%s suite %s has %d hashes for %d instances", how, s.root, len(su.Hashes), n)
	}
	for i := 0; i < n; i++ {
		if su.Hashes[i] != sha(s.datas[i]) {
			x.Fail("suite.hash", "%s suite %s: hash %d is %q, %s has %s", how, s.root, i, su.Hashes[i], s.orgs[i], sha(s.datas[i]))
		}
		f := b.abs(s.root) + "/" + su.Insts[i]
		d, ok := simrt.FileData(f)
		if !ok || !bytes.Equal(d, s.datas[i]) {
			x.Fail("suite.data", "%s suite %s: instance %d (%s) exists %v with %d bytes, origin %s has %d", how, s.root, i, f, ok, len(d), s.orgs[i], len(s.datas[i]))
		}
	}
	if !bench.IsSuiteDir(su.Root) {
		x.Fail("suite.is", "IsSuiteDir(%s) is false for a %s suite", su.Root, how)
	}
}

func (b *benchW) envMap() map[string]string {
	m := map[string]string{}
	for _, kv := range simrt.Environ() {
		i := strings.Index(kv, "=")
		m[kv[:i]] = kv[i+1:]
	}
	return m
}

func sameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// newRun makes a run in the model.
func (b *benchW) newRun(s *bsuite, name string) *brun {
	x := b.x
	r := &brun{name: name, st: 2}
	r.cmd = []string{"solver", "gini -model", "/bin/s  -x", "sh"}[x.W(4)]
	r.ito = []time.Duration{time.Second, 50 * time.Millisecond, 100 * time.Millisecond, 5 * time.Second}[x.W(4)]
	r.to = []time.Duration{time.Hour, r.ito, r.ito * 3 / 2, r.ito * 3}[x.W(4)]
	for range s.orgs {
		r.insts = append(r.insts, &btruth{})
		r.plans = append(r.plans, b.plan(r.ito))
	}
	r.env = b.envMap()
	return r
}

// start makes a run by the library.
func (b *benchW) start(s *bsuite, su *bench.Suite, r *brun) *bench.Run {
	x := b.x
	var run *bench.Run
	var e error
	s.runs = append(s.runs, r)
	r.t0 = simrt.Now()
	if !b.lib("Run", func() { run, e = su.Run(r.name, r.cmd, r.ito, r.to) }) {
		return nil
	}
	r.t1 = simrt.Now()
	x.Log("%s: run %s %q limits %s %s: %v", s.root, r.name, r.cmd, r.ito, r.to, e)
	if e != nil {
		if !b.met {
			x.Fail("run", "making run %s of %s failed: %v", r.name, s.root, e)
		}
		return nil
	}
	r.st = 1
	b.checkRun(s, r, run, "new")
	return run
}

func (b *benchW) checkRun(s *bsuite, r *brun, run *bench.Run, how string) {
	x := b.x
	name := fmt.Sprintf("%s run %s of %s", how, r.name, s.root)
	if run.Name != r.name || run.Cmd != r.cmd || run.Timeout != r.to || run.InstTimeout != r.ito {
		x.Fail("run.data", "%s: name %q command %q limits %s %s instead of %q %q %s %s", name, run.Name, run.Cmd, run.Timeout, run.InstTimeout, r.name, r.cmd, r.to, r.ito)
	}
	if run.Start.Before(r.t0) || run.Start.After(r.t1) {
		x.Fail("run.start", "%s: start %s is not between %s and %s", name, run.Start, r.t0, r.t1)
	}
	if !sameMap(run.Env, r.env) {
		x.Fail("run.env", "%s: environment %v instead of %v", name, run.Env, r.env)
	}
	if run.Arch == "" || run.Os == "" || run.NumCPU != x.Cfg.NumCPU || run.Commit != "00000000" {
		x.Fail("run.data", "%s: %q %q %d cpus (%d) commit %q", name, run.Arch, run.Os, run.NumCPU, x.Cfg.NumCPU, run.Commit)
	}
	if filepath.Clean(run.Root) != filepath.Join(s.root, "runs", r.name) {
		x.Fail("run.data", "%s: root %s", name, run.Root)
	}
	if run.Len() != len(s.orgs) {
		x.Fail("run.data", "%s: length %d instead of %d", name, run.Len(), len(s.orgs))
	}
	if !bench.IsRunDir(run.Root) {
		x.Fail("run.is", "IsRunDir(%s) is false for a %s run", run.Root, how)
	}
}

func benchResult(p *simrt.Proc) int {
	if p == nil || p.Killed() != 0 {
		return 0
	}
	switch p.Code() {
	case 10:
		return 1
	case 20:
		return -1
	}
	return 0
}

func benchError(p *simrt.Proc) string {
	switch {
	case p.Killed() != 0:
		return "signal: " + syscall.Signal(p.Killed()).String()
	case p.Code() != 0:
		return fmt.Sprintf("exit status %d", p.Code())
	}
	return ""
}

func (b *benchW) slack() time.Duration {
	return time.Duration(benchSteps * b.x.Cfg.NsPerStep)
}

// do runs instance i.
func (b *benchW) do(s *bsuite, r *brun, run *bench.Run, i int) bool {
	x := b.x
	t := r.insts[i]
	var ir *bench.InstRun
	var e error
	t.t0 = simrt.Now()
	t.st = 2
	st := simrt.Steps()
	if !b.lib("Do", func() { ir, e = run.Do(i) }) {
		t.fault = true
		return false
	}
	t.t1 = simrt.Now()
	t.fault = b.met
	x.Log("%s/%s: instance %d: %v %v", s.root, r.name, i, e, t.what())
	if b.met {
		x.Hit("do with fault")
	}
	if e != nil {
		if !b.met {
			x.Fail("do", "running instance %d failed: %v", i, e)
		}
	} else {
		t.st = 1
		t.ir = *ir
		b.checkRec(s, r, i, ir, "returned")
		if ir.Run != run {
			x.Fail("record", "the record of instance %d is of another run", i)
		}
	}
	b.checkProc(s, r, i, simrt.Steps()-st)
	return true
}

func (t *btruth) what() string {
	if t.proc == nil {
		return "not started"
	}
	return fmt.Sprintf("ran %s, code %d signal %d, wrote %d %d", time.Duration(t.proc.End-t.proc.Start), t.proc.Code(), t.proc.Killed(), len(t.proc.Wrote[0]), len(t.proc.Wrote[1]))
}

// checkProc checks how instance i was run.
func (b *benchW) checkProc(s *bsuite, r *brun, i int, steps int64) {
	x := b.x
	t := r.insts[i]
	p := t.proc
	if p == nil {
		if !t.fault {
			x.Fail("start", "instance %d was not run", i)
		}
		return
	}
	if !p.Ended() {
		x.Fail("leak", "the command of instance %d still runs", i)
	}
	if !p.Reaped {
		x.Fail("leak", "the command of instance %d was not waited for", i)
	}
	x.NonTrivial = true
	// not killed before its limits and not left running behind them
	born := t.t1.Add(-time.Duration(simrt.NowNs() - p.Start))
	died := t.t1.Add(-time.Duration(simrt.NowNs() - p.End))
	min := t.t0.Add(r.ito)
	if u := r.t0.Add(r.to); u.Before(min) {
		min = u
	}
	max := born.Add(r.ito)
	if u := r.t1.Add(r.to); u.Before(max) {
		max = u
	}
	if max.Before(born) {
		max = born
	}
	own := b.slack() + time.Duration(steps*x.Cfg.NsPerStep)
	if p.Killed() == 9 {
		x.Hit("killed")
		if died.Before(min) {
			x.Fail("limit.early", "instance %d was killed %s before its limit (instance limit %s, run limit %s)", i, min.Sub(died), r.ito, r.to)
		}
	} else {
		x.Hit("ended")
	}
	if died.After(max.Add(own)) {
		x.Fail("limit.late", "the command of instance %d ended %s behind its limit (instance limit %s, run limit %s)", i, died.Sub(max), r.ito, r.to)
	}
	if t.t1.After(max.Add(2 * own)) {
		x.Fail("limit.late", "Do of instance %d returned %s behind its limit", i, t.t1.Sub(max))
	}
}

// checkRec checks the record of an instance which was done: returned or read back.
func (b *benchW) checkRec(s *bsuite, r *brun, i int, ir *bench.InstRun, how string) {
	x := b.x
	t := r.insts[i]
	p := t.proc
	name := fmt.Sprintf("%s record of instance %d (%s)", how, i, t.what())
	if ir.Inst != i {
		x.Fail("record.inst", "%s is of instance %d", name, ir.Inst)
	}
	if p == nil {
		if ir.Result != 0 || ir.Error == "" {
			x.Fail("record.nostart", "%s: result %d error %q though the command was never started", name, ir.Result, ir.Error)
		}
		return
	}
	if ir.Result != benchResult(p) {
		x.Fail("record.result", "%s: result %d instead of %d", name, ir.Result, benchResult(p))
	}
	err := benchError(p)
	if ir.Error != err && !t.fault {
		x.Fail("record.error", "%s: error %q instead of %q", name, ir.Error, err)
	}
	u, sy := p.Times()
	if ir.UDur != u || ir.SDur != sy {
		x.Fail("record.cpu", "%s: processor times %s %s instead of %s %s", name, ir.UDur, ir.SDur, u, sy)
	}
	if life := time.Duration(p.End - p.Start); ir.Dur < life || ir.Dur > t.t1.Sub(t.t0) {
		x.Fail("record.dur", "%s: duration %s, the command ran %s and all of it took %s", name, ir.Dur, life, t.t1.Sub(t.t0))
	}
	if ir.Start.Before(t.t0) || ir.Start.After(t.t1) {
		x.Fail("record.start", "%s: start %s is not between %s and %s", name, ir.Start, t.t0, t.t1)
	}
	if ir.Error == err {
		for k, f := range []string{"out", "err"} {
			d, ok := simrt.FileData(fmt.Sprintf("%s/runs/%s/inst-%d.run/%s", b.abs(s.root), r.name, i, f))
			if !ok || !bytes.Equal(d, p.Wrote[k]) {
				x.Fail("record.output", "%s: file %s exists %v and has %d bytes, the command wrote %d (error recorded: %q)", name, f, ok, len(d), len(p.Wrote[k]), ir.Error)
			}
		}
		if len(p.Wrote[0])+len(p.Wrote[1]) > 0 {
			x.Hit("output")
		}
	}
}

// reopen opens all suites without faults and compares them with the model.
func (b *benchW) reopen() {
	for _, s := range b.suites {
		b.open(s)
	}
}

func (b *benchW) open(s *bsuite) *bench.Suite {
	x := b.x
	met := b.met
	b.disarm()
	b.met = false
	var su *bench.Suite
	var e error
	b.lib("OpenSuite", func() { su, e = bench.OpenSuite(s.root) })
	if e != nil {
		if s.st == 1 {
			x.Fail("open", "suite %s can not be opened: %v", s.root, e)
		}
		x.Hit("partial suite refused")
		b.met = met
		return nil
	}
	if s.st == 2 {
		x.Hit("partial suite whole")
	}
	b.checkSuite(s, su, "opened")
	b.checkRuns(s, su)
	b.met = met
	return su
}

func (b *benchW) checkRuns(s *bsuite, su *bench.Suite) {
	x := b.x
	seen := map[string]bool{}
	for _, run := range su.Runs {
		var r *brun
		for _, r1 := range s.runs {
			if r1.name == run.Name {
				r = r1
			}
		}
		if r == nil || seen[run.Name] {
			x.Fail("runs", "suite %s has a run %s which was never made, removed or met twice", s.root, run.Name)
			return
		}
		seen[run.Name] = true
		if r.t1.IsZero() {
			r.t1 = simrt.Now()
		}
		b.checkRun(s, r, run, "opened")
		if run.Suite != su {
			x.Fail("runs", "run %s of %s is of another suite", r.name, s.root)
		}
		if len(run.InstRuns) != len(s.orgs) {
			x.Fail("record.count", "run %s of %s has %d records for %d instances", r.name, s.root, len(run.InstRuns), len(s.orgs))
		}
		for i, ir := range run.InstRuns {
			if ir == nil || ir.Inst != i || ir.Run != run {
				x.Fail("record.place", "run %s of %s: record %d is of instance %v", r.name, s.root, i, ir)
			}
			b.checkRead(s, r, i, ir)
		}
	}
	for _, r := range s.runs {
		if !seen[r.name] && r.st == 1 {
			x.Fail("runs", "run %s of %s is missing", r.name, s.root)
		}
	}
	if len(su.Runs) > 1 {
		x.Hit("several runs")
		x.NonTrivial = true
	}
}

// checkRead checks a record which was read back.
func (b *benchW) checkRead(s *bsuite, r *brun, i int, ir *bench.InstRun) {
	x := b.x
	t := r.insts[i]
	blank := ir.Result == 0 && ir.Error != "" && ir.Dur == 0 && ir.UDur == 0 && ir.SDur == 0
	switch {
	case t.st == 1 && r.st == 1:
		if ir.Result != t.ir.Result || ir.Dur != t.ir.Dur || ir.UDur != t.ir.UDur || ir.SDur != t.ir.SDur || ir.Error != t.ir.Error || !ir.Start.Equal(t.ir.Start) {
			x.Fail("record.read", "run %s of %s: record %d was %d %s %s %s %q %s and reads back %d %s %s %s %q %s", r.name, s.root, i,
				t.ir.Result, t.ir.Dur, t.ir.UDur, t.ir.SDur, t.ir.Error, t.ir.Start.Format(time.RFC3339Nano), ir.Result, ir.Dur, ir.UDur, ir.SDur, ir.Error, ir.Start.Format(time.RFC3339Nano))
		}
		x.Hit("record read")
	case blank:
		x.Hit("no record")
	case t.st == 0:
		x.Fail("record.invented", "run %s of %s: instance %d was never run, its record is %d %s %q", r.name, s.root, i, ir.Result, ir.Dur, ir.Error)
	default:
		// crashed or failed behind the end of the command, or half removed
		if t.t1.IsZero() {
			t.t1 = simrt.Now()
		}
		if t.proc != nil && !t.proc.Ended() {
			x.Fail("record.invented", "run %s of %s: the command of instance %d had not ended, its record is %d %s %q", r.name, s.root, i, ir.Result, ir.Dur, ir.Error)
		}
		if r.st == 1 {
			b.checkRec(s, r, i, ir, "read back")
		} else if ir.Result != benchResult(t.proc) {
			x.Fail("record.result", "run %s of %s: instance %d has result %d", r.name, s.root, i, ir.Result)
		}
		x.Hit("record read after failure")
	}
}

func bodyC26(x *X) {
	b := newBenchW(x)
	s := b.create(4)
	su := b.open(s)
	for k := 1 + x.W(2); k > 0; k-- {
		r := b.newRun(s, []string{"r", "s.1"}[k-1])
		if x.WP(1, 4) && len(s.runs) == 0 {
			b.cmdRun([]*bsuite{s}, []*brun{r})
			continue
		}
		run := b.start(s, su, r)
		n := len(s.orgs)
		perm := make([]int, n)
		for i := range perm {
			j := x.W(i + 1)
			perm[i] = perm[j]
			perm[j] = i
		}
		for _, i := range perm {
			if x.WP(1, 10) {
				continue
			}
			if x.WP(1, 5) {
				simrt.Sleep(r.ito / 3)
			}
			if x.FP(1, 3) {
				b.arm(70, false)
			}
			b.do(s, r, run, i)
			b.disarm()
			b.met = false
		}
	}
	b.reopen()
}

// cmdRun runs the bench command on suites; records are checked when they are opened.
func (b *benchW) cmdRun(ss []*bsuite, rs []*brun) {
	x := b.x
	r0 := rs[0]
	args := []string{"bench", "run", "-name", r0.name, "-cmd", r0.cmd, "-dur", r0.ito.String(), "-gdur", r0.to.String()}
	for i, s := range ss {
		args = append(args, s.root)
		r := rs[i]
		r.name, r.cmd, r.ito, r.to = r0.name, r0.cmd, r0.ito, r0.to
		s.runs = append(s.runs, r)
		r.t0 = simrt.Now()
		for _, t := range r.insts {
			t.t0, t.st = simrt.Now(), 2
		}
	}
	simrt.ResetCmd("cmd/bench")
	os.Args = args
	ok := b.lib("bench", func() {
		benchmain.Main()
	})
	x.Log("%q: %v %s", args, ok, simrt.Stderr())
	for i, s := range ss {
		r := rs[i]
		r.t1 = simrt.Now()
		all := true
		for j, t := range r.insts {
			t.t1 = simrt.Now()
			t.fault = b.met || !ok
			if !ok || b.met {
				continue
			}
			if t.proc == nil {
				x.Fail("cmd", "bench run did not run instance %d of %s: %s", j, s.root, simrt.Stderr())
				all = false
			}
		}
		if ok && !b.met && all {
			r.st = 1
		}
	}
	x.Hit("bench run")
}

func bodyC27(x *X) {
	b := newBenchW(x)
	var sus = map[*bsuite]*bench.Suite{}
	nr := 0
	steps := 2 + x.W(8)
	for k := 0; k < steps; k++ {
		b.met = false
		b.disarm()
		armed := x.FP(1, 3)
		if len(b.suites) == 0 || len(b.suites) < 2 && x.WP(1, 4) {
			if armed {
				b.arm(60, true)
			}
			b.create(3)
			b.after()
			continue
		}
		s := b.suites[x.W(len(b.suites))]
		if s.st != 1 {
			if len(b.suites) < 3 {
				b.create(3)
			}
			b.after()
			continue
		}
		su := sus[s]
		if su == nil || x.WP(1, 3) {
			su = b.open(s)
			sus[s] = su
		}
		switch x.W(8) {
		case 0, 1, 2:
			nr++
			r := b.newRun(s, b.runName(s, nr))
			if x.WP(1, 4) {
				if armed {
					b.arm(200, true)
				}
				b.cmdRun([]*bsuite{s}, []*brun{r})
				b.after()
				sus = map[*bsuite]*bench.Suite{}
				continue
			}
			if armed && x.FP(1, 3) {
				b.arm(40, true)
			}
			run := b.start(s, su, r)
			if run == nil {
				break
			}
			b.disarm()
			b.met = false
			for i := range s.orgs {
				if armed && x.FP(1, 3) {
					b.arm(70, true)
				}
				if x.WP(1, 8) {
					continue
				}
				if !b.do(s, r, run, i) {
					break
				}
				b.disarm()
				b.met = false
			}
			sus[s] = nil
		case 3:
			if b.remove(s, su, armed) {
				sus[s] = nil
			}
		case 4:
			b.runSelect(s, su)
		case 5:
			b.compare(s)
		case 6:
			b.again(s, su)
			sus[s] = nil
		case 7:
			b.selectFiles(armed)
		}
		b.after()
	}
	b.reopen()
}

func (b *benchW) after() {
	b.disarm()
	b.met = false
	if b.x.WP(1, 2) {
		b.reopen()
	}
}

// runName is a new name for a run of s, which can be close to another one.
func (b *benchW) runName(s *bsuite, nr int) string {
	x := b.x
	n := fmt.Sprintf("r%d", nr)
	if len(s.runs) > 0 && x.W(2) == 1 {
		n = s.runs[x.W(len(s.runs))].name
		switch x.W(5) {
		case 0:
			n += "0"
		case 1:
			n += ".run"
		case 2:
			n = "x" + n
		case 3:
			n = strings.ToUpper(n)
		default:
			n += "-1"
		}
		for i := 0; i < len(s.runs); i++ {
			if s.runs[i].name == n {
				return fmt.Sprintf("r%d", nr)
			}
		}
	}
	return n
}

// remove removes a run of s, by the package or the command.
func (b *benchW) remove(s *bsuite, su *bench.Suite, armed bool) (cmd bool) {
	x := b.x
	name := "none"
	var r *brun
	if len(s.runs) > 0 && x.WP(5, 6) {
		r = s.runs[x.W(len(s.runs))]
		name = r.name
	} else {
		name = []string{"none", "", ".", "..", "../..", "../map", "/work/data"}[x.W(7)]
	}
	before := simrt.FileTree("/")
	was := append([]*bench.Run(nil), su.Runs...)
	if armed {
		b.arm(1, true)
	}
	var e error
	cmd = name != "" && x.WP(1, 4)
	var ok bool
	if cmd {
		simrt.ResetCmd("cmd/bench")
		os.Args = []string{"bench", "run", "-d", name, s.root}
		n := len(simrt.Stderr())
		ok = b.lib("bench", func() { benchmain.Main() })
		if ok {
			if o := string(simrt.Stderr()[n:]); strings.Contains(o, "error removing run") || strings.Contains(o, "cannot open suite") {
				e = errors.New(o)
			}
			x.Hit("bench run -d")
		}
	} else {
		ok = b.lib("RemoveRun", func() { e = su.RemoveRun(name) })
	}
	x.Log("%s: remove %q: %v", s.root, name, e)
	after := simrt.FileTree("/")
	pre := b.abs(s.root) + "/runs/" + name + "/"
	left := map[string]bool{}
	for _, p := range after {
		left[p] = true
	}
	for _, p := range before {
		if !left[p] && (r == nil || !strings.HasPrefix(strings.ReplaceAll(p, "//", "/")+"/", pre)) {
			x.Fail("remove", "removing run %q of %s removed %s", name, s.root, p)
		}
	}
	if !cmd && ok {
		// the suite in memory keeps the other runs and their order
		for i, q := range was {
			if q.Name == name && e == nil {
				was = append(was[:i:i], was[i+1:]...)
				break
			}
		}
		if len(was) != len(su.Runs) {
			x.Fail("remove", "removing run %q of %s (error %v) left %d runs in the suite instead of %d", name, s.root, e, len(su.Runs), len(was))
		}
		for i := range was {
			if i < len(su.Runs) && was[i] != su.Runs[i] {
				x.Fail("remove", "removing run %q of %s put %s in the place of %s", name, s.root, su.Runs[i].Name, was[i].Name)
			}
		}
	}
	if r == nil {
		return cmd
	}
	switch {
	case !ok || e != nil:
		if !b.met {
			x.Fail("remove", "removing run %q of %s failed: %v", name, s.root, e)
		}
		r.st = 2
	default:
		if left[pre[:len(pre)-1]] {
			x.Fail("remove", "run %q of %s was removed and is still there", name, s.root)
		}
		j := 0
		for _, q := range s.runs {
			if q != r {
				s.runs[j] = q
				j++
			}
		}
		s.runs = s.runs[:j]
		for _, q := range su.Runs {
			if q.Name == name && !cmd {
				x.Fail("remove", "run %q of %s was removed and is still in the suite", name, s.root)
			}
		}
	}
	if ok {
		b.disarm()
		b.met = false
	}
	return cmd
}

// runSelect selects runs and compares both suites with the model.
func (b *benchW) runSelect(s *bsuite, su *bench.Suite) {
	x := b.x
	n := len(su.Runs)
	pick := make([]bool, n)
	was := append([]*bench.Run(nil), su.Runs...)
	for i := range pick {
		pick[i] = x.WP(1, 2)
	}
	i := 0
	var sel *bench.Suite
	b.lib("RunSelect", func() {
		sel = su.RunSelect(func(*bench.Run) bool { i++; return i <= n && pick[i-1] })
	})
	if len(su.Runs) != n {
		x.Fail("select", "selecting runs changed the suite from %d to %d runs", n, len(su.Runs))
	}
	j := 0
	for i, r := range was {
		if su.Runs[i] != r || r.Suite != su {
			x.Fail("select", "selecting runs changed run %d of the suite from %s to %s", i, r.Name, su.Runs[i].Name)
		}
		if !pick[i] {
			continue
		}
		if j >= len(sel.Runs) || sel.Runs[j].Name != r.Name || sel.Runs[j].Suite != sel || len(sel.Runs[j].InstRuns) != len(r.InstRuns) {
			x.Fail("select", "run %d (%s) was selected and is not run %d of the result", i, r.Name, j)
		}
		j++
	}
	if j != len(sel.Runs) {
		x.Fail("select", "%d runs were selected, the result has %d", j, len(sel.Runs))
	}
	b.checkSuite(s, sel, "selected")
	x.Hit("runs selected")
}

// again tries to create what exists already.
func (b *benchW) again(s *bsuite, su *bench.Suite) {
	x := b.x
	before := b.dump(b.abs(s.root))
	var e error
	what := ""
	switch k := x.W(3); {
	case k == 0:
		what = "CreateSuite"
		b.lib(what, func() { _, e = bench.CreateSuite(s.root, b.orgs[:1]) })
	case k == 1:
		what = "LinkSuite"
		b.lib(what, func() { _, e = bench.LinkSuite(s.root, b.orgs[:1]) })
	case len(s.runs) > 0 && s.runs[0].st == 1 && x.WP(1, 2):
		what = "Run " + s.runs[0].name
		b.lib(what, func() { _, e = su.Run(s.runs[0].name, "other", time.Second, time.Hour) })
	default:
		n := []string{"", ".", "..", "a/b", "../x", "/x"}[x.W(6)]
		what = "Run " + n
		b.lib(what, func() { _, e = su.Run(n, "other", time.Second, time.Hour) })
	}
	x.Log("%s: again %s: %v", s.root, what, e)
	if e == nil {
		x.Fail("again", "%s in suite %s succeeded, though there is one or the name is wrong", what, s.root)
	}
	if after := b.dump(b.abs(s.root)); after != before {
		x.Fail("again", "%s in suite %s failed and changed the suite", what, s.root)
	}
}

func (b *benchW) dump(root string) string {
	h := sha256.New()
	for _, p := range simrt.FileTree(root) {
		d, _ := simrt.FileData(p)
		fmt.Fprintf(h, "%s %q\n", p, d)
	}
	return hex.EncodeToString(h.Sum(nil))
}

// selectFiles checks MatchSelect.
func (b *benchW) selectFiles(armed bool) {
	x := b.x
	pat := []string{"", "*", "*.cnf", "a*", "*.gz", "nothing"}[x.W(6)]
	n := x.W(12)
	dirs := [][]string{{"/work/data"}, {"data"}, {"/work/data/sub"}, {"/work/data/sub/x", "data/a.cnf"}, {"/none"}, {"data", "/none"}}[x.W(6)]
	if armed {
		b.arm(10, false)
	}
	var got []string
	b.lib("MatchSelect", func() { got = bench.MatchSelect(pat, n, dirs...) })
	want := map[string]bool{}
	for _, d := range dirs {
		for _, p := range simrt.FileTree(d) {
			if _, ok := simrt.FileData(p); ok {
				if m, _ := filepath.Match(pat, filepath.Base(p)); m || pat == "" {
					want[p] = true
				}
			}
		}
	}
	seen := map[string]bool{}
	for _, p := range got {
		if !want[p] || seen[p] {
			x.Fail("files", "MatchSelect(%q, %d, %q) gave %q, which does not match or was there before", pat, n, dirs, p)
		}
		seen[p] = true
	}
	if len(got) > n || !b.met && len(got) < n && len(got) < len(want) {
		x.Fail("files", "MatchSelect(%q, %d, %q) gave %d of %d files", pat, n, dirs, len(got), len(want))
	}
	x.Hit("files selected")
	if b.met || !x.WP(1, 3) {
		return
	}
	// the command
	b.sels++
	root := fmt.Sprintf("sel%d", b.sels)
	link := x.WP(1, 2)
	args := []string{"bench", "sel", "-n", fmt.Sprint(n), "-pattern", pat, "-name", root}
	if link {
		args = append(args, "-link")
	}
	os.Args = append(args, dirs...)
	simrt.ResetCmd("cmd/bench")
	if armed && x.FP(1, 2) {
		b.arm(80, true)
	}
	ok := b.lib("bench", func() { benchmain.Main() })
	met := b.met
	b.disarm()
	b.met = false
	var su *bench.Suite
	var e error
	b.lib("OpenSuite", func() { su, e = bench.OpenSuite(root) })
	x.Log("%q: %v %v", args, ok, e)
	if e != nil {
		if !met {
			x.Fail("cmd", "the suite made by %q can not be opened: %v %s", args, e, simrt.Stderr())
		}
		return
	}
	s := &bsuite{root: root, link: link, st: 1}
	for _, o := range su.Map {
		if !want[o] {
			x.Fail("files", "%q: %q was not to be selected", args, o)
		}
		s.orgs = append(s.orgs, o)
		s.datas = append(s.datas, b.data[b.abs(o)])
	}
	b.checkSuite(s, su, "selected")
	if len(b.suites) < 3 {
		b.suites = append(b.suites, s)
	}
	x.Hit("bench sel")
}

// compare checks the reports.
func (b *benchW) compare(s *bsuite) {
	x := b.x
	su := b.open(s)
	if su == nil {
		return
	}
	var sum, list string
	b.lib("Summary", func() {
		sum = bench.Summary(su)
		list = bench.Listing(su, func(*bench.Run) bool { return true })
	})
	lines := strings.Split(sum, "\n")
	for _, run := range su.Runs {
		var c [3]int
		var real, user, sys float64
		for _, ir := range run.InstRuns {
			c[ir.Result+1]++
			real += ir.Dur.Seconds()
			user += ir.UDur.Seconds()
			sys += ir.SDur.Seconds()
		}
		if bench.SatTotal(run) != c[2] || bench.UnsatTotal(run) != c[0] || bench.UnknownTotal(run) != c[1] || bench.SolveTotal(run) != c[0]+c[2] {
			x.Fail("totals", "run %s has totals %d %d %d", run.Name, bench.SatTotal(run), bench.UnsatTotal(run), bench.UnknownTotal(run))
		}
		r, u, y := bench.Times(run)
		if math.Abs(r-real)+math.Abs(u-user)+math.Abs(y-sys) > 1e-6 {
			x.Fail("times", "run %s has times %f %f %f instead of %f %f %f", run.Name, r, u, y, real, user, sys)
		}
		if n := len(run.InstRuns); n > 0 && bench.SolvePortion(run) != float64(c[0]+c[2])/float64(n) {
			x.Fail("totals", "run %s: portion %f of %d instances with %d solved", run.Name, bench.SolvePortion(run), n, c[0]+c[2])
		}
		if real > 0 && user > 0 && sys > 0 {
			rr, ru, rs := bench.SolveRate(run, time.Second)
			k := float64(c[0] + c[2])
			if math.Abs(rr*real-k)+math.Abs(ru*user-k)+math.Abs(rs*sys-k) > 1e-3 {
				x.Fail("times", "run %s solved %v in %f %f %f and has the rates %f %f %f", run.Name, k, real, user, sys, rr, ru, rs)
			}
		}
		want := strings.Join([]string{run.Name, fmt.Sprint(c[0] + c[2]), fmt.Sprint(c[2]), fmt.Sprint(c[0]), fmt.Sprint(c[1]), fmt.Sprintf("%.2fs", r), fmt.Sprintf("%.2fs", u), fmt.Sprintf("%.2fs", y)}, " ")
		found := false
		for _, l := range lines {
			found = found || strings.Join(strings.Fields(strings.ReplaceAll(l, "|", " ")), "") == strings.ReplaceAll(want, " ", "")
		}
		if !found {
			x.Fail("summary", "no line of the summary has %q:\n%s", want, sum)
		}
	}
	rows := strings.Split(list, "\n")
	for i := range su.Insts {
		if i+1 >= len(rows) {
			x.Fail("listing", "no line for instance %d:\n%s", i, list)
		}
		cs := strings.Split(rows[i+1], "|")
		if len(cs) < 2+len(su.Runs) || strings.TrimSpace(cs[0]) != fmt.Sprint(i) {
			x.Fail("listing", "line %q is not of instance %d", rows[i+1], i)
			return
		}
		if m := su.Map[i]; !strings.HasSuffix(m, strings.TrimSpace(cs[1])) || strings.TrimSpace(cs[1]) == "" {
			x.Fail("listing", "line %q does not name %s", rows[i+1], m)
		}
		for k, run := range su.Runs {
			ir := run.InstRuns[i]
			want := map[int]string{0: "?", 1: "s", -1: "u"}[ir.Result] + " " + fmt.Sprintf("%.2f", ir.Dur.Seconds())
			if got := strings.Join(strings.Fields(cs[2+k]), " "); got != want {
				x.Fail("listing", "instance %d of run %s is listed as %q, the record is %q", i, run.Name, got, want)
			}
		}
	}
	// plots
	filt := map[int]func(*bench.Suite, int) bool{0: nil, 1: func(s *bench.Suite, i int) bool { return i%2 == 0 }, 2: func(*bench.Suite, int) bool { return false }}[x.W(3)]
	b.lib("plots", func() {
		for i, ra := range su.Runs {
			for _, rb := range su.Runs[:i] {
				sc := bench.NewScatter(ra, rb, filt)
				j := 0
				for k := range su.Insts {
					if filt == nil || filt(su, k) {
						if j >= len(sc.Xs) || j >= len(sc.Ys) || sc.Xs[j] != ra.InstRuns[k].Dur || sc.Ys[j] != rb.InstRuns[k].Dur {
							x.Fail("scatter", "point %d is not of instance %d", j, k)
						}
						j++
					}
				}
				if len(sc.Xs) != j || len(sc.Ys) != j {
					x.Fail("scatter", "%d %d points instead of %d", len(sc.Xs), len(sc.Ys), j)
				}
				sc.Utf8(3 + x.W(40))
			}
		}
		ca := bench.NewCactus(su, nil, filt)
		if len(ca.D) != len(su.Runs) {
			x.Fail("cactus", "%d rows for %d runs", len(ca.D), len(su.Runs))
		}
		for i, d := range ca.D {
			var want []int
			for k := range su.Insts {
				if filt == nil || filt(su, k) {
					want = append(want, k)
				}
			}
			irs := su.Runs[i].InstRuns
			for j := 1; j < len(d); j++ {
				if irs[d[j-1]].Dur > irs[d[j]].Dur {
					x.Fail("cactus", "row %d is not sorted", i)
				}
			}
			got := append([]int(nil), d...)
			sort.Ints(got)
			if fmt.Sprint(got) != fmt.Sprint(want) {
				x.Fail("cactus", "row %d has instances %v instead of %v", i, got, want)
			}
		}
		ca.Utf8(3 + x.W(40))
	})
	if x.WP(1, 3) {
		args := []string{"bench", "cmp", "-list", "-cactus", "-scatter"}
		if k := x.W(3); k > 0 {
			args = append(args, []string{"-sat", "-unsat"}[k-1])
		}
		if len(su.Runs) > 0 && x.WP(1, 2) {
			// some runs only
			pat := su.Runs[x.W(len(su.Runs))].Name
			if x.WP(1, 2) {
				pat = "nothing," + pat
			}
			args = append(args, "-runs", pat)
			f := func(r *bench.Run) bool {
				for _, p := range strings.Split(pat, ",") {
					if ok, _ := filepath.Match(p, r.Name); ok {
						return true
					}
				}
				return false
			}
			b.lib("Listing", func() {
				list = bench.Listing(su, f)
			})
			x.Hit("bench cmp -runs")
		}
		simrt.ResetCmd("cmd/bench")
		os.Args = append(args, s.root)
		n := len(simrt.Stdout())
		b.lib("bench", func() { benchmain.Main() })
		if o := string(simrt.Stdout()[n:]); !strings.Contains(o, sum) || !strings.Contains(o, list) {
			x.Fail("cmp", "bench cmp prints something else than the summary and listing:\n%s", firstLine(o, 300))
		}
	}
	x.Hit("compared")
}
