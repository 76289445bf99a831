package simrt

import (
	"bytes"
	"context"
	"errors"
	"io"
	"os"
	"runtime"
	"strings"
	"syscall"
	"time"
)

// Proc is a simulated child process. The function given to SetExec is its program, run
// as a task of its own.
type Proc struct {
	Pid    int
	Args   []string
	Dir    string
	Env    []string
	Stdin  io.Reader
	Stdout io.Writer // where the program writes
	Stderr io.Writer
	Reaped bool

	Wrote [2][]byte // what the program wrote to its output and error output

	task   *Task
	alive  bool
	code   int
	sig    bool // ended by a signal
	signum int
	kill   int // the signal which ends it
	// Ignores tells whether it ignores signals which can be ignored.
	Ignores bool
	utime   time.Duration
	stime   time.Duration
	waits   []*Task
	sleeps  []*Task
	Start   int64
	End     int64
}

type procEnd struct{ code, sig int }

// SetExec sets the program which every child process runs; it returns the exit code.
// Starting "missing" commands fails when lookup says so.
func SetExec(f func(p *Proc) int) { S.fs.exec = f }

// Procs are the child processes so far.
func Procs() []*Proc { return S.fs.procs }

// Alive tells whether the process runs.
func (p *Proc) Alive() bool { return p.alive }

// Killed is the signal which ended it, or 0.
func (p *Proc) Killed() int { return p.signum }

// Ended tells whether the program ended.
func (p *Proc) Ended() bool { return !p.alive }

// Code is the exit code, after the end.
func (p *Proc) Code() int { return p.code }

// Exit ends the program.
func (p *Proc) Exit(code int) { panic(procEnd{code: code}) }

// Crash ends the program by a signal.
func (p *Proc) Crash(sig int) { panic(procEnd{sig: sig}) }

// Sleep lets the program do nothing for d.
func (p *Proc) Sleep(d time.Duration) {
	end := S.now + int64(d)
	p.check()
	for S.now < end {
		t := S.cur
		tm := S.addTimer(end-S.now, func() {
			if t.state == tsBlocked {
				S.ready(t)
			}
		})
		p.sleeps = append(p.sleeps, t)
		S.block("program sleeps")
		S.delTimer(tm)
		p.sleeps = nil
		p.check()
	}
}

// Cpu accounts processor time.
func (p *Proc) Cpu(u, s time.Duration) { p.utime += u; p.stime += s }

func (p *Proc) Times() (u, s time.Duration) { return p.utime, p.stime }

func (p *Proc) check() {
	endingCheck()
	if p.kill != 0 {
		panic(procEnd{sig: p.kill})
	}
}

// pipe is a pipe with a reader in this process.
type pipe struct {
	buf     []byte
	cap     int
	wclosed bool
	rclosed bool
	readers []*Task
	writers []*Task
	name    string
}

func (p *pipe) Read(b []byte) (int, error) {
	point()
	for {
		if p.rclosed {
			return 0, perr("read", p.name, os.ErrClosed)
		}
		if len(b) == 0 {
			return 0, nil
		}
		if len(p.buf) > 0 {
			n := copy(b, p.buf)
			p.buf = p.buf[n:]
			wakeAll(&p.writers)
			return n, nil
		}
		if p.wclosed {
			return 0, io.EOF
		}
		p.readers = append(p.readers, S.cur)
		S.block("read pipe")
		endingCheck()
	}
}

func (p *pipe) Close() error {
	point()
	if p.rclosed {
		return perr("close", p.name, os.ErrClosed)
	}
	p.closeRead()
	return nil
}

func (p *pipe) closeRead() {
	p.rclosed = true
	wakeAll(&p.readers)
	wakeAll(&p.writers)
}

// procOut is a program's end of a pipe.
type procOut struct {
	p  *Proc
	pi *pipe
	i  int
}

// Close closes the program's end.
func (o *procOut) Close() error {
	o.pi.wclosed = true
	wakeAll(&o.pi.readers)
	return nil
}

func (o *procOut) Write(b []byte) (int, error) {
	n := 0
	for {
		o.p.check()
		if o.pi.rclosed {
			panic(procEnd{sig: 13}) // SIGPIPE
		}
		k := o.pi.cap - len(o.pi.buf)
		if k > len(b) {
			k = len(b)
		}
		if k > 0 {
			o.pi.buf = append(o.pi.buf, b[:k]...)
			o.p.Wrote[o.i] = append(o.p.Wrote[o.i], b[:k]...)
			b = b[k:]
			n += k
			wakeAll(&o.pi.readers)
		}
		if len(b) == 0 {
			point()
			return n, nil
		}
		o.pi.writers = append(o.pi.writers, S.cur)
		o.p.sleeps = append(o.p.sleeps, S.cur)
		S.block("program writes pipe")
		o.p.sleeps = nil
		for i, t := range o.pi.writers {
			if t == S.cur {
				o.pi.writers = append(o.pi.writers[:i:i], o.pi.writers[i+1:]...)
				break
			}
		}
	}
}

// Process stands for os.Process.
type Process struct {
	Pid int
	p   *Proc
}

func (p *Process) Kill() error { return p.Signal(os.Kill) }

func (p *Process) Signal(sg os.Signal) error {
	point()
	q := p.p
	if q.Reaped {
		return os.ErrProcessDone
	}
	if !q.alive {
		return nil
	}
	S.counts["proc.killed"]++
	S.tracef("kill %d %s", q.Pid, sg)
	n := 9
	if g, ok := sg.(syscall.Signal); ok {
		n = int(g)
	}
	if n == 0 {
		return nil
	}
	if n != 9 && q.Ignores {
		S.counts["proc.ignored signal"]++
		return nil
	}
	q.kill = n
	for _, t := range q.sleeps {
		if t.state == tsBlocked {
			S.ready(t)
		}
	}
	q.sleeps = nil
	return nil
}

func (p *Process) Release() error { return nil }

func (p *Process) Wait() (*ProcessState, error) {
	p.p.wait()
	return &ProcessState{p.p}, nil
}

func (p *Proc) wait() {
	point()
	for p.alive {
		p.waits = append(p.waits, S.cur)
		S.block("wait process")
		endingCheck()
	}
	p.Reaped = true
}

// ProcessState stands for os.ProcessState.
type ProcessState struct{ p *Proc }

func (s *ProcessState) UserTime() time.Duration   { return s.p.utime }
func (s *ProcessState) SystemTime() time.Duration { return s.p.stime }
func (s *ProcessState) Exited() bool              { return !s.p.sig }
func (s *ProcessState) Success() bool             { return !s.p.sig && s.p.code == 0 }
func (s *ProcessState) Pid() int                  { return s.p.Pid }
func (s *ProcessState) ExitCode() int {
	if s.p.sig {
		return -1
	}
	return s.p.code
}
func (s *ProcessState) Sys() any {
	if s.p.sig {
		return syscall.WaitStatus(s.p.signum)
	}
	return syscall.WaitStatus(s.p.code << 8)
}
func (s *ProcessState) SysUsage() any { return nil }
func (s *ProcessState) String() string {
	if s.p.sig {
		return "signal: " + syscall.Signal(s.p.signum).String()
	}
	return "exit status " + itoa(s.p.code)
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

// ExitError stands for exec.ExitError.
type ExitError struct {
	*ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

// Cmd stands for exec.Cmd.
type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	SysProcAttr  *syscall.SysProcAttr
	Process      *Process
	ProcessState *ProcessState
	Err          error
	Cancel       func() error
	WaitDelay    time.Duration

	ctx     context.Context
	pipes   []*pipe
	outP    *pipe
	errP    *pipe
	copiers []*Task
	done    bool
}

func Command(name string, args ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, args...)}
}

func CommandContext(ctx context.Context, name string, args ...string) *Cmd {
	c := Command(name, args...)
	c.ctx = ctx
	return c
}

func (c *Cmd) String() string { return strings.Join(c.Args, " ") }

func (c *Cmd) mkpipe(name string) (*pipe, error) {
	point()
	if e := S.fs.try("pipe", name); e != nil {
		return nil, os.NewSyscallError("pipe2", e)
	}
	p := &pipe{cap: 64 + 512*S.Src.Choose(StFault, 3), name: "|0"}
	c.pipes = append(c.pipes, p)
	return p, nil
}

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	if c.Stdout != nil || c.outP != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	p, e := c.mkpipe("stdout")
	if e != nil {
		return nil, e
	}
	c.outP = p
	return p, nil
}

func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	if c.Stderr != nil || c.errP != nil {
		return nil, errors.New("exec: Stderr already set")
	}
	p, e := c.mkpipe("stderr")
	if e != nil {
		return nil, e
	}
	c.errP = p
	return p, nil
}

func (c *Cmd) Environ() []string {
	if c.Env == nil {
		return Environ()
	}
	return c.Env
}

func (c *Cmd) Start() error {
	point()
	if c.Process != nil {
		return errors.New("exec: already started")
	}
	fail := func(e error) error {
		for _, p := range c.pipes {
			p.closeRead()
		}
		return e
	}
	if e := S.fs.try("exec", c.Path); e != nil {
		return fail(perr("fork/exec", c.Path, e))
	}
	if c.ctx != nil && c.ctx.Err() != nil {
		return fail(c.ctx.Err())
	}
	if S.fs.exec == nil || c.Path == "" {
		return fail(perr("fork/exec", c.Path, syscall.ENOENT))
	}
	dir := c.Dir
	if dir == "" {
		dir = S.fs.cwd
	}
	p := &Proc{Pid: 100 + len(S.fs.procs), Args: c.Args, Dir: S.fs.abs(dir), Env: c.Environ(), Stdin: c.Stdin, alive: true, Start: S.now}
	S.fs.procs = append(S.fs.procs, p)
	c.Process = &Process{Pid: p.Pid, p: p}
	dev := func(i int, w io.Writer, pi *pipe) (io.Writer, *pipe) {
		switch {
		case pi != nil:
		case w == nil:
			return io.Discard, nil
		default:
			pi = &pipe{cap: 1 << 16, name: "|0"}
			q := pi
			c.copiers = append(c.copiers, GoNamed("exec.copy", func() { io.Copy(w, q) }))
		}
		return &procOut{p, pi, i}, pi
	}
	var po, pe *pipe
	p.Stdout, po = dev(0, c.Stdout, c.outP)
	p.Stderr, pe = dev(1, c.Stderr, c.errP)
	ends := []*pipe{po, pe}
	run := S.fs.exec
	p.task = GoHarness("program", func() {
		func() {
			defer func() {
				if r := recover(); r != nil {
					e, ok := r.(procEnd)
					if !ok {
						panic(r)
					}
					p.code, p.signum, p.sig = e.code, e.sig, e.sig != 0
				}
			}()
			p.code = run(p)
		}()
		p.alive = false
		S.account()
		p.End = S.now
		S.tracef("process %d ends: code %d signal %d", p.Pid, p.code, p.signum)
		for _, e := range ends {
			if e != nil {
				e.wclosed = true
				wakeAll(&e.readers)
			}
		}
		wakeAll(&p.waits)
	})
	if c.ctx != nil {
		GoNamed("exec.ctx", func() {
			st := stateOf(c.ctx.Done())
			for p.alive && !st.closed {
				Sleep(time.Microsecond * 50)
			}
			if p.alive {
				if c.Cancel != nil {
					c.Cancel()
				} else {
					c.Process.Kill()
				}
			}
		})
	}
	return nil
}

func (c *Cmd) Wait() error {
	if c.Process == nil {
		return errors.New("exec: not started")
	}
	if c.done {
		return errors.New("exec: Wait was already called")
	}
	c.done = true
	p := c.Process.p
	p.wait()
	for _, t := range c.copiers {
		t.Join()
	}
	for _, q := range c.pipes {
		q.closeRead()
	}
	c.ProcessState = &ProcessState{p}
	if c.ctx != nil && c.ctx.Err() != nil && p.sig {
		return c.ctx.Err()
	}
	if !c.ProcessState.Success() {
		return &ExitError{ProcessState: c.ProcessState}
	}
	return nil
}

func (c *Cmd) Run() error {
	if e := c.Start(); e != nil {
		return e
	}
	return c.Wait()
}

func (c *Cmd) Output() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout = &b
	e := c.Run()
	return b.Bytes(), e
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	e := c.Run()
	return b.Bytes(), e
}

// LookPath stands for exec.LookPath.
func LookPath(f string) (string, error) { return f, nil }

var _ = runtime.Goexit
