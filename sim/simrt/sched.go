package simrt

import (
	"container/heap"
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

// Config of one run; drawn by the harness from the work stream.
type Config struct {
	YieldMean  int   // mean number of statements between preemption checks
	SwitchPct  int   // percent of checks (and sync operations) that preempt
	NsPerStep  int64 // simulated nanoseconds per statement
	MaxSteps   int64 // cap on statements
	MaxSimTime int64 // cap on simulated time (ns), 0: none
	Mode       int   // 0: uniform random, 1: priorities with change points
	StallPct   int   // percent chance that a created task is a slow one
	Quantum    int64 // forced rotation after so many statements
	NumCPU     int
	Trace      bool
}

func DefaultConfig() Config {
	return Config{YieldMean: 64, SwitchPct: 20, NsPerStep: 20, MaxSteps: 20000000, Quantum: 400000, NumCPU: 4}
}

type tstate int8

const (
	tsRunnable tstate = iota
	tsBlocked
	tsDone
)

// Task is a simulated goroutine.
type Task struct {
	ID     int
	Name   string
	Group  int // simulated process
	Harn   bool
	wake   chan struct{}
	state  tstate
	why    string
	killed bool
	held   []any   // what its function refers to
	joins  []*Task // waiting for the end
	prio   int
	slow   bool
	sinceQ int64
	boost  bool // was starving: runs for a while whatever its priority
	Steps  int64
	// rendezvous results
	selFired int
	selVal   any
	selOk    bool
	selDone  bool
	parent   int
	vc       vclock // what happened before the task's next step (race mode)
	acct     *int64 // statements of a harness task and of the library goroutines below it
}

type PanicInfo struct {
	Task  string
	Val   string
	Stack string
	Exit  bool // os.Exit or log.Fatal
	Code  int
}

type TaskInfo struct {
	ID   int
	Name string
	Why  string
	Harn bool
	Grp  int
}

func (t TaskInfo) String() string { return fmt.Sprintf("%s#%d[%s]", t.Name, t.ID, t.Why) }

// Outcome of a run.
type Outcome struct {
	Panic    *PanicInfo
	Stuck    bool // root blocked and nothing can ever happen
	Capped   bool // MaxSteps or MaxSimTime exceeded
	Leaks    []TaskInfo
	Blocked  []TaskInfo
	Steps    int64
	Now      int64
	Switches int64
	Tasks    int
	Hash     uint64
	Counts   map[string]int64
	Trace    []string
	Races    []Race
}

type timer struct {
	at     int64
	seq    int64
	fn     func()
	idx    int
	stoped bool
}

type timerHeap []*timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || h[i].at == h[j].at && h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x any)   { t := x.(*timer); t.idx = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() any {
	o := *h
	n := len(o)
	t := o[n-1]
	*h = o[:n-1]
	t.idx = -1
	return t
}

// Sim is one simulated execution.
type Sim struct {
	id       int64
	cfg      Config
	Src      *Source
	now      int64
	seq      int64
	timers   timerHeap
	runq     []*Task
	cur      *Task
	root     *Task
	tasks    map[int]*Task
	nTasks   int
	quiesce  []*Task
	chans    map[uintptr]*chanState
	ending   bool
	endCh    chan struct{}
	exited   chan struct{}
	out      *Outcome
	interval int
	hash     uint64
	counts   map[string]int64
	net      *simNet
	fs       *simFS
	knobs    map[string]int64
	EventSeq int64
	stdout   []byte
	onOut    func(string)
	onExit   func(int)
	locals   map[string]any
	notify   []notifyReg
	// NoPreempt >0 suspends preemption (harness atomic sections)
	noPreempt int
}

// S is the current simulation (nil outside of a run).
var S *Sim

// Ycnt is the statement countdown until the next preemption check.
var Ycnt int = 1 << 30

var simIDs int64

const maxInterval = 2048

// Y is inserted by the instrumenter at statements.
func Y() {
	Ycnt--
	if Ycnt < 0 {
		yieldSlow()
	}
}

type killT struct{}
type exitT struct {
	code int
	msg  string
}

// Run executes root in a fresh simulation.
func Run(cfg Config, src *Source, knobs map[string]int64, root func()) *Outcome {
	simIDs++
	s := &Sim{id: simIDs, cfg: cfg, Src: src,
		tasks:  make(map[int]*Task),
		chans:  make(map[uintptr]*chanState),
		endCh:  make(chan struct{}, 1),
		exited: make(chan struct{}, 1),
		hash:   14695981039346656037,
		counts: make(map[string]int64),
		fs:     newFS(),
		knobs:  knobs,
		locals: make(map[string]any),
		out:    &Outcome{}}
	s.net = newSimNet(s)
	S = s
	raceStart()
	s.newInterval()
	t := s.newTask("root", func() {
		resetLibs()
		root()
	})
	t.Harn = true
	s.root = t
	s.runq = s.runq[:0]
	s.cur = t
	t.wake <- struct{}{}
	<-s.endCh
	// wind down
	s.ending = true
	var ids []int
	for id := range s.tasks {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		t := s.tasks[id]
		if t == nil || t.state == tsDone {
			continue
		}
		t.killed = true
		s.cur = t
		t.wake <- struct{}{}
		<-s.exited
	}
	o := s.out
	o.Now = s.now
	o.Hash = s.hash
	o.Counts = s.counts
	o.Tasks = s.nTasks
	S = nil
	Ycnt = 1 << 30
	return o
}

func (s *Sim) newTask(name string, f func()) *Task {
	t := &Task{ID: s.nTasks, Name: name, wake: make(chan struct{}, 1), state: tsRunnable, selFired: -1}
	s.nTasks++
	if s.cur != nil {
		t.Group = s.cur.Group
		t.parent = s.cur.ID
		t.acct = s.cur.acct
	} else {
		t.acct = new(int64)
	}
	s.tasks[t.ID] = t
	s.runq = append(s.runq, t)
	if s.cur != nil {
		raceFork(t, raceSnapshot())
	} else {
		raceFork(t, nil)
	}
	if s.cfg.Mode == 1 {
		t.prio = s.Src.Choose(StSched, 1000)
	}
	if s.cfg.StallPct > 0 && s.Src.Chance(StSched, s.cfg.StallPct, 100) {
		t.slow = true
		s.counts["sched.slow_task"]++
	}
	go func() {
		<-t.wake
		defer s.taskEnd(t)
		if t.killed {
			return
		}
		f()
	}()
	return t
}

// taskEnd runs as the outermost deferred function of every task.
func (s *Sim) taskEnd(t *Task) {
	r := recover()
	t.state = tsDone
	delete(s.tasks, t.ID)
	if t.killed {
		s.exited <- struct{}{}
		return
	}
	for _, j := range t.joins {
		s.ready(j)
	}
	t.joins = nil
	if r != nil {
		pi := &PanicInfo{Task: t.Name}
		if ex, ok := r.(exitT); ok {
			pi.Exit, pi.Code, pi.Val = true, ex.code, fmt.Sprintf("exit(%d): %s", ex.code, ex.msg)
		} else {
			pi.Val = fmt.Sprint(r)
			pi.Stack = trimStack(string(debug.Stack()))
		}
		s.out.Panic = pi
		s.finish("panic: " + pi.Val)
		return
	}
	if t == s.root {
		s.finish("root returned")
		return
	}
	s.tracef("end %s", t.Name)
	s.dispatch()
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for _, l := range lines {
		if strings.HasPrefix(l, "\t") {
			if i := strings.Index(l, " +0x"); i >= 0 {
				l = l[:i]
			}
			if j := strings.Index(l, "/src/"); j >= 0 && !strings.Contains(l, "simrt") {
				l = "\t" + l[j+5:]
			}
		} else if i := strings.LastIndex(l, "("); i > 0 {
			l = l[:i]
		}
		if strings.Contains(l, "simrt") || strings.Contains(l, "runtime/") || strings.HasPrefix(l, "goroutine") || strings.HasPrefix(l, "runtime") || strings.HasPrefix(l, "panic") {
			continue
		}
		out = append(out, strings.TrimSpace(l))
		if len(out) > 16 {
			break
		}
	}
	return strings.Join(out, " | ")
}

// finish ends the run; the calling goroutine must park or exit afterwards.
func (s *Sim) finish(why string) {
	s.tracef("finish: %s", why)
	var ids []int
	for id := range s.tasks {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		t := s.tasks[id]
		ti := TaskInfo{t.ID, t.Name, t.why, t.Harn, t.Group}
		if t.state == tsRunnable {
			ti.Why = "runnable"
		}
		if t != s.root {
			s.out.Leaks = append(s.out.Leaks, ti)
		}
		if t.state == tsBlocked {
			s.out.Blocked = append(s.out.Blocked, ti)
		}
	}
	s.ending = true
	s.endCh <- struct{}{}
}

func (s *Sim) newInterval() {
	m := s.cfg.YieldMean
	if m <= 0 {
		m = 64
	}
	v := s.Src.Choose(StSched, 2*m)
	if v == 0 {
		v = maxInterval
	}
	s.interval = v
	Ycnt = v
}

func (s *Sim) account() {
	el := int64(s.interval - Ycnt)
	if el < 0 {
		el = 0
	}
	s.out.Steps += el
	s.cur.Steps += el
	*s.cur.acct += el
	s.cur.sinceQ += el
	s.now += el * s.cfg.NsPerStep
	s.interval = Ycnt
}

func yieldSlow() {
	s := S
	if s == nil {
		Ycnt = 1 << 30
		return
	}
	if s.ending {
		Ycnt = 1 << 30
		runtime.Goexit()
	}
	s.account()
	s.newInterval()
	if s.noPreempt > 0 {
		return
	}
	if s.capped() {
		s.parkEnd()
	}
	s.fireTimers()
	s.maybeSwitch(true)
}

func (s *Sim) capped() bool {
	if s.out.Steps > s.cfg.MaxSteps || s.cfg.MaxSimTime > 0 && s.now > s.cfg.MaxSimTime {
		s.out.Capped = true
		s.finish("step or time cap")
		return true
	}
	return false
}

// parkEnd parks the current task for good after finish was called.
func (s *Sim) parkEnd() {
	t := s.cur
	<-t.wake
	runtime.Goexit()
}

// maybeSwitch is a preemption opportunity.
func (s *Sim) maybeSwitch(tick bool) {
	if len(s.runq) == 0 || s.noPreempt > 0 {
		return
	}
	t := s.cur
	sw := false
	if t.sinceQ > s.cfg.Quantum {
		sw = true
	} else if s.cfg.Mode == 1 {
		// priorities with occasional demotion
		if s.Src.Chance(StSched, s.cfg.SwitchPct, 1000) {
			t.prio = s.Src.Choose(StSched, 1000)
		}
		if !t.boost || t.sinceQ > s.cfg.Quantum/2 {
			for _, o := range s.runq {
				if o.prio > t.prio {
					sw = true
					break
				}
			}
		}
	} else {
		p := s.cfg.SwitchPct
		if t.slow {
			p = 90
		}
		sw = s.Src.Chance(StSched, p, 100)
	}
	if sw {
		s.runq = append(s.runq, t)
		s.switchOut()
	}
}

func (s *Sim) pick() *Task {
	n := len(s.runq)
	if n == 0 {
		return nil
	}
	i := 0
	force := s.runq[0].sinceWait(s) // oldest starving
	if !force {
		if s.cfg.Mode == 1 {
			best := -1
			for k, o := range s.runq {
				if best < 0 || o.prio > s.runq[best].prio {
					best = k
				}
			}
			i = best
		} else {
			i = s.Src.Choose(StSched, n)
			if s.runq[i].slow && n > 1 && s.Src.Chance(StSched, 80, 100) {
				i = s.Src.Choose(StSched, n)
			}
		}
	}
	t := s.runq[i]
	t.boost = force
	copy(s.runq[i:], s.runq[i+1:])
	s.runq = s.runq[:n-1]
	return t
}

// sinceWait implements fairness: a runnable task which has waited for more than
// 4 quanta of global steps goes first.
func (t *Task) sinceWait(s *Sim) bool {
	if t.sinceQ >= 0 {
		t.sinceQ = -s.out.Steps - 1
	}
	return s.out.Steps+t.sinceQ+1 > 4*s.cfg.Quantum
}

// switchOut gives up the processor; the task must already be queued somewhere.
func (s *Sim) switchOut() {
	t := s.cur
	s.dispatch()
	<-t.wake
	if t.killed {
		runtime.Goexit()
	}
}

func (s *Sim) hashIn(x uint64) {
	s.hash = (s.hash ^ x) * 1099511628211
}

// dispatch chooses the next task to run and hands over to it.
func (s *Sim) dispatch() {
	for {
		s.fireTimers()
		if t := s.pick(); t != nil {
			t.sinceQ = 0
			if t != s.cur {
				s.out.Switches++
				s.hashIn(uint64(t.ID)*7919 + 13)
			}
			s.cur = t
			t.wake <- struct{}{}
			return
		}
		if len(s.quiesce) > 0 {
			t := s.quiesce[0]
			s.quiesce = s.quiesce[1:]
			s.ready(t)
			continue
		}
		if len(s.timers) > 0 {
			if at := s.timers[0].at; at > s.now {
				s.now = at
			}
			if s.cfg.MaxSimTime > 0 && s.now > s.cfg.MaxSimTime {
				s.out.Capped = true
				s.finish("simulated time cap")
				return
			}
			continue
		}
		s.out.Stuck = true
		s.finish("stuck: every task blocked")
		return
	}
}

func (s *Sim) ready(t *Task) {
	if t.state != tsBlocked {
		return
	}
	t.state = tsRunnable
	t.sinceQ = 0
	s.runq = append(s.runq, t)
}

// block parks the current task until ready(t) is called for it.
func (s *Sim) block(why string) {
	t := s.cur
	s.account()
	t.state = tsBlocked
	t.why = why
	s.hashIn(uint64(t.ID)*104729 + uint64(len(why)))
	s.switchOut()
	t.why = ""
}

// point is a scheduling point at a synchronisation operation.
func point() {
	s := S
	if s == nil {
		return
	}
	if s.ending {
		runtime.Goexit()
	}
	s.account()
	s.newInterval()
	if s.noPreempt > 0 {
		return
	}
	if s.capped() {
		s.parkEnd()
	}
	s.fireTimers()
	s.maybeSwitch(false)
}

func (s *Sim) fireTimers() {
	for len(s.timers) > 0 && s.timers[0].at <= s.now {
		t := heap.Pop(&s.timers).(*timer)
		rs.timer = true
		t.fn()
		rs.timer = false
	}
}

func (s *Sim) addTimer(d int64, fn func()) *timer {
	if d < 0 {
		d = 0
	}
	s.seq++
	t := &timer{at: s.now + d, seq: s.seq, fn: fn}
	if t.at < 0 { // overflow
		t.at = 1<<63 - 1
	}
	heap.Push(&s.timers, t)
	return t
}

func (s *Sim) delTimer(t *timer) bool {
	if t == nil || t.idx < 0 {
		return false
	}
	heap.Remove(&s.timers, t.idx)
	t.idx = -1
	return true
}

func (s *Sim) tracef(f string, a ...any) {
	if !s.cfg.Trace {
		return
	}
	who := "-"
	if s.cur != nil {
		who = fmt.Sprintf("%s#%d", s.cur.Name, s.cur.ID)
	}
	if len(s.out.Trace) < 200000 {
		s.out.Trace = append(s.out.Trace, fmt.Sprintf("t=%dns step=%d %s: %s", s.now, s.out.Steps, who, fmt.Sprintf(f, a...)))
	}
}

// ---- API used by instrumented code and by the harness ----

// Go starts a simulated goroutine.
func Go(f func()) { GoNamed("go", f) }

func callerName() string {
	pc := make([]uintptr, 6)
	n := runtime.Callers(3, pc)
	fr := runtime.CallersFrames(pc[:n])
	for {
		f, more := fr.Next()
		if f.Function != "" && !strings.Contains(f.Function, "simrt.") {
			i := strings.LastIndex(f.Function, "/")
			return f.Function[i+1:]
		}
		if !more {
			return "go"
		}
	}
}

// GoNamed starts a simulated goroutine with a name.
//
// held is what the function refers to.
func GoNamed(name string, f func(), held ...any) *Task {
	s := S
	if s == nil {
		panic("simrt: go statement outside of a simulation")
	}
	if s.ending {
		runtime.Goexit()
	}
	if name == "go" {
		name = callerName()
	}
	t := s.newTask(name, f)
	t.held = held
	s.tracef("spawn %s#%d", name, t.ID)
	point()
	return t
}

// GoHarness starts a harness task.
func GoHarness(name string, f func()) *Task {
	s := S
	t := s.newTask(name, f)
	t.Harn = true
	t.acct = new(int64)
	return t
}

// GoTask is GoHarness.
func GoTask(name string, f func()) *Task { return GoHarness(name, f) }

// Join blocks until t has ended.
func (t *Task) Join() {
	for t.state != tsDone {
		t.joins = append(t.joins, S.cur)
		S.block("join " + t.Name)
	}
	acquire(t.vc)
}

// SetGroup puts the current task (and its later children) in process group g.
func SetGroup(g int) { S.cur.Group = g }

// Group returns the current task's process group.
func Group() int { return S.cur.Group }

func (t *Task) Done() bool      { return t.state == tsDone }
func (t *Task) Blocked() string { return t.why }

// Alive lists tasks for which f is true.
func Alive(f func(TaskInfo) bool) []TaskInfo {
	r, _ := alive(f)
	return r
}

// Held returns what the functions of running goroutines of the code under test refer to.
func Held() []any {
	_, h := alive(func(t TaskInfo) bool { return !t.Harn })
	return h
}

func alive(f func(TaskInfo) bool) ([]TaskInfo, []any) {
	var ids []int
	for id := range S.tasks {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var r []TaskInfo
	var held []any
	for _, id := range ids {
		t := S.tasks[id]
		ti := TaskInfo{t.ID, t.Name, t.why, t.Harn, t.Group}
		if t.state == tsRunnable {
			ti.Why = "runnable"
		}
		if t == S.cur {
			ti.Why = "running"
		}
		if f(ti) {
			r = append(r, ti)
			held = append(held, t.held...)
		}
	}
	return r, held
}

// Quiesce blocks until no other task can run without time passing.
func Quiesce() {
	s := S
	if len(s.runq) == 0 {
		s.account()
		s.fireTimers()
		if len(s.runq) == 0 {
			return
		}
	}
	s.quiesce = append(s.quiesce, s.cur)
	s.block("quiesce")
}

// Tracef records an event in the trace (when tracing).
func Tracef(f string, a ...any) {
	if S != nil {
		S.tracef(f, a...)
	}
}

// Count increments a named counter.
func Count(name string) {
	if S != nil {
		S.counts[name]++
	}
}

// NowNs is the simulated time since the start of the run.
func NowNs() int64 { S.account(); return S.now }

// Steps is the number of statements executed so far.
func Steps() int64 { S.account(); return S.out.Steps }

// TaskSteps is the number of statements executed so far by task t.
func (t *Task) StepsRun() int64 {
	if S != nil {
		S.account()
	}
	return t.Steps
}

// Spent counts the statements of t, if a harness task, and of all goroutines below it which
// the code under test started.
func (t *Task) Spent() int64 {
	if S != nil {
		S.account()
	}
	return *t.acct
}

// Cur is the current task.
func Cur() *Task { return S.cur }

// Atomic runs f without preemption.
func Atomic(f func()) {
	S.noPreempt++
	defer func() { S.noPreempt-- }()
	f()
}

// Locals gives per-run storage.
func Locals() map[string]any { return S.locals }

// Choose draws from the current run's source.
func Choose(st Stream, n int) int { return S.Src.Choose(st, n) }

// Chance draws a biased coin.
func Chance(st Stream, num, den int) bool { return S.Src.Chance(st, num, den) }

// Abort ends the run from the current task.
func Abort(why string) {
	s := S
	if s.ending {
		runtime.Goexit()
	}
	s.account()
	s.finish(why)
	s.parkEnd()
}

// Trace tells whether the run is traced.
func Tracing() bool { return S != nil && S.cfg.Trace }

// Rest lets other tasks run: the current task goes to the back of the queue.
func Rest() { Gosched() }

// Yield is an explicit scheduling point.
func Yield() { point() }

var knobsPresent = map[string]bool{}

// KnobsPresent is called by instrumented packages with the constants which became knobs.
func KnobsPresent(names ...string) {
	for _, n := range names {
		knobsPresent[n] = true
	}
}

// HasKnob tells whether the code under test was found to use the constant name.
func HasKnob(name string) bool { return knobsPresent[name] }

// Knob returns a tuning constant, possibly overridden for this run.
func Knob(name string, def int64) int64 {
	if S == nil || S.knobs == nil {
		return def
	}
	if v, ok := S.knobs[name]; ok {
		return v
	}
	return def
}
