package main

import (
	"fmt"
	"regexp"
	"strings"
	"time"

	"github.com/go-air/gini/internal/simrt"
)

// Violation of a property found in one run.
type Violation struct {
	Class string `json:"class"` // stable identity, used when minimising
	Msg   string `json:"message"`
}

// Prop is a property and the simulation which decides it.
type Prop struct {
	ID       string
	Title    string
	Quick    int // runs
	Thorough int
	Rule     string   // how cases are made and what makes one non-trivial
	Real     []string // components running real code
	Stub     []string // components replaced
	Assume   []string
	// Races: unordered accesses to memory are violations (simulators built with -race only).
	Races bool
	// Setup draws the run's configuration.
	Setup func(x *X)
	// Body is the root task of the run.
	Body func(x *X)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// X is the context of one run.
type X struct {
	P     *Prop
	Cfg   simrt.Config
	Knobs map[string]int64
	Src   *simrt.Source
	Viol  *Violation
	Known []string // known findings met
	// NonTrivial is set by the body when the run reached what the property is about.
	NonTrivial bool
	Summary    []string
	sumLen     int
	pending    []*bound
	durMax     int64 // limits dur()
	netDelay   int64 // see netUp
	feat       map[string]int64
	// PanicOK, if set, decides whether a panic in the code under test is a legal outcome
	PanicOK func(p *simrt.PanicInfo) bool
	caps    bool
	keySum  uint64
	Out     *simrt.Outcome
	mix     []string // C31: the workloads
	Post    func()   // checks after the run, outside of the simulation
}

type bound struct {
	name  string
	class string
	until int64 // statements, of count if set
	count func() int64
	tmax  int64 // simulated ns, 0 none
	done  bool
}

func (x *X) W(n int) int             { return x.Src.Choose(simrt.StWork, n) }
func (x *X) WP(num, den int) bool    { return x.Src.Chance(simrt.StWork, num, den) }
func (x *X) F(n int) int             { return x.Src.Choose(simrt.StFault, n) }
func (x *X) FP(num, den int) bool    { return x.Src.Chance(simrt.StFault, num, den) }
func (x *X) Pick(vs ...int64) int64  { return vs[x.W(len(vs))] }
func (x *X) PickI(vs ...int) int     { return vs[x.W(len(vs))] }
func (x *X) Hit(name string)         { x.feat[name]++ }
func (x *X) HitN(name string, n int) { x.feat[name] += int64(n) }

// Fail reports a violation and ends the run.
func (x *X) Fail(class, f string, a ...any) {
	if x.Viol == nil {
		x.Viol = &Violation{class, fmt.Sprintf(f, a...)}
	}
	if simrt.S != nil {
		simrt.Tracef("VIOLATION %s: %s", class, x.Viol.Msg)
		simrt.Abort("violation")
	}
}

// Log records an operation of the workload in the trace and the summary.
func (x *X) Log(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	simrt.Tracef("%s", s)
	h := x.keySum
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	x.keySum = h
	if x.sumLen < 1500 {
		x.Summary = append(x.Summary, s)
		x.sumLen += len(s) + 2
	}
}

// Bounded runs f, which must return within so many simulated statements (of all tasks).
func (x *X) Bounded(class, name string, steps int64, f func()) {
	x.bounded(class, name, steps, simrt.Steps, nil, f)
}

// Own runs f, in which the current task itself must execute at most so many statements.
func (x *X) Own(class, name string, steps int64, f func()) {
	t := simrt.Cur().StepsRun
	x.bounded(class, name, steps, t, t, f)
}

// Spend runs f, in which the current task and the goroutines which the code under test
// starts in it must execute at most so many statements.
func (x *X) Spend(class, name string, steps int64, f func()) {
	t := simrt.Cur().Spent
	x.bounded(class, name, steps, t, t, f)
}

func (x *X) bounded(class, name string, steps int64, now, count func() int64, f func()) {
	b := &bound{name: name, class: class, until: now() + steps, count: count}
	x.pending = append(x.pending, b)
	f()
	b.done = true
	for i, p := range x.pending {
		if p == b {
			x.pending = append(x.pending[:i:i], x.pending[i+1:]...)
			break
		}
	}
	if u := now(); u > b.until {
		x.Fail(class, "%s returned, but only %d statements after its bound of %d", name, u-b.until, steps)
	}
}

// endless lists the properties whose runs all end well before the step cap: none of them
// solves a hard formula for as long as it takes.
var endless = map[string]bool{"C06": true, "C09": true, "C10": true, "C12": true, "C13": true, "C14": true, "C15": true, "C16": true, "C17": true,
	"C18": true, "C19": true, "C20": true, "C21": true, "C26": true, "C27": true, "C28": true, "C29": true}

// runOnce executes one run of p from src.
func runOnce(p *Prop, src *simrt.Source, trace bool) (*X, *simrt.Outcome) {
	x := &X{P: p, Src: src, Knobs: map[string]int64{}, Cfg: simrt.DefaultConfig(), feat: map[string]int64{}, keySum: 14695981039346656037}
	if p.Setup != nil {
		p.Setup(x)
	} else {
		x.stdSetup()
	}
	x.Cfg.Trace = trace
	o := simrt.Run(x.Cfg, src, x.Knobs, func() { p.Body(x) })
	if x.Viol == nil {
		switch {
		case o.Panic != nil:
			if x.PanicOK == nil || !x.PanicOK(o.Panic) {
				cl := "panic"
				if o.Panic.Exit {
					cl = "exit"
				}
				v := stripPtr(o.Panic.Val)
				x.Viol = &Violation{cl + ":" + firstLine(stripNums(v), 60), fmt.Sprintf("task %s: %s [%s]", o.Panic.Task, firstLine(v, 400), stripPtr(o.Panic.Stack))}
			}
		case o.Stuck:
			name := "the run"
			cl := "hang"
			if len(x.pending) > 0 {
				b := x.pending[0]
				name = b.name
				cl = "hang:" + b.class
			}
			x.Viol = &Violation{cl, fmt.Sprintf("%s is blocked for ever; blocked tasks: %v", name, o.Blocked)}
		case o.Capped:
			x.caps = true
			for _, b := range x.pending {
				if b.count != nil {
					if n := b.count(); n > b.until {
						x.Viol = &Violation{"unbounded:" + b.class, fmt.Sprintf("%s did not return within its bound (run stopped %d statements after it)", b.name, n-b.until)}
						break
					}
					continue
				}
				if late := x.Cfg.MaxSimTime > 0 && o.Now > x.Cfg.MaxSimTime; late {
					x.Viol = &Violation{"unbounded:" + b.class, fmt.Sprintf("%s did not return within %s of simulated time; tasks: %v blocked %v", b.name, time.Duration(o.Now), o.Leaks, o.Blocked)}
					break
				}
				if o.Steps > b.until {
					x.Viol = &Violation{"unbounded:" + b.class, fmt.Sprintf("%s did not return within its bound (run stopped %d statements after it); tasks: %v blocked %v", b.name, o.Steps-b.until, o.Leaks, o.Blocked)}
					break
				}
			}
		}
	}
	if x.Viol == nil && o.Capped && endless[p.ID] && simrt.HasKnob("PropTick") && o.Steps > x.Cfg.MaxSteps {
		x.Viol = &Violation{"endless", fmt.Sprintf("the run did not end within %d statements, many times what any run of this kind needs; tasks: %v blocked %v", x.Cfg.MaxSteps, o.Leaks, o.Blocked)}
	}
	x.Out = o
	if p.Races {
		// the other properties have their own checks
		x.Viol, x.Post, x.caps = nil, nil, false
	}
	if x.Viol == nil && (p.Races || *fRaces) && len(o.Races) > 0 {
		x.Viol = &Violation{o.Races[0].Class, o.Races[0].Msg}
	}
	if x.Viol == nil && x.Post != nil {
		x.Post()
	}
	return x, o
}

var ptrRE = regexp.MustCompile("0x[0-9a-f]+")

// stripPtr removes addresses, the one thing in messages that differs between processes.
func stripPtr(s string) string { return ptrRE.ReplaceAllString(s, "0x?") }

func firstLine(s string, n int) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > n {
		s = s[:n]
	}
	return s
}

func stripNums(s string) string {
	var b strings.Builder
	in := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= '0' && c <= '9' {
			if !in {
				b.WriteByte('#')
			}
			in = true
			continue
		}
		in = false
		b.WriteByte(c)
	}
	return b.String()
}

// stdSetup draws scheduler configuration and tuning knobs, swarm style.
func (x *X) stdSetup() {
	c := &x.Cfg
	c.YieldMean = x.PickI(64, 8, 2, 24, 200, 600)
	c.SwitchPct = x.PickI(20, 5, 50, 90)
	c.Mode = x.PickI(0, 0, 0, 1)
	if c.Mode == 1 {
		c.SwitchPct = x.PickI(20, 60, 200)
	}
	c.NsPerStep = x.Pick(20, 1, 100, 1000)
	c.StallPct = x.PickI(0, 0, 10, 40)
	c.Quantum = x.Pick(20000, 5000, 100000)
	c.NumCPU = x.PickI(4, 1, 2, 8)
	c.MaxSteps = 8000000
	x.solverKnobs()
	x.durMax = x.Pick(0, 300, 1000, 3000, 10000)
}

// longSetup leaves room between what runs need and the step cap.
func longSetup(x *X) {
	x.stdSetup()
	x.Cfg.MaxSteps = 60000000
}

// solverKnobs draws the solver's tuning constants (buggify): every value is legal.
func (x *X) solverKnobs() {
	if x.WP(7, 8) {
		x.Knobs["PropTick"] = x.Pick(1, 5, 20, 100, 1000)
	}
	if x.WP(1, 2) {
		x.Knobs["RestartFactor"] = x.Pick(1, 2, 5, 20)
		x.Knobs["RestartAfter"] = x.Pick(1, 3, 10)
	}
	if x.WP(2, 3) {
		x.Knobs["GcFactor"] = x.Pick(1, 2, 5, 20, 100)
	}
}

// tickSteps is a generous bound on the statements a solve can execute between two
// looks at its control (small instances only).
func (x *X) slack() int64 { return 2000000 }
