package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/go-air/gini/internal/simrt"
)

var (
	flags   = flag.NewFlagSet("sim", flag.ExitOnError) // the commands under test have their own
	fProp   = flags.String("prop", "", "property")
	fTier   = flags.String("tier", "quick", "quick or thorough")
	fSeed   = flags.Int64("seed", 1, "VERIF_SEED")
	fWorker = flags.String("worker", "", "internal: FROM/STEP/COUNT/WALLSECONDS")
	fReplay = flags.String("replay", "", "replay file")
	fOne    = flags.Int64("one", -1, "run a single index")
	fTrace  = flags.Bool("trace", false, "with -one or -replay: print the trace")
	fHash   = flags.Int("hashes", 0, "print the outcome hash of the first N runs (determinism check)")
	fRuns   = flags.Int("runs", 0, "override the number of runs")
	fJobs   = flags.Int("jobs", 8, "worker processes")
	fWall   = flags.Int("wall", 0, "override wall seconds")
	fVerif  = flags.String("verif", "/verif", "verif directory")
	fShrink = flags.Int("shrink", 30, "seconds for minimisation")
	fSelf   = flags.Bool("selftest", false, "check the oracle and the determinism of every simulation")
	fRaces  = flags.Bool("races", false, "data races violate every property (with instr -race)")
	fProcs  = flags.Int("procs", 1, "GOMAXPROCS for -hashes")
	fReport = flags.Int64("report", -1, "internal: write the replay file of a run")
	fClass  = flags.String("class", "", "internal: with -report")
	fMsg    = flags.String("message", "", "internal: with -report")
	fAll    = flags.Bool("keepgoing", false, "worker: report every violation class once")
)

func runSeed(seed int64, prop string, idx int64) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range fmt.Sprintf("%d/%s/%d", seed, prop, idx) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

// ReplayFile is what a violation is reported with.
type ReplayFile struct {
	Property string                     `json:"property"`
	Class    string                     `json:"class"`
	Message  string                     `json:"message"`
	Seed     int64                      `json:"verif_seed"`
	Index    int64                      `json:"run_index"`
	Fatal    bool                       `json:"fatal,omitempty"` // the process dies: replay by seed
	Choices  [simrt.NStreams][]uint32   `json:"choices"`
	Original [simrt.NStreams]int        `json:"original_choices"`
	Minimal  [simrt.NStreams]int        `json:"minimised_choices"`
	Knobs    map[string]int64           `json:"knobs"`
	Config   any                        `json:"config"`
	Trace    []string                   `json:"trace"`
	Hash     string                     `json:"hash"`
	Extra    map[string]json.RawMessage `json:"extra,omitempty"`
}

type workerResult struct {
	Runs     int64
	Steps    int64
	SimNs    int64
	Switches int64
	Tasks    int64
	NonTriv  int64
	Capped   int64
	Hashes   []uint64 // distinct interleaving hashes of non-trivial runs
	Cases    []uint64
	Counts   map[string]int64
	Feat     map[string]int64
	Known    map[string]int64
	Samples  []string
	Choices  [simrt.NStreams]int64
	Viols    []wViol
	Next     int64
	Done     bool
}

type wViol struct {
	Index int64
	V     Violation
}

func main() {
	flags.Parse(os.Args[1:])
	log.SetOutput(io.Discard)
	debug.SetGCPercent(200)
	if simrt.RaceMode {
		debug.SetGCPercent(-1) // see simrt/race.go
	}
	debug.SetMaxStack(256 << 20)
	if *fWorker != "" {
		worker()
		return
	}
	if *fReplay != "" {
		os.Exit(replay(*fReplay))
	}
	if *fSelf {
		os.Exit(selftest())
	}
	p := props[*fProp]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *fProp)
		os.Exit(2)
	}
	if p.Races && !simrt.RaceMode {
		fmt.Fprintf(os.Stderr, "%s needs a simulator instrumented with -race\n", p.ID)
		os.Exit(2)
	}
	if *fHash > 0 {
		runtime.GOMAXPROCS(*fProcs)
		for i := 0; i < *fHash; i++ {
			x, o := runOnce(p, simrt.NewSource(runSeed(*fSeed, p.ID, int64(i)), false), true)
			h := uint64(14695981039346656037)
			for _, l := range o.Trace {
				for k := 0; k < len(l); k++ {
					h = (h ^ uint64(l[k])) * 1099511628211
				}
			}
			v := ""
			if x.Viol != nil {
				v = x.Viol.Class
			}
			fmt.Printf("%d %x %x %d %d %d %x %s\n", i, o.Hash, h, len(o.Trace), o.Steps, o.Now, x.keySum, v)
		}
		return
	}
	if *fReport >= 0 {
		path := reportHere(p, wViol{*fReport, Violation{*fClass, *fMsg}})
		if path == "" {
			os.Exit(2)
		}
		fmt.Println("PATH=" + path)
		return
	}
	if *fOne >= 0 {
		src := simrt.NewSource(runSeed(*fSeed, p.ID, *fOne), true)
		x, o := runOnce(p, src, *fTrace)
		if *fTrace {
			for _, l := range o.Trace {
				fmt.Println(l)
			}
		}
		fmt.Printf("viol=%v steps=%d now=%d switches=%d capped=%v choices=%v feat=%v knobs=%v\n", x.Viol, o.Steps, o.Now, o.Switches, o.Capped, src.NumChoices(), x.feat, x.Knobs)
		return
	}
	os.Exit(coordinate(p))
}

func worker() {
	runtime.GOMAXPROCS(1)
	var from, step, count, wall int64
	fmt.Sscanf(*fWorker, "%d/%d/%d/%d", &from, &step, &count, &wall)
	p := props[*fProp]
	start := time.Now()
	r := &workerResult{Counts: map[string]int64{}, Feat: map[string]int64{}, Known: map[string]int64{}}
	hs := map[uint64]bool{}
	cs := map[uint64]bool{}
	classes := map[string]bool{}
	prog := os.NewFile(3, "progress")
	i := from
	for ; i < count; i += step {
		if time.Since(start) > time.Duration(wall)*time.Second {
			break
		}
		if prog != nil {
			fmt.Fprintf(prog, "%d\n", i)
		}
		src := simrt.NewSource(runSeed(*fSeed, p.ID, i), false)
		x, o := runOnce(p, src, false)
		r.Runs++
		r.Steps += o.Steps
		r.SimNs += o.Now
		r.Switches += o.Switches
		r.Tasks += int64(o.Tasks)
		if o.Capped {
			r.Capped++
		}
		for k, v := range o.Counts {
			r.Counts[k] += v
		}
		for k, v := range x.feat {
			r.Feat[k] += v
		}
		for _, k := range x.Known {
			r.Known[k]++
		}
		for s, n := range src.NumChoices() {
			r.Choices[s] += int64(n)
		}
		if x.NonTrivial && x.Viol == nil {
			r.NonTriv++
			hs[o.Hash] = true
			cs[x.keySum^o.Hash*31] = true
		}
		if len(r.Samples) < 2 && x.NonTrivial {
			r.Samples = append(r.Samples, fmt.Sprintf("run %d knobs=%v: %s", i, x.Knobs, strings.Join(x.Summary, "; ")))
		}
		if x.Viol != nil {
			if !classes[x.Viol.Class] {
				classes[x.Viol.Class] = true
				r.Viols = append(r.Viols, wViol{i, *x.Viol})
			}
			if !*fAll {
				break
			}
		}
	}
	r.Done = i >= count
	r.Next = i
	for h := range hs {
		r.Hashes = append(r.Hashes, h)
	}
	for h := range cs {
		r.Cases = append(r.Cases, h)
	}
	json.NewEncoder(os.Stdout).Encode(r)
}

type wstat struct {
	res   *workerResult
	last  int64
	died  bool
	stuck bool
	msg   string
}

func spawn(prop string, from, step, count int64, wall int) *wstat {
	st := &wstat{last: -1}
	exe, _ := os.Executable()
	args := []string{"-prop", prop, "-seed", fmt.Sprint(*fSeed), "-verif", *fVerif, "-worker", fmt.Sprintf("%d/%d/%d/%d", from, step, count, wall)}
	if *fAll {
		args = append(args, "-keepgoing")
	}
	if *fRaces {
		args = append(args, "-races")
	}
	cmd := exec.Command(exe, args...)
	pr, pw, err := os.Pipe()
	if err != nil {
		st.died, st.msg = true, err.Error()
		return st
	}
	cmd.ExtraFiles = []*os.File{pw}
	var errb tailBuf
	cmd.Stderr = &errb
	out, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		st.died, st.msg = true, err.Error()
		return st
	}
	pw.Close()
	beat := make(chan int64, 1024)
	go func() {
		sc := bufio.NewScanner(pr)
		for sc.Scan() {
			var v int64
			fmt.Sscan(sc.Text(), &v)
			beat <- v
		}
		close(beat)
	}()
	resc := make(chan *workerResult, 1)
	go func() {
		r := &workerResult{}
		if json.NewDecoder(out).Decode(r) == nil {
			resc <- r
		} else {
			resc <- nil
		}
	}()
	const patience = 120 * time.Second
	tm := time.NewTimer(patience)
loop:
	for {
		select {
		case v, ok := <-beat:
			if !ok {
				break loop
			}
			st.last = v
			tm.Reset(patience)
		case <-tm.C:
			st.stuck = true
			cmd.Process.Kill()
		}
	}
	st.res = <-resc
	if err := cmd.Wait(); err != nil || st.res == nil {
		st.died = true
		st.msg = fmt.Sprintf("%v: %s", err, firstFatal(string(errb.b)))
	}
	return st
}

type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	if len(t.b) < 1<<20 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func firstFatal(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal error") || strings.HasPrefix(l, "panic") || strings.Contains(l, "exceeds") {
			return firstLine(l, 200)
		}
	}
	return firstLine(s, 200)
}

func coordinate(p *Prop) int {
	start := time.Now()
	runs := p.Quick
	wall := 55
	if *fTier == "thorough" {
		runs = p.Thorough
		wall = 780
	}
	if *fRuns > 0 {
		runs = *fRuns
	}
	if *fWall > 0 {
		wall = *fWall
	}
	known := loadKnown(p.ID)
	n := *fJobs
	sts := make([]*wstat, n)
	done := make(chan int, n)
	for w := 0; w < n; w++ {
		w := w
		go func() {
			sts[w] = spawn(p.ID, int64(w), int64(n), int64(runs), wall)
			done <- w
		}()
	}
	for range sts {
		<-done
	}
	tot := &workerResult{Counts: map[string]int64{}, Feat: map[string]int64{}, Known: map[string]int64{}}
	hs := map[uint64]bool{}
	cs := map[uint64]bool{}
	var viols []wViol
	complete := true
	failed := false
	retried := 0
	for _, s := range sts {
		if s.died || s.res == nil {
			// a run that kills the process or never ends: confirm it alone in a fresh process
			complete = false
			if s.last < 0 {
				fmt.Fprintf(os.Stderr, "worker failed: %s\n", s.msg)
				failed = true
				continue
			}
			if retried++; retried > 2 {
				continue
			}
			again := spawn(p.ID, s.last, 1, s.last+1, 60)
			switch {
			case again.stuck:
				viols = append(viols, wViol{s.last, Violation{"fatal:stuck", "the run neither ends nor comes to the next statement in 120 s of real time"}})
			case again.died:
				viols = append(viols, wViol{s.last, Violation{"fatal:" + stripNums(firstLine(again.msg, 120)), "the process is ended by the Go runtime: " + again.msg}})
			default:
				fmt.Fprintf(os.Stderr, "worker died at run %d (%s) but the run alone does not\n", s.last, s.msg)
				failed = true
			}
			continue
		}
		r := s.res
		tot.Runs += r.Runs
		tot.Steps += r.Steps
		tot.SimNs += r.SimNs
		tot.Switches += r.Switches
		tot.Tasks += r.Tasks
		tot.NonTriv += r.NonTriv
		tot.Capped += r.Capped
		if !r.Done {
			complete = false
		}
		for k, v := range r.Counts {
			tot.Counts[k] += v
		}
		for k, v := range r.Feat {
			tot.Feat[k] += v
		}
		for k, v := range r.Known {
			tot.Known[k] += v
		}
		for i := range r.Choices {
			tot.Choices[i] += r.Choices[i]
		}
		for _, h := range r.Hashes {
			hs[h] = true
		}
		for _, h := range r.Cases {
			cs[h] = true
		}
		if len(tot.Samples) < 4 {
			tot.Samples = append(tot.Samples, r.Samples...)
		}
		viols = append(viols, r.Viols...)
	}
	sort.Slice(viols, func(i, j int) bool { return viols[i].Index < viols[j].Index })
	searchWall := time.Since(start).Seconds()
	code := 0
	nv := 0
	seen := map[string]bool{}
	for _, v := range viols {
		if seen[v.V.Class] {
			continue
		}
		seen[v.V.Class] = true
		path := report(p, v)
		if path == "" {
			fmt.Fprintf(os.Stderr, "violation %v at run %d did not reproduce\n", v.V, v.Index)
			code = 2
			continue
		}
		nv++
		fmt.Printf("violation: %s: %s\n", v.V.Class, v.V.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		if code == 0 {
			code = 1
		}
		if !*fAll {
			break
		}
	}
	if nv > 0 {
		code = 1
	}
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
	}
	writeEvidence(p, tot, len(hs), len(cs), nv, complete, searchWall, time.Since(start).Seconds())
	fmt.Printf("%s %s: %d runs (%d non-trivial, %d distinct interleavings, %d capped), %d switches, %.1fs simulated, %.1fs wall, violations %d\n",
		p.ID, *fTier, tot.Runs, tot.NonTriv, len(hs), tot.Capped, tot.Switches, float64(tot.SimNs)/1e9, time.Since(start).Seconds(), nv)
	if failed && code == 0 {
		return 2
	}
	if tot.Runs > 0 && tot.NonTriv == 0 && code == 0 {
		fmt.Fprintln(os.Stderr, "no run was non-trivial: the check decided nothing")
		return 2
	}
	return code
}

var knownCache = map[string][]string{}

// known tells whether a finding is listed for the property, and counts it.
func (x *X) known(text string) bool {
	ls, ok := knownCache[x.P.ID]
	if !ok {
		ls = loadKnown(x.P.ID)
		knownCache[x.P.ID] = ls
	}
	for _, l := range ls {
		if l == text {
			x.Known = append(x.Known, text)
			return true
		}
	}
	return false
}

func loadKnown(prop string) []string {
	b, err := os.ReadFile(filepath.Join(*fVerif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var r []string
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "finding: property="+prop+" ") {
			r = append(r, strings.TrimPrefix(l, "finding: property="+prop+" "))
		}
	}
	return r
}

func writeEvidence(p *Prop, t *workerResult, inter, cases, nv int, complete bool, search, wall float64) {
	faults := map[string]int64{}
	sched := map[string]int64{}
	for k, v := range t.Counts {
		if strings.HasPrefix(k, "fault.") {
			faults[k[6:]] = v
		} else {
			sched[k] = v
		}
	}
	for k, v := range t.Feat {
		if strings.HasPrefix(k, "fault.") {
			faults[k[6:]] += v
		}
	}
	probes := map[string]int64{}
	for k, v := range t.Feat {
		if !strings.HasPrefix(k, "fault.") {
			probes[k] = v
		}
	}
	sm := []any{}
	for _, s := range t.Samples {
		sm = append(sm, s)
	}
	choices := map[string]int64{}
	for i, n := range simrt.StreamNames {
		choices[n] = t.Choices[i]
	}
	ev := map[string]any{
		"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": t.Runs, "distinct_nontrivial": cases, "rule": p.Rule + " Distinct: workload log and scheduling hash together differ from every other counted run.",
			"samples": sm, "distinct_interleavings": inter, "interleaving_measure": "hash over the sequence of (task switched to), blocking operations and channel transfers of a run",
			"nontrivial_runs": t.NonTriv, "runs_reaching_step_cap": t.Capped, "runs_per_hour": int64(float64(t.Runs) / search * 3600),
			"simulated_seconds": float64(t.SimNs) / 1e9, "statements": t.Steps, "task_switches": t.Switches, "tasks": t.Tasks,
			"faults_injected": faults, "scheduler_counts": sched, "probes": probes, "choices_drawn": choices,
			"components_real": p.Real, "components_stubbed": p.Stub, "all_planned_runs_done": complete, "known_findings_met": t.Known,
			"jobs": *fJobs,
		},
		"assumptions": p.Assume, "wall_s": wall, "violations": nv,
	}
	dir := filepath.Join(*fVerif, "evidence")
	os.MkdirAll(dir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0644)
}
