package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"github.com/go-air/gini/internal/simrt"
)

type recs = [simrt.NStreams][]uint32

func (v *wViol) fatal() bool { return strings.HasPrefix(v.V.Class, "fatal:") }

// report has the violation minimised and its replay file written by another process: a
// candidate may end the process. If so the run is reported as it was found.
func report(p *Prop, v wViol) string {
	exe, _ := os.Executable()
	for _, secs := range []int{*fShrink, 0} {
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+120)*time.Second)
		cmd := exec.CommandContext(ctx, exe, "-prop", p.ID, "-seed", fmt.Sprint(*fSeed), "-verif", *fVerif, "-tier", *fTier,
			"-shrink", fmt.Sprint(secs), "-report", fmt.Sprint(v.Index), "-class", v.V.Class, "-message", v.V.Msg)
		var errb tailBuf
		cmd.Stderr = &errb
		out, err := cmd.Output()
		cancel()
		for _, l := range strings.Split(string(out), "\n") {
			if strings.HasPrefix(l, "PATH=") {
				return l[5:]
			}
		}
		fmt.Fprintf(os.Stderr, "minimising run %d: %v %s\n", v.Index, err, firstFatal(string(errb.b)))
	}
	return ""
}

// reportHere minimises the violation, writes the replay file and replays it in a fresh process.
func reportHere(p *Prop, v wViol) string {
	old := runtime.GOMAXPROCS(1)
	defer runtime.GOMAXPROCS(old)
	dir := filepath.Join(*fVerif, "replays")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", p.ID, *fSeed, v.Index))
	rf := &ReplayFile{Property: p.ID, Class: v.V.Class, Message: v.V.Msg, Seed: *fSeed, Index: v.Index}
	if v.fatal() {
		rf.Fatal = true
		save(path, rf)
		return path
	}
	src := simrt.NewSource(runSeed(*fSeed, p.ID, v.Index), true)
	x, _ := runOnce(p, src, false)
	if x.Viol == nil || x.Viol.Class != v.V.Class {
		return ""
	}
	orig := src.Records()
	best := shrink(p, orig, v.V.Class, time.Duration(*fShrink)*time.Second)
	fill := func(r recs) *ReplayFile {
		s2 := simrt.NewReplay(r)
		x, o := runOnce(p, s2, true)
		if x.Viol == nil || x.Viol.Class != v.V.Class {
			return nil
		}
		rf.Message = x.Viol.Msg
		rf.Choices = r
		for i := range r {
			rf.Original[i] = len(orig[i])
			rf.Minimal[i] = len(r[i])
		}
		rf.Knobs = x.Knobs
		rf.Config = x.Cfg
		rf.Trace = o.Trace
		if len(rf.Trace) > 4000 {
			rf.Trace = rf.Trace[len(rf.Trace)-4000:]
		}
		rf.Hash = fmt.Sprintf("%x", o.Hash)
		return rf
	}
	if fill(best) == nil {
		if fill(orig) == nil {
			return ""
		}
	}
	save(path, rf)
	exe, _ := os.Executable()
	out, _ := exec.Command(exe, "-replay", path, "-verif", *fVerif).CombinedOutput()
	if !strings.Contains(string(out), "reproduced exactly") {
		fmt.Fprintf(os.Stderr, "replay in a fresh process differs: %s\n", out)
		return ""
	}
	return path
}

func save(path string, rf *ReplayFile) {
	b, _ := json.Marshal(rf)
	var pretty []byte
	pretty = append(pretty, b...)
	os.WriteFile(path, append(pretty, '\n'), 0644)
}

func replay(path string) int {
	runtime.GOMAXPROCS(1)
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rf := &ReplayFile{}
	if err := json.Unmarshal(b, rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[rf.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", rf.Property)
		return 2
	}
	if rf.Fatal {
		return replayFatal(path, rf)
	}
	x, o := runOnce(p, simrt.NewReplay(rf.Choices), true)
	if *fTrace {
		for _, l := range o.Trace {
			fmt.Println(l)
		}
	}
	if x.Viol == nil {
		fmt.Printf("no violation on replay\n")
		return 0
	}
	fmt.Printf("violation: %s: %s\n", x.Viol.Class, x.Viol.Msg)
	if fmt.Sprintf("%x", o.Hash) == rf.Hash && x.Viol.Class == rf.Class && x.Viol.Msg == rf.Message {
		fmt.Println("reproduced exactly")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	return 1
}

// replayFatal runs, in another process, a run that ends its process or never ends.
func replayFatal(path string, rf *ReplayFile) int {
	exe, _ := os.Executable()
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, exe, "-prop", rf.Property, "-seed", fmt.Sprint(rf.Seed), "-one", fmt.Sprint(rf.Index), "-verif", *fVerif)
	var errb tailBuf
	cmd.Stderr = &errb
	err := cmd.Run()
	got := ""
	switch {
	case ctx.Err() != nil:
		got = "fatal:stuck"
	case err != nil && cmd.ProcessState != nil && cmd.ProcessState.ExitCode() != 1:
		got = "fatal:" + stripNums(firstLine(fmt.Sprintf("%v: %s", err, firstFatal(string(errb.b))), 120))
	}
	if got == "" {
		fmt.Printf("no violation on replay\n")
		return 0
	}
	fmt.Printf("violation: %s: %s\n", got, firstFatal(string(errb.b)))
	if got == rf.Class {
		fmt.Println("reproduced exactly")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	return 1
}

// shrink minimises the choice lists while the violation class stays the same.
func shrink(p *Prop, r recs, class string, budget time.Duration) recs {
	end := time.Now().Add(budget)
	tries := 0
	test := func(c recs) bool {
		tries++
		x, _ := runOnce(p, simrt.NewReplay(c), false)
		return x.Viol != nil && x.Viol.Class == class
	}
	clone := func(c recs) recs {
		for i := range c {
			c[i] = append([]uint32(nil), c[i]...)
		}
		return c
	}
	trim := func(c recs) recs {
		for i := range c {
			n := len(c[i])
			for n > 0 && c[i][n-1] == 0 {
				n--
			}
			c[i] = c[i][:n]
		}
		return c
	}
	best := trim(clone(r))
	if !test(best) {
		return r
	}
	left := func() bool { return time.Now().Before(end) }
	size := func(c recs) (n int) {
		for i := range c {
			n += len(c[i])
		}
		return
	}
	for round := 0; round < 6 && left(); round++ {
		before := fmt.Sprint(size(best), sum(best))
		// 1. truncate streams
		for _, s := range []simrt.Stream{simrt.StSched, simrt.StNet, simrt.StMisc, simrt.StFault, simrt.StWork} {
			for cut := len(best[s]); cut > 0 && left(); cut /= 2 {
				for len(best[s]) >= cut && left() {
					c := clone(best)
					c[s] = c[s][:len(c[s])-cut]
					if !test(c) {
						break
					}
					best = trim(c)
				}
			}
		}
		// 2. delete and zero chunks
		for _, s := range []simrt.Stream{simrt.StWork, simrt.StFault, simrt.StSched, simrt.StNet, simrt.StMisc} {
			for ch := len(best[s]) / 2; ch > 0 && left(); ch /= 2 {
				if len(best[s])/ch > 400 {
					break
				}
				for pos := 0; pos+ch <= len(best[s]) && left(); {
					c := clone(best)
					c[s] = append(c[s][:pos:pos], c[s][pos+ch:]...)
					if test(c) {
						best = trim(c)
						continue
					}
					z := false
					for _, v := range best[s][pos : pos+ch] {
						if v != 0 {
							z = true
						}
					}
					if z {
						c = clone(best)
						for k := pos; k < pos+ch; k++ {
							c[s][k] = 0
						}
						if test(c) {
							best = trim(c)
						}
					}
					pos += ch
				}
			}
		}
		// 3. lower values
		for _, s := range []simrt.Stream{simrt.StWork, simrt.StFault, simrt.StNet, simrt.StSched} {
			if len(best[s]) > 600 {
				continue
			}
			for k := 0; k < len(best[s]) && left(); k++ {
				for left() && k < len(best[s]) && best[s][k] > 0 {
					c := clone(best)
					c[s][k] /= 2
					if test(c) {
						best = trim(c)
						continue
					}
					c = clone(best)
					c[s][k]--
					if test(c) {
						best = trim(c)
						continue
					}
					break
				}
			}
		}
		if fmt.Sprint(size(best), sum(best)) == before {
			break
		}
	}
	return best
}

func sum(c recs) (n uint64) {
	for i := range c {
		for _, v := range c[i] {
			n += uint64(v)
		}
	}
	return
}
