package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"sort"

	"github.com/go-air/gini/internal/simrt"
)

// selftest compares the oracle with enumeration, and every simulation's trace between
// two processes with different scheduling by the Go runtime.
func selftest() int {
	x := &X{Src: simrt.NewSource(uint64(*fSeed)+77, false), feat: map[string]int64{}}
	n1, n2 := 0, 0
	for i := 0; i < 4000; i++ {
		f := x.smallCNF(9)
		if x.W(3) == 0 {
			f = x.threshold(4 + x.W(8))
		}
		as := x.pickAssumps(f.N, 3)
		n := f.N
		for _, a := range as {
			if iabs(a) > n {
				n = iabs(a)
			}
		}
		a, b := oracle(f.Cls, as), brute(f.Cls, n, as)
		if a != b {
			fmt.Printf("oracle says %d, enumeration %d: %v under %v\n", a, b, f.Cls, as)
			return 1
		}
		if a == 1 {
			n1++
		} else {
			n2++
		}
	}
	fmt.Printf("oracle agrees with enumeration on %d satisfiable and %d unsatisfiable instances\n", n1, n2)
	var ids []string
	for id, p := range props {
		if p.Races != simrt.RaceMode {
			continue // it needs the other build
		}
		ids = append(ids, id)
	}
	sort.Strings(ids)
	exe, _ := os.Executable()
	bad := 0
	for _, id := range ids {
		var outs [2][]byte
		for k := range outs {
			c := exec.Command(exe, "-prop", id, "-hashes", "40", "-seed", fmt.Sprint(*fSeed), "-procs", fmt.Sprint(1+7*k), "-verif", *fVerif)
			c.Env = append(os.Environ(), fmt.Sprintf("GOGC=%d", 30+400*k))
			o, err := c.Output()
			if err != nil {
				fmt.Printf("%s: %v\n", id, err)
			}
			outs[k] = o
		}
		if !bytes.Equal(outs[0], outs[1]) {
			fmt.Printf("%s: the same seeds give different traces in two processes\n", id)
			bad++
		}
	}
	fmt.Printf("%d simulations compared between processes, %d differ\n", len(ids), bad)
	if bad > 0 {
		return 1
	}
	return 0
}
