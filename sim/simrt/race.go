package simrt

import (
	"fmt"
	"runtime"
	"strings"
	"unsafe"
)

// Data race detection. In a simulator built with instr -race every access of the code
// under test to memory which several goroutines could reach comes here. Each task has a
// vector clock, which the simulated primitives join as the Go memory model says; two
// accesses to the same bytes, one of them a store, which the clocks do not order are a
// race, whichever of them the seeded schedule ran first.

// RaceMode tells whether the simulator was built with instr -race.
var RaceMode bool

type siteBlock struct {
	base int
	locs []string
}

var siteBlocks []siteBlock

// RaceSites is called by instrumented packages.
func RaceSites(base int, locs string) {
	RaceMode = true
	siteBlocks = append(siteBlocks, siteBlock{base, strings.Split(locs, "\n")})
}

func siteName(i int32) (loc, fn string) {
	for _, b := range siteBlocks {
		if k := int(i) - b.base; k >= 0 && k < len(b.locs) {
			s := b.locs[k]
			if j := strings.IndexByte(s, ' '); j >= 0 {
				return s[:j], s[j+1:]
			}
			return s, s
		}
	}
	return "?", "?"
}

type vclock []uint32

func (v *vclock) join(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, c := range o {
		if c > (*v)[i] {
			(*v)[i] = c
		}
	}
}

func (v vclock) at(i int32) uint32 {
	if int(i) < len(v) {
		return v[i]
	}
	return 0
}

type raceEntry struct {
	task, site int32
	clk        uint32
	mask       uint8
	write      bool
	atomic     bool
}

type raceCell struct {
	key  uintptr
	gen  uint32
	e    []raceEntry
	arr0 [2]raceEntry
}

// Race is two accesses which nothing orders.
type Race struct {
	Class, Msg string
}

type raceState struct {
	tab     []raceCell
	n       int
	gen     uint32
	seen    map[[2]int32]bool
	atoms   map[uintptr]*vclock
	timer   bool // in a timer's function: no goroutine of the program does this
	names   []string
	counter int
	off     int
}

var rs raceState

const raceHeap = 700 << 20

func raceStart() {
	if !RaceMode {
		return
	}
	raceClear()
	rs.seen = map[[2]int32]bool{}
	rs.atoms = map[uintptr]*vclock{}
	rs.names = rs.names[:0]
	rs.timer = false
	rs.off = 0
	rs.counter = 0
	raceMem()
}

func raceClear() {
	rs.gen++
	rs.n = 0
	if rs.tab == nil || rs.gen == 0 {
		rs.tab = make([]raceCell, 1<<16)
		rs.gen = 1
	}
}

// raceMem collects garbage, which is otherwise off: memory must not be used again while
// accesses to what was there before are remembered.
func raceMem() {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if m.HeapAlloc > raceHeap {
		if len(rs.tab) > 1<<20 {
			rs.tab = nil
		}
		raceClear()
		for i := range rs.tab {
			rs.tab[i] = raceCell{}
		}
		runtime.GC()
		if S != nil {
			S.counts["race.forgot"]++
		}
	}
}

func (t *Task) tick() {
	for len(t.vc) <= t.ID {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.ID]++
}

// raceFork gives a new task what its parent knows.
func raceFork(t *Task, parent vclock) {
	if !RaceMode {
		return
	}
	t.vc.join(parent)
	t.tick()
	for len(rs.names) <= t.ID {
		rs.names = append(rs.names, "")
	}
	rs.names[t.ID] = t.Name
}

func hbOff() bool { return !RaceMode || S == nil || S.cur == nil || rs.timer || S.ending }

// acquire: what was released into v happened before what the task does next.
func acquire(v vclock) {
	if hbOff() {
		return
	}
	S.cur.vc.join(v)
}

func release(v *vclock) {
	if hbOff() {
		return
	}
	v.join(S.cur.vc)
	S.cur.tick()
}

func acqRel(v *vclock) { acqRelT(v, nil) }

// acqRelT is for an operation which t completes (nil: the current task).
func acqRelT(v *vclock, t *Task) {
	if hbOff() {
		return
	}
	if t == nil {
		t = S.cur
	}
	t.vc.join(*v)
	v.join(t.vc)
	t.tick()
}

// rendezvous orders both tasks before each other.
func rendezvous(o *Task) {
	if hbOff() {
		return
	}
	t := S.cur
	t.vc.join(o.vc)
	o.vc.join(t.vc)
	t.tick()
	o.tick()
}

func raceSnapshot() vclock {
	if hbOff() {
		return nil
	}
	v := append(vclock(nil), S.cur.vc...)
	S.cur.tick()
	return v
}

// RaceOff suspends the detection in the current task's harness code.
func RaceOff(f func()) {
	rs.off++
	defer func() { rs.off-- }()
	f()
}

// RaceSync makes everything all tasks did so far happen before what the current task
// does next (the harness looks at everything at the end of a run).
func RaceSync() {
	if hbOff() {
		return
	}
	for _, t := range S.tasks {
		S.cur.vc.join(t.vc)
		if t != S.cur {
			t.tick()
		}
	}
}

func (s *raceState) cell(k uintptr) *raceCell {
	if s.n*4 > len(s.tab)*3 {
		s.grow()
	}
	m := uintptr(len(s.tab) - 1)
	i := (k * 0x9E3779B97F4A7C15 >> 20) & m
	for {
		c := &s.tab[i]
		if c.gen != s.gen {
			c.key, c.gen, c.e = k, s.gen, c.arr0[:0]
			s.n++
			return c
		}
		if c.key == k {
			return c
		}
		i = (i + 1) & m
	}
}

func (s *raceState) grow() {
	old := s.tab
	s.tab = make([]raceCell, 2*len(old))
	m := uintptr(len(s.tab) - 1)
	for j := range old {
		o := &old[j]
		if o.gen != s.gen {
			continue
		}
		i := (o.key * 0x9E3779B97F4A7C15 >> 20) & m
		for s.tab[i].gen == s.gen {
			i = (i + 1) & m
		}
		c := &s.tab[i]
		c.key, c.gen = o.key, o.gen
		if len(o.e) <= len(c.arr0) {
			c.e = append(c.arr0[:0], o.e...)
		} else {
			c.e = o.e
		}
	}
}

func raceAcc(p unsafe.Pointer, size uintptr, write bool, site int) {
	raceAccA(p, size, write, false, site)
}

func raceAccA(p unsafe.Pointer, size uintptr, write, atomic bool, site int) {
	s := S
	if s == nil || s.ending || rs.off > 0 || s.cur == nil {
		return
	}
	a := uintptr(p)
	if a < 4096 || size == 0 {
		return
	}
	if raceSink != nil {
		raceSink = p
	}
	rs.counter++
	if rs.counter&(1<<19-1) == 0 {
		raceMem()
	}
	t := s.cur
	me := int32(t.ID)
	now := t.vc.at(me)
	end := a + size
	for k := a >> 3; k <= (end-1)>>3; k++ {
		mask := uint8(0xff)
		if lo := k << 3; lo < a {
			mask &= 0xff << (a - lo)
		}
		if hi := (k + 1) << 3; hi > end {
			mask &= 0xff >> (hi - end)
		}
		c := rs.cell(k)
		done := false
		keep := 0
		for i := range c.e {
			e := &c.e[i]
			if e.mask&mask != 0 {
				if e.task == me {
					if e.write == write && e.atomic == atomic && e.mask == mask {
						e.clk, e.site = now, int32(site)
						done = true
						if keep != i {
							c.e[keep] = *e
						}
						keep++
						continue
					}
					if (write || !e.write) && (!atomic || e.atomic) {
						if e.mask &^= mask; e.mask == 0 {
							continue
						}
					}
				} else {
					if (write || e.write) && !(atomic && e.atomic) && e.clk > t.vc.at(e.task) {
						raceFound(e, me, int32(site), write)
						e.mask &^= mask
					} else if write && (!atomic || e.atomic) && e.clk <= t.vc.at(e.task) {
						e.mask &^= mask
					}
					if e.mask == 0 {
						continue
					}
				}
			}
			if keep != i {
				c.e[keep] = *e
			}
			keep++
		}
		c.e = c.e[:keep]
		if !done {
			c.e = append(c.e, raceEntry{task: me, site: int32(site), clk: now, mask: mask, write: write, atomic: atomic})
		}
	}
}

var raceSink unsafe.Pointer = nil

func kind(w bool) string {
	if w {
		return "store"
	}
	return "load"
}

func raceFound(e *raceEntry, me, site int32, write bool) {
	k := [2]int32{e.site, site}
	if rs.seen[k] {
		return
	}
	rs.seen[k] = true
	l1, f1 := siteName(e.site)
	l2, f2 := siteName(site)
	r := Race{}
	c1, c2 := f1, f2
	if c2 < c1 {
		c1, c2 = c2, c1
	}
	r.Class = "race: " + c1 + " / " + c2
	r.Msg = fmt.Sprintf("nothing orders the %s at %s (%s, goroutine of %s) and the %s at %s (%s, goroutine of %s)",
		kind(e.write), l1, f1, rs.names[e.task], kind(write), l2, f2, rs.names[me])
	if len(S.out.Races) < 50 {
		S.out.Races = append(S.out.Races, r)
	}
	S.tracef("RACE %s", r.Msg)
}

// RaceR reports a load.
func RaceR[T any](p *T, site int) *T {
	raceAcc(unsafe.Pointer(p), unsafe.Sizeof(*p), false, site)
	return p
}

// RaceW reports a store.
func RaceW[T any](p *T, site int) *T {
	raceAcc(unsafe.Pointer(p), unsafe.Sizeof(*p), true, site)
	return p
}

// RaceObj reports a call of a method of an object of the standard library which only one
// goroutine may use at a time.
func RaceObj[T any](p *T, site int) *T {
	raceAcc(unsafe.Pointer(p), 1, true, site)
	return p
}

// RaceRM and RaceWM report accesses to a map.
func RaceRM[M ~map[K]V, K comparable, V any](m M, site int) M {
	raceAcc(*(*unsafe.Pointer)(unsafe.Pointer(&m)), 1, false, site)
	return m
}

func RaceWM[M ~map[K]V, K comparable, V any](m M, site int) M {
	raceAcc(*(*unsafe.Pointer)(unsafe.Pointer(&m)), 1, true, site)
	return m
}

func raceSlice[T any](s []T, write bool, site int) {
	if len(s) > 0 {
		raceAcc(unsafe.Pointer(unsafe.SliceData(s)), uintptr(len(s))*unsafe.Sizeof(s[0]), write, site)
	}
}

// RaceApp reports the stores of an append of n elements.
func RaceApp[S ~[]T, T any](s S, n int, site int) S {
	if len(s)+n <= cap(s) {
		raceSlice([]T(s[len(s):len(s)+n]), true, site)
	} else {
		raceSlice([]T(s), false, site)
	}
	return s
}

// RaceAppend is append(s, o...).
func RaceAppend[S ~[]T, T any](s S, o []T, site int) S {
	raceSlice(o, false, site)
	return append(RaceApp(s, len(o), site), o...)
}

// RaceCopy is copy(d, o).
func RaceCopy[T any](d, o []T, site int) int {
	n := len(o)
	if len(d) < n {
		n = len(d)
	}
	raceSlice(o[:n], false, site)
	raceSlice(d[:n], true, site)
	return copy(d, o)
}

// RaceAtomic is passed the address of every atomic operation: a load (0), a store (1) or
// both (2).
func RaceAtomic[T any](p *T, op, site int) *T {
	if !hbOff() {
		raceAccA(unsafe.Pointer(p), unsafe.Sizeof(*p), op != 0, true, site)
		k := uintptr(unsafe.Pointer(p))
		v := rs.atoms[k]
		if v == nil {
			v = new(vclock)
			rs.atoms[k] = v
		}
		switch op {
		case 0:
			acquire(*v)
		case 1:
			release(v)
		default:
			acqRel(v)
		}
	}
	return p
}
