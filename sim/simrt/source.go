// Package simrt is the deterministic simulation runtime: one task runs at a
// time, every scheduling decision, delay and fault is drawn from a Source.
package simrt

// Stream identifies one of the independent choice streams of a run.
type Stream int

const (
	StWork  Stream = iota // configuration and workload
	StSched               // scheduling decisions
	StNet                 // latency, fragmentation, stream segmentation
	StFault               // fault injection
	StMisc                // everything else (map order, random numbers)
	NStreams
)

var StreamNames = [NStreams]string{"work", "sched", "net", "fault", "misc"}

type stream struct {
	s      uint64
	rec    []uint32
	replay []uint32
	pos    int
}

// Source supplies all nondeterminism of one run.
type Source struct {
	Seed      uint64
	Replaying bool
	Recording bool
	st        [NStreams]stream
}

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// NewSource creates a generating source.
func NewSource(seed uint64, record bool) *Source {
	s := &Source{Seed: seed, Recording: record}
	for i := range s.st {
		s.st[i].s = mix(seed*0x100000001b3 + uint64(i)*0x9e3779b97f4a7c15 + 0x1234567)
	}
	return s
}

// NewReplay creates a source which replays recorded choices; past the end of a
// stream every choice is 0, the simplest one.
func NewReplay(recs [NStreams][]uint32) *Source {
	s := &Source{Replaying: true, Recording: true}
	for i := range s.st {
		s.st[i].replay = recs[i]
	}
	return s
}

// Records returns the choices made.
func (s *Source) Records() (r [NStreams][]uint32) {
	for i := range s.st {
		r[i] = append([]uint32(nil), s.st[i].rec...)
	}
	return
}

func (s *Source) NumChoices() (r [NStreams]int) {
	for i := range s.st {
		r[i] = s.st[i].pos
	}
	return
}

// Choose returns a value in [0,n); 0 is the simplest.
func (s *Source) Choose(st Stream, n int) int {
	if n <= 1 {
		return 0
	}
	t := &s.st[st]
	var v uint32
	if s.Replaying {
		if t.pos < len(t.replay) {
			v = t.replay[t.pos]
			if v >= uint32(n) {
				v = uint32(n - 1)
			}
		}
	} else {
		t.s += 0x9e3779b97f4a7c15
		x := t.s
		x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
		x = (x ^ (x >> 27)) * 0x94d049bb133111eb
		x ^= x >> 31
		v = uint32((x >> 32) * uint64(n) >> 32)
	}
	t.pos++
	if s.Recording {
		t.rec = append(t.rec, v)
	}
	return int(v)
}

// Chance is true with probability num/den; choice 0 is always false.
func (s *Source) Chance(st Stream, num, den int) bool {
	if num <= 0 {
		return false
	}
	return s.Choose(st, den) >= den-num
}
