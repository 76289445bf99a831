package main

// An independent small CDCL solver used as the oracle. It shares no code with the
// repository. Answers "satisfiable" are confirmed by evaluating the model.

type osolver struct {
	n       int
	cls     [][]int32
	watch   [][]int32
	val     []int8
	level   []int32
	reason  []int32
	trail   []int32
	lim     []int
	qh      int
	act     []float64
	inc     float64
	phase   []int8
	seen    []bool
	unsat   bool
	confl   int64
	maxConf int64
}

func oidx(l int32) int {
	if l > 0 {
		return int(l) * 2
	}
	return int(-l)*2 + 1
}

func newOsolver(n int) *osolver {
	s := &osolver{n: n, inc: 1}
	s.watch = make([][]int32, 2*n+2)
	s.val = make([]int8, n+1)
	s.level = make([]int32, n+1)
	s.reason = make([]int32, n+1)
	s.act = make([]float64, n+1)
	s.phase = make([]int8, n+1)
	s.seen = make([]bool, n+1)
	return s
}

func (s *osolver) v(l int32) int8 {
	if l > 0 {
		return s.val[l]
	}
	return -s.val[-l]
}

func (s *osolver) add(c []int) {
	if s.unsat {
		return
	}
	var d []int32
	for _, l := range c {
		dup := false
		for _, o := range d {
			if o == int32(l) {
				dup = true
			}
			if o == int32(-l) {
				return
			}
		}
		if !dup {
			d = append(d, int32(l))
		}
	}
	// drop false literals at level 0
	var e []int32
	for _, l := range d {
		switch s.v(l) {
		case 1:
			return
		case 0:
			e = append(e, l)
		}
	}
	switch len(e) {
	case 0:
		s.unsat = true
	case 1:
		s.enq(e[0], -1)
		if s.prop() >= 0 {
			s.unsat = true
		}
	default:
		s.attach(e)
	}
}

func (s *osolver) attach(c []int32) int32 {
	i := int32(len(s.cls))
	s.cls = append(s.cls, c)
	s.watch[oidx(c[0])] = append(s.watch[oidx(c[0])], i)
	s.watch[oidx(c[1])] = append(s.watch[oidx(c[1])], i)
	return i
}

func (s *osolver) enq(l int32, r int32) {
	v := l
	s.val[abs32(l)] = 1
	if l < 0 {
		v = -l
		s.val[v] = -1
	}
	s.level[v] = int32(len(s.lim))
	s.reason[v] = r
	s.trail = append(s.trail, l)
}

func abs32(l int32) int32 {
	if l < 0 {
		return -l
	}
	return l
}

func (s *osolver) prop() int32 {
	for s.qh < len(s.trail) {
		p := s.trail[s.qh]
		s.qh++
		ws := s.watch[oidx(-p)]
		j := 0
		for i := 0; i < len(ws); i++ {
			ci := ws[i]
			c := s.cls[ci]
			if c[0] == -p {
				c[0], c[1] = c[1], c[0]
			}
			if s.v(c[0]) == 1 {
				ws[j] = ci
				j++
				continue
			}
			found := false
			for k := 2; k < len(c); k++ {
				if s.v(c[k]) != -1 {
					c[1], c[k] = c[k], c[1]
					s.watch[oidx(c[1])] = append(s.watch[oidx(c[1])], ci)
					found = true
					break
				}
			}
			if found {
				continue
			}
			ws[j] = ci
			j++
			if s.v(c[0]) == -1 {
				for i++; i < len(ws); i++ {
					ws[j] = ws[i]
					j++
				}
				s.watch[oidx(-p)] = ws[:j]
				s.qh = len(s.trail)
				return ci
			}
			s.enq(c[0], ci)
		}
		s.watch[oidx(-p)] = ws[:j]
	}
	return -1
}

func (s *osolver) back(lv int) {
	if len(s.lim) <= lv {
		return
	}
	for i := len(s.trail) - 1; i >= s.lim[lv]; i-- {
		v := abs32(s.trail[i])
		s.phase[v] = s.val[v]
		s.val[v] = 0
	}
	s.trail = s.trail[:s.lim[lv]]
	s.lim = s.lim[:lv]
	s.qh = len(s.trail)
}

func (s *osolver) bump(v int32) {
	s.act[v] += s.inc
	if s.act[v] > 1e100 {
		for i := range s.act {
			s.act[i] *= 1e-100
		}
		s.inc *= 1e-100
	}
}

func (s *osolver) analyze(ci int32) ([]int32, int) {
	out := []int32{0}
	cnt := 0
	var p int32
	idx := len(s.trail) - 1
	cur := int32(len(s.lim))
	var marked []int32
	for {
		for _, q := range s.cls[ci] {
			if q == p {
				continue
			}
			v := abs32(q)
			if !s.seen[v] && s.level[v] > 0 {
				s.seen[v] = true
				marked = append(marked, v)
				s.bump(v)
				if s.level[v] == cur {
					cnt++
				} else {
					out = append(out, q)
				}
			}
		}
		for !s.seen[abs32(s.trail[idx])] {
			idx--
		}
		p = s.trail[idx]
		idx--
		cnt--
		if cnt == 0 {
			break
		}
		ci = s.reason[abs32(p)]
	}
	out[0] = -p
	bl := 0
	for i := 1; i < len(out); i++ {
		if l := int(s.level[abs32(out[i])]); l > bl {
			bl = l
			out[1], out[i] = out[i], out[1]
		}
	}
	for _, v := range marked {
		s.seen[v] = false
	}
	return out, bl
}

// solve returns 1, -1 or 0 (conflict limit reached).
func (s *osolver) solve(assumps []int) int {
	if s.unsat {
		return -1
	}
	s.back(0)
	if s.prop() >= 0 {
		s.unsat = true
		return -1
	}
	rst := int64(100)
	next := s.confl + rst
	start := s.confl
	for {
		ci := s.prop()
		if ci >= 0 {
			s.confl++
			if len(s.lim) == 0 {
				s.unsat = true
				return -1
			}
			if len(s.lim) <= len(assumps) {
				// conflict under assumption levels only: still analyse
			}
			c, bl := s.analyze(ci)
			s.back(bl)
			if len(c) == 1 {
				s.enq(c[0], -1)
			} else {
				s.enq(c[0], s.attach(c))
			}
			s.inc /= 0.95
			if s.maxConf > 0 && s.confl-start > s.maxConf {
				s.back(0)
				return 0
			}
			continue
		}
		if s.confl > next {
			rst += rst / 2
			next = s.confl + rst
			s.back(0)
			continue
		}
		var d int32
		for len(s.lim) < len(assumps) {
			a := int32(assumps[len(s.lim)])
			switch s.v(a) {
			case 1:
				s.lim = append(s.lim, len(s.trail))
			case -1:
				s.back(0)
				return -1
			default:
				d = a
			}
			if d != 0 {
				break
			}
		}
		if d == 0 {
			var best int32
			for v := int32(1); v <= int32(s.n); v++ {
				if s.val[v] == 0 && (best == 0 || s.act[v] > s.act[best]) {
					best = v
				}
			}
			if best == 0 {
				return 1
			}
			d = best
			if s.phase[best] < 1 {
				d = -best
			}
		}
		s.lim = append(s.lim, len(s.trail))
		s.enq(d, -1)
	}
}

// CNF is a formula over variables 1..N.
type CNF struct {
	N   int
	Cls [][]int
}

func (f *CNF) clone() *CNF {
	g := &CNF{N: f.N}
	for _, c := range f.Cls {
		g.Cls = append(g.Cls, append([]int(nil), c...))
	}
	return g
}

func iabs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

// oracle decides f under assumptions: 1, -1, or 0 when it gave up.
func oracle(cls [][]int, assumps []int) int {
	n := 0
	for _, c := range cls {
		for _, l := range c {
			if a := iabs(l); a > n {
				n = a
			}
		}
	}
	for _, l := range assumps {
		if a := iabs(l); a > n {
			n = a
		}
	}
	s := newOsolver(n)
	s.maxConf = 20000
	for _, c := range cls {
		s.add(c)
	}
	r := s.solve(assumps)
	if r == 1 {
		for _, c := range cls {
			ok := false
			for _, l := range c {
				if s.v(int32(l)) == 1 {
					ok = true
				}
			}
			if !ok {
				panic("oracle: wrong model")
			}
		}
		for _, l := range assumps {
			if s.v(int32(l)) != 1 {
				panic("oracle: wrong model")
			}
		}
	}
	return r
}

// brute decides by enumeration (self test of the oracle).
func brute(cls [][]int, n int, assumps []int) int {
	for m := 0; m < 1<<uint(n); m++ {
		t := func(l int) bool {
			b := m>>(uint(iabs(l))-1)&1 == 1
			return b == (l > 0)
		}
		ok := true
		for _, a := range assumps {
			if !t(a) {
				ok = false
				break
			}
		}
		for i := 0; ok && i < len(cls); i++ {
			sat := false
			for _, l := range cls[i] {
				if t(l) {
					sat = true
					break
				}
			}
			ok = sat
		}
		if ok {
			return 1
		}
	}
	return -1
}
