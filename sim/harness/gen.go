package main

// Instance generation, drawn from the work stream.

func (x *X) litOver(n int) int {
	l := 1 + x.W(n)
	if x.W(2) == 1 {
		return -l
	}
	return l
}

func (x *X) clause(n, k int) []int {
	c := make([]int, 0, k)
	for i := 0; i < k; i++ {
		c = append(c, x.litOver(n))
	}
	return c
}

// clauseNoRep draws a clause over distinct variables.
func (x *X) clauseNoRep(n, k int) []int {
	if k > n {
		k = n
	}
	c := make([]int, 0, k)
	for tries := 0; len(c) < k && tries < 50; tries++ {
		l := x.litOver(n)
		dup := false
		for _, o := range c {
			if iabs(o) == iabs(l) {
				dup = true
			}
		}
		if !dup {
			c = append(c, l)
		}
	}
	return c
}

// smallCNF draws a formula of mixed clause sizes.
func (x *X) smallCNF(maxN int) *CNF {
	n := 2 + x.W(maxN-1)
	f := &CNF{N: n}
	ratio := x.PickI(2, 3, 4, 4, 5, 6)
	m := 1 + x.W(n*ratio)
	style := x.W(4)
	for i := 0; i < m; i++ {
		k := 3
		switch style {
		case 1:
			k = 1 + x.W(5)
		case 2:
			k = 2 + x.W(2)
		}
		if style == 3 && x.W(8) == 0 {
			f.Cls = append(f.Cls, x.clause(n, 1+x.W(5))) // may repeat or oppose literals
			continue
		}
		f.Cls = append(f.Cls, x.clauseNoRep(n, k))
	}
	return f
}

// threshold draws random 3-SAT near the threshold.
func (x *X) threshold(n int) *CNF {
	f := &CNF{N: n}
	m := n*(400+x.W(60))/100 + 1
	for i := 0; i < m; i++ {
		f.Cls = append(f.Cls, x.clauseNoRep(n, 3))
	}
	return f
}

// php is the pigeon hole principle: p pigeons, h holes.
func php(p, h int) *CNF {
	v := func(i, j int) int { return i*h + j + 1 }
	f := &CNF{N: p * h}
	for i := 0; i < p; i++ {
		var c []int
		for j := 0; j < h; j++ {
			c = append(c, v(i, j))
		}
		f.Cls = append(f.Cls, c)
	}
	for j := 0; j < h; j++ {
		for i := 0; i < p; i++ {
			for k := i + 1; k < p; k++ {
				f.Cls = append(f.Cls, []int{-v(i, j), -v(k, j)})
			}
		}
	}
	return f
}

// parity is a random system of xor constraints of width 3; satisfiable if planted.
func (x *X) parity(n, m int, planted bool) *CNF {
	f := &CNF{N: n}
	sol := make([]int, n+1)
	for i := range sol {
		sol[i] = x.W(2)
	}
	for i := 0; i < m; i++ {
		c := x.clauseNoRep(n, 3)
		if len(c) < 3 {
			continue
		}
		a, b, d := iabs(c[0]), iabs(c[1]), iabs(c[2])
		rhs := x.W(2)
		if planted {
			rhs = sol[a] ^ sol[b] ^ sol[d]
		}
		for s := 0; s < 8; s++ {
			// forbid assignments with the wrong parity
			p := s&1 ^ s>>1&1 ^ s>>2&1
			if p == rhs {
				continue
			}
			cl := []int{a, b, d}
			for k := 0; k < 3; k++ {
				if s>>uint(k)&1 == 1 {
					cl[k] = -cl[k]
				}
			}
			f.Cls = append(f.Cls, cl)
		}
	}
	return f
}

// planted draws a satisfiable random 3-SAT formula.
func (x *X) plantedCNF(n, m int) *CNF {
	sol := make([]int, n+1)
	for i := range sol {
		sol[i] = 2*x.W(2) - 1
	}
	f := &CNF{N: n}
	for i := 0; i < m; i++ {
		c := x.clauseNoRep(n, 3)
		ok := false
		for _, l := range c {
			if l*sol[iabs(l)] > 0 {
				ok = true
			}
		}
		if !ok {
			k := x.W(len(c))
			c[k] = -c[k]
		}
		f.Cls = append(f.Cls, c)
	}
	return f
}

// anyCNF draws an instance of easy to moderate difficulty; its truth is decided by the oracle.
func (x *X) anyCNF() *CNF {
	switch x.W(12) {
	case 0, 1, 2:
		return x.smallCNF(20)
	case 3, 4:
		return x.threshold(20 + x.W(40))
	case 5:
		p := 3 + x.W(5)
		return php(p, p-x.W(2))
	case 6:
		n := 8 + x.W(16)
		return x.parity(n, n-2+x.W(5), x.W(2) == 0)
	case 7:
		n := 20 + x.W(60)
		return x.plantedCNF(n, n*4)
	case 8:
		n := 24 + x.W(12)
		return x.parity(n, n-3+x.W(5), x.W(2) == 0)
	case 9:
		return x.threshold(80 + x.W(60))
	}
	return x.threshold(50 + x.W(50))
}

// midCNF is like anyCNF, without the instances which take long.
func (x *X) midCNF() *CNF {
	switch x.W(8) {
	case 0, 1, 2:
		return x.smallCNF(20)
	case 3, 4:
		return x.threshold(20 + x.W(40))
	case 5:
		p := 3 + x.W(4)
		return php(p, p-x.W(2))
	case 6:
		n := 8 + x.W(12)
		return x.parity(n, n-2+x.W(5), x.W(2) == 0)
	}
	n := 20 + x.W(40)
	return x.plantedCNF(n, n*4)
}

// looser drops some clauses, so that histories of adding and solving go on.
func (x *X) looser(f *CNF) {
	if len(f.Cls) <= 2*f.N {
		return
	}
	if x.W(3) == 0 {
		f.Cls = f.Cls[:2*f.N+x.W(len(f.Cls)-2*f.N)]
		return
	}
	f.Cls = f.Cls[:len(f.Cls)-x.W(len(f.Cls)/8+1)]
}

// hardCNF is an instance no solve finishes within the step cap of a run (used to
// check that control stays responsive); its truth is known by construction.
func (x *X) hardCNF() (*CNF, int) {
	switch x.W(3) {
	case 0:
		return php(11, 10), -1
	case 1:
		return php(12, 10), -1
	}
	n := 14
	_ = n
	return php(13, 12), -1
}
