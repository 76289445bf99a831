package main

import (
	"fmt"
	"io"
	"net"
	"strings"
	"time"

	"github.com/go-air/gini/crisp"
	"github.com/go-air/gini/internal/simrt"
)

// enc32 is the protocol's encoding of v.
func enc32(dst []byte, v uint32) []byte {
	for v >= 128 {
		dst = append(dst, byte(v)|128)
		v >>= 7
	}
	return append(dst, byte(v))
}

// wire is the wire's number for literal l.
func wire(l int) uint32 {
	if l < 0 {
		return uint32(-l)<<1 | 1
	}
	return uint32(l) << 1
}

func unwire(u uint32) int {
	if u&1 != 0 {
		return -int(u >> 1)
	}
	return int(u >> 1)
}

// raw is a client made from the protocol's description.
type raw struct {
	x    *X
	name string
	c    net.Conn
	in   []byte
	out  []byte
	eof  bool
	err  error // of a write
	bd   int64
}

func (x *X) rawDial(name, addr string) *raw {
	r := &raw{x: x, name: name, bd: x.crispBound()}
	a := crisp.ParseAddr(addr)
	var e error
	x.Bounded("call:dial", name+" dial", r.bd, func() { r.c, e = simrt.Dial(a.Network, a.NetAddr) })
	if e != nil {
		x.Fail("dial", "%s: the server does not accept a connection: %v", name, e)
	}
	return r
}

func (r *raw) put(us ...uint32) {
	for _, u := range us {
		r.out = enc32(r.out, u)
	}
}

// flush sends what was put, in random parts.
func (r *raw) flush() {
	x := r.x
	for len(r.out) > 0 && r.err == nil {
		n := len(r.out)
		if x.W(3) == 0 {
			n = 1 + x.W(n)
			if x.W(4) == 0 {
				simrt.Sleep(x.dur())
			}
		}
		p := r.out[:n]
		x.Bounded("call:write", r.name+" write", r.bd+int64(n)*40*(1+x.netDelay), func() {
			for len(p) > 0 && r.err == nil {
				var k int
				r.c.SetWriteDeadline(simrt.Now().Add(time.Millisecond))
				k, r.err = r.c.Write(p)
				p = p[k:]
				r.out = r.out[k:]
				if isTimeout(r.err) {
					// the server may be waiting for us to read
					r.err = nil
					r.c.SetReadDeadline(simrt.Now().Add(time.Millisecond))
					r.fill()
					r.c.SetReadDeadline(time.Time{})
				}
			}
		})
	}
	r.out = r.out[:0]
}

func isTimeout(e error) bool {
	ne, ok := e.(net.Error)
	return ok && ne.Timeout()
}

// fill reads what is there.
func (r *raw) fill() {
	var b [64]byte
	n, e := r.c.Read(b[:])
	r.in = append(r.in, b[:n]...)
	if e != nil && !isTimeout(e) {
		r.eof = true
		if e != io.EOF && r.err == nil {
			r.err = e
		}
	}
}

// get reads one number; false at the end of the stream.
func (r *raw) get() (uint32, bool) {
	v := uint32(0)
	s := uint(0)
	for i := 0; ; i++ {
		if len(r.in) == 0 {
			if r.eof {
				return 0, false
			}
			r.x.Bounded("call:read", r.name+" read", r.bd, r.fill)
			i--
			continue
		}
		b := r.in[0]
		r.in = r.in[1:]
		if i == 4 && b > 15 {
			r.x.Fail("varuint", "%s: the server sent a number of more than 32 bits", r.name)
		}
		v |= uint32(b&127) << s
		s += 7
		if b&128 == 0 {
			return v, true
		}
	}
}

// must reads one number of a reply.
func (r *raw) must(what string) uint32 {
	v, ok := r.get()
	if !ok {
		r.x.Fail("closed", "%s: the server closed the connection in place of %s (%v)", r.name, what, r.err)
	}
	if v == uint32(crisp.Error) {
		c, _ := r.get()
		r.x.Fail("rejected", "%s: the server answers with error %d (%s) in place of %s", r.name, c, crisp.ProtoErr(c), what)
	}
	return v
}

// hello reads the greeting.
func (r *raw) hello() {
	var b []byte
	for i := 0; i < 5; i++ {
		b = append(b, byte(r.must("the greeting")))
	}
	if string(b) != "CRISP" {
		r.x.Fail("hello", "%s: greeting %q", r.name, b)
	}
	r.must("the version")
}

// rawSess is a raw client with a model of the protocol.
type rawSess struct {
	raw
	rf     ref
	last   int // result of the last solve, 2: none
	lastAs []int
	dirty  bool
	nsolve int
	late   []func() // reads the replies to what was put
	why    []int    // what <failed> returned
	hasWhy bool
}

// bits reads truth values.
func (s *rawSess) bits(what string, n int) []bool {
	w := int(s.must(what))
	if w != (n+31)/32 {
		s.x.Fail("size", "%s: %s: the server announces %d words for %d values", s.name, what, w, n)
	}
	var res []bool
	for i := 0; i < w; i++ {
		v, ok := s.get()
		if !ok {
			s.x.Fail("closed", "%s: the server closed the connection in %s", s.name, what)
		}
		for j := 0; j < 32; j++ {
			res = append(res, v>>j&1 != 0)
		}
	}
	return res
}

func (s *rawSess) lits(what string) []int {
	var res []int
	for {
		v := s.must(what)
		if v == 0 {
			return res
		}
		if v >= uint32(crisp.MinProto) {
			s.x.Fail("data", "%s: the server sent %s in %s", s.name, crisp.ProtoPoint(v), what)
		}
		res = append(res, unwire(v))
	}
}

func (s *rawSess) reply(f func()) { s.late = append(s.late, f) }

// sync sends everything and reads the replies.
func (s *rawSess) sync() {
	s.flush()
	if s.err != nil {
		s.x.Fail("write", "%s: write failed: %v", s.name, s.err)
	}
	for _, f := range s.late {
		f()
	}
	s.late = nil
}

func (s *rawSess) log(f string, a ...any) { s.x.Log("%s: %s", s.name, fmt.Sprintf(f, a...)) }

func (s *rawSess) add(cls [][]int) {
	s.log("add %s", brief(&CNF{Cls: cls}))
	s.put(uint32(crisp.Add))
	for _, c := range cls {
		for _, l := range c {
			s.put(wire(l))
			s.rf.note(l)
		}
		s.put(0)
		s.rf.cls = append(s.rf.cls, refCl{lits: c})
	}
	s.put(uint32(crisp.End))
	s.dirty = true
}

func (s *rawSess) assume(as []int) {
	s.log("assume %v", as)
	s.put(uint32(crisp.Assume))
	for _, l := range as {
		s.put(wire(l))
		s.rf.note(l)
	}
	s.put(0)
	s.rf.pending = append(s.rf.pending, as...)
	s.dirty = true
}

func (s *rawSess) model() {
	s.log("model")
	s.put(uint32(crisp.Model))
	as, n, cls := s.lastAs, s.rf.maxv, s.rf.formula()
	s.reply(func() {
		m := s.bits("the model", n)
		checkModelV(s.x, "model", s.name, cls, as, func(l int) bool {
			if iabs(l) > len(m) {
				return l < 0
			}
			return m[iabs(l)-1] == (l > 0)
		})
	})
}

func (s *rawSess) modelFor() {
	x := s.x
	q := append([]int(nil), s.lastAs...)
	for k := x.W(70); k > 0 && s.rf.maxv > 0; k-- {
		q = append(q, x.litOver(s.rf.maxv))
	}
	s.log("modelfor %v", q)
	s.put(uint32(crisp.ModelFor))
	for _, l := range q {
		s.put(wire(l))
	}
	s.put(0)
	as, cls := s.lastAs, s.rf.formula()
	s.reply(func() {
		m := s.bits("the partial model", len(q))
		val := map[int]bool{}
		for i, l := range q {
			if o, have := val[l]; have && o != m[i] {
				x.Fail("modelfor", "%s: <modelfor> of %v: two values for %d", s.name, q, l)
			}
			val[l], val[-l] = m[i], !m[i]
		}
		for _, l := range as {
			if !val[l] {
				x.Fail("modelfor", "%s: <modelfor> of %v: assumption %d is false", s.name, q, l)
			}
		}
		for _, c := range cls {
			sat := false
			for _, l := range c {
				v, have := val[l]
				sat = sat || !have || v
			}
			if !sat {
				x.Fail("modelfor", "%s: <modelfor> falsifies the clause %v", s.name, c)
			}
		}
	})
}

func (s *rawSess) failed() {
	s.log("failed")
	s.put(uint32(crisp.Failed))
	as, cls := s.lastAs, s.rf.formula()
	s.reply(func() {
		w := s.lits("failed assumptions")
		checkWhySet(s.x, "failed", s.name, cls, as, w)
		s.why, s.hasWhy = w, true
	})
}

func (s *rawSess) failedFor() {
	x := s.x
	var q []int
	for _, l := range s.lastAs {
		if x.W(3) > 0 {
			q = append(q, l)
		}
	}
	for k := x.W(3); k > 0 && s.rf.maxv > 0; k-- {
		q = append(q, x.litOver(s.rf.maxv))
	}
	for i := len(q) - 1; i > 0; i-- {
		j := x.W(i + 1)
		q[i], q[j] = q[j], q[i]
	}
	s.log("failedfor %v", q)
	s.put(uint32(crisp.FailedFor))
	for _, l := range q {
		s.put(wire(l))
	}
	s.put(0)
	s.reply(func() {
		got := s.lits("selected failed assumptions")
		if s.hasWhy {
			var want []int
			for _, l := range q {
				if contains(s.why, l) {
					want = append(want, l)
				}
			}
			if fmt.Sprint(want) != fmt.Sprint(got) {
				x.Fail("failedfor", "%s: <failedfor> %v answers %v, <failed> had %v", s.name, q, got, s.why)
			}
		}
	})
}

// solve runs the solve loop; ok is false when the session ended by a violation in it.
func (s *rawSess) solve(badPct int) bool {
	x := s.x
	as := s.rf.assumed()
	s.log("solve under %v", as)
	s.put(uint32(crisp.Solve))
	s.sync()
	s.rf.pending = nil
	ended := false
	for n := 0; ; n++ {
		v := s.must("an answer to <solve>")
		res := 2
		switch crisp.ProtoPoint(v) {
		case crisp.Sat:
			res = 1
		case crisp.Unsat:
			res = -1
		case crisp.End:
			if !ended {
				x.Fail("end", "%s: the server ends a solve by itself", s.name)
			}
			res = 0
		case crisp.Unknown:
			if ended {
				x.Fail("unknown", "%s: <unknown> after <end>", s.name)
			}
		default:
			x.Fail("solve", "%s: answer %#x to <solve>", s.name, v)
		}
		if res != 2 {
			s.log("-> %d", res)
			s.last, s.lastAs, s.dirty, s.hasWhy = res, as, false, false
			s.nsolve++
			if res != 0 {
				if o := oracle(s.rf.formula(), as); o != 0 && o != res {
					x.Fail("answer", "%s: the server answers %d under %v, the truth is %d", s.name, res, as, o)
				}
			} else {
				x.Hit("solve.ended")
			}
			return true
		}
		if x.WP(badPct, 100) {
			// only <continue> and <end> make sense here
			var codes []uint32
			switch x.W(9) {
			case 0:
				s.put(uint32(crisp.Solve))
			case 1:
				s.put(uint32(crisp.Model))
			case 2:
				s.put(uint32(crisp.Failed))
			case 3:
				s.put(uint32(crisp.Add), wire(1), 0, uint32(crisp.End))
			case 4:
				s.put(uint32(crisp.Assume), wire(1), 0)
			case 5:
				s.put(uint32(crisp.ModelFor), wire(1), 0)
			case 6:
				s.put(uint32(crisp.FailedFor), wire(1), 0)
			case 7:
				codes = s.overflow()
			case 8:
				s.unknownOp()
			}
			s.log("misplaced while solving")
			x.Hit("violation.solving")
			s.ends(codes)
			return false
		}
		if x.W(3) == 0 {
			simrt.Sleep(x.dur())
		}
		if x.W(8) == 0 {
			s.log("<end>")
			ended = true
			s.put(uint32(crisp.End))
		} else {
			s.put(uint32(crisp.Continue))
		}
		s.flush()
	}
}

// overflow puts a number outside of the 32 bit range and returns the codes for it.
func (s *rawSess) overflow() []uint32 {
	x := s.x
	s.log("overflow")
	for i := 0; i < 4; i++ {
		s.out = append(s.out, byte(128|x.W(128)))
	}
	if x.W(2) == 0 {
		s.out = append(s.out, byte(16+x.W(112)))
	} else {
		s.out = append(s.out, byte(128|x.W(128)))
		for k := x.W(4); k > 0; k-- {
			s.out = append(s.out, byte(128|x.W(128)))
		}
		s.out = append(s.out, byte(1+x.W(127)))
	}
	x.Hit("violation.overflow")
	return []uint32{uint32(crisp.ErrVarUint)}
}

func (s *rawSess) unknownOp() []uint32 {
	x := s.x
	x.Hit("violation.unknown_op")
	switch x.W(3) {
	case 0: // data, not an operation
		u := uint32(x.W(1 << 16))
		s.log("data %d for an operation", u)
		s.put(u)
		return nil
	case 1: // an operation of the server
		p := []crisp.ProtoPoint{crisp.Sat, crisp.Unsat, crisp.Unknown, crisp.Error}[x.W(4)]
		s.log("operation %s", p)
		s.put(uint32(p))
		return nil
	}
	p := crisp.MinProto + crisp.ProtoPoint(x.W(int(crisp.Reset-crisp.MinProto)))
	s.log("operation %s", p)
	s.put(uint32(p))
	return []uint32{uint32(crisp.ErrUnknownOp)}
}

// violate puts one violation of the protocol; codes are the codes allowed for it, nil
// for any but zero.
func (s *rawSess) violate() (codes []uint32) {
	x := s.x
	dataOp := func() {
		switch x.W(2) {
		case 0:
			s.put(uint32(crisp.Add))
		case 1:
			s.put(uint32(crisp.Assume))
		}
		for k := x.W(5); k > 0; k-- {
			s.put(wire(x.litOver(9)))
		}
	}
	modelReq := func() {
		if x.W(2) == 0 {
			s.put(uint32(crisp.Model))
		} else {
			s.put(uint32(crisp.ModelFor), wire(1), 0)
		}
	}
	failReq := func() {
		if x.W(2) == 0 {
			s.put(uint32(crisp.Failed))
		} else {
			s.put(uint32(crisp.FailedFor), wire(1), 0)
		}
	}
	switch x.W(7) {
	case 0:
		return s.overflow()
	case 1:
		dataOp()
		return s.overflow()
	case 2:
		return s.unknownOp()
	case 3:
		s.log("continue or end outside of a solve")
		x.Hit("violation.misplaced")
		s.put(uint32(crisp.Continue) - uint32(x.W(2)))
		return nil
	case 4: // an operation inside data
		s.log("operation inside data")
		x.Hit("violation.in_data")
		add := x.W(3) == 0
		if add {
			s.put(uint32(crisp.Add))
		} else {
			s.put(uint32(crisp.Assume))
		}
		for k := x.W(5); k > 0; k-- {
			s.put(wire(x.litOver(9)))
			if add && x.W(2) == 0 {
				s.put(0)
			}
		}
		if add || x.W(4) == 0 {
			// the number of the negation of no variable
			s.log("1 for a literal")
			s.put(1)
			return []uint32{uint32(crisp.ErrNotLit)}
		}
		s.put(uint32(crisp.MinProto) + uint32(x.W(256)))
		return nil
	case 5:
		if s.last == 1 && !s.dirty {
			s.log("failed after sat")
			x.Hit("violation.notunsat")
			failReq()
			return []uint32{uint32(crisp.ErrNotUnsat)}
		}
		s.log("model after %d dirty %v", s.last, s.dirty)
		x.Hit("violation.notsat")
		modelReq()
		switch {
		case s.last == 2:
			return nil
		case !s.dirty:
			return []uint32{uint32(crisp.ErrNotSat)}
		case s.last == 1:
			return []uint32{uint32(crisp.ErrOutOfOrder)}
		}
		return []uint32{uint32(crisp.ErrOutOfOrder), uint32(crisp.ErrNotSat)}
	default:
		if s.last == -1 && !s.dirty {
			s.log("model after unsat")
			x.Hit("violation.notsat")
			modelReq()
			return []uint32{uint32(crisp.ErrNotSat)}
		}
		s.log("failed after %d dirty %v", s.last, s.dirty)
		x.Hit("violation.notunsat")
		failReq()
		switch {
		case s.last == 2:
			return nil
		case !s.dirty:
			return []uint32{uint32(crisp.ErrNotUnsat)}
		case s.last == -1:
			return []uint32{uint32(crisp.ErrOutOfOrder)}
		}
		return []uint32{uint32(crisp.ErrOutOfOrder), uint32(crisp.ErrNotUnsat)}
	}
}

// ends sends what is put, reads the replies before and then wants the error and the end.
func (s *rawSess) ends(codes []uint32) {
	x := s.x
	if x.W(3) == 0 {
		// something behind it, to no effect
		for k := 1 + x.W(3); k > 0; k-- {
			s.put([]uint32{uint32(crisp.Solve), uint32(crisp.Model), uint32(crisp.Add), wire(3), 0, uint32(crisp.End), uint32(crisp.Quit)}[x.W(7)])
		}
	}
	s.flush()
	for _, f := range s.late {
		f()
	}
	s.late = nil
	v, ok := s.get()
	if !ok {
		x.Fail("noerror", "%s: a violation ends the connection without an error (%v)", s.name, s.err)
	}
	if v != uint32(crisp.Error) {
		x.Fail("accepted", "%s: a violation is answered with %s", s.name, crisp.ProtoPoint(v))
	}
	c, ok := s.get()
	if !ok || c == 0 {
		x.Fail("nocode", "%s: an error without a code", s.name)
	}
	if codes != nil {
		have := false
		for _, w := range codes {
			have = have || w == c
		}
		if !have {
			x.Fail("code", "%s: error %d (%s), want one of %v", s.name, c, crisp.ProtoErr(c), codes)
		}
	}
	s.log("-> error %d", c)
	if v, ok := s.get(); ok {
		x.Fail("open", "%s: after an error the server sends %#x", s.name, v)
	}
	x.NonTrivial = true
}

func bodyC16(x *X) {
	x.netUpMax(1000000)
	addr := x.crispServer()
	for k := 1 + x.W(3); k > 0; k-- {
		s := &rawSess{raw: *x.rawDial(fmt.Sprintf("raw%d", k), addr), last: 2}
		s.hello()
		s.session()
		if s.nsolve >= 3 {
			x.NonTrivial = true
		}
		s.c.Close()
	}
}

// session runs one session to its end.
func (s *rawSess) session() {
	x := s.x
	bad := x.PickI(0, 3, 10, 25)
	n := 3 + x.W(12)
	if x.W(8) == 0 {
		k := x.W(5)
		s.log("key of %d", k)
		s.put(uint32(crisp.Key), uint32(k))
		for ; k > 0; k-- {
			s.put(uint32(x.W(1 << 30)))
		}
	}
	if x.W(2) == 0 {
		f := x.midCNF()
		x.looser(f)
		n = f.N
		s.add(f.Cls)
	}
	for i := 4 + x.W(20); i > 0; i-- {
		if x.W(3) == 0 {
			s.sync()
		}
		if x.WP(bad, 100) {
			s.ends(s.violate())
			return
		}
		switch x.W(8) {
		case 0:
			var cls [][]int
			for k := (1 + x.W(4)) % 4; k > 0; k-- {
				cls = append(cls, x.clauseNoRep(n, 1+x.W(4)))
			}
			s.add(cls)
		case 1:
			s.assume(x.pickAssumps(n, 4))
		case 2, 3:
			if !s.solve(bad / 2) {
				return
			}
		case 7:
			if x.W(4) == 0 && s.last != 2 && !s.dirty {
				s.log("reset")
				s.put(uint32(crisp.Reset))
				s.sync()
				s.rf = ref{}
				s.last, s.dirty = 2, false
				break
			}
			if x.W(2) == 0 {
				s.log("ext")
				s.put(uint32(crisp.Ext))
				s.reply(func() {
					if v := s.must("extensions"); v != 0 {
						x.Fail("ext", "%s: extension %#x", s.name, v)
					}
				})
			}
		default:
			if s.dirty {
				break
			}
			switch {
			case s.last == 1 && x.W(2) == 0:
				s.model()
			case s.last == 1:
				s.modelFor()
			case s.last == -1 && x.W(2) == 0:
				s.failed()
			case s.last == -1:
				s.failedFor()
			}
		}
	}
	if x.W(4) == 0 {
		s.sync()
		return
	}
	s.log("quit")
	s.put(uint32(crisp.Quit))
	s.flush()
	for _, f := range s.late {
		f()
	}
	s.late = nil
	if v, ok := s.get(); ok {
		x.Fail("open", "%s: after <quit> the server sends %#x", s.name, v)
	}
}

// srvWatch watches the sessions of a server.
type srvWatch struct {
	x     *X
	conns []*simrt.SimConn // the server's ends
}

func (w *srvWatch) check() {
	n := 0
	for _, c := range w.conns {
		if c.BytesOut > 0 && !c.Closed() {
			n++
		}
	}
	if n > w.x.Cfg.NumCPU {
		w.x.Fail("slots", "%d sessions at once on a server for %d", n, w.x.Cfg.NumCPU)
	}
	if n == w.x.Cfg.NumCPU {
		w.x.Hit("slots.full")
	}
}

// idle waits until the server has no session's work left.
func (w *srvWatch) idle(steps int64) {
	x := w.x
	end := simrt.Steps() + steps
	for {
		ts := libTasks()
		busy := 0
		for _, t := range ts {
			if !strings.HasPrefix(t.Why, "recv chan") {
				busy++
			}
		}
		if busy == 0 && len(ts) <= x.Cfg.NumCPU {
			if len(ts) < x.Cfg.NumCPU {
				x.Fail("handlers", "only %d of %d sessions' goroutines are left: %v", len(ts), x.Cfg.NumCPU, ts)
			}
			return
		}
		if simrt.Steps() > end || simrt.NowNs() > x.Cfg.MaxSimTime/2 {
			x.Fail("abandon", "the clients are gone, but after %d statements the server still has %v", steps, ts)
			return
		}
		simrt.Sleep(time.Millisecond)
	}
}

// garbage makes a stream of mostly well-formed numbers which are no protocol.
func (x *X) garbage() []byte {
	var b []byte
	for k := x.W(60); k > 0; k-- {
		switch x.W(10) {
		case 0, 1, 2:
			b = enc32(b, uint32(x.W(30)))
		case 3, 4, 5:
			b = enc32(b, 0xffffffff-uint32(x.W(18)))
		case 6:
			b = enc32(b, uint32(x.W(20000)))
		case 7:
			b = enc32(b, 0xffffffff-uint32(x.W(256)))
		case 8: // not the shortest form
			b = append(b, byte(128|x.W(128)), 128, 0)
		case 9:
			if x.W(6) == 0 {
				b = append(b, 255, 255, 255, 255, byte(16+x.W(240)))
			}
		}
	}
	if x.W(3) == 0 && len(b) > 0 {
		b = b[:x.W(len(b))] // in the middle of a number
	}
	return b
}

// vanish ends the client's side in some way.
func (x *X) vanish(c *simrt.SimConn) {
	switch k := x.F(4); k {
	case 0:
		c.Close()
	default:
		c.Break(simrt.CutKind(k))
		x.Hit("vanish." + simrt.CutKind(k).String())
	}
	c.Close()
}

// misbehave is one client which does not keep to the protocol or goes away.
func (x *X) misbehave(name, addr string, w *srvWatch) {
	a := crisp.ParseAddr(addr)
	nc, e := simrt.Dial(a.Network, a.NetAddr)
	if e != nil {
		x.Fail("dial", "%s: the server does not accept a connection: %v", name, e)
	}
	c := nc.(*simrt.SimConn)
	kind := x.W(8)
	x.Log("%s: kind %d", name, kind)
	x.Hit(fmt.Sprintf("misbehave.%d", kind))
	c.SetDeadline(simrt.Now().Add(time.Duration(x.Pick(1e6, 1e7))))
	send := func(b []byte) {
		for len(b) > 0 {
			n := 1 + x.W(len(b))
			if x.W(2) == 0 {
				n = len(b)
			}
			k, e := c.Write(b[:n])
			if e != nil || k == 0 {
				return
			}
			b = b[k:]
		}
	}
	hold := func() { simrt.Sleep(x.dur() * time.Duration(x.PickI(1, 3))) }
	cnf := func(cls [][]int) []byte {
		b := enc32(nil, uint32(crisp.Add))
		for _, cl := range cls {
			for _, l := range cl {
				b = enc32(b, wire(l))
			}
			b = append(b, 0)
		}
		return enc32(b, uint32(crisp.End))
	}
	drain := func() {
		var b [64]byte
		for k := x.W(20); k > 0; k-- {
			if _, e := c.Read(b[:]); e != nil {
				return
			}
		}
	}
	switch kind {
	case 0: // idle
		if x.W(2) == 0 {
			drain()
		}
		hold()
	case 1: // nonsense
		send(x.garbage())
		hold()
		if x.W(2) == 0 {
			drain()
		}
	case 2: // a problem, then nonsense
		f := x.midCNF()
		send(cnf(f.Cls))
		send(enc32(nil, uint32(crisp.Solve)))
		send(x.garbage())
		hold()
	case 3, 4: // gone while a solve runs, which does not end by itself
		f, _ := x.hardCNF()
		c.SetDeadline(time.Time{})
		var b6 [6]byte
		if _, e := io.ReadFull(c, b6[:]); e != nil {
			x.Fail("hello", "%s: no greeting: %v", name, e)
		}
		send(cnf(f.Cls))
		b := enc32(nil, uint32(crisp.Solve))
		for k := x.W(4); k > 0; k-- {
			b = enc32(b, uint32(crisp.Continue))
		}
		c.SetDeadline(simrt.Now().Add(time.Duration(int64(x.dur())*3 + 2*x.netDelay*x.Cfg.NsPerStep)))
		send(b)
		drain()
		if x.W(3) == 0 {
			send(enc32(nil, []uint32{uint32(crisp.Quit), uint32(crisp.Reset), uint32(crisp.End), uint32(crisp.Add)}[x.W(4)]))
		}
		hold()
	case 5: // gone in the middle of a message
		b := cnf(x.midCNF().Cls)
		send(b[:x.W(len(b))])
		hold()
	case 6: // does not read
		f := x.smallCNF(10)
		send(cnf(f.Cls))
		var b []byte
		for k := x.W(300); k > 0; k-- {
			b = enc32(b, uint32(crisp.Ext))
		}
		for k := x.W(3); k > 0; k-- {
			b = enc32(b, uint32(crisp.Solve))
			for j := x.W(300); j > 0; j-- {
				b = enc32(b, uint32(crisp.Model))
			}
		}
		send(b)
		hold()
	case 7: // many more atoms than announced arrive, or the other way round
		b := enc32(nil, uint32(crisp.Key))
		b = enc32(b, uint32(x.Pick(0, 1, 1<<20, 1<<31, 1<<32-1)))
		send(append(b, x.garbage()...))
		hold()
	}
	w.check()
	x.vanish(c)
}

func bodyC15(x *X) {
	x.netUpMax(100000)
	addr := x.crispServer()
	w := &srvWatch{x: x}
	simrt.OnConn(func(c, srv *simrt.SimConn) { w.conns = append(w.conns, srv) })
	polite := 1 + x.W(3)
	bad := x.PickI(1, 2, 4, 0)
	bd := x.crispBound() * int64(2+polite+bad)
	served := 0
	client := func(name string, ops int) {
		s := &csess{x: x, name: name, r: &ref{}, last: 2, bd: 100000000, mv: true}
		s.call("Dial", func() error { var e error; s.c, e = crisp.Dial(addr); return e })
		s.bd = bd
		w.check()
		s.run(ops)
		w.check()
		s.quit()
		if s.nres > 0 {
			served++
		}
	}
	var ts []*simrt.Task
	for i := 0; i < polite; i++ {
		name := fmt.Sprintf("polite%d", i)
		ts = append(ts, simrt.GoHarness(name, func() {
			for k := 1 + x.W(2); k > 0; k-- {
				if x.W(2) == 0 {
					simrt.Sleep(x.dur())
				}
				client(name, 3+x.W(10))
			}
		}))
	}
	for i := 0; i < bad; i++ {
		name := fmt.Sprintf("bad%d", i)
		ts = append(ts, simrt.GoHarness(name, func() {
			for k := 1 + x.W(3); k > 0; k-- {
				if x.W(2) == 0 {
					simrt.Sleep(x.dur())
				}
				x.misbehave(name, addr, w)
			}
		}))
	}
	x.Bounded("clients", "the clients", 130000000, func() {
		for _, t := range ts {
			t.Join()
		}
	})
	if served > 0 && bad > 0 {
		x.NonTrivial = true
	}
	// nobody is left: the server drops everything and serves again
	w.idle(bd)
	for k := x.W(x.Cfg.NumCPU + 1); k >= 0; k-- {
		client("after", 3)
	}
	w.idle(bd)
}
