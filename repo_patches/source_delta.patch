From f4f01ee7150e8cf1eeb881998e5a51c96e342f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:33 +0000
Subject: [PATCH 01/76] fix: keep conflicts at level 0, so solving again after
 unsat stays unsat

---
 internal/xo/s.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/internal/xo/s.go b/internal/xo/s.go
index 9f7d865..d995a19 100644
--- a/internal/xo/s.go
+++ b/internal/xo/s.go
@@ -228,7 +228,7 @@ func (s *S) Solve() int {
 		if x != CNull {
 			// conflict
 			if trail.Level <= aLevel {
-				s.x = x
+				s.setConflict(x)
 				s.stUnsat++
 				return -1
 			}
@@ -422,9 +422,13 @@ func (s *S) Untest() int {
 		s.x = x
 		return -1
 	}
+	if s.Cdb.Bot != CNull {
+		s.x = s.Cdb.Bot
+		return -1
+	}
 	s.Trail.backWithLates(lastTestLevel)
 	if x := trail.Prop(); x != CNull {
-		s.x = x
+		s.setConflict(x)
 		return -1
 	}
 	s.x = CNull
@@ -648,14 +652,14 @@ func (s *S) cleanupSolve() z.C {
 			trail.Back(s.endTestLevel)
 			if s.Vars.Levels[drvd.Unit.Var()] == -1 {
 				trail.Assign(drvd.Unit, drvd.P)
-				s.x = trail.Prop()
+				s.setConflict(trail.Prop())
 				continue
 			}
 			return drvd.P
 		}
 		trail.Back(drvd.TargetLevel)
 		trail.Assign(drvd.Unit, drvd.P)
-		s.x = trail.Prop()
+		s.setConflict(trail.Prop())
 		continue
 	}
 	trail.Back(s.endTestLevel)
@@ -664,6 +668,21 @@ func (s *S) cleanupSolve() z.C {
 	return CNull
 }
 
+// setConflict records the result x of a propagation as the current conflict.
+//
+// A conflict at level 0 depends neither on assumptions nor on test scopes.
+// Level 0 is never undone and not propagated again, so such a conflict is kept
+// for good in the form of the empty clause.
+func (s *S) setConflict(x z.C) {
+	if x != CNull && s.Trail.Level == 0 {
+		if s.Cdb.Bot == CNull {
+			s.Cdb.Learn(nil, 0)
+		}
+		x = s.Cdb.Bot
+	}
+	s.x = x
+}
+
 func (s *S) lastTestLevel() int {
 	if len(s.testLevels) > 0 {
 		return s.testLevels[len(s.testLevels)-1]
@@ -686,7 +705,7 @@ func (s *S) makeAssumptions() int {
 		return -1
 	}
 	if x := trail.Prop(); x != CNull {
-		s.x = x
+		s.setConflict(x)
 		return -1
 	}
 	vals := s.Vars.Vals
-- 
2.43.0


From b98e8a41c47a54146c5c42861401b9560190f4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:31 +0000
Subject: [PATCH 02/76] fix: the deadline of Try ends with Try

---
 internal/xo/s.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/xo/s.go b/internal/xo/s.go
index d995a19..c58ece9 100644
--- a/internal/xo/s.go
+++ b/internal/xo/s.go
@@ -166,7 +166,7 @@ func (s *S) Copy() *S {
 		return st
 	}
 	other.startTime = s.startTime
-	other.deadline = s.deadline
+	other.deadline = other.startTime
 	return other
 }
 
@@ -208,6 +208,7 @@ func (s *S) Solve() int {
 	defer func() {
 		s.assumptLevel = 0
 		s.assumes = s.assumes[:0]
+		s.deadline = s.startTime // a deadline is for one Try only.
 	}()
 	trail := s.Trail
 	if r := s.solveInit(); r != 0 {
@@ -256,6 +257,8 @@ func (s *S) Solve() int {
 			tick++
 			if tick%CancelTicks == 0 {
 				if s.deadline != s.startTime && time.Until(s.deadline) <= 0 {
+					s.stEnded++
+					trail.Back(s.endTestLevel)
 					return 0
 				}
 				if !s.control.Tick() {
-- 
2.43.0


From ea44b71ae50192d58c58ee0b983063814ff4fdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:48 +0000
Subject: [PATCH 03/76] fix: Solve respects the assumptions of a failed Test
 scope

---
 internal/xo/s.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/xo/s.go b/internal/xo/s.go
index c58ece9..d3c6256 100644
--- a/internal/xo/s.go
+++ b/internal/xo/s.go
@@ -46,6 +46,8 @@ type S struct {
 	// keeps level of start of each test (before assumptions)
 	testLevels   []int
 	endTestLevel int
+	// the last Test failed and was not undone by Untest.
+	testFailed bool
 	// assumptionLevel can be > endTestLevel for untested assumptions
 	assumptLevel int
 	assumes      []z.Lit // only last set of requested assumptions before solve/test.
@@ -154,6 +156,7 @@ func (s *S) Copy() *S {
 	other.testLevels = make([]int, len(s.testLevels), cap(s.testLevels))
 	copy(other.testLevels, s.testLevels)
 	other.endTestLevel = s.endTestLevel
+	other.testFailed = s.testFailed
 	other.assumptLevel = s.assumptLevel
 	other.assumes = make([]z.Lit, len(s.assumes), cap(s.assumes))
 	copy(other.assumes, s.assumes)
@@ -353,7 +356,7 @@ func (s *S) Test(ms []z.Lit) (res int, ns []z.Lit) {
 	if ns != nil {
 		ns = ns[:0]
 	}
-	if x := s.cleanupSolve(); x != CNull {
+	if x := s.cleanupSolve(); x != CNull || s.testFailed {
 		panic("test after unresolved unsat.")
 	}
 	res = 0
@@ -362,6 +365,7 @@ func (s *S) Test(ms []z.Lit) (res int, ns []z.Lit) {
 	trail := s.Trail
 	start := trail.Tail
 	if r := s.makeAssumptions(); r == -1 {
+		s.testFailed = true
 		ns = nil
 		res = -1
 		return
@@ -419,6 +423,7 @@ func (s *S) Untest() int {
 	}
 	trail := s.Trail
 	lastTestLevel := s.lastTestLevel()
+	s.testFailed = false
 	s.testLevels = s.testLevels[:len(s.testLevels)-1]
 	s.endTestLevel = lastTestLevel
 	if x := s.cleanupSolve(); x != CNull {
@@ -606,6 +611,11 @@ func (s *S) Why(ms []z.Lit) []z.Lit {
 // returns -1 if known to be inconsistent by BCP
 // 0 otherwise.
 func (s *S) solveInit() int {
+	if s.testFailed {
+		// the assumptions of the last test scope are not all on the trail, but
+		// hold until Untest.
+		return -1
+	}
 
 	// set up restarts TODO(wsc) optimize this
 	s.luby = NewLuby()
-- 
2.43.0


From e43b251d363210b4bdee417ccc83681f4c0bbcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 04/76] fix: activating a trivially true clause is not an error

---
 internal/xo/active.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/xo/active.go b/internal/xo/active.go
index b0c906d..df503e2 100644
--- a/internal/xo/active.go
+++ b/internal/xo/active.go
@@ -37,7 +37,7 @@ func (a *Active) ActivateWith(act z.Lit, s *S) {
 		panic("activated empty clause")
 	}
 	if loc == CInf {
-		panic("activated trivially true clause")
+		// trivially true, there is nothing to activate.
 		return
 	}
 	// add occs
-- 
2.43.0


From b808a0ec1e1129a638fa66bc21d9d25bf494f7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 05/76] fix: do not recycle activation literals fixed at level
 0

---
 internal/xo/active.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/xo/active.go b/internal/xo/active.go
index df503e2..abac7b6 100644
--- a/internal/xo/active.go
+++ b/internal/xo/active.go
@@ -63,8 +63,11 @@ func (a *Active) Deactivate(cdb *Cdb, m z.Lit) {
 	sl := a.Occs[mv]
 	a.Occs[mv] = nil
 	cdb.Remove(sl...) // this might trigger CRemap below, so we update occs first.
-	a.Free = append(a.Free, m)
 	a.IsActive[mv] = false
+	if cdb.Vars.Vals[m] == 0 {
+		// a literal fixed at level 0 stays so, it is no good for other clauses.
+		a.Free = append(a.Free, m)
+	}
 }
 
 func (a *Active) CRemap(rlm map[z.C]z.C) {
-- 
2.43.0


From 10a2d578492664f92ff2c0b162c93d1388d77221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 06/76] fix: clause removal keeps reasons and the empty clause
 in place

---
 internal/xo/cgc.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/xo/cgc.go b/internal/xo/cgc.go
index 01c7d64..883072c 100644
--- a/internal/xo/cgc.go
+++ b/internal/xo/cgc.go
@@ -193,7 +193,10 @@ func (c *Cgc) relocate(cdb *Cdb, rlm map[z.C]z.C) {
 	cdb.Learnts = relocateSlice(cdb.Learnts, rlm)
 	cdb.Added = relocateSlice(cdb.Added, rlm)
 	// reasons
-	cdb.Vars.Reasons = relocateSlice(cdb.Vars.Reasons, rlm)
+	relocateReasons(cdb.Vars.Reasons, rlm)
+	if q, ok := rlm[cdb.Bot]; ok {
+		cdb.Bot = q
+	}
 	// watches
 	c.relocateWatches(cdb, rlm)
 	// activation occs
@@ -331,3 +334,12 @@ func relocateSlice(ps []z.C, m map[z.C]z.C) []z.C {
 	}
 	return ps[:j]
 }
+
+// relocateReasons is like relocateSlice, but reasons are indexed by variable.
+func relocateReasons(ps []z.C, m map[z.C]z.C) {
+	for i, p := range ps {
+		if q, ok := m[p]; ok {
+			ps[i] = q
+		}
+	}
+}
-- 
2.43.0


From 33715ac4a1b228f939d512555b76a6bd7aee2568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 07/76] fix: a result which is there when the limit of a
 request passes is not dropped

---
 ax/ax.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/ax/ax.go b/ax/ax.go
index 0fae038..48b4314 100644
--- a/ax/ax.go
+++ b/ax/ax.go
@@ -302,12 +302,7 @@ func (u *unit) handleReq(respChn chan<- *Response, req *Request) {
 		for {
 			select {
 			case <-alarm: // alarm nil/blocks if not time limit.
-				res, ok := u.Solve.Test()
-				if !ok {
-					u.Solve.Stop()
-					u.Solve = nil
-				}
-				u.handleResult(req, res, respChn)
+				u.handleResult(req, u.Solve.Stop(), respChn)
 				return
 			case <-ticker.C:
 				res, ok := u.Solve.Test()
-- 
2.43.0


From 1423e945b2bbaa46a0940786d8276148f7670b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 08/76] fix: a request generator's limit is set under its lock

---
 ax/req.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ax/req.go b/ax/req.go
index 90ab68c..70cf2d6 100644
--- a/ax/req.go
+++ b/ax/req.go
@@ -99,6 +99,8 @@ func (g *RequestGen) New(ms ...z.Lit) *Request {
 // Limit causes requests generated by g.New() to
 // have time limit d.
 func (g *RequestGen) Limit(d time.Duration) {
+	g.mu.Lock()
+	defer g.mu.Unlock()
 	g.limit = d
 }
 
-- 
2.43.0


From d3e93249862888186bf68ab2aa3180cbdbbb76ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 09/76] fix: Stop of the assumption exchanger ends its
 goroutines

---
 ax/ax.go | 60 ++++++++++++++++++++++++++++++++------------------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/ax/ax.go b/ax/ax.go
index 48b4314..5ef9d79 100644
--- a/ax/ax.go
+++ b/ax/ax.go
@@ -77,9 +77,8 @@ func NewT(proto inter.S, cap int) T {
 // outstanding (*), then pool accepts one more request and waits for a u to
 // become available.
 //
-// When the ax receives a channel close on the request channel from the
-// client, it immediately shuts down the u's, which select on a cancelation
-// channel along with their request channel.
+// When the client stops the ax, the done channel is closed.  All communication
+// selects on it, so that the ax and the u's end and nobody waits for them.
 //
 //
 // -ax-(s)-----<Req<----------(s)---Client
@@ -133,6 +132,7 @@ type ax struct {
 	reqChn   chan *Request
 	respChn  chan *Response
 	uRespChn chan *Response
+	done     chan struct{} // closed by Stop
 	us       []*unit
 	avail    []int
 	cap      int
@@ -147,10 +147,11 @@ func newAx(proto inter.S, cap int) *ax {
 		reqChn:   make(chan *Request),
 		respChn:  make(chan *Response),
 		uRespChn: make(chan *Response, 1),
+		done:     make(chan struct{}),
 		us:       make([]*unit, 1, cap),
 		avail:    make([]int, 1, cap),
 		cap:      cap}
-	m.us[0] = newUnit(proto, 0)
+	m.us[0] = newUnit(proto, 0, m.done)
 	m.avail[0] = 0
 	go m.serve()
 	return m
@@ -158,13 +159,20 @@ func newAx(proto inter.S, cap int) *ax {
 
 func (m *ax) Ex(req *Request) *Response {
 	if req == nil {
-		return <-m.respChn
+		select {
+		case resp := <-m.respChn:
+			return resp
+		case <-m.done:
+			return nil
+		}
 	}
 	select {
 	case m.reqChn <- req:
 		return nil
 	case resp := <-m.respChn:
 		return resp
+	case <-m.done:
+		return nil
 	}
 }
 
@@ -189,17 +197,15 @@ func (m *ax) TryEx(req *Request) (*Response, bool) {
 }
 
 func (m *ax) Stop() {
-	close(m.reqChn)
+	close(m.done)
 }
 
 func (m *ax) serve() {
 	for {
 		select {
-		case req, ok := <-m.reqChn:
-			if !ok {
-				m.shutdown()
-				return
-			}
+		case <-m.done:
+			return
+		case req := <-m.reqChn:
 			m.handleReq(req)
 		case resp := <-m.uRespChn:
 			m.handleResp(resp)
@@ -209,8 +215,12 @@ func (m *ax) serve() {
 
 func (m *ax) handleReq(req *Request) {
 	if len(m.avail) == 0 {
-		resp := <-m.uRespChn
-		m.handleResp(resp)
+		select {
+		case resp := <-m.uRespChn:
+			m.handleResp(resp)
+		case <-m.done:
+			return
+		}
 	}
 	u := m.getunit(req)
 	//log.Printf("start request %d by %d\n", req.Id, u.I)
@@ -228,7 +238,7 @@ func (m *ax) getunit(req *Request) *unit {
 		ai := m.avail[0]
 		protounit := m.us[ai]
 		m.avail = append(m.avail, len(m.us))
-		m.us = append(m.us, newUnit(protounit.S.SCopy(), len(m.us)))
+		m.us = append(m.us, newUnit(protounit.S.SCopy(), len(m.us), m.done))
 	}
 
 	//log.Printf("avail %+v/%d/%d\n", m.avail, len(m.us), m.cap)
@@ -252,14 +262,9 @@ func (m *ax) getunit(req *Request) *unit {
 
 func (m *ax) handleResp(resp *Response) {
 	m.avail = append(m.avail, resp.Who)
-	m.respChn <- resp // shouldn't block if client agrees to API
-}
-
-func (m *ax) shutdown() {
-	for _, u := range m.us {
-		if u != nil {
-			u.cancel <- struct{}{}
-		}
+	select {
+	case m.respChn <- resp: // shouldn't block if client agrees to API
+	case <-m.done:
 	}
 }
 
@@ -267,18 +272,18 @@ type unit struct {
 	I      int
 	S      inter.S
 	Solve  inter.Solve
-	cancel chan struct{}
+	cancel <-chan struct{} // closed when the ax is stopped
 	Start  time.Time
 	Pos    []int // Pos[var] gives count of supplied cubes with positive sign for var
 	Neg    []int
 }
 
-func newUnit(s inter.S, i int) *unit {
+func newUnit(s inter.S, i int, cancel <-chan struct{}) *unit {
 	return &unit{
 		I:      i,
 		S:      s,
 		Solve:  nil,
-		cancel: make(chan struct{}),
+		cancel: cancel,
 		Pos:    make([]int, s.MaxVar()+1),
 		Neg:    make([]int, s.MaxVar()+1)}
 }
@@ -347,7 +352,10 @@ func (u *unit) handleResult(req *Request, res int, c chan<- *Response) {
 	}
 
 	//log.Printf("end req %d by %d:%p\n", req.Id, u.I, u.S)
-	c <- resp
+	select {
+	case c <- resp:
+	case <-u.cancel:
+	}
 }
 
 func (u *unit) score(ms []z.Lit) int {
-- 
2.43.0


From 242ffbb7682ece5324e78e4c7a5c91238d2ada0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:32 +0000
Subject: [PATCH 10/76] fix: writing to a CRISP connection keeps input which is
 not yet decoded

---
 crisp/vu32io.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/crisp/vu32io.go b/crisp/vu32io.go
index 1a1816c..6dd925e 100644
--- a/crisp/vu32io.go
+++ b/crisp/vu32io.go
@@ -17,13 +17,15 @@ import (
 // 2. encoding/binary keeps a separate buffer for each value, we code directly
 // to the underlying buffer of the buffered io.
 // 3. we are not safe for multiple goroutines (unliked buffered io)
-// 4. encoding/binary's buffered io needs a separate buffer for reading and
-// writing, we don't in this context.
+//
+// Reading and writing have separate buffers: what the other end has sent ahead
+// and is not yet decoded must survive a write.
 
 type vu32io struct {
 	rw   io.ReadWriter
-	buf  []byte
+	buf  []byte // input, buf[r:w] is not yet decoded
 	r, w int
+	out  []byte // output not yet written
 }
 
 const (
@@ -35,7 +37,8 @@ func newVu32Io(rw io.ReadWriter) *vu32io {
 		rw:  rw,
 		r:   0,
 		w:   0,
-		buf: make([]byte, 1024)}
+		buf: make([]byte, 1024),
+		out: make([]byte, 0, 1024)}
 }
 
 func (io *vu32io) readu32() (uint32, error) {
@@ -135,20 +138,16 @@ func (io *vu32io) readByte() (byte, error) {
 }
 
 func (io *vu32io) writeByte(b byte) error {
-	if io.r >= len(io.buf) {
+	if len(io.out) == cap(io.out) {
 		if e := io.flush(); e != nil {
 			return e
 		}
 	}
-	io.buf[io.r] = b
-	io.r++
+	io.out = append(io.out, b)
 	return nil
 }
 
 func (vio *vu32io) fill() error {
-	if vio.r > vio.w {
-		return fmt.Errorf("fill without write flush")
-	}
 	if vio.r == vio.w {
 		vio.r = 0
 		vio.w = 0
@@ -170,16 +169,17 @@ func (vio *vu32io) fill() error {
 }
 
 func (io *vu32io) flush() error {
-	n := io.r
-	m := io.w
+	n := len(io.out)
+	m := 0
 	k := 0
 	for m < n {
-		o, e := io.rw.Write(io.buf[m:n])
+		o, e := io.rw.Write(io.out[m:])
 		m += o
 		if o > 0 {
 			k = 0
 		}
 		if e != nil {
+			io.out = io.out[:copy(io.out, io.out[m:])]
 			return e
 		}
 		k++
@@ -187,7 +187,6 @@ func (io *vu32io) flush() error {
 			return fmt.Errorf("repeated zero length no-error writes.")
 		}
 	}
-	io.r = 0
-	io.w = 0
+	io.out = io.out[:0]
 	return nil
 }
-- 
2.43.0


From 4daeab539a5cd7aaf004f1f80fc2ed30cc678fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:32 +0000
Subject: [PATCH 11/76] fix: a varuint of more than 32 bits is an error

---
 crisp/vu32io.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crisp/vu32io.go b/crisp/vu32io.go
index 6dd925e..ed55b50 100644
--- a/crisp/vu32io.go
+++ b/crisp/vu32io.go
@@ -54,6 +54,10 @@ func (io *vu32io) readu32() (uint32, error) {
 			return 0, e
 		}
 		z := uint32(b) & VarUintMask
+		if i == 4 && z > 0xf {
+			// more than 32 bits
+			return 0, ErrVarUint
+		}
 
 		res = res | (z << s)
 		if b&(1<<7) == 0 {
-- 
2.43.0


From 2eba7b92663dbeb7e7a7b7f41b12eef34d2588c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:33 +0000
Subject: [PATCH 12/76] fix: Stop and Try of a CRISP background solve do not
 hang

---
 crisp/client.go   | 25 +++++++++++++------------
 crisp/netsolve.go | 10 +++++-----
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/crisp/client.go b/crisp/client.go
index 365015a..5c23e10 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -18,9 +18,6 @@ import (
 // Type Client is a concrete Solver which communicates using the gini sat protocol.
 type Client struct {
 	conn    net.Conn
-	cancel  chan struct{}
-	resChan chan result
-
 	io      *vu32io
 	proto   ProtoPoint
 	lastSat int
@@ -45,8 +42,6 @@ func Dial(addr string) (*Client, error) {
 	}
 	c := &Client{
 		conn:    conn,
-		cancel:  make(chan struct{}),
-		resChan: make(chan result),
 		io:      newVu32Io(conn),
 		proto:   Unknown,
 		lastSat: 0}
@@ -155,6 +150,11 @@ func (c *Client) MaxVar() z.Var {
 //
 //  -1 if the problem is unsatisfiable
 func (c *Client) Solve() (int, error) {
+	return c.solve(nil)
+}
+
+// solve is Solve which asks the server to end once cancel has something.
+func (c *Client) solve(cancel <-chan struct{}) (int, error) {
 	if e := c.checkState(Solve); e != nil {
 		return 0, e
 	}
@@ -186,7 +186,7 @@ func (c *Client) Solve() (int, error) {
 				return 0, ErrOutOfOrder
 			}
 			select {
-			case <-c.cancel:
+			case <-cancel:
 				if e := c.io.writeflush(uint32(End)); e != nil {
 					return 0, e
 				}
@@ -209,14 +209,15 @@ func (c *Client) Solve() (int, error) {
 // GoSolve returns a connection to a solve proces
 // in the background.
 func (c *Client) GoSolve() gnet.Solve {
-	as := &netsolve{
-		cancel: c.cancel,
-		result: c.resChan}
+	cancel := make(chan struct{}, 1)
+	res := make(chan result, 1)
 	go func() {
-		v, e := c.Solve()
-		c.resChan <- result{v: v, e: e}
+		v, e := c.solve(cancel)
+		res <- result{v: v, e: e}
 	}()
-	return as
+	return &netsolve{
+		cancel: cancel,
+		result: res}
 }
 
 // Model returns a model of the formula if the last Solve()
diff --git a/crisp/netsolve.go b/crisp/netsolve.go
index 1b08713..de57e1f 100644
--- a/crisp/netsolve.go
+++ b/crisp/netsolve.go
@@ -5,6 +5,8 @@ package crisp
 
 import "time"
 
+// both channels belong to one solve and are 1-buffered, so neither side waits for
+// the other one to be there.
 type netsolve struct {
 	cancel chan<- struct{}
 	result <-chan result
@@ -38,11 +40,9 @@ func (s *netsolve) Try(d time.Duration) (int, error) {
 // the result should be ignored if a non-nil error is returned.
 func (s *netsolve) Stop() (int, error) {
 	select {
-	case res := <-s.result:
-		s.cancel <- struct{}{}
-		return res.v, res.e
 	case s.cancel <- struct{}{}:
-		r := <-s.result
-		return r.v, r.e
+	default:
 	}
+	r := <-s.result
+	return r.v, r.e
 }
-- 
2.43.0


From 16a0037c4482b553c80fb374968a156372b66ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:30 +0000
Subject: [PATCH 13/76] fix: the CRISP client reports connection errors it had
 dropped

---
 crisp/client.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crisp/client.go b/crisp/client.go
index 5c23e10..896eab6 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -46,6 +46,7 @@ func Dial(addr string) (*Client, error) {
 		proto:   Unknown,
 		lastSat: 0}
 	if e := c.Hello(); e != nil {
+		conn.Close()
 		return nil, e
 	}
 	return c, nil
@@ -109,7 +110,9 @@ func (c *Client) fromXo(x *xo.S) error {
 // To terminate the clause, m should 0.
 func (c *Client) Add(m z.Lit) error {
 	if c.proto != Add {
-		c.checkState(Add)
+		if e := c.checkState(Add); e != nil {
+			return e
+		}
 	}
 	if m.Var() > c.maxVar {
 		c.maxVar = m.Var()
@@ -123,7 +126,9 @@ func (c *Client) Assume(ms ...z.Lit) error {
 	if len(ms) == 0 {
 		return nil
 	}
-	c.checkState(Assume)
+	if e := c.checkState(Assume); e != nil {
+		return e
+	}
 	if e := c.io.send(ms); e != nil {
 		return e
 	}
@@ -227,7 +232,7 @@ func (c *Client) Model(vs []bool) ([]bool, error) {
 		return nil, fmt.Errorf("last solve call wasn't sat")
 	}
 	if e := c.checkState(Model); e != nil {
-		return nil, nil
+		return nil, e
 	}
 	var u uint32
 	var n uint32
@@ -277,7 +282,7 @@ func (c *Client) ModelFor(dst []bool, ms []z.Lit) ([]bool, error) {
 		return nil, fmt.Errorf("last solve call wasn't sat")
 	}
 	if e := c.checkState(ModelFor); e != nil {
-		return nil, nil
+		return nil, e
 	}
 	if e := c.io.send(ms); e != nil {
 		return nil, e
@@ -318,7 +323,7 @@ func (c *Client) Why(ms []z.Lit) ([]z.Lit, error) {
 		return nil, fmt.Errorf("last solve call wasn't unsat")
 	}
 	if e := c.checkState(Failed); e != nil {
-		return ms, nil
+		return ms, e
 	}
 	return c.io.recv(ms)
 }
@@ -331,7 +336,7 @@ func (c *Client) WhySelect(dst []z.Lit, ms []z.Lit) ([]z.Lit, error) {
 		return nil, fmt.Errorf("last solve call wasn't unsat")
 	}
 	if e := c.checkState(FailedFor); e != nil {
-		return dst, nil
+		return dst, e
 	}
 	if e := c.io.send(ms); e != nil {
 		return nil, e
-- 
2.43.0


From 1cb9933f8d715e6f04524abd7a54e695171d87fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:30 +0000
Subject: [PATCH 14/76] fix: ModelFor of the CRISP client does not slice beyond
 the caller's storage

---
 crisp/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crisp/client.go b/crisp/client.go
index 896eab6..07003ad 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -301,7 +301,7 @@ func (c *Client) ModelFor(dst []bool, ms []z.Lit) ([]bool, error) {
 	if cap(dst) < int(theCap) {
 		dst = make([]bool, theCap)
 	} else {
-		dst = dst[:theCap+1]
+		dst = dst[:theCap]
 	}
 	for i := uint32(0); i < theCap-1; i++ {
 		j := i % 32
-- 
2.43.0


From ce5a491e25a33150f02415e26d4792aa6d93c911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:31 +0000
Subject: [PATCH 15/76] fix: values from the CRISP client are those of the last
 solve

---
 crisp/client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crisp/client.go b/crisp/client.go
index 07003ad..b6cfea2 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -160,6 +160,8 @@ func (c *Client) Solve() (int, error) {
 
 // solve is Solve which asks the server to end once cancel has something.
 func (c *Client) solve(cancel <-chan struct{}) (int, error) {
+	c.lastSat = 0
+	c.model = nil // of an earlier solve
 	if e := c.checkState(Solve); e != nil {
 		return 0, e
 	}
@@ -386,6 +388,9 @@ func (c *Client) Reset() error {
 		return e
 	}
 	c.proto = Unknown
+	c.lastSat = 0
+	c.model = nil
+	c.maxVar = 0
 	return nil
 }
 
-- 
2.43.0


From bd4420379a34f9874acc3f97c9ae7b7a93812de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 16/76] fix: the CRISP server answers every protocol violation
 with an error op

---
 crisp/handler.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/crisp/handler.go b/crisp/handler.go
index f84fbc6..83c86b6 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -70,6 +70,9 @@ func (h *Handler) serveConn(conn net.Conn) {
 	h.gini = gini.New()
 	h.proto = Unknown
 	if e := h.Crisp(); e != nil {
+		if pe, ok := e.(ProtoErr); ok {
+			h.Error(pe)
+		}
 		log.Printf("%d crisp() result error %s", h.id, e)
 	}
 	h.cleanup()
@@ -152,7 +155,7 @@ func (h *Handler) Crisp() error {
 		case Quit:
 			return h.handleQuit()
 		default:
-			return h.Error(ErrUnknownOp)
+			return ErrUnknownOp
 		}
 	}
 }
@@ -214,7 +217,7 @@ func (h *Handler) handleAdd() error {
 			return nil
 		}
 		if m >= uint32(MinProto) {
-			return fmt.Errorf("CRISP protocol error expected data, got %s", ProtoPoint(m))
+			return ErrNotLit
 		}
 		g.Add(z.Lit(m))
 	}
@@ -305,7 +308,7 @@ func (h *Handler) sendRes(res int, end bool) error {
 func (h *Handler) handleModel() error {
 	if h.proto != Solve {
 		log.Printf("model but not solving.\n")
-		return h.Error(ErrOutOfOrder)
+		return ErrOutOfOrder
 	}
 	var u uint32
 	M := uint32(h.gini.MaxVar())
@@ -338,7 +341,7 @@ func (h *Handler) handleModel() error {
 
 func (h *Handler) handleModelFor() error {
 	if h.proto != Solve {
-		return h.Error(ErrOutOfOrder)
+		return ErrOutOfOrder
 	}
 	ms, e := h.uio.recv(h.ms)
 	if e != nil {
@@ -371,7 +374,7 @@ func (h *Handler) handleModelFor() error {
 func (h *Handler) handleFailed() error {
 	if h.proto != Solve {
 		log.Printf("failed but not solve\n")
-		return h.Error(ErrOutOfOrder)
+		return ErrOutOfOrder
 	}
 	fails := h.gini.Why(h.ms)
 	if e := h.uio.send(fails); e != nil {
@@ -382,7 +385,7 @@ func (h *Handler) handleFailed() error {
 
 func (h *Handler) handleFailedFor() error {
 	if h.proto != Solve {
-		return h.Error(ErrOutOfOrder)
+		return ErrOutOfOrder
 	}
 	fMap := make(map[z.Lit]struct{})
 	h.ms = h.ms[:0]
@@ -417,6 +420,7 @@ func (h *Handler) handleQuit() error {
 	return nil
 }
 
+// Error sends an error op with code e, after which the connection should be closed.
 func (h *Handler) Error(e ProtoErr) error {
 	if *h.trace {
 		log.Printf("%d <error> %s\n", h.id, e)
@@ -424,9 +428,5 @@ func (h *Handler) Error(e ProtoErr) error {
 	if e := h.uio.writeu32(uint32(Error)); e != nil {
 		return e
 	}
-	if e := h.uio.writeflush(uint32(e)); e != nil {
-		return e
-	}
-	h.cleanup()
-	return e
+	return h.uio.writeflush(uint32(e))
 }
-- 
2.43.0


From 20045206d4406ec3d21eef3577ab152ed3eff408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:05 +0000
Subject: [PATCH 17/76] fix: the CRISP server keeps track of the state of the
 last solve

After <end>, models and failed assumptions were refused although the solve had
an answer; <continue> and <end> after an answer hung or answered <unknown> for
ever; models were sent when the answer was not <sat>; other operations were
accepted in the middle of a solve; a solve went on after its client had gone.
---
 crisp/handler.go | 72 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 47 insertions(+), 25 deletions(-)

diff --git a/crisp/handler.go b/crisp/handler.go
index 83c86b6..4cfc288 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -28,7 +28,8 @@ type Handler struct {
 	conn      net.Conn
 	uio       *vu32io
 	gini      *gini.Gini
-	solveConn inter.Solve
+	solveConn inter.Solve // nil unless a solve is pending
+	result    int         // of the last solve
 	proto     ProtoPoint
 	ms        []z.Lit
 	trace     *bool
@@ -83,6 +84,10 @@ func (h *Handler) cleanup() {
 		log.Printf("%d cleanup\n", h.id)
 	}
 	h.conn.Close()
+	if h.solveConn != nil {
+		h.solveConn.Stop()
+		h.solveConn = nil
+	}
 	h.uio = nil
 	h.gini = nil
 	h.ms = h.ms[:0]
@@ -103,6 +108,9 @@ func (h *Handler) Crisp() error {
 		if *h.trace {
 			log.Printf("%d received %s\n", h.id, p)
 		}
+		if e := h.checkOrder(p); e != nil {
+			return e
+		}
 		switch p {
 		case Key:
 			if e := h.handleKey(); e != nil {
@@ -160,6 +168,37 @@ func (h *Handler) Crisp() error {
 	}
 }
 
+// checkOrder checks that the client may send p now.
+func (h *Handler) checkOrder(p ProtoPoint) error {
+	if h.solveConn != nil {
+		// the client has been sent <unknown>
+		switch p {
+		case Continue, End, Quit:
+			return nil
+		}
+		return ErrOutOfOrder
+	}
+	switch p {
+	case Continue, End:
+		return ErrOutOfOrder
+	case Model, ModelFor:
+		if h.proto != Solve {
+			return ErrOutOfOrder
+		}
+		if h.result != 1 {
+			return ErrNotSat
+		}
+	case Failed, FailedFor:
+		if h.proto != Solve {
+			return ErrOutOfOrder
+		}
+		if h.result != -1 {
+			return ErrNotUnsat
+		}
+	}
+	return nil
+}
+
 func (h *Handler) Hello() error {
 	s := "CRISP"
 	for i := 0; i < len(s); i++ {
@@ -245,20 +284,13 @@ func (h *Handler) handleSolve() error {
 }
 
 func (h *Handler) handleContinue() error {
-	if h.proto != Solve {
-		log.Printf("continue but not solving.\n")
-		return ErrOutOfOrder
-	}
 	return h.handleStep()
 }
 
 func (h *Handler) handleEnd() error {
-	if h.proto != Solve {
-		log.Printf("end but not solving\n")
-		return ErrOutOfOrder
-	}
-	h.proto = End
-	return h.sendRes(h.solveConn.Stop(), true)
+	h.result = h.solveConn.Stop()
+	h.solveConn = nil
+	return h.sendRes(h.result, true)
 }
 
 func (h *Handler) handleStep() error {
@@ -266,6 +298,10 @@ func (h *Handler) handleStep() error {
 	if res == 0 && done {
 		panic("Test bombed")
 	}
+	if done {
+		h.result = res
+		h.solveConn = nil
+	}
 	h.steps++
 	return h.sendRes(res, false)
 }
@@ -306,10 +342,6 @@ func (h *Handler) sendRes(res int, end bool) error {
 }
 
 func (h *Handler) handleModel() error {
-	if h.proto != Solve {
-		log.Printf("model but not solving.\n")
-		return ErrOutOfOrder
-	}
 	var u uint32
 	M := uint32(h.gini.MaxVar())
 	N := M
@@ -340,9 +372,6 @@ func (h *Handler) handleModel() error {
 }
 
 func (h *Handler) handleModelFor() error {
-	if h.proto != Solve {
-		return ErrOutOfOrder
-	}
 	ms, e := h.uio.recv(h.ms)
 	if e != nil {
 		return e
@@ -372,10 +401,6 @@ func (h *Handler) handleModelFor() error {
 }
 
 func (h *Handler) handleFailed() error {
-	if h.proto != Solve {
-		log.Printf("failed but not solve\n")
-		return ErrOutOfOrder
-	}
 	fails := h.gini.Why(h.ms)
 	if e := h.uio.send(fails); e != nil {
 		return e
@@ -384,9 +409,6 @@ func (h *Handler) handleFailed() error {
 }
 
 func (h *Handler) handleFailedFor() error {
-	if h.proto != Solve {
-		return ErrOutOfOrder
-	}
 	fMap := make(map[z.Lit]struct{})
 	h.ms = h.ms[:0]
 	fs := h.gini.Why(h.ms)
-- 
2.43.0


From fe7b2afa22e578d0138a5c715e69d557d9c29998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:05 +0000
Subject: [PATCH 18/76] fix: the length of a CRISP key is not trusted for an
 allocation

---
 crisp/handler.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crisp/handler.go b/crisp/handler.go
index 4cfc288..4c3d2c3 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -215,13 +215,11 @@ func (h *Handler) handleKey() error {
 	if e != nil {
 		return e
 	}
-	key := make([]uint32, n)
+	// don't make room for n atoms which the client only announces.
 	for i := uint32(0); i < n; i++ {
-		m, e := h.uio.readu32()
-		if e != nil {
+		if _, e := h.uio.readu32(); e != nil {
 			return e
 		}
-		key[i] = m
 	}
 	// check the key
 	return nil
-- 
2.43.0


From 7890a8f5cd9e94fe541d730499a12905d113f88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 19/76] fix: a partial CRISP model of unknown variables does
 not end the server

---
 crisp/handler.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crisp/handler.go b/crisp/handler.go
index 4c3d2c3..7cb708e 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -369,6 +369,15 @@ func (h *Handler) handleModel() error {
 	return h.uio.flush()
 }
 
+// value is the value of m in the model, in which variables the solver has not
+// met are false.
+func (h *Handler) value(m z.Lit) bool {
+	if m.Var() > h.gini.MaxVar() {
+		return !m.IsPos()
+	}
+	return h.gini.Value(m)
+}
+
 func (h *Handler) handleModelFor() error {
 	ms, e := h.uio.recv(h.ms)
 	if e != nil {
@@ -385,7 +394,7 @@ func (h *Handler) handleModelFor() error {
 	var u uint32
 	for i := uint32(0); i < N; i++ {
 		j := i % 32
-		if i < M && h.gini.Value(ms[i]) {
+		if i < M && h.value(ms[i]) {
 			u = u | (1 << j)
 		}
 		if j == uint32(31) {
-- 
2.43.0


From 19a4921f9bb22e2ccfee09bca2bdee3d02ccecdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 20/76] fix: CRISP data which is no literal of a variable is an
 error

---
 crisp/handler.go | 2 +-
 crisp/vu32io.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crisp/handler.go b/crisp/handler.go
index 7cb708e..f06a745 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -253,7 +253,7 @@ func (h *Handler) handleAdd() error {
 			}
 			return nil
 		}
-		if m >= uint32(MinProto) {
+		if m >= uint32(MinProto) || m == uint32(z.LitNull.Not()) {
 			return ErrNotLit
 		}
 		g.Add(z.Lit(m))
diff --git a/crisp/vu32io.go b/crisp/vu32io.go
index ed55b50..3fa6c1b 100644
--- a/crisp/vu32io.go
+++ b/crisp/vu32io.go
@@ -116,7 +116,7 @@ func (io *vu32io) recv(dst []z.Lit) ([]z.Lit, error) {
 		if d == 0 {
 			return dst, nil
 		}
-		if d >= uint32(MinProto) {
+		if d >= uint32(MinProto) || d == uint32(z.LitNull.Not()) {
 			return dst, ErrNotLit
 		}
 		dst = append(dst, z.Lit(d))
-- 
2.43.0


From aed3e41ee9975a97ad24b4259979ca9c88db2edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:50 +0000
Subject: [PATCH 21/76] fix: Value of a variable which the CRISP server has not
 met does not panic

---
 crisp/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crisp/client.go b/crisp/client.go
index b6cfea2..637b914 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -272,6 +272,10 @@ func (c *Client) Value(m z.Lit) (bool, error) {
 		}
 		c.model = m
 	}
+	if int(m.Var()) >= len(c.model) {
+		// the server has not met it, so it is false.
+		return !m.IsPos(), nil
+	}
 	if m.IsPos() {
 		return c.model[m.Var()], nil
 	}
-- 
2.43.0


From 49f5748215d5d9900330752add38b764f0052953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:56 +0000
Subject: [PATCH 22/76] fix: comments which arrive together with an error or
 the end of input are filtered

---
 dimacs/cfilt.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/dimacs/cfilt.go b/dimacs/cfilt.go
index 74e4e8d..bd23b0b 100644
--- a/dimacs/cfilt.go
+++ b/dimacs/cfilt.go
@@ -44,9 +44,6 @@ func (s state) String() string {
 func (f *CommentFilter) Read(buf []byte) (n int, e error) {
 Start:
 	n, e = f.rdr.Read(buf)
-	if e != nil {
-		return n, e
-	}
 	j := 0
 	state := f.state
 	for _, b := range buf[:n] {
@@ -95,8 +92,8 @@ Start:
 		}
 	}
 	f.state = state
-	if j == 0 {
+	if j == 0 && n != 0 && e == nil {
 		goto Start
 	}
-	return j, nil
+	return j, e
 }
-- 
2.43.0


From 655c23160fe443c2982b52236276e2abdbb1c90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 23/76] fix: a comment behind a blank line behind a comment is
 a comment

---
 dimacs/cfilt.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dimacs/cfilt.go b/dimacs/cfilt.go
index bd23b0b..aa0f7eb 100644
--- a/dimacs/cfilt.go
+++ b/dimacs/cfilt.go
@@ -66,7 +66,11 @@ Start:
 			}
 			buf[j] = b
 			j++
-			state = notComment
+			if b == byte('\n') {
+				state = newLine
+			} else {
+				state = notComment
+			}
 		case newLine:
 			if b == byte('c') {
 				state = inComment
-- 
2.43.0


From 6562c366d27e962a531b51dbfdff272c12a2bd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:59 +0000
Subject: [PATCH 24/76] fix: a lone minus sign and numbers out of range are
 errors in dimacs

---
 dimacs/int.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dimacs/int.go b/dimacs/int.go
index 687c9c7..fc1d375 100644
--- a/dimacs/int.go
+++ b/dimacs/int.go
@@ -7,11 +7,13 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 )
 
 func readInt(rdr *bufio.Reader) (int, error) {
 	v := 0
 	m := 1
+	digits := 0
 	c, e := readNextNonWhiteByte(rdr)
 
 	if e != nil && e != io.EOF {
@@ -22,6 +24,7 @@ func readInt(rdr *bufio.Reader) (int, error) {
 	}
 	if c >= byte('0') && c <= byte('9') {
 		v = int(c - byte('0'))
+		digits++
 	} else if c == byte('-') {
 		m = -1
 	} else {
@@ -30,12 +33,18 @@ func readInt(rdr *bufio.Reader) (int, error) {
 	for {
 		c, e = rdr.ReadByte()
 		if e == io.EOF {
+			if digits == 0 {
+				return 0, io.ErrUnexpectedEOF
+			}
 			return v * m, nil
 		}
 		if e != nil {
 			return 0, e
 		}
 		if c == byte(' ') || c == byte('\n') || c == byte('\t') || c == byte('\r') {
+			if digits == 0 {
+				return 0, fmt.Errorf("bad character for int: %c", c)
+			}
 			break
 		}
 		if c < byte('0') || c > byte('9') {
@@ -43,6 +52,10 @@ func readInt(rdr *bufio.Reader) (int, error) {
 		}
 		v *= 10
 		v += int(c - byte('0'))
+		digits++
+		if v > math.MaxInt32 {
+			return 0, fmt.Errorf("int out of range")
+		}
 	}
 	return v * m, nil
 }
-- 
2.43.0


From a50045124d8ed8e609ae6ed4df1c6acf162d3990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:00 +0000
Subject: [PATCH 25/76] fix: a dimacs file which ends inside of a clause is an
 error

---
 dimacs/cnf.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dimacs/cnf.go b/dimacs/cnf.go
index c426f7d..fe8e216 100644
--- a/dimacs/cnf.go
+++ b/dimacs/cnf.go
@@ -112,9 +112,14 @@ func (r *cnfReader) readBody() error {
 	v := 0
 	var e error
 	vis := r.vis
+	open := false // in a clause
 	for {
 		v, e = readInt(r.rdr)
 		if e == io.EOF {
+			if open {
+				return io.ErrUnexpectedEOF
+			}
+			vis.Eof()
 			return nil
 		}
 		if e != nil {
@@ -122,6 +127,7 @@ func (r *cnfReader) readBody() error {
 		}
 		if v == 0 {
 			vis.Add(0)
+			open = false
 			r.nCls++
 			continue
 		}
@@ -132,6 +138,7 @@ func (r *cnfReader) readBody() error {
 		} else if r.vMax < v {
 			r.vMax = v
 		}
+		open = true
 		vis.Add(z.Dimacs2Lit(v))
 	}
 }
-- 
2.43.0


From 994ba270cc1430f2c22141483a5ed0605319cb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:01 +0000
Subject: [PATCH 26/76] fix: an icnf file which ends inside of a clause or cube
 is an error, white space at its end is not

---
 dimacs/icnf.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dimacs/icnf.go b/dimacs/icnf.go
index 5f058d2..f40cf27 100644
--- a/dimacs/icnf.go
+++ b/dimacs/icnf.go
@@ -33,9 +33,13 @@ func (i *iCnfReader) read() error {
 	rdr := i.rdr
 	vis := i.vis
 	assumptions := false
+	open := false // in a clause or a cube
 	for {
-		c, e := rdr.ReadByte()
+		c, e := readNextNonWhiteByte(rdr)
 		if e == io.EOF {
+			if open {
+				return io.ErrUnexpectedEOF
+			}
 			vis.Eof()
 			return nil
 		}
@@ -58,7 +62,8 @@ func (i *iCnfReader) read() error {
 		} else {
 			vis.Add(m)
 		}
-		if m == z.LitNull {
+		open = m != z.LitNull
+		if !open {
 			assumptions = false
 		}
 	}
-- 
2.43.0


From e0ad86f076e3e0b8980b9a6f6e7e42045b3e2539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:04 +0000
Subject: [PATCH 27/76] fix: values of a solver output may span several lines

---
 dimacs/int.go   | 27 +++++++++++++++++----------
 dimacs/lit.go   |  9 +++++++++
 dimacs/solve.go |  9 ++++++++-
 3 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/dimacs/int.go b/dimacs/int.go
index fc1d375..92b90c1 100644
--- a/dimacs/int.go
+++ b/dimacs/int.go
@@ -11,16 +11,23 @@ import (
 )
 
 func readInt(rdr *bufio.Reader) (int, error) {
+	v, _, e := readIntEnd(rdr)
+	return v, e
+}
+
+// readIntEnd is readInt which returns also the byte read behind the number, 0 at the
+// end of input.
+func readIntEnd(rdr *bufio.Reader) (int, byte, error) {
 	v := 0
 	m := 1
 	digits := 0
 	c, e := readNextNonWhiteByte(rdr)
 
 	if e != nil && e != io.EOF {
-		return 0, e
+		return 0, 0, e
 	}
 	if e == io.EOF && c == 0 {
-		return 0, e
+		return 0, 0, e
 	}
 	if c >= byte('0') && c <= byte('9') {
 		v = int(c - byte('0'))
@@ -28,36 +35,36 @@ func readInt(rdr *bufio.Reader) (int, error) {
 	} else if c == byte('-') {
 		m = -1
 	} else {
-		return 0, fmt.Errorf("bad character for int: %c", c)
+		return 0, 0, fmt.Errorf("bad character for int: %c", c)
 	}
 	for {
 		c, e = rdr.ReadByte()
 		if e == io.EOF {
 			if digits == 0 {
-				return 0, io.ErrUnexpectedEOF
+				return 0, 0, io.ErrUnexpectedEOF
 			}
-			return v * m, nil
+			return v * m, 0, nil
 		}
 		if e != nil {
-			return 0, e
+			return 0, 0, e
 		}
 		if c == byte(' ') || c == byte('\n') || c == byte('\t') || c == byte('\r') {
 			if digits == 0 {
-				return 0, fmt.Errorf("bad character for int: %c", c)
+				return 0, 0, fmt.Errorf("bad character for int: %c", c)
 			}
 			break
 		}
 		if c < byte('0') || c > byte('9') {
-			return 0, fmt.Errorf("bad character for int: %c", c)
+			return 0, 0, fmt.Errorf("bad character for int: %c", c)
 		}
 		v *= 10
 		v += int(c - byte('0'))
 		digits++
 		if v > math.MaxInt32 {
-			return 0, fmt.Errorf("int out of range")
+			return 0, 0, fmt.Errorf("int out of range")
 		}
 	}
-	return v * m, nil
+	return v * m, c, nil
 }
 
 func readNextNonWhiteByte(rdr *bufio.Reader) (byte, error) {
diff --git a/dimacs/lit.go b/dimacs/lit.go
index fdfd524..2c2ccbd 100644
--- a/dimacs/lit.go
+++ b/dimacs/lit.go
@@ -18,3 +18,12 @@ func readLit(r *bufio.Reader) (m z.Lit, e error) {
 	m = z.Dimacs2Lit(i)
 	return
 }
+
+// readLitEol is readLit which tells also whether a line ends with the literal.
+func readLitEol(r *bufio.Reader) (m z.Lit, eol bool, e error) {
+	i, c, e := readIntEnd(r)
+	if e != nil {
+		return
+	}
+	return z.Dimacs2Lit(i), c == byte('\n'), nil
+}
diff --git a/dimacs/solve.go b/dimacs/solve.go
index 8244ad4..163848d 100644
--- a/dimacs/solve.go
+++ b/dimacs/solve.go
@@ -87,14 +87,21 @@ func (s *sRdr) read() error {
 				return fmt.Errorf("unexpected character '%c' at line %d\n", c, line)
 			}
 		case values:
+			if c == byte(' ') || c == byte('\t') || c == byte('\r') {
+				continue
+			}
 			if e := rdr.UnreadByte(); e != nil {
 				return e
 			}
-			m, e := readLit(rdr)
+			m, eol, e := readLitEol(rdr)
 			if e != nil {
 				return e
 			}
 			vis.Value(m)
+			if eol {
+				line++
+				state = neither
+			}
 		case sol:
 			solbuf = append(solbuf, c)
 		}
-- 
2.43.0


From 2b47967a7fa7f48404d7cbeaaabb0f2daa54fc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:04 +0000
Subject: [PATCH 28/76] fix: a dimacs header which is cut off or has negative
 sizes is an error

---
 dimacs/cnf.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dimacs/cnf.go b/dimacs/cnf.go
index fe8e216..a6e445e 100644
--- a/dimacs/cnf.go
+++ b/dimacs/cnf.go
@@ -94,7 +94,10 @@ func (r *cnfReader) readHeader() error {
 		if e := r.rdr.UnreadByte(); e != nil {
 			return e
 		}
-		return r.readP()
+		if e := r.readP(); e != io.EOF {
+			return e
+		}
+		return io.ErrUnexpectedEOF
 	}
 	return r.rdr.UnreadByte()
 }
@@ -166,6 +169,9 @@ func (r *cnfReader) readP() error {
 	if e != nil {
 		return e
 	}
+	if nv < 0 || nc < 0 {
+		return fmt.Errorf("problem statement: negative size %d %d\n", nv, nc)
+	}
 	r.hdrVars = nv
 	r.hdrCls = nc
 	return nil
-- 
2.43.0


From ac0decd96fde115b22669fd004162761834e7f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:05 +0000
Subject: [PATCH 29/76] fix: aiger constants are not written negated

---
 logic/aiger/aiger.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index c41442c..8e2dd82 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -605,7 +605,14 @@ func (abw *aigerBinWriter) mapLit(m z.Lit) {
 func (abw *aigerBinWriter) forLit(m z.Lit) uint {
 	v := m.Var()
 	a := abw.idMap[v]
-	if a == 0 || m.IsPos() {
+	if v == abw.trueLit.Var() {
+		// 0 is false
+		if m == abw.trueLit {
+			return 1
+		}
+		return 0
+	}
+	if m.IsPos() {
 		return a
 	}
 	return a | 1
@@ -1407,11 +1414,11 @@ func readUint(r *bufio.Reader) (uint, error) {
 // write a literal in AIGER style (modulo 2 gives pos/neg)
 func writeLit(w *bufio.Writer, m, t z.Lit) error {
 	if m == t {
-		_, err := w.WriteString("0")
+		_, err := w.WriteString("1")
 		return err
 	}
 	if m == t.Not() {
-		_, err := w.WriteString("1")
+		_, err := w.WriteString("0")
 		return err
 	}
 	u := m - 2
-- 
2.43.0


From ff6c339ef4b21cca0aa6449f5c0dd4d42712687d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:08 +0000
Subject: [PATCH 30/76] fix: uninitialized latches of ascii aiger files are
 read back

---
 logic/aiger/aiger.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 8e2dd82..4459007 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -779,17 +779,22 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 	var i uint
 	for i = 0; i < hdr.Latch; i++ {
 		var m z.Lit
+		var self uint
 		if ascii {
 			latch, latchErr := readUint(br)
 			if latchErr != nil {
 				return latchErr
 			}
+			if latch > hdr.Max*2+1 {
+				return LitOOB
+			}
 			if latch&1 != 0 {
 				return SignedLatch
 			}
 			abr.AigLatches = append(abr.AigLatches, latch)
 			m = abr.S.Latch(abr.S.F)
 			abr.mapLit(latch, m)
+			self = latch
 			b, e := br.ReadByte()
 			if e == io.EOF {
 				return PrematureEOF
@@ -804,6 +809,7 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 			g := (hdr.In + i + 1) * 2
 			m = abr.S.Latch(abr.S.F)
 			abr.mapLit(g, m)
+			self = g
 		}
 		nxt, errNxt := readUint(br)
 		if errNxt != nil {
@@ -833,7 +839,7 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 				abr.SetInit(m, abr.S.F)
 			} else if ini == 1 {
 				abr.SetInit(m, abr.S.T)
-			} else if ini == (i+hdr.In+1)*2 {
+			} else if ini == self {
 				abr.SetInit(m, 0)
 			} else {
 				return InvalidLatchInit
-- 
2.43.0


From f339f88b72d0ccdd9b3a3604e2a84b7378073da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:10 +0000
Subject: [PATCH 31/76] fix: aiger headers count the gates which are written,
 among them those of constraints

---
 logic/aiger/aiger.go | 40 +++++++++++++---------------------------
 1 file changed, 13 insertions(+), 27 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 4459007..fc7a543 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -371,23 +371,12 @@ func (a *T) WriteBinary(w io.Writer) error {
 		abw.mapLit(m)
 	}
 	// create mapping for and gates
-	nexts := make([]z.Lit, 0, len(a.Latches))
-	for _, m := range a.Latches {
-		nexts = append(nexts, a.Next(m))
-	}
 	dfs := newsDfs(a.S, func(s *logic.S, m z.Lit) {
 		if s.Type(m) == logic.SAnd {
 			abw.mapLit(m)
 		}
 	})
-	dfs.post(a.Outputs...)
-	dfs.post(nexts...)
-	dfs.post(a.Bad...)
-	dfs.post(a.Constraints...)
-	for _, ma := range a.Justice {
-		dfs.post(ma...)
-	}
-	dfs.post(a.Fair...)
+	a.postAll(dfs)
 	dfs.reset()
 
 	// Stage2: write the remaining data.  Latches
@@ -428,13 +417,7 @@ func (a *T) WriteBinary(w io.Writer) error {
 	}
 	// second pass writes the ands in binary format.
 	dfs.fn = abw.writeBinAnd
-	dfs.post(a.Outputs...)
-	dfs.post(nexts...)
-	dfs.post(a.Bad...)
-	for _, ma := range a.Justice {
-		dfs.post(ma...)
-	}
-	dfs.post(a.Fair...)
+	a.postAll(dfs)
 	a.writeSymtab(bw)
 	// finally write comment
 	writeComment(bw)
@@ -572,18 +555,21 @@ func (a *T) writeAsciiAnds(w *bufio.Writer) {
 		writeLit(w, c1, a.S.T)
 		w.WriteString("\n")
 	})
-	nexts := make([]z.Lit, 0, len(a.Latches))
+	a.postAll(dfs)
+}
+
+// postAll visits every gate which is used.
+func (a *T) postAll(dfs *sDfs) {
+	dfs.post(a.Outputs...)
 	for _, m := range a.Latches {
-		nexts = append(nexts, a.Next(m))
+		dfs.post(a.Next(m))
 	}
-	dfs.post(a.Outputs...)
 	dfs.post(a.Bad...)
 	dfs.post(a.Constraints...)
 	for _, ma := range a.Justice {
 		dfs.post(ma...)
 	}
 	dfs.post(a.Fair...)
-	dfs.post(nexts...)
 }
 
 // state information for binary writer
@@ -1239,13 +1225,13 @@ type aigerHeader struct {
 // of whether or not the binary version is desired.
 func makeHeader(a *T, binary bool) *aigerHeader {
 	s := a.S
-	N := s.Len()
+	// only the gates which are used are written.
 	nAnd := uint(0)
-	for i := 0; i < N; i++ {
-		if s.Type(s.At(i)) == logic.SAnd {
+	a.postAll(newsDfs(s, func(s *logic.S, m z.Lit) {
+		if s.Type(m) == logic.SAnd {
 			nAnd++
 		}
-	}
+	}))
 	return &aigerHeader{
 		Binary:     binary,
 		Max:        uint(a.Len() - 1),
-- 
2.43.0


From 2a33ae2c1adcea1f61767d00554c6983bafcb556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:13 +0000
Subject: [PATCH 32/76] fix: binary aiger gates have their inputs in the order
 of their aiger numbers

---
 logic/aiger/aiger.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index fc7a543..19438d9 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -611,12 +611,14 @@ func (abw *aigerBinWriter) writeBinAnd(s *logic.S, m z.Lit) {
 	if s.Type(m) != logic.SAnd {
 		return
 	}
-	// *logic.S stores c0 < c1, aiger
-	// wants c0 > c1, so we swap
-	// the assignment to c1, c0 :=
+	// aiger wants c0 > c1
 	c1, c0 := s.Ins(m)
 	mc0 := abw.forLit(c0)
 	mc1 := abw.forLit(c1)
+	if mc0 < mc1 {
+		c0, c1 = c1, c0
+		mc0, mc1 = mc1, mc0
+	}
 	me := abw.forLit(m)
 	delta0 := me - mc0
 	delta1 := mc0 - mc1
-- 
2.43.0


From bb2fd68b4c55851ab8712be3fefc499c97a20a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:15 +0000
Subject: [PATCH 33/76] fix: read errors in the gates, symbols and comments of
 aiger files are reported

---
 logic/aiger/aiger.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 19438d9..b92fcaa 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -1148,6 +1148,9 @@ func (aigrdr *aigerReader) readSymsAndComments(r *bufio.Reader) error {
 		if e == io.EOF {
 			return nil
 		}
+		if e != nil {
+			return e
+		}
 		if b == 'i' || b == 'l' || b == 'o' || b == 'b' || b == 'c' || b == 'j' || b == 'f' {
 			// symtab must precede comments
 			if b == 'c' {
@@ -1204,6 +1207,8 @@ func (ar *aigerReader) readComments(r *bufio.Reader) error {
 			}
 		} else if err == io.EOF {
 			return nil
+		} else if err != nil {
+			return err
 		}
 	}
 	panic("unreachable")
@@ -1444,6 +1449,9 @@ func read7(r *bufio.Reader) (result uint, err error) {
 		if e == io.EOF {
 			return 0, PrematureEOF
 		}
+		if e != nil {
+			return 0, e
+		}
 		result |= (uint(b) & 0x7f) << uint8(7*i)
 		i++
 		if b&0x80 == 0 {
-- 
2.43.0


From 06140e81a8bd8398b9e44a7452fd04dd47a76fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:17 +0000
Subject: [PATCH 34/76] fix: unexpected characters in the symbols of aiger
 files are not skipped

---
 logic/aiger/aiger.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index b92fcaa..d147de9 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -1189,6 +1189,8 @@ func (aigrdr *aigerReader) readSymsAndComments(r *bufio.Reader) error {
 				return err
 			}
 			aigrdr.symbols[b][int(index)] = string(bytes[0 : len(bytes)-1])
+		} else {
+			return UnexpectedChar
 		}
 	}
 	panic("unreachable")
-- 
2.43.0


From 161242c35a501883b17aedc50ab265827e3167cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:19 +0000
Subject: [PATCH 35/76] fix: copies of aiger objects have inputs and outputs

---
 logic/aiger/aiger.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index d147de9..6d80b5c 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -97,7 +97,11 @@ func Copy(a *T) *T {
 		Constraints: make([]z.Lit, len(a.Constraints)),
 		Justice:     make([][]z.Lit, len(a.Justice)),
 		Fair:        make([]z.Lit, len(a.Fair)),
+		Inputs:      make([]z.Lit, len(a.Inputs)),
+		Outputs:     make([]z.Lit, len(a.Outputs)),
 		symbols:     make(map[byte]map[int]string, len(a.symbols))}
+	copy(result.Inputs, a.Inputs)
+	copy(result.Outputs, a.Outputs)
 	copy(result.Bad, a.Bad)
 	copy(result.Constraints, a.Constraints)
 	copy(result.Fair, a.Fair)
-- 
2.43.0


From d6b4fb19f8324a0e0303a845fe6f7fc8fe848dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:19 +0000
Subject: [PATCH 36/76] fix: aiger gates which are equal to a constant or
 another literal are read right

---
 logic/aiger/aiger.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 6d80b5c..5ce5e62 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -659,7 +659,7 @@ type aigerReader struct {
 	AigConstraints []uint
 	AigJustice     [][]uint
 	AigFair        []uint
-	varMap         []z.Var
+	varMap         []z.Lit
 	AigAnds        []aigAnd
 }
 
@@ -674,14 +674,17 @@ func makeAigerReader(a *T, hdr *aigerHeader) *aigerReader {
 		AigConstraints: make([]uint, 0, hdr.Constraint),
 		AigJustice:     make([][]uint, 0, hdr.Justice),
 		AigFair:        make([]uint, 0, hdr.Fair),
-		varMap:         make([]z.Var, hdr.Max+1),
+		varMap:         make([]z.Lit, hdr.Max+1),
 		AigAnds:        nil}
-	abr.varMap[0] = a.S.F.Var()
+	abr.varMap[0] = a.S.F
 	return abr
 }
 
 func (abr *aigerReader) mapLit(aigerLit uint, m z.Lit) {
-	abr.varMap[int(aigerLit>>1)] = m.Var()
+	if aigerLit&1 != 0 {
+		m = m.Not()
+	}
+	abr.varMap[int(aigerLit>>1)] = m
 }
 
 func (abr *aigerReader) litFor(aigerLit uint) z.Lit {
@@ -693,14 +696,14 @@ func (abr *aigerReader) litFor(aigerLit uint) z.Lit {
 	}
 	v := aigerLit >> 1
 
-	rv := abr.varMap[v]
-	if rv == 0 {
+	m := abr.varMap[v]
+	if m == z.LitNull {
 		return z.LitNull
 	}
 	if aigerLit&1 != 0 {
-		return rv.Pos().Not()
+		return m.Not()
 	}
-	return rv.Pos()
+	return m
 }
 
 // once everything is read, we can use the aiglit to gini Literal
@@ -1087,6 +1090,8 @@ func (aigrdr *aigerReader) readAsciiAnds(hdr *aigerHeader, r *bufio.Reader) erro
 }
 
 func (aigrdr *aigerReader) mapAnds() error {
+	aigrdr.AigAnds[0].defined = true // the constant
+	aigrdr.AigAnds[0].mapped = true
 	for _, m := range aigrdr.AigInputs {
 		ag := &aigrdr.AigAnds[int(m>>1)]
 		ag.defined = true
@@ -1118,7 +1123,7 @@ func (aigrdr *aigerReader) mapAndsRec(ag *aigAnd, aig uint) error {
 			return UndefinedLit
 		}
 		if !ag0.mapped {
-			if err := aigrdr.mapAndsRec(ag0, c0); err != nil {
+			if err := aigrdr.mapAndsRec(ag0, c0&^1); err != nil {
 				return err
 			}
 		}
@@ -1129,7 +1134,7 @@ func (aigrdr *aigerReader) mapAndsRec(ag *aigAnd, aig uint) error {
 			return UndefinedLit
 		}
 		if !ag1.mapped {
-			if err := aigrdr.mapAndsRec(ag1, c1); err != nil {
+			if err := aigrdr.mapAndsRec(ag1, c1&^1); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From 74bfb00e3e8b516ef64c61723448bd19d32feb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:40 +0000
Subject: [PATCH 37/76] fix: writing a solver without clauses does not divide
 by zero

---
 internal/xo/cdat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/xo/cdat.go b/internal/xo/cdat.go
index b97be00..07e1f2d 100644
--- a/internal/xo/cdat.go
+++ b/internal/xo/cdat.go
@@ -179,7 +179,7 @@ func (c *CDat) Load(p z.C, ms []z.Lit) []z.Lit {
 
 // Func Forall applies f to every clause in the store.
 func (c *CDat) Forall(f func(i int, p z.C, ms []z.Lit)) {
-	ns := make([]z.Lit, 0, c.ClsLen*2/c.Len)
+	ns := make([]z.Lit, 0, 32)
 	i := 0
 	q := z.C(1)
 	for q < z.C(c.Len) {
-- 
2.43.0


From 47ac2f8277dbf871bffe56a72a90c10c04b4a0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:40 +0000
Subject: [PATCH 38/76] fix: the header of written clauses counts the learnt
 clauses which are written

---
 internal/xo/cdb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/xo/cdb.go b/internal/xo/cdb.go
index 98c062c..c7b2f6e 100644
--- a/internal/xo/cdb.go
+++ b/internal/xo/cdb.go
@@ -304,7 +304,7 @@ func (c *Cdb) SetTracer(t Tracer) {
 }
 
 func (c *Cdb) Write(w io.Writer) error {
-	hdr := []byte(fmt.Sprintf("p cnf %d %d\n", c.Vars.Max, len(c.Added)))
+	hdr := []byte(fmt.Sprintf("p cnf %d %d\n", c.Vars.Max, c.CDat.ClsLen))
 	n := 0
 	for n < len(hdr) {
 		m, e := w.Write(hdr[n:])
-- 
2.43.0


From c475f7625b1050da614565665af23aeb56bee6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:39 +0000
Subject: [PATCH 39/76] fix: the sizes in aiger headers are checked, those of
 lists are not trusted for allocations

---
 logic/aiger/aiger.go | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 5ce5e62..ac61c50 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -8,6 +8,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strings"
 
@@ -669,11 +670,11 @@ func makeAigerReader(a *T, hdr *aigerHeader) *aigerReader {
 		AigInputs:      make([]uint, 0, hdr.In),
 		AigLatches:     make([]uint, 0, hdr.Latch),
 		AigLatchNexts:  make([]uint, 0, hdr.Latch),
-		AigOutputs:     make([]uint, 0, hdr.Out),
-		AigBad:         make([]uint, 0, hdr.Bad),
-		AigConstraints: make([]uint, 0, hdr.Constraint),
-		AigJustice:     make([][]uint, 0, hdr.Justice),
-		AigFair:        make([]uint, 0, hdr.Fair),
+		AigOutputs:     make([]uint, 0),
+		AigBad:         make([]uint, 0),
+		AigConstraints: make([]uint, 0),
+		AigJustice:     make([][]uint, 0),
+		AigFair:        make([]uint, 0),
 		varMap:         make([]z.Lit, hdr.Max+1),
 		AigAnds:        nil}
 	abr.varMap[0] = a.S.F
@@ -874,7 +875,6 @@ func (aigrdr *aigerReader) readAsciiInputs(hdr *aigerHeader, r *bufio.Reader) er
 }
 
 func (abr *aigerReader) readOutputs(nOut, max uint, r *bufio.Reader) error {
-	abr.AigOutputs = make([]uint, 0, nOut)
 	var i uint
 	for i = 0; i < nOut; i++ {
 		u, e := readUint(r)
@@ -893,8 +893,6 @@ func (abr *aigerReader) readOutputs(nOut, max uint, r *bufio.Reader) error {
 }
 
 func (abr *aigerReader) readBad(r *bufio.Reader, count, max uint) error {
-	abr.AigBad = make([]uint, 0, int(count))
-	abr.Bad = make([]z.Lit, 0, int(count))
 	var i uint
 	for i = 0; i < count; i++ {
 		v, err := readUint(r)
@@ -913,8 +911,6 @@ func (abr *aigerReader) readBad(r *bufio.Reader, count, max uint) error {
 }
 
 func (a *aigerReader) readConstraints(r *bufio.Reader, count, max uint) error {
-	a.AigConstraints = make([]uint, 0, int(count))
-	a.Constraints = make([]z.Lit, 0, int(count))
 	var i uint
 	for i = 0; i < count; i++ {
 		v, err := readUint(r)
@@ -933,9 +929,7 @@ func (a *aigerReader) readConstraints(r *bufio.Reader, count, max uint) error {
 }
 
 func (a *aigerReader) readJustice(r *bufio.Reader, count, max uint) error {
-	a.Justice = make([][]z.Lit, int(count), int(count))
-	a.AigJustice = make([][]uint, 0, int(count))
-	counts := make([]int, 0, int(count))
+	counts := make([]int, 0)
 	var i uint
 	for i = 0; i < count; i++ {
 		v, err := readUint(r)
@@ -950,9 +944,8 @@ func (a *aigerReader) readJustice(r *bufio.Reader, count, max uint) error {
 			return err
 		}
 	}
-	for i, c := range counts {
-		a.AigJustice = append(a.AigJustice, make([]uint, c, c))
-		a.Justice[i] = make([]z.Lit, c, c)
+	for _, c := range counts {
+		us := make([]uint, 0)
 		for j := 0; j < c; j++ {
 			v, err := readUint(r)
 			if err != nil {
@@ -961,18 +954,18 @@ func (a *aigerReader) readJustice(r *bufio.Reader, count, max uint) error {
 			if v > 2*max+1 {
 				return LitOOB
 			}
-			a.AigJustice[i][j] = v
+			us = append(us, v)
 			if err := readNL(r); err != nil {
 				return err
 			}
 		}
+		a.AigJustice = append(a.AigJustice, us)
+		a.Justice = append(a.Justice, make([]z.Lit, len(us)))
 	}
 	return nil
 }
 
 func (a *aigerReader) readFair(r *bufio.Reader, count, max uint) error {
-	a.AigFair = make([]uint, 0, int(count))
-	a.Fair = make([]z.Lit, 0, int(count))
 	var i uint
 	for i = 0; i < count; i++ {
 		v, err := readUint(r)
@@ -1332,6 +1325,12 @@ func readHeader(r *bufio.Reader) (*aigerHeader, error) {
 	result.Constraint = counts[6]
 	result.Justice = counts[7]
 	result.Fair = counts[8]
+	// every input, latch and gate has a variable of its own.
+	if result.Max > math.MaxInt32-1 || result.In > result.Max ||
+		result.Latch > result.Max-result.In ||
+		result.And > result.Max-result.In-result.Latch {
+		return nil, BadHeader
+	}
 	return result, nil
 }
 
-- 
2.43.0


From a268a2b641fa4e6f8482efeee0cf82dd7e8eb4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:39 +0000
Subject: [PATCH 40/76] fix: a binary aiger gate which is its own input is an
 error

---
 logic/aiger/aiger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index ac61c50..f8cbdb0 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -991,7 +991,7 @@ func (aigrdr *aigerReader) readBinaryAnds(hdr *aigerHeader, r *bufio.Reader) err
 		if err0 != nil {
 			return err0
 		}
-		if delta0 > id {
+		if delta0 == 0 || delta0 > id {
 			return BadDeltaEncoding
 		}
 		c0 := id - delta0
-- 
2.43.0


From 2fa2d87206163d14403b7aa102593a883154838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:13 +0000
Subject: [PATCH 41/76] fix: aiger gates which are first met negated are not
 written negated

---
 logic/aiger/dfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/aiger/dfs.go b/logic/aiger/dfs.go
index 8459fb6..78a3a72 100644
--- a/logic/aiger/dfs.go
+++ b/logic/aiger/dfs.go
@@ -44,6 +44,6 @@ func (d *sDfs) vis(m z.Lit) {
 		d.vis(c0)
 		d.vis(c1)
 	}
-	d.fn(d.s, m)
+	d.fn(d.s, m.Var().Pos())
 	d.marks[m.Var()] = 2
 }
-- 
2.43.0


From 8040ae5e0e4bd2ac5e4d60ac810c771aecc8f37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:38 +0000
Subject: [PATCH 42/76] fix: the size of an aiger justice property is not
 bounded as a literal

---
 logic/aiger/aiger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index f8cbdb0..ade9a6e 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -936,7 +936,7 @@ func (a *aigerReader) readJustice(r *bufio.Reader, count, max uint) error {
 		if err != nil {
 			return err
 		}
-		if v > 2*max+1 {
+		if v > math.MaxInt32 {
 			return LitOOB
 		}
 		counts = append(counts, int(v))
-- 
2.43.0


From 98636256472a32283be2111558fb81ca980666b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:52 +0000
Subject: [PATCH 43/76] fix: Try of a random stub solver respects its time
 limit

---
 gen/rands.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gen/rands.go b/gen/rands.go
index 81802d1..543c154 100644
--- a/gen/rands.go
+++ b/gen/rands.go
@@ -100,16 +100,18 @@ func (r *randS) Value(m z.Lit) bool {
 func (r *randS) Solve() int {
 	r.lock()
 	defer r.unlock()
-	return r.solve()
+	return r.solve(nil)
 }
 
 func (r *randS) Try(dur time.Duration) int {
 	r.lock()
 	defer r.unlock()
-	return r.solve()
+	return r.solve(time.After(dur))
 }
 
-func (r *randS) solve() int {
+// solve solves until there is a result, limit fires (if it is not nil), or
+// the solve is cancelled.
+func (r *randS) solve(limit <-chan time.Time) int {
 	r.ms = r.ms[:0]
 	ns := r.dur.Nanoseconds()
 	w := time.Duration(r.rand.Int63n(ns))
@@ -124,6 +126,8 @@ func (r *randS) solve() int {
 				return 1
 			}
 			return r.res
+		case <-limit:
+			return 0
 		case <-r.cancel:
 			return 0
 		case <-r.pause:
@@ -142,7 +146,7 @@ func (r *randS) GoSolve() inter.Solve {
 		pause:  r.pause}
 
 	go func() {
-		ctl.resChn <- r.solve()
+		ctl.resChn <- r.solve(nil)
 	}()
 	return ctl
 }
-- 
2.43.0


From 486a9cfd7110a2602a0f387d17ab90344a4fb439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:52 +0000
Subject: [PATCH 44/76] fix: Try of a background solve of a random stub solver
 stops it when the time is over

---
 gen/rands.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/rands.go b/gen/rands.go
index 543c154..078817c 100644
--- a/gen/rands.go
+++ b/gen/rands.go
@@ -185,7 +185,7 @@ func (c *ctl) Try(d time.Duration) int {
 		c.s.unlock()
 		return r
 	case <-a:
-		return 0
+		return c.Stop()
 	}
 }
 
-- 
2.43.0


From 36b06c3c8dbb5a92543fc9ca30401d56bc9cb7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:52 +0000
Subject: [PATCH 45/76] fix: the goroutine of a stopped background solve of a
 random stub solver ends

---
 gen/rands.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/rands.go b/gen/rands.go
index 078817c..775f5c8 100644
--- a/gen/rands.go
+++ b/gen/rands.go
@@ -141,7 +141,7 @@ func (r *randS) GoSolve() inter.Solve {
 
 	ctl := &ctl{
 		s:      r,
-		resChn: make(chan int),
+		resChn: make(chan int, 1),
 		cancel: r.cancel,
 		pause:  r.pause}
 
-- 
2.43.0


From 86f371e36b4992e7687c11606adb35213fb3d2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:52 +0000
Subject: [PATCH 46/76] fix: Wait for a random stub solver does not take the
 cancellation meant for the solve

---
 gen/rands.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/gen/rands.go b/gen/rands.go
index 775f5c8..afa274d 100644
--- a/gen/rands.go
+++ b/gen/rands.go
@@ -159,13 +159,9 @@ type ctl struct {
 }
 
 func (c *ctl) Wait() int {
-	select {
-	case r := <-c.resChn:
-		c.s.unlock()
-		return r
-	case <-c.cancel:
-		return 0
-	}
+	r := <-c.resChn
+	c.s.unlock()
+	return r
 }
 
 func (c *ctl) Test() (int, bool) {
-- 
2.43.0


From 1a05b5bdd4ed1590bba2a46684cfb7b74153b4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:52 +0000
Subject: [PATCH 47/76] fix: the copy of a random stub solver has its result,
 assumptions and variables

---
 gen/rands.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gen/rands.go b/gen/rands.go
index afa274d..fb2d9a0 100644
--- a/gen/rands.go
+++ b/gen/rands.go
@@ -88,7 +88,10 @@ func (r *randS) SCopy() inter.S {
 	defer r.rmu.Unlock()
 	return &randS{
 		dur:    r.dur,
+		res:    r.res,
 		rand:   rand.New(rand.NewSource(11)),
+		ms:     append([]z.Lit(nil), r.ms...),
+		mv:     r.mv,
 		cancel: make(chan struct{}),
 		pause:  make(chan struct{})}
 }
-- 
2.43.0


From 5e225a7249ded54386c795104acf46c2f9d1ca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:54 +0000
Subject: [PATCH 48/76] fix: an input with an unknown extension does not end
 the gini command with a panic

---
 cmd/gini/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/gini/main.go b/cmd/gini/main.go
index 5691bd4..94d2391 100644
--- a/cmd/gini/main.go
+++ b/cmd/gini/main.go
@@ -400,6 +400,10 @@ func main() {
 			continue
 		}
 		format, e := path2Format(fName)
+		if e != nil {
+			log.Println(e)
+			continue
+		}
 		log.Print(fName)
 		_, e = format.runReader(r)
 		if e != nil {
-- 
2.43.0


From 27ed9c13c12cf6c55c8b37397829426267af4010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:54 +0000
Subject: [PATCH 49/76] fix: a cube inside of an icnf clause or cube is an
 error

---
 dimacs/icnf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dimacs/icnf.go b/dimacs/icnf.go
index f40cf27..806e64d 100644
--- a/dimacs/icnf.go
+++ b/dimacs/icnf.go
@@ -47,6 +47,9 @@ func (i *iCnfReader) read() error {
 			return e
 		}
 		if c == 'a' {
+			if open {
+				return fmt.Errorf("unexpected: '%c'\n", c)
+			}
 			assumptions = true
 		} else {
 			if e := rdr.UnreadByte(); e != nil {
-- 
2.43.0


From ef7011c1ba416d843822327ae79589a0026d0863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:27 +0000
Subject: [PATCH 50/76] fix: the gini command does not lose a signal which
 directly follows another one

---
 cmd/gini/sigs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/gini/sigs.go b/cmd/gini/sigs.go
index 4612e38..cb117f0 100644
--- a/cmd/gini/sigs.go
+++ b/cmd/gini/sigs.go
@@ -10,7 +10,8 @@ import (
 	"syscall"
 )
 
-var sigs = make(chan os.Signal, 1)
+// room for more than one, so that a signal behind another one is not lost.
+var sigs = make(chan os.Signal, 16)
 
 func init() {
 	signal.Notify(sigs, syscall.SIGINT, syscall.SIGTERM, syscall.SIGUSR1)
-- 
2.43.0


From 82a9f280f6f65cbf3d70be067c32272416fcf3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:34 +0000
Subject: [PATCH 51/76] fix: a monitored solve is stopped when its time is over

---
 internal/xo/ctl.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/xo/ctl.go b/internal/xo/ctl.go
index dc267a2..e4f68ef 100644
--- a/internal/xo/ctl.go
+++ b/internal/xo/ctl.go
@@ -126,6 +126,11 @@ func (c *Ctl) TryStats(timeout, stFreq time.Duration) <-chan StatsResult {
 		for {
 			select {
 			case <-alarm:
+				res := c.Stop()
+				c.stFunc(tst)
+				st.Accumulate(tst)
+				st2 := *st
+				rc <- StatsResult{Result: res, Stats: &st2}
 				close(rc)
 				return
 			case res := <-c.cResult:
-- 
2.43.0


From f84425054ff7a851b98c39786ec4651588fbe40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 52/76] fix: a cube which is due at the very end of the time
 limit is not solved without a limit

---
 cmd/gini/icnf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/gini/icnf.go b/cmd/gini/icnf.go
index 501a46a..0ef21fc 100644
--- a/cmd/gini/icnf.go
+++ b/cmd/gini/icnf.go
@@ -172,6 +172,9 @@ func (i *iCnfAx) genReq() *ax.Request {
 	req := ax.NewRequest(i.cubes[i.reqIdx]...)
 	req.Id = i.reqIdx
 	req.Limit = i.end.Sub(time.Now())
+	if req.Limit <= 0 {
+		req.Limit = time.Nanosecond // 0 is no limit
+	}
 	i.reqIdx++
 	return req
 }
-- 
2.43.0


From 17e6dd417ff2e42fc9029999aafb2d1b7f667e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 53/76] fix: reading the statistics of a paused solve does not
 delay its next tick

---
 internal/xo/s.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/xo/s.go b/internal/xo/s.go
index d3c6256..d28a454 100644
--- a/internal/xo/s.go
+++ b/internal/xo/s.go
@@ -256,7 +256,6 @@ func (s *S) Solve() int {
 
 		// propagation ticker
 		if trail.Props > nxtTick {
-			nxtTick += PropTick
 			tick++
 			if tick%CancelTicks == 0 {
 				if s.deadline != s.startTime && time.Until(s.deadline) <= 0 {
@@ -270,6 +269,8 @@ func (s *S) Solve() int {
 					return 0
 				}
 			}
+			// reading the statistics during a pause sets trail.Props to 0.
+			nxtTick = trail.Props + PropTick
 		}
 
 		// maybe restart.
-- 
2.43.0


From 137a25b0e0f0caed2524d2fdb07c069f4adf9b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 54/76] fix: gini -ax keeps to its time limit when there are
 more cubes than solvers

---
 cmd/gini/icnf.go | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/cmd/gini/icnf.go b/cmd/gini/icnf.go
index 0ef21fc..7af3cd4 100644
--- a/cmd/gini/icnf.go
+++ b/cmd/gini/icnf.go
@@ -136,12 +136,22 @@ func (i *iCnfAx) solveCubes() {
 	ttl := len(i.cubes)
 	req := i.genReq()
 	results := make([]int, len(i.cubes))
+	busy := 0
 	for ttl > 0 {
-		resp := i.ax.Ex(req)
-		if resp == nil {
-			req = i.genReq()
-			continue
+		var resp *ax.Response
+		if req == nil || busy == i.capacity {
+			// a request waiting in the exchanger would keep its limit
+			resp = i.ax.Ex(nil)
+		} else {
+			req.Limit = i.limit()
+			resp = i.ax.Ex(req)
+			if resp == nil {
+				busy++
+				req = i.genReq()
+				continue
+			}
 		}
+		busy--
 		results[resp.Req.Id] = resp.Res
 		if resp.Res != 0 {
 			i.solved++
@@ -171,10 +181,15 @@ func (i *iCnfAx) genReq() *ax.Request {
 	}
 	req := ax.NewRequest(i.cubes[i.reqIdx]...)
 	req.Id = i.reqIdx
-	req.Limit = i.end.Sub(time.Now())
-	if req.Limit <= 0 {
-		req.Limit = time.Nanosecond // 0 is no limit
-	}
 	i.reqIdx++
 	return req
 }
+
+// limit is the time which is left for a request, never 0 (no limit).
+func (i *iCnfAx) limit() time.Duration {
+	left := time.Until(i.end)
+	if left <= 0 {
+		return time.Nanosecond
+	}
+	return left
+}
-- 
2.43.0


From 57102e48bc6c0874b55097e1f5ea6e5359f2983c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 55/76] fix: bench suites hold what they were created from or
 cannot be opened

Linked instances were put in the working directory; instances without a known
extension, the instances of a suite just created and failed writes were lost;
the map and hashes read back had an extra entry; a suite whose creation was
interrupted opened with missing or torn instances.
---
 bench/suite.go | 147 ++++++++++++++++++++++++-------------------------
 1 file changed, 71 insertions(+), 76 deletions(-)

diff --git a/bench/suite.go b/bench/suite.go
index 0f81000..66cacaa 100644
--- a/bench/suite.go
+++ b/bench/suite.go
@@ -52,6 +52,10 @@ func OpenSuite(root string) (*Suite, error) {
 	if e := res.readHashes(); e != nil {
 		return nil, e
 	}
+	if len(res.Map) != len(res.Insts) || len(res.Hashes) != len(res.Insts) {
+		return nil, fmt.Errorf("%s: incomplete suite: %d instances, %d origins, %d hashes",
+			root, len(res.Insts), len(res.Map), len(res.Hashes))
+	}
 	if e := res.readRuns(); e != nil {
 		return nil, e
 	}
@@ -61,27 +65,13 @@ func OpenSuite(root string) (*Suite, error) {
 // CreateSuite creates a benchmark suite rooted in root
 // with the specified instances.
 func CreateSuite(root string, insts []string) (*Suite, error) {
-	s, e := setupSuite(root, insts)
-	if e != nil {
-		return nil, e
-	}
-	if e := s.copyInsts(insts); e != nil {
-		return nil, e
-	}
-	return s, nil
+	return createSuite(root, insts, copyInst)
 }
 
 // LinkSuite creates a benchmark suite in which instances are
 // symlinks to the origin files.
 func LinkSuite(root string, insts []string) (*Suite, error) {
-	s, e := setupSuite(root, insts)
-	if e != nil {
-		return nil, e
-	}
-	if e := s.linkInsts(insts); e != nil {
-		return nil, e
-	}
-	return s, nil
+	return createSuite(root, insts, linkInst)
 }
 
 // Run creates a run from a command, an instance timeout, and
@@ -139,7 +129,10 @@ func (s *Suite) Len() int {
 	return len(s.Insts)
 }
 
-func setupSuite(root string, insts []string) (*Suite, error) {
+// createSuite creates a suite, putting each instance in place with
+// add.  The hashes and the map are written last, so a suite whose creation
+// was interrupted cannot be opened.
+func createSuite(root string, insts []string, add func(dst, org string) error) (*Suite, error) {
 	_, ste := os.Stat(root)
 	if ste == nil {
 		return nil, fmt.Errorf("root %s already exists.", root)
@@ -153,11 +146,16 @@ func setupSuite(root string, insts []string) (*Suite, error) {
 
 	s := &Suite{
 		Root: root}
+	iFmt := iFmtFor(len(insts))
+	for i, inst := range insts {
+		nm := fmt.Sprintf(iFmt, i, exts(inst))
+		if e := add(filepath.Join(root, nm), inst); e != nil {
+			return nil, e
+		}
+		s.Insts = append(s.Insts, nm)
+	}
 	s.Map = make([]string, 0, len(insts))
 	s.Map = append(s.Map, insts...)
-	if e := s.writeMap(); e != nil {
-		return nil, e
-	}
 	s.Hashes = make([]string, 0, len(insts))
 	for _, inst := range insts {
 		h, e := hash(inst)
@@ -169,40 +167,35 @@ func setupSuite(root string, insts []string) (*Suite, error) {
 	if e := s.writeHashes(); e != nil {
 		return nil, e
 	}
+	if e := s.writeMap(); e != nil {
+		return nil, e
+	}
 	return s, nil
 }
 
-func (s *Suite) copyInsts(insts []string) error {
-	iFmt := iFmtFor(len(insts))
-	for i, inst := range insts {
-		p := filepath.Join(s.Root, fmt.Sprintf(iFmt, i, exts(inst)))
-		w, e := os.OpenFile(p, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
-		if e != nil {
-			return e
-		}
-		r, e := os.Open(inst)
-		if e != nil {
-			return e
-		}
-		_, e = io.Copy(w, r)
-		if e != nil {
-			return e
-		}
-		w.Close()
-		r.Close()
+func copyInst(dst, org string) error {
+	r, e := os.Open(org)
+	if e != nil {
+		return e
 	}
-	return nil
+	defer r.Close()
+	w, e := os.OpenFile(dst, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
+	if e != nil {
+		return e
+	}
+	_, e = io.Copy(w, r)
+	if ce := w.Close(); e == nil {
+		e = ce
+	}
+	return e
 }
 
-func (s *Suite) linkInsts(insts []string) error {
-	iFmt := iFmtFor(len(insts))
-	for i, inst := range insts {
-		p := fmt.Sprintf(iFmt, i, exts(inst))
-		if e := os.Symlink(inst, p); e != nil {
-			return e
-		}
+func linkInst(dst, org string) error {
+	p, e := filepath.Abs(org)
+	if e != nil {
+		return e
 	}
-	return nil
+	return os.Symlink(p, dst)
 }
 
 func iFmtFor(N int) string {
@@ -277,7 +270,7 @@ func (s *Suite) readInsts() error {
 			continue
 		}
 		j := -1
-		_, e := fmt.Sscanf(nm, "bench-%d.", &j)
+		_, e := fmt.Sscanf(nm, "bench-%d", &j)
 		if e != nil {
 			log.Printf("unexpected file in benchmark dir %s: %s\n", s.Root, nm)
 			continue
@@ -295,40 +288,38 @@ func (s *Suite) readInsts() error {
 }
 
 func (s *Suite) readMap() error {
-	mf, e := os.Open(suiteMapPath(s.Root))
-	if e != nil {
-		return e
-	}
-	defer mf.Close()
-	r := bufio.NewReader(mf)
-	for {
-		line, e := r.ReadString(byte('\n'))
-		if e != nil && e != io.EOF {
-			return e
-		}
-		s.Map = append(s.Map, strings.TrimSpace(line))
-		if e == io.EOF {
-			return nil
-		}
-	}
+	lines, e := readLines(suiteMapPath(s.Root))
+	s.Map = lines
+	return e
 }
 
 func (s *Suite) readHashes() error {
-	hf, e := os.Open(suiteHashPath(s.Root))
+	lines, e := readLines(suiteHashPath(s.Root))
+	s.Hashes = lines
+	return e
+}
+
+// readLines reads the lines of the file at p, all of which must be ended.
+func readLines(p string) ([]string, error) {
+	f, e := os.Open(p)
 	if e != nil {
-		return e
+		return nil, e
 	}
-	defer hf.Close()
-	r := bufio.NewReader(hf)
+	defer f.Close()
+	var lines []string
+	r := bufio.NewReader(f)
 	for {
 		line, e := r.ReadString(byte('\n'))
-		if e != nil && e != io.EOF {
-			return e
+		if e == io.EOF && line == "" {
+			return lines, nil
 		}
-		s.Hashes = append(s.Hashes, line)
 		if e == io.EOF {
-			return nil
+			return nil, fmt.Errorf("%s: unexpected end of file", p)
+		}
+		if e != nil {
+			return nil, e
 		}
+		lines = append(lines, strings.TrimSuffix(line, "\n"))
 	}
 }
 
@@ -366,8 +357,10 @@ func (s *Suite) writeMap() error {
 		return e
 	}
 	defer mf.Close()
-	for _, e := range s.Map {
-		fmt.Fprintln(mf, e)
+	for _, p := range s.Map {
+		if _, e := fmt.Fprintln(mf, p); e != nil {
+			return e
+		}
 	}
 	return nil
 }
@@ -378,8 +371,10 @@ func (s *Suite) writeHashes() error {
 		return e
 	}
 	defer hf.Close()
-	for _, e := range s.Hashes {
-		fmt.Fprintln(hf, e)
+	for _, h := range s.Hashes {
+		if _, e := fmt.Fprintln(hf, h); e != nil {
+			return e
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 9972aaa115c89364f2055912c9bfd9c89ee28bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 56/76] fix: bench runs read back as they were made, bad run
 names are errors

The name of a new run was missing and the environment was never read back and
made runs with '=' in a variable unreadable.  The names '', '.', '..' and those
of existing runs were accepted, RemoveRun removed other directories.
RunSelect changed the runs of the original suite.  IsRunDir looked for files
which are never written.
---
 bench/run.go   | 43 ++++++++++++++++++++++++++-----------------
 bench/suite.go | 11 ++++++-----
 2 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/bench/run.go b/bench/run.go
index 351a19b..d4167d2 100644
--- a/bench/run.go
+++ b/bench/run.go
@@ -36,7 +36,7 @@ type Run struct {
 func IsRunDir(root string) bool {
 	for _, p := range []string{
 		root, runCmdPath(root), runDescPath(root), runCommitPath(root),
-		runTimeoutPath(root), runTimesPath(root), runResultsPath(root)} {
+		runTimeoutPath(root), runStartPath(root)} {
 		_, ste := os.Stat(p)
 		if ste != nil {
 			return false
@@ -91,12 +91,11 @@ func OpenRun(suite *Suite, root string) (*Run, error) {
 // The resulting Run is (unfortunately) not yet openable since there
 // are no results
 func NewRun(suite *Suite, name, cmd string, ito, to time.Duration) (*Run, error) {
-	d, fn := filepath.Split(name)
-	if d != "" {
-		return nil, fmt.Errorf("run name should not contain a directory")
+	if e := checkRunName(name); e != nil {
+		return nil, e
 	}
-	name = fn
 	run := &Run{
+		Name:        name,
 		Cmd:         cmd,
 		Arch:        runtime.GOARCH,
 		Os:          runtime.GOOS,
@@ -114,7 +113,7 @@ func NewRun(suite *Suite, name, cmd string, ito, to time.Duration) (*Run, error)
 		parts := strings.Split(e, "=")
 		run.Env[parts[0]] = strings.Join(parts[1:], "=")
 	}
-	if e := os.MkdirAll(run.Root, 0755); e != nil {
+	if e := os.Mkdir(run.Root, 0755); e != nil {
 		return nil, e
 	}
 	if e := run.writeArch(); e != nil {
@@ -150,6 +149,17 @@ func NewRun(suite *Suite, name, cmd string, ito, to time.Duration) (*Run, error)
 	return run, nil
 }
 
+// checkRunName gives an error unless name is the name of a directory below
+// the directory of the runs.
+func checkRunName(name string) error {
+	if d, fn := filepath.Split(name); d != "" {
+		return fmt.Errorf("run name should not contain a directory")
+	} else if fn == "" || fn == "." || fn == ".." {
+		return fmt.Errorf("bad run name '%s'", name)
+	}
+	return nil
+}
+
 func (r *Run) Len() int {
 	return len(r.Suite.Insts)
 }
@@ -239,15 +249,18 @@ func (r *Run) writeNumCpu() error {
 		return e
 	}
 	defer f.Close()
-	fmt.Fprintf(f, "%d\n", r.NumCPU)
-	return nil
+	_, e = fmt.Fprintf(f, "%d\n", r.NumCPU)
+	return e
 }
 
 func (r *Run) readEnv() error {
-	env := os.Environ()
+	env, e := readLines(runEnvPath(r.Root))
+	if e != nil {
+		return e
+	}
 	r.Env = make(map[string]string, len(env))
 	for _, kv := range env {
-		parts := strings.Split(kv, "=")
+		parts := strings.SplitN(kv, "=", 2)
 		if len(parts) != 2 {
 			return fmt.Errorf("environ %s\n", kv)
 		}
@@ -263,7 +276,9 @@ func (r *Run) writeEnv() error {
 	}
 	defer f.Close()
 	for k, v := range r.Env {
-		fmt.Fprintf(f, "%s=%s\n", k, v)
+		if _, e := fmt.Fprintf(f, "%s=%s\n", k, v); e != nil {
+			return e
+		}
 	}
 	return nil
 }
@@ -425,9 +440,6 @@ func runEnvPath(root string) string {
 func runDescPath(root string) string {
 	return filepath.Join(root, "desc")
 }
-func runTimesPath(root string) string {
-	return filepath.Join(root, "times")
-}
 func runCmdPath(root string) string {
 	return filepath.Join(root, "cmd")
 }
@@ -452,6 +464,3 @@ func runTimeoutPath(root string) string {
 func runInstTimeoutPath(root string) string {
 	return filepath.Join(root, "inst-timeout")
 }
-func runResultsPath(root string) string {
-	return filepath.Join(root, "results")
-}
diff --git a/bench/suite.go b/bench/suite.go
index 66cacaa..43a74bf 100644
--- a/bench/suite.go
+++ b/bench/suite.go
@@ -86,6 +86,9 @@ func (s *Suite) Run(name, cmd string, ito, to time.Duration) (*Run, error) {
 
 // RemoveRun removes a run named name from the suite s.
 func (s *Suite) RemoveRun(name string) error {
+	if e := checkRunName(name); e != nil {
+		return e
+	}
 	p := filepath.Join(suiteRunDir(s.Root), name)
 	e := os.RemoveAll(p)
 	if e != nil {
@@ -109,18 +112,16 @@ func (s *Suite) RemoveRun(name string) error {
 func (s *Suite) RunSelect(filt func(*Run) bool) *Suite {
 	res := &Suite{}
 	*res = *s
-	j := 0
-	for _, run := range res.Runs {
+	res.Runs = nil
+	for _, run := range s.Runs {
 		if !filt(run) {
 			continue
 		}
 		rr := &Run{}
 		*rr = *run
 		rr.Suite = res
-		res.Runs[j] = rr
-		j++
+		res.Runs = append(res.Runs, rr)
 	}
-	res.Runs = res.Runs[:j]
 	return res
 }
 
-- 
2.43.0


From c66376246a80ed720d0daca6853ee3ff06661db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:30 +0000
Subject: [PATCH 57/76] fix: bench reports count system time and do not panic
 on empty runs

Times added the system time to the real time.  Cactus and scatter plots
panicked without runs, without instances or when all durations are 0.
---
 bench/cmp.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/bench/cmp.go b/bench/cmp.go
index edc9205..06b88dd 100644
--- a/bench/cmp.go
+++ b/bench/cmp.go
@@ -73,7 +73,7 @@ func Times(r *Run) (real float64, user float64, sys float64) {
 	for _, ir := range r.InstRuns {
 		real += float64(ir.Dur) / sec
 		user += float64(ir.UDur) / sec
-		real += float64(ir.SDur) / sec
+		sys += float64(ir.SDur) / sec
 	}
 	return
 }
@@ -147,8 +147,8 @@ func (s *Scatter) Utf8(n int) string {
 	}
 	for i, xd := range s.Xs {
 		yd := s.Ys[i]
-		xr := float64(xd) / float64(maxDur)
-		yr := float64(yd) / float64(maxDur)
+		xr := ratio(xd, maxDur)
+		yr := ratio(yd, maxDur)
 		xi := int(xr * float64(n-1))
 		yi := int(yr * float64(n-1))
 		j := idx(xi, yi)
@@ -172,6 +172,13 @@ func (s *Scatter) Utf8(n int) string {
 	return fmt.Sprintf("%s\n%s", strings.Join(lines, "\n"), legend)
 }
 
+func ratio(d, max time.Duration) float64 {
+	if max == 0 {
+		return 0
+	}
+	return float64(d) / float64(max)
+}
+
 // Type Cactus contains info necessary for cactus plot
 // of an arbitrary number of runs.
 type Cactus struct {
@@ -208,7 +215,7 @@ func NewCactus(suite *Suite, rFilt func(*Run) bool, iFilt func(*Suite, int) bool
 	cactus := &Cactus{
 		MaxDur: maxDur,
 		Runs:   runs}
-	M := len(suite.Runs[0].InstRuns)
+	M := suite.Len()
 	for _, run := range runs {
 		js := make([]int, 0, M)
 		for j := 0; j < M; j++ {
@@ -264,8 +271,7 @@ func (c *Cactus) Utf8(N int) string {
 			jRatio := float64(j) / jDen
 			dj := int(jRatio * float64(N-1))
 			dur := run.InstRuns[p].Dur
-			ratio := float64(dur) / float64(c.MaxDur)
-			di := int(ratio * float64(N-1))
+			di := int(ratio(dur, c.MaxDur) * float64(N-1))
 			bidx := idx(dj, di)
 			if buf[bidx] == byte(' ') {
 				buf[bidx] = tick
@@ -281,12 +287,12 @@ func (c *Cactus) Utf8(N int) string {
 	j := 0
 	legend := make([]string, 0, len(c.D))
 	for _, r := range ticks {
-		s = strings.Replace(s, fmt.Sprintf("%c", byte('0')+byte(j)), string(r), -1)
-		legend = append(legend, fmt.Sprintf("%s\t%s - %s\n", prefix, string(r), c.Runs[j].Name))
-		j++
 		if j >= len(c.D) {
 			break
 		}
+		s = strings.Replace(s, fmt.Sprintf("%c", byte('0')+byte(j)), string(r), -1)
+		legend = append(legend, fmt.Sprintf("%s\t%s - %s\n", prefix, string(r), c.Runs[j].Name))
+		j++
 	}
 	lines := strings.Split(s, "\n")
 	pLines := make([]string, len(lines))
@@ -298,7 +304,11 @@ func (c *Cactus) Utf8(N int) string {
 	s = strings.Join(pLines, "\n")
 
 	delim := strings.Repeat("-", 2*N)
-	sx := fmt.Sprintf("0%s%-5d", strings.Repeat(" ", 2*N+1-5), len(c.D[0]))
+	nInsts := 0
+	if len(c.D) > 0 {
+		nInsts = len(c.D[0])
+	}
+	sx := fmt.Sprintf("0%s%-5d", strings.Repeat(" ", 2*N+1-5), nInsts)
 	return fmt.Sprintf("%s%s\n%s%s\n%s", s, delim, prefix, sx, strings.Join(legend, ""))
 }
 
-- 
2.43.0


From 895547bc7a998bb773ebc2ea0de736fa683b2ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:30 +0000
Subject: [PATCH 58/76] fix: bench records of instances are what happened and
 belong to their instance

A run with a missing record shifted the records behind it to other instances.
Torn numbers were read as other numbers, the error read back had an extra line
end and the start was not the recorded one.  Failures to start the command or
to store its output were not recorded; with a full disk the command blocked.
---
 bench/instrun.go | 80 ++++++++++++++++++++++++++++++------------------
 bench/run.go     | 26 +++++++++-------
 2 files changed, 65 insertions(+), 41 deletions(-)

diff --git a/bench/instrun.go b/bench/instrun.go
index 6c54a67..2e63797 100644
--- a/bench/instrun.go
+++ b/bench/instrun.go
@@ -6,6 +6,7 @@ package bench
 import (
 	"fmt"
 	"io"
+	"io/ioutil"
 	"log"
 	"os"
 	"os/exec"
@@ -54,20 +55,19 @@ func OpenInstRun(run *Run, inst int) (*InstRun, error) {
 		return nil, e
 	}
 	ir.Start = *t
-	f, e := os.Open(iRunResPath(p))
-	if e != nil {
-		return nil, e
-	}
-	defer f.Close()
-	_, e = fmt.Fscanf(f, "%d", &ir.Result)
+	res, e := p2n(iRunResPath(p))
 	if e != nil {
 		return nil, e
 	}
+	ir.Result = int(res)
 	ie, e := p2s(iRunErrPath(p))
 	if e != nil {
 		return nil, e
 	}
-	ir.Error = ie
+	if !strings.HasSuffix(ie, "\n") {
+		return nil, fmt.Errorf("%s: unexpected end of file", iRunErrPath(p))
+	}
+	ir.Error = strings.TrimSuffix(ie, "\n")
 	return ir, nil
 }
 
@@ -84,6 +84,8 @@ func NewInstRun(run *Run, inst int) (*InstRun, error) {
 		return nil, e
 	}
 	ir.chDirAndDo()
+	ir.Out.Close()
+	ir.Err.Close()
 	if e := os.Chdir(orgDir); e != nil {
 		return nil, e
 	}
@@ -97,26 +99,26 @@ func (ir *InstRun) chDirAndDo() {
 	d := iRunPath(ir.Run.Root, ir.Inst)
 	orgDir, e := os.Getwd()
 	if e != nil {
-		log.Printf("error: %s\n", e)
+		ir.fail("error: %s", e)
 		return
 	}
 	orgDir, e = filepath.Abs(orgDir)
 	if e != nil {
-		log.Printf("error: %s\n", e)
+		ir.fail("error: %s", e)
 		return
 	}
 	if e := os.Chdir(d); e != nil {
-		log.Printf("error: %s\n", e)
+		ir.fail("error: %s", e)
 		return
 	}
 	defer func() {
 		if e := os.Chdir(orgDir); e != nil {
-			log.Printf("error: %s\n", e)
+			ir.fail("error: %s", e)
 		}
 	}()
 	p := ir.Run.Suite.Insts[ir.Inst]
 	if e := os.Symlink(filepath.Join("../../../", p), p); e != nil {
-		log.Printf("error: %s\n", e)
+		ir.fail("error: %s", e)
 		return
 	}
 	ir.do()
@@ -128,12 +130,12 @@ func (ir *InstRun) do() {
 	cmd := exec.Command(parts[0], parts[1:]...)
 	out, e := cmd.StdoutPipe()
 	if e != nil {
-		log.Printf("error out pipe: %s\n", e)
+		ir.fail("error out pipe: %s", e)
 		return
 	}
 	err, e := cmd.StderrPipe()
 	if e != nil {
-		log.Printf("error err pipe: %s\n", e)
+		ir.fail("error err pipe: %s", e)
 		return
 	}
 
@@ -141,7 +143,7 @@ func (ir *InstRun) do() {
 	ir.Start = time.Now()
 	ialarm := time.After(ir.dur())
 	if e := cmd.Start(); e != nil {
-		log.Printf("error starting command '%s': %s\n", ir.Run.Cmd, e)
+		ir.fail("error starting command '%s': %s", ir.Run.Cmd, e)
 		return
 	}
 	var wg sync.WaitGroup
@@ -149,24 +151,41 @@ func (ir *InstRun) do() {
 		ir.capture(cmd, done, ialarm)
 	}()
 	wg.Add(1)
+	var outErr, errErr error
 	go func() {
-		_, e := io.Copy(ir.Out, out)
-		if e != nil {
-			log.Printf("error piping output: %s\n", e)
-		}
+		outErr = pipe(ir.Out, out)
 		wg.Done()
 	}()
 	wg.Add(1)
 	go func() {
-		_, e := io.Copy(ir.Err, err)
-		if e != nil {
-			log.Printf("error piping stderr: %s\n", e)
-		}
+		errErr = pipe(ir.Err, err)
 		wg.Done()
 	}()
 	wg.Wait()
 	done <- cmd.Wait()
 	<-done
+	if outErr != nil {
+		ir.fail("error piping output: %s", outErr)
+	}
+	if errErr != nil {
+		ir.fail("error piping stderr: %s", errErr)
+	}
+}
+
+// pipe copies src to dst.  If that fails, the rest of src is read all the
+// same, so that the command does not block.
+func pipe(dst io.Writer, src io.Reader) error {
+	_, e := io.Copy(dst, src)
+	if e != nil {
+		io.Copy(ioutil.Discard, src)
+	}
+	return e
+}
+
+// fail logs and records that the instance could not be run or recorded.
+func (ir *InstRun) fail(f string, args ...interface{}) {
+	ir.Error = fmt.Sprintf(f, args...)
+	log.Println(ir.Error)
 }
 
 func (ir *InstRun) capture(cmd *exec.Cmd, done chan error, ialarm <-chan time.Time) {
@@ -195,8 +214,6 @@ func (ir *InstRun) capture(cmd *exec.Cmd, done chan error, ialarm <-chan time.Ti
 			}
 			ir.UDur = cmd.ProcessState.UserTime()
 			ir.SDur = cmd.ProcessState.SystemTime()
-			ir.Out.Close()
-			ir.Err.Close()
 			done <- nil
 			return
 		}
@@ -230,14 +247,11 @@ func (ir *InstRun) setup() error {
 	err, e := os.OpenFile(errPath, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
 	if e != nil {
 		ir.Error = e.Error()
+		out.Close()
 		return e
 	}
 	ir.Err = err
 	ir.Start = time.Now()
-	if e := t2f(iRunStartPath(d), ir.Start); e != nil {
-		ir.Error = e.Error()
-		return e
-	}
 	return nil
 }
 
@@ -247,8 +261,14 @@ func (ir *InstRun) save() error {
 	if e != nil {
 		return e
 	}
-	fmt.Fprintf(f, "%d\n", ir.Result)
+	_, e = fmt.Fprintf(f, "%d\n", ir.Result)
 	f.Close()
+	if e != nil {
+		return e
+	}
+	if e := t2f(iRunStartPath(p), ir.Start); e != nil {
+		return e
+	}
 	if e := d2f(iRunDurPath(p), ir.Dur); e != nil {
 		return e
 	}
diff --git a/bench/run.go b/bench/run.go
index d4167d2..132910a 100644
--- a/bench/run.go
+++ b/bench/run.go
@@ -10,6 +10,7 @@ import (
 	"os"
 	"path/filepath"
 	"runtime"
+	"strconv"
 	"strings"
 	"time"
 )
@@ -329,7 +330,8 @@ func (r *Run) readInstRuns() error {
 		ir, e := OpenInstRun(r, i)
 		if e != nil {
 			log.Printf("error opening inst run %d in suite %s: %s\n", i, suite.Root, e)
-			continue
+			// keep InstRuns indexed by instance
+			ir = &InstRun{Run: r, Inst: i, Error: e.Error()}
 		}
 		r.InstRuns = append(r.InstRuns, ir)
 	}
@@ -374,19 +376,21 @@ func s2f(s, p string) error {
 	return nil
 }
 
-func p2d(p string) (time.Duration, error) {
-	var d time.Duration
-	f, e := os.Open(p)
+// p2n reads the number in the file p, in a line of its own.
+func p2n(p string) (int64, error) {
+	s, e := p2s(p)
 	if e != nil {
-		return d, e
+		return 0, e
 	}
-	defer f.Close()
-	i := int64(0)
-	n, e := fmt.Fscanf(f, "%d", &i)
-	if e != nil || n != 1 {
-		return d, e
+	if !strings.HasSuffix(s, "\n") {
+		return 0, fmt.Errorf("%s: unexpected end of file", p)
 	}
-	return time.Duration(i), nil
+	return strconv.ParseInt(strings.TrimSuffix(s, "\n"), 10, 64)
+}
+
+func p2d(p string) (time.Duration, error) {
+	i, e := p2n(p)
+	return time.Duration(i), e
 }
 func d2f(p string, d time.Duration) error {
 	f, e := os.OpenFile(p, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
-- 
2.43.0


From 84be11d49de56c828d878dbad5cf36e378608f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 59/76] fix: the handlers of a CRISP server end with the server

---
 crisp/server.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crisp/server.go b/crisp/server.go
index 0ad87d3..424bffd 100644
--- a/crisp/server.go
+++ b/crisp/server.go
@@ -19,7 +19,6 @@ type Server struct {
 	listener   net.Listener
 	lastSolve  ProtoPoint
 	maxClients int
-	connChan   chan net.Conn
 	trace      bool
 	// The thing which generates the solvers for each connection.
 }
@@ -47,17 +46,19 @@ func NewServer(addr string) (*Server, error) {
 		addr:       *a,
 		listener:   listener,
 		lastSolve:  Unknown,
-		maxClients: runtime.NumCPU(),
-		connChan:   make(chan net.Conn)}
+		maxClients: runtime.NumCPU()}
 	return svr, nil
 }
 
 // Serve runs the server in a loop, accepting
 // connections, generating a solver for each connection and binding them
 func (s *Server) Serve() error {
+	connChan := make(chan net.Conn)
+	// the handlers end when there are no more connections.
+	defer close(connChan)
 	for i := 0; i < s.maxClients; i++ {
 		h := newHandler(i+1, &s.trace)
-		go h.serve(s.connChan)
+		go h.serve(connChan)
 	}
 	for {
 		conn, err := s.listener.Accept()
@@ -69,7 +70,7 @@ func (s *Server) Serve() error {
 
 		log.Printf("accepted from %s\n", conn.RemoteAddr().String())
 		// wait for a free handler before accepting again.
-		s.connChan <- conn
+		connChan <- conn
 	}
 }
 
-- 
2.43.0


From 7b8a2fddddad8a2836694f38e538ce081ca74bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 60/76] fix: shutting down a CRISP server leaves the socket of
 its successor alone

---
 crisp/server.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/crisp/server.go b/crisp/server.go
index 424bffd..a7d0152 100644
--- a/crisp/server.go
+++ b/crisp/server.go
@@ -83,18 +83,9 @@ func (s *Server) Trace(b bool) {
 
 // Shutdown stops listening for connections
 func (s *Server) Shutdown() error {
-	var e error
-	e = s.listener.Close()
-	if s.addr.Network == "unix" {
-		if rme := os.Remove(s.addr.NetAddr); rme != nil {
-			if e != nil {
-				e = fmt.Errorf("shutdown errors: %s, %s", e, rme)
-			} else {
-				e = fmt.Errorf("shutdown error: %s", rme)
-			}
-		}
-	}
-	return e
+	// this also removes the socket of a unix address, once: what is there
+	// afterwards may be that of another server.
+	return s.listener.Close()
 }
 
 // ListenAndServer starts a CRISP server
-- 
2.43.0


From 20b2ac54e1a37ea08d9ce28e3ad094c6ac532057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 61/76] fix: a temporary error does not end a CRISP server

---
 crisp/server.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crisp/server.go b/crisp/server.go
index a7d0152..0b5c7a3 100644
--- a/crisp/server.go
+++ b/crisp/server.go
@@ -10,8 +10,12 @@ import (
 	"os"
 	"runtime"
 	"sync"
+	"time"
 )
 
+// time to wait before accepting connections again after a temporary error.
+const acceptRetry = 10 * time.Millisecond
+
 // Type Server houses state for a server.
 type Server struct {
 	addr       Addr
@@ -64,6 +68,11 @@ func (s *Server) Serve() error {
 		conn, err := s.listener.Accept()
 		if err != nil {
 			log.Printf("error accept: %s\n", err)
+			if ne, ok := err.(net.Error); ok && ne.Temporary() {
+				// such as too many open files.
+				time.Sleep(acceptRetry)
+				continue
+			}
 			s.Shutdown()
 			return err
 		}
-- 
2.43.0


From 6e7a583ba25c4283e73ac8585ae5c74fae917049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 62/76] fix: the address of a unix socket prints as it was
 given

---
 crisp/addr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crisp/addr.go b/crisp/addr.go
index 0679c5a..11af95b 100644
--- a/crisp/addr.go
+++ b/crisp/addr.go
@@ -30,7 +30,7 @@ func ParseAddr(s string) *Addr {
 // String puts the address back in the format provided
 // to ParseAddr.
 func (a *Addr) String() string {
-	if a.Network == "@" {
+	if a.Network == "unix" {
 		return fmt.Sprintf("@%s", a.NetAddr)
 	}
 	return fmt.Sprintf("%s", a.NetAddr)
-- 
2.43.0


From d0d038faf0bb699e2dfac633c50a76c724a264b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:28 +0000
Subject: [PATCH 63/76] fix: crispd does not lose a signal which directly
 follows another one

---
 cmd/crispd/sigs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/crispd/sigs.go b/cmd/crispd/sigs.go
index 671decb..fdbe4e3 100644
--- a/cmd/crispd/sigs.go
+++ b/cmd/crispd/sigs.go
@@ -10,7 +10,8 @@ import (
 	"syscall"
 )
 
-var sigs = make(chan os.Signal, 1)
+// room for more than one, so that a signal behind another one is not lost.
+var sigs = make(chan os.Signal, 16)
 
 func init() {
 	signal.Notify(sigs, syscall.SIGINT, syscall.SIGTERM, syscall.SIGUSR1)
-- 
2.43.0


From 238c220526794ddea4f9b4f16ab1b5a6e119f26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 64/76] fix: logic.C.InPos listed the constant as an input

---
 logic/c.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/c.go b/logic/c.go
index 8ce1d01..82a4be5 100644
--- a/logic/c.go
+++ b/logic/c.go
@@ -186,7 +186,7 @@ func (c *C) Lit() z.Lit {
 func (c *C) InPos(dst []int) []int {
 	dst = dst[:0]
 	for i, n := range c.nodes {
-		if i == 0 {
+		if i <= 1 { // null and the constant
 			continue
 		}
 		if n.a == z.LitNull && n.b == z.LitNull {
-- 
2.43.0


From 0ca7a36f9e6acffe0229834b5bc70720ec3458ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 65/76] fix: logic.C.Eval64 evaluated the constant to false in
 bit 63

---
 logic/c.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/c.go b/logic/c.go
index 82a4be5..9f03fb4 100644
--- a/logic/c.go
+++ b/logic/c.go
@@ -228,7 +228,7 @@ func (c *C) Eval(vs []bool) {
 // parallel as the bits of a uint64.
 func (c *C) Eval64(vs []uint64) {
 	N := len(c.nodes)
-	vs[1] = (1 << 63) - 1
+	vs[1] = ^uint64(0)
 	for i := 2; i < N; i++ {
 		n := &c.nodes[i]
 		if n.a < 4 {
-- 
2.43.0


From 457006ac1816276c2afe7763efb46f4630b9880b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 66/76] fix: a copied logic.C did not find existing gates again

---
 logic/c.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/logic/c.go b/logic/c.go
index 9f03fb4..8887007 100644
--- a/logic/c.go
+++ b/logic/c.go
@@ -68,7 +68,8 @@ func (c *C) ToCnf(dst inter.Adder) {
 
 // Copy makes a copy of `c`.
 func (c *C) Copy() *C {
-	ns := make([]node, len(c.nodes))
+	// the same capacity, on which the positions in strash depend.
+	ns := make([]node, len(c.nodes), cap(c.nodes))
 	st := make([]uint32, len(c.strash))
 	copy(ns, c.nodes)
 	copy(st, c.strash)
-- 
2.43.0


From 0ab913a3908422fe410a76474ad74b1201dadbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:40 +0000
Subject: [PATCH 67/76] fix: a copied solver lost the state of its search
 heuristics

Copying a solver left out the decay parameters of the variable ordering:
the first Decay in a copy divided the bump increment by zero, all bumped
variables got infinite heat, and the copy searched almost blindly (random
3-SAT of 150 variables took 200 times as long).  The increment of clause
activity was lost as well.
---
 internal/xo/cdat.go  |  1 +
 internal/xo/guess.go | 20 +++++++++++++-------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/internal/xo/cdat.go b/internal/xo/cdat.go
index 07e1f2d..a821967 100644
--- a/internal/xo/cdat.go
+++ b/internal/xo/cdat.go
@@ -227,6 +227,7 @@ func (c *CDat) CopyTo(other *CDat) {
 	other.Len = c.Len
 	other.Cap = c.Cap
 	other.ClsLen = c.ClsLen
+	other.bumpInc = c.bumpInc
 	copy(other.D, c.D)
 }
 
diff --git a/internal/xo/guess.go b/internal/xo/guess.go
index 7816467..3df9778 100644
--- a/internal/xo/guess.go
+++ b/internal/xo/guess.go
@@ -207,13 +207,19 @@ func (g *Guess) Heat() float64 {
 // Copy makes a copy of g.
 func (g *Guess) Copy() *Guess {
 	other := &Guess{
-		pos:       make([]int, len(g.pos), cap(g.pos)),
-		vhp:       make([]z.Var, len(g.vhp), cap(g.vhp)),
-		heat:      make([]float64, len(g.heat), cap(g.heat)),
-		cache:     make([]int8, len(g.cache), cap(g.cache)),
-		bumpInc:   g.bumpInc,
-		bumpDecay: g.bumpDecay,
-		bumpLim:   g.bumpLim}
+		pos:           make([]int, len(g.pos), cap(g.pos)),
+		vhp:           make([]z.Var, len(g.vhp), cap(g.vhp)),
+		heat:          make([]float64, len(g.heat), cap(g.heat)),
+		cache:         make([]int8, len(g.cache), cap(g.cache)),
+		decays:        g.decays,
+		restartDecays: g.restartDecays,
+		decayMax:      g.decayMax,
+		decayMin:      g.decayMin,
+		decayMaxMax:   g.decayMaxMax,
+		decayMaxDecay: g.decayMaxDecay,
+		bumpInc:       g.bumpInc,
+		bumpDecay:     g.bumpDecay,
+		bumpLim:       g.bumpLim}
 	copy(other.pos, g.pos)
 	copy(other.vhp, g.vhp)
 	copy(other.heat, g.heat)
-- 
2.43.0


From e9fa0898604a9865739424a3a851a4b25ed05d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:24 +0000
Subject: [PATCH 68/76] fix: crispd read its server in the signal goroutine
 without synchronisation

---
 cmd/crispd/crispd.go | 14 +++++++++++---
 cmd/crispd/sigs.go   |  2 ++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/cmd/crispd/crispd.go b/cmd/crispd/crispd.go
index 69fdd92..a986715 100644
--- a/cmd/crispd/crispd.go
+++ b/cmd/crispd/crispd.go
@@ -9,11 +9,17 @@ import (
 	"log"
 	"os"
 	"path/filepath"
+	"sync"
 
 	"github.com/go-air/gini/crisp"
 )
 
-var CrispD *crisp.Server
+// CrispD is the server once it is there, crispDMu guards it: the goroutine
+// which handles signals uses it too.
+var (
+	crispDMu sync.Mutex
+	CrispD   *crisp.Server
+)
 var trace = flag.Bool("trace", false, "turn on protocol tracing")
 
 func main() {
@@ -34,7 +40,9 @@ func main() {
 		log.Printf("error starting CRISP-1.0 server: %s\n", e)
 		return
 	}
+	s.Trace(*trace)
+	crispDMu.Lock()
 	CrispD = s
-	CrispD.Trace(*trace)
-	log.Println(CrispD.Serve())
+	crispDMu.Unlock()
+	log.Println(s.Serve())
 }
diff --git a/cmd/crispd/sigs.go b/cmd/crispd/sigs.go
index fdbe4e3..106db75 100644
--- a/cmd/crispd/sigs.go
+++ b/cmd/crispd/sigs.go
@@ -21,9 +21,11 @@ func init() {
 			switch sig {
 			case syscall.SIGINT, syscall.SIGTERM:
 				fmt.Printf("\ninterrupted\n")
+				crispDMu.Lock()
 				if CrispD != nil {
 					CrispD.Shutdown()
 				}
+				crispDMu.Unlock()
 				os.Exit(1)
 			case syscall.SIGUSR1:
 				fmt.Printf("\ncause SIGUSR1\n")
-- 
2.43.0


From 58e163565b0a5a96ae7895fd68b64bb2e5edb74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:45 +0000
Subject: [PATCH 69/76] fix: crisp Server.Trace raced with the handlers which
 read it

---
 crisp/handler.go | 30 ++++++++++++++++++------------
 crisp/server.go  | 13 +++++++------
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/crisp/handler.go b/crisp/handler.go
index f06a745..80dda13 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -8,6 +8,7 @@ import (
 	"log"
 	"net"
 	"os"
+	"sync/atomic"
 
 	"github.com/go-air/gini"
 	"github.com/go-air/gini/inter"
@@ -32,22 +33,27 @@ type Handler struct {
 	result    int         // of the last solve
 	proto     ProtoPoint
 	ms        []z.Lit
-	trace     *bool
+	trace     *int32 // atomic, shared with the server
 	steps     int
 }
 
-func newHandler(i int, tr *bool) *Handler {
+func newHandler(i int, tr *int32) *Handler {
 	h := &Handler{
 		id:    i,
 		proto: Unknown,
 		ms:    make([]z.Lit, 0, 1024),
 		trace: tr}
 	if os.Getenv("TRACE_CRISP") != "" {
-		*tr = true
+		atomic.StoreInt32(tr, 1)
 	}
 	return h
 }
 
+// tracing tells whether to trace, which may change at any time.
+func (h *Handler) tracing() bool {
+	return atomic.LoadInt32(h.trace) != 0
+}
+
 func (h *Handler) serve(cc <-chan net.Conn) {
 	for {
 		conn, ok := <-cc
@@ -55,11 +61,11 @@ func (h *Handler) serve(cc <-chan net.Conn) {
 			// shutdown, channel closed
 			return
 		}
-		if *h.trace {
+		if h.tracing() {
 			log.Printf("%d start serving %+v.\n", h.id, conn)
 		}
 		h.serveConn(conn)
-		if *h.trace {
+		if h.tracing() {
 			log.Printf("%d done serving.\n", h.id)
 		}
 	}
@@ -80,7 +86,7 @@ func (h *Handler) serveConn(conn net.Conn) {
 }
 
 func (h *Handler) cleanup() {
-	if *h.trace {
+	if h.tracing() {
 		log.Printf("%d cleanup\n", h.id)
 	}
 	h.conn.Close()
@@ -105,7 +111,7 @@ func (h *Handler) Crisp() error {
 			return e
 		}
 		p := ProtoPoint(u)
-		if *h.trace {
+		if h.tracing() {
 			log.Printf("%d received %s\n", h.id, p)
 		}
 		if e := h.checkOrder(p); e != nil {
@@ -248,7 +254,7 @@ func (h *Handler) handleAdd() error {
 			return e
 		}
 		if m == uint32(End) {
-			if *h.trace {
+			if h.tracing() {
 				log.Printf("%d received %s\n", h.id, End)
 			}
 			return nil
@@ -310,7 +316,7 @@ func (h *Handler) sendRes(res int, end bool) error {
 		if e := h.uio.writeflush(uint32(Unsat)); e != nil {
 			return e
 		}
-		if *h.trace {
+		if h.tracing() {
 			log.Printf("%d sent %s\n", h.id, Unsat)
 		}
 		return nil
@@ -318,7 +324,7 @@ func (h *Handler) sendRes(res int, end bool) error {
 		if e := h.uio.writeflush(uint32(Sat)); e != nil {
 			return e
 		}
-		if *h.trace {
+		if h.tracing() {
 			log.Printf("%d sent %s\n", h.id, Sat)
 		}
 		return nil
@@ -330,7 +336,7 @@ func (h *Handler) sendRes(res int, end bool) error {
 		if e := h.uio.writeflush(op); e != nil {
 			return e
 		}
-		if *h.trace {
+		if h.tracing() {
 			log.Printf("%d sent %s\n", h.id, Unknown)
 		}
 		return nil
@@ -451,7 +457,7 @@ func (h *Handler) handleQuit() error {
 
 // Error sends an error op with code e, after which the connection should be closed.
 func (h *Handler) Error(e ProtoErr) error {
-	if *h.trace {
+	if h.tracing() {
 		log.Printf("%d <error> %s\n", h.id, e)
 	}
 	if e := h.uio.writeu32(uint32(Error)); e != nil {
diff --git a/crisp/server.go b/crisp/server.go
index 0b5c7a3..5cde2a5 100644
--- a/crisp/server.go
+++ b/crisp/server.go
@@ -9,7 +9,7 @@ import (
 	"net"
 	"os"
 	"runtime"
-	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -19,11 +19,10 @@ const acceptRetry = 10 * time.Millisecond
 // Type Server houses state for a server.
 type Server struct {
 	addr       Addr
-	mu         sync.Mutex
 	listener   net.Listener
 	lastSolve  ProtoPoint
 	maxClients int
-	trace      bool
+	trace      int32 // atomic, the handlers read it while serving
 	// The thing which generates the solvers for each connection.
 }
 
@@ -85,9 +84,11 @@ func (s *Server) Serve() error {
 
 // Trace tells the server whether to trace
 func (s *Server) Trace(b bool) {
-	s.mu.Lock()
-	defer s.mu.Unlock()
-	s.trace = b
+	var t int32
+	if b {
+		t = 1
+	}
+	atomic.StoreInt32(&s.trace, t)
 }
 
 // Shutdown stops listening for connections
-- 
2.43.0


From 147a6c4991c474b23b174b280a1d08074a5c6bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:49 +0000
Subject: [PATCH 70/76] fix: gen missed Pythagorean triples such as (3,4,5)

---
 gen/pt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/pt.go b/gen/pt.go
index 3dbf482..9d25829 100644
--- a/gen/pt.go
+++ b/gen/pt.go
@@ -91,7 +91,7 @@ func (s *squares) get(i int) int {
 
 func (s *squares) root(v int) int {
 	t := s.d
-	for len(t)*len(t) < v {
+	for len(t)*len(t) <= v {
 		t = append(t, len(t)*len(t))
 	}
 	s.d = t
-- 
2.43.0


From fc5f308ff7ca872305fef22ac0111fb9382ef266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:50 +0000
Subject: [PATCH 71/76] fix: PyTriples mixed up the variables of its partition

---
 gen/pt.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/gen/pt.go b/gen/pt.go
index 9d25829..7630c6d 100644
--- a/gen/pt.go
+++ b/gen/pt.go
@@ -41,12 +41,11 @@ func Partition(dst inter.Adder, n, k int) {
 // s.t i^2 + j^2 = k^2 in some partition of a k-partition of [1..n]
 func PyTriples(dst inter.Adder, n, k int) {
 	Partition(dst, n, k)
-	_, ts := pytriples(n)
-	for _, t := range ts {
+	for _, t := range triplesTo(n) {
 		for p := 0; p < k; p++ {
-			a := PartVar(t.a, p, n)
-			b := PartVar(t.b, p, n)
-			c := PartVar(t.c, p, n)
+			a := PartVar(t.a-1, p, n)
+			b := PartVar(t.b-1, p, n)
+			c := PartVar(t.c-1, p, n)
 			dst.Add(a.Not())
 			dst.Add(b.Not())
 			dst.Add(c.Not())
@@ -141,6 +140,24 @@ func pytriples(n int) (map[int]int, []triple) {
 	return in, res
 }
 
+// triplesTo returns the triples of numbers in [1..n].
+func triplesTo(n int) []triple {
+	var res []triple
+	sqrs := &squares{make([]int, 0, n+1)}
+	for b := 1; b < n; b++ {
+		for a := 1; a < b; a++ {
+			c2 := a*a + b*b
+			if c2 > n*n {
+				break
+			}
+			if c := sqrs.root(c2); c != -1 {
+				res = append(res, triple{a, b, c})
+			}
+		}
+	}
+	return res
+}
+
 func counts(ts []triple) []int {
 	res := make([]int, 0, len(ts)+len(ts)/2)
 	for _, t := range ts {
-- 
2.43.0


From e51e0320f3cf9425b19225aa2ab48356f1bbb6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:58 +0000
Subject: [PATCH 72/76] fix: RandColor gave all nodes the same variables and
 joined the clauses of an edge

---
 gen/color.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gen/color.go b/gen/color.go
index 8ddd6ea..9fa86bc 100644
--- a/gen/color.go
+++ b/gen/color.go
@@ -16,8 +16,8 @@ import (
 // a color and no 2 adjacent nodes may have the same color.
 func RandColor(dst inter.Adder, n, m, k int) {
 	g := RandGraph(n, m)
-	var mkVar = func(n, c int) z.Var {
-		return z.Var(n*c + c + 1)
+	var mkVar = func(i, c int) z.Var {
+		return z.Var(i*k + c + 1)
 	}
 	for i := range g {
 		for j := 0; j < k; j++ {
@@ -36,8 +36,8 @@ func RandColor(dst inter.Adder, n, m, k int) {
 				b := mkVar(b, c).Neg()
 				dst.Add(a)
 				dst.Add(b)
+				dst.Add(0)
 			}
-			dst.Add(0)
 		}
 	}
 }
-- 
2.43.0


From ddf4dd51ff126f0f5c7ed6b28224a189e6897e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:54 +0000
Subject: [PATCH 73/76] fix: learnt unit clauses which are not in use are
 garbage

---
 internal/xo/cgc.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/internal/xo/cgc.go b/internal/xo/cgc.go
index 883072c..74784b2 100644
--- a/internal/xo/cgc.go
+++ b/internal/xo/cgc.go
@@ -142,9 +142,6 @@ func (c *Cgc) Compact(cdb *Cdb) (int, int, int) {
 		if cdb.IsBinary(p) {
 			continue
 		}
-		if cdb.IsUnit(p) {
-			continue
-		}
 		// ok, add it to rm for removal below.
 		rms = append(rms, p)
 		learnts[n], learnts[top] = learnts[top], p
-- 
2.43.0


From 13861513cd9e8ad62fd4a645f8d84a643ab0f988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:55 +0000
Subject: [PATCH 74/76] fix: copying a solver put off its next clause garbage
 collection

---
 internal/xo/cgc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/xo/cgc.go b/internal/xo/cgc.go
index 74784b2..00ad2a4 100644
--- a/internal/xo/cgc.go
+++ b/internal/xo/cgc.go
@@ -52,8 +52,8 @@ func (c *Cgc) Copy() *Cgc {
 	*l = *c.luby
 	other := &Cgc{
 		luby:      l,
-		factor:    2048,
-		stopWatch: 2048 * l.Next(),
+		factor:    c.factor,
+		stopWatch: c.stopWatch,
 		rmq:       make([]z.C, len(c.rmq), cap(c.rmq)),
 		rmLits:    c.rmLits,
 		rmd:       c.rmd}
-- 
2.43.0


From a72a6cc4d3045cfef5787d340636815525dfac76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:11 +0000
Subject: [PATCH 75/76] fix: Client.Model kept the caller's slice, whose later
 use changed what Value returned

---
 crisp/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crisp/client.go b/crisp/client.go
index 637b914..c6a3bb9 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -259,7 +259,7 @@ func (c *Client) Model(vs []bool) ([]bool, error) {
 		}
 		vs[i+1] = u&(1<<j) != 0
 	}
-	c.model = vs
+	c.model = append([]bool(nil), vs...) // vs is the caller's
 	return vs, nil
 }
 
-- 
2.43.0


From 403791f85fd9d2f8b33bac318f02c39b7b75aa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:21 +0000
Subject: [PATCH 76/76] fix: Roll panicked for what was added to its circuit
 after it was created

---
 logic/roll.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/logic/roll.go b/logic/roll.go
index 3ec3c8a..d4b53aa 100644
--- a/logic/roll.go
+++ b/logic/roll.go
@@ -24,6 +24,7 @@ func NewRoll(s *S) *Roll {
 
 // Len returns the length of the unrolling for literal m.
 func (u *Roll) Len(m z.Lit) int {
+	u.grow()
 	v := m.Var()
 	return len(u.dmap[v])
 }
@@ -31,6 +32,7 @@ func (u *Roll) Len(m z.Lit) int {
 // MaxLen returns the maximum length of any literal in
 // the unrolling.
 func (u *Roll) MaxLen() int {
+	u.grow()
 	ns := u.S.nodes
 	max := 0
 	for i := 1; i < len(ns); i++ {
@@ -48,6 +50,7 @@ func (u *Roll) MaxLen() int {
 //
 // If d < 0, then At panics.
 func (u *Roll) At(m z.Lit, d int) z.Lit {
+	u.grow()
 	v := m.Var()
 	if len(u.dmap[v]) < d {
 		u.At(m, d-1)
@@ -102,3 +105,10 @@ Done:
 	}
 	return res
 }
+
+// grow makes place for what was added to u.S since u was created.
+func (u *Roll) grow() {
+	for len(u.dmap) < len(u.S.nodes) {
+		u.dmap = append(u.dmap, nil)
+	}
+}
-- 
2.43.0

