package simrt

import (
	"fmt"
	"runtime"
	"sort"
	"sync"
)

type Locker = sync.Locker

// Mutex replaces sync.Mutex.
type Mutex struct {
	ep     int64
	locked bool
	q      []*Task
	vc     vclock
}

func (m *Mutex) epoch() {
	if S != nil && m.ep != S.id {
		m.ep, m.locked, m.q, m.vc = S.id, false, nil, nil
	}
}

func wakeAll(q *[]*Task) {
	for _, t := range *q {
		S.ready(t)
	}
	*q = nil
}

func (m *Mutex) Lock() {
	s := S
	if s == nil {
		m.locked = true
		return
	}
	if s.ending {
		runtime.Goexit()
	}
	point()
	m.epoch()
	for m.locked {
		m.q = append(m.q, s.cur)
		s.block("mutex lock")
	}
	m.locked = true
	acquire(m.vc)
}

func (m *Mutex) TryLock() bool {
	if S == nil {
		return true
	}
	point()
	m.epoch()
	if m.locked {
		return false
	}
	m.locked = true
	acquire(m.vc)
	return true
}

func (m *Mutex) Unlock() {
	s := S
	if s == nil {
		m.locked = false
		return
	}
	if s.ending {
		return
	}
	m.epoch()
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	release(&m.vc)
	wakeAll(&m.q)
	point()
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	ep int64
	w  bool
	r  int
	ww int
	q  []*Task
	// what unlocking and what read-unlocking released
	wvc, rvc vclock
}

func (m *RWMutex) epoch() {
	if S != nil && m.ep != S.id {
		*m = RWMutex{ep: S.id}
	}
}

func (m *RWMutex) Lock() {
	if S == nil {
		return
	}
	point()
	m.epoch()
	m.ww++
	for m.w || m.r > 0 {
		m.q = append(m.q, S.cur)
		S.block("rwmutex lock")
	}
	m.ww--
	m.w = true
	acquire(m.wvc)
	acquire(m.rvc)
}

func (m *RWMutex) Unlock() {
	if S == nil || S.ending {
		return
	}
	m.epoch()
	if !m.w {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	release(&m.wvc)
	wakeAll(&m.q)
	point()
}

func (m *RWMutex) RLock() {
	if S == nil {
		return
	}
	point()
	m.epoch()
	for m.w || m.ww > 0 {
		m.q = append(m.q, S.cur)
		S.block("rwmutex rlock")
	}
	m.r++
	acquire(m.wvc)
}

func (m *RWMutex) RUnlock() {
	if S == nil || S.ending {
		return
	}
	m.epoch()
	if m.r <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	release(&m.rvc)
	if m.r == 0 {
		wakeAll(&m.q)
	}
	point()
}

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	ep int64
	n  int
	q  []*Task
	vc vclock
}

func (w *WaitGroup) epoch() {
	if S != nil && w.ep != S.id {
		*w = WaitGroup{ep: S.id}
	}
}

func (w *WaitGroup) Add(d int) {
	if S != nil && S.ending {
		return
	}
	w.epoch()
	w.n += d
	if d < 0 {
		release(&w.vc)
	}
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 && S != nil {
		wakeAll(&w.q)
	}
	if S != nil {
		point()
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if S == nil {
		return
	}
	point()
	w.epoch()
	for w.n > 0 {
		w.q = append(w.q, S.cur)
		S.block("waitgroup wait")
	}
	acquire(w.vc)
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() { defer w.Done(); f() })
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
	vc   vclock
}

func (o *Once) Do(f func()) {
	if o.done {
		acquire(o.vc)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true; o.vc = nil; release(&o.vc) }()
		f()
	}
}

// Cond replaces sync.Cond.
type Cond struct {
	L sync.Locker
	q []*Task
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.q = append(c.q, S.cur)
	t := S.cur
	S.noPreempt++
	c.L.Unlock()
	S.noPreempt--
	_ = t
	S.block("cond wait")
	c.L.Lock()
}

func (c *Cond) Signal() {
	point()
	if len(c.q) > 0 {
		i := S.Src.Choose(StSched, len(c.q))
		t := c.q[i]
		c.q = append(c.q[:i:i], c.q[i+1:]...)
		S.ready(t)
	}
}

func (c *Cond) Broadcast() {
	point()
	wakeAll(&c.q)
}

// Map replaces sync.Map.
type Map struct {
	m  map[any]any
	k  []any
	vc vclock
}

func (m *Map) Load(k any) (any, bool) {
	point()
	acqRel(&m.vc)
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v any) {
	point()
	acqRel(&m.vc)
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.k = append(m.k, k)
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	point()
	if o, ok := m.m[k]; ok {
		acqRel(&m.vc)
		return o, true
	}
	S.noPreempt++
	m.Store(k, v)
	S.noPreempt--
	return v, false
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) LoadAndDelete(k any) (any, bool) {
	point()
	acqRel(&m.vc)
	v, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, o := range m.k {
			if o == k {
				m.k = append(m.k[:i:i], m.k[i+1:]...)
				break
			}
		}
	}
	return v, ok
}
func (m *Map) Range(f func(k, v any) bool) {
	point()
	acqRel(&m.vc)
	for _, k := range append([]any(nil), m.k...) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}

// Pool replaces sync.Pool; whether an item is reused is a seeded choice.
type Pool struct {
	New func() any
	ep  int64
	l   []any
	vc  vclock
}

func (p *Pool) Get() any {
	if S != nil && p.ep != S.id {
		p.ep, p.l = S.id, nil
	}
	if n := len(p.l); n > 0 && !Chance(StMisc, 1, 8) {
		acqRel(&p.vc)
		v := p.l[n-1]
		p.l = p.l[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if S != nil && p.ep != S.id {
		p.ep, p.l = S.id, nil
	}
	acqRel(&p.vc)
	p.l = append(p.l, v)
}

// MapKeys returns the keys of m in a seeded order.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	strs := make(map[K]string, len(ks))
	for _, k := range ks {
		strs[k] = fmt.Sprintf("%#v", k)
	}
	sort.Slice(ks, func(i, j int) bool {
		a, b := strs[ks[i]], strs[ks[j]]
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		return a < b
	})
	if S != nil && len(ks) > 1 {
		if len(ks) <= 64 {
			for i := len(ks) - 1; i > 0; i-- {
				j := i - S.Src.Choose(StMisc, i+1)
				ks[i], ks[j] = ks[j], ks[i]
			}
		} else {
			r := S.Src.Choose(StMisc, len(ks))
			ks = append(append([]K(nil), ks[r:]...), ks[:r]...)
		}
	}
	return ks
}

func NumCPU() int {
	if S == nil || S.cfg.NumCPU < 1 {
		return 4
	}
	return S.cfg.NumCPU
}

func Gosched() {
	s := S
	if s == nil {
		return
	}
	point()
	if len(s.runq) > 0 && s.noPreempt == 0 {
		s.runq = append(s.runq, s.cur)
		s.switchOut()
	}
}

func GOMAXPROCS(n int) int { return NumCPU() }
func NumGoroutine() int    { return len(S.tasks) }
