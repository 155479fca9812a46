// Package vsync stands in for package sync in the instrumented build: while a
// Sched is active, at most one managed goroutine runs at a time and every
// operation below is a scheduling point at which the explorer decides who runs
// next.  Without an active Sched it behaves like package sync.
package vsync

import (
	"fmt"
	"runtime/debug"
	"sync"
	"unsafe"
)

type (
	Map    = sync.Map
	Pool   = sync.Pool
	Locker = sync.Locker
	Cond   = sync.Cond
)

func NewCond(l Locker) *Cond   { return sync.NewCond(l) }
func OnceFunc(f func()) func() { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T {
	return sync.OnceValue(f)
}
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	return sync.OnceValues(f)
}

type thread struct {
	id   int
	wake chan struct{}
	pred func() bool
	done bool
	what string
}

// Point is one scheduling decision.
type Point struct {
	Enabled []int // thread ids, the running one first if it is still enabled
	Chosen  int   // index into Enabled
	Running bool  // the running thread was still enabled
	What    string
}

// Sched explores one execution.
type Sched struct {
	Prefix   []int
	Points   []Point
	Deadlock bool
	Panic    string
	Diverged string
	Horizon  int
	Overrun  bool

	threads []*thread
	cur     *thread
	finish  chan struct{}
	over    bool
}

var active *Sched

// Active reports whether a scheduler is in charge.
func Active() bool { return active != nil }

// Run executes body as thread 0 under the scheduler, waits until every thread
// is done (or nothing can run), and returns.
func (s *Sched) Run(body func()) {
	if s.Horizon == 0 {
		s.Horizon = 20000
	}
	s.finish = make(chan struct{})
	active = s
	t := s.spawn(body)
	s.cur = t
	raceOff()
	t.wake <- struct{}{}
	<-s.finish
	raceOn()
	acquire(unsafe.Pointer(s))
	active = nil
}

func (s *Sched) spawn(f func()) *thread {
	t := &thread{id: len(s.threads), wake: make(chan struct{}, 1), pred: func() bool { return true }, what: "start"}
	s.threads = append(s.threads, t)
	go func() {
		raceOff()
		<-t.wake
		raceOn()
		defer func() {
			if e := recover(); e != nil {
				if s.Panic == "" {
					s.Panic = fmt.Sprintf("%v\n%s", e, debug.Stack())
				}
			}
			releaseMerge(unsafe.Pointer(s))
			t.done = true
			raceOff()
			s.next(t)
			raceOn()
		}()
		f()
	}()
	return t
}

func (s *Sched) enabled(cur *thread) []*thread {
	var out []*thread
	if cur != nil && !cur.done && cur.pred() {
		out = append(out, cur)
	}
	for _, t := range s.threads {
		if t != cur && !t.done && t.pred() {
			out = append(out, t)
		}
	}
	return out
}

func (s *Sched) end() {
	if !s.over {
		s.over = true
		close(s.finish)
	}
}

// next picks the next thread to run; called by the running thread.
func (s *Sched) next(me *thread) *thread {
	if s.Panic != "" {
		s.end()
		return nil
	}
	en := s.enabled(me)
	if len(en) == 0 {
		for _, t := range s.threads {
			if !t.done {
				s.Deadlock = true
			}
		}
		s.end()
		return nil
	}
	ch := 0
	if len(en) > 1 {
		p := Point{Running: en[0] == me, What: en[0].what}
		for _, t := range en {
			p.Enabled = append(p.Enabled, t.id)
		}
		i := len(s.Points)
		if i < len(s.Prefix) {
			ch = s.Prefix[i]
			if ch >= len(en) {
				s.Diverged = fmt.Sprintf("replay divergence at point %d: choice %d of %d", i, ch, len(en))
				ch = 0
			}
		}
		p.Chosen = ch
		s.Points = append(s.Points, p)
		if len(s.Points) > s.Horizon {
			s.Overrun = true
			s.end()
			return nil
		}
	}
	t := en[ch]
	s.cur = t
	if t != me {
		t.wake <- struct{}{}
	}
	return t
}

// block waits until pred holds and this thread is chosen.
func (s *Sched) block(what string, pred func() bool) {
	me := s.cur
	me.pred, me.what = pred, what
	raceOff()
	t := s.next(me)
	if t != me {
		<-me.wake // a thread of a finished execution stays parked here
	}
	raceOn()
	me.pred = func() bool { return true }
}

// Yield is a bare scheduling point.
func Yield(what string) {
	if s := active; s != nil {
		s.block(what, func() bool { return true })
	}
}

// Go starts a managed goroutine.
func Go(f func()) {
	s := active
	if s == nil {
		go f()
		return
	}
	s.spawn(f)
	s.block("go", func() bool { return true })
}

type Mutex struct {
	mu     sync.Mutex
	locked bool
}

func (m *Mutex) Lock() {
	s := active
	if s == nil {
		m.mu.Lock()
		return
	}
	s.block("lock", func() bool { return !m.locked })
	m.locked = true
	acquire(unsafe.Pointer(m))
}

func (m *Mutex) Unlock() {
	s := active
	if s == nil {
		m.mu.Unlock()
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	release(unsafe.Pointer(m))
	m.locked = false
}

func (m *Mutex) TryLock() bool {
	s := active
	if s == nil {
		return m.mu.TryLock()
	}
	Yield("trylock")
	if m.locked {
		return false
	}
	m.locked = true
	acquire(unsafe.Pointer(m))
	return true
}

type RWMutex struct {
	mu      sync.RWMutex
	writer  bool
	readers int
}

func (m *RWMutex) Lock() {
	s := active
	if s == nil {
		m.mu.Lock()
		return
	}
	s.block("wlock", func() bool { return !m.writer && m.readers == 0 })
	m.writer = true
	acquire(unsafe.Pointer(m))
	acquire(unsafe.Pointer(&m.readers))
}

func (m *RWMutex) Unlock() {
	if active == nil {
		m.mu.Unlock()
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	release(unsafe.Pointer(m))
	m.writer = false
}

func (m *RWMutex) RLock() {
	s := active
	if s == nil {
		m.mu.RLock()
		return
	}
	s.block("rlock", func() bool { return !m.writer })
	m.readers++
	acquire(unsafe.Pointer(m))
}

func (m *RWMutex) RUnlock() {
	if active == nil {
		m.mu.RUnlock()
		return
	}
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	releaseMerge(unsafe.Pointer(&m.readers))
	m.readers--
}

func (m *RWMutex) TryLock() bool {
	if active == nil {
		return m.mu.TryLock()
	}
	Yield("trywlock")
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	acquire(unsafe.Pointer(m))
	acquire(unsafe.Pointer(&m.readers))
	return true
}

func (m *RWMutex) TryRLock() bool {
	if active == nil {
		return m.mu.TryRLock()
	}
	Yield("tryrlock")
	if m.writer {
		return false
	}
	m.readers++
	acquire(unsafe.Pointer(m))
	return true
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct {
	wg sync.WaitGroup
	n  int
}

func (w *WaitGroup) Add(d int) {
	if active == nil {
		w.wg.Add(d)
		return
	}
	if d < 0 {
		releaseMerge(unsafe.Pointer(w))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	s := active
	if s == nil {
		w.wg.Wait()
		return
	}
	s.block("wait", func() bool { return w.n == 0 })
	acquire(unsafe.Pointer(w))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	once    sync.Once
	done    bool
	running bool
}

func (o *Once) Do(f func()) {
	s := active
	if s == nil {
		o.once.Do(func() {
			if !o.done {
				o.done = true
				f()
			}
		})
		return
	}
	s.block("once", func() bool { return !o.running })
	acquire(unsafe.Pointer(o))
	if o.done {
		return
	}
	o.running = true
	defer func() { o.running = false; o.done = true; release(unsafe.Pointer(o)) }()
	f()
}

// Result of an exploration.
type Result struct {
	Executions int
	Points     int
	Complete   bool
	Stopped    bool
}

// Explore runs mk()'s body under every schedule with at most bound preemptions
// (up to maxExec executions).  check is called after each execution; it
// returns false to stop.
func Explore(bound, maxExec int, mk func() func(), check func(s *Sched) bool) Result {
	return explore(bound, maxExec, false, mk, check)
}

// ExploreDelays is Explore with a bound on the deviations from the default
// schedule (which lets the running thread run on, or else the oldest one):
// choosing the n-th other thread costs n.
func ExploreDelays(bound, maxExec int, mk func() func(), check func(s *Sched) bool) Result {
	return explore(bound, maxExec, true, mk, check)
}

func explore(bound, maxExec int, delays bool, mk func() func(), check func(s *Sched) bool) Result {
	res := Result{Complete: true}
	type item struct {
		prefix []int
		cost   int
	}
	// breadth first by cost so that the first counterexample has the fewest preemptions
	queues := make([][]item, bound+1)
	queues[0] = []item{{nil, 0}}
	for b := 0; b <= bound; b++ {
		for len(queues[b]) > 0 {
			n := len(queues[b]) - 1
			it := queues[b][n]
			queues[b] = queues[b][:n]
			if res.Executions >= maxExec {
				res.Complete = false
				return res
			}
			s := &Sched{Prefix: it.prefix}
			body := mk()
			s.Run(body)
			res.Executions++
			res.Points += len(s.Points)
			if s.Overrun {
				res.Complete = false
			}
			if !check(s) {
				res.Stopped = true
				res.Complete = false
				return res
			}
			for i := len(it.prefix); i < len(s.Points); i++ {
				p := s.Points[i]
				for alt := 1; alt < len(p.Enabled); alt++ {
					cost := it.cost
					if delays {
						cost += alt
					} else if p.Running {
						cost++
					}
					if cost > bound {
						break
					}
					pre := make([]int, 0, i+1)
					for j := 0; j < i; j++ {
						pre = append(pre, s.Points[j].Chosen)
					}
					queues[cost] = append(queues[cost], item{append(pre, alt), cost})
				}
			}
		}
	}
	return res
}

// Trace returns the schedule as a list of thread choices.
func (s *Sched) Trace() []int {
	var out []int
	for _, p := range s.Points {
		out = append(out, p.Chosen)
	}
	return out
}
