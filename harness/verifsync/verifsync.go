// Package verifsync stands in for package sync while a schedule is being
// explored: one goroutine runs at a time, every Yield, Lock and Unlock is a
// point where another one may be chosen, and a call that can never go on is
// seen at once. It is added to the library by a build overlay only.
package verifsync

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"runtime/debug"
	"sync"
	"time"
	"unsafe"
)

// what is not about blocking stays what it is
type (
	Pool      = sync.Pool
	Map       = sync.Map
	WaitGroup = sync.WaitGroup
	Locker    = sync.Locker
)

func OnceFunc(f func()) func()                           { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return sync.OnceValue(f) }
func OnceValues[A, B any](f func() (A, B)) func() (A, B) { return sync.OnceValues(f) }

// Blocked is the panic of a call that can never return.
type Blocked struct{ Why string }

func (b Blocked) Error() string { return "never returns: " + b.Why }

type thread struct {
	wake  chan struct{}
	ready func() bool // nil: can run
	done  bool
	held  int // locks taken and not given back
}

// Chooser picks who runs next; cur is -1 when the running thread cannot go on.
type Chooser func(step, cur int, canRun []int) int

type sched struct {
	ths    []*thread
	cur    int
	step   int
	since  int // steps since the last switch
	choose Chooser
	end    chan string
	can    []int
}

// Outside lists the points of the last run at which the running thread held no lock.
var Outside []int

var (
	s    *sched // nil: nobody is being scheduled
	idle int    // points passed since then
)

// Limits: a thread that runs this long without a switch is made to let the
// others go on (it may be spinning); a history this long never ends.
const (
	maxAlone = 30000
	maxSteps = 400000
	maxIdle  = 20000000 // one thread alone
)

// Run executes the bodies under the schedule; it returns "" when all ended,
// otherwise why they did not, and the number of scheduling points passed.
func Run(bodies []func(), choose Chooser) (string, int) {
	sc := &sched{choose: choose, end: make(chan string, 1)}
	for range bodies {
		sc.ths = append(sc.ths, &thread{wake: make(chan struct{}, 1)})
	}
	for i, f := range bodies {
		go func() {
			<-sc.ths[i].wake
			f()
			sc.ths[i].done = true
			sc.next(-1)
		}()
	}
	s = sc
	Outside = Outside[:0]
	sc.cur = -1
	sc.pick(-1)
	sc.ths[sc.cur].wake <- struct{}{}
	why := <-sc.end
	s, idle = nil, 0
	return why, sc.step
}

// pick chooses among the threads that can run; false when there is none.
func (sc *sched) pick(cur int) bool {
	sc.can = sc.can[:0]
	for i, t := range sc.ths {
		if !t.done && (t.ready == nil || t.ready()) {
			sc.can = append(sc.can, i)
		}
	}
	if len(sc.can) == 0 {
		return false
	}
	n := sc.choose(sc.step, cur, sc.can)
	if cur >= 0 && n == cur && sc.since > maxAlone {
		for _, c := range sc.can {
			if c != cur {
				n = c
				if c > cur {
					break
				}
			}
		}
	}
	if n != sc.cur {
		sc.since = 0
	}
	sc.cur = n
	return true
}

// next hands over after the running thread ended or blocked; it tells whether
// thread me has to wait to be woken (after it, sc belongs to another thread).
func (sc *sched) next(me int) bool {
	if !sc.pick(-1) {
		why := ""
		for _, t := range sc.ths {
			if !t.done {
				why = "deadlock"
			}
		}
		sc.end <- why
		return true
	}
	if sc.cur == me {
		return false
	}
	sc.ths[sc.cur].wake <- struct{}{}
	return true
}

// Yield is a point where another thread may be scheduled.
func Yield() {
	sc := s
	if sc == nil {
		if idle++; idle > maxIdle {
			idle = 0
			panic(Blocked{"endless loop\n" + short()})
		}
		return
	}
	sc.step++
	sc.since++
	me := sc.cur
	if sc.ths[me].held <= 0 && len(Outside) < 4000 {
		Outside = append(Outside, sc.step)
	}
	if sc.step > maxSteps {
		sc.end <- "endless"
		select {}
	}
	sc.pick(me)
	if sc.cur != me {
		sc.ths[sc.cur].wake <- struct{}{}
		<-sc.ths[me].wake
	}
}

// wait parks the running thread until ready holds.
func wait(ready func() bool, what string) {
	sc := s
	if ready() {
		return
	}
	if sc == nil {
		panic(Blocked{what + " held when nobody is running\n" + short()})
	}
	me := sc.cur
	sc.ths[me].ready = ready
	if sc.next(me) {
		<-sc.ths[me].wake
	}
	sc.ths[me].ready = nil
}

func short() string {
	b := debug.Stack()
	if len(b) > 1500 {
		b = b[:1500]
	}
	return string(b)
}

// Mutex

type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	Yield()
	wait(func() bool { return !m.locked }, "mutex")
	m.locked = true
	lockEvent(WLock, unsafe.Pointer(m))
}
func (m *Mutex) TryLock() bool {
	Yield()
	if m.locked {
		return false
	}
	m.locked = true
	lockEvent(WLock, unsafe.Pointer(m))
	return true
}
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	lockEvent(WUnlock, unsafe.Pointer(m))
	Yield()
}

// RWMutex: as in package sync, a writer that waits keeps new readers out, and
// the readers that were waiting when a writer leaves go first.
type RWMutex struct {
	readers int
	writer  bool
	pending int             // writers waiting
	waiting []*readerTicket // readers waiting
}
type readerTicket struct{ in bool }

func (m *RWMutex) RLock() {
	Yield()
	if !m.writer && m.pending == 0 {
		m.readers++
		lockEvent(RLock, unsafe.Pointer(m))
		return
	}
	t := &readerTicket{}
	m.waiting = append(m.waiting, t)
	wait(func() bool { return t.in }, "read lock")
	lockEvent(RLock, unsafe.Pointer(m))
}
func (m *RWMutex) TryRLock() bool {
	Yield()
	if m.writer || m.pending > 0 {
		return false
	}
	m.readers++
	lockEvent(RLock, unsafe.Pointer(m))
	return true
}
func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	lockEvent(RUnlock, unsafe.Pointer(m))
	Yield()
}
func (m *RWMutex) Lock() {
	Yield()
	if m.writer || m.readers > 0 {
		m.pending++
		wait(func() bool { return !m.writer && m.readers == 0 }, "write lock")
		m.pending--
	}
	m.writer = true
	lockEvent(WLock, unsafe.Pointer(m))
}
func (m *RWMutex) TryLock() bool {
	Yield()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	lockEvent(WLock, unsafe.Pointer(m))
	return true
}
func (m *RWMutex) Unlock() {
	if !m.writer {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	lockEvent(WUnlock, unsafe.Pointer(m))
	for _, t := range m.waiting {
		t.in = true
		m.readers++
	}
	m.waiting = nil
	Yield()
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Cond

type Cond struct {
	L     Locker
	queue []*readerTicket
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	t := &readerTicket{}
	c.queue = append(c.queue, t)
	c.L.Unlock()
	wait(func() bool { return t.in }, "condition")
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.queue) > 0 {
		c.queue[0].in = true
		c.queue = c.queue[1:]
	}
	Yield()
}
func (c *Cond) Broadcast() {
	for _, t := range c.queue {
		t.in = true
	}
	c.queue = nil
	Yield()
}

// ---- the other use: real threads, disturbed at the same points

var Disturb bool

// Pause: at these points of a run (counted over all threads) the thread that
// passes sleeps, long enough for the others to get as far as they can.
var (
	Pause  [3]int64
	Passed int64
)

const pauseFor = 80 * time.Microsecond

// Jolt must not order the threads that pass it for the race detector: the
// counter is a plain variable on purpose, an estimate is good enough.
//
//go:norace
func Jolt() {
	if Disturb {
		Passed++
		n := Passed
		if n == Pause[0] || n == Pause[1] || n == Pause[2] {
			time.Sleep(pauseFor)
		} else if x := rand.Uint32(); x%11 == 0 {
			runtime.Gosched()
		}
	}
}

var _ = fmt.Sprint
