// Package vsync stands in for package sync in the code under test. While a
// scheduler runs, its locks are points where the next goroutine to run is
// chosen, and only one goroutine runs at a time. Otherwise they are the real
// locks.
package vsync

import (
	"fmt"
	"runtime/debug"
	"sync"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Pool      = sync.Pool
	Map       = sync.Map
	Cond      = sync.Cond
)

var (
	NewCond  = sync.NewCond
	OnceFunc = sync.OnceFunc
)

func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }

func OnceValues[T, U any](f func() (T, U)) func() (T, U) { return sync.OnceValues(f) }

type task struct {
	resume chan struct{}
	cond   func() bool
	done   bool
	panics any
	stack  string
}

type sched struct {
	tasks  []*task
	cur    int
	event  chan struct{}
	points int
}

var active *sched

// Panic is a panic in one of the functions.
type Panic struct {
	Val   any
	Stack string
}

// Run runs the functions, one at a time. At each lock operation, choose picks
// one of n goroutines that can go on; the first is the one that ran last, if
// it can. It returns the number of choices and whether all were blocked in
// the end.
func Run(fns []func(), choose func(n int) int) (points int, deadlock bool, p *Panic) {
	s := &sched{event: make(chan struct{})}
	for _, f := range fns {
		t := &task{resume: make(chan struct{})}
		s.tasks = append(s.tasks, t)
		go func() {
			<-t.resume
			defer func() {
				if r := recover(); r != nil {
					t.panics, t.stack = r, string(debug.Stack())
				}
				t.done = true
				s.event <- struct{}{}
			}()
			f()
		}()
	}
	active = s
	defer func() { active = nil }()
	for {
		var can []int
		left := 0
		for i := range s.tasks {
			j := (s.cur + i) % len(s.tasks)
			t := s.tasks[j]
			if t.done {
				continue
			}
			left++
			if t.cond == nil || t.cond() {
				can = append(can, j)
			}
		}
		if len(can) == 0 {
			return s.points, left > 0, nil
		}
		s.cur = can[0]
		if len(can) > 1 {
			s.points++
			s.cur = can[choose(len(can))]
		}
		t := s.tasks[s.cur]
		t.cond = nil
		t.resume <- struct{}{}
		<-s.event
		if t.panics != nil {
			return s.points, false, &Panic{t.panics, t.stack}
		}
	}
}

// yield lets others run, and goes on when cond holds.
func (s *sched) yield(cond func() bool) {
	t := s.tasks[s.cur]
	t.cond = cond
	s.event <- struct{}{}
	<-t.resume
}

// RWMutex is a sync.RWMutex, or an equivalent under the scheduler.
type RWMutex struct {
	real    sync.RWMutex
	writer  bool
	readers int
	waiting int // writers that wait keep new readers out
}

func (m *RWMutex) Lock() {
	s := active
	if s == nil {
		m.real.Lock()
		return
	}
	s.yield(nil)
	if m.writer || m.readers > 0 {
		m.waiting++
		s.yield(func() bool { return !m.writer && m.readers == 0 })
		m.waiting--
	}
	m.writer = true
}

func (m *RWMutex) TryLock() bool {
	s := active
	if s == nil {
		return m.real.TryLock()
	}
	s.yield(nil)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	if active == nil {
		m.real.Unlock()
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
}

func (m *RWMutex) RLock() {
	s := active
	if s == nil {
		m.real.RLock()
		return
	}
	s.yield(nil)
	if m.writer || m.waiting > 0 {
		s.yield(func() bool { return !m.writer && m.waiting == 0 })
	}
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	s := active
	if s == nil {
		return m.real.TryRLock()
	}
	s.yield(nil)
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if active == nil {
		m.real.RUnlock()
		return
	}
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Mutex is a sync.Mutex, or an equivalent under the scheduler.
type Mutex struct{ m RWMutex }

func (m *Mutex) Lock()         { m.m.Lock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

// Once is a sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func (p *Panic) Error() string { return fmt.Sprintf("panic: %v\n%s", p.Val, p.Stack) }
