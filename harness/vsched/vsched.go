// Package vsched is linked (through a build overlay) into an instrumented build
// of the code under test. It provides
//   - Yield, called before every statement of the instrumented code: a step
//     counter with a budget (deterministic non-termination detection) and, in
//     scheduled mode, a possible context switch;
//   - Mutex/RWMutex/Once with the semantics of package sync, modelled so that
//     blocking is visible: self-deadlock in sequential mode and deadlock in
//     scheduled mode are reported instead of hanging;
//   - Run, a deterministic cooperative scheduler over a few tasks.
//
// The scheduler's own state is touched only from go:norace functions and tasks
// hand over by polling a plain variable, so scheduling creates no
// happens-before edges: under -race the detector sees exactly the edges the
// code under test creates with its own locks.
package vsched

import (
	"errors"
	"fmt"
	"runtime"
	"runtime/metrics"
	"sync"
)

const (
	modeOff = iota
	modeCount
	modeSched
)

// MaxTasks bounds the number of concurrent tasks.
const MaxTasks = 8

type abortMark struct{}

func (*abortMark) String() string { return "vsched: task aborted" }

// Abort is the panic value that unwinds tasks after a deadlock or budget stop.
var Abort = &abortMark{}

// Budget is the panic value raised in sequential mode when the step budget is exceeded.
type Budget struct{ Steps uint64 }

func (b Budget) Error() string {
	return fmt.Sprintf("no termination: more than %d statements executed", b.Steps)
}

// MaxHeap is the heap size at which a case is stopped; cases need a tiny part of it.
const MaxHeap = 2 << 30

// Memory is the panic value raised in sequential mode when the heap outgrows MaxHeap.
type Memory struct{ Steps uint64 }

func (b Memory) Error() string {
	return fmt.Sprintf("no termination: more than %d bytes of heap in use after %d statements", uint64(MaxHeap), b.Steps)
}

var heapSample = []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}

func heap() uint64 {
	metrics.Read(heapSample)
	if heapSample[0].Value.Kind() != metrics.KindUint64 {
		return 0
	}
	return heapSample[0].Value.Uint64()
}

// Switch asks for a context switch when the global step counter reaches Step.
type Switch struct {
	Step uint64
	To   int // index among the other runnable tasks
}

type task struct {
	done      bool
	unwinding bool
	blockedOn *RWMutex
	asReader  bool
	granted   bool
	panicVal  any
	panicked  bool
	stack     [4096]byte
	stackLen  int
}

var (
	mode     int
	steps    uint64
	budget   uint64
	clock    uint64
	cur      int
	ntasks   int
	tasks    [MaxTasks]task
	points   [64]Switch
	npoints  int
	nextPt   int
	aborted  bool
	deadlock bool
	overrun  bool
	switches int
	lastWhat string
)

// SetCount puts the package in sequential counting mode with the given budget.
//
//go:norace
func SetCount(b uint64) { mode = modeCount; steps = 0; budget = b; ceiling = ^uint64(0) }

var ceiling uint64

// SetCeiling bounds the budget of the running case, also against AddBudget.
//
//go:norace
func SetCeiling(n uint64) {
	ceiling = n
	budget = min(budget, n)
}

// Steps returns the number of statements executed since SetCount / Run.
//
//go:norace
func Steps() uint64 { return steps }

// AddBudget extends the step budget of the running case.
//
//go:norace
func AddBudget(n uint64) { budget = min(budget+n, ceiling) }

// Limit returns the step budget of the running case.
//
//go:norace
func Limit() uint64 { return budget }

// Tick returns the next value of a logical clock (for history timestamps).
//
//go:norace
func Tick() uint64 { clock++; return clock }

// Yield is called before every instrumented statement.
//
//go:norace
func Yield() {
	if mode == modeOff {
		return
	}
	steps++
	if mode == modeCount {
		if steps > budget {
			b := budget
			budget = ^uint64(0)
			panic(Budget{b})
		}
		if steps&(1<<22-1) == 0 && heap() > MaxHeap {
			budget = ^uint64(0)
			panic(Memory{steps})
		}
		return
	}
	yieldSched()
}

//go:norace
func yieldSched() {
	me := cur
	t := &tasks[me]
	if aborted {
		if !t.unwinding {
			t.unwinding = true
			panic(Abort)
		}
		return
	}
	if steps > budget {
		overrun = true
		aborted = true
		t.unwinding = true
		panic(Abort)
	}
	if nextPt < npoints && steps >= points[nextPt].Step {
		to := points[nextPt].To
		nextPt++
		if j := pick(me, to); j >= 0 {
			switches++
			switchTo(me, j)
		}
	} else if steps&fairMask == 0 {
		// a task that waits by spinning lets the others run now and then
		if j := pick(me, 0); j >= 0 {
			switchTo(me, j)
		}
	}
}

// fairMask gives the longest time slice, far above any call of a program.
const fairMask = 1<<16 - 1

// pick returns the to-th (modulo) runnable task other than me, or -1.
//
//go:norace
func pick(me, to int) int {
	n := 0
	for i := 0; i < ntasks; i++ {
		if i != me && runnable(i) {
			n++
		}
	}
	if n == 0 {
		return -1
	}
	to %= n
	for i := 0; i < ntasks; i++ {
		if i != me && runnable(i) {
			if to == 0 {
				return i
			}
			to--
		}
	}
	return -1
}

//go:norace
func runnable(i int) bool { return !tasks[i].done && tasks[i].blockedOn == nil }

//go:norace
//go:noinline
func loadCur() int { return cur }

//go:norace
func switchTo(me, j int) {
	cur = j
	for loadCur() != me {
		runtime.Gosched()
	}
	t := &tasks[me]
	if aborted && !t.unwinding {
		t.unwinding = true
		panic(Abort)
	}
}

// block parks the running task until the lock is released.
//
//go:norace
func block(m *RWMutex, asReader bool) {
	me := cur
	t := &tasks[me]
	t.blockedOn = m
	t.asReader = asReader
	j := pick(me, 0)
	if j < 0 {
		deadlock = true
		aborted = true
		wakeAll()
		t.unwinding = true
		panic(Abort)
	}
	switchTo(me, j)
}

//go:norace
func wakeAll() {
	for i := 0; i < ntasks; i++ {
		tasks[i].blockedOn = nil
	}
}

//go:norace
func wake(m *RWMutex) {
	for i := 0; i < ntasks; i++ {
		if tasks[i].blockedOn == m {
			tasks[i].blockedOn = nil
		}
	}
}

// Outcome describes one scheduled execution.
type Outcome struct {
	Deadlock  bool
	Overrun   bool
	Panics    []string // one per panicking task
	Steps     uint64
	Switches  int
	Contended int
}

var contended int

var (
	lockSteps  [512]uint64
	nlockSteps int
)

// LockSteps returns the steps of the last Run at which a lock was taken or released.
//
//go:norace
func LockSteps() []uint64 { return append([]uint64(nil), lockSteps[:nlockSteps]...) }

//go:norace
func lockEvent() {
	if mode == modeSched && nlockSteps < len(lockSteps) {
		lockSteps[nlockSteps] = steps
		nlockSteps++
	}
}

// Run executes the functions as tasks under the given switch points (ascending
// steps). Task first runs first; a task that finishes or blocks hands over to
// the lowest runnable task.
func Run(fns []func(), first int, pts []Switch, stepBudget uint64) Outcome {
	start(len(fns), pts, stepBudget)
	var wg sync.WaitGroup
	wg.Add(len(fns))
	for i := range fns {
		go func(i int, f func()) {
			defer wg.Done()
			taskMain(i, f)
		}(i, fns[i])
	}
	launch(first % len(fns))
	wg.Wait()
	return finish()
}

//go:norace
func start(n int, pts []Switch, b uint64) {
	if n > MaxTasks {
		panic("vsched: too many tasks")
	}
	ntasks = n
	for i := 0; i < n; i++ {
		tasks[i].done, tasks[i].unwinding, tasks[i].blockedOn = false, false, nil
		tasks[i].granted, tasks[i].panicked, tasks[i].panicVal, tasks[i].stackLen = false, false, nil, 0
	}
	npoints = 0
	for i := 0; i < len(pts) && i < len(points); i++ {
		points[i] = pts[i]
		npoints++
	}
	nextPt, steps, budget, switches, contended, clock, nlockSteps = 0, 0, b, 0, 0, 0, 0
	aborted, deadlock, overrun = false, false, false
	cur = -1
	mode = modeSched
}

//go:norace
func launch(first int) { cur = first }

//go:norace
func taskMain(i int, f func()) {
	for loadCur() != i {
		runtime.Gosched()
	}
	defer taskEnd(i)
	if aborted {
		return
	}
	f()
}

//go:norace
func taskEnd(i int) {
	t := &tasks[i]
	if p := recover(); p != nil && p != any(Abort) {
		t.panicked = true
		t.panicVal = p
		t.stackLen = runtime.Stack(t.stack[:], false)
	}
	t.done = true
	t.blockedOn = nil
	j := -1
	for k := 0; k < ntasks; k++ {
		if runnable(k) {
			j = k
			break
		}
	}
	if j < 0 {
		left := false
		for k := 0; k < ntasks; k++ {
			if !tasks[k].done {
				left = true
			}
		}
		if left { // everyone left is blocked
			deadlock = true
			aborted = true
			wakeAll()
			for k := 0; k < ntasks; k++ {
				if runnable(k) {
					j = k
					break
				}
			}
		}
	}
	cur = j
}

//go:norace
func finish() Outcome {
	mode = modeOff
	o := Outcome{Deadlock: deadlock, Overrun: overrun, Steps: steps, Switches: switches, Contended: contended}
	for i := 0; i < ntasks; i++ {
		if tasks[i].panicked {
			o.Panics = append(o.Panics, fmt.Sprintf("task %d: %v\n%s", i, tasks[i].panicVal, tasks[i].stack[:tasks[i].stackLen]))
		}
	}
	return o
}

// ---- locks ----

type Locker = sync.Locker
type WaitGroup = sync.WaitGroup
type Pool = sync.Pool
type Map = sync.Map
type Cond = sync.Cond

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// OnceFunc models sync.OnceFunc; the others likewise.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// RWMutex models sync.RWMutex (a waiting writer blocks new readers; releasing
// a write lock admits the readers that were waiting).
type RWMutex struct {
	real  sync.RWMutex
	w     bool
	r     int32
	wwait int32
}

//go:norace
func wouldBlock(what string) {
	if mode != modeSched {
		panic("self-deadlock: " + what + " would block forever in sequential use")
	}
	contended++
}

//go:norace
func (m *RWMutex) Lock() {
	Yield()
	lockEvent()
	if m.w || m.r > 0 {
		wouldBlock("Lock")
		m.wwait++
		for m.w || m.r > 0 {
			block(m, false)
		}
		m.wwait--
	}
	m.w = true
	m.real.Lock()
}

//go:norace
func (m *RWMutex) TryLock() bool {
	Yield()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	m.real.Lock()
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		if aborted && mode == modeSched {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.real.Unlock()
	m.w = false
	if mode == modeSched {
		for i := 0; i < ntasks; i++ {
			if tasks[i].blockedOn == m && tasks[i].asReader {
				tasks[i].granted = true
				m.r++
			}
		}
		wake(m)
	}
	lockEvent()
	Yield()
}

//go:norace
func (m *RWMutex) RLock() {
	Yield()
	lockEvent()
	if m.w || m.wwait > 0 {
		wouldBlock("RLock")
		t := &tasks[cur]
		t.granted = false
		for !t.granted {
			block(m, true)
			if !t.granted && !m.w && m.wwait == 0 {
				m.r++
				t.granted = true
			}
		}
		t.granted = false
	} else {
		m.r++
	}
	m.real.RLock()
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	Yield()
	if m.w || m.wwait > 0 {
		return false
	}
	m.r++
	m.real.RLock()
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		if aborted && mode == modeSched {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.real.RUnlock()
	m.r--
	if m.r == 0 && mode == modeSched {
		wakeWriters(m)
	}
	lockEvent()
	Yield()
}

//go:norace
func wakeWriters(m *RWMutex) {
	for i := 0; i < ntasks; i++ {
		if tasks[i].blockedOn == m && !tasks[i].asReader {
			tasks[i].blockedOn = nil
		}
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Mutex models sync.Mutex.
type Mutex struct{ rw RWMutex }

//go:norace
func (m *Mutex) Lock() { m.rw.Lock() }

//go:norace
func (m *Mutex) TryLock() bool { return m.rw.TryLock() }

//go:norace
func (m *Mutex) Unlock() { m.rw.Unlock() }

// Once models sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// lazyError is an error whose text is made when it is asked for.
type lazyError struct {
	f string
	a []any
}

func (e *lazyError) Error() string   { return fmt.Errorf(e.f, e.a...).Error() }
func (e *lazyError) Is(t error) bool { return errors.Is(fmt.Errorf(e.f, e.a...), t) }
func (e *lazyError) As(t any) bool   { return errors.As(fmt.Errorf(e.f, e.a...), t) }
func (e *lazyError) Unwrap() error   { return errors.Unwrap(fmt.Errorf(e.f, e.a...)) }

// Errorf replaces fmt.Errorf in the code under test. Within tasks it does not
// format: fmt takes its printers from a pool, which would order the tasks for
// the race detector.
func Errorf(f string, a ...any) error {
	if inTask() {
		return &lazyError{f, a}
	}
	return fmt.Errorf(f, a...)
}

//go:norace
func inTask() bool { return mode == modeSched }
