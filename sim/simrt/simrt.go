// Package simrt is the deterministic simulation kernel.
//
// Exactly one task holds the token at any time; every other goroutine of the
// simulated process is parked on its own channel. The kernel alone decides
// who runs: at a preemption point (simrt.Y, inserted before every statement of
// the code under test by cmd/instrument), when a task blocks on simulated I/O
// (latency on the simulated clock) or on a simulated lock, and when it ends.
// No wall clock, no real scheduler decision and no global PRNG is consulted.
package simrt

import (
	"fmt"
	"math"
	"runtime"
	"runtime/debug"
)

// Rand is splitmix64: tiny, seedable, identical everywhere.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{s: seed} }

func (r *Rand) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

// Range returns a value in [lo, hi].
func (r *Rand) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + r.Intn(hi-lo+1)
}

func (r *Rand) Pm(permille int) bool { return r.Intn(1000) < permille }

// Mix derives an independent stream from several integers.
func Mix(vs ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, v := range vs {
		h ^= v
		r := Rand{s: h}
		h = r.Next()
	}
	return h
}

// Switch is one recorded preemption: after At statements of the whole
// execution the token moves to task To.
type Switch struct {
	At   uint64 `json:"at"`
	To   int    `json:"to"`
	Hold int64  `json:"hold,omitempty"` // the preempted task sleeps that long
	Wake bool   `json:"wake,omitempty"` // To has not slept enough
}

// SchedSpec decides the interleaving. Seeded: preempt after a pseudo-random
// number of statements. Explicit: preempt exactly at Switches.
type SchedSpec struct {
	Explicit bool     `json:"explicit,omitempty"`
	Seed     uint64   `json:"seed,omitempty"`
	Quantum  int      `json:"quantum,omitempty"`
	Hot      int      `json:"hot,omitempty"`    // switch at one in Hot accesses to package-level state
	Trap     int      `json:"trap,omitempty"`   // hold a task before one in so many blocks of statements until another one gets there
	Shared   bool     `json:"shared,omitempty"` // there only in functions which work on package-level state
	Map      uint64   `json:"map,omitempty"`    // map iteration order; 0: sorted
	Switches []Switch `json:"switches,omitempty"`
}

type state int

const (
	runnable state = iota
	sleeping
	blocked
	finished
)

type Task struct {
	ID      int
	Name    string
	st      state
	wakeAt  int64
	readyNo uint64 // order in which the task became runnable
	ch      chan bool
	steps   uint64 // statements executed by the operation under way
	limit   uint64
	IOs     uint64 // I/O operations issued by this task
	bg      bool   // started by the code under test
	backoff int64
}

// Failure is what the kernel reports about one simulated execution.
type Failure struct {
	Class string
	Msg   string
}

// HangError is thrown into a task which exceeded its step budget.
type HangError struct{ Steps uint64 }

func (h HangError) Error() string {
	return fmt.Sprintf("no return after %d simulated statements", h.Steps)
}

type Sim struct {
	tasks    []*Task
	cur      *Task
	now      int64
	steps    uint64
	armed    int64
	spec     SchedSpec
	rng      *Rand
	nextSw   int
	readySeq uint64
	Recorded []Switch
	SwHash   uint64 // digest of the context switch sequence
	Switches uint64
	done     chan struct{}
	aborted  bool
	crashed  bool
	Deadlock bool
	Fatal    *Failure
	live     int
	fg       int   // live tasks which are callers
	over     int64 // when the process exits once they are done

	visits   []uint32 // of each statement, while nobody is held
	held     *Task    // before statement heldAt
	heldAt   uint32
	released *Task // to be continued next
	Meetings uint64
}

var s *Sim

var gen uint64

// Gen identifies the simulated process life: locks of an earlier life are
// void.
func Gen() uint64 { return gen }

// countdown is decremented by every instrumented statement.
var countdown int64 = math.MaxInt64

// trapping is set while tasks may be held.
var trapping bool

// Y is the preemption point before statement id.
func Y(id uint32) {
	countdown--
	if countdown <= 0 {
		slow()
	}
	if trapping {
		trap(id)
	}
}

// Lib is the preemption point of the simulated libraries.
func Lib() {
	countdown--
	if countdown <= 0 {
		slow()
	}
	if m := s; m != nil && m.spec.Hot > 0 && m.live > 1 && !m.spec.Explicit && !m.aborted {
		m.hot()
	}
}

// H is the preemption point before and after statements which touch
// package-level state.
func H(id uint32) {
	Lib()
	if trapping {
		trap(id)
	}
}

// never marks statements nobody is held at.
const never = math.MaxUint32

// trap brings two tasks to the same statement, one of those the seed selects:
// the first task to get there, at one of its first visits most likely, is held
// until another one arrives as well, takes too long, or cannot go on. What both use without being aware of each other
// is different for the one held then.
func trap(id uint32) {
	m := s
	if m == nil || m.live < 2 || m.aborted {
		return
	}
	if m.held == m.cur { // nobody else could go on
		m.held = nil
	}
	if w := m.held; w != nil {
		if w.st != sleeping {
			m.held = nil
			return
		}
		if id != m.heldAt {
			return
		}
		m.settle()
		if n := len(m.Recorded); n > 0 && m.Recorded[n-1].At == m.steps {
			return
		}
		m.held = nil
		m.Meetings++
		if m.rng.Intn(3) == 0 { // a little later
			m.released = w
			m.armed = int64(1 + m.rng.Intn(1<<uint(1+m.rng.Intn(8))))
			countdown = m.armed
			return
		}
		m.wakeSleepers(m.now)
		m.Recorded = append(m.Recorded, Switch{At: m.steps, To: w.ID, Wake: true})
		if w.st == sleeping {
			m.ready(w)
		}
		m.switchTo(w, true)
		m.arm()
		return
	}
	if int(id) >= len(m.visits) {
		m.visits = append(m.visits, make([]uint32, int(id)+1000-len(m.visits))...)
	}
	v := m.visits[id]
	if v == never {
		return
	}
	if v == 0 && (m.spec.Shared && id&1 == 0 || Mix(m.spec.Seed, uint64(id>>5))%uint64(m.spec.Trap) != 0) {
		m.visits[id] = never
		return
	}
	m.visits[id]++
	if m.released != nil || m.rng.Intn(2+int(v)) > 1 {
		return
	}
	m.settle()
	if n := len(m.Recorded); n > 0 && m.Recorded[n-1].At == m.steps {
		return
	}
	m.wakeSleepers(m.now)
	var rs []*Task
	for _, x := range m.tasks {
		if x.st == runnable && x != m.cur {
			rs = append(rs, x)
		}
	}
	if len(rs) == 0 {
		return
	}
	m.held, m.heldAt = m.cur, id
	to := rs[m.rng.Intn(len(rs))]
	sw := Switch{At: m.steps, To: to.ID, Hold: 1 << uint(6+m.rng.Intn(18))}
	m.Recorded = append(m.Recorded, sw)
	m.hold(sw.Hold)
	m.switchTo(to, true)
	m.arm()
}

func (m *Sim) hold(d int64) {
	m.cur.st = sleeping
	m.cur.wakeAt = m.now + d
}

func (m *Sim) hot() {
	if m.rng.Intn(m.spec.Hot) != 0 {
		return
	}
	m.settle()
	m.wakeSleepers(m.now)
	if n := len(m.Recorded); n > 0 && m.Recorded[n-1].At == m.steps {
		return
	}
	var rs []*Task
	for _, x := range m.tasks {
		if x.st == runnable && x != m.cur {
			rs = append(rs, x)
		}
	}
	if len(rs) == 0 {
		return
	}
	to := rs[m.rng.Intn(len(rs))]
	m.Recorded = append(m.Recorded, Switch{At: m.steps, To: to.ID})
	m.switchTo(to, true)
	m.arm()
}

const idleArm = 1 << 16

func (m *Sim) settle() {
	used := m.armed - countdown
	m.steps += uint64(used)
	m.now += used // one simulated nanosecond per statement
	if m.cur != nil {
		m.cur.steps += uint64(used)
	}
	m.armed = countdown
}

func (m *Sim) arm() {
	n := int64(idleArm)
	if m.live > 1 || m.spec.Explicit {
		if m.spec.Explicit {
			for m.nextSw < len(m.spec.Switches) && m.spec.Switches[m.nextSw].At <= m.steps {
				m.nextSw++
			}
			if m.nextSw < len(m.spec.Switches) {
				if d := int64(m.spec.Switches[m.nextSw].At - m.steps); d < n {
					n = d
				}
			}
		} else if m.spec.Quantum > 0 {
			// geometric-ish: mixes very short and long quanta
			q := m.spec.Quantum
			switch m.rng.Intn(4) {
			case 0:
				n = int64(1 + m.rng.Intn(8))
			case 1:
				n = int64(1 + m.rng.Intn(q*4))
			default:
				n = int64(1 + m.rng.Intn(q))
			}
		}
	}
	m.armed = n
	countdown = n
}

func slow() {
	m := s
	if m == nil {
		countdown = math.MaxInt64
		return
	}
	m.settle()
	t := m.cur
	if t.limit > 0 && t.steps > t.limit {
		st := t.steps
		t.limit = 0
		m.arm()
		panic(HangError{st})
	}
	if m.exits() {
		m.abort()
		runtime.Goexit()
	}
	to := t
	m.wakeSleepers(m.now)
	if m.spec.Explicit {
		if m.nextSw < len(m.spec.Switches) && m.spec.Switches[m.nextSw].At == m.steps {
			sw := m.spec.Switches[m.nextSw]
			m.nextSw++
			if sw.To < len(m.tasks) {
				x := m.tasks[sw.To]
				if sw.Wake && x.st == sleeping {
					m.ready(x)
				}
				if x.st == runnable && x != t {
					to = x
					if sw.Hold > 0 {
						m.hold(sw.Hold)
					}
				}
			}
		}
	} else if m.live > 1 && m.spec.Quantum > 0 {
		var rs []*Task
		for _, x := range m.tasks {
			if x.st == runnable {
				rs = append(rs, x)
			}
		}
		to = rs[m.rng.Intn(len(rs))]
		sw := Switch{At: m.steps}
		if x := m.released; x != nil && x.st == sleeping {
			m.ready(x)
			to, sw.Wake = x, true
		}
		m.released = nil
		if to != t {
			sw.To = to.ID
			m.Recorded = append(m.Recorded, sw)
		}
	}
	if to != t {
		m.switchTo(to, true)
	}
	m.arm()
}

func (m *Sim) noteSwitch(to *Task) {
	m.Switches++
	m.SwHash = Mix(m.SwHash, m.steps, uint64(to.ID))
}

// switchTo hands the token over and, if wait, parks the caller until it gets
// the token back.
func (m *Sim) switchTo(to *Task, wait bool) {
	from := m.cur
	m.noteSwitch(to)
	m.cur = to
	to.ch <- true
	if wait {
		m.park(from)
	}
}

func (m *Sim) park(t *Task) {
	if !<-t.ch {
		runtime.Goexit()
	}
}

func (m *Sim) ready(t *Task) {
	t.st = runnable
	m.readySeq++
	t.readyNo = m.readySeq
}

func (m *Sim) wakeSleepers(now int64) {
	for {
		var best *Task
		for _, x := range m.tasks {
			if x.st == sleeping && x.wakeAt <= now && (best == nil || x.wakeAt < best.wakeAt) {
				best = x
			}
		}
		if best == nil {
			return
		}
		m.ready(best)
	}
}

// pick chooses the next task when the current one cannot go on: the one which
// has been runnable longest, else the clock jumps to the earliest wake-up.
func (m *Sim) pick() *Task {
	m.wakeSleepers(m.now)
	for {
		var best *Task
		for _, x := range m.tasks {
			if x.st == runnable && (best == nil || x.readyNo < best.readyNo) {
				best = x
			}
		}
		if best != nil {
			return best
		}
		next := int64(math.MaxInt64)
		for _, x := range m.tasks {
			if x.st == sleeping && x.wakeAt < next {
				next = x.wakeAt
			}
		}
		if next == math.MaxInt64 {
			return nil
		}
		m.now = next
		m.wakeSleepers(m.now)
	}
}

// Sleep blocks the current task for d simulated nanoseconds.
func Sleep(d int64) {
	m := s
	if m == nil {
		return
	}
	m.settle()
	t := m.cur
	t.st = sleeping
	t.wakeAt = m.now + d
	to := m.pick()
	if m.exits() {
		m.abort()
		runtime.Goexit()
	}
	if to != t {
		m.switchTo(to, true)
	}
	m.arm()
}

// The process exits when its callers are done; goroutines the code under test
// started have until then plus some grace.
const (
	grace   = 2e9
	bgLimit = 400e6
)

func (m *Sim) exits() bool { return m.fg == 0 && m.now > m.over }

// Block parks the current task until another task calls Unblock on it.
func Block() {
	m := s
	if m == nil {
		panic("simrt.Block outside a simulation")
	}
	m.settle()
	t := m.cur
	t.st = blocked
	to := m.pick()
	if to == nil {
		m.Deadlock = m.fg > 0
		m.abort()
		runtime.Goexit()
	}
	if to != t {
		m.switchTo(to, true)
	}
	m.arm()
}

func Unblock(t *Task) {
	if s != nil && t.st == blocked {
		s.settle()
		s.wakeSleepers(s.now)
		s.ready(t)
	}
}

func Current() *Task {
	if s == nil {
		return nil
	}
	return s.cur
}

// Now is the simulated clock in nanoseconds.
func Now() int64 {
	if s == nil {
		return 0
	}
	return s.now
}

// Active reports whether a simulation is under way.
func Active() bool { return s != nil }

// BeginOp starts a new operation of the current task with a step budget.
func BeginOp(limit uint64) {
	if s == nil {
		return
	}
	s.settle()
	s.cur.steps = 0
	s.cur.limit = limit
	s.arm()
}

// EndOp lifts the budget and returns the statements the operation executed.
func EndOp() uint64 {
	if s == nil {
		return 0
	}
	s.settle()
	n := s.cur.steps
	s.cur.steps = 0
	s.cur.limit = 0
	s.arm()
	return n
}

// Go starts a task in the running simulation (used for instrumented go
// statements).
func Go(f func()) {
	if s == nil {
		panic("simrt.Go outside a simulation")
	}
	s.settle()
	s.wakeSleepers(s.now)
	t := s.add("go", f)
	t.bg = true
	t.limit = bgLimit
	s.arm()
}

func (m *Sim) add(name string, f func()) *Task {
	t := &Task{ID: len(m.tasks), Name: name, ch: make(chan bool, 1)}
	m.tasks = append(m.tasks, t)
	m.live++
	m.ready(t)
	if name != "go" {
		m.fg++
	}
	go func() {
		defer m.end(t)
		m.park(t)
		defer func() {
			if e := recover(); e != nil {
				if m.Fatal == nil {
					m.Fatal = &Failure{Class: "panic", Msg: fmt.Sprintf("panic in %s: %v\n%s", t.Name, e, debug.Stack())}
				}
				m.abort()
			}
		}()
		m.arm()
		f()
	}()
	return t
}

// end runs when a task's goroutine is over: normally, after a panic or after
// an abort.
func (m *Sim) end(t *Task) {
	if !m.aborted {
		m.settle()
	}
	t.st = finished
	m.live--
	if !t.bg {
		m.fg--
		if m.fg == 0 {
			m.over = m.now + grace
		}
	}
	if m.aborted {
		// unwind the remaining goroutines one at a time
		for _, x := range m.tasks {
			if x.st != finished {
				m.cur = x
				x.ch <- false
				return
			}
		}
		close(m.done)
		return
	}
	if m.live == 0 {
		close(m.done)
		return
	}
	to := m.pick()
	if to == nil || m.exits() {
		m.Deadlock = m.fg > 0
		m.abort()
		for _, x := range m.tasks {
			if x.st != finished {
				m.cur = x
				x.ch <- false
				return
			}
		}
	}
	m.switchTo(to, false)
}

func (m *Sim) abort() {
	m.aborted = true
	countdown = math.MaxInt64
	m.armed = countdown
}

// Crash kills the simulated process at this instant: no task executes another
// statement of its own.
func Crash() {
	m := s
	m.settle()
	m.crashed = true
	m.abort()
	runtime.Goexit()
}

// Abort stops the execution (used after a violation was recorded).
func Abort() {
	m := s
	if m == nil {
		return
	}
	m.abort()
	runtime.Goexit()
}

func Crashing() bool { return s != nil && s.aborted }

// Result of one simulated process life.
type Result struct {
	Steps    uint64
	Clock    int64
	Switches uint64
	SwHash   uint64
	Meetings uint64
	Recorded []Switch
	Crashed  bool
	Deadlock bool
	Fatal    *Failure
}

// Run executes the given task bodies to completion under spec, starting the
// clock at start.
func Run(spec SchedSpec, start int64, names []string, bodies []func()) Result {
	if s != nil {
		panic("nested simulation")
	}
	if spec.Quantum < 0 {
		spec.Quantum = 0
	}
	m := &Sim{spec: spec, rng: NewRand(spec.Seed), done: make(chan struct{}), now: start}
	s = m
	trapping = spec.Trap > 0 && !spec.Explicit && len(bodies) > 1
	gen++
	mapSeed, mapNo = spec.Map, 0
	for i, b := range bodies {
		m.add(names[i], b)
	}
	first := m.pick()
	m.cur = first
	first.ch <- true
	<-m.done
	s = nil
	trapping = false
	dropChans()
	countdown = math.MaxInt64
	return Result{Steps: m.steps, Clock: m.now, Switches: m.Switches, Meetings: m.Meetings, SwHash: m.SwHash, Recorded: m.Recorded,
		Crashed: m.crashed, Deadlock: m.Deadlock, Fatal: m.Fatal}
}
