// Package simrt is the simulator's runtime: the seeded cooperative scheduler,
// the step counter, map enumeration order, clock and the primitives that the
// sync and atomic replacements are made of.
//
// All decisions are drawn from a Source, so that recording the draws of a run
// and feeding them back repeats the run exactly.
package simrt

import (
	"fmt"
	"runtime"
	"time"
	"unsafe"
)

// Source supplies decisions: Draw returns a value in [0,n). 0 must always be
// the least eventful choice (no preemption, no fault, natural order).
type Source interface {
	Draw(stream int, n uint64) uint64
}

const (
	StreamGen   = iota // case generation
	StreamSched        // preemptions
	StreamMap          // enumeration orders
	StreamPool         // pool behaviour
	StreamFault        // faults
	NumStreams
)

const MaxSites = 1 << 16

// Hang is panicked with when the step budget is exhausted.
type Hang struct{}

func (Hang) Error() string { return "simulated step budget exhausted" }

// Deadlock is panicked with in every blocked task when nothing can run.
type Deadlock struct{}

func (Deadlock) Error() string { return "deadlock: all tasks blocked" }

type task struct {
	id      int
	gate    chan struct{}
	done    bool
	blocked unsafe.Pointer // waiting on this address
	fn      func()
	prio    uint64
	steps   uint64
	panicV  interface{}
}

var (
	Hits  [MaxSites]uint32
	armed [MaxSites]bool

	steps  uint64
	nextEv uint64 = 1 << 62
	limit  uint64 = 1 << 62

	src   Source
	cur   *task
	tasks []*task
	join  chan struct{}
	joinV int64

	hung     bool
	deadlock bool

	strat     int
	gap       uint64
	armedList []uint32
	armedLeft int

	switches uint64
	schHash  uint64
	schLog   []SwitchEvent
	logSched bool

	clockNs   int64
	clockStep int64
	clockJump bool
	nowCalls  uint64
	simNs     int64
	mapIters  uint64
	mapPerm   uint64
	syncOps   uint64
	blocks    uint64
	poolGets  uint64
	NumSites  = 1
)

type SwitchEvent struct {
	Step uint64
	Site uint32
	From int
	To   int
}

// Stats of one run.
type Stats struct {
	Steps, Switches, MapIters, MapPerms, NowCalls, SyncOps, Blocks, PoolGets uint64
	SimNs                                                                    int64
	SchedHash                                                                uint64
	Hung, Deadlock                                                           bool
	Log                                                                      []SwitchEvent
}

// Begin starts a run: resets counters, installs the decision source and the
// step budget.
func Begin(s Source, budget uint64, log bool) {
	src = s
	steps, switches, schHash = 0, 0, 1469598103934665603
	limit = budget
	nextEv = budget
	hung, deadlock = false, false
	schLog, logSched = nil, log
	cur, tasks = nil, nil
	nowCalls, mapIters, mapPerm, syncOps, blocks, poolGets, simNs = 0, 0, 0, 0, 0, 0, 0
	disarm()
	clockNs = int64(1_500_000_000_000_000_000) + int64(s.Draw(StreamFault, 1<<16))*86_400_000_000
	clockStep = int64(s.Draw(StreamFault, 4)) * 1_000_003
	clockJump = s.Draw(StreamFault, 3) == 1
}

func disarm() {
	for _, s := range armedList {
		armed[s] = false
	}
	armedList = nil
	armedLeft = 0
}

// End finishes a run.
func End() Stats {
	disarm()
	st := Stats{Steps: steps, Switches: switches, MapIters: mapIters, MapPerms: mapPerm, NowCalls: nowCalls, SimNs: simNs,
		SyncOps: syncOps, Blocks: blocks, PoolGets: poolGets, SchedHash: schHash, Hung: hung, Deadlock: deadlock, Log: schLog}
	src = nil
	nextEv, limit = 1<<62, 1<<62
	return st
}

// AddSim adds simulated time that passed in a world of its own.
func AddSim(ns int64) { simNs += ns }

// Extend raises the step budget by n more steps from now.
func Extend(n uint64) {
	if steps+n > limit || cur == nil {
		limit = steps + n
	}
	if cur == nil {
		nextEv = limit
	}
}

func StepsSoFar() uint64 { return steps }
func Hung() bool         { return hung || deadlock }
func Deadlocked() bool   { return deadlock }

// Y is a possible preemption point; the instrumented code calls it before
// every statement.
func Y(site uint32) {
	steps++
	Hits[site]++
	if steps >= nextEv || armed[site] {
		slow(site)
	}
}

func slow(site uint32) {
	if hung {
		panic(Hang{})
	}
	if deadlock {
		panic(Deadlock{})
	}
	if steps >= limit {
		hung = true
		nextEv = 0
		panic(Hang{})
	}
	if cur == nil {
		nextEv = limit
		return
	}
	if steps < nextEv { // armed site
		if armedLeft <= 0 || src.Draw(StreamSched, 2) == 0 {
			return
		}
		armedLeft--
		preempt(site)
		return
	}
	plan()
	preempt(site)
}

// plan draws the distance to the next preemption; 0 means none.
func plan() {
	nextEv = limit
	var g uint64
	switch strat {
	case 1: // uniform in [1,2*gap]
		g = src.Draw(StreamSched, 2*gap+1)
	case 2: // a few points, log-uniform distance
		e := src.Draw(StreamSched, 18)
		if e == 0 {
			return
		}
		g = 1 + src.Draw(StreamSched, 1<<(e-1))
	default:
		return
	}
	if g == 0 {
		return
	}
	if steps+g < limit {
		nextEv = steps + g
	}
}

func preempt(site uint32) {
	n := 0
	for _, t := range tasks {
		if !t.done && t.blocked == nil && t != cur {
			n++
		}
	}
	if n == 0 {
		return
	}
	k := int(src.Draw(StreamSched, uint64(n)))
	for _, t := range tasks {
		if !t.done && t.blocked == nil && t != cur {
			if k == 0 {
				switchTo(t, site)
				return
			}
			k--
		}
	}
}

func note(site uint32, from, to int) {
	switches++
	schHash = (schHash ^ uint64(site)) * 1099511628211
	schHash = (schHash ^ uint64(from*16+to+1)) * 1099511628211
	if logSched && len(schLog) < 4000 {
		schLog = append(schLog, SwitchEvent{steps, site, from, to})
	}
}

func switchTo(t *task, site uint32) {
	me := cur
	note(site, me.id, t.id)
	cur = t
	t.gate <- struct{}{}
	<-me.gate
	if hung {
		panic(Hang{})
	}
	if deadlock {
		panic(Deadlock{})
	}
}

// finish hands the processor on when a task ends.
func finish(me *task) {
	me.done = true
	if t := pickAny(); t != nil {
		note(0, me.id, t.id)
		cur = t
		raceEnable()
		raceReleaseMerge(unsafe.Pointer(&joinV))
		raceDisable()
		t.gate <- struct{}{}
		return
	}
	left := false
	for _, t := range tasks {
		if !t.done {
			left = true
		}
	}
	raceEnable()
	raceReleaseMerge(unsafe.Pointer(&joinV))
	raceDisable()
	if left { // everybody else is blocked
		deadlock = true
		nextEv = 0
		for _, t := range tasks {
			if !t.done {
				t.blocked = nil
				cur = t
				t.gate <- struct{}{}
				return
			}
		}
	}
	cur = nil
	raceEnable()
	join <- struct{}{}
}

func pickAny() *task {
	n := 0
	for _, t := range tasks {
		if !t.done && t.blocked == nil {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	k := int(0)
	if n > 1 {
		k = int(src.Draw(StreamSched, uint64(n)))
	}
	for _, t := range tasks {
		if !t.done && t.blocked == nil {
			if k == 0 {
				return t
			}
			k--
		}
	}
	return nil
}

// RunTasks runs the functions as concurrent tasks under the scheduler and
// returns when all have ended. A panic escaping a function is returned.
func RunTasks(fns ...func()) (panics []interface{}) {
	if cur != nil {
		panic("simrt: nested RunTasks")
	}
	tasks = nil
	join = make(chan struct{}, 1)
	hi := uint64(0)
	_ = hi
	switch src.Draw(StreamSched, 8) {
	case 0:
		strat = 0
	case 1, 2, 3:
		strat = 1
		gap = []uint64{1, 2, 4, 10, 40, 200, 1000, 5000}[src.Draw(StreamSched, 8)]
	case 4, 5:
		strat = 2
	default:
		strat = 3
		n := 1 + int(src.Draw(StreamSched, 3))
		for i := 0; i < n; i++ {
			s := uint32(src.Draw(StreamSched, uint64(NumSites)))
			if s != 0 && !armed[s] {
				armed[s] = true
				armedList = append(armedList, s)
			}
		}
		armedLeft = 200
	}
	for _, f := range fns {
		spawn(f)
	}
	plan()
	first := pickAny()
	cur = first
	raceDisable()
	first.gate <- struct{}{}
	raceEnable()
	<-join
	raceAcquire(unsafe.Pointer(&joinV))
	disarm()
	for _, t := range tasks {
		if t.panicV != nil {
			panics = append(panics, t.panicV)
		}
	}
	cur = nil
	nextEv = limit
	if hung || deadlock {
		nextEv = 0
	}
	return
}

// Recover clears the hung or deadlocked state so that the harness can go on to
// look at the state (with a fresh budget).
func Recover(budget uint64) {
	hung, deadlock = false, false
	limit = steps + budget
	nextEv = limit
}

func spawn(f func()) *task {
	t := &task{id: len(tasks), gate: make(chan struct{}, 1), fn: f}
	tasks = append(tasks, t)
	go func() {
		raceDisable()
		<-t.gate
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch r.(type) {
					case Hang, Deadlock:
					default:
						buf := make([]byte, 4096)
						buf = buf[:runtime.Stack(buf, false)]
						t.panicV = fmt.Sprintf("%v\n%s", r, buf)
					}
				}
			}()
			if hung {
				panic(Hang{})
			}
			t.fn()
		}()
		finish(t)
	}()
	return t
}

// Go is the replacement of the go statement.
func Go(f func()) {
	if cur == nil {
		// outside a concurrent phase: run at once
		f()
		return
	}
	raceEnable() // goroutine creation orders parent before child
	spawn(f)
	raceDisable()
	Y(0)
}

// Cur returns the index of the running task, -1 outside.
func Cur() int {
	if cur == nil {
		return -1
	}
	return cur.id
}

// Block suspends the running task until Wake(addr).
func Block(addr unsafe.Pointer) {
	if hung {
		panic(Hang{})
	}
	if cur == nil || deadlock {
		deadlock = true
		nextEv = 0
		panic(Deadlock{})
	}
	blocks++
	me := cur
	me.blocked = addr
	t := pickAny()
	if t == nil {
		me.blocked = nil
		deadlock = true
		nextEv = 0
		panic(Deadlock{})
	}
	switchTo(t, 0)
}

// Wake makes the tasks waiting on addr runnable.
func Wake(addr unsafe.Pointer) {
	for _, t := range tasks {
		if t.blocked == addr {
			t.blocked = nil
		}
	}
}

// Acquire and Release make a synchronisation visible to the race detector.
func Acquire(p unsafe.Pointer) {
	syncOps++
	if cur != nil {
		raceEnable()
		raceAcquire(p)
		raceDisable()
	} else {
		raceAcquire(p)
	}
}

func Release(p unsafe.Pointer) {
	syncOps++
	if cur != nil {
		raceEnable()
		raceReleaseMerge(p)
		raceDisable()
	} else {
		raceReleaseMerge(p)
	}
}

// Draw gives the sync replacements access to decisions.
func Draw(stream int, n uint64) uint64 {
	if src == nil || n <= 1 {
		return 0
	}
	return src.Draw(stream, n)
}

func NotePoolGet() { poolGets++ }

// ---- clock ----

func Now() time.Time {
	if src == nil {
		return time.Unix(0, 1_600_000_000_000_000_000)
	}
	nowCalls++
	clockNs += clockStep
	simNs += clockStep
	if clockJump && src.Draw(StreamFault, 4) == 3 {
		d := (int64(src.Draw(StreamFault, 200001)) - 100000) * 1_000_000_000
		clockNs += d
		simNs += abs(d)
	}
	return time.Unix(0, clockNs)
}

func abs(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration) {
	if d > 0 {
		clockNs += int64(d)
		simNs += int64(d)
	}
	Y(0)
}
