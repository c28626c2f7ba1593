// Package vsim is the simulator: it runs the goroutines of the program under test one at a time,
// in an order chosen by a seeded generator, against an in-memory disk and a simulated clock.
//
// All simulator state belongs to the scheduler goroutine (the one that calls World.Run). A task
// asks for an operation by filling in fields of its own Task and handing over control; the
// scheduler performs the operation when it picks the task. The hand-over is hidden from the race
// detector, so that only the synchronisation of the program under test counts.
package vsim

import (
	"fmt"
	"hash/fnv"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

type opKind int

const (
	opStart opKind = iota
	opYield
	opSpawn
	opExit
	opPanic
	opLock
	opRWLock
	opRWLockWait
	opRLock
	opRLockWait
	opWait
	opOnce
	opCond
	opSend
	opRecv
	opSelect
	opChanDone // parked in a channel operation until a partner completes it
	opMakeChan
	opClose
	opChanLen
	opSleep
	opTimer
	opTimerStop
	opFS
	opMapOrder
	opProcExit
	opStepLimit
	opSignal
	opForeign
	opFatal
	opRaise
	opPreempt
)

var opNames = map[opKind]string{opStart: "start", opYield: "yield", opSpawn: "go", opExit: "exit", opPanic: "panic", opLock: "lock", opRWLock: "wlock", opRWLockWait: "wlock.wait",
	opRLock: "rlock", opRLockWait: "rlock.wait", opWait: "wait", opOnce: "once", opCond: "cond", opSend: "send", opRecv: "recv", opSelect: "select", opChanDone: "chan.wait",
	opMakeChan: "makechan", opClose: "close", opChanLen: "chanlen", opSleep: "sleep", opTimer: "timer", opTimerStop: "timerstop", opFS: "fs", opMapOrder: "maporder",
	opProcExit: "os.Exit", opStepLimit: "steplimit", opSignal: "signal", opForeign: "foreign", opFatal: "fatal", opRaise: "raise", opPreempt: "preempt"}

// Task is one simulated goroutine.
type Task struct {
	ID     int
	Site   string
	Client bool

	wake chan struct{}
	w    *World
	fn   func()
	tok  int64 // race token for scheduler-to-task hand-over
	join int64 // race token for task-to-driver hand-over at the end

	op    opKind
	mu    *MutexState
	wg    *WGState
	once  *OnceState
	cond  *CondState
	child *Task
	cptr  unsafe.Pointer
	ccap  int
	val   any
	cases []SelCase
	hasDf bool
	dur   int64
	tm    *Timer
	fsq   *FSReq
	n     int
	str   string
	pollf func() bool

	rOK   bool
	rIdx  int
	rVal  any
	rPerm []int32
	rErr  error

	wakeAt  int64
	stalled bool
	granted bool // a two-phase wait was granted by another task
	steps   int64
	dead    bool
	done    bool
	weight  float64
	prio    int64
}

type Deviation struct {
	At     int `json:"at"`
	Choice int `json:"choice"`
}

type MapDev struct {
	At   int    `json:"at"`
	Seed uint64 `json:"seed"`
}

// Decisions holds every decision of a run that differs from the default.
type Decisions struct {
	Sched  []Deviation `json:"sched,omitempty"`
	Maps   []MapDev    `json:"maps,omitempty"`
	Pre    []Deviation `json:"preempt,omitempty"` // at a statement between two operations
	Faults []Fault     `json:"faults,omitempty"`
}

// Policy says how a run explores. With Replay set, decisions come from Replay only.
type Policy struct {
	Seed       uint64
	SwitchProb float64 // chance to leave the running task at a decision point
	Prio       bool    // priority scheduling with change points instead of uniform choice
	Order      int     // priorities: 2 the newest goroutine first, 3 the oldest, else random
	PreGap     int     // mean number of statements between preemptions; 0 is never
	SiteBias   bool    // some spawn sites are run much later than others
	MapShuffle bool
	FaultRate  float64  // chance of a fault per eligible disk operation
	FaultKinds []string // enabled kinds
	FaultPath  func(op, path string) bool
	FaultMax   int
	CrashAt    int // kill the process before disk operation number CrashAt (1-based); 0 is never
	Replay     *Decisions
	StepLimit  int64
	MaxDecide  int
	MaxTasks   int   // goroutines alive at once
	Clock      int64 // what the clock shows at the start, in nanoseconds after Epoch
}

// MaxSimTime bounds the simulated time of a run.
const MaxSimTime = int64(48*3600) * 1e9

type EndReason string

const (
	EndDone     EndReason = "done"
	EndDeadlock EndReason = "deadlock"
	EndPanic    EndReason = "panic"
	EndSteps    EndReason = "steplimit"
	EndExit     EndReason = "exit"
	EndCrash    EndReason = "crash"
	EndIdle     EndReason = "idle"
)

type World struct {
	FS    *FS
	Now   int64 // simulated nanoseconds since the epoch
	Start int64

	pol     Policy
	rng     *Rand
	mrng    *Rand
	frng    *Rand
	tasks   []*Task
	nextID  int
	nextObj int
	ev      chan *Task
	last    *Task
	siteW   map[string]float64
	timers  []*Timer
	chans   map[unsafe.Pointer]*chanState
	prioCnt int64
	timerN  int

	// Preemption between two statements: preCount counts the statements executed while another
	// task could run, preNext is the count at which the running task has to ask the scheduler.
	preCount int64
	preNext  int64
	preArmed bool
	preList  []Deviation // replayed preemptions that are still to come
	prng     *Rand
	NPre     int

	rec      Decisions
	replaySc map[int]int
	replayMp map[int]uint64
	replayFl map[int]Fault

	// measurements
	NDecide   int
	NChoice   int // decision points with more than one runnable task
	NSwitch   int
	NMap      int
	NSpawn    int
	NTaskMax  int
	FaultsHit map[string]int
	Hash      uint64
	SchedHash uint64
	Events    int
	LogOn     bool
	Log       []string

	End       EndReason
	PanicVal  string
	PanicSite string
	PanicStk  string
	ExitCode  int
	ExitAt    int64
	RaceBase  int
	crashed   bool
	faultsOff bool
	sigChans  []unsafe.Pointer
	finished  []*Task
	nFaults   int

	FaultedPaths []Fault
	OnExit       func()
}

// theWorld and cur are written by the scheduler and read by the running task. They are only
// touched from norace functions.
var theWorld *World
var cur *Task

//go:norace
func setCur(t *Task) { cur = t }

//go:norace
func current() *Task { return cur }

//go:norace
func World_() *World { return theWorld }

const Epoch = int64(1704067200) * 1e9

func NewWorld(pol Policy) *World {
	started = true
	w := &World{ev: make(chan *Task), chans: map[unsafe.Pointer]*chanState{}, Now: Epoch + pol.Clock, Start: Epoch + pol.Clock, FaultsHit: map[string]int{}}
	w.FS = newFS(w)
	w.SetPolicy(pol)
	w.Hash = 14695981039346656037
	w.SchedHash = 14695981039346656037
	setWorld(w)
	return w
}

//go:norace
func setWorld(w *World) { theWorld = w }

// SetPolicy changes the exploration policy (decision counters carry on).
func (w *World) SetPolicy(pol Policy) {
	w.pol = pol
	if w.pol.StepLimit == 0 {
		w.pol.StepLimit = 20_000_000
	}
	if w.pol.MaxDecide == 0 {
		w.pol.MaxDecide = 2_000_000
	}
	if w.pol.MaxTasks == 0 {
		w.pol.MaxTasks = 3000
	}
	w.rng = NewRand(pol.Seed ^ 0x9e3779b97f4a7c15)
	w.mrng = NewRand(pol.Seed ^ 0xd1b54a32d192ed03)
	w.frng = NewRand(pol.Seed ^ 0x2545f4914f6cdd1d)
	w.prng = NewRand(pol.Seed ^ 0xbf58476d1ce4e5b9)
	w.siteW = map[string]float64{}
	w.replaySc, w.replayMp, w.replayFl = nil, nil, nil
	if pol.Replay != nil {
		w.replaySc, w.replayMp, w.replayFl = map[int]int{}, map[int]uint64{}, map[int]Fault{}
		for _, d := range pol.Replay.Sched {
			w.replaySc[d.At] = d.Choice
		}
		for _, d := range pol.Replay.Maps {
			w.replayMp[d.At] = d.Seed
		}
		for _, f := range pol.Replay.Faults {
			w.replayFl[f.Op] = f
		}
		w.preList = append([]Deviation(nil), pol.Replay.Pre...)
		sort.SliceStable(w.preList, func(i, j int) bool { return w.preList[i].At < w.preList[j].At })
	}
	w.drawPre()
}

// drawPre decides when the next preemption happens.
func (w *World) drawPre() {
	next := int64(-1)
	if w.pol.Replay != nil {
		for len(w.preList) > 0 && int64(w.preList[0].At) <= w.preCount {
			w.preList = w.preList[1:]
		}
		if len(w.preList) > 0 {
			next = int64(w.preList[0].At)
		}
	} else if w.pol.PreGap > 0 {
		next = w.preCount + 1 + int64(w.prng.Intn(2*w.pol.PreGap))
	}
	setPreNext(w, next)
}

//go:norace
func setPreNext(w *World, next int64) { w.preNext = next }

//go:norace
func armPre(w *World, on bool) { w.preArmed = on && w.preNext >= 0 }

// FaultsOff stops fault injection from here on (replayed faults included).
func (w *World) FaultsOff() { w.faultsOff = true }
func (w *World) FaultsOn()  { w.faultsOff = false }

func (w *World) Recorded() Decisions { return w.rec }

func (w *World) note(format string, args ...any) {
	if w.LogOn {
		w.Log = append(w.Log, fmt.Sprintf(format, args...))
	}
}

func mix(h, v uint64) uint64 {
	for i := 0; i < 8; i++ {
		h ^= v & 0xff
		h *= 1099511628211
		v >>= 8
	}
	return h
}

func hashStr(s string) uint64 {
	f := fnv.New64a()
	f.Write([]byte(s))
	return f.Sum64()
}

func (w *World) event(t *Task, what string, obj uint64) {
	w.Events++
	h := hashStr(what)
	w.Hash = mix(mix(mix(w.Hash, uint64(t.ID)), h), obj)
	if w.LogOn {
		w.Log = append(w.Log, fmt.Sprintf("%d t%d %s %d", w.Events, t.ID, what, obj))
	}
}

// Spawn adds a task from the driver, before or between calls to Run.
func (w *World) Spawn(site string, client bool, fn func()) *Task {
	t := &Task{Site: site, Client: client, w: w, wake: make(chan struct{}), fn: fn}
	w.adopt(t)
	startTask(t)
	return t
}

func (w *World) adopt(t *Task) {
	w.nextID++
	t.ID = w.nextID
	w.NSpawn++
	wt, ok := w.siteW[t.Site]
	if !ok {
		wt = 1
		if w.pol.SiteBias && w.pol.Replay == nil {
			switch w.rng.Intn(4) {
			case 0:
				wt = 0.02
			case 1:
				wt = 8
			}
		}
		w.siteW[t.Site] = wt
	}
	t.weight = wt
	if w.pol.Prio && w.pol.Replay == nil {
		switch w.pol.Order {
		case 2:
			t.prio = 1000 + int64(t.ID)
		case 3:
			t.prio = 1e9 - int64(t.ID)
		default:
			t.prio = int64(w.rng.Intn(1000)) + 1000
		}
	}
	w.tasks = append(w.tasks, t)
	if len(w.tasks) > w.NTaskMax {
		w.NTaskMax = len(w.tasks)
	}
}

//go:norace
func startTask(t *Task) {
	go taskMain(t)
}

//go:norace
func taskMain(t *Task) {
	raceOff()
	<-t.wake
	raceOn()
	Acquire(unsafe.Pointer(&t.tok))
	if t.dead {
		finish(t, opExit)
		return
	}
	ok := false
	defer func() {
		if ok || t.dead {
			finish(t, opExit)
			return
		}
		if r := recover(); r != nil {
			t.str = panicText(r)
			t.val = stackText()
			finish(t, opPanic)
			return
		}
		finish(t, opExit) // runtime.Goexit
	}()
	t.fn()
	ok = true
}

func panicText(r any) string { return fmt.Sprint(r) }
func stackText() any         { return string(debug.Stack()) }

//go:norace
func finish(t *Task, op opKind) {
	ReleaseMerge(unsafe.Pointer(&t.join))
	t.op = op
	t.done = true
	raceOff()
	t.w.ev <- t
	// no raceOn: the goroutine ends here
}

// call hands control to the scheduler with the request stored in t and returns when it has been
// carried out.
//
//go:norace
func call(t *Task) {
	if t.dead {
		runtime.Goexit()
	}
	raceOff()
	t.w.ev <- t
	<-t.wake
	raceOn()
	Acquire(unsafe.Pointer(&t.tok))
	if t.dead {
		runtime.Goexit()
	}
}

// Yield is a scheduling point without any other effect.
//
//go:norace
func Yield() {
	t := cur
	if t == nil {
		return
	}
	t.op = opYield
	call(t)
}

// Step counts one step of the program under test and stops the run at the limit.
//
//go:norace
func Step() {
	t := cur
	if t == nil {
		return
	}
	if t.dead {
		runtime.Goexit()
	}
	t.steps++
	if t.steps > t.w.pol.StepLimit {
		t.op = opStepLimit
		call(t)
	}
}

// Grown counts the copying of a string that has been made longer.
//
//go:norace
func Grown[S ~string](s S) {
	t := cur
	if t == nil || len(s) < 4096 {
		return
	}
	t.steps += int64(len(s)) / 512
	Step()
}

// At is the point before a statement of the program under test. The running task is preempted
// here when the count of statements says so.
//
//go:norace
func At() {
	t := cur
	if t == nil || !t.w.preArmed {
		return
	}
	w := t.w
	w.preCount++
	if w.preCount == w.preNext {
		t.op = opPreempt
		call(t)
	}
}

// Go starts fn as a new task.
//
//go:norace
func Go(site string, fn func()) {
	t := cur
	if t == nil {
		if !started {
			return // the host is starting; the program does this again in its own process
		}
		panic("vsim: goroutine started outside a task: " + site)
	}
	if t.dead {
		return
	}
	c := &Task{Site: site, w: t.w, wake: make(chan struct{}), fn: fn}
	startTask(c)
	t.op = opSpawn
	t.child = c
	call(t)
}

func (w *World) enabled(t *Task) bool { return enabledNR(w, t) }

//go:norace
func enabledNR(w *World, t *Task) bool {
	switch t.op {
	case opLock:
		return t.mu == nil || !t.mu.locked
	case opRWLockWait, opRLockWait, opChanDone:
		return t.granted
	case opWait:
		return t.wg.n <= 0
	case opOnce:
		return !t.once.running
	case opCond:
		return t.granted
	case opSleep:
		return t.wakeAt <= w.Now
	case opForeign:
		return t.granted
	}
	return true
}

// resume lets t run until its next request.
func (w *World) resume(t *Task) {
	Release(unsafe.Pointer(&t.tok))
	setCur(t)
	raceOff()
	t.wake <- struct{}{}
	e := <-w.ev
	raceOn()
	setCur(nil)
	if e != t {
		panic("vsim: unexpected task")
	}
}

// Run schedules until every client task has finished and nothing else can run, or until the
// process ends in some other way.
func (w *World) Run() EndReason {
	w.End = ""
	for {
		var runnable []*Task
		clients := 0
		for _, t := range w.tasks {
			if t.Client {
				clients++
			}
			if t.op == opForeign && !t.granted {
				w.pollForeign(t)
			}
			if w.enabled(t) {
				runnable = append(runnable, t)
			}
		}
		if len(runnable) == 0 {
			if clients == 0 {
				return w.end(EndDone)
			}
			if w.advance() {
				continue
			}
			return w.end(EndDeadlock)
		}
		t := w.choose(runnable)
		armPre(w, len(runnable) > 1 || t.op == opSpawn)
		if !w.exec(t) {
			return w.End
		}
	}
}

func (w *World) end(r EndReason) EndReason {
	w.End = r
	return r
}

// advance moves the clock to the next timer or sleeper.
func (w *World) advance() bool {
	next := int64(-1)
	for _, t := range w.tasks {
		if t.op == opSleep && (next < 0 || t.wakeAt < next) {
			next = t.wakeAt
		}
	}
	for _, tm := range w.timers {
		if next < 0 || tm.when < next {
			next = tm.when
		}
	}
	if next < 0 || next > w.Start+MaxSimTime {
		return false
	}
	if next > w.Now {
		w.Now = next
	}
	w.fireTimers()
	return true
}

func (w *World) choose(runnable []*Task) *Task {
	if w.last != nil && w.last.op == opPreempt {
		return w.preempt(runnable)
	}
	at := w.NDecide
	w.NDecide++
	def := 0
	for i, t := range runnable {
		if t == w.last {
			def = i
		}
	}
	pick := def
	if len(runnable) > 1 {
		w.NChoice++
		if w.pol.Replay != nil {
			if c, ok := w.replaySc[at]; ok && c < len(runnable) {
				pick = c
			}
		} else {
			pick = w.pickSeeded(runnable, def)
		}
	}
	if pick != def {
		w.rec.Sched = append(w.rec.Sched, Deviation{At: at, Choice: pick})
	}
	t := runnable[pick]
	if t != w.last {
		w.NSwitch++
	}
	w.SchedHash = mix(mix(w.SchedHash, uint64(t.ID)), uint64(t.op))
	w.last = t
	return t
}

// preempt decides who goes on after the running task was stopped between two statements. These
// decisions are numbered by statement, so that leaving one out does not renumber the others.
func (w *World) preempt(runnable []*Task) *Task {
	def := 0
	for i, t := range runnable {
		if t == w.last {
			def = i
		}
	}
	pick := def
	if len(runnable) > 1 {
		if w.pol.Replay != nil {
			if len(w.preList) > 0 && int64(w.preList[0].At) == w.preCount && w.preList[0].Choice < len(runnable) {
				pick = w.preList[0].Choice
			}
		} else if pick = w.prng.Intn(len(runnable) - 1); pick >= def {
			pick++
		}
	}
	if pick != def {
		w.rec.Pre = append(w.rec.Pre, Deviation{At: int(w.preCount), Choice: pick})
		w.NPre++
		w.NSwitch++
		w.event(runnable[pick], "preempts", uint64(w.preCount))
		w.SchedHash = mix(mix(w.SchedHash, uint64(runnable[pick].ID)), uint64(w.preCount))
	}
	w.drawPre()
	t := runnable[pick]
	w.last = t
	return t
}

func (w *World) pickSeeded(runnable []*Task, def int) int {
	if w.pol.Prio {
		best := 0
		for i, t := range runnable {
			if t.prio > runnable[best].prio {
				best = i
			}
		}
		if w.rng.Float() < w.pol.SwitchProb {
			w.prioCnt++
			runnable[best].prio = -w.prioCnt
			return w.pickPrio(runnable)
		}
		return best
	}
	lastRunnable := w.last != nil && runnable[def] == w.last
	if lastRunnable && w.rng.Float() >= w.pol.SwitchProb {
		return def
	}
	if !w.pol.SiteBias {
		return w.rng.Intn(len(runnable))
	}
	total := 0.0
	for _, t := range runnable {
		total += t.weight
	}
	x := w.rng.Float() * total
	for i, t := range runnable {
		x -= t.weight
		if x < 0 {
			return i
		}
	}
	return len(runnable) - 1
}

func (w *World) pickPrio(runnable []*Task) int {
	best := 0
	for i, t := range runnable {
		if t.prio > runnable[best].prio {
			best = i
		}
	}
	return best
}

// exec performs the pending operation of t and lets it run to its next one.
func (w *World) exec(t *Task) bool {
	if w.NDecide > w.pol.MaxDecide || len(w.tasks) > w.pol.MaxTasks {
		w.PanicSite = fmt.Sprintf("%s (%d goroutines, %d steps)", t.Site, len(w.tasks), w.NDecide)
		w.end(EndSteps)
		return false
	}
	blocked := w.perform(t)
	if w.End != "" {
		return false
	}
	if blocked {
		return true
	}
	w.resume(t)
	for {
		// requests that are not scheduling points are answered at once
		switch t.op {
		case opExit:
			w.event(t, "exit", 0)
			w.dropDone(t)
			return true
		case opPanic:
			w.event(t, "panic", 0)
			w.PanicVal, w.PanicSite = t.str, t.Site
			if s, ok := t.val.(string); ok {
				w.PanicStk = s
			}
			w.dropDone(t)
			w.end(EndPanic)
			return false
		case opFatal:
			w.event(t, "fatal", 0)
			w.PanicVal, w.PanicSite = t.str, t.Site
			w.end(EndPanic)
			return false
		case opStepLimit:
			w.PanicSite = t.Site
			w.end(EndSteps)
			return false
		case opMapOrder:
			t.rPerm = w.mapOrder(t, t.n)
			w.resume(t)
		case opMakeChan:
			w.makeChan(t)
			w.resume(t)
		case opChanLen:
			w.chanLen(t)
			w.resume(t)
		case opTimerStop:
			w.stopTimer(t)
			w.resume(t)
		default:
			return true
		}
	}
}

// dropDone removes a finished task. Its writes are published to the driver only when the run is
// over (see Join), so that the scheduler never carries happens-before edges between tasks.
func (w *World) dropDone(t *Task) {
	for i, x := range w.tasks {
		if x == t {
			w.tasks = append(w.tasks[:i:i], w.tasks[i+1:]...)
			break
		}
	}
	if w.last == t {
		w.last = nil
	}
	w.finished = append(w.finished, t)
}

// Join makes everything done by finished tasks visible to the driver.
func (w *World) Join() {
	for _, t := range w.finished {
		Acquire(unsafe.Pointer(&t.join))
	}
	w.finished = nil
}

// Kill ends every remaining task without letting it run program code.
func (w *World) Kill() {
	for len(w.tasks) > 0 {
		t := w.tasks[len(w.tasks)-1]
		if c := t.child; t.op == opSpawn && c != nil {
			killOne(w, c)
		}
		killOne(w, t)
		w.finished = append(w.finished, t)
		w.tasks = w.tasks[:len(w.tasks)-1]
	}
	w.timers = nil
	w.chans = map[unsafe.Pointer]*chanState{}
	w.sigChans = nil
	w.last = nil
	w.Join()
}

//go:norace
func killOne(w *World, t *Task) {
	if t.done {
		return
	}
	t.dead = true
	cur = t
	raceOff()
	t.wake <- struct{}{}
	for {
		e := <-w.ev
		if e == t && t.done {
			break
		}
		e.wake <- struct{}{}
	}
	raceOn()
	cur = nil
}

// Alive counts the remaining tasks by the place they were started at.
func (w *World) Alive() map[string]int {
	out := map[string]int{}
	for _, t := range w.tasks {
		out[t.Site]++
	}
	return out
}

// Blocked describes the tasks that cannot run.
func (w *World) Blocked() []string {
	var out []string
	for _, t := range w.tasks {
		out = append(out, fmt.Sprintf("t%d %s in %s", t.ID, t.Site, opNames[t.op]))
	}
	sort.Strings(out)
	return out
}

// Waiting counts remaining tasks blocked on a lock.
func (w *World) LockBlocked() int {
	n := 0
	for _, t := range w.tasks {
		switch t.op {
		case opLock, opRWLockWait, opRLockWait, opWait, opOnce:
			n++
		}
	}
	return n
}

func (w *World) perform(t *Task) (blocked bool) {
	switch t.op {
	case opStart, opYield:
		w.event(t, "run", 0)
	case opPreempt:
	case opSpawn:
		c := t.child
		t.child = nil
		w.adopt(c)
		w.event(t, "go "+c.Site, uint64(c.ID))
	case opLock:
		w.event(t, "lock", w.lockMutex(t.mu))
	case opRWLock:
		id, ok := w.rwLock(t.mu)
		w.event(t, "wlock", id)
		if !ok {
			t.op = opRWLockWait
			t.granted = false
			return true
		}
	case opRLock:
		id, ok := w.rwRLock(t.mu)
		w.event(t, "rlock", id)
		if !ok {
			t.op = opRLockWait
			t.granted = false
			return true
		}
	case opRWLockWait:
		w.event(t, "wlock+", w.objID(&t.mu.id))
	case opRLockWait:
		w.event(t, "rlock+", w.objID(&t.mu.id))
	case opWait:
		w.event(t, "wait", w.objID(&t.wg.id))
	case opOnce:
		w.event(t, "once", w.objID(&t.once.id))
		onceEnter(t)
	case opCond:
		w.event(t, "cond", w.objID(&t.cond.id))
	case opSend, opRecv, opSelect:
		return w.chanOp(t)
	case opChanDone:
		w.event(t, "chan+", uint64(t.rIdx))
	case opClose:
		w.closeChan(t)
	case opSleep:
		w.event(t, "slept", uint64(t.wakeAt))
		if t.stalled {
			t.stalled = false
			t.op = opFS
			return w.fsPerform(t)
		}
	case opTimer:
		w.addTimer(t)
	case opFS:
		return w.fsPerform(t)
	case opProcExit:
		w.event(t, "os.Exit", uint64(t.n))
		w.ExitCode, w.ExitAt = t.n, w.Now
		w.end(EndExit)
	case opSignal:
		w.sigChans = append(w.sigChans, t.cptr)
		w.event(t, "notify", 0)
	case opForeign:
		w.event(t, "foreign", 0)
	case opRaise:
		w.event(t, "raise", uint64(len(w.sigChans)))
		if len(w.sigChans) == 0 { // the default action
			w.ExitCode, w.ExitAt = 130, w.Now
			w.end(EndExit)
			return false
		}
		w.Signal(t.val)
	default:
		panic("vsim: bad op " + opNames[t.op])
	}
	return false
}

func (w *World) objID(p *uint64) uint64 {
	return objIDNR(w, p)
}

//go:norace
func objIDNR(w *World, p *uint64) uint64 {
	if *p == 0 {
		w.nextObj++
		*p = uint64(w.nextObj)
	}
	return *p
}

func (w *World) mapOrder(t *Task, n int) []int32 {
	at := w.NMap
	w.NMap++
	var seed uint64
	if w.pol.Replay != nil {
		seed = w.replayMp[at]
	} else if w.pol.MapShuffle && n > 1 {
		seed = w.mrng.U64() | 1
		if w.mrng.Intn(8) == 0 {
			seed = 0
		}
	}
	if seed == 0 || n < 2 {
		return nil
	}
	perm := permOf(seed, n)
	id := true
	for i, p := range perm {
		if int(p) != i {
			id = false
		}
	}
	if id {
		return nil
	}
	w.rec.Maps = append(w.rec.Maps, MapDev{At: at, Seed: seed})
	w.Hash = mix(w.Hash, seed)
	w.SchedHash = mix(w.SchedHash, seed)
	return perm
}

func permOf(seed uint64, n int) []int32 {
	r := NewRand(seed)
	perm := make([]int32, n)
	for i := range perm {
		perm[i] = int32(i)
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		perm[i], perm[j] = perm[j], perm[i]
	}
	return perm
}

// Rand is a small splitmix generator.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed} }

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

func (r *Rand) Float() float64        { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rand) Chance(p float64) bool { return r.Float() < p }

var resets []func()

// RegisterReset is called from generated code: f puts the variables of a package back to their
// initial values.
func RegisterReset(f func()) { resets = append(resets, f) }

// started tells that the packages of the host are initialised.
var started bool

// ResetGlobals simulates a fresh process image. It belongs into the first task of the process.
func ResetGlobals() {
	for _, f := range resets {
		f()
	}
}

// Zero resets a package variable without an initial value.
func Zero[T any](p *T) {
	var z T
	*p = z
}

func cleanStack(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "ecksbee.com/telefacts") && !strings.Contains(l, "/vsim") {
			keep = append(keep, strings.TrimSpace(l))
		}
	}
	return strings.Join(keep, " < ")
}

// Frames lists the program functions on a recorded panic stack, innermost first.
func Frames(stk string) string { return cleanStack(stk) }
