package vsim

import (
	"time"
	"unsafe"
)

// Timer fires at a simulated time: it sends on a channel, or starts a task.
type Timer struct {
	when   int64
	period int64
	seq    int
	ptr    unsafe.Pointer
	fn     func()
	active bool
}

func (w *World) addTimer(t *Task) {
	tm := t.tm
	w.removeTimer(tm)
	tm.active = true
	tm.when = w.Now + t.dur
	w.timerN++
	tm.seq = w.timerN
	w.timers = append(w.timers, tm)
	w.event(t, "timer", uint64(t.dur))
}

func (w *World) removeTimer(tm *Timer) bool {
	for i, x := range w.timers {
		if x == tm {
			w.timers = append(w.timers[:i:i], w.timers[i+1:]...)
			tm.active = false
			return true
		}
	}
	return false
}

func (w *World) stopTimer(t *Task) { t.rOK = w.removeTimer(t.tm) }

func (w *World) fireTimers() {
	for {
		var best *Timer
		for _, tm := range w.timers {
			if tm.when <= w.Now && (best == nil || tm.when < best.when || tm.when == best.when && tm.seq < best.seq) {
				best = tm
			}
		}
		if best == nil {
			return
		}
		if best.period > 0 {
			best.when += best.period
		} else {
			w.removeTimer(best)
		}
		if best.fn != nil {
			w.Spawn("timer", false, best.fn)
		} else {
			w.post(best.ptr, time.Unix(0, w.Now).UTC())
		}
	}
}

//go:norace
func NowNanos() int64 {
	if theWorld == nil {
		return Epoch
	}
	return theWorld.Now
}

//go:norace
func Sleep(d int64) {
	t := cur
	if t == nil || t.dead {
		return
	}
	if d < 0 {
		d = 0
	}
	t.op = opSleep
	t.wakeAt = t.w.Now + d
	call(t)
}

//go:norace
func NewTimer[T any](ch chan T, period int64, fn func()) *Timer {
	tm := &Timer{period: period, fn: fn}
	if ch != nil {
		tm.ptr = ptrOf(ch)
	}
	return tm
}

//go:norace
func (tm *Timer) Start(d int64) {
	t := cur
	if t == nil || t.dead {
		return
	}
	if d < 0 {
		d = 0
	}
	t.op, t.tm, t.dur = opTimer, tm, d
	call(t)
}

//go:norace
func (tm *Timer) Stop() bool {
	t := cur
	if t == nil || t.dead {
		return false
	}
	t.op, t.tm = opTimerStop, tm
	call(t)
	return t.rOK
}

// ProcExit stands in for os.Exit.
//
//go:norace
func ProcExit(code int) {
	t := cur
	if t == nil {
		panic("vsim: exit outside a task")
	}
	t.op, t.n = opProcExit, code
	call(t)
}

// NotifyChan registers a channel for simulated signals.
//
//go:norace
func NotifyChan[T any](ch chan<- T) {
	t := cur
	if t == nil || t.dead {
		return
	}
	t.op, t.cptr = opSignal, ptrOfS(ch)
	call(t)
}

// Interrupted tells whether anyone listens for signals.
func (w *World) SignalListeners() int { return len(w.sigChans) }

// Signal delivers a signal to every registered channel (called by the driver through a timer).
func (w *World) Signal(v any) {
	for _, p := range w.sigChans {
		w.post(p, v)
	}
}

// Raise delivers a signal to the process from a task that plays the outside world.
//
//go:norace
func Raise(v any) {
	t := cur
	if t == nil || t.dead {
		return
	}
	t.op, t.val = opRaise, v
	call(t)
}
