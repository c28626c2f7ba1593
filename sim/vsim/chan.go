package vsim

import (
	"unsafe"
)

// Channels keep their Go types; a channel made by rewritten code serves as the identity of a
// simulated channel whose buffer and waiters are kept here. Channels made elsewhere are polled.

type chanState struct {
	id     uint64
	ref    any
	cap    int
	buf    []any
	closed bool
	tok    int64
}

// SelCase is one case of a select.
type SelCase struct {
	Ptr  unsafe.Pointer
	Cap  int
	Send bool
	Val  any
	Ref  any
	Poll func() (any, bool, bool) // foreign channels: value, ok, ready
}

func (w *World) makeChan(t *Task) {
	cs := &chanState{cap: t.ccap, ref: t.val}
	w.nextObj++
	cs.id = uint64(w.nextObj)
	w.chans[t.cptr] = cs
	t.val = nil
}

func (w *World) chanLen(t *Task) {
	if cs := w.chans[t.cptr]; cs != nil {
		t.rIdx = len(cs.buf)
	} else {
		t.rIdx = -1
	}
}

// waiter finds a task parked on the other side of cs: want tells which side is needed.
func (w *World) waiter(cs *chanState, self *Task, wantSend bool) (*Task, int) {
	for _, x := range w.tasks {
		if x == self || x.op != opChanDone || x.granted {
			continue
		}
		for i := range x.cases {
			c := &x.cases[i]
			if c.Send == wantSend && c.Ptr != nil && w.chans[c.Ptr] == cs {
				return x, i
			}
		}
	}
	return nil, 0
}

// try performs case i of t if it can proceed now.
func (w *World) try(t *Task, i int) bool {
	c := &t.cases[i]
	if c.Ptr == nil {
		return false
	}
	cs := w.chans[c.Ptr]
	if cs == nil {
		if c.Send || c.Poll == nil {
			return false
		}
		v, ok, ready := c.Poll()
		if !ready {
			return false
		}
		t.rIdx, t.rVal, t.rOK = i, v, ok
		return true
	}
	if c.Send {
		if cs.closed {
			t.rIdx, t.rOK = i, false
			t.rErr = errClosedChan
			return true
		}
		if r, ri := w.waiter(cs, t, false); r != nil {
			r.rIdx, r.rVal, r.rOK = ri, c.Val, true
			r.granted = true
			t.rIdx, t.rOK = i, true
			return true
		}
		if len(cs.buf) < cs.cap {
			cs.buf = append(cs.buf, c.Val)
			t.rIdx, t.rOK = i, true
			return true
		}
		return false
	}
	if len(cs.buf) > 0 {
		t.rIdx, t.rVal, t.rOK = i, cs.buf[0], true
		cs.buf = cs.buf[1:]
		if s, si := w.waiter(cs, t, true); s != nil {
			cs.buf = append(cs.buf, s.cases[si].Val)
			s.rIdx, s.rOK = si, true
			s.granted = true
		}
		return true
	}
	if s, si := w.waiter(cs, t, true); s != nil {
		t.rIdx, t.rVal, t.rOK = i, s.cases[si].Val, true
		s.rIdx, s.rOK = si, true
		s.granted = true
		return true
	}
	if cs.closed {
		t.rIdx, t.rVal, t.rOK = i, nil, false
		return true
	}
	return false
}

type simError string

func (e simError) Error() string { return string(e) }

var errClosedChan = simError("send on closed channel")

func (w *World) chanOp(t *Task) bool {
	t.rErr = nil
	n := len(t.cases)
	start := 0
	if n > 1 {
		// which of several ready cases is taken is a decision like any other
		if p := w.mapOrder(t, n); p != nil {
			start = int(p[0])
		}
	}
	for k := 0; k < n; k++ {
		i := (start + k) % n
		if w.try(t, i) {
			w.event(t, "chan", uint64(i))
			return false
		}
	}
	if t.hasDf {
		t.rIdx = -1
		w.event(t, "chan.default", 0)
		return false
	}
	w.event(t, "chan.block", 0)
	foreign := false
	for i := range t.cases {
		if t.cases[i].Poll != nil && w.chans[t.cases[i].Ptr] == nil {
			foreign = true
		}
	}
	t.granted = false
	if foreign {
		t.op = opForeign
	} else {
		t.op = opChanDone
	}
	return true
}

func (w *World) pollForeign(t *Task) {
	for i := range t.cases {
		if w.try(t, i) {
			t.granted = true
			return
		}
	}
}

func (w *World) closeChan(t *Task) {
	cs := w.chans[t.cptr]
	t.rErr = nil
	if cs == nil || cs.closed {
		t.rErr = simError("close of nil or closed channel")
		return
	}
	w.event(t, "close", cs.id)
	w.closeState(cs)
}

func (w *World) closeState(cs *chanState) {
	cs.closed = true
	for _, x := range w.tasks {
		if x.op != opChanDone || x.granted {
			continue
		}
		for i := range x.cases {
			if w.chans[x.cases[i].Ptr] == cs {
				x.rIdx, x.rVal, x.rOK = i, nil, false
				if x.cases[i].Send {
					x.rErr = errClosedChan
				}
				x.granted = true
				break
			}
		}
	}
}

// post delivers a value from the simulator itself (timers, signals); it never blocks.
func (w *World) post(ptr unsafe.Pointer, v any) {
	cs := w.chans[ptr]
	if cs == nil || cs.closed {
		return
	}
	if r, ri := w.waiter(cs, nil, false); r != nil {
		r.rIdx, r.rVal, r.rOK = ri, v, true
		r.granted = true
		return
	}
	if len(cs.buf) < cs.cap {
		cs.buf = append(cs.buf, v)
	}
}

//go:norace
func ptrOf[T any](ch chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

//go:norace
func ptrOfR[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

//go:norace
func ptrOfS[T any](ch chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// MakeChan stands in for make(chan T, n).
//
//go:norace
func MakeChan[T any](n int) chan T {
	if n < 0 {
		panic("makechan: size out of range")
	}
	ch := make(chan T, n)
	t := cur
	if t == nil || t.dead {
		return ch
	}
	t.op, t.cptr, t.ccap, t.val = opMakeChan, ptrOf(ch), n, ch
	call(t)
	return ch
}

// MakeChanAs is MakeChan for any channel type.
//
//go:norace
func MakeChanAs[C ~chan T, T any](n int) C { return C(MakeChan[T](n)) }

// Sender returns the function that sends on ch.
//
//go:norace
func Sender[T any](ch chan<- T) func(T) {
	return func(v T) { Send(ch, v) }
}

// CaseSender is CaseSend in two steps.
//
//go:norace
func CaseSender[T any](ch chan<- T) func(T) SelCase {
	return func(v T) SelCase { return CaseSend(ch, v) }
}

//go:norace
func Send[T any](ch chan<- T, v T) {
	t := cur
	if t == nil || t.dead {
		return
	}
	p := ptrOfS(ch)
	if p != nil {
		ReleaseMerge(p)
	}
	t.op, t.cases, t.hasDf = opSend, []SelCase{{Ptr: p, Send: true, Val: v}}, false
	call(t)
	finishSend(t, p)
}

//go:norace
func finishSend(t *Task, p unsafe.Pointer) {
	if t.rErr != nil {
		e := t.rErr
		t.rErr = nil
		panic(e)
	}
	Acquire(p)
}

//go:norace
func recvCase[T any](ch <-chan T) SelCase {
	return SelCase{Ptr: ptrOfR(ch), Poll: func() (any, bool, bool) {
		select {
		case v, ok := <-ch:
			return v, ok, true
		default:
			return nil, false, false
		}
	}}
}

//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	var zero T
	t := cur
	if t == nil || t.dead {
		return zero, false
	}
	c := recvCase(ch)
	if c.Ptr != nil {
		ReleaseMerge(c.Ptr)
	}
	t.op, t.cases, t.hasDf = opRecv, []SelCase{c}, false
	call(t)
	Acquire(c.Ptr)
	v, ok := t.rVal, t.rOK
	t.rVal = nil
	if v == nil {
		return zero, ok
	}
	return v.(T), ok
}

//go:norace
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

//go:norace
func Close[T any](ch chan<- T) {
	t := cur
	if t == nil || t.dead {
		return
	}
	p := ptrOfS(ch)
	if p != nil {
		ReleaseMerge(p)
	}
	t.op, t.cptr = opClose, p
	call(t)
	if t.rErr != nil {
		e := t.rErr
		t.rErr = nil
		panic(e)
	}
}

//go:norace
func ChanLen[T any](ch <-chan T) int {
	t := cur
	p := ptrOfR(ch)
	if t == nil || t.dead || p == nil {
		return len(ch)
	}
	t.op, t.cptr = opChanLen, p
	call(t)
	if t.rIdx < 0 {
		return len(ch)
	}
	return t.rIdx
}

//go:norace
func CaseRecv[T any](ch <-chan T) SelCase { return recvCase(ch) }

//go:norace
func CaseSend[T any](ch chan<- T, v T) SelCase {
	return SelCase{Ptr: ptrOfS(ch), Send: true, Val: v}
}

// Selected is the outcome of a select.
type Selected struct {
	Idx int
	Val any
	OK  bool
}

//go:norace
func Select(hasDefault bool, cases ...SelCase) Selected {
	t := cur
	if t == nil || t.dead {
		return Selected{Idx: -1}
	}
	own := make([]SelCase, len(cases))
	for i := range cases {
		own[i] = cases[i]
		if cases[i].Ptr != nil {
			ReleaseMerge(cases[i].Ptr)
		}
	}
	cases = own
	t.op, t.cases, t.hasDf = opSelect, own, hasDefault
	call(t)
	if t.rIdx < 0 {
		return Selected{Idx: -1}
	}
	p := cases[t.rIdx].Ptr
	if cases[t.rIdx].Send {
		finishSend(t, p)
		return Selected{Idx: t.rIdx}
	}
	Acquire(p)
	s := Selected{Idx: t.rIdx, Val: t.rVal, OK: t.rOK}
	t.rVal = nil
	return s
}

// As converts a received value.
//
//go:norace
func As[T any](ch <-chan T, s Selected) T {
	var zero T
	if s.Val == nil {
		return zero
	}
	return s.Val.(T)
}
