package vsim

import "unsafe"

// The states below live inside the shim types (and are copied with them, as in package sync).
// They are only touched from norace functions.

type MutexState struct {
	id      uint64
	locked  bool // held exclusively
	readers int
	waiting int // announced writers
	tok     int64
	rtok    int64
}

type WGState struct {
	id  uint64
	n   int
	tok int64
}

type OnceState struct {
	id      uint64
	running bool
	done    bool
	tok     int64
}

type CondState struct {
	id  uint64
	seq int
	tok int64
}

//go:norace
func fatal(msg string) {
	t := cur
	if t == nil {
		panic(msg)
	}
	t.op = opFatal
	t.str = msg
	call(t)
}

func (w *World) lockMutex(m *MutexState) uint64 { return lockMutexNR(w, m) }

//go:norace
func lockMutexNR(w *World, m *MutexState) uint64 {
	m.locked = true
	return objIDNR(w, &m.id)
}

//go:norace
func (m *MutexState) Lock() {
	t := cur
	if t == nil {
		m.locked = true
		return
	}
	if t.dead {
		return
	}
	t.op, t.mu = opLock, m
	call(t)
	Acquire(unsafe.Pointer(&m.tok))
}

//go:norace
func (m *MutexState) TryLock() bool {
	t := cur
	if t == nil || t.dead {
		return true
	}
	Yield()
	if m.locked || m.readers > 0 || m.waiting > 0 {
		return false
	}
	m.locked = true
	Acquire(unsafe.Pointer(&m.tok))
	Acquire(unsafe.Pointer(&m.rtok))
	return true
}

//go:norace
func (m *MutexState) Unlock() {
	t := cur
	if t != nil && t.dead {
		return
	}
	if !m.locked {
		fatal("sync: unlock of unlocked mutex")
		return
	}
	Release(unsafe.Pointer(&m.tok))
	m.locked = false
}

func (w *World) rwLock(m *MutexState) (uint64, bool) { return rwLockNR(w, m) }

//go:norace
func rwLockNR(w *World, m *MutexState) (uint64, bool) {
	id := objIDNR(w, &m.id)
	if !m.locked && m.readers == 0 && m.waiting == 0 {
		m.locked = true
		return id, true
	}
	m.waiting++
	return id, false
}

func (w *World) rwRLock(m *MutexState) (uint64, bool) { return rwRLockNR(w, m) }

//go:norace
func rwRLockNR(w *World, m *MutexState) (uint64, bool) {
	id := objIDNR(w, &m.id)
	if !m.locked && m.waiting == 0 {
		m.readers++
		return id, true
	}
	return id, false
}

//go:norace
func (m *MutexState) RWLock() {
	t := cur
	if t == nil {
		m.locked = true
		return
	}
	if t.dead {
		return
	}
	t.op, t.mu = opRWLock, m
	call(t)
	Acquire(unsafe.Pointer(&m.tok))
	Acquire(unsafe.Pointer(&m.rtok))
}

//go:norace
func (m *MutexState) RWUnlock() {
	t := cur
	if t != nil && t.dead {
		return
	}
	if !m.locked {
		fatal("sync: Unlock of unlocked RWMutex")
		return
	}
	Release(unsafe.Pointer(&m.tok))
	m.locked = false
	if t == nil {
		return
	}
	for _, x := range t.w.tasks {
		if x.op == opRLockWait && x.mu == m && !x.granted {
			x.granted = true
			m.readers++
		}
	}
	grantWriter(t.w, m)
}

//go:norace
func grantWriter(w *World, m *MutexState) {
	if m.locked || m.readers > 0 {
		return
	}
	for _, x := range w.tasks {
		if x.op == opRWLockWait && x.mu == m && !x.granted {
			x.granted = true
			m.waiting--
			m.locked = true
			return
		}
	}
}

//go:norace
func (m *MutexState) RLock() {
	t := cur
	if t == nil {
		m.readers++
		return
	}
	if t.dead {
		return
	}
	t.op, t.mu = opRLock, m
	call(t)
	Acquire(unsafe.Pointer(&m.tok))
}

//go:norace
func (m *MutexState) TryRLock() bool {
	t := cur
	if t == nil || t.dead {
		return true
	}
	Yield()
	if m.locked || m.waiting > 0 {
		return false
	}
	m.readers++
	Acquire(unsafe.Pointer(&m.tok))
	return true
}

//go:norace
func (m *MutexState) RUnlock() {
	t := cur
	if t != nil && t.dead {
		return
	}
	if m.readers <= 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
		return
	}
	ReleaseMerge(unsafe.Pointer(&m.rtok))
	m.readers--
	if t != nil {
		grantWriter(t.w, m)
	}
}

//go:norace
func (g *WGState) Add(n int) {
	t := cur
	if t != nil && t.dead {
		return
	}
	if n < 0 {
		ReleaseMerge(unsafe.Pointer(&g.tok))
	}
	g.n += n
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

//go:norace
func (g *WGState) Wait() {
	t := cur
	if t == nil || t.dead {
		return
	}
	t.op, t.wg = opWait, g
	call(t)
	Acquire(unsafe.Pointer(&g.tok))
}

//go:norace
func onceEnter(t *Task) {
	o := t.once
	if !o.done {
		o.running = true
		t.rOK = true
	} else {
		t.rOK = false
	}
}

//go:norace
func (o *OnceState) Do(f func()) {
	t := cur
	if t == nil {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	if t.dead {
		return
	}
	t.op, t.once = opOnce, o
	call(t)
	if !t.rOK {
		Acquire(unsafe.Pointer(&o.tok))
		return
	}
	defer o.leave()
	f()
}

//go:norace
func (o *OnceState) leave() {
	Release(unsafe.Pointer(&o.tok))
	o.done = true
	o.running = false
}

// CondWait blocks until signalled; the caller has released the lock and takes it again after.
//
//go:norace
func (c *CondState) Wait(unlock, lock func()) {
	t := cur
	if t == nil || t.dead {
		return
	}
	unlock()
	t.op, t.cond, t.granted = opCond, c, false
	call(t)
	Acquire(unsafe.Pointer(&c.tok))
	lock()
}

//go:norace
func (c *CondState) Signal(all bool) {
	t := cur
	if t == nil || t.dead {
		return
	}
	Yield()
	ReleaseMerge(unsafe.Pointer(&c.tok))
	for _, x := range t.w.tasks {
		if x.op == opCond && x.cond == c && !x.granted {
			x.granted = true
			if !all {
				return
			}
		}
	}
}
