package vsync

import (
	"sync"
	"unsafe"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Pool      = sync.Pool
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond                                   { return sync.NewCond(l) }
func OnceFunc(f func()) func()                                 { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T                     { return sync.OnceValue(f) }
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) { return sync.OnceValues(f) }

// Mutex

type Mutex struct {
	locked bool
	r      byte
}

func (m *Mutex) Lock() {
	wait("Mutex.Lock", func() bool { return !m.locked }, func() { m.locked = true })
	raceAcquire(unsafe.Pointer(&m.r))
}

func (m *Mutex) TryLock() (ok bool) {
	wait("Mutex.TryLock", nil, func() { ok = !m.locked; m.locked = true })
	if ok {
		raceAcquire(unsafe.Pointer(&m.r))
	}
	return ok
}

func (m *Mutex) Unlock() {
	raceRelease(unsafe.Pointer(&m.r))
	wait("Mutex.Unlock", nil, func() {
		if !m.locked {
			panic("sync: unlock of unlocked mutex")
		}
		m.locked = false
	})
}

// RWMutex: as in Go, a writer which is waiting does not let more readers in, and the
// readers which were waiting go in when it has finished.

type RWMutex struct {
	writer  bool // a writer has it or is waiting for the readers
	readers int
	waiting int // readers
	epoch   int // number of writers which have finished
	r, w    byte
}

func (m *RWMutex) Lock() {
	wait("RWMutex.Lock", func() bool { return !m.writer }, func() { m.writer = true })
	ok := false
	peek(func() { ok = m.readers == 0 })
	if !ok {
		wait("RWMutex.Lock (readers)", func() bool { return m.readers == 0 }, nil)
	}
	raceAcquire(unsafe.Pointer(&m.r))
	raceAcquire(unsafe.Pointer(&m.w))
}

// peek looks at something without letting anyone go on.
func peek(f func()) {
	raceDisable()
	defer raceEnable()
	if self() != nil {
		f()
		return
	}
	g.Lock()
	f()
	g.Unlock()
}

func (m *RWMutex) TryLock() (ok bool) {
	wait("RWMutex.TryLock", nil, func() {
		if !m.writer && m.readers == 0 {
			ok, m.writer = true, true
		}
	})
	if ok {
		raceAcquire(unsafe.Pointer(&m.r))
		raceAcquire(unsafe.Pointer(&m.w))
	}
	return ok
}

func (m *RWMutex) Unlock() {
	raceRelease(unsafe.Pointer(&m.r))
	wait("RWMutex.Unlock", nil, func() {
		if !m.writer {
			panic("sync: Unlock of unlocked RWMutex")
		}
		m.writer = false
		m.epoch++
		m.readers += m.waiting
		m.waiting = 0
	})
}

func (m *RWMutex) RLock() {
	in, epoch := false, 0
	wait("RWMutex.RLock", nil, func() {
		if !m.writer {
			m.readers++
			in = true
		} else {
			m.waiting++
			epoch = m.epoch
		}
	})
	if !in { // it will be counted by the writer, when it finishes
		wait("RWMutex.RLock (writer)", func() bool { return m.epoch != epoch }, nil)
	}
	raceAcquire(unsafe.Pointer(&m.r))
}

func (m *RWMutex) TryRLock() (ok bool) {
	wait("RWMutex.TryRLock", nil, func() {
		if !m.writer {
			m.readers++
			ok = true
		}
	})
	if ok {
		raceAcquire(unsafe.Pointer(&m.r))
	}
	return ok
}

func (m *RWMutex) RUnlock() {
	raceReleaseMerge(unsafe.Pointer(&m.w))
	wait("RWMutex.RUnlock", nil, func() {
		if m.readers <= 0 {
			panic("sync: RUnlock of unlocked RWMutex")
		}
		m.readers--
	})
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once

type Once struct {
	running, done bool
	r             byte
}

func (o *Once) Do(f func()) {
	mine := false
	wait("Once.Do", func() bool { return !o.running }, func() {
		if !o.done {
			o.running, mine = true, true
		}
	})
	if !mine {
		raceAcquire(unsafe.Pointer(&o.r))
		return
	}
	defer func() {
		raceRelease(unsafe.Pointer(&o.r))
		wait("Once.Do (end)", nil, func() { o.running, o.done = false, true })
	}()
	f()
}

// Map: every operation is atomic.

type Map struct{ m sync.Map }

func (m *Map) Load(k interface{}) (interface{}, bool) { Point("Map.Load"); return m.m.Load(k) }
func (m *Map) Store(k, v interface{})                 { Point("Map.Store"); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	Point("Map.LoadOrStore")
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	Point("Map.LoadAndDelete")
	return m.m.LoadAndDelete(k)
}
func (m *Map) Delete(k interface{}) { Point("Map.Delete"); m.m.Delete(k) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	Point("Map.Swap")
	return m.m.Swap(k, v)
}
func (m *Map) CompareAndSwap(k, a, b interface{}) bool {
	Point("Map.CompareAndSwap")
	return m.m.CompareAndSwap(k, a, b)
}
func (m *Map) CompareAndDelete(k, a interface{}) bool {
	Point("Map.CompareAndDelete")
	return m.m.CompareAndDelete(k, a)
}
func (m *Map) Clear() { Point("Map.Clear"); m.m.Clear() }
func (m *Map) Range(f func(k, v interface{}) bool) {
	Point("Map.Range")
	m.m.Range(func(k, v interface{}) bool { Point("Map.Range (next)"); return f(k, v) })
}
