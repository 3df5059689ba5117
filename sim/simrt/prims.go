package simrt

import (
	"sync"
	"unsafe"
)

// Mutex stands in for sync.Mutex.
type Mutex struct {
	real   sync.Mutex
	locked bool
	sync   byte
}

//go:norace
func (m *Mutex) Lock() {
	s := sim()
	if s == nil {
		if active == nil {
			m.real.Lock()
		}
		return
	}
	Y("Lock")
	for m.locked {
		s.cur.site = "Mutex.Lock"
		s.block()
	}
	m.locked = true
	acquire(unsafe.Pointer(&m.sync))
}

//go:norace
func (m *Mutex) TryLock() bool {
	if sim() == nil {
		if active == nil {
			return m.real.TryLock()
		}
		return true
	}
	Y("TryLock")
	if m.locked {
		return false
	}
	m.locked = true
	acquire(unsafe.Pointer(&m.sync))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if sim() == nil {
		if active == nil {
			m.real.Unlock()
		}
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	release(unsafe.Pointer(&m.sync))
	m.locked = false
	Y("Unlock")
}

// RWMutex stands in for sync.RWMutex; as there, a waiting writer keeps new readers out.
type RWMutex struct {
	real    sync.RWMutex
	writer  bool
	readers int
	waiting int
	wsync   byte
	rsync   byte
}

//go:norace
func (m *RWMutex) Lock() {
	s := sim()
	if s == nil {
		if active == nil {
			m.real.Lock()
		}
		return
	}
	Y("Lock")
	m.waiting++
	for m.writer || m.readers > 0 {
		s.cur.site = "RWMutex.Lock"
		s.block()
	}
	m.waiting--
	m.writer = true
	acquire(unsafe.Pointer(&m.wsync))
	acquire(unsafe.Pointer(&m.rsync))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if sim() == nil {
		if active == nil {
			return m.real.TryLock()
		}
		return true
	}
	Y("TryLock")
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	acquire(unsafe.Pointer(&m.wsync))
	acquire(unsafe.Pointer(&m.rsync))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if sim() == nil {
		if active == nil {
			m.real.Unlock()
		}
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	release(unsafe.Pointer(&m.wsync))
	m.writer = false
	Y("Unlock")
}

//go:norace
func (m *RWMutex) RLock() {
	s := sim()
	if s == nil {
		if active == nil {
			m.real.RLock()
		}
		return
	}
	Y("RLock")
	for m.writer || m.waiting > 0 {
		s.cur.site = "RWMutex.RLock"
		s.block()
	}
	m.readers++
	acquire(unsafe.Pointer(&m.wsync))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if sim() == nil {
		if active == nil {
			return m.real.TryRLock()
		}
		return true
	}
	Y("TryRLock")
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	acquire(unsafe.Pointer(&m.wsync))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if sim() == nil {
		if active == nil {
			m.real.RUnlock()
		}
		return
	}
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	release(unsafe.Pointer(&m.rsync))
	m.readers--
	Y("RUnlock")
}

// RLocker as in package sync.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once stands in for sync.Once.
type Once struct {
	real  sync.Once
	state int
	sync  byte
}

//go:norace
func (o *Once) Do(f func()) {
	s := sim()
	if s == nil {
		if active == nil {
			if o.state != 2 {
				o.real.Do(f)
				o.state = 2
			}
		}
		return
	}
	Y("Once")
	for o.state == 1 {
		s.cur.site = "Once.Do"
		s.block()
	}
	if o.state == 0 {
		o.state = 1
		defer o.done()
		f()
		return
	}
	acquire(unsafe.Pointer(&o.sync))
}

//go:norace
func (o *Once) done() {
	o.state = 2
	release(unsafe.Pointer(&o.sync))
	progressed()
}

// WaitGroup stands in for sync.WaitGroup.
type WaitGroup struct {
	real sync.WaitGroup
	n    int
	sync byte
}

//go:norace
func (w *WaitGroup) Add(d int) {
	if sim() == nil {
		if active == nil {
			w.real.Add(d)
		}
		return
	}
	Y("WaitGroup.Add")
	if d < 0 {
		release(unsafe.Pointer(&w.sync))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	progressed()
}

//go:norace
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	s := sim()
	if s == nil {
		if active == nil {
			w.real.Wait()
		}
		return
	}
	Y("WaitGroup.Wait")
	for w.n > 0 {
		s.cur.site = "WaitGroup.Wait"
		s.block()
	}
	acquire(unsafe.Pointer(&w.sync))
}

// Go as in package sync.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}
