// Package vsync replaces package sync in the instrumented copy.
package vsync

import (
	"sync"

	"github.com/zhiqiangxu/mondis/vsched"
)

// Types without scheduling of their own.
type (
	WaitGroup = sync.WaitGroup
	Pool      = sync.Pool
	Cond      = sync.Cond
	Locker    = sync.Locker
)

// NewCond as in sync.
var NewCond = sync.NewCond

// OnceFunc as in sync.
func OnceFunc(f func()) func() {
	o := &Once{}
	return func() { o.Do(f) }
}

// Mutex under the scheduler.
type Mutex struct{ held bool }

// Lock waits for the mutex.
func (m *Mutex) Lock() {
	vsched.Block("Lock", func() bool { return !m.held }, func() { m.held = true })
}

// TryLock takes the mutex if it is free.
func (m *Mutex) TryLock() (ok bool) {
	vsched.Block("TryLock", func() bool { return true }, func() {
		if ok = !m.held; ok {
			m.held = true
		}
	})
	return
}

// Unlock releases.
func (m *Mutex) Unlock() {
	if !m.held {
		if vsched.Unwinding() {
			return
		}
		panic("sync: unlock of unlocked mutex (github.com/zhiqiangxu/mondis)")
	}
	m.held = false
	vsched.S("Unlock")
}

// RWMutex under the scheduler; a waiting writer keeps new readers out.
type RWMutex struct {
	announced bool
	writing   bool
	readers   int
}

// Lock waits for writers, then for readers.
func (m *RWMutex) Lock() {
	vsched.Block("Lock", func() bool { return !m.announced }, func() { m.announced = true })
	vsched.Block("Lock(2)", func() bool { return m.readers == 0 }, func() { m.writing = true })
}

// TryLock as in sync.
func (m *RWMutex) TryLock() (ok bool) {
	vsched.Block("TryLock", func() bool { return true }, func() {
		if ok = !m.announced && m.readers == 0; ok {
			m.announced, m.writing = true, true
		}
	})
	return
}

// Unlock releases.
func (m *RWMutex) Unlock() {
	if !m.writing {
		if vsched.Unwinding() {
			m.announced = false
			return
		}
		panic("sync: Unlock of unlocked RWMutex (github.com/zhiqiangxu/mondis)")
	}
	m.writing, m.announced = false, false
	vsched.S("Unlock")
}

// RLock waits for writers.
func (m *RWMutex) RLock() {
	vsched.Block("RLock", func() bool { return !m.announced }, func() { m.readers++ })
}

// TryRLock as in sync.
func (m *RWMutex) TryRLock() (ok bool) {
	vsched.Block("TryRLock", func() bool { return true }, func() {
		if ok = !m.announced; ok {
			m.readers++
		}
	})
	return
}

// RUnlock releases.
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		if vsched.Unwinding() {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex (github.com/zhiqiangxu/mondis)")
	}
	m.readers--
	vsched.S("RUnlock")
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker as in sync.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once under the scheduler.
type Once struct {
	done, running bool
}

// Do runs f once; others wait until it has run.
func (o *Once) Do(f func()) {
	first := false
	vsched.Block("Once", func() bool { return !o.running }, func() {
		if !o.done {
			o.running, first = true, true
		}
	})
	if !first {
		return
	}
	defer func() {
		o.done, o.running = true, false
		vsched.S("Once done")
	}()
	f()
}

// Map is sync.Map with a scheduling point before each operation.
type Map struct{ m sync.Map }

// Load as in sync.
func (m *Map) Load(k interface{}) (interface{}, bool) { vsched.S("Map.Load"); return m.m.Load(k) }

// Store as in sync.
func (m *Map) Store(k, v interface{}) { vsched.S("Map.Store"); m.m.Store(k, v) }

// LoadOrStore as in sync.
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	vsched.S("Map.LoadOrStore")
	return m.m.LoadOrStore(k, v)
}

// LoadAndDelete as in sync.
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	vsched.S("Map.LoadAndDelete")
	return m.m.LoadAndDelete(k)
}

// Delete as in sync.
func (m *Map) Delete(k interface{}) { vsched.S("Map.Delete"); m.m.Delete(k) }

// Swap as in sync.
func (m *Map) Swap(k, v interface{}) (interface{}, bool) { vsched.S("Map.Swap"); return m.m.Swap(k, v) }

// CompareAndSwap as in sync.
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	vsched.S("Map.CompareAndSwap")
	return m.m.CompareAndSwap(k, o, n)
}

// CompareAndDelete as in sync.
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	vsched.S("Map.CompareAndDelete")
	return m.m.CompareAndDelete(k, o)
}

// Range as in sync.
func (m *Map) Range(f func(k, v interface{}) bool) { vsched.S("Map.Range"); m.m.Range(f) }

// Clear as in sync.
func (m *Map) Clear() { vsched.S("Map.Clear"); m.m.Clear() }
