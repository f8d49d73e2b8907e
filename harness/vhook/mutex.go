package vhook

import (
	"runtime"
	"sync"
)

// Mutex and RWMutex work like those of package sync, but a contended lock
// under the controlled scheduler lets the paused observers finish.
type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	acquire(m.mu.TryLock, m.mu.Lock, true)
}
func (m *Mutex) TryLock() bool { return m.mu.TryLock() }
func (m *Mutex) Unlock()       { release(true); m.mu.Unlock() }

type RWMutex struct{ mu sync.RWMutex }

func (m *RWMutex) Lock()          { acquire(m.mu.TryLock, m.mu.Lock, true) }
func (m *RWMutex) TryLock() bool  { return m.mu.TryLock() }
func (m *RWMutex) Unlock()        { release(true); m.mu.Unlock() }
func (m *RWMutex) RLock()         { acquire(m.mu.TryRLock, m.mu.RLock, false) }
func (m *RWMutex) TryRLock() bool { return m.mu.TryRLock() }
func (m *RWMutex) RUnlock()       { release(false); m.mu.RUnlock() }
func (m *RWMutex) RLocker() sync.Locker {
	return rlocker{m}
}

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()   { l.m.RLock() }
func (l rlocker) Unlock() { l.m.RUnlock() }

func acquire(try func() bool, lock func(), excl bool) {
	r := owner()
	if r == nil || r.Sched == nil {
		lock()
		return
	}
	r.Sched.acquire(r, try, lock, excl)
}
func release(excl bool) {
	r := owner()
	if r == nil || r.Sched == nil {
		return
	}
	r.Sched.release(r, excl)
}

var _ = runtime.Goexit
