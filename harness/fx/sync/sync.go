// Package sync is the standard one with pauses around the locks' operations.
package sync

import (
	"sync"

	"vp/fx"
)

type (
	Locker    = sync.Locker
	Once      = sync.Once
	Pool      = sync.Pool
	Map       = sync.Map
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }

func OnceValues[T, U any](f func() (T, U)) func() (T, U) { return sync.OnceValues(f) }

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	fx.Pause()
	m.m.Lock()
	fx.Pause()
}

func (m *Mutex) TryLock() bool {
	fx.Pause()
	ok := m.m.TryLock()
	fx.Pause()
	return ok
}

func (m *Mutex) Unlock() {
	fx.Pause()
	m.m.Unlock()
	fx.Pause()
}

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	fx.Pause()
	m.m.Lock()
	fx.Pause()
}

func (m *RWMutex) TryLock() bool {
	fx.Pause()
	ok := m.m.TryLock()
	fx.Pause()
	return ok
}

func (m *RWMutex) Unlock() {
	fx.Pause()
	m.m.Unlock()
	fx.Pause()
}

func (m *RWMutex) RLock() {
	fx.Pause()
	m.m.RLock()
	fx.Pause()
}

func (m *RWMutex) TryRLock() bool {
	fx.Pause()
	ok := m.m.TryRLock()
	fx.Pause()
	return ok
}

func (m *RWMutex) RUnlock() {
	fx.Pause()
	m.m.RUnlock()
	fx.Pause()
}

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }
