// Package vsync stands in for package sync in instrumented builds of mint.
package vsync

import (
	"sync"

	"github.com/bifurcation/mint/vsched"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Pool      = sync.Pool
	Map       = sync.Map
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type Mutex struct {
	m    sync.Mutex
	held bool
}

//go:norace
func (m *Mutex) free() bool { return !m.held }

//go:norace
func (m *Mutex) set(b bool) { m.held = b }

func (m *Mutex) Lock() {
	if vsched.Controlled() {
		vsched.Wait(m.free)
		m.set(true)
	}
	m.m.Lock()
	m.set(true)
}

func (m *Mutex) TryLock() bool {
	vsched.Point()
	if m.m.TryLock() {
		m.set(true)
		return true
	}
	return false
}

func (m *Mutex) Unlock() {
	m.set(false)
	m.m.Unlock()
	vsched.Point()
}

type RWMutex struct {
	m       sync.RWMutex
	readers int
	writer  bool
}

//go:norace
func (m *RWMutex) free() bool { return !m.writer && m.readers == 0 }

//go:norace
func (m *RWMutex) readable() bool { return !m.writer }

//go:norace
func (m *RWMutex) set(w bool, r int) { m.writer = w; m.readers += r }

func (m *RWMutex) Lock() {
	if vsched.Controlled() {
		vsched.Wait(m.free)
	}
	m.m.Lock()
	m.set(true, 0)
}

func (m *RWMutex) Unlock() {
	m.set(false, 0)
	m.m.Unlock()
	vsched.Point()
}

func (m *RWMutex) RLock() {
	if vsched.Controlled() {
		vsched.Wait(m.readable)
	}
	m.m.RLock()
	m.set(false, 1)
}

func (m *RWMutex) RUnlock() {
	m.set(false, -1)
	m.m.RUnlock()
	vsched.Point()
}

func (m *RWMutex) TryLock() bool {
	vsched.Point()
	if m.m.TryLock() {
		m.set(true, 0)
		return true
	}
	return false
}

func (m *RWMutex) TryRLock() bool {
	vsched.Point()
	if m.m.TryRLock() {
		m.set(false, 1)
		return true
	}
	return false
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
