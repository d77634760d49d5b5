// Package vsched is the controlled scheduler that instrumented builds of mint
// call: one thread of an execution runs at a time, and a switch happens where
// the schedule says so.  Goroutines that are not under control are not affected.
package vsched

import (
	"runtime/debug"
	"time"
	"unsafe"
)

// The label that the runtime keeps for profilers says which thread a goroutine
// is.  (The harness sets these, which takes a linkname.)
var (
	GetLabel = func() unsafe.Pointer { return nil }
	SetLabel = func(p unsafe.Pointer) {}
)

// A Dev is a deviation from running the current thread for as long as it can
// run: at choice number At, thread To goes on.
type Dev struct{ At, To int }

// A Choice is where another thread could have gone on.
type Choice struct {
	At   int
	To   int
	Free bool // the current thread could not go on anyway
}

type thread struct {
	_    [8]uintptr // what a profiler takes for an empty set of labels
	ex   *Exec
	id   int
	sig  signal
	cond func() bool
	done bool
}

// An Exec is one execution.
type Exec struct {
	Devs     []Dev
	Choices  []Choice
	Steps    int
	Deadlock bool
	Diverged bool
	Trace    []int32 // thread per switch: at, thread
	Panics   []interface{}
	Stacks   []string

	threads []*thread
	dev     int
	cur     int
	abort   bool
	now     time.Time
}

type aborted struct{}

func self() *thread { return (*thread)(GetLabel()) }

// Now is the time; it stands still during an execution, so that no timer goes
// off because the machine is slow.
func Now() time.Time {
	if t := self(); t != nil {
		return t.ex.now
	}
	return time.Now()
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Detach takes the calling goroutine out of the control of the scheduler.
func Detach() { SetLabel(nil) }

// Controlled tells if the calling goroutine is under control.
func Controlled() bool { return self() != nil }

//go:norace
func (ex *Exec) enabled(t *thread) bool {
	return !t.done && (t.cond == nil || t.cond())
}

// pick decides who goes on.  me is the thread that could go on, or -1.
//
//go:norace
func (ex *Exec) pick(me int) int {
	ex.Steps++
	if ex.dev < len(ex.Devs) && ex.Devs[ex.dev].At == ex.Steps {
		to := ex.Devs[ex.dev].To
		ex.dev++
		if to < len(ex.threads) && ex.enabled(ex.threads[to]) {
			return to
		}
		ex.Diverged = true
	}
	next := me
	for i, t := range ex.threads {
		if i == me || !ex.enabled(t) {
			continue
		}
		if next < 0 {
			next = i
			continue
		}
		if ex.dev == len(ex.Devs) {
			ex.Choices = append(ex.Choices, Choice{ex.Steps, i, me < 0})
		}
	}
	return next
}

//go:norace
func (t *thread) point() {
	ex := t.ex
	if ex.abort {
		return
	}
	if n := ex.pick(t.id); n != t.id {
		ex.switchTo(n)
		t.sig.wait()
		if ex.abort {
			panic(aborted{})
		}
	}
}

//go:norace
func (ex *Exec) switchTo(n int) {
	if len(ex.Trace) < 200 {
		ex.Trace = append(ex.Trace, int32(ex.Steps), int32(n))
	}
	ex.cur = n
	ex.threads[n].cond = nil
	ex.threads[n].sig.wake()
}

// Point is where the scheduler may switch.
//
//go:norace
func Point() {
	if t := self(); t != nil {
		t.point()
	}
}

// Wait blocks the calling thread until cond, which the other threads make true.
// It tells if it did so: not so when the caller is not under control.
//
//go:norace
func Wait(cond func() bool) bool {
	t := self()
	if t == nil || t.ex.abort {
		return false
	}
	t.point()
	for !cond() {
		ex := t.ex
		t.cond = cond
		n := ex.pick(-1)
		if n < 0 {
			ex.deadlock()
		} else if n != t.id {
			ex.switchTo(n)
		} else {
			t.cond = nil
			continue
		}
		t.sig.wait()
		if ex.abort {
			panic(aborted{})
		}
	}
	t.cond = nil
	return true
}

//go:norace
func (ex *Exec) deadlock() {
	ex.Deadlock = true
	ex.kill()
}

//go:norace
func (ex *Exec) kill() {
	ex.abort = true
	for _, t := range ex.threads {
		if !t.done {
			t.sig.wake()
		}
	}
}

//go:norace
func (t *thread) end(r interface{}) {
	ex := t.ex
	if _, ok := r.(aborted); !ok && r != nil {
		ex.Panics[t.id] = r
		ex.Stacks[t.id] = string(debug.Stack())
	}
	t.done = true
	if ex.abort {
		return
	}
	n := ex.pick(-1)
	if n >= 0 {
		ex.switchTo(n)
		return
	}
	for _, t := range ex.threads {
		if !t.done {
			ex.deadlock()
			return
		}
	}
}

// Run runs the functions as threads of one execution, to the end.
func (ex *Exec) Run(fs ...func()) {
	done := make(chan bool, len(fs))
	ex.now = time.Now()
	ex.Panics = make([]interface{}, len(fs))
	ex.Stacks = make([]string, len(fs))
	for i := range fs {
		ex.threads = append(ex.threads, &thread{ex: ex, id: i, sig: newSignal()})
	}
	for i, f := range fs {
		t, f := ex.threads[i], f
		go func() {
			defer func() { done <- true }()
			defer SetLabel(nil)
			t.sig.wait()
			defer func() { t.end(recover()) }()
			if ex.abort {
				return
			}
			SetLabel(unsafe.Pointer(t))
			f()
		}()
	}
	ex.switchTo(ex.pick(-1))
	for range fs {
		<-done
	}
}

// Finished tells which threads have come to their end.
func (ex *Exec) Finished() (l []bool) {
	for _, t := range ex.threads {
		l = append(l, t.done)
	}
	return
}
