//go:build race

package vsched

import "runtime"

// The handover between threads must not be a synchronisation in the eyes of the
// race detector, which is to judge the synchronisation that mint does itself.
type signal struct{ run *int32 }

func newSignal() signal { return signal{new(int32)} }

//go:norace
func (s signal) wait() {
	for *s.run == 0 {
		runtime.Gosched()
	}
	*s.run = 0
}

//go:norace
func (s signal) wake() { *s.run = 1 }
