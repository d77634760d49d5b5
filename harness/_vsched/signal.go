//go:build !race

package vsched

type signal chan struct{}

func newSignal() signal { return make(signal, 1) }

func (s signal) wait() { <-s }

func (s signal) wake() {
	select {
	case s <- struct{}{}:
	default:
	}
}
