//go:build vsched

package vharness

import (
	"unsafe"

	"github.com/bifurcation/mint/vsched"
)

//go:linkname getProfLabel runtime/pprof.runtime_getProfLabel
func getProfLabel() unsafe.Pointer

//go:linkname setProfLabel runtime/pprof.runtime_setProfLabel
func setProfLabel(p unsafe.Pointer)

func init() {
	vsched.GetLabel, vsched.SetLabel = getProfLabel, setProfLabel
}
