package vharness

import (
	"os"
	"runtime/pprof"
	"testing"
)

var theT *testing.T

// TestCheck runs the check selected by VERIF_PROP.  A *testing.T is needed
// because virtual time (testing/synctest) is only available under one.
func TestCheck(t *testing.T) {
	theT = t
	if os.Getenv("VERIF_C09_CHILD") != "" {
		c09ChildMain()
		os.Exit(0)
	}
	if f := os.Getenv("VERIF_PROFILE"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		rc := MainCheck()
		pprof.StopCPUProfile()
		os.Exit(rc)
	}
	os.Exit(MainCheck())
}
