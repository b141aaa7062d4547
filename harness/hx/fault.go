//go:build go1.24 && !js

package hx

import "os"

// SetFaults arms the mmap stand-in (harness/faultmmap), which reads the plan
// from the environment. Without the stand-in this does nothing.
func SetFaults(plan string) {
	if plan != "" {
		os.Setenv("ZZ_MMAP_FAULTS", plan)
	}
}
