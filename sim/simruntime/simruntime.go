// Package simruntime replaces the scheduling functions of package runtime.
package simruntime

import (
	"runtime"

	"github.com/DataDog/orchestrion/internal/verifsim/sim"
)

func Gosched() {
	if sim.Managed() {
		sim.Quiesce()
		return
	}
	runtime.Gosched()
}

func NumCPU() int          { return 4 }
func GOMAXPROCS(n int) int { return 4 }
