// Package simtime replaces parts of package time in instrumented code; the
// clock itself is the fake clock of testing/synctest.
package simtime

import (
	"time"

	"github.com/DataDog/orchestrion/internal/verifsim/sim"
)

func Sleep(d time.Duration) { sim.Sleep(d) }

// AfterFunc runs f as a task of the calling process.
func AfterFunc(d time.Duration, f func()) *time.Timer {
	w, p := sim.Active(), sim.CurProc()
	if w == nil || p == nil {
		return time.AfterFunc(d, f)
	}
	return time.AfterFunc(d, func() {
		if sim.Active() == w && !p.Dead() {
			w.Logf("timer fired in process %d", p.Idx)
			w.StartIn(p, "timer", f)
		}
	})
}
