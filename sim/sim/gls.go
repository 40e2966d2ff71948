// Package sim is a deterministic simulator for orchestrion: it owns the
// scheduling of every instrumented goroutine, the clock (through
// testing/synctest), simulated processes, file system faults and the network.
//
// The code under test reaches it through the shim packages (simos, simsync,
// ...) that the instrumenter substitutes for the standard library packages.
package sim

import (
	"runtime"
	"sync"
	"unsafe"
)

//go:linkname getProfLabel runtime/pprof.runtime_getProfLabel
func getProfLabel() unsafe.Pointer

//go:linkname setProfLabel runtime/pprof.runtime_setProfLabel
func setProfLabel(unsafe.Pointer)

// taskLabel starts with a slice of key/value pairs so that it is laid out like
// runtime/pprof's label set, should the runtime ever look into it. Goroutines
// inherit the label of their creator, which is how goroutines created by
// un-instrumented code (NATS) are attributed to a simulated process.
type taskLabel struct {
	list []struct{ key, value string }
	t    *Task
}

// self returns the task of the calling goroutine, or nil if the goroutine has
// nothing to do with the current world.
func self() *Task {
	p := getProfLabel()
	if p == nil {
		return lostLabel()
	}
	t := (*taskLabel)(p).t
	if t == nil || t.w != active.Load() {
		return nil
	}
	return t
}

// LabelsGetLost is set by scenarios in which un-instrumented code resets the
// labels of the goroutine that calls it (finishing a span does so).
func (w *World) LabelsGetLost() { w.labelLoss.Store(true) }

var byGoID sync.Map // of goroutine identifiers to tasks

func goID() string {
	var buf [40]byte
	n := runtime.Stack(buf[:], false)
	const prefix = len("goroutine ")
	for i := prefix; i < n; i++ {
		if buf[i] == ' ' {
			return string(buf[prefix:i])
		}
	}
	return ""
}

func lostLabel() *Task {
	w := active.Load()
	if w == nil || !w.labelLoss.Load() {
		return nil
	}
	v, ok := byGoID.Load(goID())
	if !ok {
		return nil
	}
	t := v.(*Task)
	if t.w != w {
		return nil
	}
	setProfLabel(ptr(&taskLabel{t: t}))
	return t
}
