// Package simcontext replaces the functions of package context that start goroutines.
package simcontext

import (
	"context"
	"sync/atomic"

	"github.com/DataDog/orchestrion/internal/verifsim/sim"
)

func AfterFunc(ctx context.Context, f func()) func() bool {
	if !sim.Managed() {
		return context.AfterFunc(ctx, f)
	}
	var state atomic.Bool
	stop := make(chan struct{})
	sim.GoNamed("afterfunc", func() {
		i, _, _ := sim.Select(false, sim.R(stop), sim.R(ctx.Done()))
		if i == 1 && state.CompareAndSwap(false, true) {
			f()
		}
	})
	return func() bool {
		if state.CompareAndSwap(false, true) {
			close(stop)
			return true
		}
		return false
	}
}
