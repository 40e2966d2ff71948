// Package simerrgroup replaces golang.org/x/sync/errgroup in instrumented code.
package simerrgroup

import (
	"context"

	"github.com/DataDog/orchestrion/internal/verifsim/sim"
	"github.com/DataDog/orchestrion/internal/verifsim/simsync"
)

// Group replaces errgroup.Group.
type Group struct {
	cancel  func(error)
	wg      simsync.WaitGroup
	sem     chan struct{}
	errOnce simsync.Once
	err     error
}

func WithContext(ctx context.Context) (*Group, context.Context) {
	ctx, cancel := context.WithCancelCause(ctx)
	return &Group{cancel: cancel}, ctx
}

func (g *Group) done() {
	if g.sem != nil {
		sim.Recv(g.sem)
	}
	g.wg.Done()
}

func (g *Group) Wait() error {
	g.wg.Wait()
	if g.cancel != nil {
		g.cancel(g.err)
	}
	return g.err
}

func (g *Group) start(f func() error) {
	g.wg.Add(1)
	sim.Go(func() {
		defer g.done()
		if err := f(); err != nil {
			g.errOnce.Do(func() {
				g.err = err
				if g.cancel != nil {
					g.cancel(g.err)
				}
			})
		}
	})
}

func (g *Group) Go(f func() error) {
	if g.sem != nil {
		sim.Send(g.sem)(struct{}{})
	}
	g.start(f)
}

func (g *Group) TryGo(f func() error) bool {
	if g.sem != nil {
		select {
		case g.sem <- struct{}{}:
		default:
			return false
		}
	}
	g.start(f)
	return true
}

func (g *Group) SetLimit(n int) {
	if n < 0 {
		g.sem = nil
		return
	}
	g.sem = make(chan struct{}, n)
}
