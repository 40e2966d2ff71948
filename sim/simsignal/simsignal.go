// Package simsignal replaces os/signal: signals are those sent to simulated processes.
package simsignal

import (
	"context"
	"os"
	"os/signal"

	"github.com/DataDog/orchestrion/internal/verifsim/sim"
)

type sig string

func (s sig) String() string { return string(s) }
func (s sig) Signal()        {}

func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	p := sim.CurProc()
	if p == nil {
		return
	}
	if len(sigs) == 0 {
		p.AddSignalHandler("", c, func(name string) {
			select {
			case c <- sig(name):
			default:
			}
		})
	}
	for _, s := range sigs {
		p.AddSignalHandler(s.String(), c, func(name string) {
			select {
			case c <- s:
			default:
			}
		})
	}
}

func Stop(c chan<- os.Signal) {
	if p := sim.CurProc(); p != nil && !sim.Unwinding() {
		p.RemoveSignalHandlers(c)
	}
}

func Ignore(sigs ...os.Signal) {
	if p := sim.CurProc(); p != nil {
		for _, s := range sigs {
			p.AddSignalHandler(s.String(), "ignore", func(string) {})
		}
	}
}

func NotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	p := sim.CurProc()
	if p == nil {
		return signal.NotifyContext(parent, sigs...)
	}
	ctx, cancel := context.WithCancel(parent)
	key := new(int)
	for _, s := range sigs {
		p.AddSignalHandler(s.String(), key, func(string) { cancel() })
	}
	return ctx, func() {
		cancel()
		p.RemoveSignalHandlers(key)
	}
}
