// Package simps replaces gopsutil's process package: the process table is the
// simulator's.
package simps

import (
	"context"
	"errors"

	"github.com/DataDog/orchestrion/internal/verifsim/sim"
)

type Process struct {
	Pid int32
	p   *sim.Proc
}

var ErrorProcessNotRunning = errors.New("process does not exist")

func NewProcess(pid int32) (*Process, error) { return NewProcessWithContext(context.Background(), pid) }

func NewProcessWithContext(_ context.Context, pid int32) (*Process, error) {
	sim.Point()
	w := sim.Active()
	if w == nil {
		return nil, ErrorProcessNotRunning
	}
	for _, p := range w.Procs() {
		if p.Pid == int(pid) && !p.Dead() {
			return &Process{pid, p}, nil
		}
	}
	return nil, ErrorProcessNotRunning
}

func (p *Process) alive() error {
	sim.Point()
	if p.p.Dead() {
		return ErrorProcessNotRunning
	}
	return nil
}

func (p *Process) Parent() (*Process, error) { return p.ParentWithContext(context.Background()) }

func (p *Process) ParentWithContext(ctx context.Context) (*Process, error) {
	if err := p.alive(); err != nil {
		return nil, err
	}
	par := p.p.Parent
	if par == nil || par.Dead() {
		return nil, ErrorProcessNotRunning // re-parented to init, whose details are not accessible
	}
	return &Process{int32(par.Pid), par}, nil
}

func (p *Process) PpidWithContext(ctx context.Context) (int32, error) {
	par, err := p.ParentWithContext(ctx)
	if err != nil {
		return 1, nil
	}
	return par.Pid, nil
}

func (p *Process) CmdlineSlice() ([]string, error) {
	return p.CmdlineSliceWithContext(context.Background())
}

func (p *Process) CmdlineSliceWithContext(context.Context) ([]string, error) {
	if err := p.alive(); err != nil {
		return nil, err
	}
	return append([]string(nil), p.p.Args...), nil
}

func (p *Process) Cwd() (string, error) { return p.CwdWithContext(context.Background()) }

func (p *Process) CwdWithContext(context.Context) (string, error) {
	if err := p.alive(); err != nil {
		return "", err
	}
	return p.p.Cwd, nil
}

func (p *Process) NameWithContext(context.Context) (string, error) { return p.p.Name, p.alive() }
