package simos

import (
	"fmt"
	"os"

	"github.com/DataDog/orchestrion/internal/verifsim/sim"
)

// Process replaces os.Process.
type Process struct {
	Pid      int
	P        *sim.Proc
	Reaped   bool
	Released bool
}

func FindProcess(pid int) (*Process, error) {
	w := sim.Active()
	if w == nil {
		return nil, os.ErrProcessDone
	}
	for _, p := range w.Procs() {
		if p.Pid == pid {
			return &Process{Pid: pid, P: p}, nil
		}
	}
	return &Process{Pid: pid, Reaped: true}, nil
}

func (p *Process) Kill() error {
	if sim.Unwinding() {
		return errKilled
	}
	if p.Reaped || p.Released {
		return os.ErrProcessDone
	}
	if !p.P.Dead() {
		p.P.World().Count("kill")
		p.P.Kill("killed by process")
	}
	return nil
}

func (p *Process) Signal(sig os.Signal) error {
	if p.Reaped || p.Released {
		return os.ErrProcessDone
	}
	if sig == os.Kill {
		return p.Kill()
	}
	p.P.Signal(sig.String())
	return nil
}

func (p *Process) Release() error {
	p.Released = true
	return nil
}

func (p *Process) Wait() (*ProcessState, error) {
	p.P.Wait()
	p.Reaped = true
	return &ProcessState{p.P}, nil
}

// ProcessState replaces os.ProcessState.
type ProcessState struct{ P *sim.Proc }

func (s *ProcessState) ExitCode() int {
	if s == nil {
		return -1
	}
	return s.P.ExitCode
}
func (s *ProcessState) Exited() bool  { return s.P.ExitCode >= 0 }
func (s *ProcessState) Success() bool { return s.P.ExitCode == 0 }
func (s *ProcessState) Pid() int      { return s.P.Pid }
func (s *ProcessState) String() string {
	if s == nil {
		return "<nil>"
	}
	if s.P.ExitCode < 0 {
		return "signal: killed"
	}
	return fmt.Sprintf("exit status %d", s.P.ExitCode)
}
