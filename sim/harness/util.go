package harness

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/DataDog/orchestrion/internal/jobserver"
	"github.com/DataDog/orchestrion/internal/verifsim/sim"
)

var (
	realCore = []string{
		"orchestrion code of the working tree (instrumented only at yield points and seams)",
		"nats-server and nats.go client (real code, in-memory connections)",
	}
	stubCore = []string{
		"loopback TCP (in-memory pipes with drawn latencies and cuts)", "clock (testing/synctest bubble)",
		"file system calls (real files in a scratch directory behind the fault-injecting shim)", "process table, exec, signals (simulated processes)",
	}
)

// swarm draws the scheduling configuration of the run.
func swarm(w *sim.World) {
	w.Cfg.PreemptMean = sim.Pick(w, 0, 4, 12, 40, 150)
	w.Cfg.StallProb = sim.Pick(w, 0, 0, 150, 40)
	w.Cfg.StepCost = sim.Pick(w, 0, 100*time.Microsecond, 5*time.Millisecond)
	if w.Chance(3) {
		w.Net.Latency = func() time.Duration {
			return time.Duration(w.Choose(4)) * sim.Pick(w, 200*time.Microsecond, 15*time.Millisecond, 400*time.Millisecond)
		}
	}
}

// Server is a job server running as a simulated process.
type Server struct {
	Proc *sim.Proc
	S    *jobserver.Server
	URL  string
	Err  error
}

// startServer spawns a job server process and waits until it is ready, or failed to start.
func startServer(w *sim.World, opts *jobserver.Options, spec sim.Spec) *Server {
	res := &Server{}
	ready := make(chan struct{})
	if spec.Name == "" {
		spec.Name = "server"
	}
	spec.Env = sim.CurProc().Env
	closed := false
	done := func() {
		if !closed {
			closed = true
			close(ready)
		}
	}
	res.Proc = w.Spawn(spec, func(p *sim.Proc) int {
		s, err := jobserver.New(context.Background(), opts)
		if err != nil {
			w.Logf("server failed to start: %v", err)
			res.Err = err
			done()
			return 1
		}
		res.S = s
		res.URL = s.ClientURL()
		done()
		s.WaitForShutdown()
		w.Logf("server returned from WaitForShutdown")
		return 0
	})
	res.Proc.OnExit(done)
	sim.Recv(ready)
	return res
}

// group spawns processes and waits for all of them.
type group struct {
	w  *sim.World
	ps []*sim.Proc
}

func (g *group) spawn(name string, crashable bool, fn func(p *sim.Proc) int) *sim.Proc {
	p := g.w.Spawn(sim.Spec{Name: name, Dir: g.w.Root, Env: sim.CurProc().Env, Crashable: crashable}, fn)
	g.ps = append(g.ps, p)
	return p
}

func (g *group) wait() {
	for _, p := range g.ps {
		p.Wait()
	}
}

// rawWrite and rawRead access files of the scratch directory directly, without faults.
func rawWrite(path, data string) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, []byte(data), 0o644); err != nil {
		panic(err)
	}
}

func rawRead(path string) (string, bool) {
	data, err := os.ReadFile(path)
	return string(data), err == nil
}

func rawExists(path string) bool {
	_, err := os.Lstat(path)
	return err == nil
}

// listing returns the relative paths of the files below dir.
func listing(dir string) []string {
	var res []string
	_ = filepath.WalkDir(dir, func(path string, d os.DirEntry, err error) error {
		if err == nil && path != dir {
			rel, _ := filepath.Rel(dir, path)
			res = append(res, rel)
		}
		return nil
	})
	sort.Strings(res)
	return res
}

// content returns n bytes of recognizable data.
func content(tag string, n int) string {
	var b strings.Builder
	for i := 0; b.Len() < n; i++ {
		fmt.Fprintf(&b, "<%s:%06d>", tag, i)
	}
	return b.String()[:n]
}

func short(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%q...(%d bytes)", s[:60], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// bounded runs fn, and reports whether it returned within the given simulated time.
func bounded(d time.Duration, fn func()) bool {
	done := make(chan struct{})
	sim.GoNamed("bounded", func() {
		defer close(done)
		fn()
	})
	t := time.NewTimer(d)
	defer t.Stop()
	i, _, _ := sim.Select(false, sim.R(done), sim.R(t.C))
	return i == 0
}
