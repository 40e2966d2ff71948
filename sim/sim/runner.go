package sim

import (
	"os"
	"path/filepath"
	"testing/synctest"
	"time"
)

// Scenario is a simulated workload with its oracle.
type Scenario struct {
	Name     string
	Property string
	Run      func(w *World)
	// Real and Stub describe which components ran real code and which were stubbed.
	Real, Stub []string
	// StuckIsInfra: a run in which nothing can make progress any more is an
	// infrastructure error rather than a violation of the property (liveness).
	StuckIsInfra bool
}

// Result is the outcome of a run.
type Result struct {
	Scenario   string
	Seed       uint64
	Choices    []uint32
	Violations []Violation
	Stuck      string
	Truncated  bool
	Steps      int
	SimTime    time.Duration
	TraceHash  uint64
	SchedHash  uint64
	Counters   map[string]int64
	Events     []Event
	Faults     int
	NChoices   int
}

// RunOne executes a scenario with the provided choices. It must be called from
// within a synctest bubble, by the bubble's main goroutine.
func RunOne(sc *Scenario, ch *Choices, scratch string) *Result {
	snapshotPristine()

	root := filepath.Join(scratch, "run")
	if err := os.MkdirAll(filepath.Join(root, "tmp"), 0o755); err != nil {
		panic(err)
	}
	defer os.RemoveAll(root)
	w := newWorld(ch, root)
	active.Store(w)
	p0 := w.newProc(Spec{Name: "harness", Args: []string{"harness"}, Dir: root, NoFaults: true, Env: []string{"PATH=/sim/bin", "HOME=" + filepath.Join(root, "home"), "TMPDIR=" + filepath.Join(root, "tmp")}}, nil)
	w.swapGlobals(p0)
	w.main = w.startTask(p0, nil, "main", func() { sc.Run(w) })
	w.run()

	res := &Result{
		Scenario: sc.Name, Truncated: w.trunc, Steps: w.steps, SimTime: w.Now(),
	}
	w.mu.Lock()
	stuck := w.stuck
	w.mu.Unlock()
	if stuck != "" {
		res.Stuck = stuck
		if !sc.StuckIsInfra && p0.Panic == "" {
			class := "stuck"
			if w.trunc {
				class = "no-termination"
			}
			w.Violate(sc.Property, class, "the system makes no further progress: %s", stuck)
			res.Stuck = ""
		}
	}
	for _, p := range w.procs[1:] {
		if p.Panic != "" && !p.PanicExpected {
			w.Violate(sc.Property, "panic", "process %d (%s) panicked: %s", p.Idx, p.Name, p.Panic)
		}
	}
	// Tear down: every simulated process is terminated.
	w.quiet = true
	for _, p := range w.procs {
		if !p.dead {
			p.die(-9, "end of run")
		}
	}
	synctest.Wait()
	active.Store(nil)
	restorePristine()
	res.Choices = ch.Recorded
	res.NChoices = len(ch.Recorded)
	res.Violations = w.violations
	res.TraceHash = w.traceHash
	res.SchedHash = w.schedHash
	res.Counters = w.Counters
	res.Events = w.events
	res.Faults = w.FS.fired
	return res
}
