package sim

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// FS holds the fault plan applied to file system (and process) operations.
// Files live in a real scratch directory; every operation of the code under
// test goes through the simos shim, which consults this plan.
type FS struct {
	w   *World
	Cfg FaultCfg

	gap   int64
	armed bool
	fired int
	Chunk int // size of I/O chunks between which other tasks may run
	Locks WaitQueue
	// HoldsLock tells which descriptors hold a flock(2) lock.
	HoldsLock map[int]bool
	tmpSeq    int
	// Ops counts operations by name.
	Ops int
	// Record, when set, is called for every operation (after the decision to
	// inject a fault): used by oracles that observe I/O.
	Record func(p *Proc, op, path string, fault string)
	// Force injects a fault at a specific operation; takes precedence over the random plan.
	Force func(p *Proc, op, path string) string
}

// FaultCfg is the swarm configuration of faults for a run.
type FaultCfg struct {
	Mean   int // mean number of eligible operations between faults; 0: no faults
	Max    int // maximum number of faults in the run
	Kinds  map[string]bool
	Filter func(p *Proc, op, path string) bool
}

func newFS(w *World) *FS { return &FS{w: w, Chunk: 32 * 1024, HoldsLock: map[int]bool{}} }

// Fired returns the number of faults injected so far.
func (fs *FS) Fired() int { return fs.fired }

// applicable lists fault kinds by operation.
var applicable = map[string][]string{
	"open":    {"err", "crash", "delay"},
	"create":  {"err", "crash", "delay"},
	"read":    {"err", "short", "bad", "crash"},
	"write":   {"err", "short", "crash", "torn"},
	"close":   {"err", "crash"},
	"rename":  {"err", "crash", "crash-after"},
	"remove":  {"err", "crash", "crash-after"},
	"mkdir":   {"err", "crash"},
	"stat":    {"err"},
	"readdir": {"err"},
	"link":    {"err", "crash"},
	"flock":   {"err", "delay", "crash"},
	"seek":    {"err"},
	"exec":    {"err", "crash", "delay"},
	"step":    {"crash"},
}

// Op is called by shims before executing an operation. It is a yield point and
// returns the fault to apply ("" for none). Crash faults are applied here.
func (fs *FS) Op(p *Proc, op, path string) string {
	Point()
	fs.Ops++
	if debugSched {
		fmt.Fprintf(os.Stderr, "op %s %s by process %d\n", op, path, p.Idx)
	}
	kind := ""
	if fs.Force != nil {
		kind = fs.Force(p, op, path)
	}
	if kind == "" {
		kind = fs.draw(p, op, path)
	}
	if kind != "" {
		fs.fired++
		fs.w.Count("fault:" + op + ":" + kind)
		fs.w.Logf("fault %s on %s %s (process %d)", kind, op, path, p.Idx)
	}
	if fs.Record != nil {
		fs.Record(p, op, path, kind)
	}
	switch kind {
	case "crash":
		p.Kill("crash before " + op + " " + filepath.Base(path))
	case "delay":
		Sleep(time.Duration(Pick(fs.w, 1, 10, 1000, 20000)) * time.Millisecond)
		return ""
	}
	return kind
}

func (fs *FS) draw(p *Proc, op, path string) string {
	if fs.Cfg.Mean <= 0 || fs.fired >= fs.Cfg.Max || p.NoFaults || p.Idx == 0 {
		return ""
	}
	var kinds []string
	for _, k := range applicable[op] {
		if !fs.Cfg.Kinds[k] {
			continue
		}
		if (k == "crash" || k == "crash-after" || k == "torn") && !p.Crashable {
			continue
		}
		kinds = append(kinds, k)
	}
	if len(kinds) == 0 || (fs.Cfg.Filter != nil && !fs.Cfg.Filter(p, op, path)) {
		return ""
	}
	if !fs.armed {
		fs.armed = true
		fs.gap = fs.w.gapDraw(fs.Cfg.Mean)
	}
	if fs.gap == 0 {
		return ""
	}
	fs.gap--
	if fs.gap > 0 {
		return ""
	}
	fs.gap = fs.w.gapDraw(fs.Cfg.Mean)
	return kinds[fs.w.Choose(len(kinds))]
}

// Contained returns true when a path is inside of this run's scratch directory.
// Mutating operations outside of it are never executed.
func (fs *FS) Contained(path string) bool {
	path = filepath.Clean(path)
	root := fs.w.Root
	return path == os.DevNull || strings.HasPrefix(path, root+string(filepath.Separator))
}

// NextTemp returns a deterministic sequence number for temporary names.
func (fs *FS) NextTemp() int {
	fs.tmpSeq++
	return fs.tmpSeq
}
