// Package harness contains the simulated workloads and their oracles.
package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/rs/zerolog"
	zlog "github.com/rs/zerolog/log"
	"github.com/urfave/cli/v2"

	"github.com/DataDog/orchestrion/internal/binpath"
	"github.com/DataDog/orchestrion/internal/verifsim/sim"
	"github.com/DataDog/orchestrion/internal/verifsim/simos"
)

var scenarios = map[string]*sim.Scenario{}

func register(sc *sim.Scenario) { scenarios[sc.Name] = sc }

// realNow is the wall clock, which is not simulated.
func realNow() float64 {
	var ts syscall.Timespec
	_, _, errno := syscall.RawSyscall(syscall.SYS_CLOCK_GETTIME, 1, uintptr(ptrTS(&ts)), 0)
	if errno != 0 {
		panic(errno)
	}
	return float64(ts.Sec) + float64(ts.Nsec)/1e9
}

// procStderr writes to the standard error of the current process.
type procStderr struct{}

func (procStderr) Write(b []byte) (int, error) {
	if sim.Active() != nil && sim.CurProc() != nil {
		return sim.CurProc().Stderr.Write(b)
	}
	return len(b), nil
}

type options struct {
	mode      string // run, replay, list, bench
	scenario  string
	seed      uint64
	count     int
	until     float64 // seconds of wall clock
	out       string
	replay    string
	replayDir string
	verbose   bool
	minimize  float64
	known     string
}

var opt options

// Replay is the file that reproduces a violation exactly.
type Replay struct {
	Property  string         `json:"property"`
	Scenario  string         `json:"scenario"`
	Seed      uint64         `json:"seed"`
	Violation *sim.Violation `json:"violation"`
	Slot      string         `json:"slot"`
	SeedOnly  bool           `json:"seed_only,omitempty"`
	TraceHash string         `json:"trace_hash"`
	Steps     int            `json:"steps"`
	SimTime   string         `json:"sim_time"`
	Original  int            `json:"original_choices"`
	Nonzero   int            `json:"nonzero_choices"`
	Choices   []uint32       `json:"choices"`
	Trace     []string       `json:"trace"`
}

// Output is what a worker reports.
type Output struct {
	Scenario   string            `json:"scenario"`
	Property   string            `json:"property"`
	Runs       int               `json:"runs"`
	WallS      float64           `json:"wall_s"`
	SimS       float64           `json:"sim_s"`
	Steps      int64             `json:"steps"`
	MaxSteps   int               `json:"max_steps"`
	Choices    int64             `json:"choices"`
	Faults     int64             `json:"faults"`
	Truncated  int               `json:"truncated"`
	Counters   map[string]int64  `json:"counters"`
	SchedHash  []string          `json:"sched_hashes"`
	TraceHash  []string          `json:"trace_hashes"`
	Digests    map[string]string `json:"digests"`    // seed -> trace hash, sample for determinism checks
	Violations []string          `json:"violations"` // replay files
	Classes    map[string]int    `json:"classes"`
	Infra      []string          `json:"infra"`
	NextSeed   uint64            `json:"next_seed"`
	Real       []string          `json:"real"`
	Stub       []string          `json:"stub"`
	Samples    []string          `json:"samples"`
}

func setup(args []string) {
	debug.SetGCPercent(400)
	opt = options{mode: "run", count: 1, minimize: 60}
	for _, a := range args {
		k, v, _ := strings.Cut(strings.TrimLeft(a, "-"), "=")
		switch k {
		case "mode":
			opt.mode = v
		case "scenario":
			opt.scenario = v
		case "seed":
			opt.seed, _ = strconv.ParseUint(v, 10, 64)
		case "count":
			opt.count, _ = strconv.Atoi(v)
		case "until":
			opt.until, _ = strconv.ParseFloat(v, 64)
		case "minimize":
			opt.minimize, _ = strconv.ParseFloat(v, 64)
		case "out":
			opt.out = v
		case "replay":
			opt.replay = v
			opt.mode = "replay"
		case "replay-dir":
			opt.replayDir = v
		case "known":
			opt.known = v
		case "v":
			opt.verbose = true
		default:
			fmt.Fprintln(os.Stderr, "unknown argument", a)
			os.Exit(3)
		}
	}
	// The real NATS server would start this goroutine from within the bubble.
	signal.Notify(make(chan os.Signal, 1), syscall.SIGUSR2)
	runtime.GOMAXPROCS(2)

	zlog.Logger = zerolog.Nop()
	cli.OsExiter = simos.Exit
	cli.ErrWriter = procStderr{}
	binpath.Orchestrion = "/sim/bin/orchestrion"
}

// lockSlot returns a scratch directory no other worker uses; its name always
// has the same length, as paths influence what the code under test does.
func lockSlot(prefer string) string {
	try := func(path string) bool {
		if err := os.MkdirAll(path, 0o755); err != nil {
			return false
		}
		f, err := os.OpenFile(filepath.Join(path, "lock"), os.O_CREATE|os.O_RDWR, 0o644)
		if err != nil {
			return false
		}
		if err := syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB); err != nil {
			f.Close()
			return false
		}
		// The previous owner may have removed the file in the meantime.
		mine, err1 := f.Stat()
		now, err2 := os.Stat(f.Name())
		if err1 != nil || err2 != nil || !os.SameFile(mine, now) {
			f.Close()
			return false
		}
		_ = os.RemoveAll(filepath.Join(path, "run"))
		slotLock = f // keep it open
		return true
	}
	if prefer != "" && try(prefer) {
		return prefer
	}
	for _, base := range []string{"/dev/shm", os.TempDir()} {
		for i := range 512 {
			path := fmt.Sprintf("%s/vsim-%03d", base, i)
			if try(path) {
				return path
			}
		}
	}
	panic("no scratch slot")
}

func work() int {
	switch opt.mode {
	case "list":
		var names []string
		for n := range scenarios {
			names = append(names, n)
		}
		sort.Strings(names)
		type info struct {
			Name, Property string
			Real, Stub     []string
		}
		var infos []info
		for _, n := range names {
			infos = append(infos, info{n, scenarios[n].Property, scenarios[n].Real, scenarios[n].Stub})
		}
		data, _ := json.Marshal(infos)
		fmt.Println(string(data))
		return 0
	case "replay":
		return replay()
	}
	return explore()
}

var slotLock *os.File

// cleanSlot removes the scratch directory; the lock goes last.
func cleanSlot(slot string) {
	_ = os.RemoveAll(filepath.Join(slot, "run"))
	_ = os.Remove(filepath.Join(slot, "lock"))
	_ = os.Remove(slot)
}

func explore() int {
	sc := scenarios[opt.scenario]
	if sc == nil {
		fmt.Fprintln(os.Stderr, "unknown scenario", opt.scenario)
		return 3
	}
	slot := lockSlot("")
	defer cleanSlot(slot)
	start := realNow()
	out := &Output{Scenario: sc.Name, Property: sc.Property, Counters: map[string]int64{}, Digests: map[string]string{}, Classes: map[string]int{}, Real: sc.Real, Stub: sc.Stub}
	sched, trace := map[uint64]bool{}, map[uint64]bool{}
	known := loadKnown(opt.known)
	seed := opt.seed
	for i := 0; i < opt.count; i++ {
		if opt.until > 0 && realNow()-start > opt.until {
			break
		}
		res := sim.RunOne(sc, sim.SeededChoices(seed), slot)
		res.Seed = seed
		out.Runs++
		out.SimS += res.SimTime.Seconds()
		out.Steps += int64(res.Steps)
		out.Choices += int64(res.NChoices)
		out.Faults += int64(res.Faults)
		if res.Truncated {
			out.Truncated++
		}
		for k, v := range res.Counters {
			out.Counters[k] += v
		}
		out.MaxSteps = max(out.MaxSteps, res.Steps)
		nontrivial := res.Faults > 0
		for _, c := range res.Choices {
			nontrivial = nontrivial || c != 0
		}
		if nontrivial {
			sched[res.SchedHash] = true
			trace[res.TraceHash] = true
		}
		if i < 24 || os.Getenv("VERIF_DIGESTS") != "" {
			out.Digests[fmt.Sprint(seed)] = fmt.Sprintf("%016x", res.TraceHash)
		}
		if i < 2 {
			out.Samples = append(out.Samples, sample(res))
		}
		if opt.verbose {
			for _, e := range res.Events {
				fmt.Printf("%6d %12v %s\n", e.Seq, e.At, e.Text)
			}
			fmt.Printf("seed %d: steps=%d choices=%d sim=%v faults=%d stuck=%q trace=%016x sched=%016x counters=%v\n", seed, res.Steps, res.NChoices, res.SimTime, res.Faults, res.Stuck, res.TraceHash, res.SchedHash, res.Counters)
		}
		if res.Stuck != "" && !res.Truncated {
			out.Infra = append(out.Infra, fmt.Sprintf("seed %d: %s", seed, res.Stuck))
			if len(out.Infra) > 5 {
				break
			}
		} else if res.Truncated && len(out.Infra) < 3 {
			out.Infra = append(out.Infra, fmt.Sprintf("truncated seed %d: %s", seed, res.Stuck))
		}
		for _, v := range res.Violations {
			key := v.Property + "/" + v.Class
			out.Classes[key]++
			if out.Classes[key] > 1 || opt.replayDir == "" {
				continue
			}
			if known[key] {
				continue
			}
			path := writeReplay(sc, res, v, slot)
			out.Violations = append(out.Violations, path)
		}
		seed++
		if len(out.Violations) > 0 {
			break
		}
	}
	out.NextSeed = seed
	out.WallS = realNow() - start
	for h := range sched {
		out.SchedHash = append(out.SchedHash, fmt.Sprintf("%016x", h))
	}
	for h := range trace {
		out.TraceHash = append(out.TraceHash, fmt.Sprintf("%016x", h))
	}
	sort.Strings(out.SchedHash)
	sort.Strings(out.TraceHash)
	data, _ := json.Marshal(out)
	if opt.out != "" {
		if err := os.WriteFile(opt.out, data, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	} else {
		out.SchedHash, out.TraceHash = nil, nil
		data, _ = json.MarshalIndent(out, "", "  ")
		fmt.Println(string(data))
	}
	return 0
}

func loadKnown(path string) map[string]bool {
	res := map[string]bool{}
	if path == "" {
		return res
	}
	data, err := os.ReadFile(path)
	if err != nil {
		return res
	}
	for _, l := range strings.Split(string(data), "\n") {
		if l = strings.TrimSpace(l); l != "" {
			res[l] = true
		}
	}
	return res
}

func sample(res *sim.Result) string {
	var lines []string
	for i, e := range res.Events {
		if i >= 12 {
			lines = append(lines, "...")
			break
		}
		lines = append(lines, fmt.Sprintf("[%d @%v] %s", e.Seq, e.At, e.Text))
	}
	return fmt.Sprintf("seed %d (%d steps, %v simulated, %d faults): %s", res.Seed, res.Steps, res.SimTime.Round(time.Millisecond), res.Faults, strings.Join(lines, " | "))
}

func failsLike(res *sim.Result, v sim.Violation) bool {
	for _, o := range res.Violations {
		if o.Property == v.Property && o.Class == v.Class {
			return true
		}
	}
	return false
}

// minimize shrinks the recorded decisions while the run still fails the same way.
func minimize(sc *sim.Scenario, choices []uint32, v sim.Violation, slot string) []uint32 {
	deadline := realNow() + opt.minimize
	best := append([]uint32(nil), choices...)
	try := func(c []uint32) bool {
		if realNow() > deadline {
			return false
		}
		res := sim.RunOne(sc, sim.ReplayChoices(c), slot)
		return failsLike(res, v)
	}
	trim := func(c []uint32) []uint32 {
		for len(c) > 0 && c[len(c)-1] == 0 {
			c = c[:len(c)-1]
		}
		return c
	}
	best = trim(best)
	for pass := 0; pass < 6; pass++ {
		changed := false
		// Truncate.
		for n := len(best) / 2; n > 0; n /= 2 {
			if len(best) > n {
				c := trim(append([]uint32(nil), best[:len(best)-n]...))
				if try(c) {
					best, changed = c, true
				}
			}
		}
		// Zero chunks.
		for n := max(len(best)/2, 1); n > 0; n /= 2 {
			for i := 0; i < len(best); i += n {
				j := min(i+n, len(best))
				nz := false
				for _, x := range best[i:j] {
					nz = nz || x != 0
				}
				if !nz {
					continue
				}
				c := append([]uint32(nil), best...)
				clear(c[i:j])
				c = trim(c)
				if try(c) {
					best, changed = c, true
				}
				if realNow() > deadline {
					return best
				}
			}
		}
		// Delete chunks.
		for _, n := range []int{64, 16, 4, 1} {
			for i := len(best) - n; i >= 0; i -= n {
				if i+n > len(best) {
					continue
				}
				c := trim(append(append([]uint32(nil), best[:i]...), best[i+n:]...))
				if try(c) {
					best, changed = c, true
				}
				if realNow() > deadline {
					return best
				}
			}
		}
		if !changed {
			break
		}
	}
	return best
}

func writeReplay(sc *sim.Scenario, res *sim.Result, v sim.Violation, slot string) string {
	best := minimize(sc, res.Choices, v, slot)
	final := sim.RunOne(sc, sim.ReplayChoices(best), slot)
	if !failsLike(final, v) {
		best = res.Choices
		final = sim.RunOne(sc, sim.ReplayChoices(best), slot)
	}
	for _, o := range final.Violations {
		if o.Property == v.Property && o.Class == v.Class {
			v = o
		}
	}
	nz := 0
	for _, c := range best {
		if c != 0 {
			nz++
		}
	}
	rp := &Replay{
		Property: v.Property, Scenario: sc.Name, Seed: res.Seed, Violation: &v, Slot: slot,
		TraceHash: fmt.Sprintf("%016x", final.TraceHash), Steps: final.Steps, SimTime: final.SimTime.String(),
		Original: len(res.Choices), Nonzero: nz, Choices: best,
	}
	events := final.Events
	if len(events) > 400 {
		events = events[len(events)-400:]
	}
	for _, e := range events {
		rp.Trace = append(rp.Trace, fmt.Sprintf("%d %v %s", e.Seq, e.At, e.Text))
	}
	_ = os.MkdirAll(opt.replayDir, 0o755)
	path := filepath.Join(opt.replayDir, fmt.Sprintf("%s-%s-%s-%d.json", v.Property, sc.Name, v.Class, res.Seed))
	data, _ := json.MarshalIndent(rp, "", " ")
	if err := os.WriteFile(path, data, 0o644); err != nil {
		panic(err)
	}
	return path
}

func replay() int {
	data, err := os.ReadFile(opt.replay)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var rp Replay
	if err := json.Unmarshal(data, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	sc := scenarios[rp.Scenario]
	if sc == nil {
		fmt.Fprintln(os.Stderr, "unknown scenario", rp.Scenario)
		return 3
	}
	slot := lockSlot(rp.Slot)
	defer cleanSlot(slot)
	choices := sim.ReplayChoices(rp.Choices)
	if rp.SeedOnly {
		choices = sim.SeededChoices(rp.Seed)
	}
	res := sim.RunOne(sc, choices, slot)
	for _, e := range res.Events {
		fmt.Printf("%6d %12v %s\n", e.Seq, e.At, e.Text)
	}
	same := fmt.Sprintf("%016x", res.TraceHash) == rp.TraceHash
	fmt.Printf("trace hash %016x (recorded %s, identical: %v), steps %d\n", res.TraceHash, rp.TraceHash, same, res.Steps)
	if failsLike(res, *rp.Violation) {
		fmt.Printf("reproduced: %s [%s] %s\n", rp.Violation.Property, rp.Violation.Class, rp.Violation.Detail)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}
