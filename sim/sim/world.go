package sim

import (
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"
)

var active atomic.Pointer[World]

// Active returns the current world, or nil outside of a simulated run.
func Active() *World { return active.Load() }

type taskState int

const (
	stateNew taskState = iota
	stateRunnable
	stateRunning
	stateBlocked // waiting on a simulated primitive
	stateDone
)

// Task is a simulated thread: a goroutine whose progress is decided by the
// World's scheduler.
type Task struct {
	w         *World
	id        string
	seq       int
	proc      *Proc
	wake      chan struct{}
	killed    chan struct{}
	state     taskState
	unwinding bool
	children  int
	why       string // what a blocked task waits for
	parked    atomic.Bool
}

func (t *Task) Proc() *Proc { return t.proc }

// Violation is a property violation found in a run.
type Violation struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Detail   string `json:"detail"`
}

// Config holds per-run tuning drawn by the scenario (swarm testing).
type Config struct {
	PreemptMean int           // mean number of yield points between pre-emptions, 0 = never
	StallProb   int           // 1 in StallProb scheduling decisions lets time pass, 0 = never
	StepCost    time.Duration // simulated time charged per 16 decisions
	MaxSteps    int
	Horizon     time.Duration // simulated idle time after which the run is declared stuck
}

// Event is one line of the run's trace.
type Event struct {
	Seq  int
	At   time.Duration
	Text string
}

type World struct {
	Cfg  Config
	Root string // scratch directory of this run

	choices *Choices

	mu        sync.Mutex
	runnable  []*Task
	tasks     []*Task
	current   atomic.Pointer[Task]
	labelLoss atomic.Bool
	last      *Task
	wakeCh    chan struct{}
	gap       int64
	steps     int
	taskSeq   int
	start     time.Time

	main     *Task
	mainDone bool
	stuck    string
	trunc    bool

	procs   []*Proc
	nextPid int
	loaded  *Proc

	Net      *Net
	FS       *FS
	Programs map[string]Program

	events     []Event
	traceHash  uint64
	schedHash  uint64
	violations []Violation
	Counters   map[string]int64 // fault kinds fired, probes reached
	seenViol   map[string]bool

	noPreempt int // depth of NoPreempt sections
	onKill    []func(*Proc)
	OnSpawn   func(*Proc)    // called for each process created by exec
	Values    map[string]any // scenario-private registry for shims
	uuidSeq   uint64
	quiet     bool
	points    int // yield points passed since the last scheduling decision
	spins     int
	locks     map[string]*WaitQueue
}

// Program is the body of a simulated executable.
type Program func(p *Proc) int

func newWorld(ch *Choices, root string) *World {
	w := &World{
		choices: ch,
		Root:    root,
		wakeCh:  make(chan struct{}, 1),
		start:   time.Now(),
		nextPid: 1000,
		Cfg: Config{
			PreemptMean: 0, StallProb: 0, MaxSteps: 400000, Horizon: 2 * time.Hour,
		},
		Programs: map[string]Program{},
		Counters: map[string]int64{},
		seenViol: map[string]bool{},
		Values:   map[string]any{},
		locks:    map[string]*WaitQueue{},
	}
	w.Net = newNet(w)
	w.FS = newFS(w)
	w.traceHash = 14695981039346656037
	w.schedHash = 14695981039346656037
	return w
}

// ---------------------------------------------------------------------------
// Recording

func mix(h uint64, s string) uint64 {
	f := fnv.New64a()
	_, _ = f.Write([]byte(s))
	return (h ^ f.Sum64()) * 1099511628211
}

// Logf appends an event to the trace of the run. It never draws randomness.
func (w *World) Logf(format string, args ...any) {
	text := fmt.Sprintf(format, args...)
	text = strings.ReplaceAll(text, w.Root, "$ROOT")
	if strings.Contains(text, "orchestrion-pin_") {
		// The name of this file is derived from the path of the scratch directory.
		text = pinLock.ReplaceAllString(text, "orchestrion-pin_")
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.traceHash = mix(w.traceHash, hexNumber.ReplaceAllString(text, "?"))
	if len(w.events) < 20000 {
		w.events = append(w.events, Event{Seq: w.steps, At: time.Since(w.start), Text: text})
	}
}

// Count increments a named counter (fault kinds, probes).
func (w *World) Count(name string) {
	w.mu.Lock()
	w.Counters[name]++
	w.mu.Unlock()
}

var pinLock = regexp.MustCompile(`orchestrion-pin_[A-Za-z0-9_=-]+`)

// Violate records a violation of the property; class identifies the kind of
// failure (used to decide whether a minimised run still fails "the same way").
func (w *World) Violate(property, class, format string, args ...any) {
	detail := strings.ReplaceAll(fmt.Sprintf(format, args...), w.Root, "$ROOT")
	w.Logf("VIOLATION %s [%s]: %s", property, class, detail)
	w.mu.Lock()
	defer w.mu.Unlock()
	key := property + "/" + class
	if w.seenViol[key] {
		return
	}
	w.seenViol[key] = true
	w.violations = append(w.violations, Violation{property, class, detail})
}

// Now returns the simulated time elapsed since the start of the run.
func (w *World) Now() time.Duration { return time.Since(w.start) }

// Step returns the global scheduling step (used as an event sequence number).
func (w *World) Step() int { return w.steps }

// ---------------------------------------------------------------------------
// Choices

// Choose returns a value in [0, n); 0 is the "simplest" option.
func (w *World) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	return int(w.choices.next(uint32(n)))
}

// Chance returns true with probability 1/n (false is the simplest option).
func (w *World) Chance(n int) bool { return n > 0 && w.Choose(n) == n-1 }

// Pick returns one of the options.
func Pick[T any](w *World, opts ...T) T { return opts[w.Choose(len(opts))] }

// gapDraw draws a geometric gap with the provided mean; 0 means "never".
func (w *World) gapDraw(mean int) int64 {
	if mean <= 0 {
		return 0
	}
	// 0 is "never"; otherwise 1 + uniform in [0, 2*mean).
	v := w.choices.next(uint32(2*mean) + 1)
	return int64(v)
}

// Perm returns a permutation of [0,n); the identity is the simplest.
func (w *World) Perm(n int) []int {
	res := make([]int, n)
	for i := range res {
		res[i] = i
	}
	if n < 2 {
		return res
	}
	seed := w.choices.next(1 << 16)
	if seed == 0 {
		return res
	}
	r := NewRand(uint64(seed) * 0x9E3779B97F4A7C15)
	for i := n - 1; i > 0; i-- {
		j := int(r.Uint64() % uint64(i+1))
		res[i], res[j] = res[j], res[i]
	}
	return res
}

// ---------------------------------------------------------------------------
// Tasks

func (w *World) newTask(proc *Proc, parent *Task, name string) *Task {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.taskSeq++
	t := &Task{w: w, proc: proc, seq: w.taskSeq, wake: make(chan struct{}, 1), killed: make(chan struct{})}
	prefix := fmt.Sprintf("p%d", proc.Idx)
	if parent != nil && parent.proc == proc {
		parent.children++
		prefix = fmt.Sprintf("%s.%d", parent.id, parent.children)
	} else {
		proc.tasks++
		prefix = fmt.Sprintf("%s/%d", prefix, proc.tasks)
	}
	t.id = prefix
	if name != "" {
		t.id += ":" + name
	}
	w.tasks = append(w.tasks, t)
	return t
}

// Enter runs fn, called by a goroutine of un-instrumented code, as a task of the
// provided process. The name must be unique among concurrent callers so that
// the identity of the task does not depend on real time.
func (w *World) Enter(p *Proc, name string, fn func()) {
	if active.Load() != w || p.dead {
		return
	}
	old := getProfLabel()
	w.mu.Lock()
	w.taskSeq++
	t := &Task{w: w, proc: p, seq: w.taskSeq, wake: make(chan struct{}, 1), killed: make(chan struct{}), state: stateRunning}
	t.id = fmt.Sprintf("p%d/~%s", p.Idx, name)
	w.tasks = append(w.tasks, t)
	w.mu.Unlock()
	setProfLabel(ptr(&taskLabel{t: t}))
	defer func() {
		if r := recover(); r != nil {
			w.taskPanicked(t, r, debug.Stack())
		}
		w.taskDone(t)
		setProfLabel(old)
	}()
	t.park()
	fn()
}

// InTask returns true when the calling goroutine is the one the scheduler is
// currently running.
func (w *World) InTask() bool {
	t := Self()
	return t != nil && w.current.Load() == t
}

// Go starts fn as a new task of the calling task's process.
func Go(fn func()) {
	w := active.Load()
	t := self()
	if w == nil || t == nil {
		go fn()
		return
	}
	w.startTask(t.proc, t, "", fn)
	Point()
}

// GoNamed starts fn as a named task of the calling task's process.
func GoNamed(name string, fn func()) {
	w := active.Load()
	t := self()
	w.startTask(t.proc, t, name, fn)
}

// StartIn starts fn as a task of the provided process, from any goroutine.
func (w *World) StartIn(proc *Proc, name string, fn func()) *Task {
	return w.startTask(proc, nil, name, fn)
}

func (w *World) startTask(proc *Proc, parent *Task, name string, fn func()) *Task {
	t := w.newTask(proc, parent, name)
	if proc.dead {
		t.state = stateDone
		return t
	}
	go func() {
		setProfLabel(ptr(&taskLabel{t: t}))
		id := goID()
		byGoID.Store(id, t)
		defer func() {
			if r := recover(); r != nil {
				w.taskPanicked(t, r, debug.Stack())
			}
			byGoID.Delete(id)
			w.taskDone(t)
		}()
		t.park()
		fn()
	}()
	return t
}

func (w *World) taskPanicked(t *Task, r any, stack []byte) {
	if t.unwinding {
		return
	}
	msg := fmt.Sprint(r)
	w.Logf("PANIC in %s (%s): %s", t.id, t.proc.Name, msg)
	t.proc.Panic = fmt.Sprintf("%s\n%s", msg, trimStack(stack))
	if t.proc.Idx == 0 {
		// The harness itself panicked: always an infrastructure error.
		w.mu.Lock()
		w.stuck = "harness panic: " + t.proc.Panic
		w.mu.Unlock()
	}
	t.proc.die(2, "panic: "+msg)
}

var hexNumber = regexp.MustCompile(`0x[0-9a-f]+|goroutine [0-9]+`)

// trimStack keeps the stable part of a stack trace: frames above the panic.
func trimStack(s []byte) string {
	lines := strings.Split(hexNumber.ReplaceAllString(string(s), "?"), "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			lines = lines[i:]
			break
		}
	}
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

func (w *World) taskDone(t *Task) {
	w.mu.Lock()
	t.state = stateDone
	if i := slices.Index(w.tasks, t); i >= 0 {
		w.tasks = slices.Delete(w.tasks, i, i+1)
	}
	if w.current.Load() == t {
		w.current.Store(nil)
	}
	if t == w.main {
		w.mainDone = true
	}
	w.mu.Unlock()
	w.signal()
	setProfLabel(nil)
}

func (w *World) signal() {
	select {
	case w.wakeCh <- struct{}{}:
	default:
	}
}

// park makes the task runnable and waits until the scheduler picks it.
func (t *Task) park() {
	w := t.w
	w.mu.Lock()
	t.state = stateRunnable
	w.runnable = append(w.runnable, t)
	if w.current.Load() == t {
		w.current.Store(nil)
	}
	w.mu.Unlock()
	w.signal()
	t.waitTurn()
}

func (t *Task) waitTurn() {
	if t.parked.Swap(true) {
		panic("simulator: goroutine of un-instrumented code runs in the context of " + t.id)
	}
	select {
	case <-t.wake:
	case <-t.killed:
		t.w.forget(t)
	}
	t.parked.Store(false)
	t.checkKilled()
}

// forget removes a killed task from the scheduler's lists.
func (w *World) forget(t *Task) {
	w.mu.Lock()
	if i := slices.Index(w.runnable, t); i >= 0 {
		w.runnable = slices.Delete(w.runnable, i, i+1)
	}
	w.mu.Unlock()
}

func (t *Task) checkKilled() {
	select {
	case <-t.killed:
		t.unwinding = true
		runtime.Goexit()
	default:
	}
}

// blockOn suspends the task on a wait queue until someone wakes the queue.
func (t *Task) blockOn(q *WaitQueue, why string) {
	w := t.w
	w.mu.Lock()
	t.state = stateBlocked
	t.why = why
	q.tasks = append(q.tasks, t)
	if w.current.Load() == t {
		w.current.Store(nil)
	}
	w.mu.Unlock()
	w.signal()
	t.waitTurn()
}

// WaitQueue is a list of tasks blocked on a simulated primitive.
type WaitQueue struct{ tasks []*Task }

// WakeAll makes all waiting tasks runnable.
func (q *WaitQueue) WakeAll(w *World) {
	w.mu.Lock()
	for _, t := range q.tasks {
		if t.state == stateBlocked {
			t.state = stateRunnable
			w.runnable = append(w.runnable, t)
		}
	}
	q.tasks = nil
	w.mu.Unlock()
	w.signal()
}

// WakeOne makes one (scheduler chosen) waiting task runnable.
func (q *WaitQueue) WakeOne(w *World) {
	for len(q.tasks) > 0 {
		i := w.Choose(len(q.tasks))
		w.mu.Lock()
		t := q.tasks[i]
		q.tasks = slices.Delete(q.tasks, i, i+1)
		ok := t.state == stateBlocked
		if ok {
			t.state = stateRunnable
			w.runnable = append(w.runnable, t)
		}
		w.mu.Unlock()
		if ok {
			w.signal()
			return
		}
	}
}

// Empty returns true if nobody is waiting.
func (q *WaitQueue) Empty() bool { return len(q.tasks) == 0 }

// Block suspends the calling task on the queue. It returns false if the caller
// is not a simulated task, or if it is being killed.
func Block(q *WaitQueue, why string) bool {
	t := self()
	if t == nil || t.unwinding {
		return false
	}
	t.blockOn(q, why)
	return true
}

// Managed returns true if the calling goroutine is a live simulated task.
func Managed() bool { return active.Load() != nil && self() != nil }

// Unwinding returns true when the calling task belongs to a killed process and
// is merely executing its deferred functions; shims must have no effects then.
func Unwinding() bool {
	if active.Load() == nil {
		return false
	}
	t := self()
	return t != nil && (t.unwinding || t.proc.dead)
}

// Self returns the calling task, or nil.
func Self() *Task {
	if active.Load() == nil {
		return nil
	}
	return self()
}

// CurProc returns the process of the calling task, or nil.
func CurProc() *Proc {
	if active.Load() == nil {
		return nil
	}
	if t := self(); t != nil {
		return t.proc
	}
	return nil
}

const (
	spinLimit = 200000 // yield points in a row after which a task is considered to be spinning
	maxSpins  = 400
)

// Point is a potential pre-emption point.
func Point() {
	w := active.Load()
	if w == nil {
		return
	}
	t := self()
	if t == nil || t.unwinding {
		return
	}
	if t.proc.dead {
		t.checkKilled()
		return
	}
	if w.current.Load() == t {
		w.points++
		if w.points > spinLimit && w.noPreempt == 0 {
			// A loop that never gives way: other tasks run, and time passes.
			w.points = 0
			w.spins++
			w.Count("spin")
			time.Sleep(100 * time.Millisecond)
			t.park()
			return
		}
		if w.noPreempt > 0 || w.gap == 0 {
			return
		}
		w.gap--
		if w.gap > 0 {
			return
		}
		w.gap = w.gapDraw(w.Cfg.PreemptMean)
		w.Count("preemption")
		if debugSched {
			var at []string
			for i := 1; i < 5; i++ {
				_, file, line, _ := runtime.Caller(i)
				at = append(at, fmt.Sprintf("%s:%d", filepath.Base(file), line))
			}
			fmt.Fprintf(os.Stderr, "preempted %s at %s\n", t.id, strings.Join(at, " < "))
		}
	}
	t.park()
}

// Quiesce always yields to the scheduler, so that everything un-instrumented
// code was doing in the background comes to rest before the task proceeds.
func Quiesce() {
	w := active.Load()
	if w == nil {
		return
	}
	t := self()
	if t == nil || t.unwinding {
		return
	}
	if t.proc.dead {
		t.checkKilled()
		return
	}
	t.park()
}

// BusyPoint is called in polling loops of the harness: yields and lets
// simulated time pass.
func BusyPoint(d time.Duration) {
	time.Sleep(d)
	Quiesce()
}

// NoPreempt runs fn without pre-emption at yield points.
func (w *World) NoPreempt(fn func()) {
	w.noPreempt++
	defer func() { w.noPreempt-- }()
	fn()
}

// ---------------------------------------------------------------------------
// Scheduler

func (w *World) run() {
	sinceAdvance := 0
	for {
		synctest.Wait()
		w.mu.Lock()
		if w.mainDone || w.stuck != "" {
			w.mu.Unlock()
			return
		}
		w.current.Store(nil)
		rs := w.runnable
		if len(rs) == 0 {
			w.mu.Unlock()
			timer := time.NewTimer(w.Cfg.Horizon)
			select {
			case <-w.wakeCh:
				timer.Stop()
			case <-timer.C:
				// One last chance: something may have become runnable at the very same instant.
				synctest.Wait()
				w.mu.Lock()
				n, done := len(w.runnable), w.mainDone
				if n == 0 && !done {
					w.stuck = "no progress: " + w.describeTasks()
				}
				w.mu.Unlock()
			}
			sinceAdvance = 0
			continue
		}
		sort.Slice(rs, func(i, j int) bool {
			a, b := rs[i], rs[j]
			if (a == w.last) != (b == w.last) {
				return a == w.last
			}
			if a.id != b.id {
				return a.id < b.id
			}
			return a.seq < b.seq
		})
		w.mu.Unlock()

		w.steps++
		w.points = 0
		if w.steps > w.Cfg.MaxSteps || w.spins > maxSpins {
			w.mu.Lock()
			w.trunc = true
			w.stuck = fmt.Sprintf("limit of %d steps (%d spins) reached: %s", w.steps, w.spins, w.describeTasks())
			w.mu.Unlock()
			return
		}

		// Let time pass while everyone is (slow but) runnable, sometimes.
		if w.Cfg.StallProb > 0 && w.Chance(w.Cfg.StallProb) {
			d := Pick(w, time.Millisecond, 60*time.Millisecond, 800*time.Millisecond, 7*time.Second)
			w.Count("stall")
			time.Sleep(d)
			sinceAdvance = 0
			continue
		}
		sinceAdvance++
		if w.Cfg.StepCost > 0 && sinceAdvance%16 == 0 {
			time.Sleep(16 * w.Cfg.StepCost)
			continue
		}
		if sinceAdvance >= 3000 {
			// Tasks are spinning: time passes nonetheless.
			time.Sleep(100 * time.Millisecond)
			sinceAdvance = 0
			continue
		}

		i := w.Choose(len(rs))
		w.mu.Lock()
		t := rs[i]
		if j := slices.Index(w.runnable, t); j >= 0 {
			w.runnable = slices.Delete(w.runnable, j, j+1)
		} else {
			w.mu.Unlock()
			continue
		}
		t.state = stateRunning
		w.last = t
		if w.gap == 0 {
			w.mu.Unlock()
			w.gap = w.gapDraw(w.Cfg.PreemptMean)
			w.mu.Lock()
		}
		w.schedHash = mix(w.schedHash, t.id)
		w.mu.Unlock()
		if w.loaded != t.proc {
			w.swapGlobals(t.proc)
		}
		w.current.Store(t)
		if debugSched {
			fmt.Fprintf(os.Stderr, "[%d] run %s (of %d) t=%v\n", w.steps, t.id, len(rs), w.Now())
		}
		t.wake <- struct{}{}
	}
}

var debugSched = os.Getenv("SIM_DEBUG") != ""

// describeTasks lists what each live task is doing; w.mu must be held.
func (w *World) describeTasks() string {
	var parts []string
	for _, t := range w.tasks {
		if t.state == stateDone {
			continue
		}
		st := map[taskState]string{stateNew: "new", stateRunnable: "runnable", stateRunning: "waiting", stateBlocked: "blocked"}[t.state]
		if t.why != "" && (t.state == stateBlocked || t.state == stateRunning) {
			st += " on " + t.why
		}
		parts = append(parts, fmt.Sprintf("%s[%s]: %s", t.id, t.proc.Name, st))
	}
	if len(parts) > 24 {
		parts = append(parts[:24], "...")
	}
	return strings.Join(parts, "; ")
}
