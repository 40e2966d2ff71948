package sim

import (
	"fmt"
	"io"
	"maps"
	"path/filepath"
	"reflect"
	"runtime"
	"slices"
	"strings"
)

// Proc is a simulated operating system process.
type Proc struct {
	w      *World
	Idx    int
	Pid    int
	Parent *Proc
	Name   string
	Args   []string
	Env    []string
	Cwd    string
	Stdin  io.Reader
	Stdout io.Writer
	Stderr io.Writer

	tasks   int
	globals []reflect.Value

	dead          bool
	Exited        bool
	ExitCode      int
	Reason        string // why the process terminated, when not a plain exit
	Panic         string
	PanicExpected bool
	doneQ         WaitQueue
	closers       []func() // released by the operating system when the process dies
	sigs          []sigHandler
	// NoFaults exempts this process from injected faults and crashes.
	NoFaults bool
	// Crashable allows crash faults at the process' operations.
	Crashable bool
	Values    map[string]any
}

type sigHandler struct {
	sig     string
	deliver func(string)
	key     any
}

func (p *Proc) World() *World { return p.w }
func (p *Proc) Dead() bool    { return p.dead }

// Getenv returns the value of an environment variable of this process.
func (p *Proc) Getenv(name string) (string, bool) {
	// Last one wins, like os/exec's dedup.
	for i := len(p.Env) - 1; i >= 0; i-- {
		if n, v, ok := strings.Cut(p.Env[i], "="); ok && n == name {
			return v, true
		}
	}
	return "", false
}

func (p *Proc) Setenv(name, val string) {
	p.Unsetenv(name)
	p.Env = append(p.Env, name+"="+val)
}

func (p *Proc) Unsetenv(name string) {
	p.Env = slices.DeleteFunc(slices.Clone(p.Env), func(s string) bool {
		n, _, _ := strings.Cut(s, "=")
		return n == name
	})
}

// Abs resolves a path relative to the process' working directory.
func (p *Proc) Abs(path string) string {
	if path == "" || filepath.IsAbs(path) {
		return path
	}
	return filepath.Join(p.Cwd, path)
}

// OnExit registers a resource to be released when the process terminates.
func (p *Proc) OnExit(fn func()) {
	p.w.mu.Lock()
	defer p.w.mu.Unlock()
	p.closers = append(p.closers, fn)
}

// Spec describes a process to be spawned.
type Spec struct {
	Name      string
	Args      []string
	Env       []string
	Dir       string
	Stdin     io.Reader
	Stdout    io.Writer
	Stderr    io.Writer
	Crashable bool
	NoFaults  bool
}

// Spawn creates a new process running the provided program.
func (w *World) Spawn(spec Spec, prog Program) *Proc {
	var parent *Proc
	if t := Self(); t != nil {
		parent = t.proc
	}
	p := w.newProc(spec, parent)
	w.StartIn(p, "main", func() {
		code := prog(p)
		p.die(code, "")
	})
	return p
}

func (w *World) newProc(spec Spec, parent *Proc) *Proc {
	w.mu.Lock()
	w.nextPid++
	p := &Proc{
		w: w, Idx: len(w.procs), Pid: w.nextPid, Parent: parent, Name: spec.Name, Args: spec.Args,
		Env: slices.Clone(spec.Env), Cwd: spec.Dir, Stdin: spec.Stdin, Stdout: spec.Stdout, Stderr: spec.Stderr,
		Crashable: spec.Crashable, NoFaults: spec.NoFaults, Values: map[string]any{},
	}
	if p.Cwd == "" && parent != nil {
		p.Cwd = parent.Cwd
	}
	if p.Stdout == nil {
		p.Stdout = io.Discard
	}
	if p.Stderr == nil {
		p.Stderr = io.Discard
	}
	w.procs = append(w.procs, p)
	w.mu.Unlock()
	p.globals = pristineGlobals(p)
	return p
}

// Procs returns all processes of the run, in creation order.
func (w *World) Procs() []*Proc { return slices.Clone(w.procs) }

// Exit terminates the calling process.
func (p *Proc) Exit(code int) { p.die(code, "") }

// Kill terminates the process abruptly (SIGKILL, power loss of that process):
// none of its deferred functions have any effect.
func (p *Proc) Kill(reason string) { p.die(-1, reason) }

// die terminates the process. If the calling task belongs to the process, it
// does not return.
func (p *Proc) die(code int, reason string) {
	w := p.w
	me := Self()
	if !p.dead {
		w.mu.Lock()
		p.dead = true
		p.Exited = true
		p.ExitCode = code
		p.Reason = reason
		for _, t := range w.tasks {
			if t.proc == p && t != me {
				if i := slices.Index(w.runnable, t); i >= 0 {
					w.runnable = slices.Delete(w.runnable, i, i+1)
				}
				if t.state == stateBlocked || t.state == stateRunnable {
					t.state = stateRunning
				}
				close(t.killed)
			}
		}
		w.mu.Unlock()
		if reason != "" {
			w.Logf("process %d (%s) terminated: %s", p.Idx, p.Name, reason)
		} else {
			w.Logf("process %d (%s) exited with %d", p.Idx, p.Name, code)
		}
		w.mu.Lock()
		closers := p.closers
		p.closers = nil
		w.mu.Unlock()
		for i := len(closers) - 1; i >= 0; i-- {
			closers[i]()
		}
		for _, fn := range w.onKill {
			fn(p)
		}
		p.doneQ.WakeAll(w)
	}
	if me != nil && me.proc == p && !me.unwinding {
		me.unwinding = true
		select {
		case <-me.killed:
		default:
			close(me.killed)
		}
		runtime.Goexit()
	}
}

// Wait blocks the calling task until the process has terminated.
func (p *Proc) Wait() {
	for !p.Exited {
		if !Block(&p.doneQ, fmt.Sprintf("exit of process %d (%s)", p.Idx, p.Name)) {
			return
		}
	}
}

// Signal delivers an (interrupt) signal to the process. Without a handler, it
// terminates the process.
func (p *Proc) Signal(sig string) {
	if p.dead {
		return
	}
	p.w.Logf("signal %s to process %d (%s)", sig, p.Idx, p.Name)
	handled := false
	for _, h := range slices.Clone(p.sigs) {
		if h.sig == "" || h.sig == sig {
			handled = true
			h.deliver(sig)
		}
	}
	if !handled {
		p.die(-1, "signal "+sig)
	}
}

func (p *Proc) AddSignalHandler(sig string, key any, deliver func(string)) {
	p.sigs = append(p.sigs, sigHandler{sig, deliver, key})
}

func (p *Proc) RemoveSignalHandlers(key any) {
	p.sigs = slices.DeleteFunc(p.sigs, func(h sigHandler) bool { return h.key == key })
}

// ---------------------------------------------------------------------------
// Package-level variables: each simulated process has its own copy.

type global struct {
	name string
	ptr  reflect.Value // pointer to the variable
}

var (
	globals  []global
	pristine []reflect.Value
	// procInit is called when a process is created, to set up process-specific
	// values of shim variables (os.Args, os.Stdout, ...).
	procInit = map[string]func(*Proc) any{}
)

// RegisterGlobals is called from generated init functions.
func RegisterGlobals(pkg string, vars map[string]any) {
	names := slices.Sorted(maps.Keys(vars))
	for _, name := range names {
		globals = append(globals, global{pkg + "." + name, reflect.ValueOf(vars[name])})
	}
}

// RegisterProcVar registers a shim variable whose initial value depends on the process.
func RegisterProcVar(name string, ptr any, init func(*Proc) any) {
	globals = append(globals, global{name, reflect.ValueOf(ptr)})
	procInit[name] = init
}

func snapshotPristine() {
	if pristine != nil {
		return
	}
	for _, g := range globals {
		v := reflect.New(g.ptr.Type().Elem()).Elem()
		v.Set(g.ptr.Elem())
		pristine = append(pristine, v)
	}
}

func cloneShallow(v reflect.Value) reflect.Value {
	if v.Kind() == reflect.Map && !v.IsNil() {
		m := reflect.MakeMapWithSize(v.Type(), v.Len())
		it := v.MapRange()
		for it.Next() {
			m.SetMapIndex(it.Key(), it.Value())
		}
		return m
	}
	return v
}

func pristineGlobals(p *Proc) []reflect.Value {
	res := make([]reflect.Value, len(pristine))
	for i, v := range pristine {
		nv := reflect.New(v.Type()).Elem()
		nv.Set(cloneShallow(v))
		if init := procInit[globals[i].name]; init != nil {
			nv.Set(reflect.ValueOf(init(p)))
		}
		res[i] = nv
	}
	return res
}

func (w *World) swapGlobals(to *Proc) {
	if w.loaded == to {
		return
	}
	if from := w.loaded; from != nil {
		for i, g := range globals {
			from.globals[i].Set(g.ptr.Elem())
		}
	}
	for i, g := range globals {
		g.ptr.Elem().Set(to.globals[i])
	}
	w.loaded = to
}

func restorePristine() {
	for i, g := range globals {
		g.ptr.Elem().Set(pristine[i])
	}
}
