// Package simexec replaces os/exec: commands are simulated processes.
package simexec

import (
	"bytes"
	"context"
	"errors"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/DataDog/orchestrion/internal/verifsim/sim"
	"github.com/DataDog/orchestrion/internal/verifsim/simos"
)

// ExitError replaces exec.ExitError.
type ExitError struct {
	*simos.ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

// Cmd replaces exec.Cmd.
type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	ExtraFiles   []*simos.File
	SysProcAttr  *syscall.SysProcAttr
	Process      *simos.Process
	ProcessState *simos.ProcessState
	Err          error
	Cancel       func() error
	WaitDelay    time.Duration

	ctx       context.Context
	ctxResult chan error
	waitDone  chan struct{}
}

// LookPath searches the PATH of the simulated process for a registered program.
func LookPath(file string) (string, error) {
	w, p := sim.Active(), sim.CurProc()
	if w == nil || p == nil {
		return exec.LookPath(file)
	}
	if strings.Contains(file, "/") {
		if w.Programs[p.Abs(file)] != nil {
			return file, nil
		}
		return "", &exec.Error{Name: file, Err: os.ErrNotExist}
	}
	path, _ := p.Getenv("PATH")
	for _, dir := range filepath.SplitList(path) {
		if full := filepath.Join(dir, file); w.Programs[full] != nil {
			return full, nil
		}
	}
	return "", &exec.Error{Name: file, Err: exec.ErrNotFound}
}

func Command(name string, arg ...string) *Cmd {
	cmd := &Cmd{Path: name, Args: append([]string{name}, arg...)}
	if filepath.Base(name) == name {
		lp, err := LookPath(name)
		if lp != "" {
			cmd.Path = lp
		}
		if err != nil {
			cmd.Err = err
		}
	}
	return cmd
}

func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	if ctx == nil {
		panic("nil Context")
	}
	cmd := Command(name, arg...)
	cmd.ctx = ctx
	cmd.Cancel = func() error { return cmd.Process.Kill() }
	return cmd
}

func (c *Cmd) String() string {
	var b strings.Builder
	b.WriteString(c.Path)
	for _, a := range c.Args[1:] {
		b.WriteByte(' ')
		b.WriteString(a)
	}
	return b.String()
}

func (c *Cmd) Environ() []string {
	if c.Env == nil {
		return simos.Environ()
	}
	return c.Env
}

func writer(w io.Writer) io.Writer {
	if f, ok := w.(*simos.File); ok && f == nil {
		return io.Discard
	}
	return w
}

func (c *Cmd) Start() error {
	w, p := sim.Active(), sim.CurProc()
	if w == nil || p == nil {
		return errors.New("simexec: not in a simulated process")
	}
	if sim.Unwinding() {
		return errors.New("process was killed")
	}
	if c.Path == "" && c.Err == nil {
		c.Err = errors.New("exec: no command")
	}
	if c.Err != nil {
		return c.Err
	}
	if c.Process != nil {
		return errors.New("exec: already started")
	}
	if c.ctx != nil {
		if err := c.ctx.Err(); err != nil {
			return err
		}
	}
	path := c.Path
	if !filepath.IsAbs(path) {
		dir := c.Dir
		if dir == "" {
			dir = p.Cwd
		}
		path = filepath.Join(p.Abs(dir), path)
	}
	if w.FS.Op(p, "exec", path) == "err" {
		return &os.PathError{Op: "fork/exec", Path: c.Path, Err: syscall.EAGAIN}
	}
	prog := w.Programs[path]
	if prog == nil {
		return &os.PathError{Op: "fork/exec", Path: c.Path, Err: syscall.ENOENT}
	}
	dir := p.Cwd
	if c.Dir != "" {
		dir = p.Abs(c.Dir)
		if st, err := os.Stat(dir); err != nil || !st.IsDir() {
			return &os.PathError{Op: "chdir", Path: c.Dir, Err: syscall.ENOENT}
		}
	}
	env := c.Env
	if env == nil {
		env = simos.Environ()
	}
	child := w.Spawn(sim.Spec{
		Name: filepath.Base(c.Path), Args: append([]string(nil), c.Args...), Env: env, Dir: dir,
		Stdin: c.Stdin, Stdout: writer(c.Stdout), Stderr: writer(c.Stderr), NoFaults: p.NoFaults,
	}, prog)
	if w.OnSpawn != nil {
		w.OnSpawn(child)
	}
	args := c.Args
	if len(args) > 6 {
		args = append(append([]string(nil), args[:6]...), "...")
	}
	w.Logf("process %d spawned process %d: %s", p.Idx, child.Idx, strings.Join(args, " "))
	c.Process = &simos.Process{Pid: child.Pid, P: child}
	if c.ctx != nil && c.ctx.Done() != nil {
		c.ctxResult = make(chan error, 1)
		c.waitDone = make(chan struct{})
		ctx := c.ctx
		sim.GoNamed("cmdctx", func() {
			i, _, _ := sim.Select(false, sim.R(c.waitDone), sim.R(ctx.Done()))
			if i == 0 {
				c.ctxResult <- nil
				return
			}
			var err error
			if c.Cancel != nil {
				if cerr := c.Cancel(); cerr == nil {
					err = ctx.Err()
				} else if !errors.Is(cerr, os.ErrProcessDone) {
					err = cerr
				}
			}
			c.ctxResult <- err
		})
	}
	sim.Point()
	return nil
}

func (c *Cmd) Wait() error {
	if c.Process == nil {
		return errors.New("exec: not started")
	}
	if c.ProcessState != nil {
		return errors.New("exec: Wait was already called")
	}
	if c.Process.Released {
		return errors.New("wait: invalid argument")
	}
	state, err := c.Process.Wait()
	c.ProcessState = state
	if err == nil && !state.Success() {
		err = &ExitError{ProcessState: state}
	}
	if c.ctxResult != nil {
		close(c.waitDone)
		if werr := sim.Recv(c.ctxResult); err == nil && werr != nil {
			err = werr
		}
	}
	sim.Point()
	return err
}

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

func (c *Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var stdout, stderr bytes.Buffer
	c.Stdout = &stdout
	capture := c.Stderr == nil
	if capture {
		c.Stderr = &stderr
	}
	err := c.Run()
	if ee, ok := err.(*ExitError); ok && capture {
		ee.Stderr = stderr.Bytes()
	}
	return stdout.Bytes(), err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}
