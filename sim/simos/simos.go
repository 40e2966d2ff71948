// Package simos replaces package os in instrumented code: environment, working
// directory and standard streams are those of the simulated process, and file
// operations are yield points at which faults are injected. Files themselves
// live in a real scratch directory, outside of which nothing is ever modified.
package simos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/DataDog/orchestrion/internal/verifsim/sim"
)

var errKilled = errors.New("process was killed")

func proc() *sim.Proc { return sim.CurProc() }

// ---------------------------------------------------------------------------
// Process state

var (
	Args   = os.Args
	Stdin  = &File{File: nil, name: "/dev/stdin"}
	Stdout = &File{name: "/dev/stdout", w: os.Stdout}
	Stderr = &File{name: "/dev/stderr", w: os.Stderr}
)

func init() {
	sim.RegisterProcVar("simos.Args", &Args, func(p *sim.Proc) any { return p.Args })
	sim.RegisterProcVar("simos.Stdin", &Stdin, func(p *sim.Proc) any { return &File{name: "/dev/stdin", p: p} })
	sim.RegisterProcVar("simos.Stdout", &Stdout, func(p *sim.Proc) any { return &File{name: "/dev/stdout", w: p.Stdout, p: p} })
	sim.RegisterProcVar("simos.Stderr", &Stderr, func(p *sim.Proc) any { return &File{name: "/dev/stderr", w: p.Stderr, p: p} })
}

func Getenv(name string) string {
	v, _ := LookupEnv(name)
	return v
}

func LookupEnv(name string) (string, bool) {
	if p := proc(); p != nil {
		return p.Getenv(name)
	}
	return os.LookupEnv(name)
}

func Setenv(name, val string) error {
	p := proc()
	if p == nil {
		return os.Setenv(name, val)
	}
	if name == "" || strings.ContainsAny(name, "=\x00") {
		return os.NewSyscallError("setenv", syscall.EINVAL)
	}
	p.Setenv(name, val)
	return nil
}

func Unsetenv(name string) error {
	p := proc()
	if p == nil {
		return os.Unsetenv(name)
	}
	p.Unsetenv(name)
	return nil
}

func Environ() []string {
	if p := proc(); p != nil {
		return append([]string(nil), p.Env...)
	}
	return os.Environ()
}

func ExpandEnv(s string) string { return os.Expand(s, Getenv) }

func Getwd() (string, error) {
	p := proc()
	if p == nil {
		return os.Getwd()
	}
	// When $PWD cannot be checked, getcwd(2) is called, which does not do any I/O.
	p.World().FS.Op(p, "stat", p.Cwd)
	return p.Cwd, nil
}

func Chdir(dir string) error {
	p := proc()
	if p == nil {
		return os.Chdir(dir)
	}
	abs := p.Abs(dir)
	if st, err := os.Stat(abs); err != nil {
		return &fs.PathError{Op: "chdir", Path: dir, Err: errors.Unwrap(err)}
	} else if !st.IsDir() {
		return &fs.PathError{Op: "chdir", Path: dir, Err: syscall.ENOTDIR}
	}
	p.Cwd = abs
	return nil
}

func Getpid() int {
	if p := proc(); p != nil {
		return p.Pid
	}
	return os.Getpid()
}

func Getppid() int {
	if p := proc(); p != nil {
		if p.Parent != nil {
			return p.Parent.Pid
		}
		return 1
	}
	return os.Getppid()
}

func TempDir() string {
	if p := proc(); p != nil {
		if v, ok := p.Getenv("TMPDIR"); ok && v != "" {
			return v
		}
		return filepath.Join(p.World().Root, "tmp")
	}
	return os.TempDir()
}

func UserHomeDir() (string, error) {
	if p := proc(); p != nil {
		if v, ok := p.Getenv("HOME"); ok && v != "" {
			return v, nil
		}
		return "", errors.New("$HOME is not defined")
	}
	return os.UserHomeDir()
}

func Hostname() (string, error) { return "simhost", nil }

func Executable() (string, error) {
	p := proc()
	if p == nil {
		return os.Executable()
	}
	// A small file standing for the orchestrion binary.
	path := filepath.Join(p.World().Root, "orchestrion.exe")
	if _, err := os.Stat(path); err != nil {
		_ = os.WriteFile(path, []byte("orchestrion binary"), 0o755)
	}
	return path, nil
}

func Exit(code int) {
	if p := proc(); p != nil {
		p.Exit(code)
		return
	}
	os.Exit(code)
}

// ---------------------------------------------------------------------------
// Files

// File replaces os.File.
type File struct {
	*os.File
	name   string
	p      *sim.Proc
	w      io.Writer // standard streams
	closed bool
	dirty  bool
	bad    int64 // 1 + offset of the first byte that cannot be read
}

func (f *File) Name() string { return f.name }

func pathErr(op, path string, errno syscall.Errno) error {
	return &fs.PathError{Op: op, Path: path, Err: errno}
}

// denied returns an error (and records a violation) for mutations outside of the scratch directory.
func denied(p *sim.Proc, op, path string) error {
	w := p.World()
	if w.FS.Contained(path) {
		return nil
	}
	w.Values["escape"] = fmt.Sprintf("%s %s", op, path)
	w.Count("escape-denied")
	w.Logf("denied: %s %s (process %d)", op, path, p.Idx)
	return pathErr(op, path, syscall.EACCES)
}

// begin is the common prologue of operations.
func begin(op, path string) (p *sim.Proc, abs string, fault string, err error) {
	p = proc()
	if p == nil {
		return nil, path, "", nil
	}
	if sim.Unwinding() {
		return p, "", "", errKilled
	}
	abs = p.Abs(path)
	fault = p.World().FS.Op(p, op, abs)
	return p, abs, fault, nil
}

func errno(p *sim.Proc, opts ...syscall.Errno) syscall.Errno {
	return opts[p.World().Choose(len(opts))]
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	op := "open"
	if flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND) != 0 {
		op = "create"
	}
	p, abs, fault, err := begin(op, name)
	if err != nil {
		return nil, pathErr("open", name, syscall.EINTR)
	}
	if p == nil {
		f, err := os.OpenFile(name, flag, perm)
		if err != nil {
			return nil, err
		}
		return &File{File: f, name: name}, nil
	}
	if op == "create" {
		if err := denied(p, "open", abs); err != nil {
			return nil, err
		}
	}
	if fault == "err" {
		if op == "create" {
			return nil, pathErr("open", name, errno(p, syscall.ENOSPC, syscall.EACCES, syscall.EMFILE))
		}
		return nil, pathErr("open", name, errno(p, syscall.EMFILE, syscall.EIO, syscall.EACCES))
	}
	f, err := os.OpenFile(abs, flag|syscall.O_CLOEXEC, perm)
	if err != nil {
		return nil, rename(err, name)
	}
	res := &File{File: f, name: name, p: p}
	p.OnExit(func() { res.release() })
	return res, nil
}

func rename(err error, name string) error {
	var pe *fs.PathError
	if errors.As(err, &pe) {
		return &fs.PathError{Op: pe.Op, Path: name, Err: pe.Err}
	}
	return err
}

func (f *File) release() {
	if f.closed || f.File == nil {
		return
	}
	f.closed = true
	fd := int(f.File.Fd())
	_ = f.File.Close()
	if f.p != nil {
		// Closing the file description releases its lock.
		if w := f.p.World(); w.FS.HoldsLock[fd] {
			delete(w.FS.HoldsLock, fd)
			w.FS.Locks.WakeAll(w)
		}
	}
}

func (f *File) op(op string) (string, error) {
	if f.p == nil {
		return "", nil
	}
	if sim.Unwinding() {
		return "", errKilled
	}
	return f.p.World().FS.Op(f.p, op, f.abs()), nil
}

func (f *File) abs() string {
	if f.p != nil {
		return f.p.Abs(f.name)
	}
	return f.name
}

func (f *File) Close() error {
	if f.w != nil {
		return nil
	}
	if f.File == nil {
		return nil
	}
	fault, err := f.op("close")
	if err != nil {
		return err
	}
	if f.closed {
		return &fs.PathError{Op: "close", Path: f.name, Err: os.ErrClosed}
	}
	if fault == "err" {
		// Delayed write error (NFS, quota): data that was buffered is lost.
		if f.dirty {
			if st, err := f.File.Stat(); err == nil && st.Size() > 0 {
				_ = f.File.Truncate(int64(f.p.World().Choose(int(st.Size()))))
			}
		}
		f.release()
		return pathErr("close", f.name, errno(f.p, syscall.EIO, syscall.ENOSPC))
	}
	if f.p == nil {
		f.closed = true
		return f.File.Close()
	}
	f.release()
	return nil
}

func (f *File) Read(b []byte) (int, error) {
	if f.File == nil {
		return 0, io.EOF
	}
	fault, err := f.op("read")
	if err != nil {
		return 0, err
	}
	if fault == "err" {
		return 0, pathErr("read", f.name, syscall.EIO)
	}
	if fault == "short" && len(b) > 1 {
		b = b[:1+f.p.World().Choose(min(len(b)-1, 64))]
	}
	if fault == "bad" {
		f.damage()
	}
	if f.bad > 0 {
		at, err := f.File.Seek(0, io.SeekCurrent)
		if err != nil {
			return 0, err
		}
		left := f.bad - 1 - at
		if left <= 0 {
			return 0, pathErr("read", f.name, syscall.EIO)
		}
		b = b[:min(int64(len(b)), left)]
	}
	if f.p != nil && len(b) > f.p.World().FS.Chunk {
		b = b[:f.p.World().FS.Chunk]
	}
	return f.File.Read(b)
}

// damage makes the rest of the file unreadable from somewhere after what was read of it.
func (f *File) damage() {
	at, err := f.File.Seek(0, io.SeekCurrent)
	if err != nil {
		return
	}
	info, err := f.File.Stat()
	if err != nil || !info.Mode().IsRegular() || info.Size() <= at {
		return
	}
	w := f.p.World()
	left := int(info.Size() - at)
	if w.Chance(2) {
		left = min(left, 256)
	}
	f.bad = 1 + at + int64(w.Choose(left))
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f.File == nil {
		return 0, io.EOF
	}
	fault, err := f.op("read")
	if err != nil {
		return 0, err
	}
	if fault == "err" || fault == "short" || fault == "bad" || (f.bad > 0 && off+int64(len(b)) >= f.bad) {
		return 0, pathErr("read", f.name, syscall.EIO)
	}
	return f.File.ReadAt(b, off)
}

func (f *File) write(b []byte, do func([]byte) (int, error)) (int, error) {
	if sim.Unwinding() {
		return 0, errKilled
	}
	if f.w != nil {
		return f.w.Write(b)
	}
	if f.File == nil {
		return 0, os.ErrInvalid
	}
	if f.p == nil {
		return do(b)
	}
	w := f.p.World()
	f.dirty = true
	total := 0
	for first := true; first || len(b) > 0; first = false {
		part := b
		if len(part) > w.FS.Chunk {
			part = part[:w.FS.Chunk]
		}
		fault, err := f.op("write")
		if err != nil {
			return total, err
		}
		switch fault {
		case "err":
			return total, pathErr("write", f.name, errno(f.p, syscall.ENOSPC, syscall.EIO))
		case "short":
			n := 0
			if len(part) > 0 {
				n, _ = do(part[:w.Choose(len(part))])
			}
			return total + n, pathErr("write", f.name, syscall.ENOSPC)
		case "torn":
			if len(part) > 0 {
				_, _ = do(part[:w.Choose(len(part))])
			}
			f.p.Kill("crash during write " + filepath.Base(f.name))
		}
		n, err := do(part)
		total += n
		if err != nil {
			return total, err
		}
		b = b[len(part):]
	}
	return total, nil
}

func (f *File) Write(b []byte) (int, error) {
	return f.write(b, func(b []byte) (int, error) { return f.File.Write(b) })
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	return f.write(b, func(b []byte) (int, error) {
		n, err := f.File.WriteAt(b, off)
		off += int64(n)
		return n, err
	})
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, struct{ io.Reader }{r})
}

func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(struct{ io.Writer }{w}, struct{ io.Reader }{f})
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if f.File == nil {
		return 0, os.ErrInvalid
	}
	fault, err := f.op("seek")
	if err != nil {
		return 0, err
	}
	if fault == "err" {
		return 0, pathErr("seek", f.name, syscall.EIO)
	}
	return f.File.Seek(off, whence)
}

func (f *File) Truncate(n int64) error {
	fault, err := f.op("write")
	if err != nil {
		return err
	}
	if fault != "" {
		if fault == "torn" {
			f.p.Kill("crash during truncate")
		}
		return pathErr("truncate", f.name, syscall.EIO)
	}
	return f.File.Truncate(n)
}

func (f *File) Sync() error {
	if f.File == nil {
		return nil
	}
	fault, err := f.op("close")
	if err != nil {
		return err
	}
	if fault == "err" {
		return pathErr("sync", f.name, syscall.EIO)
	}
	return nil
}

func ReadFile(name string) ([]byte, error) {
	if proc() == nil {
		return os.ReadFile(name)
	}
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	if proc() == nil {
		return os.WriteFile(name, data, perm)
	}
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func CreateTemp(dir, pattern string) (*File, error) {
	p := proc()
	if p == nil {
		f, err := os.CreateTemp(dir, pattern)
		if err != nil {
			return nil, err
		}
		return &File{File: f, name: f.Name()}, nil
	}
	if dir == "" {
		dir = TempDir()
	}
	return OpenFile(filepath.Join(dir, tempName(p, pattern)), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}

func tempName(p *sim.Proc, pattern string) string {
	n := fmt.Sprintf("%09d", p.World().FS.NextTemp())
	if pre, post, ok := cutLast(pattern, "*"); ok {
		return pre + n + post
	}
	return pattern + n
}

func cutLast(s, sep string) (string, string, bool) {
	if i := strings.LastIndex(s, sep); i >= 0 {
		return s[:i], s[i+len(sep):], true
	}
	return s, "", false
}

func MkdirTemp(dir, pattern string) (string, error) {
	p := proc()
	if p == nil {
		return os.MkdirTemp(dir, pattern)
	}
	if dir == "" {
		dir = TempDir()
	}
	name := filepath.Join(dir, tempName(p, pattern))
	if err := Mkdir(name, 0o700); err != nil {
		return "", err
	}
	return name, nil
}

func mutate(op, fop, name string, do func(abs string) error) error {
	p, abs, fault, err := begin(op, name)
	if err != nil {
		return pathErr(fop, name, syscall.EINTR)
	}
	if p == nil {
		return do(name)
	}
	if err := denied(p, fop, abs); err != nil {
		return err
	}
	switch fault {
	case "err":
		return pathErr(fop, name, errno(p, syscall.EIO, syscall.ENOSPC, syscall.EACCES))
	case "crash-after":
		_ = do(abs)
		p.Kill("crash after " + fop + " " + filepath.Base(abs))
	}
	return rename(do(abs), name)
}

func Mkdir(name string, perm os.FileMode) error {
	return mutate("mkdir", "mkdir", name, func(abs string) error { return os.Mkdir(abs, perm) })
}

func MkdirAll(name string, perm os.FileMode) error {
	return mutate("mkdir", "mkdir", name, func(abs string) error { return os.MkdirAll(abs, perm) })
}

// OnRemove is notified of removed paths (file system watchers).
var onRemove func(w *sim.World, abs string)

func SetOnRemove(fn func(w *sim.World, abs string)) { onRemove = fn }

func Remove(name string) error {
	return mutate("remove", "remove", name, func(abs string) error {
		err := os.Remove(abs)
		if err == nil && onRemove != nil && sim.Active() != nil {
			onRemove(sim.Active(), abs)
		}
		return err
	})
}

func RemoveAll(name string) error {
	return mutate("remove", "unlinkat", name, func(abs string) error {
		err := os.RemoveAll(abs)
		if err == nil && onRemove != nil && sim.Active() != nil {
			onRemove(sim.Active(), abs)
		}
		return err
	})
}

func Rename(from, to string) error {
	p := proc()
	if p != nil {
		if err := denied(p, "rename", p.Abs(from)); err != nil {
			return err
		}
	}
	return mutate("rename", "rename", to, func(abs string) error {
		src := from
		if p != nil {
			src = p.Abs(from)
		}
		err := os.Rename(src, abs)
		if err == nil && onRemove != nil && sim.Active() != nil {
			onRemove(sim.Active(), src)
		}
		return err
	})
}

func Link(from, to string) error {
	p := proc()
	return mutate("link", "link", to, func(abs string) error {
		src := from
		if p != nil {
			src = p.Abs(from)
		}
		return os.Link(src, abs)
	})
}

func Symlink(from, to string) error {
	return mutate("link", "symlink", to, func(abs string) error { return os.Symlink(from, abs) })
}

func Chmod(name string, mode os.FileMode) error {
	return mutate("stat", "chmod", name, func(abs string) error { return os.Chmod(abs, mode) })
}

func Chtimes(name string, a, m time.Time) error {
	return mutate("stat", "chtimes", name, func(abs string) error { return os.Chtimes(abs, a, m) })
}

func Truncate(name string, size int64) error {
	return mutate("create", "truncate", name, func(abs string) error { return os.Truncate(abs, size) })
}

func inspect[T any](op, fop, name string, do func(abs string) (T, error)) (T, error) {
	var zero T
	p, abs, fault, err := begin(op, name)
	if err != nil {
		return zero, pathErr(fop, name, syscall.EINTR)
	}
	if p == nil {
		return do(name)
	}
	if fault == "err" {
		return zero, pathErr(fop, name, errno(p, syscall.EIO, syscall.EACCES))
	}
	v, err := do(abs)
	return v, rename(err, name)
}

func Stat(name string) (os.FileInfo, error)  { return inspect("stat", "stat", name, os.Stat) }
func Lstat(name string) (os.FileInfo, error) { return inspect("stat", "lstat", name, os.Lstat) }
func ReadDir(name string) ([]os.DirEntry, error) {
	return inspect("readdir", "open", name, os.ReadDir)
}
func Readlink(name string) (string, error) { return inspect("stat", "readlink", name, os.Readlink) }

func DirFS(dir string) fs.FS {
	if p := proc(); p != nil {
		dir = p.Abs(dir)
	}
	return os.DirFS(dir)
}

// Pipe is an in-memory pipe.
func Pipe() (*PipeFile, *PipeFile, error) {
	r, w := io.Pipe()
	return &PipeFile{r: r}, &PipeFile{w: w}, nil
}

// PipeFile is one end of a Pipe.
type PipeFile struct {
	r *io.PipeReader
	w *io.PipeWriter
}

func (f *PipeFile) Read(b []byte) (int, error) {
	sim.Point()
	n, err := f.r.Read(b)
	sim.Point()
	return n, err
}

func (f *PipeFile) Write(b []byte) (int, error) {
	sim.Point()
	n, err := f.w.Write(b)
	sim.Point()
	return n, err
}

func (f *PipeFile) Close() error {
	if f.r != nil {
		return f.r.Close()
	}
	return f.w.Close()
}
