// Package simfsnotify replaces fsnotify: watchers observe the simulated
// processes' file operations.
package simfsnotify

import (
	"errors"
	"os"
	"sync"
	"syscall"

	"github.com/fsnotify/fsnotify"

	"github.com/DataDog/orchestrion/internal/verifsim/sim"
	"github.com/DataDog/orchestrion/internal/verifsim/simos"
)

// Watcher replaces fsnotify.Watcher.
type Watcher struct {
	Events chan fsnotify.Event
	Errors chan error

	w      *sim.World
	p      *sim.Proc
	mu     sync.Mutex
	closed bool
	watch  map[string]uint64
	n      int
}

func init() {
	simos.SetOnRemove(func(w *sim.World, abs string) {
		ws, _ := w.Values["fsnotify"].([]*Watcher)
		for _, x := range ws {
			x.changed()
		}
	})
}

func NewWatcher() (*Watcher, error) {
	w, p := sim.Active(), sim.CurProc()
	if w == nil || p == nil {
		return nil, errors.New("simfsnotify: not in a simulated process")
	}
	if w.FS.Op(p, "open", "inotify") == "err" {
		return nil, os.NewSyscallError("inotify_init", syscall.EMFILE)
	}
	x := &Watcher{Events: make(chan fsnotify.Event), Errors: make(chan error), w: w, p: p, watch: map[string]uint64{}}
	ws, _ := w.Values["fsnotify"].([]*Watcher)
	w.Values["fsnotify"] = append(ws, x)
	return x, nil
}

func ino(path string) (uint64, error) {
	st, err := os.Stat(path)
	if err != nil {
		return 0, err
	}
	return st.Sys().(*syscall.Stat_t).Ino, nil
}

func (x *Watcher) Add(name string) error {
	if x.closed {
		return fsnotify.ErrClosed
	}
	abs := x.p.Abs(name)
	if x.w.FS.Op(x.p, "stat", abs) == "err" {
		return &os.PathError{Op: "inotify_add_watch", Path: name, Err: syscall.ENOSPC}
	}
	n, err := ino(abs)
	if err != nil {
		return err
	}
	x.watch[abs] = n
	return nil
}

func (x *Watcher) Remove(name string) error {
	delete(x.watch, x.p.Abs(name))
	return nil
}

func (x *Watcher) WatchList() []string { return sim.SortedKeys(x.watch) }

func (x *Watcher) changed() {
	if x.closed || x.p.Dead() {
		return
	}
	for _, path := range sim.SortedKeys(x.watch) {
		if n, err := ino(path); err == nil && n == x.watch[path] {
			continue
		}
		delete(x.watch, path)
		x.n++
		x.w.StartIn(x.p, "fsnotify", func() {
			for _, op := range []fsnotify.Op{fsnotify.Chmod, fsnotify.Remove} {
				if x.closed {
					return
				}
				x.send(fsnotify.Event{Name: path, Op: op})
			}
		})
	}
}

func (x *Watcher) send(e fsnotify.Event) {
	defer func() { _ = recover() }() // closed concurrently
	sim.Send(x.Events)(e)
}

func (x *Watcher) Close() error {
	if sim.Unwinding() || x.closed {
		return nil
	}
	x.closed = true
	close(x.Events)
	close(x.Errors)
	return nil
}
