// Package simsyscall replaces syscall.Flock in instrumented code.
package simsyscall

import (
	"errors"
	"syscall"

	"github.com/DataDog/orchestrion/internal/verifsim/sim"
)

// Flock uses the real flock(2) without ever blocking the thread.
func Flock(fd int, how int) error {
	p := sim.CurProc()
	if p == nil {
		return syscall.Flock(fd, how)
	}
	if sim.Unwinding() {
		return syscall.EINTR
	}
	w := p.World()
	if f := w.FS.Op(p, "flock", "flock"); f == "err" && how&syscall.LOCK_UN == 0 {
		return syscall.ENOLCK
	}
	if how&syscall.LOCK_UN != 0 {
		err := syscall.Flock(fd, how)
		delete(w.FS.HoldsLock, fd)
		w.FS.Locks.WakeAll(w)
		sim.Point()
		return err
	}
	for {
		err := syscall.Flock(fd, how|syscall.LOCK_NB)
		if err == nil {
			if w.FS.HoldsLock[fd] {
				// A conversion may have released a stronger lock.
				w.FS.Locks.WakeAll(w)
			}
			w.FS.HoldsLock[fd] = true
			sim.Point()
			return nil
		}
		if how&syscall.LOCK_NB != 0 || !errors.Is(err, syscall.EWOULDBLOCK) {
			return err
		}
		if w.FS.HoldsLock[fd] {
			// The failed conversion lost the original lock.
			delete(w.FS.HoldsLock, fd)
			w.FS.Locks.WakeAll(w)
		}
		w.Count("flock-contended")
		if !sim.Block(&w.FS.Locks, "flock") {
			return syscall.EINTR
		}
	}
}
