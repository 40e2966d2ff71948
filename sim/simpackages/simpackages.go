// Package simpackages replaces packages.Load (which runs the go command) by a
// model provided by the scenario.
package simpackages

import (
	"errors"

	"golang.org/x/tools/go/packages"

	"github.com/DataDog/orchestrion/internal/verifsim/sim"
)

// Loader is the model of the go command's package loading.
type Loader func(p *sim.Proc, cfg *packages.Config, patterns ...string) ([]*packages.Package, error)

// SetLoader installs the model for the current run.
func SetLoader(w *sim.World, l Loader) { w.Values["packages.Load"] = l }

func Load(cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
	w, p := sim.Active(), sim.CurProc()
	if w == nil || p == nil {
		return packages.Load(cfg, patterns...)
	}
	sim.Point()
	if sim.Unwinding() {
		return nil, errors.New("process was killed")
	}
	l, ok := w.Values["packages.Load"].(Loader)
	if !ok {
		return nil, errors.New("simpackages: no loader in this scenario")
	}
	if cfg == nil {
		cfg = &packages.Config{}
	}
	res, err := l(p, cfg, patterns...)
	sim.Point()
	return res, err
}
