// Package simuuid replaces the random generators of github.com/google/uuid.
package simuuid

import (
	"fmt"

	"github.com/DataDog/orchestrion/internal/verifsim/sim"
	"github.com/google/uuid"
)

func next() (uuid.UUID, bool) {
	w := sim.Active()
	if w == nil || !sim.Managed() {
		return uuid.UUID{}, false
	}
	n, _ := w.Values["uuid"].(int)
	n++
	w.Values["uuid"] = n
	return uuid.NewSHA1(uuid.NameSpaceOID, []byte(fmt.Sprintf("sim-%d", n))), true
}

func New() uuid.UUID {
	if u, ok := next(); ok {
		return u
	}
	return uuid.New()
}

func NewString() string { return New().String() }

func NewRandom() (uuid.UUID, error) { return New(), nil }

func NewUUID() (uuid.UUID, error) { return New(), nil }

func NewV7() (uuid.UUID, error) { return New(), nil }
