package sim

import "unsafe"

func ptr[T any](p *T) unsafe.Pointer { return unsafe.Pointer(p) }

// Rand is a SplitMix64 generator; the only source of randomness of a run.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{s: seed} }

func (r *Rand) Uint64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Choices is the stream of decisions of a run: drawn from a seeded generator
// and recorded, or replayed from a recording (missing decisions are 0, the
// simplest option).
type Choices struct {
	rng      *Rand
	Recorded []uint32
	replay   []uint32
	isReplay bool
	pos      int
}

func SeededChoices(seed uint64) *Choices { return &Choices{rng: NewRand(seed)} }

func ReplayChoices(rec []uint32) *Choices { return &Choices{replay: rec, isReplay: true} }

func (c *Choices) next(n uint32) uint32 {
	var v uint32
	if c.isReplay {
		if c.pos < len(c.replay) {
			v = c.replay[c.pos] % n
		}
		c.pos++
	} else {
		v = uint32(c.rng.Uint64() % uint64(n))
	}
	c.Recorded = append(c.Recorded, v)
	return v
}
