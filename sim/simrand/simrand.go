// Package simrand replaces math/rand and math/rand/v2 top-level functions.
package simrand

import "github.com/DataDog/orchestrion/internal/verifsim/sim"

func draw(n int) int {
	if w := sim.Active(); w != nil && sim.Managed() {
		return w.Choose(n)
	}
	return 0
}

func Intn(n int) int       { return draw(n) }
func IntN(n int) int       { return draw(n) }
func Int63n(n int64) int64 { return int64(draw(int(min(n, 1<<30)))) }
func Int64N(n int64) int64 { return Int63n(n) }
func Int31n(n int32) int32 { return int32(draw(int(n))) }
func Int() int             { return draw(1 << 30) }
func Int63() int64         { return int64(draw(1 << 30)) }
func Uint32() uint32       { return uint32(draw(1 << 30)) }
func Uint64() uint64       { return uint64(draw(1<<30))<<30 | uint64(draw(1<<30)) }
func Float64() float64     { return float64(draw(1<<30)) / (1 << 30) }
func Perm(n int) []int {
	if w := sim.Active(); w != nil && sim.Managed() {
		return w.Perm(n)
	}
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, draw(i+1))
	}
}
