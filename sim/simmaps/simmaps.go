// Package simmaps replaces the iterators of package maps in instrumented code.
package simmaps

import (
	"iter"

	"github.com/DataDog/orchestrion/internal/verifsim/sim"
)

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return sim.MapRange(m) }

func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range sim.MapRange(m) {
			if !yield(k) {
				return
			}
		}
	}
}

func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range sim.MapRange(m) {
			if !yield(v) {
				return
			}
		}
	}
}
