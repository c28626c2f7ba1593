// Package smaps stands in for the order-dependent parts of package maps.
package smaps

import (
	"iter"

	"ecksbee.com/telefacts/vsim"
)

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, e := range vsim.Entries(m) {
			if e.Live() && !yield(e.K(), e.V()) {
				return
			}
		}
	}
}

func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, e := range vsim.Entries(m) {
			if e.Live() && !yield(e.K()) {
				return
			}
		}
	}
}

func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, e := range vsim.Entries(m) {
			if e.Live() && !yield(e.V()) {
				return
			}
		}
	}
}
