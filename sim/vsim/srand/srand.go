// Package srand stands in for math/rand and crypto/rand: everything is drawn from the seed of the run.
package srand

import (
	"io"

	"ecksbee.com/telefacts/vsim"
)

// Seeded is set by the driver at the start of a run.
var Seeded = vsim.NewRand(1)

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(draw())
	}
	return len(b), nil
}

//go:norace
func draw() uint64 { return Seeded.U64() }

var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return Reader.Read(b) }
func Seed(int64)                 {}
func Int() int                   { return int(draw() >> 1) }
func Intn(n int) int             { return int(draw() % uint64(n)) }
func IntN(n int) int             { return int(draw() % uint64(n)) }
func Int63() int64               { return int64(draw() >> 1) }
func Int63n(n int64) int64       { return int64(draw()>>1) % n }
func Int31() int32               { return int32(draw() >> 33) }
func Int31n(n int32) int32       { return int32(draw()>>33) % n }
func Uint32() uint32             { return uint32(draw() >> 32) }
func Uint64() uint64             { return draw() }
func Float64() float64           { return float64(draw()>>11) / (1 << 53) }
func Float32() float32           { return float32(draw()>>40) / (1 << 24) }
func Int32() int32               { return int32(draw() >> 33) }
func Int32N(n int32) int32       { return int32(draw()>>33) % n }
func Int64() int64               { return int64(draw() >> 1) }
func Int64N(n int64) int64       { return int64(draw()>>1) % n }
func Uint() uint                 { return uint(draw()) }
func UintN(n uint) uint          { return uint(draw()) % n }
func Uint32N(n uint32) uint32    { return uint32(draw()>>32) % n }
func Uint64N(n uint64) uint64    { return draw() % n }

func N[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	return T(draw() % uint64(n))
}

func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}
