// Package simmrand stands in for math/rand in the code under test. Generators
// made from an explicit seed are the real ones; the package-level source is
// deterministic, as a program that seeds it from the clock would be.
package simmrand

import (
	mrand "math/rand"
	"sync"
)

type (
	Rand     = mrand.Rand
	Source   = mrand.Source
	Source64 = mrand.Source64
	Zipf     = mrand.Zipf
)

var (
	New       = mrand.New
	NewSource = mrand.NewSource
	NewZipf   = mrand.NewZipf
	mu        sync.Mutex
	global    = mrand.New(mrand.NewSource(1))
)

// Reset restarts the package-level source.
func Reset() { global = mrand.New(mrand.NewSource(1)) }

func with[T any](f func(r *mrand.Rand) T) T { mu.Lock(); defer mu.Unlock(); return f(global) }

func Seed(s int64)         { with(func(r *mrand.Rand) int { r.Seed(s); return 0 }) }
func Int() int             { return with((*mrand.Rand).Int) }
func Int31() int32         { return with((*mrand.Rand).Int31) }
func Int63() int64         { return with((*mrand.Rand).Int63) }
func Uint32() uint32       { return with((*mrand.Rand).Uint32) }
func Uint64() uint64       { return with((*mrand.Rand).Uint64) }
func Float64() float64     { return with((*mrand.Rand).Float64) }
func Float32() float32     { return with((*mrand.Rand).Float32) }
func NormFloat64() float64 { return with((*mrand.Rand).NormFloat64) }
func ExpFloat64() float64  { return with((*mrand.Rand).ExpFloat64) }
func Intn(n int) int       { return with(func(r *mrand.Rand) int { return r.Intn(n) }) }
func Int31n(n int32) int32 { return with(func(r *mrand.Rand) int32 { return r.Int31n(n) }) }
func Int63n(n int64) int64 { return with(func(r *mrand.Rand) int64 { return r.Int63n(n) }) }
func Perm(n int) []int     { return with(func(r *mrand.Rand) []int { return r.Perm(n) }) }
func Shuffle(n int, f func(i, j int)) {
	with(func(r *mrand.Rand) int { r.Shuffle(n, f); return 0 })
}
func Read(p []byte) (int, error) { mu.Lock(); defer mu.Unlock(); return global.Read(p) }
