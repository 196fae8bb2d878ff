// Package rand: math/rand with a fixed seed per process life.
package rand

import (
	realrand "math/rand"

	"verifsim/simrt"
)

type Rand = realrand.Rand

var (
	New       = realrand.New
	NewSource = realrand.NewSource
	g         *realrand.Rand
	gen       uint64
)

func r() *realrand.Rand {
	if g == nil || gen != simrt.Gen() {
		gen = simrt.Gen()
		g = realrand.New(realrand.NewSource(1))
	}
	return g
}

func Seed(int64)                      {}
func Int() int                        { return r().Int() }
func Intn(n int) int                  { return r().Intn(n) }
func Int63() int64                    { return r().Int63() }
func Int63n(n int64) int64            { return r().Int63n(n) }
func Int31() int32                    { return r().Int31() }
func Int31n(n int32) int32            { return r().Int31n(n) }
func Uint32() uint32                  { return r().Uint32() }
func Uint64() uint64                  { return r().Uint64() }
func Float64() float64                { return r().Float64() }
func Perm(n int) []int                { return r().Perm(n) }
func Shuffle(n int, f func(i, j int)) { r().Shuffle(n, f) }
