// Package vrand replaces math/rand's global generator: the value is an
// environment choice among a few representatives.
package vrand

import "ustack/vrt"

func pick(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	m := n
	if m > 3 {
		m = 3
	}
	if !vrt.Active() {
		return 0
	}
	return vrt.Deviate(m)
}

func Seed(int64)           {}
func Int() int             { return pick(3) }
func Intn(n int) int       { return pick(n) }
func Int31n(n int32) int32 { return int32(pick(int(n))) }
func Int63n(n int64) int64 { return int64(pick(int(n))) }
func Int63() int64         { return int64(pick(3)) }
func Uint32() uint32       { return uint32(pick(3)) }
func Uint64() uint64       { return uint64(pick(3)) }
func Float64() float64     { return float64(pick(3)) / 3 }
