// Package srand replaces the global functions of math/rand; draws are simulator decisions.
package srand

import "verif.local/vsim/core"

// Extreme makes the next draws the smallest (1) or the largest (2) the source can give.
var Extreme, Left int

func extreme() int {
	if Extreme != 0 {
		if Left > 0 {
			Left--
			return Extreme
		}
		Extreme = 0
	}
	return 0
}

func choose(n int) int {
	switch extreme() {
	case 1:
		return 0
	case 2:
		return n - 1
	}
	return core.Choose(n)
}

func bits() uint64 {
	switch extreme() {
	case 1:
		return 0
	case 2:
		return 1<<64 - 1
	}
	return core.Rand64()
}

func Seed(int64)       {}
func Int63() int64     { return int64(bits() >> 1) }
func Uint32() uint32   { return uint32(bits() >> 32) }
func Uint64() uint64   { return bits() }
func Int31() int32     { return int32(bits() >> 33) }
func Int() int         { return int(uint(bits()) >> 1) }
func Float64() float64 { return float64(bits()>>11) / (1 << 53) }
func Float32() float32 { return float32(bits()>>40) / (1 << 24) }
func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return choose(n)
}
func Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return int64(choose(int(n)))
}
func Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return int32(choose(int(n)))
}

// math/rand/v2 names
func IntN(n int) int          { return Intn(n) }
func Int64() int64            { return Int63() }
func Int32() int32            { return Int31() }
func Int64N(n int64) int64    { return Int63n(n) }
func Int32N(n int32) int32    { return Int31n(n) }
func UintN(n uint) uint       { return uint(Intn(int(n))) }
func Uint32N(n uint32) uint32 { return uint32(Intn(int(n))) }
func Uint64N(n uint64) uint64 { return uint64(Intn(int(n))) }

// N is rand/v2.N.
func N[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	return T(Intn(int(n)))
}
func Perm(n int) []int {
	m := make([]int, n)
	for i := 0; i < n; i++ {
		j := choose(i + 1)
		m[i] = m[j]
		m[j] = i
	}
	return m
}
func Shuffle(n int, swap func(i, j int)) {
	if n < 0 {
		panic("invalid argument to Shuffle")
	}
	for i := n - 1; i > 0; i-- {
		swap(i, choose(i+1))
	}
}
func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(bits())
	}
	return len(p), nil
}
func NormFloat64() float64 { return Float64()*2 - 1 }
func ExpFloat64() float64  { return Float64() }
