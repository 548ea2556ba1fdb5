// Package simrand stands in for math/rand (and math/rand/v2) in instrumented
// code: the same values a real source could return, chosen by the simulator.
package simrand

import (
	mrand "math/rand"

	"vsim.local/simrt"
)

// Mode of the random source. The spec of math/rand promises a value in range
// and nothing else, so every sequence in range is one the code may meet.
const (
	Uniform = iota // splitmix64 from Seed
	Small          // values from a small range: repeats are frequent
	Const          // the same value every time
	Cycle          // a short cycle of values
	Max            // the largest value in range
)

var (
	ModeOf int
	state  uint64
	k      uint64
	Draws  int64
)

// Seed is also the name of a function of math/rand, which must have no effect
// here: the simulator alone decides what is drawn.
func Seed(int64) {}

//go:norace
func Reset(mode int, seed uint64) { ModeOf, state, k, since = mode, seed, seed%7, 0 }

//go:norace
func mix() uint64 {
	state += 0x9e3779b97f4a7c15
	z := state
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// mode is the regime in force: every degenerate one gives way to uniform draws
// now and then, so code that draws until it likes the value still ends.
//
//go:norace
func mode() int {
	since++
	if since%96 >= 80 {
		return Uniform
	}
	return ModeOf
}

var since uint64

//go:norace
func below(n uint64) uint64 {
	Draws++
	if n == 0 {
		panic("invalid argument to Intn")
	}
	switch mode() {
	case Small:
		m := n
		if m > 2 {
			m = 2
		}
		return mix() % m
	case Const:
		return k % n
	case Cycle:
		k++
		return (k % 8) % n
	case Max:
		return n - 1
	}
	return mix() % n
}

//go:norace
func raw() uint64 {
	Draws++
	switch mode() {
	case Small:
		return mix() & 1
	case Const:
		return k
	case Cycle:
		k++
		return k % 8
	case Max:
		return ^uint64(0)
	}
	return mix()
}

type src struct{}

func (src) Int63() int64   { return int64(raw() >> 1) }
func (src) Uint64() uint64 { return raw() }
func (src) Seed(int64)     {}

type Source interface {
	Int63() int64
	Seed(seed int64)
}
type Source64 interface {
	Source
	Uint64() uint64
}

func NewSource(int64) Source { return src{} }

type PCG struct{ src }
type ChaCha8 struct{ src }

func NewPCG(a, b uint64) *PCG                 { return &PCG{} }
func NewChaCha8([32]byte) *ChaCha8            { return &ChaCha8{} }
func (c *ChaCha8) Read(p []byte) (int, error) { return Read(p) }

// Rand has the methods of both versions' Rand type.
type Rand struct{ _ int }

func New(interface{}) *Rand { return &Rand{} }

func (*Rand) Seed(int64)                      {}
func (*Rand) Int() int                        { return Int() }
func (*Rand) Intn(n int) int                  { return Intn(n) }
func (*Rand) IntN(n int) int                  { return Intn(n) }
func (*Rand) Int31() int32                    { return Int31() }
func (*Rand) Int31n(n int32) int32            { return Int31n(n) }
func (*Rand) Int32N(n int32) int32            { return Int31n(n) }
func (*Rand) Int63() int64                    { return Int63() }
func (*Rand) Int63n(n int64) int64            { return Int63n(n) }
func (*Rand) Int64() int64                    { return Int63() }
func (*Rand) Int64N(n int64) int64            { return Int63n(n) }
func (*Rand) Uint32() uint32                  { return Uint32() }
func (*Rand) Uint64() uint64                  { return Uint64() }
func (*Rand) Uint64N(n uint64) uint64         { return below(n) }
func (*Rand) Float64() float64                { return Float64() }
func (*Rand) Float32() float32                { return Float32() }
func (*Rand) Perm(n int) []int                { return Perm(n) }
func (*Rand) Shuffle(n int, f func(i, j int)) { Shuffle(n, f) }
func (*Rand) Read(p []byte) (int, error)      { return Read(p) }

func Int() int                { return int(raw() >> 1) }
func Intn(n int) int          { return int(below(uint64(n))) }
func IntN(n int) int          { return int(below(uint64(n))) }
func Int31() int32            { return int32(raw() >> 33) }
func Int31n(n int32) int32    { return int32(below(uint64(n))) }
func Int32() int32            { return Int31() }
func Int32N(n int32) int32    { return Int31n(n) }
func Int63() int64            { return int64(raw() >> 1) }
func Int63n(n int64) int64    { return int64(below(uint64(n))) }
func Int64() int64            { return Int63() }
func Int64N(n int64) int64    { return Int63n(n) }
func Uint32() uint32          { return uint32(raw() >> 32) }
func Uint64() uint64          { return raw() }
func Uint() uint              { return uint(raw()) }
func UintN(n uint) uint       { return uint(below(uint64(n))) }
func Uint32N(n uint32) uint32 { return uint32(below(uint64(n))) }
func Uint64N(n uint64) uint64 { return below(n) }
func Float64() float64        { return float64(raw()>>11) / (1 << 53) }
func Float32() float32        { return float32(raw()>>40) / (1 << 24) }
func NormFloat64() float64    { return Float64()*2 - 1 }
func ExpFloat64() float64     { return Float64() }

func N[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](n T) T {
	return T(below(uint64(n)))
}

func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}

func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(raw())
	}
	return len(p), nil
}

// Reader is the simulated crypto/rand.Reader.
var Reader = reader{}

type reader struct{}

func (reader) Read(p []byte) (int, error) { return Read(p) }

var _ = mrand.Int
var _ = simrt.Y
