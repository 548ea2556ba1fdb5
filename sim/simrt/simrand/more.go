package simrand

// Zipf yields what any distribution may.
type Zipf struct{ max uint64 }

func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return &Zipf{imax} }

func (z *Zipf) Uint64() uint64 {
	if z.max == ^uint64(0) {
		return raw()
	}
	return below(z.max + 1)
}

func (*Rand) ExpFloat64() float64     { return ExpFloat64() }
func (*Rand) NormFloat64() float64    { return NormFloat64() }
func (*Rand) Int32() int32            { return Int31() }
func (*Rand) Uint() uint              { return Uint() }
func (*Rand) UintN(n uint) uint       { return UintN(n) }
func (*Rand) Uint32N(n uint32) uint32 { return Uint32N(n) }
func (*Rand) N(n uint64) uint64       { return below(n) }

func (*PCG) Seed(a, b uint64)       {}
func (*ChaCha8) Seed(seed [32]byte) {}
