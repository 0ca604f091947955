package hx

import (
	"crypto/sha512"
	"encoding/binary"
	"math/big"

	"pgregory.net/rapid"
)

// Expand turns a drawn seed into n uniformly distributed bytes.
func Expand(seed uint64, n int) []byte {
	var out []byte
	for ctr := uint64(0); len(out) < n; ctr++ {
		var b [16]byte
		binary.LittleEndian.PutUint64(b[:], seed)
		binary.LittleEndian.PutUint64(b[8:], ctr)
		s := sha512.Sum512(b[:])
		out = append(out, s[:]...)
	}
	return out[:n:n]
}

// Bytes generates exactly n bytes: uniform, small-biased, constant, sparse or runs.
func Bytes(n int) *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		switch rapid.IntRange(0, 9).Draw(t, "bytesMode") {
		case 0:
			b := make([]byte, n)
			v := rapid.Byte().Draw(t, "fill")
			for i := range b {
				b[i] = v
			}
			return b
		case 1:
			return rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "raw")
		case 2: // sparse bits on zero or one background
			b := make([]byte, n)
			if rapid.Bool().Draw(t, "ones") {
				for i := range b {
					b[i] = 0xff
				}
			}
			if n > 0 {
				for i := rapid.IntRange(0, 4).Draw(t, "flips"); i > 0; i-- {
					b[rapid.IntRange(0, n-1).Draw(t, "pos")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
				}
			}
			return b
		case 3: // runs of 00 / ff inside uniform bytes
			b := Expand(rapid.Uint64().Draw(t, "seed"), n)
			if n > 0 {
				i := rapid.IntRange(0, n-1).Draw(t, "from")
				j := rapid.IntRange(i, n-1).Draw(t, "to")
				v := rapid.SampledFrom([]byte{0, 0xff, 0x80, 0x7f, 1}).Draw(t, "run")
				for ; i <= j; i++ {
					b[i] = v
				}
			}
			return b
		default:
			return Expand(rapid.Uint64().Draw(t, "seed"), n)
		}
	})
}

// BytesLen generates byte strings with lengths in [min,max], biased to the given edges.
func BytesLen(min, max int, edges ...int) *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		return Bytes(LenIn(t, min, max, edges...)).Draw(t, "bytes")
	})
}

// LenIn draws a length in [min,max], near one of the edges half of the time.
func LenIn(t *rapid.T, min, max int, edges ...int) int {
	if len(edges) > 0 && rapid.Bool().Draw(t, "edge") {
		n := rapid.SampledFrom(edges).Draw(t, "edgeLen") + rapid.IntRange(-2, 2).Draw(t, "off")
		if n >= min && n <= max {
			return n
		}
	}
	return rapid.IntRange(min, max).Draw(t, "len")
}

// cborEdges are where the width of a CBOR head changes, and number-format edges.
var cborEdges = []uint64{0, 24, 1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 53, 1 << 63}

// Uint64 generates numbers up to max, near a CBOR or power-of-two edge half of the time.
func Uint64(max uint64) *rapid.Generator[uint64] {
	return rapid.Custom(func(t *rapid.T) uint64 {
		var v uint64
		switch rapid.IntRange(0, 4).Draw(t, "numMode") {
		case 0, 1:
			v = rapid.SampledFrom(cborEdges).Draw(t, "edge") + uint64(int64(rapid.IntRange(-3, 3).Draw(t, "off")))
		case 2:
			v = 1<<rapid.IntRange(0, 63).Draw(t, "pow") + uint64(int64(rapid.IntRange(-2, 2).Draw(t, "off")))
		case 3:
			b := Expand(rapid.Uint64().Draw(t, "seed"), 8)
			v = binary.LittleEndian.Uint64(b) >> rapid.IntRange(0, 63).Draw(t, "shift")
		default:
			return rapid.Uint64Range(0, max).Draw(t, "n")
		}
		if v > max {
			if max == ^uint64(0) {
				return v
			}
			v %= max + 1
		}
		return v
	})
}

// BigNear returns m + small offset, or nil when negative.
func BigNear(t *rapid.T, m *big.Int) *big.Int {
	r := new(big.Int).Add(m, big.NewInt(int64(rapid.IntRange(-20, 20).Draw(t, "near"))))
	if r.Sign() < 0 {
		return big.NewInt(0)
	}
	return r
}
