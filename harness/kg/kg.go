// Package kg generates extended private keys.
package kg

import (
	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
	"pgregory.net/rapid"
)

// Key generates 96-byte extended private keys: a normalised left scalar
// (low three bits clear, top three bits 010), any right half and chain code,
// biased to carry-heavy patterns.
func Key() *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		k := hx.Bytes(96).Draw(t, "xprv")
		switch rapid.IntRange(0, 5).Draw(t, "keyMode") {
		case 0: // additions carry through the upper bytes of the left half
			for i := rapid.IntRange(0, 28).Draw(t, "from"); i < 31; i++ {
				k[i] = 0xff
			}
		case 1: // the right half overflows
			for i := rapid.IntRange(32, 63).Draw(t, "from"); i < 64; i++ {
				k[i] = 0xff
			}
		case 2: // all the left half set
			for i := 0; i < 32; i++ {
				k[i] = 0xff
			}
		}
		k[0] &= 0xf8
		k[31] = k[31]&0x1f | 0x40
		return k
	})
}

// Index generates derivation indices around the hardened boundary and with
// every byte in use.
func Index() *rapid.Generator[uint32] {
	return rapid.Custom(func(t *rapid.T) uint32 {
		switch rapid.IntRange(0, 4).Draw(t, "idxMode") {
		case 0:
			return uint32(rapid.IntRange(0, 3).Draw(t, "soft"))
		case 1:
			return 1<<31 + rapid.SampledFrom([]uint32{0, 1, 44, 1815, 1852, 1<<31 - 1}).Draw(t, "hard")
		case 2:
			return rapid.SampledFrom([]uint32{1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 255, 256, 65535, 65536, 1 << 24, 1 << 30}).Draw(t, "edge")
		default:
			b := hx.Expand(rapid.Uint64().Draw(t, "seed"), 4)
			return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
		}
	})
}
