// Package rare holds inputs, found beforehand by search (gen), whose results
// have a shape that random inputs reach about once in 65536 times: two zero or
// two 0xff bytes at an end of a hash, key, nonce, signature half or derived
// part, or a run of equal symbols at an end of a bech32 checksum.
package rare

import (
	"crypto/sha512"
	"encoding/binary"

	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
	"github.com/fivebinaries/go-cardano-serialization/verif/ref"
)

// Extreme says whether two bytes at an end of b are zero or 0xff.
func Extreme(b []byte) bool {
	n := len(b)
	e := func(x, y byte) bool { return x == y && (x == 0 || x == 0xff) }
	return e(b[0], b[1]) || e(b[n-2], b[n-1])
}

// Block is the counter as n little-endian bytes.
func Block(i uint32, n int) []byte {
	b := make([]byte, n)
	binary.LittleEndian.PutUint32(b, i)
	return b
}

// SeedKey is the extended key that RFC 8032 makes of the counter's seed.
func SeedKey(i uint32) []byte {
	h := sha512.Sum512(Block(i, 32))
	h[0] &= 0xf8
	h[31] = h[31]&0x3f | 0x40
	return append(h[:], hx.Expand(uint64(i), 32)...)
}

// Parent is the key the Derive indices belong to.
func Parent() []byte {
	k := hx.Expand(4242, 96)
	k[0] &= 0xf8
	k[31] = k[31]&0x1f | 0x40
	return k
}

// Checksum says whether the checksum of a bech32 string begins or ends with
// three times the first or the last symbol.
func Checksum(s string) bool {
	c := s[len(s)-6:]
	return c[:3] == "qqq" || c[:3] == "lll" || c[3:] == "qqq" || c[3:] == "lll"
}

// Addr is an enterprise address: header and the counter's block.
func Addr(i uint32) []byte { return append([]byte{0x61}, Block(i, 28)...) }

// Entropy is the counter's entropy.
func Entropy(i uint32) []byte { return hx.Expand(uint64(i), 16) }

// Root says whether a part of a root key is extreme.
func Root(k []byte) bool {
	return k[0] == 0 && k[1] == 0 || k[0] == 0xf8 && k[1] == 0xff || Extreme(k[32:64]) || Extreme(k[64:])
}

// Derived says whether a part of a child key is extreme.
func Derived(k []byte) bool { return Root(k) }

// Digest says whether one of the digests of the counter's block is extreme.
func Digest(i uint32) bool {
	b := Block(i, 32)
	return Extreme(ref.Blake2b(28, b)) || Extreme(ref.Blake2b(32, b))
}
