package ref

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"math/big"
)

// PBKDF2 with HMAC-SHA512, from RFC 8018.
func PBKDF2(password, salt []byte, iter, size int) []byte {
	var out []byte
	mac := hmac.New(sha512.New, password)
	for i := uint32(1); len(out) < size; i++ {
		mac.Reset()
		mac.Write(salt)
		mac.Write(binary.BigEndian.AppendUint32(nil, i))
		u := mac.Sum(nil)
		t := append([]byte(nil), u...)
		for j := 1; j < iter; j++ {
			mac.Reset()
			mac.Write(u)
			u = mac.Sum(u[:0])
			for k := range t {
				t[k] ^= u[k]
			}
		}
		out = append(out, t...)
	}
	return out[:size]
}

// IcarusRoot is the CIP-3 Icarus master key.
func IcarusRoot(entropy, password []byte) []byte {
	k := PBKDF2(password, entropy, 4096, 96)
	k[0] &= 0xf8
	k[31] &= 0x1f
	k[31] |= 0x40
	return k
}

// SeedRoot is the seed-based root key.
func SeedRoot(seed []byte) []byte {
	h := sha512.Sum512(seed)
	h[0] &= 0xf8
	h[31] &= 0x5f
	h[31] |= 0x40
	c := sha256.Sum256(append([]byte{1}, seed...))
	return append(h[:], c[:]...)
}

// PublicKey multiplies the base point by the left half.
func PublicKey(xprv []byte) []byte { return MulBase(FromLE(xprv[:32])).Encode() }

func mac512(key []byte, parts ...[]byte) []byte {
	m := hmac.New(sha512.New, key)
	for _, p := range parts {
		m.Write(p)
	}
	return m.Sum(nil)
}

// Derive is the BIP32-Ed25519 V2 private child key.
func Derive(xprv []byte, index uint32) []byte {
	idx := []byte{byte(index), byte(index >> 8), byte(index >> 16), byte(index >> 24)}
	cc := xprv[64:96]
	var z, c []byte
	if index >= 1<<31 {
		z = mac512(cc, []byte{0}, xprv[:64], idx)
		c = mac512(cc, []byte{1}, xprv[:64], idx)
	} else {
		pk := PublicKey(xprv)
		z = mac512(cc, []byte{2}, pk, idx)
		c = mac512(cc, []byte{3}, pk, idx)
	}
	m256 := new(big.Int).Lsh(big.NewInt(1), 256)
	l := new(big.Int).Lsh(FromLE(z[:28]), 3)
	l.Add(l, FromLE(xprv[:32])).Mod(l, m256)
	r := new(big.Int).Add(FromLE(z[32:]), FromLE(xprv[32:64]))
	r.Mod(r, m256)
	return append(append(LE(l, 32), LE(r, 32)...), c[32:]...)
}

// DerivePub is the BIP32-Ed25519 V2 public child key (soft index).
func DerivePub(pk, cc []byte, index uint32) (childPk, childCC []byte, ok bool) {
	idx := []byte{byte(index), byte(index >> 8), byte(index >> 16), byte(index >> 24)}
	z := mac512(cc, []byte{2}, pk, idx)
	c := mac512(cc, []byte{3}, pk, idx)
	p, ok := DecodePoint(pk)
	if !ok {
		return nil, nil, false
	}
	k := new(big.Int).Lsh(FromLE(z[:28]), 3)
	return p.Add(MulBase(k)).Encode(), c[32:], true
}

// DecodePoint decodes a compressed point (y taken mod p, x sign applied).
func DecodePoint(b []byte) (Point, bool) {
	c := append([]byte(nil), b...)
	sign := uint(c[31] >> 7)
	c[31] &= 0x7f
	y := mod(FromLE(c))
	x, ok := RecoverX(y, sign)
	if !ok {
		return Point{}, false
	}
	return Affine(x, y), true
}

// Sign is the deterministic Ed25519 signature of an extended key.
func Sign(xprv, msg []byte) []byte {
	h := func(parts ...[]byte) *big.Int {
		s := sha512.New()
		for _, p := range parts {
			s.Write(p)
		}
		return new(big.Int).Mod(FromLE(s.Sum(nil)), L)
	}
	r := h(xprv[32:64], msg)
	R := MulBase(r).Encode()
	k := h(R, PublicKey(xprv), msg)
	s := k.Mul(k, FromLE(xprv[:32]))
	s.Add(s, r).Mod(s, L)
	return append(R, LE(s, 32)...)
}
