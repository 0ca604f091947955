package ref

import (
	"math/big"
	"strings"
)

// ---- Bech32 (BIP-173), without the 90 character limit ----

const b32chars = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

// the checksum computed as polynomial division over GF(32), table-free
func bechPoly(vals []byte) uint32 {
	c := uint32(1)
	for _, v := range vals {
		c0 := c >> 25
		c = (c&0x1ffffff)<<5 ^ uint32(v)
		if c0&1 != 0 {
			c ^= 0x3b6a57b2
		}
		if c0&2 != 0 {
			c ^= 0x26508e6d
		}
		if c0&4 != 0 {
			c ^= 0x1ea119fa
		}
		if c0&8 != 0 {
			c ^= 0x3d4233dd
		}
		if c0&16 != 0 {
			c ^= 0x2a1462b3
		}
	}
	return c
}

func bechHRP(hrp string) []byte {
	var out []byte
	for i := 0; i < len(hrp); i++ {
		out = append(out, hrp[i]>>5)
	}
	out = append(out, 0)
	for i := 0; i < len(hrp); i++ {
		out = append(out, hrp[i]&31)
	}
	return out
}

// To5 splits bytes into 5-bit groups, zero padded.
func To5(data []byte) []byte {
	var out []byte
	for i := 0; i < len(data)*8; i += 5 {
		var v byte
		for j := i; j < i+5; j++ {
			v <<= 1
			if j < len(data)*8 && data[j/8]>>(7-j%8)&1 == 1 {
				v |= 1
			}
		}
		out = append(out, v)
	}
	return out
}

// Bech32From5 encodes 5-bit groups with a lower-case hrp.
func Bech32From5(hrp string, vals []byte) string {
	full := append(append(bechHRP(hrp), vals...), 0, 0, 0, 0, 0, 0)
	m := bechPoly(full) ^ 1
	var sb strings.Builder
	sb.WriteString(hrp)
	sb.WriteByte('1')
	for _, v := range vals {
		sb.WriteByte(b32chars[v])
	}
	for i := 5; i >= 0; i-- {
		sb.WriteByte(b32chars[m>>(5*i)&31])
	}
	return sb.String()
}

// Bech32Encode encodes with a lower-case hrp.
func Bech32Encode(hrp string, data []byte) string { return Bech32From5(hrp, To5(data)) }

// asciiLower/Upper work on ASCII letters only.
func asciiLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// Bech32Decode is a BIP-173 decoder (hrp is returned in lower case).
func Bech32Decode(s string) (hrp string, data []byte, ok bool) {
	lower, upper := false, false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c < 33 || c > 126 {
			return "", nil, false
		}
		lower = lower || c >= 'a' && c <= 'z'
		upper = upper || c >= 'A' && c <= 'Z'
	}
	if lower && upper {
		return "", nil, false
	}
	s = asciiLower(s)
	pos := strings.LastIndexByte(s, '1')
	if pos < 1 || len(s)-pos-1 < 6 {
		return "", nil, false
	}
	hrp = s[:pos]
	var vals []byte
	for i := pos + 1; i < len(s); i++ {
		d := strings.IndexByte(b32chars, s[i])
		if d < 0 {
			return "", nil, false
		}
		vals = append(vals, byte(d))
	}
	if bechPoly(append(bechHRP(hrp), vals...)) != 1 {
		return "", nil, false
	}
	vals = vals[:len(vals)-6]
	nbits := len(vals) * 5
	nb := nbits / 8
	if nbits-nb*8 > 4 {
		return "", nil, false
	}
	bit := func(i int) byte { return vals[i/5] >> (4 - i%5) & 1 }
	for i := 0; i < nb; i++ {
		var b byte
		for j := 0; j < 8; j++ {
			b = b<<1 | bit(i*8+j)
		}
		data = append(data, b)
	}
	for i := nb * 8; i < nbits; i++ {
		if bit(i) != 0 {
			return "", nil, false
		}
	}
	return hrp, data, true
}

// ---- Base58 (Bitcoin alphabet) ----

const b58chars = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func Base58Encode(b []byte) string {
	n := new(big.Int).SetBytes(b)
	m, r58 := new(big.Int), big.NewInt(58)
	var out []byte
	for n.Sign() > 0 {
		n.DivMod(n, r58, m)
		out = append(out, b58chars[m.Int64()])
	}
	for _, c := range b {
		if c != 0 {
			break
		}
		out = append(out, '1')
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return string(out)
}

// CRC32 (IEEE), bit by bit.
func CRC32(b []byte) uint32 {
	c := ^uint32(0)
	for _, x := range b {
		c ^= uint32(x)
		for i := 0; i < 8; i++ {
			if c&1 == 1 {
				c = c>>1 ^ 0xedb88320
			} else {
				c >>= 1
			}
		}
	}
	return ^c
}

// NatEncode is the CIP-19 variable-length natural number code.
func NatEncode(n uint64) []byte {
	out := []byte{byte(n & 127)}
	for n >>= 7; n > 0; n >>= 7 {
		out = append([]byte{byte(n&127) | 128}, out...)
	}
	return out
}
