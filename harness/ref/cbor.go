// Package ref holds small reference implementations, written from the
// standards and independent of the code under test, used as oracles.
package ref

import (
	"encoding/binary"
	"errors"
	"fmt"
)

// ---- CBOR (RFC 8949), the definite-length subset used by Cardano ----

// Head encodes a CBOR head with the shortest argument.
func Head(major byte, n uint64) []byte {
	m := major << 5
	switch {
	case n < 24:
		return []byte{m | byte(n)}
	case n < 1<<8:
		return []byte{m | 24, byte(n)}
	case n < 1<<16:
		return binary.BigEndian.AppendUint16([]byte{m | 25}, uint16(n))
	case n < 1<<32:
		return binary.BigEndian.AppendUint32([]byte{m | 26}, uint32(n))
	default:
		return binary.BigEndian.AppendUint64([]byte{m | 27}, n)
	}
}

// HeadWide encodes a head using a non-minimal argument width (1, 2, 4 or 8 bytes).
func HeadWide(major byte, n uint64, width int) []byte {
	m := major << 5
	switch width {
	case 1:
		return []byte{m | 24, byte(n)}
	case 2:
		return binary.BigEndian.AppendUint16([]byte{m | 25}, uint16(n))
	case 4:
		return binary.BigEndian.AppendUint32([]byte{m | 26}, uint32(n))
	default:
		return binary.BigEndian.AppendUint64([]byte{m | 27}, n)
	}
}

func CUint(n uint64) []byte { return Head(0, n) }
func CBytes(b []byte) []byte {
	return append(Head(2, uint64(len(b))), b...)
}
func CText(s string) []byte { return append(Head(3, uint64(len(s))), s...) }
func CArray(items ...[]byte) []byte {
	out := Head(4, uint64(len(items)))
	for _, it := range items {
		out = append(out, it...)
	}
	return out
}
func CTag(n uint64, item []byte) []byte { return append(Head(6, n), item...) }

// Kind of a decoded CBOR item.
type Kind int

const (
	KUint Kind = iota
	KNint
	KBytes
	KText
	KArray
	KMap
	KTag
	KFalse
	KTrue
	KNull
	KOther // floats, other simple values
)

// Item is a decoded CBOR item with the exact bytes it came from.
type Item struct {
	Kind  Kind
	N     uint64 // value, or tag number
	Bytes []byte // KBytes, KText
	Items []*Item
	Keys  []*Item // KMap; values are in Items
	Raw   []byte
}

var errShort = errors.New("cbor: truncated")

// ParseCBOR strictly decodes one item that must span all of b: definite
// lengths only, minimal heads only, no duplicate integer keys.
func ParseCBOR(b []byte) (*Item, error) {
	it, n, err := parse(b, 0)
	if err != nil {
		return nil, err
	}
	if n != len(b) {
		return nil, fmt.Errorf("cbor: %d trailing bytes", len(b)-n)
	}
	return it, nil
}

func parse(b []byte, depth int) (*Item, int, error) {
	if depth > 200 {
		return nil, 0, errors.New("cbor: too deep")
	}
	if len(b) == 0 {
		return nil, 0, errShort
	}
	major, info := b[0]>>5, b[0]&31
	pos := 1
	var n uint64
	switch {
	case info < 24:
		n = uint64(info)
	case info <= 27:
		w := 1 << (info - 24)
		if len(b) < 1+w {
			return nil, 0, errShort
		}
		for i := 0; i < w; i++ {
			n = n<<8 | uint64(b[1+i])
		}
		pos += w
		if major != 7 {
			min := []uint64{24, 1 << 8, 1 << 16, 1 << 32}[info-24]
			if n < min {
				return nil, 0, fmt.Errorf("cbor: non-minimal head %x", b[:pos])
			}
		}
	default:
		return nil, 0, fmt.Errorf("cbor: indefinite or reserved head %#x", b[0])
	}
	it := &Item{N: n}
	switch major {
	case 0:
		it.Kind = KUint
	case 1:
		it.Kind = KNint
	case 2, 3:
		it.Kind = KBytes
		if major == 3 {
			it.Kind = KText
		}
		if uint64(len(b)-pos) < n {
			return nil, 0, errShort
		}
		it.Bytes = b[pos : pos+int(n)]
		pos += int(n)
	case 4, 5:
		it.Kind = KArray
		if major == 5 {
			it.Kind = KMap
		}
		if n > uint64(len(b)) {
			return nil, 0, errShort
		}
		seen := map[string]bool{}
		for i := uint64(0); i < n; i++ {
			if major == 5 {
				k, m, err := parse(b[pos:], depth+1)
				if err != nil {
					return nil, 0, err
				}
				pos += m
				if seen[string(k.Raw)] {
					return nil, 0, fmt.Errorf("cbor: duplicate key %x", k.Raw)
				}
				seen[string(k.Raw)] = true
				it.Keys = append(it.Keys, k)
			}
			v, m, err := parse(b[pos:], depth+1)
			if err != nil {
				return nil, 0, err
			}
			pos += m
			it.Items = append(it.Items, v)
		}
	case 6:
		it.Kind = KTag
		v, m, err := parse(b[pos:], depth+1)
		if err != nil {
			return nil, 0, err
		}
		pos += m
		it.Items = []*Item{v}
	case 7:
		switch info {
		case 20:
			it.Kind = KFalse
		case 21:
			it.Kind = KTrue
		case 22:
			it.Kind = KNull
		default:
			it.Kind = KOther
		}
	}
	it.Raw = b[:pos]
	return it, pos, nil
}

// MapUint returns the value under an unsigned integer key, or nil.
func (it *Item) MapUint(k uint64) *Item {
	for i, key := range it.Keys {
		if key.Kind == KUint && key.N == k {
			return it.Items[i]
		}
	}
	return nil
}
