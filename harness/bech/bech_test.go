package bech

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"github.com/fivebinaries/go-cardano-serialization/internal/bech32"
	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
	"github.com/fivebinaries/go-cardano-serialization/verif/rare"
	"github.com/fivebinaries/go-cardano-serialization/verif/ref"
	"pgregory.net/rapid"
)

const charset = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

// hrpGen generates prefixes: lower-case, upper-case or caseless, all valid.
func hrpGen() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		switch rapid.IntRange(0, 4).Draw(t, "hrpMode") {
		case 0:
			return rapid.SampledFrom([]string{"addr", "addr_test", "stake", "stake_test", "a", "1", "1111", "addr1", "bc", "?", "~", "!"}).Draw(t, "hrp")
		case 1: // any lower-case or caseless character
			return rapid.StringOfN(rapid.SampledFrom([]rune("!\"#$%&'()*+,-./0123456789:;<=>?@[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~")), 1, 90, -1).Draw(t, "hrp")
		case 2: // upper case
			return strings.ToUpper(rapid.StringOfN(rapid.SampledFrom([]rune("!1_?abcdefghijklmnopqrstuvwxyz")), 1, 20, -1).Draw(t, "hrp"))
		case 3:
			return rapid.StringOfN(rapid.SampledFrom([]rune("0123456789!?~_-")), 1, 10, -1).Draw(t, "hrp")
		default:
			return rapid.StringOfN(rapid.RuneFrom([]rune("abcdefghijklmnopqrstuvwxyz")), 1, 12, -1).Draw(t, "hrp")
		}
	})
}

func validHRP(h string) bool {
	if h == "" {
		return false
	}
	lo, up := false, false
	for i := 0; i < len(h); i++ {
		if h[i] < 33 || h[i] > 126 {
			return false
		}
		lo = lo || h[i] >= 'a' && h[i] <= 'z'
		up = up || h[i] >= 'A' && h[i] <= 'Z'
	}
	return !(lo && up)
}

// decode compares the codec's answer with the reference decoder's.
func decode(s string) (accepted bool, problem string) {
	wantHRP, wantData, ok := ref.Bech32Decode(s)
	var hrp string
	var data []byte
	var err error
	if p := hx.Try(func() { hrp, data, err = bech32.Decode(s) }); p != nil {
		return false, fmt.Sprintf("decoding %q: %v", s, p)
	}
	if (err == nil) != ok {
		return err == nil, fmt.Sprintf("decoding %q: error %v, but a BIP-173 decoder accepts it: %v", s, err, ok)
	}
	if ok && (!strings.EqualFold(hrp, wantHRP) || len(hrp) != len(wantHRP) || !bytes.Equal(data, wantData)) {
		return true, fmt.Sprintf("decoding %q: %q %x, want %q %x", s, hrp, data, wantHRP, wantData)
	}
	return ok, ""
}

// polymod is the BIP-173 checksum, for values of any width.
func polymod(values []uint32) uint32 {
	gen := []uint32{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}
	chk := uint32(1)
	for _, v := range values {
		top := chk >> 25
		chk = chk&0x1ffffff<<5 ^ v
		for i := 0; i < 5; i++ {
			if top>>i&1 == 1 {
				chk ^= gen[i]
			}
		}
	}
	return chk
}

func TestC09(t *testing.T) {
	h := hx.Start(t, "C09", "prefix/payload pairs are encoded and decoded, and valid, edited, re-checksummed and arbitrary strings are decoded, against a bit-by-bit BIP-173 reference; non-trivial: payload not empty, or the string differs from a plain encoding")
	h.Raw([][]byte{[]byte("a12uel5l"), []byte("A12UEL5L"), []byte("abcdef1qpzry9x8gf2tvdw0s3jn54khce6mua7lmqqqxw"), []byte("11qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqc8247j"), []byte("split1checkupstagehandshakeupstreamerranterredcaperred2y9e3w")},
		func(b []byte) string { _, p := decode(string(b)); return p })
	h.Check("encode", 8000, func(t *rapid.T, c *hx.C) {
		hrp := hrpGen().Draw(t, "hrp")
		data := hx.BytesLen(0, 300, 0, 5, 20, 29, 57, 255).Draw(t, "data")
		c.Key("%q %x", hrp, data)
		c.Nontrivial(len(data) > 0)
		c.Class("upper", strings.ToLower(hrp) != hrp)
		for i := 0; i < 5; i++ {
			c.Class(fmt.Sprintf("len%%5=%d", i), len(data)%5 == i)
		}
		g := append([]byte(nil), data...)
		s, err := bech32.Encode(hrp, g)
		if err != nil {
			t.Fatalf("encode %q %x: %v", hrp, data, err)
		}
		if !bytes.Equal(g, data) {
			t.Fatalf("encode changed its input")
		}
		want := ref.Bech32Encode(strings.ToLower(hrp), data)
		upper := strings.ToLower(hrp) != hrp
		if upper {
			want = strings.ToUpper(want)
		}
		if s != want {
			t.Fatalf("encode %q %x = %q, want %q", hrp, data, s, want)
		}
		h2, d2, err := bech32.Decode(s)
		if err != nil || !strings.EqualFold(h2, hrp) || !bytes.Equal(d2, data) {
			t.Fatalf("decode(encode(%q, %x)) = %q %x %v", hrp, data, h2, d2, err)
		}
		// the other letter case is the same code
		other := strings.ToUpper(s)
		if upper {
			other = strings.ToLower(s)
		}
		h3, d3, err := bech32.Decode(other)
		if err != nil || !strings.EqualFold(h3, hrp) || !bytes.Equal(d3, data) {
			t.Fatalf("decode %q = %q %x %v", other, h3, d3, err)
		}
	})
	h.Each("rare checksums", false, func(rec func(*hx.C)) error {
		for _, i := range rare.Coded {
			c := &hx.C{}
			c.Key("%d", i)
			c.Nontrivial(true)
			data := rare.Addr(i)
			want := ref.Bech32Encode("addr", data)
			if s, err := bech32.Encode("addr", rare.Addr(i)); err != nil || s != want {
				return fmt.Errorf("encode addr %x = %q %v, want %q", data, s, err, want)
			}
			if _, p := decode(want); p != "" {
				return fmt.Errorf("%s", p)
			}
			rec(c)
		}
		return nil
	})
	h.Check("long", 300, func(t *rapid.T, c *hx.C) {
		// BIP-173's limit of 90 characters does not apply to Cardano: any length is coded
		hrp := strings.ToLower(rapid.SampledFrom([]string{"addr", "stake_test", "a", "x1", "1"}).Draw(t, "hrp"))
		data := hx.BytesLen(200, 12000, 256, 512, 631, 635, 640, 1000, 1023, 1024, 2048, 4096, 8192, 10000).Draw(t, "data")
		c.Key("%q %x", hrp, data)
		c.Nontrivial(true)
		want := ref.Bech32Encode(hrp, data)
		s, err := bech32.Encode(hrp, data)
		if err != nil || s != want {
			t.Fatalf("encode %q, %d bytes = %q (%v), want %q", hrp, len(data), s, err, want)
		}
		switch rapid.IntRange(0, 3).Draw(t, "change") {
		case 0:
			s = strings.ToUpper(s)
		case 1:
			b := []byte(s)
			i := rapid.IntRange(len(hrp)+1, len(b)-1).Draw(t, "at")
			b[i] = charset[(strings.IndexByte(charset, b[i])+rapid.IntRange(1, 31).Draw(t, "by"))%32]
			s = string(b)
		}
		acc, problem := decode(s)
		c.Class("accepted", acc)
		if problem != "" {
			t.Fatal(problem)
		}
	})
	h.Check("invalid prefix", 4000, func(t *rapid.T, c *hx.C) {
		hrp := rapid.OneOf(
			rapid.Just(""),
			rapid.String(),
			rapid.Custom(func(t *rapid.T) string {
				b := []byte(hrpGen().Draw(t, "base"))
				b[rapid.IntRange(0, len(b)-1).Draw(t, "pos")] = rapid.SampledFrom([]byte{0, 10, 32, 127, 128, 200, 255, 'A', 'z'}).Draw(t, "char")
				return string(b)
			}),
			rapid.Custom(func(t *rapid.T) string { return hrpGen().Draw(t, "base") + "\u212a" }),
			rapid.SampledFrom([]string{"Addr", "aDDR", "addr\u017f", "addr ", " addr", "ad dr", "addr\x7f", "\x80"}),
		).Draw(t, "hrp")
		data := hx.BytesLen(0, 60).Draw(t, "data")
		ok := validHRP(hrp)
		c.Key("%q %x", hrp, data)
		c.Nontrivial(!ok)
		c.Class("invalid", !ok)
		var s string
		var err error
		if p := hx.Try(func() { s, err = bech32.Encode(hrp, data) }); p != nil {
			t.Fatalf("encode %q: %v", hrp, p)
		}
		if (err == nil) != ok {
			t.Fatalf("encode %q gives %q, %v; prefix valid: %v", hrp, s, err, ok)
		}
	})
	decodeProp := func(gen func(t *rapid.T) string) func(t *rapid.T, c *hx.C) {
		return func(t *rapid.T, c *hx.C) {
			s := gen(t)
			c.Key("%q", s)
			c.Nontrivial(true)
			acc, problem := decode(s)
			c.Class("accepted", acc)
			c.Class("rejected", !acc)
			if problem != "" {
				t.Fatalf("%s", problem)
			}
		}
	}
	h.Check("edited", 12000, decodeProp(func(t *rapid.T) string {
		s := ref.Bech32Encode(strings.ToLower(hrpGen().Draw(t, "hrp")), hx.BytesLen(0, 60).Draw(t, "data"))
		if rapid.Bool().Draw(t, "upper") {
			s = strings.ToUpper(s)
		}
		const chars = "qpzry9x8gf2tvdw0s3jn54khce6mua7lbio1QPZRY9X8GF2TVDWKBIO _~\x00\x7f\xff"
		for i := rapid.IntRange(0, 2).Draw(t, "edits"); i > 0; i-- {
			if len(s) == 0 {
				break
			}
			p := rapid.IntRange(0, len(s)-1).Draw(t, "pos")
			ch := string(chars[rapid.IntRange(0, len(chars)-1).Draw(t, "char")])
			switch rapid.IntRange(0, 7).Draw(t, "edit") {
			case 0:
				s = s[:p] + ch + s[p+1:]
			case 1:
				s = s[:p] + s[p+1:]
			case 2:
				s = s[:p] + ch + s[p:]
			case 3:
				if p+1 < len(s) {
					s = s[:p] + string(s[p+1]) + string(s[p]) + s[p+2:]
				}
			case 4: // flip the case of one character
				c := s[p]
				if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
					s = s[:p] + string([]byte{c ^ 32}) + s[p+1:]
				}
			case 5:
				s = s[:p]
			case 6: // Unicode characters that fold into ASCII letters
				s = strings.NewReplacer("k", "\u212a", "K", "\u212a", "s", "\u017f", "S", "\u017f").Replace(s)
			case 7: // a q inserted or removed before a final p (the known Bech32 weakness)
				if s[len(s)-1] == 'p' {
					s = s[:len(s)-1] + "qp"
				} else {
					s += "q"
				}
			}
		}
		return s
	}))
	h.Check("checksummed groups", 8000, decodeProp(func(t *rapid.T) string {
		// correct checksum over arbitrary 5-bit groups: padding rules decide
		vals := hx.BytesLen(0, 40, 0, 1, 2, 8).Draw(t, "groups")
		for i := range vals {
			vals[i] &= 31
		}
		if len(vals) > 0 && rapid.Bool().Draw(t, "zeroEnd") {
			vals[len(vals)-1] &= rapid.SampledFrom([]byte{0, 1, 16, 24, 28, 30}).Draw(t, "mask")
		}
		s := ref.Bech32From5(strings.ToLower(hrpGen().Draw(t, "hrp")), vals)
		if rapid.Bool().Draw(t, "upper") {
			s = strings.ToUpper(s)
		}
		return s
	}))
	h.Check("other checksums", 6000, decodeProp(func(t *rapid.T) string {
		// right but for the constant the checksum must come to (Bech32m and other codes),
		// for the prefix or for the order of the data
		hrp := strings.ToLower(hrpGen().Draw(t, "hrp"))
		data := hx.BytesLen(0, 60, 20, 29, 57).Draw(t, "data")
		s := ref.Bech32Encode(hrp, data)
		body, sum := s[:len(s)-6], []byte(s[len(s)-6:])
		switch rapid.IntRange(0, 4).Draw(t, "mode") {
		case 0:
			x := rapid.OneOf(rapid.SampledFrom([]uint32{0x2bc830a3, 0, 0x3fffffff, 2, 0x10000000, 0x1f, 0x20000001}), rapid.Uint32Range(0, 1<<30-1)).Draw(t, "constant") ^ 1
			for i := range sum {
				sum[i] = charset[strings.IndexByte(charset, sum[i])^int(x>>(5*(5-i))&31)]
			}
		case 1: // of another prefix
			o := ref.Bech32Encode(strings.ToLower(hrpGen().Draw(t, "otherHRP")), data)
			sum = []byte(o[len(o)-6:])
		case 2: // reversed
			for i, j := 0, 5; i < j; i, j = i+1, j-1 {
				sum[i], sum[j] = sum[j], sum[i]
			}
		case 3: // of other data
			o := ref.Bech32Encode(hrp, hx.BytesLen(0, 60).Draw(t, "otherData"))
			sum = []byte(o[len(o)-6:])
		case 4: // incomplete
			sum = sum[:rapid.IntRange(0, 5).Draw(t, "length")]
		}
		s = body + string(sum)
		if rapid.Bool().Draw(t, "upper") {
			s = strings.ToUpper(s)
		}
		return s
	}))
	h.Check("foreign characters", 8000, decodeProp(func(t *rapid.T) string {
		// characters that are not of the alphabet but would fit if they stood for a certain value
		hrp := strings.ToLower(hrpGen().Draw(t, "hrp"))
		data := hx.BytesLen(1, 60, 20, 29, 57).Draw(t, "data")
		s := ref.Bech32Encode(hrp, data)
		start := len(hrp) + 1
		foreign := rapid.SampledFrom([]string{"b", "i", "o", "1", "B", "I", "O", " ", "-", "_", ".", "\x00", "\x1f", "\x7f", "\u00df", "\u0131", "\u017f", "\u212a"}).Draw(t, "foreign")
		switch rapid.IntRange(0, 2).Draw(t, "mode") {
		case 0: // it stands for a character of the text, by its looks or its code
			i := rapid.IntRange(start, len(s)-1).Draw(t, "at")
			x := s[i]
			y := foreign
			switch rapid.IntRange(0, 3).Draw(t, "kind") {
			case 0:
				if l, ok := map[byte]string{'0': "o", 'l': "i", 'q': "b", '6': "b", 'j': "i", '5': "S", '2': "Z"}[x]; ok {
					y = l
				}
			case 1:
				y = string(rune(x) + rune(rapid.SampledFrom([]int{0x80, 0x100, 0x200, 0xff00 - 0x20, 0x10000}).Draw(t, "plus")))
			case 2:
				y = string([]byte{x | 0x80})
			}
			n := 1
			if rapid.Bool().Draw(t, "all") {
				n = -1
			}
			return s[:i] + strings.Replace(s[i:], string(x), y, n)
		case 1: // it has a value of its own in the data
			v := uint32(rapid.SampledFrom([]int{0, 31, 32, 33, 63, 127, 128, 254, 255}).Draw(t, "value"))
			vals := ref.To5(data)
			at := rapid.IntRange(0, len(vals)-1).Draw(t, "at")
			all := []uint32{}
			for _, b := range []byte(hrp) {
				all = append(all, uint32(b>>5))
			}
			all = append(all, 0)
			for _, b := range []byte(hrp) {
				all = append(all, uint32(b&31))
			}
			text := hrp + "1"
			for i, b := range vals {
				if i == at {
					all, text = append(all, v), text+foreign
				} else {
					all, text = append(all, uint32(b)), text+charset[b:b+1]
				}
			}
			sum := polymod(append(all, 0, 0, 0, 0, 0, 0)) ^ 1
			for i := 5; i >= 0; i-- {
				k := sum >> (5 * i) & 31
				text += charset[k : k+1]
			}
			return text
		default: // or in the checksum, the excess going into the character before
			v := rapid.SampledFrom([]int{0, 31, 32, 33, 63, 127, 128, 254, 255}).Draw(t, "value")
			for k := 0; k < 40; k++ {
				data[0]++
				b := []byte(ref.Bech32Encode(hrp, data))
				for i := len(b) - 5; i < len(b); i++ {
					if strings.IndexByte(charset, b[i]) == v&31 {
						before := charset[strings.IndexByte(charset, b[i-1])^v>>5]
						return string(b[:i-1]) + string(before) + foreign + string(b[i+1:])
					}
				}
			}
			return s[:len(s)-1] + foreign
		}
	}))
	h.Check("arbitrary", 8000, decodeProp(func(t *rapid.T) string {
		switch rapid.IntRange(0, 3).Draw(t, "mode") {
		case 0:
			return rapid.String().Draw(t, "s")
		case 1:
			return string(hx.BytesLen(0, 50, 0, 6, 7, 8).Draw(t, "s"))
		case 2:
			return rapid.StringOfN(rapid.SampledFrom([]rune("1qp")), 0, 12, -1).Draw(t, "s")
		default:
			return hrpGen().Draw(t, "hrp") + strings.Repeat("1", rapid.IntRange(0, 2).Draw(t, "ones")) +
				rapid.StringOfN(rapid.SampledFrom([]rune("qpzry9x8gf2tvdw0s3jn54khce6mua7l")), 0, 12, -1).Draw(t, "data")
		}
	}))
	// Every single-character substitution in the code word of some strings is caught,
	// and every string of up to a few characters after the prefix agrees.
	h.Each("all substitutions", true, func(rec func(*hx.C)) error {
		for i, n := range []int{1, 20, 29, 57} {
			s := ref.Bech32Encode([]string{"a", "stake_test", "addr", "addr_test"}[i], hx.Expand(uint64(n), n))
			for p := 0; p < len(s); p++ {
				for ch := 0; ch < 256; ch++ {
					m := s[:p] + string([]byte{byte(ch)}) + s[p+1:]
					c := &hx.C{}
					c.Key("%q", m)
					c.Nontrivial(m != s)
					if _, problem := decode(m); problem != "" {
						return fmt.Errorf("%s", problem)
					}
					rec(c)
				}
			}
		}
		return nil
	})
	h.Each("short code words", true, func(rec func(*hx.C)) error {
		for a := 0; a < 32; a++ {
			for b := 0; b < 33; b++ {
				for d := 0; d < 33; d += 1 {
					vals := []byte{byte(a)}
					if b < 32 {
						vals = append(vals, byte(b))
					}
					if d < 32 {
						vals = append(vals, byte(d))
					}
					s := ref.Bech32From5("x", vals)
					c := &hx.C{}
					c.Key("%q", s)
					c.Nontrivial(true)
					if _, problem := decode(s); problem != "" {
						return fmt.Errorf("%s", problem)
					}
					rec(c)
				}
			}
		}
		return nil
	})
}
