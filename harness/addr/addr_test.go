package addr

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"
	"testing"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/verif/am"
	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
	"github.com/fivebinaries/go-cardano-serialization/verif/rare"
	"github.com/fivebinaries/go-cardano-serialization/verif/ref"
	"pgregory.net/rapid"
)

func build(t *rapid.T, m am.Addr) address.Address {
	a, err := m.Build()
	if err != nil || a == nil {
		t.Fatalf("cannot build %s: %v", m.Key(), err)
	}
	return a
}

func classify(c *hx.C, m am.Addr) {
	c.Class(m.Kind.String(), true)
	if m.Kind != am.Byron {
		c.Class("mainnet", m.Net == 1)
		c.Class("script credential", m.PScript || m.SScript)
	}
}

// ---- C01 ----

func TestC01(t *testing.T) {
	h := hx.Start(t, "C01", "a model address of a random kind is built, encoded and decoded; non-trivial: its hashes are not all-zero (distinct by kind, network, credentials, pointer)")
	h.Check("layout", 6000, func(t *rapid.T, c *hx.C) {
		m := am.Shelley(false).Draw(t, "address")
		c.Key("%s", m.Key())
		c.Nontrivial(len(bytes.Trim(append(append([]byte{}, m.Pay...), m.Stake...), "\x00")) > 0)
		classify(c, m)
		a := build(t, m)
		want := m.Bytes()
		if got := a.Bytes(); !bytes.Equal(got, want) {
			t.Fatalf("%s\nbytes %x\nwant  %x", m.Key(), got, want)
		}
		if s := m.Same(a, true); s != "" {
			t.Fatalf("%s: constructed address %s", m.Key(), s)
		}
		cb, err := a.MarshalCBOR()
		if err != nil || !bytes.Equal(cb, ref.CBytes(want)) {
			t.Fatalf("%s: CBOR %x (%v), want %x", m.Key(), cb, err, ref.CBytes(want))
		}
		for how, dec := range decoders(want) {
			b, err := dec()
			if err != nil {
				t.Fatalf("%s: decoding from %s: %v", m.Key(), how, err)
			}
			if s := m.Same(b, true); s != "" {
				t.Fatalf("%s: decoded from %s %s", m.Key(), how, s)
			}
			if !bytes.Equal(b.Bytes(), want) {
				t.Fatalf("%s: decoded from %s re-encodes to %x", m.Key(), how, b.Bytes())
			}
			cb, err := b.MarshalCBOR()
			if err != nil || !bytes.Equal(cb, ref.CBytes(want)) {
				t.Fatalf("%s: decoded from %s: CBOR %x (%v)", m.Key(), how, cb, err)
			}
		}
	})
	relatedAddrs(h, "bytes")
	h.Each("every kind, network and credential type", true, func(rec func(*hx.C)) error {
		for k := am.Base; k <= am.Reward; k++ {
			for i := 0; i < 8; i++ {
				m := am.Addr{Kind: k, Net: byte(i & 1), Magic: am.TestMagic, PScript: i&2 != 0, SScript: i&4 != 0}
				if m.Net == 1 {
					m.Magic = am.MainMagic
				}
				if k != am.Reward {
					m.Pay = hx.Expand(uint64(i), 28)
				} else {
					m.PScript = false
				}
				if k == am.Base || k == am.Reward {
					m.Stake = hx.Expand(uint64(i)+100, 28)
				} else {
					m.SScript = false
				}
				m.Ptr = [3]uint64{}
				if k == am.Pointer {
					m.Ptr = [3]uint64{2498243, 27, 3}
				}
				c := &hx.C{}
				c.Key("%s", m.Key())
				c.Nontrivial(true)
				a, err := m.Build()
				if err != nil {
					return err
				}
				if !bytes.Equal(a.Bytes(), m.Bytes()) {
					return fmt.Errorf("%s: bytes %x want %x", m.Key(), a.Bytes(), m.Bytes())
				}
				b, err := address.NewAddressFromBytes(m.Bytes())
				if err != nil {
					return fmt.Errorf("%s: %v", m.Key(), err)
				}
				if s := m.Same(b, true); s != "" {
					return fmt.Errorf("%s: %s", m.Key(), s)
				}
				rec(c)
			}
		}
		return nil
	})
	h.Check("assigned fields", 1500, func(t *rapid.T, c *hx.C) {
		fields(t, c, rapid.SampledFrom(shelleyKinds).Draw(t, "kind"))
	})
}

func decoders(raw []byte) map[string]func() (address.Address, error) {
	return map[string]func() (address.Address, error){
		"bytes": func() (address.Address, error) { return address.NewAddressFromBytes(append([]byte(nil), raw...)) },
		"hex":   func() (address.Address, error) { return address.NewAddressFromHex(hex.EncodeToString(raw)) },
	}
}

// unmarshal decodes a Byron address the way a CBOR decoder does, into a
// variable that may hold another address.
func unmarshal(raw []byte, used bool) (address.Address, error) {
	b := &address.ByronAddress{}
	if used {
		magic := uint32(77)
		old := am.Addr{Kind: am.Byron, Root: bytes.Repeat([]byte{9}, 28), Payload: []byte{1, 2, 3}, NetMagic: &magic}
		if err := b.UnmarshalCBOR(old.Bytes()); err != nil {
			return nil, err
		}
	}
	in := append([]byte(nil), raw...)
	if err := b.UnmarshalCBOR(in); err != nil {
		return nil, err
	}
	for i := range in { // the buffer is the CBOR decoder's
		in[i] ^= 0xff
	}
	return b, nil
}

// ---- C02 ----

// wellFormed reports whether b is a canonical mainnet/testnet Shelley address
// (the decoder must accept it). Byron addresses are covered by construction.
func wellFormed(b []byte) bool {
	if len(b) == 0 || b[0]&15 > 1 {
		return false
	}
	switch b[0] >> 4 {
	case 0, 1, 2, 3:
		return len(b) == 57
	case 6, 7, 14, 15:
		return len(b) == 29
	case 4, 5:
		if len(b) < 32 {
			return false
		}
		rest := b[29:]
		for i := 0; i < 3; i++ {
			n := natLen(rest)
			if n == 0 {
				return false
			}
			rest = rest[n:]
		}
		return len(rest) == 0
	}
	return false
}

// natLen is the length of the canonical 64-bit variable-length number at the start of b, or 0.
func natLen(b []byte) int {
	var hi, v uint64
	for i, x := range b {
		if i == 0 && x == 0x80 {
			return 0
		}
		hi = hi<<7 | v>>57
		v = v<<7 | uint64(x&127)
		if hi != 0 {
			return 0
		}
		if x&128 == 0 {
			return i + 1
		}
	}
	return 0
}

func mutate(t *rapid.T, b []byte) ([]byte, string) {
	b = append([]byte(nil), b...)
	ops := ""
	for i := rapid.IntRange(1, 3).Draw(t, "mutations"); i > 0; i-- {
		op := rapid.SampledFrom([]string{"truncate", "extend", "flip", "set", "header", "net", "insert", "delete", "dup", "drop first", "zero pad number"}).Draw(t, "op")
		ops += op + ","
		pos := 0
		if len(b) > 0 {
			pos = rapid.IntRange(0, len(b)-1).Draw(t, "pos")
		}
		switch {
		case op == "truncate" && len(b) > 0:
			b = b[:pos]
		case op == "extend":
			b = append(b, hx.BytesLen(1, 40).Draw(t, "more")...)
		case op == "flip" && len(b) > 0:
			b[pos] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		case op == "set" && len(b) > 0:
			b[pos] = rapid.Byte().Draw(t, "val")
		case op == "header" && len(b) > 0:
			b[0] = rapid.Byte().Draw(t, "header")
		case op == "net" && len(b) > 0:
			b[0] = b[0]&0xf0 | rapid.ByteRange(0, 15).Draw(t, "netId")
		case op == "insert" && len(b) > 0:
			b = append(b[:pos:pos], append([]byte{rapid.Byte().Draw(t, "val")}, b[pos:]...)...)
		case op == "delete" && len(b) > 0:
			b = append(b[:pos:pos], b[pos+1:]...)
		case op == "dup":
			b = append(b, b...)
		case op == "drop first" && len(b) > 0:
			b = b[1:]
		case op == "zero pad number" && len(b) > 29:
			b = append(b[:29:29], append([]byte{0x80}, b[29:]...)...)
		}
	}
	return b, ops
}

// byronVariants are byte strings that decode like a Byron address but are not its canonical form, or are not one.
func byronVariant(t *rapid.T) ([]byte, string) {
	m := am.OfKind(am.Byron).Draw(t, "byron")
	root, attrs, typ := ref.CBytes(m.Root), m.ByronAttrs(), ref.CUint(0)
	what := rapid.SampledFrom([]string{"extra attribute", "attribute order", "wide head", "indefinite", "empty payload", "duplicate attribute", "extra element", "wide outer", "text key", "wide crc", "trailing inner", "nested tag"}).Draw(t, "variant")
	inner := ref.CArray(root, attrs, typ)
	outer := func(in []byte) []byte { return am.ByronWrap(in) }
	switch what {
	case "extra attribute":
		n := uint64(attrs[0] & 31)
		k := ref.CUint(uint64(rapid.SampledFrom([]int{0, 3, 24, 1000}).Draw(t, "key")))
		attrs2 := append(append(append(ref.Head(5, n+1), attrs[1:]...), k...), ref.CBytes(hx.BytesLen(0, 40).Draw(t, "val"))...)
		return outer(ref.CArray(root, attrs2, typ)), what
	case "attribute order":
		p, mg := hx.BytesLen(1, 40).Draw(t, "p"), ref.CUint(uint64(rapid.Uint32().Draw(t, "mg")))
		attrs2 := append(append(append(append(ref.Head(5, 2), 2), ref.CBytes(mg)...), 1), ref.CBytes(p)...)
		return outer(ref.CArray(root, attrs2, typ)), what
	case "wide head":
		w := rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "w")
		switch rapid.IntRange(0, 2).Draw(t, "where") {
		case 0:
			return outer(ref.CArray(root, attrs, ref.HeadWide(0, 0, w))), what
		case 1:
			return outer(ref.CArray(append(ref.HeadWide(2, 28, max(w, 2)), m.Root...), attrs, typ)), what
		default:
			return outer(append(ref.HeadWide(4, 3, w), inner[1:]...)), what
		}
	case "indefinite":
		return outer(append(append([]byte{0x9f}, inner[1:]...), 0xff)), what
	case "empty payload":
		return outer(ref.CArray(root, []byte{0xa1, 1, 0x40}, typ)), what
	case "duplicate attribute":
		a := append(append(append([]byte{0xa2, 1}, ref.CBytes([]byte{1})...), 1), ref.CBytes([]byte{2})...)
		return outer(ref.CArray(root, a, typ)), what
	case "extra element":
		return outer(ref.CArray(root, attrs, typ, ref.CUint(0))), what
	case "wide outer":
		return append(append(append(ref.HeadWide(4, 2, 1)[:0:0], 0x82), ref.CTag(24, append(ref.HeadWide(2, uint64(len(inner)), 4), inner...))...), ref.CUint(uint64(ref.CRC32(inner)))...), what
	case "text key":
		a := append(append([]byte{0xa1}, ref.CText("1")...), ref.CBytes([]byte{1})...)
		return outer(ref.CArray(root, a, typ)), what
	case "wide crc":
		return append(append([]byte{0x82}, ref.CTag(24, ref.CBytes(inner))...), ref.HeadWide(0, uint64(ref.CRC32(inner)), 8)...), what
	case "trailing inner":
		return outer(append(inner, hx.BytesLen(1, 5).Draw(t, "tail")...)), what
	default:
		return append(append([]byte{0x82}, ref.CTag(24, ref.CTag(24, ref.CBytes(inner)))...), ref.CUint(uint64(ref.CRC32(inner)))...), what
	}
}

func checkDecode(raw []byte) (accepted bool, problem string) {
	ways := decoders(raw)
	ways["CBOR"] = func() (address.Address, error) { return unmarshal(raw, false) }
	for how, dec := range ways {
		var a address.Address
		var err error
		if p := hx.Try(func() { a, err = dec() }); p != nil {
			return false, fmt.Sprintf("decoding %x from %s: %v", raw, how, p)
		}
		if err != nil {
			if how != "CBOR" && wellFormed(raw) {
				return false, fmt.Sprintf("well-formed address %x rejected from %s: %v", raw, how, err)
			}
			continue
		}
		if a == nil {
			return false, fmt.Sprintf("decoding %x from %s: nil address without an error", raw, how)
		}
		var back []byte
		if p := hx.Try(func() { back = a.Bytes() }); p != nil {
			return false, fmt.Sprintf("re-encoding %x: %v", raw, p)
		}
		if !bytes.Equal(back, raw) {
			return false, fmt.Sprintf("%x accepted from %s as the different address %x (%T)", raw, how, back, a)
		}
		accepted = true
	}
	return accepted, ""
}

// rawAddresses and textAddresses are where coverage-guided runs begin.
func rawAddresses() (out [][]byte) {
	for i := 0; i < 6; i++ {
		for _, g := range []*rapid.Generator[am.Addr]{am.Shelley(true), am.OfKind(am.Byron), am.OfKind(am.Pointer)} {
			out = append(out, g.Example(i).Bytes())
		}
	}
	return
}

func textAddresses() (out [][]byte) {
	for i := 0; i < 6; i++ {
		for _, g := range []*rapid.Generator[am.Addr]{am.Shelley(true), am.OfKind(am.Byron), am.OfKind(am.Pointer)} {
			out = append(out, []byte(g.Example(i).Text()))
		}
	}
	return
}

func TestC02(t *testing.T) {
	h := hx.Start(t, "C02", "byte strings: mutated valid addresses of every kind, Byron re-encodings, random strings with every header, enumerated header x length; non-trivial: not a well-formed address")
	run := func(t *rapid.T, c *hx.C, raw []byte) {
		c.Key("%x", raw)
		c.Nontrivial(!wellFormed(raw))
		ok, problem := checkDecode(raw)
		if problem != "" {
			t.Fatal(problem)
		}
		c.Class("accepted", ok)
		c.Class("rejected", !ok)
	}
	h.Raw(rawAddresses(), func(b []byte) string { _, p := checkDecode(b); return p })
	h.Check("mutated", 8000, func(t *rapid.T, c *hx.C) {
		m := am.Any().Draw(t, "address")
		raw, ops := mutate(t, m.Bytes())
		c.Class(m.Kind.String(), true)
		_ = ops
		run(t, c, raw)
	})
	h.Check("random", 5000, func(t *rapid.T, c *hx.C) {
		raw := hx.BytesLen(0, 120, 1, 29, 32, 57).Draw(t, "raw")
		if len(raw) > 0 && rapid.Bool().Draw(t, "fixHeader") {
			raw[0] = rapid.ByteRange(0, 15).Draw(t, "type")<<4 | rapid.SampledFrom([]byte{0, 1, 2, 15}).Draw(t, "netId")
		}
		run(t, c, raw)
	})
	h.Check("pointer numbers", 4000, func(t *rapid.T, c *hx.C) {
		raw := append([]byte{rapid.SampledFrom([]byte{0x40, 0x41, 0x50, 0x51}).Draw(t, "header")}, hx.Bytes(28).Draw(t, "hash")...)
		for i := 0; i < 3; i++ {
			switch rapid.IntRange(0, 3).Draw(t, "num") {
			case 0:
				raw = append(raw, bytes.Repeat([]byte{0x80}, rapid.IntRange(1, 3).Draw(t, "pad"))...)
				raw = append(raw, ref.NatEncode(am.Nat().Draw(t, "nat"))...)
			case 1: // 10 or 11 groups: around and beyond 64 bits
				for j := rapid.IntRange(8, 10).Draw(t, "groups"); j > 0; j-- {
					raw = append(raw, 0x80|rapid.ByteRange(0, 127).Draw(t, "g"))
				}
				raw = append(raw, rapid.ByteRange(0, 127).Draw(t, "last"))
			default:
				raw = append(raw, ref.NatEncode(am.Nat().Draw(t, "nat"))...)
			}
		}
		run(t, c, raw)
	})
	h.Check("byron variants", 3000, func(t *rapid.T, c *hx.C) {
		raw, what := byronVariant(t)
		c.Class(what, true)
		run(t, c, raw)
	})
	h.Check("valid accepted", 3000, func(t *rapid.T, c *hx.C) {
		m := am.Any().Draw(t, "address")
		raw := m.Bytes()
		c.Key("%x", raw)
		c.Class(m.Kind.String(), true)
		ok, problem := checkDecode(raw)
		if problem != "" || !ok {
			t.Fatalf("valid address %s rejected or altered %s", m.Key(), problem)
		}
	})
	h.Each("header x length", true, func(rec func(*hx.C)) error {
		for hd := 0; hd < 256; hd++ {
			for n := 0; n <= 64; n++ {
				raw := hx.Expand(uint64(hd*100+n), n)
				if n > 0 {
					raw[0] = byte(hd)
				}
				_, problem := checkDecode(raw)
				if problem != "" {
					return fmt.Errorf("%s", problem)
				}
				c := &hx.C{}
				c.Key("%x", raw)
				c.Nontrivial(!wellFormed(raw))
				rec(c)
			}
		}
		return nil
	})
	h.Check("hex of bytes", 4000, func(t *rapid.T, c *hx.C) {
		raw := am.Any().Draw(t, "address").Bytes()
		if rapid.Bool().Draw(t, "mutated") {
			raw, _ = mutate(t, raw)
		}
		s := hex.EncodeToString(raw)
		if rapid.Bool().Draw(t, "upper") {
			s = strings.ToUpper(s)
		}
		how := rapid.SampledFrom([]string{"plain", "prefix", "suffix", "inside", "digit", "odd"}).Draw(t, "text")
		p := rapid.IntRange(0, len(s)).Draw(t, "pos")
		odd := rapid.SampledFrom([]string{"0x", "0X", "\\x", " ", "\n", "\t", "\"", "'", ":", "-", "_", "h", "g", "G", "/", "@", "\x60", "\x00", "\ufeff", "é", "０", "#", "hex:", "+"}).Draw(t, "insert")
		switch how {
		case "prefix":
			s = odd + s
		case "suffix":
			s += odd
		case "inside":
			s = s[:p] + odd + s[p:]
		case "digit":
			if p < len(s) {
				s = s[:p] + odd + s[min(p+len(odd), len(s)):]
			}
		case "odd":
			s = s[:p] + "0" + s[p:]
		}
		// what the text denotes
		var want []byte
		valid := len(s)%2 == 0
		for i := 0; valid && i < len(s); i++ {
			d := strings.IndexByte("0123456789abcdef", s[i]|0x20)
			if s[i] < '0' || s[i] > '9' && s[i] < 'A' || d < 0 {
				valid = false
			} else if i%2 == 0 {
				want = append(want, byte(d)<<4)
			} else {
				want[i/2] |= byte(d)
			}
		}
		c.Key("%q", s)
		c.Nontrivial(!valid || how == "plain" && strings.ToLower(s) != s)
		c.Class("not hex", !valid)
		var a address.Address
		var err error
		if p := hx.Try(func() { a, err = address.NewAddressFromHex(s) }); p != nil {
			t.Fatalf("hex %q: %v", s, p)
		}
		if !valid {
			if err == nil {
				t.Fatalf("%q is not hex, but decodes to the address %x", s, a.Bytes())
			}
			return
		}
		_, berr := address.NewAddressFromBytes(want)
		if (err == nil) != (berr == nil) || err == nil && !bytes.Equal(a.Bytes(), want) {
			t.Fatalf("hex %q: error %v; its bytes: error %v", s, err, berr)
		}
	})
	h.Each("hex text", false, func(rec func(*hx.C)) error {
		for _, s := range []string{"", "0", "zz", "61zz", "6", "0x61", " 61", "é1"} {
			var a address.Address
			var err error
			if p := hx.Try(func() { a, err = address.NewAddressFromHex(s) }); p != nil {
				return fmt.Errorf("hex %q: %v", s, p)
			}
			if err == nil {
				return fmt.Errorf("hex %q accepted as %v", s, a)
			}
			c := &hx.C{}
			c.Key("hex %q", s)
			c.Nontrivial(true)
			rec(c)
		}
		return nil
	})
}

// ---- C03 ----

func TestC03(t *testing.T) {
	h := hx.Start(t, "C03", "a model address of a random kind; its text is compared with a reference encoder and parsed back; non-trivial: every case (distinct by address)")
	h.Each("rare checksums", false, func(rec func(*hx.C)) error {
		for _, i := range rare.Coded {
			c := &hx.C{}
			c.Key("%d", i)
			c.Nontrivial(true)
			raw := rare.Addr(i)
			want := ref.Bech32Encode("addr", raw)
			a, err := address.NewAddressFromBytes(rare.Addr(i))
			if err != nil || a.String() != want {
				return fmt.Errorf("text of address %x is %v (%v), want %q", raw, a, err, want)
			}
			if b, err := address.NewAddress(want); err != nil || !bytes.Equal(b.Bytes(), raw) || b.String() != want {
				return fmt.Errorf("parsing %q: %v %v", want, b, err)
			}
			rec(c)
		}
		return nil
	})
	h.Check("text", 6000, func(t *rapid.T, c *hx.C) {
		m := rapid.OneOf(am.Shelley(true), am.OfKind(am.Byron)).Draw(t, "address")
		c.Key("%s", m.Key())
		c.Nontrivial(true)
		classify(c, m)
		c.Class("other testnet magic", m.Kind != am.Byron && m.Net == 0 && m.Magic != am.TestMagic)
		a := build(t, m)
		want := m.Text()
		if got := a.String(); got != want {
			t.Fatalf("%s\ntext %q\nwant %q", m.Key(), got, want)
		}
		if p, ok := a.(interface{ Prefix() string }); ok && m.Kind != am.Byron {
			if p.Prefix() != m.HRP() {
				t.Fatalf("%s: prefix %q, want %q", m.Key(), p.Prefix(), m.HRP())
			}
		}
		b, err := address.NewAddress(want)
		if err != nil {
			t.Fatalf("%s: parsing its text %q: %v", m.Key(), want, err)
		}
		if s := m.Same(b, true); s != "" {
			t.Fatalf("%s: parsed address %s", m.Key(), s)
		}
		if !bytes.Equal(b.Bytes(), m.Bytes()) || b.String() != want {
			t.Fatalf("%s: parsed address has bytes %x and text %q", m.Key(), b.Bytes(), b.String())
		}
		for how, dec := range decoders(m.Bytes()) {
			d, err := dec()
			if err != nil || d.String() != want {
				t.Fatalf("%s: text after decoding from %s: %v, %v", m.Key(), how, d, err)
			}
		}
	})
	relatedAddrs(h, "text")
	h.Check("assigned fields", 1500, func(t *rapid.T, c *hx.C) {
		fields(t, c, rapid.SampledFrom(shelleyKinds).Draw(t, "kind"))
	})
}

// ---- C04 ----

const textAlphabet = "qpzry9x8gf2tvdw0s3jn54khce6mua7l1bioABCDEFGHJKLMNPQRSTUVWXYZ_ -"

// refAccepts says whether text is the canonical text of some address, judged
// only with the reference code. undecided: unknown network ids, where the
// standard defines no prefix.
func refAccepts(s string, raw []byte) (ok, undecided bool) {
	if hrp, data, good := ref.Bech32Decode(s); good && s == lower(s) {
		if len(data) == 0 {
			return false, false
		}
		if data[0]>>4 == 8 {
			return false, false
		}
		if data[0]&15 > 1 {
			return false, true
		}
		p := "addr"
		if data[0]>>4 >= 14 {
			p = "stake"
		}
		if data[0]&15 == 0 {
			p += "_test"
		}
		return wellFormed(data) && hrp == p && bytes.Equal(data, raw), false
	}
	// Byron: well-formed, checksum right, and the text is the base58 of the bytes
	it, err := ref.ParseCBOR(raw)
	if err != nil || it.Kind != ref.KArray || len(it.Items) != 2 || it.Items[0].Kind != ref.KTag || it.Items[0].N != 24 || it.Items[1].Kind != ref.KUint {
		return false, false
	}
	p := it.Items[0].Items[0]
	return p.Kind == ref.KBytes && uint64(ref.CRC32(p.Bytes)) == it.Items[1].N && ref.Base58Encode(raw) == s, false
}

func lower(s string) string { return string(bytes.ToLower([]byte(s))) }

func checkParse(s string) (accepted bool, problem string) {
	var a address.Address
	var err error
	if p := hx.Try(func() { a, err = address.NewAddress(s) }); p != nil {
		return false, fmt.Sprintf("parsing %q: %v", s, p)
	}
	if err != nil {
		return false, ""
	}
	if a == nil {
		return false, fmt.Sprintf("parsing %q: nil address without an error", s)
	}
	if a.String() != s {
		return false, fmt.Sprintf("%q accepted as the address %q", s, a.String())
	}
	ok, und := refAccepts(s, a.Bytes())
	if !ok && !und {
		return false, fmt.Sprintf("%q accepted, but it is not the text of an address (bytes %x)", s, a.Bytes())
	}
	return true, ""
}

func mutateText(t *rapid.T, s string) string {
	b := []byte(s)
	for i := rapid.IntRange(1, 4).Draw(t, "edits"); i > 0 && len(b) > 1; i-- {
		pos := rapid.IntRange(0, len(b)-1).Draw(t, "pos")
		ch := rapid.SampledFrom([]byte(textAlphabet)).Draw(t, "ch")
		switch rapid.IntRange(0, 8).Draw(t, "edit") {
		case 0, 1, 2:
			b[pos] = ch
		case 3:
			b = append(b[:pos:pos], b[pos+1:]...)
		case 4:
			b = append(b[:pos:pos], append([]byte{ch}, b[pos:]...)...)
		case 5:
			q := rapid.IntRange(0, len(b)-1).Draw(t, "pos2")
			b[pos], b[q] = b[q], b[pos]
		case 6:
			b = b[:pos]
		case 7:
			if b[pos] >= 'a' && b[pos] <= 'z' {
				b[pos] -= 32
			}
		case 8:
			b[pos] = rapid.Byte().Draw(t, "raw")
		}
	}
	return string(b)
}

func TestC04(t *testing.T) {
	h := hx.Start(t, "C04", "texts: edited valid texts, re-checksummed bytes with foreign prefixes or forms, arbitrary strings; non-trivial: the text differs from every valid text it came from")
	run := func(t *rapid.T, c *hx.C, s string) bool {
		c.Key("%q", s)
		c.Nontrivial(true)
		ok, problem := checkParse(s)
		if problem != "" {
			t.Fatal(problem)
		}
		c.Class("accepted", ok)
		c.Class("rejected", !ok)
		return ok
	}
	h.Raw(textAddresses(), func(b []byte) string { _, p := checkParse(string(b)); return p })
	h.Check("edited", 8000, func(t *rapid.T, c *hx.C) {
		m := am.Any().Draw(t, "address")
		s := mutateText(t, m.Text())
		c.Class(m.Kind.String(), true)
		if run(t, c, s) && s != m.Text() {
			// an edit that still is canonical text: possible only with 4 or more changed characters
			c.Class("edited into another valid text", true)
		}
	})
	h.Check("single edit", 6000, func(t *rapid.T, c *hx.C) {
		m := am.Any().Draw(t, "address")
		s := []byte(m.Text())
		pos := rapid.IntRange(0, len(s)-1).Draw(t, "pos")
		alpha := textAlphabet
		if m.Kind == am.Byron {
			alpha = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
		}
		ch := rapid.SampledFrom([]byte(alpha)).Draw(t, "ch")
		if s[pos] == ch {
			ch = alpha[(bytes.IndexByte([]byte(alpha), ch)+1)%len(alpha)]
		}
		s[pos] = ch
		if run(t, c, string(s)) && m.Kind != am.Byron {
			t.Fatalf("one changed character at %d of %q accepted: %q", pos, m.Text(), s)
		}
	})
	h.Check("foreign prefix", 4000, func(t *rapid.T, c *hx.C) {
		m := am.Any().Draw(t, "address")
		hrp := rapid.SampledFrom([]string{"addr", "addr_test", "stake", "stake_test", "addrx", "addr1", "stakes", "addr_", "stake_vk", "addr_vk", "a", "bc", "pool", "addr_test1", "addr_xvk"}).Draw(t, "hrp")
		data := m.Bytes()
		if rapid.IntRange(0, 3).Draw(t, "damage") == 0 {
			data, _ = mutate(t, data)
		}
		s := ref.Bech32Encode(hrp, data)
		if rapid.IntRange(0, 5).Draw(t, "upper") == 0 {
			s = string(bytes.ToUpper([]byte(s)))
		}
		c.Class("right prefix", m.Kind != am.Byron && hrp == m.HRP())
		run(t, c, s)
	})
	h.Check("decorated", 4000, func(t *rapid.T, c *hx.C) {
		// a valid text with something around it, or in another notation
		m := am.Any().Draw(t, "address")
		s := m.Text()
		extra := rapid.SampledFrom([]string{" ", "\n", "\t", "\r\n", "\x00", "1", "11", "0", "\"", "'", "addr", "addr1", "addr_test1", "stake1", "web+cardano:", "cardano:", "0x",
			"?amount=1", "#0", ",", ";", "/", "\ufeff", "\u200b", "\u00a0", "q", "=", "==", "/0"}).Draw(t, "extra")
		switch rapid.IntRange(0, 8).Draw(t, "how") {
		case 0:
			s = extra + s
		case 1:
			s += extra
		case 2:
			s = extra + s + extra
		case 3:
			i := rapid.IntRange(1, len(s)-1).Draw(t, "at")
			s = s[:i] + extra + s[i:]
		case 4:
			s = strings.ToUpper(s)
		case 5:
			s = fmt.Sprintf(rapid.SampledFrom([]string{"%x", "%X", "0x%x", "\\x%x"}).Draw(t, "hex"), m.Bytes())
		case 6:
			s += s
		case 7: // one half in the other letter case
			i := rapid.IntRange(1, len(s)-1).Draw(t, "at")
			if rapid.Bool().Draw(t, "first") {
				s = strings.ToUpper(s[:i]) + s[i:]
			} else {
				s = s[:i] + strings.ToUpper(s[i:])
			}
		default: // no separator, another one, or the prefix left out
			if i := strings.LastIndexByte(s, '1'); i > 0 && m.Kind != am.Byron {
				s = rapid.SampledFrom([]string{s[:i], "", s[:i] + ":", s[:i] + "11", s[:i] + "l", "1"}).Draw(t, "sep") + s[i+1:]
			}
		}
		run(t, c, s)
	})
	h.Check("wrong padding", 2000, func(t *rapid.T, c *hx.C) {
		m := am.Shelley(false).Draw(t, "address")
		v := ref.To5(m.Bytes())
		switch rapid.IntRange(0, 2).Draw(t, "how") {
		case 0:
			v = append(v, rapid.ByteRange(0, 31).Draw(t, "extra"))
		case 1:
			v[len(v)-1] |= rapid.ByteRange(0, 31).Draw(t, "or")
		case 2:
			v = v[:len(v)-1]
		}
		run(t, c, ref.Bech32From5(m.HRP(), v))
	})
	h.Check("base58 of anything", 4000, func(t *rapid.T, c *hx.C) {
		var raw []byte
		if rapid.Bool().Draw(t, "valid") {
			m := am.Any().Draw(t, "address")
			raw = m.Bytes()
			if rapid.Bool().Draw(t, "damage") {
				raw, _ = mutate(t, raw)
			}
		} else {
			raw = hx.BytesLen(0, 90, 29, 57).Draw(t, "raw")
		}
		run(t, c, ref.Base58Encode(raw))
	})
	h.Check("arbitrary", 4000, func(t *rapid.T, c *hx.C) {
		s := rapid.OneOf(rapid.String(), rapid.StringOf(rapid.RuneFrom([]rune(textAlphabet))),
			rapid.StringMatching(`(addr|addr_test|stake|stake_test)1?[qpzry9x8gf2tvdw0s3jn54khce6mua7l]{0,110}`)).Draw(t, "text")
		run(t, c, s)
	})
}

// ---- C05 ----

func TestC05(t *testing.T) {
	h := hx.Start(t, "C05", "model Byron addresses, and single-field corruptions of them; non-trivial: has a payload or a network attribute, or is a corruption")
	h.Check("preserved", 5000, func(t *rapid.T, c *hx.C) {
		m := am.OfKind(am.Byron).Draw(t, "address")
		c.Key("%s", m.Key())
		c.Nontrivial(m.Payload != nil || m.NetMagic != nil)
		c.Class("payload", m.Payload != nil)
		c.Class("testnet magic", m.NetMagic != nil)
		raw := m.Bytes()
		for how, dec := range map[string]func() (address.Address, error){
			"bytes":                     func() (address.Address, error) { return address.NewAddressFromBytes(raw) },
			"base58":                    func() (address.Address, error) { return address.NewAddress(m.Text()) },
			"hex":                       func() (address.Address, error) { return address.NewAddressFromHex(hex.EncodeToString(raw)) },
			"CBOR":                      func() (address.Address, error) { return unmarshal(raw, false) },
			"CBOR into a used variable": func() (address.Address, error) { return unmarshal(raw, true) },
		} {
			a, err := dec()
			if err != nil {
				t.Fatalf("%s from %s: %v", m.Key(), how, err)
			}
			std := m.NetMagic == nil || *m.NetMagic == am.TestMagic
			if s := m.Same(a, std); s != "" {
				t.Fatalf("%s from %s: %s", m.Key(), how, s)
			}
			if !bytes.Equal(a.Bytes(), raw) || a.String() != m.Text() {
				t.Fatalf("%s from %s: re-encodes to %x / %s, want %x / %s", m.Key(), how, a.Bytes(), a.String(), raw, m.Text())
			}
			if cb, err := a.MarshalCBOR(); err != nil || (!bytes.Equal(cb, raw) && !bytes.Equal(cb, ref.CBytes(raw))) {
				t.Fatalf("%s from %s: CBOR %x, %v", m.Key(), how, cb, err)
			}
		}
	})
	h.Each("payload lengths", false, func(rec func(*hx.C)) error {
		lens := []int{511, 512, 513, 1023, 1024, 1025, 2048, 4096, 16384, 65535, 65536, 70000}
		for n := 0; n <= 300; n++ {
			lens = append(lens, n)
		}
		for _, n := range lens {
			for _, magic := range []uint32{0, am.TestMagic, 2, 1 << 31} {
				m := am.Addr{Kind: am.Byron, Root: hx.Expand(uint64(n), 28), Payload: hx.Expand(uint64(n)+1, n)}
				if magic != 0 {
					magic := magic
					m.NetMagic = &magic
				}
				raw := m.Bytes()
				c := &hx.C{}
				c.Key("%d %d", n, magic)
				c.Nontrivial(true)
				ways := []func() (address.Address, error){
					func() (address.Address, error) { return address.NewAddressFromBytes(raw) },
					func() (address.Address, error) { return address.NewAddressFromHex(hex.EncodeToString(raw)) },
				}
				if n <= 1025 { // base 58 takes quadratic time
					ways = append(ways, func() (address.Address, error) { return address.NewAddress(m.Text()) })
				}
				for i, dec := range ways {
					a, err := dec()
					if err != nil {
						return fmt.Errorf("payload of %d bytes, magic %d, way %d: %v", n, magic, i, err)
					}
					if s := m.Same(a, m.NetMagic == nil || magic == am.TestMagic); s != "" {
						return fmt.Errorf("payload of %d bytes, magic %d, way %d: %s", n, magic, i, s)
					}
					if !bytes.Equal(a.Bytes(), raw) || n <= 1025 && a.String() != m.Text() {
						return fmt.Errorf("payload of %d bytes, magic %d, way %d: does not come out the same", n, magic, i)
					}
				}
				rec(c)
			}
		}
		return nil
	})
	h.Check("corrupted", 6000, func(t *rapid.T, c *hx.C) {
		m := am.OfKind(am.Byron).Draw(t, "address")
		root, attrs, typ := ref.CBytes(m.Root), m.ByronAttrs(), ref.CUint(0)
		inner := ref.CArray(root, attrs, typ)
		crc := uint64(ref.CRC32(inner))
		tag := uint64(24)
		var raw []byte
		what := rapid.SampledFrom([]string{"crc", "crc bit", "payload bit", "tag", "root length", "type", "crc 33 bits", "content text", "content array", "no crc"}).Draw(t, "what")
		mk := func(in []byte) []byte {
			return ref.CArray(ref.CTag(tag, ref.CBytes(in)), ref.CUint(crc))
		}
		switch what {
		case "crc":
			old := crc
			crc = uint64(rapid.Uint32().Draw(t, "crc"))
			if crc == old {
				crc ^= 1
			}
			raw = mk(inner)
		case "crc bit":
			crc ^= 1 << rapid.IntRange(0, 31).Draw(t, "bit")
			raw = mk(inner)
		case "payload bit":
			in := append([]byte(nil), inner...)
			in[rapid.IntRange(0, len(in)-1).Draw(t, "pos")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			raw = mk(in)
		case "tag":
			tag = rapid.OneOf(rapid.SampledFrom([]uint64{0, 1, 2, 3, 23, 25, 30, 258, 55799}), rapid.Uint64()).Draw(t, "tag")
			if tag == 24 {
				tag = 25
			}
			raw = mk(inner)
		case "root length":
			n := hx.LenIn(t, 0, 64, 28, 32)
			if n == 28 {
				n = 29
			}
			inner = ref.CArray(ref.CBytes(hx.Bytes(n).Draw(t, "root2")), attrs, typ)
			crc = uint64(ref.CRC32(inner))
			raw = mk(inner)
		case "type":
			ty := rapid.SampledFrom([]uint64{1, 2, 3, 23, 24, 255, 1 << 40}).Draw(t, "type")
			inner = ref.CArray(root, attrs, ref.CUint(ty))
			crc = uint64(ref.CRC32(inner))
			raw = mk(inner)
		case "crc 33 bits":
			crc += 1 << rapid.IntRange(32, 63).Draw(t, "bit")
			raw = mk(inner)
		case "content text":
			raw = ref.CArray(ref.CTag(24, append(ref.Head(3, uint64(len(inner))), inner...)), ref.CUint(crc))
		case "content array":
			raw = ref.CArray(ref.CTag(24, inner), ref.CUint(crc))
		case "no crc":
			raw = ref.CArray(ref.CTag(24, ref.CBytes(inner)))
		}
		c.Key("%s %x", what, raw)
		c.Nontrivial(true)
		c.Class(what, true)
		for how, dec := range map[string]func() (address.Address, error){
			"bytes":                     func() (address.Address, error) { return address.NewAddressFromBytes(raw) },
			"base58":                    func() (address.Address, error) { return address.NewAddress(ref.Base58Encode(raw)) },
			"CBOR":                      func() (address.Address, error) { return unmarshal(raw, false) },
			"CBOR into a used variable": func() (address.Address, error) { return unmarshal(raw, true) },
		} {
			var err error
			if p := hx.Try(func() { _, err = dec() }); p != nil {
				t.Fatalf("%s (%s) from %s: %v", what, m.Key(), how, p)
			}
			if err == nil {
				t.Fatalf("corrupted Byron address accepted from %s: %s: %x (from %s)", how, what, raw, m.Key())
			}
		}
	})
}

// ---- C06 ----

func TestC06(t *testing.T) {
	h := hx.Start(t, "C06", "64-bit numbers around every base-128 boundary with a random tail; byte strings with padded, over-long and unterminated numbers; non-trivial: number of two or more groups, or malformed")
	one := func(n uint64, tail []byte) error {
		want := ref.NatEncode(n)
		got := address.VariableNatEncode(n)
		if !bytes.Equal(got, want) {
			return fmt.Errorf("encode(%d) = %x, want %x", n, got, want)
		}
		in := append(append([]byte(nil), want...), tail...)
		v, l, err := address.VariableNatDecode(in)
		if err != nil || v != n || l != len(want) {
			return fmt.Errorf("decode(%x) = %d,%d,%v, want %d,%d", in, v, l, err, n, len(want))
		}
		if !bytes.Equal(in[:l], want) || !bytes.Equal(in[l:], tail) {
			return fmt.Errorf("decoding %x%x changed it to %x", want, tail, in)
		}
		// the code belongs to the caller, who may write to it and append to it
		for i := range got {
			got[i] ^= 0xff
		}
		_ = append(got, 0xee, 0xee)
		for _, m := range []uint64{n, n + 1, n + 2} {
			if again := address.VariableNatEncode(m); !bytes.Equal(again, ref.NatEncode(m)) {
				return fmt.Errorf("encode(%d) = %x after a caller changed the code it got for %d", m, again, n)
			}
		}
		return nil
	}
	h.Check("round trip", 10000, func(t *rapid.T, c *hx.C) {
		n := am.Nat().Draw(t, "n")
		tail := hx.BytesLen(0, 12).Draw(t, "tail")
		if rapid.IntRange(0, 7).Draw(t, "longTail") == 0 {
			tail = hx.BytesLen(12, 2000, 32, 64, 128, 256, 1024).Draw(t, "tail")
		}
		c.Key("%d %x", n, tail)
		c.Nontrivial(n > 127)
		c.Class("above 2^56", n > 1<<56)
		if err := one(n, tail); err != nil {
			t.Fatal(err)
		}
	})
	h.Check("arbitrary bytes", 10000, func(t *rapid.T, c *hx.C) {
		var in []byte
		switch rapid.IntRange(0, 3).Draw(t, "mode") {
		case 0:
			in = hx.BytesLen(0, 24).Draw(t, "raw")
		case 1: // k groups with continuation, then maybe an end
			for i := rapid.IntRange(0, 12).Draw(t, "groups"); i > 0; i-- {
				in = append(in, 0x80|rapid.ByteRange(0, 127).Draw(t, "g"))
			}
			if rapid.Bool().Draw(t, "end") {
				in = append(in, rapid.ByteRange(0, 127).Draw(t, "last"))
			}
		case 2:
			in = append(bytes.Repeat([]byte{0x80}, rapid.IntRange(1, 12).Draw(t, "pad")), ref.NatEncode(am.Nat().Draw(t, "n"))...)
		case 3: // beyond 64 bits: 10 groups with first group above 1
			in = append(in, 0x80|rapid.ByteRange(1, 127).Draw(t, "first"))
			for i := 0; i < 8; i++ {
				in = append(in, 0x80|rapid.ByteRange(0, 127).Draw(t, "g"))
			}
			in = append(in, rapid.ByteRange(0, 127).Draw(t, "last"))
		}
		if rapid.IntRange(0, 7).Draw(t, "longTail") == 0 {
			in = append(in, hx.BytesLen(0, 300, 32, 64, 128, 256).Draw(t, "tail")...)
		}
		c.Key("%x", in)
		was := append([]byte(nil), in...)
		n := natLen(in)
		c.Nontrivial(n != 1)
		c.Class("malformed", n == 0)
		var v uint64
		var l int
		var err error
		if p := hx.Try(func() { v, l, err = address.VariableNatDecode(in) }); p != nil {
			t.Fatalf("decode(%x): %v", in, p)
		}
		if !bytes.Equal(in, was) {
			t.Fatalf("decoding %x changed it to %x", was, in)
		}
		if err != nil {
			if n > 0 {
				t.Fatalf("decode(%x): canonical number rejected: %v", in, err)
			}
			return
		}
		if l < 1 || l > len(in) || !bytes.Equal(ref.NatEncode(v), in[:l]) {
			t.Fatalf("decode(%x) = %d, %d bytes: not the code of that number", in, v, l)
		}
	})
	h.Each("group boundaries", true, func(rec func(*hx.C)) error {
		for g := 0; g <= 9; g++ {
			for d := int64(-64); d <= 64; d++ {
				n := uint64(1)<<(7*g) + uint64(d)
				if err := one(n, []byte{0x55}); err != nil {
					return err
				}
				c := &hx.C{}
				c.Key("%d", n)
				c.Nontrivial(n > 127)
				rec(c)
			}
		}
		for n := uint64(0); n < 70000; n++ {
			if err := one(n, nil); err != nil {
				return err
			}
		}
		return nil
	})
}

// ---- C07 ----

func TestC07(t *testing.T) {
	h := hx.Start(t, "C07", "model base addresses, constructed or decoded; non-trivial: payment and stake hashes differ")
	h.Check("conversion", 6000, func(t *rapid.T, c *hx.C) {
		m := am.OfKind(am.Base).Draw(t, "address")
		if rapid.IntRange(0, 3).Draw(t, "otherMagic") == 0 && m.Net == 0 {
			m.Magic = 1
		}
		how := rapid.SampledFrom([]string{"constructed", "bytes", "text", "hex"}).Draw(t, "how")
		c.Key("%s %s", how, m.Key())
		c.Nontrivial(!bytes.Equal(m.Pay, m.Stake))
		classify(c, m)
		c.Class(how, true)
		var a address.Address
		var err error
		switch how {
		case "constructed":
			a, err = m.Build()
		case "bytes":
			a, err = address.NewAddressFromBytes(m.Bytes())
		case "text":
			a, err = address.NewAddress(m.Text())
		case "hex":
			a, err = address.NewAddressFromHex(hex.EncodeToString(m.Bytes()))
		}
		b, ok := a.(*address.BaseAddress)
		if err != nil || !ok {
			t.Fatalf("%s %s: %T %v", how, m.Key(), a, err)
		}
		em, rm := m, m
		em.Kind, em.Stake, em.SScript = am.Enterprise, nil, false
		rm.Kind, rm.Pay, rm.PScript = am.Reward, nil, false
		net := *b.NetworkInfo()
		e, r := b.ToEnterprise(), b.ToReward()
		for _, x := range []struct {
			m am.Addr
			a address.Address
		}{{em, e}, {rm, r}} {
			if s := x.m.Same(x.a, false); s != "" {
				t.Fatalf("%s: derived %s %s", m.Key(), x.m.Kind, s)
			}
			if *x.a.NetworkInfo() != net {
				t.Fatalf("%s: derived %s has network %+v, base has %+v", m.Key(), x.m.Kind, *x.a.NetworkInfo(), net)
			}
			direct, _ := x.m.Build()
			if !bytes.Equal(x.a.Bytes(), x.m.Bytes()) || x.a.String() != x.m.Text() || x.a.String() != direct.String() {
				t.Fatalf("%s: derived %s is %x %s, want %x %s", m.Key(), x.m.Kind, x.a.Bytes(), x.a.String(), x.m.Bytes(), x.m.Text())
			}
		}
		if s := m.Same(b, false); s != "" || !bytes.Equal(b.Bytes(), m.Bytes()) || b.String() != m.Text() || *b.NetworkInfo() != net {
			t.Fatalf("%s: base address changed by conversion: %s %x", m.Key(), s, b.Bytes())
		}
	})
	h.Check("assigned fields", 1500, func(t *rapid.T, c *hx.C) {
		fields(t, c, am.Base)
	})
}

// ---- C08 (address and network part; keys are in the keys package) ----

func smash(t *rapid.T, bs ...[]byte) {
	v := rapid.Byte().Draw(t, "smash")
	for _, b := range bs {
		b = b[:cap(b)]
		for i := range b {
			b[i] = b[i] ^ v ^ 0xa5 | 1
		}
	}
}

func TestC08(t *testing.T) {
	h := hx.Start(t, "C08", "an address is decoded, then input and output buffers are overwritten and it is observed again; key and hash operations are run on guarded inputs; non-trivial: every case (distinct by input)")
	h.Check("decoded address", 5000, func(t *rapid.T, c *hx.C) {
		m := am.Any().Draw(t, "address")
		c.Key("%s", m.Key())
		c.Nontrivial(true)
		classify(c, m)
		want, text := m.Bytes(), m.Text()
		// give the input spare capacity as well: it belongs to the caller
		buf := append(make([]byte, 0, len(want)+40), want...)
		copy(buf[len(want):cap(buf)], bytes.Repeat([]byte{0x3c}, 40))
		a, err := address.NewAddressFromBytes(buf)
		if err != nil {
			t.Fatalf("%s: %v", m.Key(), err)
		}
		obs := func(when string) {
			if !bytes.Equal(a.Bytes(), want) || a.String() != text {
				t.Fatalf("%s: after %s the address reads %x %s, want %x %s", m.Key(), when, a.Bytes(), a.String(), want, text)
			}
			cb, err := a.MarshalCBOR()
			if err != nil || (!bytes.Equal(cb, ref.CBytes(want)) && !(m.Kind == am.Byron && bytes.Equal(cb, want))) {
				t.Fatalf("%s: after %s the CBOR form is %x, %v", m.Key(), when, cb, err)
			}
		}
		full := buf[:cap(buf)]
		if !bytes.Equal(full[:len(want)], want) || !bytes.Equal(full[len(want):], bytes.Repeat([]byte{0x3c}, 40)) {
			t.Fatalf("%s: decoding changed its input to %x", m.Key(), full)
		}
		obs("decoding")
		smash(t, buf)
		obs("overwriting the input")
		b1 := a.Bytes()
		cb, _ := a.MarshalCBOR()
		smash(t, b1, cb)
		obs("overwriting returned encodings")
		if x, ok := a.(*address.BaseAddress); ok {
			e, r := x.ToEnterprise(), x.ToReward()
			smash(t, e.Bytes(), r.Bytes())
			obs("converting and overwriting the conversions' encodings")
			e2 := x.ToEnterprise()
			e.Network.NetworkId ^= 1
			r.Network.NetworkId ^= 1
			obs("changing the network of a conversion")
			if !bytes.Equal(e2.Bytes()[1:], want[1:29]) {
				t.Fatalf("%s: second conversion differs", m.Key())
			}
		}
		a2, err := address.NewAddressFromBytes(m.Bytes())
		if err != nil || !bytes.Equal(a2.Bytes(), want) {
			t.Fatalf("%s: decoding again: %v", m.Key(), err)
		}
	})
	h.Check("constructed address", 4000, func(t *rapid.T, c *hx.C) {
		// encoding and converting an address write neither to the caller's
		// hashes nor to what lies behind them
		m := am.Any().Draw(t, "address")
		c.Key("%s", m.Key())
		c.Nontrivial(m.Kind != am.Byron)
		classify(c, m)
		buf, pay, stake := m.Buffer()
		before := append([]byte{}, buf...)
		a, err := m.BuildFrom(pay, stake)
		if err != nil {
			t.Fatalf("%s: %v", m.Key(), err)
		}
		want, text := m.Bytes(), m.Text()
		var kept [][]byte
		for _, o := range rapid.SliceOfN(rapid.SampledFrom([]string{"bytes", "text", "cbor", "convert"}), 1, 4).Draw(t, "operations") {
			switch o {
			case "bytes":
				b := a.Bytes()
				if !bytes.Equal(b, want) {
					t.Fatalf("%s: bytes %x, want %x", m.Key(), b, want)
				}
				kept = append(kept, b)
			case "text":
				if s := a.String(); s != text {
					t.Fatalf("%s: text %s, want %s", m.Key(), s, text)
				}
			case "cbor":
				a.MarshalCBOR()
			case "convert":
				if x, ok := a.(*address.BaseAddress); ok {
					e, r := x.ToEnterprise(), x.ToReward()
					if b := e.Bytes(); !bytes.Equal(b[1:], m.Pay) {
						t.Fatalf("%s: enterprise address %x", m.Key(), b)
					}
					if b := r.Bytes(); !bytes.Equal(b[1:], m.Stake) {
						t.Fatalf("%s: reward address %x", m.Key(), b)
					}
					_, _ = e.String(), r.String()
				}
			}
			if !bytes.Equal(buf, before) {
				t.Fatalf("%s: %s changed the buffer of the hashes from %x to %x", m.Key(), o, before, buf)
			}
			for _, b := range kept {
				if !bytes.Equal(b, want) {
					t.Fatalf("%s: %s changed an earlier result to %x, want %x", m.Key(), o, b, want)
				}
			}
		}
		smash(t, kept...)
		if !bytes.Equal(buf, before) || !bytes.Equal(a.Bytes(), want) {
			t.Fatalf("%s: overwriting returned encodings changed the buffer of the hashes or the address to %x", m.Key(), a.Bytes())
		}
	})
	h.Check("networks", 1000, func(t *rapid.T, c *hx.C) {
		id, magic := rapid.Byte().Draw(t, "id"), rapid.Uint32().Draw(t, "magic")
		c.Key("%d %d", id, magic)
		c.Nontrivial(true)
		m, n := network.MainNet(), network.TestNet()
		m2, n2 := network.MainNet(), network.TestNet()
		m.NetworkId, m.ProtocolMagic = id, magic
		n.NetworkId, n.ProtocolMagic = id, magic
		if *m2 != (network.NetworkInfo{NetworkId: 1, ProtocolMagic: am.MainMagic}) || *n2 != (network.NetworkInfo{NetworkId: 0, ProtocolMagic: am.TestMagic}) {
			t.Fatalf("the descriptions given to one caller are %+v and %+v after another changed its own", *m2, *n2)
		}
		if got := *network.MainNet(); got != (network.NetworkInfo{NetworkId: 1, ProtocolMagic: am.MainMagic}) {
			t.Fatalf("MainNet() is %+v after a caller changed its copy", got)
		}
		if got := *network.TestNet(); got != (network.NetworkInfo{NetworkId: 0, ProtocolMagic: am.TestMagic}) {
			t.Fatalf("TestNet() is %+v after a caller changed its copy", got)
		}
		mod := am.Any().Draw(t, "address")
		a, err := address.NewAddressFromBytes(mod.Bytes())
		if err != nil {
			t.Fatal(err)
		}
		a.NetworkInfo().NetworkId, a.NetworkInfo().ProtocolMagic = id, magic
		b, err := address.NewAddressFromBytes(mod.Bytes())
		std := mod.NetMagic == nil || *mod.NetMagic == am.TestMagic
		if err != nil {
			t.Fatal(err)
		}
		if s := mod.Same(b, std); s != "" {
			t.Fatalf("%s: decoding after another address's network was changed: %s", mod.Key(), s)
		}
	})
	h.Check("networks of two addresses", 1500, func(t *rapid.T, c *hx.C) {
		m, n := am.Any().Draw(t, "first"), am.Any().Draw(t, "second")
		if rapid.Bool().Draw(t, "same kind") {
			n = m
			n.Net ^= 1
			if m.Kind == am.Byron {
				n = m
			}
		}
		c.Key("%s; %s", m.Key(), n.Key())
		c.Nontrivial(m.Net != n.Net)
		a, err := address.NewAddressFromBytes(m.Bytes())
		if err != nil {
			t.Fatal(err)
		}
		b, err := address.NewAddressFromBytes(n.Bytes())
		if err != nil {
			t.Fatal(err)
		}
		na := a.NetworkInfo()
		wantA := *na
		nb := b.NetworkInfo()
		wantB := *nb
		a.NetworkInfo()
		if *na != wantA || *nb != wantB {
			t.Fatalf("the networks %+v of %s and %+v of %s became %+v and %+v by asking both addresses in turn", wantA, m.Key(), wantB, n.Key(), *na, *nb)
		}
		nb.NetworkId, nb.ProtocolMagic = ^nb.NetworkId, ^nb.ProtocolMagic
		if *na != wantA || *a.NetworkInfo() != wantA {
			t.Fatalf("the network %+v of %s became %+v, %+v when another address's network was changed", wantA, m.Key(), *na, *a.NetworkInfo())
		}
	})
	keyIsolation(h)
}
