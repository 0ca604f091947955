package hash

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/crypto"
	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
	"github.com/fivebinaries/go-cardano-serialization/verif/rare"
	"github.com/fivebinaries/go-cardano-serialization/verif/ref"
	"pgregory.net/rapid"
)

var ids = []struct {
	name string
	size int
	f    func([]byte) ([]byte, error)
}{
	{"Ed25519KeyHash", 28, func(b []byte) ([]byte, error) { h, err := crypto.Ed25519KeyHashFromBytes(b); return h[:], err }},
	{"ScriptHash", 28, func(b []byte) ([]byte, error) { h, err := crypto.ScriptHashFromBytes(b); return h[:], err }},
	{"TransactionHash", 32, func(b []byte) ([]byte, error) { h, err := crypto.TransactionHashFromBytes(b); return h[:], err }},
	{"GenesisDelegateHash", 28, func(b []byte) ([]byte, error) { h, err := crypto.GenesisDelegateHashFromBytes(b); return h[:], err }},
	{"GenesisHash", 28, func(b []byte) ([]byte, error) { h, err := crypto.GenesisHashFromBytes(b); return h[:], err }},
	{"MetadataHash", 32, func(b []byte) ([]byte, error) { h, err := crypto.MetadataHashFromBytes(b); return h[:], err }},
	{"VRFKeyHash", 32, func(b []byte) ([]byte, error) { h, err := crypto.VRFKeyHashFromBytes(b); return h[:], err }},
	{"BlockHash", 32, func(b []byte) ([]byte, error) { h, err := crypto.BlockHashFromBytes(b); return h[:], err }},
	{"VRFVKey", 32, func(b []byte) ([]byte, error) { h, err := crypto.VRFVKeyFromBytes(b); return h[:], err }},
	{"KESVKey", 32, func(b []byte) ([]byte, error) { h, err := crypto.KESVKeyFromBytes(b); return h[:], err }},
}

func digests(msg []byte) string {
	in := append([]byte(nil), msg...)
	a, b := crypto.Blake2b224(in), crypto.Blake2b256(in)
	if !bytes.Equal(in, msg) {
		return "input changed"
	}
	if w := ref.Blake2b(28, msg); !bytes.Equal(a[:], w) {
		return fmt.Sprintf("224-bit digest of %x is %x, want %x", msg, a, w)
	}
	if w := ref.Blake2b(32, msg); !bytes.Equal(b[:], w) {
		return fmt.Sprintf("256-bit digest of %x is %x, want %x", msg, b, w)
	}
	if k := bip32.PublicKey(in).Hash(); !bytes.Equal(k[:], a[:]) {
		return fmt.Sprintf("key hash of %x is %x, want %x", msg, k, a)
	}
	return ""
}

func identifier(i int, b []byte) (accepted bool, problem string) {
	id := ids[i]
	in := append([]byte(nil), b...)
	var out []byte
	var err error
	if p := hx.Try(func() { out, err = id.f(in) }); p != nil {
		return false, fmt.Sprintf("%s from %d bytes: %v", id.name, len(b), p)
	}
	if (err == nil) != (len(b) == id.size) {
		return err == nil, fmt.Sprintf("%s from %d bytes: error %v", id.name, len(b), err)
	}
	if err == nil {
		if len(out) != id.size || !bytes.Equal(out, b) {
			return true, fmt.Sprintf("%s of %x is %x", id.name, b, out)
		}
	}
	if !bytes.Equal(in, b) {
		return err == nil, id.name + ": input changed"
	}
	return err == nil, ""
}

func TestC15(t *testing.T) {
	h := hx.Start(t, "C15", "messages around the 128-byte block boundaries against an RFC 7693 reference; byte strings of every length for every identifier; non-trivial: message not empty / length within 3 of the identifier's")
	h.Check("digests", 6000, func(t *rapid.T, c *hx.C) {
		msg := hx.BytesLen(0, 1500, 0, 32, 64, 128, 256, 384, 1024).Draw(t, "msg")
		c.Key("%x", msg)
		c.Nontrivial(len(msg) > 0)
		c.Class("several blocks", len(msg) > 128)
		c.Class("whole blocks", len(msg) > 0 && len(msg)%128 == 0)
		if p := digests(msg); p != "" {
			t.Fatal(p)
		}
	})
	h.Check("long messages", 60, func(t *rapid.T, c *hx.C) {
		n := hx.LenIn(t, 1500, 140000, 4096, 16384, 65536, 131072)
		msg := hx.Expand(uint64(n), n)
		c.Key("%d", n)
		c.Nontrivial(true)
		if p := digests(msg); p != "" {
			t.Fatal(p)
		}
	})
	h.Check("related messages in turn", 800, func(t *rapid.T, c *hx.C) {
		// same length, same beginning, same end, one bit apart
		base := hx.BytesLen(1, 600, 32, 64, 128, 256).Draw(t, "msg")
		for i := rapid.IntRange(2, 6).Draw(t, "steps"); i > 0; i-- {
			m := append([]byte(nil), base...)
			switch rapid.IntRange(0, 4).Draw(t, "change") {
			case 0:
				m[rapid.IntRange(0, len(m)-1).Draw(t, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			case 1:
				m = m[:rapid.IntRange(0, len(m)).Draw(t, "cut")]
			case 2:
				m = append(m, make([]byte, rapid.IntRange(1, 130).Draw(t, "zeros"))...)
			case 3:
				m = m[rapid.IntRange(0, len(m)).Draw(t, "skip"):]
			}
			c.Key("%x", m)
			c.Nontrivial(true)
			if p := digests(m); p != "" {
				t.Fatal(p)
			}
		}
	})
	h.Each("rare results", false, func(rec func(*hx.C)) error {
		for _, i := range rare.Hashed {
			c := &hx.C{}
			c.Key("%d", i)
			c.Nontrivial(true)
			if p := digests(rare.Block(i, 32)); p != "" {
				return fmt.Errorf("%s", p)
			}
			rec(c)
		}
		return nil
	})
	h.Each("every length to 600", true, func(rec func(*hx.C)) error {
		for n := 0; n <= 600; n++ {
			msg := hx.Expand(uint64(n), n)
			c := &hx.C{}
			c.Key("%x", msg)
			c.Nontrivial(n > 0)
			if p := digests(msg); p != "" {
				return fmt.Errorf("%s", p)
			}
			rec(c)
		}
		return nil
	})
	h.Each("very long messages", false, func(rec func(*hx.C)) error {
		for _, n := range []int{1<<16 - 1, 1 << 16, 1<<16 + 1, 1<<20 - 1, 1 << 20, 1<<20 + 1, 5 << 20, 17<<20 + 3} {
			c := &hx.C{}
			c.Key("%d", n)
			c.Nontrivial(true)
			if p := digests(hx.Expand(uint64(n), n)); p != "" {
				return fmt.Errorf("%d bytes: %.200s", n, p)
			}
			rec(c)
		}
		return nil
	})
	h.Check("identifiers", 8000, func(t *rapid.T, c *hx.C) {
		i := rapid.IntRange(0, len(ids)-1).Draw(t, "identifier")
		n := ids[i].size
		if rapid.Bool().Draw(t, "otherLength") {
			n = hx.LenIn(t, 0, 100, ids[i].size, 0, 28, 32, 64)
		}
		b := hx.Bytes(n).Draw(t, "bytes")
		c.Key("%s %x", ids[i].name, b)
		d := len(b) - ids[i].size
		c.Nontrivial(d >= -3 && d <= 3)
		acc, p := identifier(i, b)
		c.Class("accepted", acc)
		c.Class("rejected", !acc)
		if p != "" {
			t.Fatal(p)
		}
	})
	h.Each("every identifier and length", true, func(rec func(*hx.C)) error {
		for i := range ids {
			for n := 0; n <= 130; n++ {
				b := hx.Expand(uint64(n), n)
				c := &hx.C{}
				c.Key("%s %d", ids[i].name, n)
				c.Nontrivial(true)
				if _, p := identifier(i, b); p != "" {
					return fmt.Errorf("%s", p)
				}
				rec(c)
			}
			if _, p := identifier(i, nil); p != "" {
				return fmt.Errorf("%s", p)
			}
		}
		return nil
	})
}
