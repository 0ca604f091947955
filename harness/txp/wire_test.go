package txp

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"strings"
	"testing"

	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/fees"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
	"github.com/fivebinaries/go-cardano-serialization/verif/rare"
	"github.com/fivebinaries/go-cardano-serialization/verif/ref"
	"github.com/fivebinaries/go-cardano-serialization/verif/txm"
	"golang.org/x/crypto/blake2b"
	"pgregory.net/rapid"
)

// ---- C16 ----

func TestC16(t *testing.T) {
	h := hx.Start(t, "C16", "transactions over all address kinds, list lengths to 300, amounts and slots over the full range, witnesses and metadata, decoded by an independent strict CBOR reader and compared with the model; malformed input hashes must fail. Non-trivial: at least one input and one output, or an invalid hash")
	h.Check("direct", 5000, func(t *rapid.T, c *hx.C) {
		m := txm.ModelGen(^uint64(0)).Draw(t, "tx")
		var wits []*tx.VKeyWitness
		var want []txm.Wit
		for i := txm.Count(t, "wits", 3, 25); i > 0; i-- {
			seed := rapid.Uint64().Draw(t, "wit")
			w := txm.Wit{VKey: hx.Expand(seed, 32), Sig: hx.Expand(seed+1, 64)}
			want = append(want, w)
			wits = append(wits, tx.NewVKeyWitness(append([]byte{}, w.VKey...), append([]byte{}, w.Sig...)))
		}
		c.Key("%s wits %d", m.Key(), len(want))
		c.Nontrivial(len(m.Ins) > 0 && len(m.Outs) > 0)
		classify(c, m)
		x := m.Tx()
		if rapid.Bool().Draw(t, "varargs") { // the lists in one call each
			x.Body = tx.NewTxBody()
			x.Body.TTL, x.Body.Fee = m.TTL, m.Fee
			var ins []*tx.TxInput
			for i, in := range m.Ins {
				ins = append(ins, tx.NewTxInput(mixCase(hex.EncodeToString(in.Hash), i), in.Index, uint(in.Amount)))
			}
			var outs []*tx.TxOutput
			for _, o := range m.Outs {
				outs = append(outs, o.Build())
			}
			x.AddInputs(ins...)
			x.AddOutputs(outs...)
		}
		x.Witness = tx.NewTXWitness(wits...)
		v := readBack(t, x)
		if d := m.Diff(v); d != "" {
			t.Fatalf("%s", d)
		}
		if len(v.Wits) != len(want) {
			t.Fatalf("%d witnesses, want %d", len(v.Wits), len(want))
		}
		for i := range want {
			if !bytes.Equal(v.Wits[i].VKey, want[i].VKey) || !bytes.Equal(v.Wits[i].Sig, want[i].Sig) {
				t.Fatalf("witness %d is %x, want %x", i, v.Wits[i], want[i])
			}
		}
		bb, err := x.Body.Bytes()
		if err != nil || !bytes.Equal(bb, v.BodyRaw) {
			t.Fatalf("body bytes %x (%v), but the transaction contains %x", bb, err, v.BodyRaw)
		}
		if bh, err := x.Body.Hex(); err != nil || bh != hex.EncodeToString(bb) {
			t.Fatalf("body hex %s (%v), want %x", bh, err, bb)
		}
		// marked as failing its scripts, it differs in the flag only
		raw, err := x.Bytes()
		if err != nil {
			t.Fatal(err)
		}
		it, err := ref.ParseCBOR(raw)
		if err != nil {
			t.Fatal(err)
		}
		flag := 1 + len(it.Items[0].Raw) + len(it.Items[1].Raw)
		raw[flag] = 0xf4
		x.Valid = false
		if got, err := x.Bytes(); err != nil || !bytes.Equal(got, raw) {
			t.Fatalf("with the validity flag cleared the bytes are %x (%v), want %x", got, err, raw)
		}
	})
	h.Check("builder", 1500, func(t *rapid.T, c *hx.C) {
		m := txm.ModelGen(^uint64(0)).Draw(t, "tx")
		ks := keysGen(3).Draw(t, "keys")
		c.Key("%s keys %d", m.Key(), len(ks))
		c.Nontrivial(len(m.Ins) > 0 && len(m.Outs) > 0)
		classify(c, m)
		r := newRun(standard, ks)
		r.s.m = m
		for _, in := range m.Ins {
			r.b.AddInputs(in.Build())
		}
		for _, o := range m.Outs {
			r.b.AddOutputs(o.Build())
		}
		if rapid.Bool().Draw(t, "setBefore") { // the last value counts
			r.b.SetTTL(txm.TTL().Draw(t, "earlierTTL"))
			r.b.Tx().SetFee(uint(hx.Uint64(^uint64(0)).Draw(t, "earlierFee")))
			if rapid.Bool().Draw(t, "metaBefore") {
				r.b.Tx().Metadata = txm.MetaGen().Draw(t, "earlierMeta").Go()
			}
		}
		r.b.SetTTL(m.TTL)
		r.b.Tx().SetFee(uint(m.Fee))
		r.b.Tx().Metadata = nil
		if m.Meta != nil {
			r.b.Tx().Metadata = m.Meta.Go()
		}
		x, err := r.b.Build()
		if err != nil {
			t.Fatalf("build: %v", err)
		}
		readBack(t, &x)
		if err := checkBuilt(&x, r.s); err != nil {
			t.Fatal(err)
		}
	})
	h.Check("large", 60, func(t *rapid.T, c *hx.C) {
		m := txm.LargeGen(^uint64(0)).Draw(t, "tx")
		c.Key("%s", m.Key())
		c.Nontrivial(len(m.Ins) > 0 && len(m.Outs) > 0)
		x := m.Tx()
		v := readBack(t, x)
		if d := m.Diff(v); d != "" {
			t.Fatalf("%s", d)
		}
		if hash, err := x.Hash(); err != nil || !bytes.Equal(hash[:], ref.Blake2b(32, v.BodyRaw)) {
			t.Fatalf("hash %x (%v) of a body of %d bytes with digest %x", hash, err, len(v.BodyRaw), ref.Blake2b(32, v.BodyRaw))
		}
	})
	h.Check("same output again", 1500, func(t *rapid.T, c *hx.C) {
		// two payments of the same amount to the same address are two outputs,
		// even if the caller uses one value for both
		m := &txm.Model{Ins: txm.ManyIn(t, rapid.IntRange(0, 2).Draw(t, "ins"), 1<<40), Fee: hx.Uint64(1<<40).Draw(t, "fee")}
		var outs []*tx.TxOutput
		for i := rapid.IntRange(1, 3).Draw(t, "different"); i > 0; i-- {
			m.Outs = append(m.Outs, txm.OutGen(1<<60).Draw(t, "out"))
			outs = append(outs, m.Outs[len(m.Outs)-1].Build())
		}
		for i := rapid.IntRange(1, 4).Draw(t, "repeated"); i > 0; i-- {
			k := rapid.IntRange(0, len(outs)-1).Draw(t, "which")
			m.Outs = append(m.Outs, m.Outs[k])
			if rapid.Bool().Draw(t, "sameValue") {
				outs = append(outs, outs[k])
			} else {
				outs = append(outs, m.Outs[k].Build())
			}
		}
		at := rapid.IntRange(0, len(outs)).Draw(t, "calls")
		c.Key("%s %d", m.Key(), at)
		c.Nontrivial(true)
		x := tx.NewTx()
		if rapid.Bool().Draw(t, "builder") {
			b := tx.NewTxBuilder(standard.protocol(), nil)
			for _, in := range m.Ins {
				b.AddInputs(in.Build())
			}
			b.AddOutputs(outs[:at]...)
			b.AddOutputs(outs[at:]...)
			b.Tx().SetFee(uint(m.Fee))
			y, err := b.Build()
			if err != nil {
				t.Fatal(err)
			}
			x = &y
		} else {
			for _, in := range m.Ins {
				x.AddInputs(in.Build())
			}
			x.AddOutputs(outs[:at]...)
			x.AddOutputs(outs[at:]...)
			x.SetFee(uint(m.Fee))
		}
		if d := m.Diff(readBack(t, x)); d != "" {
			t.Fatal(d)
		}
	})
	h.Each("list lengths", true, func(rec func(*hx.C)) error {
		for _, part := range []string{"ins", "outs", "wits", "text"} {
			for _, n := range []int{0, 1, 2, 22, 23, 24, 25, 127, 128, 254, 255, 256, 257, 299, 300} {
				m := &txm.Model{}
				x := tx.NewTx()
				switch part {
				case "ins":
					for i := 0; i < n; i++ {
						m.Ins = append(m.Ins, txm.In{Hash: hx.Expand(uint64(i), 32), Index: uint16(i)})
						x.AddInputs(m.Ins[i].Build())
					}
				case "outs":
					for i := 0; i < n; i++ {
						o := txm.Out{Addr: exampleAddr(i), Amount: uint64(i) << (i % 50)}
						m.Outs = append(m.Outs, o)
						x.AddOutputs(o.Build())
					}
				case "wits":
					var w []*tx.VKeyWitness
					for i := 0; i < n; i++ {
						w = append(w, tx.NewVKeyWitness(hx.Expand(uint64(i), 32), hx.Expand(uint64(i), 64)))
					}
					x.Witness = tx.NewTXWitness(w...)
				case "text":
					m.Meta = &txm.Meta{Kind: "text", S: strings.Repeat("a", n)}
					x.Metadata = m.Meta.Go()
				}
				b, err := x.Bytes()
				if err != nil {
					return fmt.Errorf("%d %s: %v", n, part, err)
				}
				v, err := txm.Decode(b)
				if err != nil {
					return fmt.Errorf("%d %s: %v", n, part, err)
				}
				if d := m.Diff(v); d != "" {
					return fmt.Errorf("%d %s: %s", n, part, d)
				}
				if part == "wits" && len(v.Wits) != n {
					return fmt.Errorf("%d witnesses came out as %d", n, len(v.Wits))
				}
				c := &hx.C{}
				c.Key("%s %d", part, n)
				c.Nontrivial(n > 0)
				rec(c)
			}
		}
		return nil
	})
	h.Check("invalid hash", 2500, func(t *rapid.T, c *hx.C) {
		good := hex.EncodeToString(hx.Bytes(32).Draw(t, "hash"))
		var bad string
		switch rapid.IntRange(0, 6).Draw(t, "damage") {
		case 0: // another length
			n := rapid.SampledFrom([]int{0, 1, 16, 28, 31, 33, 64, 48}).Draw(t, "n")
			bad = hex.EncodeToString(hx.Expand(rapid.Uint64().Draw(t, "seed"), n))
		case 1: // a character that is not hex
			i := rapid.IntRange(0, 63).Draw(t, "pos")
			bad = good[:i] + string(rapid.SampledFrom([]rune{'g', 'x', ' ', '-', 'G', '/', ':', '@', '`', 0, 'é', '\n'}).Draw(t, "char")) + good[i+1:]
		case 2: // a character missing or extra
			i := rapid.IntRange(0, 63).Draw(t, "pos")
			if rapid.Bool().Draw(t, "extra") {
				bad = good[:i] + "0" + good[i:]
			} else {
				bad = good[:i] + good[i+1:]
			}
		case 3:
			bad = rapid.SampledFrom([]string{"0x", " ", "\"", "#", "0x00"}).Draw(t, "prefix") + good
		case 4:
			bad = good + rapid.SampledFrom([]string{"#0", " ", "\n", "\"", "zz", "00", "0"}).Draw(t, "suffix")
		case 5: // 32 valid bytes, then something else; or something else first
			bad = good + rapid.StringN(1, 6, -1).Draw(t, "tail")
			if _, err := hex.DecodeString(bad); err == nil && len(bad) == 64 {
				bad = ""
			}
		default:
			bad = rapid.StringN(0, 70, -1).Draw(t, "text")
			if b, err := hex.DecodeString(bad); err == nil && len(b) == 32 {
				bad = ""
			}
		}
		c.Key("%q", bad)
		c.Nontrivial(true)
		before := rapid.IntRange(0, 2).Draw(t, "goodBefore")
		after := rapid.IntRange(0, 1).Draw(t, "goodAfter")
		var in *tx.TxInput
		if err := hx.Try(func() { in = tx.NewTxInput(bad, 1, 5) }); err != nil {
			t.Fatalf("input with hash %q: %v", bad, err)
		}
		b := tx.NewTxBuilder(params{perByte: 44, fixed: 1}.protocol(), []bip32.XPrv{pool[0].xprv()})
		for i := 0; i < before; i++ {
			b.AddInputs(tx.NewTxInput(good, uint16(i), 1))
		}
		b.AddInputs(in)
		for i := 0; i < after; i++ {
			b.AddInputs(tx.NewTxInput(good, uint16(100+i), 1))
		}
		b.AddOutputs(txm.Out{Addr: exampleAddr(3), Amount: 1}.Build())
		if out, err := b.Tx().Bytes(); err == nil {
			t.Fatalf("a transaction with input hash %q serialises to %x", bad, out)
		}
		if out, err := b.Tx().Hex(); err == nil {
			t.Fatalf("a transaction with input hash %q serialises to %s", bad, out)
		}
		if out, err := b.Tx().Body.Bytes(); err == nil {
			t.Fatalf("a body with input hash %q serialises to %x", bad, out)
		}
		if out, err := b.Tx().Body.Hex(); err == nil {
			t.Fatalf("a body with input hash %q serialises to %s", bad, out)
		}
		if id, err := b.Tx().Hash(); err == nil {
			t.Fatalf("a transaction with input hash %q has hash %x", bad, id)
		}
		if _, err := b.Tx().Fee(fees.NewLinearFee(1, 1)); err == nil {
			t.Fatalf("a transaction with input hash %q has a fee", bad)
		}
		if x, err := b.Build(); err == nil {
			t.Fatalf("a transaction with input hash %q builds: %v", bad, x)
		}
	})
}

func mixCase(s string, i int) string {
	if i%3 == 1 {
		return strings.ToUpper(s)
	}
	return s
}

func classify(c *hx.C, m *txm.Model) {
	c.Class("more than 23 inputs", len(m.Ins) > 23)
	c.Class("more than 255 inputs", len(m.Ins) > 255)
	c.Class("more than 23 outputs", len(m.Outs) > 23)
	c.Class("metadata", m.Meta != nil)
	c.Class("metadata map with several keys", m.Meta.MapKeys() > 1)
	c.Class("no ttl", m.TTL == 0)
	for _, o := range m.Outs {
		c.Class("output to "+o.Addr.Kind.String(), true)
		c.Class("output amount over 32 bits", o.Amount >= 1<<32)
	}
}

func readBack(t *rapid.T, x *tx.Tx) *txm.View {
	raw, err := x.Bytes()
	if err != nil {
		t.Fatalf("bytes: %v", err)
	}
	hx, err := x.Hex()
	if err != nil || hx != hex.EncodeToString(raw) {
		t.Fatalf("hex is %s (%v), bytes are %x", hx, err, raw)
	}
	v, err := txm.Decode(raw)
	if err != nil {
		t.Fatalf("transaction bytes %x: %v", raw, err)
	}
	return v
}

// ---- C17 ----

// rareHashes judges transactions whose hash begins or ends with two zero or
// two 0xff bytes, found by varying the time-to-live.
func rareHashes(h *hx.H, n int, judge func(m *txm.Model, id []byte) error) {
	h.Each("rare hashes", false, func(rec func(*hx.C)) error {
		m := &txm.Model{Fee: 170000, TTL: 1 << 16}
		m.Ins = []txm.In{{Hash: hx.Expand(1, 32), Index: 1, Amount: 5000000}}
		m.Outs = []txm.Out{{Addr: exampleAddr(3), Amount: 4000000}}
		raw, err := m.Tx().Bytes()
		if err != nil {
			return err
		}
		v, err := txm.Decode(raw)
		if err != nil {
			return err
		}
		body := append([]byte{}, v.BodyRaw...)
		at := len(body) - 4
		if !bytes.Equal(body[at-2:], []byte{3, 0x1a, 0, 1, 0, 0}) {
			return nil // C16's business
		}
		for ttl := m.TTL; n > 0; ttl++ {
			binary.BigEndian.PutUint32(body[at:], ttl)
			id := blake2b.Sum256(body)
			if !rare.Extreme(id[:]) {
				continue
			}
			n--
			c := &hx.C{}
			c.Key("%d", ttl)
			c.Nontrivial(true)
			x := m.Clone()
			x.TTL = ttl
			if err := judge(x, ref.Blake2b(32, body)); err != nil {
				return err
			}
			rec(c)
		}
		return nil
	})
}

func TestC17(t *testing.T) {
	h := hx.Start(t, "C17", "random sequences of hash/bytes/hex/fee queries on unmodified transactions, with hash compared to the digest (independent BLAKE2b) of the embedded body, then one modification which must change the hash. Non-trivial: at least 3 queries, or a modification")
	rareHashes(h, 16, func(m *txm.Model, id []byte) error {
		x := m.Tx()
		for i := 0; i < 2; i++ {
			if hh, err := x.Hash(); err != nil || !bytes.Equal(hh[:], id) {
				return fmt.Errorf("hash of %s is %x (%v), its body hashes to %x", m.Key(), hh, err, id)
			}
		}
		return nil
	})
	h.Check("stable", 3000, func(t *rapid.T, c *hx.C) {
		m := txm.ModelGen(^uint64(0)).Draw(t, "tx")
		qs := rapid.SliceOfN(rapid.SampledFrom([]string{"hash", "bytes", "hex", "fee"}), 2, 12).Draw(t, "queries")
		c.Key("%s %v", m.Key(), qs)
		c.Nontrivial(len(qs) >= 3)
		classify(c, m)
		valid := rapid.IntRange(0, 7).Draw(t, "invalid") != 7
		setUp := func() *tx.Tx {
			x := m.Tx()
			x.Valid = valid
			return x
		}
		x := setUp()
		var id, raw []byte
		var fee *uint
		var kept, keptCopy [][]byte // results still in use by the caller
		overwrite := rapid.Bool().Draw(t, "overwriteResults")
		checkQ := func(when string) {
			for _, q := range qs {
				switch q {
				case "hash":
					hh, err := x.Hash()
					if err != nil {
						t.Fatalf("hash: %v", err)
					}
					if id != nil && !bytes.Equal(id, hh[:]) {
						t.Fatalf("%s: hash went from %x to %x", when, id, hh)
					}
					id = append([]byte{}, hh[:]...)
				case "bytes", "hex":
					var b []byte
					var err error
					if q == "bytes" {
						b, err = x.Bytes()
					} else {
						var s string
						if s, err = x.Hex(); err == nil {
							b, err = hex.DecodeString(s)
						}
					}
					if err != nil {
						t.Fatalf("%s: %v", q, err)
					}
					if raw != nil && !bytes.Equal(raw, b) {
						t.Fatalf("%s: bytes went from\n%x to\n%x", when, raw, b)
					}
					raw = append([]byte{}, b...)
					if overwrite { // the result is the caller's
						for i := range b {
							b[i] ^= 0x55
						}
					} else {
						kept, keptCopy = append(kept, b), append(keptCopy, append([]byte{}, b...))
					}
				case "fee":
					f, err := x.Fee(fees.NewLinearFee(3, 7))
					if err != nil {
						t.Fatalf("fee: %v", err)
					}
					if fee != nil && *fee != f {
						t.Fatalf("%s: fee went from %d to %d", when, *fee, f)
					}
					fee = &f
				}
			}
		}
		checkQ("unmodified")
		if raw == nil {
			b, err := x.Bytes()
			if err != nil {
				t.Fatalf("bytes: %v", err)
			}
			raw = append([]byte{}, b...)
		}
		v, err := txm.DecodeAny(raw)
		if err != nil {
			t.Fatal(err)
		}
		want := ref.Blake2b(32, v.BodyRaw)
		if id != nil && !bytes.Equal(id, want) {
			t.Fatalf("hash %x, but the body in the bytes hashes to %x", id, want)
		}
		hh, err := x.Hash()
		if err != nil || !bytes.Equal(hh[:], want) {
			t.Fatalf("hash %x (%v), but the body in the bytes hashes to %x", hh, err, want)
		}
		// the same content set up afresh has the same bytes and hash
		y := setUp()
		if yh, err := y.Hash(); err != nil || yh != hh {
			t.Fatalf("the same transaction built again has hash %x (%v), was %x", yh, err, hh)
		}
		if yb, err := y.Bytes(); err != nil || !bytes.Equal(yb, raw) {
			t.Fatalf("the same transaction built again has bytes\n%x (%v), was\n%x", yb, err, raw)
		}
		// another transaction, in use at the same time
		z := setUp()
		z.SetFee(uint(m.Fee) + 1)
		zb, err := z.Bytes()
		if err != nil {
			t.Fatal(err)
		}
		zc := append([]byte{}, zb...)
		checkQ("later")
		if _, err := z.Hash(); err != nil || !bytes.Equal(zb, zc) {
			t.Fatalf("bytes of a transaction obtained earlier changed from\n%x to\n%x (%v)", zc, zb, err)
		}
		for i := range kept {
			if !bytes.Equal(kept[i], keptCopy[i]) {
				t.Fatalf("bytes obtained earlier changed from\n%x to\n%x", keptCopy[i], kept[i])
			}
		}
	})
	h.Check("large", 60, func(t *rapid.T, c *hx.C) {
		m := txm.LargeGen(^uint64(0)).Draw(t, "tx")
		c.Key("%s", m.Key())
		c.Nontrivial(true)
		judge := func() [32]byte {
			x := m.Tx()
			hh, err := x.Hash()
			if err != nil {
				t.Fatal(err)
			}
			v := readBack(t, x)
			if want := ref.Blake2b(32, v.BodyRaw); !bytes.Equal(hh[:], want) {
				t.Fatalf("hash %x, but the body of %d bytes in the bytes hashes to %x", hh, len(v.BodyRaw), want)
			}
			if again, err := x.Hash(); err != nil || again != hh {
				t.Fatalf("hash went from %x to %x (%v)", hh, again, err)
			}
			return hh
		}
		before := judge()
		switch { // what comes late in the body counts
		case rapid.Bool().Draw(t, "fee") || len(m.Ins)+len(m.Outs) == 0:
			m.Fee ^= 1 << rapid.IntRange(0, 20).Draw(t, "bit")
		case len(m.Outs) > 0:
			m.Outs[rapid.IntRange(0, len(m.Outs)-1).Draw(t, "out")].Amount ^= 1
		default:
			m.Ins[rapid.IntRange(0, len(m.Ins)-1).Draw(t, "in")].Index ^= 1
		}
		if judge() == before {
			t.Fatalf("hash %x did not change", before)
		}
	})
	h.Each("body sizes", false, func(rec func(*hx.C)) error {
		for _, n := range []int{100, 400, 1000, 1700, 1900, 3600, 15000, 30000} {
			x := tx.NewTx()
			for i := 0; i < n; i++ {
				x.AddInputs(txm.In{Hash: hx.Expand(uint64(i), 32), Index: uint16(i)}.Build())
			}
			var last [32]byte
			for fee := uint(0); fee < 2; fee++ {
				x.SetFee(fee)
				hh, err := x.Hash()
				if err != nil {
					return err
				}
				b, err := x.Bytes()
				if err != nil {
					return err
				}
				v, err := txm.Decode(b)
				if err != nil {
					return err
				}
				if want := ref.Blake2b(32, v.BodyRaw); !bytes.Equal(hh[:], want) || hh == last {
					return fmt.Errorf("hash %x, but the body of %d bytes in the bytes hashes to %x (before the change of the fee: %x)", hh, len(v.BodyRaw), want, last)
				}
				last = hh
			}
			c := &hx.C{}
			c.Key("%d inputs", n)
			c.Nontrivial(true)
			rec(c)
		}
		return nil
	})
	h.Check("repeated map metadata", 600, func(t *rapid.T, c *hx.C) {
		m := &txm.Model{Meta: txm.MetaGen().Draw(t, "meta")}
		c.Key("%s", m.Meta)
		c.Nontrivial(m.Meta.MapKeys() > 1)
		x := m.Tx()
		h0, err := x.Hash()
		if err != nil {
			t.Fatal(err)
		}
		b0, err := x.Bytes()
		if err != nil {
			t.Fatal(err)
		}
		for i := 0; i < 25; i++ {
			if h1, err := x.Hash(); err != nil || h1 != h0 {
				t.Fatalf("hash %x (%v), was %x", h1, err, h0)
			}
			if b1, err := x.Bytes(); err != nil || !bytes.Equal(b1, b0) {
				t.Fatalf("bytes %x (%v), was %x", b1, err, b0)
			}
		}
	})
	h.Check("changes", 4000, func(t *rapid.T, c *hx.C) {
		m := txm.ModelGen(^uint64(0)).Draw(t, "tx")
		x := m.Tx()
		h0, err := x.Hash()
		if err != nil {
			t.Fatalf("hash: %v", err)
		}
		kind := rapid.SampledFrom([]string{"fee", "ttl", "meta", "add input", "add output", "drop input", "drop output", "index", "input hash", "amount", "output address", "swap inputs", "swap outputs"}).Draw(t, "change")
		inPlace := rapid.Bool().Draw(t, "in place") // or by an equal input or output put in its place
		before := fmt.Sprint(m.Key())
		pick := func(n int) int {
			if n == 0 {
				t.Skip("nothing to change")
			}
			return rapid.IntRange(0, n-1).Draw(t, "pos")
		}
		switch kind {
		case "fee":
			d := hx.Uint64(^uint64(0)).Draw(t, "fee")
			if d == m.Fee {
				d = m.Fee + 1
			}
			x.SetFee(uint(d))
			m.Fee = d
		case "ttl":
			d := txm.TTL().Draw(t, "ttl")
			if d == m.TTL {
				d = m.TTL + 1
			}
			x.Body.TTL = d
			m.TTL = d
		case "meta":
			n := txm.MetaGen().Draw(t, "meta2")
			if rapid.IntRange(0, 3).Draw(t, "clear") == 0 {
				n = nil
			}
			if m.Meta.String() == n.String() && (m.Meta == nil || n == nil || m.Meta.Canon() == n.Canon()) {
				t.Skip("same metadata")
			}
			m.Meta = n
			x.Metadata = nil
			if n != nil {
				x.Metadata = n.Go()
			}
		case "add input":
			in := txm.InGen(^uint64(0)).Draw(t, "new")
			m.Ins = append(m.Ins, in)
			x.AddInputs(in.Build())
		case "add output":
			o := txm.OutGen(^uint64(0)).Draw(t, "new")
			m.Outs = append(m.Outs, o)
			x.AddOutputs(o.Build())
		case "drop input":
			i := pick(len(m.Ins))
			m.Ins = append(m.Ins[:i:i], m.Ins[i+1:]...)
			x.Body.Inputs = append(x.Body.Inputs[:i:i], x.Body.Inputs[i+1:]...)
		case "drop output":
			i := pick(len(m.Outs))
			m.Outs = append(m.Outs[:i:i], m.Outs[i+1:]...)
			x.Body.Outputs = append(x.Body.Outputs[:i:i], x.Body.Outputs[i+1:]...)
		case "index":
			i := pick(len(m.Ins))
			m.Ins[i].Index ^= uint16(1) << rapid.IntRange(0, 15).Draw(t, "bit")
			if inPlace {
				x.Body.Inputs[i].Index = m.Ins[i].Index
				break
			}
			x.Body.Inputs[i] = m.Ins[i].Build()
		case "input hash":
			i := pick(len(m.Ins))
			m.Ins[i].Hash = append([]byte{}, m.Ins[i].Hash...)
			m.Ins[i].Hash[rapid.IntRange(0, 31).Draw(t, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			if inPlace {
				copy(x.Body.Inputs[i].TxHash, m.Ins[i].Hash)
				break
			}
			x.Body.Inputs[i] = m.Ins[i].Build()
		case "amount":
			i := pick(len(m.Outs))
			m.Outs[i].Amount ^= uint64(1) << rapid.IntRange(0, 63).Draw(t, "bit")
			if inPlace {
				x.Body.Outputs[i].Amount = uint(m.Outs[i].Amount)
				break
			}
			x.Body.Outputs[i] = m.Outs[i].Build()
		case "output address":
			i := pick(len(m.Outs))
			o := txm.OutGen(1).Draw(t, "new")
			if bytes.Equal(o.Addr.Bytes(), m.Outs[i].Addr.Bytes()) {
				t.Skip("same address")
			}
			m.Outs[i].Addr = o.Addr
			if inPlace {
				x.Body.Outputs[i].Address = m.Outs[i].Build().Address
				break
			}
			x.Body.Outputs[i] = m.Outs[i].Build()
		case "swap inputs":
			i, j := pick(len(m.Ins)), pick(len(m.Ins))
			if bytes.Equal(m.Ins[i].Hash, m.Ins[j].Hash) && m.Ins[i].Index == m.Ins[j].Index {
				t.Skip("same input")
			}
			m.Ins[i], m.Ins[j] = m.Ins[j], m.Ins[i]
			x.Body.Inputs[i], x.Body.Inputs[j] = x.Body.Inputs[j], x.Body.Inputs[i]
		case "swap outputs":
			i, j := pick(len(m.Outs)), pick(len(m.Outs))
			if bytes.Equal(m.Outs[i].Addr.Bytes(), m.Outs[j].Addr.Bytes()) && m.Outs[i].Amount == m.Outs[j].Amount {
				t.Skip("same output")
			}
			m.Outs[i], m.Outs[j] = m.Outs[j], m.Outs[i]
			x.Body.Outputs[i], x.Body.Outputs[j] = x.Body.Outputs[j], x.Body.Outputs[i]
		}
		how := ""
		if inPlace {
			how = " in place"
		}
		c.Key("%s; %s%s", before, kind, how)
		c.Nontrivial(true)
		c.Class(kind, true)
		h1, err := x.Hash()
		if err != nil {
			t.Fatalf("hash after %s: %v", kind, err)
		}
		if h1 == h0 {
			t.Fatalf("changing the transaction (%s) leaves its hash at %x; now %s", kind, h0, m.Key())
		}
		v := readBack(t, x)
		if d := m.Diff(v); d != "" {
			t.Fatalf("after %s: %s", kind, d)
		}
		if want := ref.Blake2b(32, v.BodyRaw); !bytes.Equal(h1[:], want) {
			t.Fatalf("after %s: hash %x, body hashes to %x", kind, h1, want)
		}
	})
}

// ---- C18 ----

func TestC18(t *testing.T) {
	h := hx.Start(t, "C18", "histories of setting, changing in place, replacing and removing metadata, interleaved with hash/bytes/hex/fee/min-fee/build, on transactions and builders; after each step the embedded data and hash are decoded and compared with the model and an independent BLAKE2b. Non-trivial: metadata is set at some point")
	h.Check("history", 2500, func(t *rapid.T, c *hx.C) {
		m := &txm.Model{}
		m.Ins = txm.ManyIn(t, rapid.IntRange(0, 2).Draw(t, "ins"), 1<<40)
		m.Outs = txm.ManyOut(t, rapid.IntRange(0, 2).Draw(t, "outs"), 1<<40)
		b := tx.NewTxBuilder(standard.protocol(), xprvs(pool[:rapid.IntRange(0, 2).Draw(t, "keys")]))
		for _, in := range m.Ins {
			b.AddInputs(in.Build())
		}
		for _, o := range m.Outs {
			b.AddOutputs(o.Build())
		}
		steps := rapid.SliceOfN(rapid.SampledFrom([]string{"set", "set", "grow", "clear", "hash", "bytes", "hex", "fee", "minfee", "build", "build", "auxhash", "ttl", "setfee", "in", "out"}), 1, 12).Draw(t, "steps")
		c.Key("%v", steps)
		x := b.Tx()
		live := map[uint64]interface{}{} // mutated in place by "grow"
		isLive := false
		judge := func(what string, x *tx.Tx) {
			raw, err := x.Bytes()
			if err != nil {
				t.Fatalf("%s: bytes: %v", what, err)
			}
			v, err := txm.Decode(raw)
			if err != nil {
				t.Fatalf("%s: %v", what, err)
			}
			if d := m.Diff(v); d != "" {
				t.Fatalf("%s (steps %v): %s", what, steps, d)
			}
		}
		judgeBody := func(what string) {
			// what the last operation left in the body has to agree with the metadata
			hh, err := x.Hash()
			if err != nil {
				t.Fatalf("%s: %v", what, err)
			}
			bb, err := x.Body.Bytes()
			if err != nil {
				t.Fatalf("%s: %v", what, err)
			}
			if !bytes.Equal(ref.Blake2b(32, bb), hh[:]) {
				t.Fatalf("%s: hash %x is not the digest of the body %x", what, hh, bb)
			}
			it, err := ref.ParseCBOR(bb)
			if err != nil {
				t.Fatal(err)
			}
			v := &txm.View{}
			if err := txm.DecodeBody(it, v); err != nil {
				t.Fatal(err)
			}
			if (v.AuxHash != nil) != (m.Meta != nil) {
				t.Fatalf("%s: metadata %s, but the hashed body has auxiliary data hash %x", what, m.Meta, v.AuxHash)
			}
		}
		for _, st := range steps {
			switch st {
			case "set":
				m.Meta = txm.MetaGen().Draw(t, "meta")
				g := m.Meta.Go()
				live, isLive = g.(map[uint64]interface{})
				x.Metadata = g
				c.Key("%s", m.Meta)
				c.Nontrivial(true)
			case "grow": // the program changes the map it set
				if !isLive {
					m.Meta = &txm.Meta{Kind: "map"}
					live, isLive = map[uint64]interface{}{}, true
					x.Metadata = live
				}
				k := hx.Uint64(1<<40).Draw(t, "k")
				val := &txm.Meta{Kind: "text", S: rapid.StringN(0, 10, 64).Draw(t, "v")}
				live[k] = val.Go()
				m.Meta = m.Meta.With(k, val)
				c.Class("changed in place", true)
				c.Nontrivial(true)
			case "clear":
				c.Class("removed after set", m.Meta != nil)
				m.Meta, isLive = nil, false
				x.Metadata = nil
			case "hash":
				judgeBody("hash")
			case "bytes":
				judge("bytes", x)
			case "hex":
				s, err := x.Hex()
				if err != nil {
					t.Fatal(err)
				}
				raw, _ := hex.DecodeString(s)
				v, err := txm.Decode(raw)
				if err != nil {
					t.Fatal(err)
				}
				if d := m.MetaDiff(v); d != "" {
					t.Fatalf("hex: %s", d)
				}
			case "fee":
				if _, err := x.Fee(fees.NewLinearFee(44, 155381)); err != nil {
					t.Fatal(err)
				}
			case "minfee":
				b.MinFee()
			case "auxhash":
				if err := x.CalculateAuxiliaryDataHash(); err != nil {
					t.Fatal(err)
				}
			case "ttl":
				m.TTL = txm.TTL().Draw(t, "ttl")
				b.SetTTL(m.TTL)
			case "setfee":
				m.Fee = hx.Uint64(1<<40).Draw(t, "newFee")
				x.SetFee(uint(m.Fee))
			case "in":
				in := txm.ManyIn(t, 1, 1<<40)
				m.Ins = append(m.Ins, in...)
				b.AddInputs(in[0].Build())
			case "out":
				out := txm.ManyOut(t, 1, 1<<40)
				m.Outs = append(m.Outs, out...)
				b.AddOutputs(out[0].Build())
			case "build":
				y, err := b.Build()
				if err != nil {
					t.Fatal(err)
				}
				// the built body as signed, before anything recomputes it
				bb, err := y.Body.Bytes()
				if err != nil {
					t.Fatal(err)
				}
				judge("build", &y)
				hh, err := y.Hash()
				if err != nil || !bytes.Equal(hh[:], ref.Blake2b(32, bb)) {
					t.Fatalf("build: body %x has hash %x (%v)", bb, hh, err)
				}
			}
		}
		judgeBody("end")
		judge("end", x)
	})
	h.Each("large", false, func(rec func(*hx.C)) error {
		for _, n := range []int{255, 256, 4096, 16383, 16384, 16385, 65535, 65536, 65537, 100000, 1 << 20} {
			for _, shape := range []string{"bytes", "text", "list", "map", "deep"} {
				val := &txm.Meta{Kind: "bytes", B: hx.Expand(uint64(n), n)}
				switch shape {
				case "text":
					val = &txm.Meta{Kind: "text", S: strings.Repeat("x", n-1) + "y"}
				case "list":
					val = &txm.Meta{Kind: "list"}
					for i := 0; i < min(n, 100000); i++ {
						val.Vals = append(val.Vals, &txm.Meta{Kind: "uint", N: uint64(i)})
					}
				case "map":
					val = &txm.Meta{Kind: "map"}
					for i := 0; i < min(n, 70000); i++ {
						val.Keys = append(val.Keys, &txm.Meta{Kind: "uint", N: uint64(i)})
						val.Vals = append(val.Vals, &txm.Meta{Kind: "uint", N: uint64(i) * 3})
					}
				case "deep":
					for i := 0; i < 20; i++ {
						val = &txm.Meta{Kind: "list", Vals: []*txm.Meta{val}}
					}
				}
				m := &txm.Model{Ins: []txm.In{{Hash: hx.Expand(uint64(n), 32)}}, Meta: (&txm.Meta{Kind: "map"}).With(721, val)}
				x := m.Tx()
				b, err := x.Bytes()
				if err != nil {
					return err
				}
				v, err := txm.Decode(b)
				if err != nil {
					return err
				}
				if d := m.Diff(v); d != "" {
					return fmt.Errorf("%s of size %d: %.300s", shape, n, d)
				}
				if hh, err := x.Hash(); err != nil || !bytes.Equal(hh[:], ref.Blake2b(32, v.BodyRaw)) {
					return fmt.Errorf("%s of size %d: hash %x (%v)", shape, n, hh, err)
				}
				c := &hx.C{}
				c.Key("%s %d", shape, n)
				c.Nontrivial(true)
				rec(c)
			}
		}
		return nil
	})
	h.Check("unencodable", 1200, func(t *rapid.T, c *hx.C) {
		name := txm.Unencodable().Draw(t, "value")
		prior := rapid.SampledFrom([]string{"none", "set", "built"}).Draw(t, "prior")
		ks := rapid.IntRange(0, 2).Draw(t, "keys")
		m := &txm.Model{Ins: txm.ManyIn(t, rapid.IntRange(0, 2).Draw(t, "ins"), 100), Outs: txm.ManyOut(t, rapid.IntRange(0, 2).Draw(t, "outs"), 100)}
		c.Key("%s %s %d %s", name, prior, ks, m.Key())
		c.Nontrivial(true)
		c.Class(name, true)
		b := tx.NewTxBuilder(standard.protocol(), xprvs(pool[:ks]))
		for _, in := range m.Ins {
			b.AddInputs(in.Build())
		}
		for _, o := range m.Outs {
			b.AddOutputs(o.Build())
		}
		x := b.Tx()
		if prior != "none" {
			x.Metadata = map[uint64]interface{}{1: "before"}
			if prior == "built" {
				if _, err := b.Build(); err != nil {
					t.Fatal(err)
				}
			}
		}
		x.Metadata = txm.UnencodableValue(name)
		for _, q := range rapid.SliceOfN(rapid.SampledFrom([]string{"hash", "bytes", "hex", "fee", "build", "minfee"}), 1, 6).Draw(t, "queries") {
			var err error
			got := ""
			if p := hx.Try(func() {
				switch q {
				case "hash":
					var v [32]byte
					v, err = x.Hash()
					got = fmt.Sprintf("%x", v)
				case "bytes":
					var v []byte
					v, err = x.Bytes()
					got = fmt.Sprintf("%x", v)
				case "hex":
					got, err = x.Hex()
				case "fee":
					var v uint
					v, err = x.Fee(fees.NewLinearFee(44, 155381))
					got = fmt.Sprint(v)
				case "build":
					_, err = b.Build()
				case "minfee":
					b.MinFee()
					err = fmt.Errorf("not judged")
				}
			}); p != nil {
				t.Fatalf("%s with metadata %s: %v", q, name, p)
			}
			if err == nil {
				t.Fatalf("%s with metadata that cannot be encoded (%s) succeeds: %s", q, name, got)
			}
		}
		// and the transaction works again with proper metadata or none
		m.Meta = nil
		x.Metadata = nil
		if rapid.Bool().Draw(t, "repair") {
			m.Meta = txm.MetaGen().Draw(t, "meta")
			x.Metadata = m.Meta.Go()
		}
		y, err := b.Build()
		if err != nil {
			t.Fatalf("build after replacing the metadata: %v", err)
		}
		if err := checkBuilt(&y, &state{m, pool[:ks]}); err != nil {
			t.Fatalf("after replacing the metadata: %v", err)
		}
	})
}
