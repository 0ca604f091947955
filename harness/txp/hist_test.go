package txp

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"strings"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/fees"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/verif/am"
	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
	"github.com/fivebinaries/go-cardano-serialization/verif/kg"
	"github.com/fivebinaries/go-cardano-serialization/verif/ref"
	"github.com/fivebinaries/go-cardano-serialization/verif/txm"
	"pgregory.net/rapid"
)

// ---- keys ----

type key struct {
	prv []byte
	pub []byte // by the reference
}

var pool = func() []key {
	var ks []key
	for i := 0; i < 40; i++ {
		k := hx.Expand(uint64(7000+i), 96)
		k[0] &= 0xf8
		k[31] = k[31]&0x1f | 0x40
		ks = append(ks, key{k, ref.PublicKey(k)})
	}
	return ks
}()

func keyGen() *rapid.Generator[key] {
	return rapid.Custom(func(t *rapid.T) key {
		if rapid.IntRange(0, 30).Draw(t, "freshKey") == 0 {
			k := kg.Key().Draw(t, "key")
			return key{k, ref.PublicKey(k)}
		}
		return pool[rapid.IntRange(0, len(pool)-1).Draw(t, "poolKey")]
	})
}

func (k key) xprv() bip32.XPrv { return bip32.XPrv(append([]byte(nil), k.prv...)) }

func xprvs(ks []key) []bip32.XPrv {
	out := make([]bip32.XPrv, 0, len(ks))
	for _, k := range ks {
		out = append(out, k.xprv())
	}
	return out
}

// keysGen generates key lists: mostly few, sometimes past a CBOR boundary.
func keysGen(small int) *rapid.Generator[[]key] {
	return rapid.Custom(func(t *rapid.T) []key {
		n := rapid.IntRange(0, small).Draw(t, "keys")
		if rapid.IntRange(0, 40).Draw(t, "manyKeys") == 0 {
			n = rapid.SampledFrom([]int{23, 24, 25}).Draw(t, "keys")
		}
		var ks []key
		if rapid.IntRange(0, 300).Draw(t, "crowd") == 77 {
			n, at := rapid.SampledFrom([]int{32, 64, 65, 100, 127, 128, 129, 255, 256, 257}).Draw(t, "keys"), rapid.IntRange(0, len(pool)-1).Draw(t, "poolKey")
			for i := 0; i < n; i++ {
				ks = append(ks, pool[(at+i)%len(pool)])
			}
			return ks
		}
		for i := 0; i < n; i++ {
			if i > 0 && rapid.IntRange(0, 9).Draw(t, "sameKey") == 0 {
				ks = append(ks, ks[rapid.IntRange(0, i-1).Draw(t, "like")])
				continue
			}
			ks = append(ks, keyGen().Draw(t, "key"))
		}
		return ks
	})
}

// ---- protocol parameters ----

type params struct {
	perByte, fixed uint
	maxTx, minUTXO uint // of no influence
}

func (p params) protocol() protocol.Protocol {
	return protocol.Protocol{TxFeePerByte: p.perByte, TxFeeFixed: p.fixed, MaxTxSize: p.maxTx, MinUTXOValue: p.minUTXO}
}

func (p params) linear(size int) uint64 { return uint64(p.fixed) + uint64(p.perByte)*uint64(size) }

var standard = params{44, 155381, 16384, 1000000}

func paramsGen() *rapid.Generator[params] {
	return rapid.Custom(func(t *rapid.T) params {
		p := standard
		switch rapid.IntRange(0, 3).Draw(t, "paramMode") {
		case 0:
		case 1: // fees near the edges of their encoding
			p.perByte, p.fixed = uint(rapid.IntRange(0, 3).Draw(t, "perByte")), uint(hx.Uint64(1<<33).Draw(t, "fixed"))
		default:
			p.perByte, p.fixed = uint(hx.Uint64(1<<20).Draw(t, "perByte")), uint(hx.Uint64(1<<36).Draw(t, "fixed"))
		}
		if rapid.Bool().Draw(t, "otherParams") {
			p.maxTx = uint(hx.Uint64(1<<20).Draw(t, "maxTx"))
			p.minUTXO = uint(hx.Uint64(1<<32).Draw(t, "minUTXO"))
		}
		return p
	})
}

// ---- histories ----

type op struct {
	kind string
	ins  []txm.In
	outs []txm.Out
	ttl  uint32
	fee  uint64
	meta *txm.Meta
	key  key
	addr am.Addr
	at   int
}

func (o op) String() string {
	switch o.kind {
	case "ins":
		return fmt.Sprintf("ins%d", len(o.ins))
	case "outs":
		return fmt.Sprintf("outs%d", len(o.outs))
	case "ttl":
		return fmt.Sprintf("ttl%d", o.ttl)
	case "fee":
		return fmt.Sprintf("fee%d", o.fee)
	case "meta":
		return "meta:" + o.meta.String()
	case "sign":
		return fmt.Sprintf("sign:%x", o.key.prv[:3])
	case "change":
		return "change:" + o.addr.Key()
	case "sameouts", "editout", "editin":
		return fmt.Sprintf("%s%d:%d", o.kind, o.at, o.fee)
	}
	return o.kind
}

func describe(ops []op) string {
	var s []string
	for _, o := range ops {
		s = append(s, o.String())
	}
	return strings.Join(s, " ")
}

var (
	editKinds  = []string{"ins", "outs", "ttl", "fee", "meta", "nometa", "sign", "change"}
	placeKinds = []string{"sameouts", "editout", "editin", "dropout", "dropin"}
	queryKinds = []string{"hash", "bytes", "hex", "minfee", "qfee", "bodybytes"}
)

const maxAmount = 1 << 54 // sums of up to 300 stay below 2^63

// several is a small number, sometimes a larger one.
func several(t *rapid.T, small int) int {
	if rapid.IntRange(0, 9).Draw(t, "more") == 0 {
		return rapid.IntRange(small, 20).Draw(t, "n")
	}
	return rapid.IntRange(1, small).Draw(t, "n")
}

func opGen(kinds []string) *rapid.Generator[op] {
	return rapid.Custom(func(t *rapid.T) op {
		o := op{kind: rapid.SampledFrom(kinds).Draw(t, "op")}
		switch o.kind {
		case "ins":
			o.ins = txm.ManyIn(t, several(t, 3), maxAmount)
		case "outs":
			max := uint64(maxAmount)
			if rapid.Bool().Draw(t, "smallOut") {
				max = 1 << 24
			}
			o.outs = txm.ManyOut(t, several(t, 2), max)
		case "ttl":
			o.ttl = txm.TTL().Draw(t, "ttl")
		case "fee", "failed build":
			o.fee = hx.Uint64(1<<62).Draw(t, "fee")
		case "meta":
			o.meta = txm.MetaGen().Draw(t, "meta")
		case "sign":
			o.key = keyGen().Draw(t, "key")
		case "change":
			o.addr = am.Payable().Draw(t, "changeAddr")
		case "sameouts", "editout", "editin":
			o.at, o.fee = rapid.IntRange(0, 7).Draw(t, "at"), hx.Uint64(1<<32-1).Draw(t, "to")
		}
		return o
	})
}

// state is what the history so far should have produced.
type state struct {
	m    *txm.Model
	keys []key
}

func (s *state) clone() *state {
	return &state{s.m.Clone(), append([]key(nil), s.keys...)}
}

type run struct {
	b *tx.TxBuilder
	s *state
	p params
}

func newRun(p params, ks []key) *run {
	return &run{tx.NewTxBuilder(p.protocol(), xprvs(ks)), &state{&txm.Model{}, append([]key(nil), ks...)}, p}
}

func addrOf(a am.Addr) address.Address { return txm.Out{Addr: a}.Build().Address }

// apply performs one operation and updates the model. A change operation's
// result is read back (its correctness is C20's and C21's business).
func (r *run) apply(o op) error {
	s := r.s
	switch o.kind {
	case "ins":
		var l []*tx.TxInput
		for _, in := range o.ins {
			l = append(l, in.Build())
		}
		r.b.AddInputs(l...)
		s.m.Ins = append(s.m.Ins, o.ins...)
	case "outs":
		var l []*tx.TxOutput
		for _, out := range o.outs {
			l = append(l, out.Build())
		}
		r.b.AddOutputs(l...)
		s.m.Outs = append(s.m.Outs, o.outs...)
	case "ttl":
		r.b.SetTTL(o.ttl)
		s.m.TTL = o.ttl
	case "fee":
		r.b.Tx().SetFee(uint(o.fee))
		s.m.Fee = o.fee
	case "meta":
		r.b.Tx().Metadata = o.meta.Go()
		s.m.Meta = o.meta
	case "nometa":
		r.b.Tx().Metadata = nil
		s.m.Meta = nil
	case "sign":
		r.b.Sign(o.key.xprv())
		s.keys = append(s.keys, o.key)
	case "change":
		r.b.AddChangeIfNeeded(addrOf(o.addr))
		body := r.b.Tx().Body
		s.m.Fee = body.Fee
		if n := len(s.m.Outs); len(body.Outputs) == n+1 {
			s.m.Outs = append(s.m.Outs, txm.Out{Addr: o.addr, Amount: uint64(body.Outputs[n].Amount)})
		} else if len(body.Outputs) != n {
			return fmt.Errorf("adding change took the outputs from %d to %d", n, len(body.Outputs))
		}
	case "sameouts": // an output that is already there, once more
		if n := len(s.m.Outs); n > 0 {
			i := (n - 1 - o.at%n)
			r.b.AddOutputs(r.b.Tx().Body.Outputs[i])
			s.m.Outs = append(s.m.Outs, s.m.Outs[i])
		}
	case "editout": // another amount for an output, in place
		if n := len(s.m.Outs); n > 0 {
			outs := r.b.Tx().Body.Outputs
			x := outs[o.at%n]
			x.Amount = uint(o.fee)
			for i := range outs {
				if outs[i] == x {
					s.m.Outs[i].Amount = o.fee
				}
			}
		}
	case "editin": // another index for an input, in place
		if n := len(s.m.Ins); n > 0 {
			r.b.Tx().Body.Inputs[o.at%n].Index = uint16(o.fee)
			s.m.Ins[o.at%n].Index = uint16(o.fee)
		}
	case "dropout":
		if n := len(s.m.Outs); n > 0 {
			b := r.b.Tx().Body
			b.Outputs = b.Outputs[:n-1]
			s.m.Outs = s.m.Outs[:n-1]
		}
	case "dropin":
		if n := len(s.m.Ins); n > 1 {
			b := r.b.Tx().Body
			b.Inputs = b.Inputs[:n-1]
			s.m.Ins = s.m.Ins[:n-1]
		}
	case "build":
		if _, err := r.b.Build(); err != nil {
			return fmt.Errorf("build: %v", err)
		}
	case "hash":
		_, err := r.b.Tx().Hash()
		return err
	case "bytes":
		_, err := r.b.Tx().Bytes()
		return err
	case "hex":
		_, err := r.b.Tx().Hex()
		return err
	case "bodybytes":
		_, err := r.b.Tx().Body.Bytes()
		return err
	case "qfee":
		_, err := r.b.Tx().Fee(fees.NewLinearFee(r.p.perByte, r.p.fixed))
		return err
	case "minfee":
		r.b.MinFee()
	case "failed build": // something that cannot be serialised, taken back afterwards
		x := r.b.Tx()
		ins, outs, meta := x.Body.Inputs, x.Body.Outputs, x.Metadata
		switch o.fee % 3 {
		case 0:
			r.b.AddInputs(tx.NewTxInput("not hex", 1, 5))
		case 1:
			r.b.AddOutputs(tx.NewTxOutput(nil, 5))
		case 2:
			x.Metadata = map[uint64]interface{}{1: make(chan int)}
		}
		_, err := r.b.Build()
		x.Body.Inputs, x.Body.Outputs, x.Metadata = ins, outs, meta
		if err == nil {
			return fmt.Errorf("a transaction that cannot be serialised (%d) was built", o.fee%3)
		}
	default:
		panic(o.kind)
	}
	return nil
}

// checkBuilt judges a transaction returned by Build against the model.
func checkBuilt(x *tx.Tx, s *state) error {
	raw, err := x.Bytes()
	if err != nil {
		return fmt.Errorf("bytes of the built transaction: %v", err)
	}
	v, err := txm.Decode(raw)
	if err != nil {
		return fmt.Errorf("built transaction %x: %v", raw, err)
	}
	if d := s.m.Diff(v); d != "" {
		return fmt.Errorf("built transaction: %s", d)
	}
	return checkWitnesses(x, v, s.keys)
}

func checkWitnesses(x *tx.Tx, v *txm.View, keys []key) error {
	id := ref.Blake2b(32, v.BodyRaw)
	h, err := x.Hash()
	if err != nil || !bytes.Equal(h[:], id) {
		return fmt.Errorf("hash of the built transaction is %x (%v), its body hashes to %x", h, err, id)
	}
	if len(v.Wits) != len(keys) {
		return fmt.Errorf("%d witnesses for %d keys", len(v.Wits), len(keys))
	}
	for i, w := range v.Wits {
		if !bytes.Equal(w.VKey, keys[i].pub) {
			return fmt.Errorf("witness %d has key %x, want %x", i, w.VKey, keys[i].pub)
		}
		if len(w.Sig) != 64 || !ed25519.Verify(keys[i].pub, id, w.Sig) {
			return fmt.Errorf("witness %d: signature %x does not verify against %x", i, w.Sig, id)
		}
	}
	return nil
}

func sum(m *txm.Model) (in, out uint64) {
	for _, i := range m.Ins {
		in += i.Amount
	}
	for _, o := range m.Outs {
		out += o.Amount
	}
	return
}
