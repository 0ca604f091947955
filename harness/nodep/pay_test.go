package nodep

import (
	"bytes"
	"crypto/ed25519"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/node"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/verif/am"
	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
	"github.com/fivebinaries/go-cardano-serialization/verif/jg"
	"github.com/fivebinaries/go-cardano-serialization/verif/ref"
	"github.com/fivebinaries/go-cardano-serialization/verif/txm"
	"pgregory.net/rapid"
)

// ---- a model of the ledger ----

type coin struct {
	hash   []byte
	ix     uint16
	addr   []byte
	amount uint64
}

type ledger struct {
	coins []coin
	p     jg.Params
	slot  uint64
	net   byte
	fees  uint64
}

func (l *ledger) at(addr []byte) []coin {
	var out []coin
	for _, c := range l.coins {
		if bytes.Equal(c.addr, addr) {
			out = append(out, c)
		}
	}
	return out
}

func (l *ledger) balance(addrs ...[]byte) (sum uint64) {
	for _, a := range addrs {
		for _, c := range l.at(a) {
			sum += c.amount
		}
	}
	return
}

// apply judges a transaction as a node does and takes it into the ledger.
func (l *ledger) apply(raw []byte) (id []byte, err error) {
	v, err := txm.Decode(raw)
	if err != nil {
		return nil, fmt.Errorf("undecodable transaction: %v", err)
	}
	id = ref.Blake2b(32, v.BodyRaw)
	signers := map[string]bool{}
	for _, w := range v.Wits {
		if len(w.VKey) != 32 || !ed25519.Verify(w.VKey, id, w.Sig) {
			return nil, fmt.Errorf("signature %x by %x does not verify", w.Sig, w.VKey)
		}
		signers[string(ref.Blake2b(28, w.VKey))] = true
	}
	if len(v.Ins) == 0 {
		return nil, fmt.Errorf("no inputs")
	}
	var in, out uint64
	spent := map[int]bool{}
	for _, i := range v.Ins {
		found := -1
		for k, c := range l.coins {
			if bytes.Equal(c.hash, i.Hash) && c.ix == i.Index {
				found = k
			}
		}
		if found < 0 || spent[found] {
			return nil, fmt.Errorf("input %x#%d does not exist or is spent twice", i.Hash, i.Index)
		}
		spent[found] = true
		in += l.coins[found].amount
		if !signers[string(l.coins[found].addr[1:29])] {
			return nil, fmt.Errorf("input %x#%d is not witnessed by the key of its address", i.Hash, i.Index)
		}
	}
	for _, o := range v.Outs {
		out += o.Amount
		if o.Addr[0]&15 != l.net {
			return nil, fmt.Errorf("output to network %d", o.Addr[0]&15)
		}
		if o.Amount == 0 {
			return nil, fmt.Errorf("output of nothing to %x", o.Addr)
		}
	}
	if in != out+v.Fee {
		return nil, fmt.Errorf("inputs %d, outputs %d and fee %d", in, out, v.Fee)
	}
	if min := l.p.Fixed + l.p.PerByte*uint64(len(raw)); v.Fee < min {
		return nil, fmt.Errorf("fee %d of %d bytes, minimum %d", v.Fee, len(raw), min)
	}
	if uint64(len(raw)) > l.p.MaxTx {
		return nil, fmt.Errorf("%d bytes", len(raw))
	}
	if v.HasTTL && v.TTL < l.slot {
		return nil, fmt.Errorf("expired at slot %d, now %d", v.TTL, l.slot)
	}
	if (v.Meta == nil) != (v.AuxHash == nil) || v.Meta != nil && !bytes.Equal(v.AuxHash, ref.Blake2b(32, v.Meta.Raw)) {
		return nil, fmt.Errorf("auxiliary data hash %x", v.AuxHash)
	}
	var left []coin
	for k, c := range l.coins {
		if !spent[k] {
			left = append(left, c)
		}
	}
	for k, o := range v.Outs {
		left = append(left, coin{id, uint16(k), o.Addr, o.Amount})
	}
	l.coins = left
	l.fees += v.Fee
	return id, nil
}

// ---- wallets ----

type wallet struct {
	keys  []bip32.XPrv
	addrs []address.Address
	raws  [][]byte
}

func newWallet(entropy []byte, net *network.NetworkInfo, n int) wallet {
	const hard = 1 << 31
	acct := bip32.FromBip39Entropy(entropy, nil).Derive(hard + 1852).Derive(hard + 1815).Derive(hard)
	stake := acct.Derive(2).Derive(0).Public().PublicKey().Hash()
	var w wallet
	for i := 0; i < n; i++ {
		k := acct.Derive(0).Derive(uint32(i))
		h := k.Public().PublicKey().Hash()
		var a address.Address = address.NewBaseAddress(net, address.NewKeyStakeCredential(h[:]), address.NewKeyStakeCredential(stake[:]))
		if i%3 == 2 {
			a = address.NewEnterpriseAddress(net, address.NewKeyStakeCredential(h[:]))
		}
		w.keys, w.addrs, w.raws = append(w.keys, k), append(w.addrs, a), append(w.raws, a.Bytes())
	}
	return w
}

// ---- C33 ----

func TestC33(t *testing.T) {
	f, c := theFrost, scratch(t)
	h := hx.Start(t, "C33", "wallets paying each other and others through a backend (cardano-cli stand-in or blockfrost stand-in) that is in front of a model ledger: parameters, tip and unspent outputs are asked for, a transaction is built, signed, balanced and submitted, the ledger judges it (existence, signatures, value, fee, size, expiry, network), changes, and the balances are compared with the payments made. Non-trivial: at least one payment is made")
	h.Check("payments", 120, func(t *rapid.T, cs *hx.C) {
		n := *network.MainNet()
		if rapid.Bool().Draw(t, "testnet") {
			n = *network.TestNet()
		}
		l := &ledger{net: n.NetworkId, slot: hx.Uint64(1<<31).Draw(t, "slot")}
		l.p = jg.Params{PerByte: uint64(rapid.IntRange(0, 100).Draw(t, "perByte")), Fixed: uint64(rapid.IntRange(0, 400000).Draw(t, "fixed")), MaxTx: 16384, MinUTXO: 1000000, Major: 6}
		seed := rapid.Uint64().Draw(t, "wallets")
		ws := []wallet{newWallet(hx.Expand(seed, 32), &n, rapid.IntRange(1, 3).Draw(t, "addressesA")), newWallet(hx.Expand(seed+1, 16), &n, rapid.IntRange(1, 2).Draw(t, "addressesB"))}
		cs.Key("%d %d %v", n.NetworkId, seed, l.p)
		for i, w := range ws {
			for j, a := range w.raws {
				k := rapid.IntRange(0, 4).Draw(t, "coins")
				if rapid.IntRange(0, 12).Draw(t, "manyCoins") == 0 {
					k = rapid.SampledFrom([]int{24, 99, 100, 101, 130}).Draw(t, "coins")
				}
				for ; k > 0; k-- {
					l.coins = append(l.coins, coin{hx.Expand(seed+uint64(1000*i+200*j+k), 32), uint16(hx.Uint64(300).Draw(t, "ix")), a, hx.Uint64(1<<40).Draw(t, "amount") + 1})
				}
			}
		}
		funded := l.balance(append(append([][]byte{}, ws[0].raws...), ws[1].raws...)...)

		// the backend in front of the ledger
		useCli := rapid.Bool().Draw(t, "cli")
		cs.Class("cardano-cli", useCli)
		cs.Class("blockfrost", !useCli)
		var nd node.Node
		if useCli {
			nd = c.node(t, &n)
		} else {
			nd = node.NewBlockfrostClient("project", &n)
		}
		answerWith := func(cli, frost string) {
			if useCli {
				c.prepare(cli, "0")
			} else {
				f.expect(func(request) answer { return answer{status: 200, body: frost} })
			}
		}
		for step := rapid.IntRange(1, 4).Draw(t, "payments"); step > 0; step-- {
			l.slot += hx.Uint64(1<<20).Draw(t, "time")
			answerWith(fmt.Sprintf(`{"txFeePerByte": %d, "txFeeFixed": %d, "maxTxSize": %d, "protocolVersion": {"major": 6, "minor": 0}, "minUTxOValue": %d}`, l.p.PerByte, l.p.Fixed, l.p.MaxTx, l.p.MinUTXO),
				fmt.Sprintf(`{"min_fee_a": %d, "min_fee_b": %d, "max_tx_size": %d, "protocol_major_ver": 6, "protocol_minor_ver": 0, "min_utxo": "%d"}`, l.p.PerByte, l.p.Fixed, l.p.MaxTx, l.p.MinUTXO))
			pr, err := nd.ProtocolParameters()
			if err != nil {
				t.Fatalf("protocol parameters: %v", err)
			}
			answerWith(fmt.Sprintf(`{"slot": %d, "epoch": 1, "block": 2}`, l.slot), fmt.Sprintf(`{"slot": %d, "epoch": 1, "height": 2}`, l.slot))
			tip, err := nd.QueryTip()
			if err != nil {
				t.Fatalf("tip: %v", err)
			}
			payer := rapid.IntRange(0, 1).Draw(t, "payer")
			w, other := ws[payer], ws[1-payer]

			// unspent outputs of all addresses of the wallet
			var ins []tx.TxInput
			var owner []int
			for j, a := range w.addrs {
				var us []utxo
				doc := header
				for _, k := range l.at(w.raws[j]) {
					us = append(us, utxo{hash: k.hash, ix: k.ix, amount: k.amount})
					doc += row{k.hash, k.ix, k.amount, " lovelace + TxOutDatumNone"}.line(5, 8) + "\n"
				}
				if useCli {
					c.prepare(doc, "0")
				} else {
					f.expect(func(r request) answer { return page(us, r) })
				}
				got, err := nd.UTXOs(a)
				if err != nil {
					t.Fatalf("unspent outputs: %v", err)
				}
				ins = append(ins, got...)
				for range got {
					owner = append(owner, j)
				}
			}
			// the wallet spends some of them, from any place
			if len(ins) > 0 {
				r := rapid.IntRange(0, len(ins)-1).Draw(t, "from")
				ins, owner = append(append([]tx.TxInput{}, ins[r:]...), ins[:r]...), append(append([]int{}, owner[r:]...), owner[:r]...)
			}
			take := rapid.IntRange(0, 60).Draw(t, "take")
			if take > len(ins) {
				take = len(ins)
			}
			nOut := rapid.IntRange(1, 3).Draw(t, "outputs")
			cost := l.p.Fixed + l.p.PerByte*uint64(1200+40*take+80*nOut)
			var have uint64
			used := make([]bool, len(w.keys))
			for i := 0; i < take; i++ {
				have += uint64(ins[i].Amount)
				used[owner[i]] = true
			}
			if take == 0 || have < cost+10 {
				cs.Class("a wallet without enough", true)
				continue
			}
			cs.Nontrivial(true)
			cs.Class("more than 24 inputs", take > 24)

			// pay
			var keys, late []bip32.XPrv
			for j, u := range used {
				if u {
					keys = append(keys, w.keys[j])
				}
			}
			if len(keys) == 1 && rapid.Bool().Draw(t, "signLate") {
				keys, late = nil, keys
			}
			b := tx.NewTxBuilder(pr, keys)
			expect := map[string]uint64{}
			addrs := append(append([][]byte{}, w.raws...), other.raws...)
			for _, a := range addrs {
				expect[string(a)] = l.balance(a)
			}
			budget := have - cost
			for i := 0; i < take; i++ {
				b.AddInputs(&ins[i])
				expect[string(w.raws[owner[i]])] -= uint64(ins[i].Amount)
			}
			var paid uint64
			for ; nOut > 0; nOut-- {
				amount := hx.Uint64(budget/uint64(nOut)-1).Draw(t, "pay") + 1
				to := other.addrs[0]
				switch rapid.IntRange(0, 3).Draw(t, "to") {
				case 0: // somebody else, known by address text
					m := rapid.SampledFrom([]am.Kind{am.Base, am.Enterprise, am.Pointer}).Draw(t, "kind")
					a := am.OfKind(m).Draw(t, "payee")
					a.Net = n.NetworkId
					a.Magic = n.ProtocolMagic
					if to, err = address.NewAddress(a.Text()); err != nil {
						t.Fatalf("address %s: %v", a.Text(), err)
					}
				case 1:
					to = w.addrs[len(w.addrs)-1]
				}
				b.AddOutputs(tx.NewTxOutput(to, uint(amount)))
				if _, ok := expect[string(to.Bytes())]; !ok {
					expect[string(to.Bytes())] = l.balance(to.Bytes())
				}
				expect[string(to.Bytes())] += amount
				budget -= amount
				paid += amount
			}
			if rapid.IntRange(0, 2).Draw(t, "meta") == 0 {
				b.Tx().Metadata = map[uint64]interface{}{674: map[string]interface{}{"msg": []interface{}{rapid.StringN(0, 20, 64).Draw(t, "message")}}}
			}
			if rapid.IntRange(0, 3).Draw(t, "expires") > 0 {
				b.SetTTL(uint32(tip.Slot) + uint32(rapid.IntRange(0, 7200).Draw(t, "slots")))
			}
			change := w.addrs[rapid.IntRange(0, len(w.addrs)-1).Draw(t, "change")]
			b.AddChangeIfNeeded(change)
			for _, k := range late {
				b.Sign(k)
			}
			x, err := b.Build()
			if err != nil {
				t.Fatalf("build: %v", err)
			}

			// submit; the ledger judges what arrives
			var id string
			var raw []byte
			var ledgerErr error
			var want []byte
			if useCli {
				c.prepare("Transaction successfully submitted.\n", "0")
				id, err = nd.SubmitTx(x)
				if err != nil {
					t.Fatalf("submission: %v", err)
				}
				doc, ferr := os.ReadFile(filepath.Join(c.dir, "txfile"))
				if ferr != nil {
					t.Fatalf("no transaction was handed over: %v", ferr)
				}
				var env struct {
					CborHex string `json:"cborHex"`
				}
				if err := json.Unmarshal(doc, &env); err != nil {
					t.Fatalf("transaction file %q: %v", doc, err)
				}
				if raw, err = hex.DecodeString(env.CborHex); err != nil {
					t.Fatalf("transaction file %q: %v", doc, err)
				}
				want, ledgerErr = l.apply(raw)
			} else {
				f.expect(func(r request) answer {
					raw = r.body
					if want, ledgerErr = l.apply(r.body); ledgerErr != nil {
						return answer{status: 400, body: `{"status_code": 400, "error": "Bad Request", "message": "refused"}`}
					}
					return answer{status: 200, body: fmt.Sprintf("\"%x\"", want)}
				})
				id, err = nd.SubmitTx(x)
			}
			if ledgerErr != nil {
				t.Fatalf("the ledger refuses the payment of %d from %d inputs (%d lovelace), parameters %+v: %v\n%x", paid, take, have, l.p, ledgerErr, raw)
			}
			if err != nil {
				t.Fatalf("submission: %v", err)
			}
			if !strings.EqualFold(id, hex.EncodeToString(want)) {
				t.Fatalf("submission returns id %s, the ledger has %x", id, want)
			}
			// everybody has what he should: the payees exactly, the payer all but the fee
			v, err := txm.Decode(raw)
			if err != nil {
				t.Fatal(err)
			}
			for i := 0; i < take; i++ {
				if i >= len(v.Ins) || !bytes.Equal(v.Ins[i].Hash, ins[i].TxHash) || v.Ins[i].Index != ins[i].Index {
					t.Fatalf("the transaction does not spend the chosen inputs: %x", raw)
				}
			}
			expect[string(change.Bytes())] += have - paid - v.Fee
			for a, sum := range expect {
				if got := l.balance([]byte(a)); got != sum {
					t.Fatalf("after the payment the balance of %x is %d, want %d (fee %d)", a, got, sum, v.Fee)
				}
			}
			if limit := l.p.Fixed + l.p.PerByte*uint64(len(raw)+16); v.Fee > limit {
				t.Fatalf("fee %d for %d bytes, at most %d is reasonable (parameters %+v)", v.Fee, len(raw), limit, l.p)
			}
		}
		var all uint64
		for _, k := range l.coins {
			all += k.amount
		}
		if all+l.fees != funded {
			t.Fatalf("the ledger held %d, now %d and %d in fees", funded, all, l.fees)
		}
	})
}
