package e2e

import (
	"bytes"
	"crypto/ed25519"
	"testing"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/verif/am"
	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
	"github.com/fivebinaries/go-cardano-serialization/verif/ref"
	"github.com/fivebinaries/go-cardano-serialization/verif/txm"
	"pgregory.net/rapid"
)

const hard = 1 << 31

// wallet is a seed with a position in the wallet restored from it.
type wallet struct {
	ent, pw           []byte
	acct, role, index uint32
	test              bool
}

func walletGen(t *rapid.T) wallet {
	small := func(l string, max uint32) uint32 {
		if rapid.IntRange(0, 3).Draw(t, l+"Mode") == 0 {
			return uint32(hx.Uint64(uint64(max)).Draw(t, l))
		}
		return uint32(rapid.IntRange(0, 20).Draw(t, l))
	}
	w := wallet{ent: hx.Bytes(rapid.SampledFrom([]int{16, 20, 24, 28, 32}).Draw(t, "size")).Draw(t, "entropy")}
	if rapid.IntRange(0, 2).Draw(t, "passphrase") == 0 {
		w.pw = hx.BytesLen(1, 140, 8, 64, 128).Draw(t, "pw")
	}
	w.acct = small("account", hard-1)
	w.role = uint32(rapid.IntRange(0, 1).Draw(t, "role"))
	w.index = small("index", hard-1)
	w.test = rapid.Bool().Draw(t, "testnet")
	return w
}

func TestC32(t *testing.T) {
	h := hx.Start(t, "C32", "entropy of the five BIP-39 sizes with passphrases, accounts, roles and indices; keys along m/1852'/1815'/a'/r/i, key hashes, the three address kinds (bytes and text) against independent implementations, then a transaction paying from that address, signed and checked. Non-trivial: every case")
	h.Check("restore", 250, func(t *rapid.T, c *hx.C) {
		w := walletGen(t)
		c.Key("%x %x %d/%d/%d testnet %v", w.ent, w.pw, w.acct, w.role, w.index, w.test)
		c.Nontrivial(true)
		c.Class("passphrase", len(w.pw) > 0)
		c.Class("mainnet", !w.test)
		c.Class("large account or index", w.acct > 255 || w.index > 255)
		restore(t, w)
	})
	// one process restores several wallets: what differs in one respect only
	h.Check("related wallets in turn", 80, func(t *rapid.T, c *hx.C) {
		w := walletGen(t)
		kind := rapid.SampledFrom([]string{"entropy and passphrase share their concatenation", "other passphrase", "account", "role", "index", "network", "entropy bit", "same again"}).Draw(t, "differs in")
		v := w
		switch kind {
		case "entropy and passphrase share their concatenation":
			if len(w.ent) == 16 {
				w.ent = append(w.ent[:16:16], hx.Bytes(4).Draw(t, "more")...)
			}
			n := len(w.ent) - 4
			v.ent, v.pw = w.ent[:n:n], append(append([]byte{}, w.ent[n:]...), w.pw...)
		case "other passphrase":
			v.pw = append(append([]byte{}, w.pw...), byte(rapid.IntRange(0, 255).Draw(t, "extra")))
		case "account":
			v.acct ^= 1 << rapid.IntRange(0, 30).Draw(t, "bit")
		case "role":
			v.role ^= 1
		case "index":
			v.index ^= 1 << rapid.IntRange(0, 30).Draw(t, "bit")
		case "network":
			v.test = !w.test
		case "entropy bit":
			v.ent = append([]byte{}, w.ent...)
			v.ent[rapid.IntRange(0, len(v.ent)-1).Draw(t, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		}
		if rapid.Bool().Draw(t, "second first") {
			v, w = w, v
		}
		c.Key("%+v, then %+v", w, v)
		c.Nontrivial(true)
		c.Class(kind, true)
		restore(t, w)
		restore(t, v)
		restore(t, w)
	})
}

func restore(t *rapid.T, w wallet) {
	ent, pw, acct, role, index := w.ent, w.pw, w.acct, w.role, w.index
	net := *network.MainNet()
	magic := uint32(am.MainMagic)
	if w.test {
		net, magic = *network.TestNet(), am.TestMagic
	}

	// the reference wallet
	wAcct := ref.Derive(ref.Derive(ref.Derive(ref.IcarusRoot(ent, pw), hard+1852), hard+1815), hard+acct)
	wPay := ref.Derive(ref.Derive(wAcct, role), index)
	wStake := ref.Derive(ref.Derive(wAcct, 2), 0)
	wPayPub, wStakePub := ref.PublicKey(wPay), ref.PublicKey(wStake)
	payHash, stakeHash := ref.Blake2b(28, wPayPub), ref.Blake2b(28, wStakePub)

	// the library's
	gAcct := bip32.FromBip39Entropy(ent, pw).Derive(hard + 1852).Derive(hard + 1815).Derive(hard + acct)
	gPay := gAcct.Derive(role).Derive(index)
	gStake := gAcct.Derive(2).Derive(0)
	if !bytes.Equal(gAcct, wAcct) {
		t.Fatalf("account key %x, want %x", gAcct, wAcct)
	}
	if !bytes.Equal(gPay, wPay) || !bytes.Equal(gStake, wStake) {
		t.Fatalf("keys %x %x, want %x %x", gPay, gStake, wPay, wStake)
	}
	if p := gPay.Public().PublicKey(); !bytes.Equal(p, wPayPub) {
		t.Fatalf("payment public key %x, want %x", p, wPayPub)
	}
	ph, sh := gPay.Public().PublicKey().Hash(), gStake.Public().PublicKey().Hash()
	if !bytes.Equal(ph[:], payHash) || !bytes.Equal(sh[:], stakeHash) {
		t.Fatalf("key hashes %x %x, want %x %x", ph, sh, payHash, stakeHash)
	}
	base := address.NewBaseAddress(&net, address.NewKeyStakeCredential(ph[:]), address.NewKeyStakeCredential(sh[:]))
	ent2 := address.NewEnterpriseAddress(&net, address.NewKeyStakeCredential(ph[:]))
	rew := address.NewRewardAddress(&net, address.NewKeyStakeCredential(sh[:]))
	models := []am.Addr{
		{Kind: am.Base, Net: net.NetworkId, Magic: magic, Pay: payHash, Stake: stakeHash},
		{Kind: am.Enterprise, Net: net.NetworkId, Magic: magic, Pay: payHash},
		{Kind: am.Reward, Net: net.NetworkId, Magic: magic, Stake: stakeHash},
		{Kind: am.Enterprise, Net: net.NetworkId, Magic: magic, Pay: payHash},
		{Kind: am.Reward, Net: net.NetworkId, Magic: magic, Stake: stakeHash},
	}
	for i, g := range []address.Address{base, ent2, rew, base.ToEnterprise(), base.ToReward()} {
		w := models[i]
		if !bytes.Equal(g.Bytes(), w.Bytes()) || g.String() != w.Text() {
			t.Fatalf("%s address is %x %s, want %x %s", w.Kind, g.Bytes(), g, w.Bytes(), w.Text())
		}
		back, err := address.NewAddress(w.Text())
		if err != nil || !bytes.Equal(back.Bytes(), w.Bytes()) {
			t.Fatalf("address %s reads as %v (%v)", w.Text(), back, err)
		}
	}

	// spend from it
	var addr address.Address = base
	if rapid.Bool().Draw(t, "enterprise") {
		addr = ent2
	}
	b := tx.NewTxBuilder(protocol.Protocol{TxFeePerByte: 44, TxFeeFixed: 155381}, nil)
	in := txm.InGen(1<<50).Draw(t, "input")
	in.Amount += 5_000_000
	b.AddInputs(in.Build())
	b.AddOutputs(tx.NewTxOutput(addr, 1_000_000))
	b.AddChangeIfNeeded(addr)
	b.Sign(gPay)
	x, err := b.Build()
	if err != nil {
		t.Fatal(err)
	}
	raw, err := x.Bytes()
	if err != nil {
		t.Fatal(err)
	}
	v, err := txm.Decode(raw)
	if err != nil {
		t.Fatal(err)
	}
	if len(v.Wits) != 1 {
		t.Fatalf("%d witnesses", len(v.Wits))
	}
	if !bytes.Equal(ref.Blake2b(28, v.Wits[0].VKey), addr.Bytes()[1:29]) {
		t.Fatalf("witnessed by key %x, which is not the key of address %s", v.Wits[0].VKey, addr)
	}
	if !ed25519.Verify(v.Wits[0].VKey, ref.Blake2b(32, v.BodyRaw), v.Wits[0].Sig) {
		t.Fatalf("signature %x does not verify", v.Wits[0].Sig)
	}
	for _, o := range v.Outs {
		if !bytes.Equal(o.Addr, addr.Bytes()) {
			t.Fatalf("output to %x, want %x", o.Addr, addr.Bytes())
		}
	}
}
