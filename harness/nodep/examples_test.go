package nodep

import (
	"bytes"
	"crypto/ed25519"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"testing"
	"time"

	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/node"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/verif/am"
	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
	"github.com/fivebinaries/go-cardano-serialization/verif/jg"
	"github.com/fivebinaries/go-cardano-serialization/verif/ref"
	"github.com/fivebinaries/go-cardano-serialization/verif/txm"
	"github.com/tyler-smith/go-bip39"
	"pgregory.net/rapid"
)

// The example programs are built by the driver (check) into $VERIF_EXAMPLES
// and run as a user runs them.

type ran struct {
	ok       bool
	out, err string
}

func (r ran) String() string { return fmt.Sprintf("ok=%v stdout %q stderr %q", r.ok, r.out, r.err) }

func runExample(name, project string, args ...string) ran {
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_EXAMPLES"), name), args...)
	cmd.Dir = scratchDir
	cmd.Env = append(os.Environ(), "BLOCKFROST_PROJECT_ID="+project)
	var out, err bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &err
	must(cmd.Start())
	kill := time.AfterFunc(2*time.Minute, func() { cmd.Process.Kill() })
	werr := cmd.Wait()
	kill.Stop()
	if _, exited := werr.(*exec.ExitError); werr != nil && !exited {
		must(werr)
	}
	return ran{werr == nil, out.String(), err.String()}
}

func words(entropy []byte) string {
	m, err := bip39.NewMnemonic(entropy)
	must(err)
	return m
}

// refWallet gives the first payment key and the addresses of a wallet.
func refWallet(entropy []byte, n byte) (pay []byte, base, ent am.Addr) {
	const hard = 1 << 31
	k := ref.IcarusRoot(entropy, nil)
	for _, i := range []uint32{hard + 1852, hard + 1815, hard} {
		k = ref.Derive(k, i)
	}
	pay = ref.Derive(ref.Derive(k, 0), 0)
	stake := ref.Derive(ref.Derive(k, 2), 0)
	ph, sh := ref.Blake2b(28, ref.PublicKey(pay)), ref.Blake2b(28, ref.PublicKey(stake))
	return pay, am.Addr{Kind: am.Base, Net: n, Pay: ph, Stake: sh}, am.Addr{Kind: am.Enterprise, Net: n, Pay: ph}
}

// spoil makes a phrase that is not a valid one.
func spoil(t *rapid.T, phrase string) string {
	w := strings.Fields(phrase)
	list := bip39.GetWordList()
	i := rapid.IntRange(0, 23).Draw(t, "word")
	switch rapid.SampledFrom([]string{"checksum", "swap", "unknown", "short", "long", "empty"}).Draw(t, "spoil") {
	case "checksum":
		w[i] = rapid.SampledFrom(list).Draw(t, "instead")
	case "swap":
		j := rapid.IntRange(0, 23).Draw(t, "with")
		w[i], w[j] = w[j], w[i]
	case "unknown":
		w[i] = rapid.SampledFrom([]string{"cardano", "abandonn", "zo", "Abandon", "ábaco", "0"}).Draw(t, "instead")
	case "short":
		w = w[:rapid.SampledFrom([]int{12, 15, 18, 21, 23}).Draw(t, "n")]
	case "long":
		w = append(w, w[i])
	case "empty":
		w = nil
	}
	return strings.Join(w, " ")
}

var anAddress = regexp.MustCompile(`addr(_test)?1[0-9a-z]{20,}`)

func TestC35(t *testing.T) {
	if os.Getenv("VERIF_EXAMPLES") == "" {
		must(fmt.Errorf("VERIF_EXAMPLES is not set"))
	}
	f := theFrost
	h := hx.Start(t, "C35", "the example programs, built and run as a user runs them: wallets restored from generated and spoilt phrases, generated wallets, payments made by the transaction example against a stand-in with a model ledger (0-130 outputs, failures of each request), and the queries of the node example. Non-trivial: a valid phrase, or a failure the program has to notice")
	entropyGen := hx.Bytes(32)

	h.Check("restore", 100, func(t *rapid.T, c *hx.C) {
		entropy := entropyGen.Draw(t, "entropy")
		phrase := words(entropy)
		netName := rapid.SampledFrom([]string{"mainnet", "testnet"}).Draw(t, "network")
		base := rapid.Bool().Draw(t, "base")
		bad := ""
		switch rapid.IntRange(0, 4).Draw(t, "bad") {
		case 0:
			phrase = spoil(t, phrase)
			if e, err := bip39.EntropyFromMnemonic(phrase); err != nil || len(e) != 32 {
				bad = "phrase"
			} else {
				entropy = e
			}
		case 1:
			if rapid.IntRange(0, 2).Draw(t, "badNetwork") == 0 {
				bad, netName = "network", rapid.SampledFrom([]string{"preprod", "Mainnet", "", "mainnet ", "1"}).Draw(t, "network")
			}
		}
		args := []string{"-mnemonic", phrase}
		if base {
			args = append(args, "-type", "1")
		} else if rapid.Bool().Draw(t, "explicit") {
			args = append(args, "-type=0")
		}
		if netName != "mainnet" || rapid.Bool().Draw(t, "explicitNet") {
			args = append(args, "-network="+netName)
		}
		c.Key("%q", args)
		c.Nontrivial(true)
		c.Class("refused", bad != "")
		r := runExample("restore", "", args...)
		if bad != "" {
			if r.ok || anAddress.MatchString(r.out) {
				t.Fatalf("restore %q, which has a bad %s: %v", args, bad, r)
			}
			return
		}
		n := byte(1)
		if netName == "testnet" {
			n = 0
		}
		_, wb, we := refWallet(entropy, n)
		want := "Enterprise Address: " + we.Text()
		if base {
			want = "Base Address: " + wb.Text()
		}
		if !r.ok || strings.TrimSpace(r.out) != want {
			t.Fatalf("restore %q: %v, want %s", args, r, want)
		}
	})

	h.Check("generate", 8, func(t *rapid.T, c *hx.C) {
		rapid.Uint64().Draw(t, "run")
		r := runExample("generate", "")
		all := r.out + r.err
		get := func(label string) string {
			m := regexp.MustCompile(label + `: ([^\n]*)\n`).FindStringSubmatch(all)
			if !r.ok || m == nil {
				t.Fatalf("generate: no %s: %v", label, r)
			}
			return strings.TrimSpace(m[1])
		}
		phrase := get("Mnemonic")
		entropy, err := bip39.EntropyFromMnemonic(phrase)
		if err != nil || len(entropy) != 32 {
			t.Fatalf("generate shows the phrase %q: %v", phrase, err)
		}
		c.Key("%s", phrase)
		c.Nontrivial(true)
		_, wb, _ := refWallet(entropy, 1)
		if a := get("Address"); a != wb.Text() {
			t.Fatalf("generate shows the phrase %q and the address %s, want %s", phrase, a, wb.Text())
		}
		sig, err := hex.DecodeString(get("Signature"))
		acct := ref.Derive(ref.Derive(ref.Derive(ref.IcarusRoot(entropy, nil), 1<<31+1852), 1<<31+1815), 1<<31)
		if err != nil || !ed25519.Verify(ref.PublicKey(acct), []byte("Hello There"), sig) {
			t.Fatalf("generate shows the phrase %q and the signature %x, which does not verify", phrase, sig)
		}
	})

	h.Each("simple decode", true, func(rec func(*hx.C)) error {
		c := &hx.C{}
		c.Key("simple_decode")
		c.Nontrivial(true)
		rec(c)
		r := runExample("simple_decode", "")
		if want := "Enterprise Address: addr1vxvfjdcr6nd3y65mkqx5gfvgwjarvkt527h35wq3g7a447chmv4zj"; !r.ok || !strings.Contains(r.out+r.err, want+"\n") {
			return fmt.Errorf("simple_decode: %v", r)
		}
		return nil
	})

	tn := *network.TestNet()
	// serve answers the example's requests; refused maps a request to the status it gets
	serve := func(l *ledger, tip node.NetworkTip, text string, us []utxo, project string, refused map[string]int, body string, bad *error, accepted *[][]byte, tolerated func(raw []byte, err error) bool) {
		f.expect(func(r request) answer {
			path, what := "", ""
			switch p := strings.TrimPrefix(r.path, "/api/v0/"); {
			case p == "blocks/latest":
				path, what = p, "tip"
			case strings.HasPrefix(p, "epochs/latest/parameters"):
				path, what = p, "parameters"
			case p == "tx/submit":
				path, what = p, "submit"
			default:
				path, what = "addresses/"+text+"/utxos", "utxos"
			}
			method := "GET"
			if what == "submit" {
				method = "POST"
			}
			if err := common(r, tn, project, method, path); err != nil {
				*bad = err
			}
			if s := refused[what]; s != 0 {
				return answer{status: s, body: body}
			}
			switch what {
			case "tip":
				return answer{status: 200, body: fmt.Sprintf(`{"slot": %d, "epoch": %d, "height": %d}`, tip.Slot, tip.Epoch, tip.Block)}
			case "parameters":
				return answer{status: 200, body: fmt.Sprintf(`{"min_fee_a": %d, "min_fee_b": %d, "max_tx_size": %d, "protocol_major_ver": 6, "protocol_minor_ver": 2, "min_utxo": "%d"}`, l.p.PerByte, l.p.Fixed, l.p.MaxTx, l.p.MinUTXO)}
			case "utxos":
				return page(us, r)
			}
			id, err := l.apply(r.body)
			if err != nil && !tolerated(r.body, err) {
				*bad = fmt.Errorf("the ledger refuses %x: %v", r.body, err)
			}
			if err != nil {
				return answer{status: 400, body: `{"status_code": 400, "error": "Bad Request", "message": "refused"}`}
			}
			*accepted = append(*accepted, r.body)
			return answer{status: 200, body: fmt.Sprintf("\"%x\"", id)}
		})
	}

	h.Check("pay", 80, func(t *rapid.T, c *hx.C) {
		entropy := entropyGen.Draw(t, "entropy")
		phrase := words(entropy)
		badPhrase := rapid.IntRange(0, 5).Draw(t, "bad") == 0
		if badPhrase {
			phrase = spoil(t, phrase)
			if e, err := bip39.EntropyFromMnemonic(phrase); err == nil && len(e) == 32 {
				entropy, badPhrase = e, false
			}
		}
		// known finding: a phrase of 24 words that is not valid stands for the empty secret
		emptySecret := badPhrase && len(strings.Split(phrase, " ")) == 24 && h.Known("example-invalid-phrase")
		if emptySecret {
			entropy = nil
		}
		_, from, _ := refWallet(entropy, 0)
		project := rapid.StringMatching(`testnet[A-Za-z0-9]{8,32}`).Draw(t, "project")
		tip := node.NetworkTip{Slot: uint(hx.Uint64(1<<32-301).Draw(t, "slot")), Epoch: 3, Block: 4}
		l := &ledger{net: 0, slot: uint64(tip.Slot)}
		l.p = jg.Params{PerByte: uint64(rapid.IntRange(0, 100).Draw(t, "perByte")), Fixed: uint64(rapid.IntRange(0, 400000).Draw(t, "fixed")), MaxTx: 16384, MinUTXO: 1000000, Major: 6}
		if rapid.IntRange(0, 3).Draw(t, "dear") == 0 {
			l.p.Fixed = 1100000 + hx.Uint64(3000000).Draw(t, "fixed")
		}
		dearest := l.p.Fixed + l.p.PerByte*600 // of a transaction with one input and two outputs
		var us []utxo
		enough, afford := 0, true
		k := rapid.IntRange(0, 5).Draw(t, "coins")
		if rapid.IntRange(0, 12).Draw(t, "manyCoins") == 0 {
			k = rapid.SampledFrom([]int{99, 100, 101, 130}).Draw(t, "coins")
		}
		seed := rapid.Uint64().Draw(t, "hashes")
		for ; k > 0; k-- {
			u := utxo{hash: hx.Expand(seed+uint64(k), 32), ix: uint16(hx.Uint64(65535).Draw(t, "ix"))}
			switch rapid.IntRange(0, 3).Draw(t, "amount") {
			case 0:
				u.amount = 6200000 - 2 + hx.Uint64(5).Draw(t, "near")
			case 1:
				u.amount = hx.Uint64(6200000).Draw(t, "little") + 1
			default:
				u.amount = hx.Uint64(1<<45).Draw(t, "lovelace") + 1
			}
			if u.amount >= 6200000 {
				enough++
				afford = afford && u.amount >= 5000000+dearest
			}
			us = append(us, u)
			l.coins = append(l.coins, coin{u.hash, u.ix, from.Bytes(), u.amount})
		}
		args := []string{"-mnemonic", phrase}
		to, badTo := from, false
		switch rapid.IntRange(0, 4).Draw(t, "to") {
		case 0, 1:
			to = am.OfKind(rapid.SampledFrom([]am.Kind{am.Base, am.Enterprise, am.Pointer}).Draw(t, "kind")).Draw(t, "payee")
			to.Net, to.Magic = 0, tn.ProtocolMagic
			args = append(args, "-sendTo", to.Text())
		case 2:
			s := to.Text()
			i := rapid.IntRange(10, len(s)-1).Draw(t, "typo")
			by := rapid.SampledFrom([]string{"q", "p", "z", "b", "1", ""}).Draw(t, "by")
			s = s[:i] + by + s[i+1:]
			badTo = s != to.Text()
			args = append(args, "-sendTo="+s)
		}
		refused := map[string]int{}
		body := ""
		if rapid.IntRange(0, 3).Draw(t, "fault") == 0 {
			what := rapid.SampledFrom([]string{"parameters", "utxos", "tip", "submit"}).Draw(t, "faultAt")
			refused[what] = rapid.SampledFrom([]int{400, 402, 403, 418, 451}).Draw(t, "status")
			body = errBody(t, refused[what])
			c.Class("refused "+what, true)
		}
		var bad error
		var accepted [][]byte
		before := l.balance(from.Bytes())
		owned := append([]coin{}, l.coins...)
		// known finding: a payment that cannot pay its fee is submitted without one
		unpaid := false
		serve(l, tip, from.Text(), us, project, refused, body, &bad, &accepted, func(raw []byte, err error) bool {
			v, verr := txm.Decode(raw)
			if !h.Known("example-unpaid-fee") || !strings.HasPrefix(err.Error(), "inputs ") || verr != nil || v.Fee != 0 || len(v.Ins) != 1 ||
				len(v.Outs) != 1 || v.Outs[0].Amount != 5000000 || !bytes.Equal(v.Outs[0].Addr, to.Bytes()) || v.TTL != uint64(tip.Slot)+300 {
				return false
			}
			for _, k := range owned {
				if bytes.Equal(k.hash, v.Ins[0].Hash) && k.ix == v.Ins[0].Index && k.amount >= 6200000 && k.amount < 5000000+l.p.Fixed+l.p.PerByte*uint64(len(raw)+8) {
					unpaid = true
				}
			}
			return unpaid
		})
		c.Key("%q %d %v %v %v", args, seed, l.p, tip, refused)
		r := runExample("txbuilder", project, args...)
		ctx := fmt.Sprintf("txbuilder %q, outputs %v, parameters %+v, slot %d, refusals %v: %v", args, us, l.p, tip.Slot, refused, r)
		if bad != nil {
			t.Fatalf("%s: %v", ctx, bad)
		}
		if unpaid {
			h.Found("example-unpaid-fee")
		}
		if emptySecret {
			for _, q := range f.requests() {
				if strings.Contains(q.path, "/addresses/") {
					h.Found("example-invalid-phrase")
					badPhrase = false
					break
				}
			}
		}
		fails := badPhrase || badTo || len(refused) > 0 || enough == 0
		c.Nontrivial(true)
		c.Class("must fail", fails)
		c.Class("bad phrase", badPhrase)
		c.Class("not enough", enough == 0)
		c.Class("pays", !fails && afford)
		if !r.ok {
			if !fails && afford {
				t.Fatalf("%s: it should pay", ctx)
			}
			if len(accepted) > 0 {
				t.Fatalf("%s: it fails, but has submitted %x", ctx, accepted)
			}
			return
		}
		if fails {
			t.Fatalf("%s: it should fail", ctx)
		}
		if len(accepted) != 1 {
			t.Fatalf("%s: %d transactions are submitted", ctx, len(accepted))
		}
		v, err := txm.Decode(accepted[0])
		if err != nil {
			t.Fatal(err)
		}
		if want := hex.EncodeToString(ref.Blake2b(32, v.BodyRaw)); strings.TrimSpace(r.out) != want {
			t.Fatalf("%s: it shows another id than %s", ctx, want)
		}
		if !v.HasTTL || v.TTL != uint64(tip.Slot)+300 {
			t.Fatalf("%s: expires at %d (%v)", ctx, v.TTL, v.HasTTL)
		}
		if len(v.Ins) != 1 || len(v.Outs) > 2 {
			t.Fatalf("%s: spends %v for %v", ctx, v.Ins, v.Outs)
		}
		for _, k := range owned {
			if bytes.Equal(k.hash, v.Ins[0].Hash) && k.ix == v.Ins[0].Index && k.amount < 6200000 {
				t.Fatalf("%s: spends an output of %d", ctx, k.amount)
			}
		}
		if limit := l.p.Fixed + l.p.PerByte*uint64(len(accepted[0])+16); v.Fee > limit {
			t.Fatalf("%s: fee %d, at most %d is reasonable", ctx, v.Fee, limit)
		}
		after := l.balance(from.Bytes())
		if bytes.Equal(to.Bytes(), from.Bytes()) {
			after -= 5000000
		} else if got := l.balance(to.Bytes()); got != 5000000 {
			t.Fatalf("%s: the payee has %d", ctx, got)
		}
		if before != after+5000000+v.Fee {
			t.Fatalf("%s: the payer had %d, now %d after a fee of %d", ctx, before, after, v.Fee)
		}
	})

	h.Check("queries", 25, func(t *rapid.T, c *hx.C) {
		const text = "addr_test1qqe6zztejhz5hq0xghlf72resflc4t2gmu9xjlf73x8dpf88d78zlt4rng3ccw8g5vvnkyrvt96mug06l5eskxh8rcjq2wyd63"
		project := rapid.StringMatching(`testnet[A-Za-z0-9]{8,32}`).Draw(t, "project")
		tip := node.NetworkTip{Slot: uint(hx.Uint64(1<<40).Draw(t, "slot")), Epoch: uint(hx.Uint64(1<<20).Draw(t, "epoch")), Block: uint(hx.Uint64(1<<40).Draw(t, "block"))}
		l := &ledger{p: jg.Params{PerByte: hx.Uint64(1<<40).Draw(t, "perByte"), Fixed: hx.Uint64(1<<40).Draw(t, "fixed"), MaxTx: hx.Uint64(1<<20).Draw(t, "maxTx"), MinUTXO: hx.Uint64(1<<40).Draw(t, "minUTXO")}}
		us := rapid.SliceOfN(utxoGen(), 0, 4).Draw(t, "outputs")
		if rapid.IntRange(0, 8).Draw(t, "many") == 0 {
			for i := 0; i < 100; i++ {
				us = append(us, utxo{hash: hx.Expand(uint64(i), 32), ix: uint16(i), amount: uint64(i) * 77777})
			}
		}
		refused := map[string]int{}
		if rapid.IntRange(0, 3).Draw(t, "fault") == 0 {
			refused[rapid.SampledFrom([]string{"parameters", "utxos", "tip"}).Draw(t, "faultAt")] = 403
		}
		c.Key("%s %v %v %v %v", project, tip, l.p, us, refused)
		c.Nontrivial(true)
		var bad error
		var accepted [][]byte
		serve(l, tip, text, us, project, refused, `{"status_code": 403, "error": "Forbidden", "message": "refused"}`, &bad, &accepted, func([]byte, error) bool { return false })
		r := runExample("node", project)
		if bad != nil || len(accepted) > 0 {
			t.Fatalf("node example: %v %v", bad, r)
		}
		if r.ok != (len(refused) == 0) {
			t.Fatalf("node example, refusals %v: %v", refused, r)
		}
		if !r.ok {
			return
		}
		read := func(label string, v interface{}) {
			_, rest, found := strings.Cut(r.out, label+":")
			if !found {
				t.Fatalf("node example shows no %s: %v", label, r)
			}
			if err := json.NewDecoder(strings.NewReader(rest)).Decode(v); err != nil {
				t.Fatalf("node example, %s: %v: %v", label, err, r)
			}
		}
		var p protocol.Protocol
		var shownTip node.NetworkTip
		var ins []tx.TxInput
		read("Protocol Parameters", &p)
		read("Tip", &shownTip)
		read("UTXOS", &ins)
		if uint64(p.TxFeePerByte) != l.p.PerByte || uint64(p.TxFeeFixed) != l.p.Fixed || uint64(p.MaxTxSize) != l.p.MaxTx || uint64(p.MinUTXOValue) != l.p.MinUTXO || p.ProtocolVersion.Major != 6 || p.ProtocolVersion.Minor != 2 {
			t.Fatalf("node example: parameters %+v are shown as %+v", l.p, p)
		}
		if shownTip != tip {
			t.Fatalf("node example: tip %+v is shown as %+v", tip, shownTip)
		}
		if len(ins) != len(us) {
			t.Fatalf("node example: %d outputs are shown as %d", len(us), len(ins))
		}
		for i, u := range us {
			if !bytes.Equal(ins[i].TxHash, u.hash) || ins[i].Index != u.ix || uint64(ins[i].Amount) != u.amount {
				t.Fatalf("node example: output %v is shown as %+v", u.json(), ins[i])
			}
		}
	})
}
