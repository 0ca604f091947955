package conc

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/crypto"
	"github.com/fivebinaries/go-cardano-serialization/crypto/edwards25519"
	"github.com/fivebinaries/go-cardano-serialization/fees"
	"github.com/fivebinaries/go-cardano-serialization/internal/bech32"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/verif/am"
	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
	"pgregory.net/rapid"
)

var ops = []string{"hash", "sign", "public", "derive", "seed", "entropy", "text", "bytes", "damaged", "byron", "pointer", "convert", "bech32", "build", "metadata", "minimum fee", "load", "hashes", "numbers", "points", "alike"}

// perform is one operation on values of its own.
func perform(op string, seed uint64, w, i int) []byte {
	b := hx.Expand(seed+uint64(w)<<32+uint64(i), 96)
	b[0] &= 0xf8
	b[31] = b[31]&0x1f | 0x40
	net := network.TestNet()
	if w%2 == 0 {
		net = network.MainNet()
	}
	pay, stake := address.NewKeyStakeCredential(b[1:29]), address.NewScriptStakeCredential(b[40:68])
	base := address.NewBaseAddress(net, pay, stake)
	show := func(a address.Address, err error) []byte {
		if err != nil {
			return []byte("error")
		}
		return []byte(fmt.Sprintf("%x %s %v", a.Bytes(), a, *a.NetworkInfo()))
	}
	key := bip32.XPrv(b)
	switch op {
	case "hash":
		h1, h2 := crypto.Blake2b224(b), crypto.Blake2b256(b)
		return append(h1[:], h2[:]...)
	case "sign":
		s := key.Sign(b[:40])
		return s[:]
	case "public":
		p := key.Public()
		h := p.PublicKey().Hash()
		return append(append([]byte{}, p...), h[:]...)
	case "derive":
		return key.Derive(uint32(i)).Derive(1<<31 + uint32(w))
	case "seed":
		k, err := bip32.NewXPrv(b[:32])
		return append(k, fmt.Sprint(err)...)
	case "entropy":
		if i > 1 {
			return nil
		}
		return bip32.FromBip39Entropy(b[:16], b[16:20])
	case "text":
		return show(address.NewAddress(base.String()))
	case "bytes":
		return show(address.NewAddressFromBytes(base.Bytes()))
	case "damaged":
		s := base.String()
		a1, err := address.NewAddress(s[:len(s)-1] + "q")
		a2, err2 := address.NewAddressFromBytes(base.Bytes()[:20+i%40])
		return []byte(fmt.Sprint(a1 == nil, err != nil, a2 == nil, err2 != nil))
	case "byron":
		m := am.Addr{Kind: am.Byron, Root: b[:28], Payload: b[28 : 30+i%20]}
		a, err := address.NewAddressFromBytes(m.Bytes())
		if err != nil {
			return []byte("error")
		}
		return show(address.NewAddress(a.String()))
	case "pointer":
		a := address.NewPointerAddress(*net, *pay, *address.NewPointer(seed>>20, uint64(i)<<7, uint64(w)))
		return show(address.NewAddress(a.String()))
	case "convert":
		return append(show(base.ToEnterprise(), nil), show(base.ToReward(), nil)...)
	case "bech32":
		s, err := bech32.Encode("test", b)
		hrp, d, err2 := bech32.Decode(s)
		return []byte(fmt.Sprint(s, err, hrp, d, err2))
	}
	switch op {
	case "load": // protocol parameters from a file of the goroutine's own
		fp := filepath.Join(os.TempDir(), fmt.Sprintf("params-%d-%d-%d-%d.json", os.Getpid(), seed, w, i))
		hx.Must(os.WriteFile(fp, []byte(fmt.Sprintf(`{"txFeePerByte": %d, "txFeeFixed": %d, "maxTxSize": %d, "protocolVersion": {"major": %d, "minor": %d}}`, seed>>30, w, i, w, i%7)), 0o600))
		defer os.Remove(fp)
		p, err := protocol.LoadProtocol(fp)
		if err != nil {
			return []byte(err.Error())
		}
		return []byte(fmt.Sprintf("%+v", *p))
	case "hashes":
		a, err1 := crypto.Ed25519KeyHashFromBytes(b[:28])
		s, err2 := crypto.ScriptHashFromBytes(b[20:48])
		h, err3 := crypto.TransactionHashFromBytes(b[:32])
		m, err4 := crypto.MetadataHashFromBytes(b[10:42])
		k, err5 := crypto.BlockHashFromBytes(b[:31])
		return []byte(fmt.Sprintf("%x %x %x %x %x %v %v %v %v %v", a, s, h, m, k, err1 != nil, err2 != nil, err3 != nil, err4 != nil, err5 != nil))
	case "numbers":
		e := address.VariableNatEncode(seed<<uint(w) + uint64(i))
		n, l, err := address.VariableNatDecode(e)
		n2, l2, err2 := address.VariableNatDecode(b[:i%12])
		return []byte(fmt.Sprint(e, n, l, err, n2, l2, err2 != nil))
	case "points":
		var g edwards25519.ExtendedGroupElement
		var r edwards25519.ProjectiveGroupElement
		var sc, out, enc [32]byte
		copy(sc[:], b)
		edwards25519.GeScalarMultBase(&g, &sc)
		g.ToBytes(&enc)
		var back edwards25519.ExtendedGroupElement
		ok := back.FromBytes(&enc)
		var one [32]byte
		copy(one[:], b[40:70])
		edwards25519.GeDoubleScalarMultVartime(&r, &one, &back, &sc)
		r.ToBytes(&out)
		return []byte(fmt.Sprintf("%x %v %x %v", enc, ok, out, edwards25519.ScMinimal(&sc)))
	case "alike": // the same values by all goroutines
		c := hx.Expand(seed+uint64(i%3), 96)
		c[0] &= 0xf8
		c[31] = c[31]&0x1f | 0x40
		k := bip32.XPrv(c)
		a := address.NewEnterpriseAddress(network.MainNet(), address.NewKeyStakeCredential(c[:28]))
		s := k.Sign(c[:9])
		return append(append([]byte(a.String()), s[:]...), k.Derive(7).Public()...)
	}
	bl := tx.NewTxBuilder(protocol.Protocol{TxFeePerByte: 44, TxFeeFixed: 155381}, []bip32.XPrv{key})
	bl.AddInputs(tx.NewTxInput(fmt.Sprintf("%x", b[:32]), uint16(i), 10_000_000))
	if op == "metadata" {
		bl.Tx().Metadata = map[uint64]interface{}{uint64(i): "text", 7: []interface{}{uint64(w), b[:20]}}
	}
	if op == "minimum fee" {
		bl.AddOutputs(tx.NewTxOutput(base, 1_000_000))
		return []byte(fmt.Sprint(bl.MinFee()))
	}
	bl.AddChangeIfNeeded(base)
	x, err := bl.Build()
	if err != nil {
		return []byte(err.Error())
	}
	r, _ := x.Bytes()
	h, _ := x.Hash()
	f, _ := x.Fee(fees.NewLinearFee(44, 1))
	return append(append(r, h[:]...), fmt.Sprint(f)...)
}

// together performs op by 8 goroutines on values of their own, then alone.
func together(op string, seed uint64, per int) error {
	const workers = 8
	var got [workers][][]byte
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			<-start
			for i := 0; i < per; i++ {
				catch(func() string { got[w] = append(got[w], perform(op, seed, w, i)); return "" })
			}
		}(w)
	}
	close(start)
	wg.Wait()
	for w := range got {
		if len(got[w]) != per {
			return fmt.Errorf("%s panics", op)
		}
		for i, g := range got[w] {
			if want := perform(op, seed, w, i); !bytes.Equal(g, want) {
				return fmt.Errorf("%s gives %x, alone it gives %x", op, g, want)
			}
		}
	}
	return nil
}

func TestMain(m *testing.M) {
	if op := os.Getenv("VERIF_COLD"); op != "" {
		seed, _ := strconv.ParseUint(os.Getenv("VERIF_COLD_SEED"), 10, 64)
		if err := together(op, seed, 3); err != nil {
			fmt.Println("DIFFERENT", err)
			os.Exit(5)
		}
		os.Exit(0)
	}
	os.Exit(m.Run())
}

// cold runs processes in which the library's first use is concurrent, so that
// anything set up on first use is set up by several goroutines at once.
func cold(h *hx.H) {
	h.Check("first use", 40, func(t *rapid.T, c *hx.C) {
		op := rapid.SampledFrom(ops).Draw(t, "op")
		seed := rapid.Uint64Range(0, 1<<40).Draw(t, "seed")
		c.Key("%s %d", op, seed)
		c.Nontrivial(true)
		cmd := exec.Command(os.Args[0], "-test.run", "^$")
		cmd.Env = append(os.Environ(), "GORACE=atexit_sleep_ms=0", "VERIF_COLD="+op, fmt.Sprint("VERIF_COLD_SEED=", seed))
		out, err := cmd.CombinedOutput()
		if err == nil {
			return
		}
		if _, ok := err.(*exec.ExitError); !ok {
			hx.Must(err)
		}
		if s := string(out); strings.Contains(s, "DATA RACE") || strings.Contains(s, "DIFFERENT") || strings.Contains(s, "concurrent map") {
			t.Fatalf("first use of %q by 8 goroutines: %v\n%s", op, err, s)
		}
		hx.Must(fmt.Errorf("%v: %s", err, out))
	})
}
