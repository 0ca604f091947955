package conc

import (
	"crypto/ed25519"
	"fmt"
	"runtime"
	"sync"
	"testing"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/crypto"
	"github.com/fivebinaries/go-cardano-serialization/fees"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/verif/am"
	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
	"github.com/fivebinaries/go-cardano-serialization/verif/kg"
	"github.com/fivebinaries/go-cardano-serialization/verif/txm"
	"pgregory.net/rapid"
)

// task is a computation whose inputs are only read.
type task struct {
	name string
	run  func() string
}

func catch(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("panic: %v", r)
		}
	}()
	return f()
}

// taskGen draws a task. Keys, addresses, inputs, outputs, key lists and
// metadata belong to the case and are shared, for reading, by all goroutines.
func taskGen(t *rapid.T, sh *shared) task {
	switch k := rapid.SampledFrom([]string{"derive", "sign", "hash", "entropy", "address", "decode", "build", "build", "verify", "seed"}).Draw(t, "task"); k {
	case "derive":
		path := rapid.SliceOfN(kg.Index(), 1, 4).Draw(t, "path")
		i := rapid.IntRange(0, len(sh.keys)-1).Draw(t, "key")
		return task{k, func() string {
			key := sh.keys[i]
			for _, p := range path {
				key = key.Derive(p)
			}
			return fmt.Sprintf("%x %x %x", key, key.Public(), key.ChainCode())
		}}
	case "sign":
		msg := hx.BytesLen(0, 200).Draw(t, "msg")
		i := rapid.IntRange(0, len(sh.keys)-1).Draw(t, "key")
		return task{k, func() string {
			key := sh.keys[i]
			sig := key.Sign(msg)
			pub := key.Public().PublicKey()
			return fmt.Sprintf("%x %x %v", sig, pub.Hash(), ed25519.Verify(ed25519.PublicKey(pub), msg, sig[:]))
		}}
	case "verify":
		msg := hx.BytesLen(0, 100).Draw(t, "msg")
		i := rapid.IntRange(0, len(sh.keys)-1).Draw(t, "key")
		return task{k, func() string {
			return fmt.Sprintf("%x %x", bip32.MakePublicKey(sh.keys[i]), crypto.Blake2b224(msg))
		}}
	case "hash":
		msg := hx.BytesLen(0, 300, 128).Draw(t, "msg")
		return task{k, func() string {
			h, err := crypto.TransactionHashFromBytes(sh.hash)
			kh, err2 := crypto.Ed25519KeyHashFromBytes(sh.hash[:28])
			return fmt.Sprintf("%x %x %x %v %x %v", crypto.Blake2b224(msg), crypto.Blake2b256(msg), h, err, kh, err2)
		}}
	case "entropy":
		ent := hx.BytesLen(16, 32).Draw(t, "entropy")
		return task{k, func() string { return fmt.Sprintf("%x", bip32.FromBip39Entropy(ent, nil)) }}
	case "seed":
		seed := hx.Bytes(32).Draw(t, "seed")
		return task{k, func() string {
			x, err := bip32.NewXPrv(seed)
			return fmt.Sprintf("%x %v", x, err)
		}}
	case "address":
		i := rapid.IntRange(0, len(sh.addrs)-1).Draw(t, "address")
		return task{k, func() string {
			a := sh.addrs[i]
			s := fmt.Sprintf("%x %s", a.Bytes(), a)
			if n := a.NetworkInfo(); n != nil {
				s += fmt.Sprintf(" %v", *n)
			}
			if b, ok := a.(*address.BaseAddress); ok {
				s += fmt.Sprintf(" %s %s", b.ToEnterprise(), b.ToReward())
			}
			return s
		}}
	case "decode":
		i := rapid.IntRange(0, len(sh.addrs)-1).Draw(t, "address")
		damage := rapid.IntRange(0, 3).Draw(t, "damage") == 0
		raw := append([]byte{}, sh.models[i].Bytes()...)
		text := sh.models[i].Text()
		if damage {
			raw = raw[:len(raw)-1]
			text = text[:len(text)-1]
		}
		return task{k, func() string {
			a, err := address.NewAddressFromBytes(raw)
			b, err2 := address.NewAddress(text)
			s := ""
			if err == nil {
				s += fmt.Sprintf("%x", a.Bytes())
			}
			if err2 == nil {
				s += " " + b.String()
			}
			return fmt.Sprintf("%s %v %v", s, err == nil, err2 == nil)
		}}
	default:
		p := protocol.Protocol{TxFeePerByte: uint(rapid.IntRange(0, 100).Draw(t, "a")), TxFeeFixed: 155381}
		ttl := txm.TTL().Draw(t, "ttl")
		withMeta := rapid.Bool().Draw(t, "withMeta")
		nk := rapid.IntRange(0, len(sh.keys)).Draw(t, "nkeys")
		late := rapid.IntRange(0, len(sh.keys)-1).Draw(t, "late")
		change := rapid.IntRange(0, len(sh.addrs)-1).Draw(t, "change")
		return task{"build", func() string {
			b := tx.NewTxBuilder(p, sh.keys[:nk])
			b.AddInputs(sh.ins...)
			b.AddOutputs(sh.outs...)
			b.SetTTL(ttl)
			if withMeta {
				b.Tx().Metadata = sh.meta
			}
			mf := b.MinFee()
			b.AddChangeIfNeeded(sh.addrs[change])
			b.Sign(sh.keys[late])
			x, err := b.Build()
			if err != nil {
				return err.Error()
			}
			raw, err := x.Bytes()
			h, err2 := x.Hash()
			f, err3 := x.Fee(fees.NewLinearFee(44, 1))
			return fmt.Sprintf("%d %x %x %d %v %v %v", mf, raw, h, f, err, err2, err3)
		}}
	}
}

type shared struct {
	keys   []bip32.XPrv
	addrs  []address.Address
	models []am.Addr
	ins    []*tx.TxInput
	outs   []*tx.TxOutput
	meta   interface{}
	hash   []byte
}

func TestC30(t *testing.T) {
	h := hx.Start(t, "C30", "batches of 2-6 tasks (derivation, signing, hashing, address coding, transaction building) computed by 8 goroutines at once, each in its own order and several times over, then alone, on inputs shared for reading; built with the race detector; then processes whose first use of the library is concurrent. Non-trivial: at least two tasks")
	h.Check("concurrent", 60, func(t *rapid.T, c *hx.C) {
		sh := &shared{hash: hx.Bytes(32).Draw(t, "hash")}
		kl := make([]bip32.XPrv, 0, 8) // spare capacity, as a program's own list may have
		for i := rapid.IntRange(1, 3).Draw(t, "keys"); i > 0; i-- {
			kl = append(kl, bip32.XPrv(kg.Key().Draw(t, "key")))
		}
		sh.keys = kl
		for i := rapid.IntRange(1, 3).Draw(t, "addrs"); i > 0; i-- {
			m := am.Payable().Draw(t, "address")
			a, err := m.Build()
			if err != nil {
				t.Fatalf("address %s: %v", m.Key(), err)
			}
			sh.addrs, sh.models = append(sh.addrs, a), append(sh.models, m)
		}
		for _, in := range txm.ManyIn(t, rapid.IntRange(1, 4).Draw(t, "ins"), 1<<50) {
			sh.ins = append(sh.ins, in.Build())
		}
		for _, o := range txm.ManyOut(t, rapid.IntRange(0, 3).Draw(t, "outs"), 1<<40) {
			sh.outs = append(sh.outs, o.Build())
		}
		sh.meta = txm.MetaGen().Draw(t, "meta").Go()
		var tasks []task
		var want []string
		names := []string{}
		for i := rapid.IntRange(1, 6).Draw(t, "tasks"); i > 0; i-- {
			k := taskGen(t, sh)
			tasks = append(tasks, k)
			names = append(names, k.name)
		}
		// together first: what is computed alone may then be a leftover of it,
		// but not the other way round
		c.Nontrivial(len(tasks) >= 2)
		const workers, rounds = 8, 2
		got := make([][]string, workers) // per worker: results in the order of its turns
		turn := func(w, r, i int) int { return (i + w*(r+1)) % len(tasks) }
		var wg sync.WaitGroup
		start := make(chan struct{})
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				<-start
				for r := 0; r < rounds; r++ {
					for i := range tasks {
						got[w] = append(got[w], catch(tasks[turn(w, r, i)].run))
						if w%3 == 0 {
							runtime.Gosched()
						}
					}
				}
			}(w)
		}
		close(start)
		wg.Wait()
		for _, k := range tasks {
			want = append(want, catch(k.run))
		}
		c.Key("%v %x", names, want)
		for w := range got {
			for n, g := range got[w] {
				if j := turn(w, n/len(tasks), n%len(tasks)); g != want[j] {
					t.Fatalf("goroutine %d of %d, tasks %v: %s gives\n%s, alone it gives\n%s", w, workers, names, tasks[j].name, g, want[j])
				}
			}
		}
	})
	h.Check("hot loop", 16, func(t *rapid.T, c *hx.C) {
		// one operation, many values, no pauses: buffers shared by mistake collide
		op := rapid.SampledFrom(ops).Draw(t, "op")
		seed := rapid.Uint64().Draw(t, "seed")
		c.Key("%s %d", op, seed)
		c.Nontrivial(true)
		if err := together(op, seed, 25); err != nil {
			t.Fatal(err)
		}
	})
	h.Each("every operation", false, func(rec func(*hx.C)) error {
		for i, op := range ops {
			c := &hx.C{}
			c.Key("%s", op)
			c.Nontrivial(true)
			rec(c)
			if err := together(op, uint64(i)<<20+99, 25); err != nil {
				return err
			}
		}
		return nil
	})
	cold(h)
}
