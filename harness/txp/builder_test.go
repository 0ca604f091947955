package txp

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"testing"

	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/fees"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/verif/am"
	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
	"github.com/fivebinaries/go-cardano-serialization/verif/txm"
	"pgregory.net/rapid"
)

func exampleAddr(i int) am.Addr { return am.Payable().Example(i) }

func history(t *rapid.T, kinds []string, min, max int) []op {
	ops := rapid.SliceOfN(opGen(kinds), min, max).Draw(t, "history")
	// relate some operations to earlier ones: the same transaction spent from
	// again, the same address paid again or given the change, the same key, ...
	var ins []txm.In
	var addrs []am.Addr
	var keys []key
	var metas []*txm.Meta
	for i := range ops {
		o := &ops[i]
		related := rapid.IntRange(0, 3).Draw(t, "related") == 0
		pick := func(n int) int { return rapid.IntRange(0, n-1).Draw(t, "like") }
		switch {
		case !related:
		case o.kind == "ins" && len(ins) > 0:
			p := ins[pick(len(ins))]
			o.ins[0].Hash = p.Hash
			if rapid.Bool().Draw(t, "sameIndex") {
				o.ins[0].Index = p.Index
			}
		case o.kind == "outs" && len(addrs) > 0:
			o.outs[0].Addr = addrs[pick(len(addrs))]
		case o.kind == "change" && len(addrs) > 0:
			o.addr = addrs[pick(len(addrs))]
		case o.kind == "sign" && len(keys) > 0:
			o.key = keys[pick(len(keys))]
		case o.kind == "meta" && len(metas) > 0:
			o.meta = metas[pick(len(metas))]
		}
		switch o.kind {
		case "ins":
			ins = append(ins, o.ins...)
		case "outs":
			for _, x := range o.outs {
				addrs = append(addrs, x.Addr)
			}
		case "change":
			addrs = append(addrs, o.addr)
		case "sign":
			keys = append(keys, o.key)
		case "meta":
			metas = append(metas, o.meta)
		}
	}
	return ops
}

// changeAddr draws a change address, sometimes one that is already paid.
func changeAddr(t *rapid.T, m *txm.Model) am.Addr {
	if len(m.Outs) > 0 && rapid.IntRange(0, 2).Draw(t, "changeToPaid") == 0 {
		return m.Outs[rapid.IntRange(0, len(m.Outs)-1).Draw(t, "paid")].Addr
	}
	return am.Payable().Draw(t, "change")
}

func has(ops []op, kind string) bool {
	for _, o := range ops {
		if o.kind == kind {
			return true
		}
	}
	return false
}

// ---- C19 ----

func TestC19(t *testing.T) {
	h := hx.Start(t, "C19", "builder histories of up to 14 operations (inputs, outputs, time-to-live, fee, metadata, keys, change, edits in place, queries, builds); every build is decoded, its witnesses compared in order with the reference public keys and verified with the standard library's Ed25519 against the digest of the embedded body. Non-trivial: at least one witness in some build")
	h.Check("history", 2500, func(t *rapid.T, c *hx.C) {
		p := paramsGen().Draw(t, "params")
		ks := keysGen(3).Draw(t, "keys")
		kinds := append(append([]string{"build", "build", "build", "failed build", "sign"}, editKinds...), queryKinds...)
		kinds = append(kinds, placeKinds...)
		ops := history(t, kinds, 1, 14)
		c.Key("keys %d %s", len(ks), describe(ops))
		r := newRun(p, ks)
		builds, keyed := 0, false
		build := func(at string) {
			x, err := r.b.Build()
			if err != nil {
				t.Fatalf("build %s: %v", at, err)
			}
			if err := checkBuilt(&x, r.s); err != nil {
				t.Fatalf("build %s of history %s: %v", at, describe(ops), err)
			}
			builds++
			keyed = keyed || len(r.s.keys) > 0
		}
		for i, o := range ops {
			if o.kind == "build" {
				build(fmt.Sprintf("at step %d", i))
				continue
			}
			if err := r.apply(o); err != nil {
				t.Fatalf("step %d: %v", i, err)
			}
		}
		build("at the end")
		c.Nontrivial(keyed)
		c.Class("built more than once", builds > 1)
		c.Class("change added", has(ops, "change"))
		c.Class("more than 23 keys", len(r.s.keys) > 23)
	})
	rareHashes(h, 8, func(m *txm.Model, id []byte) error {
		r := load(standard, pool[:2], m)
		x, err := r.b.Build()
		if err != nil {
			return err
		}
		return checkBuilt(&x, r.s)
	})
	h.Check("minimum fee first", 600, func(t *rapid.T, c *hx.C) {
		// the common program: inputs, outputs, min fee or change, sign, build
		p := paramsGen().Draw(t, "params")
		ks := keysGen(4).Draw(t, "keys")
		late := keysGen(3).Draw(t, "late")
		m := fundedGen(p, len(ks)).Draw(t, "funded")
		r := load(p, ks, m)
		mode := rapid.IntRange(0, 2).Draw(t, "mode")
		if mode > 0 {
			r.b.MinFee()
		}
		if mode < 2 {
			if err := r.apply(op{kind: "change", addr: changeAddr(t, m)}); err != nil {
				t.Fatal(err)
			}
		}
		for _, k := range late {
			r.apply(op{kind: "sign", key: k})
		}
		c.Key("%s keys %d+%d mode %d", m.Key(), len(ks), len(late), mode)
		c.Nontrivial(len(ks)+len(late) > 0)
		for i := 0; i < 2; i++ {
			x, err := r.b.Build()
			if err != nil {
				t.Fatal(err)
			}
			if err := checkBuilt(&x, r.s); err != nil {
				t.Fatalf("build %d: %v", i+1, err)
			}
		}
	})
}

// load gives a new builder the model's content.
func load(p params, ks []key, m *txm.Model) *run {
	r := newRun(p, ks)
	r.s.m = m.Clone()
	for _, in := range m.Ins {
		r.b.AddInputs(in.Build())
	}
	for _, o := range m.Outs {
		r.b.AddOutputs(o.Build())
	}
	if m.TTL != 0 {
		r.b.SetTTL(m.TTL)
	}
	if m.Fee != 0 {
		r.b.Tx().SetFee(uint(m.Fee))
	}
	if m.Meta != nil {
		r.b.Tx().Metadata = m.Meta.Go()
	}
	return r
}

// fundedGen generates transactions whose excess of inputs over outputs is
// often close to what the fee needs, with or without a change output.
func fundedGen(p params, nkeys int) *rapid.Generator[*txm.Model] {
	return rapid.Custom(func(t *rapid.T) *txm.Model {
		m := &txm.Model{}
		nIn := 1 + txm.Count(t, "ins", 4, 299)
		nOut := txm.Count(t, "outs", 3, 256)
		max := uint64(1) << rapid.IntRange(16, 54).Draw(t, "magnitude")
		m.Outs = txm.ManyOut(t, nOut, max)
		m.Ins = txm.ManyIn(t, nIn, max)
		m.TTL = txm.TTL().Draw(t, "ttl")
		if rapid.IntRange(0, 2).Draw(t, "hasMeta") == 0 {
			m.Meta = txm.MetaGen().Draw(t, "meta")
		}
		_, out := sum(m)
		size := m.Size(max1(nkeys))
		lin := p.linear(size)
		var excess uint64
		switch rapid.IntRange(0, 6).Draw(t, "excess") {
		case 0: // around the fee of the transaction without change
			excess = offset(t, lin, int64(p.perByte), 24)
		case 1: // around the fee with a change output
			excess = offset(t, lin, int64(p.perByte), 120)
		case 2: // a change amount around an encoding edge
			excess = lin + uint64(p.perByte)*40 + rapid.SampledFrom([]uint64{0, 24, 256, 65536, 1 << 32}).Draw(t, "edge") + uint64(rapid.IntRange(0, 2000).Draw(t, "plus"))
		case 3:
			excess = hx.Uint64(1<<54).Draw(t, "any")
		case 4:
			excess = 0
		default:
			excess = lin + hx.Uint64(1<<54).Draw(t, "plus")
		}
		// spread the wanted total over the inputs
		total := out + excess
		if rapid.IntRange(0, 9).Draw(t, "short") == 0 && total > 0 {
			total -= 1 + hx.Uint64(total-1).Draw(t, "missing")
		}
		left := total
		for i := range m.Ins {
			if i == len(m.Ins)-1 {
				m.Ins[i].Amount = left
				break
			}
			if m.Ins[i].Amount > left {
				m.Ins[i].Amount = left
			}
			left -= m.Ins[i].Amount
		}
		return m
	})
}

func max1(n int) int {
	if n < 1 {
		return 1
	}
	return n
}

func offset(t *rapid.T, v uint64, unit int64, span int) uint64 {
	d := int64(rapid.IntRange(-8, span).Draw(t, "bytes"))*unit + int64(rapid.IntRange(-2, 2).Draw(t, "near"))
	if d < 0 && uint64(-d) > v {
		return 0
	}
	return v + uint64(d)
}

// changed performs AddChangeIfNeeded on a loaded builder and judges the
// result by value; it returns whether the transaction was covered and whether
// change was added.
func changed(r *run, addr am.Addr) (covered, added bool, err error) {
	before := r.s.m
	in, out := sum(before)
	var excess uint64
	n := max1(len(r.s.keys))
	if in >= out {
		excess = in - out
		m := before.Clone()
		m.Fee = excess
		covered = excess >= r.p.linear(m.Size(n))
	}
	r.b.AddChangeIfNeeded(addrOf(addr))
	body := r.b.Tx().Body
	if len(body.Inputs) != len(before.Ins) {
		return covered, false, fmt.Errorf("%d inputs became %d", len(before.Ins), len(body.Inputs))
	}
	for i, w := range before.Ins {
		g := body.Inputs[i]
		if !bytes.Equal(g.TxHash, w.Hash) || g.Index != w.Index || uint64(g.Amount) != w.Amount {
			return covered, false, fmt.Errorf("input %d became %x#%d %d, was %x#%d %d", i, g.TxHash, g.Index, g.Amount, w.Hash, w.Index, w.Amount)
		}
	}
	if len(body.Outputs) < len(before.Outs) || len(body.Outputs) > len(before.Outs)+1 {
		return covered, false, fmt.Errorf("%d outputs became %d", len(before.Outs), len(body.Outputs))
	}
	for i, w := range before.Outs {
		g := body.Outputs[i]
		if !bytes.Equal(g.Address.Bytes(), w.Addr.Bytes()) || uint64(g.Amount) != w.Amount {
			return covered, false, fmt.Errorf("output %d became %x %d, was %x %d", i, g.Address.Bytes(), g.Amount, w.Addr.Bytes(), w.Amount)
		}
	}
	if body.TTL != before.TTL {
		return covered, false, fmt.Errorf("time-to-live %d became %d", before.TTL, body.TTL)
	}
	added = len(body.Outputs) == len(before.Outs)+1
	after := before.Clone()
	after.Fee = body.Fee
	if added {
		g := body.Outputs[len(before.Outs)]
		after.Outs = append(after.Outs, txm.Out{Addr: addr, Amount: uint64(g.Amount)})
		if !bytes.Equal(g.Address.Bytes(), addr.Bytes()) {
			return covered, added, fmt.Errorf("change goes to %x, want %x", g.Address.Bytes(), addr.Bytes())
		}
		if g.Amount == 0 {
			return covered, added, fmt.Errorf("change output of 0")
		}
	}
	if !covered {
		if added {
			return covered, added, fmt.Errorf("inputs %d, outputs %d do not cover the fee, but an output of %d was added", in, out, body.Outputs[len(before.Outs)].Amount)
		}
		if after.Fee != before.Fee {
			return covered, added, fmt.Errorf("inputs %d, outputs %d do not cover the fee, but the fee was changed from %d to %d", in, out, before.Fee, after.Fee)
		}
		return covered, added, nil
	}
	r.s.m = after
	_, outAfter := sum(after)
	if in != outAfter+after.Fee {
		return covered, added, fmt.Errorf("inputs %d, outputs %d, fee %d: off by %d (outputs before %d)", in, outAfter, after.Fee, int64(in-outAfter-after.Fee), out)
	}
	return covered, added, nil
}

// ---- C20 ----

func TestC20(t *testing.T) {
	h := hx.Start(t, "C20", "transactions with excess funds around the fee boundaries (with and without change), around encoding edges, far above, zero and negative, 0-25 keys, metadata, many inputs; sums in exact arithmetic. Non-trivial: inputs cover outputs and the fee")
	h.Check("conservation", 6000, func(t *rapid.T, c *hx.C) {
		p := paramsGen().Draw(t, "params")
		ks := keysGen(4).Draw(t, "keys")
		m := fundedGen(p, len(ks)).Draw(t, "funded")
		if rapid.IntRange(0, 3).Draw(t, "hasFee") == 0 {
			m.Fee = hx.Uint64(1<<62).Draw(t, "oldFee")
		}
		addr := changeAddr(t, m)
		c.Key("%v %s keys %d to %s", p, m.Key(), len(ks), addr.Key())
		r := load(p, ks, m)
		if rapid.IntRange(0, 3).Draw(t, "builtBefore") == 0 {
			r.b.Build()
		}
		if rapid.IntRange(0, 3).Draw(t, "asked") == 0 {
			r.b.MinFee()
		}
		before := r.s.m
		covered, added, err := changed(r, addr)
		if err != nil {
			t.Fatalf("%s, params %v, %d keys: %v", m.Key(), p, len(ks), err)
		}
		in, out := sum(before)
		c.Nontrivial(covered)
		c.Class("covered, change added", covered && added)
		c.Class("covered, no change", covered && !added)
		c.Class("not covered", !covered)
		c.Class("inputs below outputs", in < out)
		if covered && !added {
			if err := tooLittle(p, before, addr, len(ks)); err != nil {
				t.Fatalf("%s, params %v: %v", m.Key(), p, err)
			}
		}
		if rapid.Bool().Draw(t, "build") {
			x, err := r.b.Build()
			if err != nil {
				t.Fatalf("build: %v", err)
			}
			if err := checkBuilt(&x, r.s); err != nil {
				t.Fatal(err)
			}
			if d := rapid.IntRange(0, 1).Draw(t, "again"); d == 1 && covered {
				// adding change once more moves no value
				i1, _ := sum(r.s.m)
				_, _, err := changed(r, addr)
				if err != nil {
					// a second call may fail its own cover test only because the whole excess is now the fee
					t.Fatalf("adding change again: %v", err)
				}
				if i2, _ := sum(r.s.m); i1 != i2 {
					t.Fatalf("inputs changed from %d to %d", i1, i2)
				}
			}
		}
	})
	checkHuge(h)
	h.Check("history", 1200, func(t *rapid.T, c *hx.C) {
		changes(t, c, func(r *run, before *txm.Model, addr am.Addr, covered, added bool) error {
			if covered && !added {
				return tooLittle(r.p, before, addr, len(r.s.keys))
			}
			return nil
		})
	})
}

// tooLittle checks that what was kept as fee is too little for a change output.
func tooLittle(p params, before *txm.Model, addr am.Addr, nkeys int) error {
	in, out := sum(before)
	m := before.Clone()
	m.Fee = in - out
	m.Outs = append(m.Outs, txm.Out{Addr: addr, Amount: in - out})
	if limit := p.linear(m.Size(max1(nkeys))); in-out > limit {
		return fmt.Errorf("excess %d all became fee, although a change output needs a fee of at most %d", in-out, limit)
	}
	return nil
}

// changes runs a builder history in which change is added several times; each
// time is judged on its own, then by the given function.
func changes(t *rapid.T, c *hx.C, judge func(r *run, before *txm.Model, addr am.Addr, covered, added bool) error) {
	p := paramsGen().Draw(t, "params")
	ks := keysGen(3).Draw(t, "keys")
	kinds := append(append([]string{"change", "change", "change", "fund", "fund", "build", "failed build"}, editKinds...), queryKinds...)
	kinds = append(kinds, placeKinds...)
	ops := history(t, kinds, 2, 14)
	c.Key("%v keys %d %s", p, len(ks), describe(ops))
	r := newRun(p, ks)
	at, calls, coveredCalls := -1, 0, 0
	distinct := func() { // the value of an input given twice is not judged
		seen := map[string]bool{}
		for i, in := range r.s.m.Ins {
			for k := fmt.Sprintf("%x#%d", in.Hash, in.Index); seen[k]; k = fmt.Sprintf("%x#%d", in.Hash, in.Index) {
				in.Index++
				r.s.m.Ins[i].Index = in.Index
				r.b.Tx().Body.Inputs[i].Index = in.Index
			}
			seen[fmt.Sprintf("%x#%d", in.Hash, in.Index)] = true
		}
	}
	change := func(addr am.Addr) {
		distinct()
		before := r.s.m.Clone()
		covered, added, err := changed(r, addr)
		if err == nil {
			err = judge(r, before, addr, covered, added)
		}
		if err != nil {
			t.Fatalf("params %v, %d keys, change %d at step %d of %s: %v", p, len(r.s.keys), calls+1, at, describe(ops), err)
		}
		calls++
		if covered {
			coveredCalls++
		}
	}
	fund := func() {
		if len(r.s.m.Ins) > 290 {
			return
		}
		in := txm.ManyIn(t, 1, 1<<40)
		m := r.s.m.Clone()
		m.Ins = append(m.Ins, in...)
		lin := p.linear(m.Size(max1(len(r.s.keys))))
		total, out := sum(m)
		total -= in[0].Amount
		want := out + offset(t, lin, int64(p.perByte), rapid.SampledFrom([]int{8, 120, 4000}).Draw(t, "span"))
		if want > total {
			in[0].Amount = want - total
		}
		r.apply(op{kind: "ins", ins: in})
	}
	for i, o := range ops {
		at = i
		switch o.kind {
		case "change":
			change(o.addr)
		case "fund":
			fund()
		default:
			if err := r.apply(o); err != nil {
				t.Fatalf("step %d: %v", i, err)
			}
		}
	}
	at++
	fund()
	change(changeAddr(t, r.s.m))
	c.Nontrivial(coveredCalls > 1)
	c.Class("change added more than once", calls > 1)
	c.Class("covered", coveredCalls > 0)
}

// huge adds amounts up whose sum may exceed 64 bits.
func huge(m *txm.Model) (in, out *big.Int) {
	in, out = new(big.Int), new(big.Int)
	for _, i := range m.Ins {
		in.Add(in, new(big.Int).SetUint64(i.Amount))
	}
	for _, o := range m.Outs {
		out.Add(out, new(big.Int).SetUint64(o.Amount))
	}
	return
}

func checkHuge(h *hx.H) {
	h.Check("amounts beyond 64 bits", 1000, func(t *rapid.T, c *hx.C) {
		p := paramsGen().Draw(t, "params")
		m := &txm.Model{}
		m.Ins = txm.ManyIn(t, rapid.IntRange(1, 4).Draw(t, "ins"), 1<<62)
		m.Outs = txm.ManyOut(t, rapid.IntRange(0, 4).Draw(t, "outs"), 1<<62)
		amount := func(label string) uint64 {
			return hx.Uint64(^uint64(0)).Draw(t, label) | uint64(rapid.IntRange(0, 3).Draw(t, label+"Top"))<<62
		}
		for i := range m.Ins {
			m.Ins[i].Amount = amount("in")
		}
		for i := range m.Outs {
			m.Outs[i].Amount = amount("out")
		}
		if n := len(m.Outs); n > 1 && rapid.Bool().Draw(t, "wrap") {
			// outputs that add up to a little when the sum wraps around
			m.Outs[n-1].Amount = 0
			_, o := sum(m)
			m.Outs[n-1].Amount = uint64(rapid.IntRange(0, 1000000).Draw(t, "little")) - o
		}
		addr := changeAddr(t, m)
		in, out := huge(m)
		c.Key("%v %s to %s", p, m.Key(), addr.Key())
		c.Nontrivial(!in.IsUint64() || !out.IsUint64())
		c.Class("only the outputs exceed 64 bits", in.IsUint64() && !out.IsUint64())
		c.Class("only the inputs exceed 64 bits", !in.IsUint64() && out.IsUint64())
		r := load(p, nil, m)
		r.b.AddChangeIfNeeded(addrOf(addr))
		body := r.b.Tx().Body
		after := m.Clone()
		after.Fee = body.Fee
		for i, o := range body.Outputs {
			if i >= len(m.Outs) {
				after.Outs = append(after.Outs, txm.Out{Addr: addr, Amount: uint64(o.Amount)})
			} else if !bytes.Equal(o.Address.Bytes(), m.Outs[i].Addr.Bytes()) || uint64(o.Amount) != m.Outs[i].Amount {
				t.Fatalf("%s: output %d became %x %d", m.Key(), i, o.Address.Bytes(), o.Amount)
			}
		}
		if len(body.Inputs) != len(m.Ins) || len(body.Outputs) < len(m.Outs) || len(body.Outputs) > len(m.Outs)+1 {
			t.Fatalf("%s: now %d inputs and %d outputs", m.Key(), len(body.Inputs), len(body.Outputs))
		}
		added := len(after.Outs) > len(m.Outs)
		c.Class("change added", added)
		in2, out2 := huge(after)
		if conserved := in2.Cmp(out2.Add(out2, new(big.Int).SetUint64(after.Fee))) == 0; added && !conserved {
			t.Fatalf("%s: inputs %v, but outputs with change of %d and fee %d come to %v", m.Key(), in, body.Outputs[len(m.Outs)].Amount, after.Fee, out2)
		}
	})
}

// ---- C21 ----

// sufficient adds change to a transaction, builds it and compares its fee with
// the linear minimum of its bytes.
func sufficient(t *rapid.T, c *hx.C, p params, ks []key, m *txm.Model, addr am.Addr) {
	c.Key("%v %s keys %d to %s", p, m.Key(), len(ks), addr.Key())
	var r *run
	// keys given at construction or added before the change
	at := len(ks)
	if rapid.Bool().Draw(t, "signEarly") {
		at = rapid.IntRange(0, len(ks)).Draw(t, "at")
	}
	r = load(p, ks[:at], m)
	if rapid.IntRange(0, 3).Draw(t, "builtBefore") == 0 {
		r.b.Build()
	}
	for _, k := range ks[at:] {
		r.apply(op{kind: "sign", key: k})
	}
	covered, added, err := changed(r, addr)
	if err != nil {
		t.Fatalf("%v", err)
	}
	c.Nontrivial(covered)
	c.Class("covered, change added", covered && added)
	c.Class("covered, no change", covered && !added)
	c.Class("several keys", len(ks) > 1)
	if !covered {
		return
	}
	if len(ks) == 0 {
		k := keyGen().Draw(t, "lateKey")
		r.apply(op{kind: "sign", key: k})
		c.Class("key given afterwards", true)
	}
	x, err := r.b.Build()
	if err != nil {
		t.Fatal(err)
	}
	raw, err := x.Bytes()
	if err != nil {
		t.Fatal(err)
	}
	v, err := txm.Decode(raw)
	if err != nil {
		t.Fatal(err)
	}
	min := p.linear(len(raw))
	if v.Fee < min {
		t.Fatalf("fee %d of the final transaction of %d bytes is below the minimum %d (params %v, %d keys, change %v): %s", v.Fee, len(raw), min, p, len(ks), added, m.Key())
	}
	if added && v.Fee > min+16*uint64(p.perByte) {
		t.Fatalf("fee %d of the final transaction of %d bytes exceeds the minimum %d by more than 16 bytes (params %v, %d keys): %s", v.Fee, len(raw), min, p, len(ks), m.Key())
	}
}

func TestC21(t *testing.T) {
	h := hx.Start(t, "C21", "as C20, then signed and built; the linear minimum of the final bytes is compared with the fee. Non-trivial: covered transaction")
	h.Check("change", 4000, func(t *rapid.T, c *hx.C) {
		p := paramsGen().Draw(t, "params")
		ks := keysGen(5).Draw(t, "keys")
		m := fundedGen(p, len(ks)).Draw(t, "funded")
		addr := changeAddr(t, m)
		sufficient(t, c, p, ks, m, addr)
	})
	h.Check("history", 1000, func(t *rapid.T, c *hx.C) {
		changes(t, c, func(r *run, before *txm.Model, addr am.Addr, covered, added bool) error {
			if !covered {
				return nil
			}
			if len(r.s.keys) == 0 {
				r.apply(op{kind: "sign", key: pool[2]})
			}
			x, err := r.b.Build()
			if err != nil {
				return err
			}
			raw, err := x.Bytes()
			if err != nil {
				return err
			}
			if min := r.p.linear(len(raw)); x.Body.Fee < min || added && x.Body.Fee > min+16*uint64(r.p.perByte) {
				return fmt.Errorf("fee %d of the final transaction of %d bytes, minimum %d (change %v)", x.Body.Fee, len(raw), min, added)
			}
			return nil
		})
	})
	h.Check("fee at an encoding edge", 1500, func(t *rapid.T, c *hx.C) {
		// the fee's own length decides whether the fee suffices
		p := params{perByte: rapid.SampledFrom([]uint{1, 2, 3, 10, 44, 100, 1000}).Draw(t, "perByte")}
		ks := keysGen(3).Draw(t, "keys")
		m := fundedGen(p, len(ks)).Draw(t, "funded")
		addr := changeAddr(t, m)
		edge := rapid.SampledFrom([]uint64{24, 256, 65536, 1 << 32}).Draw(t, "edge")
		m2 := m.Clone()
		m2.Fee = edge - 1
		m2.Outs = append(m2.Outs, txm.Out{Addr: addr, Amount: rapid.SampledFrom([]uint64{1, 1000, 1 << 20, 1 << 40}).Draw(t, "changeAmount")})
		price := p.linear(m2.Size(max1(len(ks))))
		for price >= edge {
			if edge == 1<<32 {
				t.Skip()
			}
			edge *= edge
			if edge == 24*24 {
				edge = 256
			}
			m2.Fee = edge - 1
			price = p.linear(m2.Size(max1(len(ks))))
		}
		p.fixed = uint(edge - price)
		if d := rapid.IntRange(-8*int(p.perByte)-2, 8*int(p.perByte)+2).Draw(t, "off"); d > 0 || uint(-d) <= p.fixed {
			p.fixed += uint(d)
		}
		// funds for the fee and the change
		for i := range m.Ins {
			m.Ins[i].Amount = 0
		}
		_, out := sum(m)
		m.Ins[0].Amount = out + edge + uint64(rapid.IntRange(-20, 20).Draw(t, "near"))*uint64(p.perByte)
		if rapid.IntRange(0, 3).Draw(t, "ample") > 0 {
			m.Ins[0].Amount += m2.Outs[len(m2.Outs)-1].Amount + uint64(p.perByte)*20
		}
		c.Class(fmt.Sprintf("edge %d", edge), true)
		sufficient(t, c, p, ks, m, addr)
	})
	h.Check("large", 40, func(t *rapid.T, c *hx.C) {
		p := paramsGen().Draw(t, "params")
		ks := keysGen(3).Draw(t, "keys")
		m := txm.LargeGen(1<<40).Draw(t, "tx")
		if len(m.Ins) == 0 {
			m.Ins = txm.ManyIn(t, 1, 1<<40)
		}
		m.Fee = 0
		_, out := sum(m)
		m.Ins[0].Amount = 0
		in, _ := sum(m)
		if want := out + offset(t, p.linear(m.Size(max1(len(ks)))), int64(p.perByte), 4000); want > in {
			m.Ins[0].Amount = want - in
		}
		addr := changeAddr(t, m)
		c.Key("%v %s keys %d to %s", p, m.Key(), len(ks), addr.Key())
		r := load(p, ks, m)
		covered, added, err := changed(r, addr)
		if err != nil {
			t.Fatalf("%v", err)
		}
		c.Nontrivial(covered)
		if !covered {
			return
		}
		if len(ks) == 0 {
			r.b.Sign(pool[0].xprv())
		}
		x, err := r.b.Build()
		if err != nil {
			t.Fatal(err)
		}
		raw, err := x.Bytes()
		if err != nil {
			t.Fatal(err)
		}
		c.Class("64 KiB or more", len(raw) >= 1<<16)
		fee, min := x.Body.Fee, p.linear(len(raw))
		if fee < min || added && fee > min+16*uint64(p.perByte) {
			t.Fatalf("fee %d of the final transaction of %d bytes, minimum %d (params %v, %d keys, change %v)", fee, len(raw), min, p, len(ks), added)
		}
	})
	h.Check("minimum fee", 4000, func(t *rapid.T, c *hx.C) {
		p := paramsGen().Draw(t, "params")
		ks := keysGen(5).Draw(t, "keys")
		m := fundedGen(p, len(ks)).Draw(t, "funded")
		if rapid.IntRange(0, 3).Draw(t, "hasFee") == 0 {
			m.Fee = hx.Uint64(1<<62).Draw(t, "oldFee")
		}
		in, out := sum(m)
		c.Key("%v %s keys %d", p, m.Key(), len(ks))
		c.Nontrivial(true)
		c.Class("balanced", in == out)
		r := load(p, ks, m)
		if rapid.IntRange(0, 3).Draw(t, "builtBefore") == 0 {
			r.b.Build()
		}
		fee := uint64(r.b.MinFee())
		r.b.Tx().SetFee(uint(fee))
		// room for a change output and, with no key given yet, a witness
		slack := uint64(100)
		if len(ks) == 0 {
			slack = 220
		}
		if len(ks) == 0 && rapid.Bool().Draw(t, "lateKey") {
			r.b.Sign(pool[1].xprv())
			slack = 100
		}
		x, err := r.b.Build()
		if err != nil {
			t.Fatal(err)
		}
		raw, err := x.Bytes()
		if err != nil {
			t.Fatal(err)
		}
		if min := p.linear(len(raw)); fee < min || fee > min+slack*uint64(p.perByte) {
			t.Fatalf("minimum fee %d, but the transaction with that fee has %d bytes and needs %d (params %v, %d keys): %s", fee, len(raw), min, p, len(ks), m.Key())
		}
	})
}

// ---- C22 ----

type snapshot struct {
	fields string
	metaS  string
}

func snap(x *tx.Tx) snapshot {
	s := fmt.Sprintf("fee %d ttl %d valid %v wits %d;", x.Body.Fee, x.Body.TTL, x.Valid, len(x.Witness.Keys))
	for _, in := range x.Body.Inputs {
		s += fmt.Sprintf(" %x#%d %d", in.TxHash, in.Index, in.Amount)
	}
	for _, o := range x.Body.Outputs {
		s += fmt.Sprintf(" >%x %d", o.Address.Bytes(), o.Amount)
	}
	for _, w := range x.Witness.Keys {
		s += fmt.Sprintf(" w%x %x", w.VKey, w.Signature)
	}
	return snapshot{s, fmt.Sprintf("%#v", x.Metadata)}
}

func TestC22(t *testing.T) {
	h := hx.Start(t, "C22", "the same editing history with and without queries inserted leads to the same built bytes, and each query leaves every field as it was; slices handed to the builder, with spare capacity, keep their contents. Non-trivial: at least two queries between edits")
	h.Check("queries", 2500, func(t *rapid.T, c *hx.C) {
		p := paramsGen().Draw(t, "params")
		ks := keysGen(3).Draw(t, "keys")
		ops := history(t, append(append(append([]string{"build", "failed build"}, editKinds...), queryKinds...), queryKinds...), 1, 16)
		c.Key("keys %d %s", len(ks), describe(ops))
		nq := 0
		with, without := newRun(p, ks), newRun(p, ks)
		isQ := map[string]bool{}
		for _, q := range queryKinds {
			isQ[q] = true
		}
		for i, o := range ops {
			if isQ[o.kind] {
				nq++
				before := snap(with.b.Tx())
				if err := with.apply(o); err != nil {
					t.Fatalf("step %d %s: %v", i, o, err)
				}
				if after := snap(with.b.Tx()); after != before {
					t.Fatalf("%s at step %d of %s changed the transaction from\n%v to\n%v", o, i, describe(ops), before, after)
				}
				continue
			}
			if err := with.apply(o); err != nil {
				t.Fatalf("step %d %s: %v", i, o, err)
			}
			if err := without.apply(o); err != nil {
				t.Fatalf("step %d %s: %v", i, o, err)
			}
		}
		c.Nontrivial(nq >= 2)
		a, err := with.b.Build()
		if err != nil {
			t.Fatal(err)
		}
		b, err := without.b.Build()
		if err != nil {
			t.Fatal(err)
		}
		ab, err1 := a.Bytes()
		bb, err2 := b.Bytes()
		if err1 != nil || err2 != nil || !bytes.Equal(ab, bb) {
			t.Fatalf("history %s gives\n%x (%v), without its queries\n%x (%v)", describe(ops), ab, err1, bb, err2)
		}
	})
	h.Check("built", 800, func(t *rapid.T, c *hx.C) {
		// queries on a built transaction, the builder's one included
		ks := keysGen(3).Draw(t, "keys")
		m := fundedGen(standard, len(ks)).Draw(t, "funded")
		r := load(standard, ks, m)
		x, err := r.b.Build()
		if err != nil {
			t.Fatal(err)
		}
		qs := rapid.SliceOfN(rapid.SampledFrom(queryKinds), 1, 6).Draw(t, "queries")
		c.Key("%s keys %d %v", m.Key(), len(ks), qs)
		c.Nontrivial(len(qs) >= 2)
		s0, s1 := snap(&x), snap(r.b.Tx())
		for _, q := range qs {
			if err := r.apply(op{kind: q}); err != nil {
				t.Fatal(err)
			}
			x.Hash()
			x.Bytes()
			x.Fee(fees.NewLinearFee(1, 2))
			if s := snap(&x); s != s0 {
				t.Fatalf("after %s the built transaction went from %v to %v", q, s0, s)
			}
			if s := snap(r.b.Tx()); s != s1 {
				t.Fatalf("%s changed the builder's transaction from %v to %v", q, s1, s)
			}
		}
	})
	h.Check("caller slices", 2000, func(t *rapid.T, c *hx.C) {
		ks := rapid.SliceOfN(keyGen(), 0, 4).Draw(t, "keys")
		spare := rapid.IntRange(0, 4).Draw(t, "spare")
		ops := history(t, append([]string{"sign", "sign", "build", "failed build"}, append(append([]string{}, editKinds...), queryKinds...)...), 1, 10)
		c.Key("keys %d spare %d %s", len(ks), spare, describe(ops))
		c.Nontrivial(spare > 0)
		kl := make([]bip32.XPrv, len(ks), len(ks)+spare)
		for i, k := range ks {
			kl[i] = k.xprv()
		}
		for i := len(ks); i < cap(kl); i++ {
			kl[:cap(kl)][i] = bip32.XPrv(hx.Expand(uint64(i), 96))
		}
		kcopy := fmt.Sprintf("%x", kl[:cap(kl)])
		nIn, nOut := rapid.IntRange(0, 3).Draw(t, "nIn"), rapid.IntRange(0, 3).Draw(t, "nOut")
		ins := make([]*tx.TxInput, 0, nIn+spare)
		insM := txm.ManyIn(t, nIn+spare, 1<<40)
		for _, in := range insM {
			ins = append(ins, in.Build())
		}
		outs := make([]*tx.TxOutput, 0, nOut+spare)
		outsM := txm.ManyOut(t, nOut+spare, 1<<30)
		for _, o := range outsM {
			outs = append(outs, o.Build())
		}
		inPtr := append([]*tx.TxInput(nil), ins...)
		outPtr := append([]*tx.TxOutput(nil), outs...)
		r := &run{tx.NewTxBuilder(standard.protocol(), kl), &state{&txm.Model{}, append([]key(nil), ks...)}, standard}
		r.b.AddInputs(ins[:nIn]...)
		r.b.AddOutputs(outs[:nOut]...)
		r.s.m.Ins = append(r.s.m.Ins, insM[:nIn]...)
		r.s.m.Outs = append(r.s.m.Outs, outsM[:nOut]...)
		for _, o := range ops {
			if err := r.apply(o); err != nil {
				t.Fatal(err)
			}
		}
		if got := fmt.Sprintf("%x", kl[:cap(kl)]); got != kcopy {
			t.Fatalf("%s: the caller's key slice went from\n%s to\n%s", describe(ops), kcopy, got)
		}
		for i := range ins {
			if ins[i] != inPtr[i] || ins[i].Index != insM[i].Index || !bytes.Equal(ins[i].TxHash, insM[i].Hash) || uint64(ins[i].Amount) != insM[i].Amount {
				t.Fatalf("%s: the caller's input %d changed", describe(ops), i)
			}
		}
		for i := range outs {
			if outs[i] != outPtr[i] || uint64(outs[i].Amount) != outsM[i].Amount || !bytes.Equal(outs[i].Address.Bytes(), outsM[i].Addr.Bytes()) {
				t.Fatalf("%s: the caller's output %d changed", describe(ops), i)
			}
		}
		// and the caller may reuse its slices
		for i := range kl {
			kl[i] = bip32.XPrv(hx.Expand(99, 96))
		}
		for i := range ins {
			ins[i] = tx.NewTxInput(hex.EncodeToString(make([]byte, 32)), 9, 9)
		}
		for i := range outs {
			outs[i] = nil
		}
		x, err := r.b.Build()
		if err != nil {
			t.Fatal(err)
		}
		if err := checkBuilt(&x, r.s); err != nil {
			t.Fatalf("after the caller reused its slices: %v", err)
		}
	})
}

// ---- C23 ----

func TestC23(t *testing.T) {
	h := hx.Start(t, "C23", "fee query against fixed + per-byte * length of the serialised bytes, in exact arithmetic, over transactions, witnesses, metadata and fee parameters. Non-trivial: per-byte fee not 0")
	h.Check("formula", 4000, func(t *rapid.T, c *hx.C) {
		m := txm.ModelGen(^uint64(0)).Draw(t, "tx")
		per := uint(hx.Uint64(1<<40).Draw(t, "perByte"))
		fixed := uint(hx.Uint64(1<<60).Draw(t, "fixed"))
		c.Key("%s %d %d", m.Key(), per, fixed)
		c.Nontrivial(per != 0)
		classify(c, m)
		x := m.Tx()
		var wits []*tx.VKeyWitness
		for i := txm.Count(t, "wits", 3, 25); i > 0; i-- {
			wits = append(wits, tx.NewVKeyWitness(make([]byte, 32), make([]byte, 64)))
		}
		x.Witness = tx.NewTXWitness(wits...)
		c.Class("witnesses", len(wits) > 0)
		x.Valid = rapid.IntRange(0, 7).Draw(t, "invalid") != 7
		c.Class("marked invalid", !x.Valid)
		lf := fees.NewLinearFee(per, fixed)
		if lf.TxFeePerByte != per || lf.TxFeeFixed != fixed {
			t.Fatalf("linear fee %v of %d per byte, %d fixed", lf, per, fixed)
		}
		got, err := x.Fee(lf)
		if err != nil {
			t.Fatal(err)
		}
		raw, err := x.Bytes()
		if err != nil {
			t.Fatal(err)
		}
		if want := uint64(fixed) + uint64(per)*uint64(len(raw)); uint64(got) != want {
			t.Fatalf("fee %d of %d bytes with %d + %d per byte, want %d", got, len(raw), fixed, per, want)
		}
		if n := m.Size(len(wits)); n != len(raw) {
			t.Fatalf("transaction has %d bytes, want %d: %x", len(raw), n, raw)
		}
		if lf.TxFeePerByte != per || lf.TxFeeFixed != fixed {
			t.Fatalf("the query changed the parameters to %v", lf)
		}
		// setting the fee stores it, and the formula follows its size
		nf := hx.Uint64(^uint64(0)).Draw(t, "newFee")
		x.SetFee(uint(nf))
		if x.Body.Fee != nf {
			t.Fatalf("fee set to %d is stored as %d", nf, x.Body.Fee)
		}
		raw2, err := x.Bytes()
		if err != nil {
			t.Fatal(err)
		}
		v, err := txm.DecodeAny(raw2)
		if err != nil || v.Fee != nf || v.Valid != x.Valid {
			t.Fatalf("fee set to %d in a transaction with flag %v is serialised as %+v (%v)", nf, x.Valid, v, err)
		}
		if got, err := x.Fee(lf); err != nil || uint64(got) != uint64(fixed)+uint64(per)*uint64(len(raw2)) {
			t.Fatalf("fee %d (%v) of %d bytes with %d + %d per byte", got, err, len(raw2), fixed, per)
		}
	})
	h.Check("large", 60, func(t *rapid.T, c *hx.C) {
		m := txm.LargeGen(^uint64(0)).Draw(t, "tx")
		per := uint(hx.Uint64(1<<40).Draw(t, "perByte"))
		fixed := uint(hx.Uint64(1<<60).Draw(t, "fixed"))
		c.Key("%s %d %d", m.Key(), per, fixed)
		c.Nontrivial(per != 0)
		x := m.Tx()
		got, err := x.Fee(fees.NewLinearFee(per, fixed))
		raw, err2 := x.Bytes()
		c.Class("64 KiB or more", len(raw) >= 1<<16)
		if err != nil || err2 != nil || uint64(got) != uint64(fixed)+uint64(per)*uint64(len(raw)) {
			t.Fatalf("fee %d (%v %v) of %d bytes with %d + %d per byte", got, err, err2, len(raw), fixed, per)
		}
		if n := m.Size(0); n != len(raw) {
			t.Fatalf("transaction has %d bytes, want %d", len(raw), n)
		}
	})
	h.Check("built", 800, func(t *rapid.T, c *hx.C) {
		ks := keysGen(4).Draw(t, "keys")
		m := fundedGen(standard, len(ks)).Draw(t, "funded")
		r := load(standard, ks, m)
		x, err := r.b.Build()
		if err != nil {
			t.Fatal(err)
		}
		per := uint(hx.Uint64(1<<40).Draw(t, "perByte"))
		c.Key("%s keys %d per %d", m.Key(), len(ks), per)
		c.Nontrivial(per != 0)
		got, err := x.Fee(fees.NewLinearFee(per, 5))
		raw, err2 := x.Bytes()
		if err != nil || err2 != nil || uint64(got) != 5+uint64(per)*uint64(len(raw)) {
			t.Fatalf("fee %d (%v %v) of %d bytes with 5 + %d per byte", got, err, err2, len(raw), per)
		}
	})
}

// ---- C31 ----

func TestC31(t *testing.T) {
	h := hx.Start(t, "C31", "builder histories with several builds: the bytes, hash and validity of every earlier result are compared again after each later operation; two builders made from one key slice (with spare capacity) used in turn each give what they would alone. Non-trivial: an edit follows a build, or both builders were given keys")
	h.Check("final", 1500, func(t *rapid.T, c *hx.C) {
		p := paramsGen().Draw(t, "params")
		ks := keysGen(3).Draw(t, "keys")
		ops := history(t, append([]string{"build", "build", "build", "failed build", "sign", "ins", "outs"}, append(append([]string{}, editKinds...), queryKinds...)...), 2, 16)
		c.Key("keys %d %s", len(ks), describe(ops))
		r := newRun(p, ks)
		type built struct {
			x    *tx.Tx
			s    *state
			raw  []byte
			hash [32]byte
			at   int

			extended bool
		}
		var done []built
		for i, o := range ops {
			if o.kind == "build" {
				x, err := r.b.Build()
				if err != nil {
					t.Fatal(err)
				}
				d := built{x: &x, s: r.s.clone(), at: i}
				if err := checkBuilt(&x, r.s); err != nil {
					t.Fatalf("build at step %d of %s: %v", i, describe(ops), err)
				}
				// the owner of a result may use it as the start of another transaction
				d.extended = rapid.IntRange(0, 2).Draw(t, "extend") == 0
				if d.extended {
					in, out := txm.ManyIn(t, 1, 1<<40)[0], txm.ManyOut(t, 1, 1<<40)[0]
					if err := x.AddInputs(in.Build()); err != nil {
						t.Fatal(err)
					}
					if err := x.AddOutputs(out.Build()); err != nil {
						t.Fatal(err)
					}
					x.SetFee(uint(i))
					d.s.m.Ins = append(d.s.m.Ins, in)
					d.s.m.Outs = append(d.s.m.Outs, out)
					d.s.m.Fee = uint64(i)
				}
				// half of the results are first looked at only later
				if i%2 == 0 {
					if d.raw, err = x.Bytes(); err != nil {
						t.Fatal(err)
					}
					if d.hash, err = x.Hash(); err != nil {
						t.Fatal(err)
					}
				}
				done = append(done, d)
			} else {
				if err := r.apply(o); err != nil {
					t.Fatal(err)
				}
				c.Nontrivial(len(done) > 0)
			}
			for _, d := range done {
				if d.raw == nil && i != len(ops)-1 {
					continue
				}
				raw, err := d.x.Bytes()
				if err != nil {
					t.Fatal(err)
				}
				if d.raw != nil && !bytes.Equal(raw, d.raw) {
					t.Fatalf("the transaction built at step %d of %s went at step %d from\n%x to\n%x", d.at, describe(ops), i, d.raw, raw)
				}
				if hh, err := d.x.Hash(); d.raw != nil && (err != nil || hh != d.hash) {
					t.Fatalf("the transaction built at step %d of %s had hash %x, at step %d %x", d.at, describe(ops), d.hash, i, hh)
				}
			}
		}
		for _, d := range done {
			if d.extended {
				raw, err := d.x.Bytes()
				if err != nil {
					t.Fatal(err)
				}
				v, err := txm.Decode(raw)
				if err != nil {
					t.Fatal(err)
				}
				if diff := d.s.m.Diff(v); diff != "" {
					t.Fatalf("the transaction built at step %d of %s and extended by its owner, judged at the end: %s", d.at, describe(ops), diff)
				}
				continue
			}
			if err := checkBuilt(d.x, d.s); err != nil {
				t.Fatalf("the transaction built at step %d of %s, judged at the end: %v", d.at, describe(ops), err)
			}
		}
	})
	h.Check("two builders", 1500, func(t *rapid.T, c *hx.C) {
		p := paramsGen().Draw(t, "params")
		ks := rapid.SliceOfN(keyGen(), 0, 4).Draw(t, "keys")
		spare := rapid.IntRange(0, 4).Draw(t, "spare")
		kinds := append([]string{"sign", "sign", "build"}, editKinds...)
		a := history(t, kinds, 1, 8)
		b := history(t, kinds, 1, 8)
		turns := rapid.SliceOfN(rapid.Bool(), len(a)+len(b), len(a)+len(b)).Draw(t, "turns")
		c.Key("keys %d spare %d a: %s b: %s %v", len(ks), spare, describe(a), describe(b), turns)
		c.Nontrivial(has(a, "sign") && has(b, "sign"))
		kl := make([]bip32.XPrv, 0, len(ks)+spare)
		kl = append(kl, xprvs(ks)...)
		mk := func(l []bip32.XPrv) *run {
			return &run{tx.NewTxBuilder(p.protocol(), l), &state{&txm.Model{}, append([]key(nil), ks...)}, p}
		}
		ra, rb := mk(kl), mk(kl)
		i, j := 0, 0
		for _, first := range turns {
			if j == len(b) || first && i < len(a) {
				if err := ra.apply(a[i]); err != nil {
					t.Fatal(err)
				}
				i++
			} else {
				if err := rb.apply(b[j]); err != nil {
					t.Fatal(err)
				}
				j++
			}
		}
		for n, r := range []*run{ra, rb} {
			x, err := r.b.Build()
			if err != nil {
				t.Fatal(err)
			}
			if err := checkBuilt(&x, r.s); err != nil {
				t.Fatalf("builder %d of two made from the same keys: %v", n+1, err)
			}
			// alone, with its own keys
			alone := mk(xprvs(ks))
			for _, o := range [][]op{a, b}[n] {
				if err := alone.apply(o); err != nil {
					t.Fatal(err)
				}
			}
			y, err := alone.b.Build()
			if err != nil {
				t.Fatal(err)
			}
			xb, _ := x.Bytes()
			yb, _ := y.Bytes()
			if !bytes.Equal(xb, yb) {
				t.Fatalf("builder %d gives\n%x, alone it gives\n%x", n+1, xb, yb)
			}
		}
	})
}
