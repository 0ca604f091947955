package addr

import (
	"bytes"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/verif/am"
	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
	"pgregory.net/rapid"
)

// variant is an address that agrees with m in most of its parts.
func variant(t *rapid.T, m am.Addr) am.Addr {
	flip := func(b []byte) []byte {
		c := append([]byte(nil), b...)
		if len(c) > 0 {
			c[rapid.SampledFrom([]int{0, len(c) / 2, len(c) - 1}).Draw(t, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		}
		return c
	}
	if m.Kind == am.Byron {
		switch rapid.IntRange(0, 2).Draw(t, "vary") {
		case 0:
			m.Root = flip(m.Root)
		case 1:
			m.Payload = flip(m.Payload)
			if len(m.Payload) == 0 {
				m.Payload = []byte{1, 2, 3}
			}
		default:
			magic := uint32(rapid.IntRange(1, 1000).Draw(t, "magic"))
			if m.NetMagic != nil && rapid.Bool().Draw(t, "mainnet") {
				m.NetMagic = nil
			} else {
				m.NetMagic = &magic
			}
		}
		return m
	}
	switch rapid.IntRange(0, 5).Draw(t, "vary") {
	case 0:
		m.Net ^= 1
		m.Magic = am.MainMagic
		if m.Net == 0 {
			m.Magic = am.TestMagic
		}
	case 1:
		if m.Kind == am.Reward {
			m.SScript = !m.SScript
		} else {
			m.PScript = !m.PScript
		}
	case 2:
		if m.Kind == am.Base {
			m.SScript = !m.SScript
		}
	case 3:
		m.Pay, m.Stake = flip(m.Pay), append([]byte(nil), m.Stake...)
	case 4:
		m.Pay, m.Stake = append([]byte(nil), m.Pay...), flip(m.Stake)
	default: // another kind with the same hashes
		h := m.Pay
		if m.Kind == am.Reward {
			h = m.Stake
		}
		n := am.Addr{Kind: rapid.SampledFrom([]am.Kind{am.Base, am.Enterprise, am.Pointer, am.Reward}).Draw(t, "otherKind"), Net: m.Net, Magic: m.Magic, Ptr: m.Ptr}
		switch n.Kind {
		case am.Reward:
			n.Stake, n.SScript = h, m.PScript
		case am.Base:
			n.Pay, n.Stake, n.PScript = h, h, m.PScript
		default:
			n.Pay, n.PScript = h, m.PScript
		}
		if n.Kind != am.Pointer {
			n.Ptr = [3]uint64{}
		} else {
			n.Ptr[rapid.IntRange(0, 2).Draw(t, "which")] = am.Nat().Draw(t, "ptr")
		}
		return n
	}
	return m
}

// relatedAddrs uses a family of addresses that agree in some of their parts in
// turn: each result depends on nothing but its own address.
func relatedAddrs(h *hx.H, judge string) {
	h.Check("related addresses in turn", 1500, func(t *rapid.T, c *hx.C) {
		var ms []am.Addr
		if judge == "bytes" {
			ms = append(ms, am.Shelley(false).Draw(t, "address"))
		} else {
			ms = append(ms, am.Any().Draw(t, "address"))
		}
		for len(ms) < 2 || len(ms) < 5 && rapid.Bool().Draw(t, "more") {
			ms = append(ms, variant(t, ms[rapid.IntRange(0, len(ms)-1).Draw(t, "like")]))
		}
		var held []address.Address
		for _, m := range ms {
			held = append(held, build(t, m))
		}
		seen := map[string]bool{}
		for i := rapid.IntRange(3, 10).Draw(t, "steps"); i > 0; i-- {
			j := rapid.IntRange(0, len(ms)-1).Draw(t, "which")
			m, a := ms[j], held[j]
			seen[m.Key()] = true
			var err error
			switch rapid.IntRange(0, 3).Draw(t, "from") {
			case 0:
				a = build(t, m)
			case 1:
				a, err = address.NewAddressFromBytes(m.Bytes())
			case 2:
				a, err = address.NewAddress(m.Text())
			}
			if err != nil {
				t.Fatalf("%s: %v", m.Key(), err)
			}
			if s := m.Same(a, true); s != "" {
				t.Fatalf("%s: %s", m.Key(), s)
			}
			text, raw := a.String(), a.Bytes()
			if judge == "text" && text != m.Text() {
				t.Fatalf("%s has text %q, want %q", m.Key(), text, m.Text())
			}
			if judge == "bytes" && !bytes.Equal(raw, m.Bytes()) {
				t.Fatalf("%s has bytes %x, want %x", m.Key(), raw, m.Bytes())
			}
		}
		for _, m := range ms {
			if seen[m.Key()] {
				c.Key("%s", m.Key())
			}
		}
		c.Nontrivial(len(seen) > 1)
	})
}

// fields assigns fields of an address that was used before: what it says
// afterwards follows from the fields it has then.
func fields(t *rapid.T, c *hx.C, k am.Kind) {
	m := am.OfKind(k).Draw(t, "address")
	how := rapid.SampledFrom([]string{"constructed", "bytes", "text"}).Draw(t, "how")
	var a address.Address
	var err error
	switch how {
	case "constructed":
		a, err = m.Build()
	case "bytes":
		a, err = address.NewAddressFromBytes(m.Bytes())
	case "text":
		a, err = address.NewAddress(m.Text())
	}
	if err != nil {
		t.Fatalf("%s %s: %v", how, m.Key(), err)
	}
	c.Key("%s", m.Key())
	c.Nontrivial(true)
	for step := 0; ; step++ {
		if got, text := a.Bytes(), a.String(); !bytes.Equal(got, m.Bytes()) || text != m.Text() {
			t.Fatalf("after %d assignments the address is %s\nbytes %x, want %x\ntext %q, want %q", step, m.Key(), got, m.Bytes(), text, m.Text())
		}
		if s := m.Same(a, false); s != "" {
			t.Fatalf("after %d assignments the address is %s: %s", step, m.Key(), s)
		}
		if b, ok := a.(*address.BaseAddress); ok {
			em, rm := m, m
			em.Kind, em.Stake, em.SScript = am.Enterprise, nil, false
			rm.Kind, rm.Pay, rm.PScript = am.Reward, nil, false
			if e, r := b.ToEnterprise(), b.ToReward(); e.String() != em.Text() || r.String() != rm.Text() {
				t.Fatalf("after %d assignments the address is %s\nits enterprise address %s, want %s\nits reward address %s, want %s", step, m.Key(), e, em.Text(), r, rm.Text())
			}
		}
		if step == 3 {
			return
		}
		n := am.OfKind(k).Draw(t, "other")
		mask := rapid.IntRange(1, 7).Draw(t, "fields")
		m = m.Assign(a, n, mask&1 != 0, mask&2 != 0, mask&4 != 0)
		c.Key("%s %d", n.Key(), mask)
	}
}

var shelleyKinds = []am.Kind{am.Base, am.Enterprise, am.Reward, am.Pointer}
