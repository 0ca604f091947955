// Package am is the reference model of Cardano addresses (CIP-19, CIP-5 and
// the Byron address format) with generators for them.
package am

import (
	"encoding/binary"
	"fmt"
	"math/bits"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
	"github.com/fivebinaries/go-cardano-serialization/verif/ref"
	"pgregory.net/rapid"
)

type Kind int

const (
	Base Kind = iota
	Enterprise
	Pointer
	Reward
	Byron
)

func (k Kind) String() string {
	return [...]string{"base", "enterprise", "pointer", "reward", "byron"}[k]
}

// Addr is a model address.
type Addr struct {
	Kind             Kind
	Net              byte // 1 mainnet, 0 testnet
	Magic            uint32
	PScript, SScript bool
	Pay, Stake       []byte
	Ptr              [3]uint64

	// Byron
	Root     []byte
	Payload  []byte  // nil: absent
	NetMagic *uint32 // nil: absent
}

func (a Addr) Key() string {
	if a.Kind == Byron {
		m := "none"
		if a.NetMagic != nil {
			m = fmt.Sprint(*a.NetMagic)
		}
		return fmt.Sprintf("byron root=%x payload=%x magic=%s", a.Root, a.Payload, m)
	}
	return fmt.Sprintf("%v net=%d/%d pay=%v:%x stake=%v:%x ptr=%v", a.Kind, a.Net, a.Magic, a.PScript, a.Pay, a.SScript, a.Stake, a.Ptr)
}

func b2i(b bool) byte {
	if b {
		return 1
	}
	return 0
}

// Header of a Shelley address.
func (a Addr) Header() byte {
	var t byte
	switch a.Kind {
	case Base:
		t = b2i(a.SScript)<<1 | b2i(a.PScript)
	case Pointer:
		t = 4 | b2i(a.PScript)
	case Enterprise:
		t = 6 | b2i(a.PScript)
	case Reward:
		t = 14 | b2i(a.SScript)
	}
	return t<<4 | a.Net
}

// ByronAttrs is the CBOR attribute map.
func (a Addr) ByronAttrs() []byte {
	n := uint64(0)
	var body []byte
	if a.Payload != nil {
		n++
		body = append(body, append(ref.CUint(1), ref.CBytes(a.Payload)...)...)
	}
	if a.NetMagic != nil {
		n++
		body = append(body, append(ref.CUint(2), ref.CBytes(ref.CUint(uint64(*a.NetMagic)))...)...)
	}
	return append(ref.Head(5, n), body...)
}

// ByronWrap puts a payload in the tagged, checksummed envelope.
func ByronWrap(payload []byte) []byte {
	return ref.CArray(ref.CTag(24, ref.CBytes(payload)), ref.CUint(uint64(ref.CRC32(payload))))
}

// Bytes is the reference serialisation.
func (a Addr) Bytes() []byte {
	out := []byte{a.Header()}
	switch a.Kind {
	case Base:
		return append(append(out, a.Pay...), a.Stake...)
	case Enterprise:
		return append(out, a.Pay...)
	case Reward:
		return append(out, a.Stake...)
	case Pointer:
		out = append(out, a.Pay...)
		for _, n := range a.Ptr {
			out = append(out, ref.NatEncode(n)...)
		}
		return out
	default:
		return ByronWrap(a.inner())
	}
}

func (a Addr) inner() []byte {
	return ref.CArray(ref.CBytes(a.Root), a.ByronAttrs(), ref.CUint(0))
}

// WithCRC is a with the last four bytes of its root chosen to give the CRC
// (which is affine in them).
func (a Addr) WithCRC(want uint32) Addr {
	a.Root = append([]byte(nil), a.Root...)
	at := func(v uint32) uint32 {
		binary.LittleEndian.PutUint32(a.Root[24:], v)
		return ref.CRC32(a.inner())
	}
	zero := at(0)
	want ^= zero
	var basis, combo [32]uint32 // by highest bit
	for i := 0; i < 32; i++ {
		v, k := at(1<<i)^zero, uint32(1)<<i
		for v != 0 {
			h := bits.Len32(v) - 1
			if basis[h] == 0 {
				basis[h], combo[h] = v, k
				break
			}
			v, k = v^basis[h], k^combo[h]
		}
	}
	var sol uint32
	for want != 0 {
		h := bits.Len32(want) - 1
		want, sol = want^basis[h], sol^combo[h]
	}
	at(sol)
	return a
}

// HRP is the standard text prefix.
func (a Addr) HRP() string {
	p := "addr"
	if a.Kind == Reward {
		p = "stake"
	}
	if a.Net == 0 {
		p += "_test"
	}
	return p
}

// Text is the reference text form.
func (a Addr) Text() string {
	if a.Kind == Byron {
		return ref.Base58Encode(a.Bytes())
	}
	return ref.Bech32Encode(a.HRP(), a.Bytes())
}

func cred(script bool, h []byte, literal bool) *address.StakeCredential {
	if literal {
		k := address.KeyStakeCredentialType
		if script {
			k = address.ScriptStakeCredentialType
		}
		return &address.StakeCredential{Kind: k, Payload: h}
	}
	if script {
		return address.NewScriptStakeCredential(h)
	}
	return address.NewKeyStakeCredential(h)
}

// Network is the model's network descriptor.
func (a Addr) Network() *network.NetworkInfo {
	return &network.NetworkInfo{NetworkId: a.Net, ProtocolMagic: a.Magic}
}

// Buffer returns a new buffer holding both hashes, with bytes of its own
// between and behind them, as when they are parts of a larger message.
func (a Addr) Buffer() (buf, pay, stake []byte) {
	const gap = 5
	np, ns := len(a.Pay), len(a.Stake)
	buf = make([]byte, np+gap+ns+40)
	for i := range buf {
		buf[i] = byte(0x60 + i)
	}
	copy(buf, a.Pay)
	copy(buf[np+gap:], a.Stake)
	return buf, buf[:np], buf[np+gap : np+gap+ns]
}

// Build constructs the address with the library (Byron: by decoding).
func (a Addr) Build() (address.Address, error) {
	_, pay, stake := a.Buffer()
	return a.BuildFrom(pay, stake)
}

// BuildFrom is Build with the hashes in the given slices.
func (a Addr) BuildFrom(pay, stake []byte) (address.Address, error) {
	lit := len(a.Pay) > 0 && a.Pay[0]&1 == 0
	switch a.Kind {
	case Base:
		return address.NewBaseAddress(a.Network(), cred(a.PScript, pay, lit), cred(a.SScript, stake, lit)), nil
	case Enterprise:
		return address.NewEnterpriseAddress(a.Network(), cred(a.PScript, pay, lit)), nil
	case Reward:
		return address.NewRewardAddress(a.Network(), cred(a.SScript, stake, lit)), nil
	case Pointer:
		return address.NewPointerAddress(*a.Network(), *cred(a.PScript, pay, lit), *address.NewPointer(a.Ptr[0], a.Ptr[1], a.Ptr[2])), nil
	default:
		return address.NewAddressFromBytes(a.Bytes())
	}
}

// Assign gives addr (of a's kind, not Byron) the network, payment credential
// or staking part of b, by assigning its fields, and returns the new model.
func (a Addr) Assign(addr address.Address, b Addr, net, pay, stake bool) Addr {
	var nf *network.NetworkInfo
	var pf, sf *address.StakeCredential
	switch x := addr.(type) {
	case *address.BaseAddress:
		nf, pf, sf = &x.Network, &x.Payment, &x.Stake
	case *address.EnterpriseAddress:
		nf, pf = &x.Network, &x.Payment
	case *address.RewardAddress:
		nf, sf = &x.Network, &x.Stake
	case *address.PointerAddress:
		nf, pf = &x.Network, &x.Payment
		if stake {
			x.Stake = *address.NewPointer(b.Ptr[0], b.Ptr[1], b.Ptr[2])
			a.Ptr = b.Ptr
		}
	}
	if net {
		*nf = *b.Network()
		a.Net, a.Magic = b.Net, b.Magic
	}
	if pay && pf != nil {
		*pf = *cred(b.PScript, append([]byte(nil), b.Pay...), false)
		a.Pay, a.PScript = b.Pay, b.PScript
	}
	if stake && sf != nil {
		*sf = *cred(b.SScript, append([]byte(nil), b.Stake...), false)
		a.Stake, a.SScript = b.Stake, b.SScript
	}
	return a
}

// Same reports how addr differs from the model ("" if it does not). The
// protocol magic is compared only if magic is set.
func (a Addr) Same(addr address.Address, magic bool) string {
	cmp := func(what string, c address.StakeCredential, script bool, h []byte) string {
		k := address.KeyStakeCredentialType
		if script {
			k = address.ScriptStakeCredentialType
		}
		if c.Kind != k || string(c.Payload) != string(h) {
			return fmt.Sprintf("%s credential is %d:%x, want %d:%x", what, c.Kind, c.Payload, k, h)
		}
		return ""
	}
	ni := addr.NetworkInfo()
	if ni == nil {
		return "nil network info"
	}
	wantNet := a.Net
	if a.Kind == Byron {
		wantNet = 1
		if a.NetMagic != nil {
			wantNet = 0
		}
	}
	if ni.NetworkId != wantNet {
		return fmt.Sprintf("network id %d, want %d", ni.NetworkId, wantNet)
	}
	if magic {
		want := network.NetworkInfo{NetworkId: 1, ProtocolMagic: 764824073}
		if wantNet == 0 {
			want = network.NetworkInfo{NetworkId: 0, ProtocolMagic: 1097911063}
		}
		if *ni != want {
			return fmt.Sprintf("network %+v, want %+v", *ni, want)
		}
	}
	switch x := addr.(type) {
	case *address.BaseAddress:
		if a.Kind != Base {
			return "is a base address"
		}
		if s := cmp("payment", x.Payment, a.PScript, a.Pay); s != "" {
			return s
		}
		return cmp("stake", x.Stake, a.SScript, a.Stake)
	case *address.EnterpriseAddress:
		if a.Kind != Enterprise {
			return "is an enterprise address"
		}
		return cmp("payment", x.Payment, a.PScript, a.Pay)
	case *address.RewardAddress:
		if a.Kind != Reward {
			return "is a reward address"
		}
		return cmp("stake", x.Stake, a.SScript, a.Stake)
	case *address.PointerAddress:
		if a.Kind != Pointer {
			return "is a pointer address"
		}
		if got := [3]uint64{x.Stake.Slot, x.Stake.TxIndex, x.Stake.CertIndex}; got != a.Ptr {
			return fmt.Sprintf("pointer %v, want %v", got, a.Ptr)
		}
		return cmp("payment", x.Payment, a.PScript, a.Pay)
	case *address.ByronAddress:
		if a.Kind != Byron {
			return "is a Byron address"
		}
		if string(x.Hash) != string(a.Root) {
			return fmt.Sprintf("root %x, want %x", x.Hash, a.Root)
		}
		if string(x.Attributes.Payload) != string(a.Payload) {
			return fmt.Sprintf("payload %x, want %x", x.Attributes.Payload, a.Payload)
		}
		return ""
	}
	return fmt.Sprintf("unexpected type %T", addr)
}

// ---- generators ----

const (
	MainMagic = 764824073
	TestMagic = 1097911063
)

// Shelley generates base, enterprise, pointer and reward addresses on the
// standard networks, or (otherMagic) on testnets with another magic as well.
func Shelley(otherMagic bool) *rapid.Generator[Addr] {
	return rapid.Custom(func(t *rapid.T) Addr {
		return ofKind(t, rapid.SampledFrom([]Kind{Base, Enterprise, Pointer, Reward}).Draw(t, "kind"), otherMagic)
	})
}

// OfKind generates addresses of one kind.
func OfKind(k Kind) *rapid.Generator[Addr] {
	return rapid.Custom(func(t *rapid.T) Addr { return ofKind(t, k, false) })
}

// Any generates addresses of all kinds.
func Any() *rapid.Generator[Addr] {
	return rapid.Custom(func(t *rapid.T) Addr {
		return ofKind(t, rapid.SampledFrom([]Kind{Base, Enterprise, Pointer, Reward, Byron}).Draw(t, "kind"), false)
	})
}

// Payable generates the kinds that can receive funds.
func Payable() *rapid.Generator[Addr] {
	return rapid.Custom(func(t *rapid.T) Addr {
		return ofKind(t, rapid.SampledFrom([]Kind{Base, Enterprise, Pointer, Byron}).Draw(t, "kind"), false)
	})
}

func ofKind(t *rapid.T, k Kind, otherMagic bool) Addr {
	a := Addr{Kind: k}
	if k == Byron {
		a.Root = hx.Bytes(28).Draw(t, "root")
		if rapid.Bool().Draw(t, "hasPayload") {
			a.Payload = hx.BytesLen(1, 300, 24, 28, 30, 34, 256).Draw(t, "payload")
		}
		if rapid.Bool().Draw(t, "hasMagic") {
			m := rapid.OneOf(rapid.Just(uint32(TestMagic)), rapid.SampledFrom([]uint32{1, 2, 23, 24, 255, 256, 633343913, 65535, 65536, 1<<32 - 1}), rapid.Uint32()).Draw(t, "magic")
			if m == MainMagic {
				m = TestMagic
			}
			a.NetMagic = &m
		}
		if rapid.IntRange(0, 7).Draw(t, "chosenCRC") == 0 {
			return a.WithCRC(rapid.SampledFrom([]uint32{0, 1, 23, 24, 255, 256, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 256, 1<<32 - 2, 1<<32 - 1}).Draw(t, "crc"))
		}
		return a
	}
	a.Net = rapid.SampledFrom([]byte{1, 0}).Draw(t, "net")
	a.Magic = MainMagic
	if a.Net == 0 {
		a.Magic = TestMagic
		if otherMagic && rapid.Bool().Draw(t, "otherMagic") {
			a.Magic = rapid.SampledFrom([]uint32{0, 1, 2, 4, 42, 764824073, 1<<32 - 1}).Draw(t, "magic")
		}
	}
	a.PScript = rapid.Bool().Draw(t, "payScript")
	a.SScript = rapid.Bool().Draw(t, "stakeScript")
	if k != Reward {
		a.Pay = hx.Bytes(28).Draw(t, "payHash")
	} else {
		a.PScript = false
	}
	if k == Base || k == Reward {
		a.Stake = hx.Bytes(28).Draw(t, "stakeHash")
		if k == Base && rapid.IntRange(0, 9).Draw(t, "sameHash") == 0 {
			a.Stake = append([]byte(nil), a.Pay...)
		}
	} else {
		a.SScript = false
	}
	if k == Pointer {
		for i := range a.Ptr {
			a.Ptr[i] = Nat().Draw(t, "ptr")
		}
	}
	return a
}

// Nat generates 64-bit numbers near the base-128 boundaries.
func Nat() *rapid.Generator[uint64] {
	return rapid.Custom(func(t *rapid.T) uint64 {
		if rapid.Bool().Draw(t, "pow128") {
			return uint64(1)<<(7*rapid.IntRange(0, 9).Draw(t, "groups")) + uint64(int64(rapid.IntRange(-2, 2).Draw(t, "off")))
		}
		return hx.Uint64(^uint64(0)).Draw(t, "nat")
	})
}
