// Package txm is the reference model of transactions: generators for the
// parts, an independent decoder of the wire format, and a metadata model.
package txm

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"sort"
	"strings"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/verif/am"
	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
	"github.com/fivebinaries/go-cardano-serialization/verif/ref"
	"pgregory.net/rapid"
)

// In is a model input.
type In struct {
	Hash   []byte
	Index  uint16
	Amount uint64
}

func (i In) Build() *tx.TxInput {
	return tx.NewTxInput(hex.EncodeToString(i.Hash), i.Index, uint(i.Amount))
}

// Out is a model output.
type Out struct {
	Addr   am.Addr
	Amount uint64
}

func (o Out) Build() *tx.TxOutput {
	a, err := o.Addr.Build()
	if raw := o.Addr.Bytes(); err == nil && raw[len(raw)-1]&2 != 0 { // as a program reading text would
		a, err = address.NewAddress(o.Addr.Text())
	}
	if err != nil {
		panic(fmt.Sprintf("model address refused: %s: %v", o.Addr.Key(), err))
	}
	return tx.NewTxOutput(a, uint(o.Amount))
}

// InGen generates inputs with amounts up to max.
func InGen(max uint64) *rapid.Generator[In] {
	return rapid.Custom(func(t *rapid.T) In {
		idx := uint16(rapid.IntRange(0, 3).Draw(t, "smallIndex"))
		if rapid.IntRange(0, 2).Draw(t, "idxMode") == 0 {
			idx = rapid.SampledFrom([]uint16{23, 24, 255, 256, 65535, 300}).Draw(t, "index")
		}
		return In{hx.Bytes(32).Draw(t, "hash"), idx, hx.Uint64(max).Draw(t, "inAmount")}
	})
}

// OutGen generates outputs with amounts up to max.
func OutGen(max uint64) *rapid.Generator[Out] {
	return rapid.Custom(func(t *rapid.T) Out {
		return Out{am.Payable().Draw(t, "address"), hx.Uint64(max).Draw(t, "outAmount")}
	})
}

// Count draws a list length: usually small, sometimes at a CBOR head boundary.
func Count(t *rapid.T, label string, small, rare int) int {
	if rapid.IntRange(0, 11).Draw(t, label+"Mode") == 0 {
		n := rapid.SampledFrom([]int{23, 24, 25, 255, 256, 300}).Draw(t, label)
		if n <= rare {
			return n
		}
		return rare
	}
	return rapid.IntRange(0, small).Draw(t, label)
}

// Many expands one drawn element into n similar ones (cheap large lists).
func ManyIn(t *rapid.T, n int, max uint64) []In {
	var out []In
	for i := 0; i < n; i++ {
		if i < 4 {
			in := InGen(max).Draw(t, "in")
			if i > 0 && rapid.IntRange(0, 3).Draw(t, "sameTx") == 0 { // outputs of one transaction, or one output twice
				in.Hash = out[rapid.IntRange(0, i-1).Draw(t, "like")].Hash
			}
			out = append(out, in)
			continue
		}
		p := out[i%4]
		h := hx.Expand(uint64(i)<<20|uint64(p.Hash[0]), 32)
		out = append(out, In{h, uint16(i * 7), p.Amount / uint64(i)})
	}
	return out
}

func ManyOut(t *rapid.T, n int, max uint64) []Out {
	var out []Out
	for i := 0; i < n; i++ {
		if i < 4 {
			o := OutGen(max).Draw(t, "out")
			if i > 0 && rapid.IntRange(0, 3).Draw(t, "sameAddr") == 0 {
				p := out[rapid.IntRange(0, i-1).Draw(t, "like")]
				o.Addr = p.Addr
				if rapid.Bool().Draw(t, "sameAmount") {
					o.Amount = p.Amount
				}
			}
			out = append(out, o)
			continue
		}
		p := out[i%4]
		out = append(out, Out{p.Addr, p.Amount / uint64(i)})
	}
	return out
}

// ---- decoding the wire format ----

// Wit is a decoded verification-key witness.
type Wit struct{ VKey, Sig []byte }

// View is a transaction as read back from its bytes.
type View struct {
	Ins     []In // no amounts
	Outs    []RawOut
	Fee     uint64
	TTL     uint64
	HasTTL  bool
	AuxHash []byte // nil: absent
	Wits    []Wit
	BodyRaw []byte
	Meta    *ref.Item
	Valid   bool
}

// RawOut is a decoded output.
type RawOut struct {
	Addr   []byte
	Amount uint64
}

func DecodeBody(it *ref.Item, v *View) error {
	if it.Kind != ref.KMap {
		return fmt.Errorf("body is not a map: %x", it.Raw)
	}
	v.BodyRaw = it.Raw
	for i, k := range it.Keys {
		val := it.Items[i]
		if k.Kind != ref.KUint {
			return fmt.Errorf("body key %x", k.Raw)
		}
		switch k.N {
		case 0:
			if val.Kind != ref.KArray {
				return fmt.Errorf("inputs are %x", val.Raw)
			}
			for _, e := range val.Items {
				if e.Kind != ref.KArray || len(e.Items) != 2 || e.Items[0].Kind != ref.KBytes || e.Items[1].Kind != ref.KUint {
					return fmt.Errorf("input %x", e.Raw)
				}
				if len(e.Items[0].Bytes) != 32 || e.Items[1].N > 65535 {
					return fmt.Errorf("input %x", e.Raw)
				}
				v.Ins = append(v.Ins, In{Hash: e.Items[0].Bytes, Index: uint16(e.Items[1].N)})
			}
		case 1:
			if val.Kind != ref.KArray {
				return fmt.Errorf("outputs are %x", val.Raw)
			}
			for _, e := range val.Items {
				if e.Kind != ref.KArray || len(e.Items) != 2 || e.Items[0].Kind != ref.KBytes || e.Items[1].Kind != ref.KUint {
					return fmt.Errorf("output %x is not [address bytes, amount]", e.Raw)
				}
				v.Outs = append(v.Outs, RawOut{e.Items[0].Bytes, e.Items[1].N})
			}
		case 2:
			if val.Kind != ref.KUint {
				return fmt.Errorf("fee %x", val.Raw)
			}
			v.Fee = val.N
		case 3:
			if val.Kind != ref.KUint || val.N == 0 {
				return fmt.Errorf("time-to-live %x", val.Raw)
			}
			v.TTL, v.HasTTL = val.N, true
		case 7:
			if val.Kind != ref.KBytes || len(val.Bytes) != 32 {
				return fmt.Errorf("auxiliary data hash %x", val.Raw)
			}
			v.AuxHash = val.Bytes
		default:
			return fmt.Errorf("unexpected body key %d", k.N)
		}
	}
	for _, k := range []uint64{0, 1, 2} {
		if it.MapUint(k) == nil {
			return fmt.Errorf("body key %d missing", k)
		}
	}
	return nil
}

// Decode reads a serialised transaction.
func Decode(b []byte) (*View, error) {
	v, err := DecodeAny(b)
	if err == nil && !v.Valid {
		return nil, fmt.Errorf("the transaction is marked as not valid: %x", b)
	}
	return v, err
}

// DecodeAny also accepts a transaction that is marked as not valid.
func DecodeAny(b []byte) (*View, error) {
	it, err := ref.ParseCBOR(b)
	if err != nil {
		return nil, err
	}
	if it.Kind != ref.KArray || len(it.Items) != 4 {
		return nil, fmt.Errorf("transaction is not an array of 4: %x", b)
	}
	v := &View{}
	if err := DecodeBody(it.Items[0], v); err != nil {
		return nil, err
	}
	w := it.Items[1]
	if w.Kind != ref.KMap {
		return nil, fmt.Errorf("witness set %x", w.Raw)
	}
	for i, k := range w.Keys {
		if k.Kind != ref.KUint || k.N != 0 || w.Items[i].Kind != ref.KArray {
			return nil, fmt.Errorf("witness set entry %x: %x", k.Raw, w.Items[i].Raw)
		}
		for _, e := range w.Items[i].Items {
			if e.Kind != ref.KArray || len(e.Items) != 2 || e.Items[0].Kind != ref.KBytes || e.Items[1].Kind != ref.KBytes {
				return nil, fmt.Errorf("witness %x", e.Raw)
			}
			v.Wits = append(v.Wits, Wit{e.Items[0].Bytes, e.Items[1].Bytes})
		}
	}
	v.Valid = it.Items[2].Kind == ref.KTrue
	if !v.Valid && it.Items[2].Kind != ref.KFalse {
		return nil, fmt.Errorf("validity flag %x", it.Items[2].Raw)
	}
	if it.Items[3].Kind != ref.KNull {
		v.Meta = it.Items[3]
	}
	return v, nil
}

// Model is the content a transaction is expected to have.
type Model struct {
	Ins  []In
	Outs []Out
	Fee  uint64
	TTL  uint32
	Meta *Meta
}

// Diff compares a decoded transaction with the model ("" if they agree).
func (m *Model) Diff(v *View) string {
	if len(v.Ins) != len(m.Ins) {
		return fmt.Sprintf("%d inputs, want %d", len(v.Ins), len(m.Ins))
	}
	for i, in := range m.Ins {
		if !bytes.Equal(v.Ins[i].Hash, in.Hash) || v.Ins[i].Index != in.Index {
			return fmt.Sprintf("input %d is %x#%d, want %x#%d", i, v.Ins[i].Hash, v.Ins[i].Index, in.Hash, in.Index)
		}
	}
	if len(v.Outs) != len(m.Outs) {
		return fmt.Sprintf("%d outputs, want %d", len(v.Outs), len(m.Outs))
	}
	for i, o := range m.Outs {
		if want := o.Addr.Bytes(); !bytes.Equal(v.Outs[i].Addr, want) || v.Outs[i].Amount != o.Amount {
			return fmt.Sprintf("output %d is %x %d, want %x %d", i, v.Outs[i].Addr, v.Outs[i].Amount, want, o.Amount)
		}
	}
	if v.Fee != m.Fee {
		return fmt.Sprintf("fee %d, want %d", v.Fee, m.Fee)
	}
	if v.TTL != uint64(m.TTL) || v.HasTTL != (m.TTL != 0) {
		return fmt.Sprintf("time-to-live %d (present %v), want %d", v.TTL, v.HasTTL, m.TTL)
	}
	return m.MetaDiff(v)
}

// MetaDiff compares metadata and its hash.
func (m *Model) MetaDiff(v *View) string {
	if m.Meta == nil {
		if v.Meta != nil {
			return fmt.Sprintf("auxiliary data %x, want null", v.Meta.Raw)
		}
		if v.AuxHash != nil {
			return fmt.Sprintf("auxiliary data hash %x without metadata", v.AuxHash)
		}
		return ""
	}
	if v.Meta == nil {
		return "auxiliary data is null, want " + m.Meta.String()
	}
	if got, want := CanonItem(v.Meta), m.Meta.Canon(); got != want {
		return fmt.Sprintf("auxiliary data %x, want %s", v.Meta.Raw, m.Meta)
	}
	if want := ref.Blake2b(32, v.Meta.Raw); !bytes.Equal(v.AuxHash, want) {
		return fmt.Sprintf("auxiliary data hash %x, but the embedded data hashes to %x", v.AuxHash, want)
	}
	return ""
}

// ---- metadata ----

// Meta is a metadata value.
type Meta struct {
	Kind       string // uint nint bytes text list map bool
	N          uint64
	B          []byte
	S          string
	Keys, Vals []*Meta // map; list uses Vals
	Style      int
}

// Canon is the canonical CBOR encoding (maps sorted by encoded key).
func (m *Meta) Canon() string {
	switch m.Kind {
	case "uint":
		return string(ref.Head(0, m.N))
	case "nint":
		return string(ref.Head(1, m.N))
	case "bytes":
		return string(ref.CBytes(m.B))
	case "text":
		return string(ref.CText(m.S))
	case "bool":
		return string([]byte{0xf4 + byte(m.N)})
	case "list":
		var s strings.Builder
		s.Write(ref.Head(4, uint64(len(m.Vals))))
		for _, v := range m.Vals {
			s.WriteString(v.Canon())
		}
		return s.String()
	default:
		return canonMap(len(m.Keys), func(i int) (string, string) { return m.Keys[i].Canon(), m.Vals[i].Canon() })
	}
}

func canonMap(n int, f func(i int) (string, string)) string {
	type kv struct{ k, v string }
	var kvs []kv
	for i := 0; i < n; i++ {
		k, v := f(i)
		kvs = append(kvs, kv{k, v})
	}
	sort.Slice(kvs, func(i, j int) bool { return kvs[i].k < kvs[j].k })
	var s strings.Builder
	s.Write(ref.Head(5, uint64(n)))
	for _, e := range kvs {
		s.WriteString(e.k)
		s.WriteString(e.v)
	}
	return s.String()
}

// CanonItem is the canonical encoding of a decoded item.
func CanonItem(it *ref.Item) string {
	switch it.Kind {
	case ref.KArray:
		var s strings.Builder
		s.Write(ref.Head(4, uint64(len(it.Items))))
		for _, v := range it.Items {
			s.WriteString(CanonItem(v))
		}
		return s.String()
	case ref.KMap:
		return canonMap(len(it.Keys), func(i int) (string, string) { return CanonItem(it.Keys[i]), CanonItem(it.Items[i]) })
	}
	return string(it.Raw)
}

func (m *Meta) String() string {
	if m == nil {
		return "none"
	}
	c := m.Canon()
	if len(c) > 120 {
		return fmt.Sprintf("%x...(%d bytes)", c[:120], len(c))
	}
	return fmt.Sprintf("%x", c)
}

// MapKeys counts the largest map inside.
func (m *Meta) MapKeys() int {
	if m == nil {
		return 0
	}
	n := len(m.Keys)
	for _, v := range m.Vals {
		if k := v.MapKeys(); k > n {
			n = k
		}
	}
	return n
}

type tagged struct {
	Name  string `cbor:"1,keyasint"`
	Count uint64 `cbor:"2,keyasint"`
}

// Go is the value as a Go program would set it.
func (m *Meta) Go() interface{} {
	switch m.Kind {
	case "uint":
		switch {
		case m.Style%4 == 1 && m.N < 1<<63:
			return int64(m.N)
		case m.Style%4 == 2 && m.N < 1<<31:
			return int(m.N)
		case m.Style%4 == 3 && m.N < 256:
			return uint8(m.N)
		}
		return m.N
	case "nint":
		return -1 - int64(m.N)
	case "bytes":
		return append([]byte{}, m.B...)
	case "text":
		return m.S
	case "bool":
		return m.N == 1
	case "list":
		out := make([]interface{}, 0, len(m.Vals))
		for _, v := range m.Vals {
			out = append(out, v.Go())
		}
		return out
	}
	// map
	allU, allT := true, true
	for _, k := range m.Keys {
		allU = allU && k.Kind == "uint"
		allT = allT && k.Kind == "text"
	}
	if m.Style == 7 && len(m.Keys) == 2 && allU && m.Keys[0].N == 1 && m.Keys[1].N == 2 && m.Vals[0].Kind == "text" && m.Vals[1].Kind == "uint" {
		return &tagged{m.Vals[0].S, m.Vals[1].N}
	}
	switch {
	case allU && m.Style%2 == 0:
		out := map[uint64]interface{}{}
		for i, k := range m.Keys {
			out[k.N] = m.Vals[i].Go()
		}
		return out
	case allT && m.Style%2 == 0:
		out := map[string]interface{}{}
		for i, k := range m.Keys {
			out[k.S] = m.Vals[i].Go()
		}
		return out
	}
	out := map[interface{}]interface{}{}
	for i, k := range m.Keys {
		out[k.Go()] = m.Vals[i].Go()
	}
	return out
}

// MetaGen generates metadata values; top-level ones are mostly maps.
func MetaGen() *rapid.Generator[*Meta] {
	return rapid.Custom(func(t *rapid.T) *Meta { return metaGen(t, 3, true) })
}

func metaGen(t *rapid.T, depth int, top bool) *Meta {
	kind := "map"
	if !top || rapid.IntRange(0, 4).Draw(t, "topShape") == 0 {
		kinds := []string{"uint", "text", "bytes", "nint", "bool"}
		if depth > 0 {
			kinds = append(kinds, "map", "list", "map")
		}
		kind = rapid.SampledFrom(kinds).Draw(t, "kind")
	}
	m := &Meta{Kind: kind, Style: rapid.IntRange(0, 7).Draw(t, "style")}
	switch kind {
	case "uint":
		m.N = hx.Uint64(^uint64(0)).Draw(t, "uint")
	case "nint":
		m.N = hx.Uint64(1<<63-1).Draw(t, "nint")
	case "bytes":
		m.B = hx.BytesLen(0, 80, 0, 24, 64).Draw(t, "bytes")
	case "text":
		m.S = rapid.StringN(0, 30, 64).Draw(t, "text")
	case "bool":
		m.N = uint64(rapid.IntRange(0, 1).Draw(t, "bool"))
	case "list":
		for i := rapid.IntRange(0, 5).Draw(t, "listLen"); i > 0; i-- {
			m.Vals = append(m.Vals, metaGen(t, depth-1, false))
		}
	case "map":
		if m.Style == 7 {
			m.Keys = []*Meta{{Kind: "uint", N: 1}, {Kind: "uint", N: 2}}
			m.Vals = []*Meta{{Kind: "text", S: rapid.StringN(0, 20, 64).Draw(t, "name")}, {Kind: "uint", N: hx.Uint64(^uint64(0)).Draw(t, "count")}}
			return m
		}
		n := rapid.IntRange(0, 8).Draw(t, "mapLen")
		if rapid.IntRange(0, 7).Draw(t, "bigMap") == 0 {
			n = rapid.SampledFrom([]int{12, 23, 24, 30}).Draw(t, "bigLen")
		}
		keyKind := rapid.SampledFrom([]string{"uint", "text", "mixed"}).Draw(t, "keyKind")
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			kk := keyKind
			if kk == "mixed" {
				kk = rapid.SampledFrom([]string{"uint", "text", "nint"}).Draw(t, "thisKey")
			}
			k := &Meta{Kind: kk}
			switch kk {
			case "uint", "nint":
				k.N = hx.Uint64(1<<63-1).Draw(t, "key")
			case "text":
				k.S = rapid.StringN(0, 12, 64).Draw(t, "key")
			}
			if seen[k.Canon()] {
				continue
			}
			seen[k.Canon()] = true
			d := depth - 1
			if n > 8 {
				d = 0
			}
			m.Keys = append(m.Keys, k)
			m.Vals = append(m.Vals, metaGen(t, d, false))
		}
	}
	return m
}

// Unencodable generates Go values CBOR cannot represent, and says what they are.
func Unencodable() *rapid.Generator[string] {
	return rapid.SampledFrom([]string{"channel", "function", "complex", "map with channel", "list with function", "struct with channel"})
}

// UnencodableValue is the value named by Unencodable.
func UnencodableValue(name string) interface{} {
	switch name {
	case "channel":
		return make(chan int)
	case "function":
		return func() {}
	case "complex":
		return complex(1, 2)
	case "map with channel":
		return map[uint64]interface{}{1: "ok", 674: make(chan int)}
	case "list with function":
		return []interface{}{1, "x", func() {}}
	}
	return struct{ C chan int }{make(chan int)}
}

// Size is the length of the model's serialisation with n verification-key witnesses.
func (m *Model) Size(n int) int {
	u := func(x uint64) int { return len(ref.CUint(x)) }
	size := 1 + 1 // array of 4, body map
	size += 1 + u(uint64(len(m.Ins)))
	for _, in := range m.Ins {
		size += 1 + 34 + u(uint64(in.Index))
	}
	size += 1 + u(uint64(len(m.Outs)))
	for _, o := range m.Outs {
		size += 1 + len(ref.CBytes(o.Addr.Bytes())) + u(o.Amount)
	}
	size += 1 + u(m.Fee)
	if m.TTL != 0 {
		size += 1 + u(uint64(m.TTL))
	}
	size++ // witness map
	if n > 0 {
		size += 1 + u(uint64(n)) + n*(1+34+66)
	}
	size++ // validity
	if m.Meta == nil {
		return size + 1
	}
	return size + 1 + 34 + len(m.Meta.Canon())
}

func (m *Model) Key() string {
	s := ""
	for _, in := range m.Ins {
		s += fmt.Sprintf("in %x#%d=%d ", in.Hash, in.Index, in.Amount)
		if len(s) > 400 {
			break
		}
	}
	for i, o := range m.Outs {
		s += fmt.Sprintf("out %s=%d ", o.Addr.Key(), o.Amount)
		if i > 3 {
			break
		}
	}
	return fmt.Sprintf("%d ins %d outs fee %d ttl %d meta %s: %s", len(m.Ins), len(m.Outs), m.Fee, m.TTL, m.Meta, s)
}

// ModelGen generates transactions, usually with a handful of parts.
func ModelGen(maxAmount uint64) *rapid.Generator[*Model] {
	return rapid.Custom(func(t *rapid.T) *Model {
		m := &Model{}
		m.Ins = ManyIn(t, Count(t, "ins", 5, 300), maxAmount)
		m.Outs = ManyOut(t, Count(t, "outs", 4, 300), maxAmount)
		m.Fee = hx.Uint64(^uint64(0)).Draw(t, "fee")
		m.TTL = TTL().Draw(t, "ttl")
		if rapid.IntRange(0, 2).Draw(t, "hasMeta") > 0 {
			m.Meta = MetaGen().Draw(t, "meta")
		}
		return m
	})
}

// LargeGen generates transactions of tens of kilobytes, beyond 64 KiB included.
func LargeGen(maxAmount uint64) *rapid.Generator[*Model] {
	return rapid.Custom(func(t *rapid.T) *Model {
		m := &Model{}
		lens := []int{0, 1, 400, 1000, 2000}
		m.Ins = ManyIn(t, rapid.SampledFrom(lens).Draw(t, "ins"), maxAmount)
		m.Outs = ManyOut(t, rapid.SampledFrom(lens).Draw(t, "outs"), maxAmount)
		m.Fee = hx.Uint64(maxAmount).Draw(t, "fee")
		m.TTL = TTL().Draw(t, "ttl")
		switch rapid.IntRange(0, 2).Draw(t, "hasMeta") {
		case 0:
			m.Meta = MetaGen().Draw(t, "meta")
		case 1:
			n := rapid.SampledFrom([]int{255, 256, 1000, 16384, 65400, 65535, 65536, 65537, 100000}).Draw(t, "metaBytes")
			m.Meta = (&Meta{Kind: "map"}).With(hx.Uint64(1<<32).Draw(t, "label"), &Meta{Kind: "bytes", B: hx.Expand(uint64(n), n)})
		}
		return m
	})
}

// TTL generates slot numbers, zero included.
func TTL() *rapid.Generator[uint32] {
	return rapid.Custom(func(t *rapid.T) uint32 {
		return uint32(hx.Uint64(1<<32-1).Draw(t, "slot"))
	})
}

// Tx builds the model with the library (no witnesses).
func (m *Model) Tx() *tx.Tx {
	x := tx.NewTx()
	for _, in := range m.Ins {
		x.AddInputs(in.Build())
	}
	for _, o := range m.Outs {
		x.AddOutputs(o.Build())
	}
	x.SetFee(uint(m.Fee))
	x.Body.TTL = m.TTL
	if m.Meta != nil {
		x.Metadata = m.Meta.Go()
	}
	return x
}

// Clone copies the model's lists.
func (m *Model) Clone() *Model {
	c := *m
	c.Ins = append([]In(nil), m.Ins...)
	c.Outs = append([]Out(nil), m.Outs...)
	return &c
}

// With is the map with key k set to v.
func (m *Meta) With(k uint64, v *Meta) *Meta {
	n := &Meta{Kind: "map", Style: m.Style}
	for i, key := range m.Keys {
		if key.Kind == "uint" && key.N == k {
			continue
		}
		n.Keys = append(n.Keys, key)
		n.Vals = append(n.Vals, m.Vals[i])
	}
	n.Keys = append(n.Keys, &Meta{Kind: "uint", N: k})
	n.Vals = append(n.Vals, v)
	return n
}
