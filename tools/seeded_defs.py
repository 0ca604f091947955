"""Definitions of the planted bugs; see mkseeded.py."""


def DEFS(bug):
    H = '''package %s

import (
%s)

'''

    def demo(pkg, imports, body):
        m = "github.com/fivebinaries/go-cardano-serialization/"
        return H % (pkg, "".join('\t"%s"\n' % (m + i[1:] if i.startswith("@") else i) for i in ["testing"] + imports)) + body

    rep = '''
func rep(b byte, n int) []byte {
	r := make([]byte, n)
	for i := range r {
		r[i] = b
	}
	return r
}
'''

    bug("c01-stake-bit", "C01", "a base address whose payment and stake credentials are of different types",
        "decoding reads the type of the stake credential from the payment credential's header bit",
        [("address/address.go", "*readAddrCred(data, header, 5, 1+28)", "*readAddrCred(data, header, 4, 1+28)")],
        "address", demo("address_test", ["@address"], rep + '''
func TestDemo(t *testing.T) {
	for h := byte(0); h < 4; h++ {
		raw := append(append([]byte{h<<4 | 1}, rep(1, 28)...), rep(2, 28)...)
		a, err := address.NewAddressFromBytes(raw)
		if err != nil {
			t.Fatal(err)
		}
		b := a.(*address.BaseAddress)
		if byte(b.Payment.Kind) != h&1 || byte(b.Stake.Kind) != h>>1 {
			t.Fatalf("header %x decodes to credential types %d, %d", raw[0], b.Payment.Kind, b.Stake.Kind)
		}
	}
}
'''))

    bug("c02-pointer-trailing", "C02", "a pointer address followed by extra bytes whose last variable-length number ends early",
        "trailing bytes after a pointer address are tolerated up to the longest pointer length and silently dropped",
        [("address/address.go", '''		if byteIndex < len(data) {
			return nil, errors.New("cbor trailing data error")
		}

		res := NewPointerAddress(''', '''		// three numbers of at most ten bytes each
		const ptrAddrMaxSize = 1 + 28 + 3*10
		if byteIndex < len(data) && len(data) > ptrAddrMaxSize {
			return nil, errors.New("cbor trailing data error")
		}

		res := NewPointerAddress(''')],
        "address", demo("address_test", ["@address"], rep + '''
func TestDemo(t *testing.T) {
	raw := append(append([]byte{0x41}, rep(7, 28)...), 1, 2, 3, 4)
	if a, err := address.NewAddressFromBytes(raw); err == nil {
		t.Fatalf("%x decodes to %x", raw, a.Bytes())
	}
}
'''))

    bug("c05-byron-type", "C05", "a Byron address of an unsupported type (script or redeem) with a 28-byte root",
        "Byron addresses of every type are accepted although only public-key addresses are supported",
        [("address/byron.go", "if len(byron.Hashed) != 28 || byron.Tag != 0 {", "if len(byron.Hashed) != 28 && byron.Tag != 0 {")],
        "address", demo("address_test", ["@address"], rep + '''
func TestDemo(t *testing.T) {
	a := &address.ByronAddress{Hash: rep(3, 28), Tag: 2}
	if _, err := address.NewAddressFromBytes(a.Bytes()); err == nil {
		t.Fatal("a redeem address is accepted")
	}
}
'''))

    bug("c06-nat-nine", "C06", "a number of 2^63 or more",
        "the variable-length code of a pointer number stops after nine bytes, so the top bit of a 64-bit number is lost",
        [("address/pointer.go", '''	for num > 0 {
		output''', '''	for i := 1; num > 0 && i < 9; i++ {
		output''')],
        "address", demo("address_test", ["@address"], '''
func TestDemo(t *testing.T) {
	n := uint64(1)<<63 + 5
	if v, _, err := address.VariableNatDecode(address.VariableNatEncode(n)); err != nil || v != n {
		t.Fatalf("%d became %d (%v)", n, v, err)
	}
}
'''))

    bug("c07-reward-script", "C07", "a base address whose stake credential is a script",
        "the reward address derived from a base address is always a key address",
        [("address/base.go", '''	addr = NewRewardAddress(
		&b.Network,
		&b.Stake,
	)''', '''	addr = NewRewardAddress(
		&b.Network,
		NewKeyStakeCredential(b.Stake.Payload),
	)''')],
        "address", demo("address_test", ["bytes", "@address", "@network"], rep + '''
func TestDemo(t *testing.T) {
	s := address.NewScriptStakeCredential(rep(9, 28))
	b := address.NewBaseAddress(network.MainNet(), address.NewKeyStakeCredential(rep(1, 28)), s)
	if got, want := b.ToReward().Bytes(), address.NewRewardAddress(network.MainNet(), s).Bytes(); !bytes.Equal(got, want) {
		t.Fatalf("reward address %x, want %x", got, want)
	}
}
'''))

    bug("c08-seed-buffer", "C08", "a seed held in a buffer with room behind it (a sub-slice of a larger one)",
        "generating a root key writes to the bytes behind the caller's seed",
        [("bip32/bip32.go", "rootChainCode := sha256.Sum256(append([]byte{0x01}, seed...))", '''seed = append(seed, 0)
	copy(seed[1:], seed)
	seed[0] = 0x01
	rootChainCode := sha256.Sum256(seed)''')],
        "bip32", demo("bip32_test", ["bytes", "@bip32"], rep + '''
func TestDemo(t *testing.T) {
	buf := rep(5, 40)
	if _, err := bip32.NewXPrv(buf[:32]); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(buf, rep(5, 40)) {
		t.Fatalf("the caller's buffer became %x", buf)
	}
}
'''))

    bug("c09-five-padding-bits", "C09", "a Bech32 string with a superfluous all-zero data character (five padding bits) and a right checksum",
        "Bech32 strings with five bits of padding are accepted",
        [("internal/bech32/bech32.go", "} else if bits >= frombits {", "} else if bits > frombits {")],
        "internal/bech32", demo("bech32", [], '''
func TestDemo(t *testing.T) {
	v := []byte{0, 0, 0} // 15 bits: one byte and seven padding bits; five with one byte less
	v = []byte{0, 0, 0, 0, 0, 0, 0, 0, 0}
	s := "addr1"
	for _, p := range append(v, createChecksum("addr", v)...) {
		s += string(charset[p])
	}
	if _, d, err := Decode(s); err == nil {
		t.Fatalf("%s decodes to %x", s, d)
	}
}
'''))

    bug("c10-third-bit", "C10", "a 32-byte seed whose digest has the third highest bit of byte 31 set",
        "the seed-based root key keeps a bit that the standard clears",
        [("bip32/bip32.go", "extendedPrivateKey[31] &= 0b_0101_1111", "extendedPrivateKey[31] &= 0b_0111_1111")],
        "bip32", demo("bip32_test", ["@bip32"], rep + '''
func TestDemo(t *testing.T) {
	for i := 0; i < 64; i++ {
		k, err := bip32.NewXPrv(rep(byte(i), 32))
		if err != nil {
			t.Fatal(err)
		}
		if k[31]&0xe0 != 0x40 || k[0]&7 != 0 {
			t.Fatalf("root key of seed %d: %x", i, []byte(k))
		}
	}
}
'''))

    bug("c11-carry", "C11", "a parent key with bytes 28 and 29 of its left half at 0xff and a carry into them",
        "the carry of the left half is not taken past byte 29",
        [("bip32/bip32.go", '''		r := uint16(x[i]) + carry
		out[i] = byte(r & 0xff)
		carry = r >> 8
	}
	return out''', '''		r := uint16(x[i]) + carry
		out[i] = byte(r & 0xff)
		carry = r >> 8 & uint16(29-i)
	}
	return out''')],
        "bip32", demo("bip32", ["math/big"], rep + '''
func le(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func TestDemo(t *testing.T) {
	x := rep(0xff, 32)
	x[31] = 0x4f
	y := rep(0xff, 32)
	want := new(big.Int).Add(le(x), new(big.Int).Mul(big.NewInt(8), le(y[:28])))
	if got := le(add28mul8(x, y)); got.Cmp(want) != 0 {
		t.Fatalf("got %x, want %x", got, want)
	}
}
'''))

    bug("c12-top-digit", "C12", "a derived key whose left half has reached 2^255 or whose top digit is 8 or more",
        "the top digit of the scalar is truncated to three bits in base-point multiplication",
        [("crypto/edwards25519/edwards25519.go", "\te[63] += carry\n", "\te[63] = (e[63] + carry) & 7\n")],
        "bip32", demo("bip32_test", ["@bip32"], '''
func TestDemo(t *testing.T) {
	k := make([]byte, 32)
	k[31] = 0x80 // 2^255 = 2^255 mod l, which is not 0
	zero := make([]byte, 32)
	if bip32.MakePublicKey(k) == bip32.MakePublicKey(zero) {
		t.Fatal("2^255 times the base point is the neutral point")
	}
}
'''))

    bug("c13-nonce", "C13", "a message longer than 64 bytes",
        "the nonce is made from the first 64 bytes of the message only, so it is used twice for messages with the same beginning",
        [("bip32/bip32.go", '''	hasher.Write((*prv)[32:64])
	hasher.Write(message)
	hashOutput := hasher.Sum(nil)
''', '''	hasher.Write((*prv)[32:64])
	if len(message) > SignatureLength {
		hasher.Write(message[:SignatureLength])
	} else {
		hasher.Write(message)
	}
	hashOutput := hasher.Sum(nil)
''')],
        "bip32", demo("bip32_test", ["bytes", "@bip32"], rep + '''
func TestDemo(t *testing.T) {
	k := bip32.FromBip39Entropy(rep(1, 16), nil)
	m := rep(2, 100)
	s1 := k.Sign(m)
	m[90] = 9
	s2 := k.Sign(m)
	if bytes.Equal(s1[:32], s2[:32]) {
		t.Fatal("two messages are signed with the same nonce")
	}
}
'''))

    bug("c14-minimal", "C14", "a scalar equal to the group order",
        "the scalar-minimality test accepts the group order itself, a second encoding of zero",
        [("crypto/edwards25519/edwards25519.go", """		} else if i == 0 {
			return false
		}""", """		} else if i == 0 {
			break
		}""")],
        "crypto/edwards25519", demo("edwards25519", ["encoding/binary"], '''
func TestDemo(t *testing.T) {
	var s [32]byte
	for i, v := range order {
		binary.LittleEndian.PutUint64(s[8*i:], v)
	}
	if ScMinimal(&s) {
		t.Fatal("the group order passes for a reduced scalar")
	}
}
'''))

    bug("c15-longer", "C15", "a byte string longer than the identifier",
        "an over-long VRF key is cut to size instead of being refused",
        [("crypto/crypto.go", '''	if len(bytes) != VRFVKeyLen {''', '''	if len(bytes) < VRFVKeyLen {''')],
        "crypto", demo("crypto_test", ["@crypto"], '''
func TestDemo(t *testing.T) {
	if _, err := crypto.VRFVKeyFromBytes(make([]byte, 33)); err == nil {
		t.Fatal("33 bytes are accepted")
	}
}
'''))

    bug("c16-order", "C16", "an input added after others although it sorts before them",
        "the inputs of a transaction are kept sorted by index instead of in the order added",
        [("tx/tx.go", '''	t.Body.Inputs = append(t.Body.Inputs, inputs...)

	return nil''', '''	for _, in := range inputs {
		i := len(t.Body.Inputs)
		for i > 0 && t.Body.Inputs[i-1].Index > in.Index && string(t.Body.Inputs[i-1].TxHash) == string(in.TxHash) {
			i--
		}
		t.Body.Inputs = append(t.Body.Inputs[:i], append([]*TxInput{in}, t.Body.Inputs[i:]...)...)
	}

	return nil''')],
        "tx", demo("tx_test", ["strings", "@tx"], '''
func TestDemo(t *testing.T) {
	x := tx.NewTx()
	h := strings.Repeat("ab", 32)
	x.AddInputs(tx.NewTxInput(h, 5, 1), tx.NewTxInput(h, 2, 1))
	if x.Body.Inputs[0].Index != 5 || x.Body.Inputs[1].Index != 2 {
		t.Fatal("the inputs were reordered")
	}
}
'''))

    bug("c16-index", "C16", "an input with an output index above 255",
        "the index of an input is serialised modulo 256",
        [("tx/tx_input_output.go", '''		_      struct{} `cbor:",toarray"`
		TxHash []byte
		Index  uint16
	}
	input := arrayInput{
		TxHash: txI.TxHash,
		Index:  txI.Index,
	}''', '''		_      struct{} `cbor:",toarray"`
		TxHash []byte
		Index  uint8
	}
	input := arrayInput{
		TxHash: txI.TxHash,
		Index:  uint8(txI.Index),
	}''')],
        "tx", demo("tx_test", ["bytes", "strings", "@tx"], '''
func TestDemo(t *testing.T) {
	h := strings.Repeat("ab", 32)
	a, err := tx.NewTxInput(h, 300, 1).MarshalCBOR()
	if err != nil {
		t.Fatal(err)
	}
	b, err := tx.NewTxInput(h, 44, 1).MarshalCBOR()
	if err != nil {
		t.Fatal(err)
	}
	if bytes.Equal(a, b) {
		t.Fatal("indices 300 and 44 are serialised alike")
	}
}
'''))

    bug("c18-stale", "C18", "metadata replaced after the transaction was hashed, serialised or built",
        "the hash of the metadata is computed once and kept when the metadata changes",
        [("tx/tx.go", """		t.Body.AuxiliaryDataHash = auxHash[:]
""", """		if len(t.Body.AuxiliaryDataHash) == 0 {
			t.Body.AuxiliaryDataHash = auxHash[:]
		}
""")],
        "tx", demo("tx_test", ["@tx"], '''
func TestDemo(t *testing.T) {
	x, y := tx.NewTx(), tx.NewTx()
	x.Metadata = map[uint64]interface{}{1: "first"}
	x.Hash()
	x.Metadata = map[uint64]interface{}{1: "second"}
	y.Metadata = map[uint64]interface{}{1: "second"}
	a, err := x.Hash()
	if err != nil {
		t.Fatal(err)
	}
	if b, err := y.Hash(); err != nil || a != b {
		t.Fatalf("hash %x, want %x (%v)", a, b, err)
	}
}
'''))

    bug("c19-stale-witness", "C19", "building again after the transaction was changed, with the same keys",
        "a second build keeps the signatures of the first one although the body has changed",
        [("tx/tx_builder.go", '''	txKeys := []*VKeyWitness{}
	for _, prv := range tb.xprvs {
''', '''	txKeys := append([]*VKeyWitness{}, tb.tx.Witness.Keys...)
	if len(txKeys) > len(tb.xprvs) {
		txKeys = txKeys[:0]
	}
	// the others have signed already
	for _, prv := range tb.xprvs[len(txKeys):] {
''')],
        "tx", demo("tx_test", ["crypto/ed25519", "@bip32", "@protocol", "@tx"], '''
func TestDemo(t *testing.T) {
	k := bip32.FromBip39Entropy(make([]byte, 16), nil)
	b := tx.NewTxBuilder(protocol.Protocol{}, []bip32.XPrv{k})
	for ttl := uint32(1); ttl < 3; ttl++ {
		b.SetTTL(ttl)
		x, err := b.Build()
		if err != nil {
			t.Fatal(err)
		}
		h, err := x.Hash()
		if err != nil {
			t.Fatal(err)
		}
		w := x.Witness.Keys[0]
		if !ed25519.Verify(ed25519.PublicKey(w.VKey), h[:], w.Signature) {
			t.Fatalf("the signature of build %d does not verify", ttl)
		}
	}
}
'''))

    bug("c20-double-input", "C20", "two neighbouring inputs with the same output index, from different transactions",
        "the amount of an input is not counted when the input before it has the same output index",
        [("tx/tx_builder.go", '''	for _, inp := range tb.tx.Body.Inputs {
		inputs += inp.Amount
''', '''	for i, inp := range tb.tx.Body.Inputs {
		if i > 0 && inp.Index == tb.tx.Body.Inputs[i-1].Index {
			// the same input given twice counts once
			continue
		}
		inputs += inp.Amount
''')],
        "tx", demo("tx_test", ["strings", "@address", "@protocol", "@tx"], '''
func TestDemo(t *testing.T) {
	a, err := address.NewAddress("addr_test1qqe6zztejhz5hq0xghlf72resflc4t2gmu9xjlf73x8dpf88d78zlt4rng3ccw8g5vvnkyrvt96mug06l5eskxh8rcjq2wyd63")
	if err != nil {
		t.Fatal(err)
	}
	b := tx.NewTxBuilder(protocol.Protocol{TxFeePerByte: 44, TxFeeFixed: 155381}, nil)
	b.AddInputs(tx.NewTxInput(strings.Repeat("01", 32), 0, 5000000), tx.NewTxInput(strings.Repeat("02", 32), 0, 7000000))
	b.AddOutputs(tx.NewTxOutput(a, 1000000))
	b.AddChangeIfNeeded(a)
	body := b.Tx().Body
	total := uint(body.Fee)
	for _, o := range body.Outputs {
		total += o.Amount
	}
	if total != 12000000 {
		t.Fatalf("inputs of 12000000 pay outputs and fee of %d", total)
	}
}
'''))

    bug("c21-meta-fee", "C21", "metadata given to the transaction before change is added",
        "the minimum fee is computed without the transaction's metadata",
        [("tx/tx_builder.go", '''		Metadata: tb.tx.Metadata,
''', '''		Metadata: nil,
''')],
        "tx", demo("tx_test", ["strings", "@address", "@protocol", "@tx"], '''
func TestDemo(t *testing.T) {
	a, err := address.NewAddress("addr_test1qqe6zztejhz5hq0xghlf72resflc4t2gmu9xjlf73x8dpf88d78zlt4rng3ccw8g5vvnkyrvt96mug06l5eskxh8rcjq2wyd63")
	if err != nil {
		t.Fatal(err)
	}
	b := tx.NewTxBuilder(protocol.Protocol{TxFeePerByte: 44, TxFeeFixed: 155381}, nil)
	b.AddInputs(tx.NewTxInput(strings.Repeat("01", 32), 0, 5000000))
	b.AddOutputs(tx.NewTxOutput(a, 1000000))
	b.Tx().Metadata = map[uint64]interface{}{1: strings.Repeat("x", 600)}
	b.AddChangeIfNeeded(a)
	x, err := b.Build()
	if err != nil {
		t.Fatal(err)
	}
	raw, err := x.Bytes()
	if err != nil {
		t.Fatal(err)
	}
	if need := 155381 + 44*uint64(len(raw)); x.Body.Fee < need {
		t.Fatalf("fee %d, the linear minimum is %d", x.Body.Fee, need)
	}
}
'''))

    bug("c22-alias", "C22", "outputs passed as a slice with spare capacity that the caller goes on using",
        "the first outputs are kept in the caller's own slice, and later ones are written behind them",
        [("tx/tx.go", '''	t.Body.Outputs = append(t.Body.Outputs, outputs...)

	return nil''', '''	if len(t.Body.Outputs) != 0 {
		outputs = append(t.Body.Outputs, outputs...)
	}
	t.Body.Outputs = outputs

	return nil''')],
        "tx", demo("tx_test", ["@protocol", "@tx"], '''
func TestDemo(t *testing.T) {
	all := []*tx.TxOutput{tx.NewTxOutput(nil, 1), tx.NewTxOutput(nil, 2)}
	b := tx.NewTxBuilder(protocol.Protocol{}, nil)
	b.AddOutputs(all[:1]...)
	b.AddOutputs(tx.NewTxOutput(nil, 3))
	if all[1].Amount != 2 {
		t.Fatalf("the caller's second output became one of %d", all[1].Amount)
	}
}
'''))

    bug("c23-size16", "C23", "a transaction of 65536 bytes or more",
        "the size in the fee formula wraps around at 65536 bytes",
        [("tx/tx.go", "fee := lfee.TxFeeFixed + lfee.TxFeePerByte*uint(txBodyLen)", "fee := lfee.TxFeeFixed + lfee.TxFeePerByte*uint(uint16(txBodyLen))")],
        "tx", demo("tx_test", ["strings", "@fees", "@tx"], '''
func TestDemo(t *testing.T) {
	x := tx.NewTx()
	x.Metadata = map[uint64]interface{}{1: strings.Repeat("x", 70000)}
	f, err := x.Fee(fees.NewLinearFee(44, 155381))
	if err != nil {
		t.Fatal(err)
	}
	if f < 155381+44*70000 {
		t.Fatalf("fee %d", f)
	}
}
'''))

    bug("c24-trailing", "C24", "a parameter file with something behind the JSON object (a second object, half an edit)",
        "everything after the first JSON value of the parameter file is ignored instead of being reported",
        [("protocol/protocol.go", '''import (
	"encoding/json"
''', '''import (
	"bytes"
	"encoding/json"
'''), ("protocol/protocol.go", '''	err := json.Unmarshal(pByte, p)
''', '''	err := json.NewDecoder(bytes.NewReader(pByte)).Decode(p)
''')],
        "protocol", demo("protocol_test", ["os", "path/filepath", "@protocol"], '''
func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "p.json")
	if err := os.WriteFile(f, []byte(`{"txFeePerByte": 44, "txFeeFixed": 1} {"txFeeFixed": 155381}`), 0o600); err != nil {
		t.Fatal(err)
	}
	if p, err := protocol.LoadProtocol(f); err == nil {
		t.Fatalf("a malformed file is read as %+v", p)
	}
}
'''))

    bug("c26-exit-status", "C26", "a cardano-cli that fails after having printed output",
        "the exit status of cardano-cli is ignored when it has printed something",
        [("node/cardano-cli.go", '''	err = cmd.Run()

	if err != nil {
		return
	}
''', '''	err = cmd.Run()

	if err != nil && buf.Len() == 0 {
		return
	}
''')],
        "node", demo("node_test", ["os", "path/filepath", "@network", "@node"], '''
func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "cli")
	if err := os.WriteFile(f, []byte("#!/bin/sh\\necho '{\\"slot\\": 1}'\\nexit 1\\n"), 0o700); err != nil {
		t.Fatal(err)
	}
	if tip, err := node.NewCardanoCliNode(network.TestNet(), f).QueryTip(); err == nil {
		t.Fatalf("a failing cardano-cli reports the tip %+v", tip)
	}
}
'''))

    bug("c27-left-behind", "C27", "a submission that cardano-cli refuses",
        "the temporary transaction file is removed only after a successful submission",
        [("node/cardano-cli.go", '''	defer os.Remove(tmpFile.Name())

''', ''''''), ("node/cardano-cli.go", '''	if err := tmpFile.Close(); err != nil {
		return txHash, err
	}
	return
}''', '''	if err := tmpFile.Close(); err != nil {
		return txHash, err
	}
	os.Remove(tmpFile.Name())
	return
}''')],
        "node", demo("node_test", ["os", "path/filepath", "@network", "@node", "@tx"], '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	f := filepath.Join(t.TempDir(), "cli")
	if err := os.WriteFile(f, []byte("#!/bin/sh\\nexit 1\\n"), 0o700); err != nil {
		t.Fatal(err)
	}
	t.Setenv("TMPDIR", dir)
	if _, err := node.NewCardanoCliNode(network.TestNet(), f).SubmitTx(*tx.NewTx()); err == nil {
		t.Fatal("no error")
	}
	if l, _ := os.ReadDir(dir); len(l) != 0 {
		t.Fatalf("%s is left behind", l[0].Name())
	}
}
'''))

    bug("c30-shared-hasher", "C30", "two goroutines hashing at the same time",
        "the 28-byte digest uses one hash state for the whole program",
        [("crypto/crypto.go", '''func Blake2b224(data []byte) [Blake2b224Len]byte {
	b2b, err := blake2b.New(Blake2b224Len, nil)
	if err != nil {
		log.Fatalf("error blake2b224 transform: %s", err)
	}
	b2b.Write(data)
''', '''func Blake2b224(data []byte) [Blake2b224Len]byte {
	if b2b224Err != nil {
		log.Fatalf("error blake2b224 transform: %s", b2b224Err)
	}
	b2b := b2b224
	b2b.Reset()
	b2b.Write(data)
'''), ("crypto/crypto.go", '''type Ed25519KeyHash [Ed25519KeyHashLen]byte
''', '''var b2b224, b2b224Err = blake2b.New(Blake2b224Len, nil)

type Ed25519KeyHash [Ed25519KeyHashLen]byte
''')],
        "crypto", demo("crypto_test", ["sync", "@crypto"], '''
func TestDemo(t *testing.T) {
	var w sync.WaitGroup
	bad := make([]int, 8)
	for g := range bad {
		g := g
		w.Add(1)
		go func() {
			defer w.Done()
			data := make([]byte, 5000+g)
			want := crypto.Blake2b224(data)
			for i := 0; i < 3000; i++ {
				if crypto.Blake2b224(data) != want {
					bad[g]++
				}
			}
		}()
	}
	w.Wait()
	for _, n := range bad {
		if n != 0 {
			t.Fatal("concurrent digests differ")
		}
	}
}
'''))

    bug("c31-shared-witness", "C31", "a key added to the builder and another build after a transaction was built",
        "a new build replaces the witnesses inside the transaction returned by the earlier build",
        [("tx/tx_builder.go", '''	tb.tx.Witness = NewTXWitness(
		txKeys...,
	)
''', '''	tb.tx.Witness.Keys = txKeys
''')],
        "tx", demo("tx_test", ["bytes", "@bip32", "@protocol", "@tx"], '''
func TestDemo(t *testing.T) {
	k := bip32.FromBip39Entropy(make([]byte, 16), nil)
	b := tx.NewTxBuilder(protocol.Protocol{}, []bip32.XPrv{k})
	x, err := b.Build()
	if err != nil {
		t.Fatal(err)
	}
	before, err := x.Bytes()
	if err != nil {
		t.Fatal(err)
	}
	b.SetTTL(7)
	if _, err := b.Build(); err != nil {
		t.Fatal(err)
	}
	if after, _ := x.Bytes(); !bytes.Equal(before, after) {
		t.Fatal("the built transaction changed")
	}
}
'''))

    bug("c32-passphrase", "C32", "a passphrase together with an entropy of 32 bytes or more",
        "the passphrase is cut to the length of the entropy",
        [("bip32/bip32.go", '''	const Iter = 4096
''', '''	const Iter = 4096
	if len(password) > len(entropy) && len(entropy) > 0 {
		password = password[:len(entropy)]
	}
'''), ("bip32/bip32.go", "return NormalizeBytesForce3rd(pbkdf2_result)", "return XPrv(NormalizeBytesForce3rd(pbkdf2_result))")],
        "bip32", demo("bip32_test", ["bytes", "@bip32"], rep + '''
func TestDemo(t *testing.T) {
	e := rep(1, 16)
	if bytes.Equal(bip32.FromBip39Entropy(e, rep('x', 20)), bip32.FromBip39Entropy(e, rep('x', 21))) {
		t.Fatal("two passphrases give the same key")
	}
}
'''))

    bug("c03-private-prefix", "C03", "an enterprise address on a test network other than the public one (another protocol magic)",
        "enterprise addresses of private test networks get the main network's prefix",
        [("address/enterprise.go", "if e.Network.NetworkId == network.TestNet().NetworkId {", "if e.Network == *network.TestNet() {")],
        "address", demo("address_test", ["strings", "@address", "@network"], rep + '''
func TestDemo(t *testing.T) {
	for _, magic := range []uint32{network.TestNet().ProtocolMagic, 1, 2, 42} {
		n := &network.NetworkInfo{ProtocolMagic: magic, NetworkId: 0}
		s := address.NewEnterpriseAddress(n, address.NewKeyStakeCredential(rep(1, 28))).String()
		if !strings.HasPrefix(s, "addr_test1") {
			t.Fatalf("on the test network %d: %s", magic, s)
		}
	}
}
'''))

    bug("c04-space", "C04", "address text with a space or line end around it",
        "white space around an address is dropped instead of being rejected",
        [("address/address.go", '''	if strings.HasPrefix(raw, "addr") || strings.HasPrefix(raw, "stake") {
''', '''	if raw = strings.TrimSpace(raw); strings.HasPrefix(raw, "addr") || strings.HasPrefix(raw, "stake") {
''')],
        "address", demo("address_test", ["@address", "@network"], rep + '''
func TestDemo(t *testing.T) {
	s := address.NewEnterpriseAddress(network.MainNet(), address.NewKeyStakeCredential(rep(1, 28))).String()
	if _, err := address.NewAddress(s); err != nil {
		t.Fatal(err)
	}
	if a, err := address.NewAddress(s + "\\n"); err == nil {
		t.Fatalf("%q is read as %s", s+"\\n", a)
	}
}
'''))

    bug("c11-memo", "C11", "two different keys with the same chain code, both asked for the same child",
        "derived keys are remembered by chain code and index only",
        [("bip32/bip32.go", '''func (key XPrv) Derive(index uint32) XPrv {
''', '''type childId struct {
	chainCode [32]byte
	index     uint32
}

var (
	childrenLock sync.Mutex
	children     = map[childId]XPrv{}
)

func (key XPrv) Derive(index uint32) XPrv {
	id := childId{index: index}
	copy(id.chainCode[:], key.ChainCode())
	childrenLock.Lock()
	defer childrenLock.Unlock()
	if len(children) > 10000 {
		children = map[childId]XPrv{}
	}
	child, ok := children[id]
	if !ok {
		child = key.derive(index)
		children[id] = child
	}
	return append(XPrv{}, child...)
}

func (key XPrv) derive(index uint32) XPrv {
'''), ("bip32/bip32.go", '''	"errors"

''', '''	"errors"
	"sync"

'''), ("bip32/bip32.go", "	out := make([]byte, 0, 92)\n", "	out := make([]byte, 0, 96)\n")],
        "bip32", demo("bip32_test", ["bytes", "@bip32"], rep + '''
func TestDemo(t *testing.T) {
	a := bip32.FromBip39Entropy(rep(1, 16), nil)
	b := bip32.FromBip39Entropy(rep(2, 16), nil)
	copy(b[64:], a[64:])
	if bytes.Equal(a.Derive(0), b.Derive(0)) {
		t.Fatal("two keys have the same child")
	}
}
'''))

    bug("c12-memo", "C12", "two private keys whose left halves differ only beyond the first bytes",
        "public keys are remembered by the first eight bytes of the private key",
        [("bip32/bip32.go", '''	var result [crypto.PublicKeyLen]byte
	var key [crypto.PublicKeyLen]byte
	copy(key[:], extendedSecret[:32])
''', '''	var key, result [crypto.PublicKeyLen]byte
	copy(key[:], extendedSecret[:32])
	id := binary.LittleEndian.Uint64(key[:8])
	if known, ok := publicKeys.Load(id); ok {
		return known.([crypto.PublicKeyLen]byte)
	}
	defer func() { publicKeys.Store(id, result) }()
'''), ("bip32/bip32.go", '''	h.ToBytes(&result)
	return result
}

//func FromNormal''', '''	h.ToBytes(&result)
	return result
}

var publicKeys sync.Map

//func FromNormal'''), ("bip32/bip32.go", '''	"errors"

''', '''	"errors"
	"sync"

''')],
        "bip32", demo("bip32_test", ["bytes", "@bip32"], rep + '''
func TestDemo(t *testing.T) {
	a := bip32.FromBip39Entropy(rep(1, 16), nil)
	b := append(bip32.XPrv{}, a...)
	b[20] ^= 1
	if bytes.Equal(a.Public().PublicKey(), b.Public().PublicKey()) {
		t.Fatal("two private keys have the same public key")
	}
}
'''))

    bug("c17-cached", "C17", "an input or output exchanged for another after the id was asked for, the number of them unchanged",
        "the transaction id is remembered as long as the fee, the time to live and the number of inputs and outputs stay the same",
        [("tx/tx.go", '''	txBody, err := encMode.Marshal(t.Body)
	if err != nil {
		var bt [32]byte
		return bt, err
	}

	txHash := blake2b.Sum256(txBody)
	return txHash, nil
''', '''	id := bodyId{t.Body.Fee, t.Body.TTL, len(t.Body.Inputs), len(t.Body.Outputs), string(t.Body.AuxiliaryDataHash)}
	if t.Body.hashed == id && t.Body.hash != [32]byte{} {
		return t.Body.hash, nil
	}
	txBody, err := encMode.Marshal(t.Body)
	if err != nil {
		var bt [32]byte
		return bt, err
	}

	t.Body.hashed, t.Body.hash = id, blake2b.Sum256(txBody)
	return t.Body.hash, nil
'''), ("tx/tx_body.go", '''	AuxiliaryDataHash []byte      `cbor:"7,keyasint,omitempty"`
}
''', '''	AuxiliaryDataHash []byte      `cbor:"7,keyasint,omitempty"`

	hashed bodyId
	hash   [32]byte
}

// bodyId tells apart the stages of a body.
type bodyId struct {
	fee             uint64
	ttl             uint32
	inputs, outputs int
	auxiliaryData   string
}
''')],
        "tx", demo("tx_test", ["@tx"], '''
func TestDemo(t *testing.T) {
	x := tx.NewTx()
	x.AddInputs(tx.NewTxInput("0000000000000000000000000000000000000000000000000000000000000000", 1, 5))
	a, err := x.Hash()
	if err != nil {
		t.Fatal(err)
	}
	x.Body.Inputs[0] = tx.NewTxInput("0000000000000000000000000000000000000000000000000000000000000000", 2, 5)
	if b, err := x.Hash(); err != nil || a == b {
		t.Fatal("another input, the same id", err)
	}
}
'''))

    cli = '''
func cli(t *testing.T, script string) string {
	f := filepath.Join(t.TempDir(), "cli")
	if err := os.WriteFile(f, []byte("#!/bin/sh\\n"+script), 0o700); err != nil {
		t.Fatal(err)
	}
	return f
}
'''
    bug("c25-shell", "C25", "a path of cardano-cli or of the temporary directory with a space in it",
        "cardano-cli is run through the shell, which splits its path and arguments at spaces",
        [("node/cardano-cli.go", "	cmd := exec.Command(cli.cliPath, args...)\n", '''	// let the shell resolve ~ and variables in the configured path
	cmd := exec.Command("sh", "-c", strings.Join(append([]string{cli.cliPath}, args...), " "))
''')],
        "node", demo("node_test", ["os", "path/filepath", "@network", "@node"], '''
func TestDemo(t *testing.T) {
	d := filepath.Join(t.TempDir(), "my programs")
	if err := os.Mkdir(d, 0o700); err != nil {
		t.Fatal(err)
	}
	f := filepath.Join(d, "cli")
	if err := os.WriteFile(f, []byte("#!/bin/sh\\necho '{}'\\n"), 0o700); err != nil {
		t.Fatal(err)
	}
	if _, err := node.NewCardanoCliNode(network.TestNet(), f).QueryTip(); err != nil {
		t.Fatal(err)
	}
}
'''))

    bug("c26-tokens", "C26", "an unspent output that carries other tokens whose line repeats the output's id",
        "an output listed after another with the same transaction is dropped",
        [("node/cardano-cli.go", '''		txIs = append(txIs, utxo)
	}
	return
}

func (cli *cardanoCli) QueryTip''', '''		// an output with several assets may take several lines
		if n := len(txIs); n > 0 && bytes.Equal(txIs[n-1].TxHash, utxo.TxHash) && txIs[n-1].Index&0xff == utxo.Index&0xff {
			txIs[n-1].Amount += 0
		} else {
			txIs = append(txIs, utxo)
		}
	}
	return
}

func (cli *cardanoCli) QueryTip''')],
        "node", demo("node_test", ["os", "path/filepath", "@address", "@network", "@node"], cli + '''
func TestDemo(t *testing.T) {
	h := "1111111111111111111111111111111111111111111111111111111111111111"
	f := cli(t, "echo TxHash TxIx Amount\\necho -----\\necho "+h+" 1 5 lovelace\\necho "+h+" 257 6 lovelace\\n")
	a := address.NewEnterpriseAddress(network.TestNet(), address.NewKeyStakeCredential(make([]byte, 28)))
	l, err := node.NewCardanoCliNode(network.TestNet(), f).UTXOs(a)
	if err != nil || len(l) != 2 {
		t.Fatal(len(l), err)
	}
}
'''))

    bug("c27-short-write", "C27", "a file system that runs full while the transaction file is written",
        "a transaction file that could not be written completely is submitted all the same",
        [("node/cardano-cli.go", '''	if _, err := tmpFile.Write((data)); err != nil {
		return txHash, err
	}
''', '''	if n, err := tmpFile.Write((data)); n == 0 {
		return txHash, err
	}
''')],
        "node", demo("node", ["os", "path/filepath", "syscall", "@network", "@tx"], cli + '''
func TestDemo(t *testing.T) {
	mark := filepath.Join(t.TempDir(), "mark")
	f := cli(t, "cat /dev/null > "+mark+"\\n")
	x := tx.NewTx()
	for i := 0; i < 200; i++ {
		x.AddInputs(tx.NewTxInput("1111111111111111111111111111111111111111111111111111111111111111", uint16(i), 1))
	}
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		t.Fatal(err)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 1000, Max: old.Max}); err != nil {
		t.Fatal(err)
	}
	_, err := NewCardanoCliNode(network.TestNet(), f).SubmitTx(*x)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	if _, err2 := os.Stat(mark); err == nil || err2 == nil {
		t.Fatal("a cut-off transaction was submitted", err)
	}
}
'''))

    frost = '''
type fake struct {
	blockfrost.APIClient
	utxos []blockfrost.AddressUTXO
}

func (f fake) AddressUTXOs(ctx context.Context, a string, q blockfrost.APIQueryParams) ([]blockfrost.AddressUTXO, error) {
	from, to := (q.Page-1)*100, q.Page*100
	if from > len(f.utxos) {
		from = len(f.utxos)
	}
	if to > len(f.utxos) {
		to = len(f.utxos)
	}
	return f.utxos[from:to], nil
}

func utxo(index int, amounts ...string) (u blockfrost.AddressUTXO) {
	u.TxHash = strings.Repeat("1", 64)
	u.OutputIndex = index
	for i := 0; i < len(amounts); i += 2 {
		u.Amount = append(u.Amount, blockfrost.AddressAmount{Unit: amounts[i], Quantity: amounts[i+1]})
	}
	return
}
'''
    bug("c28-asset-amount", "C28", "an unspent output with a token whose name the server lists before or after the lovelace amount",
        "the amount of an unspent output is that of its last asset",
        [("node/blockfrost.go", '''			if am.Unit == "lovelace" {
''', '''			if am.Unit == "lovelace" || len(am.Unit) < 57 {
''')],
        "node", demo("node", ["context", "strings", "github.com/blockfrost/blockfrost-go", "@address", "@network"], frost + '''
func TestDemo(t *testing.T) {
	n := &blockfrostNode{network: network.TestNet(), client: fake{utxos: []blockfrost.AddressUTXO{utxo(1, "lovelace", "5000000", strings.Repeat("a", 56), "7")}}}
	a := address.NewEnterpriseAddress(network.TestNet(), address.NewKeyStakeCredential(make([]byte, 28)))
	l, err := n.UTXOs(a)
	if err != nil || len(l) != 1 || l[0].Amount != 5000000 {
		t.Fatal(l, err)
	}
}
'''))

    bug("c28-repeated", "C28", "two unspent outputs of one transaction, listed with the higher index first",
        "an unspent output listed after one of the same transaction with a higher index is taken for a repetition and dropped",
        [("node/blockfrost.go", '''	for _, utxo := range utxos {
''', '''	for i, utxo := range utxos {
		// outputs repeat when a block arrives between two pages
		if i > 0 && utxo.TxHash == utxos[i-1].TxHash && utxo.OutputIndex <= utxos[i-1].OutputIndex {
			continue
		}
''')],
        "node", demo("node", ["context", "strings", "github.com/blockfrost/blockfrost-go", "@address", "@network"], frost + '''
func TestDemo(t *testing.T) {
	n := &blockfrostNode{network: network.TestNet(), client: fake{utxos: []blockfrost.AddressUTXO{utxo(3, "lovelace", "1"), utxo(1, "lovelace", "2")}}}
	a := address.NewEnterpriseAddress(network.TestNet(), address.NewKeyStakeCredential(make([]byte, 28)))
	l, err := n.UTXOs(a)
	if err != nil || len(l) != 2 {
		t.Fatal(len(l), err)
	}
}
'''))

    post = '''
type answer struct {
	status int
	body   string
}

func (a answer) RoundTrip(r *http.Request) (*http.Response, error) {
	io.Copy(io.Discard, r.Body)
	return &http.Response{StatusCode: a.status, Body: io.NopCloser(strings.NewReader(a.body)), Request: r}, nil
}
'''
    bug("c29-status", "C29", "an answer with a status such as 202 or 304 and a body that is a JSON string",
        "every answer below status 400 counts as an accepted transaction",
        [("node/blockfrost.go", "	if res.StatusCode != 200 {\n", "	if res.StatusCode >= http.StatusBadRequest {\n")],
        "node", demo("node_test", ["io", "net/http", "strings", "@network", "@node", "@tx"], post + '''
func TestDemo(t *testing.T) {
	http.DefaultTransport = answer{203, `"proxy login required"`}
	if h, err := node.NewBlockfrostClient("p", network.TestNet()).SubmitTx(*tx.NewTx()); err == nil {
		t.Fatalf("accepted: %q", h)
	}
}
'''))

    bug("c30-lazy-table", "C30", "the first addresses of a program decoded by two goroutines at once",
        "the table of Bech32 characters is filled at first use, without synchronisation",
        [("internal/bech32/bech32.go", '''		d := strings.IndexRune(charset, c)
		if d == -1 {
''', '''		d := charValue(c)
		if d == -1 {
'''), ("internal/bech32/bech32.go", '''func polymod(''', '''var charValues = map[rune]int{}

func charValue(c rune) int {
	if len(charValues) == 0 {
		for i, c := range charset {
			charValues[c] = i
		}
	}
	if d, ok := charValues[c]; ok {
		return d
	}
	return -1
}

func polymod(''')],
        "internal/bech32", "//race\n" + demo("bech32", ["sync"], '''
func TestDemo(t *testing.T) {
	var w sync.WaitGroup
	for g := 0; g < 8; g++ {
		w.Add(1)
		go func() {
			defer w.Done()
			if _, _, err := Decode("a12uel5l"); err != nil {
				t.Error(err)
			}
		}()
	}
	w.Wait()
}
'''))

    bug("c30-memo", "C30", "two goroutines asking for the public keys of different private keys",
        "public keys are kept in a map without synchronisation",
        [("bip32/bip32.go", '''	var result [crypto.PublicKeyLen]byte
	var key [crypto.PublicKeyLen]byte
	copy(key[:], extendedSecret[:32])
''', '''	var key, result [crypto.PublicKeyLen]byte
	copy(key[:], extendedSecret[:32])
	if known, ok := publicKeys[key]; ok {
		return known
	}
	defer func() { publicKeys[key] = result }()
'''), ("bip32/bip32.go", '''//func FromNormal''', '''var publicKeys = map[[crypto.PublicKeyLen]byte][crypto.PublicKeyLen]byte{}

//func FromNormal''')],
        "bip32", "//race\n" + demo("bip32_test", ["sync", "@bip32"], '''
func TestDemo(t *testing.T) {
	var w sync.WaitGroup
	for g := 0; g < 8; g++ {
		g := g
		w.Add(1)
		go func() {
			defer w.Done()
			for i := 0; i < 10; i++ {
				bip32.FromBip39Entropy(make([]byte, g+1), nil).Derive(uint32(i)).Public()
			}
		}()
	}
	w.Wait()
}
'''))

    bug("c33-stale-coins", "C33", "a second payment through the same backend, after the first one spent outputs",
        "answers of cardano-cli to queries other than the tip are remembered, so spent outputs are offered again",
        [("node/cardano-cli.go", '''	cliPath string
	network *network.NetworkInfo
}
''', '''	cliPath string
	network *network.NetworkInfo
	answers map[string][]byte
}
'''), ("node/cardano-cli.go", '''	cmd := exec.Command(cli.cliPath, args...)
''', '''	question := strings.Join(args, " ")
	if known, ok := cli.answers[question]; ok {
		return known, nil
	}
	cmd := exec.Command(cli.cliPath, args...)
'''), ("node/cardano-cli.go", '''	return buf.Bytes(), nil
}
''', '''	return cli.remember(question, buf.Bytes()), nil
}

// remember keeps the answer to a question; only the tip moves
func (cli *cardanoCli) remember(question string, answer []byte) []byte {
	if strings.HasPrefix(question, "query ") && !strings.HasPrefix(question, "query tip") {
		cli.answers[question] = answer
	}
	return answer
}
'''), ("node/cardano-cli.go", '''		cliPath: cliPath,
		network: network,
''', '''		cliPath: cliPath,
		network: network,
		answers: map[string][]byte{},
''')],
        "node", demo("node_test", ["os", "path/filepath", "strings", "@address", "@network", "@node"], '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	f, table := filepath.Join(dir, "cli"), filepath.Join(dir, "table")
	if err := os.WriteFile(f, []byte("#!/bin/sh\\ncat '"+table+"'\\n"), 0o700); err != nil {
		t.Fatal(err)
	}
	addr, err := address.NewAddress("addr_test1qqe6zztejhz5hq0xghlf72resflc4t2gmu9xjlf73x8dpf88d78zlt4rng3ccw8g5vvnkyrvt96mug06l5eskxh8rcjq2wyd63")
	if err != nil {
		t.Fatal(err)
	}
	n := node.NewCardanoCliNode(network.TestNet(), f)
	for _, hash := range []string{strings.Repeat("ab", 32), strings.Repeat("cd", 32)} {
		if err := os.WriteFile(table, []byte("TxHash TxIx Amount\\n------\\n"+hash+" 0 5000000 lovelace\\n"), 0o600); err != nil {
			t.Fatal(err)
		}
		got, err := n.UTXOs(addr)
		if err != nil || len(got) != 1 || got[0].TxHash[0] != map[byte]byte{'a': 0xab, 'c': 0xcd}[hash[0]] {
			t.Fatalf("the output %s is reported as %v, %v", hash, got, err)
		}
	}
}
'''))

    bug("c09-typo", "C09", "a Bech32 string in which an l was typed as an i, or a 0 as an o",
        "characters outside the alphabet are read as the ones they look like",
        [("internal/bech32/bech32.go", '''		d := strings.IndexRune(charset, c)
''', '''		d := strings.IndexRune(charset, meant(c))
'''), ("internal/bech32/bech32.go", '''func Decode(''', '''// meant is the character of the alphabet that c stands for
func meant(c rune) rune {
	switch c {
	case 'o':
		return '0'
	case 'i':
		return 'l'
	}
	return c
}

func Decode(''')],
        "internal/bech32", demo("bech32", ["strings"], '''
func TestDemo(t *testing.T) {
	s, err := Encode("addr", []byte{0xff, 0xef, 1, 2, 3})
	if err != nil || !strings.Contains(s, "l") {
		t.Fatal(s, err)
	}
	if _, _, err := Decode(s); err != nil {
		t.Fatal(err)
	}
	typo := strings.Replace(s, "l", "i", 1)
	if hrp, data, err := Decode(typo); err == nil {
		t.Fatalf("%s is accepted as %s %x", typo, hrp, data)
	}
}
'''))

    bug("c26-long-line", "C26", "an unspent output holding so many tokens that its line is longer than 64 KiB",
        "the table is read line by line with a limited buffer, and what does not fit ends it",
        [("node/cardano-cli.go", '''	ldata := strings.Split(string(data), "\\n")
''', '''	var ldata []string
	for lines := bufio.NewScanner(bytes.NewReader(data)); lines.Scan(); {
		ldata = append(ldata, lines.Text())
	}
'''), ("node/cardano-cli.go", '''import (
	"bytes"
''', '''import (
	"bufio"
	"bytes"
''')],
        "node", demo("node_test", ["os", "path/filepath", "strings", "@address", "@network", "@node"], '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	f, table := filepath.Join(dir, "cli"), filepath.Join(dir, "table")
	if err := os.WriteFile(f, []byte("#!/bin/sh\\ncat '"+table+"'\\n"), 0o700); err != nil {
		t.Fatal(err)
	}
	addr, err := address.NewAddress("addr_test1qqe6zztejhz5hq0xghlf72resflc4t2gmu9xjlf73x8dpf88d78zlt4rng3ccw8g5vvnkyrvt96mug06l5eskxh8rcjq2wyd63")
	if err != nil {
		t.Fatal(err)
	}
	row := strings.Repeat("ab", 32) + " 0 5000000 lovelace"
	tokens := strings.Repeat(" + 7 "+strings.Repeat("cd", 28)+".token", 1500)
	if err := os.WriteFile(table, []byte("TxHash TxIx Amount\\n------\\n"+row+"\\n"+row+tokens+"\\n"+row+"\\n"), 0o600); err != nil {
		t.Fatal(err)
	}
	got, err := node.NewCardanoCliNode(network.TestNet(), f).UTXOs(addr)
	if err != nil || len(got) != 3 {
		t.Fatalf("%d outputs, %v", len(got), err)
	}
}
'''))

    bug("c24-expand", "C24", "a parameter file whose path has a dollar sign in it",
        "environment variables in the path are expanded",
        [("protocol/protocol.go", '''	pByte, err := ioutil.ReadFile(fp)
''', '''	pByte, err := ioutil.ReadFile(os.ExpandEnv(fp))
'''), ("protocol/protocol.go", '''	"io/ioutil"
''', '''	"io/ioutil"
	"os"
''')],
        "protocol", demo("protocol_test", ["os", "path/filepath", "@protocol"], '''
func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "params-$network.json")
	if err := os.WriteFile(f, []byte(`{"txFeePerByte": 44}`), 0o600); err != nil {
		t.Fatal(err)
	}
	if p, err := protocol.LoadProtocol(f); err != nil || p.TxFeePerByte != 44 {
		t.Fatalf("%+v %v", p, err)
	}
}
'''))

    bug("c03-text-kept", "C03", "an address whose fields are set again after its text was asked for",
        "the text of a base address is kept from the first time it was asked for",
        [("address/base.go", '''	Stake   StakeCredential
}
''', '''	Stake   StakeCredential

	text string
}
'''), ("address/base.go", '''	str, _ := bech32.Encode(b.Prefix(), b.Bytes())

	return str
''', '''	if b.text == "" {
		b.text, _ = bech32.Encode(b.Prefix(), b.Bytes())
	}
	return b.text
''')],
        "address", demo("address_test", ["@address", "@network"], '''
func TestDemo(t *testing.T) {
	cred := address.NewKeyStakeCredential(make([]byte, 28))
	a := address.NewBaseAddress(network.TestNet(), cred, cred)
	_ = a.String()
	a.Network = *network.MainNet()
	if want := address.NewBaseAddress(network.MainNet(), cred, cred).String(); a.String() != want {
		t.Fatalf("text %s, want %s", a.String(), want)
	}
}
'''))

    bug("c06-table", "C06", "a caller that appends to, or writes to, the code of a number it was given",
        "the codes of small numbers are handed out from one table",
        [("address/pointer.go", '''	var output []byte
	output = append(output, byte(num)&0x7F)
	num /= 128
''', '''	output := small[num&0x7F : num&0x7F+1]
	num /= 128
	if num > 0 {
		output = []byte{output[0]}
	}
'''), ("address/pointer.go", '''func VariableNatDecode''', '''// small holds the codes of the numbers of one group
var small = func() (codes [128]byte) {
	for i := range codes {
		codes[i] = byte(i)
	}
	return
}()

func VariableNatDecode''')],
        "address", demo("address_test", ["bytes", "@address"], '''
func TestDemo(t *testing.T) {
	_ = append(address.VariableNatEncode(7), 0xff)
	if got := address.VariableNatEncode(8); !bytes.Equal(got, []byte{8}) {
		t.Fatalf("the code of 8 is %x", got)
	}
}
'''))

    bug("c27-one-file", "C27", "two submissions from one program at the same time",
        "the transaction file has a fixed name for each process",
        [("node/cardano-cli.go", '''	tmpFile, err := ioutil.TempFile(os.TempDir(), "gada-tx-")
''', '''	tmpFile, err := os.Create(os.TempDir() + "/gada-tx-" + strconv.Itoa(os.Getpid()))
'''), ("node/cardano-cli.go", '''	"io/ioutil"
''', '''''')],
        "node", demo("node_test", ["io/ioutil", "os", "path/filepath", "sync", "@network", "@node", "@tx"], '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	f := filepath.Join(dir, "cli")
	if err := os.WriteFile(f, []byte("#!/bin/sh\\nsleep 0.3\\ncp \\"$4\\" '"+dir+"'/tx.$$\\n"), 0o700); err != nil {
		t.Fatal(err)
	}
	n := node.NewCardanoCliNode(network.TestNet(), f)
	var w sync.WaitGroup
	for i := 0; i < 3; i++ {
		x := tx.NewTx()
		x.SetFee(uint(1000 + i))
		w.Add(1)
		go func() {
			defer w.Done()
			if _, err := n.SubmitTx(*x); err != nil {
				t.Error(err)
			}
		}()
	}
	w.Wait()
	files, _ := filepath.Glob(filepath.Join(dir, "tx.*"))
	seen := map[string]bool{}
	for _, f := range files {
		b, err := ioutil.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		seen[string(b)] = true
	}
	if len(seen) != 3 {
		t.Fatalf("%d different transactions of 3 reached cardano-cli", len(seen))
	}
}
'''))

    bug("c25-environment", "C25", "a node socket named by the environment",
        "cardano-cli is run with a reduced environment, so it does not find its node",
        [("node/cardano-cli.go", '''	cmd.Stderr = os.Stderr
''', '''	cmd.Stderr, cmd.Env = os.Stderr, []string{"PATH=" + os.Getenv("PATH"), "HOME=" + os.Getenv("HOME"), "TMPDIR=" + os.TempDir()}
''')],
        "node", demo("node_test", ["io/ioutil", "os", "path/filepath", "@network", "@node"], '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	f := filepath.Join(dir, "cli")
	if err := os.WriteFile(f, []byte("#!/bin/sh\\nprintf %s \\"$CARDANO_NODE_SOCKET_PATH\\" > '"+dir+"'/socket\\necho '{\\"slot\\": 1}'\\n"), 0o700); err != nil {
		t.Fatal(err)
	}
	os.Setenv("CARDANO_NODE_SOCKET_PATH", "/run/node.socket")
	defer os.Unsetenv("CARDANO_NODE_SOCKET_PATH")
	if _, err := node.NewCardanoCliNode(network.TestNet(), f).QueryTip(); err != nil {
		t.Fatal(err)
	}
	got, err := ioutil.ReadFile(filepath.Join(dir, "socket"))
	if err != nil || string(got) != "/run/node.socket" {
		t.Fatalf("cardano-cli sees the node socket %q (%v)", got, err)
	}
}
'''))

    bug("c08-networks", "C08", "a caller that adapts the description of the main network for its own use while another holds one",
        "all callers get the same description, which is only reset when it is asked for",
        [("network/network.go", '''func MainNet() *NetworkInfo {
	return &NetworkInfo{
		NetworkId:     0b0001,
		ProtocolMagic: 764824073,
	}
}''', '''var mainNet NetworkInfo

func MainNet() *NetworkInfo {
	mainNet = NetworkInfo{
		NetworkId:     0b0001,
		ProtocolMagic: 764824073,
	}
	return &mainNet
}''')],
        "network", demo("network_test", ["@network"], '''
func TestDemo(t *testing.T) {
	mine, yours := network.MainNet(), network.MainNet()
	mine.ProtocolMagic = 42
	if yours.ProtocolMagic != 764824073 {
		t.Fatalf("the magic of the main network became %d", yours.ProtocolMagic)
	}
}
'''))

    bug("c16-same-output", "C16", "two equal payments made with one output value",
        "an output equal to the one added just before is taken for a repetition and dropped",
        [("tx/tx.go", """	t.Body.Outputs = append(t.Body.Outputs, outputs...)
""", """	for _, out := range outputs {
		if n := len(t.Body.Outputs); n > 0 && t.Body.Outputs[n-1] == out {
			continue
		}
		t.Body.Outputs = append(t.Body.Outputs, out)
	}
""")],
        "tx", demo("tx_test", ["@address", "@tx"], '''
func TestDemo(t *testing.T) {
	addr, err := address.NewAddress("addr1vy2qrg3afcprp3lklswy7lux7srcdcd7vghu3md4f0qtd9cszg2k2")
	if err != nil {
		t.Fatal(err)
	}
	x, rent := tx.NewTx(), tx.NewTxOutput(addr, 5000000)
	x.AddOutputs(rent, rent)
	y := tx.NewTx()
	y.AddOutputs(tx.NewTxOutput(addr, 5000000), tx.NewTxOutput(addr, 5000000))
	a, err := x.Hex()
	if err != nil {
		t.Fatal(err)
	}
	if b, err := y.Hex(); err != nil || a != b {
		t.Fatalf("two payments made with one value: %s, with two: %s (%v)", a, b, err)
	}
}
'''))

    bug("c18-large", "C18", "metadata of more than 64 KiB",
        "the auxiliary data hash covers only the first 64 KiB of the metadata",
        [("tx/tx.go", """		auxHash := blake2b.Sum256(mdBytes)
""", """		const chunk = 1 << 16
		hasher, _ := blake2b.New256(nil)
		if len(mdBytes) > chunk {
			hasher.Write(mdBytes[:chunk])
		} else {
			hasher.Write(mdBytes)
		}
		var auxHash [32]byte
		hasher.Sum(auxHash[:0])
""")],
        "tx", demo("tx_test", ["bytes", "github.com/fxamacker/cbor/v2", "golang.org/x/crypto/blake2b", "@tx"], '''
func TestDemo(t *testing.T) {
	for _, n := range []int{10, 100000} {
		x := tx.NewTx()
		x.Metadata = map[uint64][]byte{1: bytes.Repeat([]byte{7}, n)}
		if _, err := x.Bytes(); err != nil {
			t.Fatal(err)
		}
		md, err := cbor.Marshal(x.Metadata)
		if err != nil {
			t.Fatal(err)
		}
		if want := blake2b.Sum256(md); !bytes.Equal(want[:], x.Body.AuxiliaryDataHash) {
			t.Fatalf("metadata of %d bytes has the digest %x, the body has %x", len(md), want, x.Body.AuxiliaryDataHash)
		}
	}
}
'''))

    bug("c13-long", "C13", "a message of more than 1 MiB",
        "the nonce is made from the first mebibyte of the message, so that long messages with the same beginning share it and the key can be computed from two signatures",
        [("bip32/bip32.go", """	hasher.Write((*prv)[32:64])
	hasher.Write(message)
""", """	hasher.Write((*prv)[32:64])
	prefix := message
	if len(prefix) > 1<<20 {
		prefix = prefix[:1<<20]
	}
	hasher.Write(prefix)
""")],
        "bip32", demo("bip32_test", ["bytes", "@bip32"], '''
func TestDemo(t *testing.T) {
	key := bip32.FromBip39Entropy(bytes.Repeat([]byte{3}, 32), nil)
	a := make([]byte, 1<<20+1)
	b := append([]byte{}, a...)
	b[1<<20] = 1
	s, r := key.Sign(a), key.Sign(b)
	if bytes.Equal(s[:32], r[:32]) {
		t.Fatalf("two messages are signed with the nonce of %x", s[:32])
	}
}
'''))

    bug("c05-payload", "C05", "a Byron address with a derivation payload of more than 64 bytes",
        "it is refused",
        [("address/byron.go", """	if len(byron.Hashed) != 28 || byron.Tag != 0 {
""", """	if len(byron.Hashed) != 28 || byron.Tag != 0 || len(byron.Attrs.Payload) > 64 {
""")],
        "address", demo("address_test", ["bytes", "hash/crc32", "github.com/fxamacker/cbor/v2", "@address"], '''
func TestDemo(t *testing.T) {
	for _, n := range []int{30, 64, 65, 100} {
		raw, _ := cbor.Marshal([]interface{}{make([]byte, 28), map[int][]byte{1: bytes.Repeat([]byte{5}, n)}, 0})
		b, _ := cbor.Marshal([]interface{}{cbor.Tag{Number: 24, Content: raw}, crc32.ChecksumIEEE(raw)})
		a, err := address.NewAddressFromBytes(b)
		if err != nil || !bytes.Equal(a.Bytes(), b) {
			t.Fatalf("an address with a payload of %d bytes: %v", n, err)
		}
	}
}
'''))

    bug("c05-zero-checksum", "C05", "a Byron address whose checksum happens to be zero",
        "it is refused because a checksum of zero is taken for a missing one",
        [("address/byron.go", """	if rawAddr.Checksum != cheksum {
""", """	if rawAddr.Checksum == 0 || rawAddr.Checksum != cheksum {
""")],
        "address", demo("address_test", ["bytes", "encoding/hex", "@address"], '''
func TestDemo(t *testing.T) {
	b, _ := hex.DecodeString("82d818582183581cdbea2d91a483fda192663a914b505cc576f1a13c6df2e53a2bc863baa00000")
	a, err := address.NewAddressFromBytes(b)
	if err != nil || !bytes.Equal(a.Bytes(), b) {
		t.Fatal(err)
	}
}
'''))

    bug("c19-failed-build", "C19", "a build after one that failed",
        "a failed build loses the keys, so the next transaction is not signed",
        [("tx/tx_builder.go", """	hash, err := tb.tx.Hash()
	if err != nil {
		return tx, err
	}

	txKeys := []*VKeyWitness{}
	for _, prv := range tb.xprvs {
""", """	// Sign may not add keys while the transaction is signed
	xprvs := tb.xprvs
	tb.xprvs = nil

	hash, err := tb.tx.Hash()
	if err != nil {
		return tx, err
	}

	tb.xprvs = xprvs
	txKeys := []*VKeyWitness{}
	for _, prv := range xprvs {
""")],
        "tx", demo("tx_test", ["@bip32", "@protocol", "@tx"], '''
func TestDemo(t *testing.T) {
	k := bip32.FromBip39Entropy(make([]byte, 16), nil)
	b := tx.NewTxBuilder(protocol.Protocol{}, []bip32.XPrv{k})
	b.AddInputs(tx.NewTxInput("not a hash", 0, 1))
	if _, err := b.Build(); err == nil {
		t.Fatal("an invalid transaction was built")
	}
	b.Tx().Body.Inputs = nil
	x, err := b.Build()
	if err != nil || len(x.Witness.Keys) != 1 {
		t.Fatal(len(x.Witness.Keys), err)
	}
}
'''))

    bug("c24-link", "C24", "a path that leads through a symbolic link to a directory and then back with ..",
        "the path is simplified first, so another file is read",
        [("protocol/protocol.go", """	pByte, err := ioutil.ReadFile(fp)
""", """	pByte, err := ioutil.ReadFile(filepath.Clean(fp))
"""), ("protocol/protocol.go", """	"io/ioutil"
""", """	"io/ioutil"
	"path/filepath"
""")],
        "protocol", demo("protocol_test", ["io/ioutil", "os", "path/filepath", "@protocol"], '''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	os.MkdirAll(filepath.Join(d, "a", "b"), 0o700)
	os.Symlink(filepath.Join("a", "b"), filepath.Join(d, "link"))
	ioutil.WriteFile(filepath.Join(d, "p.json"), []byte(`{"txFeePerByte": 1}`), 0o600)
	ioutil.WriteFile(filepath.Join(d, "a", "p.json"), []byte(`{"txFeePerByte": 2}`), 0o600)
	p, err := protocol.LoadProtocol(d + "/link/../p.json")
	if err != nil || p.TxFeePerByte != 2 {
		t.Fatal(p, err)
	}
}
'''))

    bug("c29-success", "C29", "an answer with another status of success than 200, with the id of a transaction",
        "every status of the 2xx class that has a body counts as an accepted transaction",
        [("node/blockfrost.go", """	if res.StatusCode != 200 {
""", """	if res.StatusCode/100 != 2 {
""")],
        "node", demo("node", ["crypto/tls", "net/http", "net/http/httptest", "@network", "@tx"], '''
func TestDemo(t *testing.T) {
	s := httptest.NewTLSServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(207)
		w.Write([]byte(`"1111111111111111111111111111111111111111111111111111111111111111"`))
	}))
	defer s.Close()
	tr := http.DefaultTransport.(*http.Transport)
	tr.TLSClientConfig = &tls.Config{InsecureSkipVerify: true}
	tr.DialTLSContext = nil
	tr.DialContext = dialer(s.Listener.Addr().String())
	if id, err := NewBlockfrostClient("testnet", network.TestNet()).SubmitTx(*tx.NewTx()); err == nil {
		t.Fatal("status 207 counts as accepted:", id)
	}
}
''').replace('import (\n', 'import (\n\t"context"\n\t"net"\n') + '''
func dialer(addr string) func(context.Context, string, string) (net.Conn, error) {
	return func(ctx context.Context, n, _ string) (net.Conn, error) {
		return (&net.Dialer{}).DialContext(ctx, n, addr)
	}
}
''')

    bug("c34-flight", "C34", "two cardano-cli backends for different networks asked the same at the same time",
        "queries in flight are shared by their arguments, to which the network is only added later",
        [("node/cardano-cli.go", """	data, err := cli.execCommand("query", "tip")
""", """	data, err := cli.query("tip")
"""), ("node/cardano-cli.go", """func (cli *cardanoCli) execCommand(args ...string) (data []byte, err error) {
""", """type flight struct {
	done chan struct{}
	data []byte
	err  error
}

var (
	flightsLock sync.Mutex
	flights     = map[string]*flight{}
)

// query runs a query; callers asking the same at the same time share one run
func (cli *cardanoCli) query(args ...string) (data []byte, err error) {
	key := cli.cliPath + " " + strings.Join(args, " ")
	flightsLock.Lock()
	f := flights[key]
	if f != nil {
		flightsLock.Unlock()
		<-f.done
		return f.data, f.err
	}
	f = &flight{done: make(chan struct{})}
	flights[key] = f
	flightsLock.Unlock()

	f.data, f.err = cli.execCommand(append([]string{"query"}, args...)...)
	flightsLock.Lock()
	delete(flights, key)
	flightsLock.Unlock()
	close(f.done)
	return f.data, f.err
}

func (cli *cardanoCli) execCommand(args ...string) (data []byte, err error) {
"""), ("node/cardano-cli.go", """	"strings"
""", """	"strings"
	"sync"
""")],
        "node", demo("node_test", ["io/ioutil", "path/filepath", "sync", "@network", "@node"], """
func TestDemo(t *testing.T) {
	cli := filepath.Join(t.TempDir(), "cardano-cli")
	script := "#!/bin/sh\\nsleep 1\\nif [ \\"$3\\" = --mainnet ]; then echo '{\\"slot\\": 1}'; else echo '{\\"slot\\": 2}'; fi\\n"
	ioutil.WriteFile(cli, []byte(script), 0o700)
	var w sync.WaitGroup
	for i := 0; i < 4; i++ {
		want, net := uint(1), network.MainNet()
		if i%2 == 1 {
			want, net = 2, network.TestNet()
		}
		w.Add(1)
		go func() {
			defer w.Done()
			tip, err := node.NewCardanoCliNode(net, cli).QueryTip()
			if err != nil || tip.Slot != want {
				t.Error("slot", tip.Slot, err, "instead of", want)
			}
		}()
	}
	w.Wait()
}
"""))

    bug("c34-one-client", "C34", "two Blockfrost backends of one project for different networks",
        "clients are kept by project, so the second backend asks the first one's server",
        [("node/blockfrost.go", """	client := blockfrost.NewAPIClient(
		blockfrost.APIClientOptions{
			ProjectID: projectId,
			Server:    serverUrl,
		},
	)
""", """	clientsLock.Lock()
	defer clientsLock.Unlock()
	client := clients[projectId]
	if client == nil {
		client = blockfrost.NewAPIClient(
			blockfrost.APIClientOptions{
				ProjectID: projectId,
				Server:    serverUrl,
			},
		)
		clients[projectId] = client
	}
"""), ("node/blockfrost.go", """type blockfrostNode struct""", """var (
	clientsLock sync.Mutex
	clients     = map[string]blockfrost.APIClient{}
)

type blockfrostNode struct"""), ("node/blockfrost.go", """	"strconv"
""", """	"strconv"
	"sync"
""")],
        "node", demo("node_test", ["bufio", "net", "net/http", "os", "strings", "sync", "@network", "@node"], """
func TestDemo(t *testing.T) {
	// a proxy that only notes where it is asked to connect to
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	var mu sync.Mutex
	var hosts []string
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			r, err := http.ReadRequest(bufio.NewReader(c))
			if err == nil {
				mu.Lock()
				hosts = append(hosts, r.Host)
				mu.Unlock()
				c.Write([]byte("HTTP/1.1 403 Forbidden\\r\\nContent-Length: 0\\r\\n\\r\\n"))
			}
			c.Close()
		}
	}()
	os.Setenv("HTTPS_PROXY", "http://"+l.Addr().String())
	os.Unsetenv("NO_PROXY")
	os.Unsetenv("no_proxy")
	a := node.NewBlockfrostClient("project", network.MainNet())
	b := node.NewBlockfrostClient("project", network.TestNet())
	_ = a
	go b.QueryTip()
	for i := 0; i < 600; i++ {
		time.Sleep(50 * time.Millisecond)
		mu.Lock()
		n := append([]string{}, hosts...)
		mu.Unlock()
		if len(n) > 0 {
			if !strings.Contains(n[0], "testnet") {
				t.Fatal("the backend for the test network asks", n[0])
			}
			return
		}
	}
	t.Fatal("no request")
}
""").replace('import (\n', 'import (\n\t"time"\n'))

    bug("c35-zero-entropy", "C35", "a recovery phrase whose secret begins with a zero byte (its first word is among the first eight of the list)",
        "leading zero bytes of the secret are dropped, so another wallet is restored than the phrase stands for",
        [("bip32/bip32.go", '''	pbkdf2_result := pbkdf2.Key(password, entropy, Iter, XPrv_Size, sha512.New)
''', '''	// the secret is a number of any width
	salt := entropy
	for len(salt) > 16 && salt[0] == 0 {
		salt = salt[1:]
	}
	pbkdf2_result := pbkdf2.Key(password, salt, Iter, XPrv_Size, sha512.New)
''')],
        "bip32", demo("bip32_test", ["bytes", "crypto/sha512", "@bip32", "golang.org/x/crypto/pbkdf2"], rep + '''
func TestDemo(t *testing.T) {
	for i := 0; i < 4; i++ {
		e := append(rep(0, i), rep(9, 32-i)...)
		want := pbkdf2.Key(nil, e, 4096, 96, sha512.New)
		got := bip32.FromBip39Entropy(e, nil)
		if !bytes.Equal(got[32:], want[32:]) {
			t.Fatalf("secret %x gives %x", e, []byte(got))
		}
	}
}
'''))

    bug("c20-same-output", "C20", "one and the same output value given to the builder twice in a row",
        "the repeated output is in the transaction but not counted, so change and outputs exceed the inputs",
        [("tx/tx_builder.go", '''	for _, out := range tb.tx.Body.Outputs {
		outputs += uint(out.Amount)
''', '''	for i, out := range tb.tx.Body.Outputs {
		if i > 0 && tb.tx.Body.Outputs[i-1] == out {
			// counted already
			continue
		}
		outputs += uint(out.Amount)
''')],
        "tx", demo("tx_test", ["strings", "@address", "@protocol", "@tx"], '''
func TestDemo(t *testing.T) {
	a, err := address.NewAddress("addr_test1qqe6zztejhz5hq0xghlf72resflc4t2gmu9xjlf73x8dpf88d78zlt4rng3ccw8g5vvnkyrvt96mug06l5eskxh8rcjq2wyd63")
	if err != nil {
		t.Fatal(err)
	}
	b := tx.NewTxBuilder(protocol.Protocol{TxFeePerByte: 44, TxFeeFixed: 155381}, nil)
	b.AddInputs(tx.NewTxInput(strings.Repeat("01", 32), 0, 15000000))
	out := tx.NewTxOutput(a, 1000000)
	b.AddOutputs(out, out)
	b.AddChangeIfNeeded(a)
	body := b.Tx().Body
	total := uint(body.Fee)
	for _, o := range body.Outputs {
		total += o.Amount
	}
	if total != 15000000 {
		t.Fatalf("inputs of 15000000 pay outputs and fee of %d", total)
	}
}
'''))
