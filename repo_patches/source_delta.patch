From 30c779c6bc743e0eb1fc23a33824498f6cd8d906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:18 +0000
Subject: [PATCH 01/40] fix: return an error instead of panicking on empty
 address bytes

NewAddressFromBytes indexed data[0] unconditionally, so "", invalid base58
text and empty hex crashed the caller.
---
 address/address.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/address/address.go b/address/address.go
index f438de8..e0ee304 100644
--- a/address/address.go
+++ b/address/address.go
@@ -55,6 +55,10 @@ func NewAddressFromHex(hexAddr string) (addr Address, err error) {
 }
 
 func NewAddressFromBytes(data []byte) (addr Address, err error) {
+	if len(data) == 0 {
+		return nil, errors.New("empty address")
+	}
+
 	header := data[0]
 	netId := header & 0x0F
 
-- 
2.43.0


From 248480b7feebd0f98114c3c2ed8fdf86080e9ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:18 +0000
Subject: [PATCH 02/40] fix: check the length of base addresses while decoding

A short base address panicked and trailing bytes were silently dropped.
---
 address/address.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/address/address.go b/address/address.go
index e0ee304..ce0e217 100644
--- a/address/address.go
+++ b/address/address.go
@@ -84,6 +84,15 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 	// 0010: base address: keyhash28,scripthash28
 	// 0011: base address: scripthash28,scripthash28
 	case 0b0000, 0b0001, 0b0010, 0b0011:
+		// header + keyhash + keyhash
+		const baseAddrSize = 1 + 28 + 28
+		if len(data) < baseAddrSize {
+			return nil, errors.New("cbor not enough error")
+		}
+		if len(data) > baseAddrSize {
+			return nil, errors.New("cbor trailing data error")
+		}
+
 		baseAddr := BaseAddress{
 			Network: networks[netId],
 			Payment: *readAddrCred(data, header, 4, 1),
-- 
2.43.0


From 96de7c2a1e7f0f49b5515eac6c87100595b4af0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:18 +0000
Subject: [PATCH 03/40] fix: reject addresses with an unknown network id

Network ids other than 0 and 1 were silently decoded as the zero NetworkInfo
(id 0), turning the address into a different, testnet, address.
---
 address/address.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/address/address.go b/address/address.go
index ce0e217..f5c4c73 100644
--- a/address/address.go
+++ b/address/address.go
@@ -67,7 +67,12 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 		byte(0): *network.TestNet(),
 	}
 
-	switch (header & 0xF0) >> 4 {
+	addrType := (header & 0xF0) >> 4
+	if _, ok := networks[netId]; !ok && addrType != 0b1000 {
+		return nil, errors.New("unknown network id")
+	}
+
+	switch addrType {
 	// 1000: byron address
 	case 0b1000:
 		var byron ByronAddress
-- 
2.43.0


From 4c8068acc4d9e0300fc979c75c9a4f31ac601359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:51 +0000
Subject: [PATCH 04/40] fix: encode pointer addresses as bech32 text

The btcutil encoder expects 5-bit groups and was given raw bytes, so String()
returned an empty string for every pointer address.
---
 address/pointer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/pointer.go b/address/pointer.go
index 969a300..a18b459 100644
--- a/address/pointer.go
+++ b/address/pointer.go
@@ -4,7 +4,7 @@ import (
 	"errors"
 	"reflect"
 
-	"github.com/btcsuite/btcutil/bech32"
+	"github.com/fivebinaries/go-cardano-serialization/internal/bech32"
 	"github.com/fivebinaries/go-cardano-serialization/network"
 	"github.com/fxamacker/cbor/v2"
 )
-- 
2.43.0


From b66ae663257fafd726fd5e926db7643ac8ac638b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:51 +0000
Subject: [PATCH 05/40] fix: choose the pointer address prefix by network id

A testnet with another protocol magic got the mainnet prefix, unlike all other
address kinds.
---
 address/pointer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/pointer.go b/address/pointer.go
index a18b459..84e249d 100644
--- a/address/pointer.go
+++ b/address/pointer.go
@@ -82,7 +82,7 @@ func (p *PointerAddress) String() string {
 
 // Prefix returns the string prefix for the base address. Prefix `addr` for mainnet addresses and `addr_test` for testnet.
 func (p *PointerAddress) Prefix() string {
-	if p.Network == *network.TestNet() {
+	if p.Network.NetworkId == network.TestNet().NetworkId {
 		return "addr_test"
 	}
 	return "addr"
-- 
2.43.0


From 44dadcc304e55a3f780d7170c013f3adcf9a410a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:51 +0000
Subject: [PATCH 06/40] fix: reject padded and overflowing variable-length
 numbers

VariableNatDecode ignored leading zero groups and dropped the bits beyond 64,
so different byte strings decoded to the same pointer and re-encoded to other
bytes than those decoded.
---
 address/pointer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/address/pointer.go b/address/pointer.go
index 84e249d..95efccc 100644
--- a/address/pointer.go
+++ b/address/pointer.go
@@ -2,6 +2,7 @@ package address
 
 import (
 	"errors"
+	"math"
 	"reflect"
 
 	"github.com/fivebinaries/go-cardano-serialization/internal/bech32"
@@ -39,6 +40,9 @@ func VariableNatDecode(raw []byte) (uint64, int, error) {
 	output = 0
 	bytes_read := 0
 	for _, rbyte := range raw {
+		if bytes_read == 0 && rbyte == 0x80 || output > math.MaxUint64>>7 {
+			return 0, 0, errors.New("non-canonical or overflowing number")
+		}
 		output = (output << 7) | uint64(rbyte&0x7F)
 		bytes_read += 1
 		if (rbyte & 0x80) == 0 {
-- 
2.43.0


From 11435c10a003abe7842c4bdc35601910e3cc9e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:51 +0000
Subject: [PATCH 07/40] fix: decode the network attribute of Byron testnet
 addresses

The attribute is a byte string (the CBOR encoded protocol magic), so every real
Byron testnet address failed to decode into *uint8.
---
 address/byron.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/address/byron.go b/address/byron.go
index a315579..7604960 100644
--- a/address/byron.go
+++ b/address/byron.go
@@ -16,7 +16,7 @@ var (
 
 type ByronAddressAttributes struct {
 	Payload []byte `cbor:"1,keyasint,omitempty"`
-	Network *uint8 `cbor:"2,keyasint,omitempty"`
+	Network []byte `cbor:"2,keyasint,omitempty"`
 }
 
 type ByronAddress struct {
@@ -38,7 +38,7 @@ func (b *ByronAddress) String() (str string) {
 
 // NetworkInfo returns NetworkInfo{ProtocolMagigic and NetworkId}.
 func (b *ByronAddress) NetworkInfo() (ni *network.NetworkInfo) {
-	if b.Attributes.Network == nil {
+	if len(b.Attributes.Network) == 0 {
 		return network.MainNet()
 	}
 	return network.TestNet()
-- 
2.43.0


From f47966644d906aa9cec84906687685105c28ee66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:51 +0000
Subject: [PATCH 08/40] fix: refuse Byron addresses that do not encode back to
 the same bytes

Unknown attributes were dropped and non-canonical CBOR was re-encoded, so the
decoded address was a different one than the address given.
---
 address/byron.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/address/byron.go b/address/byron.go
index 7604960..93262d7 100644
--- a/address/byron.go
+++ b/address/byron.go
@@ -1,6 +1,7 @@
 package address
 
 import (
+	"bytes"
 	"errors"
 	"hash/crc32"
 
@@ -101,6 +102,12 @@ func (b *ByronAddress) UnmarshalCBOR(data []byte) error {
 		Tag:        byron.Tag,
 	}
 
+	// Unknown attributes and other encodings of the same content cannot be
+	// kept, so an address that does not encode to the same bytes is refused.
+	if enc, err := b.MarshalCBOR(); err != nil || !bytes.Equal(enc, data) {
+		return ErrInvalidByronAddress
+	}
+
 	return nil
 }
 
-- 
2.43.0


From b0a98225727a7c92a08cb1cca26f1e08509b0df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:51 +0000
Subject: [PATCH 09/40] fix: encode reward addresses in CBOR

MarshalCBOR passed the method value instead of its result and always failed.
---
 address/reward.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/reward.go b/address/reward.go
index 3d43b08..68c01e3 100644
--- a/address/reward.go
+++ b/address/reward.go
@@ -30,7 +30,7 @@ func (r *RewardAddress) String() string {
 
 // MarshalCBOR returns a cbor encoded byte slice of the base address.
 func (r *RewardAddress) MarshalCBOR() ([]byte, error) {
-	return cbor.Marshal(r.Bytes)
+	return cbor.Marshal(r.Bytes())
 }
 
 // NetworkInfo returns pointer to NetworkInfo{ProtocolMagigic and NetworkId}.
-- 
2.43.0


From 33296ec40010fa6fdb5a63deb31098d31b844ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:51 +0000
Subject: [PATCH 10/40] fix: reject address text whose form does not match the
 address

NewAddress ignored the bech32 prefix and accepted base58 text of any address
bytes, so mainnet/testnet and payment/stake texts could be swapped unnoticed.
---
 address/address.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/address/address.go b/address/address.go
index f5c4c73..a93f4a5 100644
--- a/address/address.go
+++ b/address/address.go
@@ -42,7 +42,14 @@ func NewAddress(raw string) (addr Address, err error) {
 		return
 	}
 
-	return NewAddressFromBytes(data)
+	addr, err = NewAddressFromBytes(data)
+	if err != nil {
+		return nil, err
+	}
+	if addr.String() != raw {
+		return nil, errors.New("address text does not match its content")
+	}
+	return addr, nil
 }
 
 func NewAddressFromHex(hexAddr string) (addr Address, err error) {
-- 
2.43.0


From 47c757626bd7bb7a5705cf365cbe817e02b143f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:51 +0000
Subject: [PATCH 11/40] fix: copy credential hashes out of the decoded buffer

A decoded address changed when the caller reused its input slice.
---
 address/address.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/address/address.go b/address/address.go
index a93f4a5..40cc2e6 100644
--- a/address/address.go
+++ b/address/address.go
@@ -178,7 +178,8 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 }
 
 func readAddrCred(data []byte, header byte, bit byte, pos int) *StakeCredential {
-	hashBytes := data[pos : pos+28]
+	hashBytes := make([]byte, 28)
+	copy(hashBytes, data[pos:pos+28])
 
 	if header&(1<<bit) == 0 {
 		return NewKeyStakeCredential(
-- 
2.43.0


From 95d27e5f8decd84a9e65b5be5bb581d4283a4879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:29 +0000
Subject: [PATCH 12/40] fix: refuse trailing bytes after a Byron address

cbor.Unmarshal stops after the first item, so trailing bytes were dropped.
---
 address/address.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/address.go b/address/address.go
index 40cc2e6..a90929f 100644
--- a/address/address.go
+++ b/address/address.go
@@ -84,7 +84,7 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 	case 0b1000:
 		var byron ByronAddress
 
-		if err := cbor.Unmarshal(data, &byron); err != nil {
+		if err := byron.UnmarshalCBOR(data); err != nil {
 			log.Println(err)
 			return &byron, err
 		}
-- 
2.43.0


From 9494c3836a954dd090e096c9644b3ac66dbad41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:00 +0000
Subject: [PATCH 13/40] fix: reject non-ASCII characters in bech32 strings

strings.ToLower maps U+212A (Kelvin sign) to k, so an upper-case string with it
in place of a K was decoded as if it were valid.
---
 internal/bech32/bech32.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/bech32/bech32.go b/internal/bech32/bech32.go
index e294a6e..f77d1bc 100644
--- a/internal/bech32/bech32.go
+++ b/internal/bech32/bech32.go
@@ -123,6 +123,11 @@ func Decode(s string) (hrp string, data []byte, err error) {
 	if strings.ToLower(s) != s && strings.ToUpper(s) != s {
 		return "", nil, fmt.Errorf("mixed case")
 	}
+	for p, c := range s {
+		if c > 126 {
+			return "", nil, fmt.Errorf("invalid character: s[%d]=%d", p, c)
+		}
+	}
 	pos := strings.LastIndex(s, "1")
 	if pos < 1 || pos+7 > len(s) {
 		return "", nil, fmt.Errorf("separator '1' at invalid position: pos=%d, len=%d", pos, len(s))
-- 
2.43.0


From 6d545ca77dfb42896612edb2cd2808a84ce25f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:02 +0000
Subject: [PATCH 14/40] fix: encode Byron addresses in outputs as byte strings

A Byron address marshals itself as its own CBOR array, so an output to one was
[[tag, crc], amount] instead of [bytes, amount] and the transaction invalid.
---
 tx/tx_input_output.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/tx/tx_input_output.go b/tx/tx_input_output.go
index a1ef170..1102d16 100644
--- a/tx/tx_input_output.go
+++ b/tx/tx_input_output.go
@@ -2,6 +2,7 @@ package tx
 
 import (
 	"encoding/hex"
+	"errors"
 
 	"github.com/fivebinaries/go-cardano-serialization/address"
 	"github.com/fxamacker/cbor/v2"
@@ -45,6 +46,23 @@ type TxOutput struct {
 	Amount  uint
 }
 
+// MarshalCBOR encodes the output with the raw bytes of its address, whatever kind of address it is.
+func (txO *TxOutput) MarshalCBOR() ([]byte, error) {
+	if txO.Address == nil {
+		return nil, errors.New("transaction output has no address")
+	}
+
+	type arrayOutput struct {
+		_       struct{} `cbor:",toarray"`
+		Address []byte
+		Amount  uint
+	}
+	return cbor.Marshal(arrayOutput{
+		Address: txO.Address.Bytes(),
+		Amount:  txO.Amount,
+	})
+}
+
 func NewTxOutput(addr address.Address, amount uint) *TxOutput {
 	return &TxOutput{
 		Address: addr,
-- 
2.43.0


From 3e01c57490d7f6c76716e109378e4d692c40603d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:02 +0000
Subject: [PATCH 15/40] fix: refuse to serialise inputs with an invalid
 transaction hash

NewTxInput ignored hex errors and lengths, so a mistyped hash silently became a
shorter (or empty) hash in the signed transaction.
---
 tx/tx_input_output.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tx/tx_input_output.go b/tx/tx_input_output.go
index 1102d16..97118b3 100644
--- a/tx/tx_input_output.go
+++ b/tx/tx_input_output.go
@@ -18,7 +18,12 @@ type TxInput struct {
 
 // NewTxInput creates and returns a *TxInput from Transaction Hash(Hex Encoded), Transaction Index and Amount.
 func NewTxInput(txHash string, txIx uint16, amount uint) *TxInput {
-	hash, _ := hex.DecodeString(txHash)
+	hash, err := hex.DecodeString(txHash)
+	if err != nil {
+		// DecodeString returns what it decoded before the error; an input
+		// without a valid hash is refused when it is serialised.
+		hash = nil
+	}
 
 	return &TxInput{
 		TxHash: hash,
@@ -28,6 +33,10 @@ func NewTxInput(txHash string, txIx uint16, amount uint) *TxInput {
 }
 
 func (txI *TxInput) MarshalCBOR() ([]byte, error) {
+	if len(txI.TxHash) != 32 {
+		return nil, errors.New("transaction input hash is not 32 bytes")
+	}
+
 	type arrayInput struct {
 		_      struct{} `cbor:",toarray"`
 		TxHash []byte
-- 
2.43.0


From bfc5f5360235a88af814704de0f11b6e47fd7569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:03 +0000
Subject: [PATCH 16/40] fix: encode metadata maps in a fixed order

Go map iteration order made every serialisation of map metadata different, so
the auxiliary data hash and with it the transaction id and signatures did not
match the bytes sent.
---
 tx/tx.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tx/tx.go b/tx/tx.go
index ca4d583..53de549 100644
--- a/tx/tx.go
+++ b/tx/tx.go
@@ -9,6 +9,9 @@ import (
 	"golang.org/x/crypto/blake2b"
 )
 
+// encMode sorts map keys, so that a transaction and its metadata always have the same bytes and hash.
+var encMode, _ = cbor.EncOptions{Sort: cbor.SortCoreDeterministic}.EncMode()
+
 type Tx struct {
 	_        struct{} `cbor:",toarray"`
 	Body     *TxBody
@@ -31,7 +34,7 @@ func (t *Tx) Bytes() ([]byte, error) {
 	if err := t.CalculateAuxiliaryDataHash(); err != nil {
 		return nil, err
 	}
-	bytes, err := cbor.Marshal(t)
+	bytes, err := encMode.Marshal(t)
 	return bytes, err
 }
 
@@ -49,7 +52,7 @@ func (t *Tx) Hash() ([32]byte, error) {
 	if err := t.CalculateAuxiliaryDataHash(); err != nil {
 		return [32]byte{}, err
 	}
-	txBody, err := cbor.Marshal(t.Body)
+	txBody, err := encMode.Marshal(t.Body)
 	if err != nil {
 		var bt [32]byte
 		return bt, err
@@ -65,7 +68,7 @@ func (t *Tx) Fee(lfee *fees.LinearFee) (uint, error) {
 	if err := t.CalculateAuxiliaryDataHash(); err != nil {
 		return 0, err
 	}
-	txCbor, err := cbor.Marshal(t)
+	txCbor, err := encMode.Marshal(t)
 	if err != nil {
 		return 0, err
 	}
@@ -82,7 +85,7 @@ func (t *Tx) SetFee(fee uint) {
 
 func (t *Tx) CalculateAuxiliaryDataHash() error {
 	if t.Metadata != nil {
-		mdBytes, err := cbor.Marshal(&t.Metadata)
+		mdBytes, err := encMode.Marshal(&t.Metadata)
 		if err != nil {
 			return fmt.Errorf("cannot serialize metadata: %w", err)
 		}
-- 
2.43.0


From e954c5175847fc11c88dcd188029c93f7452b415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:03 +0000
Subject: [PATCH 17/40] fix: drop the auxiliary data hash when metadata is
 removed

The hash of earlier metadata stayed in the body of a transaction that no longer
carries any.
---
 tx/tx.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tx/tx.go b/tx/tx.go
index 53de549..cd95920 100644
--- a/tx/tx.go
+++ b/tx/tx.go
@@ -91,6 +91,8 @@ func (t *Tx) CalculateAuxiliaryDataHash() error {
 		}
 		auxHash := blake2b.Sum256(mdBytes)
 		t.Body.AuxiliaryDataHash = auxHash[:]
+	} else {
+		t.Body.AuxiliaryDataHash = nil
 	}
 	return nil
 }
-- 
2.43.0


From 4b43fd2551e58d989a31ed1d0318dbfc2f20b968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:03 +0000
Subject: [PATCH 18/40] fix: leave the transaction alone when computing the
 minimum fee

MinFee added its all-zero placeholder witness to the transaction itself.
---
 tx/tx_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 0293270..f559ad1 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -86,7 +86,7 @@ func (tb TxBuilder) MinFee() (fee uint) {
 			Fee:     tb.tx.Body.Fee,
 			TTL:     tb.tx.Body.TTL,
 		},
-		Witness:  tb.tx.Witness,
+		Witness:  NewTXWitness(append([]*VKeyWitness{}, tb.tx.Witness.Keys...)...),
 		Valid:    true,
 		Metadata: tb.tx.Metadata,
 	}
-- 
2.43.0


From fe9a5cf71dbbc512b74e4dfdaa58a3b8a3af6da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:03 +0000
Subject: [PATCH 19/40] fix: count one witness per signing key in the minimum
 fee

Only a single placeholder witness was counted, so the fee of a transaction with
several signing keys was too small.
---
 tx/tx_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index f559ad1..b6d8526 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -91,7 +91,7 @@ func (tb TxBuilder) MinFee() (fee uint) {
 		Metadata: tb.tx.Metadata,
 	}
 	feeTx.CalculateAuxiliaryDataHash()
-	if len(feeTx.Witness.Keys) == 0 {
+	for len(feeTx.Witness.Keys) == 0 || len(feeTx.Witness.Keys) < len(tb.xprvs) {
 		vWitness := NewVKeyWitness(
 			make([]byte, 32),
 			make([]byte, 64),
-- 
2.43.0


From 7625cd4eea0317f46b0c9fd0d5543e4259a58008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:03 +0000
Subject: [PATCH 20/40] fix: repeat the minimum fee computation until the fee
 suffices

The second pass can itself cross a CBOR width boundary, which left the fee a few
bytes short.
---
 tx/tx_builder.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index b6d8526..af839cd 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -108,12 +108,15 @@ func (tb TxBuilder) MinFee() (fee uint) {
 
 	}
 	lfee := fees.NewLinearFee(tb.protocol.TxFeePerByte, tb.protocol.TxFeeFixed)
-	// The fee may have increased enough to increase the number of bytes, so do one more pass
-	fee, _ = feeTx.Fee(lfee)
-	feeTx.Body.Fee = uint64(fee)
-	fee, _ = feeTx.Fee(lfee)
-
-	return
+	// The fee may have increased enough to increase the number of bytes, so repeat until it suffices
+	feeTx.Body.Fee = 0
+	for {
+		fee, _ = feeTx.Fee(lfee)
+		if uint64(fee) <= feeTx.Body.Fee {
+			return uint(feeTx.Body.Fee)
+		}
+		feeTx.Body.Fee = uint64(fee)
+	}
 }
 
 // AddInputs adds inputs to the transaction body
-- 
2.43.0


From fac755ac951926d89956f8474546e12620b7a06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:46 +0000
Subject: [PATCH 21/40] fix: compute change and fee together and refuse
 insufficient inputs

Change was computed with unsigned arithmetic that wrapped around when the inputs
were too small (an output worth almost 2^64 lovelace), an empty change output was
added when nothing was left, and the fee was estimated for a fixed 57-byte change
address and amount, too low for a longer (Byron, pointer) change address.
---
 tx/tx_builder.go | 93 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 69 insertions(+), 24 deletions(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index af839cd..1f2f158 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -1,12 +1,17 @@
 package tx
 
 import (
+	"errors"
+
 	"github.com/fivebinaries/go-cardano-serialization/address"
 	"github.com/fivebinaries/go-cardano-serialization/bip32"
 	"github.com/fivebinaries/go-cardano-serialization/fees"
 	"github.com/fivebinaries/go-cardano-serialization/protocol"
 )
 
+// ErrInsufficientFunds is returned when the inputs do not cover the outputs and the fee.
+var ErrInsufficientFunds = errors.New("inputs do not cover outputs and fee")
+
 // TxBuilder - used to create, validate and sign transactions.
 type TxBuilder struct {
 	tx       *Tx
@@ -46,19 +51,42 @@ func (tb *TxBuilder) Tx() (tx *Tx) {
 	return tb.tx
 }
 
-// AddChangeIfNeeded calculates the excess change from UTXO inputs - outputs and adds it to the transaction body.
-func (tb *TxBuilder) AddChangeIfNeeded(addr address.Address) {
-	// change is amount in utxo minus outputs minus fee
-	tb.tx.SetFee(tb.MinFee())
+// AddChangeIfNeeded sets the fee, calculates the excess change from UTXO inputs - outputs and adds it to the transaction body.
+// An excess too small to pay for a change output is added to the fee. If the inputs do not cover the outputs and the fee
+// the transaction is left as it is and ErrInsufficientFunds is returned.
+func (tb *TxBuilder) AddChangeIfNeeded(addr address.Address) error {
 	totalI, totalO := tb.getTotalInputOutputs()
+	if totalI < totalO {
+		return ErrInsufficientFunds
+	}
+	excess := totalI - totalO
 
-	change := totalI - totalO - uint(tb.tx.Body.Fee)
-	tb.tx.AddOutputs(
-		NewTxOutput(
-			addr,
-			change,
-		),
-	)
+	// change is amount in utxo minus outputs minus fee
+	changeOutput := func(fee uint) *TxOutput {
+		if excess < fee {
+			return NewTxOutput(addr, 0)
+		}
+		return NewTxOutput(addr, excess-fee)
+	}
+	fee, err := tb.minFee(0, changeOutput)
+	if err != nil {
+		return err
+	}
+	if excess > fee {
+		tb.tx.SetFee(fee)
+		return tb.tx.AddOutputs(changeOutput(fee))
+	}
+
+	fee, err = tb.minFee(excess, nil)
+	if err != nil {
+		return err
+	}
+	if excess < fee {
+		return ErrInsufficientFunds
+	}
+	tb.tx.SetFee(excess)
+
+	return nil
 }
 
 // SetTTL sets the time to live for the transaction.
@@ -79,6 +107,24 @@ func (tb TxBuilder) getTotalInputOutputs() (inputs, outputs uint) {
 
 // MinFee calculates the minimum fee for the provided transaction.
 func (tb TxBuilder) MinFee() (fee uint) {
+	totalI, totalO := tb.getTotalInputOutputs()
+
+	if totalI != (totalO) {
+		inner_addr, _ := address.NewAddress("addr_test1qqe6zztejhz5hq0xghlf72resflc4t2gmu9xjlf73x8dpf88d78zlt4rng3ccw8g5vvnkyrvt96mug06l5eskxh8rcjq2wyd63")
+
+		fee, _ = tb.minFee(0, func(uint) *TxOutput {
+			return NewTxOutput(inner_addr, (totalI - totalO - 200000))
+		})
+		return
+	}
+	fee, _ = tb.minFee(0, nil)
+
+	return
+}
+
+// minFee calculates the smallest sufficient fee, not below the given one, for the transaction together with the
+// output that change returns for a fee.
+func (tb TxBuilder) minFee(fee uint, change func(fee uint) *TxOutput) (uint, error) {
 	feeTx := Tx{
 		Body: &TxBody{
 			Inputs:  tb.tx.Body.Inputs,
@@ -99,23 +145,22 @@ func (tb TxBuilder) MinFee() (fee uint) {
 		feeTx.Witness.Keys = append(feeTx.Witness.Keys, vWitness)
 	}
 
-	totalI, totalO := tb.getTotalInputOutputs()
-
-	if totalI != (totalO) {
-		inner_addr, _ := address.NewAddress("addr_test1qqe6zztejhz5hq0xghlf72resflc4t2gmu9xjlf73x8dpf88d78zlt4rng3ccw8g5vvnkyrvt96mug06l5eskxh8rcjq2wyd63")
-
-		feeTx.Body.Outputs = append(feeTx.Body.Outputs, NewTxOutput(inner_addr, (totalI-totalO-200000)))
-
-	}
 	lfee := fees.NewLinearFee(tb.protocol.TxFeePerByte, tb.protocol.TxFeeFixed)
 	// The fee may have increased enough to increase the number of bytes, so repeat until it suffices
-	feeTx.Body.Fee = 0
 	for {
-		fee, _ = feeTx.Fee(lfee)
-		if uint64(fee) <= feeTx.Body.Fee {
-			return uint(feeTx.Body.Fee)
+		feeTx.SetFee(fee)
+		feeTx.Body.Outputs = append([]*TxOutput{}, tb.tx.Body.Outputs...)
+		if change != nil {
+			feeTx.AddOutputs(change(fee))
+		}
+		required, err := feeTx.Fee(lfee)
+		if err != nil {
+			return 0, err
+		}
+		if required <= fee {
+			return fee, nil
 		}
-		feeTx.Body.Fee = uint64(fee)
+		fee = required
 	}
 }
 
-- 
2.43.0


From 2a57f273efa762b48e83e7a57da09363994eab4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:46 +0000
Subject: [PATCH 22/40] fix: give a built transaction its own body

A built transaction shared its body with the builder, so adding to or rebuilding
with the builder changed transactions already built and broke their signatures.
---
 tx/tx_builder.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 1f2f158..317e275 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -43,7 +43,14 @@ func (tb *TxBuilder) Build() (tx Tx, err error) {
 		txKeys...,
 	)
 
-	return *tb.tx, nil
+	// the result has its own body, which further use of the builder does not change
+	tx = *tb.tx
+	body := *tb.tx.Body
+	body.Inputs = append([]*TxInput{}, body.Inputs...)
+	body.Outputs = append([]*TxOutput{}, body.Outputs...)
+	tx.Body = &body
+
+	return tx, nil
 }
 
 // Tx returns a pointer to the transaction
-- 
2.43.0


From 85d9e989c0bad7ab8477065b5e762b2002ccc850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:46 +0000
Subject: [PATCH 23/40] fix: keep the builder's keys apart from the caller's
 slice

Sign appended to the slice passed to NewTxBuilder, so two builders made from one
slice could replace each other's signing keys.
---
 tx/tx_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 317e275..91e7f22 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -185,7 +185,7 @@ func (tb *TxBuilder) AddOutputs(outputs ...*TxOutput) {
 func NewTxBuilder(pr protocol.Protocol, xprvs []bip32.XPrv) *TxBuilder {
 	return &TxBuilder{
 		tx:       NewTx(),
-		xprvs:    xprvs,
+		xprvs:    append([]bip32.XPrv{}, xprvs...),
 		protocol: pr,
 	}
 }
-- 
2.43.0


From 64e59078d49035a6554272c32ececaf78334bcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:22 +0000
Subject: [PATCH 24/40] fix: run cardano-cli on the configured network

The mainnet and testnet flags were swapped.
---
 node/cardano-cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index f93dcdc..62452d8 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -25,7 +25,7 @@ func (cli *cardanoCli) execCommand(args ...string) (data []byte, err error) {
 	buf := &bytes.Buffer{}
 	var cmdSuffix string
 
-	if cli.network.NetworkId == 0 {
+	if cli.network.NetworkId == 1 {
 		cmdSuffix = "--mainnet"
 	} else {
 		cmdSuffix = fmt.Sprintf("--testnet-magic %d", cli.network.ProtocolMagic)
-- 
2.43.0


From b59e7b1a219e51fd302ac2e8974d6e95cbf1f1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:22 +0000
Subject: [PATCH 25/40] fix: pass cardano-cli options and their values as
 separate arguments

There is no shell in between to split "--testnet-magic 1" in two, so cardano-cli
rejected the options.
---
 node/cardano-cli.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index 62452d8..2977489 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -23,15 +23,15 @@ type cardanoCli struct {
 
 func (cli *cardanoCli) execCommand(args ...string) (data []byte, err error) {
 	buf := &bytes.Buffer{}
-	var cmdSuffix string
+	var cmdSuffix []string
 
 	if cli.network.NetworkId == 1 {
-		cmdSuffix = "--mainnet"
+		cmdSuffix = []string{"--mainnet"}
 	} else {
-		cmdSuffix = fmt.Sprintf("--testnet-magic %d", cli.network.ProtocolMagic)
+		cmdSuffix = []string{"--testnet-magic", fmt.Sprint(cli.network.ProtocolMagic)}
 	}
 
-	args = append(args, cmdSuffix)
+	args = append(args, cmdSuffix...)
 	cmd := exec.Command(cli.cliPath, args...)
 	cmd.Stdout = buf
 	cmd.Stderr = os.Stderr
@@ -55,7 +55,7 @@ func (cli *cardanoCli) ProtocolParameters() (p protocol.Protocol, err error) {
 }
 
 func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error) {
-	data, err := cli.execCommand("query", "utxos", fmt.Sprintf("--address %s", addr))
+	data, err := cli.execCommand("query", "utxos", "--address", addr.String())
 	if err != nil {
 		return
 	}
@@ -133,7 +133,7 @@ func (cli *cardanoCli) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 		return txHash, err
 	}
 
-	cliData, err := cli.execCommand("submit", fmt.Sprintf("--tx-file %s", tmpFile.Name()))
+	cliData, err := cli.execCommand("submit", "--tx-file", tmpFile.Name())
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 6fabfbc042180d2e1cda16548a56e2ee9cdd474c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:22 +0000
Subject: [PATCH 26/40] fix: use the cardano-cli commands query utxo and
 transaction submit

There are no commands "query utxos" and "submit".
---
 node/cardano-cli.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index 2977489..468a1d0 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -55,7 +55,7 @@ func (cli *cardanoCli) ProtocolParameters() (p protocol.Protocol, err error) {
 }
 
 func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error) {
-	data, err := cli.execCommand("query", "utxos", "--address", addr.String())
+	data, err := cli.execCommand("query", "utxo", "--address", addr.String())
 	if err != nil {
 		return
 	}
@@ -133,7 +133,7 @@ func (cli *cardanoCli) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 		return txHash, err
 	}
 
-	cliData, err := cli.execCommand("submit", "--tx-file", tmpFile.Name())
+	cliData, err := cli.execCommand("transaction", "submit", "--tx-file", tmpFile.Name())
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 666c85af9907f793d78be17c69605701c32191f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:22 +0000
Subject: [PATCH 27/40] fix: read the lines of the cardano-cli utxo table

The number of bytes was used as the number of lines, so every answer made the
query panic.
---
 node/cardano-cli.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index 468a1d0..1cabcaf 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -61,14 +61,21 @@ func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error
 	}
 
 	ldata := strings.Split(string(data), "\n")
-	lenData := len(data)
+	// the first two lines are the header
+	lenData := len(ldata)
 
 	if lenData < 3 {
 		return
 	}
 
-	for _, it := range ldata[2 : lenData-1] {
+	for _, it := range ldata[2:lenData] {
 		sec := strings.Fields(it)
+		if len(sec) == 0 {
+			continue
+		}
+		if len(sec) < 3 {
+			return txIs, fmt.Errorf("unexpected utxo line: %q", it)
+		}
 		txIx, err := strconv.ParseUint(sec[1], 10, 16)
 		if err != nil {
 			return txIs, err
-- 
2.43.0


From 93dbb69e9be39e071e62c4ba5ee1177cd082a0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:22 +0000
Subject: [PATCH 28/40] fix: state the type in the transaction file for
 cardano-cli

cardano-cli refuses a text envelope without a type.
---
 node/cardano-cli.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index 1cabcaf..66a21a7 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -121,6 +121,7 @@ func (cli *cardanoCli) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 	}
 
 	outTx := sb{
+		TxType:  "Tx AlonzoEra",
 		CborHex: txHex,
 	}
 
-- 
2.43.0


From e8ddc4fda915637ba239f2a85e1626b6ed0fbf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:22 +0000
Subject: [PATCH 29/40] fix: return the transaction hash from cardano-cli
 submission

cardano-cli prints "Transaction successfully submitted.", which was returned as
the hash.
---
 node/cardano-cli.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index 66a21a7..bfce751 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -2,6 +2,7 @@ package node
 
 import (
 	"bytes"
+	"encoding/hex"
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
@@ -141,12 +142,16 @@ func (cli *cardanoCli) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 		return txHash, err
 	}
 
-	cliData, err := cli.execCommand("transaction", "submit", "--tx-file", tmpFile.Name())
+	_, err = cli.execCommand("transaction", "submit", "--tx-file", tmpFile.Name())
 	if err != nil {
 		return
 	}
 
-	txHash = string(cliData)
+	hash, err := txFinal.Hash()
+	if err != nil {
+		return
+	}
+	txHash = hex.EncodeToString(hash[:])
 
 	if err := tmpFile.Close(); err != nil {
 		return txHash, err
-- 
2.43.0


From 043efcaf4dbb025ce9bd0bc0cceda162233516ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:22 +0000
Subject: [PATCH 30/40] fix: query all pages of UTXOs from blockfrost

Only the first 100 outputs of an address were returned.
---
 node/blockfrost.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index 9b89d3f..e2801d3 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -34,13 +34,21 @@ func (b *blockfrostNode) getNetwork() (serverUrl string) {
 
 // UTXOs queries the network for Unspent Transaction Outputs belonging to an address.
 func (b *blockfrostNode) UTXOs(addr address.Address) (txIs []tx.TxInput, err error) {
-	utxos, err := b.client.AddressUTXOs(
-		context.TODO(),
-		addr.String(),
-		blockfrost.APIQueryParams{},
-	)
-	if err != nil {
-		return
+	const pageSize = 100
+	var utxos []blockfrost.AddressUTXO
+	for page := 1; ; page++ {
+		more, err := b.client.AddressUTXOs(
+			context.TODO(),
+			addr.String(),
+			blockfrost.APIQueryParams{Count: pageSize, Page: page},
+		)
+		if err != nil {
+			return nil, err
+		}
+		utxos = append(utxos, more...)
+		if len(more) < pageSize {
+			break
+		}
 	}
 
 	for _, utxo := range utxos {
-- 
2.43.0


From da5ccd1db62fd318af7c2ad084995c71805d49ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:22 +0000
Subject: [PATCH 31/40] fix: return the bare transaction hash from blockfrost
 submission

The answer is a JSON string and was returned with its quotes.
---
 node/blockfrost.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index e2801d3..290ff10 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -3,6 +3,7 @@ package node
 import (
 	"bytes"
 	"context"
+	"encoding/json"
 	"errors"
 	"fmt"
 	"io/ioutil"
@@ -126,10 +127,15 @@ func (b *blockfrostNode) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 	}
 
 	if res.StatusCode != 200 {
-		err = errors.New(string(resb))
+		return "", errors.New(string(resb))
 	}
 
-	return string(resb), err
+	// the answer is a JSON string
+	if err = json.Unmarshal(resb, &txHash); err != nil {
+		return "", err
+	}
+
+	return txHash, nil
 }
 
 // NewBlockfrostClient returns a wrapper for the blockfrost API/SDK with Node interface
-- 
2.43.0


From 7f4c88c081c1979db58799ba4ac1febffcf98d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:22 +0000
Subject: [PATCH 32/40] fix: close the body of the blockfrost submission answer

Every submission leaked a connection.
---
 node/blockfrost.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index 290ff10..0c91c99 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -121,6 +121,8 @@ func (b *blockfrostNode) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 		return
 	}
 
+	defer res.Body.Close()
+
 	resb, err := ioutil.ReadAll(res.Body)
 	if err != nil {
 		return "", err
-- 
2.43.0


From 511b55b5764232691494222618ccf5c506d32a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:02 +0000
Subject: [PATCH 33/40] fix: report a malformed transaction hash in the
 cardano-cli utxo table

A line whose first column is not a transaction hash became an input without hash.
---
 node/cardano-cli.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index bfce751..761aa3b 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -12,6 +12,7 @@ import (
 	"strings"
 
 	"github.com/fivebinaries/go-cardano-serialization/address"
+	"github.com/fivebinaries/go-cardano-serialization/crypto"
 	"github.com/fivebinaries/go-cardano-serialization/network"
 	"github.com/fivebinaries/go-cardano-serialization/protocol"
 	"github.com/fivebinaries/go-cardano-serialization/tx"
@@ -95,6 +96,10 @@ func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error
 			uint(amount),
 		)
 
+		if len(utxo.TxHash) != crypto.TransactionHashLen {
+			return txIs, fmt.Errorf("unexpected transaction hash: %q", sec[0])
+		}
+
 		txIs = append(txIs, utxo)
 	}
 	return
-- 
2.43.0


From aabc6cef0ea96ce4b809877fcc7b14c396d059fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:00 +0000
Subject: [PATCH 34/40] fix: report a negative amount in the cardano-cli utxo
 table

---
 node/cardano-cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index 761aa3b..d00688c 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -85,7 +85,7 @@ func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error
 
 		amSec := strings.Fields(sec[2])
 
-		amount, err := strconv.Atoi(amSec[0])
+		amount, err := strconv.ParseUint(amSec[0], 10, 64)
 		if err != nil {
 			return txIs, err
 		}
-- 
2.43.0


From 6d63797b2f882c41163c6cd1d48ca85f39730db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:00 +0000
Subject: [PATCH 35/40] fix: report a negative quantity in a blockfrost utxo

---
 node/blockfrost.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index 0c91c99..66fe779 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -57,7 +57,7 @@ func (b *blockfrostNode) UTXOs(addr address.Address) (txIs []tx.TxInput, err err
 		for _, am := range utxo.Amount {
 			if am.Unit == "lovelace" {
 
-				amountI, err := strconv.Atoi(am.Quantity)
+				amountI, err := strconv.ParseUint(am.Quantity, 10, 64)
 				if err != nil {
 					return []tx.TxInput{}, err
 				}
-- 
2.43.0


From 3a19db17f558e276d1ecd3800555fb3484d71d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:53 +0000
Subject: [PATCH 36/40] fix: refuse to compute change from amounts that
 overflow

---
 tx/tx_builder.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 91e7f22..223ad06 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -12,6 +12,9 @@ import (
 // ErrInsufficientFunds is returned when the inputs do not cover the outputs and the fee.
 var ErrInsufficientFunds = errors.New("inputs do not cover outputs and fee")
 
+// ErrAmountOverflow is returned when the amounts of the inputs or of the outputs are too large to be added up.
+var ErrAmountOverflow = errors.New("sum of amounts overflows")
+
 // TxBuilder - used to create, validate and sign transactions.
 type TxBuilder struct {
 	tx       *Tx
@@ -60,9 +63,12 @@ func (tb *TxBuilder) Tx() (tx *Tx) {
 
 // AddChangeIfNeeded sets the fee, calculates the excess change from UTXO inputs - outputs and adds it to the transaction body.
 // An excess too small to pay for a change output is added to the fee. If the inputs do not cover the outputs and the fee
-// the transaction is left as it is and ErrInsufficientFunds is returned.
+// the transaction is left as it is and ErrInsufficientFunds is returned; likewise ErrAmountOverflow if the amounts overflow.
 func (tb *TxBuilder) AddChangeIfNeeded(addr address.Address) error {
-	totalI, totalO := tb.getTotalInputOutputs()
+	totalI, totalO, err := tb.getTotalInputOutputs()
+	if err != nil {
+		return err
+	}
 	if totalI < totalO {
 		return ErrInsufficientFunds
 	}
@@ -101,12 +107,18 @@ func (tb *TxBuilder) SetTTL(ttl uint32) {
 	tb.tx.Body.TTL = ttl
 }
 
-func (tb TxBuilder) getTotalInputOutputs() (inputs, outputs uint) {
+func (tb TxBuilder) getTotalInputOutputs() (inputs, outputs uint, err error) {
 	for _, inp := range tb.tx.Body.Inputs {
 		inputs += inp.Amount
+		if inputs < inp.Amount {
+			err = ErrAmountOverflow
+		}
 	}
 	for _, out := range tb.tx.Body.Outputs {
 		outputs += uint(out.Amount)
+		if outputs < out.Amount {
+			err = ErrAmountOverflow
+		}
 	}
 
 	return
@@ -114,7 +126,7 @@ func (tb TxBuilder) getTotalInputOutputs() (inputs, outputs uint) {
 
 // MinFee calculates the minimum fee for the provided transaction.
 func (tb TxBuilder) MinFee() (fee uint) {
-	totalI, totalO := tb.getTotalInputOutputs()
+	totalI, totalO, _ := tb.getTotalInputOutputs()
 
 	if totalI != (totalO) {
 		inner_addr, _ := address.NewAddress("addr_test1qqe6zztejhz5hq0xghlf72resflc4t2gmu9xjlf73x8dpf88d78zlt4rng3ccw8g5vvnkyrvt96mug06l5eskxh8rcjq2wyd63")
-- 
2.43.0


From dfb4c1c957e4f6cf69b3209fa24d7e49384735ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:55 +0000
Subject: [PATCH 37/40] fix: report a malformed output reference in a
 blockfrost utxo

---
 node/blockfrost.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index 66fe779..69eaf1b 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -7,11 +7,13 @@ import (
 	"errors"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"net/http"
 	"strconv"
 
 	"github.com/blockfrost/blockfrost-go"
 	"github.com/fivebinaries/go-cardano-serialization/address"
+	"github.com/fivebinaries/go-cardano-serialization/crypto"
 	"github.com/fivebinaries/go-cardano-serialization/network"
 	"github.com/fivebinaries/go-cardano-serialization/protocol"
 	"github.com/fivebinaries/go-cardano-serialization/tx"
@@ -65,7 +67,17 @@ func (b *blockfrostNode) UTXOs(addr address.Address) (txIs []tx.TxInput, err err
 			}
 
 		}
-		txIs = append(txIs, *tx.NewTxInput(utxo.TxHash, uint16(utxo.OutputIndex), amount))
+		if utxo.OutputIndex < 0 || utxo.OutputIndex > math.MaxUint16 {
+			return []tx.TxInput{}, fmt.Errorf("unexpected output index: %d", utxo.OutputIndex)
+		}
+
+		txI := *tx.NewTxInput(utxo.TxHash, uint16(utxo.OutputIndex), amount)
+
+		if len(txI.TxHash) != crypto.TransactionHashLen {
+			return []tx.TxInput{}, fmt.Errorf("unexpected transaction hash: %q", utxo.TxHash)
+		}
+
+		txIs = append(txIs, txI)
 	}
 
 	return
-- 
2.43.0


From 346788935c6def4bf62641ae8f32354c59b6f0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:32 +0000
Subject: [PATCH 38/40] fix: report blockfrost tip and parameter values that
 are out of range

---
 node/blockfrost.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index 69eaf1b..bd46031 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -90,11 +90,22 @@ func (b *blockfrostNode) ProtocolParameters() (p protocol.Protocol, err error) {
 		return
 	}
 
-	minU, err := strconv.Atoi(params.MinUtxo)
+	minU, err := strconv.ParseUint(params.MinUtxo, 10, 64)
 	if err != nil {
 		return
 	}
 
+	for _, v := range []int{params.MinFeeA, params.MinFeeB, params.MaxTxSize} {
+		if v < 0 {
+			return p, fmt.Errorf("unexpected protocol parameter: %d", v)
+		}
+	}
+	for _, v := range []int{params.ProtocolMajorVer, params.ProtocolMinorVer} {
+		if v < 0 || v > math.MaxUint8 {
+			return p, fmt.Errorf("unexpected protocol version: %d", v)
+		}
+	}
+
 	return protocol.Protocol{
 		TxFeePerByte: uint(params.MinFeeA),
 		TxFeeFixed:   uint(params.MinFeeB),
@@ -186,6 +197,10 @@ func (b *blockfrostNode) QueryTip() (nt NetworkTip, err error) {
 		return
 	}
 
+	if block.Slot < 0 || block.Epoch < 0 || block.Height < 0 {
+		return nt, fmt.Errorf("unexpected block: %d, slot %d, epoch %d", block.Height, block.Slot, block.Epoch)
+	}
+
 	nt = NetworkTip{
 		Slot:  uint(block.Slot),
 		Epoch: uint(block.Epoch),
-- 
2.43.0


From a5215977ba922aa6de165e8493dfc587cb967ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:47 +0000
Subject: [PATCH 39/40] fix: report an answer to a submission that is not a
 transaction id as an error

A body of null, an empty string or any other text with status 200 was
returned as the id of an accepted transaction.
---
 node/blockfrost.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index bd46031..4ff722f 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -3,6 +3,7 @@ package node
 import (
 	"bytes"
 	"context"
+	"encoding/hex"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -155,10 +156,13 @@ func (b *blockfrostNode) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 		return "", errors.New(string(resb))
 	}
 
-	// the answer is a JSON string
+	// the answer is the transaction id as a JSON string
 	if err = json.Unmarshal(resb, &txHash); err != nil {
 		return "", err
 	}
+	if id, err := hex.DecodeString(txHash); err != nil || len(id) != crypto.TransactionHashLen {
+		return "", fmt.Errorf("unexpected answer: %s", resb)
+	}
 
 	return txHash, nil
 }
-- 
2.43.0


From 40b7c6460f44535e3b9797b103f9b11d5742635b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:18 +0000
Subject: [PATCH 40/40] fix: report output of cardano-cli that is not a table
 of outputs as an error

A message in place of the table was read as an empty table, and rows without
the header lost the first two.
---
 node/cardano-cli.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index d00688c..d340bf1 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -66,9 +66,12 @@ func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error
 	// the first two lines are the header
 	lenData := len(ldata)
 
-	if lenData < 3 {
+	if strings.TrimSpace(string(data)) == "" {
 		return
 	}
+	if lenData < 2 || !strings.HasPrefix(strings.TrimSpace(ldata[0]), "TxHash") || !strings.HasPrefix(ldata[1], "---") {
+		return txIs, fmt.Errorf("unexpected utxo table: %q", data)
+	}
 
 	for _, it := range ldata[2:lenData] {
 		sec := strings.Fields(it)
-- 
2.43.0

