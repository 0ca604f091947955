package addr

import (
	"bytes"

	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/crypto"
	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
	"pgregory.net/rapid"
)

// guarded returns b with spare capacity filled with a canary, and a function
// reporting whether any of it changed.
func guarded(b []byte) ([]byte, func() bool) {
	g := append(make([]byte, 0, len(b)+100), b...)
	full := g[:cap(g)]
	for i := len(b); i < len(full); i++ {
		full[i] = 0x5a
	}
	snap := append([]byte(nil), full...)
	return g, func() bool { return bytes.Equal(full, snap) }
}

func keyIsolation(h *hx.H) {
	h.Check("keys", 1500, func(t *rapid.T, c *hx.C) {
		raw := hx.Bytes(96).Draw(t, "key")
		raw[0] &= 0xf8
		raw[31] = raw[31]&0x1f | 0x40
		msg := hx.BytesLen(0, 200, 32, 64, 128).Draw(t, "msg")
		index := rapid.Uint32().Draw(t, "index")
		c.Key("%x %x %d", raw, msg, index)
		c.Nontrivial(true)
		kb, kSame := guarded(raw)
		mb, mSame := guarded(msg)
		key := bip32.XPrv(kb)
		child := key.Derive(index)
		pub := key.Public()
		sig := key.Sign(mb)
		mk := bip32.MakePublicKey(key)
		hash := pub.PublicKey().Hash()
		d1, d2 := crypto.Blake2b224(mb), crypto.Blake2b256(mb)
		if !kSame() || !mSame() {
			t.Fatalf("deriving, signing or hashing changed its input (key changed: %v, message changed: %v)", !kSame(), !mSame())
		}
		// results do not share memory: they stay as they are while others are made
		kb2, _ := guarded(raw)
		kb2[3] ^= 0x10
		other := bip32.XPrv(kb2)
		snap := [][]byte{append([]byte(nil), child...), append([]byte(nil), pub...)}
		oChild, oPub := other.Derive(index+1), other.Public()
		oSnap := [][]byte{append([]byte(nil), oChild...), append([]byte(nil), oPub...)}
		other.Sign(mb)
		child.Derive(index)
		child.Public()
		key.Derive(index ^ 0x80000000)
		if !bytes.Equal(child, snap[0]) || !bytes.Equal(pub, snap[1]) || !bytes.Equal(oChild, oSnap[0]) || !bytes.Equal(oPub, oSnap[1]) {
			t.Fatalf("a derived key or public key changed while others were made")
		}
		child0, pub0 := append([]byte(nil), child...), append([]byte(nil), pub...)
		smash(t, child, pub)
		if !kSame() {
			t.Fatalf("overwriting a derived key or public key changed the parent key")
		}
		if got := key.Derive(index); !bytes.Equal(got, child0) {
			t.Fatalf("derive again: %x, first %x", got, child0)
		}
		if got := key.Public(); !bytes.Equal(got, pub0) {
			t.Fatalf("public again: %x, first %x", got, pub0)
		}
		if got := key.Sign(mb); got != sig {
			t.Fatalf("sign again: %x, first %x", got, sig)
		}
		if bip32.MakePublicKey(key) != mk || bip32.XPub(pub0).PublicKey().Hash() != hash || crypto.Blake2b224(mb) != d1 || crypto.Blake2b256(mb) != d2 {
			t.Fatalf("repeating an operation gave a different result")
		}
		// generators
		if rapid.IntRange(0, 9).Draw(t, "gen") == 0 {
			ent, eSame := guarded(hx.BytesLen(0, 40, 16, 32).Draw(t, "entropy"))
			pw, pSame := guarded(hx.BytesLen(0, 20).Draw(t, "password"))
			r := bip32.FromBip39Entropy(ent, pw)
			r0 := append([]byte(nil), r...)
			smash(t, r)
			if !eSame() || !pSame() || !bytes.Equal(bip32.FromBip39Entropy(ent, pw), r0) {
				t.Fatalf("root key generation changed its input or is affected by its earlier result")
			}
		}
		seed, sSame := guarded(raw[:32])
		s1, err := bip32.NewXPrv(seed)
		if err != nil {
			t.Fatal(err)
		}
		s0 := append([]byte(nil), s1...)
		smash(t, s1)
		s2, _ := bip32.NewXPrv(seed)
		if !sSame() || !bytes.Equal(s2, s0) {
			t.Fatalf("seed key generation changed its input or is affected by its earlier result")
		}
		// identifiers keep their own copy
		b28, b32 := append([]byte(nil), raw[:28]...), append([]byte(nil), raw[:32]...)
		i1, _ := crypto.Ed25519KeyHashFromBytes(b28)
		i2, _ := crypto.TransactionHashFromBytes(b32)
		smash(t, b28, b32)
		if !bytes.Equal(i1[:], raw[:28]) || !bytes.Equal(i2[:], raw[:32]) {
			t.Fatalf("an identifier changed with the caller's buffer")
		}
	})
}
