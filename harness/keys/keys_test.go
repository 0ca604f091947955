package keys

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"math/big"
	"testing"

	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/crypto"
	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
	"github.com/fivebinaries/go-cardano-serialization/verif/kg"
	"github.com/fivebinaries/go-cardano-serialization/verif/rare"
	"github.com/fivebinaries/go-cardano-serialization/verif/ref"
	"pgregory.net/rapid"
)

// ---- C10 ----

func TestC10(t *testing.T) {
	h := hx.Start(t, "C10", "entropy/passphrase pairs and seeds of all lengths against independent PBKDF2/SHA references; non-trivial: entropy or seed not empty")
	h.Check("entropy", 250, func(t *rapid.T, c *hx.C) {
		ent := hx.BytesLen(0, 140, 0, 16, 20, 24, 28, 32, 64, 128).Draw(t, "entropy")
		if rapid.Bool().Draw(t, "bip39") {
			ent = hx.Bytes(rapid.SampledFrom([]int{16, 20, 24, 28, 32}).Draw(t, "size")).Draw(t, "entropy")
		}
		pw := hx.BytesLen(0, 300, 0, 8, 64, 128, 256).Draw(t, "passphrase")
		switch rapid.IntRange(0, 5).Draw(t, "noPassphrase") {
		case 0, 1:
			pw = nil
		case 2:
			pw = []byte{}
		}
		c.Key("%x %x", ent, pw)
		c.Nontrivial(len(ent) > 0)
		c.Class("no passphrase", len(pw) == 0)
		c.Class("passphrase longer than a block", len(pw) > 128)
		c.Class("BIP-39 size", len(ent) >= 16 && len(ent) <= 32 && len(ent)%4 == 0)
		got := bip32.FromBip39Entropy(ent, pw)
		want := ref.IcarusRoot(ent, pw)
		if !bytes.Equal(got, want) {
			t.Fatalf("root key of entropy %x passphrase %x is\n%x, want\n%x", ent, pw, got, want)
		}
		if !bytes.Equal(got.ChainCode(), want[64:]) {
			t.Fatalf("chain code %x, want %x", got.ChainCode(), want[64:])
		}
		if rapid.IntRange(0, 3).Draw(t, "again") == 0 {
			if again := bip32.FromBip39Entropy(ent, pw); !bytes.Equal(again, want) {
				t.Fatalf("second call gives %x, want %x", again, want)
			}
		}
	})
	h.Check("related secrets in turn", 60, func(t *rapid.T, c *hx.C) {
		// pairs whose concatenation, entropy, passphrase or lengths agree
		ent := hx.Bytes(rapid.SampledFrom([]int{16, 20, 24, 28, 32}).Draw(t, "size")).Draw(t, "entropy")
		pw := hx.BytesLen(1, 40, 8, 16).Draw(t, "passphrase")
		type pair struct{ e, p []byte }
		ps := []pair{{ent, pw}, {ent, nil}, {append(append([]byte{}, ent...), pw[0]), pw[1:]}, {ent[:len(ent)-1], append(append([]byte{}, ent[len(ent)-1]), pw...)},
			{pw, ent}, {ent, append(append([]byte{}, pw...), 0)}, {append(append([]byte{}, ent...), 0), pw}, {ent, bytes.ToUpper(pw)}}
		for i := rapid.IntRange(2, 5).Draw(t, "steps"); i > 0; i-- {
			p := ps[rapid.IntRange(0, len(ps)-1).Draw(t, "which")]
			c.Key("%x %x", p.e, p.p)
			c.Nontrivial(true)
			if got, want := bip32.FromBip39Entropy(p.e, p.p), ref.IcarusRoot(p.e, p.p); !bytes.Equal(got, want) {
				t.Fatalf("root key of entropy %x passphrase %x is\n%x, want\n%x", p.e, p.p, []byte(got), want)
			}
		}
	})
	h.Check("normalised bits", 4000, func(t *rapid.T, c *hx.C) {
		raw := hx.Bytes(96).Draw(t, "raw")
		c.Key("%x", raw)
		c.Nontrivial(raw[0]&7 != 0 || raw[31]>>5 != 2)
		want := append([]byte(nil), raw...)
		want[0] &^= 7
		want[31] = want[31]&^0xe0 | 0x40
		got := bip32.NormalizeBytesForce3rd(append([]byte(nil), raw...))
		if !bytes.Equal(got, want) {
			t.Fatalf("normalising %x gives\n%x, want\n%x", raw, got, want)
		}
	})
	h.Check("seed", 6000, func(t *rapid.T, c *hx.C) {
		seed := hx.Bytes(32).Draw(t, "seed")
		c.Key("%x", seed)
		c.Nontrivial(true)
		in := append([]byte(nil), seed...)
		got, err := bip32.NewXPrv(in)
		want := ref.SeedRoot(seed)
		if err != nil || !bytes.Equal(got, want) {
			t.Fatalf("root key of seed %x is\n%x (%v), want\n%x", seed, got, err, want)
		}
		if !bytes.Equal(got.ChainCode(), want[64:]) {
			t.Fatalf("chain code %x, want %x", got.ChainCode(), want[64:])
		}
		if again, err := bip32.NewXPrv(in); err != nil || !bytes.Equal(again, want) {
			t.Fatalf("second call gives %x %v", again, err)
		}
	})
	h.Each("rare results", false, func(rec func(*hx.C)) error {
		for _, i := range rare.SeedRoots {
			c := &hx.C{}
			c.Key("seed %d", i)
			c.Nontrivial(true)
			want := ref.SeedRoot(rare.Block(i, 32))
			if got, err := bip32.NewXPrv(rare.Block(i, 32)); err != nil || !bytes.Equal(got, want) {
				return fmt.Errorf("root key of seed %x is\n%x (%v), want\n%x", rare.Block(i, 32), []byte(got), err, want)
			}
			rec(c)
		}
		for _, i := range rare.Roots {
			c := &hx.C{}
			c.Key("secret %d", i)
			c.Nontrivial(true)
			want := ref.IcarusRoot(rare.Entropy(i), nil)
			if got := bip32.FromBip39Entropy(rare.Entropy(i), nil); !bytes.Equal(got, want) {
				return fmt.Errorf("root key of entropy %x is\n%x, want\n%x", rare.Entropy(i), []byte(got), want)
			}
			rec(c)
		}
		return nil
	})
	h.Each("seed length", true, func(rec func(*hx.C)) error {
		for n := 0; n <= 200; n++ {
			seed := hx.Expand(uint64(n), n)
			c := &hx.C{}
			c.Key("%d", n)
			c.Nontrivial(true)
			var err error
			if p := hx.Try(func() { _, err = bip32.NewXPrv(seed) }); p != nil {
				return fmt.Errorf("seed of %d bytes: %v", n, p)
			}
			if (err == nil) != (n == 32) {
				return fmt.Errorf("seed of %d bytes: error %v", n, err)
			}
			rec(c)
		}
		if _, err := bip32.NewXPrv(nil); err == nil {
			return fmt.Errorf("nil seed accepted")
		}
		return nil
	})
}

// ---- C11 ----

func TestC11(t *testing.T) {
	h := hx.Start(t, "C11", "keys with carry-heavy patterns and indices around the hardened boundary against a big-integer BIP32-Ed25519 reference; non-trivial: index above 255 or hardened, or a path of two or more steps")
	h.Check("child", 1500, func(t *rapid.T, c *hx.C) {
		key := kg.Key().Draw(t, "key")
		index := kg.Index().Draw(t, "index")
		c.Key("%x/%d", key, index)
		c.Nontrivial(index > 255)
		c.Class("hardened", index >= 1<<31)
		c.Class("soft", index < 1<<31)
		parent := bip32.XPrv(append([]byte(nil), key...))
		child := parent.Derive(index)
		want := ref.Derive(key, index)
		c.Class("upper left bytes carry", want[31] != key[31])
		if !bytes.Equal(child, want) {
			t.Fatalf("child %d of %x is\n%x, want\n%x", index, key, child, want)
		}
		if !bytes.Equal(parent, key) {
			t.Fatalf("deriving changed the parent key to %x", []byte(parent))
		}
		if !bytes.Equal(child.ChainCode(), want[64:]) {
			t.Fatalf("chain code %x, want %x", child.ChainCode(), want[64:])
		}
		if index < 1<<31 {
			pub := parent.Public()
			pk, cc, ok := ref.DerivePub(pub.PublicKey(), pub.ChainCode(), index)
			cp := child.Public()
			if !ok || !bytes.Equal(cp.PublicKey(), pk) || !bytes.Equal(cp.ChainCode(), cc) {
				t.Fatalf("public child %d: %x %x, from the parent's public key: %x %x", index, cp.PublicKey(), cp.ChainCode(), pk, cc)
			}
		}
	})
	h.Check("path", 300, func(t *rapid.T, c *hx.C) {
		key := kg.Key().Draw(t, "key")
		path := rapid.SliceOfN(kg.Index(), 1, 8).Draw(t, "path")
		c.Key("%x/%v", key, path)
		c.Nontrivial(len(path) > 1)
		got, want := bip32.XPrv(append([]byte(nil), key...)), key
		var all []bip32.XPrv
		var snaps [][]byte
		for i, idx := range path {
			all = append(all, got)
			snaps = append(snaps, append([]byte(nil), got...))
			got, want = got.Derive(idx), ref.Derive(want, idx)
			if !bytes.Equal(got, want) {
				t.Fatalf("path %v of %x, step %d: %x, want %x", path, key, i, got, want)
			}
		}
		for i := range all {
			if !bytes.Equal(all[i], snaps[i]) {
				t.Fatalf("path %v: key at step %d changed to %x", path, i, []byte(all[i]))
			}
		}
		// siblings from the same parent do not disturb each other
		last := all[len(all)-1]
		sib := last.Derive(path[0] ^ 1)
		if !bytes.Equal(got, want) || !bytes.Equal(sib, ref.Derive(snaps[len(snaps)-1], path[0]^1)) {
			t.Fatalf("siblings under path %v disagree", path)
		}
	})
	related(h, 150, "derive")
	h.Each("rare results", false, func(rec func(*hx.C)) error {
		for _, i := range append(append([]uint32{}, rare.Soft...), rare.Hard...) {
			c := &hx.C{}
			c.Key("%d", i)
			c.Nontrivial(true)
			p := rare.Parent()
			want := ref.Derive(p, i)
			got := bip32.XPrv(p).Derive(i)
			if !bytes.Equal(got, want) {
				return fmt.Errorf("child %d of %x is\n%x, want\n%x", i, rare.Parent(), []byte(got), want)
			}
			if pub := got.Public(); !bytes.Equal(pub.PublicKey(), ref.PublicKey(want)) || !bytes.Equal(pub.ChainCode(), want[64:]) {
				return fmt.Errorf("public key of child %d of %x is %x %x", i, rare.Parent(), pub.PublicKey(), pub.ChainCode())
			}
			// and a further step from there
			if next := got.Derive(i ^ 1<<31); !bytes.Equal(next, ref.Derive(want, i^1<<31)) {
				return fmt.Errorf("child %d/%d of %x is %x", i, i^1<<31, rare.Parent(), []byte(next))
			}
			rec(c)
		}
		return nil
	})
	h.Each("index bits", true, func(rec func(*hx.C)) error {
		for k := 0; k < 2; k++ {
			key := hx.Expand(uint64(900+k), 96)
			key[0] &= 0xf8
			key[31] = key[31]&0x1f | 0x40
			for b := 0; b < 32; b++ {
				for _, idx := range []uint32{1 << b, 1<<b - 1, ^uint32(0) >> b, 1<<31 | 1<<b} {
					c := &hx.C{}
					c.Key("%d %d", k, idx)
					c.Nontrivial(true)
					if got, want := bip32.XPrv(key).Derive(idx), ref.Derive(key, idx); !bytes.Equal(got, want) {
						return fmt.Errorf("child %d of %x is %x, want %x", idx, key, got, want)
					}
					rec(c)
				}
			}
		}
		return nil
	})
}

// ---- C12 ----

func publicOf(key []byte) string {
	want := ref.MulBase(ref.FromLE(key[:32])).Encode()
	in := append([]byte(nil), key...)
	x := bip32.XPrv(in)
	pub := x.Public()
	if len(pub) != 64 || !bytes.Equal(pub.PublicKey(), want) {
		return fmt.Sprintf("public key of %x is %x, want %x", key, pub.PublicKey(), want)
	}
	if !bytes.Equal(pub.ChainCode(), key[64:]) {
		return fmt.Sprintf("chain code of %x's public key is %x", key, pub.ChainCode())
	}
	hash := pub.PublicKey().Hash()
	if wh := ref.Blake2b(28, want); !bytes.Equal(hash[:], wh) {
		return fmt.Sprintf("hash of public key %x is %x, want %x", want, hash, wh)
	}
	for _, n := range []int{32, 64, 96} {
		if mk := bip32.MakePublicKey(in[:n]); !bytes.Equal(mk[:], want) {
			return fmt.Sprintf("public key of the first %d bytes of %x is %x, want %x", n, key, mk, want)
		}
	}
	if kh, err := crypto.Ed25519KeyHashFromBytes(hash[:]); err != nil || kh != hash {
		return fmt.Sprintf("key hash %x does not survive conversion: %x %v", hash, kh, err)
	}
	if !bytes.Equal(in, key) {
		return "key changed"
	}
	return ""
}

func TestC12(t *testing.T) {
	h := hx.Start(t, "C12", "private scalars (uniform, sparse, carry-heavy, extreme, near the group order) against big-integer multiplication; non-trivial: every case (distinct by key)")
	h.Check("public key", 2500, func(t *rapid.T, c *hx.C) {
		key := kg.Key().Draw(t, "key")
		switch rapid.IntRange(0, 5).Draw(t, "scalarMode") {
		case 0: // any scalar below 2^255
			copy(key, hx.Bytes(32).Draw(t, "scalar"))
			key[31] &= 0x7f
		case 1: // near a multiple of the group order
			m := new(big.Int).Mul(ref.L, big.NewInt(int64(rapid.IntRange(0, 7).Draw(t, "multiple"))))
			copy(key, ref.LE(hx.BigNear(t, m), 32))
			key[31] &= 0x7f
		}
		c.Key("%x", key)
		c.Nontrivial(true)
		if p := publicOf(key); p != "" {
			t.Fatal(p)
		}
	})
	related(h, 200, "public")
	h.Each("rare results", false, func(rec func(*hx.C)) error {
		for _, i := range rare.Public {
			c := &hx.C{}
			c.Key("%d", i)
			c.Nontrivial(true)
			if p := publicOf(rare.SeedKey(i)); p != "" {
				return fmt.Errorf("%s", p)
			}
			rec(c)
		}
		return nil
	})
	h.Each("single bits and digits", true, func(rec func(*hx.C)) error {
		for k := 0; k < 64; k++ {
			for d := 1; d < 16; d++ {
				if k == 63 && d > 7 {
					continue
				}
				key := make([]byte, 96)
				key[k/2] = byte(d) << (4 * (k % 2))
				copy(key[32:], hx.Expand(uint64(k), 64))
				c := &hx.C{}
				c.Key("%d*16^%d", d, k)
				c.Nontrivial(true)
				if p := publicOf(key); p != "" {
					return fmt.Errorf("%s", p)
				}
				rec(c)
			}
		}
		return nil
	})
}

// ---- C13 ----

func msgGen() *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		if rapid.Bool().Draw(t, "hashSized") {
			return hx.Bytes(32).Draw(t, "msg")
		}
		return hx.BytesLen(0, 700, 0, 1, 32, 47, 48, 63, 64, 79, 80, 95, 96, 111, 112, 128, 256).Draw(t, "msg")
	})
}

func TestC13(t *testing.T) {
	h := hx.Start(t, "C13", "keys and messages around hash-block boundaries: signature equals a big-integer reference, verifies with crypto/ed25519, and not for an altered message, signature or other key; non-trivial: every case (distinct by key and message)")
	h.Check("signature", 1500, func(t *rapid.T, c *hx.C) {
		key := kg.Key().Draw(t, "key")
		msg := msgGen().Draw(t, "msg")
		c.Key("%x %x", key, msg)
		c.Nontrivial(true)
		c.Class("empty message", len(msg) == 0)
		c.Class("long message", len(msg) > 128)
		x := bip32.XPrv(append([]byte(nil), key...))
		in := append([]byte(nil), msg...)
		sig := x.Sign(in)
		if want := ref.Sign(key, msg); !bytes.Equal(sig[:], want) {
			t.Fatalf("signature of %x by %x is\n%x, want\n%x", msg, key, sig, want)
		}
		if ref.FromLE(sig[32:]).Cmp(ref.L) >= 0 {
			t.Fatalf("S of %x is not canonical", sig)
		}
		pub := ed25519.PublicKey(x.Public().PublicKey())
		if !ed25519.Verify(pub, msg, sig[:]) {
			t.Fatalf("signature %x of %x does not verify under %x", sig, msg, pub)
		}
		if !bytes.Equal(x, key) || !bytes.Equal(in, msg) {
			t.Fatalf("signing changed its inputs")
		}
		if again := x.Sign(in); again != sig {
			t.Fatalf("signing again gives %x, first %x", again, sig)
		}
		// other messages, other keys
		other := append([]byte(nil), msg...)
		switch m := rapid.IntRange(0, 2).Draw(t, "alter"); {
		case m == 0 && len(other) > 0:
			other[rapid.IntRange(0, len(other)-1).Draw(t, "pos")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		case m == 1 && len(other) > 0:
			other = other[:len(other)-1]
		default:
			other = append(other, rapid.Byte().Draw(t, "extra"))
		}
		if ed25519.Verify(pub, other, sig[:]) {
			t.Fatalf("signature of %x also verifies for %x", msg, other)
		}
		osig := x.Sign(other)
		if osig == sig || bytes.Equal(osig[:32], sig[:32]) {
			t.Fatalf("messages %x and %x share a signature or nonce", msg, other)
		}
		k2 := append([]byte(nil), key...)
		k2[rapid.IntRange(1, 30).Draw(t, "keyByte")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "keyBit")
		if p2 := bip32.XPrv(k2).Public().PublicKey(); ed25519.Verify(ed25519.PublicKey(p2), msg, sig[:]) {
			t.Fatalf("signature by %x verifies under the key of %x", key, k2)
		}
	})
	h.Check("derived key", 400, func(t *rapid.T, c *hx.C) {
		key := bip32.XPrv(kg.Key().Draw(t, "key"))
		path := rapid.SliceOfN(kg.Index(), 1, 5).Draw(t, "path")
		msg := msgGen().Draw(t, "msg")
		c.Key("%x %v %x", []byte(key), path, msg)
		c.Nontrivial(true)
		for _, i := range path {
			key = key.Derive(i)
		}
		sig := key.Sign(msg)
		if want := ref.Sign(key, msg); !bytes.Equal(sig[:], want) {
			t.Fatalf("signature of %x by %x is\n%x, want\n%x", msg, []byte(key), sig, want)
		}
		if !ed25519.Verify(ed25519.PublicKey(key.Public().PublicKey()), msg, sig[:]) {
			t.Fatalf("signature %x of %x does not verify", sig, msg)
		}
	})
	related(h, 150, "sign")
	h.Check("long message", 40, func(t *rapid.T, c *hx.C) {
		key := kg.Key().Draw(t, "key")
		n := hx.LenIn(t, 700, 140000, 1024, 4096, 16384, 65536, 131072)
		msg := hx.Expand(uint64(n), n)
		c.Key("%x %d", key, n)
		c.Nontrivial(true)
		x := bip32.XPrv(append([]byte(nil), key...))
		sig := x.Sign(msg)
		if want := ref.Sign(key, msg); !bytes.Equal(sig[:], want) {
			t.Fatalf("signature of a message of %d bytes by %x is\n%x, want\n%x", n, key, sig, want)
		}
		if !ed25519.Verify(ed25519.PublicKey(x.Public().PublicKey()), msg, sig[:]) {
			t.Fatalf("signature %x of a message of %d bytes does not verify", sig, n)
		}
	})
	h.Each("rare results", false, func(rec func(*hx.C)) error {
		sign := func(seed uint32, msg []byte) error {
			x := bip32.XPrv(rare.SeedKey(seed))
			sig := x.Sign(msg)
			// an extended key made of a seed signs as RFC 8032 does with the seed
			std := ed25519.NewKeyFromSeed(rare.Block(seed, 32))
			if want := ed25519.Sign(std, msg); !bytes.Equal(sig[:], want) {
				return fmt.Errorf("signature of %x by the key of seed %d is\n%x, want\n%x", msg, seed, sig, want)
			}
			if !ed25519.Verify(std.Public().(ed25519.PublicKey), msg, sig[:]) {
				return fmt.Errorf("signature %x of %x by the key of seed %d does not verify", sig, msg, seed)
			}
			return nil
		}
		for _, i := range rare.Signed {
			c := &hx.C{}
			c.Key("message %d", i)
			c.Nontrivial(true)
			if err := sign(7, rare.Block(i, 4)); err != nil {
				return err
			}
			rec(c)
		}
		for _, i := range rare.Public {
			c := &hx.C{}
			c.Key("key %d", i)
			c.Nontrivial(true)
			for n := uint32(0); n < 8; n++ {
				if err := sign(i, rare.Block(n, 32)); err != nil {
					return err
				}
			}
			rec(c)
		}
		return nil
	})
	h.Each("very long messages", false, func(rec func(*hx.C)) error {
		key := hx.Expand(78, 96)
		key[0] &= 0xf8
		key[31] = key[31]&0x1f | 0x40
		x := bip32.XPrv(append([]byte(nil), key...))
		for _, n := range []int{1<<16 - 1, 1 << 16, 1<<16 + 1, 1<<20 - 1, 1 << 20, 1<<20 + 1, 5 << 20, 17<<20 + 3} {
			msg := hx.Expand(uint64(n), n)
			c := &hx.C{}
			c.Key("%d", n)
			c.Nontrivial(true)
			sig := x.Sign(msg)
			if want := ref.Sign(key, msg); !bytes.Equal(sig[:], want) {
				return fmt.Errorf("message of %d bytes: %x want %x", n, sig, want)
			}
			rec(c)
		}
		return nil
	})
	h.Each("message lengths", true, func(rec func(*hx.C)) error {
		key := hx.Expand(77, 96)
		key[0] &= 0xf8
		key[31] = key[31]&0x1f | 0x40
		x := bip32.XPrv(key)
		for n := 0; n <= 300; n++ {
			msg := hx.Expand(uint64(n), n)
			c := &hx.C{}
			c.Key("%d", n)
			c.Nontrivial(true)
			sig := x.Sign(msg)
			if want := ref.Sign(key, msg); !bytes.Equal(sig[:], want) {
				return fmt.Errorf("message of %d bytes: %x want %x", n, sig, want)
			}
			rec(c)
		}
		return nil
	})
}
