package keys

import (
	"bytes"
	"fmt"

	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
	"github.com/fivebinaries/go-cardano-serialization/verif/kg"
	"github.com/fivebinaries/go-cardano-serialization/verif/ref"
	"pgregory.net/rapid"
)

// related checks that a result depends on nothing but its own arguments: a
// family of keys that agree in some of their parts, messages and indices that
// are alike, used in turn and repeatedly. judge is the operation judged; the
// others are carried out as well.
func related(h *hx.H, n int, judge string) {
	h.Check("related keys in turn", n, func(t *rapid.T, c *hx.C) {
		keys := [][]byte{kg.Key().Draw(t, "key")}
		for len(keys) < 2 || len(keys) < 4 && rapid.Bool().Draw(t, "more") {
			k := append([]byte(nil), keys[rapid.IntRange(0, len(keys)-1).Draw(t, "like")]...)
			part := rapid.IntRange(0, 3).Draw(t, "part")
			from, to := []int{0, 32, 64, 0}[part], []int{32, 64, 96, 96}[part]
			if rapid.Bool().Draw(t, "whole") {
				copy(k[from:to], hx.Bytes(to-from).Draw(t, "other"))
			} else {
				k[rapid.IntRange(from, to-1).Draw(t, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			}
			k[0] &= 0xf8
			k[31] = k[31]&0x1f | 0x40
			keys = append(keys, k)
		}
		msg := msgGen().Draw(t, "msg")
		idx := kg.Index().Draw(t, "index")
		var log []string
		steps := rapid.IntRange(3, 8).Draw(t, "steps")
		distinct := map[int]bool{}
		// one buffer that holds each key when it is used, as a caller might do
		buf := make([]byte, 96)
		for s := 0; s < steps; s++ {
			i := rapid.IntRange(0, len(keys)-1).Draw(t, "which")
			distinct[i] = true
			k := keys[i]
			x := bip32.XPrv(append([]byte(nil), k...))
			if rapid.IntRange(0, 3).Draw(t, "reuse") == 0 {
				copy(buf, k)
				x = buf
			}
			op := rapid.SampledFrom([]string{judge, judge, "public", "derive", "sign"}).Draw(t, "op")
			log = append(log, fmt.Sprintf("%s %x", op, k))
			var problem string
			switch op {
			case "public":
				p := x.Public()
				hash := p.PublicKey().Hash()
				if w := ref.PublicKey(k); judge == op && (!bytes.Equal(p.PublicKey(), w) || !bytes.Equal(p.ChainCode(), k[64:]) || !bytes.Equal(hash[:], ref.Blake2b(28, w))) {
					problem = fmt.Sprintf("public key %x, chain code %x, hash %x; want %x", p.PublicKey(), p.ChainCode(), hash, w)
				}
			case "derive":
				j := idx
				switch rapid.IntRange(0, 3).Draw(t, "otherIndex") {
				case 0:
					j ^= 1 << rapid.SampledFrom([]int{31, 0, 8, 16, 24}).Draw(t, "indexBit")
				}
				ch := x.Derive(j)
				if w := ref.Derive(k, j); judge == op && !bytes.Equal(ch, w) {
					problem = fmt.Sprintf("child %d is\n%x, want\n%x", j, []byte(ch), w)
				}
			case "sign":
				m := append([]byte(nil), msg...)
				if rapid.IntRange(0, 2).Draw(t, "otherMessage") == 0 {
					if len(m) > 0 && rapid.Bool().Draw(t, "sameLength") {
						m[rapid.SampledFrom([]int{0, len(m) / 2, len(m) - 1}).Draw(t, "at")] ^= 0x10
					} else {
						m = append(m, 7)
					}
				}
				sig := x.Sign(m)
				if w := ref.Sign(k, m); judge == op && !bytes.Equal(sig[:], w) {
					problem = fmt.Sprintf("signature of %x is\n%x, want\n%x", m, sig, w)
				}
			}
			if problem != "" {
				t.Fatalf("%s\nafter %q", problem, log)
			}
		}
		c.Key("%q %x %d", log, msg, idx)
		c.Nontrivial(len(distinct) > 1)
	})
}
