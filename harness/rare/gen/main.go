// Command gen searches for the inputs in package rare and prints tables.go.
package main

import (
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"sync"

	"github.com/fivebinaries/go-cardano-serialization/verif/rare"
	"github.com/fivebinaries/go-cardano-serialization/verif/ref"
)

func search(name, doc string, n uint32, from uint32, hit func(i uint32) bool) {
	var mu sync.Mutex
	var found []uint32
	var wg sync.WaitGroup
	for w := uint32(0); w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := w; i < n; i += 8 {
				if hit(from + i) {
					mu.Lock()
					found = append(found, from+i)
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	sort.Slice(found, func(i, j int) bool { return found[i] < found[j] })
	fmt.Printf("\n// %s %s\nvar %s = []uint32{", name, doc, name)
	for i, f := range found {
		if i%10 == 0 {
			fmt.Print("\n\t")
		} else {
			fmt.Print(" ")
		}
		fmt.Printf("%d,", f)
	}
	fmt.Println("\n}")
}

func main() {
	fmt.Println("// Code generated by rare/gen; DO NOT EDIT.\n\npackage rare")
	search("Public", "are seeds of keys whose public key is extreme.", 400000, 0, func(i uint32) bool {
		return rare.Extreme(ed25519.NewKeyFromSeed(rare.Block(i, 32)).Public().(ed25519.PublicKey))
	})
	k := ed25519.NewKeyFromSeed(rare.Block(7, 32))
	x := rare.SeedKey(7)
	search("Signed", "are messages (four bytes) whose signature by SeedKey(7), or its nonce or challenge, is extreme.", 200000, 0, func(i uint32) bool {
		m := rare.Block(i, 4)
		sig := ed25519.Sign(k, m)
		nh := sha512.Sum512(append(append([]byte{}, x[32:64]...), m...))
		ch := sha512.Sum512(append(append(append([]byte{}, sig[:32]...), k[32:]...), m...))
		red := func(h []byte) []byte { return ref.LE(new(big.Int).Mod(ref.FromLE(h), ref.L), 32) }
		ends := func(b []byte) bool {
			n := len(b)
			return b[0] == b[1] && (b[0] == 0 || b[0] == 0xff) || b[n-2]|b[n-1] == 0 && b[n-3]&0xf0 == 0
		}
		return rare.Extreme(sig[:32]) || ends(sig[32:]) || ends(red(nh[:])) || ends(red(ch[:])) || rare.Extreme(nh[:]) || rare.Extreme(ch[:])
	})
	p := rare.Parent()
	pk := ref.PublicKey(p)
	mac := func(tag byte, data []byte, i uint32) []byte {
		m := hmac.New(sha512.New, p[64:])
		m.Write([]byte{tag})
		m.Write(data)
		m.Write(binary.LittleEndian.AppendUint32(nil, i))
		return m.Sum(nil)
	}
	derived := func(i uint32) bool {
		d, t := pk, byte(2)
		if i >= 1<<31 {
			d, t = p[:64], 0
		}
		z, c := mac(t, d, i), mac(t+1, d, i)
		return rare.Extreme(z[:28]) || rare.Extreme(z[28:32]) || rare.Extreme(z[32:]) || rare.Extreme(c[32:]) || rare.Extreme(c[:32])
	}
	search("Soft", "are soft indices at which a child of Parent has an extreme part.", 120000, 0, derived)
	search("Hard", "are hardened indices at which a child of Parent has an extreme part.", 120000, 1<<31, derived)
	search("Hashed", "are blocks with an extreme digest.", 200000, 0, rare.Digest)
	search("Coded", "are addresses with an extreme checksum.", 200000, 0, func(i uint32) bool {
		return rare.Checksum(ref.Bech32Encode("addr", rare.Addr(i)))
	})
	search("Roots", "are secrets whose root key has an extreme part.", 60000, 0, func(i uint32) bool {
		return rare.Root(ref.IcarusRoot(rare.Entropy(i), nil))
	})
	search("SeedRoots", "are seeds whose root key has an extreme part.", 200000, 0, func(i uint32) bool {
		return rare.Root(ref.SeedRoot(rare.Block(i, 32)))
	})
}
