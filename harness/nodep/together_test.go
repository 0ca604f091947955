package nodep

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/node"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/verif/am"
	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
	"github.com/fivebinaries/go-cardano-serialization/verif/jg"
	"github.com/fivebinaries/go-cardano-serialization/verif/ref"
	"pgregory.net/rapid"
)

// A stand-in for cardano-cli that answers each command with what was prepared
// for it: the name of the answer is made of the program, the network, the
// sub-command and the address, whatever the order of the options. A command
// nothing was prepared for fails. Submitted files are kept.
const dispatcher = `#!/bin/sh
d=%s
key=%d.$1.$2
net=none
shift 2
while [ $# -gt 0 ]; do
	case "$1" in
	--mainnet) net=mainnet; shift;;
	--testnet-magic) net=$2; shift 2;;
	--address) key=$key.$2; shift 2;;
	--tx-file) file=$2; shift 2;;
	*) exit 9;;
	esac
done
key=$key.$net
if [ -n "$file" ]; then
	cp "$file" "$d/sent/$key.$$" || exit 9
	if grep -qiFf "$d/refused" "$file"; then exit 1; fi
	exit 0
fi
[ -f "$d/$key" ] || exit 9
cat "$d/$key"
[ -f "$d/$key.fail" ] && exit 1
exit 0
`

// task is one call of a backend, and what must come of it.
type task struct {
	name string
	run  func() (string, error)
	want string // "" if the call must fail
}

// party is one backend with what it must answer.
type party struct {
	nd      node.Node
	make    func() node.Node
	net     network.NetworkInfo
	program int
	project string // of a blockfrost backend
}

func (p party) key(sub string) string {
	if p.project != "" {
		return hostFor(p.net) + "|" + p.project + "|" + sub
	}
	net := fmt.Sprint(p.net.ProtocolMagic)
	if p.net.NetworkId == 1 {
		net = "mainnet"
	}
	return fmt.Sprintf("%d.%s.%s", p.program, sub, net)
}

// results as text

func inputsText(ins []tx.TxInput, err error) (string, error) {
	s := "inputs"
	for _, in := range ins {
		s += fmt.Sprintf(" %x#%d:%d", in.TxHash, in.Index, in.Amount)
	}
	return s, err
}

// refuses says whether the backends refuse a transaction.
func refuses(raw []byte) bool { return ref.Blake2b(32, raw)[0]%6 == 0 }

func TestC34(t *testing.T) {
	f := theFrost
	dir, err := os.MkdirTemp(scratchDir, "together")
	must(err)
	data, tmp := filepath.Join(dir, "data"), filepath.Join(dir, "tmp")
	must(os.Mkdir(tmp, 0o700))
	must(os.Setenv("TMPDIR", tmp))
	var programs []string
	for i, p := range []string{"bin/cardano-cli", "other/cardano cli"} {
		path := filepath.Join(dir, p)
		must(os.MkdirAll(filepath.Dir(path), 0o700))
		must(os.WriteFile(path, []byte(fmt.Sprintf(dispatcher, "'"+data+"'", i)), 0o700))
		programs = append(programs, path)
	}
	must(os.Setenv("PATH", filepath.Join(dir, "bin")+":"+os.Getenv("PATH")))

	h := hx.Start(t, "C34", "batches of calls of several backends of both kinds, for different networks, programs and projects, all in flight at the same time under the race detector; stand-ins answer each call by its own arguments. Non-trivial: at least two calls in flight")
	h.Check("in flight", 200, func(t *rapid.T, c *hx.C) {
		must(os.RemoveAll(data))
		must(os.MkdirAll(filepath.Join(data, "sent"), 0o700))
		refused := ""

		var addrs []address.Address
		var texts []string
		for i := rapid.IntRange(1, 3).Draw(t, "addresses"); i > 0; i-- {
			a := am.OfKind(rapid.SampledFrom([]am.Kind{am.Base, am.Enterprise, am.Reward}).Draw(t, "kind")).Draw(t, "address")
			addrs, texts = append(addrs, build(t, a)), append(texts, a.Text())
		}

		kind := rapid.SampledFrom([]string{"both", "cli", "frost"}).Draw(t, "kind")
		var parties []*party
		for i := rapid.IntRange(1, 4).Draw(t, "backends"); i > 0; i-- {
			p := &party{}
			if kind == "cli" || kind == "both" && i%2 == 0 {
				p.net = netGen().Draw(t, "network")
				p.program = rapid.IntRange(0, 1).Draw(t, "program")
				p.make = func() node.Node {
					n := p.net
					if p.program == 0 {
						return node.NewCardanoCliNode(&n)
					}
					return node.NewCardanoCliNode(&n, programs[1])
				}
			} else {
				p.net = frostNet().Draw(t, "network")
				p.project = rapid.StringMatching(`(mainnet|testnet)[A-Za-z0-9]{8,32}`).Draw(t, "project")
				for _, q := range parties { // one project, several networks
					if q.project != "" && rapid.IntRange(0, 2).Draw(t, "sameProject") == 0 {
						p.project = q.project
					}
				}
				p.make = func() node.Node {
					n := p.net
					return node.NewBlockfrostClient(p.project, &n)
				}
			}
			p.nd = p.make()
			parties = append(parties, p)
		}

		// what the world looks like; two backends asking the same get the same
		frosts := map[string]func(r request) answer{}
		wants := map[string]string{}
		file := func(key, content string, fail bool) {
			must(os.WriteFile(filepath.Join(data, key), []byte(content), 0o600))
			if fail {
				must(os.WriteFile(filepath.Join(data, key+".fail"), nil, 0o600))
			}
		}
		sent := map[string][]string{} // what each backend must have received
		var tasks []task
		for i := rapid.SampledFrom([]int{2, 4, 8, 16}).Draw(t, "calls"); i > 0; i-- {
			p := parties[rapid.IntRange(0, len(parties)-1).Draw(t, "on")]
			op := rapid.SampledFrom([]string{"utxo", "utxo", "tip", "params", "submit", "submit"}).Draw(t, "op")
			fail := rapid.IntRange(0, 5).Draw(t, "fail") == 0
			frosty := p.project != ""
			c.Class(op, true)
			c.Class("blockfrost", frosty)
			c.Class("cardano-cli", !frosty)
			key := ""
			var tk task
			own := rapid.IntRange(0, 4).Draw(t, "ownBackend") == 0 // made just for this call
			nd := func() node.Node {
				if own {
					return p.make()
				}
				return p.nd
			}
			c.Class("backend made for the call", own)
			switch op {
			case "utxo":
				k := rapid.IntRange(0, len(addrs)-1).Draw(t, "address")
				addr := addrs[k]
				if frosty {
					key = p.key("addresses/" + texts[k] + "/utxos")
				} else {
					key = p.key("query.utxo." + texts[k])
				}
				tk.run = func() (string, error) { return inputsText(nd().UTXOs(addr)) }
				if _, ok := wants[key]; ok {
					break
				}
				n := rapid.SampledFrom([]int{0, 1, 2, 7, 40, 100, 230}).Draw(t, "n")
				seed := rapid.Uint64().Draw(t, "seed")
				var us []utxo
				doc := header
				var ins []tx.TxInput
				for j := 0; j < n; j++ {
					b := hx.Expand(seed+uint64(j), 32)
					u := utxo{hash: b, ix: uint16(seed>>7) + uint16(j), amount: (seed + uint64(j)*0x9e3779b97f4a7c15) >> 2}
					us = append(us, u)
					doc += row{u.hash, u.ix, u.amount, " lovelace"}.line(5, 8) + "\n"
					ins = append(ins, tx.TxInput{TxHash: u.hash, Index: u.ix, Amount: uint(u.amount)})
				}
				wants[key], _ = inputsText(ins, nil)
				if fail {
					wants[key] = ""
				}
				if frosty {
					frosts[key] = func(r request) answer {
						if fail {
							return answer{status: 403, body: "{}"}
						}
						return page(us, r)
					}
				} else {
					file(key, doc, fail)
				}
			case "tip":
				if frosty {
					key = p.key("blocks/latest")
				} else {
					key = p.key("query.tip")
				}
				tk.run = func() (string, error) {
					tip, err := nd().QueryTip()
					return fmt.Sprintf("tip %d %d %d", tip.Slot, tip.Epoch, tip.Block), err
				}
				if _, ok := wants[key]; ok {
					break
				}
				slot, epoch, block := hx.Uint64(1<<40).Draw(t, "slot"), hx.Uint64(1<<20).Draw(t, "epoch"), hx.Uint64(1<<40).Draw(t, "block")
				wants[key] = fmt.Sprintf("tip %d %d %d", slot, epoch, block)
				if fail {
					wants[key] = ""
				}
				if frosty {
					doc := jg.Object(t, []jg.Member{jg.Num("slot", slot), jg.Num("epoch", epoch), jg.Num("height", block)})
					frosts[key] = func(request) answer {
						if fail {
							return answer{status: 404, body: "{}"}
						}
						return answer{status: 200, body: doc}
					}
				} else {
					doc := jg.Object(t, []jg.Member{jg.Num("slot", slot), jg.Num("epoch", epoch), jg.Num("block", block)})
					if fail {
						doc = ""
					}
					file(key, doc, fail)
				}
			case "params":
				if frosty {
					key = p.key("epochs/latest/parameters")
				} else {
					key = p.key("query.protocol-parameters")
				}
				text := func(q protocol.Protocol) string {
					return fmt.Sprintf("params %d %d %d", q.TxFeePerByte, q.TxFeeFixed, q.MaxTxSize)
				}
				tk.run = func() (string, error) {
					q, err := nd().ProtocolParameters()
					return text(q), err
				}
				if _, ok := wants[key]; ok {
					break
				}
				a, b, size := hx.Uint64(1<<30).Draw(t, "perByte"), hx.Uint64(1<<40).Draw(t, "fixed"), hx.Uint64(1<<20).Draw(t, "size")
				wants[key] = text(protocol.Protocol{TxFeePerByte: uint(a), TxFeeFixed: uint(b), MaxTxSize: uint(size)})
				if fail {
					wants[key] = ""
				}
				if frosty {
					doc := jg.Object(t, []jg.Member{jg.Num("min_fee_a", a), jg.Num("min_fee_b", b), jg.Num("max_tx_size", size), jg.Str("min_utxo", "34482"), jg.Num("protocol_major_ver", 2), jg.Num("protocol_minor_ver", 0)})
					frosts[key] = func(request) answer {
						if fail {
							return answer{status: 402, body: "{}"}
						}
						return answer{status: 200, body: doc}
					}
				} else {
					doc := jg.Object(t, []jg.Member{jg.Num("txFeePerByte", a), jg.Num("txFeeFixed", b), jg.Num("maxTxSize", size)})
					if fail {
						doc = ""
					}
					file(key, doc, fail)
				}
			case "submit":
				x, raw := smallTx(t)
				id, err := x.Hash()
				if err != nil {
					t.Fatalf("hash: %v", err)
				}
				want := fmt.Sprintf("id %x", id[:])
				if frosty { // what the server answers
					want = fmt.Sprintf("id %x", ref.Blake2b(32, raw))
				}
				if frosty {
					key = p.key("tx/submit")
				} else {
					key = p.key("transaction.submit")
				}
				sent[key] = append(sent[key], string(raw))
				if refuses(raw) {
					refused += hex.EncodeToString(raw) + "\n"
					want = ""
				}
				tk.run = func() (string, error) {
					s, err := nd().SubmitTx(x)
					return "id " + s, err
				}
				tk.want = want
			}
			tk.name = op + " " + key
			if op != "submit" {
				tk.want = wants[key]
			}
			tasks = append(tasks, tk)
			c.Key("%s %.80s", tk.name, tk.want)
		}
		must(os.WriteFile(filepath.Join(data, "refused"), []byte(refused), 0o600))
		c.Nontrivial(true)
		c.Class("several backends", len(parties) > 1)
		c.Class("16 calls", len(tasks) == 16)

		f.expect(func(r request) answer {
			if r.plain {
				return answer{status: 400, body: "{}"}
			}
			key := r.host + "|" + r.header.Get("project_id") + "|" + strings.TrimPrefix(r.path, "/api/v0/")
			if r.path == "/api/v0/tx/submit" {
				if refuses(r.body) {
					return answer{status: 400, body: `"refused"`}
				}
				return answer{status: 200, body: fmt.Sprintf(`"%x"`, ref.Blake2b(32, r.body))}
			}
			if h := frosts[key]; h != nil {
				return h(r)
			}
			return answer{status: 404, body: "{}"}
		})

		got, errs := make([]string, len(tasks)), make([]error, len(tasks))
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := range tasks {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if p := hx.Try(func() { got[i], errs[i] = tasks[i].run() }); p != nil {
					got[i], errs[i] = "panic", p
				}
			}()
		}
		close(start)
		wg.Wait()

		for i, tk := range tasks {
			if got[i] == "panic" {
				t.Fatalf("call %d of %d at once (%s): %v", i, len(tasks), tk.name, errs[i])
			}
			if tk.want == "" {
				if errs[i] == nil {
					t.Fatalf("call %d of %d at once (%s) fails on the backend, and returns %.300s", i, len(tasks), tk.name, got[i])
				}
				continue
			}
			if errs[i] != nil || got[i] != tk.want {
				t.Fatalf("call %d of %d at once (%s) returns\n%.600s (%v), want\n%.600s", i, len(tasks), tk.name, got[i], errs[i], tk.want)
			}
		}
		// every transaction reached its own backend once
		arrived := map[string][]string{}
		for _, r := range f.requests() {
			if r.path == "/api/v0/tx/submit" {
				key := r.host + "|" + r.header.Get("project_id") + "|tx/submit"
				arrived[key] = append(arrived[key], string(r.body))
			}
		}
		es, err := os.ReadDir(filepath.Join(data, "sent"))
		must(err)
		for _, e := range es {
			b, err := os.ReadFile(filepath.Join(data, "sent", e.Name()))
			must(err)
			var env struct {
				CborHex string `json:"cborHex"`
			}
			if err := json.Unmarshal(b, &env); err != nil {
				t.Fatalf("cardano-cli was handed a file that is not complete JSON: %v\n%s", err, b)
			}
			raw, err := hex.DecodeString(env.CborHex)
			if err != nil {
				t.Fatalf("cardano-cli was handed %s", b)
			}
			key := strings.TrimSuffix(e.Name(), filepath.Ext(e.Name()))
			arrived[key] = append(arrived[key], string(raw))
		}
		for key := range arrived {
			if sent[key] == nil {
				t.Fatalf("a transaction was submitted as %s: nobody asked for that", key)
			}
		}
		for key, want := range sent {
			have := append([]string{}, arrived[key]...)
			want = append([]string{}, want...)
			sort.Strings(have)
			sort.Strings(want)
			if fmt.Sprintf("%x", have) != fmt.Sprintf("%x", want) {
				t.Fatalf("%d transactions submitted as %s at once:\n%.2000x\narrived:\n%.2000x", len(want), key, want, have)
			}
		}
		left, err := os.ReadDir(tmp)
		must(err)
		if len(left) != 0 {
			for _, e := range left {
				must(os.RemoveAll(filepath.Join(tmp, e.Name())))
			}
			t.Fatalf("%d calls at once left %q behind", len(tasks), left)
		}
	})
}
