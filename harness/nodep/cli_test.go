package nodep

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/node"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/verif/am"
	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
	"github.com/fivebinaries/go-cardano-serialization/verif/jg"
	"github.com/fivebinaries/go-cardano-serialization/verif/ref"
	"github.com/fivebinaries/go-cardano-serialization/verif/txm"
	"pgregory.net/rapid"
)

// ---- a stand-in for cardano-cli ----

// The script records its arguments (count, then each, NUL-terminated) and the
// transaction file it is handed, prints what the case prepared and exits with
// the prepared status. It lives in the test's own scratch directory.
const script = `#!/bin/sh
d=%s
printf '%%s\0' "$#" "$@" >> "$d/argv"
echo %d >> "$d/who"
{ printf '%%s\n' "$CARDANO_NODE_SOCKET_PATH"; pwd -P; } > "$d/where"
out=$d/stdout
n=0
if [ -s "$d/pause" ]; then # the answer comes in two pieces
	[ -f "$d/stdout-$2" ] && out=$d/stdout-$2
	read -r n s < "$d/pause"
	head -c "$n" "$out"
	sleep "$s"
fi
prev=
for a in "$@"; do
	if [ "$prev" = --tx-file ]; then
		[ -f "$a" ] && cp -p "$a" "$d/txfile"
		if [ -d "$d/each" ]; then
			sleep 0.0%d
			cp "$a" "$d/each/$$"
		fi
	fi
	prev=$a
done
[ -s "$d/stderr" ] && cat "$d/stderr" >&2
if [ "$n" = 0 ]; then cat "$out"; else tail -c +$((n+1)) "$out"; fi
read -r code < "$d/code"
if [ "$code" = kill ]; then kill -9 $$; fi
exit "$code"
`

type cli struct {
	dir, tmp string
	home     string
	paths    []string // installed programs; the first is the one found by name
	chosen   int      // the one the last node was made for
	tmps     []string
}

var theCli *cli

func scratch(t *testing.T) *cli {
	if theCli != nil {
		return theCli
	}
	dir, err := os.MkdirTemp(scratchDir, "cli")
	must(err)
	c := &cli{dir: filepath.Join(dir, "data")}
	must(os.Mkdir(c.dir, 0o700))
	must(os.WriteFile(filepath.Join(c.dir, "stderr"), nil, 0o600))
	for i, p := range []string{"bin/cardano-cli", "other/cardano-cli", "my programs/cardano cli", "it's $HOME;*/%s#cardano-cli", " a --dir/cardano-cli --testnet "} {
		path := filepath.Join(dir, p)
		must(os.MkdirAll(filepath.Dir(path), 0o700))
		must(os.WriteFile(path, []byte(fmt.Sprintf(script, "'"+c.dir+"'", i, 1+2*i)), 0o700))
		c.paths = append(c.paths, path)
	}
	for _, d := range []string{"tmp", "t m p", "it's $TMP;*#"} {
		must(os.Mkdir(filepath.Join(dir, d), 0o700))
		c.tmps = append(c.tmps, filepath.Join(dir, d))
	}
	home := filepath.Join(dir, "home")
	must(os.Mkdir(home, 0o700))
	c.home = home
	for _, k := range []string{"HOME", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "XDG_STATE_HOME", "XDG_RUNTIME_DIR"} {
		must(os.Setenv(k, home))
	}
	must(os.Setenv("PATH", filepath.Join(dir, "bin")+":"+os.Getenv("PATH")))
	c.useTmp(0)
	theCli = c
	return c
}

// useTmp sets the temporary directory.
func (c *cli) useTmp(i int) {
	c.tmp = c.tmps[i]
	must(os.Setenv("TMPDIR", c.tmp))
}

// who lists the programs that ran.
func (c *cli) who() []string {
	b, err := os.ReadFile(filepath.Join(c.dir, "who"))
	if !os.IsNotExist(err) {
		must(err)
	}
	return strings.Fields(string(b))
}

// where returns the node socket and the directory that the program last saw.
func (c *cli) where() []string {
	b, err := os.ReadFile(filepath.Join(c.dir, "where"))
	must(err)
	return append(strings.Split(string(b), "\n"), "", "")
}

// must stops the run without a verdict if the harness itself cannot work.
func must(err error) { hx.Must(err) }

// prepare sets the next answer and forgets earlier calls.
func (c *cli) prepare(stdout, code string) {
	must(os.WriteFile(filepath.Join(c.dir, "stdout"), []byte(stdout), 0o600))
	must(os.WriteFile(filepath.Join(c.dir, "code"), []byte(code+"\n"), 0o600))
	for _, f := range []string{"argv", "txfile", "who", "pause"} {
		if err := os.Remove(filepath.Join(c.dir, f)); err != nil && !os.IsNotExist(err) {
			panic(err)
		}
	}
	for _, f := range c.left() {
		must(os.RemoveAll(f))
	}
}

// pause makes the program print n bytes, wait and print the rest.
func (c *cli) pause(n int, s string) {
	must(os.WriteFile(filepath.Join(c.dir, "pause"), []byte(fmt.Sprintf("%d %s\n", n, s)), 0o600))
}

// slow is how long the slowest answers take.
func slow() time.Duration {
	if hx.Tier == "thorough" {
		return 40 * time.Second
	}
	return 6 * time.Second
}

// left lists the files in the temporary directories and the home directory.
func (c *cli) left() []string {
	var out []string
	for _, d := range append([]string{c.home}, c.tmps...) {
		es, err := os.ReadDir(d)
		must(err)
		for _, e := range es {
			out = append(out, filepath.Join(d, e.Name()))
		}
	}
	return out
}

// calls returns the recorded argument lists.
func (c *cli) calls() [][]string {
	b, err := os.ReadFile(filepath.Join(c.dir, "argv"))
	if os.IsNotExist(err) {
		return nil
	}
	must(err)
	parts := strings.Split(string(b), "\x00")
	var out [][]string
	for i := 0; i < len(parts)-1; {
		n, err := strconv.Atoi(parts[i])
		must(err)
		out = append(out, append([]string{}, parts[i+1:i+1+n]...))
		i += 1 + n
	}
	return out
}

func (c *cli) node(t *rapid.T, n *network.NetworkInfo) node.Node {
	c.chosen = rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4}).Draw(t, "program")
	c.useTmp(rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "tmp"))
	if c.chosen == 0 {
		return node.NewCardanoCliNode(n)
	}
	if rapid.IntRange(0, 5).Draw(t, "more") == 0 { // the first path given is the one used
		return node.NewCardanoCliNode(n, c.paths[c.chosen], c.paths[rapid.IntRange(0, 4).Draw(t, "second")])
	}
	return node.NewCardanoCliNode(n, c.paths[c.chosen])
}

// ---- networks, commands ----

func netGen() *rapid.Generator[network.NetworkInfo] {
	return rapid.Custom(func(t *rapid.T) network.NetworkInfo {
		switch rapid.IntRange(0, 5).Draw(t, "netMode") {
		case 5:
			return network.NetworkInfo{NetworkId: rapid.ByteRange(2, 255).Draw(t, "id"), ProtocolMagic: rapid.SampledFrom([]uint32{764824073, 1097911063, 0, 42}).Draw(t, "magic")}
		case 0:
			return *network.MainNet()
		case 1:
			return *network.TestNet()
		case 2:
			return network.NetworkInfo{NetworkId: 0, ProtocolMagic: rapid.SampledFrom([]uint32{0, 1, 2, 4, 42, 633343913, 764824073, 1<<31 - 1, 1 << 31, 1<<32 - 1}).Draw(t, "magic")}
		case 3:
			return network.NetworkInfo{NetworkId: 1, ProtocolMagic: uint32(hx.Uint64(1<<32-1).Draw(t, "magic"))}
		default:
			return network.NetworkInfo{NetworkId: 0, ProtocolMagic: uint32(hx.Uint64(1<<32-1).Draw(t, "magic"))}
		}
	})
}

// wantArgs judges one recorded invocation: the sub-command, then exactly the
// given options and the network option, in any order.
func wantArgs(args, sub []string, opts map[string]string, n network.NetworkInfo) error {
	want := []string{}
	for k, v := range opts {
		want = append(want, k+"\x00"+v)
	}
	if n.NetworkId == 1 {
		want = append(want, "--mainnet")
	} else {
		want = append(want, "--testnet-magic\x00"+strconv.FormatUint(uint64(n.ProtocolMagic), 10))
	}
	if len(args) < len(sub) || strings.Join(args[:len(sub)], "\x00") != strings.Join(sub, "\x00") {
		return fmt.Errorf("cardano-cli was run with %q, want the command %q", args, sub)
	}
	var got []string
	rest := args[len(sub):]
	for i := 0; i < len(rest); i++ {
		if rest[i] == "--mainnet" || i+1 == len(rest) {
			got = append(got, rest[i])
			continue
		}
		got = append(got, rest[i]+"\x00"+rest[i+1])
		i++
	}
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		return fmt.Errorf("cardano-cli %q was run with options %q, want %q", sub, got, want)
	}
	return nil
}

const header = "                           TxHash                                 TxIx        Amount\n--------------------------------------------------------------------------------------\n"

func smallTx(t *rapid.T) (tx.Tx, []byte) {
	b := tx.NewTxBuilder(protocol.Protocol{TxFeePerByte: 44, TxFeeFixed: 155381}, nil)
	for _, in := range txm.ManyIn(t, rapid.IntRange(0, 3).Draw(t, "ins"), 1<<40) {
		b.AddInputs(in.Build())
	}
	for _, o := range txm.ManyOut(t, txm.Count(t, "outs", 3, 60), 1<<40) {
		b.AddOutputs(o.Build())
	}
	b.SetTTL(txm.TTL().Draw(t, "ttl"))
	b.Tx().SetFee(uint(hx.Uint64(1<<40).Draw(t, "fee")))
	for i := rapid.IntRange(0, 2).Draw(t, "keys"); i > 0; i-- {
		k := hx.Expand(rapid.Uint64().Draw(t, "key"), 96)
		k[0] &= 0xf8
		k[31] = k[31]&0x1f | 0x40
		b.Sign(k)
	}
	switch rapid.IntRange(0, 24).Draw(t, "hasMeta") {
	case 0, 1, 2, 3, 4, 5, 6, 7:
		b.Tx().Metadata = txm.MetaGen().Draw(t, "meta").Go()
	case 24: // large
		n := rapid.SampledFrom([]int{1000, 4000, 16384, 32768, 65536, 100000}).Draw(t, "metaBytes")
		b.Tx().Metadata = hx.Expand(uint64(n), n)
	}
	x, err := b.Build()
	if err != nil {
		t.Fatalf("build: %v", err)
	}
	raw, err := x.Bytes()
	if err != nil {
		t.Fatalf("bytes: %v", err)
	}
	return x, append([]byte{}, raw...)
}

func build(t *rapid.T, a am.Addr) address.Address {
	addr, err := a.Build()
	if err != nil {
		t.Fatalf("address %s: %v", a.Key(), err)
	}
	return addr
}

// ---- C25 ----

func TestC25(t *testing.T) {
	c := scratch(t)
	h := hx.Start(t, "C25", "sequences of the four operations on backends for generated networks (mainnet, testnet, other magics), each invocation of a recording stand-in for cardano-cli compared with the expected command, options and network. Non-trivial: not the standard testnet, or an operation with its own option")
	defer os.Unsetenv("CARDANO_NODE_SOCKET_PATH")
	cwd, err := os.Getwd()
	must(err)
	cwd, err = filepath.EvalSymlinks(cwd)
	must(err)
	h.Check("arguments", 350, func(t *rapid.T, cs *hx.C) {
		nets := rapid.SliceOfN(netGen(), 1, 2).Draw(t, "networks")
		var nodes []node.Node
		var programs []int
		for i := range nets {
			n := nets[i]
			nodes = append(nodes, c.node(t, &n))
			programs = append(programs, c.chosen)
		}
		for _, o := range rapid.SliceOfN(rapid.SampledFrom([]string{"utxo", "tip", "params", "submit"}), 1, 4).Draw(t, "ops") {
			i := rapid.IntRange(0, len(nets)-1).Draw(t, "on")
			n, nd := nets[i], nodes[i]
			fail := rapid.IntRange(0, 3).Draw(t, "fail") == 0
			code := "0"
			if fail {
				code = "1"
			}
			var sub []string
			opts := map[string]string{}
			socket := rapid.SampledFrom([]string{"/run/node/node.socket", "", "db/node.socket", "/opt/my node/it's.socket"}).Draw(t, "socket")
			must(os.Setenv("CARDANO_NODE_SOCKET_PATH", socket))
			cs.Key("%v %s", n, o)
			cs.Nontrivial(n != *network.TestNet() || o == "utxo" || o == "submit")
			cs.Class(o, true)
			cs.Class("mainnet", n.NetworkId == 1)
			cs.Class("odd path", programs[i] > 1)
			cs.Class("odd temporary directory", c.tmp != c.tmps[0])
			cs.Class("other magic", n != *network.TestNet() && n.NetworkId == 0)
			switch o {
			case "utxo":
				a := am.Any().Draw(t, "address")
				cs.Key("%s", a.Key())
				c.prepare(header, code)
				sub = []string{"query", "utxo"}
				opts["--address"] = a.Text()
				nd.UTXOs(build(t, a))
			case "tip":
				c.prepare(`{"slot": 1, "epoch": 2, "block": 3}`, code)
				sub = []string{"query", "tip"}
				nd.QueryTip()
			case "params":
				c.prepare(`{"txFeePerByte": 44}`, code)
				sub = []string{"query", "protocol-parameters"}
				nd.ProtocolParameters()
			case "submit":
				x, _ := smallTx(t)
				c.prepare("", code)
				sub = []string{"transaction", "submit"}
				nd.SubmitTx(x)
			}
			calls := c.calls()
			if len(calls) != 1 {
				t.Fatalf("%s ran cardano-cli %d times: %q", o, len(calls), calls)
			}
			if w := c.who(); len(w) != 1 || w[0] != strconv.Itoa(programs[i]) {
				t.Fatalf("%s ran program %q instead of %q", o, w, c.paths[programs[i]])
			}
			if got := c.where(); got[0] != socket || got[1] != cwd {
				t.Fatalf("%s ran in directory %s with the node socket %q, want %s, %q", o, got[1], got[0], cwd, socket)
			}
			if o == "submit" { // the file's name is the backend's choice
				for k, a := range calls[0] {
					if a == "--tx-file" && k+1 < len(calls[0]) {
						opts[a] = calls[0][k+1]
					}
				}
				if len(opts) == 0 {
					t.Fatalf("submit ran %q without --tx-file", calls[0])
				}
				if _, err := os.Stat(filepath.Join(c.dir, "txfile")); err != nil {
					t.Fatalf("submit ran %q, but no such file existed", calls[0])
				}
			}
			if err := wantArgs(calls[0], sub, opts, n); err != nil {
				t.Fatalf("network %+v: %v", n, err)
			}
		}
	})
}

// ---- C26 ----

type row struct {
	hash   []byte
	ix     uint16
	amount uint64
	rest   string
}

func (r row) line(gap1, gap2 int) string {
	return fmt.Sprintf("%x%s%d%s%d%s", r.hash, strings.Repeat(" ", gap1), r.ix, strings.Repeat(" ", gap2), r.amount, r.rest)
}

func rowGen() *rapid.Generator[row] {
	return rapid.Custom(func(t *rapid.T) row {
		r := row{hash: hx.Bytes(32).Draw(t, "hash"), ix: uint16(hx.Uint64(65535).Draw(t, "ix")), amount: hx.Uint64(1<<63-1).Draw(t, "lovelace")}
		r.rest = " lovelace"
		for i := rapid.IntRange(0, 3).Draw(t, "assets"); i > 0; i-- {
			p := hex.EncodeToString(hx.Bytes(28).Draw(t, "policy"))
			if rapid.Bool().Draw(t, "named") {
				p += "." + rapid.SampledFrom([]string{"token", "746f6b656e", "lovelace", "0"}).Draw(t, "name")
			}
			r.rest += fmt.Sprintf(" + %d %s", hx.Uint64(1<<63-1).Draw(t, "qty"), p)
		}
		switch rapid.IntRange(0, 3).Draw(t, "datum") {
		case 0:
			r.rest += " + TxOutDatumHashNone"
		case 1:
			r.rest += " + TxOutDatumNone"
		case 2:
			r.rest += fmt.Sprintf(" + TxOutDatumHash ScriptDataInAlonzoEra \"%x\"", hx.Bytes(32).Draw(t, "datum"))
		}
		return r
	})
}

var tipExtras = []jg.Member{
	{Name: "hash", Value: `"9a3d..."`}, {Name: "era", Value: `"Babbage"`}, {Name: "syncProgress", Value: `"100.00"`},
	{Name: "slotInEpoch", Value: "77"}, {Name: "slotsToEpochEnd", Value: "12"}, {Name: "nested", Value: `{"slot": 1, "block": 2, "epoch": 3}`},
}

func TestC26(t *testing.T) {
	c := scratch(t)
	h := hx.Start(t, "C26", "UTXO tables, tips and parameter files printed by a stand-in for cardano-cli, compared with what the backend returns; failing commands, damaged tables and documents must give errors; arbitrary output must not panic. Non-trivial: at least one row or value, a failure or a damaged answer")
	net := network.TestNet()
	addr := func(t *rapid.T) address.Address { return build(t, am.OfKind(am.Base).Example(3)) }
	h.Check("utxo table", 350, func(t *rapid.T, cs *hx.C) {
		n := txm.Count(t, "rows", 5, 60)
		if rapid.IntRange(0, 40).Draw(t, "long") == 0 { // more than a pipe holds
			n = rapid.SampledFrom([]int{99, 100, 101, 255, 256, 257, 1000, 3000}).Draw(t, "manyRows")
		}
		var rows []row
		for i := 0; i < n; i++ {
			if i > 0 && i < 6 && rapid.Bool().Draw(t, "related") {
				// another output of the transaction, or of one that looks like it
				r := rows[rapid.IntRange(0, i-1).Draw(t, "to")]
				r.hash = append([]byte{}, r.hash...)
				if rapid.IntRange(0, 3).Draw(t, "hashDiffers") == 0 {
					r.hash[rapid.IntRange(0, 31).Draw(t, "hashAt")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "hashBit")
				} else {
					r.ix += rapid.SampledFrom([]uint16{1, 65535, 256, 10, 100, 32768}).Draw(t, "indexStep")
				}
				if rapid.Bool().Draw(t, "otherAmount") {
					r.amount = hx.Uint64(1<<63-1).Draw(t, "lovelace")
				}
				rows = append(rows, r)
			} else if i < 6 {
				rows = append(rows, rowGen().Draw(t, "row"))
			} else {
				r := rows[i%6]
				rows = append(rows, row{hx.Expand(uint64(i), 32), uint16(i), r.amount / uint64(i), r.rest})
			}
		}
		if n > 0 && rapid.IntRange(0, 30).Draw(t, "rich") == 0 { // an output holding very many assets
			r := &rows[rapid.IntRange(0, n-1).Draw(t, "richRow")]
			for i := rapid.SampledFrom([]int{40, 60, 700, 1500}).Draw(t, "manyAssets"); i > 0; i-- {
				r.rest += fmt.Sprintf(" + %d %x.%x", i, hx.Expand(uint64(i), 28), hx.Expand(uint64(i), i%33))
			}
		}
		g1, g2 := rapid.IntRange(1, 8).Draw(t, "gap1"), rapid.IntRange(1, 10).Draw(t, "gap2")
		blank := rapid.IntRange(-30, n-1).Draw(t, "blankLine")
		doc := header
		for i, r := range rows {
			doc += r.line(g1, g2)
			if i == blank {
				doc += "\n"
			}
			if i < len(rows)-1 || rapid.Bool().Draw(t, "newline") {
				doc += "\n"
			}
		}
		cs.Key("%s", doc)
		cs.Nontrivial(n > 0)
		cs.Class("several rows", n > 1)
		cs.Class("99 rows or more", n >= 99)
		cs.Class("empty table", n == 0)
		c.prepare(doc, "0")
		if rapid.IntRange(0, 24).Draw(t, "pieces") == 0 {
			c.pause(rapid.IntRange(1, len(doc)).Draw(t, "first"), "0.02")
			cs.Class("in two pieces", true)
		}
		got, err := c.node(t, net).UTXOs(addr(t))
		if err != nil {
			t.Fatalf("table\n%s: %v", doc, err)
		}
		if len(got) != len(rows) {
			t.Fatalf("table\n%s: %d inputs, want %d", doc, len(got), len(rows))
		}
		for i, r := range rows {
			g := got[i]
			if !bytes.Equal(g.TxHash, r.hash) || g.Index != r.ix || uint64(g.Amount) != r.amount {
				t.Fatalf("table\n%srow %d is reported as %x#%d %d", doc, i, g.TxHash, g.Index, g.Amount)
			}
		}
	})
	h.Each("very long tables", false, func(rec func(*hx.C)) error {
		a, err := am.OfKind(am.Base).Example(3).Build()
		if err != nil {
			return err
		}
		for _, n := range []int{400, 650, 5000, 12000, 13000} {
			for _, rich := range []int{0, 40000} {
				var text, assets strings.Builder
				text.WriteString(header)
				for k := 0; k < rich; k++ {
					fmt.Fprintf(&assets, " + %d %056x", k, k)
				}
				var rows []row
				for i := 0; i < n; i++ {
					r := row{hx.Expand(uint64(i), 32), uint16(i), uint64(i) * 1000003, " lovelace + TxOutDatumNone"}
					if i == n/2 {
						r.rest += assets.String()
					}
					rows = append(rows, r)
					text.WriteString(r.line(5, 8) + "\n")
				}
				doc := text.String()
				c.chosen = 0
				c.useTmp(0)
				c.prepare(doc, "0")
				got, err := node.NewCardanoCliNode(net).UTXOs(a)
				if err != nil {
					return fmt.Errorf("a table of %d rows and %d bytes: %v", n, len(doc), err)
				}
				if len(got) != n {
					return fmt.Errorf("a table of %d rows and %d bytes: %d inputs", n, len(doc), len(got))
				}
				for i, r := range rows {
					if g := got[i]; !bytes.Equal(g.TxHash, r.hash) || g.Index != r.ix || uint64(g.Amount) != r.amount {
						return fmt.Errorf("a table of %d rows and %d bytes: row %d is reported as %x#%d %d", n, len(doc), i, g.TxHash, g.Index, g.Amount)
					}
				}
				cs := &hx.C{}
				cs.Key("%d rows %d bytes", n, len(doc))
				cs.Nontrivial(true)
				rec(cs)
			}
		}
		return nil
	})
	h.Check("tip", 150, func(t *rapid.T, cs *hx.C) {
		s, e, b := hx.Uint64(^uint64(0)).Draw(t, "slot"), hx.Uint64(^uint64(0)).Draw(t, "epoch"), hx.Uint64(^uint64(0)).Draw(t, "block")
		doc := jg.Object(t, append([]jg.Member{jg.Num("slot", s), jg.Num("epoch", e), jg.Num("block", b)}, jg.Others(t, tipExtras)...))
		cs.Key("%s", doc)
		cs.Nontrivial(true)
		c.prepare(doc, "0")
		if rapid.IntRange(0, 24).Draw(t, "pieces") == 0 {
			c.pause(rapid.IntRange(1, len(doc)).Draw(t, "first"), "0.02")
			cs.Class("in two pieces", true)
		}
		got, err := c.node(t, net).QueryTip()
		if err != nil || uint64(got.Slot) != s || uint64(got.Epoch) != e || uint64(got.Block) != b {
			t.Fatalf("tip %s is reported as %+v (%v)", doc, got, err)
		}
	})
	h.Check("parameters", 150, func(t *rapid.T, cs *hx.C) {
		u := func(l string) uint64 { return hx.Uint64(^uint64(0)).Draw(t, l) }
		w := jg.Params{PerByte: u("a"), Fixed: u("b"), MaxTx: u("max"), MinUTXO: u("min"), Major: rapid.Byte().Draw(t, "major"), Minor: rapid.Byte().Draw(t, "minor")}
		others := jg.Others(t, jg.CliExtras)
		if rapid.IntRange(0, 9).Draw(t, "big") == 0 {
			others = append(others, jg.Member{Name: "costModelsV3", Value: "{" + jg.Many(rapid.SampledFrom([]int{300, 3000}).Draw(t, "members")) + "}"})
		}
		doc := jg.Object(t, append(w.Members(t), others...))
		cs.Key("%s", doc)
		cs.Nontrivial(true)
		c.prepare(doc, "0")
		if rapid.IntRange(0, 24).Draw(t, "pieces") == 0 {
			c.pause(rapid.IntRange(1, len(doc)).Draw(t, "first"), "0.02")
			cs.Class("in two pieces", true)
		}
		p, err := c.node(t, net).ProtocolParameters()
		if err != nil {
			t.Fatalf("parameters %s: %v", doc, err)
		}
		if uint64(p.TxFeePerByte) != w.PerByte || uint64(p.TxFeeFixed) != w.Fixed || uint64(p.MaxTxSize) != w.MaxTx || uint64(p.MinUTXOValue) != w.MinUTXO || p.ProtocolVersion.Major != w.Major || p.ProtocolVersion.Minor != w.Minor {
			t.Fatalf("parameters %s are reported as %+v", doc, p)
		}
	})
	h.Each("slow answers", false, func(rec func(*hx.C)) error {
		// a command that takes its time is waited for
		a, err := am.OfKind(am.Base).Example(3).Build()
		must(err)
		c.useTmp(0)
		c.prepare("", "0")
		docs := map[string]string{
			"utxo":                header + row{hx.Expand(1, 32), 7, 1234567, " lovelace"}.line(5, 8) + "\n" + row{hx.Expand(2, 32), 8, 7654321, " lovelace"}.line(5, 8) + "\n",
			"tip":                 `{"slot": 51, "epoch": 62, "block": 73}`,
			"protocol-parameters": `{"txFeePerByte": 44, "txFeeFixed": 155381}`,
		}
		for k, v := range docs {
			must(os.WriteFile(filepath.Join(c.dir, "stdout-"+k), []byte(v), 0o600))
			defer os.Remove(filepath.Join(c.dir, "stdout-"+k))
		}
		c.pause(20, fmt.Sprint(slow().Seconds()))
		defer os.Remove(filepath.Join(c.dir, "pause"))
		errs := make(chan error, 3)
		go func() {
			ins, err := node.NewCardanoCliNode(net).UTXOs(a)
			if err != nil || len(ins) != 2 || ins[0].Amount != 1234567 || ins[1].Amount != 7654321 {
				err = fmt.Errorf("the table\n%s, which takes %v, is reported as %v (%v)", docs["utxo"], slow(), ins, err)
			}
			errs <- err
		}()
		go func() {
			tip, err := node.NewCardanoCliNode(net).QueryTip()
			if err != nil || tip.Slot != 51 || tip.Epoch != 62 || tip.Block != 73 {
				err = fmt.Errorf("the tip %s, which takes %v, is reported as %+v (%v)", docs["tip"], slow(), tip, err)
			}
			errs <- err
		}()
		go func() {
			p, err := node.NewCardanoCliNode(net).ProtocolParameters()
			if err != nil || p.TxFeePerByte != 44 || p.TxFeeFixed != 155381 {
				err = fmt.Errorf("the parameters %s, which take %v, are reported as %+v (%v)", docs["protocol-parameters"], slow(), p, err)
			}
			errs <- err
		}()
		for range docs {
			if e := <-errs; e != nil {
				err = e
			}
		}
		for k := range docs {
			cs := &hx.C{}
			cs.Key("%s", k)
			cs.Nontrivial(true)
			rec(cs)
		}
		return err
	})
	ask := func(t *rapid.T, nd node.Node, q string) (res string, err error) {
		if p := hx.Try(func() {
			switch q {
			case "utxo":
				var r []tx.TxInput
				r, err = nd.UTXOs(addr(t))
				res = fmt.Sprintf("%v", r)
			case "tip":
				var r node.NetworkTip
				r, err = nd.QueryTip()
				res = fmt.Sprintf("%+v", r)
			case "params":
				var r protocol.Protocol
				r, err = nd.ProtocolParameters()
				res = fmt.Sprintf("%+v", r)
			}
		}); p != nil {
			t.Fatalf("%s: %v", q, p)
		}
		return
	}
	queries := rapid.SampledFrom([]string{"utxo", "tip", "params"})
	h.Check("in turn", 120, func(t *rapid.T, cs *hx.C) {
		// one backend: each answer is that of its own command
		nd := c.node(t, net)
		for k := rapid.IntRange(2, 5).Draw(t, "n"); k > 0; k-- {
			q := queries.Draw(t, "query")
			v := hx.Uint64(1<<60).Draw(t, "value")
			h := hx.Expand(v, 32)
			fails := rapid.IntRange(0, 3).Draw(t, "fails") == 0
			var doc, want string
			switch q {
			case "utxo":
				doc = header
				var ins []tx.TxInput
				for i := uint64(0); i < v%3; i++ {
					doc += row{h, uint16(i), v + i, " lovelace"}.line(5, 8) + "\n"
					ins = append(ins, tx.TxInput{TxHash: h, Index: uint16(i), Amount: uint(v + i)})
				}
				want = fmt.Sprintf("%v", ins)
			case "tip":
				doc = fmt.Sprintf(`{"slot": %d, "block": %d}`, v, v/2)
				want = fmt.Sprintf("%+v", node.NetworkTip{Slot: uint(v), Block: uint(v / 2)})
			case "params":
				doc = fmt.Sprintf(`{"txFeePerByte": %d, "txFeeFixed": %d}`, v, v/3)
				want = fmt.Sprintf("%+v", protocol.Protocol{TxFeePerByte: uint(v), TxFeeFixed: uint(v / 3)})
			}
			cs.Key("%s %d %v", q, v, fails)
			cs.Nontrivial(true)
			cs.Class(q, true)
			code := "0"
			if fails {
				code = "1"
			}
			if rapid.IntRange(0, 3).Draw(t, "warning") == 0 {
				must(os.WriteFile(filepath.Join(c.dir, "stderr"), []byte("WARNING: The query is deprecated\n"), 0o600))
			}
			c.prepare(doc, code)
			got, err := ask(t, nd, q)
			must(os.WriteFile(filepath.Join(c.dir, "stderr"), nil, 0o600))
			if fails && err == nil {
				t.Fatalf("%s with cardano-cli failing (output %q) reports %s and no error", q, doc, got)
			}
			if !fails && (err != nil || got != want) {
				t.Fatalf("%s with answer %q reports %s (%v), want %s", q, doc, got, err, want)
			}
		}
	})
	h.Check("failing command", 200, func(t *rapid.T, cs *hx.C) {
		q := queries.Draw(t, "query")
		code := rapid.SampledFrom([]string{"1", "2", "127", "255", "kill", "missing"}).Draw(t, "status")
		out := map[string]string{"utxo": header + row{hx.Expand(1, 32), 1, 5000000, " lovelace"}.line(5, 8) + "\n", "tip": `{"slot": 5, "epoch": 6, "block": 7}`, "params": `{"txFeePerByte": 44, "txFeeFixed": 155381}`}[q]
		if rapid.Bool().Draw(t, "silent") {
			out = ""
		} else if rapid.Bool().Draw(t, "much") { // it fails after a long and plausible answer
			switch q {
			case "utxo":
				for i := rapid.SampledFrom([]int{30, 60, 200, 900}).Draw(t, "rows"); i > 0; i-- {
					out += row{hx.Expand(uint64(i), 32), uint16(i), uint64(i), " lovelace"}.line(5, 8) + "\n"
				}
			default:
				out = out[:len(out)-1] + `, "costModels": {` + jg.Many(rapid.SampledFrom([]int{300, 3000}).Draw(t, "members")) + "}}"
			}
		}
		cs.Key("%s %s %d", q, code, len(out))
		cs.Nontrivial(true)
		cs.Class(q, true)
		var nd node.Node
		if code == "missing" {
			c.prepare("", "0")
			nd = node.NewCardanoCliNode(net, filepath.Join(c.dir, "no-such-program"))
		} else {
			c.prepare(out, code)
			nd = c.node(t, net)
		}
		if res, err := ask(t, nd, q); err == nil {
			t.Fatalf("%s with cardano-cli failing (status %s, output %q) reports %s and no error", q, code, out, res)
		}
	})
	h.Check("damaged answer", 400, func(t *rapid.T, cs *hx.C) {
		q := queries.Draw(t, "query")
		var doc string
		switch q {
		case "utxo":
			rows := rapid.SliceOfN(rowGen(), 1, 4).Draw(t, "rows")
			if rapid.IntRange(0, 3).Draw(t, "noTable") == 0 { // no header: not a table
				doc = rapid.SampledFrom([]string{"", "\n", "cardano-cli: connection lost\n", "{}\n", "<html>\n<body>\n</body>\n</html>\n", "Usage: cardano-cli query utxo\n\n  Get a portion of the current UTxO\n",
					header[:strings.Index(header, "\n")+1], header[strings.Index(header, "\n")+1:]}).Draw(t, "instead")
				if n := rapid.IntRange(0, len(rows)).Draw(t, "rowsAfter"); n > 0 || strings.TrimSpace(doc) == "" {
					for _, r := range rows[:max(n, 1)] {
						doc += r.line(5, 8) + "\n"
					}
				}
				break
			}
			at := rapid.IntRange(0, len(rows)-1).Draw(t, "at")
			doc = header
			for i, r := range rows {
				if i != at {
					doc += r.line(5, 8) + "\n"
					continue
				}
				hs, ix, amt, rest := fmt.Sprintf("%x", r.hash), fmt.Sprint(r.ix), fmt.Sprint(r.amount), r.rest
				switch rapid.IntRange(0, 5).Draw(t, "damage") {
				case 0:
					hs = rapid.SampledFrom([]string{hs[:63], hs + "0", hs[:62], hs + "00", "zz" + hs[2:], "TxHash", hs[:40] + "-" + hs[41:]}).Draw(t, "badHash")
				case 1:
					ix = rapid.SampledFrom([]string{"65536", "-1", "x", "1.0", "99999999999", "0x1", "70000", "1e1", "131072"}).Draw(t, "badIndex")
				case 2:
					amt = rapid.SampledFrom([]string{"-5", "x", "1.5", "99999999999999999999999", "lovelace", "0x10", "1e6", "1_000"}).Draw(t, "badAmount")
				case 3: // columns missing
					doc += rapid.SampledFrom([]string{hs, hs + "   " + ix, ix + "  " + amt, amt}).Draw(t, "short") + "\n"
					continue
				case 4: // an index lost: the amount takes its place
					ix, amt, rest = amt, "lovelace", ""
					if r.amount < 65536 {
						ix = "77777"
					}
				case 5:
					doc += rapid.SampledFrom([]string{"error: connection lost to node", "Network.Socket.connect: <socket: 11>: does not exist", "??? ??? ???"}).Draw(t, "message") + "\n"
					continue
				}
				doc += hs + "     " + ix + "        " + amt + rest + "\n"
			}
		case "tip":
			ms := []jg.Member{jg.Num("slot", 5), jg.Num("epoch", 6), jg.Num("block", 7)}
			switch rapid.IntRange(0, 3).Draw(t, "damage") {
			case 3:
				doc = trailed(t, jg.Object(t, append(ms, jg.Others(t, tipExtras)...)))
			case 0:
				doc = jg.Truncate(t, jg.Object(t, append(ms, jg.Others(t, tipExtras)...)))
			case 1:
				ms[rapid.IntRange(0, 2).Draw(t, "member")].Value = rapid.SampledFrom([]string{`"5"`, "-5", "1.5", "[]", "{}", "true", "18446744073709551616"}).Draw(t, "value")
				doc = jg.Object(t, append(ms, jg.Others(t, tipExtras)...))
			default:
				doc = rapid.SampledFrom([]string{"", "tip", "[]", "5", "<html>", "\n", "slot: 5"}).Draw(t, "doc")
			}
		case "params":
			ms := jg.Params{PerByte: 44, Fixed: 155381, MaxTx: 16384, MinUTXO: 1000000, Major: 6}.Members(t)
			switch rapid.IntRange(0, 3).Draw(t, "damage") {
			case 3:
				doc = trailed(t, jg.Object(t, append(ms, jg.Others(t, jg.CliExtras)...)))
			case 0:
				doc = jg.Truncate(t, jg.Object(t, append(ms, jg.Others(t, jg.CliExtras)...)))
			case 1:
				ms[rapid.IntRange(0, 3).Draw(t, "member")].Value = rapid.SampledFrom([]string{`"5"`, "-5", "1.5", "[]", "{}", "true", "18446744073709551616"}).Draw(t, "value")
				doc = jg.Object(t, append(ms, jg.Others(t, jg.CliExtras)...))
			default:
				doc = rapid.SampledFrom([]string{"", "params", "[]", "5", "<html>", "\n"}).Draw(t, "doc")
			}
		}
		cs.Key("%s %s", q, doc)
		cs.Nontrivial(true)
		cs.Class(q, true)
		c.prepare(doc, "0")
		if res, err := ask(t, c.node(t, net), q); err == nil {
			t.Fatalf("%s with answer %q reports %s and no error", q, doc, res)
		}
	})
	h.Check("arbitrary output", 300, func(t *rapid.T, cs *hx.C) {
		q := queries.Draw(t, "query")
		var doc string
		switch rapid.IntRange(0, 4).Draw(t, "mode") {
		case 0:
			doc = string(hx.BytesLen(0, 300).Draw(t, "bytes"))
		case 1:
			doc = rapid.StringN(0, 60, -1).Draw(t, "text")
		case 2: // lines of odd words
			for i := rapid.IntRange(0, 6).Draw(t, "lines"); i > 0; i-- {
				doc += strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"", " ", "5", "-", "abc", "\t", strings.Repeat("ab", 32), "lovelace", "+", "null", "{}"}), 0, 5).Draw(t, "line"), " ") + "\n"
			}
		case 3:
			doc = header + strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"", "5", " ", "abc 1", strings.Repeat("ab", 32), "\x00"}), 0, 4).Draw(t, "rows"), "\n")
		default:
			doc = rapid.SampledFrom([]string{"null", "{}", "[null]", `{"slot": null}`, `{"protocolVersion": null}`, "\n\n\n", "\n\n \n", header + "\n", header[:90], "a\nb\nc"}).Draw(t, "doc")
		}
		code := rapid.SampledFrom([]string{"0", "0", "0", "3"}).Draw(t, "status")
		cs.Key("%s %q %s", q, doc, code)
		cs.Nontrivial(doc != "")
		c.prepare(doc, code)
		if res, err := ask(t, c.node(t, net), q); err == nil && code != "0" {
			t.Fatalf("%s with status %s and answer %q reports %s and no error", q, code, doc, res)
		}
	})
}

// trailed is a document with something after it.
func trailed(t *rapid.T, doc string) string {
	return doc + rapid.SampledFrom([]string{"", "\n", " "}).Draw(t, "gap") + rapid.SampledFrom([]string{"}", "{}", "null", "0", doc, "cardano-cli: connection lost", "\x00", ","}).Draw(t, "trail")
}

// ---- C27 ----

func TestC27(t *testing.T) {
	c := scratch(t)
	h := hx.Start(t, "C27", "generated signed transactions submitted through a stand-in for cardano-cli that copies the file it is handed; succeeding, failing, killed and missing commands; the temporary directory is listed after each; a temporary directory that is missing and a file that can be written only in part. Non-trivial: every case")
	h.Check("submit", 400, func(t *rapid.T, cs *hx.C) {
		x, raw := smallTx(t)
		n := netGen().Draw(t, "network")
		code := rapid.SampledFrom([]string{"0", "0", "0", "1", "255", "kill", "missing"}).Draw(t, "status")
		out := rapid.SampledFrom([]string{"", "Transaction successfully submitted.\n", "noise"}).Draw(t, "output")
		cs.Key("%x %s %q", raw, code, out)
		cs.Nontrivial(true)
		cs.Class("status "+code, true)
		c.prepare(out, code)
		nd := c.node(t, &n)
		if code == "missing" {
			nd = node.NewCardanoCliNode(&n, filepath.Join(c.dir, "no-such-program"))
		}
		var id string
		var err error
		if p := hx.Try(func() { id, err = nd.SubmitTx(x) }); p != nil {
			t.Fatalf("submit: %v", p)
		}
		c.nothingLeft(t, "submission with status "+code)
		if (err == nil) != (code == "0") {
			t.Fatalf("submission with cardano-cli status %s returns %q, %v", code, id, err)
		}
		if code != "missing" {
			checkFile(t, c, raw)
		}
		if code == "0" {
			v, err := txm.Decode(raw)
			if err != nil {
				t.Fatal(err)
			}
			if want := hex.EncodeToString(ref.Blake2b(32, v.BodyRaw)); id != want {
				t.Fatalf("submission returns %q, want the transaction id %s", id, want)
			}
		}
		if again, err := x.Bytes(); err != nil || !bytes.Equal(again, raw) {
			t.Fatalf("submission changed the transaction to %x (%v) from %x", again, err, raw)
		}
	})
	h.Check("history", 120, func(t *rapid.T, cs *hx.C) {
		// several submissions through one backend: each sends its own transaction
		n := netGen().Draw(t, "network")
		nd := c.node(t, &n)
		k := rapid.IntRange(2, 4).Draw(t, "n")
		for i := 0; i < k; i++ {
			x, raw := smallTx(t)
			code := rapid.SampledFrom([]string{"0", "0", "1"}).Draw(t, "status")
			cs.Key("%x %s", raw, code)
			cs.Nontrivial(true)
			c.prepare("", code)
			id, err := nd.SubmitTx(x)
			if (err == nil) != (code == "0") {
				t.Fatalf("submission %d with status %s returns %q, %v", i, code, id, err)
			}
			checkFile(t, c, raw)
			c.nothingLeft(t, fmt.Sprintf("submission %d with status %s", i, code))
		}
	})
	h.Each("slow submission", false, func(rec func(*hx.C)) error {
		// the command finds the transaction whenever it looks, and is waited for
		x := txm.ModelGen(1 << 40).Example(5).Tx()
		raw, err := x.Bytes()
		must(err)
		hash, err := x.Hash()
		must(err)
		c.useTmp(0)
		for _, code := range []string{"0", "1"} {
			cs := &hx.C{}
			cs.Key("%s", code)
			cs.Nontrivial(true)
			c.prepare("Transaction successfully submitted.\n", code)
			wait := slow()
			if code == "1" {
				wait = time.Second
			}
			c.pause(11, fmt.Sprint(wait.Seconds()))
			id, err := node.NewCardanoCliNode(network.TestNet()).SubmitTx(*x)
			if (err == nil) != (code == "0") || err == nil && id != hex.EncodeToString(hash[:]) {
				return fmt.Errorf("submission with cardano-cli taking %v and ending with status %s returns %q, %v", wait, code, id, err)
			}
			b, err := os.ReadFile(filepath.Join(c.dir, "txfile"))
			if err != nil || !strings.Contains(strings.ToLower(string(b)), hex.EncodeToString(raw)) {
				return fmt.Errorf("cardano-cli looking at the file after %v finds %q (%v)", wait, b, err)
			}
			if l := c.left(); len(l) != 0 {
				return fmt.Errorf("a slow submission left %q behind", l)
			}
			rec(cs)
		}
		c.prepare("", "0")
		return nil
	})
	h.Check("unserialisable", 100, func(t *rapid.T, cs *hx.C) {
		x, _ := smallTx(t)
		what := rapid.SampledFrom([]string{"metadata", "input hash"}).Draw(t, "what")
		if what == "metadata" {
			x.Metadata = txm.UnencodableValue(txm.Unencodable().Draw(t, "value"))
		} else {
			x.AddInputs(tx.NewTxInput("00ff", 0, 1))
		}
		cs.Key("%s", what)
		cs.Nontrivial(true)
		c.prepare("", "0")
		nd := c.node(t, network.TestNet())
		id, err := nd.SubmitTx(x)
		if err == nil {
			t.Fatalf("submitting a transaction that cannot be serialised (%s) returns %q", what, id)
		}
		if calls := c.calls(); len(calls) != 0 {
			t.Fatalf("submitting a transaction that cannot be serialised (%s) ran cardano-cli: %q", what, calls)
		}
		c.nothingLeft(t, "submission")
	})
	h.Check("at once", 25, func(t *rapid.T, cs *hx.C) {
		// submissions at the same time, also of transactions that differ only in
		// their witnesses: each command is handed its own transaction
		n := netGen().Draw(t, "network")
		nd := c.node(t, &n)
		k := rapid.IntRange(2, 5).Draw(t, "n")
		var xs []tx.Tx
		var raws [][]byte
		var ids []string
		want := map[string]int{}
		for i := 0; i < k; i++ {
			if i > 0 && rapid.Bool().Draw(t, "sameBody") {
				y := xs[i-1]
				w := hx.Expand(rapid.Uint64().Draw(t, "witness"), 96)
				y.Witness = tx.NewTXWitness(tx.NewVKeyWitness(w[:32], w[32:]))
				raw, err := y.Bytes()
				if err != nil {
					t.Fatal(err)
				}
				xs, raws = append(xs, y), append(raws, append([]byte{}, raw...))
			} else {
				x, raw := smallTx(t)
				xs, raws = append(xs, x), append(raws, raw)
			}
			v, err := txm.Decode(raws[i])
			if err != nil {
				t.Fatal(err)
			}
			ids = append(ids, hex.EncodeToString(ref.Blake2b(32, v.BodyRaw)))
			want[hex.EncodeToString(raws[i])]++
			cs.Key("%x", raws[i])
		}
		cs.Nontrivial(true)
		each := filepath.Join(c.dir, "each")
		must(os.Mkdir(each, 0o700))
		defer os.RemoveAll(each)
		c.prepare("", "0")
		got, errs := make([]string, k), make([]error, k)
		var wg sync.WaitGroup
		for i := range xs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if p := hx.Try(func() { got[i], errs[i] = nd.SubmitTx(xs[i]) }); p != nil {
					errs[i] = p
				}
			}()
		}
		wg.Wait()
		for i := range xs {
			if errs[i] != nil || got[i] != ids[i] {
				t.Fatalf("submission %d of %d at once returns %q, %v; want %s", i, k, got[i], errs[i], ids[i])
			}
		}
		es, err := os.ReadDir(each)
		must(err)
		for _, e := range es {
			b, err := os.ReadFile(filepath.Join(each, e.Name()))
			must(err)
			var env struct {
				CborHex string `json:"cborHex"`
			}
			if err := json.Unmarshal(b, &env); err != nil {
				t.Fatalf("a command was handed %q", b)
			}
			want[strings.ToLower(env.CborHex)]--
		}
		for h, n := range want {
			if n != 0 {
				t.Fatalf("%d submissions at once: transaction %s was handed to %d commands too few (negative: too many)", k, h, n)
			}
		}
		c.nothingLeft(t, "submission")
	})
	h.Check("other files", 60, func(t *rapid.T, cs *hx.C) {
		// files that were in the temporary directory before stay as they are
		x, raw := smallTx(t)
		code := rapid.SampledFrom([]string{"0", "1"}).Draw(t, "status")
		nd := c.node(t, network.TestNet())
		c.prepare("", code)
		id, err := nd.SubmitTx(x) // learn how the file is named
		if (err == nil) != (code == "0") {
			t.Fatalf("submission with status %s returns %q, %v", code, id, err)
		}
		name := "gada-tx-1"
		for _, call := range c.calls() {
			for i, a := range call {
				if i > 0 && call[i-1] == "--tx-file" {
					name = filepath.Base(a)
				}
			}
		}
		cs.Key("%x %s %s", raw, code, name)
		cs.Nontrivial(true)
		c.prepare("", code)
		var names []string
		for i := 0; i < len(name); i++ {
			names = append(names, name[:i]+"x"+name[i+1:])
		}
		names = append(names, name+"x", "x"+name, name+"1", name+".json", name+".tmp")
		for _, f := range names {
			must(os.WriteFile(filepath.Join(c.tmp, f), []byte(f), 0o600))
		}
		_, err = nd.SubmitTx(x)
		for _, f := range names {
			p := filepath.Join(c.tmp, f)
			b, rerr := os.ReadFile(p)
			if rerr != nil || string(b) != f {
				t.Fatalf("submission changed the file %s it did not make: %q, %v", f, b, rerr)
			}
			must(os.Remove(p))
		}
		c.nothingLeft(t, "submission")
		if (err == nil) != (code == "0") {
			t.Fatalf("submission with status %s: %v", code, err)
		}
		checkFile(t, c, raw)
	})
	h.Check("file system faults", 120, func(t *rapid.T, cs *hx.C) {
		// the transaction file cannot be created, or only its beginning written:
		// then nothing may be submitted as if it were the transaction
		x, raw := smallTx(t)
		fault := rapid.SampledFrom([]string{"no temporary directory", "file too large"}).Draw(t, "fault")
		limit := 250 + rapid.IntRange(0, 2*len(raw)).Draw(t, "limit")
		if fault == "file too large" && limit > 2*len(raw)-1 {
			limit = 250
			x.AddOutputs(txm.Out{Addr: am.Payable().Draw(t, "to"), Amount: 1}.Build())
			x.Metadata = hx.Expand(1, 300)
			var err error
			if raw, err = x.Bytes(); err != nil {
				t.Fatal(err)
			}
		}
		cs.Key("%x %s %d", raw, fault, limit)
		cs.Nontrivial(true)
		cs.Class(fault, true)
		c.prepare("", "0")
		nd := c.node(t, network.TestNet())
		var id string
		var err error
		switch fault {
		case "no temporary directory":
			must(os.Setenv("TMPDIR", filepath.Join(c.tmp, "gone")))
			id, err = nd.SubmitTx(x)
			must(os.Setenv("TMPDIR", c.tmp))
		case "file too large":
			var old syscall.Rlimit
			signal.Ignore(syscall.SIGXFSZ)
			must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
			must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(limit), Max: old.Max}))
			id, err = nd.SubmitTx(x)
			must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old))
		}
		if err == nil && len(c.calls()) == 0 {
			t.Fatalf("%s: submission without running cardano-cli returns %q", fault, id)
		}
		if len(c.calls()) > 0 {
			checkFile(t, c, raw)
		}
		c.nothingLeft(t, "submission ("+fault+")")
	})
}

// nothingLeft fails if a file is left in the temporary directory or where the
// command was told to find the transaction.
func (c *cli) nothingLeft(t *rapid.T, what string) {
	if l := c.left(); len(l) != 0 {
		t.Fatalf("%s left %q behind", what, l)
	}
	for _, call := range c.calls() {
		for i, a := range call {
			if i > 0 && call[i-1] == "--tx-file" {
				if _, err := os.Lstat(a); err == nil {
					t.Fatalf("%s left %s behind", what, a)
				}
			}
		}
	}
}

func checkFile(t *rapid.T, c *cli, raw []byte) {
	b, err := os.ReadFile(filepath.Join(c.dir, "txfile"))
	if err != nil {
		t.Fatalf("cardano-cli was handed no file: %v", err)
	}
	// root reads any file; another user needs the permission
	fi, err := os.Stat(filepath.Join(c.dir, "txfile"))
	must(err)
	if fi.Mode().Perm()&0o400 == 0 {
		t.Fatalf("cardano-cli was handed a file its user may not read: %s", fi.Mode())
	}
	var env map[string]interface{}
	if err := json.Unmarshal(b, &env); err != nil {
		t.Fatalf("the transaction file is not complete JSON: %v\n%s", err, b)
	}
	got, _ := env["cborHex"].(string)
	if !strings.EqualFold(got, hex.EncodeToString(raw)) {
		t.Fatalf("the transaction file has cborHex %q, want %x", got, raw)
	}
	ty, ok := env["type"].(string)
	if _, hasDesc := env["description"].(string); !ok || !strings.Contains(ty, "Tx") || !hasDesc {
		t.Fatalf("the transaction file is no text envelope of a transaction: %s", b)
	}
}
