package proto

import (
	"fmt"
	"math/bits"
	"os"
	"path/filepath"
	"testing"

	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
	"github.com/fivebinaries/go-cardano-serialization/verif/jg"
	"pgregory.net/rapid"
)

func params(t *rapid.T) jg.Params {
	n := func(l string) uint64 { return hx.Uint64(^uint64(0)).Draw(t, l) }
	return jg.Params{PerByte: n("perByte"), Fixed: n("fixed"), MaxTx: n("maxTx"), MinUTXO: n("minUTXO"),
		Major: rapid.Byte().Draw(t, "major"), Minor: rapid.Byte().Draw(t, "minor")}
}

func same(p *protocol.Protocol, w jg.Params) error {
	if p == nil {
		return fmt.Errorf("no parameters")
	}
	if uint64(p.TxFeePerByte) != w.PerByte || uint64(p.TxFeeFixed) != w.Fixed || uint64(p.MaxTxSize) != w.MaxTx ||
		uint64(p.MinUTXOValue) != w.MinUTXO || p.ProtocolVersion.Major != w.Major || p.ProtocolVersion.Minor != w.Minor {
		return fmt.Errorf("loaded %+v, want %+v", *p, w)
	}
	return nil
}

func TestC24(t *testing.T) {
	dir := t.TempDir()
	h := hx.Start(t, "C24", "parameter files with the five parameters over their full ranges among other (also nested and look-alike) members, in any order and layout, must load exactly; missing, truncated, malformed, wrongly typed and out-of-range files must fail. Non-trivial: at least one other member, or a damaged file")
	if bits.UintSize != 64 {
		t.Fatal("the ranges assume 64-bit integers")
	}
	path := filepath.Join(dir, "protocol.json")
	// dir/link/../up.json is dir/far/up.json
	hx.Must(os.MkdirAll(filepath.Join(dir, "far", "away"), 0o700))
	hx.Must(os.Symlink(filepath.Join("far", "away"), filepath.Join(dir, "link")))
	hx.Must(os.WriteFile(filepath.Join(dir, "up.json"), []byte(`{"txFeePerByte": 1234321}`), 0o600))
	load := func(t *rapid.T, doc string) (*protocol.Protocol, error) {
		path := path
		if rapid.IntRange(0, 7).Draw(t, "oddName") == 0 {
			path = filepath.Join(dir, rapid.SampledFrom([]string{"$HOME", "${x}.json", "%20.json", "a b.json", " lead.json", "~", "x.json.gz", "caf\u00e9.json", "*.json", "-f", "protocol", "a\\b.json", "#1?.json", "file:x", "x\ny.json", ".hidden"}).Draw(t, "name"))
			defer os.Remove(path)
		}
		if rapid.IntRange(0, 15).Draw(t, "throughLink") == 0 {
			path = dir + "/" + rapid.SampledFrom([]string{"link/p.json", "link/../up.json", "./link/.././/up.json", "far//away/../p.json"}).Draw(t, "route")
		}
		hx.Must(os.WriteFile(path, []byte(doc), 0o600))
		var p *protocol.Protocol
		var err error
		if e := hx.Try(func() { p, err = protocol.LoadProtocol(path) }); e != nil {
			t.Fatalf("loading %q: %v", doc, e)
		}
		return p, err
	}
	h.Check("exact", 4000, func(t *rapid.T, c *hx.C) {
		w := params(t)
		extra := jg.Others(t, jg.CliExtras)
		if rapid.IntRange(0, 40).Draw(t, "big") == 0 { // cost models make large files
			extra = append(extra, jg.Member{Name: "costModelsV3", Value: "{" + jg.Many(rapid.SampledFrom([]int{20, 160, 300, 2500, 9000}).Draw(t, "members")) + "}"})
		}
		doc := jg.Object(t, append(w.Members(t), extra...))
		c.Key("%s", doc)
		c.Class("64 KiB or more", len(doc) >= 1<<16)
		c.Nontrivial(len(extra) > 0)
		c.Class("a value over 32 bits", w.PerByte|w.Fixed|w.MaxTx|w.MinUTXO >= 1<<32)
		c.Class("a value over 63 bits", w.PerByte|w.Fixed|w.MaxTx|w.MinUTXO >= 1<<63)
		p, err := load(t, doc)
		if err != nil {
			t.Fatalf("loading %s: %v", doc, err)
		}
		if err := same(p, w); err != nil {
			t.Fatalf("%s: %v", doc, err)
		}
		// another file does not inherit anything
		if rapid.Bool().Draw(t, "again") {
			w2 := params(t)
			doc2 := jg.Object(t, w2.Members(t))
			p2, err := load(t, doc2)
			if err != nil {
				t.Fatal(err)
			}
			if err := same(p2, w2); err != nil {
				t.Fatalf("second file %s: %v", doc2, err)
			}
			if err := same(p, w); err != nil {
				t.Fatalf("first result after loading a second file: %v", err)
			}
		}
	})
	h.Check("damaged", 4000, func(t *rapid.T, c *hx.C) {
		w := params(t)
		ms := w.Members(t)
		var doc string
		kind := rapid.SampledFrom([]string{"truncated", "type", "range", "version", "not an object", "garbage after", "syntax"}).Draw(t, "damage")
		extra := jg.Others(t, jg.CliExtras)
		switch kind {
		case "truncated":
			doc = jg.Truncate(t, jg.Object(t, append(ms, extra...)))
		case "type":
			i := rapid.IntRange(0, 4).Draw(t, "member")
			v := rapid.SampledFrom([]string{`"44"`, `true`, `[44]`, `"abc"`, `""`}).Draw(t, "value")
			if i < 4 && rapid.Bool().Draw(t, "object") {
				v = `{"a": 1}`
			}
			if i == 4 && rapid.Bool().Draw(t, "number") {
				v = "6"
			}
			ms[i].Value = v
			doc = jg.Object(t, append(ms, extra...))
		case "range":
			i := rapid.IntRange(0, 3).Draw(t, "member")
			ms[i].Value = rapid.SampledFrom([]string{"-1", "-44", "44.5", "18446744073709551616", "1e30", "-0.5", "99999999999999999999999"}).Draw(t, "value")
			doc = jg.Object(t, append(ms, extra...))
		case "version":
			bad := rapid.SampledFrom([]string{"256", "-1", "1.5", `"6"`, "1000", "[]", "true", "65536"}).Draw(t, "value")
			good := fmt.Sprint(rapid.IntRange(0, 255).Draw(t, "good"))
			if rapid.Bool().Draw(t, "major") {
				ms[4].Value = fmt.Sprintf(`{"major": %s, "minor": %s}`, bad, good)
			} else {
				ms[4].Value = fmt.Sprintf(`{"major": %s, "minor": %s}`, good, bad)
			}
			doc = jg.Object(t, append(ms, extra...))
		case "not an object":
			doc = rapid.SampledFrom([]string{"", " ", "[]", "5", `"x"`, "true", "nul", "[{}]", "txFeePerByte: 44", "<html></html>"}).Draw(t, "doc")
		case "garbage after":
			doc = jg.Object(t, append(ms, extra...)) + rapid.SampledFrom([]string{"x", "{}", "]", ",", "}", "\x00", "5"}).Draw(t, "tail")
		case "syntax":
			doc = rapid.SampledFrom([]string{
				`{"txFeePerByte": 44,}`, `{"txFeePerByte" 44}`, `{txFeePerByte: 44}`, `{'txFeePerByte': 44}`,
				`{"txFeePerByte": 044}`, `{"txFeePerByte": 0x2c}`, `{"txFeePerByte": 44 "txFeeFixed": 1}`, `{"txFeePerByte": +44}`, `{"a": "b` + "\n" + `"}`,
			}).Draw(t, "doc")
		}
		c.Key("%s", doc)
		c.Nontrivial(true)
		c.Class(kind, true)
		if p, err := load(t, doc); err == nil {
			t.Fatalf("%s file %q loads as %+v", kind, doc, p)
		}
	})
	h.Check("missing", 200, func(t *rapid.T, c *hx.C) {
		name := rapid.StringMatching(`[a-z]{1,12}(\.json)?`).Draw(t, "name")
		p := filepath.Join(dir, "none", name)
		if rapid.Bool().Draw(t, "directory") {
			p = dir
		}
		c.Key("%s", name)
		c.Nontrivial(true)
		if e := hx.Try(func() {
			if got, err := protocol.LoadProtocol(p); err == nil {
				t.Fatalf("loading %s succeeds: %+v", p, got)
			}
		}); e != nil {
			t.Fatalf("loading %s: %v", p, e)
		}
	})
}
