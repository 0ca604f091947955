// Package jg generates JSON documents: objects with wanted members among
// others, in any order and layout, and damaged versions of them.
package jg

import (
	"encoding/json"
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// Member is one name/value pair; the value is JSON text.
type Member struct{ Name, Value string }

// Num is a member with a number.
func Num(name string, n uint64) Member { return Member{name, fmt.Sprint(n)} }

// Str is a member with a string.
func Str(name, s string) Member {
	b, _ := json.Marshal(s)
	return Member{name, string(b)}
}

// Object renders the members in a drawn order and layout.
func Object(t *rapid.T, ms []Member) string {
	ms = rapid.Permutation(ms).Draw(t, "order")
	ws := rapid.SampledFrom([]string{"", " ", "\n    ", "\t", "\r\n  "}).Draw(t, "space")
	colon := rapid.SampledFrom([]string{":", ": ", " : "}).Draw(t, "colon")
	var sb strings.Builder
	sb.WriteString(rapid.SampledFrom([]string{"", "\n", "  "}).Draw(t, "lead"))
	sb.WriteString("{" + ws)
	for i, m := range ms {
		if i > 0 {
			sb.WriteString("," + ws)
		}
		name := fmt.Sprintf("%q", m.Name)
		if rapid.IntRange(0, 29).Draw(t, "escaped") == 0 { // another spelling of the same name
			k := rapid.IntRange(0, len(m.Name)-1).Draw(t, "char")
			name = fmt.Sprintf(`"%s\u%04x%s"`, m.Name[:k], m.Name[k], m.Name[k+1:])
		}
		sb.WriteString(name + colon + m.Value)
	}
	sb.WriteString(ws + "}")
	sb.WriteString(rapid.SampledFrom([]string{"", "\n", " "}).Draw(t, "trail"))
	return sb.String()
}

// Others draws some of the given extra members.
func Others(t *rapid.T, all []Member) []Member {
	var out []Member
	mask := rapid.Uint64().Draw(t, "others")
	for i, m := range all {
		if mask>>(i%64)&1 == 1 {
			out = append(out, m)
		}
	}
	return out
}

// Many returns n members of an object, about 30 bytes each.
func Many(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(", ")
		}
		fmt.Fprintf(&b, `"parameter-%d-memory": %d`, i, i*1000)
	}
	return b.String()
}

// Truncate cuts a non-empty piece off the end of the (trimmed) document.
func Truncate(t *rapid.T, doc string) string {
	doc = strings.TrimSpace(doc)
	return doc[:rapid.IntRange(0, len(doc)-1).Draw(t, "cut")]
}

// Params are protocol parameters.
type Params struct {
	PerByte, Fixed, MaxTx, MinUTXO uint64
	Major, Minor                   uint8
}

// CliExtras are other parameters cardano-cli prints.
var CliExtras = []Member{
	{"decentralization", "0"}, {"utxoCostPerWord", "null"}, {"stakePoolDeposit", "500000000"},
	{"poolRetireMaxEpoch", "18"}, {"extraPraosEntropy", "null"}, {"collateralPercentage", "150"},
	{"stakePoolTargetNum", "500"}, {"maxBlockBodySize", "65536"}, {"minPoolCost", "340000000"},
	{"treasuryCut", "0.2"}, {"maxBlockExecutionUnits", `{"memory": 50000000, "steps": 40000000000}`},
	{"maxCollateralInputs", "3"}, {"maxValueSize", "5000"}, {"maxBlockHeaderSize", "1100"},
	{"maxTxExecutionUnits", `{"memory": 10000000, "steps": 10000000000, "txFeePerByte": 7}`},
	{"costModels", `{"PlutusScriptV1": {"bData-cpu-arguments": 150000, "major": 9}, "txFeeFixed": 3}`},
	{"stakeAddressDeposit", "2000000"}, {"monetaryExpansion", "3.0e-3"}, {"poolPledgeInfluence", "0.3"},
	{"executionUnitPrices", `{"priceSteps": 7.21e-5, "priceMemory": 5.77e-2}`},
	{"minFeeRefScriptCostPerByte", "15"}, {"notes", `"{\"txFeePerByte\": 1} \u00e9 \\ \""`}, {"list", `[1, [2, {"maxTxSize": 1}], "x"]`},
	{"previous", `{"minUTxOValue": 5, "protocolVersion": {"major": 1, "minor": 2}, "minor": 77}`},
	{"genesis", `{"protocolVersion":{"minor":3},"maxTxSize":12,"txFeeFixed":{"txFeePerByte":9},"minUTxOValue":4}`},
	{"text", `"\"minUTxOValue\":1,\"minor\":2,\"protocolVersion\":{}"`},
}

// Members are the parameters in cardano-cli's format.
func (p Params) Members(t *rapid.T) []Member {
	ver := []Member{Num("major", uint64(p.Major)), Num("minor", uint64(p.Minor))}
	return []Member{
		Num("txFeePerByte", p.PerByte), Num("txFeeFixed", p.Fixed), Num("maxTxSize", p.MaxTx),
		Num("minUTxOValue", p.MinUTXO), {"protocolVersion", strings.TrimSpace(Object(t, ver))},
	}
}
