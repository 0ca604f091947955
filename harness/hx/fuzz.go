package hx

import (
	"flag"
	"io"
	"log"
	"os"
	"testing"

	"pgregory.net/rapid"
)

// target is something a coverage-guided run can drive: a rapid property, whose
// choices are read from the input, or a function of the input itself.
type target struct {
	prop func(*rapid.T, *C)
	raw  func([]byte) (problem string)
	seed [][]byte
}

// collecting, when set, makes Start, Check and Raw list the targets of a test
// instead of running them.
var collecting *[]target

// cheap is the number of cases from which on a property's cases are fast
// enough for coverage-guided runs.
const cheap = 100

// Raw gives coverage-guided runs (see Fuzz) a function of bytes.
func (h *H) Raw(seeds [][]byte, f func(data []byte) (problem string)) {
	if collecting != nil {
		*collecting = append(*collecting, target{raw: f, seed: seeds})
	}
}

// Fuzz drives the properties of one test by coverage: the first byte of the
// input chooses the property, the others are its choices.
func Fuzz(f *testing.F, test func(*testing.T)) {
	if os.Getenv("VERIF_FUZZ") == "" {
		f.Skip("only run by the thorough tier")
	}
	log.SetOutput(io.Discard)
	var ts []target
	collecting = &ts
	test(&testing.T{})
	collecting = nil
	if len(ts) == 0 {
		f.Skip("nothing to drive")
	}
	flag.Set("rapid.nofailfile", "true")
	for i, t := range ts {
		for _, s := range t.seed {
			f.Add(byte(i), s)
		}
		if t.prop != nil {
			f.Add(byte(i), make([]byte, 4096))
			for k := 0; k < 4; k++ {
				f.Add(byte(i), Expand(uint64(i*10+k), 1024<<(2*uint(k%2))))
			}
		}
	}
	f.Fuzz(func(t *testing.T, which byte, data []byte) {
		x := ts[int(which)%len(ts)]
		if x.raw != nil {
			if p := x.raw(data); p != "" {
				t.Fatalf("[fuzz] failed: %s", p)
			}
			return
		}
		rapid.MakeFuzz(func(rt *rapid.T) { x.prop(rt, &C{}) })(t, data)
	})
}
