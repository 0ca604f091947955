package hash

import (
	"testing"

	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
)

func FuzzC15(f *testing.F) { hx.Fuzz(f, TestC15) }
