package curve

import (
	"testing"

	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
)

func FuzzC14(f *testing.F) { hx.Fuzz(f, TestC14) }
