package e2e

import (
	"testing"

	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
)

func FuzzC32(f *testing.F) { hx.Fuzz(f, TestC32) }
