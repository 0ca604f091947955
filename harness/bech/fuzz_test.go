package bech

import (
	"testing"

	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
)

func FuzzC09(f *testing.F) { hx.Fuzz(f, TestC09) }
