package keys

import (
	"testing"

	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
)

func FuzzC10(f *testing.F) { hx.Fuzz(f, TestC10) }
func FuzzC11(f *testing.F) { hx.Fuzz(f, TestC11) }
func FuzzC12(f *testing.F) { hx.Fuzz(f, TestC12) }
func FuzzC13(f *testing.F) { hx.Fuzz(f, TestC13) }
