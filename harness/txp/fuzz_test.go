package txp

import (
	"testing"

	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
)

func FuzzC16(f *testing.F) { hx.Fuzz(f, TestC16) }
func FuzzC17(f *testing.F) { hx.Fuzz(f, TestC17) }
func FuzzC18(f *testing.F) { hx.Fuzz(f, TestC18) }
func FuzzC19(f *testing.F) { hx.Fuzz(f, TestC19) }
func FuzzC20(f *testing.F) { hx.Fuzz(f, TestC20) }
func FuzzC21(f *testing.F) { hx.Fuzz(f, TestC21) }
func FuzzC22(f *testing.F) { hx.Fuzz(f, TestC22) }
func FuzzC23(f *testing.F) { hx.Fuzz(f, TestC23) }
func FuzzC31(f *testing.F) { hx.Fuzz(f, TestC31) }
