package addr

import (
	"testing"

	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
)

func FuzzC01(f *testing.F) { hx.Fuzz(f, TestC01) }
func FuzzC02(f *testing.F) { hx.Fuzz(f, TestC02) }
func FuzzC03(f *testing.F) { hx.Fuzz(f, TestC03) }
func FuzzC04(f *testing.F) { hx.Fuzz(f, TestC04) }
func FuzzC05(f *testing.F) { hx.Fuzz(f, TestC05) }
func FuzzC06(f *testing.F) { hx.Fuzz(f, TestC06) }
func FuzzC07(f *testing.F) { hx.Fuzz(f, TestC07) }
func FuzzC08(f *testing.F) { hx.Fuzz(f, TestC08) }
