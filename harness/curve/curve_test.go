package curve

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	ed "github.com/fivebinaries/go-cardano-serialization/crypto/edwards25519"
	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
	"github.com/fivebinaries/go-cardano-serialization/verif/ref"
	"pgregory.net/rapid"
)

var (
	one  = big.NewInt(1)
	two  = big.NewInt(2)
	p255 = new(big.Int).Lsh(one, 255)
)

func arr(b []byte) *[32]byte { var a [32]byte; copy(a[:], b); return &a }

// fieldBytes draws a 255-bit encoding, biased to values around p and limb edges.
func fieldBytes() *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		var n *big.Int
		switch rapid.IntRange(0, 5).Draw(t, "feMode") {
		case 5: // all limbs at the same extreme
			n = new(big.Int)
			k := rapid.IntRange(0, 3).Draw(t, "extreme")
			sh := uint(0)
			for i := 0; i < 10; i++ {
				w := uint(26 - i%2)
				n.Add(n, new(big.Int).Lsh(big.NewInt([]int64{1 << (w - 1), 1<<(w-1) - 1, 1<<w - 1, 1}[(k+i%2*rapid.SampledFrom([]int{0, 0, 1}).Draw(t, "alternate"))%4]), sh))
				sh += w
			}
			n.Add(n, big.NewInt(int64(rapid.IntRange(-40, 40).Draw(t, "near"))))
		case 0:
			n = hx.BigNear(t, ref.P)
		case 1:
			n = hx.BigNear(t, new(big.Int).Lsh(one, uint(rapid.IntRange(0, 254).Draw(t, "bit"))))
		case 2: // limbs at their extremes
			n = new(big.Int)
			sh := uint(0)
			for i := 0; i < 10; i++ {
				w := uint(26 - i%2)
				v := rapid.SampledFrom([]int64{0, 1, 1<<w - 1, 1<<w - 20, 1 << (w - 1), 1<<(w-1) - 1, 1<<(w-1) + 1}).Draw(t, "limb")
				n.Add(n, new(big.Int).Lsh(big.NewInt(v), sh))
				sh += w
			}
		default:
			n = ref.FromLE(hx.Bytes(32).Draw(t, "bytes"))
		}
		n.Mod(n, p255)
		return ref.LE(n, 32)
	})
}

type fe struct {
	f ed.FieldElement
	n *big.Int
}

func loadFe(b []byte) fe {
	var x fe
	ed.FeFromBytes(&x.f, arr(b))
	x.n = new(big.Int).Mod(ref.FromLE(b), p255)
	x.n.Mod(x.n, ref.P)
	return x
}

func (x fe) check(what string) string {
	var out [32]byte
	f := x.f
	ed.FeToBytes(&out, &f)
	want := ref.LE(new(big.Int).Mod(x.n, ref.P), 32)
	if !bytes.Equal(out[:], want) {
		return fmt.Sprintf("%s: %x, want %x", what, out, want)
	}
	return ""
}

// reduced passes a sum through a multiplication by one, bringing its limbs back into the multiplier's output range.
func mulOne(f ed.FieldElement) ed.FieldElement {
	var o, r ed.FieldElement
	ed.FeOne(&o)
	ed.FeMul(&r, &f, &o)
	return r
}

// runs draws a 252-bit number made of runs of 21-bit limbs that are zero or all ones, so that carries and
// borrows travel far, possibly after adding or subtracting what a reduction adds or subtracts.
func runs(t *rapid.T) *big.Int {
	v := new(big.Int)
	from, to := rapid.IntRange(0, 11).Draw(t, "from"), rapid.IntRange(0, 12).Draw(t, "to")
	fill := rapid.SampledFrom([]int64{0, 1<<21 - 1, 1<<20 - 1, 1 << 20}).Draw(t, "fill")
	for i := 0; i < 12; i++ {
		l := fill
		if i < from || i >= to {
			l = int64(rapid.SampledFrom([]uint32{0, 1<<21 - 1, rapid.Uint32Max(1<<21-1).Draw(t, "limb")}).Draw(t, "which"))
		}
		v.Add(v, new(big.Int).Lsh(big.NewInt(l), uint(21*i)))
	}
	c := new(big.Int).Sub(ref.L, new(big.Int).Lsh(one, 252))
	v.Add(v, c.Mul(c, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(t, "folds")))))
	v.Add(v, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(t, "near"))))
	return v.Mod(v, new(big.Int).Lsh(one, 256))
}

func scalarBytes(n int) *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		max := new(big.Int).Lsh(one, uint(8*n))
		var v *big.Int
		switch rapid.IntRange(0, 7).Draw(t, "scMode") {
		case 6: // runs of limbs at their extremes, and what reducing it once leaves so
			v = runs(t)
			if rapid.Bool().Draw(t, "high") {
				v.Add(v, new(big.Int).Lsh(big.NewInt(int64(rapid.IntRange(0, 15).Draw(t, "top"))), 252))
			}
		case 7: // a multiple of L away from that
			k := ref.FromLE(hx.Expand(rapid.Uint64().Draw(t, "k"), n))
			k.Rsh(k, uint(rapid.IntRange(250, 8*n).Draw(t, "shift")))
			v = k.Mul(k, ref.L)
			v.Add(v, runs(t))
		case 0: // near a multiple of L
			q := new(big.Int).Div(max, ref.L)
			k := new(big.Int).Mod(ref.FromLE(hx.Expand(rapid.Uint64().Draw(t, "k"), n)), new(big.Int).Add(q, one))
			k.Rsh(k, uint(rapid.IntRange(0, 8*n).Draw(t, "shift")))
			v = hx.BigNear(t, k.Mul(k, ref.L))
		case 1:
			v = hx.BigNear(t, new(big.Int).Lsh(one, uint(rapid.IntRange(0, 8*n).Draw(t, "bit"))))
		case 2: // 21-bit limbs at their extremes
			v = new(big.Int)
			for sh := uint(0); sh < uint(8*n); sh += 21 {
				v.Add(v, new(big.Int).Lsh(big.NewInt(rapid.SampledFrom([]int64{0, 1, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<21 - 1}).Draw(t, "limb")), sh))
			}
		default:
			v = ref.FromLE(hx.Bytes(n).Draw(t, "bytes"))
		}
		v.Mod(v, max)
		return ref.LE(v, n)
	})
}

// pointGen draws curve points: multiples of the base point, small-order
// points, and sums of both.
func pointGen() *rapid.Generator[ref.Point] {
	return rapid.Custom(func(t *rapid.T) ref.Point {
		switch rapid.IntRange(0, 4).Draw(t, "ptMode") {
		case 0:
			return torsion[rapid.IntRange(0, 7).Draw(t, "torsion")]
		case 1:
			return ref.MulBase(ref.FromLE(hx.Bytes(32).Draw(t, "k"))).Add(torsion[rapid.IntRange(0, 7).Draw(t, "torsion")])
		case 2:
			return ref.MulBase(big.NewInt(int64(rapid.IntRange(0, 20).Draw(t, "k"))))
		default:
			return ref.MulBase(ref.FromLE(hx.Bytes(32).Draw(t, "k")))
		}
	})
}

var torsion = func() []ref.Point {
	// an order-8 point: clear the prime-order part of any point with cofactor
	for y := int64(2); ; y++ {
		x, ok := ref.RecoverX(big.NewInt(y), 0)
		if !ok {
			continue
		}
		q := ref.Affine(x, big.NewInt(y)).Mul(ref.L)
		id := ref.Identity().Encode()
		if bytes.Equal(q.Mul(big.NewInt(4)).Encode(), id) {
			continue
		}
		out := []ref.Point{ref.Identity()}
		for len(out) < 8 {
			out = append(out, out[len(out)-1].Add(q))
		}
		return out
	}
}()

func load(p ref.Point) (e ed.ExtendedGroupElement, ok bool) {
	ok = e.FromBytes(arr(p.Encode()))
	return
}

func extBytes(e *ed.ExtendedGroupElement) []byte { var o [32]byte; e.ToBytes(&o); return o[:] }

func TestC14(t *testing.T) {
	h := hx.Start(t, "C14", "field elements, scalars and points at and around p, L, limb and digit boundaries against math/big; non-trivial: every case (distinct by operation inputs)")
	h.Check("field", 6000, func(t *rapid.T, c *hx.C) {
		ab, bb := fieldBytes().Draw(t, "a"), fieldBytes().Draw(t, "b")
		switch rapid.IntRange(0, 5).Draw(t, "related") {
		case 0:
			bb = ab
		case 1: // the negative
			bb = ref.LE(new(big.Int).Mod(new(big.Int).Neg(ref.FromLE(ab)), ref.P), 32)
		case 2: // the inverse, or 0
			bb = ref.LE(new(big.Int).Exp(ref.FromLE(ab), new(big.Int).Sub(ref.P, two), ref.P), 32)
		}
		a, b := loadFe(ab), loadFe(bb)
		c.Key("%x %x", ab, bb)
		c.Nontrivial(true)
		chk := func(what string, f ed.FieldElement, n *big.Int) {
			if p := (fe{f, n}).check(what); p != "" {
				t.Fatalf("a=%x b=%x %s", ab, bb, p)
			}
		}
		chk("decode", a.f, a.n)
		var r ed.FieldElement
		ed.FeAdd(&r, &a.f, &b.f)
		chk("add", mulOne(r), new(big.Int).Add(a.n, b.n))
		ed.FeSub(&r, &a.f, &b.f)
		chk("sub", mulOne(r), new(big.Int).Sub(a.n, b.n))
		ed.FeNeg(&r, &a.f)
		chk("neg", r, new(big.Int).Neg(a.n))
		ed.FeMul(&r, &a.f, &b.f)
		chk("mul", r, new(big.Int).Mul(a.n, b.n))
		ab2 := new(big.Int).Mul(a.n, b.n)
		// products of unreduced sums and differences, as the point formulas use them
		var s, d, m ed.FieldElement
		ed.FeAdd(&s, &a.f, &b.f)
		ed.FeSub(&d, &a.f, &b.f)
		ed.FeMul(&m, &s, &d)
		sn, dn := new(big.Int).Add(a.n, b.n), new(big.Int).Sub(a.n, b.n)
		chk("(a+b)(a-b)", m, new(big.Int).Mul(sn, dn))
		ed.FeMul(&m, &s, &s)
		chk("(a+b)(a+b)", m, new(big.Int).Mul(sn, sn))
		ed.FeSquare(&m, &s)
		chk("(a+b)^2", m, new(big.Int).Mul(sn, sn))
		ed.FeSquare(&m, &d)
		chk("(a-b)^2", m, new(big.Int).Mul(dn, dn))
		ed.FeSquare2(&m, &d)
		chk("2(a-b)^2", m, new(big.Int).Mul(two, new(big.Int).Mul(dn, dn)))
		var s3 ed.FieldElement
		ed.FeAdd(&s3, &s, &a.f)
		sn3 := new(big.Int).Add(sn, a.n)
		ed.FeSquare2(&m, &s3)
		chk("2(2a+b)^2", m, new(big.Int).Mul(two, new(big.Int).Mul(sn3, sn3)))
		ed.FeMul(&m, &s, &a.f)
		chk("(a+b)a", m, new(big.Int).Mul(sn, a.n))
		ed.FeSquare(&r, &a.f)
		chk("square", r, new(big.Int).Mul(a.n, a.n))
		ed.FeSquare2(&r, &a.f)
		chk("2 square", r, new(big.Int).Mul(two, new(big.Int).Mul(a.n, a.n)))
		ed.FeMul(&r, &a.f, &b.f)
		ed.FeMul(&r, &r, &r) // aliased arguments
		chk("(ab)^2 aliased", r, new(big.Int).Mul(ab2, ab2))
		ed.FeInvert(&r, &a.f)
		chk("invert", r, new(big.Int).Exp(a.n, new(big.Int).Sub(ref.P, two), ref.P))
		if ed.FeIsNegative(&a.f) != byte(a.n.Bit(0)) {
			t.Fatalf("sign of %x is %d", ab, ed.FeIsNegative(&a.f))
		}
		if (ed.FeIsNonZero(&a.f) == 1) != (a.n.Sign() != 0) || ed.FeIsNonZero(&a.f)&^1 != 0 {
			t.Fatalf("non-zero test of %x is %d", ab, ed.FeIsNonZero(&a.f))
		}
		r = a.f
		ed.FeInvert(&r, &r)
		chk("invert aliased", r, new(big.Int).Exp(a.n, new(big.Int).Sub(ref.P, two), ref.P))
		r = a.f
		ed.FeSquare(&r, &r)
		chk("square aliased", r, new(big.Int).Mul(a.n, a.n))
		r = a.f
		ed.FeSquare2(&r, &r)
		chk("2 square aliased", r, new(big.Int).Mul(two, new(big.Int).Mul(a.n, a.n)))
		r = a.f
		ed.FeNeg(&r, &r)
		chk("neg aliased", r, new(big.Int).Neg(a.n))
		r = b.f
		ed.FeSub(&r, &a.f, &r)
		chk("sub aliased", mulOne(r), new(big.Int).Sub(a.n, b.n))
		r = b.f
		ed.FeMul(&r, &a.f, &r)
		chk("mul aliased", r, new(big.Int).Mul(a.n, b.n))
		r = a.f
		ed.FeCMove(&r, &b.f, 0)
		chk("conditional move 0", r, a.n)
		ed.FeCMove(&r, &b.f, 1)
		chk("conditional move 1", r, b.n)
		ed.FeCopy(&r, &a.f)
		chk("copy", r, a.n)
		chk("argument a afterwards", a.f, a.n)
		chk("argument b afterwards", b.f, b.n)
		ed.FeZero(&r)
		chk("zero", r, new(big.Int))
		ed.FeOne(&r)
		chk("one", r, one)
	})
	h.Check("scalar reduce", 20000, func(t *rapid.T, c *hx.C) {
		in := scalarBytes(64).Draw(t, "s")
		c.Key("%x", in)
		c.Nontrivial(true)
		var s [64]byte
		copy(s[:], in)
		var out [32]byte
		ed.ScReduce(&out, &s)
		n := ref.FromLE(in)
		c.Class("already reduced", n.Cmp(ref.L) < 0)
		if want := ref.LE(n.Mod(n, ref.L), 32); !bytes.Equal(out[:], want) {
			t.Fatalf("%x mod L is %x, want %x", in, out, want)
		}
	})
	h.Check("scalar multiply-add", 15000, func(t *rapid.T, c *hx.C) {
		a, b, d := scalarBytes(32).Draw(t, "a"), scalarBytes(32).Draw(t, "b"), scalarBytes(32).Draw(t, "c")
		if rapid.Bool().Draw(t, "chosenResult") {
			// the addend that makes the result, or what is left of it before the last reduction, one with long carries
			n := runs(t)
			n.Sub(n, new(big.Int).Mul(ref.FromLE(a), ref.FromLE(b))).Mod(n, ref.L)
			n.Add(n, new(big.Int).Mul(ref.L, big.NewInt(int64(rapid.IntRange(0, 14).Draw(t, "multiple")))))
			d = ref.LE(n, 32)
		}
		c.Key("%x %x %x", a, b, d)
		c.Nontrivial(true)
		var s [32]byte
		ed.ScMulAdd(&s, arr(a), arr(b), arr(d))
		n := ref.FromLE(a)
		n.Mul(n, ref.FromLE(b)).Add(n, ref.FromLE(d)).Mod(n, ref.L)
		if !bytes.Equal(s[:], ref.LE(n, 32)) {
			t.Fatalf("%x*%x+%x is %x, want %x", a, b, d, s, ref.LE(n, 32))
		}
		// aliased
		for i := 0; i < 3; i++ {
			x := []*[32]byte{arr(a), arr(b), arr(d)}
			ed.ScMulAdd(x[i], x[0], x[1], x[2])
			if *x[i] != s {
				t.Fatalf("%x*%x+%x with the result in argument %d gives %x, want %x", a, b, d, i, *x[i], s)
			}
			for j, w := range [][]byte{a, b, d} {
				if j != i && *x[j] != *arr(w) {
					t.Fatalf("%x*%x+%x changes argument %d to %x", a, b, d, j, *x[j])
				}
			}
		}
	})
	h.Check("scalar minimal", 6000, func(t *rapid.T, c *hx.C) {
		a := scalarBytes(32).Draw(t, "a")
		if rapid.Bool().Draw(t, "nearOrder") {
			a = ref.LE(ref.L, 32)
			for i := rapid.IntRange(0, 3).Draw(t, "changes"); i > 0; i-- {
				a[rapid.IntRange(0, 31).Draw(t, "pos")] += rapid.SampledFrom([]byte{1, 255, 128}).Draw(t, "delta")
			}
		}
		c.Key("%x", a)
		c.Nontrivial(true)
		want := ref.FromLE(a).Cmp(ref.L) < 0
		c.Class("minimal", want)
		if ed.ScMinimal(arr(a)) != want {
			t.Fatalf("minimality of %x reported as %v", a, !want)
		}
	})
	var decoded ed.ExtendedGroupElement
	h.Check("point decode", 4000, func(t *rapid.T, c *hx.C) {
		var enc []byte
		if rapid.Bool().Draw(t, "random") {
			enc = fieldBytes().Draw(t, "y")
			enc[31] |= byte(rapid.IntRange(0, 1).Draw(t, "sign")) << 7
		} else {
			enc = pointGen().Draw(t, "point").Encode()
		}
		c.Key("%x", enc)
		c.Nontrivial(true)
		e := decoded // a receiver that was used before
		in := arr(enc)
		ok := e.FromBytes(in)
		if *in != *arr(enc) {
			t.Fatalf("decoding %x changes it to %x", enc, *in)
		}
		decoded = e
		y := new(big.Int).Mod(ref.FromLE(enc), p255)
		canonical := y.Cmp(ref.P) < 0
		x, onCurve := ref.RecoverX(new(big.Int).Mod(y, ref.P), 0)
		c.Class("valid", onCurve)
		c.Class("not on curve", !onCurve)
		if !onCurve {
			// depending on the reference's treatment of x=0 with a sign bit this may be a valid y; be exact
			if ok {
				t.Fatalf("%x is not on the curve but was decoded", enc)
			}
			return
		}
		negZero := x.Sign() == 0 && enc[31]>>7 == 1
		if !canonical || negZero {
			c.Class("non-canonical", true)
			return // the package does not document which of these it accepts
		}
		if !ok {
			t.Fatalf("%x is a point but was not decoded", enc)
		}
		if got := extBytes(&e); !bytes.Equal(got, enc) {
			t.Fatalf("%x decodes and encodes to %x", enc, got)
		}
		want, _ := ref.DecodePoint(enc)
		wx, wy := want.XY()
		for _, f := range []struct {
			n string
			e ed.FieldElement
			v *big.Int
		}{{"X", e.X, wx}, {"Y", e.Y, wy}, {"Z", e.Z, one}, {"T", e.T, new(big.Int).Mul(wx, wy)}} {
			if p := (fe{f.e, f.v}).check(f.n); p != "" {
				t.Fatalf("point %x: %s", enc, p)
			}
		}
	})
	h.Check("group", 1200, func(t *rapid.T, c *hx.C) {
		p := pointGen().Draw(t, "point")
		c.Key("%x", p.Encode())
		c.Nontrivial(true)
		e, ok := load(p)
		if !ok {
			t.Fatalf("%x not decoded", p.Encode())
		}
		// doubling through every representation
		want := p
		for i := 0; i < 3; i++ {
			want = want.Add(want)
			var r ed.CompletedGroupElement
			var q ed.ProjectiveGroupElement
			e.Double(&r)
			r.ToProjective(&q)
			var o [32]byte
			q.ToBytes(&o)
			if !bytes.Equal(o[:], want.Encode()) {
				t.Fatalf("doubling %x (%d): %x, want %x", p.Encode(), i, o, want.Encode())
			}
			var r2 ed.CompletedGroupElement
			var q2 ed.ProjectiveGroupElement
			q.Double(&r2)
			r2.ToProjective(&q2)
			q2.ToBytes(&o)
			if !bytes.Equal(o[:], want.Add(want).Encode()) {
				t.Fatalf("doubling %x twice: %x, want %x", p.Encode(), o, want.Add(want).Encode())
			}
			r.ToExtended(&e)
			if !bytes.Equal(extBytes(&e), want.Encode()) {
				t.Fatalf("doubling %x (extended): %x, want %x", p.Encode(), extBytes(&e), want.Encode())
			}
			e.ToProjective(&q)
			q.ToBytes(&o)
			if !bytes.Equal(o[:], want.Encode()) {
				t.Fatalf("projecting: %x, want %x", o, want.Encode())
			}
		}
		z := e
		var zp ed.ProjectiveGroupElement
		e.ToProjective(&zp)
		z.Zero()
		zp.Zero()
		var o [32]byte
		zp.ToBytes(&o)
		if id := ref.Identity().Encode(); !bytes.Equal(extBytes(&z), id) || !bytes.Equal(o[:], id) {
			t.Fatalf("neutral element encodes to %x / %x", extBytes(&z), o)
		}
	})
	// receivers are used again, so that they hold the previous result
	var e ed.ExtendedGroupElement
	var r ed.ProjectiveGroupElement
	base := func(k []byte) string {
		in := arr(k)
		ed.GeScalarMultBase(&e, in)
		want := ref.MulBase(ref.FromLE(k))
		if !bytes.Equal(extBytes(&e), want.Encode()) {
			return fmt.Sprintf("%x * B is %x, want %x", k, extBytes(&e), want.Encode())
		}
		if *in != *arr(k) {
			return "scalar changed"
		}
		// the T coordinate is consistent
		var r ed.CompletedGroupElement
		var e2 ed.ExtendedGroupElement
		e.Double(&r)
		r.ToExtended(&e2)
		var xy, tz ed.FieldElement
		ed.FeMul(&xy, &e.X, &e.Y)
		ed.FeMul(&tz, &e.T, &e.Z)
		ed.FeSub(&xy, &xy, &tz)
		if ed.FeIsNonZero(&xy) != 0 {
			return fmt.Sprintf("%x * B has an inconsistent T coordinate", k)
		}
		return ""
	}
	h.Check("base multiplication", 1200, func(t *rapid.T, c *hx.C) {
		k := scalarBytes(32).Draw(t, "k")
		k[31] &= 0x7f
		c.Key("%x", k)
		c.Nontrivial(true)
		if p := base(k); p != "" {
			t.Fatal(p)
		}
	})
	h.Each("every base table entry", true, func(rec func(*hx.C)) error {
		for pos := 0; pos < 64; pos++ {
			for d := 1; d < 16; d++ {
				if pos == 63 && d > 7 {
					continue
				}
				k := make([]byte, 32)
				k[pos/2] = byte(d) << (4 * (pos % 2))
				c := &hx.C{}
				c.Key("%d*16^%d", d, pos)
				c.Nontrivial(true)
				if p := base(k); p != "" {
					return fmt.Errorf("%s", p)
				}
				rec(c)
			}
		}
		return nil
	})
	double := func(p ref.Point, a, b []byte) string {
		A, ok := load(p)
		if !ok {
			return fmt.Sprintf("%x not decoded", p.Encode())
		}
		x, y := arr(a), arr(b)
		ed.GeDoubleScalarMultVartime(&r, x, &A, y)
		if *x != *arr(a) || *y != *arr(b) || !bytes.Equal(extBytes(&A), p.Encode()) {
			return fmt.Sprintf("%x*%x + %x*B changes its arguments to %x, %x, %x", a, p.Encode(), b, *x, extBytes(&A), *y)
		}
		var o [32]byte
		r.ToBytes(&o)
		want := p.Mul(ref.FromLE(a)).Add(ref.MulBase(ref.FromLE(b))).Encode()
		if !bytes.Equal(o[:], want) {
			return fmt.Sprintf("%x*%x + %x*B is %x, want %x", a, p.Encode(), b, o, want)
		}
		return ""
	}
	h.Check("double multiplication", 800, func(t *rapid.T, c *hx.C) {
		p := pointGen().Draw(t, "point")
		a, b := scalarBytes(32).Draw(t, "a"), scalarBytes(32).Draw(t, "b")
		top := rapid.SampledFrom([]byte{0x1f, 0x1f, 0x7f}).Draw(t, "top")
		a[31] &= top
		b[31] &= top
		c.Key("%x %x %x", p.Encode(), a, b)
		c.Nontrivial(true)
		if s := double(p, a, b); s != "" {
			t.Fatal(s)
		}
	})
	h.Each("every sliding-window digit", true, func(rec func(*hx.C)) error {
		p := ref.MulBase(big.NewInt(123456789))
		for v := 0; v < 64; v++ {
			for _, w := range []int{0, 1, 31} {
				for _, ab := range [][2]int{{v, w}, {w, v}} {
					a, b := ref.LE(big.NewInt(int64(ab[0])), 32), ref.LE(big.NewInt(int64(ab[1])), 32)
					c := &hx.C{}
					c.Key("%d %d", ab[0], ab[1])
					c.Nontrivial(true)
					if s := double(p, a, b); s != "" {
						return fmt.Errorf("%s", s)
					}
					rec(c)
				}
			}
		}
		return nil
	})
}
