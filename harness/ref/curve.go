package ref

import "math/big"

// ---- Ed25519 over math/big ----

var (
	P, _ = new(big.Int).SetString("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", 16)
	L, _ = new(big.Int).SetString("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16)
	D    *big.Int
	I    *big.Int // sqrt(-1)
	B    Point
	pow2 [256]Point // 2^i * B
)

// Point is an affine Edwards point held in extended coordinates.
type Point struct{ X, Y, Z, T *big.Int }

func mod(x *big.Int) *big.Int { return x.Mod(x, P) }

func init() {
	D = mod(new(big.Int).Mul(big.NewInt(-121665), new(big.Int).ModInverse(big.NewInt(121666), P)))
	e := new(big.Int).Sub(P, big.NewInt(1))
	I = new(big.Int).Exp(big.NewInt(2), e.Rsh(e, 2), P)
	y := mod(new(big.Int).Mul(big.NewInt(4), new(big.Int).ModInverse(big.NewInt(5), P)))
	x, _ := RecoverX(y, 0)
	B = Affine(x, y)
	p := B
	for i := range pow2 {
		pow2[i] = p
		p = p.Add(p)
	}
}

// RecoverX solves the curve equation for x with the given sign bit.
func RecoverX(y *big.Int, sign uint) (*big.Int, bool) {
	y2 := mod(new(big.Int).Mul(y, y))
	u := mod(new(big.Int).Sub(y2, big.NewInt(1)))
	v := mod(new(big.Int).Add(new(big.Int).Mul(D, y2), big.NewInt(1)))
	w := mod(new(big.Int).Mul(u, new(big.Int).ModInverse(v, P)))
	x := new(big.Int).ModSqrt(w, P)
	if x == nil {
		return nil, false
	}
	if x.Bit(0) != sign {
		x = mod(new(big.Int).Neg(x))
	}
	return x, true
}

func Affine(x, y *big.Int) Point {
	return Point{new(big.Int).Set(x), new(big.Int).Set(y), big.NewInt(1), mod(new(big.Int).Mul(x, y))}
}

func Identity() Point { return Affine(big.NewInt(0), big.NewInt(1)) }

func (p Point) Add(q Point) Point {
	n := func() *big.Int { return new(big.Int) }
	a := mod(n().Mul(n().Sub(p.Y, p.X), n().Sub(q.Y, q.X)))
	b := mod(n().Mul(n().Add(p.Y, p.X), n().Add(q.Y, q.X)))
	c := mod(n().Mul(n().Mul(p.T, q.T), n().Lsh(D, 1)))
	d := mod(n().Mul(n().Lsh(p.Z, 1), q.Z))
	e, f, g, h := n().Sub(b, a), n().Sub(d, c), n().Add(d, c), n().Add(b, a)
	return Point{mod(n().Mul(e, f)), mod(n().Mul(g, h)), mod(n().Mul(f, g)), mod(n().Mul(e, h))}
}

func (p Point) Neg() Point {
	return Point{mod(new(big.Int).Neg(p.X)), p.Y, p.Z, mod(new(big.Int).Neg(p.T))}
}

func (p Point) XY() (x, y *big.Int) {
	zi := new(big.Int).ModInverse(p.Z, P)
	return mod(new(big.Int).Mul(p.X, zi)), mod(new(big.Int).Mul(p.Y, zi))
}

func (p Point) Encode() []byte {
	x, y := p.XY()
	out := LE(y, 32)
	out[31] |= byte(x.Bit(0)) << 7
	return out
}

// Mul multiplies by a non-negative integer.
func (p Point) Mul(k *big.Int) Point {
	r := Identity()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.Add(r)
		if k.Bit(i) == 1 {
			r = r.Add(p)
		}
	}
	return r
}

// MulBase multiplies the base point by a non-negative integer < 2^256.
func MulBase(k *big.Int) Point {
	r := Identity()
	for i := 0; i < k.BitLen(); i++ {
		if k.Bit(i) == 1 {
			r = r.Add(pow2[i])
		}
	}
	return r
}

// FromLE / LE convert little-endian byte strings.
func FromLE(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func LE(n *big.Int, size int) []byte {
	out := make([]byte, size)
	be := n.Bytes()
	for i := range be {
		out[len(be)-1-i] = be[i]
	}
	return out
}
