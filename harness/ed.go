package vh

import (
	"crypto/sha512"
	"math/big"
)

// Reference Ed25519 on integers modulo p, in affine form.
var (
	P, _  = new(big.Int).SetString("57896044618658097711785492504343953926634992332820282019728792003956564819949", 10)
	L, _  = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
	D     = mod(new(big.Int).Mul(big.NewInt(-121665), inv(big.NewInt(121666))))
	BaseY = mod(new(big.Int).Mul(big.NewInt(4), inv(big.NewInt(5))))
	BaseX = recoverX(BaseY, 0)
)

func mod(x *big.Int) *big.Int { return new(big.Int).Mod(x, P) }
func inv(x *big.Int) *big.Int { return new(big.Int).ModInverse(mod(x), P) }
func mul(xs ...*big.Int) *big.Int {
	r := big.NewInt(1)
	for _, x := range xs {
		r = mod(r.Mul(r, x))
	}
	return r
}
func add(a, b *big.Int) *big.Int { return mod(new(big.Int).Add(a, b)) }
func sub(a, b *big.Int) *big.Int { return mod(new(big.Int).Sub(a, b)) }

func recoverX(y *big.Int, sign uint) *big.Int {
	one := big.NewInt(1)
	x2 := mul(sub(mul(y, y), one), inv(add(mul(D, y, y), one)))
	x := new(big.Int).ModSqrt(x2, P)
	if x == nil {
		return nil
	}
	if x.Bit(0) != sign {
		x = sub(P, x)
	}
	return x
}

// Pt is a point; X = x/z, Y = y/z, T = xy/z.
type Pt struct{ X, Y, Z, T *big.Int }

func Affine(x, y *big.Int) Pt { return Pt{x, y, big.NewInt(1), mul(x, y)} }
func Zero() Pt                { return Affine(big.NewInt(0), big.NewInt(1)) }
func Base() Pt                { return Affine(BaseX, BaseY) }

// Add is the complete twisted Edwards addition (a = -1).
func Add(p, q Pt) Pt {
	a := mul(p.X, q.X)
	b := mul(p.Y, q.Y)
	c := mul(D, p.T, q.T)
	d := mul(p.Z, q.Z)
	e := sub(sub(mul(add(p.X, p.Y), add(q.X, q.Y)), a), b)
	f, g, h := sub(d, c), add(d, c), add(b, a)
	return Pt{mul(e, f), mul(g, h), mul(f, g), mul(e, h)}
}

func (p Pt) XY() (x, y *big.Int) {
	zi := inv(p.Z)
	return mul(p.X, zi), mul(p.Y, zi)
}

func (p Pt) Neg() Pt { return Pt{sub(P, p.X), p.Y, p.Z, sub(P, p.T)} }

func ScalarMult(k *big.Int, p Pt) Pt {
	r := Zero()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = Add(r, r)
		if k.Bit(i) == 1 {
			r = Add(r, p)
		}
	}
	return r
}

func Encode(p Pt) []byte {
	x, y := p.XY()
	b := LE(y, 32)
	b[31] |= byte(x.Bit(0)) << 7
	return b
}

// LE is the little-endian form in n bytes.
func LE(v *big.Int, n int) []byte {
	b := make([]byte, n)
	for i, x := range v.Bytes() {
		b[len(v.Bytes())-1-i] = x
	}
	return b
}

func FromLE(b []byte) *big.Int {
	c := make([]byte, len(b))
	for i := range b {
		c[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(c)
}

// PublicKey of the scalar in the first 32 bytes.
func PublicKey(k []byte) []byte { return Encode(ScalarMult(FromLE(k[:32]), Base())) }

// Sign with an extended key of 64 bytes or more.
func Sign(k, msg []byte) []byte {
	a := PublicKey(k)
	h1 := sha512.Sum512(Cat(k[32:64], msg))
	r := new(big.Int).Mod(FromLE(h1[:]), L)
	rb := Encode(ScalarMult(r, Base()))
	h2 := sha512.Sum512(Cat(rb, a, msg))
	s := new(big.Int).Mul(FromLE(h2[:]), FromLE(k[:32]))
	s.Add(s, r)
	s.Mod(s, L)
	return Cat(rb, LE(s, 32))
}

// Item is the length of the first CBOR item in b, -1 if there is none.
func Item(b []byte) int {
	if len(b) == 0 {
		return -1
	}
	m, a := b[0]>>5, int(b[0]&31)
	n, v := 1, uint64(a)
	if a >= 24 && a < 28 {
		k := 1 << uint(a-24)
		if len(b) < 1+k {
			return -1
		}
		v = 0
		for _, x := range b[1 : 1+k] {
			v = v<<8 | uint64(x)
		}
		n = 1 + k
	} else if a >= 28 {
		return -1
	}
	items := uint64(0)
	switch m {
	case 2, 3:
		if v > uint64(len(b)-n) {
			return -1
		}
		return n + int(v)
	case 4:
		items = v
	case 5:
		items = 2 * v
	case 6:
		items = 1
	}
	if items > uint64(len(b)) {
		return -1
	}
	for ; items > 0; items-- {
		k := Item(b[n:])
		if k < 0 {
			return -1
		}
		n += k
	}
	return n
}
