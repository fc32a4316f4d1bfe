package crypto

import (
	"bytes"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"
	"reflect"
	"testing"

	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/crypto"
	ed "github.com/fivebinaries/go-cardano-serialization/crypto/edwards25519"
	"github.com/fivebinaries/go-cardano-serialization/zzverif/vh"
	"golang.org/x/crypto/blake2b"
)

// pat draws n bytes, often from patterns that produce long carries.
func pat(h *vh.H, n int) []byte {
	b := h.Bytes(n)
	switch h.R.Intn(6) {
	case 0:
		p := []byte{0, 0xff, 0x7f, 0x80, 0x88, 0x77, 0x08, 0x78, 0x87, 1}[h.R.Intn(10)]
		for i := range b {
			b[i] = p
		}
		if n > 0 {
			b[h.R.Intn(n)] = byte(h.R.Intn(256))
		}
	case 1:
		for i := range b {
			b[i] = []byte{0, 0xff}[h.R.Intn(2)]
		}
	case 2:
		for i := range b {
			b[i] = b[i]&0x77 | 0x88*byte(h.R.Intn(2))
		}
	}
	return b
}

func clone(b []byte) []byte { return append([]byte{}, b...) }

// ---------------------------------------------------------------- C16
func pbkdf2(pw, salt []byte, iter, n int) []byte {
	var out []byte
	for blk := uint32(1); len(out) < n; blk++ {
		m := hmac.New(sha512.New, pw)
		var i [4]byte
		binary.BigEndian.PutUint32(i[:], blk)
		m.Write(salt)
		m.Write(i[:])
		u := m.Sum(nil)
		t := clone(u)
		for k := 1; k < iter; k++ {
			m.Reset()
			m.Write(u)
			u = m.Sum(nil)
			for j := range t {
				t[j] ^= u[j]
			}
		}
		out = append(out, t...)
	}
	return out[:n]
}

func fix(b []byte) []byte {
	b = clone(b)
	b[0] &= 0xf8
	b[31] = b[31]&0x1f | 0x40
	return b
}

func TestC16(t *testing.T) {
	h := vh.New(t, "C16")
	for n := 0; n < 130; n++ {
		s := h.Bytes(n)
		h.Case(fmt.Sprintf("seed of %d bytes", n), func() {
			k, err := bip32.NewXPrv(s)
			if n != 32 && err == nil {
				h.Fail(fmt.Sprintf("seed of %d bytes accepted", n), hex.EncodeToString(s))
			}
			if n == 32 && (err != nil || len(k) != 96) {
				h.Fail("seed of 32 bytes rejected", hex.EncodeToString(s))
			}
		})
	}
	seeds := h.HintBytes("seed")
	for i := 0; i < h.N(8000); i++ {
		seeds = append(seeds, pat(h, 32))
	}
	for i, s := range seeds {
		if h.Done() || len(s) != 32 {
			continue
		}
		if i%3 == 0 { // spare capacity
			s = append(make([]byte, 0, 200), s...)
		}
		in := hex.EncodeToString(s)
		h.Case(in, func() {
			c := clone(s[:cap(s)])
			k, err := bip32.NewXPrv(s)
			if err != nil {
				h.Fail(err.Error(), in)
				return
			}
			a := sha512.Sum512(s)
			b := sha256.Sum256(append([]byte{1}, s...))
			if w := vh.Cat(fix(a[:]), b[:]); !bytes.Equal(k, w) {
				h.Fail(fmt.Sprintf("root key %x, want %x", []byte(k), w), in)
			}
			if !bytes.Equal(c, s[:cap(s)]) {
				h.Fail("the seed changed", in)
			}
		})
	}
	for i := 0; i < h.N(70) && !h.Done(); i++ {
		e, p := h.Bytes([]int{0, 16, 20, 24, 28, 32, h.R.Intn(70)}[h.R.Intn(7)]), h.Bytes([]int{0, 0, 1, 8, 64, 127, 128, 129, 200}[h.R.Intn(9)])
		in := fmt.Sprintf("entropy %x, passphrase %x", e, p)
		h.Case(in, func() {
			e1, p1 := clone(e), clone(p)
			k := bip32.FromBip39Entropy(e1, p1)
			if w := fix(pbkdf2(p, e, 4096, 96)); !bytes.Equal(k, w) {
				h.Fail(fmt.Sprintf("root key %x, want %x", []byte(k), w), in)
			}
			if !bytes.Equal(e, e1) || !bytes.Equal(p, p1) {
				h.Fail("entropy or passphrase changed", in)
			}
		})
	}
	for i := 0; i < h.N(3000) && !h.Done(); i++ {
		b := pat(h, 96)
		h.Case(hex.EncodeToString(b), func() {
			if k := bip32.NormalizeBytesForce3rd(clone(b)); !bytes.Equal(k, fix(b)) {
				h.Fail(fmt.Sprintf("normalized %x, want %x", []byte(k), fix(b)), hex.EncodeToString(b))
			}
		})
	}
}

// ---------------------------------------------------------------- C17
func mac(k []byte, ps ...[]byte) []byte {
	m := hmac.New(sha512.New, k)
	for _, p := range ps {
		m.Write(p)
	}
	return m.Sum(nil)
}

func derive(k []byte, ix uint32) []byte {
	i := make([]byte, 4)
	binary.LittleEndian.PutUint32(i, ix)
	var z, c []byte
	if ix >= 1<<31 {
		z, c = mac(k[64:96], []byte{0}, k[:64], i), mac(k[64:96], []byte{1}, k[:64], i)
	} else {
		p := vh.PublicKey(k)
		z, c = mac(k[64:96], []byte{2}, p, i), mac(k[64:96], []byte{3}, p, i)
	}
	m := new(big.Int).Lsh(big.NewInt(1), 256)
	l := new(big.Int).Lsh(vh.FromLE(z[:28]), 3)
	l.Add(l, vh.FromLE(k[:32]))
	r := new(big.Int).Add(vh.FromLE(z[32:]), vh.FromLE(k[32:64]))
	return vh.Cat(vh.LE(l.Mod(l, m), 32), vh.LE(r.Mod(r, m), 32), c[32:])
}

func index(h *vh.H) uint32 {
	switch h.R.Intn(4) {
	case 0:
		return h.R.Uint32() | 1<<31
	case 1:
		return h.R.Uint32() &^ (1 << 31)
	case 2:
		return uint32(h.R.Intn(20)) | uint32(h.R.Intn(2))<<31
	}
	return []uint32{0, 1, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1852 | 1<<31, 1815 | 1<<31, 0x01020304, 0x81020304}[h.R.Intn(10)]
}

func xkey(h *vh.H) []byte {
	k := vh.Cat(pat(h, 32), pat(h, 32), pat(h, 32))
	switch h.R.Intn(3) {
	case 0:
		k = fix(k)
	case 1:
		k[31] &= 0x7f
		k[0] &= 0xf8
	}
	return k
}

func TestC17(t *testing.T) {
	h := vh.New(t, "C17")
	test := func(k []byte, ix uint32) (child []byte) {
		in := fmt.Sprintf("key %x index %d", k, ix)
		h.Case(in, func() {
			if ix < 1<<31 {
				k[31] &= 0x7f
			}
			p := append(make([]byte, 0, 96+h.R.Intn(3)*100), k...)
			all := clone(p[:cap(p)])
			c := bip32.XPrv(p).Derive(ix)
			if w := derive(k, ix); !bytes.Equal(c, w) {
				h.Fail(fmt.Sprintf("child %x, want %x", []byte(c), w), in)
			}
			if !bytes.Equal(all, p[:cap(p)]) {
				h.Fail("deriving changed the parent", in)
			}
			if k[0]&7 == 0 && len(c) == 96 && c[0]&7 != 0 {
				h.Fail("child is not a multiple of 8", in)
			}
			if c2 := bip32.XPrv(p).Derive(ix); !bytes.Equal(c, c2) {
				h.Fail("deriving again gives another child", in)
			}
			if len(c) == 96 && !bytes.Equal(c.ChainCode(), derive(k, ix)[64:]) {
				h.Fail("chain code", in)
			}
			child = c
		})
		return
	}
	for _, k := range h.HintBytes("key") {
		if len(k) == 96 {
			for _, ix := range append(h.HintUints("index"), 0, 1<<31) {
				test(k, uint32(ix))
			}
		}
	}
	for i := 0; i < h.N(6000) && !h.Done(); i++ {
		test(xkey(h), index(h)|1<<31)
	}
	for i := 0; i < h.N(350) && !h.Done(); i++ {
		test(xkey(h), index(h)&^(1<<31))
	}
	for i := 0; i < h.N(25) && !h.Done(); i++ { // paths
		k := fix(h.Bytes(96))
		w := clone(k)
		for _, ix := range []uint32{1852 | 1<<31, 1815 | 1<<31, uint32(i) | 1<<31, uint32(i % 3), uint32(i)} {
			w = derive(w, ix)
			if k = test(k, ix); len(k) != 96 {
				break
			}
		}
		if !bytes.Equal(k, w) {
			h.Fail("key at the end of a path", hex.EncodeToString(w))
		}
	}
}

// ---------------------------------------------------------------- C18
func scalars(h *vh.H) [][]byte {
	var out [][]byte
	for _, s := range h.HintBytes("a", "key", "scalar") {
		if len(s) >= 32 {
			out = append(out, s[:32])
		}
	}
	one := big.NewInt(1)
	for _, v := range []*big.Int{big.NewInt(0), one, big.NewInt(2), big.NewInt(8), big.NewInt(15), big.NewInt(16), vh.L, new(big.Int).Sub(vh.L, one),
		new(big.Int).Add(vh.L, one), new(big.Int).Lsh(vh.L, 2), new(big.Int).Sub(new(big.Int).Lsh(one, 255), one)} {
		out = append(out, vh.LE(v, 32))
	}
	for i := 0; i < 64; i++ { // every digit position and value
		for _, v := range []byte{1, 7, 8, 9, 15} {
			if i == 63 && v > 7 {
				continue
			}
			s := make([]byte, 32)
			s[i/2] = v << uint(4*(i%2))
			out = append(out, s)
		}
	}
	for i := 0; i < h.N(500); i++ {
		s := pat(h, 32)
		s[31] &= 0x7f
		out = append(out, s)
	}
	return out
}

func TestC18(t *testing.T) {
	h := vh.New(t, "C18")
	for _, s := range scalars(h) {
		if h.Done() {
			break
		}
		k := vh.Cat(s, h.Bytes(64))
		in := hex.EncodeToString(k)
		h.Case(in, func() {
			p := append(make([]byte, 0, 96+h.R.Intn(2)*50), k...)
			all := clone(p[:cap(p)])
			x := bip32.XPrv(p).Public()
			pk := vh.PublicKey(s)
			if !bytes.Equal(x, vh.Cat(pk, k[64:])) {
				h.Fail(fmt.Sprintf("public key %x, want %x and the chain code", []byte(x), pk), in)
			}
			if len(x) == 64 && (!bytes.Equal(x.PublicKey(), pk) || !bytes.Equal(x.ChainCode(), k[64:])) {
				h.Fail("parts of the public key", in)
			}
			m := bip32.MakePublicKey(p[:64])
			if !bytes.Equal(m[:], pk) {
				h.Fail(fmt.Sprintf("MakePublicKey gives %x, want %x", m, pk), in)
			}
			var a [32]byte
			copy(a[:], s)
			var g ed.ExtendedGroupElement
			ed.GeScalarMultBase(&g, &a)
			g.ToBytes(&a)
			if !bytes.Equal(a[:], pk) {
				h.Fail(fmt.Sprintf("multiple of the base point %x, want %x", a, pk), in)
			}
			if !bytes.Equal(all, p[:cap(p)]) {
				h.Fail("the key changed", in)
			}
		})
	}
}

// ---------------------------------------------------------------- C19
func TestC19(t *testing.T) {
	h := vh.New(t, "C19")
	test := func(k, m []byte) {
		k[31] &= 0x7f
		in := fmt.Sprintf("key %x message %x", k, m)
		h.Case(in, func() {
			p := append(make([]byte, 0, 96+h.R.Intn(2)*50), k...)
			q := append(make([]byte, 0, len(m)+h.R.Intn(2)*50), m...)
			x := bip32.XPrv(p)
			ap, aq := clone(p[:cap(p)]), clone(q[:cap(q)])
			s := x.Sign(q)
			if w := vh.Sign(k, m); !bytes.Equal(w, s[:]) {
				h.Fail(fmt.Sprintf("signature %x, want %x", s, w), in)
			}
			if !ed25519.Verify(vh.PublicKey(k), m, s[:]) {
				h.Fail("signature does not verify", in)
			}
			if v := vh.FromLE(s[32:]); v.Cmp(vh.L) >= 0 {
				h.Fail("second half is not canonical", in)
			}
			if s2 := x.Sign(q); s2 != s {
				h.Fail("signing again gives another signature", in)
			}
			if !bytes.Equal(ap, p[:cap(p)]) || !bytes.Equal(aq, q[:cap(q)]) || len(x) != 96 {
				h.Fail("signing changed the key or the message", in)
			}
		})
	}
	for _, k := range h.HintBytes("key") {
		if len(k) == 96 {
			test(k, []byte("message"))
		}
	}
	for i := 0; i < h.N(330) && !h.Done(); i++ {
		k := h.Bytes(96)
		if h.R.Intn(2) == 0 {
			k = fix(k)
		} else {
			k = xkey(h)
		}
		test(k, h.Bytes([]int{0, 1, 32, 32, 63, 64, 100, 127, 128, 129, h.R.Intn(400), 2000}[h.R.Intn(12)]))
	}
	for _, s := range scalars(h)[:11] {
		test(vh.Cat(s, h.Bytes(64)), h.Bytes(32))
	}
}

// ---------------------------------------------------------------- C20
func arr(b []byte) *[32]byte {
	var a [32]byte
	copy(a[:], b)
	return &a
}

func near(h *vh.H, n int) []byte {
	if h.R.Intn(3) > 0 {
		return pat(h, n)
	}
	// close to a multiple of L
	m := new(big.Int).Lsh(big.NewInt(1), uint(8*n))
	k := new(big.Int).Rand(h.R, new(big.Int).Div(m, vh.L))
	if h.R.Intn(2) == 0 {
		k.SetInt64(int64(h.R.Intn(16)))
	}
	v := new(big.Int).Mul(k, vh.L)
	v.Add(v, big.NewInt(int64(h.R.Intn(5)-2)))
	if v.Sign() < 0 {
		v.SetInt64(0)
	}
	return vh.LE(v.Mod(v, m), n)
}

func TestC20(t *testing.T) {
	h := vh.New(t, "C20")
	muladd := func(a, b, c []byte) {
		in := fmt.Sprintf("%x * %x + %x", a, b, c)
		h.Case(in, func() {
			w := new(big.Int).Mul(vh.FromLE(a), vh.FromLE(b))
			w.Add(w, vh.FromLE(c))
			w.Mod(w, vh.L)
			var s [32]byte
			x, y, z := arr(a), arr(b), arr(c)
			ed.ScMulAdd(&s, x, y, z)
			if !bytes.Equal(s[:], vh.LE(w, 32)) {
				h.Fail(fmt.Sprintf("gives %x, want %x", s, vh.LE(w, 32)), in)
			}
			if !bytes.Equal(x[:], a) || !bytes.Equal(y[:], b) || !bytes.Equal(z[:], c) {
				h.Fail("operand changed", in)
			}
		})
	}
	reduce := func(a []byte) {
		in := hex.EncodeToString(a)
		h.Case(in, func() {
			w := new(big.Int).Mod(vh.FromLE(a), vh.L)
			var s [32]byte
			var x [64]byte
			copy(x[:], a)
			ed.ScReduce(&s, &x)
			if !bytes.Equal(s[:], vh.LE(w, 32)) {
				h.Fail(fmt.Sprintf("reduced to %x, want %x", s, vh.LE(w, 32)), in)
			}
			if !bytes.Equal(x[:], a) {
				h.Fail("operand changed", in)
			}
		})
	}
	for _, x := range h.Hints {
		_ = x
	}
	as, bs, cs := h.HintBytes("a"), h.HintBytes("b"), h.HintBytes("c")
	for i := range as {
		if i < len(bs) && i < len(cs) && len(as[i]) == 32 {
			muladd(as[i], bs[i], cs[i])
		}
	}
	for _, s := range h.HintBytes("s") {
		if len(s) == 64 {
			reduce(s)
		}
	}
	ext := [][]byte{make([]byte, 32), bytes.Repeat([]byte{0xff}, 32), vh.LE(big.NewInt(1), 32), vh.LE(vh.L, 32), vh.LE(new(big.Int).Sub(vh.L, big.NewInt(1)), 32),
		vh.LE(new(big.Int).Lsh(big.NewInt(1), 252), 32), vh.LE(new(big.Int).Lsh(big.NewInt(1), 255), 32)}
	for _, a := range ext {
		for _, b := range ext {
			for _, c := range ext {
				muladd(a, b, c)
			}
			reduce(vh.Cat(a, b))
		}
	}
	for i := 0; i < h.N(60000) && !h.Done(); i++ {
		muladd(near(h, 32), near(h, 32), near(h, 32))
	}
	for i := 0; i < h.N(60000) && !h.Done(); i++ {
		reduce(near(h, 64))
	}
	for i := 0; i < 512; i++ {
		reduce(vh.LE(new(big.Int).Lsh(big.NewInt(1), uint(i)), 64))
	}
	for i := 0; i < 256; i++ {
		muladd(vh.LE(new(big.Int).Lsh(big.NewInt(1), uint(i)), 32), bytes.Repeat([]byte{0xff}, 32), make([]byte, 32))
		muladd(make([]byte, 32), bytes.Repeat([]byte{0xff}, 32), vh.LE(new(big.Int).Lsh(big.NewInt(1), uint(i)), 32))
	}
	for i := 0; i < h.N(3000); i++ {
		a := near(h, 32)
		h.Case("minimal "+hex.EncodeToString(a), func() {
			if ed.ScMinimal(arr(a)) != (vh.FromLE(a).Cmp(vh.L) < 0) {
				h.Fail("ScMinimal", hex.EncodeToString(a))
			}
		})
	}
}

// ---------------------------------------------------------------- C21
var pos = [10]uint{0, 26, 51, 77, 102, 128, 153, 179, 204, 230}

func val(f *ed.FieldElement) *big.Int {
	v := new(big.Int)
	for i, x := range f {
		v.Add(v, new(big.Int).Lsh(big.NewInt(int64(x)), pos[i]))
	}
	return v
}

func norm(v *big.Int) *big.Int { return new(big.Int).Mod(v, vh.P) }

// limbs draws a field element with limbs up to num/100 of 2^25 and 2^24.
func limbs(h *vh.H, num int64) *ed.FieldElement {
	var f ed.FieldElement
	m := h.R.Intn(5)
	sg := int64(1 - 2*h.R.Intn(2))
	for i := range f {
		b := num << 25 / 100
		if i%2 == 1 {
			b = num << 24 / 100
		}
		switch m {
		case 0, 1:
			f[i] = int32(h.R.Int63n(2*b+1) - b)
		case 2:
			f[i] = int32(sg * b)
		case 3:
			f[i] = int32(b * int64(h.R.Intn(3)-1))
		case 4:
			f[i] = int32(h.R.Intn(3) - 1)
		}
	}
	return &f
}

func bounded(f *ed.FieldElement, num int64) bool {
	for i, x := range f {
		b := num << 25 / 100
		if i%2 == 1 {
			b = num << 24 / 100
		}
		if int64(x) > b || int64(x) < -b {
			return false
		}
	}
	return true
}

func TestC21(t *testing.T) {
	h := vh.New(t, "C21")
	check := func(name string, got *ed.FieldElement, want *big.Int, bound int64, in string) {
		if norm(val(got)).Cmp(norm(want)) != 0 {
			h.Fail(fmt.Sprintf("%s gives %v, want %v modulo p", name, *got, norm(want)), in)
		}
		if bound > 0 && !bounded(got, bound) {
			h.Fail(fmt.Sprintf("%s: result %v exceeds the bounds", name, *got), in)
		}
	}
	for i := 0; i < h.N(40000) && !h.Done(); i++ {
		f, g := limbs(h, 220), limbs(h, 220)
		s, u := limbs(h, 110), limbs(h, 110)
		q := limbs(h, 330)
		in := fmt.Sprint(*f, *g, *s, *u, *q)
		h.Case(in, func() {
			f0, g0, s0, u0, q0 := *f, *g, *s, *u, *q
			var o ed.FieldElement
			vf, vg, vs, vu, vq := val(f), val(g), val(s), val(u), val(q)
			ed.FeAdd(&o, s, u)
			check("FeAdd", &o, new(big.Int).Add(vs, vu), 220, in)
			ed.FeSub(&o, s, u)
			check("FeSub", &o, new(big.Int).Sub(vs, vu), 220, in)
			ed.FeNeg(&o, s)
			check("FeNeg", &o, new(big.Int).Neg(vs), 110, in)
			ed.FeMul(&o, f, g)
			check("FeMul", &o, new(big.Int).Mul(vf, vg), 110, in)
			ed.FeSquare(&o, f)
			check("FeSquare", &o, new(big.Int).Mul(vf, vf), 110, in)
			ed.FeSquare2(&o, q)
			w := new(big.Int).Mul(vq, vq)
			check("FeSquare2", &o, w.Add(w, w), 110, in)
			ed.FeCopy(&o, f)
			if o != *f {
				h.Fail("FeCopy", in)
			}
			b := int32(h.R.Intn(2))
			ed.FeCMove(&o, g, b)
			if b == 1 && o != *g || b == 0 && o != *f {
				h.Fail(fmt.Sprintf("FeCMove with %d", b), in)
			}
			if *f != f0 || *g != g0 || *s != s0 || *u != u0 || *q != q0 {
				h.Fail("operand changed", in)
			}
			// overlapping operands
			x := *f
			ed.FeMul(&x, &x, g)
			check("FeMul in place", &x, new(big.Int).Mul(vf, vg), 110, in)
			x = *g
			ed.FeMul(&x, f, &x)
			check("FeMul in place", &x, new(big.Int).Mul(vf, vg), 110, in)
			x = *f
			ed.FeMul(&x, &x, &x)
			check("FeMul in place", &x, new(big.Int).Mul(vf, vf), 110, in)
			x = *f
			ed.FeSquare(&x, &x)
			check("FeSquare in place", &x, new(big.Int).Mul(vf, vf), 110, in)
			x = *q
			ed.FeSquare2(&x, &x)
			check("FeSquare2 in place", &x, w, 110, in)
			x = *s
			ed.FeAdd(&x, &x, u)
			check("FeAdd in place", &x, new(big.Int).Add(vs, vu), 220, in)
			x = *u
			ed.FeSub(&x, s, &x)
			check("FeSub in place", &x, new(big.Int).Sub(vs, vu), 220, in)
			x = *s
			ed.FeNeg(&x, &x)
			check("FeNeg in place", &x, new(big.Int).Neg(vs), 110, in)
			// encoding
			var e [32]byte
			x = *s
			ed.FeToBytes(&e, &x)
			if !bytes.Equal(e[:], vh.LE(norm(vs), 32)) {
				h.Fail(fmt.Sprintf("FeToBytes gives %x, want %x", e, vh.LE(norm(vs), 32)), in)
			}
			x = *s
			if ed.FeIsNegative(&x) != byte(norm(vs).Bit(0)) {
				h.Fail("FeIsNegative", in)
			}
			x = *s
			if (ed.FeIsNonZero(&x) == 1) != (norm(vs).Sign() != 0) {
				h.Fail("FeIsNonZero", in)
			}
			ed.FeFromBytes(&x, &e)
			check("FeFromBytes", &x, vs, 110, in)
		})
	}
	enc := func(e []byte) {
		in := hex.EncodeToString(e)
		h.Case(in, func() {
			var x ed.FieldElement
			ed.FeFromBytes(&x, arr(e))
			v := vh.FromLE(e)
			v.SetBit(v, 255, 0)
			check("FeFromBytes", &x, v, 110, in)
			var o [32]byte
			ed.FeToBytes(&o, &x)
			if !bytes.Equal(o[:], vh.LE(norm(v), 32)) {
				h.Fail(fmt.Sprintf("encoding %x, want %x", o, vh.LE(norm(v), 32)), in)
			}
			ed.FeFromBytes(&x, arr(e))
			if (ed.FeIsNonZero(&x) != 0) != (norm(v).Sign() != 0) {
				h.Fail("FeIsNonZero", in)
			}
		})
	}
	for i := -40; i < 40; i++ { // around 0 and p
		v := new(big.Int).Add(vh.P, big.NewInt(int64(i)))
		enc(vh.LE(v, 32))
		if i >= 0 {
			enc(vh.LE(big.NewInt(int64(i)), 32))
		}
		enc(vh.LE(new(big.Int).SetBit(v, 255, 1), 32))
		// not reduced: p + i and 0 + i with limbs of both signs
		for k := 0; k < 30; k++ {
			var f ed.FieldElement
			w := big.NewInt(int64(i))
			if k%3 == 1 {
				w.Add(w, vh.P)
			} else if k%3 == 2 {
				w.Sub(w, vh.P)
			}
			ww := new(big.Int).Set(w)
			sg := w.Sign()
			w.Abs(w)
			for j := 9; j >= 0; j-- {
				q := new(big.Int).Rsh(w, pos[j])
				f[j] = int32(q.Int64()) * int32(sg)
				w.Sub(w, q.Lsh(q, pos[j]))
			}
			for j := 0; j < 9; j++ { // move between limbs
				if h.R.Intn(2) == 0 {
					d := int32(1)
					if f[j] < 0 {
						d = -1
					}
					f[j] -= d << (pos[j+1] - pos[j])
					f[j+1] += d
				}
			}
			if !bounded(&f, 110) || f[9] > 1<<24+1<<20 || val(&f).Cmp(ww) != 0 {
				continue
			}
			h.Case(fmt.Sprint(f), func() {
				var o [32]byte
				g := f
				ed.FeToBytes(&o, &g)
				if !bytes.Equal(o[:], vh.LE(norm(ww), 32)) {
					h.Fail(fmt.Sprintf("encoding %x, want %x", o, vh.LE(norm(ww), 32)), fmt.Sprint(f))
				}
			})
		}
	}
	for i := 0; i < h.N(3000) && !h.Done(); i++ {
		enc(pat(h, 32))
	}
	for i := 0; i < h.N(400) && !h.Done(); i++ {
		f := limbs(h, 110)
		in := fmt.Sprint(*f)
		h.Case("inverse "+in, func() {
			var o ed.FieldElement
			f0 := *f
			ed.FeInvert(&o, f)
			w := new(big.Int).Exp(norm(val(f)), new(big.Int).Sub(vh.P, big.NewInt(2)), vh.P)
			check("FeInvert", &o, w, 110, in)
			if *f != f0 {
				h.Fail("FeInvert changed its operand", in)
			}
			x := *f
			ed.FeInvert(&x, &x)
			check("FeInvert in place", &x, w, 110, in)
		})
	}
	var z ed.FieldElement
	z = *limbs(h, 110)
	ed.FeZero(&z)
	if z != (ed.FieldElement{}) {
		h.Fail("FeZero", z)
	}
	z = *limbs(h, 110)
	ed.FeOne(&z)
	if z != (ed.FieldElement{1}) {
		h.Fail("FeOne", z)
	}
}

// ---------------------------------------------------------------- C22
func fe(h *vh.H, v *big.Int) ed.FieldElement {
	v = norm(v)
	if h.R.Intn(2) == 0 { // the same value, limbs of both signs
		v = new(big.Int).Sub(v, vh.P)
	}
	var f ed.FieldElement
	c := new(big.Int).Set(v)
	for i := 0; i < 10; i++ {
		w := uint(26 - i%2)
		m := new(big.Int).Lsh(big.NewInt(1), w)
		r := new(big.Int).Mod(c, m)
		if r.Bit(int(w-1)) == 1 && i < 9 {
			r.Sub(r, m)
		}
		if i == 9 {
			r.Set(c)
		}
		f[i] = int32(r.Int64())
		c.Sub(c, r)
		c.Rsh(c, w)
	}
	return f
}

// point draws a point of the curve: any, of small order, or special.
func point(h *vh.H) vh.Pt {
	var q vh.Pt
	for {
		y := new(big.Int).Rand(h.R, vh.P)
		x := recover_(y)
		if x != nil {
			q = vh.Affine(x, y)
			break
		}
	}
	switch h.R.Intn(8) {
	case 0:
		return vh.Zero()
	case 1: // order dividing 8
		return vh.ScalarMult(vh.L, q)
	case 2:
		return vh.Base()
	case 3:
		return vh.ScalarMult(big.NewInt(int64(h.R.Intn(20))), vh.Base())
	}
	return q
}

func recover_(y *big.Int) *big.Int {
	one := big.NewInt(1)
	yy := norm(new(big.Int).Mul(y, y))
	n := new(big.Int).Sub(yy, one)
	d := norm(new(big.Int).Add(new(big.Int).Mul(vh.D, yy), one))
	x := new(big.Int).ModSqrt(norm(n.Mul(n, new(big.Int).ModInverse(d, vh.P))), vh.P)
	return x
}

// scaled gives other coordinates of the same point.
func scaled(h *vh.H, p vh.Pt) (x, y, z, t *big.Int) {
	ax, ay := p.XY()
	k := new(big.Int).Rand(h.R, vh.P)
	if k.Sign() == 0 || h.R.Intn(4) == 0 {
		k.SetInt64(1)
	}
	return norm(new(big.Int).Mul(ax, k)), norm(new(big.Int).Mul(ay, k)), k, norm(new(big.Int).Mul(new(big.Int).Mul(ax, ay), k))
}

func ext(h *vh.H, p vh.Pt) ed.ExtendedGroupElement {
	x, y, z, t := scaled(h, p)
	return ed.ExtendedGroupElement{X: fe(h, x), Y: fe(h, y), Z: fe(h, z), T: fe(h, t)}
}

func frac(a, b *ed.FieldElement) *big.Int {
	n := norm(val(b))
	if n.Sign() == 0 {
		return big.NewInt(-1)
	}
	return norm(new(big.Int).Mul(val(a), new(big.Int).ModInverse(n, vh.P)))
}

func TestC22(t *testing.T) {
	h := vh.New(t, "C22")
	is := func(what string, x, y *big.Int, w vh.Pt, in string) {
		wx, wy := w.XY()
		if x.Cmp(wx) != 0 || y.Cmp(wy) != 0 {
			h.Fail(fmt.Sprintf("%s gives (%v, %v), want (%v, %v)", what, x, y, wx, wy), in)
		}
	}
	isExt := func(what string, e *ed.ExtendedGroupElement, w vh.Pt, in string) {
		is(what, frac(&e.X, &e.Z), frac(&e.Y, &e.Z), w, in)
		a, b := new(big.Int).Mul(val(&e.X), val(&e.Y)), new(big.Int).Mul(val(&e.Z), val(&e.T))
		if norm(a).Cmp(norm(b)) != 0 {
			h.Fail(what+": the product coordinate is wrong", in)
		}
	}
	for i := 0; i < h.N(700) && !h.Done(); i++ {
		p := point(h)
		e := ext(h, p)
		in := fmt.Sprint(e)
		h.Case(in, func() {
			e0 := e
			var c ed.CompletedGroupElement
			var pr ed.ProjectiveGroupElement
			var x ed.ExtendedGroupElement
			dbl := vh.Add(p, p)
			e.Double(&c)
			is("Extended.Double", frac(&c.X, &c.Z), frac(&c.Y, &c.T), dbl, in)
			c.ToExtended(&x)
			isExt("Completed.ToExtended", &x, dbl, in)
			c.ToProjective(&pr)
			is("Completed.ToProjective", frac(&pr.X, &pr.Z), frac(&pr.Y, &pr.Z), dbl, in)
			pr.Double(&c)
			is("Projective.Double", frac(&c.X, &c.Z), frac(&c.Y, &c.T), vh.Add(dbl, dbl), in)
			e.ToProjective(&pr)
			is("Extended.ToProjective", frac(&pr.X, &pr.Z), frac(&pr.Y, &pr.Z), p, in)
			var s [32]byte
			e1 := e
			e1.ToBytes(&s)
			w := vh.Encode(p)
			if !bytes.Equal(s[:], w) {
				h.Fail(fmt.Sprintf("Extended.ToBytes gives %x, want %x", s, w), in)
			}
			pr.ToBytes(&s)
			if !bytes.Equal(s[:], w) {
				h.Fail(fmt.Sprintf("Projective.ToBytes gives %x, want %x", s, w), in)
			}
			if e != e0 {
				h.Fail("operand changed", in)
			}
			px, py := p.XY()
			if px.Sign() != 0 || py.Cmp(big.NewInt(1)) == 0 {
				var y ed.ExtendedGroupElement
				if !y.FromBytes(arr(w)) {
					h.Fail("encoding of a point rejected", hex.EncodeToString(w))
				} else {
					isExt("FromBytes", &y, p, hex.EncodeToString(w))
				}
			}
		})
		// additions and subtractions, by small and large multipliers
		a, b := big.NewInt(int64(h.R.Intn(40))), big.NewInt(int64(h.R.Intn(40)))
		if i%6 == 0 {
			a, b = vh.FromLE(pat(h, 31)), vh.FromLE(pat(h, 31))
		} else if i%6 == 1 { // runs of ones, for negative digits
			for j := 0; j < 100; j++ {
				if h.R.Intn(3) > 0 {
					a.SetBit(a, j, 1)
				}
				if h.R.Intn(3) > 0 {
					b.SetBit(b, j, 1)
				}
			}
		}
		in = fmt.Sprintf("%v times %v plus %v times the base point", a, e, b)
		h.Case(in, func() {
			var r ed.ProjectiveGroupElement
			g := e
			ed.GeDoubleScalarMultVartime(&r, arr(vh.LE(a, 32)), &g, arr(vh.LE(b, 32)))
			is("GeDoubleScalarMultVartime", frac(&r.X, &r.Z), frac(&r.Y, &r.Z), vh.Add(vh.ScalarMult(a, p), vh.ScalarMult(b, vh.Base())), in)
		})
	}
	// no encoding of anything else is accepted
	for i := 0; i < h.N(1500) && !h.Done(); i++ {
		b := pat(h, 32)
		in := hex.EncodeToString(b)
		h.Case("decode "+in, func() {
			v := vh.FromLE(b)
			sign := v.Bit(255)
			v.SetBit(v, 255, 0)
			x := recover_(norm(v))
			var y ed.ExtendedGroupElement
			ok := y.FromBytes(arr(b))
			if ok != (x != nil) {
				h.Fail("decoding accepts exactly the curve", in)
			} else if ok {
				if x.Sign() != 0 && x.Bit(0) != sign {
					x.Sub(vh.P, x)
				}
				isExt("FromBytes", &y, vh.Affine(x, norm(v)), in)
			}
		})
	}
	for i := 0; i < 3; i++ {
		var e ed.ExtendedGroupElement
		var p ed.ProjectiveGroupElement
		if i > 0 {
			e = ext(h, point(h))
			p.X, p.Y, p.Z = e.X, e.Y, e.Z
		}
		e.Zero()
		p.Zero()
		isExt("Extended.Zero", &e, vh.Zero(), "zero")
		is("Projective.Zero", frac(&p.X, &p.Z), frac(&p.Y, &p.Z), vh.Zero(), "zero")
	}
	// the base point multiples
	for i, s := range scalars(h) {
		if i > 330 || h.Done() {
			break
		}
		in := hex.EncodeToString(s)
		h.Case("base "+in, func() {
			var e ed.ExtendedGroupElement
			ed.GeScalarMultBase(&e, arr(s))
			isExt("GeScalarMultBase", &e, vh.ScalarMult(vh.FromLE(s), vh.Base()), in)
		})
	}
}

// ---------------------------------------------------------------- C23
func TestC23(t *testing.T) {
	h := vh.New(t, "C23")
	for i := 0; i < h.N(3000) && !h.Done(); i++ {
		n := h.R.Intn(300)
		if i < 300 {
			n = i
		}
		d := h.Bytes(n)
		in := hex.EncodeToString(d)
		h.Case(in, func() {
			c := clone(d)
			b, _ := blake2b.New(28, nil)
			b.Write(d)
			w28 := b.Sum(nil)
			w32 := blake2b.Sum256(d)
			if g := crypto.Blake2b224(c); !bytes.Equal(g[:], w28) {
				h.Fail(fmt.Sprintf("Blake2b224 %x, want %x", g, w28), in)
			}
			if g := crypto.Blake2b256(c); g != w32 {
				h.Fail(fmt.Sprintf("Blake2b256 %x, want %x", g, w32), in)
			}
			if g := bip32.PublicKey(c).Hash(); !bytes.Equal(g[:], w28) {
				h.Fail(fmt.Sprintf("hash of a public key %x, want %x", g, w28), in)
			}
			if !bytes.Equal(c, d) {
				h.Fail("data changed", in)
			}
		})
	}
	conv := map[string]struct {
		f interface{}
		n int
	}{
		"Ed25519KeyHash":      {crypto.Ed25519KeyHashFromBytes, 28},
		"ScriptHash":          {crypto.ScriptHashFromBytes, 28},
		"TransactionHash":     {crypto.TransactionHashFromBytes, 32},
		"GenesisDelegateHash": {crypto.GenesisDelegateHashFromBytes, 28},
		"GenesisHash":         {crypto.GenesisHashFromBytes, 28},
		"MetadataHash":        {crypto.MetadataHashFromBytes, 32},
		"VRFKeyHash":          {crypto.VRFKeyHashFromBytes, 32},
		"BlockHash":           {crypto.BlockHashFromBytes, 32},
		"VRFVKey":             {crypto.VRFVKeyFromBytes, 32},
		"KESVKey":             {crypto.KESVKeyFromBytes, 32},
	}
	for name, c := range conv {
		for n := 0; n < 140; n++ {
			d := h.Bytes(n)
			if n == 0 && h.R.Intn(2) == 0 {
				d = nil
			}
			in := fmt.Sprintf("%s from %x", name, d)
			h.Case(in, func() {
				x := clone(d)
				r := reflect.ValueOf(c.f).Call([]reflect.Value{reflect.ValueOf(d)})
				if (r[1].IsNil()) != (n == c.n) {
					h.Fail(fmt.Sprintf("%d bytes: error %v", n, r[1].Interface()), in)
				} else if n == c.n {
					if r[0].Len() != n {
						h.Fail("length", in)
						return
					}
					g := make([]byte, n)
					for i := range g {
						g[i] = byte(r[0].Index(i).Uint())
					}
					if !bytes.Equal(g, d) {
						h.Fail(fmt.Sprintf("gives %x", g), in)
					}
				}
				if !bytes.Equal(x, d) {
					h.Fail("data changed", in)
				}
			})
		}
	}
}

// ---------------------------------------------------------------- C28
func TestC28(t *testing.T) {
	h := vh.New(t, "C28")
	var cases [][]byte
	for _, b := range h.HintBytes("s") {
		if len(b) == 32 {
			cases = append(cases, b)
		}
	}
	for k := int64(0); k < 25; k++ { // small and non-canonical numbers, both signs
		for _, v := range []*big.Int{big.NewInt(k), new(big.Int).Add(vh.P, big.NewInt(k)), new(big.Int).Sub(vh.P, big.NewInt(k+1))} {
			if v.BitLen() > 255 {
				continue
			}
			b := vh.LE(v, 32)
			c := clone(b)
			c[31] |= 0x80
			cases = append(cases, b, c)
		}
	}
	for i := 0; i < h.N(1500); i++ {
		if i%2 == 0 {
			cases = append(cases, vh.Encode(point(h)))
		} else {
			cases = append(cases, h.Bytes(32))
		}
	}
	for _, b := range cases {
		if h.Done() {
			break
		}
		in := hex.EncodeToString(b)
		h.Case(in, func() {
			low := clone(b)
			low[31] &= 0x7f
			y := norm(vh.FromLE(low))
			x := recover_(y)
			s := arr(b)
			e := ext(h, point(h)) // the receiver may hold anything
			ok := e.FromBytes(s)
			if !bytes.Equal(s[:], b) {
				h.Fail("FromBytes changes its input", in)
			}
			if ok != (x != nil) {
				h.Fail(fmt.Sprintf("FromBytes gives %v, want %v", ok, x != nil), in)
			}
			if !ok || x == nil {
				return
			}
			if x.Sign() != 0 && x.Bit(0) != uint(b[31]>>7) {
				x = norm(new(big.Int).Neg(x))
			}
			gx, gy := frac(&e.X, &e.Z), frac(&e.Y, &e.Z)
			if gx.Cmp(x) != 0 || gy.Cmp(y) != 0 {
				h.Fail(fmt.Sprintf("FromBytes gives (%v, %v), want (%v, %v)", gx, gy, x, y), in)
			}
			l, r := new(big.Int).Mul(val(&e.X), val(&e.Y)), new(big.Int).Mul(val(&e.Z), val(&e.T))
			if norm(l).Cmp(norm(r)) != 0 {
				h.Fail("FromBytes: the product coordinate is wrong", in)
			}
		})
	}
}
