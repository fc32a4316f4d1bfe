// Package vh supports the replay harnesses: counting, reporting, hints from the verifier, and reference
// implementations that are independent of the repository's code.
package vh

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
)

type Hint struct {
	Unit       string                     `json:"unit"`
	Obligation string                     `json:"obligation"`
	Inputs     map[string]json.RawMessage `json:"inputs"`
}

type H struct {
	T        *testing.T
	R        *rand.Rand
	Prop     string
	Thorough bool
	Hints    []Hint
	evals    int
	seen     map[uint64]bool
	fails    int
	cur      string
}

func New(t *testing.T, prop string) *H {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	h := &H{T: t, R: rand.New(rand.NewSource(seed*7919 + 17)), Prop: prop, Thorough: os.Getenv("VERIF_TIER") == "thorough", seen: map[uint64]bool{}}
	if f := os.Getenv("VERIF_HINTS"); f != "" {
		if b, err := os.ReadFile(f); err == nil {
			json.Unmarshal(b, &h.Hints)
		}
	}
	t.Cleanup(func() {
		fmt.Printf("STATS {\"evaluations\": %d, \"distinct\": %d}\n", h.evals, len(h.seen))
	})
	return h
}

// N is the number of random cases.
func (h *H) N(quick int) int {
	if h.Thorough {
		return quick * 12
	}
	return quick
}

func (h *H) Fail(what string, input interface{}) {
	h.fails++
	if h.fails <= 8 {
		b, _ := json.Marshal(map[string]interface{}{"property": h.Prop, "what": what, "input": fmt.Sprintf("%v", input)})
		fmt.Printf("REPLAY %s\n", b)
	}
	h.T.Fail()
}

func (h *H) Done() bool { return h.fails > 8 }

// Case counts one evaluation and runs f; a panic in f is a failure for the input.
func (h *H) Case(input interface{}, f func()) {
	h.evals++
	s := fmt.Sprintf("%v", input)
	w := fnv.New64a()
	w.Write([]byte(s))
	h.seen[w.Sum64()] = true
	defer func() {
		if r := recover(); r != nil {
			h.Fail(fmt.Sprintf("panic: %v", r), s)
		}
	}()
	f()
}

func (h *H) Bytes(n int) []byte {
	b := make([]byte, n)
	h.R.Read(b)
	return b
}

// HintBytes returns the byte strings which the verifier's models give for the named inputs.
func (h *H) HintBytes(names ...string) [][]byte {
	var out [][]byte
	for _, x := range h.Hints {
		for _, n := range names {
			var v []int
			if json.Unmarshal(x.Inputs[n], &v) == nil && v != nil {
				b := make([]byte, len(v))
				for i := range v {
					b[i] = byte(v[i])
				}
				out = append(out, b)
			}
		}
	}
	return out
}

// HintUints returns the numbers which the verifier's models give for the named inputs.
func (h *H) HintUints(names ...string) []uint64 {
	var out []uint64
	for _, x := range h.Hints {
		for _, n := range names {
			if v, err := strconv.ParseUint(strings.TrimSpace(string(x.Inputs[n])), 10, 64); err == nil {
				out = append(out, v)
			}
		}
	}
	return out
}

// Nums draws 64-bit numbers with an emphasis on powers of two.
func (h *H) Num() uint64 {
	switch h.R.Intn(4) {
	case 0:
		return h.R.Uint64()
	case 1:
		return uint64(h.R.Intn(300))
	default:
		v := uint64(1) << uint(h.R.Intn(64))
		switch h.R.Intn(4) {
		case 0:
			v--
		case 1:
			v++
		case 2:
			v += uint64(h.R.Intn(1000))
		}
		return v
	}
}

// ---------------------------------------------------------------- bech32 reference
const b32 = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

func b32poly(v []byte) uint32 {
	g := [5]uint32{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}
	c := uint32(1)
	for _, x := range v {
		t := c >> 25
		c = (c&0x1ffffff)<<5 ^ uint32(x)
		for i := 0; i < 5; i++ {
			if t>>uint(i)&1 == 1 {
				c ^= g[i]
			}
		}
	}
	return c
}

func b32hrp(h string) (r []byte) {
	for i := 0; i < len(h); i++ {
		r = append(r, h[i]>>5)
	}
	r = append(r, 0)
	for i := 0; i < len(h); i++ {
		r = append(r, h[i]&31)
	}
	return
}

func Bech32Encode(hrp string, data []byte) string {
	bits := ""
	for _, b := range data {
		bits += fmt.Sprintf("%08b", b)
	}
	for len(bits)%5 != 0 {
		bits += "0"
	}
	var v []byte
	for i := 0; i < len(bits); i += 5 {
		n, _ := strconv.ParseUint(bits[i:i+5], 2, 8)
		v = append(v, byte(n))
	}
	return Bech32FromValues(hrp, v)
}

// Bech32FromValues appends the checksum to 5-bit values.
func Bech32FromValues(hrp string, v []byte) string {
	c := b32poly(append(append(b32hrp(hrp), v...), 0, 0, 0, 0, 0, 0)) ^ 1
	out := hrp + "1"
	for _, x := range v {
		out += string(b32[x])
	}
	for i := 0; i < 6; i++ {
		out += string(b32[c>>uint(5*(5-i))&31])
	}
	return out
}

// Bech32Decode: ok only for uniform case, valid characters, zero padding of less than five bits and a valid checksum.
func Bech32Decode(s string) (hrp string, data []byte, ok bool) {
	low, up := false, false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c < 33 || c > 126 {
			return
		}
		low = low || 'a' <= c && c <= 'z'
		up = up || 'A' <= c && c <= 'Z'
	}
	if low && up {
		return
	}
	b := []byte(s)
	for i := range b {
		if 'A' <= b[i] && b[i] <= 'Z' {
			b[i] += 32
		}
	}
	p := strings.LastIndexByte(string(b), '1')
	if p < 1 || len(b)-p-1 < 6 {
		return
	}
	var v []byte
	for _, c := range b[p+1:] {
		k := strings.IndexByte(b32, c)
		if k < 0 {
			return
		}
		v = append(v, byte(k))
	}
	if b32poly(append(b32hrp(string(b[:p])), v...)) != 1 {
		return
	}
	bits := ""
	for _, x := range v[:len(v)-6] {
		bits += fmt.Sprintf("%05b", x)
	}
	n := len(bits) / 8
	if len(bits)-8*n >= 5 || strings.Contains(bits[8*n:], "1") {
		return
	}
	data = []byte{}
	for i := 0; i < n; i++ {
		x, _ := strconv.ParseUint(bits[8*i:8*i+8], 2, 8)
		data = append(data, byte(x))
	}
	return s[:p], data, true
}

const B32Alphabet = b32

// ---------------------------------------------------------------- variable-length numbers
func VarNat(v uint64) []byte {
	out := []byte{byte(v & 127)}
	for v >>= 7; v > 0; v >>= 7 {
		out = append([]byte{byte(v&127) | 128}, out...)
	}
	return out
}

// VarNatPrefix: the number whose encoding is a prefix of b.
func VarNatPrefix(b []byte) (v uint64, n int, ok bool) {
	for n = 1; n <= len(b) && n <= 10; n++ {
		if b[n-1] < 128 {
			v = 0
			for _, x := range b[:n] {
				v = v<<7 | uint64(x&127)
			}
			return v, n, string(VarNat(v)) == string(b[:n])
		}
	}
	return 0, 0, false
}

// ---------------------------------------------------------------- CBOR reference
func Head(major byte, v uint64) []byte {
	m := major << 5
	switch {
	case v < 24:
		return []byte{m | byte(v)}
	case v < 1<<8:
		return []byte{m | 24, byte(v)}
	case v < 1<<16:
		b := []byte{m | 25, 0, 0}
		binary.BigEndian.PutUint16(b[1:], uint16(v))
		return b
	case v < 1<<32:
		b := []byte{m | 26, 0, 0, 0, 0}
		binary.BigEndian.PutUint32(b[1:], uint32(v))
		return b
	}
	b := []byte{m | 27, 0, 0, 0, 0, 0, 0, 0, 0}
	binary.BigEndian.PutUint64(b[1:], v)
	return b
}

func Cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

func CBytes(b []byte) []byte { return Cat(Head(2, uint64(len(b))), b) }
func CUint(v uint64) []byte  { return Head(0, v) }

func CText(s string) []byte { return Cat(Head(3, uint64(len(s))), []byte(s)) }

// Meta draws a metadata value together with its encoding (map keys in canonical order: shorter first, then bytewise).
func (h *H) Meta(depth int) (interface{}, []byte) {
	k := h.R.Intn(9)
	if depth <= 0 {
		k = h.R.Intn(5)
	}
	switch k {
	case 0:
		v := h.Num()
		return v, CUint(v)
	case 1:
		v := -1 - int64(h.Num()>>1)
		return v, Head(1, uint64(-1-v))
	case 2:
		s := []string{"", "a", "msg", "name", "zz", "long text which is longer than twenty-three bytes", "äöü", strings.Repeat("x", 300)}[h.R.Intn(8)]
		return s, CText(s)
	case 3:
		b := h.Bytes(h.R.Intn(70))
		return b, CBytes(b)
	case 4:
		b := h.R.Intn(2) == 0
		if b {
			return b, []byte{0xf5}
		}
		return b, []byte{0xf4}
	case 5:
		n := h.R.Intn(5)
		l, e := []interface{}{}, Head(4, uint64(n))
		for i := 0; i < n; i++ {
			v, x := h.Meta(depth - 1)
			l, e = append(l, v), append(e, x...)
		}
		return l, e
	case 6:
		m, ps := map[string]interface{}{}, map[string][]byte{}
		for i := h.R.Intn(9); i > 0; i-- {
			s := []string{"a", "b", "c", "bb", "aa", "ccc", "msg", "name", "image", "x1", "zzzz", "Z", strings.Repeat("k", 30)}[h.R.Intn(13)]
			v, x := h.Meta(depth - 1)
			m[s], ps[string(CText(s))] = v, x
		}
		return m, sorted(ps)
	case 7:
		m, ps := map[uint64]interface{}{}, map[string][]byte{}
		for i := h.R.Intn(9); i > 0; i-- {
			s := h.Num()
			v, x := h.Meta(depth - 1)
			m[s], ps[string(CUint(s))] = v, x
		}
		return m, sorted(ps)
	}
	m, ps := map[interface{}]interface{}{}, map[string][]byte{}
	for i := h.R.Intn(7); i > 0; i-- {
		v, x := h.Meta(depth - 1)
		if h.R.Intn(2) == 0 {
			s := h.Num()
			m[s], ps[string(CUint(s))] = v, x
		} else {
			s := string(rune('a' + h.R.Intn(26)))
			m[s], ps[string(CText(s))] = v, x
		}
	}
	return m, sorted(ps)
}

func sorted(ps map[string][]byte) []byte {
	var ks []string
	for k := range ps {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if len(ks[j]) < len(ks[i]) || len(ks[j]) == len(ks[i]) && ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	e := Head(5, uint64(len(ks)))
	for _, k := range ks {
		e = Cat(e, []byte(k), ps[k])
	}
	return e
}
