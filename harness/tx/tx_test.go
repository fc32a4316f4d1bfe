package tx

import (
	"bytes"
	"crypto/ed25519"
	"encoding/hex"
	"fmt"
	"math/big"
	"testing"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/fees"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/zzverif/vh"
	"golang.org/x/crypto/blake2b"
)

// ---------------------------------------------------------------- reference
type in struct {
	hash []byte
	ix   uint16
	am   uint64
}
type out struct {
	a  address.Address
	ab []byte
	am uint64
}
type wit struct{ k, s []byte }

// ref is a transaction as the caller specified it.
type ref struct {
	ins   []in
	outs  []out
	fee   uint64
	ttl   uint32
	wits  []wit
	valid bool
	meta  []byte // encoding of the metadata, nil if there is none
}

func (r *ref) body() []byte {
	n := 3
	b := append([]byte{0}, vh.Head(4, uint64(len(r.ins)))...)
	for _, i := range r.ins {
		b = append(b, vh.Cat([]byte{0x82}, vh.CBytes(i.hash), vh.CUint(uint64(i.ix)))...)
	}
	b = vh.Cat(b, []byte{1}, vh.Head(4, uint64(len(r.outs))))
	for _, o := range r.outs {
		b = append(b, vh.Cat([]byte{0x82}, vh.CBytes(o.ab), vh.CUint(o.am))...)
	}
	b = vh.Cat(b, []byte{2}, vh.CUint(r.fee))
	if r.ttl != 0 {
		n++
		b = vh.Cat(b, []byte{3}, vh.CUint(uint64(r.ttl)))
	}
	if r.meta != nil {
		n++
		x := blake2b.Sum256(r.meta)
		b = vh.Cat(b, []byte{7}, vh.CBytes(x[:]))
	}
	return append([]byte{0xa0 + byte(n)}, b...)
}

func (r *ref) bytes() []byte {
	w := []byte{0xa0}
	if len(r.wits) > 0 {
		w = vh.Cat([]byte{0xa1, 0}, vh.Head(4, uint64(len(r.wits))))
		for _, x := range r.wits {
			w = append(w, vh.Cat([]byte{0x82}, vh.CBytes(x.k), vh.CBytes(x.s))...)
		}
	}
	v, m := byte(0xf4), []byte{0xf6}
	if r.valid {
		v = 0xf5
	}
	if r.meta != nil {
		m = r.meta
	}
	return vh.Cat([]byte{0x84}, r.body(), w, []byte{v}, m)
}

func (r *ref) hash() [32]byte { return blake2b.Sum256(r.body()) }

func (r ref) String() string {
	b := r.bytes()
	if len(b) > 700 {
		return fmt.Sprintf("%d inputs, %d outputs, fee %d, ttl %d, %d witnesses, valid %v, %d bytes of metadata", len(r.ins), len(r.outs), r.fee, r.ttl,
			len(r.wits), r.valid, len(r.meta))
	}
	return hex.EncodeToString(b)
}

// ---------------------------------------------------------------- generation
func addr(h *vh.H) (address.Address, []byte) {
	n := network.MainNet()
	if h.R.Intn(2) == 0 {
		n = network.TestNet()
	}
	c := func() *address.StakeCredential {
		if h.R.Intn(2) == 0 {
			return address.NewKeyStakeCredential(h.Bytes(28))
		}
		return address.NewScriptStakeCredential(h.Bytes(28))
	}
	k := func(c *address.StakeCredential) byte { return byte(c.Kind) & 1 }
	p, s := c(), c()
	switch h.R.Intn(6) {
	case 0:
		return address.NewEnterpriseAddress(n, p), vh.Cat([]byte{0x60 | k(p)<<4 | n.NetworkId}, p.Payload)
	case 1:
		return address.NewRewardAddress(n, s), vh.Cat([]byte{0xe0 | k(s)<<4 | n.NetworkId}, s.Payload)
	case 2:
		a, b, d := h.Num(), h.Num(), h.Num()
		return address.NewPointerAddress(*n, *p, *address.NewPointer(a, b, d)),
			vh.Cat([]byte{0x40 | k(p)<<4 | n.NetworkId}, p.Payload, vh.VarNat(a), vh.VarNat(b), vh.VarNat(d))
	}
	return address.NewBaseAddress(n, p, s), vh.Cat([]byte{k(p)<<4 | k(s)<<5 | n.NetworkId}, p.Payload, s.Payload)
}

// bigMeta is metadata with which the transaction has about 64 kB, or more
func bigMeta(h *vh.H) (interface{}, []byte) {
	n := 65536 - h.R.Intn(900)
	if h.R.Intn(3) == 0 {
		n = 65536 + h.R.Intn(70000)
	}
	b := make([]byte, n)
	b[h.R.Intn(n)] = 7
	hd := []byte{0xa1, 1, 0x5a, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
	if n < 65536 {
		hd = []byte{0xa1, 1, 0x59, byte(n >> 8), byte(n)}
	}
	return map[uint64][]byte{1: b}, append(hd, b...)
}

func count(h *vh.H) int {
	if h.R.Intn(1500) == 0 {
		return 65535 + h.R.Intn(3)
	}
	switch h.R.Intn(12) {
	case 0:
		return []int{22, 23, 24, 25}[h.R.Intn(4)]
	case 1:
		return []int{0, 254, 255, 256, 257}[h.R.Intn(5)]
	}
	return h.R.Intn(6)
}

func num32(h *vh.H) uint32 {
	v := uint32(h.Num())
	if h.R.Intn(3) == 0 {
		v = []uint32{0, 1, 23, 24, 255, 256, 65535, 65536, 1<<32 - 1}[h.R.Intn(9)]
	}
	return v
}

func newIn(h *vh.H, am uint64) (in, *tx.TxInput) {
	n := 32
	if h.R.Intn(10) == 0 {
		n = h.R.Intn(40)
	}
	i := in{h.Bytes(n), uint16(h.Num()), am}
	return i, tx.NewTxInput(hex.EncodeToString(i.hash), i.ix, uint(i.am))
}

func newOut(h *vh.H, am uint64) (out, *tx.TxOutput) {
	a, ab := addr(h)
	return out{a, ab, am}, tx.NewTxOutput(a, uint(am))
}

type adder interface {
	AddInputs(...*tx.TxInput)
	AddOutputs(...*tx.TxOutput)
}

// fill adds inputs and outputs to both, in batches.
func fill(h *vh.H, r *ref, addIn func(...*tx.TxInput), addOut func(...*tx.TxOutput), ni, no int, am func() uint64) {
	for ni > 0 || no > 0 {
		if k := h.R.Intn(ni + 1); k > 0 || no == 0 {
			if k == 0 {
				k = ni
			}
			var b []*tx.TxInput
			for j := 0; j < k; j++ {
				i, x := newIn(h, am())
				r.ins, b = append(r.ins, i), append(b, x)
			}
			addIn(b...)
			ni -= k
		}
		if k := h.R.Intn(no + 1); k > 0 {
			var b []*tx.TxOutput
			for j := 0; j < k; j++ {
				o, x := newOut(h, am())
				r.outs, b = append(r.outs, o), append(b, x)
			}
			addOut(b...)
			no -= k
		}
	}
}

func newTx(h *vh.H) (*tx.Tx, *ref) {
	t, r := tx.NewTx(), &ref{valid: true}
	fill(h, r, func(x ...*tx.TxInput) { t.AddInputs(x...) }, func(x ...*tx.TxOutput) { t.AddOutputs(x...) }, count(h), count(h), h.Num)
	if h.R.Intn(3) > 0 {
		r.fee = h.Num()
		t.SetFee(uint(r.fee))
	}
	if h.R.Intn(2) == 0 {
		r.ttl = num32(h)
		t.Body.TTL = r.ttl
	}
	if h.R.Intn(2) == 0 {
		t.Metadata, r.meta = h.Meta(3)
	}
	if h.R.Intn(100) == 0 {
		t.Metadata, r.meta = bigMeta(h)
	}
	if h.R.Intn(2) == 0 {
		var ks []*tx.VKeyWitness
		for i := count(h); i > 0; i-- {
			w := wit{h.Bytes(32), h.Bytes(64)}
			r.wits = append(r.wits, w)
			ks = append(ks, tx.NewVKeyWitness(w.k, w.s))
		}
		t.Witness = tx.NewTXWitness(ks...)
	}
	if h.R.Intn(5) == 0 {
		r.valid = false
		t.Valid = false
	}
	return t, r
}

func same(h *vh.H, what string, got []byte, err error, want []byte, in interface{}) {
	if err != nil {
		h.Fail(what+": error "+err.Error(), in)
		return
	}
	if !bytes.Equal(got, want) {
		h.Fail(fmt.Sprintf("%s is %s, want %s", what, short(got), short(want)), in)
	}
}

func short(b []byte) string {
	s := hex.EncodeToString(b)
	if len(s) > 500 {
		return s[:500] + "..."
	}
	return s
}

// ---------------------------------------------------------------- C08
func checkBytes(h *vh.H, t *tx.Tx, r *ref) {
	in := r.String()
	b, err := t.Bytes()
	same(h, "serialized transaction", b, err, r.bytes(), in)
	x, err := t.Hex()
	if err != nil || x != hex.EncodeToString(r.bytes()) {
		h.Fail(fmt.Sprintf("hex of the transaction: %v", err), in)
	}
	bb, err := t.Body.Bytes()
	same(h, "body", bb, err, r.body(), in)
	bx, err := t.Body.Hex()
	if err != nil || bx != hex.EncodeToString(r.body()) {
		h.Fail(fmt.Sprintf("hex of the body: %v", err), in)
	}
}

func TestC08(t *testing.T) {
	h := vh.New(t, "C08")
	for i := 0; i < h.N(2500) && !h.Done(); i++ {
		x, r := newTx(h)
		h.Case(r.String(), func() {
			checkBytes(h, x, r)
			// more of everything afterwards
			fill(h, r, func(y ...*tx.TxInput) { x.AddInputs(y...) }, func(y ...*tx.TxOutput) { x.AddOutputs(y...) }, h.R.Intn(3), h.R.Intn(3), h.Num)
			r.ttl, r.fee = num32(h), h.Num()
			x.Body.TTL = r.ttl
			x.SetFee(uint(r.fee))
			checkBytes(h, x, r)
			for j, y := range x.Body.Inputs {
				if uint64(y.Amount) != r.ins[j].am || y.Index != r.ins[j].ix || !bytes.Equal(y.TxHash, r.ins[j].hash) {
					h.Fail("values of an input", r.String())
				}
			}
			for j, y := range x.Body.Outputs {
				if uint64(y.Amount) != r.outs[j].am || !bytes.Equal(y.Address.Bytes(), r.outs[j].ab) {
					h.Fail("values of an output", r.String())
				}
			}
		})
		// through the builder
		tb, br := tx.NewTxBuilder(protocol.Protocol{}, nil), &ref{valid: true}
		h.Case("builder", func() {
			fill(h, br, tb.AddInputs, tb.AddOutputs, h.R.Intn(8), h.R.Intn(8), h.Num)
			br.ttl = num32(h)
			tb.SetTTL(br.ttl)
			if h.R.Intn(2) == 0 {
				tb.Tx().Metadata, br.meta = h.Meta(2)
			}
			checkBytes(h, tb.Tx(), br)
		})
	}
	// every output kind and every number of bytes of the numbers
	for _, v := range []uint64{0, 1, 23, 24, 255, 256, 65535, 65536, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
		x, r := tx.NewTx(), &ref{valid: true}
		fill(h, r, func(y ...*tx.TxInput) { x.AddInputs(y...) }, func(y ...*tx.TxOutput) { x.AddOutputs(y...) }, 2, 3, func() uint64 { return v })
		r.fee, r.ttl = v, uint32(v)
		x.SetFee(uint(v))
		x.Body.TTL = uint32(v)
		h.Case(fmt.Sprintf("number %d", v), func() { checkBytes(h, x, r) })
	}
	for _, n := range []int{65535, 65536} {
		x, r := tx.NewTx(), &ref{valid: true}
		i, y := newIn(h, 1)
		for k := 0; k < n; k++ {
			r.ins = append(r.ins, i)
			x.AddInputs(y)
		}
		h.Case(fmt.Sprintf("%d inputs", n), func() { checkBytes(h, x, r) })
	}
}

// ---------------------------------------------------------------- C09
func TestC09(t *testing.T) {
	h := vh.New(t, "C09")
	for i := 0; i < h.N(2500) && !h.Done(); i++ {
		x, r := newTx(h)
		if h.R.Intn(3) == 0 {
			m, e := map[string]interface{}{}, map[string]bool{}
			for k := 0; k < 12; k++ {
				m[string(rune('a'+h.R.Intn(26)))+fmt.Sprint(k)] = map[interface{}]interface{}{uint64(k): "v", "t": h.R.Intn(99), "u": k}
			}
			_ = e
			x.Metadata, r.meta = m, nil
		} else {
			m := x.Metadata
			_ = m
		}
		lf := fees.NewLinearFee(44, 155381)
		var ops []string
		var h0 *[32]byte
		var b0 []byte
		h.Case(r.String(), func() {
			for k := 0; k < 2+h.R.Intn(8); k++ {
				op := []string{"Hash", "Bytes", "Fee", "Hex", "CalculateAuxiliaryDataHash", "MinFee"}[h.R.Intn(6)]
				ops = append(ops, op)
				in := fmt.Sprintf("%s after %v", r, ops)
				var got [32]byte
				var gb []byte
				var err error
				switch op {
				case "Hash":
					got, err = x.Hash()
					if err == nil && h0 != nil && got != *h0 {
						h.Fail(fmt.Sprintf("hash changes from %x to %x", *h0, got), in)
					}
					h0 = &got
				case "Bytes":
					gb, err = x.Bytes()
				case "Hex":
					var s string
					s, err = x.Hex()
					gb, _ = hex.DecodeString(s)
				case "Fee":
					_, err = x.Fee(lf)
				case "CalculateAuxiliaryDataHash":
					err = x.CalculateAuxiliaryDataHash()
				}
				if err != nil {
					h.Fail(op+": "+err.Error(), in)
				}
				if gb != nil {
					if b0 != nil && !bytes.Equal(b0, gb) {
						h.Fail(fmt.Sprintf("serialization changes from %s to %s", short(b0), short(gb)), in)
					}
					b0 = gb
				}
			}
			hh, err := x.Hash()
			b, err2 := x.Bytes()
			if err != nil || err2 != nil {
				h.Fail(fmt.Sprintf("error %v %v", err, err2), r.String())
				return
			}
			if h0 != nil && *h0 != hh {
				h.Fail("hash changes", fmt.Sprintf("%s after %v", r, ops))
			}
			n := vh.Item(b[1:])
			if n < 0 || b[0] != 0x84 {
				h.Fail("serialized transaction is not an array of four", r.String())
				return
			}
			if blake2b.Sum256(b[1:1+n]) != hh {
				h.Fail(fmt.Sprintf("hash %x, but the body serialized is %s", hh, short(b[1:1+n])), fmt.Sprintf("%s after %v", r, ops))
			}
			if _, ok := x.Metadata.(map[string]interface{}); !ok || r.meta != nil {
				if hh != r.hash() {
					h.Fail(fmt.Sprintf("hash %x, want %x", hh, r.hash()), r.String())
				}
			}
			// a change of the content changes both
			fill(h, r, func(y ...*tx.TxInput) { x.AddInputs(y...) }, func(y ...*tx.TxOutput) { x.AddOutputs(y...) }, 1, 1, h.Num)
			r.fee++
			x.SetFee(uint(r.fee))
			h2, _ := x.Hash()
			b2, _ := x.Bytes()
			if n = vh.Item(b2[1:]); n < 0 || blake2b.Sum256(b2[1:1+n]) != h2 || h2 == hh {
				h.Fail("hash after a change", r.String())
			}
		})
	}
	// built transactions
	for i := 0; i < h.N(150) && !h.Done(); i++ {
		tb, r, _ := builder(h, h.R.Intn(4))
		h.Case("built "+r.String(), func() {
			if h.R.Intn(2) == 0 {
				tb.AddChangeIfNeeded(address.NewEnterpriseAddress(network.TestNet(), address.NewKeyStakeCredential(h.Bytes(28))))
			}
			x, err := tb.Build()
			if err != nil {
				h.Fail(err.Error(), r.String())
				return
			}
			b, _ := x.Bytes()
			hh, _ := x.Hash()
			h3, _ := tb.Tx().Hash()
			if n := vh.Item(b[1:]); n < 0 || blake2b.Sum256(b[1:1+n]) != hh || h3 != hh {
				h.Fail("hash of a built transaction", r.String())
			}
		})
	}
}

// ---------------------------------------------------------------- C10
// auxOf gives the metadata hash in a serialized transaction and its metadata.
func auxOf(b []byte) (aux, meta []byte, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	p := b[1:]
	n := vh.Item(p)
	body := p[:n]
	p = p[n:]
	p = p[vh.Item(p):]
	meta = p[1:]
	k := int(body[0] & 31)
	q := body[1:]
	for ; k > 0; k-- {
		key := q[0]
		q = q[1:]
		m := vh.Item(q)
		if key == 7 {
			aux = q[2:m]
		}
		q = q[m:]
	}
	return aux, meta, len(q) == 0
}

func checkAux(h *vh.H, x *tx.Tx, meta []byte, what string, in interface{}) {
	if meta == nil {
		if len(x.Body.AuxiliaryDataHash) != 0 {
			h.Fail(fmt.Sprintf("%s: metadata hash %x without metadata", what, x.Body.AuxiliaryDataHash), in)
		}
		return
	}
	w := blake2b.Sum256(meta)
	if !bytes.Equal(x.Body.AuxiliaryDataHash, w[:]) {
		h.Fail(fmt.Sprintf("%s: metadata hash %x, want %x", what, x.Body.AuxiliaryDataHash, w), in)
	}
}

func TestC10(t *testing.T) {
	h := vh.New(t, "C10")
	lf := fees.NewLinearFee(3, 7)
	bad := []interface{}{func() {}, make(chan int), map[string]interface{}{"a": func() {}}, []interface{}{1, make(chan int)},
		map[interface{}]interface{}{"x": []interface{}{func() {}}}, struct{ F func() }{}, complex(1, 2)}
	for i := 0; i < h.N(3000) && !h.Done(); i++ {
		x, r := newTx(h)
		for k := 0; k < 4; k++ {
			switch h.R.Intn(4) {
			case 0:
				x.Metadata, r.meta = nil, nil
			case 1:
				x.Metadata, r.meta = h.Meta(3)
			case 2:
				x.Body.AuxiliaryDataHash = h.Bytes([]int{0, 28, 32}[h.R.Intn(3)])
			}
			in := fmt.Sprintf("%s metadata %x step %d", r, r.meta, k)
			h.Case(in, func() {
				for _, op := range h.R.Perm(5) {
					x.Body.AuxiliaryDataHash = [][]byte{x.Body.AuxiliaryDataHash, nil, h.Bytes(32)}[h.R.Intn(3)]
					var err error
					switch op {
					case 0:
						var hh [32]byte
						hh, err = x.Hash()
						if hh != r.hash() {
							h.Fail("hash does not cover the metadata hash", in)
						}
					case 1:
						var b []byte
						b, err = x.Bytes()
						same(h, "transaction with metadata", b, err, r.bytes(), in)
						aux, meta, ok := auxOf(b)
						if !ok {
							h.Fail("transaction cannot be parsed", in)
						} else if (r.meta == nil) != (aux == nil) {
							h.Fail("metadata hash present exactly with metadata", in)
						} else if w := blake2b.Sum256(meta); aux != nil && !bytes.Equal(aux, w[:]) {
							h.Fail(fmt.Sprintf("metadata hash %x, but the metadata is %x", aux, meta), in)
						}
					case 2:
						var f uint
						f, err = x.Fee(lf)
						if f != uint(7+3*len(r.bytes())) {
							h.Fail("fee does not cover the metadata hash", in)
						}
					case 3:
						_, err = x.Hex()
					case 4:
						err = x.CalculateAuxiliaryDataHash()
					}
					if err != nil {
						h.Fail(err.Error(), in)
					}
					checkAux(h, x, r.meta, []string{"Hash", "Bytes", "Fee", "Hex", "CalculateAuxiliaryDataHash"}[op], in)
				}
			})
		}
		// metadata that cannot be encoded
		m := bad[i%len(bad)]
		in := fmt.Sprintf("metadata %T", m)
		h.Case(in, func() {
			x.Metadata = m
			_, e1 := x.Hash()
			_, e2 := x.Bytes()
			_, e3 := x.Hex()
			_, e4 := x.Fee(lf)
			if e1 == nil || e2 == nil || e3 == nil || e4 == nil {
				h.Fail(fmt.Sprintf("metadata that cannot be encoded: errors of Hash, Bytes, Hex, Fee: %v, %v, %v, %v", e1, e2, e3, e4), in)
			}
			tb := tx.NewTxBuilder(protocol.Protocol{}, []bip32.XPrv{key(h)})
			tb.Tx().Metadata = m
			if _, err := tb.Build(); err == nil {
				h.Fail("Build gives a transaction with metadata that cannot be encoded", in)
			}
		})
	}
	// many orders of iteration over the same map
	for i := 0; i < h.N(300) && !h.Done(); i++ {
		m := map[interface{}]interface{}{}
		for k := 0; k < 20; k++ {
			m[uint64(k*k)] = map[string]interface{}{"a": k, "b": "c", "ccc": []interface{}{map[interface{}]interface{}{"x": 1, uint64(3): 2, "yy": 1}}}
			m[fmt.Sprintf("k%d", k)] = k
		}
		x := tx.NewTx()
		x.Metadata = m
		h.Case(fmt.Sprintf("map %d", i), func() {
			b, err := x.Bytes()
			aux, meta, ok := auxOf(b)
			w := blake2b.Sum256(meta)
			if err != nil || !ok || !bytes.Equal(aux, w[:]) {
				h.Fail("metadata hash does not match the metadata serialized", short(b))
			}
			hh, err := x.Hash()
			if n := vh.Item(b[1:]); err != nil || blake2b.Sum256(b[1:1+n]) != hh {
				h.Fail("hash with metadata", short(b))
			}
		})
	}
}

// ---------------------------------------------------------------- C11
func TestC11(t *testing.T) {
	h := vh.New(t, "C11")
	for i := 0; i < h.N(4000) && !h.Done(); i++ {
		x, r := newTx(h)
		a, b := h.Num(), h.Num()
		if h.R.Intn(2) == 0 {
			a, b = a>>40, b>>20
		}
		n := len(r.bytes())
		w := new(big.Int).Mul(new(big.Int).SetUint64(a), big.NewInt(int64(n)))
		w.Add(w, new(big.Int).SetUint64(b))
		if !w.IsUint64() {
			continue
		}
		in := fmt.Sprintf("per byte %d, fixed %d, %s", a, b, r)
		h.Case(in, func() {
			lf := fees.NewLinearFee(uint(a), uint(b))
			if uint64(lf.TxFeePerByte) != a || uint64(lf.TxFeeFixed) != b {
				h.Fail("parameters of the linear fee", in)
			}
			f, err := x.Fee(lf)
			if err != nil || uint64(f) != w.Uint64() {
				h.Fail(fmt.Sprintf("fee %d (%v) for %d bytes, want %d", f, err, n, w), in)
			}
			if uint64(lf.TxFeePerByte) != a || uint64(lf.TxFeeFixed) != b {
				h.Fail("fee parameters changed", in)
			}
			bs, _ := x.Bytes()
			if len(bs) != n {
				h.Fail("size", in)
			}
		})
	}
	// the builder takes the parameters from the protocol
	for i := 0; i < h.N(400) && !h.Done(); i++ {
		a, b := uint(h.R.Intn(500)), uint(h.R.Intn(300000))
		tb := tx.NewTxBuilder(protocol.Protocol{TxFeePerByte: a, TxFeeFixed: b, MaxTxSize: uint(h.R.Intn(9999)), MinUTXOValue: uint(h.R.Intn(9999))}, nil)
		r := &ref{valid: true, wits: []wit{{make([]byte, 32), make([]byte, 64)}}}
		fill(h, r, tb.AddInputs, tb.AddOutputs, 1+h.R.Intn(3), 1+h.R.Intn(3), func() uint64 { return 1000000 })
		for len(r.outs) < len(r.ins) {
			fill(h, r, tb.AddInputs, tb.AddOutputs, 0, 1, func() uint64 { return 1000000 })
		}
		for len(r.ins) < len(r.outs) {
			fill(h, r, tb.AddInputs, tb.AddOutputs, 1, 0, func() uint64 { return 1000000 })
		}
		h.Case(fmt.Sprintf("protocol %d %d", a, b), func() {
			w := minFee(r, uint64(a), uint64(b))
			if f := tb.MinFee(); uint64(f) != w {
				h.Fail(fmt.Sprintf("minimum fee %d, want %d", f, w), fmt.Sprintf("per byte %d, fixed %d, %s", a, b, r))
			}
		})
	}
}

// minFee is the least fee that covers the transaction with that fee in its body.
func minFee(r *ref, a, b uint64) uint64 {
	c := *r
	c.fee = 0
	for {
		f := b + a*uint64(len(c.bytes()))
		if f <= c.fee {
			return c.fee
		}
		c.fee = f
	}
}

// ---------------------------------------------------------------- builders
func key(h *vh.H) bip32.XPrv {
	k := h.Bytes(96)
	if h.R.Intn(4) > 0 {
		k[0] &= 0xf8
		k[31] = k[31]&0x1f | 0x40
	} else {
		k[31] &= 0x7f
	}
	return k
}

func builder(h *vh.H, nk int) (*tx.TxBuilder, *ref, []bip32.XPrv) {
	var ks []bip32.XPrv
	for i := 0; i < nk; i++ {
		ks = append(ks, key(h))
	}
	k0 := h.R.Intn(nk + 1)
	a, b := uint(h.R.Intn(200)), uint(h.R.Intn(400000))
	switch h.R.Intn(8) {
	case 0:
		a, b = 0, 0
	case 1:
		a, b = 1, uint(h.R.Intn(400))
	case 2: // fees around the sizes at which the encoding grows
		a, b = 0, []uint{22, 23, 24, 255, 256, 65535, 65536, 1<<32 - 1, 1 << 32}[h.R.Intn(9)]
	case 3:
		a = uint(h.R.Intn(40))
		b = []uint{256, 65536, 1 << 32}[h.R.Intn(3)] - a*uint(250+h.R.Intn(200))
		if int(b) < 0 {
			b = 0
		}
	}
	tb := tx.NewTxBuilder(protocol.Protocol{TxFeePerByte: a, TxFeeFixed: b}, ks[:k0:k0])
	for _, k := range ks[k0:] {
		tb.Sign(k)
	}
	r := &ref{valid: true}
	params[tb] = [2]uint64{uint64(a), uint64(b)}
	sz := []uint64{50, 1000, 1 << 20, 1 << 33, 1 << 50, 1 << 60}[h.R.Intn(6)]
	fill(h, r, tb.AddInputs, tb.AddOutputs, h.R.Intn(5), h.R.Intn(5), func() uint64 { return uint64(h.R.Int63n(int64(sz))) })
	if h.R.Intn(12) == 0 {
		fill(h, r, tb.AddInputs, tb.AddOutputs, 22, 20, func() uint64 { return uint64(h.R.Intn(5000)) })
	}
	if h.R.Intn(2) == 0 {
		r.ttl = num32(h)
		tb.SetTTL(r.ttl)
	}
	if h.R.Intn(3) == 0 {
		tb.Tx().Metadata, r.meta = h.Meta(2)
	}
	if h.R.Intn(50) == 0 {
		tb.Tx().Metadata, r.meta = bigMeta(h)
	}
	if h.R.Intn(4) == 0 {
		r.valid = false
		tb.Tx().Valid = false
	}
	return tb, r, ks
}

var params = map[*tx.TxBuilder][2]uint64{}

func sums(r *ref) (si, so *big.Int) {
	si, so = new(big.Int), new(big.Int)
	for _, i := range r.ins {
		si.Add(si, new(big.Int).SetUint64(i.am))
	}
	for _, o := range r.outs {
		so.Add(so, new(big.Int).SetUint64(o.am))
	}
	return
}

// sized gives the transaction as it will be with a witness for each key and with the change.
func sized(r *ref, nw int, ab []byte, change uint64) *ref {
	c := *r
	c.wits = nil
	for i := 0; i < nw; i++ {
		c.wits = append(c.wits, wit{make([]byte, 32), make([]byte, 64)})
	}
	if ab != nil {
		c.outs = append(append([]out{}, r.outs...), out{nil, ab, change})
	}
	return &c
}

// changeCase adds change to a builder, with the difference of inputs and outputs near the interesting values.
func changeCase(h *vh.H, nk int, f func(tb *tx.TxBuilder, r *ref, ks []bip32.XPrv, a address.Address, ab []byte, in string)) {
	tb, r, ks := builder(h, nk)
	a, ab := addr(h)
	p := params[tb]
	delete(params, tb)
	nw := nk
	if nw == 0 {
		nw = 1
	}
	// an input that makes the difference what we want
	si, so := sums(r)
	if h.R.Intn(5) > 0 {
		fee := minFee(sized(r, nw, ab, uint64(h.R.Intn(1<<20))), p[0], p[1])
		want := new(big.Int)
		switch h.R.Intn(7) {
		case 0:
			want.SetUint64(fee)
			want.Add(want, big.NewInt(int64(h.R.Intn(5)-2)))
		case 1:
			want.SetUint64(fee / uint64(1+h.R.Intn(3)))
		case 2:
			want.SetUint64(fee + []uint64{22, 23, 24, 25, 254, 255, 256, 257, 65535, 65536, 65537, 1<<32 - 1, 1 << 32}[h.R.Intn(13)])
		case 3:
			want.SetInt64(int64(-h.R.Intn(3)))
		case 4:
			want.SetUint64(fee + uint64(h.R.Intn(300)))
		case 5:
			want.SetUint64(fee + uint64(h.R.Int63n(1<<50)))
		case 6:
			want.SetUint64(1<<63 + uint64(h.R.Intn(9)))
		}
		d := new(big.Int).Sub(want, new(big.Int).Sub(si, so))
		m := new(big.Int).Abs(d)
		if m.Sign() != 0 && m.IsUint64() {
			if d.Sign() > 0 {
				fill(h, r, tb.AddInputs, tb.AddOutputs, 1, 0, m.Uint64)
			} else {
				fill(h, r, tb.AddInputs, tb.AddOutputs, 0, 1, m.Uint64)
			}
		}
	}
	si, so = sums(r)
	if !si.IsUint64() || !so.IsUint64() {
		return
	}
	in := fmt.Sprintf("per byte %d, fixed %d, %d keys, change to %x, inputs %v, outputs %v, %s", p[0], p[1], nk, ab, si, so, r)
	h.Case(in, func() { f(tb, r, ks, a, ab, in) })
}

func linear(tb *tx.TxBuilder, a, b uint64, n int) *big.Int {
	w := new(big.Int).Mul(new(big.Int).SetUint64(a), big.NewInt(int64(n)))
	return w.Add(w, new(big.Int).SetUint64(b))
}

// ---------------------------------------------------------------- C12
func TestC12(t *testing.T) {
	h := vh.New(t, "C12")
	for i := 0; i < h.N(900) && !h.Done(); i++ {
		nk := h.R.Intn(4)
		if h.R.Intn(40) == 0 {
			nk = 22 + h.R.Intn(4)
		}
		var p [2]uint64
		changeCase(h, nk, func(tb *tx.TxBuilder, r *ref, ks []bip32.XPrv, a address.Address, ab []byte, in string) {
			fmt.Sscanf(in, "per byte %d, fixed %d,", &p[0], &p[1])
			m1 := tb.MinFee()
			m2 := tb.MinFee()
			if h.R.Intn(2) == 0 {
				if m1 != m2 {
					h.Fail(fmt.Sprintf("estimates %d and %d", m1, m2), in)
				}
			}
			tb.AddChangeIfNeeded(a)
			fee := tb.Tx().Body.Fee
			if nk == 0 && h.R.Intn(2) == 0 { // one key after the fact
				tb.Sign(key(h))
			}
			x, err := tb.Build()
			if err != nil {
				h.Fail(err.Error(), in)
				return
			}
			b, err := x.Bytes()
			if err != nil {
				h.Fail(err.Error(), in)
				return
			}
			if x.Body.Fee != fee {
				h.Fail("building changes the fee", in)
			}
			if w := linear(tb, p[0], p[1], len(b)); w.Cmp(new(big.Int).SetUint64(fee)) > 0 {
				h.Fail(fmt.Sprintf("fee %d, but the signed transaction of %d bytes needs %v", fee, len(b), w), in)
			}
			// estimate of the finished transaction
			if f, err := x.Fee(fees.NewLinearFee(uint(p[0]), uint(p[1]))); err != nil || uint64(f) > fee {
				h.Fail("fee of the built transaction exceeds the fee set", in)
			}
		})
	}
	for i := 0; i < h.N(600) && !h.Done(); i++ {
		tb, r, _ := builder(h, h.R.Intn(3))
		in := r.String()
		h.Case("repeat "+in, func() {
			m := tb.MinFee()
			for k := 0; k < 3; k++ {
				if n := tb.MinFee(); n != m {
					h.Fail(fmt.Sprintf("estimates %d and %d", m, n), in)
				}
				if h.R.Intn(2) == 0 {
					tb.Tx().Hash()
				}
			}
			// a fee set earlier does not matter
			tb.Tx().SetFee(uint(h.Num()))
			if n := tb.MinFee(); n != m {
				h.Fail(fmt.Sprintf("estimate %d depends on the fee set before, %d without", n, m), in)
			}
		})
	}
}

// ---------------------------------------------------------------- C13
func TestC13(t *testing.T) {
	h := vh.New(t, "C13")
	for i := 0; i < h.N(6000) && !h.Done(); i++ {
		changeCase(h, []int{0, 0, 1, 2}[h.R.Intn(4)], func(tb *tx.TxBuilder, r *ref, ks []bip32.XPrv, a address.Address, ab []byte, in string) {
			if h.R.Intn(3) == 0 {
				tb.Tx().SetFee(uint(h.Num()))
			}
			tb.AddChangeIfNeeded(a)
			x := tb.Tx()
			si, so := sums(r)
			if len(x.Body.Inputs) != len(r.ins) || len(x.Body.Outputs) < len(r.outs) || len(x.Body.Outputs) > len(r.outs)+1 {
				h.Fail(fmt.Sprintf("%d inputs and %d outputs afterwards", len(x.Body.Inputs), len(x.Body.Outputs)), in)
				return
			}
			for j := range r.ins {
				y := x.Body.Inputs[j]
				if uint64(y.Amount) != r.ins[j].am || y.Index != r.ins[j].ix || !bytes.Equal(y.TxHash, r.ins[j].hash) {
					h.Fail("an input changed", in)
				}
			}
			for j := range r.outs {
				y := x.Body.Outputs[j]
				if uint64(y.Amount) != r.outs[j].am || !bytes.Equal(y.Address.Bytes(), r.outs[j].ab) {
					h.Fail("an output changed", in)
				}
			}
			need := new(big.Int).Add(so, new(big.Int).SetUint64(x.Body.Fee))
			if len(x.Body.Outputs) == len(r.outs) {
				if si.Cmp(need) > 0 {
					h.Fail(fmt.Sprintf("fee %d and no change: the difference is lost", x.Body.Fee), in)
				}
				return
			}
			c := x.Body.Outputs[len(r.outs)]
			if !bytes.Equal(c.Address.Bytes(), ab) {
				h.Fail("change goes elsewhere", in)
			}
			need.Add(need, new(big.Int).SetUint64(uint64(c.Amount)))
			if c.Amount == 0 || need.Cmp(si) != 0 {
				h.Fail(fmt.Sprintf("fee %d, change %d: outputs and fee are %v", x.Body.Fee, c.Amount, need), in)
			}
			r.outs = append(r.outs, out{a, ab, uint64(c.Amount)})
			r.fee = x.Body.Fee
			b, err := x.Bytes()
			same(h, "transaction with change", b, err, r.bytes(), in)
		})
	}
}

// ---------------------------------------------------------------- C14
func checkBuilt(h *vh.H, x tx.Tx, r *ref, ks []bip32.XPrv, in string) {
	hh := r.hash()
	if got, err := x.Hash(); err != nil || got != hh {
		h.Fail(fmt.Sprintf("hash of the built transaction %x, want %x", got, hh), in)
	}
	if len(x.Witness.Keys) != len(ks) {
		h.Fail(fmt.Sprintf("%d witnesses for %d keys", len(x.Witness.Keys), len(ks)), in)
		return
	}
	r.wits = nil
	for i, w := range x.Witness.Keys {
		pk := vh.PublicKey(ks[i][:32])
		if !bytes.Equal(w.VKey, pk) {
			h.Fail(fmt.Sprintf("witness %d has key %x, want %x", i, w.VKey, pk), in)
			return
		}
		if !ed25519.Verify(pk, hh[:], w.Signature) {
			h.Fail(fmt.Sprintf("signature %d does not verify", i), in)
		}
		if s := vh.Sign(ks[i], hh[:]); !bytes.Equal(s, w.Signature) {
			h.Fail(fmt.Sprintf("signature %d is %x, want %x", i, w.Signature, s), in)
		}
		r.wits = append(r.wits, wit{w.VKey, w.Signature})
	}
	b, err := x.Bytes()
	same(h, "built transaction", b, err, r.bytes(), in)
}

func TestC14(t *testing.T) {
	h := vh.New(t, "C14")
	for i := 0; i < h.N(60) && !h.Done(); i++ {
		nk := h.R.Intn(5)
		if i == 1 {
			nk = 25
		}
		tb, r, ks := builder(h, nk)
		if h.R.Intn(4) == 0 && nk > 0 { // the same key again
			k := ks[h.R.Intn(nk)]
			tb.Sign(k)
			ks = append(ks, k)
		}
		in := fmt.Sprintf("keys %x, %s", ks, r)
		h.Case(in, func() {
			if h.R.Intn(3) == 0 { // witnesses from elsewhere
				tb.Tx().Witness = tx.NewTXWitness(tx.NewVKeyWitness(h.Bytes(32), h.Bytes(64)), tx.NewVKeyWitness(h.Bytes(32), h.Bytes(64)))
			}
			if h.R.Intn(3) == 0 {
				tb.MinFee()
			}
			r.fee = tb.Tx().Body.Fee
			before := make([][]byte, len(ks))
			for i := range ks {
				before[i] = append([]byte{}, ks[i]...)
			}
			x, err := tb.Build()
			if err != nil {
				h.Fail(err.Error(), in)
				return
			}
			checkBuilt(h, x, r, ks, in)
			for i := range ks {
				if !bytes.Equal(before[i], ks[i]) {
					h.Fail("building changes a key", in)
				}
			}
			y, err := tb.Build()
			if err != nil {
				h.Fail(err.Error(), in)
				return
			}
			checkBuilt(h, y, r, ks, in)
			checkBuilt(h, *tb.Tx(), r, ks, in)
			checkBuilt(h, x, r, ks, in)
			// more content and another key
			fill(h, r, tb.AddInputs, tb.AddOutputs, 1, 1, h.Num)
			k := key(h)
			tb.Sign(k)
			ks = append(ks, k)
			z, err := tb.Build()
			if err != nil {
				h.Fail(err.Error(), in)
				return
			}
			checkBuilt(h, z, r, ks, in)
		})
	}
}

// ---------------------------------------------------------------- C15
func snapshot(x *tx.Tx) string {
	s := fmt.Sprintf("%d %d %x %v %v;", x.Body.Fee, x.Body.TTL, x.Body.AuxiliaryDataHash, x.Valid, x.Metadata)
	for _, i := range x.Body.Inputs {
		s += fmt.Sprintf("%p %x %d %d;", i, i.TxHash, i.Index, i.Amount)
	}
	for _, o := range x.Body.Outputs {
		s += fmt.Sprintf("%p %x %d;", o, o.Address.Bytes(), o.Amount)
	}
	for _, w := range x.Witness.Keys {
		s += fmt.Sprintf("%p %x %x;", w, w.VKey, w.Signature)
	}
	return s
}

func TestC15(t *testing.T) {
	h := vh.New(t, "C15")
	for i := 0; i < h.N(1500) && !h.Done(); i++ {
		tb, r, ks := builder(h, h.R.Intn(4))
		in := fmt.Sprintf("%d keys, %s", len(ks), r)
		h.Case(in, func() {
			x := tb.Tx()
			switch h.R.Intn(4) {
			case 0:
				w := wit{h.Bytes(32), h.Bytes(64)}
				l := make([]*tx.VKeyWitness, 1, 5)
				l[0] = tx.NewVKeyWitness(w.k, w.s)
				x.Witness = tx.NewTXWitness(l...)
				r.wits = []wit{w}
			case 1:
				x.Body.AuxiliaryDataHash = h.Bytes(32)
			}
			if h.R.Intn(2) == 0 {
				r.fee = h.Num()
				x.SetFee(uint(r.fee))
			}
			body, wt := x.Body, x.Witness
			s := snapshot(x)
			for k := 0; k < 3; k++ {
				tb.MinFee()
				if n := snapshot(x); n != s || tb.Tx() != x || x.Body != body || x.Witness != wt {
					h.Fail("asking for the minimum fee changes the transaction: "+s+" becomes "+n, in)
					return
				}
			}
			b, err := x.Bytes()
			same(h, "bytes after asking for the fee", b, err, r.bytes(), in)
			fill(h, r, tb.AddInputs, tb.AddOutputs, 1, 1, h.Num)
			tb.MinFee()
			b, err = x.Bytes()
			same(h, "bytes after asking for the fee", b, err, r.bytes(), in)
		})
	}
	// two builders and a transaction from the caller's slices
	for i := 0; i < h.N(150) && !h.Done(); i++ {
		nk, ni, no := h.R.Intn(3), h.R.Intn(3), h.R.Intn(3)
		ks := make([]bip32.XPrv, nk, nk+4)
		for j := range ks {
			ks[j] = key(h)
		}
		sk := key(h)
		ks[:nk+4][nk] = sk
		ins, outs := make([]*tx.TxInput, ni, ni+4), make([]*tx.TxOutput, no, no+4)
		base := &ref{valid: true}
		for j := range ins {
			var y in
			y, ins[j] = newIn(h, h.Num())
			base.ins = append(base.ins, y)
		}
		for j := range outs {
			var y out
			y, outs[j] = newOut(h, h.Num())
			base.outs = append(base.outs, y)
		}
		h.Case(fmt.Sprintf("shared %d %d %d %s", nk, ni, no, base), func() {
			var tbs []*tx.TxBuilder
			var rs []*ref
			var kss [][]bip32.XPrv
			for j := 0; j < 3; j++ {
				tb := tx.NewTxBuilder(protocol.Protocol{TxFeePerByte: 44, TxFeeFixed: 155381}, ks)
				tb.AddInputs(ins...)
				tb.AddOutputs(outs...)
				tbs = append(tbs, tb)
				rs = append(rs, &ref{valid: true, ins: append([]in{}, base.ins...), outs: append([]out{}, base.outs...)})
				kss = append(kss, append([]bip32.XPrv{}, ks...))
			}
			for k := 0; k < 8; k++ {
				j := h.R.Intn(3)
				switch h.R.Intn(5) {
				case 0:
					n := key(h)
					tbs[j].Sign(n)
					kss[j] = append(kss[j], n)
				case 1:
					fill(h, rs[j], tbs[j].AddInputs, tbs[j].AddOutputs, 1, 0, h.Num)
				case 2:
					fill(h, rs[j], tbs[j].AddInputs, tbs[j].AddOutputs, 0, 1, h.Num)
				case 3:
					tbs[j].MinFee()
				case 4:
					rs[j].ttl = num32(h)
					tbs[j].SetTTL(rs[j].ttl)
				}
			}
			if len(ks) != nk || len(ins) != ni || len(outs) != no || !bytes.Equal(ks[:nk+4][nk], sk) || ins[:ni+4][ni] != nil || outs[:no+4][no] != nil {
				h.Fail("the caller's slices changed", base.String())
			}
			for j := range ins {
				if uint64(ins[j].Amount) != base.ins[j].am || !bytes.Equal(ins[j].TxHash, base.ins[j].hash) {
					h.Fail("the caller's inputs changed", base.String())
				}
			}
			for j, tb := range tbs {
				b, err := tb.Tx().Bytes()
				same(h, fmt.Sprintf("transaction of builder %d", j), b, err, rs[j].bytes(), rs[j].String())
			}
			// the caller's slices are the caller's: using them afterwards does not change the builders
			if nk > 0 {
				ks[0] = key(h)
			}
			if ni > 0 {
				ins[0], _ = nil, 0
			}
			if no > 0 {
				outs[0], _ = nil, 0
			}
			if i%3 == 0 {
				for j, tb := range tbs {
					x, err := tb.Build()
					if err != nil {
						h.Fail(err.Error(), base.String())
						continue
					}
					checkBuilt(h, x, rs[j], kss[j], fmt.Sprintf("builder %d of three, %s", j, rs[j]))
				}
			}
		})
	}
}
