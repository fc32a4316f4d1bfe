package addr

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"hash/crc32"
	"math/rand"
	"reflect"
	"strings"
	"testing"

	"github.com/btcsuite/btcutil/base58"
	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/internal/bech32"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/zzverif/vh"
	"github.com/fxamacker/cbor/v2"
)

func cred(h *vh.H) address.StakeCredential {
	b := make([]byte, 28, 28+h.R.Intn(3)*40)
	h.R.Read(b)
	if h.R.Intn(8) == 0 {
		for i := range b {
			b[i] = []byte{0, 0xff}[h.R.Intn(2)]
		}
	}
	if h.R.Intn(2) == 0 {
		return *address.NewKeyStakeCredential(b)
	}
	return *address.NewScriptStakeCredential(b)
}

func net(h *vh.H) *network.NetworkInfo {
	if h.R.Intn(2) == 0 {
		return network.MainNet()
	}
	return network.TestNet()
}

func kb(c address.StakeCredential) byte { return byte(c.Kind) & 1 }

type sample struct {
	kind string
	a    address.Address
	want []byte
	net  *network.NetworkInfo
	desc string
}

// make builds an address of each kind with the specified bytes of it.
func samples(h *vh.H) []sample {
	n := net(h)
	id := n.NetworkId
	p, s := cred(h), cred(h)
	sl, ti, ci := h.Num(), h.Num(), h.Num()
	d := fmt.Sprintf("net=%d payment=%d:%x stake=%d:%x pointer=%d,%d,%d", id, p.Kind, p.Payload, s.Kind, s.Payload, sl, ti, ci)
	return []sample{
		{"base", address.NewBaseAddress(n, &p, &s), vh.Cat([]byte{kb(p)<<4 | kb(s)<<5 | id}, p.Payload, s.Payload), n, d},
		{"enterprise", address.NewEnterpriseAddress(n, &p), vh.Cat([]byte{0x60 | kb(p)<<4 | id}, p.Payload), n, d},
		{"reward", address.NewRewardAddress(n, &s), vh.Cat([]byte{0xe0 | kb(s)<<4 | id}, s.Payload), n, d},
		{"pointer", address.NewPointerAddress(*n, p, *address.NewPointer(sl, ti, ci)),
			vh.Cat([]byte{0x40 | kb(p)<<4 | id}, p.Payload, vh.VarNat(sl), vh.VarNat(ti), vh.VarNat(ci)), n, d},
	}
}

func TestC01(t *testing.T) {
	h := vh.New(t, "C01")
	for i := 0; i < h.N(3000) && !h.Done(); i++ {
		for _, s := range samples(h) {
			s := s
			h.Case(s.kind+" "+s.desc, func() {
				if b := s.a.Bytes(); !bytes.Equal(b, s.want) {
					h.Fail(fmt.Sprintf("%s address bytes %x, want %x", s.kind, b, s.want), s.desc)
				}
				if *s.a.NetworkInfo() != *s.net {
					h.Fail("network of the address", s.desc)
				}
				if b, ok := s.a.(*address.BaseAddress); ok {
					e, r := b.ToEnterprise(), b.ToReward()
					if w := vh.Cat([]byte{0x60 | s.want[0]&0x10 | s.want[0]&15}, s.want[1:29]); !bytes.Equal(e.Bytes(), w) || e.Network != *s.net {
						h.Fail(fmt.Sprintf("ToEnterprise gives %x, want %x", e.Bytes(), w), s.desc)
					}
					if w := vh.Cat([]byte{0xe0 | s.want[0]&0x20>>1 | s.want[0]&15}, s.want[29:]); !bytes.Equal(r.Bytes(), w) || r.Network != *s.net {
						h.Fail(fmt.Sprintf("ToReward gives %x, want %x", r.Bytes(), w), s.desc)
					}
					if !bytes.Equal(b.Bytes(), s.want) {
						h.Fail("conversion changed the base address", s.desc)
					}
				}
			})
		}
	}
	for id := 0; id < 16; id++ {
		n := network.NetworkInfo{NetworkId: byte(id), ProtocolMagic: 42}
		p := cred(h)
		for _, a := range []address.Address{address.NewBaseAddress(&n, &p, &p), address.NewEnterpriseAddress(&n, &p), address.NewRewardAddress(&n, &p),
			address.NewPointerAddress(n, p, *address.NewPointer(1, 2, 3))} {
			h.Case(fmt.Sprintf("network id %d %T", id, a), func() {
				if a.Bytes()[0]&15 != byte(id) {
					h.Fail("network id in the header", id)
				}
			})
		}
	}
	// the bytes belong to the caller: changing them does not change the address
	for _, s := range samples(h) {
		b := s.a.Bytes()
		for i := range b {
			b[i] ^= 0xff
		}
		if !bytes.Equal(s.a.Bytes(), s.want) {
			h.Fail("changing the returned bytes changes the address", s.desc)
		}
	}
}

func shelley(a address.Address) bool {
	switch a.(type) {
	case *address.BaseAddress, *address.EnterpriseAddress, *address.RewardAddress, *address.PointerAddress:
		return true
	}
	return false
}

// expect: what decoding bytes should give: "" for rejection
func expect(b []byte) (kind string) {
	if len(b) == 0 {
		return ""
	}
	t := b[0] >> 4
	if t == 8 {
		return "byron?"
	}
	if b[0]&15 > 1 {
		return ""
	}
	switch {
	case t < 4 && len(b) == 57:
		return "*address.BaseAddress"
	case (t == 6 || t == 7) && len(b) == 29:
		return "*address.EnterpriseAddress"
	case t >= 14 && len(b) == 29:
		return "*address.RewardAddress"
	case (t == 4 || t == 5) && len(b) > 29:
		r := b[29:]
		for i := 0; i < 3; i++ {
			_, n, ok := vh.VarNatPrefix(r)
			if !ok {
				return ""
			}
			r = r[n:]
		}
		if len(r) == 0 {
			return "*address.PointerAddress"
		}
	}
	return ""
}

func checkDecoded(h *vh.H, b []byte, a address.Address, err error) {
	w := expect(b)
	in := hex.EncodeToString(b)
	if err != nil {
		if w != "" && w != "byron?" {
			h.Fail("valid "+w+" rejected: "+err.Error(), in)
		}
		return
	}
	if a == nil || reflect.ValueOf(a).IsNil() {
		h.Fail("success without an address", in)
		return
	}
	if w == "byron?" {
		if _, ok := a.(*address.ByronAddress); !ok {
			h.Fail(fmt.Sprintf("decoded as %T", a), in)
		} else if !bytes.Equal(a.Bytes(), b) {
			h.Fail("re-encoding differs", in)
		}
		return
	}
	if fmt.Sprintf("%T", a) != w {
		h.Fail(fmt.Sprintf("decoded as %T, want %q", a, w), in)
		return
	}
	if got := a.Bytes(); !bytes.Equal(got, b) {
		h.Fail(fmt.Sprintf("decoded address encodes to %x", got), in)
	}
	nw := network.TestNet()
	if b[0]&15 == 1 {
		nw = network.MainNet()
	}
	if *a.NetworkInfo() != *nw {
		h.Fail(fmt.Sprintf("network %v", *a.NetworkInfo()), in)
	}
	chk := func(c address.StakeCredential, bit uint, pos int, name string) {
		if byte(c.Kind) != b[0]>>bit&1 || !bytes.Equal(c.Payload, b[pos:pos+28]) {
			h.Fail(fmt.Sprintf("%s credential %d:%x", name, c.Kind, c.Payload), in)
		}
	}
	switch x := a.(type) {
	case *address.BaseAddress:
		chk(x.Payment, 4, 1, "payment")
		chk(x.Stake, 5, 29, "stake")
	case *address.EnterpriseAddress:
		chk(x.Payment, 4, 1, "payment")
	case *address.RewardAddress:
		chk(x.Stake, 4, 1, "stake")
	case *address.PointerAddress:
		chk(x.Payment, 4, 1, "payment")
		r := b[29:]
		for i, g := range []uint64{x.Stake.Slot, x.Stake.TxIndex, x.Stake.CertIndex} {
			v, n, _ := vh.VarNatPrefix(r)
			if v != g {
				h.Fail(fmt.Sprintf("pointer number %d is %d, want %d", i, g, v), in)
			}
			r = r[n:]
		}
	}
}

func decodeBoth(h *vh.H, b []byte) {
	h.Case(hex.EncodeToString(b), func() {
		c := append([]byte{}, b...)
		a, err := address.NewAddressFromBytes(c)
		if !bytes.Equal(b, c) {
			h.Fail("decoding changed the input", hex.EncodeToString(b))
		}
		checkDecoded(h, b, a, err)
		a, err = address.NewAddressFromHex(hex.EncodeToString(b))
		checkDecoded(h, b, a, err)
	})
}

func TestC02(t *testing.T) {
	h := vh.New(t, "C02")
	for _, b := range h.HintBytes("data", "hex") {
		decodeBoth(h, b)
	}
	for hd := 0; hd < 256; hd++ {
		for n := 0; n < 70; n++ {
			b := h.Bytes(n)
			if n > 0 {
				b[0] = byte(hd)
			}
			decodeBoth(h, b)
			if n > 29 {
				for i := 29; i < n; i++ {
					b[i] &= 0x7f
				}
				decodeBoth(h, b)
			}
		}
	}
	for i := 0; i < h.N(1500) && !h.Done(); i++ {
		for _, s := range samples(h) {
			decodeBoth(h, s.want)
			decodeBoth(h, append(append([]byte{}, s.want...), byte(h.R.Intn(256))))
			decodeBoth(h, s.want[:len(s.want)-1])
			if s.kind == "pointer" {
				// non-minimal and overlong numbers
				k := 29
				for j := h.R.Intn(3); j > 0; j-- {
					_, n, _ := vh.VarNatPrefix(s.want[k:])
					k += n
				}
				decodeBoth(h, vh.Cat(s.want[:k], []byte{0x80}, s.want[k:]))
				decodeBoth(h, vh.Cat(s.want[:k], []byte{0x82}, vh.VarNat(1 << 63), s.want[k:]))
				decodeBoth(h, vh.Cat(s.want[:k], bytes.Repeat([]byte{0xff}, 9+h.R.Intn(4)), []byte{0x7f}, s.want[k:]))
			}
		}
		b := byronBytes(h)
		decodeBoth(h, b)
		b[h.R.Intn(len(b))] ^= byte(1 + h.R.Intn(255))
		decodeBoth(h, b)
	}
	for _, s := range []string{"zz", "0", "00x", "é", "61"} {
		h.Case("hex "+s, func() {
			if _, err := address.NewAddressFromHex(s); err == nil {
				h.Fail("malformed hex accepted", s)
			}
		})
	}
}

func prefix(s sample) string {
	p := "addr"
	if s.kind == "reward" {
		p = "stake"
	}
	if s.net.NetworkId == 0 {
		p += "_test"
	}
	return p
}

func TestC03(t *testing.T) {
	h := vh.New(t, "C03")
	parse := func(txt string) {
		h.Case(txt, func() {
			a, err := address.NewAddress(txt)
			if err == nil {
				if a == nil || a.String() != txt {
					h.Fail("text is accepted but printed differently", txt)
				}
			}
		})
	}
	for _, b := range h.HintBytes("raw", "s") {
		parse(string(b))
	}
	for i := 0; i < h.N(700) && !h.Done(); i++ {
		for _, s := range samples(h) {
			s := s
			txt := vh.Bech32Encode(prefix(s), s.want)
			h.Case(s.kind+s.desc, func() {
				if got := s.a.String(); got != txt {
					h.Fail(fmt.Sprintf("text of %s address is %s, want %s", s.kind, got, txt), s.desc)
				}
				a, err := address.NewAddress(txt)
				if err != nil {
					h.Fail("text of an address rejected: "+err.Error(), txt)
					return
				}
				if fmt.Sprintf("%T", a) != fmt.Sprintf("%T", s.a) || !bytes.Equal(a.Bytes(), s.want) || *a.NetworkInfo() != *s.net {
					h.Fail("parsing the text gives another address", txt)
				}
				checkDecoded(h, s.want, a, nil)
			})
			for _, p := range []string{"addr", "addr_test", "stake", "stake_test", "addr1", "addrx", "stakes"} {
				parse(vh.Bech32Encode(p, s.want))
			}
			parse(strings.ToUpper(txt))
			parse(txt[:len(txt)-1])
			parse(vh.Bech32Encode(prefix(s), append(append([]byte{}, s.want...), 0)))
			parse(base58.Encode(s.want))
			k := h.R.Intn(len(txt))
			parse(txt[:k] + string(rune(33+h.R.Intn(94))) + txt[k+1:])
		}
		b := byronBytes(h)
		parse(base58.Encode(b))
		parse("1" + base58.Encode(b))
	}
	for _, s := range []string{"", "addr", "stake", "addr1", "stake1", "addr_test1", "1", "addr1\u212a", "\u212a", "addr1qqqqqqqqqqqqqqqqqqqq", "111111", "II0l"} {
		parse(s)
	}
	for i := 0; i < h.N(2000) && !h.Done(); i++ {
		parse(string(h.Bytes(h.R.Intn(40))))
		parse("addr" + string(h.Bytes(h.R.Intn(40))))
		parse("addr1" + rnd(h.R, h.R.Intn(70)))
		parse("stake1" + rnd(h.R, h.R.Intn(70)))
		parse(vh.Bech32Encode([]string{"addr", "addr_test", "stake", "stake_test"}[h.R.Intn(4)], h.Bytes(h.R.Intn(62))))
	}
}

func rnd(r *rand.Rand, n int) string {
	s := ""
	for i := 0; i < n; i++ {
		s += string(vh.B32Alphabet[r.Intn(32)])
	}
	return s
}

func TestC04(t *testing.T) {
	h := vh.New(t, "C04")
	decode := func(s string) {
		h.Case("decode "+s, func() {
			p, d, err := bech32.Decode(s)
			wp, wd, ok := vh.Bech32Decode(s)
			if ok != (err == nil) {
				h.Fail(fmt.Sprintf("Decode: accepted=%v, want %v (%v)", err == nil, ok, err), s)
			} else if ok && (p != wp || !bytes.Equal(d, wd)) {
				h.Fail(fmt.Sprintf("Decode gives %q %x, want %q %x", p, d, wp, wd), s)
			}
		})
	}
	encode := func(hrp string, d []byte, deep bool) {
		in := fmt.Sprintf("%q %x", hrp, d)
		txt := vh.Bech32Encode(hrp, d)
		h.Case("encode "+in, func() {
			c := append([]byte{}, d...)
			got, err := bech32.Encode(hrp, c)
			if err != nil || got != txt {
				h.Fail(fmt.Sprintf("Encode gives %q %v, want %q", got, err, txt), in)
			}
			if !bytes.Equal(c, d) {
				h.Fail("Encode changed its argument", in)
			}
		})
		decode(txt)
		decode(strings.ToUpper(txt))
		n := 1
		if deep {
			n = len(txt) - len(hrp) - 1
		}
		for k := 0; k < n; k++ {
			i := len(hrp) + 1 + k
			if !deep {
				i = len(hrp) + 1 + h.R.Intn(len(txt)-len(hrp)-1)
			}
			c := vh.B32Alphabet[h.R.Intn(32)]
			if c != txt[i] {
				s := txt[:i] + string(c) + txt[i+1:]
				h.Case("corrupt "+s, func() {
					if _, _, err := bech32.Decode(s); err == nil {
						h.Fail("corrupted text accepted", s)
					}
				})
			}
			decode(txt[:i] + strings.ToUpper(txt[i:]))
			decode(txt[:i] + string(rune(33+h.R.Intn(94))) + txt[i+1:])
			decode(txt[:i] + txt[i+1:])
		}
	}
	for _, b := range h.HintBytes("s") {
		decode(string(b))
	}
	for _, d := range h.HintBytes("data") {
		encode("addr", d, true)
		for _, p := range h.HintBytes("hrp") {
			s := string(p)
			h.Case("encode "+s, func() { bech32.Encode(s, d) })
		}
	}
	hrps := []string{"addr", "stake_test", "a", "1", "x1y", "!\"#$%&'()*+,-./:;<=>?@[]^_`{|}~0123456789", "addr_test"}
	for n := 0; n < 130; n++ {
		for _, p := range hrps {
			encode(p, h.Bytes(n), n < 60 && n%7 == 0)
			encode(p, bytes.Repeat([]byte{byte(h.R.Intn(2) * 255)}, n), false)
		}
	}
	for i := 0; i < h.N(1500) && !h.Done(); i++ {
		b := h.Bytes(1 + h.R.Intn(12))
		for k := range b {
			b[k] = 33 + b[k]%94
			if 'A' <= b[k] && b[k] <= 'Z' {
				b[k] += 32
			}
		}
		encode(string(b), h.Bytes(h.R.Intn(300)), false)
	}
	// valid checksums over bad padding
	for i := 0; i < h.N(3000) && !h.Done(); i++ {
		n := h.R.Intn(30)
		v := make([]byte, n)
		for k := range v {
			v[k] = byte(h.R.Intn(32))
		}
		if n > 0 && h.R.Intn(2) == 0 {
			v[n-1] = byte(1 << uint(h.R.Intn(5)))
		}
		decode(vh.Bech32FromValues("addr", v))
	}
	for i := 0; i < h.N(3000) && !h.Done(); i++ {
		decode(string(h.Bytes(h.R.Intn(20))))
		decode("a1" + rnd(h.R, h.R.Intn(12)))
	}
	for _, s := range []string{"", "1", "a1", "1qqqqqq", "a1qqqqqq", "\u212a1qqqqqq", "addr1\u212aqqqqqq", "A1lqfn3a", "a1lqfn3a", "?1ezyfcl", "?1v759aa", "a12uel5l", "a1LQFN3A", "10a06t8", "li1dgmt3", "pzry9x0s0muk"} {
		decode(s)
	}
	for i := 0; i < 300; i++ {
		p, d := string(h.Bytes(h.R.Intn(6))), h.Bytes(h.R.Intn(20))
		h.Case(fmt.Sprintf("any prefix %q", p), func() { bech32.Encode(p, d) })
	}
}

func TestC05(t *testing.T) {
	h := vh.New(t, "C05")
	one := func(v uint64) {
		h.Case(v, func() {
			w := vh.VarNat(v)
			got := address.VariableNatEncode(v)
			if !bytes.Equal(got, w) {
				h.Fail(fmt.Sprintf("encoded as %x, want %x", got, w), v)
			}
			for _, rest := range [][]byte{nil, {0}, {0x80}, {0xff, 0xff}, h.Bytes(12)} {
				in := vh.Cat(w, rest)
				x, n, err := address.VariableNatDecode(in)
				if err != nil || x != v || n != len(w) {
					h.Fail(fmt.Sprintf("decoding %x gives %d, %d, %v", in, x, n, err), v)
				}
			}
		})
	}
	dec := func(b []byte) {
		h.Case(fmt.Sprintf("%x", b), func() {
			x, n, err := address.VariableNatDecode(b)
			wv, wn, ok := vh.VarNatPrefix(b)
			if ok != (err == nil) || ok && (x != wv || n != wn) {
				h.Fail(fmt.Sprintf("decoding gives %d, %d, %v; want %d, %d, ok=%v", x, n, err, wv, wn, ok), fmt.Sprintf("%x", b))
			}
		})
	}
	for _, v := range h.HintUints("num") {
		one(v)
	}
	for _, b := range h.HintBytes("raw") {
		dec(b)
	}
	for v := uint64(0); v < 70000; v++ {
		one(v)
		if h.Done() {
			return
		}
	}
	for k := uint(0); k < 64; k++ {
		for d := uint64(0); d < 5; d++ {
			one(uint64(1)<<k + d)
			one(uint64(1)<<k - d)
		}
	}
	one(^uint64(0))
	for i := 0; i < h.N(20000) && !h.Done(); i++ {
		one(h.Num())
	}
	for i := 0; i < 256; i++ {
		dec([]byte{byte(i)})
		for j := 0; j < 256; j++ {
			dec([]byte{byte(i), byte(j)})
		}
	}
	for n := 0; n < 14; n++ {
		for _, f := range []byte{0x80, 0x81, 0xff, 0xfe} {
			for _, l := range []byte{0, 1, 0x7f, 0x80, 0xff} {
				for _, s := range []byte{0x80, 0x81, 0x82, 0x83, 0xff} {
					dec(vh.Cat([]byte{s}, bytes.Repeat([]byte{f}, n), []byte{l}))
				}
			}
		}
	}
	for i := 0; i < h.N(40000) && !h.Done(); i++ {
		b := h.Bytes(h.R.Intn(16))
		for k := range b {
			if h.R.Intn(6) > 0 {
				b[k] |= 0x80
			}
		}
		dec(b)
	}
}

// byronBytes: the encoding of a Byron address by the reference encoder
func byronBytes(h *vh.H) []byte {
	b, _ := byron(h)
	return b
}

func byron(h *vh.H) ([]byte, *address.ByronAddress) {
	a := &address.ByronAddress{Hash: h.Bytes(28)}
	if h.R.Intn(2) == 0 {
		a.Attributes.Payload = h.Bytes(1 + h.R.Intn(40))
	}
	if h.R.Intn(2) == 0 {
		a.Attributes.Network = vh.CUint(uint64(h.R.Uint32()))
	}
	return byronEnc(a), a
}

func byronEnc(a *address.ByronAddress) []byte {
	n, attrs := 0, []byte{}
	if len(a.Attributes.Payload) > 0 {
		n++
		attrs = vh.Cat(attrs, []byte{1}, vh.CBytes(a.Attributes.Payload))
	}
	if len(a.Attributes.Network) > 0 {
		n++
		attrs = vh.Cat(attrs, []byte{2}, vh.CBytes(a.Attributes.Network))
	}
	raw := vh.Cat([]byte{0x83}, vh.CBytes(a.Hash), vh.Head(5, uint64(n)), attrs, vh.CUint(uint64(a.Tag)))
	return wrap(raw, crc32.ChecksumIEEE(raw))
}

func wrap(raw []byte, crc uint32) []byte {
	return vh.Cat([]byte{0x82, 0xd8, 0x18}, vh.CBytes(raw), vh.CUint(uint64(crc)))
}

func TestC06(t *testing.T) {
	h := vh.New(t, "C06")
	accept := func(b []byte, must int, why string) { // must: 1 accepted, 0 rejected, -1 either
		h.Case(fmt.Sprintf("%x", b), func() {
			var a address.ByronAddress
			err := a.UnmarshalCBOR(b)
			if err == nil && !bytes.Equal(a.Bytes(), b) {
				h.Fail("accepted but encodes to other bytes", fmt.Sprintf("%x", b))
			}
			if must == 1 && err != nil {
				h.Fail(why+" rejected: "+err.Error(), fmt.Sprintf("%x", b))
			}
			if must == 0 && err == nil {
				h.Fail(why+" accepted", fmt.Sprintf("%x", b))
			}
			x, err2 := address.NewAddressFromBytes(b)
			if (err2 == nil) != (err == nil) && len(b) > 0 && b[0]>>4 == 8 {
				h.Fail("NewAddressFromBytes disagrees", fmt.Sprintf("%x", b))
			}
			if err2 == nil {
				if y, err3 := address.NewAddress(x.String()); err3 != nil || !bytes.Equal(y.Bytes(), b) {
					h.Fail("text form does not round-trip", fmt.Sprintf("%x", b))
				}
			}
		})
	}
	for _, b := range h.HintBytes("data") {
		accept(b, -1, "")
	}
	for i := 0; i < h.N(3000) && !h.Done(); i++ {
		b, a := byron(h)
		accept(b, 1, "valid address")
		h.Case(fmt.Sprintf("fields %x", b), func() {
			if got := a.Bytes(); !bytes.Equal(got, b) {
				h.Fail(fmt.Sprintf("encoded as %x", got), fmt.Sprintf("%x", b))
			}
			if got, err := a.MarshalCBOR(); err != nil || !bytes.Equal(got, b) {
				h.Fail(fmt.Sprintf("marshalled as %x, %v", got, err), fmt.Sprintf("%x", b))
			}
			main := len(a.Attributes.Network) == 0
			if (*a.NetworkInfo() == *network.MainNet()) != main || (*a.NetworkInfo() == *network.TestNet()) == main {
				h.Fail("network", fmt.Sprintf("%x", b))
			}
			if a.String() != base58.Encode(b) {
				h.Fail("text is not the base58 of the bytes", fmt.Sprintf("%x", b))
			}
			var c address.ByronAddress
			if err := cbor.Unmarshal(b, &c); err != nil {
				h.Fail("rejected: "+err.Error(), fmt.Sprintf("%x", b))
			} else if !bytes.Equal(c.Hash, a.Hash) || !bytes.Equal(c.Attributes.Payload, a.Attributes.Payload) || !bytes.Equal(c.Attributes.Network, a.Attributes.Network) || c.Tag != 0 {
				h.Fail("decoded to other fields", fmt.Sprintf("%x", b))
			}
		})
		raw := vh.Cat([]byte{0x83}, vh.CBytes(a.Hash), []byte{0xa0}, []byte{0})
		crc := crc32.ChecksumIEEE(raw)
		accept(wrap(raw, crc), 1, "valid address")
		accept(wrap(raw, crc^uint32(1)<<uint(h.R.Intn(32))), 0, "wrong checksum")
		accept(wrap(raw, 0), 0, "zero checksum")
		accept(wrap(raw, crc32.Checksum(raw, crc32.MakeTable(crc32.Castagnoli))), 0, "wrong checksum")
		accept(vh.Cat([]byte{0x82, 0xd8, byte(25 + h.R.Intn(200))}, vh.CBytes(raw), vh.CUint(uint64(crc))), 0, "wrong tag")
		accept(vh.Cat([]byte{0x82}, vh.CBytes(raw), vh.CUint(uint64(crc))), 0, "untagged payload")
		for _, n := range []int{0, 1, 27, 29, 32, h.R.Intn(60)} {
			if n != 28 {
				r := vh.Cat([]byte{0x83}, vh.CBytes(h.Bytes(n)), []byte{0xa0, 0})
				accept(wrap(r, crc32.ChecksumIEEE(r)), 0, "wrong hash length")
			}
		}
		for _, ty := range []uint64{1, 2, 3, 24, 256, 1 << 32, h.Num() | 1} {
			r := vh.Cat([]byte{0x83}, vh.CBytes(a.Hash), []byte{0xa0}, vh.CUint(ty))
			accept(wrap(r, crc32.ChecksumIEEE(r)), 0, "type other than zero")
		}
		r := vh.Cat([]byte{0x83}, vh.CBytes(a.Hash), []byte{0xa1, byte(3 + h.R.Intn(20))}, vh.CBytes(h.Bytes(3)), []byte{0})
		accept(wrap(r, crc32.ChecksumIEEE(r)), -1, "unknown attribute")
		accept(append(append([]byte{}, b...), 0), 0, "trailing byte")
		accept(b[:h.R.Intn(len(b))], 0, "truncated address")
		c := append([]byte{}, b...)
		c[h.R.Intn(len(c))] ^= byte(1 << uint(h.R.Intn(8)))
		accept(c, -1, "")
	}
}

func TestC07(t *testing.T) {
	h := vh.New(t, "C07")
	for i := 0; i < h.N(1500) && !h.Done(); i++ {
		ss := samples(h)
		bb, ba := byron(h)
		ss = append(ss, sample{"byron", ba, bb, nil, fmt.Sprintf("%x", bb)})
		for _, s := range ss {
			s := s
			v := uint(h.Num())
			in := fmt.Sprintf("%s %s %d", s.kind, s.desc, v)
			h.Case(in, func() {
				got, err := cbor.Marshal(tx.NewTxOutput(s.a, v))
				want := vh.Cat([]byte{0x82}, vh.CBytes(s.want), vh.CUint(uint64(v)))
				if err != nil || !bytes.Equal(got, want) {
					h.Fail(fmt.Sprintf("output encoded as %x, %v; want %x", got, err, want), in)
				}
				if got, err := cbor.Marshal([]*tx.TxOutput{tx.NewTxOutput(s.a, v)}); err != nil || !bytes.Equal(got, append([]byte{0x81}, want...)) {
					h.Fail(fmt.Sprintf("list of outputs encoded as %x, %v", got, err), in)
				}
				if s.kind != "byron" {
					if got, err := cbor.Marshal(s.a); err != nil || !bytes.Equal(got, vh.CBytes(s.want)) {
						h.Fail(fmt.Sprintf("address encoded as %x, %v", got, err), in)
					}
					if got, err := s.a.MarshalCBOR(); err != nil || !bytes.Equal(got, vh.CBytes(s.want)) {
						h.Fail(fmt.Sprintf("address marshalled as %x, %v", got, err), in)
					}
				}
			})
		}
	}
}
