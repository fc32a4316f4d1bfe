From 3c1e9c379179ae02aeef6d6e866f3aa761c3ef03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:42 +0000
Subject: [PATCH 01/27] fix: return an error instead of panicking when an
 address has no bytes

---
 address/address.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/address/address.go b/address/address.go
index f438de8..6975bc3 100644
--- a/address/address.go
+++ b/address/address.go
@@ -55,6 +55,9 @@ func NewAddressFromHex(hexAddr string) (addr Address, err error) {
 }
 
 func NewAddressFromBytes(data []byte) (addr Address, err error) {
+	if len(data) == 0 {
+		return nil, errors.New("cbor not enough error")
+	}
 	header := data[0]
 	netId := header & 0x0F
 
-- 
2.43.0


From af6cb90e7eafdae3567db8374462b6081e6768a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:43 +0000
Subject: [PATCH 02/27] fix: check the length of base addresses when decoding
 them

---
 address/address.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/address/address.go b/address/address.go
index 6975bc3..5a0053a 100644
--- a/address/address.go
+++ b/address/address.go
@@ -83,6 +83,13 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 	// 0010: base address: keyhash28,scripthash28
 	// 0011: base address: scripthash28,scripthash28
 	case 0b0000, 0b0001, 0b0010, 0b0011:
+		const baseAddrSize = 1 + 28 + 28
+		if len(data) < baseAddrSize {
+			return nil, errors.New("cbor not enough error")
+		}
+		if len(data) > baseAddrSize {
+			return nil, errors.New("cbor trailing data error")
+		}
 		baseAddr := BaseAddress{
 			Network: networks[netId],
 			Payment: *readAddrCred(data, header, 4, 1),
-- 
2.43.0


From 8d53ce3835f9a5f6b4de948a76d70d602d6115fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:43 +0000
Subject: [PATCH 03/27] fix: reject addresses of unknown networks instead of
 decoding them as testnet

---
 address/address.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/address/address.go b/address/address.go
index 5a0053a..480da1c 100644
--- a/address/address.go
+++ b/address/address.go
@@ -66,6 +66,11 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 		byte(0): *network.TestNet(),
 	}
 
+	// Byron addresses do not carry a network id in their first byte.
+	if _, ok := networks[netId]; !ok && (header&0xF0)>>4 != 0b1000 {
+		return nil, ErrUnsupportedAddress
+	}
+
 	switch (header & 0xF0) >> 4 {
 	// 1000: byron address
 	case 0b1000:
-- 
2.43.0


From 4f3798be93f80d29750da6aa5717bb5c099d96c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:44 +0000
Subject: [PATCH 04/27] fix: marshal the bytes of a reward address, not the
 Bytes method

---
 address/reward.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/reward.go b/address/reward.go
index 3d43b08..68c01e3 100644
--- a/address/reward.go
+++ b/address/reward.go
@@ -30,7 +30,7 @@ func (r *RewardAddress) String() string {
 
 // MarshalCBOR returns a cbor encoded byte slice of the base address.
 func (r *RewardAddress) MarshalCBOR() ([]byte, error) {
-	return cbor.Marshal(r.Bytes)
+	return cbor.Marshal(r.Bytes())
 }
 
 // NetworkInfo returns pointer to NetworkInfo{ProtocolMagigic and NetworkId}.
-- 
2.43.0


From f1acb249de75875f8f8fd46f07b744552f9f4855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:45 +0000
Subject: [PATCH 05/27] fix: encode pointer addresses to bech32 with 5 bit
 groups

---
 address/pointer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/address/pointer.go b/address/pointer.go
index 969a300..84e249d 100644
--- a/address/pointer.go
+++ b/address/pointer.go
@@ -4,7 +4,7 @@ import (
 	"errors"
 	"reflect"
 
-	"github.com/btcsuite/btcutil/bech32"
+	"github.com/fivebinaries/go-cardano-serialization/internal/bech32"
 	"github.com/fivebinaries/go-cardano-serialization/network"
 	"github.com/fxamacker/cbor/v2"
 )
@@ -82,7 +82,7 @@ func (p *PointerAddress) String() string {
 
 // Prefix returns the string prefix for the base address. Prefix `addr` for mainnet addresses and `addr_test` for testnet.
 func (p *PointerAddress) Prefix() string {
-	if p.Network == *network.TestNet() {
+	if p.Network.NetworkId == network.TestNet().NetworkId {
 		return "addr_test"
 	}
 	return "addr"
-- 
2.43.0


From 88e3e7b2a99181d8d27aeeba109445b54003890c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:46 +0000
Subject: [PATCH 06/27] fix: reject pointer fields that are not minimal or do
 not fit in 64 bits

---
 address/pointer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/address/pointer.go b/address/pointer.go
index 84e249d..fd05b97 100644
--- a/address/pointer.go
+++ b/address/pointer.go
@@ -2,6 +2,7 @@ package address
 
 import (
 	"errors"
+	"math"
 	"reflect"
 
 	"github.com/fivebinaries/go-cardano-serialization/internal/bech32"
@@ -39,6 +40,10 @@ func VariableNatDecode(raw []byte) (uint64, int, error) {
 	output = 0
 	bytes_read := 0
 	for _, rbyte := range raw {
+		// A leading zero group or more than 64 bits is never produced by VariableNatEncode
+		if (bytes_read == 0 && rbyte == 0x80) || output > math.MaxUint64>>7 {
+			break
+		}
 		output = (output << 7) | uint64(rbyte&0x7F)
 		bytes_read += 1
 		if (rbyte & 0x80) == 0 {
-- 
2.43.0


From 0fb509a3c43a37675c9324610fa66f56543e8e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:46 +0000
Subject: [PATCH 07/27] fix: read the network attribute of Byron addresses as
 the byte string it is

---
 address/byron.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/address/byron.go b/address/byron.go
index a315579..7604960 100644
--- a/address/byron.go
+++ b/address/byron.go
@@ -16,7 +16,7 @@ var (
 
 type ByronAddressAttributes struct {
 	Payload []byte `cbor:"1,keyasint,omitempty"`
-	Network *uint8 `cbor:"2,keyasint,omitempty"`
+	Network []byte `cbor:"2,keyasint,omitempty"`
 }
 
 type ByronAddress struct {
@@ -38,7 +38,7 @@ func (b *ByronAddress) String() (str string) {
 
 // NetworkInfo returns NetworkInfo{ProtocolMagigic and NetworkId}.
 func (b *ByronAddress) NetworkInfo() (ni *network.NetworkInfo) {
-	if b.Attributes.Network == nil {
+	if len(b.Attributes.Network) == 0 {
 		return network.MainNet()
 	}
 	return network.TestNet()
-- 
2.43.0


From 9309be7720c52f3267e872cad2048cb898459afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:47 +0000
Subject: [PATCH 08/27] fix: reject Byron addresses that would not encode to
 the same bytes

---
 address/byron.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/address/byron.go b/address/byron.go
index 7604960..329084d 100644
--- a/address/byron.go
+++ b/address/byron.go
@@ -1,6 +1,7 @@
 package address
 
 import (
+	"bytes"
 	"errors"
 	"hash/crc32"
 
@@ -95,12 +96,23 @@ func (b *ByronAddress) UnmarshalCBOR(data []byte) error {
 		return errors.New("")
 	}
 
-	*b = ByronAddress{
+	decoded := ByronAddress{
 		Hash:       byron.Hashed,
 		Attributes: byron.Attrs,
 		Tag:        byron.Tag,
 	}
 
+	// What cannot be represented (unknown attributes, say) would be lost on encoding
+	encoded, err := decoded.MarshalCBOR()
+	if err != nil {
+		return err
+	}
+	if !bytes.Equal(encoded, data) {
+		return ErrInvalidByronAddress
+	}
+
+	*b = decoded
+
 	return nil
 }
 
-- 
2.43.0


From 37c63c162ca2e0aae931fb0763b748f54d8090fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:48 +0000
Subject: [PATCH 09/27] fix: reject address strings whose prefix or encoding
 does not match the address

---
 address/address.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/address/address.go b/address/address.go
index 480da1c..d85adc5 100644
--- a/address/address.go
+++ b/address/address.go
@@ -42,7 +42,17 @@ func NewAddress(raw string) (addr Address, err error) {
 		return
 	}
 
-	return NewAddressFromBytes(data)
+	addr, err = NewAddressFromBytes(data)
+	if err != nil {
+		return
+	}
+
+	// The prefix has to be the one of this kind of address and network
+	if addr.String() != raw {
+		return nil, ErrUnsupportedAddress
+	}
+
+	return
 }
 
 func NewAddressFromHex(hexAddr string) (addr Address, err error) {
-- 
2.43.0


From a80c71ac0d24562bdeff7526fc22d712a88df1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:49 +0000
Subject: [PATCH 10/27] fix: encode Byron addresses in transaction outputs as
 byte strings

---
 tx/tx_input_output.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tx/tx_input_output.go b/tx/tx_input_output.go
index a1ef170..d6c5ffe 100644
--- a/tx/tx_input_output.go
+++ b/tx/tx_input_output.go
@@ -45,6 +45,20 @@ type TxOutput struct {
 	Amount  uint
 }
 
+// MarshalCBOR encodes the output, with the address as a byte string whatever its type.
+func (txO *TxOutput) MarshalCBOR() ([]byte, error) {
+	type arrayOutput struct {
+		_       struct{} `cbor:",toarray"`
+		Address []byte
+		Amount  uint
+	}
+	output := arrayOutput{
+		Address: txO.Address.Bytes(),
+		Amount:  txO.Amount,
+	}
+	return cbor.Marshal(output)
+}
+
 func NewTxOutput(addr address.Address, amount uint) *TxOutput {
 	return &TxOutput{
 		Address: addr,
-- 
2.43.0


From 6240c81650679f1874089d7f78feb9d053426d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:26 +0000
Subject: [PATCH 11/27] fix: encode metadata maps in a fixed order, so that
 their hash matches

---
 tx/tx.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tx/tx.go b/tx/tx.go
index ca4d583..6674291 100644
--- a/tx/tx.go
+++ b/tx/tx.go
@@ -9,6 +9,9 @@ import (
 	"golang.org/x/crypto/blake2b"
 )
 
+// encMode encodes maps in a fixed order: the metadata has to be encoded to the bytes which were hashed.
+var encMode, _ = cbor.EncOptions{Sort: cbor.SortCanonical}.EncMode()
+
 type Tx struct {
 	_        struct{} `cbor:",toarray"`
 	Body     *TxBody
@@ -31,7 +34,7 @@ func (t *Tx) Bytes() ([]byte, error) {
 	if err := t.CalculateAuxiliaryDataHash(); err != nil {
 		return nil, err
 	}
-	bytes, err := cbor.Marshal(t)
+	bytes, err := encMode.Marshal(t)
 	return bytes, err
 }
 
@@ -82,7 +85,7 @@ func (t *Tx) SetFee(fee uint) {
 
 func (t *Tx) CalculateAuxiliaryDataHash() error {
 	if t.Metadata != nil {
-		mdBytes, err := cbor.Marshal(&t.Metadata)
+		mdBytes, err := encMode.Marshal(&t.Metadata)
 		if err != nil {
 			return fmt.Errorf("cannot serialize metadata: %w", err)
 		}
-- 
2.43.0


From 33a5c5750a91026977eea17256fdc4fe7b7de554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:27 +0000
Subject: [PATCH 12/27] fix: drop the auxiliary data hash when the metadata is
 removed

---
 tx/tx.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tx/tx.go b/tx/tx.go
index 6674291..b18426e 100644
--- a/tx/tx.go
+++ b/tx/tx.go
@@ -91,6 +91,8 @@ func (t *Tx) CalculateAuxiliaryDataHash() error {
 		}
 		auxHash := blake2b.Sum256(mdBytes)
 		t.Body.AuxiliaryDataHash = auxHash[:]
+	} else {
+		t.Body.AuxiliaryDataHash = nil
 	}
 	return nil
 }
-- 
2.43.0


From c105ed1614828a625079fb3d21f261e4b2b6881f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:29 +0000
Subject: [PATCH 13/27] fix: do not leave a placeholder witness in the
 transaction when its fee is estimated

---
 tx/tx_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 0293270..ba3973d 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -86,7 +86,7 @@ func (tb TxBuilder) MinFee() (fee uint) {
 			Fee:     tb.tx.Body.Fee,
 			TTL:     tb.tx.Body.TTL,
 		},
-		Witness:  tb.tx.Witness,
+		Witness:  NewTXWitness(tb.tx.Witness.Keys...),
 		Valid:    true,
 		Metadata: tb.tx.Metadata,
 	}
-- 
2.43.0


From 828269196fbbe4fd7ff7d8e9798b72c9546aafad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:30 +0000
Subject: [PATCH 14/27] fix: count a witness for every signing key when the fee
 is estimated

---
 tx/tx_builder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index ba3973d..c76862b 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -91,7 +91,8 @@ func (tb TxBuilder) MinFee() (fee uint) {
 		Metadata: tb.tx.Metadata,
 	}
 	feeTx.CalculateAuxiliaryDataHash()
-	if len(feeTx.Witness.Keys) == 0 {
+	// Build adds a witness for each of the keys
+	for len(feeTx.Witness.Keys) == 0 || len(feeTx.Witness.Keys) < len(tb.xprvs) {
 		vWitness := NewVKeyWitness(
 			make([]byte, 32),
 			make([]byte, 64),
-- 
2.43.0


From 9e76537ed1efabe35aca1fbbcd81be8a763a93c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:31 +0000
Subject: [PATCH 15/27] fix: estimate the fee with no less change than is left

---
 tx/tx_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index c76862b..a45b90c 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -105,7 +105,7 @@ func (tb TxBuilder) MinFee() (fee uint) {
 	if totalI != (totalO) {
 		inner_addr, _ := address.NewAddress("addr_test1qqe6zztejhz5hq0xghlf72resflc4t2gmu9xjlf73x8dpf88d78zlt4rng3ccw8g5vvnkyrvt96mug06l5eskxh8rcjq2wyd63")
 
-		feeTx.Body.Outputs = append(feeTx.Body.Outputs, NewTxOutput(inner_addr, (totalI-totalO-200000)))
+		feeTx.Body.Outputs = append(feeTx.Body.Outputs, NewTxOutput(inner_addr, (totalI-totalO)))
 
 	}
 	lfee := fees.NewLinearFee(tb.protocol.TxFeePerByte, tb.protocol.TxFeeFixed)
-- 
2.43.0


From d46a26ee9ce4d8c2a4f7163eb6d97202d09bd354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:32 +0000
Subject: [PATCH 16/27] fix: repeat the fee estimate until it covers its own
 encoding

---
 tx/tx_builder.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index a45b90c..4ec1027 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -83,7 +83,6 @@ func (tb TxBuilder) MinFee() (fee uint) {
 		Body: &TxBody{
 			Inputs:  tb.tx.Body.Inputs,
 			Outputs: tb.tx.Body.Outputs,
-			Fee:     tb.tx.Body.Fee,
 			TTL:     tb.tx.Body.TTL,
 		},
 		Witness:  NewTXWitness(tb.tx.Witness.Keys...),
@@ -109,10 +108,12 @@ func (tb TxBuilder) MinFee() (fee uint) {
 
 	}
 	lfee := fees.NewLinearFee(tb.protocol.TxFeePerByte, tb.protocol.TxFeeFixed)
-	// The fee may have increased enough to increase the number of bytes, so do one more pass
-	fee, _ = feeTx.Fee(lfee)
-	feeTx.Body.Fee = uint64(fee)
+	// The fee may have increased enough to increase the number of bytes, so do more passes
 	fee, _ = feeTx.Fee(lfee)
+	for uint64(fee) > feeTx.Body.Fee {
+		feeTx.Body.Fee = uint64(fee)
+		fee, _ = feeTx.Fee(lfee)
+	}
 
 	return
 }
-- 
2.43.0


From 09adc8726deda71df0fd358a34aef093afb958dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:34 +0000
Subject: [PATCH 17/27] fix: estimate the fee with the address that gets the
 change

---
 tx/tx_builder.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 4ec1027..da313c9 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -49,7 +49,7 @@ func (tb *TxBuilder) Tx() (tx *Tx) {
 // AddChangeIfNeeded calculates the excess change from UTXO inputs - outputs and adds it to the transaction body.
 func (tb *TxBuilder) AddChangeIfNeeded(addr address.Address) {
 	// change is amount in utxo minus outputs minus fee
-	tb.tx.SetFee(tb.MinFee())
+	tb.tx.SetFee(tb.minFee(addr))
 	totalI, totalO := tb.getTotalInputOutputs()
 
 	change := totalI - totalO - uint(tb.tx.Body.Fee)
@@ -79,6 +79,13 @@ func (tb TxBuilder) getTotalInputOutputs() (inputs, outputs uint) {
 
 // MinFee calculates the minimum fee for the provided transaction.
 func (tb TxBuilder) MinFee() (fee uint) {
+	inner_addr, _ := address.NewAddress("addr_test1qqe6zztejhz5hq0xghlf72resflc4t2gmu9xjlf73x8dpf88d78zlt4rng3ccw8g5vvnkyrvt96mug06l5eskxh8rcjq2wyd63")
+
+	return tb.minFee(inner_addr)
+}
+
+// minFee calculates the minimum fee for the provided transaction and its change output to the address.
+func (tb TxBuilder) minFee(changeAddr address.Address) (fee uint) {
 	feeTx := Tx{
 		Body: &TxBody{
 			Inputs:  tb.tx.Body.Inputs,
@@ -102,9 +109,7 @@ func (tb TxBuilder) MinFee() (fee uint) {
 	totalI, totalO := tb.getTotalInputOutputs()
 
 	if totalI != (totalO) {
-		inner_addr, _ := address.NewAddress("addr_test1qqe6zztejhz5hq0xghlf72resflc4t2gmu9xjlf73x8dpf88d78zlt4rng3ccw8g5vvnkyrvt96mug06l5eskxh8rcjq2wyd63")
-
-		feeTx.Body.Outputs = append(feeTx.Body.Outputs, NewTxOutput(inner_addr, (totalI-totalO)))
+		feeTx.Body.Outputs = append(feeTx.Body.Outputs, NewTxOutput(changeAddr, (totalI-totalO)))
 
 	}
 	lfee := fees.NewLinearFee(tb.protocol.TxFeePerByte, tb.protocol.TxFeeFixed)
-- 
2.43.0


From 4c0aff21f23731a5f7e3ebe5bf47cd1b0d6512d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:35 +0000
Subject: [PATCH 18/27] fix: do not add a change output when no change is left

---
 tx/tx_builder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index da313c9..c774023 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -52,6 +52,11 @@ func (tb *TxBuilder) AddChangeIfNeeded(addr address.Address) {
 	tb.tx.SetFee(tb.minFee(addr))
 	totalI, totalO := tb.getTotalInputOutputs()
 
+	// no change is left when the inputs cover no more than the outputs and the fee
+	if totalI < totalO || totalI-totalO <= uint(tb.tx.Body.Fee) {
+		return
+	}
+
 	change := totalI - totalO - uint(tb.tx.Body.Fee)
 	tb.tx.AddOutputs(
 		NewTxOutput(
-- 
2.43.0


From 7cf1fb3dbb9d70101a36d14b18829e77c4baaa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:36 +0000
Subject: [PATCH 19/27] fix: do not share the slice of signing keys between
 transaction builders

---
 tx/tx_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index c774023..0a655ea 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -142,7 +142,7 @@ func (tb *TxBuilder) AddOutputs(outputs ...*TxOutput) {
 func NewTxBuilder(pr protocol.Protocol, xprvs []bip32.XPrv) *TxBuilder {
 	return &TxBuilder{
 		tx:       NewTx(),
-		xprvs:    xprvs,
+		xprvs:    append([]bip32.XPrv{}, xprvs...),
 		protocol: pr,
 	}
 }
-- 
2.43.0


From f8359668e7c0108dc0bc1299cec035acf095c8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:03 +0000
Subject: [PATCH 20/27] fix: pass cardano-cli the network which the node was
 made for

---
 node/cardano-cli.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index f93dcdc..fabccee 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -23,15 +23,15 @@ type cardanoCli struct {
 
 func (cli *cardanoCli) execCommand(args ...string) (data []byte, err error) {
 	buf := &bytes.Buffer{}
-	var cmdSuffix string
+	var cmdSuffix []string
 
 	if cli.network.NetworkId == 0 {
-		cmdSuffix = "--mainnet"
+		cmdSuffix = []string{"--testnet-magic", fmt.Sprintf("%d", cli.network.ProtocolMagic)}
 	} else {
-		cmdSuffix = fmt.Sprintf("--testnet-magic %d", cli.network.ProtocolMagic)
+		cmdSuffix = []string{"--mainnet"}
 	}
 
-	args = append(args, cmdSuffix)
+	args = append(args, cmdSuffix...)
 	cmd := exec.Command(cli.cliPath, args...)
 	cmd.Stdout = buf
 	cmd.Stderr = os.Stderr
-- 
2.43.0


From c5d2444da7583986f50aa45b0c7f293a6577ee21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:04 +0000
Subject: [PATCH 21/27] fix: call the subcommands of cardano-cli by their
 names, with separate arguments

---
 node/cardano-cli.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index fabccee..aff7be1 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -55,7 +55,7 @@ func (cli *cardanoCli) ProtocolParameters() (p protocol.Protocol, err error) {
 }
 
 func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error) {
-	data, err := cli.execCommand("query", "utxos", fmt.Sprintf("--address %s", addr))
+	data, err := cli.execCommand("query", "utxo", "--address", addr.String())
 	if err != nil {
 		return
 	}
@@ -133,7 +133,7 @@ func (cli *cardanoCli) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 		return txHash, err
 	}
 
-	cliData, err := cli.execCommand("submit", fmt.Sprintf("--tx-file %s", tmpFile.Name()))
+	cliData, err := cli.execCommand("transaction", "submit", "--tx-file", tmpFile.Name())
 	if err != nil {
 		return
 	}
-- 
2.43.0


From e1598cdcffe10b3944305b95df249b6f5b038351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:05 +0000
Subject: [PATCH 22/27] fix: do not read past the end of the UTXOs that
 cardano-cli lists

---
 node/cardano-cli.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index aff7be1..b7389b3 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -61,7 +61,7 @@ func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error
 	}
 
 	ldata := strings.Split(string(data), "\n")
-	lenData := len(data)
+	lenData := len(ldata)
 
 	if lenData < 3 {
 		return
@@ -69,6 +69,9 @@ func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error
 
 	for _, it := range ldata[2 : lenData-1] {
 		sec := strings.Fields(it)
+		if len(sec) < 3 {
+			return txIs, fmt.Errorf("unexpected line in the list of UTXOs: %q", it)
+		}
 		txIx, err := strconv.ParseUint(sec[1], 10, 16)
 		if err != nil {
 			return txIs, err
-- 
2.43.0


From 4d81b9a23db38dd049d2cff1ac002036c025d72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:32 +0000
Subject: [PATCH 23/27] fix: reject characters outside of ASCII when decoding
 bech32

---
 internal/bech32/bech32.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/bech32/bech32.go b/internal/bech32/bech32.go
index e294a6e..807bd0e 100644
--- a/internal/bech32/bech32.go
+++ b/internal/bech32/bech32.go
@@ -128,9 +128,10 @@ func Decode(s string) (hrp string, data []byte, err error) {
 		return "", nil, fmt.Errorf("separator '1' at invalid position: pos=%d, len=%d", pos, len(s))
 	}
 	hrp = s[:pos]
-	for p, c := range hrp {
+	// strings.ToLower would map characters outside of ASCII into the alphabet
+	for p, c := range s {
 		if c < 33 || c > 126 {
-			return "", nil, fmt.Errorf("invalid character human-readable part: s[%d]=%d", p, c)
+			return "", nil, fmt.Errorf("invalid character: s[%d]=%d", p, c)
 		}
 	}
 	s = strings.ToLower(s)
-- 
2.43.0


From 734e06c6dd8ce3b8ee82321cc972a78997ad543c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:53 +0000
Subject: [PATCH 24/27] fix: reject negative amounts of UTXOs instead of
 wrapping them around

---
 node/blockfrost.go  | 2 +-
 node/cardano-cli.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index 9b89d3f..ec2cd6b 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -48,7 +48,7 @@ func (b *blockfrostNode) UTXOs(addr address.Address) (txIs []tx.TxInput, err err
 		for _, am := range utxo.Amount {
 			if am.Unit == "lovelace" {
 
-				amountI, err := strconv.Atoi(am.Quantity)
+				amountI, err := strconv.ParseUint(am.Quantity, 10, 64)
 				if err != nil {
 					return []tx.TxInput{}, err
 				}
diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index b7389b3..db534ec 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -79,7 +79,7 @@ func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error
 
 		amSec := strings.Fields(sec[2])
 
-		amount, err := strconv.Atoi(amSec[0])
+		amount, err := strconv.ParseUint(amSec[0], 10, 64)
 		if err != nil {
 			return txIs, err
 		}
-- 
2.43.0


From 41a3e5aab05777c3939f13d198f13999df4cf112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:55 +0000
Subject: [PATCH 25/27] fix: reject output indices that do not fit instead of
 truncating them

---
 node/blockfrost.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index ec2cd6b..d36e3bb 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"net/http"
 	"strconv"
 
@@ -56,6 +57,10 @@ func (b *blockfrostNode) UTXOs(addr address.Address) (txIs []tx.TxInput, err err
 			}
 
 		}
+		if utxo.OutputIndex < 0 || utxo.OutputIndex > math.MaxUint16 {
+			return []tx.TxInput{}, fmt.Errorf("unexpected output index: %d", utxo.OutputIndex)
+		}
+
 		txIs = append(txIs, *tx.NewTxInput(utxo.TxHash, uint16(utxo.OutputIndex), amount))
 	}
 
-- 
2.43.0


From 07cc44b1e266d07c108d8457395eee282ddf965a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:52 +0000
Subject: [PATCH 26/27] fix: reject bytes after a Byron address

cbor.Unmarshal decodes the first data item only and ignores what follows it.
---
 address/address.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/address/address.go b/address/address.go
index d85adc5..73c1d71 100644
--- a/address/address.go
+++ b/address/address.go
@@ -86,7 +86,8 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 	case 0b1000:
 		var byron ByronAddress
 
-		if err := cbor.Unmarshal(data, &byron); err != nil {
+		// cbor.Unmarshal would ignore bytes after the address
+		if err := byron.UnmarshalCBOR(data); err != nil {
 			log.Println(err)
 			return &byron, err
 		}
-- 
2.43.0


From 973809ff5402c16a70ff92dc1856678a3aa98566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:04 +0000
Subject: [PATCH 27/27] fix: a negative minimum UTXO value from Blockfrost is
 an error, not a huge number

---
 node/blockfrost.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index d36e3bb..b26bc03 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -74,7 +74,7 @@ func (b *blockfrostNode) ProtocolParameters() (p protocol.Protocol, err error) {
 		return
 	}
 
-	minU, err := strconv.Atoi(params.MinUtxo)
+	minU, err := strconv.ParseUint(params.MinUtxo, 10, 64)
 	if err != nil {
 		return
 	}
-- 
2.43.0

