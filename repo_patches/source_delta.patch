From 5670cd5d0991d993a693b8adbbad4c9417d8dc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:51 +0000
Subject: [PATCH 01/31] fix: varints longer than four bytes panic when written

---
 pkg/abi/encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index d8b420e..e015230 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -217,13 +217,13 @@ func (enc *Encoder) WriteInt64(v int64) error {
 }
 
 func (enc *Encoder) WriteVaruint(v uint) error {
-	var b [4]byte
+	var b [binary.MaxVarintLen64]byte
 	l := binary.PutUvarint(b[:], uint64(v))
 	return enc.WriteBytes(b[:l])
 }
 
 func (enc *Encoder) WriteVarint(v int) error {
-	var b [4]byte
+	var b [binary.MaxVarintLen64]byte
 	l := binary.PutVarint(b[:], int64(v))
 	return enc.WriteBytes(b[:l])
 }
-- 
2.43.0


From 7d9527ec14abbd1bbe61a02dd7070257a88811e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:52 +0000
Subject: [PATCH 02/31] fix: length prefix of untrusted input can panic or
 exhaust memory when reading bytes

---
 pkg/abi/decode.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 4419fd5..07da325 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -1,6 +1,7 @@
 package abi
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -309,6 +310,9 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 
 // reading methods
 
+// Lengths found in the input are not trusted for up-front allocations larger than this.
+const maxPrealloc = 64 * 1024
+
 func (dec *Decoder) ReadBytes(n int) (an int, b []byte, err error) {
 	if n < 0 {
 		return 0, nil, errors.New("abi: read with negative count")
@@ -316,6 +320,16 @@ func (dec *Decoder) ReadBytes(n int) (an int, b []byte, err error) {
 	if n == 0 {
 		return 0, []byte{}, nil
 	}
+	if n > maxPrealloc {
+		// grow the buffer as data arrives
+		var buf bytes.Buffer
+		var cn int64
+		cn, err = io.CopyN(&buf, dec.r, int64(n))
+		if err == io.EOF && cn > 0 {
+			err = io.ErrUnexpectedEOF
+		}
+		return int(cn), buf.Bytes(), err
+	}
 	b = make([]byte, n)
 	an, err = io.ReadFull(dec.r, b)
 	if err != nil {
-- 
2.43.0


From 1c4b6a55ab5a83022361b0b96614138f93db26ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:53 +0000
Subject: [PATCH 03/31] fix: element count of untrusted input can panic or
 exhaust memory when decoding slices and maps

---
 pkg/abi/decode.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 07da325..127e3bd 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -186,7 +186,7 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 			if pv.IsNil() || pv.Len() != 0 {
 				pv.Set(reflect.MakeMap(pv.Type()))
 			}
-			for i := 0; i < int(l); i++ {
+			for i := uint(0); i < l; i++ {
 				// read key
 				key := reflect.New(keyType).Elem()
 				err = dec.Decode(key.Addr().Interface())
@@ -255,11 +255,18 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 		var l uint
 		l, err = dec.ReadVaruint()
 		if err == nil {
-			if pv.Len() != int(l) {
-				pv.Set(reflect.MakeSlice(pv.Type(), int(l), int(l)))
+			if uint(pv.Len()) != l {
+				n := l
+				if n > maxPreallocElems {
+					n = maxPreallocElems
+				}
+				pv.Set(reflect.MakeSlice(pv.Type(), int(n), int(n)))
 			}
-			for i := 0; i < int(l); i++ {
-				pv := pv.Index(i)
+			for i := uint(0); i < l; i++ {
+				if i == uint(pv.Len()) {
+					pv.Set(reflect.Append(pv, reflect.Zero(pv.Type().Elem())))
+				}
+				pv := pv.Index(int(i))
 				if pv.Kind() == reflect.Ptr {
 					if pv.IsNil() {
 						pv.Set(reflect.New(pv.Type().Elem()))
@@ -313,6 +320,9 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 // Lengths found in the input are not trusted for up-front allocations larger than this.
 const maxPrealloc = 64 * 1024
 
+// Same for the number of elements in slices.
+const maxPreallocElems = 1024
+
 func (dec *Decoder) ReadBytes(n int) (an int, b []byte, err error) {
 	if n < 0 {
 		return 0, nil, errors.New("abi: read with negative count")
-- 
2.43.0


From 3d62c33d41fcea228d8845bb60ece86d835713f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:54 +0000
Subject: [PATCH 04/31] fix: element counts of untrusted input can panic or
 exhaust memory when decoding transactions

---
 pkg/chain/transaction.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pkg/chain/transaction.go b/pkg/chain/transaction.go
index dffb1df..9c97f30 100644
--- a/pkg/chain/transaction.go
+++ b/pkg/chain/transaction.go
@@ -152,34 +152,40 @@ func (tx *Transaction) UnmarshalABI(d *abi.Decoder) error {
 	if err != nil {
 		return err
 	}
-	tx.ContextFreeActions = make([]Action, len)
-	for i := 0; i < int(len); i++ {
-		err = tx.ContextFreeActions[i].UnmarshalABI(d)
+	tx.ContextFreeActions = []Action{}
+	for i := uint(0); i < len; i++ {
+		var act Action
+		err = act.UnmarshalABI(d)
 		if err != nil {
 			return err
 		}
+		tx.ContextFreeActions = append(tx.ContextFreeActions, act)
 	}
 	len, err = d.ReadVaruint()
 	if err != nil {
 		return err
 	}
-	tx.Actions = make([]Action, len)
-	for i := 0; i < int(len); i++ {
-		err = tx.Actions[i].UnmarshalABI(d)
+	tx.Actions = []Action{}
+	for i := uint(0); i < len; i++ {
+		var act Action
+		err = act.UnmarshalABI(d)
 		if err != nil {
 			return err
 		}
+		tx.Actions = append(tx.Actions, act)
 	}
 	len, err = d.ReadVaruint()
 	if err != nil {
 		return err
 	}
-	tx.Extensions = make([]TransactionExtension, len)
-	for i := 0; i < int(len); i++ {
-		err = tx.Extensions[i].UnmarshalABI(d)
+	tx.Extensions = []TransactionExtension{}
+	for i := uint(0); i < len; i++ {
+		var ext TransactionExtension
+		err = ext.UnmarshalABI(d)
 		if err != nil {
 			return err
 		}
+		tx.Extensions = append(tx.Extensions, ext)
 	}
 	return err
 }
-- 
2.43.0


From 575dfb956a55062e34fa129c5002424e5887a2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:54 +0000
Subject: [PATCH 05/31] fix: actions and permission levels ignore read and
 write errors

---
 pkg/chain/action.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/pkg/chain/action.go b/pkg/chain/action.go
index 58bdd0c..eb4c045 100644
--- a/pkg/chain/action.go
+++ b/pkg/chain/action.go
@@ -51,14 +51,23 @@ func (a Action) Digest() Checksum256 {
 // abi.Marshaler conformance
 
 func (pl PermissionLevel) MarshalABI(e *abi.Encoder) error {
-	pl.Actor.MarshalABI(e)
+	err := pl.Actor.MarshalABI(e)
+	if err != nil {
+		return err
+	}
 	return pl.Permission.MarshalABI(e)
 }
 
 func (a Action) MarshalABI(e *abi.Encoder) error {
 	var err error
-	a.Account.MarshalABI(e)
-	a.Name.MarshalABI(e)
+	err = a.Account.MarshalABI(e)
+	if err != nil {
+		return err
+	}
+	err = a.Name.MarshalABI(e)
+	if err != nil {
+		return err
+	}
 	l := uint(len(a.Authorization))
 	err = e.WriteVaruint(l)
 	if err != nil {
@@ -76,13 +85,22 @@ func (a Action) MarshalABI(e *abi.Encoder) error {
 // abi.Unmarshaler conformance
 
 func (pl *PermissionLevel) UnmarshalABI(d *abi.Decoder) error {
-	pl.Actor.UnmarshalABI(d)
+	err := pl.Actor.UnmarshalABI(d)
+	if err != nil {
+		return err
+	}
 	return pl.Permission.UnmarshalABI(d)
 }
 
 func (a *Action) UnmarshalABI(d *abi.Decoder) error {
-	a.Account.UnmarshalABI(d)
-	a.Name.UnmarshalABI(d)
+	err := a.Account.UnmarshalABI(d)
+	if err != nil {
+		return err
+	}
+	err = a.Name.UnmarshalABI(d)
+	if err != nil {
+		return err
+	}
 	l, err := d.ReadVaruint()
 	if err != nil {
 		return err
-- 
2.43.0


From fe0c18d8904cddedc5b422ea75dd6ac0aec27761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:55 +0000
Subject: [PATCH 06/31] fix: decoding into a used action appends to its old
 authorization, and huge counts decode as empty

---
 pkg/chain/action.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/chain/action.go b/pkg/chain/action.go
index eb4c045..d823816 100644
--- a/pkg/chain/action.go
+++ b/pkg/chain/action.go
@@ -105,7 +105,8 @@ func (a *Action) UnmarshalABI(d *abi.Decoder) error {
 	if err != nil {
 		return err
 	}
-	for i := 0; i < int(l); i++ {
+	a.Authorization = nil
+	for i := uint(0); i < l; i++ {
 		var pl PermissionLevel
 		err = pl.UnmarshalABI(d)
 		if err != nil {
-- 
2.43.0


From 0321f9462544e064a02316137ab6977ccd3dfb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:56 +0000
Subject: [PATCH 07/31] fix: write errors of optional flags are dropped

---
 pkg/abi/encode.go | 4 +++-
 pkg/chain/abi.go  | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index e015230..8619c26 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -113,7 +113,9 @@ func (enc *Encoder) EncodeValue(v reflect.Value) error {
 			tag := v.Type().Field(i).Tag.Get("eosio")
 			if tag == "optional" {
 				exists := !v.Field(i).IsZero()
-				enc.WriteBool(exists)
+				if err := enc.WriteBool(exists); err != nil {
+					return err
+				}
 				if !exists {
 					continue
 				}
diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index c925d18..d8379ec 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -154,7 +154,7 @@ func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}) error
 	if t.isOptional {
 		err = enc.WriteBool(exists)
 		if !exists || err != nil {
-			return nil
+			return err
 		}
 	} else if !exists {
 		return fmt.Errorf("found nil for non optional %v", t.baseName)
-- 
2.43.0


From 9e4d1c0fe039b81375ba3832d0e5135dfc1e6133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:57 +0000
Subject: [PATCH 08/31] fix: encoding nil panics instead of returning an error

---
 pkg/abi/encode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index 8619c26..c42b301 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -77,6 +77,9 @@ func (enc *Encoder) Encode(v interface{}) error {
 }
 
 func (enc *Encoder) EncodeValue(v reflect.Value) error {
+	if !v.IsValid() || v.Kind() == reflect.Ptr && v.IsNil() {
+		return errors.New("eosio encoder: encountered unexpected nil pointer")
+	}
 	// check if value conforms to Marshaler
 	if v.CanInterface() {
 		if m, ok := v.Interface().(Marshaler); ok {
-- 
2.43.0


From 590945b94f7ad190d299c8f1aaf1c5774d7ad6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:32 +0000
Subject: [PATCH 09/31] fix: checksum text of the wrong length panics or is
 truncated

---
 pkg/chain/checksum.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/chain/checksum.go b/pkg/chain/checksum.go
index 06ea317..69441aa 100644
--- a/pkg/chain/checksum.go
+++ b/pkg/chain/checksum.go
@@ -4,6 +4,7 @@ import (
 	"crypto/sha256"
 	"crypto/sha512"
 	"encoding/hex"
+	"errors"
 
 	"github.com/greymass/go-eosio/pkg/abi"
 	"github.com/greymass/go-eosio/pkg/ripemd160"
@@ -119,6 +120,9 @@ func (c512 Checksum512) MarshalText() (text []byte, err error) {
 func (c160 *Checksum160) UnmarshalText(text []byte) error {
 	data := make([]byte, hex.DecodedLen(len(text)))
 	_, err := hex.Decode(data, text)
+	if err == nil && len(data) != len(c160) {
+		err = errors.New("invalid checksum160 length")
+	}
 	if err == nil {
 		copy((*c160)[:], data[:20])
 	}
@@ -128,6 +132,9 @@ func (c160 *Checksum160) UnmarshalText(text []byte) error {
 func (c256 *Checksum256) UnmarshalText(text []byte) error {
 	data := make([]byte, hex.DecodedLen(len(text)))
 	_, err := hex.Decode(data, text)
+	if err == nil && len(data) != len(c256) {
+		err = errors.New("invalid checksum256 length")
+	}
 	if err == nil {
 		copy((*c256)[:], data[:32])
 	}
@@ -137,6 +144,9 @@ func (c256 *Checksum256) UnmarshalText(text []byte) error {
 func (c512 *Checksum512) UnmarshalText(text []byte) error {
 	data := make([]byte, hex.DecodedLen(len(text)))
 	_, err := hex.Decode(data, text)
+	if err == nil && len(data) != len(c512) {
+		err = errors.New("invalid checksum512 length")
+	}
 	if err == nil {
 		copy((*c512)[:], data[:64])
 	}
-- 
2.43.0


From e6e53e75b6cdb52029f35eade59298b8622b7889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:33 +0000
Subject: [PATCH 10/31] fix: float128 text of the wrong length is accepted

---
 pkg/chain/numbers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/chain/numbers.go b/pkg/chain/numbers.go
index 4edba44..e45ed34 100644
--- a/pkg/chain/numbers.go
+++ b/pkg/chain/numbers.go
@@ -220,6 +220,9 @@ func (i128 *Int128) UnmarshalText(text []byte) error {
 
 func (f128 *Float128) UnmarshalText(text []byte) error {
 	b, err := hex.DecodeString(string(text))
+	if err == nil && len(b) != len(f128.Data) {
+		err = errors.New("invalid float128 length")
+	}
 	if err == nil {
 		copy(f128.Data[:], b)
 	}
-- 
2.43.0


From 1dd55abc323fdfbd44fd986874fba017a751d5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:34 +0000
Subject: [PATCH 11/31] fix: invalid hex is silently ignored when unmarshaling
 bytes

---
 pkg/chain/bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/chain/bytes.go b/pkg/chain/bytes.go
index 7427f71..69dbc36 100644
--- a/pkg/chain/bytes.go
+++ b/pkg/chain/bytes.go
@@ -54,5 +54,5 @@ func (b *Bytes) UnmarshalText(text []byte) error {
 	if err == nil {
 		*b = data
 	}
-	return nil
+	return err
 }
-- 
2.43.0


From 0e44e0c18541f68070852205e614a9c5e0b07ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:35 +0000
Subject: [PATCH 12/31] fix: unmarshaling a blob writes past the text it was
 given, and clobbers the target on error

---
 pkg/chain/blob.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/chain/blob.go b/pkg/chain/blob.go
index a382d73..3e3949a 100644
--- a/pkg/chain/blob.go
+++ b/pkg/chain/blob.go
@@ -51,13 +51,16 @@ func (b Blob) MarshalText() (text []byte, err error) {
 
 func (b *Blob) UnmarshalText(text []byte) error {
 	// fix up the base64 encoding padding
-	switch len(text) % 4 {
+	s := string(text)
+	switch len(s) % 4 {
 	case 2:
-		text = append(text, "=="...)
+		s += "=="
 	case 3:
-		text = append(text, "="...)
+		s += "="
+	}
+	data, err := base64.StdEncoding.DecodeString(s)
+	if err == nil {
+		*b = data
 	}
-	var err error
-	*b, err = base64.StdEncoding.DecodeString(string(text))
 	return err
 }
-- 
2.43.0


From 6e67bcd6fb84ce0a02b9ec3daabcce2f2286b410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:36 +0000
Subject: [PATCH 13/31] fix: int128 construction is wrong for -2^127 and wraps
 out of range values

---
 pkg/chain/numbers.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pkg/chain/numbers.go b/pkg/chain/numbers.go
index e45ed34..b7f65ee 100644
--- a/pkg/chain/numbers.go
+++ b/pkg/chain/numbers.go
@@ -46,8 +46,8 @@ func NewUint128(i *big.Int) Uint128 {
 // Create new Int128 from big.Int, panics if big.Int is too large.
 func NewInt128(i *big.Int) Int128 {
 	var b []byte
-	if i.BitLen() > 128 {
-		panic("int128 only supports bitlen <= 128")
+	if !fitsInt128(i) {
+		panic("int128 only supports values from -2^127 to 2^127-1")
 	}
 	switch i.Sign() {
 	case 0:
@@ -58,8 +58,7 @@ func NewInt128(i *big.Int) Int128 {
 			b = append([]byte{0}, b...)
 		}
 	case -1:
-		length := uint(i.BitLen()/8+1) * 8
-		b = new(big.Int).Add(i, new(big.Int).Lsh(big.NewInt(1), length)).Bytes()
+		b = new(big.Int).Add(i, new(big.Int).Lsh(big.NewInt(1), 128)).Bytes()
 		for len(b) < 16 {
 			b = append([]byte{0xff}, b...)
 		}
@@ -70,6 +69,13 @@ func NewInt128(i *big.Int) Int128 {
 	}
 }
 
+func fitsInt128(i *big.Int) bool {
+	if i.Sign() < 0 {
+		i = new(big.Int).Not(i) // -2^127 is in range
+	}
+	return i.BitLen() <= 127
+}
+
 func NewUint128FromString(s string) (Uint128, error) {
 	i, ok := (&big.Int{}).SetString(s, 10)
 	if !ok || i.BitLen() > 128 || i.Sign() == -1 {
@@ -80,7 +86,7 @@ func NewUint128FromString(s string) (Uint128, error) {
 
 func NewInt128FromString(s string) (Int128, error) {
 	i, ok := (&big.Int{}).SetString(s, 10)
-	if !ok || i.BitLen() > 128 {
+	if !ok || !fitsInt128(i) {
 		return Int128{}, errors.New("invalid signed integer")
 	}
 	return NewInt128(i), nil
-- 
2.43.0


From d5d4fdd24b2a8cbb477d568a7ab0a4dedb6d5893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:36 +0000
Subject: [PATCH 14/31] fix: asset formatting is wrong for the smallest value
 and panics for large decimals

---
 pkg/chain/asset.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pkg/chain/asset.go b/pkg/chain/asset.go
index 5592188..bb88b37 100644
--- a/pkg/chain/asset.go
+++ b/pkg/chain/asset.go
@@ -2,7 +2,6 @@ package chain
 
 import (
 	"errors"
-	"fmt"
 	"strconv"
 	"strings"
 
@@ -85,20 +84,19 @@ func (a *Asset) String() string {
 	if a.Value < 0 {
 		s = "-"
 	}
-	v := int(a.Value)
-	if v < 0 {
+	v := uint64(a.Value)
+	if a.Value < 0 {
 		v = -v
 	}
-	s += fmt.Sprint(v / a.Symbol.Precision())
-	if a.Symbol.Decimals() > 0 {
-		f := v % a.Symbol.Precision()
-		fs := strconv.Itoa(f)
-		for len(fs) < a.Symbol.Decimals() {
+	// place the decimal point in the digits, the precision may exceed 64 bits
+	fs := strconv.FormatUint(v, 10)
+	if d := a.Symbol.Decimals(); d > 0 {
+		for len(fs) <= d {
 			fs = "0" + fs
 		}
-		s += "." + fs
+		fs = fs[:len(fs)-d] + "." + fs[len(fs)-d:]
 	}
-	return s + " " + a.Symbol.Name()
+	return s + fs + " " + a.Symbol.Name()
 }
 
 func (a *Asset) FloatValue() float64 {
-- 
2.43.0


From 9a633cc865f3cf33def76562dee2d2de05880935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:38 +0000
Subject: [PATCH 15/31] fix: base58 decoding of non-ASCII text panics

---
 pkg/base58/base58.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/base58/base58.go b/pkg/base58/base58.go
index eb6c070..5dc462a 100644
--- a/pkg/base58/base58.go
+++ b/pkg/base58/base58.go
@@ -48,7 +48,7 @@ func Decode(b string) []byte {
 		}
 
 		total := uint64(0)
-		for _, v := range t[:n] {
+		for _, v := range []byte(t[:n]) {
 			tmp := b58[v]
 			if tmp == 255 {
 				return []byte("")
-- 
2.43.0


From 0395e51fb9cf878cf847023e3a5c425c5e8e47cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:39 +0000
Subject: [PATCH 16/31] fix: short legacy public keys panic and the key type
 separator is not checked

---
 pkg/chain/public_key.go | 6 ++++++
 pkg/chain/signature.go  | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/chain/public_key.go b/pkg/chain/public_key.go
index 2b4335a..4ae1978 100644
--- a/pkg/chain/public_key.go
+++ b/pkg/chain/public_key.go
@@ -26,6 +26,9 @@ func NewPublicKeyFromString(s string) (*PublicKey, error) {
 		return nil, errors.New("invalid public key string")
 	}
 	if s[0:4] == "PUB_" {
+		if s[6] != '_' {
+			return nil, errors.New("invalid public key string")
+		}
 		// new format
 		var t KeyType
 		switch s[4:6] {
@@ -45,6 +48,9 @@ func NewPublicKeyFromString(s string) (*PublicKey, error) {
 		}, err
 	}
 	// legacy format
+	if len(s) < 50 {
+		return nil, errors.New("invalid public key string")
+	}
 	d, err := base58.CheckDecode(s[len(s)-50:])
 	return &PublicKey{
 		Type: K1,
diff --git a/pkg/chain/signature.go b/pkg/chain/signature.go
index 6e661fe..ee4b004 100644
--- a/pkg/chain/signature.go
+++ b/pkg/chain/signature.go
@@ -22,7 +22,7 @@ func NewSignature(t KeyType, d []byte) *Signature {
 }
 
 func NewSignatureString(s string) (*Signature, error) {
-	if len(s) < 7 || s[:4] != "SIG_" {
+	if len(s) < 7 || s[:4] != "SIG_" || s[6] != '_' {
 		return nil, errors.New("invalid signature string")
 	}
 	var t KeyType
-- 
2.43.0


From b45a5c76393b31bed882e15c4e98b6e9d8106cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:40 +0000
Subject: [PATCH 17/31] fix: legacy public keys use the wrong checksum

---
 pkg/chain/public_key.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/chain/public_key.go b/pkg/chain/public_key.go
index 4ae1978..fb62516 100644
--- a/pkg/chain/public_key.go
+++ b/pkg/chain/public_key.go
@@ -51,7 +51,7 @@ func NewPublicKeyFromString(s string) (*PublicKey, error) {
 	if len(s) < 50 {
 		return nil, errors.New("invalid public key string")
 	}
-	d, err := base58.CheckDecode(s[len(s)-50:])
+	d, err := base58.CheckDecodeEosio(s[len(s)-50:], "")
 	return &PublicKey{
 		Type: K1,
 		Data: d,
@@ -67,7 +67,7 @@ func (pk *PublicKey) LegacyString(prefix string) string {
 	if pk.Type != K1 {
 		panic("only K1 keys can be converted to legacy format")
 	}
-	return prefix + base58.CheckEncode(pk.Data)
+	return prefix + base58.CheckEncodeEosio(pk.Data, "")
 }
 
 // abi.Marshaler conformance
-- 
2.43.0


From 7c487eb632fc14281fa50142649397e5e53bade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:40 +0000
Subject: [PATCH 18/31] fix: signature values do not marshal as text

---
 pkg/chain/signature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/chain/signature.go b/pkg/chain/signature.go
index ee4b004..750f43a 100644
--- a/pkg/chain/signature.go
+++ b/pkg/chain/signature.go
@@ -107,7 +107,7 @@ func (s *Signature) UnmarshalABI(d *abi.Decoder) error {
 
 // encoding.TextMarshaler conformance
 
-func (s *Signature) MarshalText() (text []byte, err error) {
+func (s Signature) MarshalText() (text []byte, err error) {
 	return []byte(s.String()), nil
 }
 
-- 
2.43.0


From ac38548e3d5d1811b632c4bd2d0543dee8f79c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:14 +0000
Subject: [PATCH 19/31] fix: abi-driven encoding of bytes lacks the length
 prefix and rejects decoded values

---
 pkg/chain/abi.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index d8379ec..c6c80d7 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -317,8 +317,11 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 			}
 		case "bytes":
 			var vv []byte
+			var vv2 Bytes
 			if vv, ok = v.([]byte); ok {
-				err = enc.WriteBytes(vv)
+				err = Bytes(vv).MarshalABI(enc)
+			} else if vv2, ok = v.(Bytes); ok {
+				err = vv2.MarshalABI(enc)
 			}
 		// chain builtins
 		case "asset":
-- 
2.43.0


From 10002740ce53742242b971212dcea2b66a040d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:14 +0000
Subject: [PATCH 20/31] fix: structs without fields can not be encoded or
 decoded using an abi

---
 pkg/chain/abi.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index c6c80d7..35f15b3 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -671,10 +671,10 @@ func (rt *resolvedType) allFields() []*struct {
 	if rt.fields == nil {
 		return nil
 	}
-	var rv []*struct {
+	rv := []*struct {
 		name string
 		typ  *resolvedType
-	}
+	}{}
 	var seen map[string]bool = make(map[string]bool)
 	var cur *resolvedType = rt
 	for {
-- 
2.43.0


From e793510464a16bed277e8cd6004932b796af6a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:15 +0000
Subject: [PATCH 21/31] fix: short type names panic, and optional extensions
 are not recognized when resolving abi types

---
 pkg/chain/abi.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 35f15b3..910e9cf 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"strings"
 
 	"github.com/greymass/go-eosio/pkg/abi"
 )
@@ -590,17 +591,17 @@ func (r *resolver) resolve(name string) *resolvedType {
 	}
 	var isOptional bool
 	baseName := name
-	if name[len(name)-1] == '?' {
-		isOptional = true
-		baseName = name[:len(name)-1]
-	}
 	var isExtension bool
-	if baseName[len(baseName)-1] == '$' {
+	if strings.HasSuffix(baseName, "$") {
 		isExtension = true
 		baseName = baseName[:len(baseName)-1]
 	}
+	if strings.HasSuffix(baseName, "?") {
+		isOptional = true
+		baseName = baseName[:len(baseName)-1]
+	}
 	var isArray bool
-	if baseName[len(baseName)-2] == '[' && baseName[len(baseName)-1] == ']' {
+	if strings.HasSuffix(baseName, "[]") {
 		isArray = true
 		baseName = baseName[:len(baseName)-2]
 	}
-- 
2.43.0


From cb995abebdf37864cbf1ef3171592fe973234a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:16 +0000
Subject: [PATCH 22/31] fix: huge variant index panics when decoding using an
 abi

---
 pkg/chain/abi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 910e9cf..768b995 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -458,7 +458,7 @@ func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}) erro
 		if err != nil {
 			return err
 		}
-		if int(idx) >= len(*variant) {
+		if idx >= uint(len(*variant)) {
 			return fmt.Errorf("invalid variant index %d, expected max %d", idx, len(*variant))
 		}
 		tv := (*variant)[idx]
-- 
2.43.0


From 271fb34bddeb9b6b7ff2309ceb9e10381dc120c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:17 +0000
Subject: [PATCH 23/31] fix: element count of untrusted input can panic or
 exhaust memory when decoding using an abi

---
 pkg/chain/abi.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 768b995..6536b01 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -417,12 +417,14 @@ func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error
 		var l uint
 		l, err = dec.ReadVaruint()
 		if err == nil {
-			va := make([]interface{}, l)
-			for i := 0; i < int(l); i++ {
-				err = a.decodeInner(dec, t, &va[i])
+			va := []interface{}{}
+			for i := uint(0); i < l; i++ {
+				var e interface{}
+				err = a.decodeInner(dec, t, &e)
 				if err != nil {
 					return err // can't recover from this
 				}
+				va = append(va, e)
 			}
 			*v = va
 		}
-- 
2.43.0


From 11ed91162d302cf6d2f5817a71f650503d3bed93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:17 +0000
Subject: [PATCH 24/31] fix: absent extensions can be decoded but not encoded
 using an abi

---
 pkg/chain/abi.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 6536b01..792068b 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -158,6 +158,9 @@ func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}) error
 			return err
 		}
 	} else if !exists {
+		if t.isExtension {
+			return nil
+		}
 		return fmt.Errorf("found nil for non optional %v", t.baseName)
 	}
 	if t.isArray {
-- 
2.43.0


From 26cdc9d78ae3f6bd8ab14e40a021343384de942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:18 +0000
Subject: [PATCH 25/31] fix: recursive abi types overflow the stack

---
 pkg/chain/abi.go | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 792068b..25f52f9 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -1,6 +1,7 @@
 package chain
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"reflect"
@@ -9,6 +10,11 @@ import (
 	"github.com/greymass/go-eosio/pkg/abi"
 )
 
+// Types nested deeper than this, e.g. recursive structs and aliases, are rejected.
+const maxAbiDepth = 128
+
+var errAbiDepth = errors.New("abi: types nested too deep")
+
 // EOSIO ABI definition, describes the binary representation of a collection of types.
 type Abi struct {
 	Version          string            `json:"version"`
@@ -138,7 +144,7 @@ func (a Abi) Decode(r io.Reader, name string) (interface{}, error) {
 	t := res.resolve(name)
 	dec := NewDecoder(r)
 	var rv interface{}
-	err := a.decodeType(dec, t, &rv)
+	err := a.decodeType(dec, t, &rv, 0)
 	return rv, err
 }
 
@@ -146,10 +152,13 @@ func (a Abi) Encode(w io.Writer, name string, v interface{}) error {
 	res := resolver{&a, make(map[string]*resolvedType)}
 	t := res.resolve(name)
 	enc := NewEncoder(w)
-	return a.encodeType(enc, t, v)
+	return a.encodeType(enc, t, v, 0)
 }
 
-func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}) error {
+func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}, depth int) error {
+	if depth > maxAbiDepth {
+		return errAbiDepth
+	}
 	var err error
 	exists := v != nil
 	if t.isOptional {
@@ -173,28 +182,28 @@ func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}) error
 			return err
 		}
 		for _, e := range va {
-			err = a.encodeInner(enc, t, e)
+			err = a.encodeInner(enc, t, e, depth)
 			if err != nil {
 				return err
 			}
 		}
 	} else {
-		err = a.encodeInner(enc, t, v)
+		err = a.encodeInner(enc, t, v, depth)
 	}
 	return err
 }
 
-func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error {
+func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}, depth int) error {
 	var err error
 	if ref := t.ref; ref != nil {
-		return a.encodeType(enc, ref, v)
+		return a.encodeType(enc, ref, v, depth+1)
 	} else if fields := t.allFields(); fields != nil {
 		vs, ok := v.(map[string]interface{})
 		if !ok {
 			return fmt.Errorf("expected map, found %v", reflect.TypeOf(v))
 		}
 		for _, f := range fields {
-			if err = a.encodeType(enc, f.typ, vs[f.name]); err != nil {
+			if err = a.encodeType(enc, f.typ, vs[f.name], depth+1); err != nil {
 				return err
 			}
 		}
@@ -225,7 +234,7 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 		}
 		err = enc.WriteVaruint(uint(ti))
 		if err == nil {
-			err = a.encodeType(enc, tv, va[1])
+			err = a.encodeType(enc, tv, va[1], depth+1)
 		}
 	} else {
 		var ok bool
@@ -407,7 +416,10 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 	return err
 }
 
-func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error {
+func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}, depth int) error {
+	if depth > maxAbiDepth {
+		return errAbiDepth
+	}
 	var err error
 	if t.isOptional {
 		var exists bool
@@ -423,7 +435,7 @@ func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error
 			va := []interface{}{}
 			for i := uint(0); i < l; i++ {
 				var e interface{}
-				err = a.decodeInner(dec, t, &e)
+				err = a.decodeInner(dec, t, &e, depth)
 				if err != nil {
 					return err // can't recover from this
 				}
@@ -432,7 +444,7 @@ func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error
 			*v = va
 		}
 	} else {
-		err = a.decodeInner(dec, t, v)
+		err = a.decodeInner(dec, t, v, depth)
 	}
 	if err == io.EOF && t.isExtension {
 		return nil
@@ -440,16 +452,16 @@ func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error
 	return err
 }
 
-func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}) error {
+func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}, depth int) error {
 	var err error
 
 	if ref := t.ref; ref != nil {
-		return a.decodeType(dec, ref, v)
+		return a.decodeType(dec, ref, v, depth+1)
 	} else if fields := t.allFields(); fields != nil {
 		vs := make(map[string]interface{})
 		for _, field := range fields {
 			var fv interface{}
-			err := a.decodeType(dec, field.typ, &fv)
+			err := a.decodeType(dec, field.typ, &fv, depth+1)
 			if err != nil {
 				return err
 			}
@@ -469,7 +481,7 @@ func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}) erro
 		tv := (*variant)[idx]
 		var vv []interface{} = make([]interface{}, 2)
 		vv[0] = tv.name
-		err = a.decodeType(dec, tv, &vv[1])
+		err = a.decodeType(dec, tv, &vv[1], depth+1)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From bd2a053dc995e8cf060d312022d13c148d6c19d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:19 +0000
Subject: [PATCH 26/31] fix: eosio::name can be encoded but not decoded using
 an abi

---
 pkg/chain/abi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 25f52f9..eb1900d 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -560,7 +560,7 @@ func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}, dept
 			var rv ExtendedAsset
 			err = rv.UnmarshalABI(dec)
 			*v = rv
-		case "name":
+		case "name", "eosio::name":
 			var rv Name
 			err = rv.UnmarshalABI(dec)
 			*v = rv
-- 
2.43.0


From f0137f616167f7a3a36738233b1595e10294585e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:20 +0000
Subject: [PATCH 27/31] fix: out of range times wrap around silently when
 parsed

---
 pkg/chain/time.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/chain/time.go b/pkg/chain/time.go
index 4a012a1..9eae778 100644
--- a/pkg/chain/time.go
+++ b/pkg/chain/time.go
@@ -1,6 +1,8 @@
 package chain
 
 import (
+	"errors"
+	"math"
 	"time"
 
 	"github.com/greymass/go-eosio/pkg/abi"
@@ -51,6 +53,9 @@ func NewTimePointSecFromString(s string) (TimePointSec, error) {
 	if err != nil {
 		return 0, err
 	}
+	if v := t.Unix(); v < 0 || v > math.MaxUint32 {
+		return 0, errors.New("time point out of range")
+	}
 	return NewTimePointSec(t), nil
 }
 
@@ -62,6 +67,9 @@ func NewBlockTimestampFromString(s string) (BlockTimestamp, error) {
 	if err != nil {
 		return 0, err
 	}
+	if v := NewBlockTimestamp(t).Time().Sub(t); v > time.Second || v < -time.Second {
+		return 0, errors.New("block timestamp out of range")
+	}
 	return NewBlockTimestamp(t), nil
 }
 
-- 
2.43.0


From ec39d932363d3964b0a9deb8c4a541b036c0e090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:03 +0000
Subject: [PATCH 28/31] fix: missing trailing extension fields are reported as
 EOF

---
 pkg/abi/decode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 127e3bd..f72291c 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -242,6 +242,7 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 				if tag == "extension" && err == io.EOF {
 					// TODO: make sure extensions are only last field in a top-level struct
 					pv.Set(reflect.Zero(pv.Type()))
+					err = nil
 					continue
 				}
 
-- 
2.43.0


From a541fc8472aad8df489866da5c0b6b90ca005f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:26 +0000
Subject: [PATCH 29/31] fix: pointers to pointers and pointer map values can be
 encoded but not decoded

---
 pkg/abi/decode.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index f72291c..ffec5eb 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -88,6 +88,13 @@ func (dec *Decoder) Decode(v interface{}) error {
 		if val.Kind() != reflect.Ptr || val.IsNil() {
 			return fmt.Errorf("abi: invalid type, unable to decode into %s", val.Type())
 		}
+		if elem := val.Elem(); elem.Kind() == reflect.Ptr {
+			// pointer to pointer
+			if elem.IsNil() {
+				elem.Set(reflect.New(elem.Type().Elem()))
+			}
+			return dec.Decode(elem.Interface())
+		}
 		err = dec.DecodeValue(val.Elem())
 	}
 
-- 
2.43.0


From 8d8d1983e37ad7f6478cbea3cf97ab662b9d7094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:39 +0000
Subject: [PATCH 30/31] fix: missing abi extensions decode to zero values,
 missing optional extensions to an error

---
 pkg/chain/abi.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index eb1900d..09e4a13 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -424,6 +424,9 @@ func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}, depth
 	if t.isOptional {
 		var exists bool
 		exists, err = dec.ReadBool()
+		if err == io.EOF && t.isExtension {
+			return nil // missing extension
+		}
 		if err != nil || !exists {
 			return err
 		}
@@ -447,6 +450,7 @@ func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}, depth
 		err = a.decodeInner(dec, t, v, depth)
 	}
 	if err == io.EOF && t.isExtension {
+		*v = nil // missing extension
 		return nil
 	}
 	return err
-- 
2.43.0


From 76f14445d487e8f18a51dcaa0f14cca2b844634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:45 +0000
Subject: [PATCH 31/31] fix: absent values of aliased optional abi types cannot
 be encoded

---
 pkg/chain/abi.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 09e4a13..b5536b6 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -170,7 +170,9 @@ func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}, depth
 		if t.isExtension {
 			return nil
 		}
-		return fmt.Errorf("found nil for non optional %v", t.baseName)
+		if t.ref == nil || t.isArray {
+			return fmt.Errorf("found nil for non optional %v", t.baseName)
+		}
 	}
 	if t.isArray {
 		va, ok := v.([]interface{})
-- 
2.43.0

