From caf255a8e20df2b2bcbc44b64b95481a42e87b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:15 +0000
Subject: [PATCH 01/43] fix: writing a non-uint32 present value of a binary
 output or value is an error, not a panic

---
 encoding/appdata.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index bc43fbc..7f0d67b 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -74,7 +74,6 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 	}
 	//if point type is a BO or BV then set the type to type enum (data type 9)
 	if typeBVBO {
-		v := i.(uint32)
 		v, ok := i.(uint32)
 		if ok {
 			length := valueLength(v)
-- 
2.43.0


From 8f8c98796f851d63a4063d15451db57780debad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:15 +0000
Subject: [PATCH 02/43] fix: a double is announced with its length of 8 octets

---
 encoding/appdata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index 7f0d67b..53dac20 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -92,7 +92,7 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 		e.tag(tagInfo{ID: tagReal, Context: appLayerContext, Value: realLen})
 		e.real(val)
 	case float64:
-		e.tag(tagInfo{ID: tagDouble, Context: appLayerContext, Value: realLen})
+		e.tag(tagInfo{ID: tagDouble, Context: appLayerContext, Value: doubleLen})
 		e.double(val)
 	case bool:
 		e.boolean(val)
-- 
2.43.0


From 9f5956170526bc8d55d1a5c9d04fedcc45b5c774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 03/43] fix: signed integers keep their sign and value in 1, 2
 and 3 octets

---
 encoding/appdata.go |  5 ++---
 encoding/decoder.go | 12 ++----------
 encoding/encoder.go | 14 ++++++++++++++
 encoding/general.go | 13 +++++++++++++
 4 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index 53dac20..8f7849b 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -105,10 +105,9 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 		e.tag(tagInfo{ID: tagUint, Context: appLayerContext, Value: uint32(length)})
 		e.unsigned(val)
 	case int32:
-		v := uint32(val)
-		length := valueLength(v)
+		length := signedLength(val)
 		e.tag(tagInfo{ID: tagInt, Context: appLayerContext, Value: uint32(length)})
-		e.unsigned(v)
+		e.signed(val)
 	// Enumerated is pretty much a wrapper for a uint32 with an enumerated associated with it.
 	case btypes.Enumerated:
 		v := uint32(val)
diff --git a/encoding/decoder.go b/encoding/decoder.go
index 66c8438..5d4d7ef 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -149,16 +149,8 @@ func (d *Decoder) unsigned(length int) uint32 {
 }
 
 func (d *Decoder) signed24() int32 {
-	var a, b, c int8
-	d.decode(&a)
-	d.decode(&b)
-	d.decode(&c)
-
-	var x int32
-	x = int32((int32(a) << 16) & 0x00ff0000)
-	x |= int32((int32(b) << 8) & 0x0000ff00)
-	x |= int32(int32(c) & 0x000000ff)
-	return x
+	// The top octet carries the sign
+	return int32(d.unsigned24()<<8) >> 8
 }
 
 func (d *Decoder) signed(length int) int32 {
diff --git a/encoding/encoder.go b/encoding/encoder.go
index 90b0a56..454b6b2 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -156,6 +156,20 @@ func (e *Encoder) unsigned(value uint32) {
 	}
 }
 
+// signed writes value in two's complement in the fewest octets that hold it
+func (e *Encoder) signed(value int32) {
+	switch signedLength(value) {
+	case size8:
+		e.write(int8(value))
+	case size16:
+		e.write(int16(value))
+	case size24:
+		e.unsigned24(uint32(value))
+	default:
+		e.write(value)
+	}
+}
+
 func (e *Encoder) objects(objects []btypes.Object, write bool) error {
 	var tag uint8
 	for _, obj := range objects {
diff --git a/encoding/general.go b/encoding/general.go
index a0b34c3..8165630 100644
--- a/encoding/general.go
+++ b/encoding/general.go
@@ -14,6 +14,19 @@ func valueLength(value uint32) int {
 	return size32
 }
 
+// signedLength is the number of octets value needs in two's complement, as per
+// 20.2.5
+func signedLength(value int32) int {
+	if value >= -0x80 && value < 0x80 {
+		return size8
+	} else if value >= -0x8000 && value < 0x8000 {
+		return size16
+	} else if value >= -0x800000 && value < 0x800000 {
+		return size24
+	}
+	return size32
+}
+
 /* from clause 20.2.1.3.2 Constructed Data */
 /* true if the tag is an opening tag */
 func isOpeningTag(x uint8) bool {
-- 
2.43.0


From 9973dffca2b4a2344f959d1abb05aecc75ff087f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:56 +0000
Subject: [PATCH 04/43] fix: a bit string refuses bit and octet positions
 beyond its capacity instead of panicking

---
 btypes/bitstring.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/btypes/bitstring.go b/btypes/bitstring.go
index 3ae01a0..b8a38dd 100644
--- a/btypes/bitstring.go
+++ b/btypes/bitstring.go
@@ -10,6 +10,9 @@ type BitString struct {
 }
 
 func NewBitString(bufferSize int) *BitString {
+	if bufferSize < 0 {
+		bufferSize = 0
+	}
 	if bufferSize > MaxBitStringBytes {
 		bufferSize = MaxBitStringBytes
 	}
@@ -39,7 +42,7 @@ func (bs *BitString) String() string {
 func (bs *BitString) SetBit(bitNumber uint8, value bool) {
 	byteNumber := bitNumber / 8
 	var bitMask uint8 = 1
-	if byteNumber < MaxBitStringBytes {
+	if int(byteNumber) < len(bs.Value) {
 		/* set max bits used */
 		if bs.BitUsed < (bitNumber + 1) {
 			bs.BitUsed = bitNumber + 1
@@ -56,7 +59,7 @@ func (bs *BitString) SetBit(bitNumber uint8, value bool) {
 func (bs *BitString) Bit(bitNumber uint8) bool {
 	byteNumber := bitNumber / 8
 	bitMask := uint8(1)
-	if bitNumber < (MaxBitStringBytes * 8) {
+	if int(byteNumber) < len(bs.Value) {
 		bitMask = bitMask << (bitNumber - (byteNumber * 8))
 		return (bs.Value[byteNumber] & bitMask) != 0
 	}
@@ -75,14 +78,14 @@ func (bs *BitString) BytesUsed() uint8 {
 }
 
 func (bs *BitString) Byte(index uint8) byte {
-	if bs != nil && index < MaxBitStringBytes {
+	if bs != nil && int(index) < len(bs.Value) {
 		return bs.Value[index]
 	}
 	return 0
 }
 
 func (bs *BitString) SetByte(index uint8, value byte) bool {
-	if bs != nil && index < MaxBitStringBytes {
+	if bs != nil && int(index) < len(bs.Value) {
 		bs.Value[index] = value
 		return true
 	}
@@ -90,7 +93,7 @@ func (bs *BitString) SetByte(index uint8, value byte) bool {
 }
 
 func (bs *BitString) SetBitsUsed(byteUsed uint8, bitsUnused uint8) bool {
-	if bs != nil {
+	if bs != nil && int(byteUsed) <= len(bs.Value) && bitsUnused <= byteUsed*8 {
 		bs.BitUsed = byteUsed*8 - bitsUnused
 		return true
 	}
-- 
2.43.0


From cf5c15d81cd56d99a78e523411f110de93ab5836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 05/43] fix: application data whose content is missing or of an
 impossible length is an error

---
 encoding/appdata.go | 41 +++++++++++++++++++++++++++++++++++++++++
 encoding/decoder.go | 19 ++++++++++++++++++-
 encoding/string.go  | 14 ++++++++++++--
 3 files changed, 71 insertions(+), 3 deletions(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index 8f7849b..5c96ad3 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -128,7 +128,48 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 	return nil
 }
 
+// validLength tells if an application value of type tag can have length octets
+// of content that this package decodes.
+func validLength(tag uint8, length int) bool {
+	switch tag {
+	case tagNull:
+		return length == 0
+	case tagUint, tagInt, tagEnumerated:
+		return length >= size8 && length <= size32
+	case tagReal:
+		return length == int(realLen)
+	case tagDouble:
+		return length == int(doubleLen)
+	case tagDate:
+		return length == int(dateLen)
+	case tagTime:
+		return length == int(timeLen)
+	case tagObjectID:
+		return length == int(objectIDLen)
+	case tagCharacterString:
+		// the character set
+		return length >= 1
+	case tagBitString:
+		// the number of unused bits
+		return length >= 1 && length <= 1+btypes.MaxBitStringBytes
+	}
+	return true
+}
+
 func (d *Decoder) AppDataOfTag(tag uint8, len int) (interface{}, error) {
+	// A boolean has no content, its value is in the tag. Everything else must
+	// have its content, and one of a length that suits it.
+	if tag != tagBool {
+		if err := d.content(len); err != nil {
+			return nil, err
+		}
+	} else if d.Error() != nil {
+		return nil, d.Error()
+	}
+	if !validLength(tag, len) {
+		d.err = fmt.Errorf("invalid length %d for tag %d", len, tag)
+		return nil, d.err
+	}
 	switch tag {
 	case tagNull:
 		return null.Null{}, nil
diff --git a/encoding/decoder.go b/encoding/decoder.go
index 5d4d7ef..9708ade 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -3,6 +3,8 @@ package encoding
 import (
 	"bytes"
 	"encoding/binary"
+	"fmt"
+	"io"
 	"github.com/NubeDev/bacnet/btypes"
 )
 
@@ -39,7 +41,19 @@ func (d *Decoder) Read(data []byte) (int, error) {
 }
 
 func (d *Decoder) Skip(n uint32) error {
-	_, d.err = d.buff.Read(make([]byte, n))
+	if err := d.content(int(n)); err != nil {
+		return err
+	}
+	d.buff.Next(int(n))
+	return nil
+}
+
+// content checks that length more octets can be read, before anything is
+// allocated for them. If they cannot, that is the error of the decoder.
+func (d *Decoder) content(length int) error {
+	if d.err == nil && (length < 0 || length > d.buff.Len()) {
+		d.err = io.ErrUnexpectedEOF
+	}
 	return d.err
 }
 
@@ -144,6 +158,9 @@ func (d *Decoder) unsigned(length int) uint32 {
 		d.decode(&val)
 		return val
 	default:
+		if d.err == nil {
+			d.err = fmt.Errorf("unsigned value of %d octets", length)
+		}
 		return 0
 	}
 }
diff --git a/encoding/string.go b/encoding/string.go
index e5548d0..0f76452 100644
--- a/encoding/string.go
+++ b/encoding/string.go
@@ -36,7 +36,13 @@ func (d *Decoder) string(s *string, len int) error {
 	case stringUTF8:
 	case characterUCS2:
 	default:
-		return fmt.Errorf("unsupported string format %d", t)
+		if d.err == nil {
+			d.err = fmt.Errorf("unsupported string format %d", t)
+		}
+		return d.err
+	}
+	if err := d.content(len); err != nil {
+		return err
 	}
 	b := make([]byte, len)
 	d.decode(b)
@@ -44,7 +50,8 @@ func (d *Decoder) string(s *string, len int) error {
 	if t == characterUCS2 {
 		out, err := decodeUCS2(string(b))
 		if err != nil {
-			return fmt.Errorf("unable to decode string format characterUCS2%d", t)
+			d.err = fmt.Errorf("unable to decode string format characterUCS2%d", t)
+			return d.err
 		}
 		*s = out
 	} else {
@@ -58,6 +65,9 @@ func (e *Encoder) octetstring(b []byte) {
 	e.write([]byte(b))
 }
 func (d *Decoder) octetstring(b *[]byte, len int) {
+	if d.content(len) != nil {
+		return
+	}
 	*b = make([]byte, len)
 	d.decode(b)
 }
-- 
2.43.0


From af7715e40e76c5b815249ff06b0be74a584f4e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:45 +0000
Subject: [PATCH 06/43] fix: a bit string that is too long or has more unused
 bits than bits is an error

---
 encoding/decoder.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 9708ade..af3e9b9 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -192,7 +192,13 @@ func (d *Decoder) signed(length int) int32 {
 }
 
 func (d *Decoder) bitString(length int) *btypes.BitString {
-	if length <= 0 {
+	if length <= 0 || length > 1+btypes.MaxBitStringBytes {
+		if d.err == nil {
+			d.err = fmt.Errorf("bit string of %d octets", length)
+		}
+		return nil
+	}
+	if d.content(length) != nil {
 		return nil
 	}
 	data := make([]uint8, length)
@@ -201,13 +207,14 @@ func (d *Decoder) bitString(length int) *btypes.BitString {
 	bs := btypes.NewBitString(length - 1)
 	/* the lower 3 bits of the first byte contains the unused bits in the remain bytes and the remain bytes contain the bit masks*/
 	bytesUsed := uint8(length - 1)
-	if bytesUsed <= btypes.MaxBitStringBytes {
-		for i := uint8(0); i < bytesUsed; i++ {
-			//index of data start from 1
-			bs.SetByte(i, byteReverseBits(data[i+1]))
-		}
-		/*the lower 3 bits of the first byte store the number of unused bits , that is, less than 8*/
-		bs.SetBitsUsed(bytesUsed, data[0]&0x07)
+	for i := uint8(0); i < bytesUsed; i++ {
+		//index of data start from 1
+		bs.SetByte(i, byteReverseBits(data[i+1]))
+	}
+	/*the first byte is the number of unused bits , that is, less than 8*/
+	if data[0] > 7 || !bs.SetBitsUsed(bytesUsed, data[0]) {
+		d.err = fmt.Errorf("bit string with %d unused bits in %d octets", data[0], bytesUsed)
+		return nil
 	}
 	return bs
 }
-- 
2.43.0


From a9210ce085adff9c64d3d8a93c6f7811c38fba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:47 +0000
Subject: [PATCH 07/43] fix: a date or time that is cut short or not of 4
 octets is an error, not a panic or a partial value

---
 encoding/date.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/encoding/date.go b/encoding/date.go
index 9b9bd3c..60704a9 100644
--- a/encoding/date.go
+++ b/encoding/date.go
@@ -1,6 +1,10 @@
 package encoding
 
-import "github.com/NubeDev/bacnet/btypes"
+import (
+	"fmt"
+
+	"github.com/NubeDev/bacnet/btypes"
+)
 
 // epochYear is an increment to all non-stored values. This year is chosen in
 // the standard. Why? No idea. God help us all if bacnet hits the 255 + 1990
@@ -43,17 +47,17 @@ func (e *Encoder) date(dt btypes.Date) {
 }
 
 func (d *Decoder) date(dt *btypes.Date, length int) {
-	if length <= 0 {
+	if length != int(dateLen) {
+		if d.err == nil {
+			d.err = fmt.Errorf("date of %d octets", length)
+		}
 		return
 	}
 	data := make([]byte, length)
-	_, d.err = d.Read(data)
+	d.decode(data)
 	if d.err != nil {
 		return
 	}
-	if len(data) < 4 {
-		return
-	}
 
 	if dt.Year != btypes.UnspecifiedTime {
 		dt.Year = int(data[0]) + epochYear
@@ -75,11 +79,15 @@ func (e *Encoder) time(t btypes.Time) {
 	e.write(uint8(t.Millisecond / 10))
 }
 func (d *Decoder) time(t *btypes.Time, length int) {
-	if length <= 0 {
+	if length != int(timeLen) {
+		if d.err == nil {
+			d.err = fmt.Errorf("time of %d octets", length)
+		}
 		return
 	}
 	data := make([]byte, length)
-	if _, d.err = d.Read(data); d.err != nil {
+	d.decode(data)
+	if d.err != nil {
 		return
 	}
 
-- 
2.43.0


From 964c0a188e068dfe60f6d87dd31d7661243ac583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:49 +0000
Subject: [PATCH 08/43] fix: the year of a date counts from 1900, and 255 is
 the unspecified year

---
 encoding/date.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/encoding/date.go b/encoding/date.go
index 60704a9..b4a39ee 100644
--- a/encoding/date.go
+++ b/encoding/date.go
@@ -7,9 +7,9 @@ import (
 )
 
 // epochYear is an increment to all non-stored values. This year is chosen in
-// the standard. Why? No idea. God help us all if bacnet hits the 255 + 1990
+// the standard. Why? No idea. God help us all if bacnet hits the 255 + 1900
 // limit
-const epochYear = 1990
+const epochYear = 1900
 
 // If the values == 0XFF, that means it is not specified. We will take that to
 const notDefined = 0xff
@@ -59,10 +59,10 @@ func (d *Decoder) date(dt *btypes.Date, length int) {
 		return
 	}
 
-	if dt.Year != btypes.UnspecifiedTime {
+	if data[0] != btypes.UnspecifiedTime {
 		dt.Year = int(data[0]) + epochYear
 	} else {
-		dt.Year = int(data[0])
+		dt.Year = btypes.UnspecifiedTime
 	}
 
 	dt.Month = int(data[1])
-- 
2.43.0


From 4deb6814e82fe595057f7e173465583dd1ff47f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:20 +0000
Subject: [PATCH 09/43] fix: a closing tag is not an opening tag

---
 encoding/general.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/general.go b/encoding/general.go
index 8165630..50e593b 100644
--- a/encoding/general.go
+++ b/encoding/general.go
@@ -55,7 +55,7 @@ func (t *tagMeta) setClosing() {
 }
 
 func (t *tagMeta) isClosing() bool {
-	return ((*t & closingMask) == closingMask)
+	return ((*t & tagMask) == closingMask)
 }
 
 func (t *tagMeta) setOpening() {
@@ -64,7 +64,7 @@ func (t *tagMeta) setOpening() {
 }
 
 func (t *tagMeta) isOpening() bool {
-	return ((*t & openingMask) == openingMask)
+	return ((*t & tagMask) == openingMask)
 }
 
 func (t *tagMeta) Clear() {
-- 
2.43.0


From ec18a782b94cce28d7bfdcede0934d9f67049e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 10/43] fix: decoding a multiple read reply ends at the end of
 the reply, whatever tags its values hold

---
 encoding/readmultipleack.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index 07966eb..16aaabd 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -150,19 +150,27 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 			// Tag 4 - Opening Tag
 			if tag == 4 && meta.isOpening() {
 				var array []interface{}
+				// Constructed values nest, the closing tag is the one that is ours
+				nested := 0
 				tag, meta = d.tagNumber()
-				if d.err != nil {
-					return d.err
-				}
-				for {
+				for !(nested == 0 && meta.isClosing() && tag == 4) {
+					if d.err != nil {
+						return d.err
+					}
 					if meta.isContextSpecific() {
 						if meta.isClosing() {
-							_ = d.UnreadByte()
+							if nested == 0 {
+								return &ErrorIncorrectTag{Expected: 4, Given: tag}
+							}
+							nested--
 						} else if meta.isOpening() {
 							if /*prop.Type == btypes.PROP_EVENT_TIME_STAMPS &&*/ tag == btypes.TimeStampDatetime {
 								dt := &btypes.DataTime{}
 								for {
 									tag, meta, length = d.tagNumberAndValue()
+									if d.err != nil {
+										return d.err
+									}
 									if meta.isClosing() && tag == btypes.TimeStampDatetime {
 										break
 									} else if tag == tagDate {
@@ -174,6 +182,8 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 									}
 								}
 								array = append(array, dt)
+							} else {
+								nested++
 							}
 						} else {
 							// TODO how to parse it in Context???
@@ -205,12 +215,9 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 						array = append(array, data)
 					}
 					tag, meta = d.tagNumber()
-					if meta.isClosing() && tag == 4 { //tag 4
-						//
-						break
-					} /*else {
-						_ = d.UnreadByte()
-					}*/
+				}
+				if d.err != nil {
+					return d.err
 				}
 				if len(array) == 1 {
 					prop.Data = array[0]
-- 
2.43.0


From f2fae1ab947db10096846fb1e47bd89a62d88267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:45 +0000
Subject: [PATCH 11/43] fix: an object with context tagged values is reported
 once, with all its properties

---
 encoding/readmultipleack.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index 16aaabd..9e0ebc6 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -187,9 +187,6 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 							}
 						} else {
 							// TODO how to parse it in Context???
-							*objects = append(*objects, obj)
-							//return nil
-
 							lenValue := d.value(meta)
 							tag = tagTypeInContext(prop.Type, tag)
 							if tag == maxTag {
-- 
2.43.0


From fed7adfb247abf6d9ef45142d0b6a78488dbd7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:47 +0000
Subject: [PATCH 12/43] fix: context tagged values of unknown type are skipped
 instead of being taken for application data

---
 encoding/context_tag.go     |  6 ++----
 encoding/readmultipleack.go | 12 ++++++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/encoding/context_tag.go b/encoding/context_tag.go
index aa67f37..ac7a758 100644
--- a/encoding/context_tag.go
+++ b/encoding/context_tag.go
@@ -5,11 +5,9 @@ import "github.com/NubeDev/bacnet/btypes"
 /* refer to https://github.com/bacnet-stack/bacnet-stack/blob/bacnet-stack-0.9.1/src/bacapp.c#L583 */
 /* returns the fixed tag type for certain context tagged properties */
 func tagTypeInContext(property btypes.PropertyType, tagNumber uint8) uint8 {
-	tag := tagNumber
+	tag := maxTag
 	switch property {
-	case btypes.PROP_ACTUAL_SHED_LEVEL:
-	case btypes.PROP_REQUESTED_SHED_LEVEL:
-	case btypes.PROP_EXPECTED_SHED_LEVEL:
+	case btypes.PROP_ACTUAL_SHED_LEVEL, btypes.PROP_REQUESTED_SHED_LEVEL, btypes.PROP_EXPECTED_SHED_LEVEL:
 		switch tagNumber {
 		case 0, 1:
 			tag = tagUint
diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index 9e0ebc6..7926396 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -191,10 +191,14 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 							tag = tagTypeInContext(prop.Type, tag)
 							if tag == maxTag {
 								//skip unknown type
-								if lenValue > 0 {
-									if _, err := d.Read(make([]byte, lenValue)); err != nil {
-										return err
-									}
+								if err := d.Skip(lenValue); err != nil {
+									return err
+								}
+							} else if tag == tagBool {
+								// unlike an application boolean it has content
+								array = append(array, d.unsigned(int(lenValue)) > 0)
+								if d.err != nil {
+									return d.err
 								}
 							} else {
 								data, err := d.AppDataOfTag(tag, int(lenValue))
-- 
2.43.0


From fcd4369e0a66ee454c6f3b2bf6a522ed283d7253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:49 +0000
Subject: [PATCH 13/43] fix: a multiple read reply may hold an object without
 results

---
 encoding/readmultipleack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index 7926396..7fd056b 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -119,7 +119,7 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 
 		// Tag 2 - Property Tag
 		tag, meta, length = d.tagNumberAndValue()
-		if tag != 2 {
+		if tag != 2 && !(tag == 1 && meta.isClosing()) {
 			return &ErrorIncorrectTag{Expected: 2, Given: tag}
 		}
 
-- 
2.43.0


From 2b0be06f547767a8e344404773f388efecd006d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:05 +0000
Subject: [PATCH 14/43] fix: class and code of an error reply are its values,
 not its tags, and a truncated one is an error

---
 encoding/apdu.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/encoding/apdu.go b/encoding/apdu.go
index 3ffc544..aa819b7 100644
--- a/encoding/apdu.go
+++ b/encoding/apdu.go
@@ -123,18 +123,13 @@ func (d *Decoder) apduError(a *btypes.APDU) error {
 			return &ErrorWrongTagType{ClosingTag}
 		}
 	} else {
-		_, m, _ := d.tagNumberAndValue()
-		a.Error.Class = bacerr.ErrorClass(m)
-		_, m, _ = d.tagNumberAndValue()
-		a.Error.Code = bacerr.ErrorCode(m)
-		//TODO was like this but didnt work need to test more (changed to but as above)
-		//t, m, value := d.tagNumberAndValue()
-		//a.Error.Class = d.unsigned(int(value))
-		//t, m, value := d.tagNumberAndValue()
-		//a.Error.Code = d.unsigned(int(value))
+		// The tag just read is the one of the class
+		a.Error.Class = bacerr.ErrorClass(d.unsigned(int(d.value(meta))))
 
+		_, _, value := d.tagNumberAndValue()
+		a.Error.Code = bacerr.ErrorCode(d.unsigned(int(value)))
 	}
-	return nil
+	return d.Error()
 }
 
 func (d *Decoder) apduComplexAck(a *btypes.APDU) error {
-- 
2.43.0


From fb14b5619a0f59e5ad41ebdba3eeff07fa4e6320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:06 +0000
Subject: [PATCH 15/43] fix: a network message of type 0x80 carries a vendor id

---
 encoding/npdu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/npdu.go b/encoding/npdu.go
index b2bdf4c..5bb2a70 100644
--- a/encoding/npdu.go
+++ b/encoding/npdu.go
@@ -104,7 +104,7 @@ func (d *Decoder) NPDU(n *btypes.NPDU) (addr []btypes.Address, err error) {
 
 	if meta.IsNetworkLayerMessage() {
 		d.decode(&n.NetworkLayerMessageType)
-		if n.NetworkLayerMessageType > 0x80 {
+		if n.NetworkLayerMessageType >= 0x80 {
 			d.decode(&n.VendorId)
 		}
 		if n.NetworkLayerMessageType == ndpu.NetworkIs { //used for decoding a bacnet network number on a What-Is-Network-Number 0x12
-- 
2.43.0


From 40a910be46cfce0a99594ec317835fed312e8b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:08 +0000
Subject: [PATCH 16/43] fix: an I-Am-Router-To-Network message lists every
 network it carries, each once

---
 encoding/npdu.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/encoding/npdu.go b/encoding/npdu.go
index 5bb2a70..5c9308e 100644
--- a/encoding/npdu.go
+++ b/encoding/npdu.go
@@ -116,14 +116,18 @@ func (d *Decoder) NPDU(n *btypes.NPDU) (addr []btypes.Address, err error) {
 			var nets []btypes.Address
 			d.decode(&n.Source.Net) //decode the first network
 			nets = append(nets, *n.Source)
-			size := d.len()
-			for i := d.len(); i <= size; i++ {
+			for d.err == nil && d.len() > 0 {
 				d.decode(&n.Source.Net)
+				known := false
 				for _, adr := range nets {
-					if adr.Net != n.Source.Net { //make sure that a network is only added once
-						nets = append(nets, *n.Source)
+					if adr.Net == n.Source.Net { //make sure that a network is only added once
+						known = true
+						break
 					}
 				}
+				if !known {
+					nets = append(nets, *n.Source)
+				}
 			}
 			addr = nets
 		}
-- 
2.43.0


From fc72dfc736c89518843d929b0ddf56d16c89936f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:44 +0000
Subject: [PATCH 17/43] fix: an object identifier out of range is refused
 instead of being sent as another one

---
 encoding/appdata.go | 1 +
 encoding/encoder.go | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index 5c96ad3..bad58f4 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -117,6 +117,7 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 	case btypes.ObjectID:
 		e.tag(tagInfo{ID: tagObjectID, Context: appLayerContext, Value: objectIDLen})
 		e.objectId(val.Type, val.Instance)
+		return e.Error()
 	case null.Null:
 		e.tag(tagInfo{ID: tagNull, Context: appLayerContext})
 	default:
diff --git a/encoding/encoder.go b/encoding/encoder.go
index 454b6b2..4c00e9f 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -3,6 +3,7 @@ package encoding
 import (
 	"bytes"
 	"encoding/binary"
+	"fmt"
 	"github.com/NubeDev/bacnet/btypes"
 )
 
@@ -117,6 +118,12 @@ func (e *Encoder) tag(tg tagInfo) {
 /* from clause 20.2.14 Encoding of an Object Identifier Value
 returns the number of apdu bytes consumed */
 func (e *Encoder) objectId(objectType btypes.ObjectType, instance btypes.ObjectInstance) {
+	if objectType > MaxObject || instance > MaxInstance {
+		if e.err == nil {
+			e.err = fmt.Errorf("object identifier %d:%d is out of range", objectType, instance)
+		}
+		return
+	}
 	var value uint32
 	value = ((uint32(objectType) & MaxObject) << InstanceBits) | (uint32(instance) & MaxInstance)
 	e.write(value)
-- 
2.43.0


From 6e8a2a6de1a6124db594d69e241b8d7a48760e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:46 +0000
Subject: [PATCH 18/43] fix: a read request with an invalid object type or
 property is refused

---
 encoding/readprop.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/encoding/readprop.go b/encoding/readprop.go
index a2f17a4..51d60d0 100644
--- a/encoding/readprop.go
+++ b/encoding/readprop.go
@@ -8,6 +8,9 @@ import (
 
 func (e *Encoder) readPropertyHeader(tagPos uint8, data *btypes.PropertyData) (uint8, error) {
 	// Validate data first
+	if len(data.Object.Properties) == 0 {
+		return 0, fmt.Errorf("no property given")
+	}
 	if err := isValidObjectType(data.Object.ID.Type); err != nil {
 		return 0, err
 	}
@@ -44,7 +47,9 @@ func (e *Encoder) ReadProperty(invokeID uint8, data btypes.PropertyData) error {
 		SegmentedMessage: false,
 	}
 	e.APDU(a)
-	e.readPropertyHeader(initialTagPos, &data)
+	if _, err := e.readPropertyHeader(initialTagPos, &data); err != nil {
+		return err
+	}
 	return e.Error()
 }
 
-- 
2.43.0


From 1e3e6a9d192fe04e4cb141410a9fb384b9157d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:48 +0000
Subject: [PATCH 19/43] fix: the value of a read reply is closed by the tag
 that opened it

---
 encoding/readprop.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/encoding/readprop.go b/encoding/readprop.go
index 51d60d0..a342325 100644
--- a/encoding/readprop.go
+++ b/encoding/readprop.go
@@ -74,7 +74,6 @@ func (e *Encoder) ReadPropertyAck(invokeID uint8, data btypes.PropertyData) erro
 	}
 
 	e.openingTag(tagID)
-	tagID++
 	prop := data.Object.Properties[0]
 	e.AppData(prop.Data, false)
 	e.closingTag(tagID)
-- 
2.43.0


From 6b0988f7fb90ea5d4ab31d3563f805ef42b85b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 20/43] fix: a read reply without an object identifier and
 property in their places is an error

---
 encoding/readprop.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/encoding/readprop.go b/encoding/readprop.go
index a342325..1220a58 100644
--- a/encoding/readprop.go
+++ b/encoding/readprop.go
@@ -100,6 +100,9 @@ func (d *Decoder) ReadProperty(data *btypes.PropertyData) error {
 	if !meta.isContextSpecific() {
 		return fmt.Errorf("tag %d should be context specific. %x", tag, meta)
 	}
+	if length := d.value(meta); length != objectIDLen {
+		return fmt.Errorf("object identifier of %d octets", length)
+	}
 	objectType, instance = d.objectId()
 	data.Object.ID.Type = objectType
 	data.Object.ID.Instance = instance
@@ -109,6 +112,9 @@ func (d *Decoder) ReadProperty(data *btypes.PropertyData) error {
 	if tag != expectedTag {
 		return &ErrorIncorrectTag{expectedTag, tag}
 	}
+	if !meta.isContextSpecific() {
+		return fmt.Errorf("tag %d should be context specific. %x", tag, meta)
+	}
 	expectedTag++
 
 	lenValue := d.value(meta)
-- 
2.43.0


From d8c3fec5fcc4c7ff8ef686880407c6ada4b9e206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:31 +0000
Subject: [PATCH 21/43] fix: the priority of a multiple write request goes
 under tag 3

---
 encoding/encoder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index 4c00e9f..23fce96 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -213,7 +213,9 @@ func (e *Encoder) properties(properties []btypes.Property, write bool) error {
 			e.AppData(prop.Data, false)
 			// Tag 2 - Closing Tag
 			e.closingTag(tag)
+			// Tag 3 (OPTIONAL) - Priority
 			if prop.Priority != btypes.Normal {
+				tag = 3
 				e.contextUnsigned(tag, uint32(prop.Priority))
 			}
 		}
-- 
2.43.0


From 86a748ac177118022cf0c591249f4801894c8671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:40 +0000
Subject: [PATCH 22/43] fix: a value in a multiple read reply is written once,
 with its tag

---
 encoding/readmultipleack.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index 7fd056b..218b3cd 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -54,10 +54,8 @@ func (e *Encoder) propertiesWithData(properties []btypes.Property) error {
 		tag++
 		openedTag := tag
 		e.openingTag(openedTag)
-		e.write(prop.Data)
+		e.AppData(prop.Data, false)
 		e.closingTag(openedTag)
-
-		e.write(prop.Data)
 	}
 	return e.Error()
 }
-- 
2.43.0


From 57004685febd14d633caa0976db3f7fd48748f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:11 +0000
Subject: [PATCH 23/43] fix: an I-Am without its four values is an error

---
 encoding/iam.go | 43 +++++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/encoding/iam.go b/encoding/iam.go
index dba2a6e..b7b6660 100644
--- a/encoding/iam.go
+++ b/encoding/iam.go
@@ -1,6 +1,8 @@
 package encoding
 
 import (
+	"fmt"
+
 	"github.com/NubeDev/bacnet/btypes"
 )
 
@@ -24,20 +26,41 @@ func (d *Decoder) IAm(id *btypes.IAm) error {
 	if err != nil {
 		return err
 	}
-	if i, ok := objID.(btypes.ObjectID); ok {
-		id.ID = i
+	i, ok := objID.(btypes.ObjectID)
+	if !ok {
+		return fmt.Errorf("I-Am with %T for its object identifier", objID)
 	}
-	maxapdu, _ := d.AppData()
-	if m, ok := maxapdu.(uint32); ok {
-		id.MaxApdu = m
+
+	maxapdu, err := d.AppData()
+	if err != nil {
+		return err
+	}
+	m, ok := maxapdu.(uint32)
+	if !ok {
+		return fmt.Errorf("I-Am with %T for its maximum size", maxapdu)
+	}
+
+	segmentation, err := d.AppData()
+	if err != nil {
+		return err
 	}
-	segmentation, _ := d.AppData()
-	if m, ok := segmentation.(uint32); ok {
-		id.Segmentation = btypes.Enumerated(m)
+	seg, ok := segmentation.(uint32)
+	if !ok {
+		return fmt.Errorf("I-Am with %T for its segmentation", segmentation)
 	}
+
 	vendor, err := d.AppData()
-	if v, ok := vendor.(uint32); ok {
-		id.Vendor = v
+	if err != nil {
+		return err
+	}
+	v, ok := vendor.(uint32)
+	if !ok {
+		return fmt.Errorf("I-Am with %T for its vendor", vendor)
 	}
+
+	id.ID = i
+	id.MaxApdu = m
+	id.Segmentation = btypes.Enumerated(seg)
+	id.Vendor = v
 	return d.Error()
 }
-- 
2.43.0


From 3115e739e5f29020f187856950cdef2b323f165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:42 +0000
Subject: [PATCH 24/43] fix: a segmented complex acknowledgement carries its
 sequence number and window size

---
 encoding/apdu.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/encoding/apdu.go b/encoding/apdu.go
index aa819b7..a838db0 100644
--- a/encoding/apdu.go
+++ b/encoding/apdu.go
@@ -52,6 +52,10 @@ func (e *Encoder) apduUnconfirmed(a btypes.APDU) {
 
 func (e *Encoder) apduComplexAck(a btypes.APDU) {
 	e.write(a.InvokeId)
+	if a.SegmentedMessage {
+		e.write(a.Sequence)
+		e.write(a.WindowNumber)
+	}
 	e.write(a.Service)
 }
 
@@ -134,6 +138,10 @@ func (d *Decoder) apduError(a *btypes.APDU) error {
 
 func (d *Decoder) apduComplexAck(a *btypes.APDU) error {
 	d.decode(&a.InvokeId)
+	if a.SegmentedMessage {
+		d.decode(&a.Sequence)
+		d.decode(&a.WindowNumber)
+	}
 	d.decode(&a.Service)
 	return d.Error()
 }
-- 
2.43.0


From 3a37ceb1200e732e37e6b85cd4f7fdc2ef09956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:16 +0000
Subject: [PATCH 25/43] fix: send the range of a Who-Is whose limit is the last
 instance number

---
 encoding/whois.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/whois.go b/encoding/whois.go
index 1fa11cb..45c84bb 100644
--- a/encoding/whois.go
+++ b/encoding/whois.go
@@ -14,7 +14,7 @@ func (e *Encoder) WhoIs(low, high int32) error {
 
 	// The range is optional. A scan for all objects is done when either low/high
 	// are negative or when we are scanning above the max instance
-	if low >= 0 && high >= 0 && low < btypes.MaxInstance && high <
+	if low >= 0 && high >= 0 && low <= btypes.MaxInstance && high <=
 		btypes.MaxInstance {
 		// Tag 0
 		e.contextUnsigned(0, uint32(low))
-- 
2.43.0


From 9d7035c0418a220aa99bccd0e1aaa927d9695975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:23 +0000
Subject: [PATCH 26/43] fix: refuse to send a packet whose length does not fit
 its header

---
 device.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/device.go b/device.go
index 9413d79..6681b3e 100644
--- a/device.go
+++ b/device.go
@@ -11,6 +11,7 @@ import (
 	"github.com/NubeDev/bacnet/utsm"
 	log "github.com/sirupsen/logrus"
 	"io"
+	"math"
 	"sync"
 	"time"
 )
@@ -271,6 +272,9 @@ func (c *client) Send(dest btypes.Address, npdu *btypes.NPDU, data []byte, broad
 		}
 	}
 
+	if mtuHeaderLength+len(data) > math.MaxUint16 {
+		return 0, fmt.Errorf("%d bytes are too many for one packet", len(data))
+	}
 	header.Length = uint16(mtuHeaderLength + len(data))
 	header.Data = data
 	e := encoding.NewEncoder()
-- 
2.43.0


From 042f6e0e5b1115f6d6bcc3d39c2ef531c77209ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:27 +0000
Subject: [PATCH 27/43] fix: do not take the request of another device for the
 reply to our own

---
 device.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/device.go b/device.go
index 6681b3e..8e7cfe9 100644
--- a/device.go
+++ b/device.go
@@ -215,11 +215,9 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 				return
 			}
 		case btypes.ConfirmedServiceRequest:
-			c.log.Debug("Received  Confirmed Service Request")
-			err := c.tsm.Send(int(apdu.InvokeId), send)
-			if err != nil {
-				return
-			}
+			// A request of another device has an invoke id of its own: it answers
+			// none of our transactions.
+			c.log.Debug("Ignored Confirmed Service Request")
 		case btypes.Error:
 			err := fmt.Errorf("error class %s code %s", apdu.Error.Class.String(), apdu.Error.Code.String())
 			err = c.tsm.Send(int(apdu.InvokeId), err)
-- 
2.43.0


From 62fe69194948d56d5833befb6af765b5fa4ce255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:28 +0000
Subject: [PATCH 28/43] fix: do not decode a network layer message as an APDU

---
 device.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 8e7cfe9..4abb175 100644
--- a/device.go
+++ b/device.go
@@ -158,7 +158,8 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 				c.utsm.Publish(int(npdu.Source.Net), networkList)
 				//return
 			}
-
+			// What follows is no APDU
+			return
 		}
 
 		// We want to keep the APDU intact, so we will get a snapshot before decoding
-- 
2.43.0


From e9be7128eab3e9cca364bd79fc78ed6fd0932515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:30 +0000
Subject: [PATCH 29/43] fix: read the original sender of a forwarded packet

---
 device.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/device.go b/device.go
index 4abb175..496e000 100644
--- a/device.go
+++ b/device.go
@@ -143,6 +143,17 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 	if header.Function == btypes.BacFuncBroadcast || header.Function == btypes.BacFuncUnicast || header.Function == btypes.BacFuncForwardedNPDU {
 		// Remove the header information
 		b = b[mtuHeaderLength:]
+		if header.Function == btypes.BacFuncForwardedNPDU {
+			// The address of the original sender comes first
+			if len(b) < forwardHeaderLength-mtuHeaderLength {
+				c.log.Error("forwarded packet without its sender")
+				return
+			}
+			mac := append([]uint8{}, b[:forwardHeaderLength-mtuHeaderLength]...)
+			src = &btypes.Address{Mac: mac, MacLen: uint8(len(mac))}
+			b = b[len(mac):]
+			dec = encoding.NewDecoder(b)
+		}
 		networkList, err := dec.NPDU(&npdu)
 		if err != nil {
 			return
@@ -231,13 +242,6 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 		}
 	}
 
-	if header.Function == btypes.BacFuncForwardedNPDU {
-		// Right now we are ignoring the NPDU data that is stored in the packet. Eventually
-		// we will need to check it for any additional information we can gleam.
-		// NDPU has source
-		b = b[forwardHeaderLength:]
-		c.log.Debug("Ignored NDPU Forwarded")
-	}
 }
 
 type SetBroadcastType struct { //used to override the header.Function
-- 
2.43.0


From acf3e329fd8ca3f900f668347e6daa2c8f622e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:31 +0000
Subject: [PATCH 30/43] fix: ignore packets that are not whole BACnet/IP
 packets of version 1

---
 device.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/device.go b/device.go
index 496e000..9fe2e53 100644
--- a/device.go
+++ b/device.go
@@ -140,6 +140,11 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 		return
 	}
 
+	if header.Type != btypes.BVLCTypeBacnetIP || int(header.Length) != len(b) {
+		c.log.Errorf("Ignored a packet of type %d and length %d", header.Type, header.Length)
+		return
+	}
+
 	if header.Function == btypes.BacFuncBroadcast || header.Function == btypes.BacFuncUnicast || header.Function == btypes.BacFuncForwardedNPDU {
 		// Remove the header information
 		b = b[mtuHeaderLength:]
@@ -158,6 +163,10 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 		if err != nil {
 			return
 		}
+		if npdu.Version != btypes.ProtocolVersion {
+			c.log.Errorf("Ignored a packet of protocol version %d", npdu.Version)
+			return
+		}
 
 		if npdu.IsNetworkLayerMessage {
 			c.log.Debug("Ignored Network Layer Message")
-- 
2.43.0


From 06a00cb03619251ff5105334394d569346ec937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:28 +0000
Subject: [PATCH 31/43] fix: read UDP addresses in either form of IPv4 and no
 others

---
 datalink/udp.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/datalink/udp.go b/datalink/udp.go
index c4f0a72..0cbeb76 100644
--- a/datalink/udp.go
+++ b/datalink/udp.go
@@ -67,6 +67,10 @@ func dataLink(ipAddr string, port int) (DataLink, error) {
 		return nil, err
 	}
 
+	if ip.To4() == nil {
+		return nil, fmt.Errorf("%s is not an IPv4 address", ip)
+	}
+
 	broadcast := net.IP(make([]byte, 4))
 	for i := range broadcast {
 		broadcast[i] = ipNet.IP[i] | ^ipNet.Mask[i]
@@ -93,13 +97,16 @@ func (c *udpDataLink) Close() error {
 }
 
 func (c *udpDataLink) Receive(data []byte) (*btypes.Address, int, error) {
-	n, adr, err := c.listener.ReadFromUDP(data)
-	if err != nil {
-		return nil, n, err
+	for {
+		n, adr, err := c.listener.ReadFromUDP(data)
+		if err != nil {
+			return nil, n, err
+		}
+		// BACnet/IP is IPv4 only
+		if udpAddr := UDPToAddress(adr); udpAddr != nil {
+			return udpAddr, n, nil
+		}
 	}
-	adr.IP = adr.IP.To4()
-	udpAddr := UDPToAddress(adr)
-	return udpAddr, n, nil
 }
 
 func (c *udpDataLink) GetMyAddress() *btypes.Address {
@@ -128,8 +135,13 @@ func IPPortToAddress(ip net.IP, port int) *btypes.Address {
 	})
 }
 
-// UDPToAddress converts a given udp address into a bacnet address
+// UDPToAddress converts a given udp address into a bacnet address, nil if it is
+// not an IPv4 address
 func UDPToAddress(n *net.UDPAddr) *btypes.Address {
+	ip := n.IP.To4()
+	if ip == nil {
+		return nil
+	}
 	a := &btypes.Address{}
 	p := uint16(n.Port)
 	// Length of IP plus the port
@@ -137,7 +149,7 @@ func UDPToAddress(n *net.UDPAddr) *btypes.Address {
 	a.Mac = make([]uint8, length)
 	//Encode ip
 	for i := 0; i < net.IPv4len; i++ {
-		a.Mac[i] = n.IP[i]
+		a.Mac[i] = ip[i]
 	}
 	// Encode port
 	a.Mac[net.IPv4len+0] = uint8(p >> 8)
-- 
2.43.0


From cf6bbd1db3b9f8dc9165982bb9aa3006d675761e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:28 +0000
Subject: [PATCH 32/43] fix: announce all octets of a hardware address

---
 btypes/address.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/btypes/address.go b/btypes/address.go
index 2f754e3..b9ab045 100644
--- a/btypes/address.go
+++ b/btypes/address.go
@@ -24,10 +24,10 @@ func (a *Address) IsBroadcast() bool {
 	return false
 }
 
-//SetLength if device is of type ms-tp then set address len to 1
+//SetLength if device has a hardware address (one octet for ms-tp) then set address len to its length
 func (a *Address) SetLength() {
 	if len(a.Adr) > 0 {
-		a.Len = 1
+		a.Len = uint8(len(a.Adr))
 	}
 	return
 }
-- 
2.43.0


From bd9c476552c2ae3eb61ddcfe5ce8c6da0a74d2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:19 +0000
Subject: [PATCH 33/43] fix: pass subnet and port to the data link in their
 order

---
 device.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 9fe2e53..f3a454f 100644
--- a/device.go
+++ b/device.go
@@ -90,7 +90,7 @@ func NewClient(cb *ClientBuilder) (Client, error) {
 		if !ok {
 
 		}
-		dataLink, err = datalink.NewUDPDataLinkFromIP(ip, port, sub)
+		dataLink, err = datalink.NewUDPDataLinkFromIP(ip, sub, port)
 		if err != nil {
 			//log.Fatal(err)
 		}
-- 
2.43.0


From d0a948ae09f9c766d3b6cd08fc754c3e2ff3e3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:19 +0000
Subject: [PATCH 34/43] fix: refuse a device whose address or port is none

---
 btypes/device.go      | 2 +-
 helpers/ipbytes/ip.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/btypes/device.go b/btypes/device.go
index 0357c32..cd6e414 100644
--- a/btypes/device.go
+++ b/btypes/device.go
@@ -74,7 +74,7 @@ func NewDevice(device *Device) (*Device, error) {
 	}
 	ok = validation.ValidPort(port)
 	if !ok {
-		fmt.Println("fail port")
+		return nil, fmt.Errorf("%d is not a port", port)
 	}
 
 	ip, err := ip2bytes.New(device.Ip, uint16(port))
diff --git a/helpers/ipbytes/ip.go b/helpers/ipbytes/ip.go
index 30cc36a..f5c7aff 100644
--- a/helpers/ipbytes/ip.go
+++ b/helpers/ipbytes/ip.go
@@ -31,6 +31,9 @@ func pack32BinaryIP4(ip4Address string) []byte {
 - returns uint8[192 168 15 10 186 192]
 */
 func New(ip string, port uint16) ([]uint8, error) {
+	if net.ParseIP(ip).To4() == nil {
+		return nil, errors.New("helpers.mac.BuildMac() not an IPv4 address: " + ip)
+	}
 	buf := new(bytes.Buffer)
 	err := binary.Write(buf, binary.BigEndian, port)
 	if err != nil {
-- 
2.43.0


From 0b67c0a6cf08ecbf8ecf3c9464304a5efccbe05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:19 +0000
Subject: [PATCH 35/43] fix: read priority arrays of any point and replies
 without values

---
 btypes/priority/priority.go | 17 +++++------------
 helpers/data/data.go        |  9 ++++++++-
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/btypes/priority/priority.go b/btypes/priority/priority.go
index 20ba769..ae4179c 100644
--- a/btypes/priority/priority.go
+++ b/btypes/priority/priority.go
@@ -4,7 +4,6 @@ import (
 	"github.com/NubeDev/bacnet/btypes"
 	"github.com/NubeDev/bacnet/helpers/data"
 	"github.com/NubeDev/bacnet/helpers/nils"
-	"reflect"
 )
 
 func BuildFloat32(in btypes.PropertyData, objType btypes.ObjectType) (pri *Float32) {
@@ -12,17 +11,11 @@ func BuildFloat32(in btypes.PropertyData, objType btypes.ObjectType) (pri *Float
 	_, arr := data.ToArr(in)
 	for i, value := range arr {
 		var returnValue *float32
-		typeOf := reflect.TypeOf(value)
-		if typeOf.Name() != "Null" {
-			if objType == btypes.BinaryOutput || objType == btypes.BinaryValue { //convert from uint32
-				f := value.(uint32)
-				flt := float32(f)
-				returnValue = nils.NewFloat32(flt)
-			} else {
-				f := value.(uint32)
-				flt := float32(f)
-				returnValue = nils.NewFloat32(flt)
-			}
+		switch v := value.(type) {
+		case float32: // analog points
+			returnValue = nils.NewFloat32(v)
+		case uint32: // binary and multi-state points
+			returnValue = nils.NewFloat32(float32(v))
 		}
 		switch i {
 		case 0:
diff --git a/helpers/data/data.go b/helpers/data/data.go
index a8d859c..d44432f 100644
--- a/helpers/data/data.go
+++ b/helpers/data/data.go
@@ -6,8 +6,11 @@ import (
 )
 
 func ToBitString(d btypes.PropertyData) (ok bool, out *btypes.BitString) {
+	if len(d.Object.Properties) == 0 {
+		fmt.Println("No value returned")
+		return ok, out
+	}
 	out, ok = d.Object.Properties[0].Data.(*btypes.BitString)
-
 	if !ok {
 		fmt.Println("unable to get object list")
 		return ok, out
@@ -16,6 +19,10 @@ func ToBitString(d btypes.PropertyData) (ok bool, out *btypes.BitString) {
 }
 
 func ToArr(d btypes.PropertyData) (ok bool, out []interface{}) {
+	if len(d.Object.Properties) == 0 {
+		fmt.Println("No value returned")
+		return ok, out
+	}
 	out, ok = d.Object.Properties[0].Data.([]interface{})
 	if !ok {
 		fmt.Println("unable to get object list")
-- 
2.43.0


From 4f7ca424a621bde8cee6ff2d74d10c0476579b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:11 +0000
Subject: [PATCH 36/43] fix: reach a device at the port it was given

---
 network/device.go | 1 +
 network/store.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/network/device.go b/network/device.go
index 1dcc22f..79b6558 100644
--- a/network/device.go
+++ b/network/device.go
@@ -30,6 +30,7 @@ func NewDevice(net *Network, device *Device) (*Device, error) {
 	}
 	dev := &btypes.Device{
 		Ip:            device.Ip,
+		Port:          device.Port,
 		DeviceID:      device.DeviceID,
 		NetworkNumber: device.NetworkNumber,
 		MacMSTP:       device.MacMSTP,
diff --git a/network/store.go b/network/store.go
index 426ff77..b4bfed2 100644
--- a/network/store.go
+++ b/network/store.go
@@ -60,6 +60,7 @@ func (store *Store) UpdateDevice(storeID string, net *Network, device *Device) e
 	var err error
 	dev := &btypes.Device{
 		Ip:            device.Ip,
+		Port:          device.Port,
 		DeviceID:      device.DeviceID,
 		NetworkNumber: device.NetworkNumber,
 		MacMSTP:       device.MacMSTP,
-- 
2.43.0


From 679162f2430c20c5f4ca94b382548f7ff43da0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:23 +0000
Subject: [PATCH 37/43] fix: find the devices of a range without limits given
 as ArrayAll

---
 whois.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/whois.go b/whois.go
index 95888b1..5e47fda 100644
--- a/whois.go
+++ b/whois.go
@@ -25,12 +25,15 @@ func (c *client) WhoIs(wh *WhoIsOpts) ([]btypes.Device, error) {
 	if wh.GlobalBroadcast {
 		wh.NetworkNumber = btypes.GlobalBroadcast //65535
 	}
-	if low <= 0 {
+	if low <= 0 || int64(low) == ArrayAll {
 		low = 0
 	}
-	if high <= 0 {
+	if high <= 0 || high > 4194304 {
 		high = 4194304 //max dev id
 	}
+	if low > 4194304 {
+		low = 4194304
+	}
 
 	dest.Net = wh.NetworkNumber
 	npdu := &btypes.NPDU{
@@ -60,7 +63,7 @@ func (c *client) WhoIs(wh *WhoIsOpts) ([]btypes.Device, error) {
 	// Run in parallel
 	errChan := make(chan error)
 	go func() {
-		_, err = c.Send(dest, npdu, enc.Bytes(), nil)
+		_, err := c.Send(dest, npdu, enc.Bytes(), nil)
 		errChan <- err
 	}()
 	values, err := c.utsm.Subscribe(start, end)
-- 
2.43.0


From 41924dfc8746302291899bda01ece726c4c165c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:54 +0000
Subject: [PATCH 38/43] fix: take only the acknowledgement of the requested
 service for success

---
 readmulti.go  |  3 +++
 readprop.go   | 12 ++++++++++++
 writemulti.go |  2 +-
 writeprop.go  |  3 +++
 4 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/readmulti.go b/readmulti.go
index 67377e1..25ce2fb 100644
--- a/readmulti.go
+++ b/readmulti.go
@@ -98,6 +98,9 @@ func (c *client) sendReadMultipleProperty(id int, dev btypes.Device, npdu *btype
 		err = fmt.Errorf("received error, class: %d, code: %d", apdu.Error.Class, apdu.Error.Code)
 		return out, err
 	}
+	if err = acknowledges(&apdu, btypes.ComplexAck, btypes.ServiceConfirmedReadPropMultiple); err != nil {
+		return out, err
+	}
 	err = dec.ReadMultiplePropertyAck(&out)
 	if err != nil {
 		c.log.Debugf("WEIRD PACKET: %v: %v", err, b)
diff --git a/readprop.go b/readprop.go
index 73f1b57..4f54d43 100644
--- a/readprop.go
+++ b/readprop.go
@@ -68,6 +68,9 @@ func (c *client) ReadProperty(device btypes.Device, rp btypes.PropertyData) (bty
 			err = fmt.Errorf("received error, class: %d, code: %d", apdu.Error.Class, apdu.Error.Code)
 			continue
 		}
+		if err = acknowledges(&apdu, btypes.ComplexAck, btypes.ServiceConfirmedReadProperty); err != nil {
+			continue
+		}
 		if err = dec.ReadProperty(&out); err != nil {
 			continue
 		}
@@ -75,3 +78,12 @@ func (c *client) ReadProperty(device btypes.Device, rp btypes.PropertyData) (bty
 	}
 	return btypes.PropertyData{}, err
 }
+
+// acknowledges returns an error unless the reply is the acknowledgement of a
+// request for the service, whole and of the type the service has.
+func acknowledges(apdu *btypes.APDU, dataType btypes.PDUType, service btypes.ServiceConfirmed) error {
+	if apdu.DataType != dataType || apdu.Service != service || apdu.SegmentedMessage {
+		return fmt.Errorf("received unexpected reply, type: %d, service: %d", apdu.DataType, apdu.Service)
+	}
+	return nil
+}
diff --git a/writemulti.go b/writemulti.go
index e65a189..5aede78 100644
--- a/writemulti.go
+++ b/writemulti.go
@@ -82,5 +82,5 @@ func (c *client) sendWriteMultipleProperty(id int, dev btypes.Device, npdu *btyp
 	if apdu.Error.Class != 0 || apdu.Error.Code != 0 {
 		return fmt.Errorf("received error, class: %d, code: %d", apdu.Error.Class, apdu.Error.Code)
 	}
-	return nil
+	return acknowledges(&apdu, btypes.SimpleAck, btypes.ServiceConfirmedWritePropMultiple)
 }
diff --git a/writeprop.go b/writeprop.go
index ed6c39a..af15c3c 100644
--- a/writeprop.go
+++ b/writeprop.go
@@ -66,6 +66,9 @@ func (c *client) WriteProperty(device btypes.Device, wp btypes.PropertyData) err
 			err = fmt.Errorf("received error, class: %d, code: %d", apdu.Error.Class, apdu.Error.Code)
 			continue
 		}
+		if err = acknowledges(&apdu, btypes.SimpleAck, btypes.ServiceConfirmedWriteProperty); err != nil {
+			continue
+		}
 
 		return err
 	}
-- 
2.43.0


From 87e6a35cded156e14bf7018b27595671dfa00157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:54 +0000
Subject: [PATCH 39/43] fix: do not send write requests that could not be
 encoded

---
 writemulti.go | 6 +++---
 writeprop.go  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/writemulti.go b/writemulti.go
index 5aede78..6cab34e 100644
--- a/writemulti.go
+++ b/writemulti.go
@@ -30,9 +30,9 @@ func (c *client) WriteMultiProperty(dev btypes.Device, wp btypes.MultiplePropert
 	enc := encoding.NewEncoder()
 	enc.NPDU(npdu)
 
-	enc.WriteMultiProperty(uint8(id), wp)
-	if enc.Error() != nil {
-		return enc.Error()
+	err = enc.WriteMultiProperty(uint8(id), wp)
+	if err != nil {
+		return err
 	}
 
 	pack := enc.Bytes()
diff --git a/writeprop.go b/writeprop.go
index af15c3c..dd9d804 100644
--- a/writeprop.go
+++ b/writeprop.go
@@ -28,9 +28,9 @@ func (c *client) WriteProperty(device btypes.Device, wp btypes.PropertyData) err
 	}
 	enc := encoding.NewEncoder()
 	enc.NPDU(npdu)
-	enc.WriteProperty(uint8(id), wp)
-	if enc.Error() != nil {
-		return enc.Error()
+	err = enc.WriteProperty(uint8(id), wp)
+	if err != nil {
+		return err
 	}
 	// the value filled doesn't matter. it just needs to be non nil
 	err = fmt.Errorf("go")
-- 
2.43.0


From 67aeae2bd044dba4275770320328ba66f6b6c09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:54 +0000
Subject: [PATCH 40/43] fix: announce the hardware address in multiple write
 requests

---
 writemulti.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/writemulti.go b/writemulti.go
index 6cab34e..2b98ded 100644
--- a/writemulti.go
+++ b/writemulti.go
@@ -17,6 +17,7 @@ func (c *client) WriteMultiProperty(dev btypes.Device, wp btypes.MultiplePropert
 		return fmt.Errorf("unable to get an transaction id: %v", err)
 	}
 	defer c.tsm.Put(id)
+	dev.Addr.SetLength()
 
 	npdu := &btypes.NPDU{
 		Version:               btypes.ProtocolVersion,
-- 
2.43.0


From c2756659235c7b502c49116c0054e513fd7ce622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:37 +0000
Subject: [PATCH 41/43] fix: read object lists of any device and reply without
 a panic

---
 objectlist.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/objectlist.go b/objectlist.go
index 6f8c8c6..dc71403 100644
--- a/objectlist.go
+++ b/objectlist.go
@@ -57,6 +57,10 @@ func (c *client) objectsRange(dev btypes.Device, start, end int) ([]btypes.Objec
 		return nil, fmt.Errorf("no data was returned")
 	}
 
+	if n := len(resp.Objects[0].Properties); n != end-start+1 {
+		return nil, fmt.Errorf("expected %d entries, got %d", end-start+1, n)
+	}
+
 	objs := make([]btypes.Object, len(resp.Objects[0].Properties))
 
 	for i, prop := range resp.Objects[0].Properties {
@@ -92,6 +96,9 @@ func (c *client) objectList(dev *btypes.Device) error {
 
 	// Scan size is broken
 	scanSize := int(dev.MaxApdu) / readPropRequestSize
+	if scanSize == 0 {
+		return fmt.Errorf("max apdu of %d is too small", dev.MaxApdu)
+	}
 	i := 0
 	for i = 0; i < l/scanSize; i++ {
 		start := i*scanSize + 1
@@ -146,13 +153,22 @@ func (c *client) objectInformation(dev *btypes.Device, objs []btypes.Object) err
 		})
 
 	}
+	if counter == 0 {
+		return nil
+	}
 	resp, err := c.ReadMultiProperty(*dev, rpm)
 	if err != nil {
 		return fmt.Errorf("unable to read multiple property :%v", err)
 	}
+	if len(resp.Objects) != counter {
+		return fmt.Errorf("expected %d objects, got %d", counter, len(resp.Objects))
+	}
 	var name, description string
 	var ok bool
 	for i, r := range resp.Objects {
+		if len(r.Properties) < 2 {
+			return fmt.Errorf("expected name and description, got %d properties", len(r.Properties))
+		}
 		name, ok = r.Properties[0].Data.(string)
 		if !ok {
 			return fmt.Errorf("expecting string got %T", r.Properties[0].Data)
-- 
2.43.0


From 2b2399b03e3f19fdd1287bf9b34e2bfa9cf0fa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:49 +0000
Subject: [PATCH 42/43] fix: build object lists of any reply without a panic

---
 network/objects.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/network/objects.go b/network/objects.go
index f7367d4..aa8680a 100644
--- a/network/objects.go
+++ b/network/objects.go
@@ -46,9 +46,15 @@ func (device *Device) DeviceObjects(deviceID btypes.ObjectInstance, checkAPDU bo
 		fmt.Println("No value returned")
 		return nil, nil
 	}
+	if objectID, ok := out.Object.Properties[0].Data.(btypes.ObjectID); ok { // a list of one
+		return []btypes.ObjectID{objectID}, nil
+	}
 	_, ids := data.ToArr(out)
 	for _, id := range ids {
-		objectID := id.(btypes.ObjectID)
+		objectID, ok := id.(btypes.ObjectID)
+		if !ok {
+			return nil, fmt.Errorf("expected type Object ID, got %T", id)
+		}
 		objectList = append(objectList, objectID)
 	}
 	return objectList, nil
@@ -69,13 +75,25 @@ func (device *Device) deviceObjectsBuilder(deviceID btypes.ObjectInstance) (obje
 		log.Errorln("failed to read object list in deviceObjectsBuilder() err:", err)
 		return nil, err
 	}
-	_, o := data.ToUint32(out)
+	ok, o := data.ToUint32(out)
+	if !ok {
+		return nil, fmt.Errorf("unable to get object length")
+	}
 	log.Println("size of object-list", o)
 	var listLen = int(o)
 	for i := 1; i <= listLen; i++ {
 		obj.ArrayIndex = uint32(i)
-		out, _ := device.Read(obj)
-		objectID := out.Object.Properties[0].Data.(btypes.ObjectID)
+		out, err := device.Read(obj)
+		if err != nil {
+			return nil, err
+		}
+		if len(out.Object.Properties) == 0 {
+			return nil, fmt.Errorf("no value returned for entry %d of the object list", i)
+		}
+		objectID, ok := out.Object.Properties[0].Data.(btypes.ObjectID)
+		if !ok {
+			return nil, fmt.Errorf("expected type Object ID, got %T", out.Object.Properties[0].Data)
+		}
 		objectList = append(objectList, objectID)
 	}
 	return objectList, err
-- 
2.43.0


From a146fd25751a0bbce88f445e25c57c7f5c54ec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:34 +0000
Subject: [PATCH 43/43] fix: discovery gives a device of its own for every
 answer, with the sizes it announced

---
 network/discover.go | 26 +++++++++++++-------------
 network/whois.go    |  5 +++--
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/network/discover.go b/network/discover.go
index f469b5d..e32be21 100644
--- a/network/discover.go
+++ b/network/discover.go
@@ -92,22 +92,22 @@ func (device *Device) DeviceDiscover(options *bacnet.WhoIsOpts) ([]*Device, erro
 		return devices, err
 	}
 	for _, dev := range whois {
-		if len(dev.Addr.Adr) > 0 {
-			device.MacMSTP = int(dev.Addr.Adr[0])
-		}
-		host, _ := dev.Addr.UDPAddr()
-		device.DeviceID = int(dev.ID.Instance)
-		device.Ip = host.IP.String()
-		device.NetworkNumber = int(dev.Addr.Net)
-		device.MaxApdu = dev.MaxApdu
-		device.Segmentation = uint32(dev.Segmentation)
-		details, err := device.GetDeviceDetails(dev.ID.Instance)
+		found := *device // a device of its own for every answer
+		found.dev = dev
+		found.MacMSTP = dev.MacMSTP
+		found.DeviceID = int(dev.ID.Instance)
+		found.Ip = dev.Ip
+		found.Port = dev.Port
+		found.NetworkNumber = int(dev.Addr.Net)
+		found.MaxApdu = dev.MaxApdu
+		found.Segmentation = uint32(dev.Segmentation)
+		details, err := found.GetDeviceDetails(dev.ID.Instance)
 		if err != nil {
 			fmt.Println("discover err", err)
 		}
-		device.DeviceName = details.Name
-		device.VendorName = details.VendorName
-		devices = append(devices, device)
+		found.DeviceName = details.Name
+		found.VendorName = details.VendorName
+		devices = append(devices, &found)
 
 	}
 	count := 1
diff --git a/network/whois.go b/network/whois.go
index 74cb953..3b256a7 100644
--- a/network/whois.go
+++ b/network/whois.go
@@ -34,14 +34,15 @@ func (net *Network) NetworkDiscover(options *bacnet.WhoIsOpts) ([]btypes.Device,
 			Segmentation:  device.Segmentation,
 		}
 		dev, err := btypes.NewDevice(buildDevice)
+		if err != nil {
+			return nil, err
+		}
 		details, err := net.GetDeviceDetails(*dev)
 		if err != nil {
 			return nil, err
 		}
 		device.DeviceName = details.Name
 		device.VendorName = details.VendorName
-		device.MaxApdu = details.MaxApdu
-		device.Segmentation = btypes.Enumerated(details.Segmentation)
 		devices = append(devices, device)
 	}
 	return devices, err
-- 
2.43.0

