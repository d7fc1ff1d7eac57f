From b22e537b55a49c066ee375a081b0178bd6c9d9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 01/54] fix: short repeat runs drop zero bytes of the repeated
 value

---
 orc/encoding/int.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index ee091f4..e8cf4dc 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -1107,25 +1107,23 @@ func writeShortRepeat(count int, x uint64, out *bytes.Buffer) error {
 	header := byte(count & 0x07)         // count
 	header |= Encoding_SHORT_REPEAT << 6 // encoding
 	var w byte
-	bb := bytes.NewBuffer(make([]byte, 8))
-	bb.Reset()
 	for j := 7; j >= 0; j-- { //
 		b := byte(x >> uint(8*j))
 		if b != 0x00 {
 			if byte(j) > w { // [1, 8]
 				w = byte(j)
 			}
-			if err := bb.WriteByte(b); err != nil {
-				return errors.WithStack(err)
-			}
 		}
 	}
 	header |= w << 3 // W
 	if err := out.WriteByte(header); err != nil {
 		return errors.WithStack(err)
 	}
-	if _, err := bb.WriteTo(out); err != nil {
-		return errors.WithStack(err)
+	// all w+1 bytes of the value, zero bytes inside of it included
+	for j := int(w); j >= 0; j-- {
+		if err := out.WriteByte(byte(x >> uint(8*j))); err != nil {
+			return errors.WithStack(err)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 1dfa0616a99ec3f13e69efeb3ff52c68dfe6c48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:13 +0000
Subject: [PATCH 02/54] fix: int encoder writes nothing for a full run that is
 neither repeat, delta nor patch

---
 orc/encoding/int.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index e8cf4dc..7490f25 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -486,7 +486,8 @@ func (e *intRLV2Encoder) write(out *bytes.Buffer, toEnd bool) error {
 			}
 
 			// rethink: rest all will be direct ?
-			if toEnd && len(e.values) != 0 {
+			// a full buffer no other encoding takes anything from has to be written as well
+			if (toEnd && len(e.values) != 0) || len(e.values) >= MaxIntRunLength {
 				if err := e.writeDirect(out, true); err != nil {
 					return err
 				}
-- 
2.43.0


From d45645d8755268d1854b869f96b0ca9c2695b707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:16 +0000
Subject: [PATCH 03/54] fix: int encoder fails on zero deltas and on 12 bits
 wide deltas

---
 orc/encoding/int.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 7490f25..ad8d0a1 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -517,6 +517,10 @@ func (e *intRLV2Encoder) writeDirect(out *bytes.Buffer, widthAlign bool) error {
 		}
 	}
 
+	if width == 0 { // all values are 0, there is no width 0
+		width = 1
+	}
+
 	encodedWidth, err := widthEncoding(width)
 	if err != nil {
 		return errors.WithStack(err)
@@ -889,7 +893,7 @@ func writeDelta(out *bytes.Buffer, first []byte, deltaBase int64, length uint16,
 			width = byte(bits)
 		}
 	}
-	if width == 1 { // delta width no 1?
+	if len(deltas) != 0 && width < 2 { // delta width no 1, and width 0 means fixed delta
 		width = 2
 	}
 	w, err := widthEncoding(int(width))
@@ -1030,9 +1034,6 @@ func getAlignedWidth(x uint64) int {
 	} else if n > 4 && n <= 8 {
 		n = 8
 	} else if n > 8 && n <= 16 {
-		if n == 12 { // just for patch testing
-			return int(n)
-		}
 		n = 16
 	} else if n > 16 && n <= 24 {
 		n = 24
-- 
2.43.0


From 4716700aeb24efff47755375659b85c7ec8124bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:34 +0000
Subject: [PATCH 04/54] fix: int encoder panics on varints longer than 8 bytes

---
 orc/encoding/int.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index ad8d0a1..ccabc80 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -442,7 +442,7 @@ func (e *intRLV2Encoder) write(out *bytes.Buffer, toEnd bool) error {
 			} else {
 
 				// fixed delta 0
-				b := make([]byte, 8)
+				b := make([]byte, binary.MaxVarintLen64)
 				var n int
 				if e.signed {
 					n = binary.PutVarint(b, UnZigzag(e.values[0]))
@@ -460,7 +460,7 @@ func (e *intRLV2Encoder) write(out *bytes.Buffer, toEnd bool) error {
 			// delta, need width should be stable?
 			dv := &deltaValues{}
 			if tryDeltaEncoding(e.signed, e.values, dv) {
-				b := make([]byte, 8)
+				b := make([]byte, binary.MaxVarintLen64)
 				var n int
 				if e.signed {
 					n = binary.PutVarint(b, UnZigzag(e.values[0]))
@@ -915,7 +915,7 @@ func writeDelta(out *bytes.Buffer, first []byte, deltaBase int64, length uint16,
 		return errors.WithStack(err)
 	}
 	// write delta base
-	db := make([]byte, 8)
+	db := make([]byte, binary.MaxVarintLen64)
 	n := binary.PutVarint(db, deltaBase)
 	if _, err := out.Write(db[:n]); err != nil {
 		return errors.WithStack(err)
-- 
2.43.0


From d7e7a6527e1837e38d0231ca97a0eca2cabf7395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 05/54] fix: delta runs with a first difference out of int64
 range decode to other values

---
 orc/encoding/int.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index ccabc80..8546646 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -570,6 +570,9 @@ func tryDeltaEncoding(signed bool, values []uint64, dv *deltaValues) bool {
 
 		v2 := UnZigzag(values[2])
 		v1 := UnZigzag(values[1])
+		if (dv.base > 0) != (v1 > UnZigzag(values[0])) { // difference overflows int64
+			return false
+		}
 		if dv.base > 0 {
 			if v2 >= v1 {
 				dv.deltas = append(dv.deltas, uint64(v2-v1))
@@ -590,6 +593,9 @@ func tryDeltaEncoding(signed bool, values []uint64, dv *deltaValues) bool {
 		} else {
 			dv.base = -int64(values[0] - values[1])
 		}
+		if (dv.base > 0) != (values[0] < values[1]) { // difference overflows int64
+			return false
+		}
 
 		if dv.base > 0 {
 			if values[2] >= values[1] {
-- 
2.43.0


From ca80aafb6bf2433bccf67193feec575fabee0856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:38 +0000
Subject: [PATCH 06/54] fix: fixed delta runs repeat the second value instead
 of advancing

---
 orc/encoding/int.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 8546646..fde130d 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -152,13 +152,15 @@ func (d *intRLV2Decoder) decode(in BufferedReader) error {
 			return errors.WithStack(err)
 		}
 
-		if d.signed {
-			d.uvs = append(d.uvs, Zigzag(base+deltaBase))
-		} else {
-			if deltaBase >= 0 {
-				d.uvs = append(d.uvs, ubase+uint64(deltaBase))
+		if length > 1 {
+			if d.signed {
+				d.uvs = append(d.uvs, Zigzag(base+deltaBase))
 			} else {
-				d.uvs = append(d.uvs, ubase-uint64(-deltaBase))
+				if deltaBase >= 0 {
+					d.uvs = append(d.uvs, ubase+uint64(deltaBase))
+				} else {
+					d.uvs = append(d.uvs, ubase-uint64(-deltaBase))
+				}
 			}
 		}
 
@@ -166,13 +168,14 @@ func (d *intRLV2Decoder) decode(in BufferedReader) error {
 		d.forgetBits()
 		for i := 2; i < length; i++ {
 			if width == 0 { //fixed delta
+				prev := d.uvs[len(d.uvs)-1]
 				if d.signed {
-					d.uvs = append(d.uvs, Zigzag(base+deltaBase))
+					d.uvs = append(d.uvs, Zigzag(UnZigzag(prev)+deltaBase))
 				} else {
 					if deltaBase >= 0 {
-						d.uvs = append(d.uvs, ubase+uint64(deltaBase))
+						d.uvs = append(d.uvs, prev+uint64(deltaBase))
 					} else {
-						d.uvs = append(d.uvs, ubase-uint64(-deltaBase))
+						d.uvs = append(d.uvs, prev-uint64(-deltaBase))
 					}
 				}
 			} else {
-- 
2.43.0


From ca48999a42b5c1006bf38de144bc073f2e90280a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:00 +0000
Subject: [PATCH 07/54] fix: int decoder rejects unsigned patched base runs and
 panics on patches out of the run

---
 orc/encoding/int.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index fde130d..a3aeef6 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -107,11 +107,6 @@ func (d *intRLV2Decoder) decode(in BufferedReader) error {
 		}
 
 	case Encoding_PATCHED_BASE:
-		// rethink: according to base value is a signed smallest value, patch should always signed?
-		if !d.signed {
-			return errors.New("decoding: int rl v2 patch signed setting should not false")
-		}
-
 		if err = d.readPatched(in, firstByte); err != nil {
 			return err
 		}
@@ -264,8 +259,8 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 		if err != nil {
 			return err
 		}
-		// rethink: cast int64
-		d.uvs = append(d.uvs, Zigzag(base+int64(delta)))
+		// patches are applied before base is added
+		d.uvs = append(d.uvs, delta)
 	}
 
 	// decode patch values, PGW+PW must < 64
@@ -283,11 +278,20 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 		// todo: check gap==255 and patch==0
 
 		// patchValue should be at largest 63 bits?
-		v := UnZigzag(d.uvs[mark])
-		v -= base // remove added base first
-		v |= int64(patch << width)
-		v += base // add base back
-		d.uvs[mark] = Zigzag(v)
+		if mark >= len(d.uvs) {
+			return errors.New("decoding: int rl v2, patch out of run")
+		}
+		d.uvs[mark] |= patch << width
+	}
+
+	for i := len(d.uvs) - int(length); i < len(d.uvs); i++ {
+		// rethink: cast int64
+		v := base + int64(d.uvs[i])
+		if d.signed {
+			d.uvs[i] = Zigzag(v)
+		} else {
+			d.uvs[i] = uint64(v)
+		}
 	}
 
 	return nil
-- 
2.43.0


From 40b1dc58b80df4104192eec473d29d68f3df63c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:02 +0000
Subject: [PATCH 08/54] fix: patch list entries have the closest width of the
 width table, up to 64 bits

---
 orc/encoding/int.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index a3aeef6..20bcace 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -223,7 +223,7 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 		return err
 	}
 	pgw := uint16(header[3])>>5&0x07 + 1 // 3 bits patch gap width(PGW), value 1 to 8 bits
-	if (int(pw) + int(pgw)) >= 64 {
+	if (int(pw) + int(pgw)) > 64 {
 		return errors.New("decoding: int rl v2, patchWidth+gapWidth must less or equal to 64")
 	}
 	pll := header[3] & 0x1f // 5bits patch list length, value 0 to 31
@@ -266,7 +266,7 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 	// decode patch values, PGW+PW must < 64
 	d.forgetBits()
 	for i := 0; i < int(pll); i++ {
-		pp, err := d.readBits(in, int(pgw)+int(pw))
+		pp, err := d.readBits(in, closestFixedBits(int(pgw)+int(pw)))
 		if err != nil {
 			return err
 		}
@@ -825,7 +825,7 @@ func (e *intRLV2Encoder) writePatch(pvs *patchedValues, out *bytes.Buffer) error
 
 	// 3 bits for PGW (patch gap width) (1 to 8 bits)
 	// so max pg for 3 bits pgw is 255
-	var pgw int
+	pgw := 1
 	for _, g := range pvs.gaps {
 		pgw_ := getBitsWidth(uint64(g))
 		if pgw_ > pgw {
@@ -870,7 +870,7 @@ func (e *intRLV2Encoder) writePatch(pvs *patchedValues, out *bytes.Buffer) error
 	e.forgetBits()
 	for i, p := range pvs.patches {
 		patch := (uint64(pvs.gaps[i]) << patchWidth) | p
-		if err := e.writeBits(patch, pgw+patchWidth, out); err != nil {
+		if err := e.writeBits(patch, closestFixedBits(pgw+patchWidth), out); err != nil {
 			return err
 		}
 	}
@@ -1034,6 +1034,20 @@ func getBitsWidth(x uint64) (w int) {
 	return w
 }
 
+// smallest width of the width table which is not smaller than bits
+func closestFixedBits(bits int) int {
+	switch {
+	case bits < 1:
+		return 1
+	case bits <= 24:
+		return bits
+	case bits <= 30: // 26, 28, 30
+		return bits + bits&0x01
+	default: // 32, 40, 48, 56, 64
+		return (bits + 7) / 8 * 8
+	}
+}
+
 // Get bits width of x, align to width encoding table
 func getAlignedWidth(x uint64) int {
 	var n byte
-- 
2.43.0


From 4ef653c66d48e33f4ee28bfaaa26292b2fd1ce67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:33 +0000
Subject: [PATCH 09/54] fix: int encoder fails or panics on patch lists that
 have no legal width or length

---
 orc/encoding/int.go     | 14 +++++++++++---
 orc/encoding/package.go |  4 ++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 20bcace..712179d 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -721,7 +721,7 @@ func tryPatch(values []uint64, pvs *patchedValues) bool {
 			width = width_
 		}
 	}
-	deltaValuesWidthHist := make([]byte, BITS_SLOTS) // values bits width 0 to 64
+	deltaValuesWidthHist := make([]int, BITS_SLOTS) // values bits width 0 to 64
 	for i := 0; i < count; i++ {
 		deltaValuesWidthHist[deltaValuesWidths[i]] += 1
 	}
@@ -736,6 +736,8 @@ func tryPatch(values []uint64, pvs *patchedValues) bool {
 		}
 	}
 
+	w = byte(closestFixedBits(int(w)))
+
 	logger.Tracef("int rl v2 try patch, 90%% width %d and width %d of adjusted values", w, width)
 	if width > w {
 		pvs.base = base
@@ -763,8 +765,13 @@ func tryPatch(values []uint64, pvs *patchedValues) bool {
 			}
 		}
 		if len(pvs.patches) > 31 {
-			// fixme: how to handle this
-			panic("patches max 31")
+			return false
+		}
+		if width-w > 56 { // patch width and 8 bits for the gap should not exceed 64
+			return false
+		}
+		if base <= -(1<<62) || base >= 1<<62 { // base and mark of negative should not exceed 8 bytes
+			return false
 		}
 
 		logger.Tracef("int rl v2 will do PATCH %d values", pvs.count)
@@ -817,6 +824,7 @@ func (e *intRLV2Encoder) writePatch(pvs *patchedValues, out *bytes.Buffer) error
 			patchWidth = patchWidth_
 		}
 	}
+	patchWidth = closestFixedBits(patchWidth)
 	pw, err := widthEncoding(patchWidth)
 	if err != nil {
 		return errors.WithStack(err)
diff --git a/orc/encoding/package.go b/orc/encoding/package.go
index a6d666a..c6004e0 100755
--- a/orc/encoding/package.go
+++ b/orc/encoding/package.go
@@ -161,9 +161,9 @@ func (irl *intRunLengthV1) Encode(out *bytes.Buffer) error {
 
 
 func widthEncoding(width int) (w byte, err error) {
-	if 2 <= width && width <= 21 {
+	if 2 <= width && width <= 23 {
 		w = byte(width - 1)
-		if (3 == width) || (5 <= width && width <= 7) || (9 <= width && width <= 15) || (17 <= width && width <= 21) {
+		if (3 == width) || (5 <= width && width <= 7) || (9 <= width && width <= 15) || (17 <= width && width <= 23) {
 			log.Warnf("encoding: width %d is deprecated", width)
 		}
 		return
-- 
2.43.0


From 2175ff6a48960c26a1841377c5a3a277b435688d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:35 +0000
Subject: [PATCH 10/54] fix: encoder positions are stale after a flush

---
 orc/encoding/bool.go | 3 +++
 orc/encoding/byte.go | 3 +++
 orc/encoding/int.go  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/orc/encoding/bool.go b/orc/encoding/bool.go
index 6dcd439..eb83997 100644
--- a/orc/encoding/bool.go
+++ b/orc/encoding/bool.go
@@ -62,6 +62,9 @@ func (e *boolRunLength) Flush(out *bytes.Buffer) error {
 		return err
 	}
 	e.index = -1
+	if e.position != -1 {
+		e.position = 0
+	}
 	return nil
 }
 
diff --git a/orc/encoding/byte.go b/orc/encoding/byte.go
index 7c90679..bf33755 100644
--- a/orc/encoding/byte.go
+++ b/orc/encoding/byte.go
@@ -42,6 +42,9 @@ func (e *byteRunLength) Flush(out *bytes.Buffer) error {
 	for len(e.values) != 0 {
 		e.encodeBytes(out, true)
 	}
+	if e.position != -1 {
+		e.position = 0
+	}
 	return nil
 }
 
diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 712179d..04e5c87 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -425,6 +425,9 @@ func (e *intRLV2Encoder) Flush(out *bytes.Buffer) error {
 		}
 		e.forgetBits()
 	}
+	if e.position != -1 {
+		e.position = 0
+	}
 	return nil
 }
 
-- 
2.43.0


From a6ee72b52bb376a1784c24d4fbe1dcb015d6854c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 11/54] fix: bits of a bool encoder leak over a flush into the
 next byte

---
 orc/encoding/bool.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orc/encoding/bool.go b/orc/encoding/bool.go
index eb83997..ad3a3b4 100644
--- a/orc/encoding/bool.go
+++ b/orc/encoding/bool.go
@@ -62,6 +62,7 @@ func (e *boolRunLength) Flush(out *bytes.Buffer) error {
 		return err
 	}
 	e.index = -1
+	e.value = 0
 	if e.position != -1 {
 		e.position = 0
 	}
-- 
2.43.0


From 8a01f4fb3f5d7b9964989fa0d69a52b1e966ab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:39 +0000
Subject: [PATCH 12/54] fix: floats are little endian in ORC files

---
 orc/encoding/float.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orc/encoding/float.go b/orc/encoding/float.go
index 223bec1..fedf548 100644
--- a/orc/encoding/float.go
+++ b/orc/encoding/float.go
@@ -24,7 +24,7 @@ func (f float) Encode(v interface{}, out *bytes.Buffer) error {
 		return errors.New("float encoding value should be type float32")
 	}
 	bb := make([]byte, 4)
-	binary.BigEndian.PutUint32(bb, math.Float32bits(value))
+	binary.LittleEndian.PutUint32(bb, math.Float32bits(value))
 	if _, err := out.Write(bb); err != nil {
 		return err
 	}
@@ -46,7 +46,7 @@ func DecodeFloat(in io.Reader) (float32, error) {
 	if _, err := io.ReadFull(in, bb); err != nil {
 		return 0, errors.WithStack(err)
 	}
-	v := math.Float32frombits(binary.BigEndian.Uint32(bb))
+	v := math.Float32frombits(binary.LittleEndian.Uint32(bb))
 	return v, nil
 }
 
-- 
2.43.0


From 4694e9c04d2d73263d3371fd3e5757d109abdd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:41 +0000
Subject: [PATCH 13/54] fix: ReadVUint loops on read errors

---
 orc/encoding/package.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/encoding/package.go b/orc/encoding/package.go
index c6004e0..8412e61 100755
--- a/orc/encoding/package.go
+++ b/orc/encoding/package.go
@@ -275,7 +275,7 @@ func ReadVUint(in io.ByteReader) (r uint64, err error) {
 	for {
 		b, err = in.ReadByte()
 		if err != nil {
-			errors.WithStack(err)
+			return 0, errors.WithStack(err)
 		}
 		r |= uint64(0x7f&b) << shift
 		shift += 7
-- 
2.43.0


From 1ba3a67f0fe25014f3f95c03ed4f01d7a58a7395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 14/54] fix: files without compression cannot be written

---
 orc/common/misc.go   | 4 +++-
 orc/stream/writer.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/orc/common/misc.go b/orc/common/misc.go
index b981e15..ea0eae2 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -145,7 +145,9 @@ func zlibCompressingLeft(chunkSize int, dst *bytes.Buffer, src *bytes.Buffer) er
 func CompressingLeft(kind pb.CompressionKind, chunkSize int, dst *bytes.Buffer, src *bytes.Buffer) error {
 	switch kind {
 	case pb.CompressionKind_NONE:
-		return errors.New("no compression")
+		if _, err := src.WriteTo(dst); err != nil {
+			return errors.WithStack(err)
+		}
 	case pb.CompressionKind_ZLIB:
 		if err := zlibCompressingLeft(chunkSize, dst, src); err != nil {
 			return err
diff --git a/orc/stream/writer.go b/orc/stream/writer.go
index 7b4fd0f..ff8cee7 100644
--- a/orc/stream/writer.go
+++ b/orc/stream/writer.go
@@ -99,7 +99,9 @@ func (w *writer) Reset() {
 	*w.info.Length = 0
 
 	w.buf.Reset()
-	w.compressedBuf.Reset()
+	if w.compressedBuf != nil {
+		w.compressedBuf.Reset()
+	}
 
 	w.positions = w.positions[:0]
 }
-- 
2.43.0


From 03a93782d7d1c24d65e45109169313f7786e935b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 15/54] fix: compressing a second chunk writes to a closed
 compressor

---
 orc/common/misc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orc/common/misc.go b/orc/common/misc.go
index ea0eae2..93793e0 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -62,6 +62,7 @@ func zlibCompressingToChunks(chunkSize int, dst *bytes.Buffer, src *bytes.Buffer
 		}
 
 		cBuf.Reset()
+		compressor.Reset(cBuf)
 		if _, err = compressor.Write(buf); err != nil {
 			return errors.WithStack(err)
 		}
-- 
2.43.0


From 46c24fa509a998b048c0e2540018862e5bf10954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:55 +0000
Subject: [PATCH 16/54] fix: stream seeks past the first chunk without
 compression and to the end of a stream

---
 orc/stream/reader.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index c1f8c2c..d973245 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -95,6 +95,13 @@ func (r *reader) seek(chunk uint64, chunkOffset uint64) error {
 	logger.Tracef("seeking, stream %s of column %d seek to chunk %d, decompressed offset %d",
 		r.info.GetKind().String(), r.info.GetColumn(), chunk, chunkOffset)
 	r.buf.Reset()
+	if r.opts.CompressionKind == pb.CompressionKind_NONE { // no chunks
+		chunk, chunkOffset = chunk+chunkOffset, 0
+	}
+	if chunk >= r.info.GetLength() { // nothing left in this stream
+		r.readLength = r.info.GetLength()
+		return nil
+	}
 	if _, err := r.f.Seek(int64(r.start+chunk), io.SeekStart); err != nil {
 		return err
 	}
-- 
2.43.0


From 938726a54e954f41da109f1d0aa581dc46ed756b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:57 +0000
Subject: [PATCH 17/54] fix: empty chunks end a stream

---
 orc/stream/reader.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index d973245..80718fb 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -49,12 +49,14 @@ func (r *reader) ReadByte() (b byte, err error) {
 		return
 	}
 
-	if r.readLength >= r.info.GetLength() {
-		return 0, errors.Wrapf(io.EOF, "stream %s to the end", r.info.String())
-	}
+	for r.buf.Len() == 0 { // a chunk may be empty
+		if r.readLength >= r.info.GetLength() {
+			return 0, errors.Wrapf(io.EOF, "stream %s to the end", r.info.String())
+		}
 
-	if err = r.readAChunk(); err != nil {
-		return 0, err
+		if err = r.readAChunk(); err != nil {
+			return 0, err
+		}
 	}
 	logger.Tracef("stream %s reading, has been read %d bytes", r.info.String(), r.readLength)
 	b, err = r.buf.ReadByte()
-- 
2.43.0


From 8355fe3fc0abdda083fe774140f1efbe9cf4ec1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:30 +0000
Subject: [PATCH 18/54] fix: schemas of concurrent writers share global state

---
 orc/api/type.go | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/orc/api/type.go b/orc/api/type.go
index 2c62436..758f00d 100755
--- a/orc/api/type.go
+++ b/orc/api/type.go
@@ -209,17 +209,13 @@ func CheckId(root *TypeDescription) error {
 	return nil
 }
 
-func addId(node *TypeDescription) error {
-	node.Id = _nodeId
-	_nodeId++
-	return nil
-}
-
-var _nodeId uint32
-
 func SetId(root *TypeDescription) error {
-	_nodeId = uint32(0)
-	return traverse(root, addId)
+	nodeId := uint32(0)
+	return traverse(root, func(node *TypeDescription) error {
+		node.Id = nodeId
+		nodeId++
+		return nil
+	})
 }
 
 func CheckNulls(root *TypeDescription) error {
@@ -249,25 +245,17 @@ func checkNoNull(node *TypeDescription) error {
 	return nil
 }
 
-var _schemas []*TypeDescription
-
 func (root *TypeDescription) Flat() (schemas []*TypeDescription, err error) {
 	if err = CheckId(root); err != nil {
 		return
 	}
-	_schemas = nil
-	if err = traverse(root, addSchema); err != nil {
-		return
-	}
-	schemas = _schemas
+	err = traverse(root, func(node *TypeDescription) error {
+		schemas = append(schemas, node)
+		return nil
+	})
 	return
 }
 
-func addSchema(node *TypeDescription) error {
-	_schemas = append(_schemas, node)
-	return nil
-}
-
 // pre-order traverse
 func traverse(node *TypeDescription, do action) error {
 	if err := do(node); err != nil {
-- 
2.43.0


From 56cb3ee5e43aeb2a09988d6a0662c767b9e257d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:32 +0000
Subject: [PATCH 19/54] fix: columns with nulls below a struct with nulls are
 only rejected as first child

---
 orc/api/type.go | 18 +++---------------
 orc/writer.go   |  8 ++++++++
 2 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/orc/api/type.go b/orc/api/type.go
index 758f00d..a3acc70 100755
--- a/orc/api/type.go
+++ b/orc/api/type.go
@@ -158,15 +158,7 @@ func (td TypeDescription) createVector(opt *BatchOption) *ColumnVector {
 }
 
 func (td TypeDescription) verifySchema() error {
-	if td.Kind == pb.Type_STRUCT || td.Kind == pb.Type_UNION || td.Kind == pb.Type_MAP || td.Kind == pb.Type_LIST {
-		for _, c := range td.Children {
-			if td.HasNulls && c.HasNulls {
-				return errors.New("struct column has nulls cannot have nulls children")
-			}
-			return c.verifySchema()
-		}
-	}
-	return nil
+	return CheckNulls(&td)
 }
 
 const DefaultRowSize = 10_000
@@ -218,13 +210,9 @@ func SetId(root *TypeDescription) error {
 	})
 }
 
+// CheckNulls columns below a column with nulls cannot have nulls
 func CheckNulls(root *TypeDescription) error {
-	if root.HasNulls {
-		if err := checkNulls(root); err != nil {
-			return err
-		}
-	}
-	return nil
+	return traverse(root, checkNulls)
 }
 
 func checkNulls(node *TypeDescription) error {
diff --git a/orc/writer.go b/orc/writer.go
index 03eb8b2..3f5c769 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -47,6 +47,14 @@ func newWriter(schema *api.TypeDescription, opts *config.WriterOptions, f orcio.
 	if schemas, err = schema.Flat(); err != nil {
 		return
 	}
+	for i, s := range schemas {
+		if s.Id != uint32(i) {
+			return nil, errors.Errorf("schema id %d should be %d, not normalized?", s.Id, i)
+		}
+	}
+	if err = api.CheckNulls(schema); err != nil {
+		return
+	}
 
 	w = &writer{opts: opts, f: f, schemas: schemas}
 
-- 
2.43.0


From ca3b3d71223d758b7d2ccf647025902ddb617bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:34 +0000
Subject: [PATCH 20/54] fix: length and capacity of a struct vector only look
 at its first child

---
 orc/api/vector.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/orc/api/vector.go b/orc/api/vector.go
index 36fbd0f..a58442b 100755
--- a/orc/api/vector.go
+++ b/orc/api/vector.go
@@ -58,10 +58,9 @@ func (cv ColumnVector) Len() int {
 		return len(cv.Vector)
 	}
 	for _, c := range cv.Children {
-		if len(c.Vector) != 0 {
-			return len(c.Vector)
+		if l := c.Len(); l != 0 {
+			return l
 		}
-		return c.Len()
 	}
 	return 0
 }
@@ -71,7 +70,9 @@ func (cv ColumnVector) Cap() int {
 		return cap(cv.Vector)
 	} else {
 		for _, c := range cv.Children {
-			return c.Cap()
+			if n := c.Cap(); n != 0 {
+				return n
+			}
 		}
 	}
 	return 0
-- 
2.43.0


From 6292df1c7ac7b101cae7f2a0ab582aeee639b146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:36 +0000
Subject: [PATCH 21/54] fix: dates far from 1970 change when they are converted
 to days

---
 orc/api/vector.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/orc/api/vector.go b/orc/api/vector.go
index a58442b..88f4ba6 100755
--- a/orc/api/vector.go
+++ b/orc/api/vector.go
@@ -118,16 +118,16 @@ func (d *Date) String() string {
 }
 
 func FromDays(days int32) Date {
-	d := time.Duration(int64(days) * 24 * int64(time.Hour))
-	t := Date(time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC).Add(d))
+	t := Date(time.Date(1970, 1, 1+int(days), 0, 0, 0, 0, time.UTC))
 	return t
 }
 
 // days from 1970, Jan, 1 UTC
 func ToDays(d Date) int32 {
-	// time.Time(d).UTC() ??
-	s := time.Time(d).Sub(time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC))
-	return int32(s.Hours() / 24)
+	year, month, day := time.Time(d).Date()
+	// always a multiple of a day, time.Duration is too short for all dates
+	s := time.Date(year, month, day, 0, 0, 0, 0, time.UTC).Unix()
+	return int32(s / (24 * 60 * 60))
 }
 
 type Timestamp struct {
-- 
2.43.0


From 778b40309b1caad184e40dcd3195246d462c7625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:38 +0000
Subject: [PATCH 22/54] fix: timestamps of other locations than UTC change when
 they are converted

---
 orc/api/vector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/api/vector.go b/orc/api/vector.go
index 88f4ba6..420265b 100755
--- a/orc/api/vector.go
+++ b/orc/api/vector.go
@@ -163,7 +163,7 @@ func (t Timestamp) GetMilliSecondsUtc() int64 {
 }
 
 func GetTimestamp(t time.Time) Timestamp {
-	base := time.Date(2015, 1, 1, 0, 0, 0, 0, time.UTC).Unix()
+	base := time.Date(2015, 1, 1, 0, 0, 0, 0, t.Location()).Unix()
 	return Timestamp{t.Location(), t.Unix() - base, uint64(t.Nanosecond())}
 }
 
-- 
2.43.0


From 7a4346652f4949a8917c60a59c770375b6a922e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:23 +0000
Subject: [PATCH 23/54] fix: Decimal64.Float64 multiplies with ten times the
 scale

---
 orc/api/vector.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/orc/api/vector.go b/orc/api/vector.go
index 420265b..49b064a 100755
--- a/orc/api/vector.go
+++ b/orc/api/vector.go
@@ -2,6 +2,7 @@ package api
 
 import (
 	"fmt"
+	"math"
 	"time"
 
 	"github.com/patrickhuang888/goorc/pb/pb"
@@ -94,16 +95,11 @@ func (d Decimal64) String() string {
 }
 
 func (d Decimal64) Float64() float64 {
-	if d.Scale == 0 {
-		return float64(d.Precision)
-	}
-	if d.Scale > 0 {
-		return float64(d.Precision) * float64(10*d.Scale)
-	}
+	// scale is the number of digits after the decimal point
 	if d.Scale < 0 {
-		return float64(d.Precision) / float64(10*d.Scale)
+		return float64(d.Precision) * math.Pow10(-d.Scale)
 	}
-	return 0
+	return float64(d.Precision) / math.Pow10(d.Scale)
 }
 
 // enhance: UTC
-- 
2.43.0


From a39cc8bdd7041d565ef4fd92ba3bddec9cf602e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:43 +0000
Subject: [PATCH 24/54] fix: milliseconds of timestamps

---
 orc/api/vector.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/orc/api/vector.go b/orc/api/vector.go
index 49b064a..1258497 100755
--- a/orc/api/vector.go
+++ b/orc/api/vector.go
@@ -141,21 +141,20 @@ func (t Timestamp) Time() time.Time {
 	return time.Unix(base+t.Seconds, int64(t.Nanos)).In(loc)
 }
 
+// milliseconds since 1970, Jan, 1 UTC
 func (t Timestamp) GetMilliSeconds() int64 {
 	loc := t.Loc
 	if loc == nil {
 		loc = time.UTC
 	}
-	var ms int64
-	baseSec := time.Date(2015, time.January, 1, 0, 0, 0, 0, loc).Unix()
-	ms = (t.Seconds - baseSec) * 1_000
-	ms += int64(t.Nanos / 1_000)
-	return ms
+	base := time.Date(2015, time.January, 1, 0, 0, 0, 0, loc).Unix()
+	return (base+t.Seconds)*1_000 + int64(t.Nanos/1_000_000)
 }
 
+// milliseconds as if the timestamp's location were UTC
 func (t Timestamp) GetMilliSecondsUtc() int64 {
 	base := time.Date(2015, time.January, 1, 0, 0, 0, 0, time.UTC).Unix()
-	return base + t.Time().Unix() + int64(t.Nanos/1_000)
+	return (base+t.Seconds)*1_000 + int64(t.Nanos/1_000_000)
 }
 
 func GetTimestamp(t time.Time) Timestamp {
-- 
2.43.0


From 8c187fdc76e48772c9467d4430b3fb1d5db8ce76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:27 +0000
Subject: [PATCH 25/54] fix: statistics of columns are not true of the rows
 written

---
 orc/column/bool.go   |  62 ++++-------------
 orc/column/byte.go   |  53 +++------------
 orc/column/float.go  |  67 +++----------------
 orc/column/int.go    |  63 +++---------------
 orc/column/stats.go  | 155 +++++++++++++++++++++++++++++++++++++++++++
 orc/column/struct.go |  64 +++++-------------
 orc/column/time.go   | 151 ++++++-----------------------------------
 orc/column/writer.go |  62 +++++++++++++++--
 8 files changed, 294 insertions(+), 383 deletions(-)
 create mode 100644 orc/column/stats.go

diff --git a/orc/column/bool.go b/orc/column/bool.go
index ff68287..3b629d4 100644
--- a/orc/column/bool.go
+++ b/orc/column/bool.go
@@ -11,24 +11,11 @@ import (
 )
 
 func newBoolWriter(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
-		NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool)}
-	var present stream.Writer
-	if schema.HasNulls {
-		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
-		*stats.HasNull = true
-	}
-	var indexStats *pb.ColumnStatistics
-	var index *pb.RowIndex
-	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
-			HasNull: new(bool), NumberOfValues: new(uint64), BytesOnDisk: new(uint64)}
-		if schema.HasNulls {
-			*indexStats.HasNull = true
-		}
-		index = &pb.RowIndex{}
-	}
-	base := &writer{schema: schema, opts: opts, present: present, stats: stats, indexStats: indexStats, index: index}
+	base := newBaseWriter(schema, opts, func() *pb.ColumnStatistics {
+		stats := newStats(schema)
+		stats.BucketStatistics = &pb.BucketStatistics{Count: make([]uint64, 1)}
+		return stats
+	})
 	data := stream.NewBoolWriter(schema.Id, pb.Stream_DATA, opts)
 	return &boolWriter{base, data}
 }
@@ -48,36 +35,16 @@ func (w *boolWriter) Write(value api.Value) error {
 		if err := w.data.Write(value.V); err != nil {
 			return err
 		}
-		if value.V.(bool) {
-			// true count
-			(*w.stats.BucketStatistics).Count[0]++
-		}
-		*w.stats.NumberOfValues++
-	}
-
-	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
+		for _, stats := range w.currentStats() {
+			if value.V.(bool) {
+				// true count
+				stats.BucketStatistics.Count[0]++
 			}
-			pp = append(pp, w.data.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
-				NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
-		// no bytes on disk index stats
-		if !value.Null {
-			(*w.indexStats.BucketStatistics).Count[0]++
-			*w.indexStats.NumberOfValues++
+			*stats.NumberOfValues++
 		}
 	}
+
+	w.indexRow(w.data)
 	return nil
 }
 
@@ -91,10 +58,7 @@ func (w *boolWriter) Flush() error {
 		return err
 	}
 
-	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
-	}
-	*w.stats.BytesOnDisk += w.data.Info().GetLength()
+	w.flushStats(w.data)
 	w.flushed = true
 	return nil
 }
diff --git a/orc/column/byte.go b/orc/column/byte.go
index adafb26..629cb4a 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -11,19 +11,11 @@ import (
 )
 
 func newByteWriter(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64), BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}}
-	var present stream.Writer
-	if schema.HasNulls {
-		*stats.HasNull = true
-		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
-	}
-	var indexStats *pb.ColumnStatistics
-	var index *pb.RowIndex
-	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64), BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}}
-		index = &pb.RowIndex{}
-	}
-	base := &writer{schema: schema, opts: opts, stats: stats, present: present, indexStats: indexStats, index: index}
+	base := newBaseWriter(schema, opts, func() *pb.ColumnStatistics {
+		stats := newStats(schema)
+		stats.BinaryStatistics = &pb.BinaryStatistics{Sum: new(int64)}
+		return stats
+	})
 	data := stream.NewByteWriter(schema.Id, pb.Stream_DATA, opts)
 	return &byteWriter{base, data}
 }
@@ -44,33 +36,13 @@ func (w *byteWriter) Write(value api.Value) error {
 		if err := w.data.Write(value.V); err != nil {
 			return err
 		}
-		*w.stats.BinaryStatistics.Sum++
-		*w.stats.NumberOfValues++ // makeSure:
-	}
-
-	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}, NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
-		// java impl does not write index statistic bytes on disk, has nulls ...
-		if !value.Null {
-			*w.indexStats.BinaryStatistics.Sum++
-			*w.indexStats.NumberOfValues++
+		for _, stats := range w.currentStats() {
+			*stats.BinaryStatistics.Sum++
+			*stats.NumberOfValues++ // makeSure:
 		}
 	}
+
+	w.indexRow(w.data)
 	return nil
 }
 
@@ -93,10 +65,7 @@ func (w *byteWriter) Flush() error {
 		return err
 	}
 
-	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
-	}
-	*w.stats.BytesOnDisk += w.data.Info().GetLength()
+	w.flushStats(w.data)
 
 	return nil
 }
diff --git a/orc/column/float.go b/orc/column/float.go
index 06181dd..7d4bdc8 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -162,21 +162,11 @@ func (r *FloatReader) Close() {
 }
 
 func newFloatWriter(schema *api.TypeDescription, opts *config.WriterOptions, is64 bool) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-		DoubleStatistics: &pb.DoubleStatistics{Sum: new(float64), Maximum: new(float64), Minimum: new(float64)}}
-	var present stream.Writer
-	if schema.HasNulls {
-		*stats.HasNull = true
-		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
-	}
-	var indexStats *pb.ColumnStatistics
-	var index *pb.RowIndex
-	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			DoubleStatistics: &pb.DoubleStatistics{Maximum: new(float64), Minimum: new(float64), Sum: new(float64)}}
-		index = &pb.RowIndex{}
-	}
-	base := &writer{schema: schema, opts: opts, present: present, indexStats: indexStats, index: index, stats: stats}
+	base := newBaseWriter(schema, opts, func() *pb.ColumnStatistics {
+		stats := newStats(schema)
+		stats.DoubleStatistics = &pb.DoubleStatistics{Sum: new(float64)}
+		return stats
+	})
 	data := stream.NewFloatWriter(schema.Id, pb.Stream_DATA, opts, is64)
 	return &floatWriter{base, data, is64}
 }
@@ -205,47 +195,13 @@ func (w *floatWriter) Write(value api.Value) error {
 			v = float64(value.V.(float32))
 		}
 
-		*w.stats.DoubleStatistics.Sum += v
-		*w.stats.NumberOfValues++
-		if v < *w.stats.DoubleStatistics.Minimum {
-			*w.stats.DoubleStatistics.Minimum = v
-		}
-		if v > *w.stats.DoubleStatistics.Maximum {
-			*w.stats.DoubleStatistics.Maximum = v
+		for _, stats := range w.currentStats() {
+			updateDoubleStats(stats.DoubleStatistics, v)
+			*stats.NumberOfValues++
 		}
 	}
 
-	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{DoubleStatistics: &pb.DoubleStatistics{Sum: new(float64), Maximum: new(float64), Minimum: new(float64)},
-				NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
-		if !value.Null {
-			v := value.V.(float64)
-			*w.indexStats.DoubleStatistics.Sum += v
-			if v < *w.indexStats.DoubleStatistics.Minimum {
-				*w.indexStats.DoubleStatistics.Minimum = v
-			}
-			if v > *w.indexStats.DoubleStatistics.Maximum {
-				*w.indexStats.DoubleStatistics.Maximum = v
-			}
-
-			*w.indexStats.NumberOfValues++
-		}
-	}
+	w.indexRow(w.data)
 	return nil
 }
 
@@ -260,10 +216,7 @@ func (w *floatWriter) Flush() error {
 		return err
 	}
 
-	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
-	}
-	*w.stats.BytesOnDisk += w.data.Info().GetLength()
+	w.flushStats(w.data)
 	return nil
 }
 
diff --git a/orc/column/int.go b/orc/column/int.go
index 286f1fa..e07f163 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -11,21 +11,11 @@ import (
 )
 
 func newIntV2Writer(schema *api.TypeDescription, opts *config.WriterOptions, bits int) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-		IntStatistics: &pb.IntegerStatistics{Minimum: new(int64), Maximum: new(int64), Sum: new(int64)}}
-	var present stream.Writer
-	if schema.HasNulls {
-		*stats.HasNull = true
-		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
-	}
-	var indexStats *pb.ColumnStatistics
-	var index *pb.RowIndex
-	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			IntStatistics: &pb.IntegerStatistics{Sum: new(int64), Minimum: new(int64), Maximum: new(int64)}}
-		index = &pb.RowIndex{}
-	}
-	base := &writer{opts: opts, schema: schema, stats: stats, present: present, index: index, indexStats: indexStats}
+	base := newBaseWriter(schema, opts, func() *pb.ColumnStatistics {
+		stats := newStats(schema)
+		stats.IntStatistics = &pb.IntegerStatistics{Sum: new(int64)}
+		return stats
+	})
 	data := stream.NewIntRLV2Writer(schema.Id, pb.Stream_DATA, opts, true)
 	return &intWriter{base, data, bits}
 }
@@ -72,45 +62,13 @@ func (w *intWriter) Write(value api.Value) error {
 		if err := w.data.Write(v); err != nil {
 			return err
 		}
-		*w.stats.IntStatistics.Sum += v
-		if v < *w.stats.IntStatistics.Minimum {
-			*w.stats.IntStatistics.Minimum = v
-		}
-		if v > *w.stats.IntStatistics.Maximum {
-			*w.stats.IntStatistics.Maximum = v
+		for _, stats := range w.currentStats() {
+			updateIntStats(stats.IntStatistics, v)
+			*stats.NumberOfValues++
 		}
-		*w.stats.NumberOfValues++
 	}
 
-	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-				IntStatistics: &pb.IntegerStatistics{Sum: new(int64), Minimum: new(int64), Maximum: new(int64)}}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
-		if !value.Null {
-			*w.indexStats.IntStatistics.Sum += v
-			if v < *w.indexStats.IntStatistics.Minimum {
-				*w.indexStats.IntStatistics.Minimum = v
-			}
-			if v > *w.indexStats.IntStatistics.Maximum {
-				*w.indexStats.IntStatistics.Maximum = v
-			}
-			*w.indexStats.NumberOfValues++
-		}
-	}
+	w.indexRow(w.data)
 	return nil
 }
 
@@ -126,12 +84,11 @@ func (w intWriter) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
 	}
 	if err := w.data.Flush(); err != nil {
 		return err
 	}
-	*w.stats.BytesOnDisk += w.data.Info().GetLength()
+	w.flushStats(w.data)
 
 	w.flushed = true
 	return nil
diff --git a/orc/column/stats.go b/orc/column/stats.go
new file mode 100644
index 0000000..c75b588
--- /dev/null
+++ b/orc/column/stats.go
@@ -0,0 +1,155 @@
+package column
+
+import (
+	"math"
+	"math/big"
+
+	"github.com/patrickhuang888/goorc/orc/api"
+	"github.com/patrickhuang888/goorc/pb/pb"
+)
+
+func newStats(schema *api.TypeDescription) *pb.ColumnStatistics {
+	hasNull := schema.HasNulls
+	return &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: &hasNull, BytesOnDisk: new(uint64)}
+}
+
+// minimum and maximum stay absent until there is a value, sum is absent after an overflow
+func updateIntStats(stats *pb.IntegerStatistics, v int64) {
+	if stats.Minimum == nil || v < *stats.Minimum {
+		stats.Minimum = &v
+	}
+	if stats.Maximum == nil || v > *stats.Maximum {
+		stats.Maximum = &v
+	}
+	if stats.Sum != nil {
+		sum := *stats.Sum + v
+		if (v > 0 && sum < *stats.Sum) || (v < 0 && sum > *stats.Sum) {
+			stats.Sum = nil
+		} else {
+			*stats.Sum = sum
+		}
+	}
+}
+
+// NaN is no bound for other values
+func updateDoubleStats(stats *pb.DoubleStatistics, v float64) {
+	if stats.Minimum == nil || v < *stats.Minimum || math.IsNaN(*stats.Minimum) {
+		stats.Minimum = &v
+	}
+	if stats.Maximum == nil || v > *stats.Maximum || math.IsNaN(*stats.Maximum) {
+		stats.Maximum = &v
+	}
+	*stats.Sum += v
+}
+
+// minimum and maximum shorter than MaxByteLength are exact, longer ones are bounds
+func updateStringStats(stats *pb.StringStatistics, s string) {
+	*stats.Sum += int64(len(s))
+
+	min, max := stats.Minimum, stats.Maximum
+	if min == nil {
+		min = stats.LowerBound
+	}
+	if max == nil {
+		max = stats.UpperBound
+	}
+	if min == nil || s < *min {
+		if len(s) < MaxByteLength {
+			stats.Minimum, stats.LowerBound = &s, nil
+		} else {
+			stats.Minimum, stats.LowerBound = nil, &s
+		}
+	}
+	if max == nil || s > *max {
+		if len(s) < MaxByteLength {
+			stats.Maximum, stats.UpperBound = &s, nil
+		} else {
+			stats.Maximum, stats.UpperBound = nil, &s
+		}
+	}
+}
+
+func updateDateStats(stats *pb.DateStatistics, days int32) {
+	if stats.Minimum == nil || days < *stats.Minimum {
+		stats.Minimum = &days
+	}
+	if stats.Maximum == nil || days > *stats.Maximum {
+		stats.Maximum = &days
+	}
+}
+
+// seconds further away from 1970 have no milliseconds
+const maxMilliSecondsSeconds = math.MaxInt64/1_000 - 1<<40
+
+func updateTimestampStats(stats *pb.ColumnStatistics, t api.Timestamp) {
+	if stats.TimestampStatistics == nil {
+		return
+	}
+	if t.Seconds > maxMilliSecondsSeconds || t.Seconds < -maxMilliSecondsSeconds {
+		stats.TimestampStatistics = nil
+		return
+	}
+	ts := stats.TimestampStatistics
+	ms, msUtc := t.GetMilliSeconds(), t.GetMilliSecondsUtc()
+	if ts.Minimum == nil || ms < *ts.Minimum {
+		ts.Minimum = &ms
+	}
+	if ts.Maximum == nil || ms > *ts.Maximum {
+		ts.Maximum = &ms
+	}
+	if ts.MinimumUtc == nil || msUtc < *ts.MinimumUtc {
+		ts.MinimumUtc = &msUtc
+	}
+	if ts.MaximumUtc == nil || msUtc > *ts.MaximumUtc {
+		ts.MaximumUtc = &msUtc
+	}
+}
+
+const maxDecimalScale = 38
+
+// exact minimum, maximum and sum of decimals
+type decimalStats struct {
+	min, max, sum *big.Rat
+	scale         int
+}
+
+func (d *decimalStats) update(stats *pb.ColumnStatistics, v api.Decimal64) {
+	if stats.DecimalStatistics == nil {
+		return
+	}
+	if v.Scale > maxDecimalScale || v.Scale < -maxDecimalScale {
+		stats.DecimalStatistics = nil
+		return
+	}
+	r := new(big.Rat).SetInt64(v.Precision)
+	pow := new(big.Int)
+	if v.Scale >= 0 {
+		pow.Exp(big.NewInt(10), big.NewInt(int64(v.Scale)), nil)
+		r.Quo(r, new(big.Rat).SetInt(pow))
+	} else {
+		pow.Exp(big.NewInt(10), big.NewInt(int64(-v.Scale)), nil)
+		r.Mul(r, new(big.Rat).SetInt(pow))
+	}
+	if v.Scale > d.scale {
+		d.scale = v.Scale
+	}
+	if d.min == nil || r.Cmp(d.min) < 0 {
+		d.min = r
+	}
+	if d.max == nil || r.Cmp(d.max) > 0 {
+		d.max = r
+	}
+	if d.sum == nil {
+		d.sum = new(big.Rat)
+	}
+	d.sum.Add(d.sum, r)
+}
+
+// publish sets the strings, they are not kept with every value
+func (d *decimalStats) publish(stats *pb.ColumnStatistics) {
+	if stats.DecimalStatistics == nil || d.sum == nil {
+		return
+	}
+	min, max, sum := d.min.FloatString(d.scale), d.max.FloatString(d.scale), d.sum.FloatString(d.scale)
+	stats.DecimalStatistics.Minimum, stats.DecimalStatistics.Maximum, stats.DecimalStatistics.Sum = &min, &max, &sum
+}
diff --git a/orc/column/struct.go b/orc/column/struct.go
index 0d08bea..b25325d 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -156,24 +156,12 @@ func (r *StructReader) Close() {
 }
 
 func newStructWriter(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
-		NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool)}
-	var present stream.Writer
-	if schema.HasNulls {
-		*stats.HasNull = true
-		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
-	}
-	var indexStats *pb.ColumnStatistics
-	var index *pb.RowIndex
-	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
-			HasNull: new(bool), NumberOfValues: new(uint64), BytesOnDisk: new(uint64)}
-		if schema.HasNulls {
-			*indexStats.HasNull = true
-		}
-		index = &pb.RowIndex{}
-	}
-	return &structWriter{&writer{schema: schema, opts: opts, present: present, indexStats: indexStats, stats: stats, index: index}}
+	base := newBaseWriter(schema, opts, func() *pb.ColumnStatistics {
+		stats := newStats(schema)
+		stats.BucketStatistics = &pb.BucketStatistics{Count: make([]uint64, 1)}
+		return stats
+	})
+	return &structWriter{base}
 }
 
 type structWriter struct {
@@ -181,40 +169,20 @@ type structWriter struct {
 }
 
 func (w *structWriter) Write(value api.Value) error {
-	if !w.schema.HasNulls {
-		return nil
+	if w.schema.HasNulls {
+		if err := w.present.Write(!value.Null); err != nil {
+			return err
+		}
 	}
 
-	if err := w.present.Write(!value.Null); err != nil {
-		return err
-	}
 	if !value.Null {
-		(*w.stats.BucketStatistics).Count[0]++
-	}
-	*w.stats.NumberOfValues++
-
-	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
-				NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
-		// no bytes on disk index stats
-		if !value.Null {
-			(*w.indexStats.BucketStatistics).Count[0]++
+		for _, stats := range w.currentStats() {
+			stats.BucketStatistics.Count[0]++
+			*stats.NumberOfValues++
 		}
-		*w.indexStats.NumberOfValues++
 	}
+
+	w.indexRow()
 	return nil
 }
 
@@ -223,8 +191,8 @@ func (w *structWriter) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
 	}
+	w.flushStats()
 	w.flushed = true
 	return nil
 }
diff --git a/orc/column/time.go b/orc/column/time.go
index 97c1697..f0e4f60 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -13,21 +13,11 @@ import (
 )
 
 func NewDateV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-		DateStatistics: &pb.DateStatistics{Minimum: new(int32), Maximum: new(int32)}}
-	var present stream.Writer
-	if schema.HasNulls {
-		*stats.HasNull = true
-		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
-	}
-	var indexStats *pb.ColumnStatistics
-	var index *pb.RowIndex
-	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			DateStatistics: &pb.DateStatistics{Minimum: new(int32), Maximum: new(int32)}}
-		index = &pb.RowIndex{}
-	}
-	base := &writer{schema: schema, opts: opts, stats: stats, present: present, indexStats: indexStats, index: index}
+	base := newBaseWriter(schema, opts, func() *pb.ColumnStatistics {
+		stats := newStats(schema)
+		stats.DateStatistics = &pb.DateStatistics{}
+		return stats
+	})
 	data := stream.NewIntRLV2Writer(schema.Id, pb.Stream_DATA, opts, true)
 	return &dateV2Writer{base, data}
 }
@@ -44,50 +34,19 @@ func (w *dateV2Writer) Write(value api.Value) error {
 		}
 	}
 
-	var days int32
 	if !value.Null {
 		date := value.V.(api.Date)
-		days = api.ToDays(date)
+		days := api.ToDays(date)
 		if err := w.data.Write(int64(days)); err != nil {
 			return err
 		}
-		if days < w.stats.DateStatistics.GetMinimum() {
-			*w.stats.DateStatistics.Minimum = days
+		for _, stats := range w.currentStats() {
+			updateDateStats(stats.DateStatistics, days)
+			*stats.NumberOfValues++
 		}
-		if days > w.stats.DateStatistics.GetMaximum() {
-			*w.stats.DateStatistics.Maximum = days
-		}
-		*w.stats.NumberOfValues++
 	}
 
-	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{DateStatistics: &pb.DateStatistics{Minimum: new(int32), Maximum: new(int32)},
-				NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
-		if !value.Null {
-			if days < w.stats.DateStatistics.GetMinimum() {
-				*w.stats.DateStatistics.Minimum = days
-			}
-			if days > w.stats.DateStatistics.GetMaximum() {
-				*w.stats.DateStatistics.Maximum = days
-			}
-			*w.indexStats.NumberOfValues++
-		}
-	}
+	w.indexRow(w.data)
 	return nil
 }
 
@@ -101,10 +60,7 @@ func (w *dateV2Writer) Flush() error {
 		return err
 	}
 
-	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
-	}
-	*w.stats.BytesOnDisk += w.data.Info().GetLength()
+	w.flushStats(w.data)
 	w.flushed = true
 	return nil
 }
@@ -277,24 +233,14 @@ func (r *DateV2Reader) Close() {
 }
 
 func NewTimestampV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-		TimestampStatistics: &pb.TimestampStatistics{Minimum: new(int64), MinimumUtc: new(int64), Maximum: new(int64), MaximumUtc: new(int64)}}
-	var present stream.Writer
-	if schema.HasNulls {
-		*stats.HasNull = true
-		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
-	}
-	var indexStats *pb.ColumnStatistics
-	var index *pb.RowIndex
-	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			DoubleStatistics: &pb.DoubleStatistics{Maximum: new(float64), Minimum: new(float64), Sum: new(float64)}}
-		index = &pb.RowIndex{}
-	}
+	base := newBaseWriter(schema, opts, func() *pb.ColumnStatistics {
+		stats := newStats(schema)
+		stats.TimestampStatistics = &pb.TimestampStatistics{}
+		return stats
+	})
 	data := stream.NewIntRLV2Writer(schema.Id, pb.Stream_DATA, opts, true)
 	secondary := stream.NewIntRLV2Writer(schema.Id, pb.Stream_SECONDARY, opts, false)
-	return &timestampWriter{&writer{schema: schema, opts: opts, stats: stats, present: present, index: index,
-		indexStats: indexStats}, data, secondary}
+	return &timestampWriter{base, data, secondary}
 }
 
 type timestampWriter struct {
@@ -319,64 +265,13 @@ func (w *timestampWriter) Write(value api.Value) error {
 			return err
 		}
 
-		*w.stats.NumberOfValues++
-		ms := t.GetMilliSeconds()
-		if ms < w.stats.TimestampStatistics.GetMinimum() {
-			*w.stats.TimestampStatistics.Minimum = ms
-		}
-		if ms > w.stats.TimestampStatistics.GetMaximum() {
-			*w.stats.TimestampStatistics.Maximum = ms
-		}
-		msUtc := t.GetMilliSecondsUtc()
-		if ms < w.stats.TimestampStatistics.GetMinimumUtc() {
-			*w.stats.TimestampStatistics.Minimum = msUtc
-		}
-		if ms > w.stats.TimestampStatistics.GetMaximum() {
-			*w.stats.TimestampStatistics.MaximumUtc = msUtc
-		}
-
-		if w.opts.WriteIndex {
-			w.indexInRows++
-
-			if w.indexInRows >= w.opts.IndexStride {
-				var pp []uint64
-				if w.schema.HasNulls {
-					pp = append(pp, w.present.GetPosition()...)
-				}
-				pp = append(pp, w.data.GetPosition()...)
-				pp = append(pp, w.secondary.GetPosition()...)
-				w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-				w.indexStats = &pb.ColumnStatistics{
-					TimestampStatistics: &pb.TimestampStatistics{Maximum: new(int64), Minimum: new(int64), MaximumUtc: new(int64), MinimumUtc: new(int64)},
-					NumberOfValues:      new(uint64), HasNull: new(bool)}
-				if w.schema.HasNulls {
-					*w.indexStats.HasNull = true
-				}
-				w.indexInRows = 0
-			}
-
-			if w.indexStats.TimestampStatistics == nil {
-				w.indexStats.TimestampStatistics = &pb.TimestampStatistics{Maximum: new(int64), Minimum: new(int64), MaximumUtc: new(int64), MinimumUtc: new(int64)}
-			}
-
-			if ms > w.indexStats.TimestampStatistics.GetMaximum() {
-				*w.indexStats.TimestampStatistics.Maximum = ms
-			}
-			if ms < w.indexStats.TimestampStatistics.GetMinimum() {
-				*w.indexStats.TimestampStatistics.Minimum = ms
-			}
-			if msUtc > w.indexStats.TimestampStatistics.GetMaximumUtc() {
-				*w.indexStats.TimestampStatistics.MaximumUtc = msUtc
-			}
-			if msUtc < w.indexStats.TimestampStatistics.GetMinimumUtc() {
-				*w.indexStats.TimestampStatistics.Minimum = msUtc
-			}
-
-			*w.indexStats.NumberOfValues++
+		for _, stats := range w.currentStats() {
+			updateTimestampStats(stats, t)
+			*stats.NumberOfValues++
 		}
 	}
 
+	w.indexRow(w.data, w.secondary)
 	return nil
 }
 
@@ -385,7 +280,6 @@ func (w *timestampWriter) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
 	}
 	if err := w.data.Flush(); err != nil {
 		return err
@@ -394,8 +288,7 @@ func (w *timestampWriter) Flush() error {
 		return err
 	}
 
-	*w.stats.BytesOnDisk += w.data.Info().GetLength()
-	*w.stats.BytesOnDisk += w.secondary.Info().GetLength()
+	w.flushStats(w.data, w.secondary)
 
 	w.flushed = true
 	return nil
diff --git a/orc/column/writer.go b/orc/column/writer.go
index c6ff6b4..2785141 100644
--- a/orc/column/writer.go
+++ b/orc/column/writer.go
@@ -21,9 +21,64 @@ type writer struct {
 	indexStats  *pb.ColumnStatistics
 	index       *pb.RowIndex
 
+	// statistics of a new stride, with the kind of the column
+	newIndexStats func() *pb.ColumnStatistics
+
 	flushed bool
 }
 
+func newBaseWriter(schema *api.TypeDescription, opts *config.WriterOptions, newStats func() *pb.ColumnStatistics) *writer {
+	w := &writer{schema: schema, opts: opts, stats: newStats(), newIndexStats: newStats}
+	if schema.HasNulls {
+		w.present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
+	}
+	if opts.WriteIndex {
+		w.indexStats = newStats()
+		w.index = &pb.RowIndex{}
+	}
+	return w
+}
+
+// indexRow is called after a row has been written to streams, and its value has been added to indexStats.
+// if it is the last of a stride, positions of the next stride will be recorded
+func (w *writer) indexRow(streams ...stream.Writer) {
+	if !w.opts.WriteIndex {
+		return
+	}
+	w.indexInRows++
+	if w.indexInRows < w.opts.IndexStride {
+		return
+	}
+	var pp []uint64
+	if w.schema.HasNulls {
+		pp = append(pp, w.present.GetPosition()...)
+	}
+	for _, s := range streams {
+		pp = append(pp, s.GetPosition()...)
+	}
+	w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
+	w.indexStats = w.newIndexStats()
+	w.indexInRows = 0
+}
+
+// statistics to update with a value: the file's and the current stride's
+func (w *writer) currentStats() []*pb.ColumnStatistics {
+	if w.opts.WriteIndex {
+		return []*pb.ColumnStatistics{w.stats, w.indexStats}
+	}
+	return []*pb.ColumnStatistics{w.stats}
+}
+
+// flushStats adds lengths of flushed streams
+func (w *writer) flushStats(streams ...stream.Writer) {
+	if w.schema.HasNulls {
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
+	}
+	for _, s := range streams {
+		*w.stats.BytesOnDisk += s.Info().GetLength()
+	}
+}
+
 func (w *writer) reset() {
 	w.flushed = false
 
@@ -33,11 +88,8 @@ func (w *writer) reset() {
 
 	if w.opts.WriteIndex {
 		w.indexInRows = 0
-		w.index.Reset()
-		w.indexStats.Reset()
-		w.indexStats.HasNull = new(bool)
-		w.indexStats.NumberOfValues = new(uint64)
-		w.indexStats.BytesOnDisk = new(uint64)
+		w.index = &pb.RowIndex{}
+		w.indexStats = w.newIndexStats()
 	}
 
 	// stats will not reset, it's for whole writer
-- 
2.43.0


From bddb8147a5a14a51d138fb62a64d7c59bc3e8380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:27 +0000
Subject: [PATCH 26/54] fix: binary columns write no lengths, statistics count
 values instead of bytes, skip drops errors

---
 orc/column/binary.go | 65 +++++++++++++-------------------------------
 1 file changed, 19 insertions(+), 46 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index ddaddfb..6b6143b 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -13,21 +13,11 @@ import (
 )
 
 func NewBinaryV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-		BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}}
-	var present stream.Writer
-	if schema.HasNulls {
-		*stats.HasNull = true
-		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
-	}
-	var indexStats *pb.ColumnStatistics
-	var index *pb.RowIndex
-	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}}
-		index = &pb.RowIndex{}
-	}
-	base := &writer{schema: schema, opts: opts, stats: stats, present: present, indexStats: indexStats, index: index}
+	base := newBaseWriter(schema, opts, func() *pb.ColumnStatistics {
+		stats := newStats(schema)
+		stats.BinaryStatistics = &pb.BinaryStatistics{Sum: new(int64)}
+		return stats
+	})
 	data := stream.NewStringContentsWriter(schema.Id, pb.Stream_DATA, opts)
 	length := stream.NewIntRLV2Writer(schema.Id, pb.Stream_LENGTH, opts, false)
 	return &binaryV2Writer{base, data, length}
@@ -47,36 +37,23 @@ func (w *binaryV2Writer) Write(value api.Value) error {
 	}
 
 	if !value.Null {
-		if err := w.data.Write(value.V); err != nil {
+		data, ok := value.V.([]byte)
+		if !ok {
+			return errors.New("binary column writing, value should be []byte")
+		}
+		if err := w.data.Write(data); err != nil {
 			return err
 		}
-		*w.stats.BinaryStatistics.Sum++
-		*w.stats.NumberOfValues++
-	}
-
-	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			pp = append(pp, w.length.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}, NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
+		if err := w.length.Write(uint64(len(data))); err != nil {
+			return err
 		}
-		if !value.Null {
-			*w.indexStats.BinaryStatistics.Sum++
-			*w.indexStats.NumberOfValues++
+		for _, stats := range w.currentStats() {
+			*stats.BinaryStatistics.Sum += int64(len(data))
+			*stats.NumberOfValues++
 		}
 	}
+
+	w.indexRow(w.data, w.length)
 	return nil
 }
 
@@ -95,11 +72,7 @@ func (w *binaryV2Writer) Flush() error {
 		return err
 	}
 
-	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
-	}
-	*w.stats.BytesOnDisk += w.data.Info().GetLength()
-	*w.stats.BytesOnDisk += w.length.Info().GetLength()
+	w.flushStats(w.data, w.length)
 	return nil
 }
 
@@ -197,7 +170,7 @@ func (r *BinaryV2Reader) Skip(rows uint64) error {
 				return err
 			}
 			if _, err = r.data.NextBytes(l); err != nil {
-				return nil
+				return err
 			}
 		}
 	}
-- 
2.43.0


From 8c01b5d5f1f2b47e434bce2e669c95c2d42900ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:27 +0000
Subject: [PATCH 27/54] fix: decimal statistics compare and add strings

---
 orc/column/decimal.go | 97 ++++++++++++-------------------------------
 1 file changed, 26 insertions(+), 71 deletions(-)

diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index d4909f4..25bece7 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -1,10 +1,8 @@
 package column
 
 import (
-	"fmt"
 	orcio "github.com/patrickhuang888/goorc/orc/io"
 	"io"
-	"strconv"
 
 	"github.com/pkg/errors"
 
@@ -15,30 +13,23 @@ import (
 )
 
 func NewDecimal64V2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-		DecimalStatistics: &pb.DecimalStatistics{Minimum: new(string), Maximum: new(string), Sum: new(string)}}
-	var present stream.Writer
-	if schema.HasNulls {
-		*stats.HasNull = true
-		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
-	}
-	var indexStats *pb.ColumnStatistics
-	var index *pb.RowIndex
-	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			DecimalStatistics: &pb.DecimalStatistics{Minimum: new(string), Maximum: new(string), Sum: new(string)}}
-		index = &pb.RowIndex{}
-	}
+	base := newBaseWriter(schema, opts, func() *pb.ColumnStatistics {
+		stats := newStats(schema)
+		stats.DecimalStatistics = &pb.DecimalStatistics{}
+		return stats
+	})
 	data := stream.NewVarint64V2Writer(schema.Id, pb.Stream_DATA, opts)
 	secondary := stream.NewIntRLV2Writer(schema.Id, pb.Stream_SECONDARY, opts, true)
-	return &decimalV2Writer{&writer{schema: schema, opts: opts, stats: stats, present: present, index: index,
-		indexStats: indexStats}, data, secondary}
+	return &decimalV2Writer{writer: base, data: data, secondary: secondary}
 }
 
 type decimalV2Writer struct {
 	*writer
 	data      stream.Writer
 	secondary stream.Writer
+
+	decimals      decimalStats
+	indexDecimals decimalStats
 }
 
 func (w *decimalV2Writer) Write(value api.Value) error {
@@ -56,61 +47,22 @@ func (w *decimalV2Writer) Write(value api.Value) error {
 		if err := w.secondary.Write(int64(d.Scale)); err != nil {
 			return err
 		}
-		s := d.String()
-		if s < w.stats.DecimalStatistics.GetMinimum() {
-			*w.stats.DecimalStatistics.Minimum = s
-		}
-		if s > w.stats.DecimalStatistics.GetMaximum() {
-			*w.stats.DecimalStatistics.Maximum = s
-		}
-		var sum float64
-		var err error
-		if w.stats.DecimalStatistics.GetSum() != "" {
-			if sum, err = strconv.ParseFloat(w.stats.DecimalStatistics.GetSum(), 64); err != nil {
-				return errors.WithStack(err)
-			}
-		}
-		sum += d.Float64()
-		*w.stats.DecimalStatistics.Sum = fmt.Sprintf("%f", sum)
+		w.decimals.update(w.stats, d)
 		*w.stats.NumberOfValues++
-
 		if w.opts.WriteIndex {
-			w.indexInRows++
-
-			if w.indexInRows >= w.opts.IndexStride {
-				var pp []uint64
-				if w.schema.HasNulls {
-					pp = append(pp, w.present.GetPosition()...)
-				}
-				pp = append(pp, w.data.GetPosition()...)
-				pp = append(pp, w.secondary.GetPosition()...)
-				w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-				w.indexStats = &pb.ColumnStatistics{
-					DecimalStatistics: &pb.DecimalStatistics{Maximum: new(string), Minimum: new(string), Sum: new(string)},
-					NumberOfValues:    new(uint64), HasNull: new(bool)}
-				if w.schema.HasNulls {
-					*w.indexStats.HasNull = true
-				}
-				w.indexInRows = 0
-			}
-
-			if s < w.indexStats.DecimalStatistics.GetMinimum() {
-				*w.indexStats.DecimalStatistics.Minimum = s
-			}
-			if s > w.indexStats.DecimalStatistics.GetMaximum() {
-				*w.stats.DecimalStatistics.Maximum = s
-			}
-			indexSum, err := strconv.ParseFloat(w.indexStats.DecimalStatistics.GetSum(), 64)
-			if err != nil {
-				return errors.WithStack(err)
-			}
-			indexSum += d.Float64()
-			*w.stats.DecimalStatistics.Sum = fmt.Sprintf("%f", indexSum)
+			w.indexDecimals.update(w.indexStats, d)
 			*w.indexStats.NumberOfValues++
 		}
 	}
 
+	if w.opts.WriteIndex {
+		indexStats := w.indexStats
+		w.indexRow(w.data, w.secondary)
+		if w.indexStats != indexStats { // new stride
+			w.indexDecimals.publish(indexStats)
+			w.indexDecimals = decimalStats{}
+		}
+	}
 	return nil
 }
 
@@ -119,7 +71,6 @@ func (w *decimalV2Writer) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
 	}
 	if err := w.data.Flush(); err != nil {
 		return err
@@ -128,8 +79,11 @@ func (w *decimalV2Writer) Flush() error {
 		return err
 	}
 
-	*w.stats.BytesOnDisk += w.data.Info().GetLength()
-	*w.stats.BytesOnDisk += w.secondary.Info().GetLength()
+	w.flushStats(w.data, w.secondary)
+	w.decimals.publish(w.stats)
+	if w.opts.WriteIndex {
+		w.indexDecimals.publish(w.indexStats)
+	}
 
 	w.flushed = true
 	return nil
@@ -162,8 +116,9 @@ func (w decimalV2Writer) GetStreamInfos() []*pb.Stream {
 	return []*pb.Stream{w.data.Info(), w.secondary.Info()}
 }
 
-func (w decimalV2Writer) Reset() {
+func (w *decimalV2Writer) Reset() {
 	w.reset()
+	w.indexDecimals = decimalStats{}
 	w.data.Reset()
 	w.secondary.Reset()
 }
-- 
2.43.0


From 742b9e69ac59e5f6682b2c48e4f40293eb6e84ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:27 +0000
Subject: [PATCH 28/54] fix: dictionary string columns cannot be written,
 string statistics bound nothing

---
 orc/column/string.go | 252 +++++++++++--------------------------------
 1 file changed, 61 insertions(+), 191 deletions(-)

diff --git a/orc/column/string.go b/orc/column/string.go
index 29cb5ae..e886183 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -16,22 +16,11 @@ const (
 )
 
 func newStringDirectV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
-		Maximum: new(string), Minimum: new(string), Sum: new(int64)},
-		NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-	var present stream.Writer
-	if schema.HasNulls {
-		*stats.HasNull = true
-		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
-	}
-	var index *pb.RowIndex
-	var indexStats *pb.ColumnStatistics
-	if opts.WriteIndex {
-		index = &pb.RowIndex{}
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool),
-			StringStatistics: &pb.StringStatistics{Maximum: new(string), Minimum: new(string), Sum: new(int64)}}
-	}
-	base := &writer{schema: schema, opts: opts, stats: stats, present: present, index: index, indexStats: indexStats}
+	base := newBaseWriter(schema, opts, func() *pb.ColumnStatistics {
+		stats := newStats(schema)
+		stats.StringStatistics = &pb.StringStatistics{Sum: new(int64)}
+		return stats
+	})
 	data := stream.NewStringContentsWriter(schema.Id, pb.Stream_DATA, opts)
 	length := stream.NewIntRLV2Writer(schema.Id, pb.Stream_LENGTH, opts, false)
 	return &stringDirectV2Writer{base, data, length}
@@ -50,7 +39,6 @@ func (w *stringDirectV2Writer) Write(value api.Value) error {
 		}
 	}
 
-	var dataLength int
 	if !value.Null {
 		s, ok := value.V.(string)
 		if !ok {
@@ -58,85 +46,20 @@ func (w *stringDirectV2Writer) Write(value api.Value) error {
 		}
 		// string encoded in utf-8
 		data := []byte(s)
-		dataLength = len(data)
 		if err := w.data.Write(data); err != nil {
 			return err
 		}
-		if err := w.length.Write(uint64(dataLength)); err != nil {
+		if err := w.length.Write(uint64(len(data))); err != nil {
 			return err
 		}
 
-		*w.stats.NumberOfValues++
-		*w.stats.StringStatistics.Sum += int64(dataLength)
-		if w.stats.StringStatistics.Minimum != nil && s < w.stats.StringStatistics.GetMinimum() {
-			*w.stats.StringStatistics.Minimum = s
-		}
-		if w.stats.StringStatistics.Maximum != nil && s > w.stats.StringStatistics.GetMaximum() {
-			*w.stats.StringStatistics.Maximum = s
-		}
-
-		if dataLength >= MaxByteLength {
-			w.stats.StringStatistics.LowerBound = w.stats.StringStatistics.Minimum
-			w.stats.StringStatistics.Minimum = nil
-			w.stats.StringStatistics.UpperBound = w.stats.StringStatistics.Maximum
-			w.stats.StringStatistics.Maximum = nil
-		}
-
-		if w.stats.StringStatistics.LowerBound != nil && s < w.stats.StringStatistics.GetMaximum() {
-			*w.stats.StringStatistics.LowerBound = s
-		}
-		if w.stats.StringStatistics.UpperBound != nil && s > w.stats.StringStatistics.GetMaximum() {
-			*w.stats.StringStatistics.UpperBound = s
+		for _, stats := range w.currentStats() {
+			updateStringStats(stats.StringStatistics, s)
+			*stats.NumberOfValues++
 		}
 	}
 
-	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			pp = append(pp, w.length.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Statistics: w.indexStats, Positions: pp})
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
-				Maximum: new(string), Minimum: new(string), Sum: new(int64)},
-				NumberOfValues: new(uint64), HasNull: new(bool)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
-
-		if !value.Null {
-			*w.indexStats.NumberOfValues++
-			*w.indexStats.StringStatistics.Sum += int64(dataLength)
-			s := value.V.(string)
-
-			if w.indexStats.StringStatistics.Minimum != nil && s < w.indexStats.StringStatistics.GetMinimum() {
-				*w.indexStats.StringStatistics.Minimum = s
-			}
-			if w.indexStats.StringStatistics.Maximum != nil && s > w.indexStats.StringStatistics.GetMaximum() {
-				*w.indexStats.StringStatistics.Maximum = s
-			}
-
-			if dataLength >= MaxByteLength {
-				w.indexStats.StringStatistics.LowerBound = w.indexStats.StringStatistics.Minimum
-				w.indexStats.StringStatistics.Minimum = nil
-				w.indexStats.StringStatistics.UpperBound = w.indexStats.StringStatistics.Maximum
-				w.indexStats.StringStatistics.Maximum = nil
-			}
-
-			if w.indexStats.StringStatistics.LowerBound != nil && s < w.indexStats.StringStatistics.GetMaximum() {
-				*w.indexStats.StringStatistics.LowerBound = s
-			}
-			if w.indexStats.StringStatistics.UpperBound != nil && s > w.indexStats.StringStatistics.GetMaximum() {
-				*w.indexStats.StringStatistics.UpperBound = s
-			}
-		}
-	}
+	w.indexRow(w.data, w.length)
 	return nil
 }
 
@@ -153,11 +76,7 @@ func (w *stringDirectV2Writer) Flush() error {
 		return err
 	}
 
-	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
-	}
-	*w.stats.BytesOnDisk += w.data.Info().GetLength()
-	*w.stats.BytesOnDisk += w.length.Info().GetLength()
+	w.flushStats(w.data, w.length)
 
 	w.flushed = true
 	return nil
@@ -361,7 +280,7 @@ func (r *StringDirectV2Reader) SeekStride(stride int) error {
 }
 
 func (r *StringDirectV2Reader) Close() {
-	if r.schema.HasNulls {
+	if r.present != nil {
 		r.present.Close()
 	}
 	r.data.Close()
@@ -541,22 +460,11 @@ func (r *StringDictionaryV2Reader) Close() {
 }
 
 func NewStringDictionaryV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
-		Maximum: new(string), Minimum: new(string), Sum: new(int64), LowerBound: new(string), UpperBound: new(string)},
-		NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-	var present stream.Writer
-	if schema.HasNulls {
-		*stats.HasNull = true
-		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
-	}
-	var index *pb.RowIndex
-	var indexStats *pb.ColumnStatistics
-	if opts.WriteIndex {
-		index = &pb.RowIndex{}
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool),
-			StringStatistics: &pb.StringStatistics{Maximum: new(string), Minimum: new(string), Sum: new(int64), LowerBound: new(string), UpperBound: new(string)}}
-	}
-	base := &writer{schema: schema, opts: opts, stats: stats, present: present, index: index, indexStats: indexStats}
+	base := newBaseWriter(schema, opts, func() *pb.ColumnStatistics {
+		stats := newStats(schema)
+		stats.StringStatistics = &pb.StringStatistics{Sum: new(int64)}
+		return stats
+	})
 	data := stream.NewIntRLV2Writer(schema.Id, pb.Stream_DATA, opts, false)
 	dict := stream.NewStringContentsWriter(schema.Id, pb.Stream_DICTIONARY_DATA, opts)
 	length := stream.NewIntRLV2Writer(schema.Id, pb.Stream_LENGTH, opts, false)
@@ -569,8 +477,12 @@ type stringDictionaryV2Writer struct {
 	dictStream   stream.Writer
 	lengthStream stream.Writer
 
-	count int
-	data  map[string][]int
+	count      int
+	data       map[string][]int
+	dictLength int
+
+	// count of values before the strides of the index
+	strides []int
 }
 
 func (w *stringDictionaryV2Writer) Write(value api.Value) error {
@@ -585,76 +497,28 @@ func (w *stringDictionaryV2Writer) Write(value api.Value) error {
 		if !ok {
 			return errors.New("string column writing, value should be string")
 		}
-		// string encoded in utf-8
-		data := []byte(s)
-		l := len(data)
 
-		vs := w.data[s]
+		if _, exists := w.data[s]; !exists {
+			w.dictLength += len(s)
+		}
+		w.data[s] = append(w.data[s], w.count)
 		w.count++
-		vs = append(vs, w.count)
-		w.data[s] = vs
-
-		*w.stats.NumberOfValues++
-		*w.stats.StringStatistics.Sum += int64(l)
-		if l >= MaxByteLength {
-			if s < *w.stats.StringStatistics.LowerBound {
-				*w.stats.StringStatistics.LowerBound = s
-			}
-			if s > *w.stats.StringStatistics.UpperBound {
-				*w.stats.StringStatistics.UpperBound = s
-			}
-		} else {
-			if s < *w.stats.StringStatistics.Minimum {
-				*w.stats.StringStatistics.Minimum = s
-			}
-			if s > *w.stats.StringStatistics.Maximum {
-				*w.stats.StringStatistics.Maximum = s
-			}
+
+		for _, stats := range w.currentStats() {
+			updateStringStats(stats.StringStatistics, s)
+			*stats.NumberOfValues++
 		}
 	}
 
-	// todo: index writing
-	/*if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.dataStream.GetPosition()...)
-			pp = append(pp, w.lengthStream.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Statistics: w.indexStats, Positions: pp})
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
-				Maximum: new(string), Minimum: new(string), Sum: new(int64), LowerBound: new(string), UpperBound: new(string)},
-				NumberOfValues: new(uint64), HasNull: new(bool)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
-
-		if !value.Null {
-			*w.indexStats.NumberOfValues++
-			*w.indexStats.StringStatistics.Sum += int64(l)
-			s := value.V.(string)
-			if l >= MaxByteLength {
-				if s < *w.indexStats.StringStatistics.LowerBound {
-					*w.indexStats.StringStatistics.LowerBound = s
-				}
-				if s > *w.indexStats.StringStatistics.UpperBound {
-					*w.indexStats.StringStatistics.UpperBound = s
-				}
-			} else {
-				if s < *w.indexStats.StringStatistics.Minimum {
-					*w.indexStats.StringStatistics.Minimum = s
-				}
-				if s > *w.indexStats.StringStatistics.Maximum {
-					*w.indexStats.StringStatistics.Maximum = s
-				}
-			}
-		}
-	}*/
+	// data positions are known after flush
+	entries := 0
+	if w.opts.WriteIndex {
+		entries = len(w.index.Entry)
+	}
+	w.indexRow()
+	if w.opts.WriteIndex && len(w.index.Entry) > entries {
+		w.strides = append(w.strides, w.count)
+	}
 	return nil
 }
 
@@ -672,16 +536,25 @@ func (w *stringDictionaryV2Writer) Flush() error {
 			data[position] = dictIndex
 		}
 	}
-	for _, v := range data {
-		if err := w.dataStream.Write(v); err != nil {
+	stride := 0
+	addPositions := func(count int) {
+		for ; stride < len(w.strides) && w.strides[stride] == count; stride++ {
+			entry := w.index.Entry[stride]
+			entry.Positions = append(entry.Positions, w.dataStream.GetPosition()...)
+		}
+	}
+	addPositions(0)
+	for i, v := range data {
+		if err := w.dataStream.Write(uint64(v)); err != nil {
 			return err
 		}
+		addPositions(i + 1)
 	}
 	for _, v := range dict {
-		if err := w.dictStream.Write(v); err != nil {
+		bs := []byte(v)
+		if err := w.dictStream.Write(bs); err != nil {
 			return err
 		}
-		bs := []byte(v)
 		if err := w.lengthStream.Write(uint64(len(bs))); err != nil {
 			return err
 		}
@@ -702,12 +575,7 @@ func (w *stringDictionaryV2Writer) Flush() error {
 		return err
 	}
 
-	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
-	}
-	*w.stats.BytesOnDisk += w.dataStream.Info().GetLength()
-	*w.stats.BytesOnDisk += w.dictStream.Info().GetLength()
-	*w.stats.BytesOnDisk += w.lengthStream.Info().GetLength()
+	w.flushStats(w.dataStream, w.dictStream, w.lengthStream)
 
 	w.flushed = true
 	return nil
@@ -739,21 +607,23 @@ func (w stringDictionaryV2Writer) GetStreamInfos() []*pb.Stream {
 	return []*pb.Stream{w.dataStream.Info(), w.dictStream.Info(), w.lengthStream.Info()}
 }
 
-func (w stringDictionaryV2Writer) Reset() {
+func (w *stringDictionaryV2Writer) Reset() {
 	w.reset()
 	w.dataStream.Reset()
 	w.dictStream.Reset()
 	w.lengthStream.Reset()
 
 	w.data = map[string][]int{}
+	w.dictLength = 0
 	w.count = 0
+	w.strides = w.strides[:0]
 }
 
 func (w stringDictionaryV2Writer) Size() int {
-	// fixme: size calculation
-
+	// data is not encoded until flush
+	size := w.dictLength + 4*w.count
 	if w.schema.HasNulls {
-		return w.present.Size() + w.dataStream.Size() + w.dictStream.Size() + w.lengthStream.Size()
+		size += w.present.Size()
 	}
-	return w.dataStream.Size() + w.dictStream.Size() + w.lengthStream.Size()
+	return size
 }
-- 
2.43.0


From e3f3d1e70742e40bdfc2a577a87c6442d627ecdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:36 +0000
Subject: [PATCH 29/54] fix: handles of streams stay open when opening a stream
 fails, list children and map lengths are not closed

---
 orc/column/binary.go  |  7 +++----
 orc/column/bool.go    |  7 +++----
 orc/column/byte.go    |  9 ++++-----
 orc/column/decimal.go |  7 +++----
 orc/column/float.go   |  7 +++----
 orc/column/int.go     |  7 +++----
 orc/column/list.go    |  7 +++----
 orc/column/map.go     | 21 +++++++++------------
 orc/column/reader.go  | 13 +++++++++++++
 orc/column/string.go  | 13 +++++--------
 orc/column/struct.go  |  7 +++----
 orc/column/time.go    | 15 +++++++--------
 12 files changed, 59 insertions(+), 61 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index 6b6143b..7874b0c 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -128,17 +128,15 @@ type BinaryV2Reader struct {
 }
 
 func (r *BinaryV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err = f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
 		if !r.schema.HasNulls {
+			f.Close()
 			return errors.New("has no nulls")
 		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
@@ -147,6 +145,7 @@ func (r *BinaryV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 	case pb.Stream_LENGTH:
 		r.length = stream.NewIntRLV2Reader(r.opts, info, startOffset, false, f)
 	default:
+		f.Close()
 		return errors.New("stream kind not unknown")
 	}
 	return nil
diff --git a/orc/column/bool.go b/orc/column/bool.go
index 3b629d4..a2e569c 100644
--- a/orc/column/bool.go
+++ b/orc/column/bool.go
@@ -112,16 +112,14 @@ type BoolReader struct {
 }
 
 func (r *BoolReader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err = f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	if info.GetKind() == pb.Stream_PRESENT {
 		if !r.schema.HasNulls {
+			f.Close()
 			return errors.New("column schema has no nulls")
 		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
@@ -131,6 +129,7 @@ func (r *BoolReader) InitStream(info *pb.Stream, startOffset uint64) error {
 		r.data = stream.NewBoolReader(r.opts, info, startOffset, f)
 		return nil
 	}
+	f.Close()
 	return errors.New("stream kind error")
 }
 
diff --git a/orc/column/byte.go b/orc/column/byte.go
index 629cb4a..3851851 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -113,24 +113,23 @@ func NewByteReader(schema *api.TypeDescription, opts *config.ReaderOptions, f or
 }
 
 func (r *ByteReader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err = f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
 		if !r.schema.HasNulls {
+			f.Close()
 			return errors.New("column schema has no nulls")
 		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 	case pb.Stream_DATA:
 		r.data = stream.NewByteReader(r.opts, info, startOffset, f)
 	default:
-		err = errors.New("stream kind error")
+		f.Close()
+		return errors.New("stream kind error")
 	}
 	return nil
 }
diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index 25bece7..96fd4c7 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -143,17 +143,15 @@ type DecimalV2Reader struct {
 }
 
 func (r *DecimalV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err = f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
 		if !r.schema.HasNulls {
+			f.Close()
 			return errors.New("schema no present stream")
 		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
@@ -162,6 +160,7 @@ func (r *DecimalV2Reader) InitStream(info *pb.Stream, startOffset uint64) error
 	case pb.Stream_SECONDARY:
 		r.secondary = stream.NewIntRLV2Reader(r.opts, info, startOffset, true, f)
 	default:
+		f.Close()
 		return errors.New("stream kind error")
 	}
 	return nil
diff --git a/orc/column/float.go b/orc/column/float.go
index 7d4bdc8..9adef71 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -24,23 +24,22 @@ type FloatReader struct {
 }
 
 func (r *FloatReader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err = f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
 		if !r.schema.HasNulls {
+			f.Close()
 			return errors.New("schema has no nulls")
 		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 	case pb.Stream_DATA:
 		r.data = stream.NewFloatReader(r.opts, info, startOffset, f, r.is64)
 	default:
+		f.Close()
 		return errors.New("stream kind error")
 	}
 	return nil
diff --git a/orc/column/int.go b/orc/column/int.go
index e07f163..f8d3500 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -142,16 +142,14 @@ type IntV2Reader struct {
 }
 
 func (r *IntV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	if r.schema.Encoding == pb.ColumnEncoding_DIRECT {
 		err := errors.New("int reader encoding direct not impl")
+		f.Close()
 		return err
 	}
 
@@ -163,6 +161,7 @@ func (r *IntV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 		r.data = stream.NewIntRLV2Reader(r.opts, info, startOffset, true, f)
 		return nil
 	}
+	f.Close()
 	return errors.New("stream unknown")
 }
 
diff --git a/orc/column/list.go b/orc/column/list.go
index a000b5f..1a8faab 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -24,13 +24,10 @@ type ListV2Reader struct {
 }
 
 func (r *ListV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	if info.GetKind() == pb.Stream_PRESENT {
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
@@ -40,6 +37,7 @@ func (r *ListV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 		r.length = stream.NewIntRLV2Reader(r.opts, info, startOffset, false, f)
 		return nil
 	}
+	f.Close()
 	return errors.New("struct column no stream other than present")
 }
 
@@ -184,6 +182,7 @@ func (r *ListV2Reader) Close() {
 		r.present.Close()
 	}
 	r.length.Close()
+	r.child.Close()
 }
 
 func NewListV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
diff --git a/orc/column/map.go b/orc/column/map.go
index 05434ee..6ad1c39 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -7,7 +7,6 @@ import (
 	"github.com/patrickhuang888/goorc/orc/stream"
 	"github.com/patrickhuang888/goorc/pb/pb"
 	"github.com/pkg/errors"
-	"io"
 )
 
 func NewMapV2Reader(schema *api.TypeDescription, opts *config.ReaderOptions, f orcio.File) Reader {
@@ -33,16 +32,14 @@ func (r *MapV2Reader) SetValue(value Reader) {
 }
 
 func (r *MapV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	if info.GetKind() == pb.Stream_PRESENT {
 		if !r.schema.HasNulls {
+			f.Close()
 			return errors.New("schema has no nulls")
 		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
@@ -52,6 +49,7 @@ func (r *MapV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 		r.length = stream.NewIntRLV2Reader(r.opts, info, startOffset, false, f)
 		return nil
 	}
+	f.Close()
 	return errors.New("struct column no stream other than present")
 }
 
@@ -114,13 +112,11 @@ func (r *MapV2Reader) Skip(rows uint64) error {
 			if err != nil {
 				return err
 			}
-			for j := 0; j < int(l); j++ {
-				if err := r.key.Skip(l); err != nil {
-					return err
-				}
-				if err := r.value.Skip(l); err != nil {
-					return err
-				}
+			if err := r.key.Skip(l); err != nil {
+				return err
+			}
+			if err := r.value.Skip(l); err != nil {
+				return err
 			}
 		}
 	}
@@ -209,6 +205,7 @@ func (r *MapV2Reader) Close() {
 	if r.present != nil {
 		r.present.Close()
 	}
+	r.length.Close()
 	r.key.Close()
 	r.value.Close()
 }
diff --git a/orc/column/reader.go b/orc/column/reader.go
index d2635ad..ddc9357 100644
--- a/orc/column/reader.go
+++ b/orc/column/reader.go
@@ -58,6 +58,19 @@ func (r *reader) InitIndex(startOffset uint64, length uint64) error {
 	return nil
 }
 
+// openStream returns a new file handle, positioned at start of a stream
+func (r *reader) openStream(startOffset uint64) (orcio.File, error) {
+	f, err := r.f.Clone()
+	if err != nil {
+		return nil, err
+	}
+	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
+		f.Close()
+		return nil, err
+	}
+	return f, nil
+}
+
 func (r *reader) getStridePositions(stride int) (pos []uint64, err error) {
 	if r.index == nil {
 		err = errors.New("no index")
diff --git a/orc/column/string.go b/orc/column/string.go
index e886183..83862f6 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -134,13 +134,10 @@ type StringDirectV2Reader struct {
 }
 
 func (r *StringDirectV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
@@ -150,6 +147,7 @@ func (r *StringDirectV2Reader) InitStream(info *pb.Stream, startOffset uint64) e
 	case pb.Stream_LENGTH:
 		r.length = stream.NewIntRLV2Reader(r.opts, info, startOffset, false, f)
 	default:
+		f.Close()
 		return errors.New("stream kind not unknown")
 	}
 	return nil
@@ -303,17 +301,15 @@ type StringDictionaryV2Reader struct {
 }
 
 func (r *StringDictionaryV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
 		if !r.schema.HasNulls {
+			f.Close()
 			return errors.New("schema has no nulls")
 		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
@@ -324,6 +320,7 @@ func (r *StringDictionaryV2Reader) InitStream(info *pb.Stream, startOffset uint6
 	case pb.Stream_LENGTH:
 		r.length = stream.NewIntRLV2Reader(r.opts, info, startOffset, false, f)
 	default:
+		f.Close()
 		return errors.New("stream kind not unknown")
 	}
 	return nil
diff --git a/orc/column/struct.go b/orc/column/struct.go
index b25325d..938386f 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -29,21 +29,20 @@ func (r *StructReader) AddChild(child Reader) {
 }
 
 func (r *StructReader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	if info.GetKind() == pb.Stream_PRESENT {
 		if !r.schema.HasNulls {
+			f.Close()
 			return errors.New("should no present")
 		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 		return nil
 	}
+	f.Close()
 	return errors.New("struct column no stream other than present")
 }
 
diff --git a/orc/column/time.go b/orc/column/time.go
index f0e4f60..d588f4a 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -109,20 +109,19 @@ type DateV2Reader struct {
 }
 
 func (r *DateV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	if r.schema.Encoding != pb.ColumnEncoding_DIRECT_V2 {
+		f.Close()
 		return errors.New("encoding error")
 	}
 
 	if info.GetKind() == pb.Stream_PRESENT {
 		if !r.schema.HasNulls {
+			f.Close()
 			return errors.New("schema has no nulls")
 		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
@@ -132,6 +131,7 @@ func (r *DateV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 		r.data = stream.NewDateV2Reader(r.opts, info, startOffset, f)
 		return err
 	}
+	f.Close()
 	return errors.New("stream kind unknown")
 }
 
@@ -351,17 +351,15 @@ type TimestampV2Reader struct {
 }
 
 func (r *TimestampV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	ic, err := r.f.Clone()
+	ic, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err = ic.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
 		if !r.schema.HasNulls {
+			ic.Close()
 			return errors.New("schema has no nulls")
 		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, ic)
@@ -370,6 +368,7 @@ func (r *TimestampV2Reader) InitStream(info *pb.Stream, startOffset uint64) erro
 	case pb.Stream_SECONDARY:
 		r.secondary = stream.NewIntRLV2Reader(r.opts, info, startOffset, false, ic)
 	default:
+		ic.Close()
 		return errors.New("stream kind error")
 	}
 	return nil
-- 
2.43.0


From 3ea65075da1561a8defbd3bf9a8bd018b618836b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:38 +0000
Subject: [PATCH 30/54] fix: present streams of columns without hasNull in the
 file statistics are rejected

---
 orc/column/binary.go  | 4 ----
 orc/column/bool.go    | 4 ----
 orc/column/byte.go    | 4 ----
 orc/column/decimal.go | 4 ----
 orc/column/float.go   | 4 ----
 orc/column/map.go     | 4 ----
 orc/column/string.go  | 4 ----
 orc/column/time.go    | 8 --------
 8 files changed, 36 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index 7874b0c..8a86777 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -135,10 +135,6 @@ func (r *BinaryV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			f.Close()
-			return errors.New("has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 	case pb.Stream_DATA:
 		r.data = stream.NewStringContentsReader(r.opts, info, startOffset, f)
diff --git a/orc/column/bool.go b/orc/column/bool.go
index a2e569c..9f95240 100644
--- a/orc/column/bool.go
+++ b/orc/column/bool.go
@@ -118,10 +118,6 @@ func (r *BoolReader) InitStream(info *pb.Stream, startOffset uint64) error {
 	}
 
 	if info.GetKind() == pb.Stream_PRESENT {
-		if !r.schema.HasNulls {
-			f.Close()
-			return errors.New("column schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 		return nil
 	}
diff --git a/orc/column/byte.go b/orc/column/byte.go
index 3851851..7420a7a 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -120,10 +120,6 @@ func (r *ByteReader) InitStream(info *pb.Stream, startOffset uint64) error {
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			f.Close()
-			return errors.New("column schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 	case pb.Stream_DATA:
 		r.data = stream.NewByteReader(r.opts, info, startOffset, f)
diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index 96fd4c7..a305b3a 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -150,10 +150,6 @@ func (r *DecimalV2Reader) InitStream(info *pb.Stream, startOffset uint64) error
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			f.Close()
-			return errors.New("schema no present stream")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 	case pb.Stream_DATA:
 		r.data = stream.NewVarIntReader(r.opts, info, startOffset, f)
diff --git a/orc/column/float.go b/orc/column/float.go
index 9adef71..6442e9b 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -31,10 +31,6 @@ func (r *FloatReader) InitStream(info *pb.Stream, startOffset uint64) error {
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			f.Close()
-			return errors.New("schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 	case pb.Stream_DATA:
 		r.data = stream.NewFloatReader(r.opts, info, startOffset, f, r.is64)
diff --git a/orc/column/map.go b/orc/column/map.go
index 6ad1c39..3f249a2 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -38,10 +38,6 @@ func (r *MapV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 	}
 
 	if info.GetKind() == pb.Stream_PRESENT {
-		if !r.schema.HasNulls {
-			f.Close()
-			return errors.New("schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 		return nil
 	}
diff --git a/orc/column/string.go b/orc/column/string.go
index 83862f6..d4afc49 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -308,10 +308,6 @@ func (r *StringDictionaryV2Reader) InitStream(info *pb.Stream, startOffset uint6
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			f.Close()
-			return errors.New("schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 	case pb.Stream_DATA:
 		r.data = stream.NewIntRLV2Reader(r.opts, info, startOffset, false, f)
diff --git a/orc/column/time.go b/orc/column/time.go
index d588f4a..7c1353d 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -120,10 +120,6 @@ func (r *DateV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 	}
 
 	if info.GetKind() == pb.Stream_PRESENT {
-		if !r.schema.HasNulls {
-			f.Close()
-			return errors.New("schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 		return nil
 	}
@@ -358,10 +354,6 @@ func (r *TimestampV2Reader) InitStream(info *pb.Stream, startOffset uint64) erro
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			ic.Close()
-			return errors.New("schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, ic)
 	case pb.Stream_DATA:
 		r.data = stream.NewIntRLV2Reader(r.opts, info, startOffset, true, ic)
-- 
2.43.0


From f526ef25868d62808f70c88ad473f32c72769eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:32 +0000
Subject: [PATCH 31/54] fix: reading decimals and timestamps panics

---
 orc/column/decimal.go | 4 +---
 orc/column/time.go    | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index a305b3a..f4888d4 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -181,9 +181,7 @@ func (r *DecimalV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if scale, err = r.secondary.NextInt64(); err != nil {
 				return err
 			}
-			d:= vec.Vector[i].V.(api.Decimal64)
-			d.Precision= precision
-			d.Scale= int(scale)
+			vec.Vector[i].V = api.Decimal64{Precision: precision, Scale: int(scale)}
 		}
 	}
 	return nil
diff --git a/orc/column/time.go b/orc/column/time.go
index 7c1353d..98d3fb4 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -386,9 +386,7 @@ func (r *TimestampV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if ns, err = r.secondary.NextUInt64(); err != nil {
 				return err
 			}
-			t:= vec.Vector[i].V.(api.Timestamp)
-			t.Seconds= s
-			t.Nanos= api.DecodingTimestampNanos(ns)
+			vec.Vector[i].V = api.Timestamp{Loc: r.loc, Seconds: s, Nanos: api.DecodingTimestampNanos(ns)}
 		}
 	}
 	return nil
-- 
2.43.0


From 5372afa89a4a6ef26a833d5bfc5f8a1817afddc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:34 +0000
Subject: [PATCH 32/54] fix: index positions of decimals, dates and of files
 whose index starts with row 0, failed dictionary loads

---
 orc/column/decimal.go | 28 ++++++++++++----------------
 orc/column/reader.go  |  6 +++++-
 orc/column/string.go  | 11 +++++++++++
 orc/column/time.go    | 13 +++++++++++--
 orc/encoding/int.go   |  3 ++-
 orc/stream/int.go     |  1 -
 6 files changed, 41 insertions(+), 21 deletions(-)

diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index f4888d4..b268aa1 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -226,7 +226,7 @@ func (r *DecimalV2Reader) SeekStride(stride int) error {
 		return nil
 	}
 
-	var dataChunk, dataChunkOffset, dataOffset uint64
+	var dataChunk, dataChunkOffset uint64
 	var secondaryChunk, secondaryChunkOffset, secondaryOffset uint64
 
 	pos, err := r.getStridePositions(stride)
@@ -242,9 +242,8 @@ func (r *DecimalV2Reader) SeekStride(stride int) error {
 			pOffset2 = pos[2]
 
 			dataChunkOffset = pos[3]
-			dataOffset = pos[4]
-			secondaryChunkOffset = pos[5]
-			secondaryOffset = pos[6]
+			secondaryChunkOffset = pos[4]
+			secondaryOffset = pos[5]
 
 		} else {
 			pChunk = pos[0]
@@ -254,10 +253,9 @@ func (r *DecimalV2Reader) SeekStride(stride int) error {
 
 			dataChunk = pos[4]
 			dataChunkOffset = pos[5]
-			dataOffset = pos[6]
-			secondaryChunk = pos[7]
-			secondaryChunkOffset = pos[8]
-			secondaryOffset = pos[9]
+			secondaryChunk = pos[6]
+			secondaryChunkOffset = pos[7]
+			secondaryOffset = pos[8]
 		}
 
 		if err = r.present.Seek(pChunk, pChunkOffset, pOffset1, pOffset2); err != nil {
@@ -268,20 +266,18 @@ func (r *DecimalV2Reader) SeekStride(stride int) error {
 
 		if r.opts.CompressionKind == pb.CompressionKind_NONE {
 			dataChunkOffset = pos[0]
-			dataOffset = pos[1]
-			secondaryChunkOffset = pos[2]
-			secondaryOffset = pos[3]
+			secondaryChunkOffset = pos[1]
+			secondaryOffset = pos[2]
 		} else {
 			dataChunk = pos[0]
 			dataChunkOffset = pos[1]
-			dataOffset = pos[2]
-			secondaryChunk = pos[3]
-			secondaryChunkOffset = pos[4]
-			secondaryOffset = pos[5]
+			secondaryChunk = pos[2]
+			secondaryChunkOffset = pos[3]
+			secondaryOffset = pos[4]
 		}
 	}
 
-	if err = r.data.Seek(dataChunk, dataChunkOffset, dataOffset); err != nil {
+	if err = r.data.Seek(dataChunk, dataChunkOffset, 0); err != nil {
 		return err
 	}
 	if err = r.secondary.Seek(secondaryChunk, secondaryChunkOffset, secondaryOffset); err != nil {
diff --git a/orc/column/reader.go b/orc/column/reader.go
index ddc9357..1a6aa36 100644
--- a/orc/column/reader.go
+++ b/orc/column/reader.go
@@ -55,6 +55,10 @@ func (r *reader) InitIndex(startOffset uint64, length uint64) error {
 	if err := proto.Unmarshal(buf, r.index); err != nil {
 		return errors.WithStack(err)
 	}
+	// first entry is the start of the stripe, so that entry of stride n is n-1
+	if len(r.index.Entry) > 0 {
+		r.index.Entry = r.index.Entry[1:]
+	}
 	return nil
 }
 
@@ -81,7 +85,7 @@ func (r *reader) getStridePositions(stride int) (pos []uint64, err error) {
 		return
 	}
 	if stride > len(r.index.Entry) {
-		err = errors.Errorf("stride %d does not exist", stride)
+		return nil, errors.Errorf("stride %d does not exist", stride)
 	}
 	pos = r.index.Entry[stride-1].Positions
 	return
diff --git a/orc/column/string.go b/orc/column/string.go
index d4afc49..bec43d1 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -326,6 +326,14 @@ func (r *StringDictionaryV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 
 	if !r.dictLoaded {
+		// start over if loading failed before
+		r.dictStrings = nil
+		if err = r.length.Seek(0, 0, 0); err != nil {
+			return err
+		}
+		if err = r.dict.Seek(0, 0); err != nil {
+			return err
+		}
 		for ; !r.length.Finished(); {
 			var l uint64
 			if l, err = r.length.NextUInt64(); err != nil {
@@ -353,6 +361,9 @@ func (r *StringDictionaryV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if data, err = r.data.NextUInt64(); err != nil {
 				return err
 			}
+			if data >= uint64(len(r.dictStrings)) {
+				return errors.Errorf("dictionary has %d entries, entry %d does not exist", len(r.dictStrings), data)
+			}
 			vec.Vector[i].V = r.dictStrings[data]
 		}
 	}
diff --git a/orc/column/time.go b/orc/column/time.go
index 98d3fb4..b77352b 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -173,6 +173,15 @@ func (r *DateV2Reader) Skip(rows uint64) error {
 }
 
 func (r *DateV2Reader) SeekStride(stride int) error {
+	if stride == 0 {
+		if r.present != nil {
+			if err := r.present.Seek(0, 0, 0, 0); err != nil {
+				return err
+			}
+		}
+		return r.data.Seek(0, 0, 0)
+	}
+
 	pos, err := r.getStridePositions(stride)
 	if err != nil {
 		return err
@@ -199,7 +208,7 @@ func (r *DateV2Reader) SeekStride(stride int) error {
 
 	var dataChunk, dataChunkOffset, dataOffset uint64
 	if r.opts.CompressionKind == pb.CompressionKind_NONE {
-		if r.schema.HasNulls {
+		if r.present != nil {
 			dataChunkOffset = pos[3]
 			dataOffset = pos[4]
 		} else {
@@ -207,7 +216,7 @@ func (r *DateV2Reader) SeekStride(stride int) error {
 			dataOffset = pos[1]
 		}
 	} else {
-		if r.schema.HasNulls {
+		if r.present != nil {
 			dataChunk = pos[4]
 			dataChunkOffset = pos[5]
 			dataOffset = pos[6]
diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 04e5c87..7ba9da2 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -1191,7 +1191,8 @@ func (e *varint64Encoder) Flush(out *bytes.Buffer) error {
 }
 
 func (e *varint64Encoder) GetPosition() []uint64 {
-	return []uint64{1}
+	// nothing is buffered
+	return []uint64{}
 }
 
 func DecodeVarInt64(in BufferedReader) (value int64, err error) {
diff --git a/orc/stream/int.go b/orc/stream/int.go
index bda74c3..c450a8e 100644
--- a/orc/stream/int.go
+++ b/orc/stream/int.go
@@ -135,7 +135,6 @@ func (r *Varint64Reader) Seek(offset, uncompressedOffset, pos uint64) error {
 	if err := r.stream.seek(offset, uncompressedOffset); err != nil {
 		return err
 	}
-	// always 1
 	return nil
 }
 
-- 
2.43.0


From 7cbb1a499e72dc9054b8f65382b4ad6e12e8d087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:08 +0000
Subject: [PATCH 33/54] fix: null timestamps and decimals keep a value

---
 orc/column/decimal.go | 3 +++
 orc/column/time.go    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index b268aa1..ffb771e 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -171,6 +171,9 @@ func (r *DecimalV2Reader) NextBatch(vec *api.ColumnVector) error {
 				return err
 			}
 			vec.Vector[i].Null = !p
+			if !p {
+				vec.Vector[i].V = nil
+			}
 		}
 		if !vec.Vector[i].Null {
 			var precision int64
diff --git a/orc/column/time.go b/orc/column/time.go
index b77352b..347ec9b 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -384,6 +384,9 @@ func (r *TimestampV2Reader) NextBatch(vec *api.ColumnVector) error {
 				return err
 			}
 			vec.Vector[i].Null = !p
+			if !p {
+				vec.Vector[i].V = nil
+			}
 		}
 
 		if !vec.Vector[i].Null {
-- 
2.43.0


From 9a3f2ab3c1cadf1fa920de973d9a56a74ddad9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:19 +0000
Subject: [PATCH 34/54] fix: fields of structs inside of structs with nulls
 panic or lose nulls

---
 orc/column/struct.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/orc/column/struct.go b/orc/column/struct.go
index 938386f..e2d8fae 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -135,12 +135,22 @@ func (r *StructReader) NextBatch(vec *api.ColumnVector) error {
 	return nil
 }
 
+// rows of a null struct are null in all fields, a field that is a struct may have no vector
 func fillNulls(vec *api.ColumnVector) {
-	for _, c := range vec.Children {
-		for i, v := range vec.Vector {
-			c.Vector[i].Null = v.Null
+	fillChildrenNulls(vec.Vector, vec.Children)
+}
+
+func fillChildrenNulls(rows []api.Value, children []*api.ColumnVector) {
+	for _, c := range children {
+		for i, v := range rows {
+			if v.Null && i < len(c.Vector) {
+				c.Vector[i].Null = true
+			}
+		}
+		// elements of lists and maps are no rows
+		if c.Kind == pb.Type_STRUCT {
+			fillChildrenNulls(rows, c.Children)
 		}
-		fillNulls(c)
 	}
 }
 
-- 
2.43.0


From 3e3d823a1f235d43493f05d12b10a723cb528da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:21 +0000
Subject: [PATCH 35/54] fix: char and varchar columns can be written but not
 read

---
 orc/column/package.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orc/column/package.go b/orc/column/package.go
index 9c7244a..2e214e8 100644
--- a/orc/column/package.go
+++ b/orc/column/package.go
@@ -95,6 +95,10 @@ func NewReader(schema *api.TypeDescription, opts *config.ReaderOptions, in orcio
 		}
 		return NewFloatReader(schema, opts, in, true), nil
 
+	case pb.Type_CHAR:
+		fallthrough
+	case pb.Type_VARCHAR:
+		fallthrough
 	case pb.Type_STRING:
 		if schema.Encoding == pb.ColumnEncoding_DIRECT_V2 {
 			return NewStringDirectV2Reader(opts, schema, in), nil
-- 
2.43.0


From 297c8c7cd19a5d0e092c064df423724c4db17a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:56 +0000
Subject: [PATCH 36/54] fix: failed and short writes and closes are lost, files
 stay open

---
 orc/stripe.go |  4 ++--
 orc/writer.go | 53 +++++++++++++++++++++++++++++++++++++++++----------
 2 files changed, 45 insertions(+), 12 deletions(-)

diff --git a/orc/stripe.go b/orc/stripe.go
index 228b315..55525d4 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -96,9 +96,9 @@ func (stripe *stripeWriter) flushOut() error {
 			if err != nil {
 				return err
 			}
-			nd, err := stripe.out.Write(indexData)
+			nd, err := writeAll(stripe.out, indexData)
 			if err != nil {
-				return errors.WithStack(err)
+				return err
 			}
 			*stripe.info.IndexLength += uint64(nd)
 		}
diff --git a/orc/writer.go b/orc/writer.go
index 3f5c769..28737ff 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -2,6 +2,7 @@ package orc
 
 import (
 	"bytes"
+	"io"
 
 	"github.com/golang/protobuf/proto"
 	"github.com/pkg/errors"
@@ -33,6 +34,7 @@ func NewOSFileWriter(path string, schema *api.TypeDescription, opts config.Write
 	}
 	w, err := newWriter(schema, &opts, f)
 	if err != nil {
+		f.Close()
 		return nil, err
 	}
 	return w, nil
@@ -88,6 +90,10 @@ type writer struct {
 	ps *pb.PostScript
 
 	f orcio.File
+
+	// first write error, file cannot be completed after it
+	err    error
+	closed bool
 }
 
 func (w *writer) Write(vec *api.ColumnVector) error {
@@ -95,7 +101,14 @@ func (w *writer) Write(vec *api.ColumnVector) error {
 		return err
 	}*/
 
+	if w.closed {
+		return errors.New("writer closed")
+	}
+	if w.err != nil {
+		return w.err
+	}
 	if err := w.stripe.write(vec); err != nil {
+		w.err = err
 		return err
 	}
 	return nil
@@ -119,25 +132,45 @@ func (w *writer) GetSchema() *api.TypeDescription {
 	return w.schemas[0]
 }
 
+// Close completes and closes the file, it returns the first error of all writes. The file is closed once.
 func (w *writer) Close() error {
+	if w.closed {
+		return w.err
+	}
+	w.closed = true
+	if w.err == nil {
+		w.err = w.finish()
+	}
+	if err := w.f.Close(); err != nil && w.err == nil {
+		w.err = errors.WithStack(err)
+	}
+	return w.err
+}
+
+func (w *writer) finish() error {
 	if err := w.stripe.flushOut(); err != nil {
 		return err
 	}
 	w.stripe.infos = append(w.stripe.infos, w.stripe.info)
 
-	if err := w.writeFileTail(); err != nil {
-		return err
+	return w.writeFileTail()
+}
+
+// writeAll returns an error also when out takes less bytes without one
+func writeAll(out io.Writer, b []byte) (n int, err error) {
+	if n, err = out.Write(b); err != nil {
+		return n, errors.WithStack(err)
 	}
-	if err:=w.f.Close();err!=nil {
-		logger.Warn(err)
+	if n < len(b) {
+		return n, errors.WithStack(io.ErrShortWrite)
 	}
-	return nil
+	return n, nil
 }
 
 func (w *writer) writeHeader() (uint64, error) {
 	b := []byte(Magic)
-	if _, err := w.f.Write(b); err != nil {
-		return 0, errors.WithStack(err)
+	if _, err := writeAll(w.f, b); err != nil {
+		return 0, err
 	}
 	return uint64(len(b)), nil
 }
@@ -168,7 +201,7 @@ func (w *writer) writeFileTail() error {
 	var footLen uint64
 	if w.opts.CompressionKind == pb.CompressionKind_NONE {
 		footLen = uint64(len(footBytes))
-		if _, err := w.f.Write(footBytes); err != nil {
+		if _, err := writeAll(w.f, footBytes); err != nil {
 			return err
 		}
 	} else {
@@ -195,13 +228,13 @@ func (w *writer) writeFileTail() error {
 	if err != nil {
 		return errors.WithStack(err)
 	}
-	n, err := w.f.Write(psb)
+	n, err := writeAll(w.f, psb)
 	if err != nil {
 		return err
 	}
 	logger.Debugf("write out postscript (length %d)", n)
 	// last byte is ps length
-	if _, err = w.f.Write([]byte{byte(n)}); err != nil {
+	if _, err = writeAll(w.f, []byte{byte(n)}); err != nil {
 		return err
 	}
 	return nil
-- 
2.43.0


From 39eae29c5cca7d9211b2be3d0abf58903b4c0d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:57 +0000
Subject: [PATCH 37/54] fix: empty stripes are written, files without rows
 cannot be read

---
 orc/reader.go | 3 ---
 orc/writer.go | 9 ++++++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index 6cf7507..3671ade 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -50,9 +50,6 @@ func newReader(f orcio.File) (r *reader, err error) {
 	opts.IndexStride = int(tail.Footer.GetRowIndexStride())
 
 	rows := tail.GetFooter().GetNumberOfRows()
-	if rows == 0 {
-		return nil, errors.New("file footer error, number of rows 0")
-	}
 
 	schemas := unmarshallSchema(tail.Footer.Types)
 	for i, stat := range tail.Footer.Statistics {
diff --git a/orc/writer.go b/orc/writer.go
index 28737ff..5b7ac02 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -148,10 +148,13 @@ func (w *writer) Close() error {
 }
 
 func (w *writer) finish() error {
-	if err := w.stripe.flushOut(); err != nil {
-		return err
+	// no empty stripes
+	if w.stripe.info.GetNumberOfRows() > 0 {
+		if err := w.stripe.flushOut(); err != nil {
+			return err
+		}
+		w.stripe.infos = append(w.stripe.infos, w.stripe.info)
 	}
-	w.stripe.infos = append(w.stripe.infos, w.stripe.info)
 
 	return w.writeFileTail()
 }
-- 
2.43.0


From 8b04ab1e8caefac0d712434abbdb722cd158dfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:59 +0000
Subject: [PATCH 38/54] fix: batches with nulls in columns without nulls or
 with columns of other lengths are written

---
 orc/stripe.go | 17 ++++++++++-------
 orc/writer.go | 38 +++++++++++++++++++++++++++++---------
 2 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/orc/stripe.go b/orc/stripe.go
index 55525d4..e1c5848 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -37,7 +37,7 @@ type stripeWriter struct {
 func (stripe *stripeWriter) write(vec *api.ColumnVector) error {
 	count := uint64(0)
 	for i := 0; i < vec.Len(); i++ {
-		if err := stripe.writeValue(i, vec); err != nil {
+		if err := stripe.writeValue(i, vec, false); err != nil {
 			return err
 		}
 		count++
@@ -58,15 +58,18 @@ func (stripe *stripeWriter) write(vec *api.ColumnVector) error {
 	return nil
 }
 
-func (stripe *stripeWriter) writeValue(index int, vec *api.ColumnVector) error {
-	if vec.Vector != nil { // maybe no present struct vector
-		if err := stripe.columnWriters[vec.Id].Write(vec.Vector[index]); err != nil {
-			return err
-		}
+// all fields of a null struct are null
+func (stripe *stripeWriter) writeValue(index int, vec *api.ColumnVector, null bool) error {
+	value := api.Value{Null: null}
+	if !null && len(vec.Vector) > 0 { // maybe no present struct vector
+		value = vec.Vector[index]
+	}
+	if err := stripe.columnWriters[vec.Id].Write(value); err != nil {
+		return err
 	}
 
 	for _, c := range vec.Children {
-		if err := stripe.writeValue(index, c); err != nil {
+		if err := stripe.writeValue(index, c, value.Null); err != nil {
 			return err
 		}
 	}
diff --git a/orc/writer.go b/orc/writer.go
index 5b7ac02..e900295 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -97,16 +97,15 @@ type writer struct {
 }
 
 func (w *writer) Write(vec *api.ColumnVector) error {
-	/*if err := w.CheckBatch(vec); err != nil {
-		return err
-	}*/
-
 	if w.closed {
 		return errors.New("writer closed")
 	}
 	if w.err != nil {
 		return w.err
 	}
+	if err := w.CheckBatch(vec); err != nil {
+		return err
+	}
 	if err := w.stripe.write(vec); err != nil {
 		w.err = err
 		return err
@@ -114,14 +113,35 @@ func (w *writer) Write(vec *api.ColumnVector) error {
 	return nil
 }
 
+// CheckBatch checks whole batch, so that a wrong one will not be written in part
 func (w *writer) CheckBatch(batch *api.ColumnVector) error {
-	for _, v := range batch.Vector {
-		if v.Null && !w.schemas[batch.Id].HasNulls {
-			return errors.Errorf("schema %d %s has no nulls, but batch has null", batch.Id, w.schemas[batch.Id].Kind.String())
+	return w.checkBatch(w.schemas[0], batch, batch.Len(), nil)
+}
+
+// nulls are rows of parent struct
+func (w *writer) checkBatch(schema *api.TypeDescription, vec *api.ColumnVector, rows int, nulls []api.Value) error {
+	if vec == nil || vec.Id != schema.Id {
+		return errors.Errorf("no vector for schema %d %s", schema.Id, schema.Kind.String())
+	}
+	if len(vec.Children) != len(schema.Children) {
+		return errors.Errorf("schema %d %s has %d children, but batch has %d", schema.Id, schema.Kind.String(),
+			len(schema.Children), len(vec.Children))
+	}
+	// struct without nulls does not need a vector
+	if (schema.Kind != pb.Type_STRUCT || schema.HasNulls || len(vec.Vector) > 0) && len(vec.Vector) != rows {
+		return errors.Errorf("schema %d %s should have %d rows, but batch has %d", schema.Id, schema.Kind.String(),
+			rows, len(vec.Vector))
+	}
+	for i, v := range vec.Vector {
+		if v.Null && !schema.HasNulls && !(nulls != nil && nulls[i].Null) {
+			return errors.Errorf("schema %d %s has no nulls, but batch has null", schema.Id, schema.Kind.String())
 		}
 	}
-	for _, c := range batch.Children {
-		if err := w.CheckBatch(c); err != nil {
+	if schema.HasNulls { // columns below have none
+		nulls = vec.Vector
+	}
+	for i, c := range schema.Children {
+		if err := w.checkBatch(c, vec.Children[i], rows, nulls); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 6913c4c2e6b2159be70b49fb2e1c7c17f783b4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:22 +0000
Subject: [PATCH 39/54] fix: writers with chunk sizes that cannot be written
 hang or write other lengths

---
 orc/config/opts.go | 11 +++++++++++
 orc/writer.go      |  4 ++++
 2 files changed, 15 insertions(+)

diff --git a/orc/config/opts.go b/orc/config/opts.go
index 1bf8e56..9bee43e 100644
--- a/orc/config/opts.go
+++ b/orc/config/opts.go
@@ -48,6 +48,17 @@ func CheckWriteOpts(opts * WriterOptions) error {
 	return nil
 }
 
+// chunk length is written in 23 bits
+const maxChunkSize = 1<<23 - 1
+
+// CheckChunkSize chunks cannot be written with other sizes
+func CheckChunkSize(opts *WriterOptions) error {
+	if opts.ChunkSize < 0 || (opts.CompressionKind != pb.CompressionKind_NONE && (opts.ChunkSize == 0 || opts.ChunkSize > maxChunkSize)) {
+		return errors.Errorf("ChunkSize %d is not valid", opts.ChunkSize)
+	}
+	return nil
+}
+
 func DefaultWriterOptions() WriterOptions {
 	return WriterOptions{CompressionKind: pb.CompressionKind_ZLIB, StripeSize: DEFAULT_STRIPE_SIZE, ChunkSize: DefaultChunkSize,
 		BufferSize: DefalutBufferSize, EncoderBufferSize: DefalutBufferSize, IndexStride: DefaultIndexStride}
diff --git a/orc/writer.go b/orc/writer.go
index e900295..4cb7336 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -58,6 +58,10 @@ func newWriter(schema *api.TypeDescription, opts *config.WriterOptions, f orcio.
 		return
 	}
 
+	if err = config.CheckChunkSize(opts); err != nil {
+		return
+	}
+
 	w = &writer{opts: opts, f: f, schemas: schemas}
 
 	var h uint64
-- 
2.43.0


From 7fdced2caafb9d74c113b5e88a2c1bf4d4d8b82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:24 +0000
Subject: [PATCH 40/54] fix: an empty last chunk is written when data fills all
 chunks

---
 orc/common/misc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/common/misc.go b/orc/common/misc.go
index 93793e0..dfd3789 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -169,6 +169,9 @@ func zlibCompressingAll(chunkSize int, dst *bytes.Buffer, src *bytes.Buffer) err
 	}
 
 	// compressing remaining
+	if src.Len() == 0 {
+		return nil
+	}
 	data := src.Bytes()
 
 	buf := bytes.NewBuffer(make([]byte, chunkSize))
-- 
2.43.0


From 098f5619789f3da02507ec2735e4e22b2cc3ec35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:28 +0000
Subject: [PATCH 41/54] fix: row index is written without first entry,
 uncompressed and not listed in footers

---
 orc/column/int.go     |  4 ----
 orc/column/package.go |  2 +-
 orc/column/string.go  |  4 ++++
 orc/column/writer.go  | 26 +++++++++++++++++++++++---
 orc/stripe.go         | 24 ++++++++++++++++++------
 orc/writer.go         |  8 +++++++-
 6 files changed, 53 insertions(+), 15 deletions(-)

diff --git a/orc/column/int.go b/orc/column/int.go
index f8d3500..bf2cc5e 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -113,10 +113,6 @@ func (w *intWriter) WriteOut(out io.Writer) (n int64, err error) {
 	return
 }
 
-func (w intWriter) GetIndex() *pb.RowIndex {
-	return w.index
-}
-
 func (w intWriter) GetStreamInfos() []*pb.Stream {
 	if w.schema.HasNulls {
 		return []*pb.Stream{w.present.Info(), w.data.Info()}
diff --git a/orc/column/package.go b/orc/column/package.go
index 2e214e8..2993209 100644
--- a/orc/column/package.go
+++ b/orc/column/package.go
@@ -50,7 +50,7 @@ type Writer interface {
 	// write out before data. n written total data length
 	WriteOut(out io.Writer) (n int64, err error)
 
-	//after flush
+	//after flush, as it is written to the file
 	GetIndex() *pb.RowIndex
 
 	// GetStreamInfos get no-non streams, used for writing stripe footer after flush
diff --git a/orc/column/string.go b/orc/column/string.go
index bec43d1..16786c1 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -547,6 +547,10 @@ func (w *stringDictionaryV2Writer) Flush() error {
 			entry.Positions = append(entry.Positions, w.dataStream.GetPosition()...)
 		}
 	}
+	w.positions = len(w.dataStream.GetPosition())
+	if w.schema.HasNulls {
+		w.positions += len(w.present.GetPosition())
+	}
 	addPositions(0)
 	for i, v := range data {
 		if err := w.dataStream.Write(uint64(v)); err != nil {
diff --git a/orc/column/writer.go b/orc/column/writer.go
index 2785141..c37fa67 100644
--- a/orc/column/writer.go
+++ b/orc/column/writer.go
@@ -20,6 +20,8 @@ type writer struct {
 	indexInRows int
 	indexStats  *pb.ColumnStatistics
 	index       *pb.RowIndex
+	// count of positions of an entry of the index
+	positions int
 
 	// statistics of a new stride, with the kind of the column
 	newIndexStats func() *pb.ColumnStatistics
@@ -46,7 +48,7 @@ func (w *writer) indexRow(streams ...stream.Writer) {
 		return
 	}
 	w.indexInRows++
-	if w.indexInRows < w.opts.IndexStride {
+	if w.positions > 0 && w.indexInRows < w.opts.IndexStride {
 		return
 	}
 	var pp []uint64
@@ -56,6 +58,10 @@ func (w *writer) indexRow(streams ...stream.Writer) {
 	for _, s := range streams {
 		pp = append(pp, s.GetPosition()...)
 	}
+	w.positions = len(pp)
+	if w.indexInRows < w.opts.IndexStride {
+		return
+	}
 	w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
 	w.indexStats = w.newIndexStats()
 	w.indexInRows = 0
@@ -95,8 +101,22 @@ func (w *writer) reset() {
 	// stats will not reset, it's for whole writer
 }
 
-func (w writer) GetIndex() *pb.RowIndex {
-	return w.index
+// GetIndex returns the index with an entry for every stride, with the position of its first row and the statistics
+// of its rows. The first one is the start of the stripe, all positions are 0.
+func (w *writer) GetIndex() *pb.RowIndex {
+	if !w.opts.WriteIndex {
+		return nil
+	}
+	index := &pb.RowIndex{}
+	positions := make([]uint64, w.positions)
+	for _, e := range w.index.Entry {
+		index.Entry = append(index.Entry, &pb.RowIndexEntry{Positions: positions, Statistics: e.Statistics})
+		positions = e.Positions
+	}
+	if w.indexInRows > 0 {
+		index.Entry = append(index.Entry, &pb.RowIndexEntry{Positions: positions, Statistics: w.indexStats})
+	}
+	return index
 }
 
 func (w writer) GetStats() *pb.ColumnStatistics {
diff --git a/orc/stripe.go b/orc/stripe.go
index e1c5848..4ddeead 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -91,19 +91,26 @@ func (stripe *stripeWriter) flushOut() error {
 		}
 	}
 
+	var indexLengths []uint64
 	if stripe.opts.WriteIndex {
 		for _, c := range stripe.columnWriters {
-			index := c.GetIndex()
-			var indexData []byte
-			indexData, err := proto.Marshal(index)
+			indexData, err := proto.Marshal(c.GetIndex())
 			if err != nil {
-				return err
+				return errors.WithStack(err)
+			}
+			if stripe.opts.CompressionKind != pb.CompressionKind_NONE {
+				buf := &bytes.Buffer{}
+				if err := common.CompressingAllInChunks(stripe.opts.CompressionKind, stripe.opts.ChunkSize, buf, bytes.NewBuffer(indexData)); err != nil {
+					return err
+				}
+				indexData = buf.Bytes()
 			}
 			nd, err := writeAll(stripe.out, indexData)
 			if err != nil {
 				return err
 			}
 			*stripe.info.IndexLength += uint64(nd)
+			indexLengths = append(indexLengths, uint64(nd))
 		}
 		log.Tracef("flush index of length %d", stripe.info.GetIndexLength())
 	}
@@ -116,15 +123,20 @@ func (stripe *stripeWriter) flushOut() error {
 		*stripe.info.DataLength += uint64(ns)
 	}
 
-	if err := stripe.writeFooter(); err != nil {
+	if err := stripe.writeFooter(indexLengths); err != nil {
 		return errors.WithStack(err)
 	}
 	return nil
 }
 
-func (stripe *stripeWriter) writeFooter() error {
+func (stripe *stripeWriter) writeFooter(indexLengths []uint64) error {
 	footer := &pb.StripeFooter{}
 
+	for i := range indexLengths {
+		kind, column := pb.Stream_ROW_INDEX, uint32(i)
+		footer.Streams = append(footer.Streams, &pb.Stream{Kind: &kind, Column: &column, Length: &indexLengths[i]})
+	}
+
 	for _, c := range stripe.columnWriters {
 		footer.Streams = append(footer.Streams, c.GetStreamInfos()...)
 	}
diff --git a/orc/writer.go b/orc/writer.go
index 4cb7336..a9247fd 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -61,6 +61,9 @@ func newWriter(schema *api.TypeDescription, opts *config.WriterOptions, f orcio.
 	if err = config.CheckChunkSize(opts); err != nil {
 		return
 	}
+	if opts.WriteIndex && opts.IndexStride <= 0 {
+		return nil, errors.Errorf("IndexStride %d is not valid", opts.IndexStride)
+	}
 
 	w = &writer{opts: opts, f: f, schemas: schemas}
 
@@ -207,7 +210,6 @@ var Magic = "ORC"
 
 func (w *writer) writeFileTail() error {
 	// Encode footer
-	// todo: rows in stride
 	ft := &pb.Footer{HeaderLength: &HeaderLength, ContentLength: new(uint64), NumberOfRows: new(uint64)}
 
 	for _, si := range w.stripe.infos {
@@ -217,6 +219,10 @@ func (w *writer) writeFileTail() error {
 	ft.Stripes = w.stripe.infos
 	ft.Types = api.SchemasToTypes(w.schemas)
 	ft.Statistics = w.columnStats
+	if w.opts.WriteIndex {
+		stride := uint32(w.opts.IndexStride)
+		ft.RowIndexStride = &stride
+	}
 
 	// metadata
 
-- 
2.43.0


From 5da3e21f18191a6a8e42c3218fb5734514c827bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:48 +0000
Subject: [PATCH 42/54] fix: stripe readers share encodings, fail on legal
 stream layouts, keep stale values and seek to wrong rows

---
 orc/column/struct.go |  18 ++-
 orc/stripe.go        | 278 ++++++++++++++++++++++++++++++++++---------
 2 files changed, 230 insertions(+), 66 deletions(-)

diff --git a/orc/column/struct.go b/orc/column/struct.go
index e2d8fae..fc43003 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -35,10 +35,6 @@ func (r *StructReader) InitStream(info *pb.Stream, startOffset uint64) error {
 	}
 
 	if info.GetKind() == pb.Stream_PRESENT {
-		if !r.schema.HasNulls {
-			f.Close()
-			return errors.New("should no present")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 		return nil
 	}
@@ -117,14 +113,18 @@ func (r *StructReader) Skip(rows uint64) error {
 
 func (r *StructReader) NextBatch(vec *api.ColumnVector) error {
 	if r.present != nil {
-		for i := 0; i < len(vec.Vector); i++ {
+		rows := vec.Vector
+		if !r.schema.HasNulls { // no vector, nulls are in fields only
+			rows = make([]api.Value, vec.Len())
+		}
+		for i := 0; i < len(rows); i++ {
 			p, err := r.present.Next()
 			if err != nil {
 				return err
 			}
-			vec.Vector[i].Null = !p
+			rows[i].Null = !p
 		}
-		fillNulls(vec)
+		fillChildrenNulls(rows, vec.Children)
 	}
 
 	for i, c := range r.children {
@@ -136,10 +136,6 @@ func (r *StructReader) NextBatch(vec *api.ColumnVector) error {
 }
 
 // rows of a null struct are null in all fields, a field that is a struct may have no vector
-func fillNulls(vec *api.ColumnVector) {
-	fillChildrenNulls(vec.Vector, vec.Children)
-}
-
 func fillChildrenNulls(rows []api.Value, children []*api.ColumnVector) {
 	for _, c := range children {
 		for i, v := range rows {
diff --git a/orc/stripe.go b/orc/stripe.go
index 4ddeead..5fda9e2 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -207,22 +207,25 @@ func newStripeWriter(out io.Writer, offset uint64, schemas []*api.TypeDescriptio
 }
 
 type stripeReader struct {
-	f    orcio.File
+	f     orcio.File
 	ropts *config.ReaderOptions
 	bopt  *api.BatchOption
 
-	schemas       []*api.TypeDescription
+	schemas      []*api.TypeDescription
 	columnReader column.Reader
 
 	index int
 
+	// all columns have an index
+	indexed bool
+
 	numberOfRows uint64
 	cursor       uint64
 }
 
 func newStripeReader(f orcio.File, schemas []*api.TypeDescription, ropts *config.ReaderOptions, bopt *api.BatchOption,
 	idx int, info *pb.StripeInformation) (*stripeReader, error) {
-	reader := &stripeReader{f: f, schemas: schemas, ropts: ropts, bopt:bopt, index: idx, numberOfRows: info.GetNumberOfRows()}
+	reader := &stripeReader{f: f, schemas: schemas, ropts: ropts, bopt: bopt, index: idx, numberOfRows: info.GetNumberOfRows()}
 	footer, err := reader.readFooter(info)
 	if err != nil {
 		return nil, err
@@ -257,72 +260,149 @@ func (stripe *stripeReader) readFooter(info *pb.StripeInformation) (*pb.StripeFo
 	return footer, nil
 }
 
+// openedFiles remembers cloned files
+type openedFiles struct {
+	orcio.File
+	files []orcio.File
+}
+
+func (o *openedFiles) Clone() (orcio.File, error) {
+	f, err := o.File.Clone()
+	if err == nil {
+		o.files = append(o.files, f)
+	}
+	return f, err
+}
+
 // stripe {index{},column{[present],data,[length]},footer}
 func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFooter) error {
+	opened := &openedFiles{File: stripe.f}
+	if err := stripe.initColumns(opened, info, footer); err != nil {
+		for _, f := range opened.files {
+			f.Close()
+		}
+		return err
+	}
+	return nil
+}
+
+func (stripe *stripeReader) initColumns(f orcio.File, info *pb.StripeInformation, footer *pb.StripeFooter) error {
 	// make sure len(columns)==len(all schemas)
 	readers := make([]column.Reader, len(stripe.schemas))
-	for _, schema := range stripe.schemas {
-		if stripe.bopt.IsInclude(schema.Id) {
-			schema.Encoding = footer.GetColumns()[schema.Id].GetKind()
-			r, err := column.NewReader(schema, stripe.ropts, stripe.f)
-			if err != nil {
-				return err
-			}
-			readers[schema.Id] = r
-			if stripe.columnReader==nil {
-				stripe.columnReader= r
-			}
+	kinds := make([][]pb.Stream_Kind, len(stripe.schemas))
+	for id, s := range stripe.schemas {
+		if !stripe.bopt.IsInclude(s.Id) {
+			continue
+		}
+		if id >= len(footer.GetColumns()) {
+			return errors.Errorf("stripe %d has no encoding for column %d", stripe.index, id)
+		}
+		// encodings are of this stripe
+		schema := *s
+		schema.Encoding = footer.GetColumns()[id].GetKind()
+		r, err := column.NewReader(&schema, stripe.ropts, f)
+		if err != nil {
+			return err
+		}
+		readers[id] = r
+		kinds[id] = streamKinds(&schema)
+		if stripe.columnReader == nil {
+			stripe.columnReader = r
 		}
 	}
 
 	// streams has sequence
 	indexStart := info.GetOffset()
 	dataStart := indexStart + info.GetIndexLength()
+	indexes := make([]bool, len(stripe.schemas))
+	presents := make([]bool, len(stripe.schemas))
 	for _, streamInfo := range footer.GetStreams() {
 		id := streamInfo.GetColumn()
-		streamKind := streamInfo.GetKind()
+		kind := streamInfo.GetKind()
 		length := streamInfo.GetLength()
+		included := id < uint32(len(readers)) && readers[id] != nil
 
-		if streamKind == pb.Stream_ROW_INDEX {
-			if readers[id] != nil {
+		if isIndex(kind) {
+			if length > info.GetOffset()+info.GetIndexLength()-indexStart {
+				return errors.Errorf("stripe %d, index streams are longer than %d", stripe.index, info.GetIndexLength())
+			}
+			if included && kind == pb.Stream_ROW_INDEX {
 				if err := readers[id].InitIndex(indexStart, length); err != nil {
 					return err
 				}
+				indexes[id] = true
 			}
 			indexStart += length
 			continue
 		}
 
-		if readers[id] != nil {
+		if length > info.GetOffset()+info.GetIndexLength()+info.GetDataLength()-dataStart {
+			return errors.Errorf("stripe %d, data streams are longer than %d", stripe.index, info.GetDataLength())
+		}
+		if included && (kind == pb.Stream_PRESENT || containsKind(kinds[id], kind)) {
 			if err := readers[id].InitStream(streamInfo, dataStart); err != nil {
 				return err
 			}
+			if kind == pb.Stream_PRESENT {
+				presents[id] = true
+			} else {
+				kinds[id] = removeKind(kinds[id], kind)
+			}
 		}
 		dataStart += length
 	}
 
+	// streams without any value may be omitted
+	stripe.indexed = true
+	for id, r := range readers {
+		if r == nil {
+			continue
+		}
+		for _, kind := range kinds[id] {
+			k, c := kind, uint32(id)
+			if err := r.InitStream(&pb.Stream{Kind: &k, Column: &c, Length: new(uint64)}, info.GetOffset()); err != nil {
+				return err
+			}
+		}
+		// struct without present has no positions
+		if !indexes[id] && (stripe.schemas[id].Kind != pb.Type_STRUCT || presents[id]) {
+			stripe.indexed = false
+		}
+	}
+
 	// build tree
-	for _, schema := range stripe.schemas {
+	for id, schema := range stripe.schemas {
+		if readers[id] == nil {
+			continue
+		}
 		for i, c := range schema.Children {
-			if stripe.bopt.IsInclude(c.Id) { // todo: verify includes map's key and value
-				switch schema.Kind {
-				case pb.Type_STRUCT:
-					readers[schema.Id].(*column.StructReader).AddChild(readers[c.Id])
-				case pb.Type_LIST:
-					readers[schema.Id].(*column.ListV2Reader).SetChild(readers[c.Id])
-				case pb.Type_MAP:
-					if i == 0 {
-						readers[schema.Id].(*column.MapV2Reader).SetKey(readers[c.Id])
-					} else if i == 1 {
-						readers[schema.Id].(*column.MapV2Reader).SetValue(readers[c.Id])
-					} else {
-						return errors.New("map children > 2")
-					}
-				case pb.Type_UNION:
-					return errors.New("not impl")
-				default:
-					return errors.New("should have no child")
+			if readers[c.Id] == nil {
+				if schema.Kind != pb.Type_STRUCT {
+					return errors.Errorf("column %d needs column %d", schema.Id, c.Id)
 				}
+				continue
+			}
+			switch schema.Kind {
+			case pb.Type_STRUCT:
+				// null struct has no values in columns below, row of a value in it would be another one
+				if presents[id] && hasPresent(c, presents) {
+					return errors.Errorf("column %d with nulls has a column with nulls, not impl", schema.Id)
+				}
+				readers[schema.Id].(*column.StructReader).AddChild(readers[c.Id])
+			case pb.Type_LIST:
+				readers[schema.Id].(*column.ListV2Reader).SetChild(readers[c.Id])
+			case pb.Type_MAP:
+				if i == 0 {
+					readers[schema.Id].(*column.MapV2Reader).SetKey(readers[c.Id])
+				} else if i == 1 {
+					readers[schema.Id].(*column.MapV2Reader).SetValue(readers[c.Id])
+				} else {
+					return errors.New("map children > 2")
+				}
+			case pb.Type_UNION:
+				return errors.New("not impl")
+			default:
+				return errors.New("should have no child")
 			}
 		}
 	}
@@ -330,45 +410,136 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 	return nil
 }
 
+func hasPresent(schema *api.TypeDescription, presents []bool) bool {
+	if presents[schema.Id] {
+		return true
+	}
+	if schema.Kind == pb.Type_STRUCT {
+		for _, c := range schema.Children {
+			if hasPresent(c, presents) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
+// streams of index area of a stripe
+func isIndex(kind pb.Stream_Kind) bool {
+	return kind == pb.Stream_ROW_INDEX || kind == pb.Stream_BLOOM_FILTER || kind == pb.Stream_BLOOM_FILTER_UTF8
+}
+
+// streams a column reader reads, other than present
+func streamKinds(schema *api.TypeDescription) []pb.Stream_Kind {
+	switch schema.Kind {
+	case pb.Type_STRUCT:
+		return nil
+	case pb.Type_LIST, pb.Type_MAP:
+		return []pb.Stream_Kind{pb.Stream_LENGTH}
+	case pb.Type_DECIMAL, pb.Type_TIMESTAMP:
+		return []pb.Stream_Kind{pb.Stream_DATA, pb.Stream_SECONDARY}
+	case pb.Type_BINARY:
+		return []pb.Stream_Kind{pb.Stream_DATA, pb.Stream_LENGTH}
+	case pb.Type_STRING, pb.Type_CHAR, pb.Type_VARCHAR:
+		if schema.Encoding == pb.ColumnEncoding_DICTIONARY_V2 {
+			return []pb.Stream_Kind{pb.Stream_DATA, pb.Stream_DICTIONARY_DATA, pb.Stream_LENGTH}
+		}
+		return []pb.Stream_Kind{pb.Stream_DATA, pb.Stream_LENGTH}
+	default:
+		return []pb.Stream_Kind{pb.Stream_DATA}
+	}
+}
+
+func containsKind(kinds []pb.Stream_Kind, kind pb.Stream_Kind) bool {
+	for _, k := range kinds {
+		if k == kind {
+			return true
+		}
+	}
+	return false
+}
+
+func removeKind(kinds []pb.Stream_Kind, kind pb.Stream_Kind) (left []pb.Stream_Kind) {
+	for _, k := range kinds {
+		if k != kind {
+			left = append(left, k)
+		}
+	}
+	return
+}
+
 // a stripe is typically  ~200MB
 func (stripe *stripeReader) next(vec *api.ColumnVector) (end bool, err error) {
-	stripe.prepareVector(vec)
+	page := stripe.prepareVector(vec)
 
 	if err = stripe.columnReader.NextBatch(vec); err != nil {
 		return
 	}
 
-	stripe.cursor += uint64(vec.Len())
+	stripe.cursor += uint64(page)
 	logger.Debugf("stripe %d reading cursor %d", stripe.index, stripe.cursor)
-	end = stripe.cursor+1 >= stripe.numberOfRows
+	end = stripe.cursor >= stripe.numberOfRows
 	return
 }
 
-func (stripe *stripeReader) prepareVector(vec *api.ColumnVector) {
-	page := vec.Cap() - vec.Len()
-	if int(stripe.numberOfRows-stripe.cursor) < page {
+func (stripe *stripeReader) prepareVector(vec *api.ColumnVector) int {
+	page := stripe.capacity(vec)
+	if stripe.numberOfRows-stripe.cursor < uint64(page) {
 		page = int(stripe.numberOfRows - stripe.cursor)
 	}
 	stripe.setVectorSize(page, vec)
+	return page
+}
+
+// capacity is the count of rows that fit into all vectors
+func (stripe *stripeReader) capacity(vec *api.ColumnVector) int {
+	if vec.Kind != pb.Type_STRUCT {
+		return cap(vec.Vector)
+	}
+	var capacities []int
+	if stripe.schemas[vec.Id].HasNulls {
+		capacities = append(capacities, cap(vec.Vector))
+	}
+	for _, c := range vec.Children {
+		capacities = append(capacities, stripe.capacity(c))
+	}
+	min := 0
+	for i, n := range capacities {
+		if i == 0 || n < min {
+			min = n
+		}
+	}
+	return min
+}
+
+// values of rows read before are cleared
+func resize(values []api.Value, size int) []api.Value {
+	values = values[:size]
+	for i := range values {
+		values[i] = api.Value{}
+	}
+	return values
 }
 
 func (stripe *stripeReader) setVectorSize(size int, vec *api.ColumnVector) {
 	switch vec.Kind {
 	case pb.Type_STRUCT:
 		if stripe.schemas[vec.Id].HasNulls {
-			vec.Vector = vec.Vector[:size]
+			vec.Vector = resize(vec.Vector, size)
+		} else {
+			vec.Vector = vec.Vector[:0]
 		}
 		for _, c := range vec.Children {
 			stripe.setVectorSize(size, c)
 		}
 
 	case pb.Type_LIST:
-		vec.Vector = vec.Vector[:size]
+		vec.Vector = resize(vec.Vector, size)
 		// list's children maybe struct
 		vec.Children[0].Vector = vec.Children[0].Vector[:0]
 
 	case pb.Type_MAP:
-		vec.Vector = vec.Vector[:size]
+		vec.Vector = resize(vec.Vector, size)
 		// toClarify: will map's children be struct or just primary?
 		vec.Children[0].Vector = vec.Children[0].Vector[:0]
 		vec.Children[1].Vector = vec.Children[1].Vector[:0]
@@ -376,20 +547,16 @@ func (stripe *stripeReader) setVectorSize(size int, vec *api.ColumnVector) {
 	case pb.Type_UNION:
 		panic("not impl")
 	default:
-		vec.Vector = vec.Vector[:size]
+		vec.Vector = resize(vec.Vector, size)
 	}
 }
 
 // locate rows in this stripe
 func (stripe *stripeReader) Seek(rowNumber uint64) error {
-	var offset uint64
-	var stride uint64
-
-	if rowNumber < uint64(stripe.ropts.IndexStride) {
-		offset = rowNumber
-	} else {
-		stride := rowNumber / uint64(stripe.ropts.IndexStride)
-		offset = rowNumber % (stride * uint64(stripe.ropts.IndexStride))
+	stride, offset := uint64(0), rowNumber
+	if stripe.indexed && stripe.ropts.IndexStride > 0 {
+		stride = rowNumber / uint64(stripe.ropts.IndexStride)
+		offset = rowNumber % uint64(stripe.ropts.IndexStride)
 	}
 
 	if err := stripe.columnReader.SeekStride(int(stride)); err != nil {
@@ -399,6 +566,7 @@ func (stripe *stripeReader) Seek(rowNumber uint64) error {
 	if err := stripe.columnReader.Skip(offset); err != nil {
 		return err
 	}
+	stripe.cursor = rowNumber
 	return nil
 }
 
-- 
2.43.0


From b1a487f3d8f1a47503d3edc9521fee1582a4fa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:43 +0000
Subject: [PATCH 43/54] fix: incomplete files are opened, batch readers lose
 rows at the end, seek to wrong rows and share a handle

---
 orc/reader.go | 273 +++++++++++++++++++++++++++++++++++++++++++-------
 orc/stripe.go |   5 +
 2 files changed, 241 insertions(+), 37 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index 3671ade..08d31c0 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -3,7 +3,6 @@ package orc
 import (
 	"bytes"
 	"compress/flate"
-	"fmt"
 	"io"
 	"os"
 
@@ -19,6 +18,9 @@ import (
 const (
 	MAGIC_LENGTH         = uint64(3)
 	DIRECTORY_SIZE_GUESS = 16 * 1024
+
+	// chunk lengths have 23 bits
+	maxChunkSize = 1<<23 - 1
 )
 
 func NewOSFileReader(path string) (Reader, error) {
@@ -26,7 +28,12 @@ func NewOSFileReader(path string) (Reader, error) {
 	if err != nil {
 		return nil, err
 	}
-	return newReader(f)
+	r, err := newReader(f)
+	if err != nil {
+		f.Close()
+		return nil, err
+	}
+	return r, nil
 }
 
 type reader struct {
@@ -34,6 +41,7 @@ type reader struct {
 	schemas []*api.TypeDescription
 
 	f            orcio.File
+	closed       bool
 	numberOfRows uint64
 
 	stats   []*pb.ColumnStatistics
@@ -59,33 +67,84 @@ func newReader(f orcio.File) (r *reader, err error) {
 	opts.CompressionKind = tail.Postscript.GetCompression()
 	if opts.CompressionKind != pb.CompressionKind_NONE { // compression_none no block size
 		opts.ChunkSize = tail.Postscript.GetCompressionBlockSize()
-	} else {
+		if opts.ChunkSize > maxChunkSize {
+			opts.ChunkSize = maxChunkSize
+		}
+	}
+	if opts.ChunkSize == 0 {
 		opts.ChunkSize = config.DefaultChunkSize
 	}
 
 	stats := tail.Footer.GetStatistics()
 	stripes := tail.Footer.GetStripes()
 
-	// todo: check opts chunksize !=0
-
 	r = &reader{f: f, opts: opts, schemas: schemas, numberOfRows: rows, stats: stats, stripes: stripes}
 	return
 }
 
 func (r *reader) CreateBatchReader(bopt *api.BatchOption) (BatchReader, error) {
+	if r.closed {
+		return nil, errors.New("reader closed")
+	}
 	if bopt.RowSize == 0 {
 		return nil, errors.New("Batch option RowSize == 0")
 	}
+	// option belongs to caller
+	opt := *bopt
+	opt.Includes = append([]uint32{}, bopt.Includes...)
 
-	// todo: includes verification, make sure includes is a tree
-	br := &batchReader{f: r.f, numberOfRows: r.numberOfRows, ropts: r.opts, bopt: bopt, schemas: r.schemas}
+	top, err := checkIncludes(r.schemas, &opt)
+	if err != nil {
+		return nil, err
+	}
 
-	if err := br.initStripes(r.stripes); err != nil {
+	// own file, other batch readers seek theirs
+	f, err := r.f.Clone()
+	if err != nil {
+		return nil, err
+	}
+	br := &batchReader{f: f, numberOfRows: r.numberOfRows, ropts: r.opts, bopt: &opt, schemas: r.schemas, top: top}
+	err = br.initStripes(r.stripes)
+	// every stream has opened its own
+	if e := f.Close(); err == nil {
+		err = e
+	}
+	if err != nil {
+		br.Close()
 		return nil, err
 	}
 	return br, nil
 }
 
+// checkIncludes included columns should be one tree, rows of its top are rows of the file
+func checkIncludes(schemas []*api.TypeDescription, opt *api.BatchOption) (top *api.TypeDescription, err error) {
+	for _, id := range opt.Includes {
+		if id >= uint32(len(schemas)) {
+			return nil, errors.Errorf("included column %d does not exist", id)
+		}
+	}
+	parents := make([]*api.TypeDescription, len(schemas))
+	for _, s := range schemas {
+		for _, c := range s.Children {
+			parents[c.Id] = s
+		}
+		if !opt.IsInclude(s.Id) {
+			continue
+		}
+		if top == nil {
+			top = s
+		} else if p := parents[s.Id]; p == nil || !opt.IsInclude(p.Id) {
+			return nil, errors.Errorf("column %d is included without the column above", s.Id)
+		}
+	}
+	for p := parents[top.Id]; p != nil; p = parents[p.Id] {
+		if p.Kind != pb.Type_STRUCT || p.HasNulls {
+			return nil, errors.Errorf("column %d needs column %d", top.Id, p.Id)
+		}
+	}
+	return top, nil
+}
+
 func (r *reader) GetSchema() *api.TypeDescription {
 	return r.schemas[0]
 }
@@ -103,6 +162,10 @@ func (r reader) GetStatistics() []*pb.ColumnStatistics {
 }
 
 func (r *reader) Close() {
+	if r.closed {
+		return
+	}
+	r.closed = true
 	if err := r.f.Close(); err != nil {
 		logger.Warn(err)
 	}
@@ -113,13 +176,20 @@ type batchReader struct {
 	bopt    *api.BatchOption
 	schemas []*api.TypeDescription
 
+	// top of included columns
+	top *api.TypeDescription
+
 	stripeIndex int
 	stripes     []*stripeReader
 
-	f orcio.File
+	f      orcio.File
+	closed bool
 
 	numberOfRows uint64
 	cursor       uint64
+
+	// position is unknown after an error
+	err error
 }
 
 func (br *batchReader) initStripes(infos []*pb.StripeInformation) error {
@@ -161,50 +231,109 @@ func (br *batchReader) initStripes(infos []*pb.StripeInformation) error {
 }*/
 
 func (br *batchReader) Close() {
+	if br.closed {
+		return
+	}
+	br.closed = true
 	for _, s := range br.stripes {
 		s.Close()
 	}
 }
 
 func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
+	if br.closed {
+		return false, errors.New("batch reader closed")
+	}
+	if err = br.checkVector(br.top, batch); err != nil {
+		return false, err
+	}
 	batch.Clear()
+	if br.err != nil {
+		return false, br.err
+	}
 
-	if br.cursor >= br.numberOfRows-1 {
+	if br.cursor >= br.numberOfRows {
 		return true, nil
 	}
 
-	for br.stripeIndex < len(br.stripes) {
-		stripeEnd, err := br.stripes[br.stripeIndex].next(batch)
-		if err != nil {
-			return stripeEnd, err
+	stripe := br.stripes[br.stripeIndex]
+	if stripe.capacity(batch) == 0 {
+		return false, errors.New("vector has no capacity")
+	}
+	from := stripe.cursor
+	stripeEnd, err := stripe.next(batch)
+	if err != nil {
+		batch.Clear()
+		br.err = err
+		return false, err
+	}
+	br.cursor += stripe.cursor - from
+	if stripeEnd && br.stripeIndex+1 < len(br.stripes) {
+		if err = br.enterStripe(br.stripeIndex+1, 0); err != nil {
+			batch.Clear()
+			br.err = err
+			return false, err
+		}
+	}
+	return br.cursor >= br.numberOfRows, nil
+}
+
+// checkVector vectors should be the ones of included columns
+func (br *batchReader) checkVector(schema *api.TypeDescription, vec *api.ColumnVector) error {
+	if vec == nil || vec.Id != schema.Id || vec.Kind != schema.Kind {
+		return errors.Errorf("vector is not of column %d %s", schema.Id, schema.Kind.String())
+	}
+	n := 0
+	for _, c := range schema.Children {
+		if !br.bopt.IsInclude(c.Id) {
+			continue
 		}
-		if stripeEnd {
-			br.stripeIndex++
-			break
+		if n >= len(vec.Children) {
+			return errors.Errorf("vector of column %d has no vector of column %d", schema.Id, c.Id)
 		}
-		if batch.Len() >= batch.Cap() {
-			break
+		if err := br.checkVector(c, vec.Children[n]); err != nil {
+			return err
 		}
+		n++
 	}
-	if br.stripeIndex == len(br.stripes) {
-		br.stripeIndex--
+	if n != len(vec.Children) {
+		return errors.Errorf("vector of column %d has vectors of columns not included", schema.Id)
 	}
-	br.cursor += uint64(batch.Len())
-	return br.cursor >= br.numberOfRows-1, nil
+	return nil
+}
+
+// a stripe that has been read before starts over
+func (br *batchReader) enterStripe(index int, row uint64) error {
+	stripe := br.stripes[index]
+	if row != 0 || stripe.used {
+		if err := stripe.Seek(row); err != nil {
+			return err
+		}
+	}
+	br.stripeIndex = index
+	return nil
 }
 
 func (br *batchReader) Seek(rowNumber uint64) error {
-	if rowNumber > br.numberOfRows {
-		return errors.New("row number larger than number of rows")
+	if br.closed {
+		return errors.New("batch reader closed")
+	}
+	if rowNumber >= br.numberOfRows {
+		return errors.Errorf("row number %d is not below number of rows %d", rowNumber, br.numberOfRows)
 	}
 	var rows uint64
-	for i := 0; i < len(br.stripes); i++ {
-		if rows+br.stripes[i].numberOfRows > rowNumber {
-			return br.stripes[i].Seek(rowNumber - rows)
+	for i, s := range br.stripes {
+		if rows+s.numberOfRows > rowNumber {
+			if err := br.enterStripe(i, rowNumber-rows); err != nil {
+				br.err = err
+				return err
+			}
+			br.cursor = rowNumber
+			br.err = nil
+			return nil
 		}
-		rows += br.stripes[i].numberOfRows
+		rows += s.numberOfRows
 	}
-	br.cursor = rowNumber
 	return errors.New("no row found")
 }
 
@@ -256,15 +385,24 @@ func extractFileTail(f orcio.File) (tail *pb.FileTail, err error) {
 
 	if size == 0 {
 		// Hive often creates empty files (including ORC) and has an
-		// optimization to create a 0 byte file as an empty ORC file.
-		// todo: empty tail, log
-		fmt.Printf("file size 0")
-		return
+		// optimization to create a 0 byte file as an empty ORC file. It has no schema.
+		return nil, errors.New("file size 0, not a valid orc file")
 	}
 	if size <= int64(len(Magic)) {
 		return nil, errors.New("not a valid orc file")
 	}
 
+	head := make([]byte, len(Magic))
+	if _, err := f.Seek(0, io.SeekStart); err != nil {
+		return nil, errors.WithStack(err)
+	}
+	if _, err := io.ReadFull(f, head); err != nil {
+		return nil, errors.WithStack(err)
+	}
+	if string(head) != Magic {
+		return nil, errors.New("not a valid orc file, no magic")
+	}
+
 	// read last bytes into buffer to get PostScript
 	// refactor: buffer 16k length or capacity
 	readSize := Min(size, DIRECTORY_SIZE_GUESS)
@@ -279,10 +417,17 @@ func extractFileTail(f orcio.File) (tail *pb.FileTail, err error) {
 	// read postScript
 	psLen := int64(buf[readSize-1])
 	psOffset := readSize - 1 - psLen
+	if psOffset < 0 {
+		return nil, errors.Errorf("not a valid orc file, postscript length %d", psLen)
+	}
 	ps, err := extractPostScript(buf[psOffset : psOffset+psLen])
 	if err != nil {
 		return nil, err
 	}
+	if ps.GetFooterLength() > uint64(size) || ps.GetMetadataLength() > uint64(size) ||
+		int64(ps.GetFooterLength()+ps.GetMetadataLength())+psLen+1+int64(len(Magic)) > size {
+		return nil, errors.Errorf("not a valid orc file, footer length %d, metadata length %d", ps.GetFooterLength(), ps.GetMetadataLength())
+	}
 	footerSize := int64(ps.GetFooterLength()) // compressed footer length
 	metaSize := int64(ps.GetMetadataLength())
 
@@ -298,15 +443,15 @@ func extractFileTail(f orcio.File) (tail *pb.FileTail, err error) {
 			return nil, errors.WithStack(err)
 		}
 		// refactor: array allocated
-		buf = append(buf, ebuf...)
+		buf = append(ebuf, buf...)
+		psOffset += extra
 	}
 
 	// read file footer
 	footerStart := psOffset - footerSize
 	footerBuf := buf[footerStart : footerStart+footerSize]
 	if ps.GetCompression() != pb.CompressionKind_NONE {
-		fb := bytes.NewBuffer(make([]byte, ps.GetCompressionBlockSize()))
-		fb.Reset()
+		fb := &bytes.Buffer{}
 		if err := common.DecompressChunks(ps.GetCompression(), fb, bytes.NewBuffer(footerBuf)); err != nil {
 			return nil, errors.WithStack(err)
 		}
@@ -316,6 +461,9 @@ func extractFileTail(f orcio.File) (tail *pb.FileTail, err error) {
 	if err = proto.Unmarshal(footerBuf, footer); err != nil {
 		return nil, errors.Wrapf(err, "unmarshal footer error")
 	}
+	if err = checkFooter(footer, uint64(size-psLen-1-footerSize-metaSize)); err != nil {
+		return nil, err
+	}
 
 	logger.Debugf("read file footer:\n")
 	logger.Debugf("header length: %d\n", footer.GetHeaderLength())
@@ -339,6 +487,54 @@ func extractFileTail(f orcio.File) (tail *pb.FileTail, err error) {
 	return ft, nil
 }
 
+// checkFooter checks that footer belongs to this file, stripes should be before content end
+func checkFooter(footer *pb.Footer, end uint64) error {
+	// content may or may not include header
+	if l := footer.GetContentLength(); footer.ContentLength != nil && l != end && l+uint64(len(Magic)) != end {
+		return errors.Errorf("content length %d is not the length of the file, content ends at %d", l, end)
+	}
+
+	var rows uint64
+	start := uint64(len(Magic))
+	for i, s := range footer.GetStripes() {
+		for _, l := range []uint64{s.GetOffset(), s.GetIndexLength(), s.GetDataLength(), s.GetFooterLength()} {
+			if l > end {
+				return errors.Errorf("stripe %d is not in the file, %s", i, s.String())
+			}
+		}
+		if s.GetOffset() < start {
+			return errors.Errorf("stripe %d overlaps, %s", i, s.String())
+		}
+		start = s.GetOffset() + s.GetIndexLength() + s.GetDataLength() + s.GetFooterLength()
+		if start > end {
+			return errors.Errorf("stripe %d is not in the file, %s", i, s.String())
+		}
+		rows += s.GetNumberOfRows()
+	}
+	if rows != footer.GetNumberOfRows() {
+		return errors.Errorf("stripes have %d rows, file has %d", rows, footer.GetNumberOfRows())
+	}
+
+	types := footer.GetTypes()
+	if len(types) == 0 {
+		return errors.New("no types")
+	}
+	if len(footer.GetStatistics()) > len(types) {
+		return errors.Errorf("%d statistics of %d types", len(footer.GetStatistics()), len(types))
+	}
+	for i, t := range types {
+		if t.GetKind() == pb.Type_STRUCT && len(t.GetFieldNames()) < len(t.GetSubtypes()) {
+			return errors.Errorf("type %d has fields without names", i)
+		}
+		for _, sub := range t.GetSubtypes() {
+			if sub <= uint32(i) || sub >= uint32(len(types)) {
+				return errors.Errorf("type %d has no subtype %d", i, sub)
+			}
+		}
+	}
+	return nil
+}
+
 func extractPostScript(buf []byte) (ps *pb.PostScript, err error) {
 	ps = &pb.PostScript{}
 	if err = proto.Unmarshal(buf, ps); err != nil {
@@ -355,6 +551,9 @@ func extractPostScript(buf []byte) (ps *pb.PostScript, err error) {
 
 func checkOrcVersion(ps *pb.PostScript) error {
 	// todo：
+	if ps.GetMagic() != Magic {
+		return errors.New("not a valid orc file, no magic in postscript")
+	}
 	return nil
 }
 
diff --git a/orc/stripe.go b/orc/stripe.go
index 5fda9e2..d85df4a 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -221,6 +221,8 @@ type stripeReader struct {
 
 	numberOfRows uint64
 	cursor       uint64
+	// not at the start
+	used bool
 }
 
 func newStripeReader(f orcio.File, schemas []*api.TypeDescription, ropts *config.ReaderOptions, bopt *api.BatchOption,
@@ -470,6 +472,7 @@ func removeKind(kinds []pb.Stream_Kind, kind pb.Stream_Kind) (left []pb.Stream_K
 
 // a stripe is typically  ~200MB
 func (stripe *stripeReader) next(vec *api.ColumnVector) (end bool, err error) {
+	stripe.used = true
 	page := stripe.prepareVector(vec)
 
 	if err = stripe.columnReader.NextBatch(vec); err != nil {
@@ -559,6 +562,7 @@ func (stripe *stripeReader) Seek(rowNumber uint64) error {
 		offset = rowNumber % uint64(stripe.ropts.IndexStride)
 	}
 
+	stripe.used = true
 	if err := stripe.columnReader.SeekStride(int(stride)); err != nil {
 		return err
 	}
@@ -567,6 +571,7 @@ func (stripe *stripeReader) Seek(rowNumber uint64) error {
 		return err
 	}
 	stripe.cursor = rowNumber
+	stripe.used = rowNumber != 0
 	return nil
 }
 
-- 
2.43.0


From b9827554b505ad59bd764bdcc7076ec3640e3c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:53 +0000
Subject: [PATCH 44/54] fix: dictionary size is not written in stripe footers

---
 orc/column/package.go | 3 +++
 orc/column/string.go  | 7 +++++++
 orc/column/writer.go  | 4 ++++
 orc/stripe.go         | 4 ++--
 4 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/orc/column/package.go b/orc/column/package.go
index 2993209..014a228 100644
--- a/orc/column/package.go
+++ b/orc/column/package.go
@@ -56,6 +56,9 @@ type Writer interface {
 	// GetStreamInfos get no-non streams, used for writing stripe footer after flush
 	GetStreamInfos() []*pb.Stream
 
+	// GetEncoding used for writing stripe footer, after flush
+	GetEncoding() *pb.ColumnEncoding
+
 	// data will be updated after flush
 	GetStats() *pb.ColumnStatistics
 
diff --git a/orc/column/string.go b/orc/column/string.go
index 16786c1..209d50b 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -615,6 +615,13 @@ func (w stringDictionaryV2Writer) GetStreamInfos() []*pb.Stream {
 	return []*pb.Stream{w.dataStream.Info(), w.dictStream.Info(), w.lengthStream.Info()}
 }
 
+func (w *stringDictionaryV2Writer) GetEncoding() *pb.ColumnEncoding {
+	encoding := w.writer.GetEncoding()
+	size := uint32(len(w.data))
+	encoding.DictionarySize = &size
+	return encoding
+}
+
 func (w *stringDictionaryV2Writer) Reset() {
 	w.reset()
 	w.dataStream.Reset()
diff --git a/orc/column/writer.go b/orc/column/writer.go
index c37fa67..c6f9f94 100644
--- a/orc/column/writer.go
+++ b/orc/column/writer.go
@@ -119,6 +119,10 @@ func (w *writer) GetIndex() *pb.RowIndex {
 	return index
 }
 
+func (w writer) GetEncoding() *pb.ColumnEncoding {
+	return &pb.ColumnEncoding{Kind: &w.schema.Encoding}
+}
+
 func (w writer) GetStats() *pb.ColumnStatistics {
 	return w.stats
 }
diff --git a/orc/stripe.go b/orc/stripe.go
index d85df4a..7b7a394 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -141,8 +141,8 @@ func (stripe *stripeWriter) writeFooter(indexLengths []uint64) error {
 		footer.Streams = append(footer.Streams, c.GetStreamInfos()...)
 	}
 
-	for _, schema := range stripe.schemas {
-		footer.Columns = append(footer.Columns, &pb.ColumnEncoding{Kind: &schema.Encoding})
+	for _, c := range stripe.columnWriters {
+		footer.Columns = append(footer.Columns, c.GetEncoding())
 	}
 
 	footerBuf, err := proto.Marshal(footer)
-- 
2.43.0


From e71805857f1ac0ac7694b68ef5ecde377209454b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:30 +0000
Subject: [PATCH 45/54] fix: a handle is closed twice when opening a stream of
 a stripe fails

---
 orc/stripe.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/orc/stripe.go b/orc/stripe.go
index 7b7a394..a733f7b 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -270,10 +270,26 @@ type openedFiles struct {
 
 func (o *openedFiles) Clone() (orcio.File, error) {
 	f, err := o.File.Clone()
-	if err == nil {
-		o.files = append(o.files, f)
+	if err != nil {
+		return nil, err
+	}
+	f = &openedFile{File: f}
+	o.files = append(o.files, f)
+	return f, nil
+}
+
+// openedFile is closed once
+type openedFile struct {
+	orcio.File
+	closed bool
+}
+
+func (o *openedFile) Close() error {
+	if o.closed {
+		return nil
 	}
-	return f, err
+	o.closed = true
+	return o.File.Close()
 }
 
 // stripe {index{},column{[present],data,[length]},footer}
-- 
2.43.0


From 0d88a1ecff3268d236e38f920e92fbbd0b5bbe01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:10 +0000
Subject: [PATCH 46/54] fix: structs with nulls in files whose statistics have
 no has_null

---
 orc/reader.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/orc/reader.go b/orc/reader.go
index 08d31c0..a37c26a 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -63,6 +63,7 @@ func newReader(f orcio.File) (r *reader, err error) {
 	for i, stat := range tail.Footer.Statistics {
 		schemas[i].HasNulls = stat.GetHasNull()
 	}
+	inferNulls(schemas, tail.Footer)
 
 	opts.CompressionKind = tail.Postscript.GetCompression()
 	if opts.CompressionKind != pb.CompressionKind_NONE { // compression_none no block size
@@ -145,6 +146,27 @@ func checkIncludes(schemas []*api.TypeDescription, opt *api.BatchOption) (top *a
 	return top, nil
 }
 
+// files of writers before has_null was added have counts of values only
+func inferNulls(schemas []*api.TypeDescription, footer *pb.Footer) {
+	stats := footer.GetStatistics()
+	fewer := func(id uint32, rows uint64) bool {
+		return int(id) < len(stats) && stats[id].HasNull == nil && stats[id].NumberOfValues != nil && stats[id].GetNumberOfValues() < rows
+	}
+	for id, s := range schemas {
+		if id == 0 && fewer(0, footer.GetNumberOfRows()) {
+			s.HasNulls = true
+		}
+		if s.Kind != pb.Type_STRUCT || id >= len(stats) || stats[id].NumberOfValues == nil {
+			continue
+		}
+		for _, c := range s.Children {
+			if fewer(c.Id, stats[id].GetNumberOfValues()) {
+				c.HasNulls = true
+			}
+		}
+	}
+}
+
 func (r *reader) GetSchema() *api.TypeDescription {
 	return r.schemas[0]
 }
-- 
2.43.0


From 9e0d122c2d944357cf6194773872af7c224106e4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:34:49 +0000
Subject: [PATCH 47/54] fix: a value is not allocated by its length before its
 bytes are there

---
 orc/encoding/string.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/orc/encoding/string.go b/orc/encoding/string.go
index 7d70a6b..78bc200 100644
--- a/orc/encoding/string.go
+++ b/orc/encoding/string.go
@@ -35,9 +35,28 @@ func (e *stringContents) GetPosition() []uint64 {
 }
 
 func DecodeBytes(in io.Reader, length int) ([]byte, error) {
-	value := make([]byte, length)
-	if _, err := io.ReadFull(in, value); err != nil {
-		return nil, err
+	if length < 0 {
+		return nil, errors.Errorf("length %d of a value", length)
+	}
+	// length is read from the file, there may be less than it says
+	value := make([]byte, 0, minInt(length, maxAllocation))
+	for len(value) < length {
+		n := len(value)
+		part := minInt(length-n, maxAllocation)
+		value = append(value, make([]byte, part)...)
+		if _, err := io.ReadFull(in, value[n:]); err != nil {
+			return nil, err
+		}
 	}
 	return value, nil
 }
+
+// bytes allocated before it is known that there is as much to read
+const maxAllocation = 1 << 20
+
+func minInt(x, y int) int {
+	if x < y {
+		return x
+	}
+	return y
+}
-- 
2.43.0


From 685c18e5cc9c5b20f8072f0293146c802a20a431 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:35:11 +0000
Subject: [PATCH 48/54] fix: index entry with too few positions is an error

---
 orc/column/binary.go  |  2 +-
 orc/column/bool.go    |  2 +-
 orc/column/byte.go    |  2 +-
 orc/column/decimal.go |  2 +-
 orc/column/float.go   |  2 +-
 orc/column/int.go     |  2 +-
 orc/column/list.go    |  2 +-
 orc/column/map.go     |  2 +-
 orc/column/reader.go  | 14 +++++++++++++-
 orc/column/string.go  |  4 ++--
 orc/column/struct.go  |  2 +-
 orc/column/time.go    |  4 ++--
 12 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index 8a86777..e2cd220 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -214,7 +214,7 @@ func (r *BinaryV2Reader) SeekStride(stride int) error {
 	var dataChunk, dataChunkOffset uint64
 	var lengthChunk, lengthChunkOffset, lengthOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 2, 3)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/bool.go b/orc/column/bool.go
index 9f95240..b8cc0a6 100644
--- a/orc/column/bool.go
+++ b/orc/column/bool.go
@@ -185,7 +185,7 @@ func (r *BoolReader) SeekStride(stride int) error {
 
 	var dataChunk, dataChunkOffset, dataOffset1, dataOffset2 uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 1, 3)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/byte.go b/orc/column/byte.go
index 7420a7a..ed7a23c 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -184,7 +184,7 @@ func (r *ByteReader) SeekStride(stride int) error {
 
 	var dataChunk, dataChunkOffset, dataOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 1, 2)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index ffb771e..3fba0ed 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -232,7 +232,7 @@ func (r *DecimalV2Reader) SeekStride(stride int) error {
 	var dataChunk, dataChunkOffset uint64
 	var secondaryChunk, secondaryChunkOffset, secondaryOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 2, 3)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/float.go b/orc/column/float.go
index 6442e9b..4583155 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -108,7 +108,7 @@ func (r *FloatReader) SeekStride(stride int) error {
 
 	var dataChunk, dataChunkOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 1, 1)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/int.go b/orc/column/int.go
index bf2cc5e..a650276 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -227,7 +227,7 @@ func (r *IntV2Reader) SeekStride(stride int) error {
 
 	var dataChunk, dataChunkOffset, dataOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 1, 2)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/list.go b/orc/column/list.go
index 1a8faab..a74e438 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -126,7 +126,7 @@ func (r *ListV2Reader) SeekStride(stride int) error {
 
 	var lengthChunk, lengthChunkOffset, lengthOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 1, 2)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/map.go b/orc/column/map.go
index 3f249a2..a113129 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -141,7 +141,7 @@ func (r *MapV2Reader) SeekStride(stride int) error {
 
 	var lengthChunk, lengthChunkOffset, lengthOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 1, 2)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/reader.go b/orc/column/reader.go
index 1a6aa36..9f83c6c 100644
--- a/orc/column/reader.go
+++ b/orc/column/reader.go
@@ -75,7 +75,9 @@ func (r *reader) openStream(startOffset uint64) (orcio.File, error) {
 	return f, nil
 }
 
-func (r *reader) getStridePositions(stride int) (pos []uint64, err error) {
+// getStridePositions returns positions of present, if there is, and data streams. Positions in all data streams count
+// n if there is no compression, with compression every stream has one more
+func (r *reader) getStridePositions(stride int, present bool, streams int, n int) (pos []uint64, err error) {
 	if r.index == nil {
 		err = errors.New("no index")
 		return
@@ -88,6 +90,16 @@ func (r *reader) getStridePositions(stride int) (pos []uint64, err error) {
 		return nil, errors.Errorf("stride %d does not exist", stride)
 	}
 	pos = r.index.Entry[stride-1].Positions
+	if present {
+		streams++
+		n += 3
+	}
+	if r.opts.CompressionKind != pb.CompressionKind_NONE {
+		n += streams
+	}
+	if len(pos) < n {
+		return nil, errors.Errorf("index of column %d has %d positions, should be %d", r.schema.Id, len(pos), n)
+	}
 	return
 }
 
diff --git a/orc/column/string.go b/orc/column/string.go
index 209d50b..0604f37 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -219,7 +219,7 @@ func (r *StringDirectV2Reader) SeekStride(stride int) error {
 	var dataChunk, dataChunkOffset uint64
 	var lengthChunk, lengthChunkOffset, lengthOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 2, 3)
 	if err != nil {
 		return err
 	}
@@ -405,7 +405,7 @@ func (r *StringDictionaryV2Reader) SeekStride(stride int) error {
 	// need data index only
 	var dataChunk, dataChunkOffset, dataOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 1, 2)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/struct.go b/orc/column/struct.go
index fc43003..eb12fe8 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -60,7 +60,7 @@ func (r *StructReader) SeekStride(stride int) error {
 	if r.present != nil {
 		var pChunk, pChunkOffset, pOffset1, pOffset2 uint64
 
-		pos, err := r.getStridePositions(stride)
+		pos, err := r.getStridePositions(stride, true, 0, 0)
 		if err != nil {
 			return err
 		}
diff --git a/orc/column/time.go b/orc/column/time.go
index 347ec9b..c08f4b8 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -182,7 +182,7 @@ func (r *DateV2Reader) SeekStride(stride int) error {
 		return r.data.Seek(0, 0, 0)
 	}
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 1, 2)
 	if err != nil {
 		return err
 	}
@@ -446,7 +446,7 @@ func (r *TimestampV2Reader) SeekStride(stride int) error {
 	var dataChunk, dataChunkOffset, dataOffset uint64
 	var secondaryChunk, secondaryChunkOffset, secondaryOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 2, 4)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 00d6c832fa94590c013f0a8eb7dafb245ffde307 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:35:11 +0000
Subject: [PATCH 49/54] fix: seek beyond end of a chunk is an error

---
 orc/stream/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index 80718fb..858e7c3 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -111,6 +111,9 @@ func (r *reader) seek(chunk uint64, chunkOffset uint64) error {
 	if err := r.readAChunk(); err != nil {
 		return err
 	}
+	if chunkOffset > uint64(r.buf.Len()) {
+		return errors.Errorf("no offset %d in a chunk of %d bytes", chunkOffset, r.buf.Len())
+	}
 	r.buf.Next(int(chunkOffset))
 	return nil
 }
-- 
2.43.0


From 25975186b9ecd9857cde2c6204759ad8d1f451c0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:35:11 +0000
Subject: [PATCH 50/54] fix: opening a stream does not allocate the chunk size
 the file declares

---
 orc/stream/reader.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index 858e7c3..977ccb4 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -34,8 +34,7 @@ type reader struct {
 func newReader(opts *config.ReaderOptions, info *pb.Stream, start uint64, f orcio.File) *reader {
 	var cmpBuf *bytes.Buffer
 	if opts.CompressionKind != pb.CompressionKind_NONE {
-		cmpBuf = bytes.NewBuffer(make([]byte, opts.ChunkSize))
-		cmpBuf.Reset()
+		cmpBuf = &bytes.Buffer{} // grows to what chunks need, chunk size is read from the file
 	}
 	return &reader{opts: opts, info: info, start: start, f: f, buf: &bytes.Buffer{}, cmpBuf: cmpBuf}
 }
-- 
2.43.0


From 68fbee98f6a2faee8c903a1ceb2e6fc73dc5ad39 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:35:11 +0000
Subject: [PATCH 51/54] fix: types that are no tree and lists and maps without
 subtypes are errors

---
 orc/reader.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/orc/reader.go b/orc/reader.go
index a37c26a..6817f3a 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -544,14 +544,22 @@ func checkFooter(footer *pb.Footer, end uint64) error {
 	if len(footer.GetStatistics()) > len(types) {
 		return errors.Errorf("%d statistics of %d types", len(footer.GetStatistics()), len(types))
 	}
+	below := make([]bool, len(types)) // types are a tree
 	for i, t := range types {
 		if t.GetKind() == pb.Type_STRUCT && len(t.GetFieldNames()) < len(t.GetSubtypes()) {
 			return errors.Errorf("type %d has fields without names", i)
 		}
+		if t.GetKind() == pb.Type_LIST && len(t.GetSubtypes()) != 1 || t.GetKind() == pb.Type_MAP && len(t.GetSubtypes()) != 2 {
+			return errors.Errorf("type %d is %s of %d types", i, t.GetKind().String(), len(t.GetSubtypes()))
+		}
 		for _, sub := range t.GetSubtypes() {
 			if sub <= uint32(i) || sub >= uint32(len(types)) {
 				return errors.Errorf("type %d has no subtype %d", i, sub)
 			}
+			if below[sub] {
+				return errors.Errorf("type %d belongs to several types", sub)
+			}
+			below[sub] = true
 		}
 	}
 	return nil
-- 
2.43.0


From af1ff3b7187c56b11007c674afe4fb50b1a44a32 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:35:38 +0000
Subject: [PATCH 52/54] fix: chunk that decompresses to more than chunk size is
 an error

---
 orc/common/misc.go   | 8 ++++++--
 orc/stream/reader.go | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/orc/common/misc.go b/orc/common/misc.go
index dfd3789..38811cc 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -269,7 +269,8 @@ func DecompressChunks(kind pb.CompressionKind, dst *bytes.Buffer, src *bytes.Buf
 	return
 }
 
-func Decompress(kind pb.CompressionKind, dst *bytes.Buffer, src *bytes.Buffer) (n int64, err error) {
+// Decompress a chunk, it is an error if there are more than chunkSize bytes in it
+func Decompress(kind pb.CompressionKind, chunkSize uint64, dst *bytes.Buffer, src *bytes.Buffer) (n int64, err error) {
 	switch kind {
 
 	case pb.CompressionKind_ZLIB:
@@ -279,9 +280,12 @@ func Decompress(kind pb.CompressionKind, dst *bytes.Buffer, src *bytes.Buffer) (
 		}*/
 
 		r := flate.NewReader(src)
-		if n, err = dst.ReadFrom(r);err != nil {
+		if n, err = dst.ReadFrom(io.LimitReader(r, int64(chunkSize)+1)); err != nil {
 			return 0, errors.WithStack(err)
 		}
+		if uint64(n) > chunkSize {
+			return 0, errors.Errorf("chunk decompressed is larger than chunk size %d", chunkSize)
+		}
 
 		defer r.Close()
 		/*if err = r.Close(); err != nil {
diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index 977ccb4..164d06b 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -159,7 +159,7 @@ func (r *reader) readAChunk() error {
 		if _, err := io.CopyN(r.cmpBuf, r.f, int64(chunkLength)); err != nil {
 			return errors.WithStack(err)
 		}
-		if _, err := common.Decompress(r.opts.CompressionKind, r.buf, r.cmpBuf); err != nil {
+		if _, err := common.Decompress(r.opts.CompressionKind, r.opts.ChunkSize, r.buf, r.cmpBuf); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From ada44ff00a18c76e5da05a421427b77fb81a9b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:58 +0000
Subject: [PATCH 53/54] fix: Write refuses batches with missing vectors or
 values of other types

---
 orc/writer.go | 57 ++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 54 insertions(+), 3 deletions(-)

diff --git a/orc/writer.go b/orc/writer.go
index a9247fd..9b09f85 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -122,11 +122,13 @@ func (w *writer) Write(vec *api.ColumnVector) error {
 
 // CheckBatch checks whole batch, so that a wrong one will not be written in part
 func (w *writer) CheckBatch(batch *api.ColumnVector) error {
+	if err := w.checkVectors(w.schemas[0], batch); err != nil {
+		return err
+	}
 	return w.checkBatch(w.schemas[0], batch, batch.Len(), nil)
 }
 
-// nulls are rows of parent struct
-func (w *writer) checkBatch(schema *api.TypeDescription, vec *api.ColumnVector, rows int, nulls []api.Value) error {
+func (w *writer) checkVectors(schema *api.TypeDescription, vec *api.ColumnVector) error {
 	if vec == nil || vec.Id != schema.Id {
 		return errors.Errorf("no vector for schema %d %s", schema.Id, schema.Kind.String())
 	}
@@ -134,15 +136,31 @@ func (w *writer) checkBatch(schema *api.TypeDescription, vec *api.ColumnVector,
 		return errors.Errorf("schema %d %s has %d children, but batch has %d", schema.Id, schema.Kind.String(),
 			len(schema.Children), len(vec.Children))
 	}
+	for i, c := range schema.Children {
+		if err := w.checkVectors(c, vec.Children[i]); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// nulls are rows of parent struct
+func (w *writer) checkBatch(schema *api.TypeDescription, vec *api.ColumnVector, rows int, nulls []api.Value) error {
 	// struct without nulls does not need a vector
 	if (schema.Kind != pb.Type_STRUCT || schema.HasNulls || len(vec.Vector) > 0) && len(vec.Vector) != rows {
 		return errors.Errorf("schema %d %s should have %d rows, but batch has %d", schema.Id, schema.Kind.String(),
 			rows, len(vec.Vector))
 	}
 	for i, v := range vec.Vector {
-		if v.Null && !schema.HasNulls && !(nulls != nil && nulls[i].Null) {
+		if nulls != nil && nulls[i].Null {
+			continue
+		}
+		if v.Null && !schema.HasNulls {
 			return errors.Errorf("schema %d %s has no nulls, but batch has null", schema.Id, schema.Kind.String())
 		}
+		if !v.Null && !isValue(schema.Kind, v.V) {
+			return errors.Errorf("schema %d %s cannot have a value of %T", schema.Id, schema.Kind.String(), v.V)
+		}
 	}
 	if schema.HasNulls { // columns below have none
 		nulls = vec.Vector
@@ -155,6 +173,39 @@ func (w *writer) checkBatch(schema *api.TypeDescription, vec *api.ColumnVector,
 	return nil
 }
 
+// isValue says whether a column of this kind can be written from v
+func isValue(kind pb.Type_Kind, v interface{}) (ok bool) {
+	switch kind {
+	case pb.Type_BOOLEAN:
+		_, ok = v.(bool)
+	case pb.Type_BYTE:
+		_, ok = v.(byte)
+	case pb.Type_SHORT:
+		_, ok = v.(int16)
+	case pb.Type_INT:
+		_, ok = v.(int32)
+	case pb.Type_LONG:
+		_, ok = v.(int64)
+	case pb.Type_FLOAT:
+		_, ok = v.(float32)
+	case pb.Type_DOUBLE:
+		_, ok = v.(float64)
+	case pb.Type_STRING, pb.Type_CHAR, pb.Type_VARCHAR:
+		_, ok = v.(string)
+	case pb.Type_BINARY:
+		_, ok = v.([]byte)
+	case pb.Type_DECIMAL:
+		_, ok = v.(api.Decimal64)
+	case pb.Type_DATE:
+		_, ok = v.(api.Date)
+	case pb.Type_TIMESTAMP:
+		_, ok = v.(api.Timestamp)
+	default: // values of structs are not looked at
+		ok = true
+	}
+	return
+}
+
 func (w *writer) GetSchema() *api.TypeDescription {
 	return w.schemas[0]
 }
-- 
2.43.0


From 2ffcc9b31dbb1ea6c8c9cdf4a77ee5da3da3c7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:58 +0000
Subject: [PATCH 54/54] fix: refuse RowSize below 0

---
 orc/api/type.go | 4 ++--
 orc/reader.go   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/orc/api/type.go b/orc/api/type.go
index a3acc70..723a022 100755
--- a/orc/api/type.go
+++ b/orc/api/type.go
@@ -44,8 +44,8 @@ func (td *TypeDescription) AddChild(name string, value *TypeDescription) {
 }
 
 func (td TypeDescription) CreateVector(opt *BatchOption) (*ColumnVector, error) {
-	if opt.RowSize == 0 {
-		return nil, errors.New("RowSize == 0")
+	if opt.RowSize <= 0 {
+		return nil, errors.Errorf("RowSize %d is not above 0", opt.RowSize)
 	}
 	if err := td.verifySchema(); err != nil {
 		return nil, err
diff --git a/orc/reader.go b/orc/reader.go
index 6817f3a..c9c9fc8 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -87,8 +87,8 @@ func (r *reader) CreateBatchReader(bopt *api.BatchOption) (BatchReader, error) {
 	if r.closed {
 		return nil, errors.New("reader closed")
 	}
-	if bopt.RowSize == 0 {
-		return nil, errors.New("Batch option RowSize == 0")
+	if bopt.RowSize <= 0 {
+		return nil, errors.Errorf("Batch option RowSize %d is not above 0", bopt.RowSize)
 	}
 	// option belongs to caller
 	opt := *bopt
-- 
2.43.0

