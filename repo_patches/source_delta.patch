From 32fbf4f39a0c59f9ea2a8a1824b01d996b42f392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:03 +0000
Subject: [PATCH 01/88] fix: number and flatten schemas without package-level
 state

SetId and Flat kept their working state in package variables, so two
goroutines creating writers at the same time could get each other's columns.
---
 orc/api/type.go | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/orc/api/type.go b/orc/api/type.go
index 2c62436..758f00d 100755
--- a/orc/api/type.go
+++ b/orc/api/type.go
@@ -209,17 +209,13 @@ func CheckId(root *TypeDescription) error {
 	return nil
 }
 
-func addId(node *TypeDescription) error {
-	node.Id = _nodeId
-	_nodeId++
-	return nil
-}
-
-var _nodeId uint32
-
 func SetId(root *TypeDescription) error {
-	_nodeId = uint32(0)
-	return traverse(root, addId)
+	nodeId := uint32(0)
+	return traverse(root, func(node *TypeDescription) error {
+		node.Id = nodeId
+		nodeId++
+		return nil
+	})
 }
 
 func CheckNulls(root *TypeDescription) error {
@@ -249,25 +245,17 @@ func checkNoNull(node *TypeDescription) error {
 	return nil
 }
 
-var _schemas []*TypeDescription
-
 func (root *TypeDescription) Flat() (schemas []*TypeDescription, err error) {
 	if err = CheckId(root); err != nil {
 		return
 	}
-	_schemas = nil
-	if err = traverse(root, addSchema); err != nil {
-		return
-	}
-	schemas = _schemas
+	err = traverse(root, func(node *TypeDescription) error {
+		schemas = append(schemas, node)
+		return nil
+	})
 	return
 }
 
-func addSchema(node *TypeDescription) error {
-	_schemas = append(_schemas, node)
-	return nil
-}
-
 // pre-order traverse
 func traverse(node *TypeDescription, do action) error {
 	if err := do(node); err != nil {
-- 
2.43.0


From 4d2d0d57df2f9e0e853969bec19c67cfb8732fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:04 +0000
Subject: [PATCH 02/88] fix: make uncompressed files writable

Writing a stripe footer with CompressionKind NONE always failed, and resetting
a stream for the next stripe dereferenced the missing compression buffer.
---
 orc/common/misc.go   | 3 +++
 orc/stream/writer.go | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/orc/common/misc.go b/orc/common/misc.go
index b981e15..b3f138e 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -22,6 +22,9 @@ func CompressingAllInChunks(kind pb.CompressionKind, chunkSize int, dst *bytes.B
 	if err := CompressingChunks(kind, chunkSize, dst, src); err != nil {
 		return err
 	}
+	if kind == pb.CompressionKind_NONE { // everything is written out above, no chunk left
+		return nil
+	}
 	return CompressingLeft(kind, chunkSize, dst, src)
 }
 
diff --git a/orc/stream/writer.go b/orc/stream/writer.go
index 7b4fd0f..ff8cee7 100644
--- a/orc/stream/writer.go
+++ b/orc/stream/writer.go
@@ -99,7 +99,9 @@ func (w *writer) Reset() {
 	*w.info.Length = 0
 
 	w.buf.Reset()
-	w.compressedBuf.Reset()
+	if w.compressedBuf != nil {
+		w.compressedBuf.Reset()
+	}
 
 	w.positions = w.positions[:0]
 }
-- 
2.43.0


From 7008c1a68fce0d000406769bc84f1651a26262d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:06 +0000
Subject: [PATCH 03/88] fix: reset the deflate writer for every chunk

The compressor was used again after Close, so from the second chunk on the
chunk was not a complete deflate stream.
---
 orc/common/misc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orc/common/misc.go b/orc/common/misc.go
index b3f138e..0d59cd1 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -65,6 +65,7 @@ func zlibCompressingToChunks(chunkSize int, dst *bytes.Buffer, src *bytes.Buffer
 		}
 
 		cBuf.Reset()
+		compressor.Reset(cBuf)
 		if _, err = compressor.Write(buf); err != nil {
 			return errors.WithStack(err)
 		}
-- 
2.43.0


From 0c6fc59a1f650b9e565cf05038075d3b4025046a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:43 +0000
Subject: [PATCH 04/88] fix: clear the pending bits when the boolean encoder is
 flushed

---
 orc/encoding/bool.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orc/encoding/bool.go b/orc/encoding/bool.go
index 6dcd439..9874427 100644
--- a/orc/encoding/bool.go
+++ b/orc/encoding/bool.go
@@ -62,6 +62,7 @@ func (e *boolRunLength) Flush(out *bytes.Buffer) error {
 		return err
 	}
 	e.index = -1
+	e.value = 0
 	return nil
 }
 
-- 
2.43.0


From 04b31dc3349036f6a42fd12a2bb53262638b4b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:44 +0000
Subject: [PATCH 05/88] fix: store FLOAT values in little-endian order as ORC
 requires

---
 orc/encoding/float.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orc/encoding/float.go b/orc/encoding/float.go
index 223bec1..fedf548 100644
--- a/orc/encoding/float.go
+++ b/orc/encoding/float.go
@@ -24,7 +24,7 @@ func (f float) Encode(v interface{}, out *bytes.Buffer) error {
 		return errors.New("float encoding value should be type float32")
 	}
 	bb := make([]byte, 4)
-	binary.BigEndian.PutUint32(bb, math.Float32bits(value))
+	binary.LittleEndian.PutUint32(bb, math.Float32bits(value))
 	if _, err := out.Write(bb); err != nil {
 		return err
 	}
@@ -46,7 +46,7 @@ func DecodeFloat(in io.Reader) (float32, error) {
 	if _, err := io.ReadFull(in, bb); err != nil {
 		return 0, errors.WithStack(err)
 	}
-	v := math.Float32frombits(binary.BigEndian.Uint32(bb))
+	v := math.Float32frombits(binary.LittleEndian.Uint32(bb))
 	return v, nil
 }
 
-- 
2.43.0


From 80ea81fc1b4235966b1b9dc608381f535dc9bafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:07 +0000
Subject: [PATCH 06/88] fix: size the varint buffers of the delta encoding for
 64 bit values

---
 orc/encoding/int.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index ee091f4..076fa88 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -442,7 +442,7 @@ func (e *intRLV2Encoder) write(out *bytes.Buffer, toEnd bool) error {
 			} else {
 
 				// fixed delta 0
-				b := make([]byte, 8)
+				b := make([]byte, binary.MaxVarintLen64)
 				var n int
 				if e.signed {
 					n = binary.PutVarint(b, UnZigzag(e.values[0]))
@@ -460,7 +460,7 @@ func (e *intRLV2Encoder) write(out *bytes.Buffer, toEnd bool) error {
 			// delta, need width should be stable?
 			dv := &deltaValues{}
 			if tryDeltaEncoding(e.signed, e.values, dv) {
-				b := make([]byte, 8)
+				b := make([]byte, binary.MaxVarintLen64)
 				var n int
 				if e.signed {
 					n = binary.PutVarint(b, UnZigzag(e.values[0]))
@@ -910,7 +910,7 @@ func writeDelta(out *bytes.Buffer, first []byte, deltaBase int64, length uint16,
 		return errors.WithStack(err)
 	}
 	// write delta base
-	db := make([]byte, 8)
+	db := make([]byte, binary.MaxVarintLen64)
 	n := binary.PutVarint(db, deltaBase)
 	if _, err := out.Write(db[:n]); err != nil {
 		return errors.WithStack(err)
-- 
2.43.0


From fbcd16edc78bb906420deebd1afd4064ff61f978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:09 +0000
Subject: [PATCH 07/88] fix: write every byte of a short repeat value

---
 orc/encoding/int.go | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 076fa88..51c6ebf 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -1106,26 +1106,20 @@ func findRepeatsInBytes(values []byte, minRepeat int) (repeats []repeat) {
 func writeShortRepeat(count int, x uint64, out *bytes.Buffer) error {
 	header := byte(count & 0x07)         // count
 	header |= Encoding_SHORT_REPEAT << 6 // encoding
-	var w byte
-	bb := bytes.NewBuffer(make([]byte, 8))
-	bb.Reset()
-	for j := 7; j >= 0; j-- { //
-		b := byte(x >> uint(8*j))
-		if b != 0x00 {
-			if byte(j) > w { // [1, 8]
-				w = byte(j)
-			}
-			if err := bb.WriteByte(b); err != nil {
-				return errors.WithStack(err)
-			}
+	w := byte(7) // index of the most significant byte
+	for ; w > 0; w-- {
+		if byte(x>>(8*w)) != 0x00 {
+			break
 		}
 	}
 	header |= w << 3 // W
 	if err := out.WriteByte(header); err != nil {
 		return errors.WithStack(err)
 	}
-	if _, err := bb.WriteTo(out); err != nil {
-		return errors.WithStack(err)
+	for j := int(w); j >= 0; j-- { // big endian, all W bytes
+		if err := out.WriteByte(byte(x >> uint(8*j))); err != nil {
+			return errors.WithStack(err)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From a386643d8d9d0a3ea5d456abf2eee10c9fc1400d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:11 +0000
Subject: [PATCH 08/88] fix: never let a direct run grow beyond 512 values

---
 orc/encoding/int.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 51c6ebf..fbe87a7 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -486,7 +486,8 @@ func (e *intRLV2Encoder) write(out *bytes.Buffer, toEnd bool) error {
 			}
 
 			// rethink: rest all will be direct ?
-			if toEnd && len(e.values) != 0 {
+			// a run holds at most MaxIntRunLength values, they cannot wait any longer
+			if (toEnd || len(e.values) >= MaxIntRunLength) && len(e.values) != 0 {
 				if err := e.writeDirect(out, true); err != nil {
 					return err
 				}
-- 
2.43.0


From ff59f8304f092c67fd2869008e2c857ab6e8a452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:13 +0000
Subject: [PATCH 09/88] fix: write zero values of a direct run with the width
 in its header

---
 orc/encoding/int.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index fbe87a7..736368c 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -516,6 +516,9 @@ func (e *intRLV2Encoder) writeDirect(out *bytes.Buffer, widthAlign bool) error {
 			width = w
 		}
 	}
+	if width == 0 { // W=0 stands for 1 bit
+		width = 1
+	}
 
 	encodedWidth, err := widthEncoding(width)
 	if err != nil {
-- 
2.43.0


From b283245afbcaf26a5b457e6e4746b741c9a30cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:16 +0000
Subject: [PATCH 10/88] fix: encode delta runs of width 0 and 12

---
 orc/encoding/int.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 736368c..7ba3668 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -892,9 +892,12 @@ func writeDelta(out *bytes.Buffer, first []byte, deltaBase int64, length uint16,
 			width = byte(bits)
 		}
 	}
-	if width == 1 { // delta width no 1?
+	if len(deltas) != 0 && width < 2 { // no delta width 1, and W=0 stands for a fixed delta
 		width = 2
 	}
+	if width == 12 { // not byte aligned, see below
+		width = 16
+	}
 	w, err := widthEncoding(int(width))
 	if err != nil {
 		return errors.WithStack(err)
-- 
2.43.0


From 4e7fca3fbad42996194ce355df1e1da6ea1c70c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:18 +0000
Subject: [PATCH 11/88] fix: accumulate the delta of fixed delta runs

---
 orc/encoding/int.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 7ba3668..540312b 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -166,13 +166,14 @@ func (d *intRLV2Decoder) decode(in BufferedReader) error {
 		d.forgetBits()
 		for i := 2; i < length; i++ {
 			if width == 0 { //fixed delta
+				prev := d.uvs[len(d.uvs)-1]
 				if d.signed {
-					d.uvs = append(d.uvs, Zigzag(base+deltaBase))
+					d.uvs = append(d.uvs, Zigzag(UnZigzag(prev)+deltaBase))
 				} else {
 					if deltaBase >= 0 {
-						d.uvs = append(d.uvs, ubase+uint64(deltaBase))
+						d.uvs = append(d.uvs, prev+uint64(deltaBase))
 					} else {
-						d.uvs = append(d.uvs, ubase-uint64(-deltaBase))
+						d.uvs = append(d.uvs, prev-uint64(-deltaBase))
 					}
 				}
 			} else {
-- 
2.43.0


From d2ea88dafa27ce25de3aaf86c493386586f29820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:05 +0000
Subject: [PATCH 12/88] fix: write and read only patched base runs whose widths
 ORC can encode

---
 orc/encoding/int.go | 70 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 50 insertions(+), 20 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 540312b..ed99f0c 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -226,7 +226,7 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 		return err
 	}
 	pgw := uint16(header[3])>>5&0x07 + 1 // 3 bits patch gap width(PGW), value 1 to 8 bits
-	if (int(pw) + int(pgw)) >= 64 {
+	if (int(pw) + int(pgw)) > 64 {
 		return errors.New("decoding: int rl v2, patchWidth+gapWidth must less or equal to 64")
 	}
 	pll := header[3] & 0x1f // 5bits patch list length, value 0 to 31
@@ -269,7 +269,7 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 	// decode patch values, PGW+PW must < 64
 	d.forgetBits()
 	for i := 0; i < int(pll); i++ {
-		pp, err := d.readBits(in, int(pgw)+int(pw))
+		pp, err := d.readBits(in, getClosestFixedBits(int(pgw)+int(pw)))
 		if err != nil {
 			return err
 		}
@@ -722,6 +722,7 @@ func tryPatch(values []uint64, pvs *patchedValues) bool {
 			break
 		}
 	}
+	w = byte(getClosestFixedBits(int(w))) // value width should be encodable
 
 	logger.Tracef("int rl v2 try patch, 90%% width %d and width %d of adjusted values", w, width)
 	if width > w {
@@ -749,9 +750,12 @@ func tryPatch(values []uint64, pvs *patchedValues) bool {
 				previousGap = i
 			}
 		}
-		if len(pvs.patches) > 31 {
-			// fixme: how to handle this
-			panic("patches max 31")
+		if len(pvs.patches) > 31 { // patch list length has 5 bits
+			return false
+		}
+		patchWidth, gapWidth := pvs.patchWidths()
+		if patchWidth+gapWidth > 64 || pvs.base == math.MinInt64 { // base magnitude and sign have 8 bytes at most
+			return false
 		}
 
 		logger.Tracef("int rl v2 will do PATCH %d values", pvs.count)
@@ -776,6 +780,20 @@ func tryPatch(values []uint64, pvs *patchedValues) bool {
 	return false
 }
 
+// bits width of patches (according to table) and of gaps (1 to 8)
+func (pvs *patchedValues) patchWidths() (patchWidth int, gapWidth int) {
+	gapWidth = 1
+	for i, p := range pvs.patches {
+		if w := getClosestFixedBits(getBitsWidth(p)); w > patchWidth {
+			patchWidth = w
+		}
+		if w := getBitsWidth(uint64(pvs.gaps[i])); w > gapWidth {
+			gapWidth = w
+		}
+	}
+	return
+}
+
 func (e *intRLV2Encoder) writePatch(pvs *patchedValues, out *bytes.Buffer) error {
 	// write header
 	header := make([]byte, 4)
@@ -797,13 +815,7 @@ func (e *intRLV2Encoder) writePatch(pvs *patchedValues, out *bytes.Buffer) error
 	header[2] = (bw - 1) << 5                                // 3bits for 1 to 8 bytes
 
 	// 5 bits for PW (patch width) (1 to 64 bits)
-	var patchWidth int
-	for _, p := range pvs.patches {
-		patchWidth_ := getBitsWidth(p)
-		if patchWidth_ > patchWidth {
-			patchWidth = patchWidth_
-		}
-	}
+	patchWidth, pgw := pvs.patchWidths()
 	pw, err := widthEncoding(patchWidth)
 	if err != nil {
 		return errors.WithStack(err)
@@ -812,13 +824,6 @@ func (e *intRLV2Encoder) writePatch(pvs *patchedValues, out *bytes.Buffer) error
 
 	// 3 bits for PGW (patch gap width) (1 to 8 bits)
 	// so max pg for 3 bits pgw is 255
-	var pgw int
-	for _, g := range pvs.gaps {
-		pgw_ := getBitsWidth(uint64(g))
-		if pgw_ > pgw {
-			pgw = pgw_
-		}
-	}
 	header[3] = byte(pgw-1) & 0b111 << 5
 
 	// 5 bits for PLL (patch list length) (0 to 31)
@@ -857,7 +862,7 @@ func (e *intRLV2Encoder) writePatch(pvs *patchedValues, out *bytes.Buffer) error
 	e.forgetBits()
 	for i, p := range pvs.patches {
 		patch := (uint64(pvs.gaps[i]) << patchWidth) | p
-		if err := e.writeBits(patch, pgw+patchWidth, out); err != nil {
+		if err := e.writeBits(patch, getClosestFixedBits(pgw+patchWidth), out); err != nil {
 			return err
 		}
 	}
@@ -1024,6 +1029,31 @@ func getBitsWidth(x uint64) (w int) {
 	return w
 }
 
+// the smallest width of the width encoding table which holds bits
+func getClosestFixedBits(bits int) int {
+	switch {
+	case bits < 1:
+		return 1
+	case bits <= 24:
+		return bits
+	case bits <= 26:
+		return 26
+	case bits <= 28:
+		return 28
+	case bits <= 30:
+		return 30
+	case bits <= 32:
+		return 32
+	case bits <= 40:
+		return 40
+	case bits <= 48:
+		return 48
+	case bits <= 56:
+		return 56
+	}
+	return 64
+}
+
 // Get bits width of x, align to width encoding table
 func getAlignedWidth(x uint64) int {
 	var n byte
-- 
2.43.0


From fe9c2fdec825d1f386e3b23998ba0ff4ef1f23b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:07 +0000
Subject: [PATCH 13/88] fix: decode patched base runs of unsigned streams,
 reject patches after the run

---
 orc/encoding/int.go | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index ed99f0c..b83f187 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -107,11 +107,6 @@ func (d *intRLV2Decoder) decode(in BufferedReader) error {
 		}
 
 	case Encoding_PATCHED_BASE:
-		// rethink: according to base value is a signed smallest value, patch should always signed?
-		if !d.signed {
-			return errors.New("decoding: int rl v2 patch signed setting should not false")
-		}
-
 		if err = d.readPatched(in, firstByte); err != nil {
 			return err
 		}
@@ -262,11 +257,10 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 		if err != nil {
 			return err
 		}
-		// rethink: cast int64
-		d.uvs = append(d.uvs, Zigzag(base+int64(delta)))
+		d.uvs = append(d.uvs, delta)
 	}
 
-	// decode patch values, PGW+PW must < 64
+	// decode patch values, PGW+PW must <= 64
 	d.forgetBits()
 	for i := 0; i < int(pll); i++ {
 		pp, err := d.readBits(in, getClosestFixedBits(int(pgw)+int(pw)))
@@ -280,12 +274,19 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 
 		// todo: check gap==255 and patch==0
 
-		// patchValue should be at largest 63 bits?
-		v := UnZigzag(d.uvs[mark])
-		v -= base // remove added base first
-		v |= int64(patch << width)
-		v += base // add base back
-		d.uvs[mark] = Zigzag(v)
+		if mark >= len(d.uvs) {
+			return errors.New("decoding: int rl v2, patch list points after the last value")
+		}
+		d.uvs[mark] |= patch << width
+	}
+
+	// add base
+	for i := len(d.uvs) - int(length); i < len(d.uvs); i++ {
+		if d.signed {
+			d.uvs[i] = Zigzag(base + int64(d.uvs[i]))
+		} else {
+			d.uvs[i] += uint64(base)
+		}
 	}
 
 	return nil
-- 
2.43.0


From 702a46601c0f044fd54f3d7a3579ee6c1bceee22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:18 +0000
Subject: [PATCH 14/88] fix: do not append a stripe without rows when the
 writer is closed

---
 orc/writer.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/orc/writer.go b/orc/writer.go
index 03eb8b2..75a8eca 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -112,10 +112,12 @@ func (w *writer) GetSchema() *api.TypeDescription {
 }
 
 func (w *writer) Close() error {
-	if err := w.stripe.flushOut(); err != nil {
-		return err
+	if w.stripe.info.GetNumberOfRows() != 0 { // otherwise nothing was written after the last stripe
+		if err := w.stripe.flushOut(); err != nil {
+			return err
+		}
+		w.stripe.infos = append(w.stripe.infos, w.stripe.info)
 	}
-	w.stripe.infos = append(w.stripe.infos, w.stripe.info)
 
 	if err := w.writeFileTail(); err != nil {
 		return err
-- 
2.43.0


From b3fdfa85388619f033785991e3c20e7a51808490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:19 +0000
Subject: [PATCH 15/88] fix: keep the first error of a writer, close its file
 and report a failed close

---
 orc/writer.go | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/orc/writer.go b/orc/writer.go
index 75a8eca..a82ec8c 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -80,6 +80,10 @@ type writer struct {
 	ps *pb.PostScript
 
 	f orcio.File
+
+	// first error, a writer cannot go on after it because the rows buffered and the file content are undefined
+	err    error
+	closed bool
 }
 
 func (w *writer) Write(vec *api.ColumnVector) error {
@@ -87,10 +91,14 @@ func (w *writer) Write(vec *api.ColumnVector) error {
 		return err
 	}*/
 
-	if err := w.stripe.write(vec); err != nil {
-		return err
+	if w.err != nil {
+		return w.err
 	}
-	return nil
+	if w.closed {
+		return errors.New("writer closed")
+	}
+	w.err = w.stripe.write(vec)
+	return w.err
 }
 
 func (w *writer) CheckBatch(batch *api.ColumnVector) error {
@@ -112,6 +120,21 @@ func (w *writer) GetSchema() *api.TypeDescription {
 }
 
 func (w *writer) Close() error {
+	if w.closed {
+		return errors.New("writer already closed")
+	}
+	w.closed = true
+
+	if w.err == nil {
+		w.err = w.finish()
+	}
+	if err := w.f.Close(); err != nil && w.err == nil {
+		w.err = err
+	}
+	return w.err
+}
+
+func (w *writer) finish() error {
 	if w.stripe.info.GetNumberOfRows() != 0 { // otherwise nothing was written after the last stripe
 		if err := w.stripe.flushOut(); err != nil {
 			return err
@@ -119,13 +142,7 @@ func (w *writer) Close() error {
 		w.stripe.infos = append(w.stripe.infos, w.stripe.info)
 	}
 
-	if err := w.writeFileTail(); err != nil {
-		return err
-	}
-	if err:=w.f.Close();err!=nil {
-		logger.Warn(err)
-	}
-	return nil
+	return w.writeFileTail()
 }
 
 func (w *writer) writeHeader() (uint64, error) {
-- 
2.43.0


From 15dd46ac324862903b463be550fa6a311c066dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:21 +0000
Subject: [PATCH 16/88] fix: close the file when a writer cannot be created

---
 orc/writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orc/writer.go b/orc/writer.go
index a82ec8c..ef6c96a 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -33,6 +33,7 @@ func NewOSFileWriter(path string, schema *api.TypeDescription, opts config.Write
 	}
 	w, err := newWriter(schema, &opts, f)
 	if err != nil {
+		_ = f.Close()
 		return nil, err
 	}
 	return w, nil
-- 
2.43.0


From 017466625253e0d0b0d346cd8add6b6d4395b9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:40 +0000
Subject: [PATCH 17/88] fix: write no child values for a null struct

---
 orc/stripe.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/orc/stripe.go b/orc/stripe.go
index 228b315..393559c 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -60,9 +60,13 @@ func (stripe *stripeWriter) write(vec *api.ColumnVector) error {
 
 func (stripe *stripeWriter) writeValue(index int, vec *api.ColumnVector) error {
 	if vec.Vector != nil { // maybe no present struct vector
-		if err := stripe.columnWriters[vec.Id].Write(vec.Vector[index]); err != nil {
+		value := vec.Vector[index]
+		if err := stripe.columnWriters[vec.Id].Write(value); err != nil {
 			return err
 		}
+		if value.Null { // children of a null have no values, not in their present streams either
+			return nil
+		}
 	}
 
 	for _, c := range vec.Children {
-- 
2.43.0


From 022b87f3422186371bd6999caf84bdd8ee190c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:41 +0000
Subject: [PATCH 18/88] fix: reject nulls of columns without nulls

---
 orc/stripe.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/stripe.go b/orc/stripe.go
index 393559c..2ba89ed 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -61,6 +61,9 @@ func (stripe *stripeWriter) write(vec *api.ColumnVector) error {
 func (stripe *stripeWriter) writeValue(index int, vec *api.ColumnVector) error {
 	if vec.Vector != nil { // maybe no present struct vector
 		value := vec.Vector[index]
+		if value.Null && !stripe.schemas[vec.Id].HasNulls {
+			return errors.Errorf("schema %d %s has no nulls, but value is null", vec.Id, stripe.schemas[vec.Id].Kind.String())
+		}
 		if err := stripe.columnWriters[vec.Id].Write(value); err != nil {
 			return err
 		}
-- 
2.43.0


From 93e286b73eae513c2517df81fac9fa0432e2597f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 19/88] fix: make the dictionary writer usable: count values
 from 0, write uint64 and []byte

---
 orc/column/string.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/orc/column/string.go b/orc/column/string.go
index 29cb5ae..5b7b5bb 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -590,8 +590,8 @@ func (w *stringDictionaryV2Writer) Write(value api.Value) error {
 		l := len(data)
 
 		vs := w.data[s]
-		w.count++
 		vs = append(vs, w.count)
+		w.count++
 		w.data[s] = vs
 
 		*w.stats.NumberOfValues++
@@ -665,11 +665,11 @@ func (w *stringDictionaryV2Writer) Flush() error {
 	}
 	sort.Strings(dict)
 
-	data := make([]int, w.count)
+	data := make([]uint64, w.count)
 	for dictIndex, keyString := range dict {
 		positions := w.data[keyString]
 		for _, position := range positions {
-			data[position] = dictIndex
+			data[position] = uint64(dictIndex)
 		}
 	}
 	for _, v := range data {
@@ -678,10 +678,10 @@ func (w *stringDictionaryV2Writer) Flush() error {
 		}
 	}
 	for _, v := range dict {
-		if err := w.dictStream.Write(v); err != nil {
+		bs := []byte(v)
+		if err := w.dictStream.Write(bs); err != nil {
 			return err
 		}
-		bs := []byte(v)
 		if err := w.lengthStream.Write(uint64(len(bs))); err != nil {
 			return err
 		}
-- 
2.43.0


From 754e1ea45a28ba1585dec71771e199e8f4e5ce8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:28 +0000
Subject: [PATCH 20/88] fix: drop the dictionary of the last stripe when the
 dictionary writer is reset

---
 orc/column/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/column/string.go b/orc/column/string.go
index 5b7b5bb..cd332c8 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -739,7 +739,7 @@ func (w stringDictionaryV2Writer) GetStreamInfos() []*pb.Stream {
 	return []*pb.Stream{w.dataStream.Info(), w.dictStream.Info(), w.lengthStream.Info()}
 }
 
-func (w stringDictionaryV2Writer) Reset() {
+func (w *stringDictionaryV2Writer) Reset() {
 	w.reset()
 	w.dataStream.Reset()
 	w.dictStream.Reset()
-- 
2.43.0


From 7a5e40f4d43bfc57f935294d4e5b16bb47e56f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:29 +0000
Subject: [PATCH 21/88] fix: record the dictionary size in the stripe footer

---
 orc/column/package.go | 6 ++++++
 orc/column/string.go  | 4 ++++
 orc/stripe.go         | 7 ++++++-
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/orc/column/package.go b/orc/column/package.go
index 9c7244a..7d7f696 100644
--- a/orc/column/package.go
+++ b/orc/column/package.go
@@ -66,6 +66,12 @@ type Writer interface {
 	Size() int
 }
 
+// DictionaryWriter is implemented by writers of dictionary encodings
+type DictionaryWriter interface {
+	// DictionarySize is the number of entries in the dictionary of current stripe
+	DictionarySize() uint32
+}
+
 func NewReader(schema *api.TypeDescription, opts *config.ReaderOptions, in orcio.File) (Reader, error) {
 	switch schema.Kind {
 	case pb.Type_SHORT:
diff --git a/orc/column/string.go b/orc/column/string.go
index cd332c8..5e8ec16 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -749,6 +749,10 @@ func (w *stringDictionaryV2Writer) Reset() {
 	w.count = 0
 }
 
+func (w *stringDictionaryV2Writer) DictionarySize() uint32 {
+	return uint32(len(w.data))
+}
+
 func (w stringDictionaryV2Writer) Size() int {
 	// fixme: size calculation
 
diff --git a/orc/stripe.go b/orc/stripe.go
index 2ba89ed..142b9e7 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -134,7 +134,12 @@ func (stripe *stripeWriter) writeFooter() error {
 	}
 
 	for _, schema := range stripe.schemas {
-		footer.Columns = append(footer.Columns, &pb.ColumnEncoding{Kind: &schema.Encoding})
+		encoding := &pb.ColumnEncoding{Kind: &schema.Encoding}
+		if d, ok := stripe.columnWriters[schema.Id].(column.DictionaryWriter); ok {
+			size := d.DictionarySize()
+			encoding.DictionarySize = &size
+		}
+		footer.Columns = append(footer.Columns, encoding)
 	}
 
 	footerBuf, err := proto.Marshal(footer)
-- 
2.43.0


From d974c73ee131d33a971dd2c4cb8595572e4d4e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:31 +0000
Subject: [PATCH 22/88] fix: write the lengths of binary values

---
 orc/column/binary.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index ddaddfb..9a29bbf 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -47,7 +47,14 @@ func (w *binaryV2Writer) Write(value api.Value) error {
 	}
 
 	if !value.Null {
-		if err := w.data.Write(value.V); err != nil {
+		data, ok := value.V.([]byte)
+		if !ok {
+			return errors.New("binary column writing, value should be []byte")
+		}
+		if err := w.data.Write(data); err != nil {
+			return err
+		}
+		if err := w.length.Write(uint64(len(data))); err != nil {
 			return err
 		}
 		*w.stats.BinaryStatistics.Sum++
-- 
2.43.0


From 5c3df6a2953634720a1b1794161a1123691cfae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:33 +0000
Subject: [PATCH 23/88] fix: sum the byte lengths in binary statistics

---
 orc/column/binary.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index 9a29bbf..749b133 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -57,7 +57,7 @@ func (w *binaryV2Writer) Write(value api.Value) error {
 		if err := w.length.Write(uint64(len(data))); err != nil {
 			return err
 		}
-		*w.stats.BinaryStatistics.Sum++
+		*w.stats.BinaryStatistics.Sum += int64(len(data))
 		*w.stats.NumberOfValues++
 	}
 
@@ -80,7 +80,7 @@ func (w *binaryV2Writer) Write(value api.Value) error {
 			w.indexInRows = 0
 		}
 		if !value.Null {
-			*w.indexStats.BinaryStatistics.Sum++
+			*w.indexStats.BinaryStatistics.Sum += int64(len(value.V.([]byte)))
 			*w.indexStats.NumberOfValues++
 		}
 	}
-- 
2.43.0


From a58bb304869872dca0ad911693a454426c1970e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:35 +0000
Subject: [PATCH 24/88] fix: add up bytes on disk of all stripes in nullable
 columns

---
 orc/column/binary.go  | 2 +-
 orc/column/bool.go    | 2 +-
 orc/column/byte.go    | 2 +-
 orc/column/decimal.go | 2 +-
 orc/column/float.go   | 2 +-
 orc/column/int.go     | 2 +-
 orc/column/list.go    | 2 +-
 orc/column/string.go  | 4 ++--
 orc/column/struct.go  | 2 +-
 orc/column/time.go    | 4 ++--
 10 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index 749b133..70a6018 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -103,7 +103,7 @@ func (w *binaryV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	*w.stats.BytesOnDisk += w.length.Info().GetLength()
diff --git a/orc/column/bool.go b/orc/column/bool.go
index ff68287..28b5bc5 100644
--- a/orc/column/bool.go
+++ b/orc/column/bool.go
@@ -92,7 +92,7 @@ func (w *boolWriter) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	w.flushed = true
diff --git a/orc/column/byte.go b/orc/column/byte.go
index adafb26..d3a4e9a 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -94,7 +94,7 @@ func (w *byteWriter) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 
diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index d4909f4..08ddd58 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -119,7 +119,7 @@ func (w *decimalV2Writer) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	if err := w.data.Flush(); err != nil {
 		return err
diff --git a/orc/column/float.go b/orc/column/float.go
index 06181dd..e3bcdd1 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -261,7 +261,7 @@ func (w *floatWriter) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	return nil
diff --git a/orc/column/int.go b/orc/column/int.go
index 286f1fa..6a65912 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -126,7 +126,7 @@ func (w intWriter) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	if err := w.data.Flush(); err != nil {
 		return err
diff --git a/orc/column/list.go b/orc/column/list.go
index a000b5f..bd3525a 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -261,7 +261,7 @@ func (w *listV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.length.Info().GetLength()
 	return nil
diff --git a/orc/column/string.go b/orc/column/string.go
index 5e8ec16..169b8cc 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -154,7 +154,7 @@ func (w *stringDirectV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	*w.stats.BytesOnDisk += w.length.Info().GetLength()
@@ -703,7 +703,7 @@ func (w *stringDictionaryV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.dataStream.Info().GetLength()
 	*w.stats.BytesOnDisk += w.dictStream.Info().GetLength()
diff --git a/orc/column/struct.go b/orc/column/struct.go
index 0d08bea..cdde5a0 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -223,7 +223,7 @@ func (w *structWriter) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	w.flushed = true
 	return nil
diff --git a/orc/column/time.go b/orc/column/time.go
index 97c1697..122308b 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -102,7 +102,7 @@ func (w *dateV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	w.flushed = true
@@ -385,7 +385,7 @@ func (w *timestampWriter) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	if err := w.data.Flush(); err != nil {
 		return err
-- 
2.43.0


From 1b05622eace9a58b30200e821952adb365f240a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:36 +0000
Subject: [PATCH 25/88] fix: drop the sum of integer statistics when it
 overflows

---
 orc/column/int.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/orc/column/int.go b/orc/column/int.go
index 6a65912..39be3da 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -72,7 +72,7 @@ func (w *intWriter) Write(value api.Value) error {
 		if err := w.data.Write(v); err != nil {
 			return err
 		}
-		*w.stats.IntStatistics.Sum += v
+		addToSum(w.stats.IntStatistics, v)
 		if v < *w.stats.IntStatistics.Minimum {
 			*w.stats.IntStatistics.Minimum = v
 		}
@@ -101,7 +101,7 @@ func (w *intWriter) Write(value api.Value) error {
 			w.indexInRows = 0
 		}
 		if !value.Null {
-			*w.indexStats.IntStatistics.Sum += v
+			addToSum(w.indexStats.IntStatistics, v)
 			if v < *w.indexStats.IntStatistics.Minimum {
 				*w.indexStats.IntStatistics.Minimum = v
 			}
@@ -114,6 +114,19 @@ func (w *intWriter) Write(value api.Value) error {
 	return nil
 }
 
+// sum will be absent once it has overflowed
+func addToSum(stats *pb.IntegerStatistics, v int64) {
+	if stats.Sum == nil {
+		return
+	}
+	sum := *stats.Sum + v
+	if (v > 0 && sum < *stats.Sum) || (v < 0 && sum > *stats.Sum) {
+		stats.Sum = nil
+		return
+	}
+	*stats.Sum = sum
+}
+
 func (w intWriter) Size() int {
 	if w.schema.HasNulls {
 		return w.present.Size() + w.data.Size()
-- 
2.43.0


From 1dd70a5d29eb7384804fafee17e1ced1b915cab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:09 +0000
Subject: [PATCH 26/88] fix: keep every string within the bounds of string
 statistics

---
 orc/column/string.go | 94 ++++++++++++--------------------------------
 1 file changed, 26 insertions(+), 68 deletions(-)

diff --git a/orc/column/string.go b/orc/column/string.go
index 169b8cc..5ee786c 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -50,7 +50,6 @@ func (w *stringDirectV2Writer) Write(value api.Value) error {
 		}
 	}
 
-	var dataLength int
 	if !value.Null {
 		s, ok := value.V.(string)
 		if !ok {
@@ -58,36 +57,15 @@ func (w *stringDirectV2Writer) Write(value api.Value) error {
 		}
 		// string encoded in utf-8
 		data := []byte(s)
-		dataLength = len(data)
 		if err := w.data.Write(data); err != nil {
 			return err
 		}
-		if err := w.length.Write(uint64(dataLength)); err != nil {
+		if err := w.length.Write(uint64(len(data))); err != nil {
 			return err
 		}
 
 		*w.stats.NumberOfValues++
-		*w.stats.StringStatistics.Sum += int64(dataLength)
-		if w.stats.StringStatistics.Minimum != nil && s < w.stats.StringStatistics.GetMinimum() {
-			*w.stats.StringStatistics.Minimum = s
-		}
-		if w.stats.StringStatistics.Maximum != nil && s > w.stats.StringStatistics.GetMaximum() {
-			*w.stats.StringStatistics.Maximum = s
-		}
-
-		if dataLength >= MaxByteLength {
-			w.stats.StringStatistics.LowerBound = w.stats.StringStatistics.Minimum
-			w.stats.StringStatistics.Minimum = nil
-			w.stats.StringStatistics.UpperBound = w.stats.StringStatistics.Maximum
-			w.stats.StringStatistics.Maximum = nil
-		}
-
-		if w.stats.StringStatistics.LowerBound != nil && s < w.stats.StringStatistics.GetMaximum() {
-			*w.stats.StringStatistics.LowerBound = s
-		}
-		if w.stats.StringStatistics.UpperBound != nil && s > w.stats.StringStatistics.GetMaximum() {
-			*w.stats.StringStatistics.UpperBound = s
-		}
+		updateStringStatistics(w.stats.StringStatistics, s)
 	}
 
 	if w.opts.WriteIndex {
@@ -112,34 +90,32 @@ func (w *stringDirectV2Writer) Write(value api.Value) error {
 
 		if !value.Null {
 			*w.indexStats.NumberOfValues++
-			*w.indexStats.StringStatistics.Sum += int64(dataLength)
-			s := value.V.(string)
-
-			if w.indexStats.StringStatistics.Minimum != nil && s < w.indexStats.StringStatistics.GetMinimum() {
-				*w.indexStats.StringStatistics.Minimum = s
-			}
-			if w.indexStats.StringStatistics.Maximum != nil && s > w.indexStats.StringStatistics.GetMaximum() {
-				*w.indexStats.StringStatistics.Maximum = s
-			}
-
-			if dataLength >= MaxByteLength {
-				w.indexStats.StringStatistics.LowerBound = w.indexStats.StringStatistics.Minimum
-				w.indexStats.StringStatistics.Minimum = nil
-				w.indexStats.StringStatistics.UpperBound = w.indexStats.StringStatistics.Maximum
-				w.indexStats.StringStatistics.Maximum = nil
-			}
-
-			if w.indexStats.StringStatistics.LowerBound != nil && s < w.indexStats.StringStatistics.GetMaximum() {
-				*w.indexStats.StringStatistics.LowerBound = s
-			}
-			if w.indexStats.StringStatistics.UpperBound != nil && s > w.indexStats.StringStatistics.GetMaximum() {
-				*w.indexStats.StringStatistics.UpperBound = s
-			}
+			updateStringStatistics(w.indexStats.StringStatistics, value.V.(string))
 		}
 	}
 	return nil
 }
 
+// minimum and maximum turn into lower and upper bound with the first string of MaxByteLength or more
+func updateStringStatistics(stats *pb.StringStatistics, s string) {
+	*stats.Sum += int64(len(s))
+
+	if len(s) >= MaxByteLength && stats.Minimum != nil {
+		stats.LowerBound, stats.Minimum = stats.Minimum, nil
+		stats.UpperBound, stats.Maximum = stats.Maximum, nil
+	}
+	lower, upper := stats.Minimum, stats.Maximum
+	if lower == nil {
+		lower, upper = stats.LowerBound, stats.UpperBound
+	}
+	if s < *lower {
+		*lower = s
+	}
+	if s > *upper {
+		*upper = s
+	}
+}
+
 func (w *stringDirectV2Writer) Flush() error {
 	if w.schema.HasNulls {
 		if err := w.present.Flush(); err != nil {
@@ -542,7 +518,7 @@ func (r *StringDictionaryV2Reader) Close() {
 
 func NewStringDictionaryV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
 	stats := &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
-		Maximum: new(string), Minimum: new(string), Sum: new(int64), LowerBound: new(string), UpperBound: new(string)},
+		Maximum: new(string), Minimum: new(string), Sum: new(int64)},
 		NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
 	var present stream.Writer
 	if schema.HasNulls {
@@ -554,7 +530,7 @@ func NewStringDictionaryV2Writer(schema *api.TypeDescription, opts *config.Write
 	if opts.WriteIndex {
 		index = &pb.RowIndex{}
 		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool),
-			StringStatistics: &pb.StringStatistics{Maximum: new(string), Minimum: new(string), Sum: new(int64), LowerBound: new(string), UpperBound: new(string)}}
+			StringStatistics: &pb.StringStatistics{Maximum: new(string), Minimum: new(string), Sum: new(int64)}}
 	}
 	base := &writer{schema: schema, opts: opts, stats: stats, present: present, index: index, indexStats: indexStats}
 	data := stream.NewIntRLV2Writer(schema.Id, pb.Stream_DATA, opts, false)
@@ -585,9 +561,6 @@ func (w *stringDictionaryV2Writer) Write(value api.Value) error {
 		if !ok {
 			return errors.New("string column writing, value should be string")
 		}
-		// string encoded in utf-8
-		data := []byte(s)
-		l := len(data)
 
 		vs := w.data[s]
 		vs = append(vs, w.count)
@@ -595,22 +568,7 @@ func (w *stringDictionaryV2Writer) Write(value api.Value) error {
 		w.data[s] = vs
 
 		*w.stats.NumberOfValues++
-		*w.stats.StringStatistics.Sum += int64(l)
-		if l >= MaxByteLength {
-			if s < *w.stats.StringStatistics.LowerBound {
-				*w.stats.StringStatistics.LowerBound = s
-			}
-			if s > *w.stats.StringStatistics.UpperBound {
-				*w.stats.StringStatistics.UpperBound = s
-			}
-		} else {
-			if s < *w.stats.StringStatistics.Minimum {
-				*w.stats.StringStatistics.Minimum = s
-			}
-			if s > *w.stats.StringStatistics.Maximum {
-				*w.stats.StringStatistics.Maximum = s
-			}
-		}
+		updateStringStatistics(w.stats.StringStatistics, s)
 	}
 
 	// todo: index writing
-- 
2.43.0


From 169d6175f11c610fc6c2bb61f892fecffb829cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:51 +0000
Subject: [PATCH 27/88] fix: give the columns usable index statistics after a
 stripe is written with index

---
 orc/column/writer.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/orc/column/writer.go b/orc/column/writer.go
index c6ff6b4..7e8b758 100644
--- a/orc/column/writer.go
+++ b/orc/column/writer.go
@@ -34,15 +34,37 @@ func (w *writer) reset() {
 	if w.opts.WriteIndex {
 		w.indexInRows = 0
 		w.index.Reset()
-		w.indexStats.Reset()
-		w.indexStats.HasNull = new(bool)
-		w.indexStats.NumberOfValues = new(uint64)
-		w.indexStats.BytesOnDisk = new(uint64)
+		w.indexStats = zeroStatistics(w.indexStats)
 	}
 
 	// stats will not reset, it's for whole writer
 }
 
+// zeroStatistics returns new statistics without values, of the same kind as stats
+func zeroStatistics(stats *pb.ColumnStatistics) *pb.ColumnStatistics {
+	zero := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
+	*zero.HasNull = stats.GetHasNull()
+	switch {
+	case stats.IntStatistics != nil:
+		zero.IntStatistics = &pb.IntegerStatistics{Minimum: new(int64), Maximum: new(int64), Sum: new(int64)}
+	case stats.DoubleStatistics != nil:
+		zero.DoubleStatistics = &pb.DoubleStatistics{Minimum: new(float64), Maximum: new(float64), Sum: new(float64)}
+	case stats.StringStatistics != nil:
+		zero.StringStatistics = &pb.StringStatistics{Minimum: new(string), Maximum: new(string), Sum: new(int64)}
+	case stats.BucketStatistics != nil:
+		zero.BucketStatistics = &pb.BucketStatistics{Count: make([]uint64, 1)}
+	case stats.DecimalStatistics != nil:
+		zero.DecimalStatistics = &pb.DecimalStatistics{Minimum: new(string), Maximum: new(string), Sum: new(string)}
+	case stats.DateStatistics != nil:
+		zero.DateStatistics = &pb.DateStatistics{Minimum: new(int32), Maximum: new(int32)}
+	case stats.BinaryStatistics != nil:
+		zero.BinaryStatistics = &pb.BinaryStatistics{Sum: new(int64)}
+	case stats.TimestampStatistics != nil:
+		zero.TimestampStatistics = &pb.TimestampStatistics{Minimum: new(int64), Maximum: new(int64), MinimumUtc: new(int64), MaximumUtc: new(int64)}
+	}
+	return zero
+}
+
 func (w writer) GetIndex() *pb.RowIndex {
 	return w.index
 }
-- 
2.43.0


From 04076e5f96d34e9a8f8ab92f5c2284dda89131bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:53 +0000
Subject: [PATCH 28/88] fix: write FLOAT columns with index

---
 orc/column/float.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/orc/column/float.go b/orc/column/float.go
index e3bcdd1..9651ae8 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -194,11 +194,11 @@ func (w *floatWriter) Write(value api.Value) error {
 		}
 	}
 
+	var v float64
 	if !value.Null {
 		if err := w.data.Write(value.V); err != nil {
 			return err
 		}
-		var v float64
 		if w.is64 {
 			v = value.V.(float64)
 		} else {
@@ -234,7 +234,6 @@ func (w *floatWriter) Write(value api.Value) error {
 			w.indexInRows = 0
 		}
 		if !value.Null {
-			v := value.V.(float64)
 			*w.indexStats.DoubleStatistics.Sum += v
 			if v < *w.indexStats.DoubleStatistics.Minimum {
 				*w.indexStats.DoubleStatistics.Minimum = v
-- 
2.43.0


From 4cee37339de939c01a110dc81dcb54f65bb643dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:57 +0000
Subject: [PATCH 29/88] fix: keep decimal statistics in decimal numbers, and
 write decimals with index

---
 orc/column/decimal.go | 86 ++++++++++++++++++++++++++-----------------
 orc/column/writer.go  |  2 +-
 2 files changed, 54 insertions(+), 34 deletions(-)

diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index 08ddd58..3516a40 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -1,10 +1,10 @@
 package column
 
 import (
-	"fmt"
 	orcio "github.com/patrickhuang888/goorc/orc/io"
 	"io"
-	"strconv"
+	"math/big"
+	"strings"
 
 	"github.com/pkg/errors"
 
@@ -16,7 +16,7 @@ import (
 
 func NewDecimal64V2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
 	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-		DecimalStatistics: &pb.DecimalStatistics{Minimum: new(string), Maximum: new(string), Sum: new(string)}}
+		DecimalStatistics: &pb.DecimalStatistics{}}
 	var present stream.Writer
 	if schema.HasNulls {
 		*stats.HasNull = true
@@ -26,7 +26,7 @@ func NewDecimal64V2Writer(schema *api.TypeDescription, opts *config.WriterOption
 	var index *pb.RowIndex
 	if opts.WriteIndex {
 		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			DecimalStatistics: &pb.DecimalStatistics{Minimum: new(string), Maximum: new(string), Sum: new(string)}}
+			DecimalStatistics: &pb.DecimalStatistics{}}
 		index = &pb.RowIndex{}
 	}
 	data := stream.NewVarint64V2Writer(schema.Id, pb.Stream_DATA, opts)
@@ -56,22 +56,7 @@ func (w *decimalV2Writer) Write(value api.Value) error {
 		if err := w.secondary.Write(int64(d.Scale)); err != nil {
 			return err
 		}
-		s := d.String()
-		if s < w.stats.DecimalStatistics.GetMinimum() {
-			*w.stats.DecimalStatistics.Minimum = s
-		}
-		if s > w.stats.DecimalStatistics.GetMaximum() {
-			*w.stats.DecimalStatistics.Maximum = s
-		}
-		var sum float64
-		var err error
-		if w.stats.DecimalStatistics.GetSum() != "" {
-			if sum, err = strconv.ParseFloat(w.stats.DecimalStatistics.GetSum(), 64); err != nil {
-				return errors.WithStack(err)
-			}
-		}
-		sum += d.Float64()
-		*w.stats.DecimalStatistics.Sum = fmt.Sprintf("%f", sum)
+		updateDecimalStatistics(w.stats, d)
 		*w.stats.NumberOfValues++
 
 		if w.opts.WriteIndex {
@@ -87,7 +72,7 @@ func (w *decimalV2Writer) Write(value api.Value) error {
 				w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
 
 				w.indexStats = &pb.ColumnStatistics{
-					DecimalStatistics: &pb.DecimalStatistics{Maximum: new(string), Minimum: new(string), Sum: new(string)},
+					DecimalStatistics: &pb.DecimalStatistics{},
 					NumberOfValues:    new(uint64), HasNull: new(bool)}
 				if w.schema.HasNulls {
 					*w.indexStats.HasNull = true
@@ -95,18 +80,7 @@ func (w *decimalV2Writer) Write(value api.Value) error {
 				w.indexInRows = 0
 			}
 
-			if s < w.indexStats.DecimalStatistics.GetMinimum() {
-				*w.indexStats.DecimalStatistics.Minimum = s
-			}
-			if s > w.indexStats.DecimalStatistics.GetMaximum() {
-				*w.stats.DecimalStatistics.Maximum = s
-			}
-			indexSum, err := strconv.ParseFloat(w.indexStats.DecimalStatistics.GetSum(), 64)
-			if err != nil {
-				return errors.WithStack(err)
-			}
-			indexSum += d.Float64()
-			*w.stats.DecimalStatistics.Sum = fmt.Sprintf("%f", indexSum)
+			updateDecimalStatistics(w.indexStats, d)
 			*w.indexStats.NumberOfValues++
 		}
 	}
@@ -114,6 +88,52 @@ func (w *decimalV2Writer) Write(value api.Value) error {
 	return nil
 }
 
+const maxDecimalScale = 38
+
+// minimum, maximum and sum are plain decimal numbers, there are no decimal statistics if the scale of a value is out of
+// range
+func updateDecimalStatistics(stats *pb.ColumnStatistics, d api.Decimal64) {
+	if d.Scale < -maxDecimalScale || d.Scale > maxDecimalScale {
+		stats.DecimalStatistics = nil
+	}
+	ds := stats.DecimalStatistics
+	if ds == nil {
+		return
+	}
+
+	value, places := new(big.Rat).SetInt64(d.Precision), d.Scale
+	pow := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(d.Scale))), nil))
+	if d.Scale >= 0 {
+		value.Quo(value, pow)
+	} else {
+		value.Mul(value, pow)
+		places = 0
+	}
+	text := value.FloatString(places)
+
+	if min, ok := new(big.Rat).SetString(ds.GetMinimum()); !ok || value.Cmp(min) < 0 {
+		ds.Minimum = &text
+	}
+	if max, ok := new(big.Rat).SetString(ds.GetMaximum()); !ok || value.Cmp(max) > 0 {
+		ds.Maximum = &text
+	}
+	sum := text
+	if prev, ok := new(big.Rat).SetString(ds.GetSum()); ok {
+		if i := strings.IndexByte(ds.GetSum(), '.'); i >= 0 && len(ds.GetSum())-i-1 > places {
+			places = len(ds.GetSum()) - i - 1
+		}
+		sum = prev.Add(prev, value).FloatString(places)
+	}
+	ds.Sum = &sum
+}
+
+func abs(x int) int {
+	if x < 0 {
+		return -x
+	}
+	return x
+}
+
 func (w *decimalV2Writer) Flush() error {
 	if w.schema.HasNulls {
 		if err := w.present.Flush(); err != nil {
diff --git a/orc/column/writer.go b/orc/column/writer.go
index 7e8b758..20f9957 100644
--- a/orc/column/writer.go
+++ b/orc/column/writer.go
@@ -54,7 +54,7 @@ func zeroStatistics(stats *pb.ColumnStatistics) *pb.ColumnStatistics {
 	case stats.BucketStatistics != nil:
 		zero.BucketStatistics = &pb.BucketStatistics{Count: make([]uint64, 1)}
 	case stats.DecimalStatistics != nil:
-		zero.DecimalStatistics = &pb.DecimalStatistics{Minimum: new(string), Maximum: new(string), Sum: new(string)}
+		zero.DecimalStatistics = &pb.DecimalStatistics{}
 	case stats.DateStatistics != nil:
 		zero.DateStatistics = &pb.DateStatistics{Minimum: new(int32), Maximum: new(int32)}
 	case stats.BinaryStatistics != nil:
-- 
2.43.0


From 3fcc99a3b8c9823dc6c1eac13487a681f578fb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:11 +0000
Subject: [PATCH 30/88] fix: keep timestamp statistics in milliseconds since
 the epoch

---
 orc/api/vector.go  | 16 +++++-----------
 orc/column/time.go |  8 ++++----
 2 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/orc/api/vector.go b/orc/api/vector.go
index 36fbd0f..b671c15 100755
--- a/orc/api/vector.go
+++ b/orc/api/vector.go
@@ -144,21 +144,15 @@ func (t Timestamp) Time() time.Time {
 	return time.Unix(base+t.Seconds, int64(t.Nanos)).In(loc)
 }
 
+// milliseconds since unix epoch
 func (t Timestamp) GetMilliSeconds() int64 {
-	loc := t.Loc
-	if loc == nil {
-		loc = time.UTC
-	}
-	var ms int64
-	baseSec := time.Date(2015, time.January, 1, 0, 0, 0, 0, loc).Unix()
-	ms = (t.Seconds - baseSec) * 1_000
-	ms += int64(t.Nanos / 1_000)
-	return ms
+	return t.Time().Unix()*1_000 + int64(t.Time().Nanosecond()/1_000_000)
 }
 
+// milliseconds since unix epoch, of the same wall clock time in UTC
 func (t Timestamp) GetMilliSecondsUtc() int64 {
-	base := time.Date(2015, time.January, 1, 0, 0, 0, 0, time.UTC).Unix()
-	return base + t.Time().Unix() + int64(t.Nanos/1_000)
+	_, offset := t.Time().Zone()
+	return t.GetMilliSeconds() + int64(offset)*1_000
 }
 
 func GetTimestamp(t time.Time) Timestamp {
diff --git a/orc/column/time.go b/orc/column/time.go
index 122308b..e5c4fa8 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -328,10 +328,10 @@ func (w *timestampWriter) Write(value api.Value) error {
 			*w.stats.TimestampStatistics.Maximum = ms
 		}
 		msUtc := t.GetMilliSecondsUtc()
-		if ms < w.stats.TimestampStatistics.GetMinimumUtc() {
-			*w.stats.TimestampStatistics.Minimum = msUtc
+		if msUtc < w.stats.TimestampStatistics.GetMinimumUtc() {
+			*w.stats.TimestampStatistics.MinimumUtc = msUtc
 		}
-		if ms > w.stats.TimestampStatistics.GetMaximum() {
+		if msUtc > w.stats.TimestampStatistics.GetMaximumUtc() {
 			*w.stats.TimestampStatistics.MaximumUtc = msUtc
 		}
 
@@ -370,7 +370,7 @@ func (w *timestampWriter) Write(value api.Value) error {
 				*w.indexStats.TimestampStatistics.MaximumUtc = msUtc
 			}
 			if msUtc < w.indexStats.TimestampStatistics.GetMinimumUtc() {
-				*w.indexStats.TimestampStatistics.Minimum = msUtc
+				*w.indexStats.TimestampStatistics.MinimumUtc = msUtc
 			}
 
 			*w.indexStats.NumberOfValues++
-- 
2.43.0


From eae4470c6a96532613224a843e7df7612fc77b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:14 +0000
Subject: [PATCH 31/88] fix: convert dates beyond 292 years around 1970 and
 before 1970

---
 orc/api/vector.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/orc/api/vector.go b/orc/api/vector.go
index b671c15..50d877c 100755
--- a/orc/api/vector.go
+++ b/orc/api/vector.go
@@ -117,16 +117,19 @@ func (d *Date) String() string {
 }
 
 func FromDays(days int32) Date {
-	d := time.Duration(int64(days) * 24 * int64(time.Hour))
-	t := Date(time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC).Add(d))
-	return t
+	return Date(time.Unix(int64(days)*secondsOfDay, 0).UTC())
 }
 
+const secondsOfDay = 24 * 60 * 60
+
 // days from 1970, Jan, 1 UTC
 func ToDays(d Date) int32 {
-	// time.Time(d).UTC() ??
-	s := time.Time(d).Sub(time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC))
-	return int32(s.Hours() / 24)
+	s := time.Time(d).Unix()
+	days := s / secondsOfDay
+	if s%secondsOfDay < 0 { // days before 1970
+		days--
+	}
+	return int32(days)
 }
 
 type Timestamp struct {
-- 
2.43.0


From 7bdbc388e8c21ef5c5a91ca9b53498b28c23fe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:54 +0000
Subject: [PATCH 32/88] fix: read nulls below a null struct and in stripes
 without present stream

---
 orc/column/binary.go  |  2 +-
 orc/column/bool.go    |  2 +-
 orc/column/byte.go    |  2 +-
 orc/column/decimal.go |  2 +-
 orc/column/float.go   |  2 +-
 orc/column/int.go     |  2 +-
 orc/column/list.go    |  2 +-
 orc/column/map.go     |  2 +-
 orc/column/string.go  |  4 ++--
 orc/column/struct.go  | 15 +++++++++++----
 orc/column/time.go    |  4 ++--
 orc/stripe.go         | 16 ++++++++++++----
 12 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index 70a6018..e932af0 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -214,7 +214,7 @@ func (r *BinaryV2Reader) Skip(rows uint64) error {
 func (r *BinaryV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present!=nil {
+		if r.present != nil && !vec.Vector[i].Null { // no present bit for null parent
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/bool.go b/orc/column/bool.go
index 28b5bc5..1fae6ac 100644
--- a/orc/column/bool.go
+++ b/orc/column/bool.go
@@ -173,7 +173,7 @@ func (r *BoolReader) InitStream(info *pb.Stream, startOffset uint64) error {
 func (r *BoolReader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null { // no present bit for null parent
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/byte.go b/orc/column/byte.go
index d3a4e9a..9cc92ef 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -169,7 +169,7 @@ func (r *ByteReader) InitStream(info *pb.Stream, startOffset uint64) error {
 func (r *ByteReader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present!=nil {
+		if r.present != nil && !vec.Vector[i].Null { // no present bit for null parent
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index 3516a40..da20924 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -235,7 +235,7 @@ func (r *DecimalV2Reader) InitStream(info *pb.Stream, startOffset uint64) error
 func (r *DecimalV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null { // no present bit for null parent
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/float.go b/orc/column/float.go
index 9651ae8..3506993 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -49,7 +49,7 @@ func (r *FloatReader) InitStream(info *pb.Stream, startOffset uint64) error {
 func (r *FloatReader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present!=nil {
+		if r.present != nil && !vec.Vector[i].Null { // no present bit for null parent
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/int.go b/orc/column/int.go
index 39be3da..d26656c 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -225,7 +225,7 @@ func (r *IntV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 func (r *IntV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null { // no present bit for null parent
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/list.go b/orc/column/list.go
index bd3525a..2bd9d7d 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -51,7 +51,7 @@ func (r *ListV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null { // no present bit for null parent
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/map.go b/orc/column/map.go
index 05434ee..47e3bc1 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -59,7 +59,7 @@ func (r *MapV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null { // no present bit for null parent
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/string.go b/orc/column/string.go
index 5ee786c..e6b68ac 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -215,7 +215,7 @@ func (r *StringDirectV2Reader) InitStream(info *pb.Stream, startOffset uint64) e
 func (r *StringDirectV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null { // no present bit for null parent
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
@@ -405,7 +405,7 @@ func (r *StringDictionaryV2Reader) NextBatch(vec *api.ColumnVector) error {
 	}
 
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null { // no present bit for null parent
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/struct.go b/orc/column/struct.go
index cdde5a0..6c19cb5 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -119,14 +119,17 @@ func (r *StructReader) Skip(rows uint64) error {
 func (r *StructReader) NextBatch(vec *api.ColumnVector) error {
 	if r.present != nil {
 		for i := 0; i < len(vec.Vector); i++ {
+			if vec.Vector[i].Null { // no present bit for null parent
+				continue
+			}
 			p, err := r.present.Next()
 			if err != nil {
 				return err
 			}
 			vec.Vector[i].Null = !p
 		}
-		fillNulls(vec)
 	}
+	fillNulls(vec)
 
 	for i, c := range r.children {
 		if err := c.NextBatch(vec.Children[i]); err != nil {
@@ -138,10 +141,14 @@ func (r *StructReader) NextBatch(vec *api.ColumnVector) error {
 
 func fillNulls(vec *api.ColumnVector) {
 	for _, c := range vec.Children {
-		for i, v := range vec.Vector {
-			c.Vector[i].Null = v.Null
+		for i := range c.Vector {
+			if i < len(vec.Vector) && vec.Vector[i].Null {
+				c.Vector[i].Null = true
+			}
+		}
+		if len(c.Vector) == 0 && c.Kind == pb.Type_STRUCT { // struct without nulls has no vector of its own
+			fillNulls(&api.ColumnVector{Vector: vec.Vector, Children: c.Children})
 		}
-		fillNulls(c)
 	}
 }
 
diff --git a/orc/column/time.go b/orc/column/time.go
index e5c4fa8..de50c71 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -182,7 +182,7 @@ func (r *DateV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 func (r *DateV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null { // no present bit for null parent
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
@@ -485,7 +485,7 @@ func (r *TimestampV2Reader) InitStream(info *pb.Stream, startOffset uint64) erro
 func (r *TimestampV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null { // no present bit for null parent
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/stripe.go b/orc/stripe.go
index 142b9e7..78745cd 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -353,19 +353,19 @@ func (stripe *stripeReader) setVectorSize(size int, vec *api.ColumnVector) {
 	switch vec.Kind {
 	case pb.Type_STRUCT:
 		if stripe.schemas[vec.Id].HasNulls {
-			vec.Vector = vec.Vector[:size]
+			resizeVector(size, vec)
 		}
 		for _, c := range vec.Children {
 			stripe.setVectorSize(size, c)
 		}
 
 	case pb.Type_LIST:
-		vec.Vector = vec.Vector[:size]
+		resizeVector(size, vec)
 		// list's children maybe struct
 		vec.Children[0].Vector = vec.Children[0].Vector[:0]
 
 	case pb.Type_MAP:
-		vec.Vector = vec.Vector[:size]
+		resizeVector(size, vec)
 		// toClarify: will map's children be struct or just primary?
 		vec.Children[0].Vector = vec.Children[0].Vector[:0]
 		vec.Children[1].Vector = vec.Children[1].Vector[:0]
@@ -373,7 +373,15 @@ func (stripe *stripeReader) setVectorSize(size int, vec *api.ColumnVector) {
 	case pb.Type_UNION:
 		panic("not impl")
 	default:
-		vec.Vector = vec.Vector[:size]
+		resizeVector(size, vec)
+	}
+}
+
+// values are not null until there is a present stream or a parent to tell otherwise, whatever the last batch left
+func resizeVector(size int, vec *api.ColumnVector) {
+	vec.Vector = vec.Vector[:size]
+	for i := range vec.Vector {
+		vec.Vector[i].Null = false
 	}
 }
 
-- 
2.43.0


From 944d82f830422a7cbf321e16ec90798d003b2383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:02 +0000
Subject: [PATCH 33/88] fix: read the elements of all lists and maps of a batch

---
 orc/column/list.go | 32 +++++++++++++++++++-------------
 orc/column/map.go  | 29 +++++++++--------------------
 orc/stripe.go      |  7 ++-----
 3 files changed, 30 insertions(+), 38 deletions(-)

diff --git a/orc/column/list.go b/orc/column/list.go
index 2bd9d7d..d80756b 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -49,6 +49,7 @@ func (r *ListV2Reader) SetChild(child Reader) {
 
 func (r *ListV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
+	var total int
 
 	for i := 0; i < len(vec.Vector); i++ {
 		if r.present != nil && !vec.Vector[i].Null { // no present bit for null parent
@@ -65,24 +66,29 @@ func (r *ListV2Reader) NextBatch(vec *api.ColumnVector) error {
 				return err
 			}
 			vec.Vector[i].V = v
+			total += int(v)
 		}
+	}
 
-		// prepare vector for child
-		vec.Children[0].Vector = vec.Children[0].Vector[:0]
-		if vec.Vector[i].Null {
-			vec.Children[0].Vector = append(vec.Children[0].Vector, api.Value{Null: true})
-		} else {
-			l := vec.Vector[i].V.(uint64)
-			for j := 0; j < int(l); j++ {
-				vec.Children[0].Vector = append(vec.Children[0].Vector, api.Value{})
-			}
-		}
+	// elements of all lists follow each other in the vector of child
+	resizeElements(vec.Children[0], total)
+	return r.child.NextBatch(vec.Children[0])
+}
 
-		if err := r.child.NextBatch(vec.Children[0]); err != nil {
-			return err
+func resizeElements(vec *api.ColumnVector, size int) {
+	if vec.Kind == pb.Type_STRUCT {
+		for _, c := range vec.Children {
+			resizeElements(c, size)
+		}
+		if vec.Vector == nil { // struct without nulls
+			return
 		}
 	}
-	return nil
+
+	vec.Vector = vec.Vector[:0]
+	for i := 0; i < size; i++ {
+		vec.Vector = append(vec.Vector, api.Value{})
+	}
 }
 
 func (r *ListV2Reader) Skip(rows uint64) error {
diff --git a/orc/column/map.go b/orc/column/map.go
index 47e3bc1..7b363d0 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -57,6 +57,7 @@ func (r *MapV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 
 func (r *MapV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
+	var total int
 
 	for i := 0; i < len(vec.Vector); i++ {
 		if r.present != nil && !vec.Vector[i].Null { // no present bit for null parent
@@ -73,29 +74,17 @@ func (r *MapV2Reader) NextBatch(vec *api.ColumnVector) error {
 				return err
 			}
 			vec.Vector[i].V = int(v)
+			total += int(v)
 		}
+	}
 
-		// prepare key/value vector
-		vec.Children[0].Vector = vec.Children[0].Vector[:0]
-		vec.Children[1].Vector = vec.Children[1].Vector[:0]
-		if vec.Vector[i].Null {
-			vec.Children[0].Vector = append(vec.Children[0].Vector, api.Value{Null: true})
-			vec.Children[1].Vector = append(vec.Children[1].Vector, api.Value{Null: true})
-		} else {
-			for j := 0; j < vec.Vector[i].V.(int); j++ {
-				vec.Children[0].Vector = append(vec.Children[0].Vector, api.Value{})
-				vec.Children[1].Vector = append(vec.Children[1].Vector, api.Value{})
-			}
-		}
-
-		if err = r.key.NextBatch(vec.Children[0]); err != nil {
-			return err
-		}
-		if err = r.value.NextBatch(vec.Children[1]); err != nil {
-			return err
-		}
+	// keys and values of all maps follow each other in the vectors of children
+	resizeElements(vec.Children[0], total)
+	resizeElements(vec.Children[1], total)
+	if err = r.key.NextBatch(vec.Children[0]); err != nil {
+		return err
 	}
-	return nil
+	return r.value.NextBatch(vec.Children[1])
 }
 
 func (r *MapV2Reader) Skip(rows uint64) error {
diff --git a/orc/stripe.go b/orc/stripe.go
index 78745cd..8e8dac6 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -361,14 +361,11 @@ func (stripe *stripeReader) setVectorSize(size int, vec *api.ColumnVector) {
 
 	case pb.Type_LIST:
 		resizeVector(size, vec)
-		// list's children maybe struct
-		vec.Children[0].Vector = vec.Children[0].Vector[:0]
+		// elements are sized by list reader
 
 	case pb.Type_MAP:
 		resizeVector(size, vec)
-		// toClarify: will map's children be struct or just primary?
-		vec.Children[0].Vector = vec.Children[0].Vector[:0]
-		vec.Children[1].Vector = vec.Children[1].Vector[:0]
+		// keys and values are sized by map reader
 
 	case pb.Type_UNION:
 		panic("not impl")
-- 
2.43.0


From 057d2ead843c8a016fd9fa2adc389865581dec0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:03 +0000
Subject: [PATCH 34/88] fix: skip every key and value of a map once

---
 orc/column/map.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/orc/column/map.go b/orc/column/map.go
index 7b363d0..b26e122 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -103,13 +103,11 @@ func (r *MapV2Reader) Skip(rows uint64) error {
 			if err != nil {
 				return err
 			}
-			for j := 0; j < int(l); j++ {
-				if err := r.key.Skip(l); err != nil {
-					return err
-				}
-				if err := r.value.Skip(l); err != nil {
-					return err
-				}
+			if err := r.key.Skip(l); err != nil {
+				return err
+			}
+			if err := r.value.Skip(l); err != nil {
+				return err
 			}
 		}
 	}
-- 
2.43.0


From cf96532cff11a020ceb1930cfd899241cfb10fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:05 +0000
Subject: [PATCH 35/88] fix: store the decimals read into the batch

---
 orc/column/decimal.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index da20924..3a1f191 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -251,9 +251,7 @@ func (r *DecimalV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if scale, err = r.secondary.NextInt64(); err != nil {
 				return err
 			}
-			d:= vec.Vector[i].V.(api.Decimal64)
-			d.Precision= precision
-			d.Scale= int(scale)
+			vec.Vector[i].V = api.Decimal64{Precision: precision, Scale: int(scale)}
 		}
 	}
 	return nil
-- 
2.43.0


From c2ab0efe23c3ba177499af6b34034450b97022e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:07 +0000
Subject: [PATCH 36/88] fix: store the timestamps read into the batch

---
 orc/column/time.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/orc/column/time.go b/orc/column/time.go
index de50c71..48f6956 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -502,9 +502,10 @@ func (r *TimestampV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if ns, err = r.secondary.NextUInt64(); err != nil {
 				return err
 			}
-			t:= vec.Vector[i].V.(api.Timestamp)
-			t.Seconds= s
-			t.Nanos= api.DecodingTimestampNanos(ns)
+			t, _ := vec.Vector[i].V.(api.Timestamp) // keep location if there is
+			t.Seconds = s
+			t.Nanos = api.DecodingTimestampNanos(ns)
+			vec.Vector[i].V = t
 		}
 	}
 	return nil
-- 
2.43.0


From 5791941a4ae01b9cff69a35311dd9ef21bed78ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:09 +0000
Subject: [PATCH 37/88] fix: report read errors when binary values are skipped

---
 orc/column/binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index e932af0..0e0d795 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -204,7 +204,7 @@ func (r *BinaryV2Reader) Skip(rows uint64) error {
 				return err
 			}
 			if _, err = r.data.NextBytes(l); err != nil {
-				return nil
+				return err
 			}
 		}
 	}
-- 
2.43.0


From e30d39fec127f608dd8a7d4ae867025bd98273ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:11 +0000
Subject: [PATCH 38/88] fix: seek to the start of a date column

---
 orc/column/time.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/orc/column/time.go b/orc/column/time.go
index 48f6956..350a503 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -221,6 +221,15 @@ func (r *DateV2Reader) Skip(rows uint64) error {
 }
 
 func (r *DateV2Reader) SeekStride(stride int) error {
+	if stride == 0 {
+		if r.present != nil {
+			if err := r.present.Seek(0, 0, 0, 0); err != nil {
+				return err
+			}
+		}
+		return r.data.Seek(0, 0, 0)
+	}
+
 	pos, err := r.getStridePositions(stride)
 	if err != nil {
 		return err
-- 
2.43.0


From 52005d07617793feed4a99fbe4b2af3bbf442a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:13 +0000
Subject: [PATCH 39/88] fix: seek in streams without data

---
 orc/stream/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index c1f8c2c..b3cd419 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -99,6 +99,9 @@ func (r *reader) seek(chunk uint64, chunkOffset uint64) error {
 		return err
 	}
 	r.readLength = chunk
+	if r.readLength >= r.info.GetLength() { // nothing to read, like stream without values
+		return nil
+	}
 	if err := r.readAChunk(); err != nil {
 		return err
 	}
-- 
2.43.0


From 8ec12129350fca766efb6c97189f1a080ef28063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:43 +0000
Subject: [PATCH 40/88] fix: read columns whose empty streams are omitted

---
 orc/column/string.go |  2 +-
 orc/column/time.go   |  2 +-
 orc/stream/bool.go   |  9 +++++++++
 orc/stream/byte.go   |  9 +++++++++
 orc/stream/float.go  | 12 ++++++++++++
 orc/stream/int.go    | 24 ++++++++++++++++++++++++
 orc/stream/reader.go |  3 +++
 orc/stream/string.go |  9 +++++++++
 orc/stream/time.go   | 12 ++++++++++++
 9 files changed, 80 insertions(+), 2 deletions(-)

diff --git a/orc/column/string.go b/orc/column/string.go
index e6b68ac..d1cdbf6 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -337,7 +337,7 @@ func (r *StringDirectV2Reader) SeekStride(stride int) error {
 }
 
 func (r *StringDirectV2Reader) Close() {
-	if r.schema.HasNulls {
+	if r.present != nil {
 		r.present.Close()
 	}
 	r.data.Close()
diff --git a/orc/column/time.go b/orc/column/time.go
index 350a503..5043612 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -142,7 +142,7 @@ func (w dateV2Writer) Size() int {
 }
 
 func NewDateV2Reader(schema *api.TypeDescription, opts *config.ReaderOptions, f orcio.File) Reader {
-	return &DateV2Reader{reader: reader{schema: schema, opts: opts, f: f}}
+	return &DateV2Reader{reader: reader{schema: schema, opts: opts, f: f}, data: stream.NoDateReader}
 }
 
 type DateV2Reader struct {
diff --git a/orc/stream/bool.go b/orc/stream/bool.go
index aab1535..067e578 100644
--- a/orc/stream/bool.go
+++ b/orc/stream/bool.go
@@ -18,6 +18,9 @@ func NewBoolReader(opts *config.ReaderOptions, info *pb.Stream, start uint64, in
 }
 
 func (r *BoolReader) Next() (v bool, err error) {
+	if r == nil {
+		return false, errMissingStream
+	}
 	if r.pos >= len(r.values) {
 		r.pos = 0
 
@@ -33,6 +36,9 @@ func (r *BoolReader) Next() (v bool, err error) {
 }
 
 func (r *BoolReader) Seek(chunkOffset uint64, offset uint64, byteRLOffset uint64, valueOffset uint64) error {
+	if r == nil {
+		return nil
+	}
 	if err := r.reader.Seek(chunkOffset, offset, byteRLOffset); err != nil {
 		return err
 	}
@@ -51,5 +57,8 @@ func (r *BoolReader) Finished() bool {
 }
 
 func (r *BoolReader) Close() {
+	if r == nil {
+		return
+	}
 	r.reader.Close()
 }
diff --git a/orc/stream/byte.go b/orc/stream/byte.go
index b164bab..d05d1df 100644
--- a/orc/stream/byte.go
+++ b/orc/stream/byte.go
@@ -19,6 +19,9 @@ func NewByteReader(opts *config.ReaderOptions, info *pb.Stream, start uint64, in
 }
 
 func (r *ByteReader) Next() (v byte, err error) {
+	if r == nil {
+		return 0, errMissingStream
+	}
 	if r.consumed == len(r.values) {
 		r.values = r.values[:0]
 		r.consumed = 0
@@ -35,6 +38,9 @@ func (r *ByteReader) Next() (v byte, err error) {
 }
 
 func (r *ByteReader) Seek(chunkOffset uint64, offset uint64, valueOffset uint64) error {
+	if r == nil {
+		return nil
+	}
 	if err := r.stream.seek(chunkOffset, offset); err != nil {
 		return err
 	}
@@ -53,5 +59,8 @@ func (r *ByteReader) Finished() bool {
 }
 
 func (r *ByteReader) Close() {
+	if r == nil {
+		return
+	}
 	r.stream.Close()
 }
diff --git a/orc/stream/float.go b/orc/stream/float.go
index 9b539b5..26dd057 100644
--- a/orc/stream/float.go
+++ b/orc/stream/float.go
@@ -19,6 +19,9 @@ func NewFloatReader(opts *config.ReaderOptions, info *pb.Stream, start uint64, i
 }
 
 func (r *FloatReader) NextFloat() (v float32, err error) {
+	if r == nil {
+		return 0, errMissingStream
+	}
 	if r.is64 {
 		return 0, errors.Errorf("column %d is 64 bit reader", r.stream.info.GetColumn())
 	}
@@ -26,6 +29,9 @@ func (r *FloatReader) NextFloat() (v float32, err error) {
 }
 
 func (r *FloatReader) NextDouble() (v float64, err error) {
+	if r == nil {
+		return 0, errMissingStream
+	}
 	if !r.is64 {
 		return 0, errors.New("is 32 bit reader")
 	}
@@ -40,6 +46,9 @@ func (r FloatReader) Finished() bool {
 }
 
 func (r *FloatReader) Seek(chunk uint64, chunkOffset uint64) error {
+	if r == nil {
+		return nil
+	}
 	if r.stream==nil {
 		return errors.New("stream not init")
 	}
@@ -52,6 +61,9 @@ func (r *FloatReader) Seek(chunk uint64, chunkOffset uint64) error {
 }
 
 func (r *FloatReader) Close() {
+	if r == nil {
+		return
+	}
 	if r.stream!=nil {
 		r.stream.Close()
 	}
diff --git a/orc/stream/int.go b/orc/stream/int.go
index bda74c3..2d27567 100644
--- a/orc/stream/int.go
+++ b/orc/stream/int.go
@@ -25,6 +25,9 @@ func NewIntRLV2Reader(opts *config.ReaderOptions, info *pb.Stream, start uint64,
 }
 
 func (r *IntRLV2Reader) NextInt64() (v int64, err error) {
+	if r == nil {
+		return 0, errMissingStream
+	}
 	if !r.signed {
 		return 0, errors.New("should be singed int")
 	}
@@ -42,6 +45,9 @@ func (r *IntRLV2Reader) NextInt64() (v int64, err error) {
 }
 
 func (r *IntRLV2Reader) NextUInt64() (v uint64, err error) {
+	if r == nil {
+		return 0, errMissingStream
+	}
 	if r.signed {
 		return 0, errors.New("should be un-signed int")
 	}
@@ -78,6 +84,9 @@ func (r *IntRLV2Reader) GetAllUInts() ([]uint64, error) {
 }
 
 func (r *IntRLV2Reader) Finished() bool {
+	if r == nil {
+		return true
+	}
 	if r.signed {
 		return r.stream.finished() && (r.pos == len(r.values))
 	} else {
@@ -86,6 +95,9 @@ func (r *IntRLV2Reader) Finished() bool {
 }
 
 func (r *IntRLV2Reader) Seek(chunkOffset, offset, pos uint64) error {
+	if r == nil {
+		return nil
+	}
 	if err := r.stream.seek(chunkOffset, offset); err != nil {
 		return err
 	}
@@ -111,6 +123,9 @@ func (r *IntRLV2Reader) Seek(chunkOffset, offset, pos uint64) error {
 }
 
 func (r *IntRLV2Reader) Close() {
+	if r == nil {
+		return
+	}
 	r.stream.Close()
 }
 
@@ -123,6 +138,9 @@ func NewVarIntReader(opts *config.ReaderOptions, info *pb.Stream, start uint64,
 }
 
 func (r *Varint64Reader) NextInt64() (v int64, err error) {
+	if r == nil {
+		return 0, errMissingStream
+	}
 	v, err = encoding.DecodeVarInt64(r.stream)
 	return
 }
@@ -132,6 +150,9 @@ func (r *Varint64Reader) Finished() bool {
 }
 
 func (r *Varint64Reader) Seek(offset, uncompressedOffset, pos uint64) error {
+	if r == nil {
+		return nil
+	}
 	if err := r.stream.seek(offset, uncompressedOffset); err != nil {
 		return err
 	}
@@ -140,5 +161,8 @@ func (r *Varint64Reader) Seek(offset, uncompressedOffset, pos uint64) error {
 }
 
 func (r *Varint64Reader) Close() {
+	if r == nil {
+		return
+	}
 	r.stream.Close()
 }
diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index b3cd419..7d41ae5 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -17,6 +17,9 @@ func SetLogLevel(level log.Level) {
 	logger.SetLevel(level)
 }
 
+// stream readers can be nil: writers may omit streams without values, it's an error to read a value from them only
+var errMissingStream = errors.New("stream is missing")
+
 type reader struct {
 	info *pb.Stream
 
diff --git a/orc/stream/string.go b/orc/stream/string.go
index 8bbbc34..7cb3bff 100644
--- a/orc/stream/string.go
+++ b/orc/stream/string.go
@@ -16,6 +16,9 @@ func NewStringContentsReader(opts *config.ReaderOptions, info *pb.Stream, start
 }
 
 func (r *StringContentsReader) NextBytes(len uint64) (v []byte, err error) {
+	if r == nil {
+		return nil, errMissingStream
+	}
 	return encoding.DecodeBytes(r.stream, int(len))
 }
 
@@ -48,6 +51,9 @@ func (r *StringContentsReader) getAllString(byteLengths []uint64) (vs []string,
 }
 
 func (r *StringContentsReader) Seek(chunk uint64, chunkOffset uint64) error {
+	if r == nil {
+		return nil
+	}
 	if err := r.stream.seek(chunk, chunkOffset); err != nil {
 		return err
 	}
@@ -55,5 +61,8 @@ func (r *StringContentsReader) Seek(chunk uint64, chunkOffset uint64) error {
 }
 
 func (r *StringContentsReader) Close() {
+	if r == nil {
+		return
+	}
 	r.stream.Close()
 }
diff --git a/orc/stream/time.go b/orc/stream/time.go
index 7dbb189..07bce59 100644
--- a/orc/stream/time.go
+++ b/orc/stream/time.go
@@ -12,6 +12,9 @@ func NewDateV2Reader(opts *config.ReaderOptions, info *pb.Stream, start uint64,
 	return &dateV2Reader{stream: newReader(opts, info, start, in), decoder: encoding.NewDateV2DeCoder()}
 }
 
+// NoDateReader is the reader of a missing stream
+var NoDateReader DateReader = (*dateV2Reader)(nil)
+
 type dateV2Reader struct {
 	stream   *reader
 	values   []api.Date
@@ -24,10 +27,16 @@ func (r dateV2Reader) Finished() bool {
 }
 
 func (r *dateV2Reader) Close() {
+	if r == nil {
+		return
+	}
 	r.stream.Close()
 }
 
 func (r *dateV2Reader) Next() (date api.Date, err error) {
+	if r == nil {
+		return api.Date{}, errMissingStream
+	}
 	if r.consumed == len(r.values) {
 		r.consumed = 0
 		if r.values, err = r.decoder.Decode(r.stream); err != nil {
@@ -41,6 +50,9 @@ func (r *dateV2Reader) Next() (date api.Date, err error) {
 }
 
 func (r *dateV2Reader) Seek(chunk uint64, chunkOffset uint64, offset uint64) error {
+	if r == nil {
+		return nil
+	}
 	if err := r.stream.seek(chunk, chunkOffset); err != nil {
 		return err
 	}
-- 
2.43.0


From 8defbf2e5fe3b5586affbcd9c84bd4819d64d83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:53 +0000
Subject: [PATCH 41/88] fix: deliver the last row of every stripe and file

---
 orc/reader.go | 29 +++++++++++++----------------
 orc/stripe.go |  2 +-
 2 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index 6cf7507..f3444d4 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -172,28 +172,25 @@ func (br *batchReader) Close() {
 func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 	batch.Clear()
 
-	if br.cursor >= br.numberOfRows-1 {
+	if br.cursor >= br.numberOfRows {
 		return true, nil
 	}
+	if batch.Cap() == 0 {
+		return false, errors.New("batch has no capacity")
+	}
+	if br.stripeIndex >= len(br.stripes) {
+		return false, errors.Errorf("no stripe left at row %d of %d", br.cursor, br.numberOfRows)
+	}
 
-	for br.stripeIndex < len(br.stripes) {
-		stripeEnd, err := br.stripes[br.stripeIndex].next(batch)
-		if err != nil {
-			return stripeEnd, err
-		}
-		if stripeEnd {
-			br.stripeIndex++
-			break
-		}
-		if batch.Len() >= batch.Cap() {
-			break
-		}
+	stripeEnd, err := br.stripes[br.stripeIndex].next(batch)
+	if err != nil {
+		return false, err
 	}
-	if br.stripeIndex == len(br.stripes) {
-		br.stripeIndex--
+	if stripeEnd {
+		br.stripeIndex++
 	}
 	br.cursor += uint64(batch.Len())
-	return br.cursor >= br.numberOfRows-1, nil
+	return br.cursor >= br.numberOfRows, nil
 }
 
 func (br *batchReader) Seek(rowNumber uint64) error {
diff --git a/orc/stripe.go b/orc/stripe.go
index 8e8dac6..860ffbd 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -337,7 +337,7 @@ func (stripe *stripeReader) next(vec *api.ColumnVector) (end bool, err error) {
 
 	stripe.cursor += uint64(vec.Len())
 	logger.Debugf("stripe %d reading cursor %d", stripe.index, stripe.cursor)
-	end = stripe.cursor+1 >= stripe.numberOfRows
+	end = stripe.cursor >= stripe.numberOfRows
 	return
 }
 
-- 
2.43.0


From 97195a015e8116e3f031807b0bd8a39dd9248fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:29 +0000
Subject: [PATCH 42/88] fix: seek to the requested row of any stripe

---
 orc/reader.go | 18 ++++++++++++++----
 orc/stripe.go | 28 +++++++++++++++++-----------
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index f3444d4..bffa361 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -194,17 +194,27 @@ func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 }
 
 func (br *batchReader) Seek(rowNumber uint64) error {
-	if rowNumber > br.numberOfRows {
-		return errors.New("row number larger than number of rows")
+	if rowNumber >= br.numberOfRows {
+		return errors.New("row number not less than number of rows")
 	}
 	var rows uint64
 	for i := 0; i < len(br.stripes); i++ {
 		if rows+br.stripes[i].numberOfRows > rowNumber {
-			return br.stripes[i].Seek(rowNumber - rows)
+			if err := br.stripes[i].Seek(rowNumber - rows); err != nil {
+				return err
+			}
+			// stripes after that are read from their start
+			for _, s := range br.stripes[i+1:] {
+				if err := s.rewind(); err != nil {
+					return err
+				}
+			}
+			br.stripeIndex = i
+			br.cursor = rowNumber
+			return nil
 		}
 		rows += br.stripes[i].numberOfRows
 	}
-	br.cursor = rowNumber
 	return errors.New("no row found")
 }
 
diff --git a/orc/stripe.go b/orc/stripe.go
index 860ffbd..a1a77d4 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -215,6 +215,8 @@ type stripeReader struct {
 
 	numberOfRows uint64
 	cursor       uint64
+
+	touched bool // streams are not at their start any more
 }
 
 func newStripeReader(f orcio.File, schemas []*api.TypeDescription, ropts *config.ReaderOptions, bopt *api.BatchOption,
@@ -330,6 +332,7 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 // a stripe is typically  ~200MB
 func (stripe *stripeReader) next(vec *api.ColumnVector) (end bool, err error) {
 	stripe.prepareVector(vec)
+	stripe.touched = true
 
 	if err = stripe.columnReader.NextBatch(vec); err != nil {
 		return
@@ -384,23 +387,26 @@ func resizeVector(size int, vec *api.ColumnVector) {
 
 // locate rows in this stripe
 func (stripe *stripeReader) Seek(rowNumber uint64) error {
-	var offset uint64
-	var stride uint64
-
-	if rowNumber < uint64(stripe.ropts.IndexStride) {
-		offset = rowNumber
-	} else {
-		stride := rowNumber / uint64(stripe.ropts.IndexStride)
-		offset = rowNumber % (stride * uint64(stripe.ropts.IndexStride))
+	// improve: start from the stride of row number
+	stripe.touched = true
+	if err := stripe.columnReader.SeekStride(0); err != nil {
+		return err
 	}
-
-	if err := stripe.columnReader.SeekStride(int(stride)); err != nil {
+	if err := stripe.columnReader.Skip(rowNumber); err != nil {
 		return err
 	}
+	stripe.cursor = rowNumber
+	return nil
+}
 
-	if err := stripe.columnReader.Skip(offset); err != nil {
+func (stripe *stripeReader) rewind() error {
+	if !stripe.touched {
+		return nil
+	}
+	if err := stripe.Seek(0); err != nil {
 		return err
 	}
+	stripe.touched = false
 	return nil
 }
 
-- 
2.43.0


From d5e1979c855f40563abc95523b3c728ab34a56e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:30 +0000
Subject: [PATCH 43/88] fix: return no rows after a failed read until a seek
 succeeds

---
 orc/reader.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/orc/reader.go b/orc/reader.go
index bffa361..2329eed 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -123,6 +123,9 @@ type batchReader struct {
 
 	numberOfRows uint64
 	cursor       uint64
+
+	// position is unknown after a failure, no rows until a seek succeeds
+	err error
 }
 
 func (br *batchReader) initStripes(infos []*pb.StripeInformation) error {
@@ -172,6 +175,9 @@ func (br *batchReader) Close() {
 func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 	batch.Clear()
 
+	if br.err != nil {
+		return false, br.err
+	}
 	if br.cursor >= br.numberOfRows {
 		return true, nil
 	}
@@ -184,6 +190,8 @@ func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 
 	stripeEnd, err := br.stripes[br.stripeIndex].next(batch)
 	if err != nil {
+		batch.Clear()
+		br.err = err
 		return false, err
 	}
 	if stripeEnd {
@@ -201,14 +209,17 @@ func (br *batchReader) Seek(rowNumber uint64) error {
 	for i := 0; i < len(br.stripes); i++ {
 		if rows+br.stripes[i].numberOfRows > rowNumber {
 			if err := br.stripes[i].Seek(rowNumber - rows); err != nil {
+				br.err = err
 				return err
 			}
 			// stripes after that are read from their start
 			for _, s := range br.stripes[i+1:] {
 				if err := s.rewind(); err != nil {
+					br.err = err
 					return err
 				}
 			}
+			br.err = nil
 			br.stripeIndex = i
 			br.cursor = rowNumber
 			return nil
-- 
2.43.0


From 824887c50035410ebbe31bbb311f3fc0523eb957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:33 +0000
Subject: [PATCH 44/88] fix: load the whole dictionary after a failed read

---
 orc/column/string.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/orc/column/string.go b/orc/column/string.go
index d1cdbf6..c55cc15 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -390,6 +390,14 @@ func (r *StringDictionaryV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 
 	if !r.dictLoaded {
+		// start over, loading may have failed halfway
+		r.dictStrings = nil
+		if err = r.length.Seek(0, 0, 0); err != nil {
+			return err
+		}
+		if err = r.dict.Seek(0, 0); err != nil {
+			return err
+		}
 		for ; !r.length.Finished(); {
 			var l uint64
 			if l, err = r.length.NextUInt64(); err != nil {
-- 
2.43.0


From 50a2297e58792b0f8bffb01159ebbaa3696a91a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:35 +0000
Subject: [PATCH 45/88] fix: report dictionary indexes out of range

---
 orc/column/string.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/column/string.go b/orc/column/string.go
index c55cc15..7c4d257 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -425,6 +425,9 @@ func (r *StringDictionaryV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if data, err = r.data.NextUInt64(); err != nil {
 				return err
 			}
+			if data >= uint64(len(r.dictStrings)) {
+				return errors.Errorf("dictionary index %d out of range %d", data, len(r.dictStrings))
+			}
 			vec.Vector[i].V = r.dictStrings[data]
 		}
 	}
-- 
2.43.0


From 03b9620c6b21fa697a0bccb49244dcd665644290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:00 +0000
Subject: [PATCH 46/88] fix: close the file of a stream that cannot be opened

---
 orc/column/binary.go  |  8 +++-----
 orc/column/bool.go    |  8 +++-----
 orc/column/byte.go    |  8 +++-----
 orc/column/decimal.go |  8 +++-----
 orc/column/float.go   |  8 +++-----
 orc/column/int.go     |  8 +++-----
 orc/column/list.go    |  8 +++-----
 orc/column/map.go     |  9 +++------
 orc/column/reader.go  | 22 ++++++++++++++++++++++
 orc/column/string.go  | 16 ++++++----------
 orc/column/struct.go  |  8 +++-----
 orc/column/time.go    | 16 ++++++----------
 12 files changed, 61 insertions(+), 66 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index 0e0d795..f1743cc 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -161,14 +161,12 @@ type BinaryV2Reader struct {
 	length  *stream.IntRLV2Reader
 }
 
-func (r *BinaryV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+func (r *BinaryV2Reader) InitStream(info *pb.Stream, startOffset uint64) (err error) {
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err = f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
+	defer closeIfFailed(f, &err)
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
diff --git a/orc/column/bool.go b/orc/column/bool.go
index 1fae6ac..e2decc4 100644
--- a/orc/column/bool.go
+++ b/orc/column/bool.go
@@ -147,14 +147,12 @@ type BoolReader struct {
 	data    *stream.BoolReader
 }
 
-func (r *BoolReader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+func (r *BoolReader) InitStream(info *pb.Stream, startOffset uint64) (err error) {
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err = f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
+	defer closeIfFailed(f, &err)
 
 	if info.GetKind() == pb.Stream_PRESENT {
 		if !r.schema.HasNulls {
diff --git a/orc/column/byte.go b/orc/column/byte.go
index 9cc92ef..c081341 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -143,14 +143,12 @@ func NewByteReader(schema *api.TypeDescription, opts *config.ReaderOptions, f or
 	return &ByteReader{reader: reader{opts: opts, schema: schema, f: f}}
 }
 
-func (r *ByteReader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+func (r *ByteReader) InitStream(info *pb.Stream, startOffset uint64) (err error) {
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err = f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
+	defer closeIfFailed(f, &err)
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index 3a1f191..203863a 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -207,14 +207,12 @@ type DecimalV2Reader struct {
 	secondary *stream.IntRLV2Reader
 }
 
-func (r *DecimalV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+func (r *DecimalV2Reader) InitStream(info *pb.Stream, startOffset uint64) (err error) {
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err = f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
+	defer closeIfFailed(f, &err)
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
diff --git a/orc/column/float.go b/orc/column/float.go
index 3506993..ac259e6 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -23,14 +23,12 @@ type FloatReader struct {
 	is64    bool
 }
 
-func (r *FloatReader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+func (r *FloatReader) InitStream(info *pb.Stream, startOffset uint64) (err error) {
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err = f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
+	defer closeIfFailed(f, &err)
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
diff --git a/orc/column/int.go b/orc/column/int.go
index d26656c..5564260 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -197,14 +197,12 @@ type IntV2Reader struct {
 	bits    int
 }
 
-func (r *IntV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+func (r *IntV2Reader) InitStream(info *pb.Stream, startOffset uint64) (err error) {
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
+	defer closeIfFailed(f, &err)
 
 	if r.schema.Encoding == pb.ColumnEncoding_DIRECT {
 		err := errors.New("int reader encoding direct not impl")
diff --git a/orc/column/list.go b/orc/column/list.go
index d80756b..9da1f1f 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -23,14 +23,12 @@ type ListV2Reader struct {
 	child Reader
 }
 
-func (r *ListV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+func (r *ListV2Reader) InitStream(info *pb.Stream, startOffset uint64) (err error) {
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
+	defer closeIfFailed(f, &err)
 
 	if info.GetKind() == pb.Stream_PRESENT {
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
diff --git a/orc/column/map.go b/orc/column/map.go
index b26e122..f0e4dc4 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -7,7 +7,6 @@ import (
 	"github.com/patrickhuang888/goorc/orc/stream"
 	"github.com/patrickhuang888/goorc/pb/pb"
 	"github.com/pkg/errors"
-	"io"
 )
 
 func NewMapV2Reader(schema *api.TypeDescription, opts *config.ReaderOptions, f orcio.File) Reader {
@@ -32,14 +31,12 @@ func (r *MapV2Reader) SetValue(value Reader) {
 	r.value = value
 }
 
-func (r *MapV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+func (r *MapV2Reader) InitStream(info *pb.Stream, startOffset uint64) (err error) {
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
+	defer closeIfFailed(f, &err)
 
 	if info.GetKind() == pb.Stream_PRESENT {
 		if !r.schema.HasNulls {
diff --git a/orc/column/reader.go b/orc/column/reader.go
index d2635ad..cea917d 100644
--- a/orc/column/reader.go
+++ b/orc/column/reader.go
@@ -30,6 +30,28 @@ func (r *reader) String() string {
 	return sb.String()
 }
 
+// openStream opens the file once more, at the start of a stream
+func (r *reader) openStream(startOffset uint64) (orcio.File, error) {
+	f, err := r.f.Clone()
+	if err != nil {
+		return nil, err
+	}
+	if _, err = f.Seek(int64(startOffset), io.SeekStart); err != nil {
+		closeIfFailed(f, &err)
+		return nil, err
+	}
+	return f, nil
+}
+
+func closeIfFailed(f orcio.File, err *error) {
+	if *err == nil {
+		return
+	}
+	if cerr := f.Close(); cerr != nil {
+		logger.Warn(cerr)
+	}
+}
+
 func (r *reader) InitIndex(startOffset uint64, length uint64) error {
 	if _, err := r.f.Seek(int64(startOffset), io.SeekStart); err != nil {
 		return errors.WithStack(err)
diff --git a/orc/column/string.go b/orc/column/string.go
index 7c4d257..7816a06 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -190,14 +190,12 @@ type StringDirectV2Reader struct {
 	length  *stream.IntRLV2Reader
 }
 
-func (r *StringDirectV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+func (r *StringDirectV2Reader) InitStream(info *pb.Stream, startOffset uint64) (err error) {
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
+	defer closeIfFailed(f, &err)
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
@@ -359,14 +357,12 @@ type StringDictionaryV2Reader struct {
 	dictLoaded  bool
 }
 
-func (r *StringDictionaryV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+func (r *StringDictionaryV2Reader) InitStream(info *pb.Stream, startOffset uint64) (err error) {
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
+	defer closeIfFailed(f, &err)
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
diff --git a/orc/column/struct.go b/orc/column/struct.go
index 6c19cb5..20af337 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -28,14 +28,12 @@ func (r *StructReader) AddChild(child Reader) {
 	r.children = append(r.children, child)
 }
 
-func (r *StructReader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+func (r *StructReader) InitStream(info *pb.Stream, startOffset uint64) (err error) {
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
+	defer closeIfFailed(f, &err)
 
 	if info.GetKind() == pb.Stream_PRESENT {
 		if !r.schema.HasNulls {
diff --git a/orc/column/time.go b/orc/column/time.go
index 5043612..39c7904 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -152,14 +152,12 @@ type DateV2Reader struct {
 	data    stream.DateReader
 }
 
-func (r *DateV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+func (r *DateV2Reader) InitStream(info *pb.Stream, startOffset uint64) (err error) {
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
+	defer closeIfFailed(f, &err)
 
 	if r.schema.Encoding != pb.ColumnEncoding_DIRECT_V2 {
 		return errors.New("encoding error")
@@ -466,14 +464,12 @@ type TimestampV2Reader struct {
 	secondary *stream.IntRLV2Reader
 }
 
-func (r *TimestampV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	ic, err := r.f.Clone()
+func (r *TimestampV2Reader) InitStream(info *pb.Stream, startOffset uint64) (err error) {
+	ic, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err = ic.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
+	defer closeIfFailed(ic, &err)
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-- 
2.43.0


From 6722959f638c8f4aaa8b64d22c32e71a57a20864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:02 +0000
Subject: [PATCH 47/88] fix: close all streams of lists and maps

---
 orc/column/list.go | 3 +++
 orc/column/map.go  | 9 +++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/orc/column/list.go b/orc/column/list.go
index 9da1f1f..7473146 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -188,6 +188,9 @@ func (r *ListV2Reader) Close() {
 		r.present.Close()
 	}
 	r.length.Close()
+	if r.child != nil {
+		r.child.Close()
+	}
 }
 
 func NewListV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
diff --git a/orc/column/map.go b/orc/column/map.go
index f0e4dc4..2175e1e 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -193,6 +193,11 @@ func (r *MapV2Reader) Close() {
 	if r.present != nil {
 		r.present.Close()
 	}
-	r.key.Close()
-	r.value.Close()
+	r.length.Close()
+	if r.key != nil {
+		r.key.Close()
+	}
+	if r.value != nil {
+		r.value.Close()
+	}
 }
-- 
2.43.0


From 76e1a0bede1640b790c0547ecfdeb544db7a06d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:55 +0000
Subject: [PATCH 48/88] fix: close the opened streams when a batch reader
 cannot be created

---
 orc/reader.go |  1 +
 orc/stripe.go | 59 ++++++++++++++++++++++++++++-----------------------
 2 files changed, 34 insertions(+), 26 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index 2329eed..731cc6d 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -84,6 +84,7 @@ func (r *reader) CreateBatchReader(bopt *api.BatchOption) (BatchReader, error) {
 	br := &batchReader{f: r.f, numberOfRows: r.numberOfRows, ropts: r.opts, bopt: bopt, schemas: r.schemas}
 
 	if err := br.initStripes(r.stripes); err != nil {
+		br.Close() // stripes opened so far
 		return nil, err
 	}
 	return br, nil
diff --git a/orc/stripe.go b/orc/stripe.go
index a1a77d4..76c7309 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -274,32 +274,6 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 		}
 	}
 
-	// streams has sequence
-	indexStart := info.GetOffset()
-	dataStart := indexStart + info.GetIndexLength()
-	for _, streamInfo := range footer.GetStreams() {
-		id := streamInfo.GetColumn()
-		streamKind := streamInfo.GetKind()
-		length := streamInfo.GetLength()
-
-		if streamKind == pb.Stream_ROW_INDEX {
-			if readers[id] != nil {
-				if err := readers[id].InitIndex(indexStart, length); err != nil {
-					return err
-				}
-			}
-			indexStart += length
-			continue
-		}
-
-		if readers[id] != nil {
-			if err := readers[id].InitStream(streamInfo, dataStart); err != nil {
-				return err
-			}
-		}
-		dataStart += length
-	}
-
 	// build tree
 	for _, schema := range stripe.schemas {
 		for i, c := range schema.Children {
@@ -326,6 +300,39 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 		}
 	}
 
+	if err := stripe.initStreams(info, footer, readers); err != nil {
+		stripe.Close() // streams opened so far
+		return err
+	}
+	return nil
+}
+
+func (stripe *stripeReader) initStreams(info *pb.StripeInformation, footer *pb.StripeFooter, readers []column.Reader) error {
+	// streams has sequence
+	indexStart := info.GetOffset()
+	dataStart := indexStart + info.GetIndexLength()
+	for _, streamInfo := range footer.GetStreams() {
+		id := streamInfo.GetColumn()
+		streamKind := streamInfo.GetKind()
+		length := streamInfo.GetLength()
+
+		if streamKind == pb.Stream_ROW_INDEX {
+			if readers[id] != nil {
+				if err := readers[id].InitIndex(indexStart, length); err != nil {
+					return err
+				}
+			}
+			indexStart += length
+			continue
+		}
+
+		if readers[id] != nil {
+			if err := readers[id].InitStream(streamInfo, dataStart); err != nil {
+				return err
+			}
+		}
+		dataStart += length
+	}
 	return nil
 }
 
-- 
2.43.0


From a8dbf54568e48156451dbdb74049cfaeb3b3ab2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 49/88] fix: create batch readers independently of each other

---
 orc/reader.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/orc/reader.go b/orc/reader.go
index 731cc6d..63a2294 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -81,7 +81,18 @@ func (r *reader) CreateBatchReader(bopt *api.BatchOption) (BatchReader, error) {
 	}
 
 	// todo: includes verification, make sure includes is a tree
-	br := &batchReader{f: r.f, numberOfRows: r.numberOfRows, ropts: r.opts, bopt: bopt, schemas: r.schemas}
+	// with a file of its own, batch readers may be created at the same time
+	f, err := r.f.Clone()
+	if err != nil {
+		return nil, err
+	}
+	defer func() { // streams have their own files too
+		if err := f.Close(); err != nil {
+			logger.Warn(err)
+		}
+	}()
+
+	br := &batchReader{f: f, numberOfRows: r.numberOfRows, ropts: r.opts, bopt: bopt, schemas: r.schemas}
 
 	if err := br.initStripes(r.stripes); err != nil {
 		br.Close() // stripes opened so far
-- 
2.43.0


From 4ae070175388595ed8e941e3b9eaeef956b1e935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:27 +0000
Subject: [PATCH 50/88] fix: keep the encodings of a stripe out of the shared
 schema

---
 orc/stripe.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/orc/stripe.go b/orc/stripe.go
index 76c7309..8af54ce 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -262,8 +262,9 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 	readers := make([]column.Reader, len(stripe.schemas))
 	for _, schema := range stripe.schemas {
 		if stripe.bopt.IsInclude(schema.Id) {
-			schema.Encoding = footer.GetColumns()[schema.Id].GetKind()
-			r, err := column.NewReader(schema, stripe.ropts, stripe.f)
+			s := *schema // encoding is per stripe, schema is shared by all stripes and batch readers
+			s.Encoding = footer.GetColumns()[schema.Id].GetKind()
+			r, err := column.NewReader(&s, stripe.ropts, stripe.f)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From ebba6f0e82c9d920cf9dc8ea676be2b9f5dee6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:03 +0000
Subject: [PATCH 51/88] fix: report inconsistent stripe footers instead of
 panicking

---
 orc/stripe.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/orc/stripe.go b/orc/stripe.go
index 8af54ce..5b3cd24 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -258,7 +258,15 @@ func (stripe *stripeReader) readFooter(info *pb.StripeInformation) (*pb.StripeFo
 
 // stripe {index{},column{[present],data,[length]},footer}
 func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFooter) error {
-	// make sure len(columns)==len(all schemas)
+	if len(footer.GetColumns()) < len(stripe.schemas) {
+		return errors.Errorf("stripe %d footer has encodings of %d columns, should be %d", stripe.index, len(footer.GetColumns()), len(stripe.schemas))
+	}
+	for _, streamInfo := range footer.GetStreams() {
+		if int64(streamInfo.GetColumn()) >= int64(len(stripe.schemas)) {
+			return errors.Errorf("stripe %d footer has stream of unknown column %d", stripe.index, streamInfo.GetColumn())
+		}
+	}
+
 	readers := make([]column.Reader, len(stripe.schemas))
 	for _, schema := range stripe.schemas {
 		if stripe.bopt.IsInclude(schema.Id) {
-- 
2.43.0


From 244cd018e5b524a4ce0531f6be410b77f1056fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 52/88] fix: report column selections that are not a tree

---
 orc/stripe.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/orc/stripe.go b/orc/stripe.go
index 5b3cd24..242a3c0 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -283,6 +283,20 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 		}
 	}
 
+	for _, schema := range stripe.schemas {
+		for _, c := range schema.Children {
+			if readers[c.Id] != nil && readers[schema.Id] == nil {
+				return errors.Errorf("column %d is included without its parent %d", c.Id, schema.Id)
+			}
+			if readers[c.Id] == nil && readers[schema.Id] != nil && schema.Kind != pb.Type_STRUCT {
+				return errors.Errorf("column %d is included without its child %d", schema.Id, c.Id)
+			}
+		}
+	}
+	if stripe.columnReader == nil {
+		return errors.New("no column is included")
+	}
+
 	// build tree
 	for _, schema := range stripe.schemas {
 		for i, c := range schema.Children {
-- 
2.43.0


From ce48c73a7012872ccde1cdad9744647c99a34243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 53/88] fix: read files with bloom filters

---
 orc/stripe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orc/stripe.go b/orc/stripe.go
index 242a3c0..6a538bc 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -339,6 +339,10 @@ func (stripe *stripeReader) initStreams(info *pb.StripeInformation, footer *pb.S
 		streamKind := streamInfo.GetKind()
 		length := streamInfo.GetLength()
 
+		if streamKind == pb.Stream_BLOOM_FILTER || streamKind == pb.Stream_BLOOM_FILTER_UTF8 { // not used
+			indexStart += length
+			continue
+		}
 		if streamKind == pb.Stream_ROW_INDEX {
 			if readers[id] != nil {
 				if err := readers[id].InitIndex(indexStart, length); err != nil {
-- 
2.43.0


From d89f08f0eb975f8c6a3d2d2e933d0a4f9d3251d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:43 +0000
Subject: [PATCH 54/88] fix: close the file when a reader cannot be created

---
 orc/reader.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/orc/reader.go b/orc/reader.go
index 63a2294..a09d631 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -26,7 +26,14 @@ func NewOSFileReader(path string) (Reader, error) {
 	if err != nil {
 		return nil, err
 	}
-	return newReader(f)
+	r, err := newReader(f)
+	if err != nil {
+		if cerr := f.Close(); cerr != nil {
+			logger.Warn(cerr)
+		}
+		return nil, err
+	}
+	return r, nil
 }
 
 type reader struct {
-- 
2.43.0


From d517653952727f1a3c01c1c62b1fb38dee7c98a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:44 +0000
Subject: [PATCH 55/88] fix: read file tails larger than the first guess

---
 orc/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orc/reader.go b/orc/reader.go
index a09d631..8f00eca 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -338,7 +338,8 @@ func extractFileTail(f orcio.File) (tail *pb.FileTail, err error) {
 			return nil, errors.WithStack(err)
 		}
 		// refactor: array allocated
-		buf = append(buf, ebuf...)
+		buf = append(ebuf, buf...)
+		psOffset += extra
 	}
 
 	// read file footer
-- 
2.43.0


From 7bb37919299d87b8d788a7fb08c3d73563d7684a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:46 +0000
Subject: [PATCH 56/88] fix: reject files that are incomplete or not orc

---
 orc/reader.go | 58 +++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 54 insertions(+), 4 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index 8f00eca..979f4b8 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -3,7 +3,6 @@ package orc
 import (
 	"bytes"
 	"compress/flate"
-	"fmt"
 	"io"
 	"os"
 
@@ -297,9 +296,8 @@ func extractFileTail(f orcio.File) (tail *pb.FileTail, err error) {
 	if size == 0 {
 		// Hive often creates empty files (including ORC) and has an
 		// optimization to create a 0 byte file as an empty ORC file.
-		// todo: empty tail, log
-		fmt.Printf("file size 0")
-		return
+		// todo: empty tail
+		return nil, errors.New("empty file")
 	}
 	if size <= int64(len(Magic)) {
 		return nil, errors.New("not a valid orc file")
@@ -319,12 +317,25 @@ func extractFileTail(f orcio.File) (tail *pb.FileTail, err error) {
 	// read postScript
 	psLen := int64(buf[readSize-1])
 	psOffset := readSize - 1 - psLen
+	if psOffset < 0 {
+		return nil, errors.Errorf("postscript length %d larger than file", psLen)
+	}
 	ps, err := extractPostScript(buf[psOffset : psOffset+psLen])
 	if err != nil {
 		return nil, err
 	}
 	footerSize := int64(ps.GetFooterLength()) // compressed footer length
 	metaSize := int64(ps.GetMetadataLength())
+	if ps.GetMagic() != Magic {
+		return nil, errors.New("not a valid orc file, no magic in postscript")
+	}
+
+	// what is left for header and stripes
+	bodySize := size - 1 - psLen
+	if footerSize < 0 || footerSize > bodySize || metaSize < 0 || metaSize > bodySize-footerSize {
+		return nil, errors.Errorf("footer length %d or metadata length %d larger than file", footerSize, metaSize)
+	}
+	bodySize -= footerSize + metaSize
 
 	// check if extra bytes need to be read
 	extra := Max(0, psLen+1+footerSize+metaSize-readSize)
@@ -357,6 +368,9 @@ func extractFileTail(f orcio.File) (tail *pb.FileTail, err error) {
 	if err = proto.Unmarshal(footerBuf, footer); err != nil {
 		return nil, errors.Wrapf(err, "unmarshal footer error")
 	}
+	if err = verifyBody(f, footer, uint64(bodySize)); err != nil {
+		return nil, err
+	}
 
 	logger.Debugf("read file footer:\n")
 	logger.Debugf("header length: %d\n", footer.GetHeaderLength())
@@ -380,6 +394,42 @@ func extractFileTail(f orcio.File) (tail *pb.FileTail, err error) {
 	return ft, nil
 }
 
+// what precedes metadata and footer should be header and stripes, and nothing else. So the start of another file is not
+// taken for a complete one
+func verifyBody(f orcio.File, footer *pb.Footer, size uint64) error {
+	// some writers include header in content
+	if l := footer.GetContentLength(); l != size && l+footer.GetHeaderLength() != size {
+		return errors.Errorf("content length %d does not fit file", l)
+	}
+
+	var rows uint64
+	for _, s := range footer.GetStripes() {
+		offset, length := s.GetOffset(), uint64(0)
+		for _, l := range []uint64{offset, s.GetIndexLength(), s.GetDataLength(), s.GetFooterLength()} {
+			if l > size-length {
+				return errors.Errorf("stripe at %d larger than file", offset)
+			}
+			length += l
+		}
+		rows += s.GetNumberOfRows()
+	}
+	if rows != footer.GetNumberOfRows() {
+		return errors.Errorf("%d rows in stripes, should be %d", rows, footer.GetNumberOfRows())
+	}
+
+	header := make([]byte, len(Magic))
+	if _, err := f.Seek(0, io.SeekStart); err != nil {
+		return errors.WithStack(err)
+	}
+	if _, err := io.ReadFull(f, header); err != nil {
+		return errors.WithStack(err)
+	}
+	if string(header) != Magic {
+		return errors.New("not a valid orc file, no magic at start")
+	}
+	return nil
+}
+
 func extractPostScript(buf []byte) (ps *pb.PostScript, err error) {
 	ps = &pb.PostScript{}
 	if err = proto.Unmarshal(buf, ps); err != nil {
-- 
2.43.0


From f67972ac6d31aa73bf49980dd3e523ef6c9329be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 57/88] fix: read files and stripes without rows

---
 orc/reader.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index 979f4b8..5ea80f3 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -56,9 +56,6 @@ func newReader(f orcio.File) (r *reader, err error) {
 	opts.IndexStride = int(tail.Footer.GetRowIndexStride())
 
 	rows := tail.GetFooter().GetNumberOfRows()
-	if rows == 0 {
-		return nil, errors.New("file footer error, number of rows 0")
-	}
 
 	schemas := unmarshallSchema(tail.Footer.Types)
 	for i, stat := range tail.Footer.Statistics {
@@ -148,8 +145,8 @@ type batchReader struct {
 
 func (br *batchReader) initStripes(infos []*pb.StripeInformation) error {
 	for i, stripeInfo := range infos {
-		if stripeInfo.GetNumberOfRows() == 0 {
-			return errors.Errorf("stripe number of rows 0 err, %s", stripeInfo.String())
+		if stripeInfo.GetNumberOfRows() == 0 { // nothing to read
+			continue
 		}
 		sr, err := newStripeReader(br.f, br.schemas, br.ropts, br.bopt, i, stripeInfo)
 		if err != nil {
-- 
2.43.0


From cef7fddb18560fa38212b2dee2359b68bceb426d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 58/88] fix: report invalid types and statistics in the footer
 instead of panicking

---
 orc/reader.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/orc/reader.go b/orc/reader.go
index 5ea80f3..be570e5 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -57,6 +57,9 @@ func newReader(f orcio.File) (r *reader, err error) {
 
 	rows := tail.GetFooter().GetNumberOfRows()
 
+	if err = verifyTypes(tail.Footer); err != nil {
+		return nil, err
+	}
 	schemas := unmarshallSchema(tail.Footer.Types)
 	for i, stat := range tail.Footer.Statistics {
 		schemas[i].HasNulls = stat.GetHasNull()
@@ -244,6 +247,31 @@ func (br *batchReader) Seek(rowNumber uint64) error {
 	return errors.New("no row found")
 }
 
+// types should be a tree in pre-order
+func verifyTypes(footer *pb.Footer) error {
+	types := footer.GetTypes()
+	if len(types) == 0 {
+		return errors.New("no types in file footer")
+	}
+	if len(footer.GetStatistics()) > len(types) {
+		return errors.Errorf("statistics of %d columns, should be %d", len(footer.GetStatistics()), len(types))
+	}
+	for i, t := range types {
+		for _, sub := range t.GetSubtypes() {
+			if int64(sub) <= int64(i) || int64(sub) >= int64(len(types)) {
+				return errors.Errorf("type %d has invalid subtype %d", i, sub)
+			}
+		}
+		switch n := len(t.GetSubtypes()); {
+		case t.GetKind() == pb.Type_STRUCT && n != len(t.GetFieldNames()),
+			t.GetKind() == pb.Type_LIST && n != 1,
+			t.GetKind() == pb.Type_MAP && n != 2:
+			return errors.Errorf("type %d %s has %d subtypes", i, t.GetKind(), n)
+		}
+	}
+	return nil
+}
+
 func unmarshallSchema(types []*pb.Type) (schemas []*api.TypeDescription) {
 	schemas = make([]*api.TypeDescription, len(types))
 	for i, t := range types {
-- 
2.43.0


From 0c84d01b397baa3d4df3e80bad93636fae552be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:14 +0000
Subject: [PATCH 59/88] fix: report incomplete chunk headers

---
 orc/common/misc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/common/misc.go b/orc/common/misc.go
index 0d59cd1..3013926 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -236,7 +236,7 @@ func DecompressChunks(kind pb.CompressionKind, dst *bytes.Buffer, src *bytes.Buf
 	case pb.CompressionKind_ZLIB:
 		for src.Len() > 0 {
 			header := make([]byte, 3)
-			if _, err = src.Read(header); err != nil {
+			if _, err = io.ReadFull(src, header); err != nil {
 				return errors.WithStack(err)
 			}
 
-- 
2.43.0


From a6ca6547a4ff335b6b78411d85a2f5457ee3ddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:50 +0000
Subject: [PATCH 60/88] fix: encode integers of 22 and 23 bits

---
 orc/encoding/package.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orc/encoding/package.go b/orc/encoding/package.go
index a6d666a..ecafe74 100755
--- a/orc/encoding/package.go
+++ b/orc/encoding/package.go
@@ -161,9 +161,9 @@ func (irl *intRunLengthV1) Encode(out *bytes.Buffer) error {
 
 
 func widthEncoding(width int) (w byte, err error) {
-	if 2 <= width && width <= 21 {
+	if 2 <= width && width <= 24 {
 		w = byte(width - 1)
-		if (3 == width) || (5 <= width && width <= 7) || (9 <= width && width <= 15) || (17 <= width && width <= 21) {
+		if (3 == width) || (5 <= width && width <= 7) || (9 <= width && width <= 15) || (17 <= width && width <= 23) {
 			log.Warnf("encoding: width %d is deprecated", width)
 		}
 		return
-- 
2.43.0


From ed2f22d12fb80db97d6eb21906312d0d03e45379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:52 +0000
Subject: [PATCH 61/88] fix: read empty strings without a contents stream

---
 orc/stream/string.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/stream/string.go b/orc/stream/string.go
index 7cb3bff..8adee2d 100644
--- a/orc/stream/string.go
+++ b/orc/stream/string.go
@@ -16,6 +16,9 @@ func NewStringContentsReader(opts *config.ReaderOptions, info *pb.Stream, start
 }
 
 func (r *StringContentsReader) NextBytes(len uint64) (v []byte, err error) {
+	if len == 0 { // stream of empty values only may be missing
+		return []byte{}, nil
+	}
 	if r == nil {
 		return nil, errMissingStream
 	}
-- 
2.43.0


From c07537d5ea919089247e1b75350899388df23c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:05 +0000
Subject: [PATCH 62/88] fix: read present streams of columns without nulls

---
 orc/column/binary.go  | 3 ---
 orc/column/bool.go    | 3 ---
 orc/column/byte.go    | 3 ---
 orc/column/decimal.go | 3 ---
 orc/column/float.go   | 3 ---
 orc/column/map.go     | 3 ---
 orc/column/string.go  | 3 ---
 orc/column/struct.go  | 7 ++++---
 orc/column/time.go    | 6 ------
 9 files changed, 4 insertions(+), 30 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index f1743cc..0bb283c 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -170,9 +170,6 @@ func (r *BinaryV2Reader) InitStream(info *pb.Stream, startOffset uint64) (err er
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			return errors.New("has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 	case pb.Stream_DATA:
 		r.data = stream.NewStringContentsReader(r.opts, info, startOffset, f)
diff --git a/orc/column/bool.go b/orc/column/bool.go
index e2decc4..56da052 100644
--- a/orc/column/bool.go
+++ b/orc/column/bool.go
@@ -155,9 +155,6 @@ func (r *BoolReader) InitStream(info *pb.Stream, startOffset uint64) (err error)
 	defer closeIfFailed(f, &err)
 
 	if info.GetKind() == pb.Stream_PRESENT {
-		if !r.schema.HasNulls {
-			return errors.New("column schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 		return nil
 	}
diff --git a/orc/column/byte.go b/orc/column/byte.go
index c081341..3fbdc77 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -152,9 +152,6 @@ func (r *ByteReader) InitStream(info *pb.Stream, startOffset uint64) (err error)
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			return errors.New("column schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 	case pb.Stream_DATA:
 		r.data = stream.NewByteReader(r.opts, info, startOffset, f)
diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index 203863a..5c7c3dd 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -216,9 +216,6 @@ func (r *DecimalV2Reader) InitStream(info *pb.Stream, startOffset uint64) (err e
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			return errors.New("schema no present stream")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 	case pb.Stream_DATA:
 		r.data = stream.NewVarIntReader(r.opts, info, startOffset, f)
diff --git a/orc/column/float.go b/orc/column/float.go
index ac259e6..ba99b2a 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -32,9 +32,6 @@ func (r *FloatReader) InitStream(info *pb.Stream, startOffset uint64) (err error
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			return errors.New("schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 	case pb.Stream_DATA:
 		r.data = stream.NewFloatReader(r.opts, info, startOffset, f, r.is64)
diff --git a/orc/column/map.go b/orc/column/map.go
index 2175e1e..1f5aa59 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -39,9 +39,6 @@ func (r *MapV2Reader) InitStream(info *pb.Stream, startOffset uint64) (err error
 	defer closeIfFailed(f, &err)
 
 	if info.GetKind() == pb.Stream_PRESENT {
-		if !r.schema.HasNulls {
-			return errors.New("schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 		return nil
 	}
diff --git a/orc/column/string.go b/orc/column/string.go
index 7816a06..dd28282 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -366,9 +366,6 @@ func (r *StringDictionaryV2Reader) InitStream(info *pb.Stream, startOffset uint6
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			return errors.New("schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 	case pb.Stream_DATA:
 		r.data = stream.NewIntRLV2Reader(r.opts, info, startOffset, false, f)
diff --git a/orc/column/struct.go b/orc/column/struct.go
index 20af337..4faa545 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -29,6 +29,10 @@ func (r *StructReader) AddChild(child Reader) {
 }
 
 func (r *StructReader) InitStream(info *pb.Stream, startOffset uint64) (err error) {
+	if info.GetKind() == pb.Stream_PRESENT && !r.schema.HasNulls { // some writers have it anyway
+		return nil
+	}
+
 	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
@@ -36,9 +40,6 @@ func (r *StructReader) InitStream(info *pb.Stream, startOffset uint64) (err erro
 	defer closeIfFailed(f, &err)
 
 	if info.GetKind() == pb.Stream_PRESENT {
-		if !r.schema.HasNulls {
-			return errors.New("should no present")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 		return nil
 	}
diff --git a/orc/column/time.go b/orc/column/time.go
index 39c7904..87cb7b0 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -164,9 +164,6 @@ func (r *DateV2Reader) InitStream(info *pb.Stream, startOffset uint64) (err erro
 	}
 
 	if info.GetKind() == pb.Stream_PRESENT {
-		if !r.schema.HasNulls {
-			return errors.New("schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 		return nil
 	}
@@ -473,9 +470,6 @@ func (r *TimestampV2Reader) InitStream(info *pb.Stream, startOffset uint64) (err
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			return errors.New("schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, ic)
 	case pb.Stream_DATA:
 		r.data = stream.NewIntRLV2Reader(r.opts, info, startOffset, true, ic)
-- 
2.43.0


From cd98d9dae5ff1d48da608ab1e8c2b9541d3f1287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:30 +0000
Subject: [PATCH 63/88] fix: reading a string with a damaged length allocates
 only what the stream holds

---
 orc/encoding/string.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/orc/encoding/string.go b/orc/encoding/string.go
index 7d70a6b..a4c491f 100644
--- a/orc/encoding/string.go
+++ b/orc/encoding/string.go
@@ -34,7 +34,20 @@ func (e *stringContents) GetPosition() []uint64 {
 	return []uint64{}
 }
 
+// allocated before bytes are read
+const maxBytesAllocated = 1024 * 1024
+
 func DecodeBytes(in io.Reader, length int) ([]byte, error) {
+	if length < 0 {
+		return nil, errors.Errorf("length %d of bytes is invalid", length)
+	}
+	if length > maxBytesAllocated { // a length may be damaged, allocate what is really there
+		var buf bytes.Buffer
+		if _, err := io.CopyN(&buf, in, int64(length)); err != nil {
+			return nil, err
+		}
+		return buf.Bytes(), nil
+	}
 	value := make([]byte, length)
 	if _, err := io.ReadFull(in, value); err != nil {
 		return nil, err
-- 
2.43.0


From 0fd705ced725fa6171bb6e46dfd073cb8242a378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:06 +0000
Subject: [PATCH 64/88] fix: stream lengths which exceed the stripe are an
 error

---
 orc/stripe.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/orc/stripe.go b/orc/stripe.go
index 6a538bc..27e2648 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -261,10 +261,19 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 	if len(footer.GetColumns()) < len(stripe.schemas) {
 		return errors.Errorf("stripe %d footer has encodings of %d columns, should be %d", stripe.index, len(footer.GetColumns()), len(stripe.schemas))
 	}
+	indexLength, dataLength := info.GetIndexLength(), info.GetDataLength()
 	for _, streamInfo := range footer.GetStreams() {
 		if int64(streamInfo.GetColumn()) >= int64(len(stripe.schemas)) {
 			return errors.Errorf("stripe %d footer has stream of unknown column %d", stripe.index, streamInfo.GetColumn())
 		}
+		left := &dataLength
+		if isIndexStream(streamInfo.GetKind()) {
+			left = &indexLength
+		}
+		if streamInfo.GetLength() > *left {
+			return errors.Errorf("stripe %d has not room for stream %s", stripe.index, streamInfo.String())
+		}
+		*left -= streamInfo.GetLength()
 	}
 
 	readers := make([]column.Reader, len(stripe.schemas))
@@ -330,6 +339,10 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 	return nil
 }
 
+func isIndexStream(kind pb.Stream_Kind) bool {
+	return kind == pb.Stream_ROW_INDEX || kind == pb.Stream_BLOOM_FILTER || kind == pb.Stream_BLOOM_FILTER_UTF8
+}
+
 func (stripe *stripeReader) initStreams(info *pb.StripeInformation, footer *pb.StripeFooter, readers []column.Reader) error {
 	// streams has sequence
 	indexStart := info.GetOffset()
-- 
2.43.0


From ec7d943a137ed8fc0f62f389f0054b8b71f0ea06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:08 +0000
Subject: [PATCH 65/88] fix: compression block size of a damaged file does not
 decide how much memory is allocated

---
 orc/reader.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index be570e5..721b4e7 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -18,6 +18,8 @@ import (
 const (
 	MAGIC_LENGTH         = uint64(3)
 	DIRECTORY_SIZE_GUESS = 16 * 1024
+
+	maxChunkSize = 1 << 23 // chunk header has 23 bits for length
 )
 
 func NewOSFileReader(path string) (Reader, error) {
@@ -68,6 +70,9 @@ func newReader(f orcio.File) (r *reader, err error) {
 	opts.CompressionKind = tail.Postscript.GetCompression()
 	if opts.CompressionKind != pb.CompressionKind_NONE { // compression_none no block size
 		opts.ChunkSize = tail.Postscript.GetCompressionBlockSize()
+		if opts.ChunkSize > maxChunkSize {
+			return nil, errors.Errorf("compression block size %d larger than %d", opts.ChunkSize, maxChunkSize)
+		}
 	} else {
 		opts.ChunkSize = config.DefaultChunkSize
 	}
@@ -382,8 +387,7 @@ func extractFileTail(f orcio.File) (tail *pb.FileTail, err error) {
 	footerStart := psOffset - footerSize
 	footerBuf := buf[footerStart : footerStart+footerSize]
 	if ps.GetCompression() != pb.CompressionKind_NONE {
-		fb := bytes.NewBuffer(make([]byte, ps.GetCompressionBlockSize()))
-		fb.Reset()
+		fb := &bytes.Buffer{}
 		if err := common.DecompressChunks(ps.GetCompression(), fb, bytes.NewBuffer(footerBuf)); err != nil {
 			return nil, errors.WithStack(err)
 		}
-- 
2.43.0


From 2f317e8d4bc26a8d9068520bc8076a3681b2ff9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:10 +0000
Subject: [PATCH 66/88] fix: a type with two parents is an error

---
 orc/reader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orc/reader.go b/orc/reader.go
index 721b4e7..859a21d 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -261,11 +261,13 @@ func verifyTypes(footer *pb.Footer) error {
 	if len(footer.GetStatistics()) > len(types) {
 		return errors.Errorf("statistics of %d columns, should be %d", len(footer.GetStatistics()), len(types))
 	}
+	hasParent := make([]bool, len(types))
 	for i, t := range types {
 		for _, sub := range t.GetSubtypes() {
-			if int64(sub) <= int64(i) || int64(sub) >= int64(len(types)) {
+			if int64(sub) <= int64(i) || int64(sub) >= int64(len(types)) || hasParent[sub] {
 				return errors.Errorf("type %d has invalid subtype %d", i, sub)
 			}
+			hasParent[sub] = true
 		}
 		switch n := len(t.GetSubtypes()); {
 		case t.GetKind() == pb.Type_STRUCT && n != len(t.GetFieldNames()),
-- 
2.43.0


From 239f81f41be5fb8f0ad5720d7920bc51ece32759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:18 +0000
Subject: [PATCH 67/88] fix: damaged lengths of lists and maps do not decide
 how much memory is allocated

---
 orc/column/list.go | 65 +++++++++++++++++++++++++++++++++++++++++++---
 orc/column/map.go  | 10 +++----
 2 files changed, 67 insertions(+), 8 deletions(-)

diff --git a/orc/column/list.go b/orc/column/list.go
index 7473146..2efa9f7 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -8,6 +8,7 @@ import (
 	"github.com/patrickhuang888/goorc/pb/pb"
 	"github.com/pkg/errors"
 	"io"
+	"math"
 )
 
 func NewListV2Reader(schema *api.TypeDescription, opts *config.ReaderOptions, f orcio.File) Reader {
@@ -64,13 +65,71 @@ func (r *ListV2Reader) NextBatch(vec *api.ColumnVector) error {
 				return err
 			}
 			vec.Vector[i].V = v
-			total += int(v)
+			if total, err = addElements(total, v); err != nil {
+				return err
+			}
 		}
 	}
 
 	// elements of all lists follow each other in the vector of child
-	resizeElements(vec.Children[0], total)
-	return r.child.NextBatch(vec.Children[0])
+	return readElements(r.child, vec.Children[0], total)
+}
+
+func addElements(total int, n uint64) (int, error) {
+	if n > math.MaxInt32 || total+int(n) > math.MaxInt32 {
+		return total, errors.Errorf("%d elements are more than a batch can hold", n)
+	}
+	return total + int(n), nil
+}
+
+// elements allocated before they are read, more are read in parts: lengths of a damaged file may be anything
+const maxElementsAllocated = 128 * 1024
+
+func readElements(child Reader, vec *api.ColumnVector, total int) error {
+	if total <= maxElementsAllocated {
+		resizeElements(vec, total)
+		return child.NextBatch(vec)
+	}
+
+	all := emptyLike(vec)
+	for total > 0 {
+		n := total
+		if n > maxElementsAllocated {
+			n = maxElementsAllocated
+		}
+		resizeElements(vec, n)
+		if err := child.NextBatch(vec); err != nil {
+			return err
+		}
+		appendElements(all, vec)
+		total -= n
+	}
+	moveElements(vec, all)
+	return nil
+}
+
+func emptyLike(vec *api.ColumnVector) *api.ColumnVector {
+	empty := &api.ColumnVector{}
+	for _, c := range vec.Children {
+		empty.Children = append(empty.Children, emptyLike(c))
+	}
+	return empty
+}
+
+func appendElements(to *api.ColumnVector, from *api.ColumnVector) {
+	to.Vector = append(to.Vector, from.Vector...)
+	for i, c := range from.Children {
+		appendElements(to.Children[i], c)
+	}
+}
+
+func moveElements(to *api.ColumnVector, from *api.ColumnVector) {
+	if to.Vector != nil { // struct without nulls has no vector of its own
+		to.Vector = from.Vector
+	}
+	for i, c := range from.Children {
+		moveElements(to.Children[i], c)
+	}
 }
 
 func resizeElements(vec *api.ColumnVector, size int) {
diff --git a/orc/column/map.go b/orc/column/map.go
index 1f5aa59..2a35ab5 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -68,17 +68,17 @@ func (r *MapV2Reader) NextBatch(vec *api.ColumnVector) error {
 				return err
 			}
 			vec.Vector[i].V = int(v)
-			total += int(v)
+			if total, err = addElements(total, v); err != nil {
+				return err
+			}
 		}
 	}
 
 	// keys and values of all maps follow each other in the vectors of children
-	resizeElements(vec.Children[0], total)
-	resizeElements(vec.Children[1], total)
-	if err = r.key.NextBatch(vec.Children[0]); err != nil {
+	if err = readElements(r.key, vec.Children[0], total); err != nil {
 		return err
 	}
-	return r.value.NextBatch(vec.Children[1])
+	return readElements(r.value, vec.Children[1], total)
 }
 
 func (r *MapV2Reader) Skip(rows uint64) error {
-- 
2.43.0


From 527ac05b53bf1f5ccf191a2f6a51031779a4c911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:20 +0000
Subject: [PATCH 68/88] fix: skipping elements of a struct without fields
 returns at once

---
 orc/column/struct.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/orc/column/struct.go b/orc/column/struct.go
index 4faa545..c503ada 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -94,6 +94,15 @@ func (r *StructReader) SeekStride(stride int) error {
 }
 
 func (r *StructReader) Skip(rows uint64) error {
+	if r.present == nil {
+		for _, c := range r.children {
+			if err := c.Skip(rows); err != nil {
+				return err
+			}
+		}
+		return nil
+	}
+
 	var err error
 	p := true
 
-- 
2.43.0


From ba8a79f32d2cdaff24cdeb3331a913d41248848a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:22 +0000
Subject: [PATCH 69/88] fix: a stripe with the same stream twice is an error

---
 orc/stripe.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/orc/stripe.go b/orc/stripe.go
index 27e2648..496b3ac 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -261,11 +261,21 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 	if len(footer.GetColumns()) < len(stripe.schemas) {
 		return errors.Errorf("stripe %d footer has encodings of %d columns, should be %d", stripe.index, len(footer.GetColumns()), len(stripe.schemas))
 	}
+	type streamKey struct {
+		column uint32
+		kind   pb.Stream_Kind
+	}
+	known := map[streamKey]bool{}
 	indexLength, dataLength := info.GetIndexLength(), info.GetDataLength()
 	for _, streamInfo := range footer.GetStreams() {
 		if int64(streamInfo.GetColumn()) >= int64(len(stripe.schemas)) {
 			return errors.Errorf("stripe %d footer has stream of unknown column %d", stripe.index, streamInfo.GetColumn())
 		}
+		key := streamKey{streamInfo.GetColumn(), streamInfo.GetKind()}
+		if known[key] { // one of them would never be closed
+			return errors.Errorf("stripe %d has stream %s twice", stripe.index, streamInfo.String())
+		}
+		known[key] = true
 		left := &dataLength
 		if isIndexStream(streamInfo.GetKind()) {
 			left = &indexLength
-- 
2.43.0


From fcbf73b17d90ad178fb3d07c384735f6872f36b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:58 +0000
Subject: [PATCH 70/88] fix: a type outside of the type tree is an error

---
 orc/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/reader.go b/orc/reader.go
index 859a21d..bf8ce69 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -263,6 +263,9 @@ func verifyTypes(footer *pb.Footer) error {
 	}
 	hasParent := make([]bool, len(types))
 	for i, t := range types {
+		if i > 0 && !hasParent[i] {
+			return errors.Errorf("type %d is part of no other type", i)
+		}
 		for _, sub := range t.GetSubtypes() {
 			if int64(sub) <= int64(i) || int64(sub) >= int64(len(types)) || hasParent[sub] {
 				return errors.Errorf("type %d has invalid subtype %d", i, sub)
-- 
2.43.0


From 70dc52bf9a62b74e00cff73767fea34026ef872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:44 +0000
Subject: [PATCH 71/88] fix: a byte column with an unknown kind of stream is an
 error

---
 orc/column/byte.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/column/byte.go b/orc/column/byte.go
index 3fbdc77..0165e41 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -156,7 +156,7 @@ func (r *ByteReader) InitStream(info *pb.Stream, startOffset uint64) (err error)
 	case pb.Stream_DATA:
 		r.data = stream.NewByteReader(r.opts, info, startOffset, f)
 	default:
-		err = errors.New("stream kind error")
+		return errors.New("stream kind error")
 	}
 	return nil
 }
-- 
2.43.0


From 4b43e50983b9481a6ef7ec1e37ad2e9828771ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:45 +0000
Subject: [PATCH 72/88] fix: row index streams are compressed and listed in the
 stripe footer

---
 orc/stripe.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/orc/stripe.go b/orc/stripe.go
index 496b3ac..82d9adc 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -26,6 +26,8 @@ type stripeWriter struct {
 	info  *pb.StripeInformation
 	infos []*pb.StripeInformation
 
+	indexInfos []*pb.Stream // of current stripe
+
 	opts *config.WriterOptions
 
 	out io.Writer
@@ -95,19 +97,28 @@ func (stripe *stripeWriter) flushOut() error {
 		}
 	}
 
+	stripe.indexInfos = nil
 	if stripe.opts.WriteIndex {
-		for _, c := range stripe.columnWriters {
+		for i, c := range stripe.columnWriters {
 			index := c.GetIndex()
 			var indexData []byte
 			indexData, err := proto.Marshal(index)
 			if err != nil {
 				return err
 			}
-			nd, err := stripe.out.Write(indexData)
+			indexBuf := bytes.NewBuffer(indexData)
+			if stripe.opts.CompressionKind != pb.CompressionKind_NONE {
+				indexBuf = &bytes.Buffer{}
+				if err := common.CompressingAllInChunks(stripe.opts.CompressionKind, stripe.opts.ChunkSize, indexBuf, bytes.NewBuffer(indexData)); err != nil {
+					return err
+				}
+			}
+			nd, err := indexBuf.WriteTo(stripe.out)
 			if err != nil {
 				return errors.WithStack(err)
 			}
 			*stripe.info.IndexLength += uint64(nd)
+			stripe.indexInfos = append(stripe.indexInfos, newIndexInfo(uint32(i), uint64(nd)))
 		}
 		log.Tracef("flush index of length %d", stripe.info.GetIndexLength())
 	}
@@ -126,9 +137,15 @@ func (stripe *stripeWriter) flushOut() error {
 	return nil
 }
 
+func newIndexInfo(column uint32, length uint64) *pb.Stream {
+	kind := pb.Stream_ROW_INDEX
+	return &pb.Stream{Kind: &kind, Column: &column, Length: &length}
+}
+
 func (stripe *stripeWriter) writeFooter() error {
 	footer := &pb.StripeFooter{}
 
+	footer.Streams = append(footer.Streams, stripe.indexInfos...)
 	for _, c := range stripe.columnWriters {
 		footer.Streams = append(footer.Streams, c.GetStreamInfos()...)
 	}
-- 
2.43.0


From 2b5f0adb674d04a3842f127c7622c30d0fe32610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:44 +0000
Subject: [PATCH 73/88] fix: seek does not read stripes after the one it
 positions in

---
 orc/reader.go |  5 +----
 orc/stripe.go | 19 ++++++++++---------
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index bf8ce69..a624a5c 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -237,10 +237,7 @@ func (br *batchReader) Seek(rowNumber uint64) error {
 			}
 			// stripes after that are read from their start
 			for _, s := range br.stripes[i+1:] {
-				if err := s.rewind(); err != nil {
-					br.err = err
-					return err
-				}
+				s.rewind()
 			}
 			br.err = nil
 			br.stripeIndex = i
diff --git a/orc/stripe.go b/orc/stripe.go
index 82d9adc..6735899 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -234,6 +234,7 @@ type stripeReader struct {
 	cursor       uint64
 
 	touched bool // streams are not at their start any more
+	rewound bool // next row is the first one
 }
 
 func newStripeReader(f orcio.File, schemas []*api.TypeDescription, ropts *config.ReaderOptions, bopt *api.BatchOption,
@@ -405,6 +406,11 @@ func (stripe *stripeReader) initStreams(info *pb.StripeInformation, footer *pb.S
 
 // a stripe is typically  ~200MB
 func (stripe *stripeReader) next(vec *api.ColumnVector) (end bool, err error) {
+	if stripe.rewound {
+		if err = stripe.Seek(0); err != nil {
+			return
+		}
+	}
 	stripe.prepareVector(vec)
 	stripe.touched = true
 
@@ -470,18 +476,13 @@ func (stripe *stripeReader) Seek(rowNumber uint64) error {
 		return err
 	}
 	stripe.cursor = rowNumber
+	stripe.rewound = false
 	return nil
 }
 
-func (stripe *stripeReader) rewind() error {
-	if !stripe.touched {
-		return nil
-	}
-	if err := stripe.Seek(0); err != nil {
-		return err
-	}
-	stripe.touched = false
-	return nil
+// streams are not read before the rows are asked for, so an unreadable stripe does not affect others
+func (stripe *stripeReader) rewind() {
+	stripe.rewound = stripe.touched
 }
 
 func (stripe *stripeReader) Close() {
-- 
2.43.0


From facda156afb723414c24a9beac4ca25838e33613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:46 +0000
Subject: [PATCH 74/88] fix: count buffered values in the size of dictionary
 columns

---
 orc/column/string.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/orc/column/string.go b/orc/column/string.go
index dd28282..8b66a5d 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -8,6 +8,7 @@ import (
 	"github.com/patrickhuang888/goorc/pb/pb"
 	"github.com/pkg/errors"
 	"io"
+	"math/bits"
 	"sort"
 )
 
@@ -551,6 +552,8 @@ type stringDictionaryV2Writer struct {
 
 	count int
 	data  map[string][]int
+	// total length of the keys of data
+	dictLength int
 }
 
 func (w *stringDictionaryV2Writer) Write(value api.Value) error {
@@ -566,7 +569,10 @@ func (w *stringDictionaryV2Writer) Write(value api.Value) error {
 			return errors.New("string column writing, value should be string")
 		}
 
-		vs := w.data[s]
+		vs, known := w.data[s]
+		if !known {
+			w.dictLength += len(s)
+		}
 		vs = append(vs, w.count)
 		w.count++
 		w.data[s] = vs
@@ -709,17 +715,19 @@ func (w *stringDictionaryV2Writer) Reset() {
 
 	w.data = map[string][]int{}
 	w.count = 0
+	w.dictLength = 0
 }
 
 func (w *stringDictionaryV2Writer) DictionarySize() uint32 {
 	return uint32(len(w.data))
 }
 
+// what is buffered goes into the streams with the flush, until then it is as large as the dictionary, and an index of
+// whole bytes for every value
 func (w stringDictionaryV2Writer) Size() int {
-	// fixme: size calculation
-
+	size := w.dictLength + 2*len(w.data) + w.count*((bits.Len(uint(len(w.data)))+7)/8)
 	if w.schema.HasNulls {
-		return w.present.Size() + w.dataStream.Size() + w.dictStream.Size() + w.lengthStream.Size()
+		size += w.present.Size()
 	}
-	return w.dataStream.Size() + w.dictStream.Size() + w.lengthStream.Size()
+	return size
 }
-- 
2.43.0


From 6b4ee6056a6866adc67de2a4823e2424593d7806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:57 +0000
Subject: [PATCH 75/88] fix: columns of type char and varchar can be read

---
 orc/column/package.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orc/column/package.go b/orc/column/package.go
index 7d7f696..b50f0f6 100644
--- a/orc/column/package.go
+++ b/orc/column/package.go
@@ -101,6 +101,10 @@ func NewReader(schema *api.TypeDescription, opts *config.ReaderOptions, in orcio
 		}
 		return NewFloatReader(schema, opts, in, true), nil
 
+	case pb.Type_CHAR:
+		fallthrough
+	case pb.Type_VARCHAR:
+		fallthrough
 	case pb.Type_STRING:
 		if schema.Encoding == pb.ColumnEncoding_DIRECT_V2 {
 			return NewStringDirectV2Reader(opts, schema, in), nil
-- 
2.43.0


From b88c8c45855bcc5e17a78295e1123c9edba4b979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:19 +0000
Subject: [PATCH 76/88] fix: columns reject values of other types

---
 orc/column/decimal.go |  5 ++++-
 orc/column/int.go     | 14 +++++++++++---
 orc/column/time.go    | 10 ++++++++--
 orc/encoding/bool.go  |  7 ++++++-
 orc/encoding/byte.go  |  7 ++++++-
 5 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index 5c7c3dd..4ab7d91 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -49,7 +49,10 @@ func (w *decimalV2Writer) Write(value api.Value) error {
 	}
 
 	if !value.Null {
-		d := value.V.(api.Decimal64)
+		d, ok := value.V.(api.Decimal64)
+		if !ok {
+			return errors.New("decimal column writing, value should be api.Decimal64")
+		}
 		if err := w.data.Write(d.Precision); err != nil {
 			return err
 		}
diff --git a/orc/column/int.go b/orc/column/int.go
index 5564260..f075665 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -60,13 +60,21 @@ func (w *intWriter) Write(value api.Value) error {
 
 	var v int64
 	if !value.Null {
+		ok := false
 		switch w.bits {
 		case BitsSmallInt:
-			v = int64(value.V.(int16))
+			var s int16
+			s, ok = value.V.(int16)
+			v = int64(s)
 		case BitsInt:
-			v = int64(value.V.(int32))
+			var i int32
+			i, ok = value.V.(int32)
+			v = int64(i)
 		case BitsBigInt:
-			v = value.V.(int64)
+			v, ok = value.V.(int64)
+		}
+		if !ok {
+			return errors.Errorf("int column writing, value should be int of %d bits", w.bits)
 		}
 
 		if err := w.data.Write(v); err != nil {
diff --git a/orc/column/time.go b/orc/column/time.go
index 87cb7b0..700c616 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -46,7 +46,10 @@ func (w *dateV2Writer) Write(value api.Value) error {
 
 	var days int32
 	if !value.Null {
-		date := value.V.(api.Date)
+		date, ok := value.V.(api.Date)
+		if !ok {
+			return errors.New("date column writing, value should be api.Date")
+		}
 		days = api.ToDays(date)
 		if err := w.data.Write(int64(days)); err != nil {
 			return err
@@ -315,7 +318,10 @@ func (w *timestampWriter) Write(value api.Value) error {
 	}
 
 	if !value.Null {
-		t := value.V.(api.Timestamp)
+		t, ok := value.V.(api.Timestamp)
+		if !ok {
+			return errors.New("timestamp column writing, value should be api.Timestamp")
+		}
 		if err := w.data.Write(t.Seconds); err != nil {
 			return err
 		}
diff --git a/orc/encoding/bool.go b/orc/encoding/bool.go
index 9874427..52e17a9 100644
--- a/orc/encoding/bool.go
+++ b/orc/encoding/bool.go
@@ -3,6 +3,8 @@ package encoding
 import (
 	"bytes"
 	"io"
+
+	"github.com/pkg/errors"
 )
 
 const MaxBoolRunLength = 8
@@ -31,7 +33,10 @@ func (e *boolRunLength) GetPosition() []uint64 {
 
 
 func (e *boolRunLength) Encode(v interface{}, out *bytes.Buffer) error {
-	value := v.(bool)
+	value, ok := v.(bool)
+	if !ok {
+		return errors.New("bool encoding value should be type bool")
+	}
 	e.index++
 
 	if value {
diff --git a/orc/encoding/byte.go b/orc/encoding/byte.go
index 7c90679..5fc7058 100644
--- a/orc/encoding/byte.go
+++ b/orc/encoding/byte.go
@@ -3,6 +3,8 @@ package encoding
 import (
 	"bytes"
 	"io"
+
+	"github.com/pkg/errors"
 )
 
 const MaxByteRunLength = 128
@@ -25,7 +27,10 @@ func (e *byteRunLength) GetPosition() []uint64 {
 }
 
 func (e *byteRunLength) Encode(v interface{}, out *bytes.Buffer) error {
-	value := v.(byte)
+	value, ok := v.(byte)
+	if !ok {
+		return errors.New("byte encoding value should be type byte")
+	}
 	e.values = append(e.values, value)
 
 	if len(e.values) >= MaxByteRunLength {
-- 
2.43.0


From 8f17f31537c40c6f489592b63304fb8ad41486ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:56 +0000
Subject: [PATCH 77/88] fix: writer rejects batches without the vectors of its
 schema

---
 orc/stripe.go |  2 +-
 orc/writer.go | 49 +++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/orc/stripe.go b/orc/stripe.go
index 6735899..3c0d6b5 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -61,7 +61,7 @@ func (stripe *stripeWriter) write(vec *api.ColumnVector) error {
 }
 
 func (stripe *stripeWriter) writeValue(index int, vec *api.ColumnVector) error {
-	if vec.Vector != nil { // maybe no present struct vector
+	if len(vec.Vector) != 0 { // maybe no present struct vector
 		value := vec.Vector[index]
 		if value.Null && !stripe.schemas[vec.Id].HasNulls {
 			return errors.Errorf("schema %d %s has no nulls, but value is null", vec.Id, stripe.schemas[vec.Id].Kind.String())
diff --git a/orc/writer.go b/orc/writer.go
index ef6c96a..bf10f90 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -98,10 +98,59 @@ func (w *writer) Write(vec *api.ColumnVector) error {
 	if w.closed {
 		return errors.New("writer closed")
 	}
+	if err := verifyShape(vec, w.schemas[0]); err != nil { // nothing is written
+		return err
+	}
+	if err := verifyLength(vec, w.schemas[0], vec.Len()); err != nil {
+		return err
+	}
 	w.err = w.stripe.write(vec)
 	return w.err
 }
 
+// a batch has one vector for every column
+func verifyShape(vec *api.ColumnVector, schema *api.TypeDescription) error {
+	if vec == nil {
+		return errors.Errorf("batch has no vector of column %d", schema.Id)
+	}
+	if vec.Id != schema.Id || len(vec.Children) != len(schema.Children) {
+		return errors.Errorf("vector of column %d with %d children does not fit column %d with %d children", vec.Id, len(vec.Children),
+			schema.Id, len(schema.Children))
+	}
+	for i, c := range schema.Children {
+		if err := verifyShape(childVector(vec, i, c.Id), c); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// children may be in any order
+func childVector(vec *api.ColumnVector, i int, id uint32) *api.ColumnVector {
+	if c := vec.Children[i]; c != nil && c.Id == id {
+		return c
+	}
+	for _, c := range vec.Children {
+		if c != nil && c.Id == id {
+			return c
+		}
+	}
+	return nil
+}
+
+// every vector of a batch has a value for each of its rows, structs without nulls do not need to
+func verifyLength(vec *api.ColumnVector, schema *api.TypeDescription, rows int) error {
+	if len(vec.Vector) != rows && (len(vec.Vector) != 0 || schema.HasNulls || schema.Kind != pb.Type_STRUCT) {
+		return errors.Errorf("vector of column %d has %d values, batch has %d rows", schema.Id, len(vec.Vector), rows)
+	}
+	for i, c := range schema.Children {
+		if err := verifyLength(childVector(vec, i, c.Id), c, rows); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (w *writer) CheckBatch(batch *api.ColumnVector) error {
 	for _, v := range batch.Vector {
 		if v.Null && !w.schemas[batch.Id].HasNulls {
-- 
2.43.0


From ab5a26925f2958f286866fdf2306d22c1d9279c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:59 +0000
Subject: [PATCH 78/88] fix: writer rejects schemas that are not numbered or
 named

---
 orc/writer.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/orc/writer.go b/orc/writer.go
index bf10f90..7668285 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -48,6 +48,9 @@ func newWriter(schema *api.TypeDescription, opts *config.WriterOptions, f orcio.
 	if schemas, err = schema.Flat(); err != nil {
 		return
 	}
+	if err = verifySchemas(schemas); err != nil {
+		return
+	}
 
 	w = &writer{opts: opts, f: f, schemas: schemas}
 
@@ -65,6 +68,19 @@ func newWriter(schema *api.TypeDescription, opts *config.WriterOptions, f orcio.
 	return
 }
 
+// columns are numbered in the order of schemas
+func verifySchemas(schemas []*api.TypeDescription) error {
+	for i, schema := range schemas {
+		if int64(schema.Id) != int64(i) {
+			return errors.Errorf("schema %d %s should have id %d, schema not normalized?", schema.Id, schema.Kind.String(), i)
+		}
+		if schema.Kind == pb.Type_STRUCT && len(schema.ChildrenNames) != len(schema.Children) {
+			return errors.Errorf("schema %d struct has %d children with %d names", schema.Id, len(schema.Children), len(schema.ChildrenNames))
+		}
+	}
+	return nil
+}
+
 // cannot used concurrently, not synchronized
 // strip buffered in memory until the strip size
 // Encode out by columns
-- 
2.43.0


From 09f0bb2f1c93480601d323942972213cb90ed55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:02 +0000
Subject: [PATCH 79/88] fix: writer rejects encodings float and double columns
 do not have

---
 orc/column/package.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/orc/column/package.go b/orc/column/package.go
index b50f0f6..c820c2f 100644
--- a/orc/column/package.go
+++ b/orc/column/package.go
@@ -227,8 +227,14 @@ func NewWriter(schema *api.TypeDescription, opts *config.WriterOptions) (Writer,
 		return nil, errors.New("encoding not impl")
 
 	case pb.Type_FLOAT:
+		if schema.Encoding != pb.ColumnEncoding_DIRECT {
+			return nil, errors.New("encoding error")
+		}
 		return newFloatWriter(schema, opts, false), nil
 	case pb.Type_DOUBLE:
+		if schema.Encoding != pb.ColumnEncoding_DIRECT {
+			return nil, errors.New("encoding error")
+		}
 		return newFloatWriter(schema, opts, true), nil
 
 	case pb.Type_CHAR:
-- 
2.43.0


From c22c368199f96ee10bedfe9fe66551e552d9d8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:04 +0000
Subject: [PATCH 80/88] fix: writer rejects chunk sizes that chunk headers have
 no room for

---
 orc/writer.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/orc/writer.go b/orc/writer.go
index 7668285..86535fe 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -44,6 +44,9 @@ func newWriter(schema *api.TypeDescription, opts *config.WriterOptions, f orcio.
 		return
 	}*/
 
+	if err = verifyChunkSize(opts); err != nil {
+		return
+	}
 	var schemas []*api.TypeDescription
 	if schemas, err = schema.Flat(); err != nil {
 		return
@@ -68,6 +71,16 @@ func newWriter(schema *api.TypeDescription, opts *config.WriterOptions, f orcio.
 	return
 }
 
+func verifyChunkSize(opts *config.WriterOptions) error {
+	if opts.ChunkSize < 0 {
+		return errors.Errorf("ChunkSize %d is negative", opts.ChunkSize)
+	}
+	if opts.CompressionKind != pb.CompressionKind_NONE && (opts.ChunkSize == 0 || opts.ChunkSize >= maxChunkSize) {
+		return errors.Errorf("ChunkSize %d should be more than 0 and less than %d", opts.ChunkSize, maxChunkSize)
+	}
+	return nil
+}
+
 // columns are numbered in the order of schemas
 func verifySchemas(schemas []*api.TypeDescription) error {
 	for i, schema := range schemas {
-- 
2.43.0


From 1b01ce58ebcb565c7aa96d6ebbaa1cd5685d42f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:06 +0000
Subject: [PATCH 81/88] fix: reader rejects batches without the vectors of its
 columns

---
 orc/reader.go | 53 +++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/orc/reader.go b/orc/reader.go
index a624a5c..214de10 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -196,6 +196,12 @@ func (br *batchReader) Close() {
 }
 
 func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
+	if err = br.verifyBatch(batch, br.schemas[0]); err != nil {
+		return false, err
+	}
+	if err = verifyCap(batch, br.schemas[0], batch.Cap()); err != nil {
+		return false, err
+	}
 	batch.Clear()
 
 	if br.err != nil {
@@ -224,6 +230,53 @@ func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 	return br.cursor >= br.numberOfRows, nil
 }
 
+// batch has one vector for every included column
+func (br *batchReader) verifyBatch(vec *api.ColumnVector, schema *api.TypeDescription) error {
+	if vec == nil {
+		return errors.Errorf("batch has no vector of column %d", schema.Id)
+	}
+	if vec.Id != schema.Id || vec.Kind != schema.Kind {
+		return errors.Errorf("vector of column %d %s does not fit column %d %s", vec.Id, vec.Kind, schema.Id, schema.Kind)
+	}
+	n := 0
+	for _, c := range schema.Children {
+		if !br.bopt.IsInclude(c.Id) {
+			continue
+		}
+		if n == len(vec.Children) {
+			return errors.Errorf("batch has no vector of column %d", c.Id)
+		}
+		if err := br.verifyBatch(vec.Children[n], c); err != nil {
+			return err
+		}
+		n++
+	}
+	if n != len(vec.Children) {
+		return errors.Errorf("vector of column %d has %d children, should be %d", vec.Id, len(vec.Children), n)
+	}
+	return nil
+}
+
+// vectors of a batch have room for the same number of rows, structs without nulls do not need a vector
+func verifyCap(vec *api.ColumnVector, schema *api.TypeDescription, rows int) error {
+	if cap(vec.Vector) < rows && (schema.HasNulls || schema.Kind != pb.Type_STRUCT) {
+		return errors.Errorf("vector of column %d has capacity %d, batch has %d", schema.Id, cap(vec.Vector), rows)
+	}
+	if schema.Kind != pb.Type_STRUCT { // elements are allocated as needed
+		return nil
+	}
+	i := 0
+	for _, c := range schema.Children {
+		if i < len(vec.Children) && vec.Children[i].Id == c.Id {
+			if err := verifyCap(vec.Children[i], c, rows); err != nil {
+				return err
+			}
+			i++
+		}
+	}
+	return nil
+}
+
 func (br *batchReader) Seek(rowNumber uint64) error {
 	if rowNumber >= br.numberOfRows {
 		return errors.New("row number not less than number of rows")
-- 
2.43.0


From 8d271f6a143ea74fbd24a4eb5d81e8e2bdc22364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:08 +0000
Subject: [PATCH 82/88] fix: row size of a batch is positive

---
 orc/api/type.go | 4 ++--
 orc/reader.go   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/orc/api/type.go b/orc/api/type.go
index 758f00d..206c105 100755
--- a/orc/api/type.go
+++ b/orc/api/type.go
@@ -44,8 +44,8 @@ func (td *TypeDescription) AddChild(name string, value *TypeDescription) {
 }
 
 func (td TypeDescription) CreateVector(opt *BatchOption) (*ColumnVector, error) {
-	if opt.RowSize == 0 {
-		return nil, errors.New("RowSize == 0")
+	if opt.RowSize <= 0 {
+		return nil, errors.Errorf("RowSize %d", opt.RowSize)
 	}
 	if err := td.verifySchema(); err != nil {
 		return nil, err
diff --git a/orc/reader.go b/orc/reader.go
index 214de10..bb1e449 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -87,8 +87,8 @@ func newReader(f orcio.File) (r *reader, err error) {
 }
 
 func (r *reader) CreateBatchReader(bopt *api.BatchOption) (BatchReader, error) {
-	if bopt.RowSize == 0 {
-		return nil, errors.New("Batch option RowSize == 0")
+	if bopt.RowSize <= 0 {
+		return nil, errors.Errorf("Batch option RowSize %d", bopt.RowSize)
 	}
 
 	// todo: includes verification, make sure includes is a tree
-- 
2.43.0


From 5abb741ea1b2d98d3fc0b2c189011b0e22ccfd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:35 +0000
Subject: [PATCH 83/88] fix: minimum and maximum statistics start with the
 first value

---
 orc/column/float.go  | 18 ++++++++++++------
 orc/column/int.go    |  4 ++--
 orc/column/string.go | 12 ++++++------
 orc/column/time.go   | 13 +++++++------
 4 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/orc/column/float.go b/orc/column/float.go
index ba99b2a..9a5a54d 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -2,6 +2,7 @@ package column
 
 import (
 	"io"
+	"math"
 
 	"github.com/patrickhuang888/goorc/orc/api"
 	"github.com/patrickhuang888/goorc/orc/config"
@@ -173,13 +174,15 @@ func newFloatWriter(schema *api.TypeDescription, opts *config.WriterOptions, is6
 	}
 	base := &writer{schema: schema, opts: opts, present: present, indexStats: indexStats, index: index, stats: stats}
 	data := stream.NewFloatWriter(schema.Id, pb.Stream_DATA, opts, is64)
-	return &floatWriter{base, data, is64}
+	return &floatWriter{writer: base, data: data, is64: is64}
 }
 
 type floatWriter struct {
 	*writer
 	data stream.Writer
 	is64 bool
+
+	ordered bool // minimum and maximum are of a value
 }
 
 func (w *floatWriter) Write(value api.Value) error {
@@ -202,11 +205,14 @@ func (w *floatWriter) Write(value api.Value) error {
 
 		*w.stats.DoubleStatistics.Sum += v
 		*w.stats.NumberOfValues++
-		if v < *w.stats.DoubleStatistics.Minimum {
-			*w.stats.DoubleStatistics.Minimum = v
-		}
-		if v > *w.stats.DoubleStatistics.Maximum {
-			*w.stats.DoubleStatistics.Maximum = v
+		if !math.IsNaN(v) {
+			if !w.ordered || v < *w.stats.DoubleStatistics.Minimum {
+				*w.stats.DoubleStatistics.Minimum = v
+			}
+			if !w.ordered || v > *w.stats.DoubleStatistics.Maximum {
+				*w.stats.DoubleStatistics.Maximum = v
+			}
+			w.ordered = true
 		}
 	}
 
diff --git a/orc/column/int.go b/orc/column/int.go
index f075665..3bc3283 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -81,10 +81,10 @@ func (w *intWriter) Write(value api.Value) error {
 			return err
 		}
 		addToSum(w.stats.IntStatistics, v)
-		if v < *w.stats.IntStatistics.Minimum {
+		if *w.stats.NumberOfValues == 0 || v < *w.stats.IntStatistics.Minimum {
 			*w.stats.IntStatistics.Minimum = v
 		}
-		if v > *w.stats.IntStatistics.Maximum {
+		if *w.stats.NumberOfValues == 0 || v > *w.stats.IntStatistics.Maximum {
 			*w.stats.IntStatistics.Maximum = v
 		}
 		*w.stats.NumberOfValues++
diff --git a/orc/column/string.go b/orc/column/string.go
index 8b66a5d..8b41224 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -65,8 +65,8 @@ func (w *stringDirectV2Writer) Write(value api.Value) error {
 			return err
 		}
 
+		updateStringStatistics(w.stats.StringStatistics, s, *w.stats.NumberOfValues == 0)
 		*w.stats.NumberOfValues++
-		updateStringStatistics(w.stats.StringStatistics, s)
 	}
 
 	if w.opts.WriteIndex {
@@ -90,15 +90,15 @@ func (w *stringDirectV2Writer) Write(value api.Value) error {
 		}
 
 		if !value.Null {
+			updateStringStatistics(w.indexStats.StringStatistics, value.V.(string), *w.indexStats.NumberOfValues == 0)
 			*w.indexStats.NumberOfValues++
-			updateStringStatistics(w.indexStats.StringStatistics, value.V.(string))
 		}
 	}
 	return nil
 }
 
 // minimum and maximum turn into lower and upper bound with the first string of MaxByteLength or more
-func updateStringStatistics(stats *pb.StringStatistics, s string) {
+func updateStringStatistics(stats *pb.StringStatistics, s string, first bool) {
 	*stats.Sum += int64(len(s))
 
 	if len(s) >= MaxByteLength && stats.Minimum != nil {
@@ -109,10 +109,10 @@ func updateStringStatistics(stats *pb.StringStatistics, s string) {
 	if lower == nil {
 		lower, upper = stats.LowerBound, stats.UpperBound
 	}
-	if s < *lower {
+	if first || s < *lower {
 		*lower = s
 	}
-	if s > *upper {
+	if first || s > *upper {
 		*upper = s
 	}
 }
@@ -577,8 +577,8 @@ func (w *stringDictionaryV2Writer) Write(value api.Value) error {
 		w.count++
 		w.data[s] = vs
 
+		updateStringStatistics(w.stats.StringStatistics, s, *w.stats.NumberOfValues == 0)
 		*w.stats.NumberOfValues++
-		updateStringStatistics(w.stats.StringStatistics, s)
 	}
 
 	// todo: index writing
diff --git a/orc/column/time.go b/orc/column/time.go
index 700c616..ade3b88 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -54,10 +54,10 @@ func (w *dateV2Writer) Write(value api.Value) error {
 		if err := w.data.Write(int64(days)); err != nil {
 			return err
 		}
-		if days < w.stats.DateStatistics.GetMinimum() {
+		if *w.stats.NumberOfValues == 0 || days < w.stats.DateStatistics.GetMinimum() {
 			*w.stats.DateStatistics.Minimum = days
 		}
-		if days > w.stats.DateStatistics.GetMaximum() {
+		if *w.stats.NumberOfValues == 0 || days > w.stats.DateStatistics.GetMaximum() {
 			*w.stats.DateStatistics.Maximum = days
 		}
 		*w.stats.NumberOfValues++
@@ -329,19 +329,20 @@ func (w *timestampWriter) Write(value api.Value) error {
 			return err
 		}
 
+		first := *w.stats.NumberOfValues == 0
 		*w.stats.NumberOfValues++
 		ms := t.GetMilliSeconds()
-		if ms < w.stats.TimestampStatistics.GetMinimum() {
+		if first || ms < w.stats.TimestampStatistics.GetMinimum() {
 			*w.stats.TimestampStatistics.Minimum = ms
 		}
-		if ms > w.stats.TimestampStatistics.GetMaximum() {
+		if first || ms > w.stats.TimestampStatistics.GetMaximum() {
 			*w.stats.TimestampStatistics.Maximum = ms
 		}
 		msUtc := t.GetMilliSecondsUtc()
-		if msUtc < w.stats.TimestampStatistics.GetMinimumUtc() {
+		if first || msUtc < w.stats.TimestampStatistics.GetMinimumUtc() {
 			*w.stats.TimestampStatistics.MinimumUtc = msUtc
 		}
-		if msUtc > w.stats.TimestampStatistics.GetMaximumUtc() {
+		if first || msUtc > w.stats.TimestampStatistics.GetMaximumUtc() {
 			*w.stats.TimestampStatistics.MaximumUtc = msUtc
 		}
 
-- 
2.43.0


From c906dc8f37dc8969c2ab87b2b35e3b087d61bc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:06 +0000
Subject: [PATCH 84/88] fix: batch readers are not created of a file which
 replaced the opened one

---
 orc/io/file.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/orc/io/file.go b/orc/io/file.go
index 0d5a95d..ecb0277 100644
--- a/orc/io/file.go
+++ b/orc/io/file.go
@@ -48,10 +48,25 @@ func (f *osFile) Write(p []byte) (n int, err error) {
 }
 
 func (f *osFile) Clone() (File, error) {
+	fi, err := f.f.Stat()
+	if err != nil {
+		return nil, errors.WithStack(err)
+	}
 	r, err := os.Open(f.path)
 	if err != nil {
 		return nil, err
 	}
+	// path may lead to another file by now
+	ri, err := r.Stat()
+	if err == nil && !os.SameFile(fi, ri) {
+		err = errors.Errorf("%s has been replaced", f.path)
+	}
+	if err != nil {
+		if cerr := r.Close(); cerr != nil {
+			logger.Warn(cerr)
+		}
+		return nil, errors.WithStack(err)
+	}
 	return &osFile{f.path, r}, nil
 }
 
-- 
2.43.0


From 01bacded5a08caae3109837509eeee8bcdaad89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:36 +0000
Subject: [PATCH 85/88] fix: batch readers open one stripe at a time

---
 orc/reader.go | 121 ++++++++++++++++++++++++++++++++++----------------
 orc/stripe.go |  26 -----------
 2 files changed, 83 insertions(+), 64 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index bb1e449..289cfe7 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -91,23 +91,28 @@ func (r *reader) CreateBatchReader(bopt *api.BatchOption) (BatchReader, error) {
 		return nil, errors.Errorf("Batch option RowSize %d", bopt.RowSize)
 	}
 
-	// todo: includes verification, make sure includes is a tree
+	if err := verifyIncludes(r.schemas, bopt); err != nil {
+		return nil, err
+	}
+
 	// with a file of its own, batch readers may be created at the same time
 	f, err := r.f.Clone()
 	if err != nil {
 		return nil, err
 	}
-	defer func() { // streams have their own files too
-		if err := f.Close(); err != nil {
-			logger.Warn(err)
+	opts := *bopt // stripes are opened later, when caller may have changed it
+	opts.Includes = append([]uint32(nil), bopt.Includes...)
+	br := &batchReader{f: f, numberOfRows: r.numberOfRows, ropts: r.opts, bopt: &opts, schemas: r.schemas}
+	for _, info := range r.stripes {
+		if info.GetNumberOfRows() != 0 { // nothing to read
+			br.stripes = append(br.stripes, info)
+		}
+	}
+	if len(br.stripes) != 0 {
+		if err := br.openStripe(0); err != nil {
+			br.Close()
+			return nil, err
 		}
-	}()
-
-	br := &batchReader{f: f, numberOfRows: r.numberOfRows, ropts: r.opts, bopt: bopt, schemas: r.schemas}
-
-	if err := br.initStripes(r.stripes); err != nil {
-		br.Close() // stripes opened so far
-		return nil, err
 	}
 	return br, nil
 }
@@ -139,8 +144,9 @@ type batchReader struct {
 	bopt    *api.BatchOption
 	schemas []*api.TypeDescription
 
+	stripes     []*pb.StripeInformation
 	stripeIndex int
-	stripes     []*stripeReader
+	stripe      *stripeReader // nil if not open, only one is: its streams have files and buffers of their own
 
 	f orcio.File
 
@@ -151,18 +157,21 @@ type batchReader struct {
 	err error
 }
 
-func (br *batchReader) initStripes(infos []*pb.StripeInformation) error {
-	for i, stripeInfo := range infos {
-		if stripeInfo.GetNumberOfRows() == 0 { // nothing to read
-			continue
-		}
-		sr, err := newStripeReader(br.f, br.schemas, br.ropts, br.bopt, i, stripeInfo)
-		if err != nil {
-			return err
-		}
-		br.stripes = append(br.stripes, sr)
+func (br *batchReader) openStripe(i int) (err error) {
+	if br.f == nil {
+		return errors.New("batch reader is closed")
+	}
+	br.closeStripe()
+	br.stripeIndex = i
+	br.stripe, err = newStripeReader(br.f, br.schemas, br.ropts, br.bopt, i, br.stripes[i])
+	return err
+}
+
+func (br *batchReader) closeStripe() {
+	if br.stripe != nil {
+		br.stripe.Close()
+		br.stripe = nil
 	}
-	return nil
 }
 
 /*func (br *batchReader) CreateBatch() *api.Batch {
@@ -190,9 +199,14 @@ func (br *batchReader) initStripes(infos []*pb.StripeInformation) error {
 }*/
 
 func (br *batchReader) Close() {
-	for _, s := range br.stripes {
-		s.Close()
+	br.closeStripe()
+	if br.f == nil {
+		return
+	}
+	if err := br.f.Close(); err != nil {
+		logger.Warn(err)
 	}
+	br.f = nil
 }
 
 func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
@@ -217,13 +231,20 @@ func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 		return false, errors.Errorf("no stripe left at row %d of %d", br.cursor, br.numberOfRows)
 	}
 
-	stripeEnd, err := br.stripes[br.stripeIndex].next(batch)
+	if br.stripe == nil {
+		if err = br.openStripe(br.stripeIndex); err != nil {
+			br.err = err
+			return false, err
+		}
+	}
+	stripeEnd, err := br.stripe.next(batch)
 	if err != nil {
 		batch.Clear()
 		br.err = err
 		return false, err
 	}
 	if stripeEnd {
+		br.closeStripe()
 		br.stripeIndex++
 	}
 	br.cursor += uint64(batch.Len())
@@ -282,26 +303,50 @@ func (br *batchReader) Seek(rowNumber uint64) error {
 		return errors.New("row number not less than number of rows")
 	}
 	var rows uint64
-	for i := 0; i < len(br.stripes); i++ {
-		if rows+br.stripes[i].numberOfRows > rowNumber {
-			if err := br.stripes[i].Seek(rowNumber - rows); err != nil {
-				br.err = err
-				return err
-			}
-			// stripes after that are read from their start
-			for _, s := range br.stripes[i+1:] {
-				s.rewind()
+	for i, info := range br.stripes {
+		if rows+info.GetNumberOfRows() > rowNumber {
+			if br.err = br.seekStripe(i, rowNumber-rows); br.err != nil {
+				return br.err
 			}
-			br.err = nil
-			br.stripeIndex = i
 			br.cursor = rowNumber
 			return nil
 		}
-		rows += br.stripes[i].numberOfRows
+		rows += info.GetNumberOfRows()
 	}
 	return errors.New("no row found")
 }
 
+func (br *batchReader) seekStripe(i int, rowNumber uint64) error {
+	if br.stripe == nil || br.stripeIndex != i {
+		if err := br.openStripe(i); err != nil {
+			return err
+		}
+	}
+	return br.stripe.Seek(rowNumber)
+}
+
+// included columns are a tree, only structs can be read without some of their children
+func verifyIncludes(schemas []*api.TypeDescription, bopt *api.BatchOption) error {
+	n := 0
+	for _, schema := range schemas {
+		if bopt.IsInclude(schema.Id) {
+			n++
+		}
+		for _, c := range schema.Children {
+			if bopt.IsInclude(c.Id) && !bopt.IsInclude(schema.Id) {
+				return errors.Errorf("column %d is included without its parent %d", c.Id, schema.Id)
+			}
+			if !bopt.IsInclude(c.Id) && bopt.IsInclude(schema.Id) && schema.Kind != pb.Type_STRUCT {
+				return errors.Errorf("column %d is included without its child %d", schema.Id, c.Id)
+			}
+		}
+	}
+	if n == 0 {
+		return errors.New("no column is included")
+	}
+	return nil
+}
+
 // types should be a tree in pre-order
 func verifyTypes(footer *pb.Footer) error {
 	types := footer.GetTypes()
diff --git a/orc/stripe.go b/orc/stripe.go
index 3c0d6b5..e644e59 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -232,9 +232,6 @@ type stripeReader struct {
 
 	numberOfRows uint64
 	cursor       uint64
-
-	touched bool // streams are not at their start any more
-	rewound bool // next row is the first one
 }
 
 func newStripeReader(f orcio.File, schemas []*api.TypeDescription, ropts *config.ReaderOptions, bopt *api.BatchOption,
@@ -320,16 +317,6 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 		}
 	}
 
-	for _, schema := range stripe.schemas {
-		for _, c := range schema.Children {
-			if readers[c.Id] != nil && readers[schema.Id] == nil {
-				return errors.Errorf("column %d is included without its parent %d", c.Id, schema.Id)
-			}
-			if readers[c.Id] == nil && readers[schema.Id] != nil && schema.Kind != pb.Type_STRUCT {
-				return errors.Errorf("column %d is included without its child %d", schema.Id, c.Id)
-			}
-		}
-	}
 	if stripe.columnReader == nil {
 		return errors.New("no column is included")
 	}
@@ -406,13 +393,7 @@ func (stripe *stripeReader) initStreams(info *pb.StripeInformation, footer *pb.S
 
 // a stripe is typically  ~200MB
 func (stripe *stripeReader) next(vec *api.ColumnVector) (end bool, err error) {
-	if stripe.rewound {
-		if err = stripe.Seek(0); err != nil {
-			return
-		}
-	}
 	stripe.prepareVector(vec)
-	stripe.touched = true
 
 	if err = stripe.columnReader.NextBatch(vec); err != nil {
 		return
@@ -468,7 +449,6 @@ func resizeVector(size int, vec *api.ColumnVector) {
 // locate rows in this stripe
 func (stripe *stripeReader) Seek(rowNumber uint64) error {
 	// improve: start from the stride of row number
-	stripe.touched = true
 	if err := stripe.columnReader.SeekStride(0); err != nil {
 		return err
 	}
@@ -476,15 +456,9 @@ func (stripe *stripeReader) Seek(rowNumber uint64) error {
 		return err
 	}
 	stripe.cursor = rowNumber
-	stripe.rewound = false
 	return nil
 }
 
-// streams are not read before the rows are asked for, so an unreadable stripe does not affect others
-func (stripe *stripeReader) rewind() {
-	stripe.rewound = stripe.touched
-}
-
 func (stripe *stripeReader) Close() {
 	stripe.columnReader.Close()
 }
-- 
2.43.0


From eac26b8ad6f6b21dd15636299241478ab2c10c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:37 +0000
Subject: [PATCH 86/88] fix: a small chunk does not decompress to unbounded
 memory

---
 orc/common/misc.go   | 29 +++++++++++++++++++++++------
 orc/stream/reader.go |  2 +-
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/orc/common/misc.go b/orc/common/misc.go
index 3013926..616b0c8 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -230,6 +230,9 @@ func DecChunkHeader(h []byte) (length int, orig bool) {
 	return int(h[2])<<15 | int(h[1])<<7 | int(h[0])>>1, h[0]&0x01 == 0x01
 }
 
+// chunk header has 23 bits for length, so there is no reason for a larger chunk
+const maxChunkSize = 1 << 23
+
 // buffer should be compressed, maybe contains several chunks
 func DecompressChunks(kind pb.CompressionKind, dst *bytes.Buffer, src *bytes.Buffer) (err error) {
 	switch kind {
@@ -252,12 +255,8 @@ func DecompressChunks(kind pb.CompressionKind, dst *bytes.Buffer, src *bytes.Buf
 				if _, err = io.CopyN(buf, src, int64(chunkLength)); err != nil {
 					return errors.WithStack(err)
 				}
-				r := flate.NewReader(buf)
-				if _, err = io.Copy(dst, r); err != nil {
-					return errors.WithStack(err)
-				}
-				if err = r.Close(); err != nil {
-					return errors.WithStack(err)
+				if _, err = DecompressChunk(kind, dst, buf, maxChunkSize); err != nil {
+					return err
 				}
 			}
 		}
@@ -267,6 +266,24 @@ func DecompressChunks(kind pb.CompressionKind, dst *bytes.Buffer, src *bytes.Buf
 	return
 }
 
+// DecompressChunk decompresses one chunk, which should not be larger than limit decompressed
+func DecompressChunk(kind pb.CompressionKind, dst *bytes.Buffer, src *bytes.Buffer, limit uint64) (n int64, err error) {
+	switch kind {
+	case pb.CompressionKind_ZLIB:
+		r := flate.NewReader(src)
+		defer r.Close()
+		if n, err = io.Copy(dst, io.LimitReader(r, int64(limit)+1)); err != nil {
+			return n, errors.WithStack(err)
+		}
+		if uint64(n) > limit {
+			return n, errors.Errorf("chunk decompressed larger than %d", limit)
+		}
+	default:
+		return 0, errors.New("decompression other than zlib not impl")
+	}
+	return
+}
+
 func Decompress(kind pb.CompressionKind, dst *bytes.Buffer, src *bytes.Buffer) (n int64, err error) {
 	switch kind {
 
diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index 7d41ae5..1a84ef8 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -154,7 +154,7 @@ func (r *reader) readAChunk() error {
 		if _, err := io.CopyN(r.cmpBuf, r.f, int64(chunkLength)); err != nil {
 			return errors.WithStack(err)
 		}
-		if _, err := common.Decompress(r.opts.CompressionKind, r.buf, r.cmpBuf); err != nil {
+		if _, err := common.DecompressChunk(r.opts.CompressionKind, r.buf, r.cmpBuf, r.opts.ChunkSize); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 62d53d15516ad04e16b2ac012fa827704f3c9fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:18 +0000
Subject: [PATCH 87/88] fix: a batch without a vector for structs with nulls in
 lists is refused

---
 orc/reader.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/orc/reader.go b/orc/reader.go
index 289cfe7..bbad465 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -284,7 +284,7 @@ func verifyCap(vec *api.ColumnVector, schema *api.TypeDescription, rows int) err
 		return errors.Errorf("vector of column %d has capacity %d, batch has %d", schema.Id, cap(vec.Vector), rows)
 	}
 	if schema.Kind != pb.Type_STRUCT { // elements are allocated as needed
-		return nil
+		return verifyElements(vec, schema)
 	}
 	i := 0
 	for _, c := range schema.Children {
@@ -298,6 +298,23 @@ func verifyCap(vec *api.ColumnVector, schema *api.TypeDescription, rows int) err
 	return nil
 }
 
+// structs with nulls have a vector among elements too, there is no other place for their nulls
+func verifyElements(vec *api.ColumnVector, schema *api.TypeDescription) error {
+	if schema.Kind == pb.Type_STRUCT && schema.HasNulls && vec.Vector == nil {
+		return errors.Errorf("struct of column %d has nulls, but no vector", schema.Id)
+	}
+	i := 0
+	for _, c := range schema.Children {
+		if i < len(vec.Children) && vec.Children[i].Id == c.Id {
+			if err := verifyElements(vec.Children[i], c); err != nil {
+				return err
+			}
+			i++
+		}
+	}
+	return nil
+}
+
 func (br *batchReader) Seek(rowNumber uint64) error {
 	if rowNumber >= br.numberOfRows {
 		return errors.New("row number not less than number of rows")
-- 
2.43.0


From ab377956f4f2a67b1498337229c1ab1c76bb2957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:31 +0000
Subject: [PATCH 88/88] fix: elements read in parts keep the vectors of structs
 without elements

---
 orc/column/list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/column/list.go b/orc/column/list.go
index 2efa9f7..0119aa4 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -109,7 +109,7 @@ func readElements(child Reader, vec *api.ColumnVector, total int) error {
 }
 
 func emptyLike(vec *api.ColumnVector) *api.ColumnVector {
-	empty := &api.ColumnVector{}
+	empty := &api.ColumnVector{Vector: []api.Value{}} // stays a vector when nothing is appended
 	for _, c := range vec.Children {
 		empty.Children = append(empty.Children, emptyLike(c))
 	}
-- 
2.43.0

