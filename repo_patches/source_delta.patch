From 93ed91351b52f4205908c28d59a0f2e278554bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:36 +0000
Subject: [PATCH 01/41] fix: reject a maxp table shorter than six bytes instead
 of panicking

---
 sfnt.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfnt.go b/sfnt.go
index f187967..c297cb5 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -846,6 +846,8 @@ func (sfnt *SFNT) parseMaxp() error {
 	b, ok := sfnt.Tables["maxp"]
 	if !ok {
 		return fmt.Errorf("maxp: missing table")
+	} else if len(b) < 6 {
+		return fmt.Errorf("maxp: bad table")
 	}
 
 	sfnt.Maxp = &maxpTable{}
-- 
2.43.0


From 56cc181b0c8cbb9085f88125f3ed9c81010d6bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:36 +0000
Subject: [PATCH 02/41] fix: do not panic on a truncated last entry of the loca
 table

---
 sfnt_truetype.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index bb0999c..aab3a31 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -455,9 +455,9 @@ type locaTable struct {
 }
 
 func (loca *locaTable) Get(glyphID uint16) (uint32, bool) {
-	if loca.Format == 0 && int(glyphID)*2 < len(loca.data) {
+	if loca.Format == 0 && int(glyphID)*2+2 <= len(loca.data) {
 		return 2 * uint32(binary.BigEndian.Uint16(loca.data[int(glyphID)*2:])), true
-	} else if loca.Format == 1 && int(glyphID)*4 < len(loca.data) {
+	} else if loca.Format == 1 && int(glyphID)*4+4 <= len(loca.data) {
 		return binary.BigEndian.Uint32(loca.data[int(glyphID)*4:]), true
 	}
 	return 0, false
-- 
2.43.0


From 1b8de03132ad33601aa8c059020de44db2517f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:36 +0000
Subject: [PATCH 03/41] fix: do not panic on loca offsets that are decreasing
 or beyond the glyf table

---
 sfnt_truetype.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index aab3a31..67a081a 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -72,7 +72,7 @@ type glyfTable struct {
 func (glyf *glyfTable) Get(glyphID uint16) []byte {
 	start, ok1 := glyf.loca.Get(glyphID)
 	end, ok2 := glyf.loca.Get(glyphID + 1)
-	if !ok1 || !ok2 {
+	if !ok1 || !ok2 || end < start || uint32(len(glyf.data)) < end {
 		return nil
 	}
 	return glyf.data[start:end]
-- 
2.43.0


From e25f56557f96995703553c146fc43c1ef13cc701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:00 +0000
Subject: [PATCH 04/41] fix: do not panic on kern tables that end within the
 version 1 header or the pairs of the last subtable

---
 sfnt_truetype.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 67a081a..e912104 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -569,6 +569,8 @@ func (sfnt *SFNT) parseKern() error {
 		minorVersion := r.ReadUint16()
 		if minorVersion != 0 {
 			return fmt.Errorf("kern: bad minor version %d", minorVersion)
+		} else if r.Len() < 4 {
+			return fmt.Errorf("kern: bad table")
 		}
 		nTables = r.ReadUint32()
 	}
@@ -604,8 +606,7 @@ func (sfnt *SFNT) parseKern() error {
 				// for some fonts the subtable's length exceeds what can fit in a uint16
 				// we allow only the last subtable to exceed as long as it stays within the table
 				pairsLength := 6 * int64(nPairs)
-				pairsLength &= 0xFFFF
-				if int64(length) != 14+pairsLength || r.Len() < pairsLength {
+				if int64(length) != 14+pairsLength&0xFFFF || r.Len() < pairsLength {
 					return fmt.Errorf("kern: bad length for subtable %d", j)
 				}
 			} else {
-- 
2.43.0


From 94c2fad82c02a57a9aca8ff02f423c4fef2ebe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:43 +0000
Subject: [PATCH 05/41] fix: reject cmap subtables whose length goes beyond the
 table instead of panicking

---
 sfnt_cmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 265d942..6111d72 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -453,7 +453,7 @@ func (sfnt *SFNT) parseCmap() error {
 		} else {
 			return fmt.Errorf("cmap: bad format %d for subtable %d", format, j)
 		}
-		if length < 8 || math.MaxUint32-offset < length {
+		if length < 8 || uint32(len(b))-offset < length {
 			return fmt.Errorf("cmap: bad subtable %d", j)
 		}
 		for i := 0; i < len(offsets); i++ {
-- 
2.43.0


From 0e8664aa448420e82990c77de2c72625a5b84b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:46 +0000
Subject: [PATCH 06/41] fix: reject cmap format 4 segments whose first glyph
 lies before the glyph array

---
 sfnt_cmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 6111d72..5e00690 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -548,8 +548,8 @@ func (sfnt *SFNT) parseCmap() error {
 					if idRangeOffset%2 != 0 {
 						return fmt.Errorf("cmap: bad idRangeOffset in subtable %d", j)
 					} else if idRangeOffset != 0 {
-						index := int(idRangeOffset/2) + int(subtable.EndCode[i]-subtable.StartCode[i]) - (int(segCount) - i)
-						if index < 0 || glyphIdArrayLength <= index {
+						index := int(idRangeOffset/2) - (int(segCount) - i)
+						if index < 0 || glyphIdArrayLength <= index+int(subtable.EndCode[i]-subtable.StartCode[i]) {
 							return fmt.Errorf("cmap: bad idRangeOffset in subtable %d", j)
 						}
 					}
-- 
2.43.0


From 70ea9d798b3a7678146ece0025610345eaee7f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:50 +0000
Subject: [PATCH 07/41] fix: terminate the cmap format 12 reverse mapping for
 groups that end at the largest character code

---
 sfnt_cmap.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 5e00690..f063e3c 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -144,9 +144,9 @@ func (subtable *cmapFormat12) ToUnicode(glyphID uint16) []rune {
 	subtable.once.Do(func() {
 		subtable.unicodeMap = map[uint16][]rune{}
 		for i := 0; i < len(subtable.StartCharCode); i++ {
-			for r := subtable.StartCharCode[i]; r <= subtable.EndCharCode[i]; r++ {
-				id := uint16((r - subtable.StartCharCode[i]) + subtable.StartGlyphID[i])
-				subtable.unicodeMap[id] = append(subtable.unicodeMap[id], rune(r))
+			for j := uint32(0); j <= subtable.EndCharCode[i]-subtable.StartCharCode[i]; j++ {
+				id := uint16(j + subtable.StartGlyphID[i])
+				subtable.unicodeMap[id] = append(subtable.unicodeMap[id], rune(subtable.StartCharCode[i]+j))
 			}
 		}
 	})
-- 
2.43.0


From db33508729c2c1f9ce72b37944629b1d66944849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:54 +0000
Subject: [PATCH 08/41] fix: reject a CFF INDEX that is truncated or has
 decreasing offsets instead of panicking

---
 sfnt_cff.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 378b11f..57886a6 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1212,6 +1212,10 @@ func (t *cffINDEX) Extend(o *cffINDEX) {
 
 func parseINDEX(r *parse.BinaryReader, isCFF2 bool) (*cffINDEX, error) {
 	t := &cffINDEX{}
+	if r.Len() < 2 || isCFF2 && r.Len() < 4 {
+		return nil, fmt.Errorf("bad data")
+	}
+
 	var count uint32
 	if !isCFF2 {
 		count = uint32(r.ReadUint16())
@@ -1251,9 +1255,14 @@ func parseINDEX(r *parse.BinaryReader, isCFF2 bool) (*cffINDEX, error) {
 			t.offset[i] = r.ReadUint32() - 1
 		}
 	}
-	if r.Len() < int64(t.offset[count]) {
+	if t.offset[0] != 0 || r.Len() < int64(t.offset[count]) {
 		return nil, fmt.Errorf("bad data")
 	}
+	for i := uint32(0); i < count; i++ {
+		if t.offset[i+1] < t.offset[i] {
+			return nil, fmt.Errorf("bad offsets")
+		}
+	}
 	t.data = r.ReadBytes(int64(t.offset[count]))
 	return t, nil
 }
-- 
2.43.0


From f1cb84c1066eb77cbb4d742c140d148d5a5eebb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:59 +0000
Subject: [PATCH 09/41] fix: write all bits of the offsets of a CFF INDEX
 larger than 64 kB

---
 sfnt_cff.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 57886a6..c5f341a 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1272,7 +1272,7 @@ func cffINDEXOffSize(n int) int {
 		return 1
 	} else if n <= math.MaxUint16 {
 		return 2
-	} else if n <= (2<<24 - 1) {
+	} else if n <= (1<<24 - 1) {
 		return 3
 	}
 	return 4
@@ -1303,7 +1303,7 @@ func (t *cffINDEX) Write() ([]byte, error) {
 	} else if offSize == 3 {
 		for _, offset := range t.offset {
 			w.WriteUint8(uint8((offset + 1) >> 16))
-			w.WriteUint16(uint16((offset + 1) & 0x00FF))
+			w.WriteUint16(uint16((offset + 1) & 0xFFFF))
 		}
 	} else if offSize == 4 {
 		for _, offset := range t.offset {
-- 
2.43.0


From ca3bb4d1c4283d26317aec8c00c38c3df287674f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:03 +0000
Subject: [PATCH 10/41] fix: keep the entries of a CFF INDEX of which all are
 empty

---
 sfnt_cff.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index c5f341a..1266189 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1281,9 +1281,9 @@ func cffINDEXOffSize(n int) int {
 func (t *cffINDEX) Write() ([]byte, error) {
 	if math.MaxUint16 < len(t.offset)-1 {
 		return nil, fmt.Errorf("too many indices")
-	} else if len(t.data) == 0 {
+	} else if len(t.offset) < 2 {
 		return []byte{0, 0}, nil // zero count
-	} else if len(t.offset) == 0 || t.offset[0] != 0 || int(t.offset[len(t.offset)-1]) != len(t.data) {
+	} else if t.offset[0] != 0 || int(t.offset[len(t.offset)-1]) != len(t.data) {
 		return nil, fmt.Errorf("bad offsets")
 	}
 
-- 
2.43.0


From f2d78ab2d2dcf3f31a80a1a8afb83c68b8d09aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:08 +0000
Subject: [PATCH 11/41] fix: return the string ID of a custom string that is
 already in the CFF String INDEX

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 1266189..63628d5 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1185,7 +1185,7 @@ func (t *cffINDEX) AddSID(data []byte) int {
 	}
 	for i := 0; i+1 < len(t.offset); i++ {
 		if bytes.Equal(data, t.data[t.offset[i]:t.offset[i+1]]) {
-			return i
+			return i + len(cffStandardStrings)
 		}
 	}
 	// warning: this may become 65000 or larger which is not strictly allowed
-- 
2.43.0


From 6065e3b708d8fae4b039c04922c2a277366fe8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:14 +0000
Subject: [PATCH 12/41] fix: do not share memory between two CFF INDEXes after
 extending an empty one

---
 sfnt_cff.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 63628d5..a7d81be 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1196,8 +1196,7 @@ func (t *cffINDEX) Extend(o *cffINDEX) {
 	if o == nil || len(o.offset) < 2 {
 		return
 	} else if len(t.offset) < 2 {
-		t.offset = o.offset
-		t.data = o.data
+		*t = *o.Copy()
 		return
 	}
 
-- 
2.43.0


From 6b8809769fba6452f80f9b1dda61a0c579dc1148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:18 +0000
Subject: [PATCH 13/41] fix: terminate on a CFF DICT that ends within a real
 number

---
 sfnt_cff.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index a7d81be..e311132 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1800,7 +1800,7 @@ func parseDICTNumber(b0 int, r *parse.BinaryReader) (int, float64) {
 		return int(r.ReadInt32()), math.NaN()
 	} else if b0 == 30 {
 		num := []byte{}
-		for {
+		for 0 < r.Len() {
 			b := r.ReadUint8()
 			for i := 0; i < 2; i++ {
 				switch b >> 4 {
@@ -1826,6 +1826,7 @@ func parseDICTNumber(b0 int, r *parse.BinaryReader) (int, float64) {
 				b = b << 4
 			}
 		}
+		return 0, math.NaN() // missing end of number
 	} else if b0 == 31 {
 		// reserved
 		return 0, math.NaN()
-- 
2.43.0


From 424d1693426202b364dfb566a077c4bcffd25fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:51 +0000
Subject: [PATCH 14/41] fix: reject negative offsets and lengths of a CFF
 Private DICT instead of panicking

---
 sfnt_cff.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index e311132..ac10c51 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -166,7 +166,7 @@ func (sfnt *SFNT) parseCFF() error {
 	}
 
 	if !topDICT.IsCID {
-		if len(b) < topDICT.PrivateOffset || len(b)-topDICT.PrivateOffset < topDICT.PrivateLength {
+		if topDICT.PrivateOffset < 0 || topDICT.PrivateLength < 0 || len(b) < topDICT.PrivateOffset || len(b)-topDICT.PrivateOffset < topDICT.PrivateLength {
 			return fmt.Errorf("CFF: bad Private DICT offset")
 		}
 		privateDICT, err := parsePrivateDICT(b[topDICT.PrivateOffset:topDICT.PrivateOffset+topDICT.PrivateLength], false)
@@ -2042,7 +2042,7 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 		if err != nil {
 			return nil, fmt.Errorf("Font DICT: %w", err)
 		}
-		if len(b) < fontDICT.PrivateOffset || len(b)-fontDICT.PrivateOffset < fontDICT.PrivateLength {
+		if fontDICT.PrivateOffset < 0 || fontDICT.PrivateLength < 0 || len(b) < fontDICT.PrivateOffset || len(b)-fontDICT.PrivateOffset < fontDICT.PrivateLength {
 			return nil, fmt.Errorf("Font DICT: bad Private DICT offset")
 		}
 		privateDICT, err := parsePrivateDICT(b[fontDICT.PrivateOffset:fontDICT.PrivateOffset+fontDICT.PrivateLength], isCFF2)
-- 
2.43.0


From 936ff8d718a8c4a1f5a2314a17a880d69ce50fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:57 +0000
Subject: [PATCH 15/41] fix: validate the CFF FDSelect ranges and font indices
 instead of panicking on lookup

---
 sfnt_cff.go | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index ac10c51..fe5ee35 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1990,7 +1990,7 @@ func (t *cffFontINDEX) Index(glyphID uint32) (uint16, bool) {
 			return 0, false
 		}
 		return uint16(t.fds[glyphID]), true
-	} else if len(t.first) == 0 || t.first[len(t.first)-1] <= glyphID {
+	} else if len(t.first) < 2 || t.first[len(t.first)-1] <= glyphID {
 		return 0, false
 	}
 
@@ -1998,7 +1998,7 @@ func (t *cffFontINDEX) Index(glyphID uint32) (uint16, bool) {
 	for t.first[i+1] <= glyphID {
 		i++
 	}
-	if len(t.fd) < i {
+	if len(t.fd) <= i {
 		return 0, false
 	}
 	return t.fd[i], true
@@ -2068,12 +2068,21 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 	r.Seek(int64(fdSelect), 0)
 	format := r.ReadUint8()
 	if format == 0 {
+		if r.Len() < int64(nGlyphs) {
+			return nil, fmt.Errorf("FDSelect: bad data")
+		}
 		fonts.fds = make([]uint8, nGlyphs)
 		for i := 0; i < nGlyphs; i++ {
 			fonts.fds[i] = r.ReadUint8()
 		}
 	} else if format == 3 {
-		nRanges := r.ReadUint16()
+		if r.Len() < 2 {
+			return nil, fmt.Errorf("FDSelect: bad data")
+		}
+		nRanges := uint32(r.ReadUint16())
+		if r.Len() < 3*int64(nRanges)+2 {
+			return nil, fmt.Errorf("FDSelect: bad data")
+		}
 		fonts.first = make([]uint32, nRanges+1)
 		fonts.fd = make([]uint16, nRanges)
 		for i := 0; i < int(nRanges); i++ {
@@ -2082,7 +2091,13 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 		}
 		fonts.first[nRanges] = uint32(r.ReadUint16())
 	} else if isCFF2 && format == 4 {
+		if r.Len() < 4 {
+			return nil, fmt.Errorf("FDSelect: bad data")
+		}
 		nRanges := r.ReadUint32()
+		if r.Len() < 6*int64(nRanges)+4 {
+			return nil, fmt.Errorf("FDSelect: bad data")
+		}
 		fonts.first = make([]uint32, nRanges+1)
 		fonts.fd = make([]uint16, nRanges)
 		for i := 0; i < int(nRanges); i++ {
@@ -2093,6 +2108,18 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 	} else {
 		return nil, fmt.Errorf("FDSelect: bad format")
 	}
+	for _, fd := range fonts.fds {
+		if len(fonts.private) <= int(fd) {
+			return nil, fmt.Errorf("FDSelect: bad font index")
+		}
+	}
+	for i, fd := range fonts.fd {
+		if len(fonts.private) <= int(fd) {
+			return nil, fmt.Errorf("FDSelect: bad font index")
+		} else if fonts.first[i+1] <= fonts.first[i] {
+			return nil, fmt.Errorf("FDSelect: bad ranges")
+		}
+	}
 	return fonts, nil
 }
 
-- 
2.43.0


From f9719a0025618ad9dec6c968ecf63b658f75a6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:57 +0000
Subject: [PATCH 16/41] fix: do not wrap around on entry 65535 of a CFF INDEX

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index fe5ee35..ebe52e2 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1148,7 +1148,7 @@ func (t *cffINDEX) Copy() *cffINDEX {
 
 func (t *cffINDEX) Get(i uint16) []byte {
 	if int(i) < t.Len() {
-		return t.data[t.offset[i]:t.offset[i+1]:t.offset[i+1]]
+		return t.data[t.offset[i]:t.offset[int(i)+1]:t.offset[int(i)+1]]
 	}
 	return nil
 }
-- 
2.43.0


From 44628222cd470a3d8ebaf6c6113c7c9d80c096f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:18 +0000
Subject: [PATCH 17/41] fix: accept WOFF2 fonts of which data is read up to its
 end, and do not panic on truncated data

---
 woff2.go | 125 +++++++++++++++++++++++++++++++++----------------------
 1 file changed, 75 insertions(+), 50 deletions(-)

diff --git a/woff2.go b/woff2.go
index 2bf4e17..fcda6d1 100644
--- a/woff2.go
+++ b/woff2.go
@@ -99,6 +99,9 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 
 		var tag string
 		if tagIndex == 63 {
+			if r.Len() < 4 {
+				return nil, ErrInvalidFontData
+			}
 			tag = uint32ToString(r.ReadUint32())
 		} else {
 			tag = woff2TableTags[tagIndex]
@@ -163,10 +166,11 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 	// TODO: (WOFF2) parse collection directory format
 
 	// decompress font data using Brotli
-	compData := r.ReadBytes(int64(totalCompressedSize))
-	if r.Err() == io.EOF {
+	if r.Len() < int64(totalCompressedSize) {
 		return nil, ErrInvalidFontData
-	} else if MaxMemory < uncompressedSize {
+	}
+	compData := r.ReadBytes(int64(totalCompressedSize))
+	if MaxMemory < uncompressedSize {
 		return nil, ErrExceedsMemory
 	}
 	rBrotli := brotli.NewReader(bytes.NewReader(compData)) // err is always nil
@@ -209,13 +213,13 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 				return nil, fmt.Errorf("loca: invalid value for origLength")
 			}
 		} else {
+			if len(tables[iGlyf].data) < 8 {
+				return nil, ErrInvalidFontData
+			}
 			rGlyf := parse.NewBinaryReaderBytes(tables[iGlyf].data)
 			_ = rGlyf.ReadUint32() // version
 			numGlyphs := uint32(rGlyf.ReadUint16())
 			indexFormat := rGlyf.ReadUint16()
-			if rGlyf.Err() == io.EOF {
-				return nil, ErrInvalidFontData
-			}
 			if indexFormat == 0 && tables[iLoca].origLength != (numGlyphs+1)*2 || indexFormat == 1 && tables[iLoca].origLength != (numGlyphs+1)*4 {
 				return nil, fmt.Errorf("loca: invalid value for origLength")
 			}
@@ -338,6 +342,10 @@ func signInt16(flag byte, pos uint) int16 {
 // Remarkable! This code was written on a Sunday evening, and after fixing the compiler errors it worked flawlessly!
 // Edit: oops, there was actually a subtle bug fixed in dx of flag < 120 of simple glyphs.
 func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error) {
+	if len(b) < 36 {
+		return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
+	}
+
 	r := parse.NewBinaryReaderBytes(b)
 	_ = r.ReadUint16() // version
 	optionFlags := r.ReadUint16()
@@ -350,11 +358,19 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 	compositeStreamSize := r.ReadUint32()
 	bboxStreamSize := r.ReadUint32()
 	instructionStreamSize := r.ReadUint32()
-	if r.Err() == io.EOF || nContourStreamSize != 2*uint32(numGlyphs) {
+	if nContourStreamSize != 2*uint32(numGlyphs) {
 		return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 	}
 
 	bitmapSize := ((uint32(numGlyphs) + 31) >> 5) << 2
+	streamsSize := int64(nContourStreamSize) + int64(nPointsStreamSize) + int64(flagStreamSize) + int64(glyphStreamSize) + int64(compositeStreamSize) + int64(bboxStreamSize) + int64(instructionStreamSize)
+	if optionFlags&0x0001 != 0 {
+		streamsSize += int64(bitmapSize)
+	}
+	if bboxStreamSize < bitmapSize || r.Len() < streamsSize {
+		return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
+	}
+
 	nContourStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(nContourStreamSize)))
 	nPointsStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(nPointsStreamSize)))
 	flagStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(flagStreamSize)))
@@ -367,9 +383,6 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 	if optionFlags&0x0001 != 0 { // overlapSimpleBitmap present
 		overlapSimpleBitmap = parse.NewBitmapReader(r.ReadBytes(int64(bitmapSize)))
 	}
-	if r.Err() == io.EOF {
-		return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
-	}
 
 	locaLength := (uint32(numGlyphs) + 1) * 2
 	if indexFormat != 0 {
@@ -398,26 +411,26 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 		} else if 0 < nContours { // simple glyph
 			var xMin, yMin, xMax, yMax int16
 			if explicitBbox {
+				if bboxStream.Len() < 8 {
+					return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
+				}
 				xMin = bboxStream.ReadInt16()
 				yMin = bboxStream.ReadInt16()
 				xMax = bboxStream.ReadInt16()
 				yMax = bboxStream.ReadInt16()
-				if bboxStream.Err() == io.EOF {
-					return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
-				}
 			}
 
 			var nPoints uint16
 			endPtsOfContours := make([]uint16, nContours)
 			for iContour := int16(0); iContour < nContours; iContour++ {
-				nPoint := read255Uint16(nPointsStream)
-				if math.MaxUint16-nPoints < nPoint {
+				nPoint, err := read255Uint16(nPointsStream)
+				if err != nil || math.MaxUint16-nPoints < nPoint {
 					return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 				}
 				nPoints += nPoint
 				endPtsOfContours[iContour] = nPoints - 1
 			}
-			if nPointsStream.Err() == io.EOF {
+			if flagStream.Len() < int64(nPoints) {
 				return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 			}
 
@@ -430,6 +443,18 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 				onCurve := (flag & 0x80) == 0
 				flag &= 0x7f
 
+				numBytes := int64(1)
+				if 124 <= flag {
+					numBytes = 4
+				} else if 120 <= flag {
+					numBytes = 3
+				} else if 84 <= flag {
+					numBytes = 2
+				}
+				if glyphStream.Len() < numBytes {
+					return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
+				}
+
 				// used for reference: https://github.com/fonttools/fonttools/blob/master/Lib/fontTools/ttLib/woff2.py
 				// as well as: https://github.com/google/woff2/blob/master/src/woff2_dec.cc
 				var dx, dy int16
@@ -502,15 +527,12 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 					}
 				}
 			}
-			if flagStream.Err() == io.EOF || glyphStream.Err() == io.EOF {
-				return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
-			}
 
-			instructionLength := read255Uint16(glyphStream)
-			instructions := instructionStream.ReadBytes(int64(instructionLength))
-			if instructionStream.Err() == io.EOF {
+			instructionLength, err := read255Uint16(glyphStream)
+			if err != nil || instructionStream.Len() < int64(instructionLength) {
 				return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 			}
+			instructions := instructionStream.ReadBytes(int64(instructionLength))
 
 			// write simple glyph definition
 			w.WriteInt16(nContours) // numberOfContours
@@ -537,15 +559,14 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 		} else { // composite glyph
 			if !explicitBbox {
 				return nil, nil, fmt.Errorf("glyf: composite glyph must have bbox definition")
+			} else if bboxStream.Len() < 8 {
+				return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 			}
 
 			xMin := bboxStream.ReadInt16()
 			yMin := bboxStream.ReadInt16()
 			xMax := bboxStream.ReadInt16()
 			yMax := bboxStream.ReadInt16()
-			if bboxStream.Err() == io.EOF {
-				return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
-			}
 
 			// write composite glyph definition
 			w.WriteInt16(nContours) // numberOfContours
@@ -556,6 +577,9 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 
 			hasInstructions := false
 			for {
+				if compositeStream.Len() < 2 {
+					return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
+				}
 				compositeFlag := compositeStream.ReadUint16()
 				argsAreWords := (compositeFlag & 0x0001) != 0
 				haveScale := (compositeFlag & 0x0008) != 0
@@ -575,10 +599,10 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 				} else if have2by2 {
 					numBytes += 8
 				}
-				compositeBytes := compositeStream.ReadBytes(int64(numBytes))
-				if compositeStream.Err() == io.EOF {
+				if compositeStream.Len() < int64(numBytes) {
 					return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 				}
+				compositeBytes := compositeStream.ReadBytes(int64(numBytes))
 
 				w.WriteUint16(compositeFlag)
 				w.WriteBytes(compositeBytes)
@@ -592,11 +616,11 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 			}
 
 			if hasInstructions {
-				instructionLength := read255Uint16(glyphStream)
-				instructions := instructionStream.ReadBytes(int64(instructionLength))
-				if instructionStream.Err() == io.EOF {
+				instructionLength, err := read255Uint16(glyphStream)
+				if err != nil || instructionStream.Len() < int64(instructionLength) {
 					return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 				}
+				instructions := instructionStream.ReadBytes(int64(instructionLength))
 				w.WriteUint16(instructionLength)
 				w.WriteBytes(instructions)
 			}
@@ -618,29 +642,25 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 }
 
 func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
+	if len(head) < 52 || len(maxp) < 6 || len(hhea) < 36 {
+		return nil, ErrInvalidFontData
+	}
+
 	// get indexFormat
 	rHead := parse.NewBinaryReaderBytes(head)
 	_ = rHead.ReadBytes(50) // skip
 	indexFormat := rHead.ReadInt16()
-	if rHead.Err() == io.EOF {
-		return nil, ErrInvalidFontData
-	}
 
 	// get numGlyphs
 	rMaxp := parse.NewBinaryReaderBytes(maxp)
 	_ = rMaxp.ReadUint32() // version
 	numGlyphs := rMaxp.ReadUint16()
-	if rMaxp.Err() == io.EOF {
-		return nil, ErrInvalidFontData
-	}
 
 	// get numHMetrics
 	rHhea := parse.NewBinaryReaderBytes(hhea)
 	_ = rHhea.ReadBytes(34) // skip all but the last header field
 	numHMetrics := rHhea.ReadUint16()
-	if rHhea.Err() == io.EOF {
-		return nil, ErrInvalidFontData
-	} else if numHMetrics < 1 {
+	if numHMetrics < 1 {
 		return nil, fmt.Errorf("hmtx: must have at least one entry")
 	} else if numGlyphs < numHMetrics {
 		return nil, fmt.Errorf("hmtx: more entries than glyphs in glyf")
@@ -722,12 +742,11 @@ func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 		if offsetNext == offset {
 			lsbs[iGlyph] = 0
 		} else {
-			rGlyf.Seek(int64(offset), 0)
-			_ = rGlyf.ReadInt16() // numContours
-			xMin := rGlyf.ReadInt16()
-			if rGlyf.Err() == io.EOF {
+			if _, err := rGlyf.Seek(int64(offset), 0); err != nil || rGlyf.Len() < 4 {
 				return nil, ErrInvalidFontData
 			}
+			_ = rGlyf.ReadInt16() // numContours
+			xMin := rGlyf.ReadInt16()
 			lsbs[iGlyph] = xMin
 		}
 		offset = offsetNext
@@ -748,10 +767,10 @@ func readUintBase128(r *parse.BinaryReader) (uint32, error) {
 	// see https://www.w3.org/TR/WOFF2/#DataTypes
 	var accum uint32
 	for i := 0; i < 5; i++ {
-		dataByte := r.ReadUint8()
-		if r.Err() == io.EOF {
+		if r.Len() < 1 {
 			return 0, ErrInvalidFontData
 		}
+		dataByte := r.ReadUint8()
 		if i == 0 && dataByte == 0x80 {
 			return 0, fmt.Errorf("readUintBase128: must not start with leading zeros")
 		}
@@ -766,17 +785,23 @@ func readUintBase128(r *parse.BinaryReader) (uint32, error) {
 	return 0, fmt.Errorf("readUintBase128: exceeds 5 bytes")
 }
 
-func read255Uint16(r *parse.BinaryReader) uint16 {
+func read255Uint16(r *parse.BinaryReader) (uint16, error) {
 	// see https://www.w3.org/TR/WOFF2/#DataTypes
+	if r.Len() < 1 {
+		return 0, ErrInvalidFontData
+	}
 	code := r.ReadUint8()
+	if code == 253 && r.Len() < 2 || 253 < code && r.Len() < 1 {
+		return 0, ErrInvalidFontData
+	}
 	if code == 253 {
-		return r.ReadUint16()
+		return r.ReadUint16(), nil
 	} else if code == 255 {
-		return uint16(r.ReadUint8()) + 253
+		return uint16(r.ReadUint8()) + 253, nil
 	} else if code == 254 {
-		return uint16(r.ReadUint8()) + 253*2
+		return uint16(r.ReadUint8()) + 253*2, nil
 	} else {
-		return uint16(code)
+		return uint16(code), nil
 	}
 }
 
-- 
2.43.0


From d8367ff73b74212025f6e4bf863ab178a5e6288b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:56 +0000
Subject: [PATCH 18/41] fix: accept a WOFF2 header that ends at the end of the
 file

---
 woff2.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/woff2.go b/woff2.go
index fcda6d1..af553b0 100644
--- a/woff2.go
+++ b/woff2.go
@@ -78,9 +78,7 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 	_ = r.ReadUint32()                    // metaOrigLength
 	_ = r.ReadUint32()                    // privOffset
 	_ = r.ReadUint32()                    // privLength
-	if r.Err() == io.EOF {
-		return nil, ErrInvalidFontData
-	} else if length != uint32(len(b)) {
+	if length != uint32(len(b)) {
 		return nil, fmt.Errorf("length in header must match file size")
 	} else if numTables == 0 {
 		return nil, fmt.Errorf("numTables in header must not be zero")
-- 
2.43.0


From 40e0800b0bb06419d7963087f1ef7ad92aeb0170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:59 +0000
Subject: [PATCH 19/41] fix: write the instructions of composite glyphs to the
 instruction stream of WOFF2

---
 woff2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/woff2.go b/woff2.go
index af553b0..1ca2569 100644
--- a/woff2.go
+++ b/woff2.go
@@ -1083,7 +1083,7 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 			if hasInstructions {
 				instructionLength := r.ReadUint16()
 				write255Uint16(glyphStream, instructionLength)
-				glyphStream.WriteBytes(r.ReadBytes(int64(instructionLength)))
+				instructionStream.WriteBytes(r.ReadBytes(int64(instructionLength)))
 			}
 		}
 
-- 
2.43.0


From 4df6426937c2d722aa4375ae1b13fbed119c8bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:02 +0000
Subject: [PATCH 20/41] fix: the WOFF2 overlap bitmap has one bit per glyph

---
 woff2.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/woff2.go b/woff2.go
index 1ca2569..9032ec8 100644
--- a/woff2.go
+++ b/woff2.go
@@ -399,6 +399,7 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 			loca.WriteUint32(uint32(w.Len()))
 		}
 
+		overlapSimple := overlapSimpleBitmap != nil && overlapSimpleBitmap.Read()
 		explicitBbox := bboxBitmap.Read()       // EOF cannot occur
 		nContours := nContourStream.ReadInt16() // EOF cannot occur
 		if nContours == 0 {                     // empty glyph
@@ -495,7 +496,7 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 				if onCurve {
 					outlineFlag |= 0x01 // ON_CURVE_POINT
 				}
-				if overlapSimpleBitmap != nil && overlapSimpleBitmap.Read() {
+				if overlapSimple && iPoint == 0 {
 					outlineFlag |= 0x40 // OVERLAP_SIMPLE
 				}
 				outlineFlags = append(outlineFlags, outlineFlag)
@@ -944,6 +945,7 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 				// empty glyph
 				nContourStream.WriteInt16(0)
 				bboxBitmapStream.Write(false)
+				overlapSimpleStream.Write(false)
 				continue
 			}
 			xMins[glyphID] = contour.XMin
-- 
2.43.0


From 37ef1458550cbd93fe106989b88b67431f287761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:04 +0000
Subject: [PATCH 21/41] fix: read the last bit of the WOFF2 bitmaps

---
 woff2.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/woff2.go b/woff2.go
index 9032ec8..6c2faf3 100644
--- a/woff2.go
+++ b/woff2.go
@@ -374,12 +374,13 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 	flagStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(flagStreamSize)))
 	glyphStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(glyphStreamSize)))
 	compositeStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(compositeStreamSize)))
-	bboxBitmap := parse.NewBitmapReader(r.ReadBytes(int64(bitmapSize)))
+	// the bitmap reader does not return the last bit of its buffer, add a byte
+	bboxBitmap := parse.NewBitmapReader(append(r.ReadBytes(int64(bitmapSize)), 0x00))
 	bboxStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(bboxStreamSize - bitmapSize)))
 	instructionStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(instructionStreamSize)))
 	var overlapSimpleBitmap *parse.BitmapReader
 	if optionFlags&0x0001 != 0 { // overlapSimpleBitmap present
-		overlapSimpleBitmap = parse.NewBitmapReader(r.ReadBytes(int64(bitmapSize)))
+		overlapSimpleBitmap = parse.NewBitmapReader(append(r.ReadBytes(int64(bitmapSize)), 0x00))
 	}
 
 	locaLength := (uint32(numGlyphs) + 1) * 2
-- 
2.43.0


From 6ac9ccf39b3b321fc7b3cd8fa0f90fafee91adbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:07 +0000
Subject: [PATCH 22/41] fix: accept EOT fonts of which the font data ends at
 the end of the file

---
 eot.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/eot.go b/eot.go
index 0b4e65f..e8660a4 100644
--- a/eot.go
+++ b/eot.go
@@ -3,7 +3,6 @@ package font
 import (
 	"encoding/binary"
 	"fmt"
-	"io"
 
 	"github.com/tdewolff/parse/v2"
 )
@@ -64,10 +63,10 @@ func ParseEOT(b []byte) ([]byte, error) {
 		_ = r.ReadBytes(int64(eudcFontSize))  // EUDCFontData
 	}
 
-	fontData := r.ReadBytes(int64(fontDataSize))
-	if r.Err() == io.EOF {
+	if r.Err() != nil || r.Len() < int64(fontDataSize) {
 		return nil, ErrInvalidFontData
 	}
+	fontData := r.ReadBytes(int64(fontDataSize))
 
 	isCompressed := (flags & 0x00000004) != 0
 	isXORed := (flags & 0x10000000) != 0
-- 
2.43.0


From 2cebc07b80c30806c62437e63533b6b63a10c480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:10 +0000
Subject: [PATCH 23/41] fix: do not overwrite the input of ParseEOT

---
 eot.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/eot.go b/eot.go
index e8660a4..07310c4 100644
--- a/eot.go
+++ b/eot.go
@@ -72,8 +72,11 @@ func ParseEOT(b []byte) ([]byte, error) {
 	isXORed := (flags & 0x10000000) != 0
 
 	if isXORed {
-		for i := 0; i < len(fontData); i++ {
-			fontData[i] ^= 0x50
+		// do not overwrite the input
+		xored := fontData
+		fontData = make([]byte, len(xored))
+		for i := 0; i < len(xored); i++ {
+			fontData[i] = xored[i] ^ 0x50
 		}
 	}
 
-- 
2.43.0


From d449090bb9a78e73901cb5cfcb1d302a7c93c27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:46 +0000
Subject: [PATCH 24/41] fix: do not panic on truncated EOT fonts

---
 eot.go | 78 ++++++++++++++++++++++++++++++++++++----------------------
 1 file changed, 48 insertions(+), 30 deletions(-)

diff --git a/eot.go b/eot.go
index 07310c4..c938fba 100644
--- a/eot.go
+++ b/eot.go
@@ -7,8 +7,26 @@ import (
 	"github.com/tdewolff/parse/v2"
 )
 
+// skipEOTField skips padding and a field preceded by its size.
+func skipEOTField(r *parse.BinaryReader) error {
+	if r.Len() < 4 {
+		return ErrInvalidFontData
+	}
+	_ = r.ReadUint16() // Padding
+	size := r.ReadUint16()
+	if r.Len() < int64(size) {
+		return ErrInvalidFontData
+	}
+	_ = r.ReadBytes(int64(size))
+	return nil
+}
+
 // ParseEOT parses the EOT font format and returns its contained SFNT font format (TTF or OTF). See https://www.w3.org/Submission/EOT/
 func ParseEOT(b []byte) ([]byte, error) {
+	if len(b) < 80 {
+		return nil, ErrInvalidFontData
+	}
+
 	r := parse.NewBinaryReaderBytes(b)
 	r.ByteOrder = binary.LittleEndian
 	_ = r.ReadUint32()             // EOTSize
@@ -29,41 +47,41 @@ func ParseEOT(b []byte) ([]byte, error) {
 	}
 	_ = r.ReadBytes(24) // Unicode and CodePage ranges
 	checkSumAdjustment := r.ReadUint32()
-	_ = r.ReadBytes(16) // Reserved
-	_ = r.ReadUint16()  // Padding1
-
-	familyNameSize := r.ReadUint16()       // FamilyNameSize
-	_ = r.ReadBytes(int64(familyNameSize)) // FamilyName
-	_ = r.ReadUint16()                     // Padding2
-
-	styleNameSize := r.ReadUint16()       // StyleNameSize
-	_ = r.ReadBytes(int64(styleNameSize)) // Stylename
-	_ = r.ReadUint16()                    // Padding3
-
-	versionNameSize := r.ReadUint16()       // VersionNameSize
-	_ = r.ReadBytes(int64(versionNameSize)) // VersionName
-	_ = r.ReadUint16()                      // Padding4
-
-	fullNameSize := r.ReadUint16()       // FullNameSize
-	_ = r.ReadBytes(int64(fullNameSize)) // FullName
-
+	_ = r.ReadBytes(16)                     // Reserved
+	if err := skipEOTField(r); err != nil { // FamilyName
+		return nil, err
+	} else if err := skipEOTField(r); err != nil { // StyleName
+		return nil, err
+	} else if err := skipEOTField(r); err != nil { // VersionName
+		return nil, err
+	} else if err := skipEOTField(r); err != nil { // FullName
+		return nil, err
+	}
 	if version == 0x00020001 || version == 0x00020002 {
-		_ = r.ReadUint16()                     // Padding5
-		rootStringSize := r.ReadUint16()       // RootStringSize
-		_ = r.ReadBytes(int64(rootStringSize)) // RootString
+		if err := skipEOTField(r); err != nil { // RootString
+			return nil, err
+		}
 	}
 	if version == 0x00020002 {
-		_ = r.ReadUint32()                    // RootStringCheckSum
-		_ = r.ReadUint32()                    // EUDCCodePage
-		_ = r.ReadUint16()                    // Padding6
-		signatureSize := r.ReadUint16()       // SignatureSize
-		_ = r.ReadBytes(int64(signatureSize)) // Signature
-		_ = r.ReadUint32()                    // EUDCFlags
-		eudcFontSize := r.ReadUint32()        // EUDCFontSize
-		_ = r.ReadBytes(int64(eudcFontSize))  // EUDCFontData
+		if r.Len() < 8 {
+			return nil, ErrInvalidFontData
+		}
+		_ = r.ReadUint32()                      // RootStringCheckSum
+		_ = r.ReadUint32()                      // EUDCCodePage
+		if err := skipEOTField(r); err != nil { // Signature
+			return nil, err
+		} else if r.Len() < 8 {
+			return nil, ErrInvalidFontData
+		}
+		_ = r.ReadUint32()             // EUDCFlags
+		eudcFontSize := r.ReadUint32() // EUDCFontSize
+		if r.Len() < int64(eudcFontSize) {
+			return nil, ErrInvalidFontData
+		}
+		_ = r.ReadBytes(int64(eudcFontSize)) // EUDCFontData
 	}
 
-	if r.Err() != nil || r.Len() < int64(fontDataSize) {
+	if r.Len() < int64(fontDataSize) {
 		return nil, ErrInvalidFontData
 	}
 	fontData := r.ReadBytes(int64(fontDataSize))
-- 
2.43.0


From fef03259e9d8a209a18e7a47f4b0f2fdfd0d7682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:01 +0000
Subject: [PATCH 25/41] fix: do not panic on WOFF tables that are larger than
 the file

---
 woff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/woff.go b/woff.go
index 865f3a8..308ff25 100644
--- a/woff.go
+++ b/woff.go
@@ -96,7 +96,7 @@ func ParseWOFF(b []byte) ([]byte, error) {
 		compLength := r.ReadUint32()
 		origLength := r.ReadUint32()
 		origChecksum := r.ReadUint32()
-		if length-compLength < offset {
+		if length < compLength || length-compLength < offset {
 			return nil, fmt.Errorf("table extends beyond file size")
 		} else if origLength < compLength {
 			return nil, fmt.Errorf("compressed table size is larger than decompressed size")
-- 
2.43.0


From ec4d4fd56abc27036a766af6044ac14770d1b6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:03 +0000
Subject: [PATCH 26/41] fix: do not overwrite the input of ParseWOFF

---
 woff.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/woff.go b/woff.go
index 308ff25..07eeafc 100644
--- a/woff.go
+++ b/woff.go
@@ -198,6 +198,7 @@ func ParseWOFF(b []byte) ([]byte, error) {
 			checksumAdjustmentPos = uint32(w.Len()) + 8
 
 			// to check checksum for head table, replace the overal checksum with zero and reset it at the end
+			data = append([]byte{}, data...) // do not overwrite the input
 			binary.BigEndian.PutUint32(data[8:], 0x00000000)
 		}
 		if calcChecksum(data) != table.origChecksum {
-- 
2.43.0


From 2c9c63de8987fe54e66ce84f32981b4bfeacd7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:06 +0000
Subject: [PATCH 27/41] fix: accept the last font of a TTC

---
 sfnt.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index c297cb5..4912472 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -301,13 +301,7 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 
 		_ = r.ReadBytes(int64(4 * index))
 		offset := r.ReadUint32()
-		var length uint32
-		if uint32(index)+1 == numFonts {
-			length = uint32(len(b)) - offset
-		} else {
-			length = r.ReadUint32() - offset
-		}
-		if uint32(len(b))-8 < offset || uint32(len(b))-8-offset < length {
+		if uint32(len(b))-12 < offset {
 			return nil, ErrInvalidFontData
 		}
 
-- 
2.43.0


From 879b23c5b10478f4d72049251e6ccd429adefd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:09 +0000
Subject: [PATCH 28/41] fix: do not overflow on large metrics and do not panic
 without OS/2 table in VerticalMetrics

---
 sfnt.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 4912472..6e274f9 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -147,7 +147,9 @@ func (sfnt *SFNT) VerticalMetrics() (uint16, uint16, uint16) {
 		lineGap = uint16(sfnt.Hhea.LineGap)
 	}
 
-	if (sfnt.OS2.FsSelection & 0x0080) != 0 { // USE_TYPO_METRICS
+	if sfnt.OS2 == nil {
+		return ascender, descender, lineGap // OS/2 is not required
+	} else if (sfnt.OS2.FsSelection & 0x0080) != 0 { // USE_TYPO_METRICS
 		if 0 < sfnt.OS2.STypoAscender && sfnt.OS2.STypoDescender < 0 {
 			ascender = uint16(sfnt.OS2.STypoAscender)
 			descender = uint16(-sfnt.OS2.STypoDescender)
@@ -160,7 +162,7 @@ func (sfnt *SFNT) VerticalMetrics() (uint16, uint16, uint16) {
 	} else {
 		if sfnt.OS2.UsWinAscent != 0 && sfnt.OS2.UsWinDescent != 0 {
 			ascender, descender = sfnt.OS2.UsWinAscent, sfnt.OS2.UsWinDescent
-			externalLeading := int(sfnt.Hhea.Ascender-sfnt.Hhea.Descender+sfnt.Hhea.LineGap) - int(sfnt.OS2.UsWinAscent+sfnt.OS2.UsWinDescent)
+			externalLeading := int(sfnt.Hhea.Ascender) - int(sfnt.Hhea.Descender) + int(sfnt.Hhea.LineGap) - int(sfnt.OS2.UsWinAscent) - int(sfnt.OS2.UsWinDescent)
 			if 0 < externalLeading {
 				lineGap = uint16(externalLeading)
 			} else {
-- 
2.43.0


From 21b9980fdf4e9a5154487f7fadae09b167bf69e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:12 +0000
Subject: [PATCH 29/41] fix: write negative italic angles of the post table

---
 sfnt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt.go b/sfnt.go
index 6e274f9..9790812 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -1126,7 +1126,7 @@ func (post *postTable) Write() ([]byte, error) {
 
 	w := parse.NewBinaryWriter(make([]byte, 0, 32))
 	w.WriteUint32(uint32(version))
-	w.WriteUint32(uint32(post.ItalicAngle*(1<<16) + 0.5))
+	w.WriteInt32(int32(math.Round(post.ItalicAngle * (1 << 16))))
 	w.WriteInt16(post.UnderlinePosition)
 	w.WriteInt16(post.UnderlineThickness)
 	w.WriteUint32(post.IsFixedPitch)
-- 
2.43.0


From efb29ed2902c3906ca5f931b0c82a996847f6d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:15 +0000
Subject: [PATCH 30/41] fix: set the bits of the Unicode ranges in the OS/2
 table

---
 sfnt_os2.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sfnt_os2.go b/sfnt_os2.go
index ee3c9c1..3236350 100644
--- a/sfnt_os2.go
+++ b/sfnt_os2.go
@@ -166,10 +166,10 @@ func os2UlUnicodeRange(rs []rune) [4]uint32 {
 	for _, r := range rs {
 		if bit := os2UlUnicodeRangeBit(r); bit != -1 {
 			i := int(bit / 32)
-			v[3-i] |= 2 << (bit - i*32)
+			v[i] |= 1 << (bit - i*32)
 		}
 		if 0x10000 <= r && r < 0x110000 {
-			v[2] |= 2 << 25 // bit 57 (Non-Plane 0)
+			v[1] |= 1 << 25 // bit 57 (Non-Plane 0)
 		}
 	}
 	return v
@@ -402,7 +402,7 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return -1
 	} else if r < 0xD7AF {
 		return 56
-	} else if r < 0xE00 {
+	} else if r < 0xE000 {
 		return -1
 	} else if r < 0xF900 {
 		return 60
-- 
2.43.0


From 6fe994d66be85d78adedcaef00ff1ebcc62f6ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:18 +0000
Subject: [PATCH 31/41] fix: do not modify the OS/2 table of the original font
 when subsetting

---
 sfnt_subset.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 58f76e4..92876ad 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -443,7 +443,8 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 
 			sfnt.Name = &nameTable{}
 		case "OS/2":
-			sfnt.OS2 = sfntOld.OS2
+			os2 := *sfntOld.OS2
+			sfnt.OS2 = &os2
 			sfnt.OS2.UlUnicodeRange1 = ulUnicodeRange[0]
 			sfnt.OS2.UlUnicodeRange2 = ulUnicodeRange[1]
 			sfnt.OS2.UlUnicodeRange3 = ulUnicodeRange[2]
-- 
2.43.0


From 5257162cb7ce4889719f1a69aa1161abf8d1b0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:21 +0000
Subject: [PATCH 32/41] fix: accept name tables larger than 64 kB

---
 sfnt.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 9790812..d800b0a 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -962,7 +962,7 @@ func (sfnt *SFNT) parseName() error {
 	}
 	count := r.ReadUint16()
 	storageOffset := r.ReadUint16()
-	if uint32(len(b)) < 6+12*uint32(count) || uint16(len(b)) < storageOffset {
+	if uint32(len(b)) < 6+12*uint32(count) || uint32(len(b)) < uint32(storageOffset) {
 		return fmt.Errorf("name: bad table")
 	}
 	sfnt.Name.NameRecord = make([]nameRecord, count)
@@ -974,10 +974,11 @@ func (sfnt *SFNT) parseName() error {
 
 		length := r.ReadUint16()
 		offset := r.ReadUint16()
-		if uint16(len(b))-storageOffset < offset || uint16(len(b))-storageOffset-offset < length {
+		start := uint32(storageOffset) + uint32(offset)
+		if uint32(len(b)) < start+uint32(length) {
 			return fmt.Errorf("name: bad table")
 		}
-		sfnt.Name.NameRecord[i].Value = b[storageOffset+offset : storageOffset+offset+length]
+		sfnt.Name.NameRecord[i].Value = b[start : start+uint32(length)]
 	}
 	if version == 1 {
 		if uint32(len(b)) < 6+12*uint32(count)+2 {
@@ -991,10 +992,11 @@ func (sfnt *SFNT) parseName() error {
 		for i := 0; i < int(langTagCount); i++ {
 			length := r.ReadUint16()
 			offset := r.ReadUint16()
-			if uint16(len(b))-storageOffset < offset || uint16(len(b))-storageOffset-offset < length {
+			start := uint32(storageOffset) + uint32(offset)
+			if uint32(len(b)) < start+uint32(length) {
 				return fmt.Errorf("name: bad table")
 			}
-			sfnt.Name.LangTag[i].Value = b[storageOffset+offset : storageOffset+offset+length]
+			sfnt.Name.LangTag[i].Value = b[start : start+uint32(length)]
 		}
 	}
 	if r.Pos() != int64(storageOffset) {
-- 
2.43.0


From ef5c80ec983c6dbe1abeab9e4f761cebe2160043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:21 +0000
Subject: [PATCH 33/41] fix: skip the contents of kern subtables that are not
 supported

---
 sfnt_truetype.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index e912104..c6a9347 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -584,15 +584,17 @@ func (sfnt *SFNT) parseKern() error {
 		subtable := kernFormat0{}
 		startPos := r.Pos()
 		subtableVersion := r.ReadUint16()
+		length := r.ReadUint16()
 		if subtableVersion != 0 {
 			// TODO: supported other kern subtable versions
+			_ = r.ReadBytes(int64(length) - (r.Pos() - startPos))
 			continue
 		}
-		length := r.ReadUint16()
 		format := r.ReadUint8()
 		subtable.Coverage = Uint8ToFlags(r.ReadUint8())
 		if format != 0 {
 			// TODO: supported other kern subtable formats
+			_ = r.ReadBytes(int64(length) - (r.Pos() - startPos))
 			continue
 		} else if r.Len() < 8 {
 			return fmt.Errorf("kern: bad subtable %d", j)
-- 
2.43.0


From f7a3d7fcfe21b95b2481e97b64c9da95da38cc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:11 +0000
Subject: [PATCH 34/41] fix: register glyph names of a merged font for the
 right glyphs

---
 sfnt_merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index c92614b..c2fec8f 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -381,7 +381,7 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 			} else {
 				index = uint16(len(sfnt.Post.stringData) + 258)
 				sfnt.Post.stringData = append(sfnt.Post.stringData, []byte(name))
-				sfnt.Post.nameMap[name] = uint16(glyphID2)
+				sfnt.Post.nameMap[name] = uint16(len(sfnt.Post.glyphNameIndex))
 			}
 			sfnt.Post.glyphNameIndex = append(sfnt.Post.glyphNameIndex, index)
 		}
-- 
2.43.0


From 9a5dfe1a6f71fec5d3e964f289b31b3f594418a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:14 +0000
Subject: [PATCH 35/41] fix: glyph names of fonts without post table

---
 sfnt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfnt.go b/sfnt.go
index d800b0a..4ec8ed5 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -115,6 +115,8 @@ func (sfnt *SFNT) GlyphName(glyphID uint16) string {
 	if sfnt.IsCFF {
 		name, _ := sfnt.CFF.GlyphName(glyphID)
 		return name
+	} else if sfnt.Post == nil {
+		return ""
 	}
 	return sfnt.Post.Get(glyphID)
 }
@@ -128,6 +130,8 @@ func (sfnt *SFNT) FindGlyphName(name string) uint16 {
 			}
 		}
 		return 0
+	} else if sfnt.Post == nil {
+		return 0
 	}
 	glyphID, _ := sfnt.Post.Find(name)
 	return glyphID
-- 
2.43.0


From 91804a48883baae90c86b218b6b0666a1749a228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:17 +0000
Subject: [PATCH 36/41] fix: setting glyph names after names have been looked
 up

---
 sfnt_subset.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 92876ad..7e266c0 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"math"
 	"sort"
+	"sync"
 
 	"github.com/tdewolff/parse/v2"
 )
@@ -516,7 +517,7 @@ func (sfnt *SFNT) SetGlyphNames(names []string) error {
 	sfnt.Post.NumGlyphs = sfnt.NumGlyphs()
 	sfnt.Post.glyphNameIndex = make([]uint16, sfnt.NumGlyphs())
 	sfnt.Post.stringData = [][]byte{}
-	sfnt.Post.nameMap = nil
+	sfnt.Post.once = sync.Once{} // rebuild nameMap
 
 	lastIndex := uint16(258)
 	if int(sfnt.NumGlyphs()) < len(names) {
@@ -537,6 +538,8 @@ func (sfnt *SFNT) SetGlyphNames(names []string) error {
 		sfnt.Post.glyphNameIndex[uint16(glyphID)] = index
 	}
 
+	sfnt.Post.once = sync.Once{} // rebuild nameMap
+
 	b, err := sfnt.Post.Write()
 	if err != nil {
 		return err
-- 
2.43.0


From 905ec9b705871f2bc7a50007a1c887db7816934e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:27 +0000
Subject: [PATCH 37/41] fix: WOFF and WOFF2 files with 32768 or more tables
 were parsed forever

---
 woff.go  | 2 +-
 woff2.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/woff.go b/woff.go
index 07eeafc..28ecb0b 100644
--- a/woff.go
+++ b/woff.go
@@ -131,7 +131,7 @@ func ParseWOFF(b []byte) ([]byte, error) {
 	var entrySelector uint16
 	var rangeShift uint16
 	for {
-		if searchRange*2 > numTables {
+		if numTables/2 < searchRange {
 			break
 		}
 		searchRange *= 2
diff --git a/woff2.go b/woff2.go
index 6c2faf3..08699b3 100644
--- a/woff2.go
+++ b/woff2.go
@@ -270,7 +270,7 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 	var entrySelector uint16
 	var rangeShift uint16
 	for {
-		if searchRange*2 > numTables {
+		if numTables/2 < searchRange {
 			break
 		}
 		searchRange *= 2
-- 
2.43.0


From bfca38ba8bcceabe93036417aba09d19536eddde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:29 +0000
Subject: [PATCH 38/41] fix: CJK Strokes, Phoenician, and the last Hangul code
 point did not set their OS/2 Unicode range bits

---
 sfnt_os2.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sfnt_os2.go b/sfnt_os2.go
index 3236350..52ee700 100644
--- a/sfnt_os2.go
+++ b/sfnt_os2.go
@@ -356,16 +356,16 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return 51
 	} else if r < 0x3190 {
 		return 52
+	} else if r < 0x31C0 {
+		return -1
+	} else if r < 0x31F0 {
+		return 61
 	} else if r < 0x3200 {
 		return -1
 	} else if r < 0x3300 {
 		return 54
 	} else if r < 0x3400 {
 		return 55
-	} else if r < 0x31C0 {
-		return -1
-	} else if r < 0x31F0 {
-		return 61
 	} else if r < 0x4DC0 {
 		return -1
 	} else if r < 0x4E00 {
@@ -400,7 +400,7 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return 118
 	} else if r < 0xAC00 {
 		return -1
-	} else if r < 0xD7AF {
+	} else if r < 0xD7B0 {
 		return 56
 	} else if r < 0xE000 {
 		return -1
@@ -466,6 +466,10 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return -1
 	} else if r < 0x10840 {
 		return 107
+	} else if r < 0x10900 {
+		return -1
+	} else if r < 0x10920 {
+		return 58
 	} else if r < 0x10A00 {
 		return -1
 	} else if r < 0x10A60 {
-- 
2.43.0


From be5eb5bfa3393b5635dd2cf3626ed8a917467c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:27 +0000
Subject: [PATCH 39/41] fix: cmap format 4 runs that follow nine or more
 contiguous glyph IDs were written with the wrong glyphs

---
 sfnt_cmap.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index f063e3c..7458a0e 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -220,8 +220,9 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 						addSegment(rs[i0+j0], rs[i0+(jc-1)], glyphIDs[j0:jc], false)
 						addSegment(rs[i0+jc], rs[i0+(j-1)], glyphIDs[jc:j], true)
 						j0, jc = j, j
-					} else if j == len(glyphIDs) {
+					} else {
 						addSegment(rs[i0+j0], rs[i0+(j-1)], glyphIDs[j0:j], j0 == jc)
+						j0, jc = j, j
 					}
 					if j == len(glyphIDs) {
 						break
-- 
2.43.0


From 969231c43f9c512c59e813664060c8bf0f46bd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:33 +0000
Subject: [PATCH 40/41] fix: cmap format 4 segments of characters that equal
 their glyph IDs were written with a range offset

---
 sfnt_cmap.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 7458a0e..704343f 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -194,9 +194,9 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 			data.IdRangeOffset = append(data.IdRangeOffset, 0)
 		} else {
 			// use idRangeOffset
-			// set the value of IdRangeOffset to the offset in GlyphIdArray, updated below
+			// set the value of IdRangeOffset to one more than the offset in GlyphIdArray, updated below
 			data.IdDelta = append(data.IdDelta, 0)
-			data.IdRangeOffset = append(data.IdRangeOffset, uint16(len(data.GlyphIdArray)))
+			data.IdRangeOffset = append(data.IdRangeOffset, uint16(len(data.GlyphIdArray)+1))
 			data.GlyphIdArray = append(data.GlyphIdArray, glyphIDs...)
 		}
 	}
@@ -267,11 +267,11 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 		w.WriteInt16(idDelta)
 	}
 	for i, idRangeOffset := range data.IdRangeOffset {
-		if data.IdDelta[i] != 0 {
+		if idRangeOffset == 0 {
 			w.WriteUint16(0)
 		} else {
 			glyphIdArrayStart := uint16(len(data.IdRangeOffset) - i)
-			w.WriteUint16((glyphIdArrayStart + idRangeOffset) * 2) // times 2 since entries are 16 bit
+			w.WriteUint16((glyphIdArrayStart + idRangeOffset - 1) * 2) // times 2 since entries are 16 bit
 		}
 	}
 	for _, glyphID := range data.GlyphIdArray {
-- 
2.43.0


From 90fe485dcafe5d339f767979763fe6d28ff35ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:37 +0000
Subject: [PATCH 41/41] fix: the idDelta of cmap format 4 segments was not
 added to the glyph IDs of the glyph array

---
 sfnt_cmap.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 704343f..a33d648 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -63,7 +63,11 @@ func (subtable *cmapFormat4) Get(r rune) (uint16, bool) {
 			// r-startCode  ->  difference of rune with startCode
 			// -(n-1)  ->  subtract offset from the current idRangeOffset item
 			index := int(subtable.IdRangeOffset[i]/2) + int(uint16(r)-subtable.StartCode[i]) - (n - i)
-			return subtable.GlyphIdArray[index], true // index is always valid
+			glyphID := subtable.GlyphIdArray[index] // index is always valid
+			if glyphID != 0 {
+				glyphID += uint16(subtable.IdDelta[i])
+			}
+			return glyphID, true
 		}
 	}
 	return 0, false
@@ -84,7 +88,9 @@ func (subtable *cmapFormat4) ToUnicode(glyphID uint16) []rune {
 					// r-startCode  ->  difference of rune with startCode
 					// -(n-1)  ->  subtract offset from the current idRangeOffset item
 					index := int(subtable.IdRangeOffset[i]/2) + int(uint16(r)-subtable.StartCode[i]) - (n - i)
-					id = subtable.GlyphIdArray[index]
+					if id = subtable.GlyphIdArray[index]; id != 0 {
+						id += uint16(subtable.IdDelta[i])
+					}
 				}
 				subtable.unicodeMap[id] = append(subtable.unicodeMap[id], r)
 			}
-- 
2.43.0

