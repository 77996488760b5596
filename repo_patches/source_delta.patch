From 1930277d7b3eb56268e4fc6e2994eef59db3a52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:27 +0000
Subject: [PATCH 01/20] fix: RectFromImage converts the given rectangle rather
 than returning zero

---
 ansi/geom.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ansi/geom.go b/ansi/geom.go
index fe69b07..1c53a8f 100644
--- a/ansi/geom.go
+++ b/ansi/geom.go
@@ -45,6 +45,8 @@ func RectFromImage(ir image.Rectangle) (r Rectangle) {
 	if ir.Min.X < 0 || ir.Min.Y < 0 || ir.Max.X < 0 || ir.Max.Y < 0 {
 		panic("out of bounds image.Rectangle value")
 	}
+	r.Min = PtFromImage(ir.Min)
+	r.Max = PtFromImage(ir.Max)
 	return r
 }
 
-- 
2.43.0


From c8ed527b589e2769def000e4bf7a2d6081d12d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:29 +0000
Subject: [PATCH 02/20] fix: DecodeNumber reports out of range numbers

---
 ansi/decode.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ansi/decode.go b/ansi/decode.go
index 6a80a96..4f03285 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -279,12 +279,10 @@ func DecodeNumber(p []byte) (r, n int, _ error) {
 				continue
 			} // else un+v overflows
 		} // else un*10 overflows
-		if !neg && maxVal >= cutoff {
-			return int(cutoff - 1), n, errRange
-		}
-		if neg && maxVal > cutoff {
-			return -int(cutoff), n, errRange
+		if neg {
+			return -int(maxVal), n, errRange
 		}
+		return int(maxVal), n, errRange
 	}
 
 	if neg {
-- 
2.43.0


From 89237792041aff3a7cab5e45fb76856e6aacccbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:31 +0000
Subject: [PATCH 03/20] fix: DecodeMode rejects a non-numeric parameter rather
 than making no progress

---
 ansi/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ansi/decode.go b/ansi/decode.go
index 4f03285..f7f7601 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -517,6 +517,9 @@ func DecodeMode(private bool, a []byte) (mode Mode, n int, _ error) {
 	}
 	r, m, err := DecodeNumber(a[n:])
 	n += m
+	if err == nil && n == 0 {
+		err = errModeInvalid
+	}
 	if err == nil {
 		mode = Mode(r)
 		if private {
-- 
2.43.0


From d57a7fb04ab92537c2d50a85b9e961597464ab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:33 +0000
Subject: [PATCH 04/20] fix: DecodeEscape does not panic on empty input

---
 ansi/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ansi/decode.go b/ansi/decode.go
index f7f7601..9e1840a 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -64,7 +64,7 @@ func DecodeEscape(p []byte) (e Escape, arg []byte, n int) {
 			return Escape(r), sa, m + sn
 		}
 	}
-	if p[0] == 0x1B {
+	if len(p) > 0 && p[0] == 0x1B {
 		// Encode translated C1 control character so that caller can act on it.
 		utf8.EncodeRune(p[:m], r)
 	}
-- 
2.43.0


From 64f7b6504305be2a616ff3f640aee25b18b8b8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:35 +0000
Subject: [PATCH 05/20] fix: DecodeSGR decodes the conceal attribute

---
 ansi/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ansi/decode.go b/ansi/decode.go
index 9e1840a..7af0233 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -329,7 +329,7 @@ func DecodeSGR(a []byte) (attr SGRAttr, n int, _ error) {
 					0, // slow blink not supported
 					0, // fast blink not supported
 					SGRAttrNegative,
-					0, // concealed not supported
+					SGRAttrConceal,
 				}[a[n]-'0']; at {
 				case 0:
 				case SGRAttrClear:
-- 
2.43.0


From ba6f64c6c3118058867be5fb9b213378ae47cba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:22 +0000
Subject: [PATCH 06/20] fix: escape encoding covers the documented identifier
 ranges, ends included

---
 ansi/control.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/ansi/control.go b/ansi/control.go
index 960eaa4..12115f3 100644
--- a/ansi/control.go
+++ b/ansi/control.go
@@ -28,8 +28,9 @@ type Seq struct {
 
 func (id Escape) seq() Seq {
 	switch {
-	case 0x0000 < id && id < 0x001F,
-		0xEF00 < id && id < 0xEFFF:
+	case 0x0000 < id && id <= 0x001F,
+		0xEF00 < id && id < 0xEF7F,
+		0xEF80 < id && id < 0xEFFF:
 		return Seq{id: id}
 	}
 	panic(fmt.Sprintf("not an Control or Escape rune: %U", id))
@@ -122,11 +123,11 @@ func (seq Seq) WithPoint(p Point) Seq { return seq.WithInts(p.Y, p.X) }
 func (id Escape) AppendTo(p []byte) []byte {
 	// TODO stricter
 	switch {
-	case 0x0000 < id && id < 0x001F: // C0 controls
+	case 0x0000 < id && id <= 0x001F: // C0 controls
 		return append(p, byte(id&0x1F))
-	case 0x0080 < id && id < 0x009F: // C1 controls
+	case 0x0080 <= id && id <= 0x009F: // C1 controls
 		return append(p, '\x1b', byte(0x40|id&0x1F))
-	case 0xEF20 < id && id < 0xEF7E: // ESC + byte
+	case 0xEF20 <= id && id <= 0xEF7E: // ESC + byte
 		return append(p, '\x1b', byte(id&0x7F))
 	case 0xEF80 < id && id < 0xEFFF: // CSI + arg (if any)
 		return append(p, '\x1b', '[', byte(id&0x7F))
@@ -141,9 +142,9 @@ func (id Escape) AppendWith(p []byte, arg ...byte) []byte {
 	switch {
 	case 0x0000 < id && id <= 0x001F: // C0 controls
 		return append(p, byte(id&0x1F))
-	case 0x0080 < id && id <= 0x009F: // C1 controls
+	case 0x0080 <= id && id <= 0x009F: // C1 controls
 		return append(p, '\x1b', byte(0x40|id&0x1F))
-	case 0xEF20 < id && id < 0xEF7E: // ESC + byte
+	case 0xEF20 <= id && id <= 0xEF7E: // ESC + byte
 		return append(append(append(p, '\x1b'), arg...), byte(id&0x7F))
 	case 0xEF80 < id && id < 0xEFFF: // CSI + arg (if any)
 		return append(append(append(p, '\x1b', '['), arg...), byte(id&0x7F))
@@ -158,7 +159,7 @@ func (seq Seq) AppendTo(p []byte) []byte {
 	}
 	switch id := seq.id; {
 	case id == 0:
-	case 0x0000 < id && id < 0x001F: // C0 controls
+	case 0x0000 < id && id <= 0x001F: // C0 controls
 		p = append(p, byte(id))
 		p = seq.appendArgBytes(p)
 	case 0xEF80 < id && id < 0xEFFF: // CSI
@@ -220,9 +221,9 @@ func (id Escape) Size() int {
 	switch {
 	case 0x0000 < id && id <= 0x001F: // C0 controls
 		return 1
-	case 0x0080 < id && id <= 0x009F: // C1 controls
+	case 0x0080 <= id && id <= 0x009F: // C1 controls
 		return 2
-	case 0xEF20 < id && id < 0xEF7E: // ESC + byte
+	case 0xEF20 <= id && id <= 0xEF7E: // ESC + byte
 		return 2
 	case 0xEF80 < id && id < 0xEFFF: // CSI + arg (if any)
 		return 3
-- 
2.43.0


From e6f63e6b4b6c7514856efc142b6db53d13d7d730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:24 +0000
Subject: [PATCH 07/20] fix: character set selection encodes its parameter
 after the intermediate byte

---
 ansi/control.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ansi/control.go b/ansi/control.go
index 12115f3..fb54eaa 100644
--- a/ansi/control.go
+++ b/ansi/control.go
@@ -144,6 +144,8 @@ func (id Escape) AppendWith(p []byte, arg ...byte) []byte {
 		return append(p, byte(id&0x1F))
 	case 0x0080 <= id && id <= 0x009F: // C1 controls
 		return append(p, '\x1b', byte(0x40|id&0x1F))
+	case 0xEF20 <= id && id <= 0xEF2F: // ESC + byte + character set selection
+		return append(append(p, '\x1b', byte(id&0x7F)), arg...)
 	case 0xEF20 <= id && id <= 0xEF7E: // ESC + byte
 		return append(append(append(p, '\x1b'), arg...), byte(id&0x7F))
 	case 0xEF80 < id && id < 0xEFFF: // CSI + arg (if any)
@@ -167,15 +169,15 @@ func (seq Seq) AppendTo(p []byte) []byte {
 		p = seq.appendArgBytes(p)
 		p = seq.appendArgNums(p)
 		p = append(p, byte(id&0x7F))
-	case 0xEF00 < id && id < 0xEF7F: // ESC
-		p = append(p, '\x1b')
-		p = seq.appendArgBytes(p)
-		p = append(p, byte(id&0x7F))
-	case 0xEF20 < id && id < 0xEF2F: // ESC character set control
+	case 0xEF20 <= id && id <= 0xEF2F: // ESC character set control
 		// NOTE character set selection sequences are special, in that they're
 		// always a 3 byte sequence, and identified by the first
 		// (intermediate range) byte after the ESC
 		p = append(p, '\x1b', byte(id&0x7F), seq.argBytes[0])
+	case 0xEF00 < id && id < 0xEF7F: // ESC
+		p = append(p, '\x1b')
+		p = seq.appendArgBytes(p)
+		p = append(p, byte(id&0x7F))
 	default:
 		panic("inconceivable: should not be able to construct a Seq like that")
 	}
-- 
2.43.0


From 8d5255c461dd9dc4ab91300c211549a3dd340471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:26 +0000
Subject: [PATCH 08/20] fix: control string sequences encode their argument and
 terminator

---
 ansi/control.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ansi/control.go b/ansi/control.go
index fb54eaa..b9fb52c 100644
--- a/ansi/control.go
+++ b/ansi/control.go
@@ -142,6 +142,8 @@ func (id Escape) AppendWith(p []byte, arg ...byte) []byte {
 	switch {
 	case 0x0000 < id && id <= 0x001F: // C0 controls
 		return append(p, byte(id&0x1F))
+	case len(arg) > 0 && (id == 0x90 || 0x9D <= id && id <= 0x9F): // DCS, OSC, PM, APC string
+		return append(append(append(p, '\x1b', byte(0x40|id&0x1F)), arg...), '\x1b', '\\')
 	case 0x0080 <= id && id <= 0x009F: // C1 controls
 		return append(p, '\x1b', byte(0x40|id&0x1F))
 	case 0xEF20 <= id && id <= 0xEF2F: // ESC + byte + character set selection
-- 
2.43.0


From 63783b8128d083f7daf408d80dc3ca80d867dcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:28 +0000
Subject: [PATCH 09/20] fix: palette lookup compares exact distances

---
 ansi/colors.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ansi/colors.go b/ansi/colors.go
index 71cb641..26e1387 100644
--- a/ansi/colors.go
+++ b/ansi/colors.go
@@ -718,8 +718,9 @@ func (p Palette) Index(c SGRColor) int {
 	return ret
 }
 
-// sqDiff borrowed from image/color
+// sqDiff returns the squared difference; unlike the 16-bit variant in
+// image/color, the sum of three such 8-bit squares does not overflow.
 func sqDiff(x, y uint8) uint32 {
 	d := uint32(x) - uint32(y)
-	return (d * d) >> 2
+	return d * d
 }
-- 
2.43.0


From 5fb57ffb074cae493e92cc93a4579816be3a12b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:44 +0000
Subject: [PATCH 10/20] fix: Seq.Size leaves room for any integer argument

---
 ansi/control.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ansi/control.go b/ansi/control.go
index b9fb52c..18a1238 100644
--- a/ansi/control.go
+++ b/ansi/control.go
@@ -240,7 +240,7 @@ func (seq Seq) Size() int {
 	if seq.id == 0 {
 		return 0
 	}
-	return 4 + seq.numBytes + 10*seq.numInts
+	return 4 + seq.numBytes + 21*seq.numInts // sign, 19 digits, and separator
 }
 
 func (seq Seq) String() string {
-- 
2.43.0


From 57624ee963ca521400a6c084d1b4f02d987badfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:34 +0000
Subject: [PATCH 11/20] fix: combining color models does not overwrite an
 earlier combination

---
 ansi/colors.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ansi/colors.go b/ansi/colors.go
index 26e1387..37c4ab0 100644
--- a/ansi/colors.go
+++ b/ansi/colors.go
@@ -465,9 +465,9 @@ func ColorModels(models ...ColorModel) ColorModel {
 		as, haveAs := a.(colorModels)
 		bs, haveBs := b.(colorModels)
 		if haveAs && haveBs {
-			a = append(as, bs...)
+			a = append(as[:len(as):len(as)], bs...)
 		} else if haveAs {
-			a = append(as, b)
+			a = append(as[:len(as):len(as)], b)
 		} else if haveBs {
 			a = append(colorModels{a}, bs...)
 		} else {
-- 
2.43.0


From 96870abd9fed41cb9a276d8f50e7d87481f2cd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 12/20] fix: Seq.AppendTo writes exactly the given arguments of
 a character set selection

---
 ansi/control.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ansi/control.go b/ansi/control.go
index 18a1238..625b871 100644
--- a/ansi/control.go
+++ b/ansi/control.go
@@ -175,7 +175,8 @@ func (seq Seq) AppendTo(p []byte) []byte {
 		// NOTE character set selection sequences are special, in that they're
 		// always a 3 byte sequence, and identified by the first
 		// (intermediate range) byte after the ESC
-		p = append(p, '\x1b', byte(id&0x7F), seq.argBytes[0])
+		p = append(p, '\x1b', byte(id&0x7F))
+		p = seq.appendArgBytes(p)
 	case 0xEF00 < id && id < 0xEF7F: // ESC
 		p = append(p, '\x1b')
 		p = seq.appendArgBytes(p)
-- 
2.43.0


From 014839aab82918bd68a2d1d333665897b97a2146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:25 +0000
Subject: [PATCH 13/20] fix: decode control strings that contain an encoded
 U+FFFD

---
 ansi/decode.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ansi/decode.go b/ansi/decode.go
index 7af0233..76471fb 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -205,10 +205,10 @@ term:
 func decodeString(p []byte) (a []byte, n int) {
 	r, m := DecodeRune(p)
 	for {
-		switch r {
-		case utf8.RuneError:
+		switch {
+		case r == utf8.RuneError && m < 3: // may be fixed by more bytes, unlike an encoded U+FFFD
 			return nil, 0
-		case 0x9C:
+		case r == 0x9C:
 			return p[:n], n + m
 		}
 		n += m
-- 
2.43.0


From 39e0ab429a6513e1747e57d837a81b791dc3dfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 14/20] fix: Grid.Resize keeps sub-grids within their data, and
 can regrow from no width

---
 grid.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/grid.go b/grid.go
index c2c3db4..d67b17a 100644
--- a/grid.go
+++ b/grid.go
@@ -22,11 +22,12 @@ func (g *Grid) Resize(size image.Point) bool {
 		return false
 	}
 	if g.IsSub() {
-		if size.X > g.Stride {
-			size.X = g.Stride
+		max := g.fullSize().Sub(g.Rect.Min.ToImage())
+		if size.X > max.X {
+			size.X = max.X
 		}
-		if g.Stride*size.Y > len(g.Rune) {
-			size.Y = len(g.Rune) / g.Stride
+		if size.Y > max.Y {
+			size.Y = max.Y
 		}
 		g.Rect.Max = g.Rect.Min.Add(size)
 	} else {
@@ -36,7 +37,7 @@ func (g *Grid) Resize(size image.Point) bool {
 		g.Rect.Max = g.Rect.Min.Add(size)
 		g.Stride = size.X
 		n := g.Stride * size.Y
-		if n > cap(g.Rune) {
+		if n > cap(g.Rune) || n > cap(g.Attr) {
 			as := make([]ansi.SGRAttr, n)
 			rs := make([]rune, n)
 			copy(as, g.Attr)
@@ -93,7 +94,7 @@ func (g Grid) CellOffset(pt ansi.Point) (int, bool) {
 // IsSub returns true if the grid's bounding rectangle only covers a
 // sub-section of its underlying data.
 func (g *Grid) IsSub() bool {
-	return g.Rect.Size() != g.fullSize()
+	return g.Stride > 0 && g.Rect.Size() != g.fullSize()
 }
 
 func (g *Grid) fullSize() image.Point {
-- 
2.43.0


From 2bb9bc96e29837608a8fc6bab133b25b9a5476d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 15/20] fix: Grid.Eq compares the size and only the cells
 within bounds

---
 grid.go | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/grid.go b/grid.go
index d67b17a..30d9040 100644
--- a/grid.go
+++ b/grid.go
@@ -148,25 +148,30 @@ func (g Grid) SubRect(r ansi.Rectangle) Grid {
 // Eq returns true only if the other grid has the same size and contents as the
 // receiver.
 func (g Grid) Eq(other Grid, zero rune) bool {
-	n := len(g.Rune)
-	if n != len(other.Rune) {
+	size := g.Rect.Size()
+	if size != other.Rect.Size() {
 		return false
 	}
-	i := 0
-	for ; i < n; i++ {
-		if g.Attr[i] != other.Attr[i] {
-			return false
-		}
-		gr, or := g.Rune[i], other.Rune[i]
-		if gr == 0 {
-			gr = zero
-		}
-		if or == 0 {
-			or = zero
-		}
-		if gr != or {
-			return false
+	gi, _ := g.CellOffset(g.Rect.Min)
+	oi, _ := other.CellOffset(other.Rect.Min)
+	for y := 0; y < size.Y; y++ {
+		for x := 0; x < size.X; x++ {
+			if g.Attr[gi+x] != other.Attr[oi+x] {
+				return false
+			}
+			gr, or := g.Rune[gi+x], other.Rune[oi+x]
+			if gr == 0 {
+				gr = zero
+			}
+			if or == 0 {
+				or = zero
+			}
+			if gr != or {
+				return false
+			}
 		}
+		gi += g.Stride
+		oi += other.Stride
 	}
 	return true
 }
-- 
2.43.0


From d0562af9908089a56ce8816816a0cf2881fdf7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 16/20] fix: SubRect gives an empty rectangle rather than an
 inverted one

---
 bitmap.go | 6 ++++++
 grid.go   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/bitmap.go b/bitmap.go
index 2df4c15..fc22946 100644
--- a/bitmap.go
+++ b/bitmap.go
@@ -220,6 +220,12 @@ func (bi Bitmap) SubRect(r image.Rectangle) Bitmap {
 	if r.Max.Y > bi.Rect.Max.Y {
 		r.Max.Y = bi.Rect.Max.Y
 	}
+	if r.Max.X < r.Min.X {
+		r.Max.X = r.Min.X
+	}
+	if r.Max.Y < r.Min.Y {
+		r.Max.Y = r.Min.Y
+	}
 	return Bitmap{
 		Bit:    bi.Bit,
 		Stride: bi.Stride,
diff --git a/grid.go b/grid.go
index 30d9040..0487a26 100644
--- a/grid.go
+++ b/grid.go
@@ -137,6 +137,12 @@ func (g Grid) SubRect(r ansi.Rectangle) Grid {
 	if r.Max.Y > g.Rect.Max.Y {
 		r.Max.Y = g.Rect.Max.Y
 	}
+	if r.Max.X < r.Min.X {
+		r.Max.X = r.Min.X
+	}
+	if r.Max.Y < r.Min.Y {
+		r.Max.Y = r.Min.Y
+	}
 	return Grid{
 		Attr:   g.Attr,
 		Rune:   g.Rune,
-- 
2.43.0


From bd59de9d6bff7d636edcfbaa6c6cb8093089e151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 17/20] fix: styled DrawGrid stays within both grids and styles
 the actual point

---
 draw.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/draw.go b/draw.go
index 9c96863..4280176 100644
--- a/draw.go
+++ b/draw.go
@@ -31,9 +31,11 @@ func DrawGrid(dst, src Grid, styles ...Style) {
 			sii++
 			dii++
 			sp.X++
+			dp.X++
 		}
 		si += src.Stride
 		di += dst.Stride
+		sp.Y++
 		dp.Y++
 	}
 }
-- 
2.43.0


From 7624f2dfc1087a7e7df3a11ed2498b381eb00ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 18/20] fix: Bitmap.Load pads a partial last row

---
 bitmap.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bitmap.go b/bitmap.go
index fc22946..e95a975 100644
--- a/bitmap.go
+++ b/bitmap.go
@@ -15,9 +15,12 @@ type Bitmap struct {
 
 // Load the given bit data into the bitmap.
 func (bi *Bitmap) Load(stride int, data []bool) {
-	h := len(data) / stride
-	for i, n := 0, len(data)%h; i < n; i++ {
-		data = append(data, false)
+	h := 0
+	if stride > 0 {
+		h = (len(data) + stride - 1) / stride
+		for len(data) < h*stride {
+			data = append(data, false)
+		}
 	}
 	bi.Bit = data
 	bi.Stride = stride
-- 
2.43.0


From 2f46b73c70572a1efef40e0c1cb2af678301cf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 19/20] fix: NoopStyle keeps attributes

---
 style.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/style.go b/style.go
index b27a746..a91391b 100644
--- a/style.go
+++ b/style.go
@@ -57,7 +57,7 @@ func (f StyleFunc) Style(p ansi.Point, pr, r rune, pa, a ansi.SGRAttr) (rune, an
 type _noopStyle struct{}
 
 func (ns _noopStyle) Style(p ansi.Point, pr, r rune, pa, a ansi.SGRAttr) (rune, ansi.SGRAttr) {
-	return r, 0
+	return r, a
 }
 
 // NoopStyle is a no-op style, used as a zero fill by Styles.
-- 
2.43.0


From fcf85145970fd9f9211c6cc9bda0d97bacf2205b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 20/20] fix: DrawBitmap passes the destination point to styles

---
 draw.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/draw.go b/draw.go
index 4280176..261900d 100644
--- a/draw.go
+++ b/draw.go
@@ -86,9 +86,8 @@ func DrawBitmap(dst Grid, src Bitmap, styles ...Style) {
 		for gp.X < dst.Rect.Max.X && bp.X < src.Rect.Max.X {
 			if i, ok := dst.CellOffset(gp); ok {
 				r, a := src.Rune(bp), dst.Attr[i]
-				sp := ansi.PtFromImage(bp)
 				pr, pa := dst.Rune[i], dst.Attr[i]
-				if r, a = style.Style(sp, pr, r, pa, a); r != 0 {
+				if r, a = style.Style(gp, pr, r, pa, a); r != 0 {
 					dst.Rune[i], dst.Attr[i] = r, a
 				}
 			}
-- 
2.43.0

