From 2e892c03d906459739ad9d6b1ab27e67e8f399ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 1/9] fix: reject negative and unrepresentably large dimensions

A header such as GP -5x 450 made parsing panic (makeslice: len out of
range), and GP999999x999999 exhausted the memory of the process.
---
 header.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/header.go b/header.go
index 97581e0..a260b2a 100644
--- a/header.go
+++ b/header.go
@@ -7,6 +7,10 @@ import (
 	"unicode"
 )
 
+// maxDimension is the largest dimension the header can express, as the fixed
+// width fields have at most four digits per dimension.
+const maxDimension = 9999
+
 // splitHeader splits the given header string into its fields. The returned
 // map is using the field name as key and the field content as value.
 func splitHeader(header string) (m map[string]string) {
@@ -119,6 +123,11 @@ func (c *Composite) parseHeader(reader *bufio.Reader) error {
 		c.Rx, c.Ry = v.rx, v.ry // data resolution
 	}
 
+	// negative or excessive dimensions can not be allocated
+	if c.Dx < 1 || c.Dy < 1 || c.Dx > maxDimension || c.Dy > maxDimension {
+		return newError("parseHeader", fmt.Sprintf("invalid dimensions: %d x %d", c.Dy, c.Dx))
+	}
+
 	// Parse Precision - Example: "PR E-01" or "PR E+00"
 	if prec, ok := section["E"]; ok { // not that nice
 		if _, err := fmt.Sscanf(prec, "%d", &c.precision); err != nil {
-- 
2.43.0


From 2384a5859441f0272c86e552672dcfdb3e06bd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 2/9] fix: do not give a trailing header key the previous
 field's value

A header ending with a field name without content, e.g. ...GP 450x 450VV,
took over the value of the preceding field (a forecast of 450 minutes).
---
 header.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/header.go b/header.go
index a260b2a..85a5219 100644
--- a/header.go
+++ b/header.go
@@ -37,6 +37,9 @@ func splitHeader(header string) (m map[string]string) {
 			endValue = i + 1
 		}
 	}
+	if !dispatch { // trailing key without value
+		beginValue, endValue = endKey, endKey
+	}
 	m[header[beginKey:endKey]] = header[beginValue:endValue]
 
 	return
-- 
2.43.0


From 7d430d00a4756653eef60096fff3ea1bde09b23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 3/9] fix: keep the catalog resolution of local picture
 products

The resolution looked up in the dimension catalog was overwritten with NaN
because local pictures have no projection.
---
 projection.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projection.go b/projection.go
index 3e95f1f..2129fa2 100644
--- a/projection.go
+++ b/projection.go
@@ -90,8 +90,10 @@ func (c *Composite) cornerPoints(detectedGrid grid) (originTop, originLeft, edge
 
 // calibrateProjection initializes fields that are necessary for coordinate transformation
 func (c *Composite) calibrateProjection() {
-	c.Rx = math.NaN()
-	c.Ry = math.NaN()
+	if c.Rx == 0 || c.Ry == 0 { // keep catalog resolution of local pictures
+		c.Rx = math.NaN()
+		c.Ry = math.NaN()
+	}
 	c.offx = math.NaN()
 	c.offy = math.NaN()
 
-- 
2.43.0


From f167510cf3d9994cfdb1b4e581dc45ce2c3c52c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 4/9] fix: parse blank padded BG dimensions by their fixed
 width

BG 50100 (50 rows, 100 columns, fortran 2I3) was read as 501 x 0, as the
leading blank did not count for the field width.
---
 header.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/header.go b/header.go
index 85a5219..e6056ee 100644
--- a/header.go
+++ b/header.go
@@ -110,6 +110,9 @@ func (c *Composite) parseHeader(reader *bufio.Reader) error {
 		c.Px, c.Py = c.Dx, c.Dy // composite formats do not show elevation
 
 	} else if dim, ok := section["BG"]; ok {
+		if len(dim) == 6 { // Sscanf does not count leading blanks of the fixed width fields
+			dim = dim[:3] + " " + dim[3:]
+		}
 		if _, err := fmt.Sscanf(dim, "%3d%3d", &c.Dy, &c.Dx); err != nil {
 			return newError("parseHeader", "could not parse dimensions (BG): "+err.Error())
 		}
-- 
2.43.0


From ef6b1c51953854e53c46409ad260fe05f09973ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 5/9] fix: verify the checksum of the last block of an archive

---
 radolan.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/radolan.go b/radolan.go
index ddf20a5..1b03df7 100644
--- a/radolan.go
+++ b/radolan.go
@@ -41,6 +41,7 @@ import (
 	"compress/bzip2"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"sort"
 	"time"
 )
@@ -177,6 +178,11 @@ func NewComposites(rd io.Reader) ([]*Composite, error) {
 		cs = append(cs, c)
 	}
 
+	// the checksum of the last block is only verified at the end of the stream
+	if _, err := io.Copy(ioutil.Discard, bzipReader); err != nil {
+		return nil, err
+	}
+
 	// sort composites in chronological order
 	sort.Slice(cs, func(i, j int) bool { return cs[i].ForecastTime.Before(cs[j].ForecastTime) })
 	return cs, nil
-- 
2.43.0


From e741dd316387b8637f895009fcccb9bc621638bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:13 +0000
Subject: [PATCH 6/9] fix: draw the mesh at whole degrees

Stepping by 0.1 in floating point misses the whole degrees from 5E on, so
that the meridians were drawn a tenth of a degree too far east.
---
 radolan2png/radolan2png.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/radolan2png/radolan2png.go b/radolan2png/radolan2png.go
index 94bc5d5..b9f2f9c 100644
--- a/radolan2png/radolan2png.go
+++ b/radolan2png/radolan2png.go
@@ -78,10 +78,10 @@ func convert(in, out string) {
 		}
 
 		// draw mesh
-		for e := 1.0; e < 16.0; e += 0.1 {
-			for n := 46.0; n < 55.0; n += 0.1 {
-				if e-float64(int(e)) < 0.1 || n-float64(int(n)) < 0.1 {
-					x, y := comp.Project(n, e)
+		for e := 10; e < 160; e++ { // tenths of a degree, as floating point steps do not meet whole degrees
+			for n := 460; n < 550; n++ {
+				if e%10 == 0 || n%10 == 0 {
+					x, y := comp.Project(float64(n)/10, float64(e)/10)
 					img.Set(int(x), int(y), meshColor)
 				}
 			}
-- 
2.43.0


From c437e580035b448ce65de72cf51c846c799fefaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:14 +0000
Subject: [PATCH 7/9] fix: do not draw points outside of the grid at its edge

The conversion to int truncates towards zero, so that border and mesh points
up to one pixel north or west of the grid appeared in its first row or column.
---
 radolan2png/radolan2png.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/radolan2png/radolan2png.go b/radolan2png/radolan2png.go
index b9f2f9c..72e3f59 100644
--- a/radolan2png/radolan2png.go
+++ b/radolan2png/radolan2png.go
@@ -10,6 +10,7 @@ import (
 	"image/color"
 	"image/png"
 	"log"
+	"math"
 	"os"
 	"time"
 )
@@ -74,7 +75,7 @@ func convert(in, out string) {
 			x, y := comp.Project(b[0], b[1])
 
 			// draw point
-			img.Set(int(x), int(y), borderColor)
+			img.Set(int(math.Floor(x)), int(math.Floor(y)), borderColor)
 		}
 
 		// draw mesh
@@ -82,7 +83,7 @@ func convert(in, out string) {
 			for n := 460; n < 550; n++ {
 				if e%10 == 0 || n%10 == 0 {
 					x, y := comp.Project(float64(n)/10, float64(e)/10)
-					img.Set(int(x), int(y), meshColor)
+					img.Set(int(math.Floor(x)), int(math.Floor(y)), meshColor)
 				}
 			}
 		}
-- 
2.43.0


From 292df10d12126f8562bfe885d092e00db04a52fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:37 +0000
Subject: [PATCH 8/9] fix: reject capture times with signed years

time.Parse takes the years "+4" and "-6" for 2004 and 1994.
---
 header.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/header.go b/header.go
index e6056ee..64068b2 100644
--- a/header.go
+++ b/header.go
@@ -73,6 +73,11 @@ func (c *Composite) parseHeader(reader *bufio.Reader) error {
 
 	// Parse CaptureTime - Example: "PG262115100000616" or "FZ211615100000716"
 	date := header[2:8] + header[13:17] // cut WMO number
+	for _, d := range []byte(date) { // time.Parse accepts signed years
+		if d < '0' || d > '9' {
+			return newError("parseHeader", "could not parse capture time: "+date)
+		}
+	}
 	c.CaptureTime, err = time.Parse("0215040106", date)
 	if err != nil {
 		return newError("parseHeader", "could not parse capture time: "+err.Error())
-- 
2.43.0


From 62c26ee7e22d248c339b0648062a25329077a681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:51 +0000
Subject: [PATCH 9/9] fix: reject forecasts and intervals beyond the range of a
 duration

---
 header.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/header.go b/header.go
index 64068b2..a2fdf07 100644
--- a/header.go
+++ b/header.go
@@ -3,6 +3,7 @@ package radolan
 import (
 	"bufio"
 	"fmt"
+	"math"
 	"time"
 	"unicode"
 )
@@ -11,6 +12,9 @@ import (
 // width fields have at most four digits per dimension.
 const maxDimension = 9999
 
+// maxMinutes is the largest number of minutes a time.Duration can represent.
+const maxMinutes = math.MaxInt64 / int64(time.Minute)
+
 // splitHeader splits the given header string into its fields. The returned
 // map is using the field name as key and the field content as value.
 func splitHeader(header string) (m map[string]string) {
@@ -90,6 +94,9 @@ func (c *Composite) parseHeader(reader *bufio.Reader) error {
 		if _, err := fmt.Sscanf(vv, "%d", &min); err != nil {
 			return newError("parseHeader", "could not parse forecast time: "+err.Error())
 		}
+		if int64(min) > maxMinutes || int64(min) < -maxMinutes {
+			return newError("parseHeader", fmt.Sprintf("forecast time out of range: %d", min))
+		}
 		c.ForecastTime = c.CaptureTime.Add(time.Duration(min) * time.Minute)
 	}
 
@@ -100,11 +107,15 @@ func (c *Composite) parseHeader(reader *bufio.Reader) error {
 			return newError("parseHeader", "could not parse interval: "+err.Error())
 		}
 
-		c.Interval = time.Duration(min) * time.Minute
+		unit := int64(1)
 		switch c.Product {
 		case "W1", "W2", "W3", "W4":
-			c.Interval *= 10
+			unit = 10
+		}
+		if int64(min) > maxMinutes/unit || int64(min) < -maxMinutes/unit {
+			return newError("parseHeader", fmt.Sprintf("interval out of range: %d", min))
 		}
+		c.Interval = time.Duration(min) * time.Duration(unit) * time.Minute
 	}
 
 	// Parse Dimensions - Example: "GP 450x 450" or "BG460460" or "GP 1500x1400" (if defined)
-- 
2.43.0

