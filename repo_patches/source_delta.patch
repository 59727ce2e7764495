From 5a336435bf28c857eaef00a7b2afc1b8f459fd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 001/121] fix: include the upper bound in open-ended version
 ranges

---
 xmp/semver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/semver.go b/xmp/semver.go
index 01fda9e..9621233 100644
--- a/xmp/semver.go
+++ b/xmp/semver.go
@@ -69,7 +69,7 @@ func (v Version) Between(a, b Version) bool {
 	case v.IsZero():
 		return true
 	case a.IsZero():
-		return v.Before(b) || v.Equal(a)
+		return v.Before(b) || v.Equal(b)
 	case b.IsZero():
 		return v.After(a) || v.Equal(a)
 	default:
-- 
2.43.0


From 2b3edd7480bfe851da95d71ee95f8993fd982d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:22 +0000
Subject: [PATCH 002/121] fix: read properties without version range when a
 decoder version is set

---
 xmp/semver.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xmp/semver.go b/xmp/semver.go
index 9621233..51ec40e 100644
--- a/xmp/semver.go
+++ b/xmp/semver.go
@@ -68,6 +68,8 @@ func (v Version) Between(a, b Version) bool {
 	switch {
 	case v.IsZero():
 		return true
+	case a.IsZero() && b.IsZero():
+		return true
 	case a.IsZero():
 		return v.Before(b) || v.Equal(b)
 	case b.IsZero():
-- 
2.43.0


From e5bdc4786d3150759df43c9ad945e743a749fbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 003/121] fix: keep a time zone offset without colon when
 repairing dates

---
 xmp/xmp_types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xmp/xmp_types.go b/xmp/xmp_types.go
index 7c2a014..fee739e 100644
--- a/xmp/xmp_types.go
+++ b/xmp/xmp_types.go
@@ -173,7 +173,9 @@ func repairTZ(value string) string {
 	a, b, c := value[l-5], value[l-2], value[l-6]
 	switch a {
 	case '+', '-', 'Z':
-		return value[:l-4] + "0" + value[l-4:]
+		if value[l-3] == ':' {
+			return value[:l-4] + "0" + value[l-4:]
+		}
 	}
 	switch b {
 	case '+', '-', 'Z':
-- 
2.43.0


From 5ed4b668b25c13e0f6352620af0e27ea36b3618b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 004/121] fix: convert decimal fractions to rationals without
 losing their value

---
 xmp/xmp_types.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/xmp/xmp_types.go b/xmp/xmp_types.go
index fee739e..96feed8 100644
--- a/xmp/xmp_types.go
+++ b/xmp/xmp_types.go
@@ -40,6 +40,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -542,6 +543,9 @@ func gcd(x, y int64) int64 {
 	for y != 0 {
 		x, y = y, x%y
 	}
+	if x < 0 {
+		return -x
+	}
 	return x
 }
 
@@ -551,16 +555,18 @@ func FloatToRational(f float32) Rational {
 		den int64   = 1000000
 		rnd float32 = 0.5
 	)
-	switch {
-	case f > 2147:
-		den = 10000
-	case f > 214748:
-		den = 100
-	case f > 21474836:
-		den = 1
-	}
+	abs := f
 	if f < 0 {
 		rnd = -0.5
+		abs = -f
+	}
+	switch {
+	case abs > 21474836:
+		den = 1
+	case abs > 214748:
+		den = 100
+	case abs > 2147:
+		den = 10000
 	}
 	nom := int64(f*float32(den) + rnd)
 	g := gcd(nom, den)
@@ -579,10 +585,13 @@ func (x *Rational) UnmarshalText(data []byte) error {
 		var f float64
 		f, err = strconv.ParseFloat(v, 32)
 		if err == nil {
-			if f < 1 {
-				r = Rational{1, int64(1000/f+50) / 1000}
-			} else {
-				r = FloatToRational(float32(f))
+			r = FloatToRational(float32(f))
+			if f > 0 && f < 1 {
+				// prefer 1/n as common for short exposure times
+				n := math.Floor(1/f + 0.5)
+				if n < math.MaxInt32 && math.Abs(1/n-f) <= f*0.005 {
+					r = Rational{1, int64(n)}
+				}
 			}
 			// fmt.Printf("Float %f in Rational %d/%d\n", f, r.Num, r.Den)
 		}
-- 
2.43.0


From 6b6e8c43dcfee6728286dd070aa3d64089a12743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 005/121] fix: write infinite numbers with their correct sign
 in JSON

---
 xmp/units.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmp/units.go b/xmp/units.go
index 31f3c82..121e8f8 100644
--- a/xmp/units.go
+++ b/xmp/units.go
@@ -361,9 +361,9 @@ func (f NullFloat) MarshalJSON() ([]byte, error) {
 	case math.IsNaN(f.Value()):
 		return []byte("\"NaN\""), nil
 	case math.IsInf(f.Value(), -1):
-		return []byte("\"+Inf\""), nil
-	case math.IsInf(f.Value(), 1):
 		return []byte("\"-Inf\""), nil
+	case math.IsInf(f.Value(), 1):
+		return []byte("\"+Inf\""), nil
 	default:
 		return json.Marshal(f.Value())
 	}
@@ -432,9 +432,9 @@ func (f NullFloat64) MarshalJSON() ([]byte, error) {
 	case math.IsNaN(f.Value()):
 		return []byte("\"NaN\""), nil
 	case math.IsInf(f.Value(), -1):
-		return []byte("\"+Inf\""), nil
-	case math.IsInf(f.Value(), 1):
 		return []byte("\"-Inf\""), nil
+	case math.IsInf(f.Value(), 1):
+		return []byte("\"+Inf\""), nil
 	default:
 		return json.Marshal(f.Value())
 	}
-- 
2.43.0


From b4c735a1644d46db5103378f7f81580b6a47405b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 006/121] fix: parse the full value range of split integers

---
 xmp/units.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmp/units.go b/xmp/units.go
index 121e8f8..18ae66c 100644
--- a/xmp/units.go
+++ b/xmp/units.go
@@ -109,12 +109,12 @@ func (x *SplitInt) UnmarshalText(data []byte) error {
 		return nil
 	default:
 		// parse integer
-		if i, err := strconv.ParseInt(d, 10, 32); err == nil {
+		if i, err := strconv.ParseUint(d, 10, 32); err == nil {
 			*x = SplitInt(i)
 		} else if f := strings.Split(d, ":"); len(f) == 4 {
 			var u uint32
 			for i := 0; i < 4; i++ {
-				if v, err := strconv.ParseInt(f[i], 10, 8); err != nil {
+				if v, err := strconv.ParseUint(f[i], 10, 8); err != nil {
 					return fmt.Errorf("xmp: parsing SplitInt '%s': invalid syntax", d)
 				} else {
 					u += uint32(v) << uint32((3-i)*8)
-- 
2.43.0


From 2838d2900804c0d7dc0d21592b71efbbbe96bb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 007/121] fix: read URI values given as rdf:resource attribute

---
 xmp/xmp_types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/xmp_types.go b/xmp/xmp_types.go
index 96feed8..649ee5b 100644
--- a/xmp/xmp_types.go
+++ b/xmp/xmp_types.go
@@ -454,7 +454,7 @@ func NewUri(u string) Uri {
 // }
 
 func (x *Uri) UnmarshalXMP(d *Decoder, node *Node, m Model) error {
-	if attr := node.GetAttr("rdf", "resource"); len(attr) > 0 {
+	if attr := node.GetAttr("", "resource"); len(attr) > 0 {
 		*x = Uri(attr[0].Value)
 		return nil
 	}
-- 
2.43.0


From 14e68fb639b1bb5d1e599ebc2b78b7c8ad4a45df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 008/121] fix: read JSON booleans into Bool

---
 xmp/xmp_types.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xmp/xmp_types.go b/xmp/xmp_types.go
index 649ee5b..66a4755 100644
--- a/xmp/xmp_types.go
+++ b/xmp/xmp_types.go
@@ -86,6 +86,13 @@ func (x Bool) MarshalJSON() ([]byte, error) {
 	return json.Marshal(x.Value())
 }
 
+func (x *Bool) UnmarshalJSON(data []byte) error {
+	if len(data) == 0 || string(data) == "null" {
+		return nil
+	}
+	return x.UnmarshalText(bytes.Trim(data, "\""))
+}
+
 // 8.2.1.2 Date
 type Date time.Time
 
-- 
2.43.0


From e992a71ebd5e0a0071c353f3461c512c481d6c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 009/121] fix: read JSON numbers into SplitInt

---
 xmp/units.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xmp/units.go b/xmp/units.go
index 18ae66c..4809e44 100644
--- a/xmp/units.go
+++ b/xmp/units.go
@@ -128,6 +128,13 @@ func (x *SplitInt) UnmarshalText(data []byte) error {
 	return nil
 }
 
+func (x *SplitInt) UnmarshalJSON(data []byte) error {
+	if len(data) == 0 || string(data) == "null" {
+		return nil
+	}
+	return x.UnmarshalText(bytes.Trim(data, "\""))
+}
+
 // String
 type NullString string
 
-- 
2.43.0


From f1bfb3013ad82b5350becac2a924dd8501a48b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:33 +0000
Subject: [PATCH 010/121] fix: parse floats with upper case exponent

---
 xmp/units.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xmp/units.go b/xmp/units.go
index 4809e44..4311b2a 100644
--- a/xmp/units.go
+++ b/xmp/units.go
@@ -338,6 +338,10 @@ func ParseNullFloat(d string) (NullFloat, error) {
 		return NullFloat(math.Inf(1)), nil
 	default:
 		// parse float
+		if i, err := strconv.ParseFloat(d, 32); err == nil {
+			return NullFloat(i), nil
+		}
+		// retry without units and other non-numeric characters
 		c := cleanFloat.ReplaceAllString(d, "")
 		if i, err := strconv.ParseFloat(c, 32); err == nil {
 			return NullFloat(i), nil
@@ -409,6 +413,10 @@ func ParseNullFloat64(d string) (NullFloat64, error) {
 		return NullFloat64(math.Inf(1)), nil
 	default:
 		// parse float
+		if i, err := strconv.ParseFloat(d, 64); err == nil {
+			return NullFloat64(i), nil
+		}
+		// retry without units and other non-numeric characters
 		c := cleanFloat.ReplaceAllString(d, "")
 		if i, err := strconv.ParseFloat(c, 64); err == nil {
 			return NullFloat64(i), nil
-- 
2.43.0


From f7943f40a72eeb9e6c2ceaca51a6a043700df4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 011/121] fix: reject durations that exceed the value range

---
 xmp/units.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/xmp/units.go b/xmp/units.go
index 4311b2a..898a642 100644
--- a/xmp/units.go
+++ b/xmp/units.go
@@ -225,6 +225,9 @@ func (x *NullBool) UnmarshalJSON(data []byte) error {
 	return x.UnmarshalText(data)
 }
 
+// largest number of seconds a duration can hold
+const maxDurationSeconds = math.MaxInt64 / int64(time.Second)
+
 // Duration
 type Duration time.Duration
 
@@ -239,6 +242,9 @@ func (d Duration) String() string {
 func ParseDuration(d string) (Duration, error) {
 	// parse integer values as seconds
 	if i, err := strconv.ParseInt(d, 10, 64); err == nil {
+		if i > maxDurationSeconds || i < -maxDurationSeconds {
+			return 0, fmt.Errorf("xmp: parsing duration '%s': value out of range", d)
+		}
 		return Duration(time.Duration(i) * time.Second), nil
 	}
 	// parse as duration string (note: no whitespace allowed)
@@ -278,9 +284,8 @@ func (d *Duration) UnmarshalJSON(data []byte) error {
 	if data[0] == '"' {
 		return d.UnmarshalText(bytes.Trim(data, "\""))
 	}
-	if i, err := strconv.ParseInt(string(data), 10, 64); err == nil {
-		*d = Duration(time.Duration(i) * time.Second)
-		return nil
+	if _, err := strconv.ParseInt(string(data), 10, 64); err == nil {
+		return d.UnmarshalText(data)
 	}
 	return fmt.Errorf("xmp: parsing duration '%s': invalid syntax", string(data))
 }
-- 
2.43.0


From 70ee210f6aea198985c29d9169a8ca3ed97150d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 012/121] fix: select a default when no language alternative is
 marked as default

---
 xmp/array.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xmp/array.go b/xmp/array.go
index b75ab40..20e5373 100644
--- a/xmp/array.go
+++ b/xmp/array.go
@@ -108,7 +108,9 @@ func (a *AltString) EnsureDefault() {
 				}
 			}
 		}
-		if idx != 0 {
+		if idx < 0 {
+			(*a)[0].IsDefault = true
+		} else if idx > 0 {
 			(*a)[idx], (*a)[0] = (*a)[0], (*a)[idx]
 		}
 	} else if l == 1 {
-- 
2.43.0


From 3a664f1d76f2189b5652d0252e7cd3e17d4ef0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 013/121] fix: remove the selected item from string and
 identifier lists

---
 models/xmp_base/types.go | 2 +-
 xmp/array.go             | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/models/xmp_base/types.go b/models/xmp_base/types.go
index e939097..f26ae5e 100644
--- a/models/xmp_base/types.go
+++ b/models/xmp_base/types.go
@@ -150,7 +150,7 @@ func (x *IdentifierArray) Index(val string) int {
 
 func (x *IdentifierArray) Remove(v string) {
 	if idx := x.Index(v); idx > -1 {
-		*x = append((*x)[:idx], (*x)[:idx+1]...)
+		*x = append((*x)[:idx], (*x)[idx+1:]...)
 	}
 }
 
diff --git a/xmp/array.go b/xmp/array.go
index 20e5373..aa3ce1a 100644
--- a/xmp/array.go
+++ b/xmp/array.go
@@ -397,7 +397,7 @@ func (x *StringList) Remove(v string) {
 		return
 	}
 	if idx := x.Index(v); idx > -1 {
-		*x = append((*x)[:idx], (*x)[:idx+1]...)
+		*x = append((*x)[:idx], (*x)[idx+1:]...)
 	}
 }
 
@@ -501,7 +501,7 @@ func (x *StringArray) Remove(v string) {
 		return
 	}
 	if idx := x.Index(v); idx > -1 {
-		*x = append((*x)[:idx], (*x)[:idx+1]...)
+		*x = append((*x)[:idx], (*x)[idx+1:]...)
 	}
 }
 
-- 
2.43.0


From 262ea12893ee78abef7e78cb78dc1de15c9480e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 014/121] fix: ignore deletion one past the end of a resource
 reference list

---
 models/xmp_mm/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/xmp_mm/types.go b/models/xmp_mm/types.go
index 0cf33b1..b1f2aac 100644
--- a/models/xmp_mm/types.go
+++ b/models/xmp_mm/types.go
@@ -80,7 +80,7 @@ func (x ResourceRefArray) Index(did xmp.GUID) int {
 }
 
 func (x *ResourceRefArray) DeleteIndex(idx int) {
-	if idx < 0 || idx > len(*x) {
+	if idx < 0 || idx >= len(*x) {
 		return
 	}
 	*x = append((*x)[:idx], ((*x)[idx+1:])...)
-- 
2.43.0


From 95795018b605fb1ca5be84bc35b55f56ef434502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 015/121] fix: write resource references that only have a
 management UI

---
 models/xmp_mm/types.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/models/xmp_mm/types.go b/models/xmp_mm/types.go
index b1f2aac..dd19b01 100644
--- a/models/xmp_mm/types.go
+++ b/models/xmp_mm/types.go
@@ -52,6 +52,7 @@ func (x ResourceRef) IsZero() bool {
 		x.Manager.IsZero() &&
 		x.ManagerVariant == "" &&
 		x.ManageTo == "" &&
+		x.ManageUI == "" &&
 		x.MaskMarkers == "" &&
 		x.PartMapping == "" &&
 		x.RenditionClass == "" &&
-- 
2.43.0


From baf2818f13abc6ab30b8606f21b1fce9ad7f6835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 016/121] fix: read and write thumbnail width and height under
 their own names

---
 models/xmp_base/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/xmp_base/types.go b/models/xmp_base/types.go
index f26ae5e..b07a935 100644
--- a/models/xmp_base/types.go
+++ b/models/xmp_base/types.go
@@ -169,8 +169,8 @@ func (x *IdentifierArray) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Mod
 // Part 2: 1.2.2.4 Thumbnail
 type Thumbnail struct {
 	Format string `xmp:"xmpGImg:format"`
-	Width  int64  `xmp:"xmpGImg:height"`
-	Height int64  `xmp:"xmpGImg:width"`
+	Width  int64  `xmp:"xmpGImg:width"`
+	Height int64  `xmp:"xmpGImg:height"`
 	Image  []byte `xmp:"xmpGImg:image"`
 }
 
-- 
2.43.0


From bae55a549d5e832581d56ad8e927d5b83cb664fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 017/121] fix: do not crash on short packets while scanning

---
 xmp/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/reader.go b/xmp/reader.go
index 4b999ed..f8ac7e0 100644
--- a/xmp/reader.go
+++ b/xmp/reader.go
@@ -67,7 +67,7 @@ var packet_end = []byte("<?xpacket end")       // plus suffix `"w"?>`
 var magic = []byte("W5M0MpCehiHzreSzNTczkc9d") // len 24
 
 func isXmpPacket(b []byte) bool {
-	return bytes.Index(b[:51], magic) > -1
+	return bytes.Index(b[:Min(len(b), 51)], magic) > -1
 }
 
 func splitPacket(data []byte, atEOF bool) (advance int, token []byte, err error) {
-- 
2.43.0


From aea2dd259afacfe632359abf267266b331a4e337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 018/121] fix: scan packets of any size

---
 xmp/reader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xmp/reader.go b/xmp/reader.go
index f8ac7e0..cd66eee 100644
--- a/xmp/reader.go
+++ b/xmp/reader.go
@@ -18,6 +18,7 @@ import (
 	"bufio"
 	"bytes"
 	"io"
+	"math"
 )
 
 func Read(r io.Reader) (*Document, error) {
@@ -44,6 +45,7 @@ func Scan(r io.Reader) (*Document, error) {
 func ScanPackets(r io.Reader) ([][]byte, error) {
 	packets := make([][]byte, 0)
 	s := bufio.NewScanner(r)
+	s.Buffer(nil, math.MaxInt32)
 	s.Split(splitPacket)
 	for s.Scan() {
 		b := s.Bytes()
@@ -85,7 +87,7 @@ func splitPacket(data []byte, atEOF bool) (advance int, token []byte, err error)
 		if atEOF {
 			return len(data), nil, nil
 		}
-		return 0, nil, nil
+		return start, nil, nil
 	}
 	return last, data[start:last], nil
 }
-- 
2.43.0


From f80f3d920b8d77befead2f4c60df1ae81c0994be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 019/121] fix: find packet markers split across reads

---
 xmp/reader.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmp/reader.go b/xmp/reader.go
index cd66eee..489b91c 100644
--- a/xmp/reader.go
+++ b/xmp/reader.go
@@ -75,11 +75,11 @@ func isXmpPacket(b []byte) bool {
 func splitPacket(data []byte, atEOF bool) (advance int, token []byte, err error) {
 	start := bytes.Index(data, packet_start)
 	if start == -1 {
-		ofs := len(data) - len(packet_start)
-		if ofs > 0 {
-			return ofs, nil, nil
+		if atEOF {
+			return len(data), nil, nil
 		}
-		return len(data), nil, nil
+		// keep a potentially incomplete marker at the end
+		return Max(len(data)-len(packet_start)+1, 0), nil, nil
 	}
 	end := bytes.Index(data[start:], packet_end)
 	last := start + end + len(packet_end) + 6
-- 
2.43.0


From af0bfdcd91622d4f438f7aad5ad67b4d194dc4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 020/121] fix: skip incomplete packets and stray markers while
 scanning

---
 xmp/reader.go | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/xmp/reader.go b/xmp/reader.go
index 489b91c..c831562 100644
--- a/xmp/reader.go
+++ b/xmp/reader.go
@@ -68,18 +68,33 @@ var packet_start = []byte("<?xpacket begin")
 var packet_end = []byte("<?xpacket end")       // plus suffix `"w"?>`
 var magic = []byte("W5M0MpCehiHzreSzNTczkc9d") // len 24
 
+// max length of a packet header up to and including the magic
+const packetHeaderLen = 51
+
 func isXmpPacket(b []byte) bool {
-	return bytes.Index(b[:Min(len(b), 51)], magic) > -1
+	return bytes.Index(b[:Min(len(b), packetHeaderLen)], magic) > -1
 }
 
 func splitPacket(data []byte, atEOF bool) (advance int, token []byte, err error) {
-	start := bytes.Index(data, packet_start)
-	if start == -1 {
-		if atEOF {
-			return len(data), nil, nil
+	var start int
+	for {
+		ofs := bytes.Index(data[start:], packet_start)
+		if ofs == -1 {
+			if atEOF {
+				return len(data), nil, nil
+			}
+			// keep a potentially incomplete marker at the end
+			return Max(len(data)-len(packet_start)+1, start), nil, nil
+		}
+		start += ofs
+		if len(data)-start < packetHeaderLen && !atEOF {
+			return start, nil, nil
 		}
-		// keep a potentially incomplete marker at the end
-		return Max(len(data)-len(packet_start)+1, 0), nil, nil
+		if isXmpPacket(data[start:]) {
+			break
+		}
+		// skip marker without magic
+		start += len(packet_start)
 	}
 	end := bytes.Index(data[start:], packet_end)
 	last := start + end + len(packet_end) + 6
@@ -89,5 +104,13 @@ func splitPacket(data []byte, atEOF bool) (advance int, token []byte, err error)
 		}
 		return start, nil, nil
 	}
+	// skip truncated packets before the last packet header
+	for n := end; n > 0; {
+		n = bytes.LastIndex(data[start:start+n], packet_start)
+		if n > 0 && isXmpPacket(data[start+n:start+end]) {
+			start += n
+			break
+		}
+	}
 	return last, data[start:last], nil
 }
-- 
2.43.0


From 9bb7138c08c8607f9cabbbd1c3c718386f52c770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 021/121] fix: read back structures of types that also parse a
 native text form

---
 xmp/unmarshal.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index e64d069..aecf083 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -234,7 +234,7 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 	// Text
 	if val.CanAddr() {
 		pv := val.Addr()
-		if pv.CanInterface() && (finfo != nil && finfo.flags&fTextUnmarshal > 0 || pv.Type().Implements(textUnmarshalerType)) {
+		if pv.CanInterface() && (finfo != nil && finfo.flags&fTextUnmarshal > 0 || pv.Type().Implements(textUnmarshalerType)) && !isStructNode(pv.Type(), src) {
 			return pv.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(src.Value))
 		}
 	}
@@ -288,6 +288,23 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 	return nil
 }
 
+// isStructNode detects values of types that are able to parse a (native) text
+// format, but are written as XMP structures because they have no text format.
+func isStructNode(typ reflect.Type, src *Node) bool {
+	if typ.Elem().Kind() != reflect.Struct || typ.Implements(textMarshalerType) {
+		return false
+	}
+	if len(src.Nodes) > 0 {
+		return true
+	}
+	for _, a := range src.Attr {
+		if a.Name.Space != "xmlns" && a.Name.Space != nsRDF.GetURI() && a.Name.Space != nsXML.GetURI() && !skipField(a.Name) {
+			return true
+		}
+	}
+	return false
+}
+
 func (d *Decoder) unmarshalAttr(val reflect.Value, finfo *fieldInfo, src Attr) error {
 	// Load value from interface
 	val = derefValue(val)
-- 
2.43.0


From be52fad87220f9373ad3743eaac099866a1eeb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 022/121] fix: parse content ratings into the fields they were
 written from

---
 models/itunes/types.go | 9 +++++----
 models/qt/types.go     | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/models/itunes/types.go b/models/itunes/types.go
index be6b280..e0c44fc 100644
--- a/models/itunes/types.go
+++ b/models/itunes/types.go
@@ -88,6 +88,7 @@ func (x ContentRating) String() string {
 	buf.WriteString(x.Score)
 	buf.WriteByte('|')
 	buf.WriteString(x.Reasons)
+	buf.WriteByte(')')
 	return buf.String()
 }
 
@@ -99,13 +100,13 @@ func (x *ContentRating) UnmarshalText(data []byte) error {
 	v = strings.TrimSuffix(v, ")")
 	for i, s := range strings.Split(v, "|") {
 		switch i {
-		case 1:
+		case 0:
 			cr.Standard = s
-		case 2:
+		case 1:
 			cr.Rating = s
-		case 3:
+		case 2:
 			cr.Score = s
-		case 4:
+		case 3:
 			cr.Reasons = s
 		}
 	}
diff --git a/models/qt/types.go b/models/qt/types.go
index 2719b95..99c8158 100644
--- a/models/qt/types.go
+++ b/models/qt/types.go
@@ -128,6 +128,7 @@ func (x ContentRating) String() string {
 	buf.WriteString(x.Score)
 	buf.WriteByte('|')
 	buf.WriteString(x.Reasons)
+	buf.WriteByte(')')
 	return buf.String()
 }
 
@@ -139,13 +140,13 @@ func (x *ContentRating) UnmarshalText(data []byte) error {
 	v = strings.TrimSuffix(v, ")")
 	for i, s := range strings.Split(v, "|") {
 		switch i {
-		case 1:
+		case 0:
 			cr.Standard = s
-		case 2:
+		case 1:
 			cr.Rating = s
-		case 3:
+		case 2:
 			cr.Score = s
-		case 4:
+		case 3:
 			cr.Reasons = s
 		}
 	}
-- 
2.43.0


From 365785a1a0c1be228e7d4712a3ac7e7ff9ed9fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:26 +0000
Subject: [PATCH 023/121] fix: read back arrays of types without own
 unmarshaler

---
 xmp/unmarshal.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index aecf083..4087263 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -239,6 +239,11 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 		}
 	}
 
+	// arrays without unmarshaler, see marshalValue
+	if k := val.Kind(); (k == reflect.Slice || k == reflect.Array) && val.Type().Elem().Kind() != reflect.Uint8 && val.CanAddr() {
+		return UnmarshalArray(d, src, ArrayTypeOrdered, val.Addr().Interface())
+	}
+
 	// structs
 	if val.Kind() == reflect.Struct {
 		// process attributes first
-- 
2.43.0


From c1ee6cbac58e3fe59627936d6a8860da07c7b8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 024/121] fix: write structured properties as elements instead
 of failing on attributes

---
 models/id3/types.go        | 2 +-
 models/itunes/movieinfo.go | 2 +-
 models/xmp_dm/types.go     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/models/id3/types.go b/models/id3/types.go
index 7f991dc..f8e2460 100644
--- a/models/id3/types.go
+++ b/models/id3/types.go
@@ -259,7 +259,7 @@ type TimedLyrics struct {
 	Lang   string        `xmp:"id3:lang,attr"`
 	Type   LyricsType    `xmp:"id3:type,attr"`
 	Unit   PositionType  `xmp:"id3:unit,attr"`
-	Lyrics TimedTextList `xmp:"id3:lyrics,attr"`
+	Lyrics TimedTextList `xmp:"id3:lyrics"`
 }
 
 type TimedLyricsArray []TimedLyrics
diff --git a/models/itunes/movieinfo.go b/models/itunes/movieinfo.go
index 90dca48..d679b5d 100644
--- a/models/itunes/movieinfo.go
+++ b/models/itunes/movieinfo.go
@@ -20,7 +20,7 @@ import (
 )
 
 type MovieInfo struct {
-	AssetInfo     *AssetInfo  `plist:"asset-info"    xmp:"iTunes:AssetInfo,attr"`
+	AssetInfo     *AssetInfo  `plist:"asset-info"    xmp:"iTunes:AssetInfo"`
 	Studio        string      `plist:"studio"        xmp:"iTunes:Studio,attr"`
 	Cast          PersonArray `plist:"cast"          xmp:"iTunes:Cast"`
 	Directors     PersonArray `plist:"directors"     xmp:"iTunes:Directors"`
diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index da17002..d4ec054 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -722,7 +722,7 @@ type Track struct {
 	FrameRate FrameRate      `xmp:"xmpDM:frameRate,attr"`
 	Markers   MarkerList     `xmp:"xmpDM:markers"`
 	Name      string         `xmp:"xmpDM:trackName,attr"`
-	Type      MarkerTypeList `xmp:"xmpDM:trackType,attr"`
+	Type      MarkerTypeList `xmp:"xmpDM:trackType"`
 }
 
 type TrackArray []Track
-- 
2.43.0


From 9181e77ad14e462b6b0ef65e6fd4a615c2789167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 025/121] fix: read identifiers with scheme written as resource

---
 models/xmp_base/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/xmp_base/types.go b/models/xmp_base/types.go
index b07a935..c80bc48 100644
--- a/models/xmp_base/types.go
+++ b/models/xmp_base/types.go
@@ -83,7 +83,7 @@ func (x *Identifier) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) e
 		err = d.DecodeElement(&id.ID, node) // value from node.Value
 		err = d.DecodeElement(&id, node)    // scheme from attr
 	} else {
-		err = d.DecodeElement(&id, node.Nodes[0]) // both from child nodes
+		err = d.DecodeElement(&id, node) // both from child nodes
 	}
 	if err != nil {
 		return err
-- 
2.43.0


From 1ca9db7e499bda989d3d1a52dec84792821c5f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:08 +0000
Subject: [PATCH 026/121] fix: do not divide by zero on iXML speed without
 rates and compute timecode frames

---
 models/ixml/types.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/models/ixml/types.go b/models/ixml/types.go
index b0b69ba..a78aa47 100644
--- a/models/ixml/types.go
+++ b/models/ixml/types.go
@@ -151,11 +151,17 @@ func (x Speed) XmpTimecode() xmpdm.Timecode {
 	if rate == 0 {
 		rate = int64(x.TimecodeRate.Value() * 1000)
 	}
+	if rate == 0 {
+		return xmpdm.Timecode{}
+	}
 	sec := samples / rate
 	h := sec / 3600
 	m := (sec - h*3600) / 60
 	s := sec - h*3600 - m*60
-	f := int((samples % rate) * x.TimecodeRate.Num / rate / 1000)
+	f := 0
+	if x.TimecodeRate.Den != 0 {
+		f = int((samples % rate) * x.TimecodeRate.Num / x.TimecodeRate.Den / rate)
+	}
 	isDrop := x.TimecodeFlag == TimecodeFlagDF
 	return xmpdm.Timecode{
 		Format:      xmpdm.ParseTimecodeFormat(x.TimecodeRate.Value(), isDrop),
-- 
2.43.0


From 5b03bfe62e4b054999cddbda00a25d12ea5cd707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 027/121] fix: keep non-drop 59.94 timecodes apart from drop
 frame timecodes

---
 models/xmp_dm/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index d4ec054..ad10d1a 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -567,7 +567,7 @@ func ParseTimecodeFormat(f float64, isdrop bool) TimecodeFormat {
 		if isdrop {
 			return TimecodeFormat5994
 		} else {
-			return TimecodeFormat5994
+			return TimecodeFormat5994ND
 		}
 	case f == 60:
 		return TimecodeFormat60
-- 
2.43.0


From dee924ee06ff6e0ca5669f43a7c82748c1ea3b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:27 +0000
Subject: [PATCH 028/121] fix: keep dynamic media properties the iXML model has
 no value for

---
 models/ixml/model.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/models/ixml/model.go b/models/ixml/model.go
index 99a73f2..6f65bc0 100644
--- a/models/ixml/model.go
+++ b/models/ixml/model.go
@@ -115,15 +115,29 @@ func (x *IXML) SyncToXMP(d *xmp.Document) error {
 	if err != nil {
 		return err
 	}
-	dm.TapeName = x.SoundRoll
-	dm.Scene = x.SceneName
-	dm.TrackNumber = x.Take
-	dm.LogComment = x.Note
-	dm.ProjectName = x.Project
+	if x.SoundRoll != "" {
+		dm.TapeName = x.SoundRoll
+	}
+	if x.SceneName != "" {
+		dm.Scene = x.SceneName
+	}
+	if x.Take != 0 {
+		dm.TrackNumber = x.Take
+	}
+	if x.Note != "" {
+		dm.LogComment = x.Note
+	}
+	if x.Project != "" {
+		dm.ProjectName = x.Project
+	}
 	dm.Good = xmp.Bool(x.IsCircled.Value())
 	if x.Speed != nil {
-		dm.StartTimecode = x.Speed.XmpTimecode()
-		dm.AudioSampleRate = x.Speed.FileSampleRate.Value()
+		if tc := x.Speed.XmpTimecode(); !tc.IsZero() {
+			dm.StartTimecode = tc
+		}
+		if !x.Speed.FileSampleRate.IsZero() {
+			dm.AudioSampleRate = x.Speed.FileSampleRate.Value()
+		}
 	}
 	return nil
 }
-- 
2.43.0


From ffd6f8680f5e307ede3dedcd6e7c96c152f2097d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:29 +0000
Subject: [PATCH 029/121] fix: parse id3 genre lists item by item and id3 v2.3
 dates as day and month

---
 models/id3/types.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/models/id3/types.go b/models/id3/types.go
index f8e2460..46100f2 100644
--- a/models/id3/types.go
+++ b/models/id3/types.go
@@ -35,7 +35,7 @@ import (
 
 const (
 	TIME_FORMAT_23 = "1504" // HHMM
-	DATE_FORMAT_23 = "0102" // DDMM
+	DATE_FORMAT_23 = "0201" // DDMM
 )
 
 type Bool int // 0 no, 1 yes
@@ -145,21 +145,23 @@ type Genre []string
 
 func (x *Genre) UnmarshalText(data []byte) error {
 	value := string(data)
+	l := make(Genre, 0)
 	for _, v := range strings.Split(value, ",") {
 		v = strings.TrimSpace(v)
 		if g, err := ParseGenreV1(v); err == nil {
-			*x = append(*x, g.String())
+			l = append(l, g.String())
 			continue
 		}
-		switch value {
+		switch v {
 		case "RX":
-			*x = append(*x, "Remix")
+			l = append(l, "Remix")
 		case "CR":
-			*x = append(*x, "Cover")
+			l = append(l, "Cover")
 		default:
-			*x = append(*x, value)
+			l = append(l, v)
 		}
 	}
+	*x = l
 	return nil
 }
 
-- 
2.43.0


From ea5a73d9897fe985dddeae5219d2def17ac811f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 030/121] fix: keep id3 track and set totals and do not panic
 on v2.3 dates when synchronising

---
 models/id3/model.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/models/id3/model.go b/models/id3/model.go
index 1621a9e..f63bec2 100644
--- a/models/id3/model.go
+++ b/models/id3/model.go
@@ -113,7 +113,7 @@ func (x *ID3) SyncFromXMP(d *xmp.Document) error {
 				return err
 			}
 		}
-		if dm.TrackNumber > 0 {
+		if dm.TrackNumber > 0 && dm.TrackNumber != x.TrackNumber.Track {
 			x.TrackNumber = TrackNum{
 				Track: dm.TrackNumber,
 			}
@@ -129,7 +129,7 @@ func (x *ID3) SyncFromXMP(d *xmp.Document) error {
 		if dm.Engineer != "" {
 			x.ModifiedBy = dm.Engineer
 		}
-		if dm.DiscNumber > 0 {
+		if dm.DiscNumber > 0 && dm.DiscNumber != x.PartOfASet.Track {
 			x.PartOfASet = TrackNum{
 				Track: dm.DiscNumber,
 			}
@@ -169,7 +169,7 @@ func (x ID3) SyncToXMP(d *xmp.Document) error {
 	if x.RecordingTime.IsZero() && !x.Date_v23.IsZero() && !x.Time_v23.IsZero() {
 		_, mm, dd := x.Date_v23.Value().Date()
 		h, m, s := x.Time_v23.Value().Clock()
-		x.RecordingTime = xmp.Date(time.Date(x.Year_v23, mm, dd, h, m, s, 0, nil))
+		x.RecordingTime = xmp.Date(time.Date(x.Year_v23, mm, dd, h, m, s, 0, time.UTC))
 	}
 	if !x.RecordingTime.IsZero() {
 		base, err := xmpbase.MakeModel(d)
-- 
2.43.0


From c8744978d25b17aded9f1491eebe2a524e6b446b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 031/121] fix: keep multi-line id3 lyrics that agree with the
 dynamic media lyrics

---
 models/id3/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/id3/model.go b/models/id3/model.go
index f63bec2..f5a0471 100644
--- a/models/id3/model.go
+++ b/models/id3/model.go
@@ -134,7 +134,7 @@ func (x *ID3) SyncFromXMP(d *xmp.Document) error {
 				Track: dm.DiscNumber,
 			}
 		}
-		if dm.Lyrics != "" {
+		if dm.Lyrics != "" && dm.Lyrics != strings.Join(x.UnsynchronizedLyrics, "\n") {
 			x.UnsynchronizedLyrics = strings.Split(dm.Lyrics, "\n")
 		}
 	}
-- 
2.43.0


From e4f4040bc2af22e0e666688021d7da3764ab8d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 032/121] fix: read split text completely and limit the nesting
 of XML input

---
 xmp/node.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index 8aec5eb..0b39e9c 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -28,6 +28,9 @@ var (
 	errNotFound                          = errors.New("not found")
 )
 
+// limits nesting of untrusted XML because most tree operations are recursive
+const maxNodeDepth = 1000
+
 type Node struct {
 	XMLName xml.Name // node name and namespace
 	Attr    AttrList // captures all unbound attributes and XMP qualifiers
@@ -365,7 +368,15 @@ func (n *Node) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
 }
 
 func (n *Node) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+	return n.unmarshalXML(d, start, 0)
+}
+
+func (n *Node) unmarshalXML(d *xml.Decoder, start xml.StartElement, depth int) error {
+	if depth > maxNodeDepth {
+		return errors.New("xmp: exceeded max node depth")
+	}
 	var nodes []*Node
+	var value []byte
 	var done bool
 	for !done {
 		t, err := d.Token()
@@ -374,17 +385,21 @@ func (n *Node) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 		switch t := t.(type) {
 		case xml.CharData:
-			n.Value = strings.TrimSpace(string(t))
+			// text may be split by comments and other markup
+			value = append(value, t...)
 		case xml.StartElement:
 			x := NewNode(emptyName)
-			x.UnmarshalXML(d, t)
 			nodes = append(nodes, x)
+			if err := x.unmarshalXML(d, t, depth+1); err != nil {
+				return err
+			}
 		case xml.EndElement:
 			done = true
 		}
 	}
 	n.XMLName = start.Name
 	n.Attr.From(start.Attr)
+	n.Value = strings.TrimSpace(string(value))
 	n.Nodes = nodes
 	return nil
 }
-- 
2.43.0


From 298be136e208d30061ad23796d05c9b4919fc8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 033/121] fix: collect namespaces declared on any element, keep
 unknown namespaces apart

---
 xmp/unmarshal.go | 53 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 4087263..509a9d0 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -100,12 +100,8 @@ func (d *Decoder) Decode(x *Document) error {
 		return fmt.Errorf("xmp: invalid XML format: missing rdf:RDF node, found %s:%s", root.Namespace(), root.Name())
 	}
 
-	// 3  extract document namespaces
-	for _, n := range root.Nodes {
-		for _, v := range n.GetAttr("xmlns", "") {
-			d.addNamespace(v.Name.Local, v.Value)
-		}
-	}
+	// 3  extract document namespaces, these may be declared on any element
+	d.collectNamespaces(gc)
 
 	// 4  walk node tree and create model instances
 	for _, n := range root.Nodes {
@@ -384,6 +380,43 @@ func (d *Decoder) addNamespace(prefix, uri string) {
 	}
 }
 
+// Walk all namespace declarations in a node tree. Unknown namespaces without
+// prefix and those using the prefix of another namespace get a unique prefix
+// because XMP names are made of prefixes.
+func (d *Decoder) collectNamespaces(n *Node) {
+	for _, v := range n.Attr {
+		prefix, uri := v.Name.Local, v.Value
+		switch {
+		case v.Name.Space == "xmlns":
+		case v.Name.Space == "" && v.Name.Local == "xmlns":
+			prefix = "ns"
+		default:
+			continue
+		}
+		switch uri {
+		case "", nsRDF.GetURI(), nsXML.GetURI(), nsX.GetURI():
+			continue
+		}
+		if NsRegistry.GetPrefix(uri) == "" && d._findNsByURI(uri) == nil {
+			base := prefix
+			for i := 1; d.isPrefixInUse(prefix); i++ {
+				prefix = base + strconv.Itoa(i)
+			}
+		}
+		d.addNamespace(prefix, uri)
+	}
+	for _, v := range n.Nodes {
+		d.collectNamespaces(v)
+	}
+}
+
+func (d *Decoder) isPrefixInUse(prefix string) bool {
+	if _, err := NsRegistry.GetNamespace(prefix); err == nil {
+		return true
+	}
+	return d._findNsByPrefix(prefix) != nil
+}
+
 func (d Decoder) _findNsByURI(uri string) *Namespace {
 	if v, ok := d.intNsMap[uri]; ok {
 		return v
@@ -409,14 +442,10 @@ func (d Decoder) _findNsByPrefix(pre string) *Namespace {
 }
 
 func (d Decoder) findNs(n xml.Name) *Namespace {
-	var ns *Namespace
 	if len(n.Space) > 0 {
-		ns = d._findNsByURI(n.Space)
-	}
-	if ns == nil {
-		ns = d._findNsByPrefix(getPrefix(n.Local))
+		return d._findNsByURI(n.Space)
 	}
-	return ns
+	return d._findNsByPrefix(getPrefix(n.Local))
 }
 
 func (d *Decoder) findStructField(val reflect.Value, name string) (*fieldInfo, reflect.Value) {
-- 
2.43.0


From 4da8567cfc47246cba2e733a00d1b32a2b3b96bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:51 +0000
Subject: [PATCH 034/121] fix: do not write namespace declarations of unknown
 properties as attributes

---
 xmp/unmarshal.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 509a9d0..4352223 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -382,15 +382,19 @@ func (d *Decoder) addNamespace(prefix, uri string) {
 
 // Walk all namespace declarations in a node tree. Unknown namespaces without
 // prefix and those using the prefix of another namespace get a unique prefix
-// because XMP names are made of prefixes.
+// because XMP names are made of prefixes. Declarations are removed from the tree
+// since names are translated to XMP prefixes on reading.
 func (d *Decoder) collectNamespaces(n *Node) {
-	for _, v := range n.Attr {
+	attr := n.Attr
+	n.Attr = make(AttrList, 0, len(attr))
+	for _, v := range attr {
 		prefix, uri := v.Name.Local, v.Value
 		switch {
 		case v.Name.Space == "xmlns":
 		case v.Name.Space == "" && v.Name.Local == "xmlns":
 			prefix = "ns"
 		default:
+			n.Attr = append(n.Attr, v)
 			continue
 		}
 		switch uri {
-- 
2.43.0


From e2f4370f9904494fce6d72c01d427d5378048272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 035/121] fix: unwrap inner descriptions of unknown structures,
 write unknown structures as resources

---
 xmp/json.go      |  2 +-
 xmp/marshal.go   |  2 +-
 xmp/node.go      | 55 ++++++++++++++++++++++++++++++++++++++++++++++++
 xmp/unmarshal.go |  1 +
 4 files changed, 58 insertions(+), 2 deletions(-)

diff --git a/xmp/json.go b/xmp/json.go
index 59931ce..6022854 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -81,7 +81,7 @@ func (d *Document) MarshalJSON() ([]byte, error) {
 			node = NewNode(n.XMLName)
 			e.root.AddNode(node)
 		}
-		node.Nodes = append(node.Nodes, copyNodes(n.Nodes)...)
+		node.Nodes = append(node.Nodes, copyExternalNodes(n.Nodes)...)
 
 		// 1.3  merge external attributes (Note: all ext attr collected under a
 		//      document node belong to the same namespace)
diff --git a/xmp/marshal.go b/xmp/marshal.go
index 11fcda8..8ae7273 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -176,7 +176,7 @@ func (e *Encoder) Encode(d *Document) error {
 			node = NewNode(n.XMLName)
 			e.root.AddNode(node)
 		}
-		node.Nodes = append(node.Nodes, copyNodes(n.Nodes)...)
+		node.Nodes = append(node.Nodes, copyExternalNodes(n.Nodes)...)
 
 		// 1.3  merge external attributes (Note: all ext attr collected under a
 		//      document node belong to the same namespace)
diff --git a/xmp/node.go b/xmp/node.go
index 0b39e9c..86f09ac 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -138,6 +138,61 @@ func copyNodes(x NodeList) NodeList {
 	return l
 }
 
+// Copies nodes without model for output and marks structures as resources.
+func copyExternalNode(x *Node) *Node {
+	n := copyNode(x)
+	n.markStructs()
+	return n
+}
+
+func copyExternalNodes(x NodeList) NodeList {
+	l := make(NodeList, 0, len(x))
+	for _, v := range x {
+		l = append(l, copyExternalNode(v))
+	}
+	return l
+}
+
+func (n *Node) markStructs() {
+	isStruct := len(n.Nodes) > 0 && !n.IsArray()
+	for _, v := range n.Nodes {
+		v.markStructs()
+		switch v.FullName() {
+		case "rdf:Description", "rdf:li":
+			isStruct = false
+		}
+	}
+	if isStruct && len(n.GetAttr("", "parseType")) == 0 {
+		n.AddAttr(rdfResourceAttr)
+	}
+}
+
+// Structures may be written as inner rdf:Description. Since this is equivalent
+// to rdf:parseType="Resource" we only keep the structure's fields.
+func (n *Node) unwrapStructs() {
+	if len(n.Nodes) == 1 && n.Nodes[0].FullName() == "rdf:Description" {
+		desc := n.Nodes[0]
+		fields := make(NodeList, 0, len(desc.Attr)+len(desc.Nodes))
+		for _, v := range desc.Attr {
+			if getPrefix(v.Name.Local) == nsRDF.GetName() {
+				continue
+			}
+			if getPrefix(v.Name.Local) == nsXML.GetName() {
+				n.AddAttr(v)
+				continue
+			}
+			field := NewNode(v.Name)
+			field.Value = v.Value
+			fields = append(fields, field)
+		}
+		n.Nodes = append(fields, desc.Nodes...)
+		n.AddAttr(rdfResourceAttr)
+	}
+	for _, v := range n.Nodes {
+		v.unwrapStructs()
+	}
+}
+
 type NodeList []*Node
 
 func (x *NodeList) AddNode(n *Node) *Node {
diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 4352223..d9bb071 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -167,6 +167,7 @@ func (d *Decoder) decodeNode(ctx *NodeList, src *Node) error {
 	// capture the node and its children into the selected node
 	if storeNode {
 		src.translate(d)
+		src.unwrapStructs()
 		if !src.IsZero() {
 			node.AddNode(copyNode(src))
 			Log.Debugf("xmp: missing struct field for %s, saving as external node in %s model", name, node.FullName())
-- 
2.43.0


From 9173693440d341ac30c533399c5e34820a36e633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 036/121] fix: malformed language alternatives in JSON no
 longer panic, keep default without language

---
 xmp/json.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/xmp/json.go b/xmp/json.go
index 6022854..d45c8c6 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -196,16 +196,16 @@ func nodeToJson(n *Node) (interface{}, error) {
 					a = append(a, ai)
 				}
 				// mark the default item
-				if defLangContent != "" && len(a) > 1 {
+				if defLangIndex > -1 {
+					a[defLangIndex].Lang = ""
 					for i, l := 0, len(a); i < l; i++ {
-						if a[i].Value == defLangContent {
+						if i != defLangIndex && a[i].Value == defLangContent {
 							a[i].IsDefault = true
+							// remove the duplicate default element
+							a = append(a[:defLangIndex], a[defLangIndex+1:]...)
+							break
 						}
 					}
-					// remove the duplicate default element
-					if defLangIndex > -1 {
-						a = append(a[:defLangIndex], a[defLangIndex+1:]...)
-					}
 				}
 				return a, nil
 			}
@@ -328,10 +328,10 @@ func jsonToNode(name string, v interface{}, node *Node) {
 			linode := NewNode(xml.Name{Space: nsRDF.GetURI(), Local: "li"})
 			anode.Nodes = append(anode.Nodes, linode)
 			if typ == ArrayTypeAlternative {
-				item := av.(map[string]interface{})
-				def := item["isDefault"].(bool)
-				lang := item["lang"].(string)
-				val := item["value"].(string)
+				item, _ := av.(map[string]interface{})
+				def, _ := item["isDefault"].(bool)
+				lang, _ := item["lang"].(string)
+				val, _ := item["value"].(string)
 
 				// add single node when default || !default && lang != ""
 				if def || !def && lang != "" {
-- 
2.43.0


From 8c835ea5875eb9e02cbac6fc13d00c4ec1ce7b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:08 +0000
Subject: [PATCH 037/121] fix: keep qualifiers of simple values and items
 without language in JSON, read JSON in stable order

---
 xmp/json.go | 88 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 55 insertions(+), 33 deletions(-)

diff --git a/xmp/json.go b/xmp/json.go
index d45c8c6..72e2ce9 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -19,6 +19,7 @@ import (
 	"encoding/xml"
 	"fmt"
 	"reflect"
+	"sort"
 	"strconv"
 )
 
@@ -122,12 +123,14 @@ func (d *Document) MarshalJSON() ([]byte, error) {
 
 func nodeToJson(n *Node) (interface{}, error) {
 	// process value leaf nodes (Note: value and model are mutually exclusive)
+	out := make(map[string]interface{})
 	if n.Value != "" {
-		return &n.Value, nil
+		if len(n.Attr) == 0 && len(n.Nodes) == 0 {
+			return &n.Value, nil
+		}
+		out["rdf:value"] = n.Value
 	}
 
-	out := make(map[string]interface{})
-
 	// add node attributes
 	for _, v := range n.Attr {
 		name := v.Name.Local
@@ -146,17 +149,11 @@ func nodeToJson(n *Node) (interface{}, error) {
 			// skip outer node and unwrap inner li nodes as array elements
 			a := make([]interface{}, 0)
 			for _, vv := range v.Nodes {
-				if vv.Value != "" {
-					// simple lists (i.e. string lists or numbers etc)
-					a = append(a, &vv.Value)
+				// simple lists (i.e. string lists or numbers etc) or object lists
+				if m, err := nodeToJson(vv); err != nil {
+					return nil, err
 				} else {
-					// object lists
-					// m := make(map[string]interface{})
-					if m, err := nodeToJson(vv); err != nil {
-						return nil, err
-					} else {
-						a = append(a, m)
-					}
+					a = append(a, m)
 				}
 			}
 			return a, nil
@@ -250,15 +247,21 @@ func (d *Document) UnmarshalJSON(data []byte) error {
 	// build node tree from JSON models
 	root := NewNode(emptyName)
 	defer root.Close()
-	for name, b := range in.Models {
+	names := make([]string, 0, len(in.Models))
+	for name := range in.Models {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		b := in.Models[name]
 		node := NewNode(xml.Name{Local: name})
 		root.Nodes = append(root.Nodes, node)
 		content := make(map[string]interface{})
 		if err := json.Unmarshal(b, &content); err != nil {
 			return fmt.Errorf("xmp: json unmarshal model '%s' failed: %v", name, err)
 		}
-		for n, v := range content {
-			jsonToNode(n, v, node)
+		for _, n := range sortedKeys(content) {
+			jsonToNode(n, content[n], node)
 		}
 	}
 
@@ -301,7 +304,9 @@ func jsonToNode(name string, v interface{}, node *Node) {
 		case nil:
 			return
 		}
-		if name != "" && name != "rdf:value" {
+		if name != "rdf:value" && isQualifier(name) {
+			node.AddStringAttr(name, s)
+		} else if name != "" && name != "rdf:value" {
 			// add simple values as child nodes with string value
 			attrNode := NewNode(xml.Name{Local: name})
 			attrNode.Value = s
@@ -333,21 +338,17 @@ func jsonToNode(name string, v interface{}, node *Node) {
 				lang, _ := item["lang"].(string)
 				val, _ := item["value"].(string)
 
-				// add single node when default || !default && lang != ""
-				if def || !def && lang != "" {
-					if def {
-						linode.Attr = append(linode.Attr, Attr{
-							Name:  xml.Name{Local: "xml:lang"},
-							Value: "x-default",
-						})
-						linode.Value = val
-					} else {
-						linode.Attr = append(linode.Attr, Attr{
-							Name:  xml.Name{Local: "xml:lang"},
-							Value: lang,
-						})
-						linode.Value = val
-					}
+				linode.Value = val
+				if def {
+					linode.Attr = append(linode.Attr, Attr{
+						Name:  xml.Name{Local: "xml:lang"},
+						Value: "x-default",
+					})
+				} else if lang != "" {
+					linode.Attr = append(linode.Attr, Attr{
+						Name:  xml.Name{Local: "xml:lang"},
+						Value: lang,
+					})
 				}
 
 				// add second node for default && lang != ""
@@ -372,7 +373,9 @@ func jsonToNode(name string, v interface{}, node *Node) {
 			onode = NewNode(xml.Name{Local: name})
 			node.Nodes = append(node.Nodes, onode)
 		}
-		for on, ov := range v.(map[string]interface{}) {
+		content := v.(map[string]interface{})
+		for _, on := range sortedKeys(content) {
+			ov := content[on]
 			if isArrayItemType(v) && on == "value" {
 				jsonToNode("", ov, onode)
 			} else {
@@ -383,6 +386,25 @@ func jsonToNode(name string, v interface{}, node *Node) {
 }
 
 // JSON unmarshal helpers
+// RDF and XML qualifiers (e.g. xml:lang, rdf:resource) are always attributes
+func isQualifier(name string) bool {
+	if !hasPrefix(name) {
+		return false
+	}
+	prefix := getPrefix(name)
+	return prefix == nsRDF.GetName() || prefix == nsXML.GetName()
+}
+
+// make the order of generated nodes stable
+func sortedKeys(m map[string]interface{}) []string {
+	l := make([]string, 0, len(m))
+	for k := range m {
+		l = append(l, k)
+	}
+	sort.Strings(l)
+	return l
+}
+
 func isSimpleValue(v interface{}) bool {
 	switch v.(type) {
 	case string, float64, bool, nil:
-- 
2.43.0


From fbe3bb036ca5d74fbd56b3f15f5db543358ca3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:24 +0000
Subject: [PATCH 038/121] fix: read arrays in arrays from JSON

---
 xmp/json.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/xmp/json.go b/xmp/json.go
index 72e2ce9..829be46 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -317,14 +317,13 @@ func jsonToNode(name string, v interface{}, node *Node) {
 		}
 
 	case isArrayValue(v):
-		// arrays of arrays are not supported in XMP
-		if name == "" {
-			return
+		// add arrays as Seq/li or Alt/li child nodes, arrays in arrays (e.g. lists
+		// of language alternatives) have no name
+		containerNode := node
+		if name != "" {
+			containerNode = NewNode(xml.Name{Local: name})
+			node.Nodes = append(node.Nodes, containerNode)
 		}
-
-		// add arrays as Seq/li or Alt/li child nodes
-		containerNode := NewNode(xml.Name{Local: name})
-		node.Nodes = append(node.Nodes, containerNode)
 		typ := getArrayType(v)
 		anode := NewNode(xml.Name{Space: nsRDF.GetURI(), Local: string(typ)})
 		containerNode.Nodes = append(containerNode.Nodes, anode)
-- 
2.43.0


From 72b70dfc1588ead1c971d90b76461b1e9c307859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:28 +0000
Subject: [PATCH 039/121] fix: write alternatives without language instead of
 failing

---
 xmp/array.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/xmp/array.go b/xmp/array.go
index aa3ce1a..c37a5dc 100644
--- a/xmp/array.go
+++ b/xmp/array.go
@@ -581,8 +581,6 @@ func MarshalArray(e *Encoder, node *Node, typ ArrayType, items interface{}) erro
 				// for any non-default items, add just xml:lang
 				if ai.Lang != "" {
 					elem.AddStringAttr("xml:lang", ai.Lang)
-				} else {
-					return fmt.Errorf("xmp: language required for alternative array item '%v'", node.FullName())
 				}
 			}
 
-- 
2.43.0


From deec95623cb3c0465e5e45e710422f884290bce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:32 +0000
Subject: [PATCH 040/121] fix: the default entry of a language alternative can
 be read, set and removed by path

---
 xmp/array.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/xmp/array.go b/xmp/array.go
index c37a5dc..3f453d1 100644
--- a/xmp/array.go
+++ b/xmp/array.go
@@ -58,11 +58,14 @@ func (x *AltItem) UnmarshalText(data []byte) error {
 
 func (x AltItem) GetLang() string {
 	if x.Lang == "" && x.IsDefault {
-		return "x-default"
+		return defaultLang
 	}
 	return x.Lang
 }
 
+// language of default items in paths and XML
+const defaultLang = "x-default"
+
 type AltString []AltItem
 
 func (x AltString) IsZero() bool {
@@ -137,7 +140,7 @@ func (a AltString) Index(lang string) int {
 }
 
 func (a AltString) Get(lang string) string {
-	if lang == "" {
+	if lang == "" || lang == defaultLang {
 		return a.Default()
 	}
 	for _, v := range a {
@@ -194,6 +197,15 @@ func (a *AltString) Set(lang string, value string) {
 	if value == "" {
 		return
 	}
+	if lang == defaultLang {
+		// the default item may as well have a language
+		if len(*a) > 0 && (*a)[0].IsDefault && (*a)[0].Lang == "" {
+			(*a)[0].Value = value
+		} else {
+			a.AddDefault("", value)
+		}
+		return
+	}
 	if i := a.Index(lang); i > -1 {
 		(*a)[i].Value = value
 	} else {
@@ -204,7 +216,7 @@ func (a *AltString) Set(lang string, value string) {
 func (a *AltString) RemoveLang(lang string) {
 	idx := -1
 	for i, v := range *a {
-		if v.Lang == lang {
+		if v.Lang == lang || lang == defaultLang && v.Lang == "" && v.IsDefault {
 			idx = i
 			break
 		}
-- 
2.43.0


From 705896c10a1e7d08260f98968d02dc2cdb152926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:18 +0000
Subject: [PATCH 041/121] fix: path writes that fail or are not permitted leave
 no namespace behind, deleting a namespace by path stops there

---
 xmp/path.go | 63 ++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 23 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index 11bda49..d13a010 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -449,6 +449,13 @@ func (d *Document) SetPath(desc PathValue) error {
 		return fmt.Errorf("xmp: invalid path '%s'", path.String())
 	}
 
+	fail := func(err error) error {
+		if flags&NOFAIL > 0 {
+			return nil
+		}
+		return err
+	}
+
 	ns, err := path.Namespace(d)
 	if ns == nil || err != nil {
 		if desc.Namespace != "" {
@@ -459,14 +466,31 @@ func (d *Document) SetPath(desc PathValue) error {
 		}
 	}
 
+	// empty source will only be used with delete flag
+	if value == "" && flags&DELETE == 0 {
+		return fail(fmt.Errorf("xmp: delete flag required for empty '%s'", path.String()))
+	}
+
+	// delete model when only namespace is set
+	if path.Len() == 0 && value == "" {
+		d.RemoveNamespace(ns)
+		return nil
+	}
+
 	m := d.FindModel(ns)
 	n := d.FindNode(ns)
-	if m == nil && n == nil && flags&CREATE == 0 {
-		if flags&NOFAIL > 0 {
+	if m == nil && n == nil {
+		// nothing to delete
+		if value == "" {
 			return nil
 		}
-		return fmt.Errorf("xmp: create flag required to make model for '%s'", path.String())
+		if flags&CREATE == 0 {
+			return fail(fmt.Errorf("xmp: create flag required to make model for '%s'", path.String()))
+		}
 	}
+
+	// create model or node for the namespace, but only keep it on success
+	isNew := n == nil
 	if m == nil {
 		m = ns.NewModel()
 		if m != nil {
@@ -474,24 +498,27 @@ func (d *Document) SetPath(desc PathValue) error {
 		}
 	}
 	if m == nil && n == nil {
-		n = d.nodes.AddNode(NewNode(ns.RootName()))
+		n = d.nodes.AppendNode(NewNode(ns.RootName()))
 	}
 
-	// empty source will only be used with delete flag
-	if value == "" && flags&DELETE == 0 {
-		if flags&NOFAIL > 0 {
-			return nil
-		}
-		return fmt.Errorf("xmp: delete flag required for empty '%s'", path.String())
+	// only make sure the namespace exists
+	if path.Len() == 0 {
+		return nil
 	}
 
-	// delete model when only namespace is set
-	if path.Len() == 0 && flags&DELETE > 0 {
-		d.RemoveNamespace(ns)
+	if err := d.setNodePath(m, n, path, value, flags); err != nil {
+		if isNew {
+			d.nodes.RemoveNode(n)
+		}
+		return fail(err)
 	}
+	return nil
+}
 
+func (d *Document) setNodePath(m Model, n *Node, path Path, value string, flags SyncFlags) error {
 	// get current version of path value
 	var dest string
+	var err error
 	if m != nil {
 		dest, err = GetModelPath(m, path)
 	}
@@ -509,17 +536,11 @@ func (d *Document) SetPath(desc PathValue) error {
 
 	// empty destination values require create flag
 	if dest == "" && flags&(CREATE|APPEND|UNIQUE) == 0 {
-		if flags&NOFAIL > 0 {
-			return nil
-		}
 		return fmt.Errorf("xmp: create flag required to make new attribute at '%s'", path.String())
 	}
 
 	// existing destination values require replace/delete/append/unique flag
 	if dest != "" && flags&(REPLACE|DELETE|APPEND|UNIQUE) == 0 {
-		if flags&NOFAIL > 0 {
-			return nil
-		}
 		return fmt.Errorf("xmp: update flag required to change existing attribute at '%s'", path.String())
 	}
 
@@ -533,10 +554,6 @@ func (d *Document) SetPath(desc PathValue) error {
 	if err == nil {
 		d.SetDirty()
 	}
-
-	if flags&NOFAIL > 0 {
-		return nil
-	}
 	return err
 }
 
-- 
2.43.0


From c940490962759bc922a4e380a5feb500a59b3cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:26 +0000
Subject: [PATCH 042/121] fix: path writes into models respect REPLACE for list
 items and languages, are undone on error, and reach all extension content

---
 xmp/path.go    | 249 +++++++++++++++++++++++++++----------------------
 xmp/xmp_ext.go |   7 +-
 2 files changed, 144 insertions(+), 112 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index d13a010..56171fd 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -23,6 +23,9 @@ import (
 	"strings"
 )
 
+// limits the growth of lists on path writes
+const maxPathIndex = 1<<20 - 1
+
 type Path string
 
 type PathValue struct {
@@ -335,6 +338,10 @@ func GetModelPath(v Model, path Path) (string, error) {
 		if isArray {
 			switch arr := av.Interface().(type) {
 			case ExtensionArray:
+				// sanitize array index
+				if idx < 0 {
+					idx = 0
+				}
 				if walker.Len() == 0 || fv.Len() <= idx {
 					return "", errNotFound
 				}
@@ -345,8 +352,10 @@ func GetModelPath(v Model, path Path) (string, error) {
 					return "", errNotFound
 				}
 				if node.Model != nil {
-					val = reflect.Indirect(reflect.ValueOf(node.Model))
-					continue
+					// paths without matching field are stored as child node
+					if s, err := GetModelPath(node.Model, walker); err != errNotFound {
+						return s, err
+					}
 				}
 				return node.GetPath(walker)
 
@@ -558,6 +567,18 @@ func (d *Document) setNodePath(m Model, n *Node, path Path, value string, flags
 }
 
 func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
+	// containers created along the path are removed on error
+	var undo []func()
+	err := setModelPath(v, path, value, flags, &undo)
+	if err != nil {
+		for i := len(undo) - 1; i >= 0; i-- {
+			undo[i]()
+		}
+	}
+	return err
+}
+
+func setModelPath(v Model, path Path, value string, flags SyncFlags, undo *[]func()) error {
 	if flags == 0 {
 		flags = DEFAULT
 	}
@@ -588,6 +609,8 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 			return nil
 		}
 		if fv.Type().Kind() == reflect.Ptr && fv.IsNil() && fv.CanSet() {
+			pv := fv
+			*undo = append(*undo, func() { pv.Set(reflect.Zero(pv.Type())) })
 			fv.Set(reflect.New(fv.Type().Elem()))
 		}
 		fv = derefValue(fv)
@@ -619,7 +642,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 			switch {
 			case flags&DELETE > 0 && value == "":
 				// remove map value
-				fv.SetMapIndex(reflect.ValueOf(name), reflect.Zero(t.Elem()))
+				fv.SetMapIndex(reflect.ValueOf(name).Convert(t.Key()), reflect.Value{})
 				return nil
 			case flags&(REPLACE|CREATE) > 0 && value != "":
 				// set map value
@@ -679,9 +702,18 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 
 				// add empty nodes up to idx if necessary
 				if l := len(*arr); l <= idx {
-					if flags&(CREATE|APPEND) == 0 && value != "" {
+					if value == "" {
+						// would be deleting smth inside a non-existent element
+						return nil
+					}
+					if flags&(CREATE|APPEND) == 0 {
 						return fmt.Errorf("CREATE flag required to add extension %s on path %s", name, path)
 					}
+					if idx > maxPathIndex {
+						return fmt.Errorf("index %d out of range on path %s", idx, path)
+					}
+					old := *arr
+					*undo = append(*undo, func() { *arr = old })
 					// grow slice and fill with initialized nodes
 					for ; l <= idx; l++ {
 						*arr = append(*arr, (*Extension)(NewNode(EmptyName)))
@@ -692,45 +724,25 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 				ext := (*arr)[idx]
 				node := (*Node)(ext)
 
-				// there is two types of extensions
-				if node.Name() != "" || node.FullName() == "rdf:Description" {
-					// Type 1: model and nodes on top-level (name not empty)
-					node = ext.FindNodeByName(name)
-					if node == nil {
-						if ns, err := GetNamespace(name); err == nil {
-							node.Model = ns.NewModel()
-						}
-					}
-					if node.Model != nil {
-						// FIXME: when the model does not contain the path we might
-						// want to store it as child node, however, the for{} loop
-						// allows no back-tracking on error
-						val = reflect.Indirect(reflect.ValueOf(node.Model))
-						continue
+				// models and other nodes are stored per namespace
+				child := ext.FindNodeByName(name)
+				if child == nil {
+					child = node.AddNode(NewNode(NewName(name)))
+					*undo = append(*undo, func() { node.RemoveNode(child) })
+					if ns, err := GetNamespace(name); err == nil {
+						child.Model = ns.NewModel()
 					}
-					// store as child node
-					return node.SetPath(walker, value, flags)
-				} else {
-					// Type 2: models on child level (empty name); used for xmpMM:Pantry
-					child := node.Nodes.FindNodeByName(name)
-					if child == nil {
-						child = node.AddNode(NewNode(NewName(name)))
-					}
-					if child.Model == nil {
-						if ns, err := GetNamespace(name); err == nil {
-							child.Model = ns.NewModel()
-						}
-					}
-					if child.Model != nil {
-						// FIXME: when the model does not contain the path we might
-						// want to store it as extension model child node. however,
-						// the for{} loop allows no back-tracking on error
-						val = reflect.Indirect(reflect.ValueOf(child.Model))
-						continue
+				}
+				if child.Model != nil {
+					// paths without matching field are stored as child node
+					err := setModelPath(child.Model, walker, value, flags, undo)
+					if err == errNotFound {
+						err = child.SetPath(walker, value, flags)
 					}
-					// store as child node
-					return child.SetPath(NewPath(name, walker.Fields()...), value, flags)
+					return err
 				}
+				// store as child node
+				return child.SetPath(NewPath(name, walker.Fields()...), value, flags)
 
 			case *NamedExtensionArray:
 				// Named extensions do not contain models
@@ -744,35 +756,35 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 					}
 					node = NewNode(NewName(name))
 					ext := (*Extension)(node)
-					fv.Set(reflect.Append(fv, reflect.ValueOf(ext)))
+					old := *arr
+					*undo = append(*undo, func() { *arr = old })
+					*arr = append(*arr, ext)
 				}
 				// store as child node
 				return node.SetPath(walker, value, flags)
 
 			case *AltString:
+				// every language exists only once
+				cur := arr.Get(lang)
 				switch {
-				case flags&UNIQUE > 0 && value != "":
-					// append source when not exist
-					if !arr.AddUnique(lang, value) {
-						return fmt.Errorf("equal value exists for %s on path %s", name, path)
-					}
-				case flags&APPEND > 0 && value != "":
-					// append source value
-					arr.Add(lang, value)
-				case flags&(REPLACE|CREATE) > 0 && value != "":
+				case value != "" && cur == value:
+					return fmt.Errorf("equal value exists for %s on path %s", name, path)
+				case value != "" && cur != "" && flags&REPLACE == 0:
+					return fmt.Errorf("REPLACE flag required for overwriting value at %s on path %s", name, path)
+				case value != "" && lang != "":
+					arr.Set(lang, value)
+				case value != "" && flags&(UNIQUE|APPEND) > 0:
+					// keep other languages
+					arr.Set(defaultLang, value)
+				case value != "":
 					// replace entire AltString with a new version
-					if lang != "" {
-						arr.Set(lang, value)
-					} else {
-						*arr = NewAltString(value)
-					}
-				case flags&DELETE > 0 && value == "":
-					// delete the entire AltString or just a specific language
-					if lang != "" {
-						arr.RemoveLang(lang)
-					} else {
-						fv.Set(reflect.Zero(fv.Type()))
-					}
+					*arr = NewAltString(value)
+				case flags&DELETE > 0 && lang != "":
+					// delete just a specific language
+					arr.RemoveLang(lang)
+				case flags&DELETE > 0:
+					// delete the entire AltString
+					fv.Set(reflect.Zero(fv.Type()))
 				}
 				return nil
 
@@ -798,8 +810,13 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 							return fmt.Errorf("array %s index %d out of bounds", name, idx)
 						}
 
+						if idx > maxPathIndex {
+							return fmt.Errorf("index %d out of range on path %s", idx, path)
+						}
+
 						// add empty items up to idx
-						// FIXME: when an error occurs later on, we cannot remove slice entry
+						sv, l := fv, fv.Len()
+						*undo = append(*undo, func() { sv.SetLen(l) })
 						growSlice(fv, idx)
 						val = reflect.New(fv.Type().Elem())
 						fv.Index(idx).Set(val.Elem())
@@ -859,39 +876,10 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 				case flags&UNIQUE > 0 && value != "" && idx == -1:
 					// append if unique
 					for i, l := 0, fv.Len(); i < l; i++ {
-						v := derefValue(fv.Index(i))
-
-						isText := false
-						vv := v
-						if v.CanInterface() && v.Type().Implements(textMarshalerType) {
-							isText = true
-						} else if v.CanAddr() {
-							pv := v.Addr()
-							if pv.CanInterface() && pv.Type().Implements(textMarshalerType) {
-								vv = pv
-								isText = true
-							}
-						}
-
-						if isText {
-							b, err := vv.Interface().(encoding.TextMarshaler).MarshalText()
-							if err != nil || b == nil {
-								return err
-							}
-							if value == string(b) {
-								return fmt.Errorf("equal value exists for %s on path %s", name, path)
-							}
-						} else {
-							if s, b, err := marshalSimple(v.Type(), v); err != nil {
-								return err
-							} else {
-								if b != nil {
-									s = string(b)
-								}
-								if value == s {
-									return fmt.Errorf("equal value exists for %s on path %s", name, path)
-								}
-							}
+						if cur, err := marshalElem(fv.Index(i)); err != nil {
+							return err
+						} else if cur == value {
+							return fmt.Errorf("equal value exists for %s on path %s", name, path)
 						}
 					}
 
@@ -921,6 +909,9 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 
 				case flags&(REPLACE|CREATE) > 0 && value != "" && idx > -1:
 					// replace or create slice element at index
+					if idx > maxPathIndex {
+						return fmt.Errorf("index %d out of range on path %s", idx, path)
+					}
 					v := reflect.New(fv.Type().Elem())
 					if v.CanInterface() && v.Type().Implements(textUnmarshalerType) {
 						if err := v.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value)); err != nil {
@@ -929,6 +920,25 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 					} else if err := setValue(v, value); err != nil {
 						return err
 					}
+					// without replace flag other elements are kept
+					if idx < fv.Len() && flags&REPLACE == 0 {
+						if cur, err := marshalElem(fv.Index(idx)); err != nil {
+							return err
+						} else if cur != "" {
+							if flags&(UNIQUE|APPEND) == 0 {
+								return fmt.Errorf("REPLACE flag required for overwriting value at %s on path %s", name, path)
+							}
+							for i, l := 0, fv.Len(); i < l && flags&UNIQUE > 0; i++ {
+								if cur, err := marshalElem(fv.Index(i)); err != nil {
+									return err
+								} else if cur == value {
+									return fmt.Errorf("equal value exists for %s on path %s", name, path)
+								}
+							}
+							fv.Set(reflect.Append(fv, v.Elem()))
+							return nil
+						}
+					}
 					// optionally growing the slice
 					growSlice(fv, idx)
 					// overwrite current entry,
@@ -953,14 +963,11 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 					if l <= idx {
 						return fmt.Errorf("slice %s index %d out of bounds", name, idx)
 					}
-					switch {
-					case idx == 0:
-						fv.Set(fv.Slice(1, l))
-					case idx == l-1:
-						fv.Set(fv.Slice(0, idx))
-					default:
-						fv.Set(reflect.AppendSlice(fv.Slice3(0, idx, l-1), fv.Slice(idx+1, l)))
-					}
+					// make a copy because models may share slices
+					nv := reflect.MakeSlice(fv.Type(), 0, l)
+					nv = reflect.AppendSlice(nv, fv.Slice(0, idx))
+					nv = reflect.AppendSlice(nv, fv.Slice(idx+1, l))
+					fv.Set(nv)
 
 				case flags&DELETE > 0 && value == "" && idx == -1:
 					// delete the entire slice
@@ -991,6 +998,27 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 	return nil
 }
 
+// converts a list element to string
+func marshalElem(v reflect.Value) (string, error) {
+	v = derefValue(v)
+	vv := v
+	if v.CanAddr() && !v.Type().Implements(textMarshalerType) {
+		vv = v.Addr()
+	}
+	if vv.CanInterface() && vv.Type().Implements(textMarshalerType) {
+		b, err := vv.Interface().(encoding.TextMarshaler).MarshalText()
+		return string(b), err
+	}
+	s, b, err := marshalSimple(v.Type(), v)
+	if err != nil {
+		return "", err
+	}
+	if b != nil {
+		s = string(b)
+	}
+	return s, nil
+}
+
 func (d *Document) ListPaths() (PathValueList, error) {
 	// sync individual models to establish correct XMP entries
 	if err := d.syncToXMP(); err != nil {
@@ -1114,12 +1142,11 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 								} else {
 									pvl = append(pvl, l...)
 								}
+							}
+							if l, err := child.ListPaths(subpath); err != nil {
+								return nil, err
 							} else {
-								if l, err := child.ListPaths(subpath); err != nil {
-									return nil, err
-								} else {
-									pvl = append(pvl, l...)
-								}
+								pvl = append(pvl, l...)
 							}
 						}
 					} else {
@@ -1299,5 +1326,9 @@ func growSlice(v reflect.Value, n int) {
 			v.Set(nv)
 		}
 		v.SetLen(n + 1)
+		// clear previously removed elements
+		for i := l; i <= n; i++ {
+			v.Index(i).Set(reflect.Zero(v.Type().Elem()))
+		}
 	}
 }
diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index 88a513b..30210e5 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -56,18 +56,19 @@ func (x Extension) MarshalXMP(e *Encoder, node *Node, m Model) error {
 		}
 
 		// unwrap one extra layer that we keep for identifying extensions
-		if x.XMLName.Local == "" {
+		if x.XMLName.Local == "" || ext.Model != nil {
 			for _, child := range ext.Nodes {
 				if child.Model != nil {
 					if err := e.EncodeElement(child.Model, node); err != nil {
 						return err
 					}
 				} else {
-					node.Nodes = append(node.Nodes, copyNode(child))
+					node.Nodes = append(node.Nodes, copyExternalNode(child))
 				}
 			}
+			node.Attr = append(node.Attr, ext.Attr...)
 		} else {
-			node.Nodes = append(node.Nodes, copyNode(ext))
+			node.Nodes = append(node.Nodes, copyExternalNode(ext))
 		}
 	}
 	return nil
-- 
2.43.0


From a86ffb37cc408f8070fb457b4bd8bfa6ab91b28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:10 +0000
Subject: [PATCH 043/121] fix: write contents of unknown namespaces in added
 pantry documents

---
 xmp/node.go    | 5 +++++
 xmp/path.go    | 3 +++
 xmp/xmp_ext.go | 4 ++--
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index 86f09ac..eb994f9 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -272,6 +272,11 @@ func (n *Node) Namespace() string {
 	return ns
 }
 
+// top-level nodes that keep the contents of a single namespace or model
+func (n *Node) isNamespaceNode() bool {
+	return n.Model != nil || n.XMLName.Space == "" && !hasPrefix(n.XMLName.Local)
+}
+
 func (n *Node) Namespaces(d *Document) NamespaceList {
 	m := make(map[string]bool)
 
diff --git a/xmp/path.go b/xmp/path.go
index 56171fd..dac7b95 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -1136,6 +1136,9 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 					}
 					if v.XMLName.Local == "" || (*Node)(v).FullName() == "rdf:Description" {
 						for _, child := range v.Nodes {
+							if !child.isNamespaceNode() {
+								continue
+							}
 							if child.Model != nil {
 								if l, err := listPaths(reflect.ValueOf(child.Model), subpath); err != nil {
 									return nil, err
diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index 30210e5..4a48b7d 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -55,8 +55,8 @@ func (x Extension) MarshalXMP(e *Encoder, node *Node, m Model) error {
 			}
 		}
 
-		// unwrap one extra layer that we keep for identifying extensions
-		if x.XMLName.Local == "" || ext.Model != nil {
+		// unwrap one extra layer that we keep for identifying namespaces
+		if ext.isNamespaceNode() {
 			for _, child := range ext.Nodes {
 				if child.Model != nil {
 					if err := e.EncodeElement(child.Model, node); err != nil {
-- 
2.43.0


From 6080cb2486a1c4523a9351a1ecdc877b28e89953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:33 +0000
Subject: [PATCH 044/121] fix: read and write attributes, list items,
 alternatives and same-named fields of unknown properties by path

---
 xmp/node.go | 526 +++++++++++++++++++++++++++++++---------------------
 xmp/path.go |   6 +-
 2 files changed, 322 insertions(+), 210 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index eb994f9..a8bb519 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -464,7 +464,83 @@ func (n *Node) unmarshalXML(d *xml.Decoder, start xml.StartElement, depth int) e
 	return nil
 }
 
+// prefer children from the same namespace because names are only unique
+// within a namespace
+func (n *Node) findChild(prefix, name string) *Node {
+	for _, v := range n.Nodes {
+		if v.Name() == name && v.Namespace() == prefix {
+			return v
+		}
+	}
+	if n.findAttr(prefix, name, true) != nil {
+		return nil
+	}
+	return n.Nodes.FindNodeByName(name)
+}
+
+func (n *Node) findAttr(prefix, name string, exact bool) *Attr {
+	for i := range n.Attr {
+		a := &n.Attr[i]
+		if stripPrefix(a.Name.Local) == name && getPrefix(a.Name.Local) == prefix {
+			return a
+		}
+	}
+	for i := range n.Attr {
+		if a := &n.Attr[i]; !exact && stripPrefix(a.Name.Local) == name {
+			return a
+		}
+	}
+	return nil
+}
+
+func (n *Node) removeAttr(x *Attr) {
+	l := make(AttrList, 0, len(n.Attr))
+	for i := range n.Attr {
+		if a := &n.Attr[i]; a != x {
+			l = append(l, *a)
+		}
+	}
+	n.Attr = l
+}
+
+// language of an alternative array item
+func (n *Node) lang() string {
+	if attr := n.GetAttr("", "lang"); len(attr) > 0 {
+		return attr[0].Value
+	}
+	return defaultLang
+}
+
+// Returns an item from an array container (i.e. rdf:Seq, rdf:Bag, rdf:Alt) by
+// index or language. Without both, the first or default item is returned.
+func (n *Node) findItem(idx int, lang string) *Node {
+	switch {
+	case idx > -1:
+		if idx < len(n.Nodes) {
+			return n.Nodes[idx]
+		}
+		return nil
+	case lang == "" && n.FullName() != "rdf:Alt":
+		if len(n.Nodes) > 0 {
+			return n.Nodes[0]
+		}
+		return nil
+	case lang == "":
+		lang = defaultLang
+		if n.findItem(-1, lang) == nil && len(n.Nodes) > 0 {
+			return n.Nodes[0]
+		}
+	}
+	for _, v := range n.Nodes {
+		if v.lang() == lang {
+			return v
+		}
+	}
+	return nil
+}
+
 func (n *Node) GetPath(path Path) (string, error) {
+	prefix := path.PeekNamespacePrefix()
 	name, path := path.PopFront()
 	name, idx, lang := parsePathSegment(name)
 	if idx < -1 {
@@ -479,279 +555,315 @@ func (n *Node) GetPath(path Path) (string, error) {
 		return n.GetPath(path)
 	}
 
-	// lookup name in node list or attributes
-	node := n.Nodes.FindNodeByName(stripPrefix(name))
+	// lookup name in node list or attributes, arrays in arrays have no name
+	name = stripPrefix(name)
+	node := n
+	if name != "" {
+		node = n.findChild(prefix, name)
+	}
 	if node != nil {
-		switch {
-		case idx > -1:
-			// drill two levels deep into array nodes bag/seq+li
-			if len(node.Nodes) == 0 || len(node.Nodes[0].Nodes) <= idx {
-				return "", nil
-			}
-			return node.Nodes[0].Nodes[idx].GetPath(path)
-		case lang != "":
-			// drill two levels deep into alt-array nodes alt+li
-			if len(node.Nodes) == 0 || len(node.Nodes[0].Nodes) == 0 {
-				return "", nil
-			}
-			for _, v := range node.Nodes[0].Nodes {
-				attr := v.GetAttr("", "lang")
-				if len(attr) == 0 {
-					continue
-				}
-				if attr[0].Value == string(lang) {
-					return v.Value, nil
-				}
-			}
+		if node.IsArray() {
+			// drill two levels deep into array nodes bag/seq/alt+li
+			node = node.Nodes[0].findItem(idx, lang)
+		} else if idx > 0 || lang != "" {
+			node = nil
+		}
+		if node == nil {
 			return "", nil
-		default:
-			return node.GetPath(path)
 		}
+		return node.GetPath(path)
 	}
 
-	if attr := n.GetAttr("", stripPrefix(name)); len(attr) > 0 {
-		return attr[0].Value, nil
+	if attr := n.findAttr(prefix, name, false); attr != nil && path.Len() == 0 && idx < 1 && lang == "" {
+		return attr.Value, nil
 	}
 	return "", nil
 }
 
 func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
+	prefix := path.PeekNamespacePrefix()
 	name, path := path.PopFront()
 	name, idx, lang := parsePathSegment(name)
 	if idx < -1 {
 		return fmt.Errorf("path field %s: invalid index", name)
 	}
+	if idx > maxPathIndex {
+		return fmt.Errorf("path field %s: index %d out of range", name, idx)
+	}
 
 	// fmt.Printf("Set Node path ns=%s len=%d, path=%s, name=%s rest=%v idx=%d lang=%s\n", path.NamespacePrefix(), path.Len(), path.String(), name, path, idx, lang)
 	if name == "" && idx == -1 && lang == "" {
 		if path.Len() == 0 {
-			n.Value = value
+			return n.setValue(value, flags)
 		}
-		return nil
+		// ignore empty path segments and recurse
+		return n.SetPath(path, value, flags)
+	}
+	name = stripPrefix(name)
+
+	// arrays in arrays have no name
+	if name == "" {
+		return n.setItem(idx, lang, path, value, flags)
 	}
 
+	node := n.findChild(prefix, name)
+
 	// handle attribute
-	if attr := n.GetAttr("", stripPrefix(name)); len(attr) > 0 {
+	if attr := n.findAttr(prefix, name, false); node == nil && attr != nil {
 		switch {
-		case flags&REPLACE > 0 && value != "":
-			attr[0].Value = value
-			return nil
-		case flags&DELETE > 0 && value == "":
-			attr[0].Value = value
-			// will be ignored on next marshal
-			return nil
+		case path.Len() > 0 || idx > -1 || lang != "":
+			return fmt.Errorf("cannot make list or structure from attribute '%s'", name)
+		case value != "" && attr.Value != "" && flags&REPLACE == 0:
+			return fmt.Errorf("REPLACE flag required for overwriting attribute '%s'", name)
+		case value == "" && flags&DELETE == 0:
+			return fmt.Errorf("DELETE flag required to clear attribute '%s'", name)
+		case value == "":
+			n.removeAttr(attr)
+		default:
+			attr.Value = value
 		}
+		return nil
 	}
 
 	// handle nodes
-	node := n.Nodes.FindNodeByName(stripPrefix(name))
 	if node == nil {
-		if flags&CREATE > 0 && value != "" {
-			if name != "" && !hasPrefix(name) {
-				name = path.NamespacePrefix() + ":" + name
-			}
-			node = n.AddNode(NewNode(NewName(name)))
-		} else {
+		if value == "" {
+			// nothing to delete
+			return nil
+		}
+		if flags&(CREATE|APPEND) == 0 {
 			return fmt.Errorf("CREATE flag required to make node '%s'", name)
 		}
+		node = NewNode(NewName(prefix + ":" + name))
+		if err := node.setNode(idx, lang, path, value, flags); err != nil {
+			return err
+		}
+		n.AppendNode(node)
+		return nil
+	}
+
+	err := node.setNode(idx, lang, path, value, flags)
+	if err == nil && value == "" && node.IsZero() {
+		n.RemoveNode(node).Close()
+	}
+	return err
+}
+
+func (n *Node) setNode(idx int, lang string, path Path, value string, flags SyncFlags) error {
+	if idx > -1 || lang != "" || n.IsArray() {
+		return n.setItem(idx, lang, path, value, flags)
+	}
+	if path.Len() > 0 {
+		if n.Value != "" {
+			return fmt.Errorf("cannot make structure from simple value '%s'", n.FullName())
+		}
+		return n.SetPath(path, value, flags)
+	}
+	// appending to a new property makes a list
+	if value != "" && len(n.Nodes) == 0 && n.Value == "" && flags&APPEND > 0 {
+		return n.setItem(idx, lang, path, value, flags)
 	}
+	return n.setValue(value, flags)
+}
+
+// Sets or clears a simple value.
+func (n *Node) setValue(value string, flags SyncFlags) error {
 	switch {
-	case idx > -1 || (node.IsArray() && lang == ""):
-		arr := node.Nodes.FindNodeByName("Seq")
-		if arr == nil {
-			arr = node.Nodes.FindNodeByName("Bag")
+	case value == n.Value && len(n.Nodes) == 0:
+		return nil
+	case value == "" && flags&DELETE == 0:
+		return fmt.Errorf("DELETE flag required to clear value '%s'", n.FullName())
+	case value == "":
+		n.Value = ""
+		n.Clear()
+	case len(n.Nodes) > 0:
+		return fmt.Errorf("cannot overwrite list or structure '%s'", n.FullName())
+	case n.Value != "" && flags&REPLACE == 0:
+		return fmt.Errorf("REPLACE flag required for overwriting value '%s'", n.FullName())
+	default:
+		n.Value = value
+	}
+	return nil
+}
+
+// Sets or clears array items. Creates the array container when missing.
+func (n *Node) setItem(idx int, lang string, path Path, value string, flags SyncFlags) error {
+	if n.Value != "" || len(n.Nodes) > 0 && !n.IsArray() {
+		return fmt.Errorf("cannot make list from value '%s'", n.FullName())
+	}
+	isNew := len(n.Nodes) == 0
+	if isNew {
+		if value == "" {
+			return nil
 		}
-		if arr == nil && flags&CREATE == 0 {
-			return fmt.Errorf("CREATE flag required to make array '%s'", name)
+		if flags&(CREATE|APPEND) == 0 {
+			return fmt.Errorf("CREATE flag required to make array '%s'", n.FullName())
 		}
-		if arr == nil {
-			arr = node.AddNode(NewNode(NewName("rdf:Seq")))
+		typ := "rdf:Seq"
+		if lang != "" {
+			typ = "rdf:Alt"
 		}
+		n.AppendNode(NewNode(NewName(typ)))
+	}
+	arr := n.Nodes[0]
+	size := len(arr.Nodes)
+	err := arr.setArrayItem(idx, lang, path, value, flags)
+	switch {
+	case err != nil && isNew:
+		n.Clear()
+	case err != nil && len(arr.Nodes) > size:
+		arr.Nodes = arr.Nodes[:size]
+	case len(arr.Nodes) == 0:
+		n.Clear()
+	}
+	return err
+}
+
+func (n *Node) appendItem(value, lang string) *Node {
+	li := n.AppendNode(NewNode(NewName("rdf:li")))
+	li.Value = value
+	if lang != "" {
+		li.AddStringAttr("xml:lang", lang)
+	}
+	return li
+}
+
+func (n *Node) setArrayItem(idx int, lang string, path Path, value string, flags SyncFlags) error {
+	isAlt := n.FullName() == "rdf:Alt"
+	item := n.findItem(idx, lang)
 
-		// recurse when we're not at the end of the path
-		if path.Len() > 0 {
-			if idx < 0 {
-				idx = 0
+	if !isAlt && lang != "" {
+		return fmt.Errorf("cannot use language '%s' with a list", lang)
+	}
+
+	// recurse when we're not at the end of the path
+	if path.Len() > 0 {
+		if lang != "" {
+			return fmt.Errorf("cannot make structure from language '%s'", lang)
+		}
+		if item == nil {
+			if value == "" {
+				return nil
 			}
-			if l := len(arr.Nodes); l <= idx {
-				if flags&(CREATE|APPEND) == 0 && value != "" {
-					return fmt.Errorf("CREATE flag required to extend array '%s'", name)
-				}
-				for ; l <= idx; l++ {
-					arr.AppendNode(NewNode(NewName("rdf:li")))
-				}
+			if flags&(CREATE|APPEND) == 0 {
+				return fmt.Errorf("CREATE flag required to extend array to index %d", idx)
+			}
+			for l := len(n.Nodes); l <= Max(idx, 0); l++ {
+				item = n.appendItem("", "")
 			}
-			return arr.Nodes[idx].SetPath(path, value, flags)
 		}
+		if item.Value != "" {
+			return fmt.Errorf("cannot make structure from simple list item")
+		}
+		return item.SetPath(path, value, flags)
+	}
 
-		// when at end of path flags tell what to do
+	// when at end of path flags tell what to do
+	if value == "" {
 		switch {
-		case flags&UNIQUE > 0 && value != "" && idx == -1:
-			// append if not exists
-			for _, v := range arr.Nodes {
-				if v.Value == value {
-					return nil
-				}
-			}
-			li := arr.AppendNode(NewNode(NewName("rdf:li")))
-			li.Value = value
-
-		case flags&APPEND > 0 && value != "" && idx == -1:
-			// always append
-			li := arr.AppendNode(NewNode(NewName("rdf:li")))
-			li.Value = value
-
-		case flags&(REPLACE|CREATE) > 0 && value != "" && idx == -1:
-			// replace the entire xmp array
-			arr.Clear()
-			li := arr.AppendNode(NewNode(NewName("rdf:li")))
-			li.Value = value
-
-		case flags&(REPLACE|CREATE) > 0 && value != "" && idx > -1:
-			// replace a single item, add intermediate index positions
-			if l := len(arr.Nodes); l <= idx {
-				for ; l <= idx; l++ {
-					arr.AppendNode(NewNode(NewName("rdf:li")))
-				}
-			}
-			arr.Nodes[idx].Value = value
-
-		case flags&DELETE > 0 && value == "" && idx == -1:
-			// delete the entire array
-			node.RemoveNode(arr).Close()
-
-		case flags&DELETE > 0 && value == "" && idx > -1:
-			// delete a single item
-			if idx < len(arr.Nodes) {
-				arr.Nodes = append(arr.Nodes[:idx], arr.Nodes[idx+1:]...)
-			}
-		default:
-			return fmt.Errorf("unsupported flag combination %v for %s", flags, name)
+		case flags&DELETE == 0:
+			return fmt.Errorf("DELETE flag required to remove list items")
+		case idx == -1 && lang == "":
+			n.Clear()
+		case item != nil:
+			n.RemoveNode(item).Close()
 		}
+		return nil
+	}
 
-	// AltString array
-	case lang != "":
-		arr := node.Nodes.FindNodeByName("Alt")
-		if arr == nil && flags&(CREATE|APPEND) == 0 {
-			return fmt.Errorf("CREATE flag required to extend array '%s'", name)
+	// language alternatives
+	if isAlt && idx == -1 {
+		switch {
+		case item != nil && (lang != "" || flags&(UNIQUE|APPEND) > 0):
+			return item.setValue(value, flags)
+		case item != nil && flags&REPLACE == 0:
+			return fmt.Errorf("REPLACE flag required for overwriting alternatives")
+		case item != nil:
+			// replace entire AltString with a new version
+			n.Clear()
 		}
-		if arr == nil {
-			arr = node.AddNode(NewNode(NewName("rdf:Alt")))
+		if lang == "" {
+			lang = defaultLang
 		}
-		switch {
-		case flags&UNIQUE > 0 && value != "":
-			// append source when not exist
-			for _, v := range arr.Nodes {
-				if attr := v.GetAttr("", "lang"); len(attr) > 0 {
-					if attr[0].Value == lang && v.Value == value {
-						return nil
-					}
-				}
-			}
-			li := arr.AppendNode(NewNode(NewName("rdf:li")))
-			li.AddStringAttr("xml:lang", lang)
-			li.Value = value
-
-		case flags&APPEND > 0 && value != "":
-			// append source value
-			li := arr.AppendNode(NewNode(NewName("rdf:li")))
-			li.AddStringAttr("xml:lang", lang)
-			li.Value = value
-
-		case flags&(REPLACE|CREATE) > 0 && value != "" && lang != "":
-			// replace single entry
-			for _, v := range arr.Nodes {
-				if attr := v.GetAttr("", "lang"); len(attr) > 0 {
-					if attr[0].Value == lang {
-						v.Value = value
-						return nil
-					}
-				}
-			}
+		li := n.appendItem(value, lang)
+		if lang == defaultLang {
+			// default always comes first
+			n.Nodes = append(NodeList{li}, n.Nodes[:len(n.Nodes)-1]...)
+		}
+		return nil
+	}
 
-		case flags&(REPLACE|CREATE) > 0 && value != "" && lang == "":
-			// replace entire AltString with a new version
-			arr.Clear()
-			li := NewNode(NewName("rdf:li"))
-			li.AddStringAttr("xml:lang", lang)
-			li.Value = value
-			arr.Nodes = NodeList{li}
-
-		case flags&DELETE > 0 && value == "" && lang != "":
-			// delete a specific language
-			for _, v := range arr.Nodes {
-				if attr := v.GetAttr("", "lang"); len(attr) > 0 {
-					if attr[0].Value == lang {
-						arr.RemoveNode(v).Close()
-						return nil
-					}
-				}
-			}
+	contains := false
+	for _, v := range n.Nodes {
+		contains = contains || v.Value == value
+	}
 
-		case flags&DELETE > 0 && value == "" && lang == "":
-			// remove and close the entire array
-			node.RemoveNode(arr).Close()
-		default:
-			return fmt.Errorf("unsupported flag combination %v", flags)
+	switch {
+	case idx > -1 && item == nil:
+		// add intermediate index positions
+		if flags&(CREATE|REPLACE|APPEND) == 0 {
+			return fmt.Errorf("CREATE flag required to extend array to index %d", idx)
+		}
+		for l := len(n.Nodes); l < idx; l++ {
+			n.appendItem("", "")
 		}
+		n.appendItem(value, "")
 
-	default:
-		if path.Len() > 0 {
-			return node.SetPath(path, value, flags)
+	case idx > -1 && (flags&REPLACE > 0 || item.IsZero()):
+		// replace a single item
+		return item.setValue(value, flags)
+
+	case flags&UNIQUE > 0:
+		// append if not exists
+		if !contains {
+			n.appendItem(value, "")
 		}
-		// fmt.Printf("Set Node path ns=%s len=%d, path=%s, name=%s\n", path.NamespacePrefix(), path.Len(), path.String(), name)
-		switch {
-		case flags&(REPLACE|CREATE) > 0 && value != "":
-			node.Value = value
-			return nil
-		case flags&DELETE > 0 && value == "":
-			node.Value = value
-			node.Clear()
-			// will be ignored on next marshal
-			return nil
-		default:
-			return fmt.Errorf("unsupported flag combination %v", flags)
+
+	case flags&APPEND > 0:
+		// always append
+		n.appendItem(value, "")
+
+	case idx > -1:
+		return fmt.Errorf("REPLACE flag required for overwriting list item at index %d", idx)
+
+	case flags&(REPLACE|CREATE) > 0:
+		// replace the entire xmp array
+		if item != nil && flags&REPLACE == 0 {
+			return fmt.Errorf("REPLACE flag required for overwriting list")
 		}
-	}
+		n.Clear()
+		n.appendItem(value, "")
 
+	default:
+		return fmt.Errorf("unsupported flag combination %v", flags)
+	}
 	return nil
 }
 
 func (n *Node) ListPaths(path Path) (PathValueList, error) {
 	l := make(PathValueList, 0)
 	switch n.FullName() {
-	case "rdf:Seq", "rdf:Bag":
+	case "rdf:Seq", "rdf:Bag", "rdf:Alt":
 		for i, li := range n.Nodes {
 			_, walker := path.Pop()
-			walker = walker.AppendIndex(i)
-			for _, v := range li.Nodes {
-				name := v.Name()
-				if v.Namespace() != path.NamespacePrefix() {
-					name = v.FullName()
+			if n.FullName() == "rdf:Alt" && len(li.Nodes) == 0 {
+				if li.Value != "" {
+					l = append(l, PathValue{
+						Path:  walker.AppendIndexString(li.lang()),
+						Value: li.Value,
+					})
 				}
-				r, err := v.ListPaths(walker.Push(name))
-				if err != nil {
-					return nil, err
-				}
-				l = append(l, r...)
+				continue
 			}
-		}
-	case "rdf:Alt":
-		for _, li := range n.Nodes {
-			lang := "x-default"
-			if attr := li.GetAttr("", "lang"); len(attr) > 0 {
-				lang = attr[0].Value
+			r, err := li.ListPaths(walker.AppendIndex(i))
+			if err != nil {
+				return nil, err
 			}
-			_, walker := path.Pop()
-			walker = walker.AppendIndexString(lang)
-			l = append(l, PathValue{
-				Path:  walker,
-				Value: li.Value,
-			})
+			l = append(l, r...)
 		}
 	default:
 		for _, a := range n.Attr {
-			if skipField(a.Name) {
+			if skipField(a.Name) || a.Value == "" {
 				continue
 			}
 			name := a.Name.Local
@@ -784,7 +896,7 @@ func (n *Node) ListPaths(path Path) (PathValueList, error) {
 			})
 		}
 	}
-	sort.Sort(byPath(l))
+	sort.Stable(byPath(l))
 	return l, nil
 }
 
diff --git a/xmp/path.go b/xmp/path.go
index dac7b95..03dab5f 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -1039,7 +1039,7 @@ func (d *Document) ListPaths() (PathValueList, error) {
 		}
 		l = append(l, r...)
 	}
-	sort.Sort(byPath(l))
+	sort.Stable(byPath(l))
 	return l.Unique(), nil
 }
 
@@ -1295,7 +1295,7 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 		}
 	}
 
-	sort.Sort(byPath(pvl))
+	sort.Stable(byPath(pvl))
 	return pvl, nil
 }
 
@@ -1303,7 +1303,7 @@ func parsePathSegment(name string) (string, int, string) {
 	var lang string
 	var idx int = -1
 	// split lang or array index from name, be safe with slice indexes
-	if k := strings.Index(name, "["); k > 0 && len(name) > k+1 {
+	if k := strings.Index(name, "["); k > -1 && len(name) > k+1 {
 		s := strings.TrimSuffix(name[k+1:], "]")
 		if len(s) == 0 {
 			idx = 0
-- 
2.43.0


From 6f0c23ffebadf7370a1cd47d35472a042d932a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:08 +0000
Subject: [PATCH 045/121] fix: data race in node pool counters

---
 xmp/node.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index a8bb519..dac6436 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"sort"
 	"strings"
+	"sync/atomic"
 )
 
 var (
@@ -83,14 +84,14 @@ func NewNode(name xml.Name) *Node {
 	var n *Node
 	select {
 	case n = <-nodePool: // Try to get one from the nodePool
-		npHits++
+		atomic.AddInt64(&npHits, 1)
 		n.XMLName = name
 		n.Attr = nil
 		n.Nodes = nil
 		n.Model = nil
 		n.Value = ""
 	default: // All in use, create a new, temporary:
-		npAllocs++
+		atomic.AddInt64(&npAllocs, 1)
 		n = &Node{
 			XMLName: name,
 			Attr:    nil,
@@ -114,9 +115,9 @@ func (n *Node) Close() {
 	n.Value = ""
 	select {
 	case nodePool <- n: // try to put back into the nodePool
-		npReturns++
+		atomic.AddInt64(&npReturns, 1)
 	default: // pool is full, will be garbage collected
-		npFrees++
+		atomic.AddInt64(&npFrees, 1)
 	}
 }
 
-- 
2.43.0


From 0408f790449630e8dca3fff098d899040ab200d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:12 +0000
Subject: [PATCH 046/121] fix: custom namespaces used in path writes do not
 affect other documents

---
 xmp/path.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index 03dab5f..493ccd3 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -468,8 +468,9 @@ func (d *Document) SetPath(desc PathValue) error {
 	ns, err := path.Namespace(d)
 	if ns == nil || err != nil {
 		if desc.Namespace != "" {
-			ns = &Namespace{path.NamespacePrefix(), desc.Namespace, nil}
-			Register(ns)
+			// custom namespaces are private to a document
+			ns = &Namespace{path.NamespacePrefix(), desc.Namespace, emptyFactory}
+			d.extNsMap[desc.Namespace] = ns
 		} else {
 			return err
 		}
-- 
2.43.0


From bc11c5b8181a325520ea44f7bcf3518af5442f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 047/121] fix: removing a namespace keeps its declaration when
 nested properties use it

---
 xmp/document.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/xmp/document.go b/xmp/document.go
index 2c895b0..80935a9 100644
--- a/xmp/document.go
+++ b/xmp/document.go
@@ -17,6 +17,7 @@ package xmp
 import (
 	"fmt"
 	"reflect"
+	"strings"
 )
 
 type Document struct {
@@ -196,8 +197,11 @@ func (d *Document) RemoveNamespace(ns *Namespace) bool {
 		if v.Name() == name {
 			d.nodes = append(d.nodes[:i], d.nodes[i+1:]...)
 			removed = true
-			delete(d.intNsMap, ns.GetURI())
-			delete(d.extNsMap, ns.GetURI())
+			// nested properties may still use the namespace
+			if !d.usesNamespace(name) {
+				delete(d.intNsMap, ns.GetURI())
+				delete(d.extNsMap, ns.GetURI())
+			}
 			v.Close()
 			d.SetDirty()
 			break
@@ -206,6 +210,25 @@ func (d *Document) RemoveNamespace(ns *Namespace) bool {
 	return removed
 }
 
+func (d *Document) usesNamespace(name string) bool {
+	for _, v := range d.nodes {
+		if v.Namespaces(d).ContainsName(name) {
+			return true
+		}
+		if v.Model == nil {
+			continue
+		}
+		if l, err := ListModelPaths(v.Model); err == nil {
+			for _, p := range l {
+				if strings.Contains(p.Path.String(), "/"+name+":") {
+					return true
+				}
+			}
+		}
+	}
+	return false
+}
+
 func (d *Document) RemoveNamespaceByName(n string) bool {
 	ns := d.findNsByPrefix(n)
 	return d.RemoveNamespace(ns)
-- 
2.43.0


From f99dfb840310d8636214494a9b2877a5820de7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:36 +0000
Subject: [PATCH 048/121] fix: list fields so that their paths address the same
 field when read

---
 xmp/node.go |  5 +++--
 xmp/path.go | 17 +++++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index dac6436..d9a46d1 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -863,12 +863,13 @@ func (n *Node) ListPaths(path Path) (PathValueList, error) {
 			l = append(l, r...)
 		}
 	default:
+		prefix := path.fieldPrefix()
 		for _, a := range n.Attr {
 			if skipField(a.Name) || a.Value == "" {
 				continue
 			}
 			name := a.Name.Local
-			if hasPrefix(name) && getPrefix(name) == path.NamespacePrefix() {
+			if hasPrefix(name) && getPrefix(name) == prefix {
 				name = stripPrefix(name)
 			}
 			l = append(l, PathValue{
@@ -881,7 +882,7 @@ func (n *Node) ListPaths(path Path) (PathValueList, error) {
 				continue
 			}
 			name := v.Name()
-			if v.Namespace() != path.NamespacePrefix() {
+			if v.Namespace() != prefix {
 				name = v.FullName()
 			}
 			r, err := v.ListPaths(path.Push(name))
diff --git a/xmp/path.go b/xmp/path.go
index 493ccd3..05b1edc 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -242,6 +242,23 @@ func (x Path) PeekNamespacePrefix() string {
 	}
 }
 
+// fieldPrefix returns the prefix a field below this path may be listed without.
+// This is the path's own prefix unless a segment has switched to another one.
+func (x Path) fieldPrefix() string {
+	ns := x.NamespacePrefix()
+	f := x.Fields()
+	for i := len(f) - 1; i >= 0; i-- {
+		if !hasPrefix(f[i]) {
+			continue
+		}
+		if getPrefix(f[i]) != ns {
+			return ""
+		}
+		break
+	}
+	return ns
+}
+
 func (x *Path) UnmarshalText(data []byte) error {
 	p := Path(string(data))
 	if !p.IsXmpPath() {
-- 
2.43.0


From bccf39113b6b40bab19bbd751d9bee7bcffd3c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 049/121] fix: list and read lists without array methods by
 path; empty attributes for structures are read like empty elements

---
 xmp/typeinfo.go  | 14 +++++++++++++-
 xmp/unmarshal.go |  5 +++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/xmp/typeinfo.go b/xmp/typeinfo.go
index c84ba01..a504373 100644
--- a/xmp/typeinfo.go
+++ b/xmp/typeinfo.go
@@ -273,7 +273,7 @@ func structFieldInfo(typ reflect.Type, f *reflect.StructField, ns string) (*fiel
 	}
 
 	// add static type info about interfaces the type implements
-	if f.Type.Implements(arrayType) {
+	if f.Type.Implements(arrayType) || isPlainArray(f.Type) {
 		finfo.flags |= fArray
 	}
 	if f.Type.Implements(binaryUnmarshalerType) {
@@ -304,6 +304,18 @@ func structFieldInfo(typ reflect.Type, f *reflect.StructField, ns string) (*fiel
 	return finfo, nil
 }
 
+// isPlainArray returns true for slices and arrays without methods that would
+// define another representation. These are handled like XMP arrays.
+func isPlainArray(typ reflect.Type) bool {
+	if k := typ.Kind(); k != reflect.Slice && k != reflect.Array {
+		return false
+	}
+	if typ.Elem().Kind() == reflect.Uint8 {
+		return false
+	}
+	return !typ.Implements(textMarshalerType) && !reflect.PtrTo(typ).Implements(textMarshalerType)
+}
+
 func addFieldInfo(typ reflect.Type, tinfo *typeInfo, newf *fieldInfo, ns string) error {
 	var conflicts []int
 	// Find all conflicts.
diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index d9bb071..892a859 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -341,6 +341,11 @@ func (d *Decoder) unmarshalAttr(val reflect.Value, finfo *fieldInfo, src Attr) e
 		return nil
 	}
 
+	// an empty attribute is the same as an empty element
+	if val.Kind() == reflect.Struct && src.Value == "" {
+		return nil
+	}
+
 	// otherwise set value directly
 	return setValue(val, src.Value)
 }
-- 
2.43.0


From 15ad5bdfab9565236e1643939ad344aa5351cbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:36 +0000
Subject: [PATCH 050/121] fix: fields of id3 prices have a namespace

---
 models/id3/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/id3/types.go b/models/id3/types.go
index 46100f2..442e4e1 100644
--- a/models/id3/types.go
+++ b/models/id3/types.go
@@ -596,8 +596,8 @@ func (x *Commercial) UnmarshalText(data []byte) error {
 }
 
 type Price struct {
-	Currency string
-	Amount   float32
+	Currency string  `xmp:"id3:currency"`
+	Amount   float32 `xmp:"id3:amount"`
 }
 
 type PriceList []Price
-- 
2.43.0


From 071d491782a0cdb9354c4f4be8045b3dcdafc676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:08 +0000
Subject: [PATCH 051/121] fix: paths address the field of the namespace they
 name; properties carried by other models are found; types derived from
 AltString are listed by language

---
 xmp/node.go | 27 +++++++++++++------
 xmp/path.go | 75 +++++++++++++++++++++++++++++++++++++++++++++++------
 2 files changed, 86 insertions(+), 16 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index d9a46d1..51e23b4 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -467,13 +467,13 @@ func (n *Node) unmarshalXML(d *xml.Decoder, start xml.StartElement, depth int) e
 
 // prefer children from the same namespace because names are only unique
 // within a namespace
-func (n *Node) findChild(prefix, name string) *Node {
+func (n *Node) findChild(prefix, name string, exact bool) *Node {
 	for _, v := range n.Nodes {
 		if v.Name() == name && v.Namespace() == prefix {
 			return v
 		}
 	}
-	if n.findAttr(prefix, name, true) != nil {
+	if exact || n.findAttr(prefix, name, true) != nil {
 		return nil
 	}
 	return n.Nodes.FindNodeByName(name)
@@ -541,6 +541,16 @@ func (n *Node) findItem(idx int, lang string) *Node {
 }
 
 func (n *Node) GetPath(path Path) (string, error) {
+	return n.getPath(path, false)
+}
+
+// names must match exactly when a path write may add a new node because the
+// same name can exist in several namespaces
+func createsNode(value string, flags SyncFlags) bool {
+	return value != "" && flags&(CREATE|APPEND) > 0
+}
+
+func (n *Node) getPath(path Path, exact bool) (string, error) {
 	prefix := path.PeekNamespacePrefix()
 	name, path := path.PopFront()
 	name, idx, lang := parsePathSegment(name)
@@ -553,14 +563,14 @@ func (n *Node) GetPath(path Path) (string, error) {
 			return n.Value, nil
 		}
 		// ignore empty path segments and recurse
-		return n.GetPath(path)
+		return n.getPath(path, exact)
 	}
 
 	// lookup name in node list or attributes, arrays in arrays have no name
 	name = stripPrefix(name)
 	node := n
 	if name != "" {
-		node = n.findChild(prefix, name)
+		node = n.findChild(prefix, name, exact)
 	}
 	if node != nil {
 		if node.IsArray() {
@@ -572,10 +582,10 @@ func (n *Node) GetPath(path Path) (string, error) {
 		if node == nil {
 			return "", nil
 		}
-		return node.GetPath(path)
+		return node.getPath(path, exact)
 	}
 
-	if attr := n.findAttr(prefix, name, false); attr != nil && path.Len() == 0 && idx < 1 && lang == "" {
+	if attr := n.findAttr(prefix, name, exact); attr != nil && path.Len() == 0 && idx < 1 && lang == "" {
 		return attr.Value, nil
 	}
 	return "", nil
@@ -607,10 +617,11 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 		return n.setItem(idx, lang, path, value, flags)
 	}
 
-	node := n.findChild(prefix, name)
+	exact := createsNode(value, flags)
+	node := n.findChild(prefix, name, exact)
 
 	// handle attribute
-	if attr := n.findAttr(prefix, name, false); node == nil && attr != nil {
+	if attr := n.findAttr(prefix, name, exact); node == nil && attr != nil {
 		switch {
 		case path.Len() > 0 || idx > -1 || lang != "":
 			return fmt.Errorf("cannot make list or structure from attribute '%s'", name)
diff --git a/xmp/path.go b/xmp/path.go
index 05b1edc..4c057eb 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -278,10 +278,16 @@ func (d *Document) GetPath(path Path) (string, error) {
 	}
 	n := d.FindNode(ns)
 	if n == nil {
+		if s := d.getForeignPath(nil, path); s != "" {
+			return s, nil
+		}
 		return "", fmt.Errorf("xmp: path '%s' not found", path.String())
 	}
 	if n.Model != nil {
 		if s, err := GetModelPath(n.Model, path); err == nil {
+			if s == "" {
+				s = d.getForeignPath(n, path)
+			}
 			return s, nil
 		} else if err != errNotFound {
 			return "", fmt.Errorf("xmp: path '%s' error: %v", path.String(), err)
@@ -298,6 +304,36 @@ func (d *Document) GetPath(path Path) (string, error) {
 	}
 }
 
+// getForeignPath looks up path in models that carry properties from the
+// namespace of another model.
+func (d *Document) getForeignPath(owner *Node, path Path) string {
+	name, _ := path.PopFront()
+	name, _, _ = parsePathSegment(name)
+	name = path.PeekNamespacePrefix() + ":" + name
+	for _, n := range d.nodes {
+		if n == owner || n.Model == nil {
+			continue
+		}
+		if finfo, err := findField(derefIndirect(n.Model), name, "xmp"); err != nil || finfo.name != name {
+			continue
+		}
+		if s, err := GetModelPath(n.Model, path); err == nil && s != "" {
+			return s
+		}
+	}
+	return ""
+}
+
+// findPathField prefers the field from the namespace a path segment belongs to
+// and falls back to the short-form of name to find fields across namespaces
+// (e.g. some models use different namespaces internally).
+func findPathField(val reflect.Value, prefix, name string) (*fieldInfo, error) {
+	if finfo, err := findField(val, prefix+":"+name, "xmp"); err == nil && finfo.name == prefix+":"+name {
+		return finfo, nil
+	}
+	return findField(val, name, "xmp")
+}
+
 func GetModelPath(v Model, path Path) (string, error) {
 	val := derefIndirect(v)
 	l := path.Len()
@@ -308,7 +344,7 @@ func GetModelPath(v Model, path Path) (string, error) {
 			return "", fmt.Errorf("path field %d (%s): invalid index", l-walker.Len(), n)
 		}
 
-		finfo, err := findField(val, name, "xmp")
+		finfo, err := findPathField(val, walker.NamespacePrefix(), name)
 		if err != nil {
 			return "", errNotFound
 			// return "", fmt.Errorf("path field %d (%s) not found: %v", i, name, err)
@@ -353,6 +389,9 @@ func GetModelPath(v Model, path Path) (string, error) {
 		}
 
 		if isArray {
+			if isAltString(av.Type()) {
+				av = av.Convert(altStringType)
+			}
 			switch arr := av.Interface().(type) {
 			case ExtensionArray:
 				// sanitize array index
@@ -550,7 +589,7 @@ func (d *Document) setNodePath(m Model, n *Node, path Path, value string, flags
 		dest, err = GetModelPath(m, path)
 	}
 	if m == nil || err == errNotFound {
-		dest, err = n.GetPath(path)
+		dest, err = n.getPath(path, createsNode(value, flags))
 	}
 	if err != nil {
 		return err
@@ -613,9 +652,7 @@ func setModelPath(v Model, path Path, value string, flags SyncFlags, undo *[]fun
 			return fmt.Errorf("path field %d (%s): invalid index", l-walker.Len(), n)
 		}
 
-		// using the short-form of name here to find attribute names across namespaces
-		// (e.g. some models use different namespace structs internally)
-		finfo, err := findField(val, name, "xmp")
+		finfo, err := findPathField(val, walker.NamespacePrefix(), name)
 		if err != nil {
 			// special error is catched by caller to retry setting as raw node
 			return errNotFound
@@ -708,6 +745,9 @@ func setModelPath(v Model, path Path, value string, flags SyncFlags, undo *[]fun
 			av = fv.Addr()
 		}
 		if av.CanInterface() && (finfo != nil && finfo.flags&fArray > 0 || av.Type().Implements(arrayType)) {
+			if av.Kind() == reflect.Ptr && isAltString(av.Type().Elem()) {
+				av = av.Convert(reflect.PtrTo(altStringType))
+			}
 			switch arr := av.Interface().(type) {
 			case *ExtensionArray:
 				// unwrap extension namespace and keep path remainder
@@ -1043,12 +1083,20 @@ func (d *Document) ListPaths() (PathValueList, error) {
 		return nil, err
 	}
 	l := make(PathValueList, 0)
+	// properties in the namespace of another model, that model goes first
+	foreign := make(PathValueList, 0)
 	for _, v := range d.nodes {
 		if v.Model != nil {
-			if pvl, err := ListModelPaths(v.Model); err != nil {
+			pvl, err := ListModelPaths(v.Model)
+			if err != nil {
 				return nil, err
-			} else {
-				l = append(l, pvl...)
+			}
+			for _, pv := range pvl {
+				if v.Model.Can(pv.Path.NamespacePrefix()) {
+					l = append(l, pv)
+				} else {
+					foreign = append(foreign, pv)
+				}
 			}
 		}
 		r, err := v.ListPaths(NewPath(v.Name()))
@@ -1057,6 +1105,7 @@ func (d *Document) ListPaths() (PathValueList, error) {
 		}
 		l = append(l, r...)
 	}
+	l = append(l, foreign...)
 	sort.Stable(byPath(l))
 	return l.Unique(), nil
 }
@@ -1140,6 +1189,9 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 		}
 
 		if isArray {
+			if isAltString(av.Type()) {
+				av = av.Convert(altStringType)
+			}
 			switch arr := av.Interface().(type) {
 			case ExtensionArray:
 				for i, v := range arr {
@@ -1317,6 +1369,13 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 	return pvl, nil
 }
 
+var altStringType = reflect.TypeOf(AltString{})
+
+// isAltString returns true for the AltString type and types derived from it.
+func isAltString(typ reflect.Type) bool {
+	return typ.Kind() == reflect.Slice && typ.Elem() == altStringType.Elem()
+}
+
 func parsePathSegment(name string) (string, int, string) {
 	var lang string
 	var idx int = -1
-- 
2.43.0


From 46ed3d6646a52ec1bc2c03cc39e39aabc19f5c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:36 +0000
Subject: [PATCH 052/121] fix: fractions of seconds are kept when dates are
 written

---
 xmp/xmp_types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/xmp_types.go b/xmp/xmp_types.go
index 66a4755..7defa22 100644
--- a/xmp/xmp_types.go
+++ b/xmp/xmp_types.go
@@ -113,7 +113,7 @@ func (x Date) Value() time.Time {
 }
 
 func (x Date) String() string {
-	return time.Time(x).Format(time.RFC3339)
+	return time.Time(x).Format(time.RFC3339Nano)
 }
 
 func (x Date) IsZero() bool {
-- 
2.43.0


From e97c345c9b80d79fd97e37da8d59051bbf8e794d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:39 +0000
Subject: [PATCH 053/121] fix: paths of parts without time are written
 unchanged

---
 models/xmp_dm/types.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index ad10d1a..3e10c2e 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -111,12 +111,12 @@ func (x *Part) UnmarshalText(data []byte) error {
 func (x Part) MarshalText() ([]byte, error) {
 	buf := bytes.Buffer{}
 	buf.WriteString(x.Path)
-	if len(x.Path) > 0 && !strings.HasSuffix(x.Path, "/") {
-		buf.WriteByte('/')
-	}
 	if x.Duration.IsZero() {
 		return buf.Bytes(), nil
 	}
+	if len(x.Path) > 0 && !strings.HasSuffix(x.Path, "/") {
+		buf.WriteByte('/')
+	}
 	buf.WriteString("time:")
 	if !x.Start.IsZero() {
 		buf.WriteString(x.Start.String())
-- 
2.43.0


From f8db41788f29bd0f86a49358a2c56f3df76d8296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:37 +0000
Subject: [PATCH 054/121] fix: drop only a zero from zones of five characters

---
 xmp/xmp_types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/xmp_types.go b/xmp/xmp_types.go
index 7defa22..1a25bfd 100644
--- a/xmp/xmp_types.go
+++ b/xmp/xmp_types.go
@@ -191,7 +191,7 @@ func repairTZ(value string) string {
 	}
 	switch c {
 	case '+', '-', 'Z':
-		if !strings.Contains(value[l-6:], ":") {
+		if value[l-5] == '0' && !strings.Contains(value[l-4:], ":") {
 			return value[:l-5] + value[l-4:]
 		}
 	}
-- 
2.43.0


From 792750e5b3b55a7dddd50b4c98b76b95c546645a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:02 +0000
Subject: [PATCH 055/121] fix: read an empty media time attribute as no value

---
 models/xmp_dm/types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index 3e10c2e..8825f5e 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -512,6 +512,10 @@ func (x MediaTime) IsZero() bool {
 // xmpDM:duration="0:07.680"
 func (x *MediaTime) UnmarshalXMPAttr(d *xmp.Decoder, a xmp.Attr) error {
 	v := string(a.Value)
+	if v == "" {
+		*x = MediaTime{}
+		return nil
+	}
 	var dur time.Duration
 	fields := strings.Split(v, ".")
 	if len(fields) > 1 {
-- 
2.43.0


From 90549f03d845884673ae48c6fe0df327823e3c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:51 +0000
Subject: [PATCH 056/121] fix: write namespace declarations in a stable order

---
 xmp/node.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xmp/node.go b/xmp/node.go
index 51e23b4..7f07b95 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -304,7 +304,13 @@ func (n *Node) Namespaces(d *Document) NamespaceList {
 		l = append(l, v.Namespaces(d)...)
 	}
 
-	for name, _ := range m {
+	// use a stable order, the same document is always written the same way
+	names := make([]string, 0, len(m))
+	for name := range m {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
 		ns := d.findNsByPrefix(name)
 		if ns != nil && ns != nsRDF && ns != nsXML {
 			l = append(l, ns)
-- 
2.43.0


From 5f5e7291f3c9a3b0886b454826516db6c1d58ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:24 +0000
Subject: [PATCH 057/121] fix: report a malformed array item instead of
 crashing

---
 xmp/unmarshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 892a859..978d5b2 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -283,7 +283,7 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 	} else {
 		// otherwise set simple value directly
 		if err := setValue(val, src.Value); err != nil {
-			return fmt.Errorf("xmp: unmarshal %s: %v", finfo.String(), err)
+			return fmt.Errorf("xmp: unmarshal %s: %v", src.FullName(), err)
 		}
 	}
 
@@ -336,7 +336,7 @@ func (d *Decoder) unmarshalAttr(val reflect.Value, finfo *fieldInfo, src Attr) e
 		// Recur to read element into slice.
 		if err := d.unmarshalAttr(val.Index(n), nil, src); err != nil {
 			val.SetLen(n)
-			return fmt.Errorf("xmp: unmarshal %s: %v", finfo.String(), err)
+			return fmt.Errorf("xmp: unmarshal %s: %v", src.Name.Local, err)
 		}
 		return nil
 	}
-- 
2.43.0


From 903ea9a68b5347bb01a8008fa090ba1461770ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:52 +0000
Subject: [PATCH 058/121] fix: read text in place of a structure like the
 attribute form

---
 xmp/unmarshal.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 978d5b2..2b4d0b5 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -243,6 +243,11 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 
 	// structs
 	if val.Kind() == reflect.Struct {
+		// plain text is the element form of an attribute
+		if src.Value != "" && len(src.Nodes) == 0 && !hasFieldAttr(src) {
+			return d.unmarshalAttr(val, finfo, Attr{Name: src.XMLName, Value: src.Value})
+		}
+
 		// process attributes first
 		for _, a := range src.Attr {
 			d.translate(&a.Name)
@@ -296,9 +301,11 @@ func isStructNode(typ reflect.Type, src *Node) bool {
 	if typ.Elem().Kind() != reflect.Struct || typ.Implements(textMarshalerType) {
 		return false
 	}
-	if len(src.Nodes) > 0 {
-		return true
-	}
+	return len(src.Nodes) > 0 || hasFieldAttr(src)
+}
+
+// hasFieldAttr reports whether a node has attributes that carry values.
+func hasFieldAttr(src *Node) bool {
 	for _, a := range src.Attr {
 		if a.Name.Space != "xmlns" && a.Name.Space != nsRDF.GetURI() && a.Name.Space != nsXML.GetURI() && !skipField(a.Name) {
 			return true
-- 
2.43.0


From 12ab5b7ec9b7f16d0908518e2fe29c08724c4325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 059/121] fix: keep incomplete YCbCrSubSampling values

---
 models/tiff/types.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/models/tiff/types.go b/models/tiff/types.go
index d727dd2..a22d537 100644
--- a/models/tiff/types.go
+++ b/models/tiff/types.go
@@ -48,7 +48,12 @@ func (x YCbCrSubSampling) String() string {
 }
 
 func (x YCbCrSubSampling) IsZero() bool {
-	return len(x) < 2 || (x[0] == 0 && x[1] == 0)
+	for _, v := range x {
+		if v != 0 {
+			return false
+		}
+	}
+	return true
 }
 
 func (x YCbCrSubSampling) Typ() xmp.ArrayType {
-- 
2.43.0


From 26e94eae00a99cc5e8d112e417d7470f846570cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:14 +0000
Subject: [PATCH 060/121] fix: read part lists in the form they are written,
 frame count zero keeps its rate

---
 models/xmp_dm/types.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index 8825f5e..929ae45 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -145,11 +145,17 @@ func (x *PartList) AddPart(p Part) {
 
 func (x *PartList) UnmarshalText(data []byte) error {
 	l := make(PartList, 0)
+	if len(data) == 0 {
+		*x = l
+		return nil
+	}
 	for _, v := range bytes.Split(data, []byte(";")) {
 		p := Part{}
 		if err := p.UnmarshalText(v); err != nil {
 			return err
 		}
+		// paths always start at the root, see MarshalText
+		p.Path = prefixIfNot(p.Path, "/")
 		l = append(l, p)
 	}
 	*x = l
@@ -228,7 +234,10 @@ func (x *FrameCount) UnmarshalText(data []byte) error {
 func (x FrameCount) String() string {
 	switch x.Count {
 	case 0:
-		return "0"
+		if x.Rate.IsZero() || x.Rate.Value() == 1 {
+			return "0"
+		}
+		return "0" + x.Rate.String()
 	case -1:
 		return "maximum"
 	default:
-- 
2.43.0


From cd288756b667b203915625af96bc437f70771f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:09 +0000
Subject: [PATCH 061/121] fix: reject structured content in place of a simple
 value instead of dropping it

---
 xmp/unmarshal.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 2b4d0b5..56b0996 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -232,6 +232,9 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 	if val.CanAddr() {
 		pv := val.Addr()
 		if pv.CanInterface() && (finfo != nil && finfo.flags&fTextUnmarshal > 0 || pv.Type().Implements(textUnmarshalerType)) && !isStructNode(pv.Type(), src) {
+			if len(src.Nodes) > 0 {
+				return errNotSimple(src)
+			}
 			return pv.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(src.Value))
 		}
 	}
@@ -286,6 +289,9 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 			}
 		}
 	} else {
+		if len(src.Nodes) > 0 {
+			return errNotSimple(src)
+		}
 		// otherwise set simple value directly
 		if err := setValue(val, src.Value); err != nil {
 			return fmt.Errorf("xmp: unmarshal %s: %v", src.FullName(), err)
@@ -295,6 +301,10 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 	return nil
 }
 
+func errNotSimple(src *Node) error {
+	return fmt.Errorf("xmp: unmarshal %s: unexpected element %s in a simple value", src.FullName(), src.Nodes[0].FullName())
+}
+
 // isStructNode detects values of types that are able to parse a (native) text
 // format, but are written as XMP structures because they have no text format.
 func isStructNode(typ reflect.Type, src *Node) bool {
-- 
2.43.0


From 36e90291f5ebbb2939600bafa15cf62720cebfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:27 +0000
Subject: [PATCH 062/121] fix: reject property attributes in place of a simple
 value

---
 xmp/unmarshal.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 56b0996..f6017d3 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -232,8 +232,8 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 	if val.CanAddr() {
 		pv := val.Addr()
 		if pv.CanInterface() && (finfo != nil && finfo.flags&fTextUnmarshal > 0 || pv.Type().Implements(textUnmarshalerType)) && !isStructNode(pv.Type(), src) {
-			if len(src.Nodes) > 0 {
-				return errNotSimple(src)
+			if err := checkSimple(src); err != nil {
+				return err
 			}
 			return pv.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(src.Value))
 		}
@@ -289,8 +289,8 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 			}
 		}
 	} else {
-		if len(src.Nodes) > 0 {
-			return errNotSimple(src)
+		if err := checkSimple(src); err != nil {
+			return err
 		}
 		// otherwise set simple value directly
 		if err := setValue(val, src.Value); err != nil {
@@ -301,8 +301,15 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 	return nil
 }
 
-func errNotSimple(src *Node) error {
-	return fmt.Errorf("xmp: unmarshal %s: unexpected element %s in a simple value", src.FullName(), src.Nodes[0].FullName())
+// checkSimple reports structured content a simple value cannot store.
+func checkSimple(src *Node) error {
+	if len(src.Nodes) > 0 {
+		return fmt.Errorf("xmp: unmarshal %s: unexpected element %s in a simple value", src.FullName(), src.Nodes[0].FullName())
+	}
+	if hasFieldAttr(src) {
+		return fmt.Errorf("xmp: unmarshal %s: unexpected attributes on a simple value", src.FullName())
+	}
+	return nil
 }
 
 // isStructNode detects values of types that are able to parse a (native) text
-- 
2.43.0


From 77d8251e2c4b6c48c0d65d0289fca65d977b204a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:47 +0000
Subject: [PATCH 063/121] fix: reject rationals with trailing text

---
 xmp/xmp_types.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xmp/xmp_types.go b/xmp/xmp_types.go
index 1a25bfd..308d8f3 100644
--- a/xmp/xmp_types.go
+++ b/xmp/xmp_types.go
@@ -603,9 +603,15 @@ func (x *Rational) UnmarshalText(data []byte) error {
 			// fmt.Printf("Float %f in Rational %d/%d\n", f, r.Num, r.Den)
 		}
 	case strings.Contains(v, "/"):
-		_, err = fmt.Sscanf(v, "%d/%d", &r.Num, &r.Den)
+		var rest string
+		if n, _ := fmt.Sscanf(v, "%d/%d%s", &r.Num, &r.Den, &rest); n != 2 {
+			err = fmt.Errorf("not two numbers")
+		}
 	case strings.Contains(v, " "):
-		_, err = fmt.Sscanf(v, "%d %d", &r.Num, &r.Den)
+		var rest string
+		if n, _ := fmt.Sscanf(v, "%d %d%s", &r.Num, &r.Den, &rest); n != 2 {
+			err = fmt.Errorf("not two numbers")
+		}
 	default:
 		r.Num, err = strconv.ParseInt(v, 10, 64)
 		r.Den = 1
-- 
2.43.0


From 10966edfec1e145e65f748e85f2be8c6352cb2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:44 +0000
Subject: [PATCH 064/121] fix: read an alternative without language as the
 default

---
 xmp/array.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/xmp/array.go b/xmp/array.go
index 3f453d1..93c9e34 100644
--- a/xmp/array.go
+++ b/xmp/array.go
@@ -240,6 +240,21 @@ func (x *AltString) UnmarshalXMP(d *Decoder, node *Node, m Model) error {
 		return err
 	}
 
+	// an item without language is the default, if there is no other
+	nolang := -1
+	for i, v := range *x {
+		if v.IsDefault {
+			nolang = -1
+			break
+		}
+		if v.Lang == "" && nolang < 0 {
+			nolang = i
+		}
+	}
+	if nolang > -1 {
+		(*x)[nolang].IsDefault = true
+	}
+
 	// merge default with matching language, if any
 	var dup int = -1
 	for i, v := range *x {
-- 
2.43.0


From f0c45d751431ab14eba766f3f40e77afe7b7ef73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:08 +0000
Subject: [PATCH 065/121] fix: keep unknown iXML properties and text of named
 extensions, reject text for extensions

---
 xmp/unmarshal.go | 17 ++++-------------
 xmp/xmp_ext.go   | 22 +++++++++++++++++-----
 2 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index f6017d3..40831e2 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -490,20 +490,15 @@ func (d *Decoder) findStructField(val reflect.Value, name string) (*fieldInfo, r
 	}
 
 	var finfo *fieldInfo
-	any := -1
-	// pick the correct field based on name, flags and version
-	for i, v := range tinfo.fields {
+	// pick the correct field based on name and version
+	for _, v := range tinfo.fields {
 		// version must always match
 		if !d.version.Between(v.minVersion, v.maxVersion) {
 			continue
 		}
 
-		// save `any` field in case
-		if v.flags&fAny > 0 {
-			any = i
-		}
-
-		// field name must match
+		// field name must match, unknown XMP properties are kept as external
+		// nodes and attributes instead of using the `any` field
 		if v.name != name {
 			continue
 		}
@@ -512,10 +507,6 @@ func (d *Decoder) findStructField(val reflect.Value, name string) (*fieldInfo, r
 		break
 	}
 
-	if finfo == nil && any >= 0 {
-		finfo = &tinfo.fields[any]
-	}
-
 	// nothing found
 	if finfo == nil {
 		return nil, reflect.Value{}
diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index 4a48b7d..6e77dec 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -16,6 +16,7 @@ package xmp
 
 import (
 	"encoding/xml"
+	"fmt"
 )
 
 // Raw nodes are used to keep custom data models inside a container. This
@@ -75,10 +76,14 @@ func (x Extension) MarshalXMP(e *Encoder, node *Node, m Model) error {
 }
 
 func (x *Extension) UnmarshalXMPAttr(d *Decoder, a Attr) error {
-	return d.decodeAttribute(&x.Nodes, a)
+	// an extension has no text form
+	return fmt.Errorf("xmp: unmarshal %s: unexpected text in an extension", a.Name.Local)
 }
 
 func (x *Extension) UnmarshalXMP(d *Decoder, src *Node, m Model) error {
+	if src.Value != "" && len(src.Nodes) == 0 {
+		return fmt.Errorf("xmp: unmarshal %s: unexpected text in an extension", src.FullName())
+	}
 	for _, v := range src.Attr {
 		if err := d.decodeAttribute(&x.Nodes, v); err != nil {
 			return err
@@ -181,19 +186,26 @@ func (x *NamedExtensionArray) FindNodeByName(name string) *Node {
 
 func (x NamedExtensionArray) MarshalXMP(e *Encoder, node *Node, m Model) error {
 	for _, v := range x {
-		ext := NewNode(NewName(v.XMLName.Local))
-		ext.AddAttr(rdfResourceAttr)
-		ext.Nodes = append(ext.Nodes, copyNodes(v.Nodes)...)
-		ext.Attr = append(ext.Attr, v.Attr...)
+		ext := copyExternalNode((*Node)(v))
+		ext.XMLName = NewName(v.XMLName.Local)
+		ext.Model = nil
+		if ext.Value == "" && len(ext.Nodes) == 0 && len(ext.GetAttr("", "parseType")) == 0 {
+			ext.AddAttr(rdfResourceAttr)
+		}
 		node.AddNode(ext)
 	}
 	return nil
 }
 
 func (x *NamedExtensionArray) UnmarshalXMP(d *Decoder, node *Node, m Model) error {
+	if node.Value != "" && len(node.Nodes) == 0 {
+		return fmt.Errorf("xmp: unmarshal %s: unexpected text in an extension", node.FullName())
+	}
 	for _, v := range node.Nodes {
 		v.translate(d)
+		v.unwrapStructs()
 		ext := (*Extension)(NewNode(NewName(v.XMLName.Local)))
+		ext.Value = v.Value
 		ext.Nodes = append(ext.Nodes, copyNodes(v.Nodes)...)
 		ext.Attr = append(ext.Attr, v.Attr...)
 		*x = append(*x, ext)
-- 
2.43.0


From f0250cb1963af1de64c8bd49a922ffea472d2dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:35 +0000
Subject: [PATCH 066/121] fix: reject malformed media times instead of reading
 them as zero

---
 models/xmp_dm/types.go | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index 929ae45..b040e44 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -19,7 +19,6 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
-	"math"
 	"sort"
 	"strconv"
 	"strings"
@@ -525,27 +524,34 @@ func (x *MediaTime) UnmarshalXMPAttr(d *xmp.Decoder, a xmp.Attr) error {
 		*x = MediaTime{}
 		return nil
 	}
+	// fraction of a second, to the nanosecond
 	var dur time.Duration
-	fields := strings.Split(v, ".")
+	fields := strings.SplitN(v, ".", 2)
 	if len(fields) > 1 {
-		if i, err := strconv.ParseInt(fields[1], 10, 64); err == nil {
-			dur = time.Duration(i * int64(math.Pow10(9-len(fields[1]))))
+		frac := fields[1] + "000000000"
+		i, err := strconv.ParseUint(frac[:9], 10, 64)
+		if err != nil {
+			return fmt.Errorf("xmp: invalid media time '%s'", v)
 		}
+		dur = time.Duration(i)
 	}
+	// [[hours:]minutes:]seconds
 	fields = strings.Split(fields[0], ":")
-	var h, m, s int
-	switch len(fields) {
-	case 3:
-		h, _ = strconv.Atoi(fields[0])
-		m, _ = strconv.Atoi(fields[1])
-		s, _ = strconv.Atoi(fields[2])
-	case 2:
-		m, _ = strconv.Atoi(fields[0])
-		s, _ = strconv.Atoi(fields[1])
-	case 1:
-		s, _ = strconv.Atoi(fields[0])
-	}
-	dur += time.Hour*time.Duration(h) + time.Minute*time.Duration(m) + time.Second*time.Duration(s)
+	if len(fields) > 3 {
+		return fmt.Errorf("xmp: invalid media time '%s'", v)
+	}
+	unit := time.Second
+	for i := len(fields) - 1; i >= 0; i-- {
+		n, err := strconv.ParseInt(fields[i], 10, 32)
+		if err != nil {
+			return fmt.Errorf("xmp: invalid media time '%s'", v)
+		}
+		if i == 0 && strings.HasPrefix(v, "-") {
+			dur = -dur
+		}
+		dur += unit * time.Duration(n)
+		unit *= 60
+	}
 	*x = MediaTime{
 		Value: int64(dur / time.Millisecond),
 		Scale: xmp.Rational{
-- 
2.43.0


From 762d0735db5357b59089764b6e9a56b280068302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:02 +0000
Subject: [PATCH 067/121] fix: keep alternatives without language that repeat
 the default

---
 xmp/array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/array.go b/xmp/array.go
index 93c9e34..e36b370 100644
--- a/xmp/array.go
+++ b/xmp/array.go
@@ -260,7 +260,7 @@ func (x *AltString) UnmarshalXMP(d *Decoder, node *Node, m Model) error {
 	for i, v := range *x {
 		if v.IsDefault {
 			for j, vv := range *x {
-				if i != j && v.Value == vv.Value {
+				if i != j && vv.Lang != "" && v.Value == vv.Value {
 					(*x)[i].Lang = vv.Lang
 					dup = j
 					break
-- 
2.43.0


From 726daf87466c3a8000ebf509ca2359d65de1689b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:11 +0000
Subject: [PATCH 068/121] fix: reject arrays in place of an extension's
 properties

---
 xmp/xmp_ext.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index 6e77dec..0a8f015 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -98,6 +98,10 @@ func (x *Extension) UnmarshalXMP(d *Decoder, src *Node, m Model) error {
 			}
 			continue
 		}
+		// RDF containers are not properties
+		if getPrefix(child.FullName()) == nsRDF.GetName() {
+			return fmt.Errorf("xmp: unmarshal %s: unexpected %s in an extension", src.FullName(), child.FullName())
+		}
 		if err := d.decodeNode(&x.Nodes, child); err != nil {
 			// when decoding fails, store as raw child node
 			x.Nodes = append(x.Nodes, copyNode(child))
-- 
2.43.0


From 496c0c8f5f3a890a08d378747952374599a86f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:14 +0000
Subject: [PATCH 069/121] fix: keep the type of structures without model
 written as attribute

---
 xmp/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/node.go b/xmp/node.go
index 7f07b95..5684bd7 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -175,7 +175,7 @@ func (n *Node) unwrapStructs() {
 		desc := n.Nodes[0]
 		fields := make(NodeList, 0, len(desc.Attr)+len(desc.Nodes))
 		for _, v := range desc.Attr {
-			if getPrefix(v.Name.Local) == nsRDF.GetName() {
+			if getPrefix(v.Name.Local) == nsRDF.GetName() && v.Name.Local != "rdf:type" {
 				continue
 			}
 			if getPrefix(v.Name.Local) == nsXML.GetName() {
-- 
2.43.0


From ee5901e03fe3217317d0050280deacaf1d31355a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:32 +0000
Subject: [PATCH 070/121] fix: no start timecode from negative iXML timestamps

---
 models/ixml/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/ixml/types.go b/models/ixml/types.go
index a78aa47..ee686b2 100644
--- a/models/ixml/types.go
+++ b/models/ixml/types.go
@@ -151,7 +151,7 @@ func (x Speed) XmpTimecode() xmpdm.Timecode {
 	if rate == 0 {
 		rate = int64(x.TimecodeRate.Value() * 1000)
 	}
-	if rate == 0 {
+	if rate <= 0 || samples < 0 {
 		return xmpdm.Timecode{}
 	}
 	sec := samples / rate
-- 
2.43.0


From 9ab8f86b88ff29b870e04a38e10d2896bda7d0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 071/121] fix: read an empty video frame rate as none instead
 of one

---
 models/xmp_dm/types.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index b040e44..0021cf1 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -291,6 +291,9 @@ type VideoFrameRate float64
 func (x *VideoFrameRate) UnmarshalText(data []byte) error {
 	// try detecting supported strings
 	switch strings.ToUpper(string(data)) {
+	case "":
+		*x = 0
+		return nil
 	case "NTSC":
 		*x = VideoFrameRate(29.97)
 		return nil
-- 
2.43.0


From a42272e0f1cc411f2451ba852f7ede48042afb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 072/121] fix: reject malformed properties in extensions
 instead of keeping them half decoded

---
 xmp/xmp_ext.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index 0a8f015..f63f294 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -103,7 +103,10 @@ func (x *Extension) UnmarshalXMP(d *Decoder, src *Node, m Model) error {
 			return fmt.Errorf("xmp: unmarshal %s: unexpected %s in an extension", src.FullName(), child.FullName())
 		}
 		if err := d.decodeNode(&x.Nodes, child); err != nil {
-			// when decoding fails, store as raw child node
+			// properties of unknown namespaces are stored as raw child nodes
+			if _, ok := err.(*UnknownNamespaceError); !ok {
+				return err
+			}
 			x.Nodes = append(x.Nodes, copyNode(child))
 		}
 	}
-- 
2.43.0


From 5528da1335769a7572b4a5f317fb571587fe3d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 073/121] fix: read decimal video frame rates at full precision

---
 models/xmp_dm/types.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index 0021cf1..bb24c77 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -302,23 +302,23 @@ func (x *VideoFrameRate) UnmarshalText(data []byte) error {
 		return nil
 	}
 
-	// try parsing as rational
-	rat := &xmp.Rational{}
-	if err := rat.UnmarshalText(data); err == nil {
-		*x = VideoFrameRate(rat.Value())
-		return nil
-	}
-
 	// parse as float value, strip trailing "fps"
 	v := strings.TrimSpace(strings.TrimSuffix(string(data), "fps"))
 	v = strings.TrimSuffix(v, "i")
 	v = strings.TrimSuffix(v, "p")
-	if f, err := strconv.ParseFloat(v, 64); err != nil {
-		return fmt.Errorf("xmp: invalid video frame rate value '%s': %v", v, err)
-	} else {
+	f, err := strconv.ParseFloat(v, 64)
+	if err == nil {
 		*x = VideoFrameRate(f)
+		return nil
 	}
-	return nil
+
+	// try parsing as rational
+	rat := &xmp.Rational{}
+	if rat.UnmarshalText(data) == nil {
+		*x = VideoFrameRate(rat.Value())
+		return nil
+	}
+	return fmt.Errorf("xmp: invalid video frame rate value '%s': %v", v, err)
 }
 
 // 1.2.6.4 FrameRate
-- 
2.43.0


From 37c7355a9fca35dbc6092a064b9a236dc256859b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 074/121] fix: read identifiers with a scheme from JSON

---
 models/xmp_base/types.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/models/xmp_base/types.go b/models/xmp_base/types.go
index c80bc48..d70e990 100644
--- a/models/xmp_base/types.go
+++ b/models/xmp_base/types.go
@@ -84,6 +84,9 @@ func (x *Identifier) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) e
 		err = d.DecodeElement(&id, node)    // scheme from attr
 	} else {
 		err = d.DecodeElement(&id, node) // both from child nodes
+		if err == nil && id.ID == "" {
+			id.ID = node.Value // value from node.Value, scheme from child node
+		}
 	}
 	if err != nil {
 		return err
-- 
2.43.0


From 4b6b7c9a5305552729f3fe10267be3223fd29511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 075/121] fix: clear values of any type by path, list all
 properties beside empty dates

---
 xmp/path.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index 4c057eb..11235dd 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -1042,6 +1042,16 @@ func setModelPath(v Model, path Path, value string, flags SyncFlags, undo *[]fun
 			return fmt.Errorf("REPLACE flag required for overwriting value at %s on path %s", name, path)
 		}
 
+		// clear values of any type
+		if value == "" {
+			if flags&DELETE == 0 {
+				return fmt.Errorf("DELETE flag required to clear value at %s on path %s", name, path)
+			}
+			fv = finfo.value(val)
+			fv.Set(reflect.Zero(fv.Type()))
+			return nil
+		}
+
 		// Text
 		if fv.CanAddr() {
 			pv := fv.Addr()
@@ -1265,7 +1275,7 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 
 					if isText {
 						b, err := vv.Interface().(encoding.TextMarshaler).MarshalText()
-						if err != nil || b == nil {
+						if err != nil {
 							return nil, err
 						}
 						pvl.Add(path.Push(fname).AppendIndex(i), string(b))
@@ -1309,7 +1319,7 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 
 		if isText {
 			b, err := av.Interface().(encoding.TextMarshaler).MarshalText()
-			if err != nil || b == nil {
+			if err != nil {
 				return nil, err
 			}
 			pvl.Add(path.Push(fname), string(b))
-- 
2.43.0


From cc433ff4fd695a8f4be73852866118df46acb51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 076/121] fix: keep exif tables without columns or rows

---
 models/exif/types.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/models/exif/types.go b/models/exif/types.go
index 3f9c9be..b8e4841 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -164,7 +164,7 @@ type OECF struct {
 }
 
 func (x OECF) IsZero() bool {
-	return x.Columns == 0 || x.Rows == 0
+	return x.Columns == 0 && x.Rows == 0 && len(x.Names) == 0 && len(x.Values) == 0
 }
 
 func (x *OECF) Addr() *OECF {
@@ -215,7 +215,7 @@ type CFAPattern struct {
 }
 
 func (x CFAPattern) IsZero() bool {
-	return x.Columns == 0 || x.Rows == 0
+	return x.Columns == 0 && x.Rows == 0 && len(x.Values) == 0
 }
 
 func (x *CFAPattern) Addr() *CFAPattern {
@@ -266,7 +266,7 @@ type DeviceSettings struct {
 }
 
 func (x DeviceSettings) IsZero() bool {
-	return x.Columns == 0 || x.Rows == 0
+	return x.Columns == 0 && x.Rows == 0 && len(x.Values) == 0
 }
 
 func (x *DeviceSettings) Addr() *DeviceSettings {
-- 
2.43.0


From 578249632581cd5d2ba5b59a8404675d777260b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 077/121] fix: no panic on exif tables with invalid sizes

---
 models/exif/types.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/models/exif/types.go b/models/exif/types.go
index b8e4841..203f63e 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -183,12 +183,10 @@ func (x *OECF) UnmarshalText(data []byte) error {
 			if o.Columns, err = strconv.Atoi(v); err != nil {
 				return fmt.Errorf("exif: invalid OECF columns value '%s': %v", v, err)
 			}
-			o.Names = make(xmp.StringArray, 0, o.Columns)
 		case i == 1:
 			if o.Rows, err = strconv.Atoi(v); err != nil {
 				return fmt.Errorf("exif: invalid OECF rows value '%s': %v", v, err)
 			}
-			o.Values = make(xmp.RationalArray, 0, o.Columns*o.Rows)
 		case i > 1 && i < o.Columns+1:
 			o.Names = append(o.Names, v)
 		default:
@@ -238,7 +236,6 @@ func (x *CFAPattern) UnmarshalText(data []byte) error {
 			if c.Rows, err = strconv.Atoi(v); err != nil {
 				return fmt.Errorf("exif: invalid CFA rows value '%s': %v", v, err)
 			}
-			c.Values = make(ByteArray, 0, c.Columns*c.Rows)
 		default:
 			if j, err := strconv.ParseUint(v, 10, 8); err != nil {
 				return fmt.Errorf("exif: invalid CFA value '%s': %v", v, err)
@@ -289,7 +286,6 @@ func (x *DeviceSettings) UnmarshalText(data []byte) error {
 			if s.Rows, err = strconv.Atoi(v); err != nil {
 				return fmt.Errorf("exif: invalid device settings rows value '%s': %v", v, err)
 			}
-			s.Values = make(xmp.StringArray, 0, s.Columns*s.Rows)
 		default:
 			s.Values = append(s.Values, v)
 		}
-- 
2.43.0


From 0818f70020dc62b384c2f3467c4f5d9a4c6b1511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 078/121] fix: never replace a list without replace flag, write
 lists that start with an empty item

---
 xmp/path.go | 41 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index 11235dd..9ff3b99 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -595,13 +595,21 @@ func (d *Document) setNodePath(m Model, n *Node, path Path, value string, flags
 		return err
 	}
 
+	// lists may start with an empty item
+	isList := false
+	if dest == "" && (value == "" || flags&CREATE == 0) {
+		if isList, err = hasItems(m, n, path); err != nil {
+			return err
+		}
+	}
+
 	// skip when equal
-	if dest == value {
+	if dest == value && !isList {
 		return nil
 	}
 
 	// empty destination values require create flag
-	if dest == "" && flags&(CREATE|APPEND|UNIQUE) == 0 {
+	if dest == "" && !isList && flags&(CREATE|APPEND|UNIQUE) == 0 {
 		return fmt.Errorf("xmp: create flag required to make new attribute at '%s'", path.String())
 	}
 
@@ -623,6 +631,28 @@ func (d *Document) setNodePath(m Model, n *Node, path Path, value string, flags
 	return err
 }
 
+// hasItems returns true when path is a list that contains any value.
+func hasItems(m Model, n *Node, path Path) (bool, error) {
+	var pvl PathValueList
+	if m != nil {
+		l, err := ListModelPaths(m)
+		if err != nil {
+			return false, err
+		}
+		pvl = l
+	}
+	l, err := n.ListPaths(NewPath(n.Name()))
+	if err != nil {
+		return false, err
+	}
+	for _, v := range append(pvl, l...) {
+		if strings.HasPrefix(v.Path.String(), path.String()+"[") {
+			return true, nil
+		}
+	}
+	return false, nil
+}
+
 func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 	// containers created along the path are removed on error
 	var undo []func()
@@ -1004,6 +1034,13 @@ func setModelPath(v Model, path Path, value string, flags SyncFlags, undo *[]fun
 
 				case flags&(REPLACE|CREATE) > 0 && value != "" && idx == -1:
 					// replace entire slice with a single element
+					for i, l := 0, fv.Len(); i < l && flags&REPLACE == 0; i++ {
+						if cur, err := marshalElem(fv.Index(i)); err != nil {
+							return err
+						} else if cur != "" {
+							return fmt.Errorf("REPLACE flag required for overwriting %s on path %s", name, path)
+						}
+					}
 					v := reflect.New(fv.Type().Elem())
 					if v.CanInterface() && v.Type().Implements(textUnmarshalerType) {
 						if err := v.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value)); err != nil {
-- 
2.43.0


From 4bc7595ef0953a5193d3372d388681b984baf771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:47 +0000
Subject: [PATCH 079/121] fix: never write names with undeclared namespaces;
 refuse to bind a namespace to a second prefix

---
 xmp/path.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/xmp/path.go b/xmp/path.go
index 9ff3b99..ea25c3b 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -525,6 +525,9 @@ func (d *Document) SetPath(desc PathValue) error {
 	if ns == nil || err != nil {
 		if desc.Namespace != "" {
 			// custom namespaces are private to a document
+			if ext, ok := d.extNsMap[desc.Namespace]; ok {
+				return fail(fmt.Errorf("xmp: namespace of '%s' is already in use with prefix '%s'", path.String(), ext.GetName()))
+			}
 			ns = &Namespace{path.NamespacePrefix(), desc.Namespace, emptyFactory}
 			d.extNsMap[desc.Namespace] = ns
 		} else {
@@ -543,6 +546,16 @@ func (d *Document) SetPath(desc PathValue) error {
 		return nil
 	}
 
+	// nested names must have a namespace as well
+	for _, v := range path.Fields() {
+		if value == "" || !hasPrefix(v) || strings.HasPrefix(v, "xml:") {
+			continue
+		}
+		if pre := getPrefix(v); d.findNsByPrefix(pre) == nil {
+			return fail(fmt.Errorf("xmp: unknown namespace '%s' in path '%s'", pre, path.String()))
+		}
+	}
+
 	m := d.FindModel(ns)
 	n := d.FindNode(ns)
 	if m == nil && n == nil {
-- 
2.43.0


From c915476defa476740074e54cd71b4b11003f0922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:05 +0000
Subject: [PATCH 080/121] fix: merge keeps default languages, versions and the
 prefixes of unknown namespaces

---
 xmp/sync.go | 95 +++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 93 insertions(+), 2 deletions(-)

diff --git a/xmp/sync.go b/xmp/sync.go
index 588833e..49cb116 100644
--- a/xmp/sync.go
+++ b/xmp/sync.go
@@ -60,6 +60,7 @@ package xmp
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 )
 
@@ -257,13 +258,48 @@ func (d *Document) Merge(b *Document, flags SyncFlags) error {
 	for n, v := range b.intNsMap {
 		d.intNsMap[n] = v
 	}
+	// a namespace has one prefix and a prefix one namespace in each document
+	rename := make(map[string]string)
 	for n, v := range b.extNsMap {
-		d.extNsMap[n] = v
+		name := v.GetName()
+		if ns := d.findNsByURI(n); ns != nil {
+			rename[name] = ns.GetName()
+			continue
+		}
+		for i := 1; d.findNsByPrefix(name) != nil || name != v.GetName() && b.findNsByPrefix(name) != nil; i++ {
+			name = v.GetName() + strconv.Itoa(i)
+		}
+		rename[v.GetName()] = name
+		d.extNsMap[n] = &Namespace{name, n, emptyFactory}
 	}
 
-	// copy content
+	// models are created with defaults that do not count as existing values
+	isNew := make(map[string]bool)
 	for _, v := range p {
+		pre := v.Path.NamespacePrefix()
+		if _, ok := isNew[pre]; ok {
+			continue
+		}
+		ns, _ := v.Path.rename(rename).Namespace(d)
+		isNew[pre] = ns != nil && d.FindModel(ns) == nil && d.FindNode(ns) == nil
+	}
+
+	// copy content
+	for i, v := range p {
+		if alt, ok := splitLang(v.Path); ok && (i == 0 || !strings.HasPrefix(p[i-1].Path.String(), alt+"[")) {
+			n := i + 1
+			for n < len(p) && strings.HasPrefix(p[n].Path.String(), alt+"[") {
+				n++
+			}
+			sortLanguages(p[i:n], b.defaultOf(Path(alt)), d.defaultOf(Path(alt).rename(rename)))
+			v = p[i]
+		}
+		pre := v.Path.NamespacePrefix()
+		v.Path = v.Path.rename(rename)
 		v.Flags = flags
+		if flags&CREATE > 0 && isNew[pre] {
+			v.Flags |= REPLACE
+		}
 		if err := d.SetPath(v); err != nil {
 			return err
 		}
@@ -272,3 +308,58 @@ func (d *Document) Merge(b *Document, flags SyncFlags) error {
 	d.SetDirty()
 	return nil
 }
+
+// splitLang removes the language from the path of a language entry.
+func splitLang(p Path) (string, bool) {
+	s := p.String()
+	i := strings.LastIndexByte(s, '[')
+	if i < 0 || !strings.HasSuffix(s, "]") {
+		return s, false
+	}
+	_, err := strconv.Atoi(s[i+1 : len(s)-1])
+	return s[:i], err != nil
+}
+
+func (d *Document) defaultOf(alt Path) string {
+	val, _ := d.GetPath(alt.AppendIndexString(defaultLang))
+	return val
+}
+
+// sortLanguages moves the default entry of a language alternative to the front
+// when the destination is empty, because its first entry becomes the default,
+// and to the end otherwise.
+func sortLanguages(l PathValueList, val, cur string) {
+	pos := -1
+	for i, v := range l {
+		isDefault := strings.HasSuffix(v.Path.String(), "["+defaultLang+"]")
+		if isDefault || pos < 0 && cur == "" && v.Value == val {
+			pos = i
+		}
+	}
+	if pos < 0 {
+		return
+	}
+	v := l[pos]
+	if cur == "" {
+		copy(l[1:pos+1], l[:pos])
+		l[0] = v
+	} else {
+		copy(l[pos:], l[pos+1:])
+		l[len(l)-1] = v
+	}
+}
+
+// rename replaces namespace prefixes.
+func (x Path) rename(prefixes map[string]string) Path {
+	f := x.Fields()
+	for i, v := range f {
+		if pre, ok := prefixes[getPrefix(v)]; ok && hasPrefix(v) {
+			f[i] = pre + ":" + stripPrefix(v)
+		}
+	}
+	pre := x.NamespacePrefix()
+	if v, ok := prefixes[pre]; ok {
+		pre = v
+	}
+	return NewPath(pre, f...)
+}
-- 
2.43.0


From d7016c47774c8c7ba003d826cf168636ca9d4e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:09 +0000
Subject: [PATCH 081/121] fix: number conflicting prefixes without trying every
 number again

---
 xmp/unmarshal.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 40831e2..12eddf0 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -40,6 +40,7 @@ type Decoder struct {
 	nodes    NodeList
 	intNsMap map[string]*Namespace
 	extNsMap map[string]*Namespace
+	suffixes map[string]int // last number used to make a prefix unique
 	version  Version
 }
 
@@ -49,6 +50,7 @@ func NewDecoder(r io.Reader) *Decoder {
 		nodes:    make(NodeList, 0),
 		intNsMap: make(map[string]*Namespace),
 		extNsMap: make(map[string]*Namespace),
+		suffixes: make(map[string]int),
 	}
 }
 
@@ -433,8 +435,9 @@ func (d *Decoder) collectNamespaces(n *Node) {
 		}
 		if NsRegistry.GetPrefix(uri) == "" && d._findNsByURI(uri) == nil {
 			base := prefix
-			for i := 1; d.isPrefixInUse(prefix); i++ {
-				prefix = base + strconv.Itoa(i)
+			for d.isPrefixInUse(prefix) {
+				d.suffixes[base]++
+				prefix = base + strconv.Itoa(d.suffixes[base])
 			}
 		}
 		d.addNamespace(prefix, uri)
-- 
2.43.0


From afdaad7040c03ae19177c7991de846113ffe5b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:53 +0000
Subject: [PATCH 082/121] fix: read JSON namespaces in a fixed order

---
 xmp/json.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xmp/json.go b/xmp/json.go
index 829be46..43c3f13 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -240,8 +240,13 @@ func (d *Document) UnmarshalJSON(data []byte) error {
 	// register namespaces
 	dec.about = in.About
 	dec.toolkit = in.Toolkit
-	for prefix, uri := range in.Namespaces {
-		dec.addNamespace(prefix, uri)
+	prefixes := make([]string, 0, len(in.Namespaces))
+	for prefix := range in.Namespaces {
+		prefixes = append(prefixes, prefix)
+	}
+	sort.Strings(prefixes)
+	for _, prefix := range prefixes {
+		dec.addNamespace(prefix, in.Namespaces[prefix])
 	}
 
 	// build node tree from JSON models
-- 
2.43.0


From 5ea4f1a6d9960fb399aef6565d8085dec39b0a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:34 +0000
Subject: [PATCH 083/121] fix: native tags of extension fields, byte values and
 rejected values

---
 xmp/array.go  |  6 +++++
 xmp/native.go | 68 ++++++++++++++++++++++++++++++++++++++++++---------
 2 files changed, 62 insertions(+), 12 deletions(-)

diff --git a/xmp/array.go b/xmp/array.go
index e36b370..c1cc46c 100644
--- a/xmp/array.go
+++ b/xmp/array.go
@@ -455,6 +455,9 @@ func (x *StringList) UnmarshalXMP(d *Decoder, node *Node, m Model) error {
 }
 
 func (x *StringList) UnmarshalText(data []byte) error {
+	if len(data) == 0 {
+		return nil
+	}
 	list := strings.Split(strings.Replace(string(data), "\r\n", "\n", -1), "\n")
 	*x = append(*x, list...)
 	return nil
@@ -545,6 +548,9 @@ func (x *StringArray) UnmarshalXMP(d *Decoder, node *Node, m Model) error {
 }
 
 func (x *StringArray) UnmarshalText(data []byte) error {
+	if len(data) == 0 {
+		return nil
+	}
 	list := strings.Split(strings.Replace(string(data), "\r\n", "\n", -1), "\n")
 	*x = append(*x, list...)
 	return nil
diff --git a/xmp/native.go b/xmp/native.go
index b9c579d..19abe1b 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -62,6 +62,28 @@ func (x *TagList) UnmarshalXMP(d *Decoder, node *Node, m Model) error {
 	return nil
 }
 
+func (x TagList) get(key string) string {
+	for _, v := range x {
+		if v.Key == key && v.Lang == "" {
+			return v.Value
+		}
+	}
+	return ""
+}
+
+func (x TagList) set(key, value string) TagList {
+	l := make(TagList, 0, len(x)+1)
+	for _, v := range x {
+		if v.Key != key || v.Lang != "" {
+			l = append(l, v)
+		}
+	}
+	if value == "" {
+		return l
+	}
+	return append(l, Tag{Key: key, Value: value})
+}
+
 func GetNativeField(v Model, name string) (string, error) {
 	nsName, err := getNamespaceName(v)
 	if err != nil {
@@ -75,12 +97,16 @@ func GetNativeField(v Model, name string) (string, error) {
 	}
 
 	fv := finfo.value(val)
-	typ := fv.Type()
 
 	if !fv.IsValid() {
 		return "", nil
 	}
 
+	// unknown tags are kept in a list
+	if l, ok := fv.Interface().(TagList); ok && finfo.flags&fAny > 0 {
+		return l.get(name), nil
+	}
+
 	if (fv.Kind() == reflect.Interface || fv.Kind() == reflect.Ptr) && fv.IsNil() {
 		return "", nil
 	}
@@ -96,6 +122,8 @@ func GetNativeField(v Model, name string) (string, error) {
 		fv = fv.Elem()
 	}
 
+	typ := fv.Type()
+
 	// Check for text marshaler and marshal as node value
 	if fv.CanAddr() {
 		pv := fv.Addr()
@@ -128,7 +156,7 @@ func GetNativeField(v Model, name string) (string, error) {
 	}
 }
 
-func SetNativeField(v Model, name, value string) error {
+func SetNativeField(v Model, name, value string) (err error) {
 	nsName, err := getNamespaceName(v)
 	if err != nil {
 		return err
@@ -142,9 +170,22 @@ func SetNativeField(v Model, name, value string) error {
 
 	f := finfo.value(val)
 
+	// unknown tags are kept in a list
+	if l, ok := f.Interface().(TagList); ok && finfo.flags&fAny > 0 {
+		f.Set(reflect.ValueOf(l.set(name, value)))
+		return nil
+	}
+
 	// allocate memory for pointer values in structs
 	if f.Type().Kind() == reflect.Ptr && f.IsNil() && f.CanSet() {
-		f.Set(reflect.New(f.Type().Elem()))
+		p := f
+		p.Set(reflect.New(p.Type().Elem()))
+		defer func() {
+			// keep rejected values unset
+			if err != nil {
+				p.Set(reflect.Zero(p.Type()))
+			}
+		}()
 	}
 
 	// load and potentially create value
@@ -191,14 +232,11 @@ func SetLocaleField(v Model, lang string, name, value string) error {
 
 	f := finfo.value(val)
 
-	// allocate memory for pointer values in structs
-	if f.Type().Kind() == reflect.Ptr && f.IsNil() && f.CanSet() {
-		f.Set(reflect.New(f.Type().Elem()))
+	// load value
+	if f.Kind() == reflect.Ptr && !f.IsNil() {
+		f = f.Elem()
 	}
 
-	// load and potentially create value
-	f = derefValue(f)
-
 	if f.Kind() != reflect.Slice || f.Type().Elem() != reflect.TypeOf(AltItem{}) {
 		return fmt.Errorf("field '%s' must be of type xmp.AltString, found type '%s' kind '%s'", name, f.Type().String(), f.Kind())
 	}
@@ -228,7 +266,7 @@ func GetLocaleField(v Model, lang string, name string) (string, error) {
 
 	f := finfo.value(val)
 
-	if f.Kind() != reflect.Slice && f.Type().Elem() != reflect.TypeOf(AltItem{}) {
+	if f.Kind() != reflect.Slice || f.Type().Elem() != reflect.TypeOf(AltItem{}) {
 		return "", fmt.Errorf("field '%s' must be of type AltString, found %s (%s)", name, f.Type().String(), f.Kind())
 	}
 
@@ -248,9 +286,8 @@ func ListNativeFields(v Model) (TagList, error) {
 	}
 
 	val := derefIndirect(v)
-	typ := val.Type()
 
-	tinfo, err := getTypeInfo(typ, nsName)
+	tinfo, err := getTypeInfo(val.Type(), nsName)
 	if err != nil {
 		return nil, err
 	}
@@ -280,6 +317,13 @@ func ListNativeFields(v Model) (TagList, error) {
 			fv = fv.Elem()
 		}
 
+		// unknown tags are kept in a list
+		if l, ok := fv.Interface().(TagList); ok && finfo.flags&fAny > 0 {
+			tagList = append(tagList, l...)
+			continue
+		}
+
+		typ := fv.Type()
 		tag := Tag{
 			Key: finfo.name,
 		}
-- 
2.43.0


From 4bce7e5672d024dafb5e4c08ab0f094cce5c6140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:37 +0000
Subject: [PATCH 084/121] fix: EXIF tags in lower case, without properties that
 are no EXIF tags

---
 models/exif/model.go | 31 ++++++++++++++++---------------
 models/exif/types.go |  4 ++++
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/models/exif/model.go b/models/exif/model.go
index f1d5308..053343a 100644
--- a/models/exif/model.go
+++ b/models/exif/model.go
@@ -233,21 +233,21 @@ type ExifInfo struct {
 	ExGamma                     xmp.Rational      `exif:"0xa500" xmp:"exif:Gamma"`
 
 	// non-standard prefixed ExifAux namespace
-	AuxApproximateFocusDistance                           xmp.Rational `xmp:"exif:ApproximateFocusDistance"` // 315/10
-	AuxDistortionCorrectionAlreadyApplied                 xmp.Bool     `xmp:"exif:DistortionCorrectionAlreadyApplied"`
-	AuxSerialNumber                                       string       `xmp:"exif:SerialNumber"`                                       // 2481231346
-	AuxLensInfo                                           string       `xmp:"exif:LensInfo"`                                           // 10/1 22/1 0/0 0/0
-	AuxLensDistortInfo                                    string       `xmp:"exif:LensDistortInfo"`                                    //
-	AuxLens                                               string       `xmp:"exif:Lens"`                                               // EF-S10-22mm f/3.5-4.5 USM
-	AuxLensID                                             string       `xmp:"exif:LensID"`                                             // 235
-	AuxImageNumber                                        int          `xmp:"exif:ImageNumber"`                                        // 0
-	AuxIsMergedHDR                                        xmp.Bool     `xmp:"exif:IsMergedHDR"`                                        //
-	AuxIsMergedPanorama                                   xmp.Bool     `xmp:"exif:IsMergedPanorama"`                                   //
-	AuxLateralChromaticAberrationCorrectionAlreadyApplied xmp.Bool     `xmp:"exif:LateralChromaticAberrationCorrectionAlreadyApplied"` //
-	AuxVignetteCorrectionAlreadyApplied                   xmp.Bool     `xmp:"exif:VignetteCorrectionAlreadyApplied"`                   //
-	AuxFlashCompensation                                  xmp.Rational `xmp:"exif:FlashCompensation"`                                  // 0/1
-	AuxFirmware                                           string       `xmp:"exif:Firmware"`                                           // 1.2.5
-	AuxOwnerName                                          string       `xmp:"exif:OwnerName"`                                          // unknown
+	AuxApproximateFocusDistance                           xmp.Rational `exif:"-" xmp:"exif:ApproximateFocusDistance"` // 315/10
+	AuxDistortionCorrectionAlreadyApplied                 xmp.Bool     `exif:"-" xmp:"exif:DistortionCorrectionAlreadyApplied"`
+	AuxSerialNumber                                       string       `exif:"-" xmp:"exif:SerialNumber"`                                       // 2481231346
+	AuxLensInfo                                           string       `exif:"-" xmp:"exif:LensInfo"`                                           // 10/1 22/1 0/0 0/0
+	AuxLensDistortInfo                                    string       `exif:"-" xmp:"exif:LensDistortInfo"`                                    //
+	AuxLens                                               string       `exif:"-" xmp:"exif:Lens"`                                               // EF-S10-22mm f/3.5-4.5 USM
+	AuxLensID                                             string       `exif:"-" xmp:"exif:LensID"`                                             // 235
+	AuxImageNumber                                        int          `exif:"-" xmp:"exif:ImageNumber"`                                        // 0
+	AuxIsMergedHDR                                        xmp.Bool     `exif:"-" xmp:"exif:IsMergedHDR"`                                        //
+	AuxIsMergedPanorama                                   xmp.Bool     `exif:"-" xmp:"exif:IsMergedPanorama"`                                   //
+	AuxLateralChromaticAberrationCorrectionAlreadyApplied xmp.Bool     `exif:"-" xmp:"exif:LateralChromaticAberrationCorrectionAlreadyApplied"` //
+	AuxVignetteCorrectionAlreadyApplied                   xmp.Bool     `exif:"-" xmp:"exif:VignetteCorrectionAlreadyApplied"`                   //
+	AuxFlashCompensation                                  xmp.Rational `exif:"-" xmp:"exif:FlashCompensation"`                                  // 0/1
+	AuxFirmware                                           string       `exif:"-" xmp:"exif:Firmware"`                                           // 1.2.5
+	AuxOwnerName                                          string       `exif:"-" xmp:"exif:OwnerName"`                                          // unknown
 	// AuxLensSerialNumber                                   string        `xmp:"exif:LensSerialNumber"`
 }
 
@@ -376,6 +376,7 @@ func (x *ExifInfo) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *ExifInfo) CanTag(tag string) bool {
+	tag = strings.ToLower(tag)
 	_, err := xmp.GetNativeField(x, tag)
 	return err == nil
 }
diff --git a/models/exif/types.go b/models/exif/types.go
index 203f63e..2c2f17a 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -351,6 +351,10 @@ func (x *Flash) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error
 
 type GPSCoord [3]xmp.Rational
 
+func (x GPSCoord) IsZero() bool {
+	return x == GPSCoord{}
+}
+
 // unmarshal from decimal
 func (x *GPSCoord) UnmarshalText(data []byte) error {
 	s := string(data)
-- 
2.43.0


From 45848c93c304f98ab44ec2156aacd31e7d70390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:40 +0000
Subject: [PATCH 085/121] fix: RIFF tags are usable: no tag is declared twice
 and values have text forms

---
 models/riff/model.go |  4 ++--
 models/riff/types.go | 22 ++++++++++++++++++++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/models/riff/model.go b/models/riff/model.go
index ef04520..c27825a 100644
--- a/models/riff/model.go
+++ b/models/riff/model.go
@@ -79,7 +79,7 @@ type RiffInfo struct {
 	SoundSchemeTitle    string `riffinfo:"DISP" xmp:"riffinfo:SoundSchemeTitle"`
 	DateTimeOriginal    string `riffinfo:"DTIM" xmp:"riffinfo:DateTimeOriginal"`
 	Genre2              string `riffinfo:"GENR" xmp:"riffinfo:Genre"`
-	ArchivalLocation    string `riffinfo:"IARL" xmp:"riffinfo:ArchivalLocation"`
+	ArchivalLocation    string `riffinfo:"-"    xmp:"riffinfo:ArchivalLocation"`
 	FirstLanguage       string `riffinfo:"IAS1" xmp:"riffinfo:FirstLanguage"`
 	SecondLanguage      string `riffinfo:"IAS2" xmp:"riffinfo:SecondLanguage"`
 	ThirdLanguage       string `riffinfo:"IAS3" xmp:"riffinfo:ThirdLanguage"`
@@ -92,7 +92,7 @@ type RiffInfo struct {
 	BaseURL             string `riffinfo:"IBSU" xmp:"riffinfo:BaseURL"`
 	DefaultAudioStream  string `riffinfo:"ICAS" xmp:"riffinfo:DefaultAudioStream"`
 	CostumeDesigner     string `riffinfo:"ICDS" xmp:"riffinfo:CostumeDesigner"`
-	Commissioned        string `riffinfo:"ICMS" xmp:"riffinfo:Commissioned"`
+	Commissioned        string `riffinfo:"-"    xmp:"riffinfo:Commissioned"`
 	Cinematographer     string `riffinfo:"ICNM" xmp:"riffinfo:Cinematographer"`
 	Country             string `riffinfo:"ICNT" xmp:"riffinfo:Country"`
 	Cropped             string `riffinfo:"ICRP" xmp:"riffinfo:Cropped"`
diff --git a/models/riff/types.go b/models/riff/types.go
index e888026..33a8e94 100644
--- a/models/riff/types.go
+++ b/models/riff/types.go
@@ -26,10 +26,21 @@ func (a StringArray) Typ() xmp.ArrayType {
 }
 
 func (x *StringArray) UnmarshalText(data []byte) error {
+	if len(data) == 0 {
+		*x = nil
+		return nil
+	}
 	*x = strings.Split(string(data), "; ")
 	return nil
 }
 
+func (x StringArray) MarshalText() ([]byte, error) {
+	if len(x) == 0 {
+		return nil, nil
+	}
+	return []byte(strings.Join(x, "; ")), nil
+}
+
 func (x StringArray) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error {
 	return xmp.MarshalArray(e, node, x.Typ(), x)
 }
@@ -49,6 +60,17 @@ func (x *AltString) UnmarshalText(data []byte) error {
 	return nil
 }
 
+func (x AltString) MarshalText() ([]byte, error) {
+	if len(x) == 0 {
+		return nil, nil
+	}
+	s := make([]string, len(x))
+	for i, v := range x {
+		s[i] = v.Value
+	}
+	return []byte(strings.Join(s, "; ")), nil
+}
+
 func (x AltString) Typ() xmp.ArrayType {
 	return xmp.ArrayTypeAlternative
 }
-- 
2.43.0


From 2839969026870a1fda44ffea41ba9aa451748bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:43 +0000
Subject: [PATCH 086/121] fix: ID3 language tags use ID3 tag names

---
 models/id3/model.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/models/id3/model.go b/models/id3/model.go
index f5a0471..ebf1866 100644
--- a/models/id3/model.go
+++ b/models/id3/model.go
@@ -479,7 +479,11 @@ func (x *ID3) GetLocaleTag(lang string, tag string) (string, error) {
 }
 
 func (x *ID3) SetLocaleTag(lang string, tag, value string) error {
-	if err := xmp.SetLocaleField(x, lang, tag, value); err != nil {
+	t, err := mapTagToV24(tag)
+	if err != nil {
+		return err
+	}
+	if err := xmp.SetLocaleField(x, lang, t, value); err != nil {
 		return fmt.Errorf("%s: %v", NsID3.GetName(), err)
 	}
 	return nil
-- 
2.43.0


From 9bc9dd18b2f39a49ccefa6e4a91ef8e4fb8d90a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 087/121] fix: QuickTime tags with multi-byte codes, unknown
 values and part lists

---
 models/qt/model.go | 71 ++++++++++++++++++++++++++++++++--------------
 models/qt/types.go |  5 +++-
 2 files changed, 53 insertions(+), 23 deletions(-)

diff --git a/models/qt/model.go b/models/qt/model.go
index 76ebc1b..acf7a86 100644
--- a/models/qt/model.go
+++ b/models/qt/model.go
@@ -54,6 +54,7 @@ package qt
 import (
 	"fmt"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/trimmer-io/go-xmp/models/ixml"
 	"github.com/trimmer-io/go-xmp/xmp"
@@ -175,17 +176,17 @@ func (x QtInfo) SyncToXMP(d *xmp.Document) error {
 
 func (x *QtInfo) CanTag(tag string) bool {
 	switch {
-	case len(tag) == 4:
+	case utf8.RuneCountInString(tag) == 4:
 		v := &QtUserdata{}
 		_, err := xmp.GetNativeField(v, tag)
 		return err == nil
-	case strings.HasPrefix("com.apple.quicktime.player", tag):
+	case strings.HasPrefix(tag, "com.apple.quicktime.player"):
 		v := &QtPlayer{}
 		return v.CanTag(tag)
-	case strings.HasPrefix("com.apple.quicktime", tag):
+	case strings.HasPrefix(tag, "com.apple.quicktime"):
 		v := &QtMetadata{}
 		return v.CanTag(tag)
-	case strings.HasPrefix("com.apple.proapps", tag):
+	case strings.HasPrefix(tag, "com.apple.proapps"):
 		v := &QtProApps{}
 		return v.CanTag(tag)
 	case tag == "XMP_" || tag == "iXML" || tag == "info.ixml.xml" || tag == "info.ixml.metadata" || tag == "info.ixml.info":
@@ -196,7 +197,7 @@ func (x *QtInfo) CanTag(tag string) bool {
 
 func (x *QtInfo) GetTag(tag string) (string, error) {
 	switch {
-	case len(tag) == 4:
+	case utf8.RuneCountInString(tag) == 4:
 		if x.Udta == nil {
 			return "", nil
 		}
@@ -238,34 +239,42 @@ func (x *QtInfo) GetTag(tag string) (string, error) {
 
 func (x *QtInfo) SetTag(tag, value string) error {
 	switch {
-	case len(tag) == 4:
-		if x.Udta == nil {
-			x.Udta = &QtUserdata{}
+	case utf8.RuneCountInString(tag) == 4:
+		v := x.Udta
+		if v == nil {
+			v = &QtUserdata{}
 		}
-		if err := xmp.SetNativeField(x.Udta, tag, value); err != nil {
+		if err := xmp.SetNativeField(v, tag, value); err != nil {
 			return fmt.Errorf("%s: %v", NsQuicktime.GetName(), err)
 		}
+		x.Udta = v
 	case strings.HasPrefix(tag, "com.apple.quicktime.player"):
-		if x.Player == nil {
-			x.Player = &QtPlayer{}
+		v := x.Player
+		if v == nil {
+			v = &QtPlayer{}
 		}
-		if err := xmp.SetNativeField(x.Player, tag, value); err != nil {
+		if err := xmp.SetNativeField(v, tag, value); err != nil {
 			return fmt.Errorf("%s: %v", NsQuicktime.GetName(), err)
 		}
+		x.Player = v
 	case strings.HasPrefix(tag, "com.apple.quicktime"):
-		if x.Mdta == nil {
-			x.Mdta = &QtMetadata{}
+		v := x.Mdta
+		if v == nil {
+			v = &QtMetadata{}
 		}
-		if err := xmp.SetNativeField(x.Mdta, tag, value); err != nil {
+		if err := xmp.SetNativeField(v, tag, value); err != nil {
 			return fmt.Errorf("%s: %v", NsQuicktime.GetName(), err)
 		}
+		x.Mdta = v
 	case strings.HasPrefix(tag, "com.apple.proapps"):
-		if x.ProApps == nil {
-			x.ProApps = &QtProApps{}
+		v := x.ProApps
+		if v == nil {
+			v = &QtProApps{}
 		}
-		if err := xmp.SetNativeField(x.ProApps, tag, value); err != nil {
+		if err := xmp.SetNativeField(v, tag, value); err != nil {
 			return fmt.Errorf("%s: %v", NsQuicktime.GetName(), err)
 		}
+		x.ProApps = v
 	case tag == "iXML" || tag == "info.ixml.xml" || tag == "info.ixml.metadata" || tag == "info.ixml.info":
 		i := &ixml.IXML{}
 		if err := i.ParseXML([]byte(value)); err != nil {
@@ -287,9 +296,27 @@ func (x *QtInfo) SetTag(tag, value string) error {
 }
 
 func (x *QtInfo) ListTags() (xmp.TagList, error) {
-	if l, err := xmp.ListNativeFields(x); err != nil {
-		return nil, fmt.Errorf("%s: %v", NsQuicktime.GetName(), err)
-	} else {
-		return l, nil
+	models := make([]xmp.Model, 0, 5)
+	if x.Udta != nil {
+		models = append(models, x.Udta)
+	}
+	if x.Mdta != nil {
+		models = append(models, x.Mdta)
+	}
+	if x.Player != nil {
+		models = append(models, x.Player)
+	}
+	if x.ProApps != nil {
+		models = append(models, x.ProApps)
+	}
+	models = append(models, x)
+	list := make(xmp.TagList, 0)
+	for _, m := range models {
+		l, err := xmp.ListNativeFields(m)
+		if err != nil {
+			return nil, fmt.Errorf("%s: %v", NsQuicktime.GetName(), err)
+		}
+		list = append(list, l...)
 	}
+	return list, nil
 }
diff --git a/models/qt/types.go b/models/qt/types.go
index 99c8158..8fb2866 100644
--- a/models/qt/types.go
+++ b/models/qt/types.go
@@ -59,7 +59,10 @@ type Location struct {
 
 func (x *Location) UnmarshalText(data []byte) error {
 	// todo: need sample data
-	return nil
+	if len(data) == 0 {
+		return nil
+	}
+	return fmt.Errorf("qt: unsupported location value '%s'", string(data))
 }
 
 type Point struct {
-- 
2.43.0


From 97579e12f625ab88196c263fceb2a19406adf150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:50 +0000
Subject: [PATCH 088/121] fix: native iXML tags do not list the XML name

---
 models/ixml/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/ixml/model.go b/models/ixml/model.go
index 6f65bc0..eb06343 100644
--- a/models/ixml/model.go
+++ b/models/ixml/model.go
@@ -69,7 +69,7 @@ func FindModel(d *xmp.Document) *IXML {
 }
 
 type IXML struct {
-	XMLName              xml.Name                `xml:"BWFXML"                            xmp:"-"`
+	XMLName              xml.Name                `iXML:"-" xml:"BWFXML"                            xmp:"-"`
 	Version              string                  `xml:"IXML_VERSION"                      xmp:"iXML:version"`
 	Project              string                  `xml:"PROJECT,omitempty"                 xmp:"iXML:project"`
 	SceneName            string                  `xml:"SCENE,omitempty"                   xmp:"iXML:sceneName"`
-- 
2.43.0


From bb748e803e4572705b876de5f74dc047b22cd671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:20 +0000
Subject: [PATCH 089/121] fix: keep every named extension, also those with
 equal names

---
 xmp/xmp_ext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index f63f294..97cc1f5 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -199,7 +199,7 @@ func (x NamedExtensionArray) MarshalXMP(e *Encoder, node *Node, m Model) error {
 		if ext.Value == "" && len(ext.Nodes) == 0 && len(ext.GetAttr("", "parseType")) == 0 {
 			ext.AddAttr(rdfResourceAttr)
 		}
-		node.AddNode(ext)
+		node.AppendNode(ext)
 	}
 	return nil
 }
-- 
2.43.0


From 4f08d7b6cd3c51ad4d24f6a7885ad2c9d00c43f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:24 +0000
Subject: [PATCH 090/121] fix: empty iXML lists have no items, X-X_Y is the
 name of a function

---
 models/ixml/enum.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/models/ixml/enum.go b/models/ixml/enum.go
index f36ccc9..ff37eae 100644
--- a/models/ixml/enum.go
+++ b/models/ixml/enum.go
@@ -104,10 +104,11 @@ func (x TakeTypeList) MarshalText() ([]byte, error) {
 }
 
 func (x *TakeTypeList) UnmarshalText(data []byte) error {
-	fields := strings.Split(string(data), ",")
-	if len(fields) == 0 {
+	if len(data) == 0 {
+		*x = nil
 		return nil
 	}
+	fields := strings.Split(string(data), ",")
 	ttl := make(TakeTypeList, len(fields))
 	for i, v := range fields {
 		ttl[i] = ParseTakeType(v)
@@ -169,10 +170,11 @@ func (x LocationTypeList) MarshalText() ([]byte, error) {
 }
 
 func (x *LocationTypeList) UnmarshalText(data []byte) error {
-	fields := strings.Split(string(data), ",")
-	if len(fields) == 0 {
+	if len(data) == 0 {
+		*x = nil
 		return nil
 	}
+	fields := strings.Split(string(data), ",")
 	ttl := make(LocationTypeList, len(fields))
 	for i, v := range fields {
 		ttl[i] = ParseLocationType(v)
@@ -261,10 +263,11 @@ func (x LocationTimeList) MarshalText() ([]byte, error) {
 }
 
 func (x *LocationTimeList) UnmarshalText(data []byte) error {
-	fields := strings.Split(string(data), ",")
-	if len(fields) == 0 {
+	if len(data) == 0 {
+		*x = nil
 		return nil
 	}
+	fields := strings.Split(string(data), ",")
 	ttl := make(LocationTimeList, len(fields))
 	for i, v := range fields {
 		ttl[i] = ParseLocationTime(v)
@@ -287,7 +290,7 @@ type FunctionType string
 const (
 	FunctionMS_M         FunctionType = "M-MID_SIDE"
 	FunctionMS_S         FunctionType = "S-MID_SIDE"
-	FunctionXY_X         FunctionType = "X-X_Y "
+	FunctionXY_X         FunctionType = "X-X_Y"
 	FunctionXY_Y         FunctionType = "Y-X_Y"
 	FunctionMix_L        FunctionType = "L-MIX"
 	FunctionMix_R        FunctionType = "R-MIX"
-- 
2.43.0


From 98a1f8213e380f5313f8dfb21e1b40af39d63908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:27 +0000
Subject: [PATCH 091/121] fix: compare converted values in Sync, create list
 items and models only with a value and clear values with DELETE only

---
 xmp/sync.go | 56 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/xmp/sync.go b/xmp/sync.go
index 49cb116..f4b5b7b 100644
--- a/xmp/sync.go
+++ b/xmp/sync.go
@@ -189,15 +189,6 @@ func (d *Document) Sync(sPath, dPath Path, flags SyncFlags, v Model, f Converter
 		dModel = d.FindModel(dNs)
 	}
 
-	// create dPath model
-	if dModel == nil {
-		if flags&CREATE == 0 {
-			return nil
-		}
-		dModel = dNs.NewModel()
-		d.AddModel(dModel)
-	}
-
 	sValue, err := GetModelPath(sModel, sPath)
 	if err != nil {
 		if flags&NOFAIL > 0 {
@@ -205,7 +196,34 @@ func (d *Document) Sync(sPath, dPath Path, flags SyncFlags, v Model, f Converter
 		}
 		return err
 	}
+
+	// empty source will only be used with delete flag
+	if sValue == "" && flags&DELETE == 0 {
+		return nil
+	}
+
+	// convert the source value if requested
+	if f != nil {
+		sValue = f(sValue)
+	}
+
+	// create dPath model
+	isNew := dModel == nil
+	if isNew {
+		if flags&CREATE == 0 || sValue == "" {
+			return nil
+		}
+		// skip when there is no model for the namespace
+		if dModel = dNs.NewModel(); dModel == nil {
+			return nil
+		}
+	}
+
 	dValue, err := GetModelPath(dModel, dPath)
+	if err == errNotFound {
+		// a missing list item can be created, anything else fails below
+		dValue, err = "", nil
+	}
 	if err != nil {
 		if flags&NOFAIL > 0 {
 			return nil
@@ -218,32 +236,28 @@ func (d *Document) Sync(sPath, dPath Path, flags SyncFlags, v Model, f Converter
 		return nil
 	}
 
-	// empty source will only be used with delete flag
-	if sValue == "" && flags&DELETE == 0 {
-		return nil
-	}
-
 	// empty destination values require create flag
 	if dValue == "" && flags&CREATE == 0 {
 		return nil
 	}
 
-	// existing destination values require replace/delete/append/unique flag
-	if dValue != "" && flags&(REPLACE|DELETE|APPEND|UNIQUE) == 0 {
+	// existing destination values require replace/append/unique flag, or
+	// delete flag to be cleared
+	if dValue != "" && flags&(REPLACE|APPEND|UNIQUE) == 0 && (sValue != "" || flags&DELETE == 0) {
 		return nil
 	}
 
-	// convert the source value if requested
-	if f != nil {
-		sValue = f(sValue)
-	}
-
 	if err = SetModelPath(dModel, dPath, sValue, flags); err != nil {
 		if flags&NOFAIL > 0 {
 			return nil
 		}
 		return err
 	}
+	if isNew {
+		if _, err = d.AddModel(dModel); err != nil {
+			return err
+		}
+	}
 	d.SetDirty()
 	return nil
 }
-- 
2.43.0


From 3bec2419c97fcc42bf494ada5db232a5d36551c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:12 +0000
Subject: [PATCH 092/121] fix: address named extensions by path and keep other
 unknown properties out of them

---
 xmp/path.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/xmp/path.go b/xmp/path.go
index ea25c3b..3f4c9ff 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -331,7 +331,12 @@ func findPathField(val reflect.Value, prefix, name string) (*fieldInfo, error) {
 	if finfo, err := findField(val, prefix+":"+name, "xmp"); err == nil && finfo.name == prefix+":"+name {
 		return finfo, nil
 	}
-	return findField(val, name, "xmp")
+	finfo, err := findField(val, name, "xmp")
+	if err == nil && stripPrefix(finfo.name) != stripPrefix(name) {
+		// fields for any other name are for native formats
+		err = errNotFound
+	}
+	return finfo, err
 }
 
 func GetModelPath(v Model, path Path) (string, error) {
@@ -416,10 +421,17 @@ func GetModelPath(v Model, path Path) (string, error) {
 				return node.GetPath(walker)
 
 			case NamedExtensionArray:
+				if walker.Len() == 0 {
+					return "", errNotFound
+				}
+				name, walker = walker.PopFront()
 				node := arr.FindNodeByName(name)
 				if node == nil {
 					return "", errNotFound
 				}
+				if walker.Len() == 0 {
+					return node.Value, nil
+				}
 				return node.GetPath(walker)
 
 			case AltString:
@@ -847,6 +859,15 @@ func setModelPath(v Model, path Path, value string, flags SyncFlags, undo *[]fun
 
 			case *NamedExtensionArray:
 				// Named extensions do not contain models
+				if walker.Len() == 0 {
+					if value != "" {
+						return fmt.Errorf("extension name required on path %s", path)
+					}
+					if flags&DELETE > 0 {
+						*arr = nil
+					}
+					return nil
+				}
 				// unwrap extension namespace and keep path remainder
 				name, walker = walker.PopFront()
 				node := arr.FindNodeByName(name)
-- 
2.43.0


From 2f4f1837fafc2ea9048094fd1a75aa0cdbe15ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:56 +0000
Subject: [PATCH 093/121] fix: values of another model's namespace no longer
 overwrite the ones its own model has

---
 xmp/json.go    |  1 +
 xmp/marshal.go | 27 ++++++++++++++
 xmp/path.go    | 96 ++++++++++++++++++++++++++++++++++++++++++++------
 3 files changed, 114 insertions(+), 10 deletions(-)

diff --git a/xmp/json.go b/xmp/json.go
index 43c3f13..298174b 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -66,6 +66,7 @@ func (d *Document) MarshalJSON() ([]byte, error) {
 		// 1.1  encode the model (Note: models typically use multiple XMP namespaces)
 		//      so we generate wrapper nodes on the fly
 		if n.Model != nil {
+			e.model = n.Model
 			if err := e.marshalValue(reflect.ValueOf(n.Model), nil, e.root, true); err != nil {
 				return nil, err
 			}
diff --git a/xmp/marshal.go b/xmp/marshal.go
index 8ae7273..5c161c6 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -44,6 +44,7 @@ type Encoder struct {
 	e        *xml.Encoder
 	cw       *countWriter
 	root     *Node
+	model    Model
 	version  Version
 	nsTagMap map[string]string
 	intNsMap map[string]*Namespace
@@ -160,6 +161,7 @@ func (e *Encoder) Encode(d *Document) error {
 		// 1.1  encode the model (Note: models typically use multiple XMP namespaces)
 		//      so we generate wrapper nodes on the fly
 		if n.Model != nil {
+			e.model = n.Model
 			if err := e.marshalValue(reflect.ValueOf(n.Model), nil, e.root, true); err != nil {
 				return err
 			}
@@ -472,6 +474,9 @@ func (e *Encoder) marshalValue(val reflect.Value, finfo *fieldInfo, node *Node,
 				dest = NewNode(ns.XMLName(""))
 				node.AddNode(dest)
 			}
+			if e.isDefined(dest, finfo.name) {
+				continue
+			}
 		} else {
 			dest = node
 		}
@@ -494,7 +499,29 @@ func (e *Encoder) marshalValue(val reflect.Value, finfo *fieldInfo, node *Node,
 	return nil
 }
 
+// isDefined returns true for properties in the namespace of another model when
+// that model has already defined a value.
+func (e *Encoder) isDefined(dest *Node, name string) bool {
+	if e.model == nil || e.model.Can(getPrefix(name)) {
+		return false
+	}
+	for _, v := range dest.Nodes {
+		if v.FullName() == name {
+			return true
+		}
+	}
+	for _, v := range dest.Attr {
+		if v.Name.Local == name {
+			return true
+		}
+	}
+	return false
+}
+
 func isEmptyValue(v reflect.Value) bool {
+	if (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) && v.IsNil() {
+		return true
+	}
 	if v.CanInterface() && v.Type().Implements(zeroType) {
 		return v.Interface().(Zero).IsZero()
 	}
diff --git a/xmp/path.go b/xmp/path.go
index 3f4c9ff..df0eafc 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -259,6 +259,13 @@ func (x Path) fieldPrefix() string {
 	return ns
 }
 
+// property returns the name of the first property on this path.
+func (x Path) property() string {
+	name, _ := x.PopFront()
+	name, _, _ = parsePathSegment(name)
+	return x.PeekNamespacePrefix() + ":" + name
+}
+
 func (x *Path) UnmarshalText(data []byte) error {
 	p := Path(string(data))
 	if !p.IsXmpPath() {
@@ -305,16 +312,16 @@ func (d *Document) GetPath(path Path) (string, error) {
 }
 
 // getForeignPath looks up path in models that carry properties from the
-// namespace of another model.
+// namespace of another model unless that model has a value.
 func (d *Document) getForeignPath(owner *Node, path Path) string {
-	name, _ := path.PopFront()
-	name, _, _ = parsePathSegment(name)
-	name = path.PeekNamespacePrefix() + ":" + name
-	for _, n := range d.nodes {
-		if n == owner || n.Model == nil {
-			continue
+	name := path.property()
+	if owner != nil && owner.Model != nil {
+		if fv := mirroredField(owner.Model, name); fv.IsValid() && !isEmptyValue(fv) {
+			return ""
 		}
-		if finfo, err := findField(derefIndirect(n.Model), name, "xmp"); err != nil || finfo.name != name {
+	}
+	for _, n := range d.nodes {
+		if n == owner || n.Model == nil || !mirroredField(n.Model, name).IsValid() {
 			continue
 		}
 		if s, err := GetModelPath(n.Model, path); err == nil && s != "" {
@@ -324,6 +331,64 @@ func (d *Document) getForeignPath(owner *Node, path Path) string {
 	return ""
 }
 
+// updateForeign keeps properties that are carried by multiple models equal
+// after the value in the owner of their namespace has changed.
+func (d *Document) updateForeign(owner Model, path Path) {
+	name := path.property()
+	src := mirroredField(owner, name)
+	if !src.IsValid() {
+		return
+	}
+	for _, n := range d.nodes {
+		if n.Model == nil || n.Model == owner {
+			continue
+		}
+		dst := mirroredField(n.Model, name)
+		switch {
+		case !dst.IsValid() || !dst.CanSet() || isEmptyValue(dst):
+			continue
+		case isEmptyValue(src):
+			dst.Set(reflect.Zero(dst.Type()))
+		case src.Type() == dst.Type():
+			dst.Set(src)
+		case src.Kind() == dst.Kind() && src.Type().ConvertibleTo(dst.Type()):
+			dst.Set(src.Convert(dst.Type()))
+		}
+	}
+}
+
+// clearForeign deletes a property that is only carried by models for other
+// namespaces.
+func (d *Document) clearForeign(path Path, flags SyncFlags) error {
+	name := path.property()
+	for _, n := range d.nodes {
+		if n.Model == nil {
+			continue
+		}
+		if fv := mirroredField(n.Model, name); !fv.IsValid() || isEmptyValue(fv) {
+			continue
+		}
+		if err := SetModelPath(n.Model, path, "", flags); err != nil {
+			return err
+		}
+		d.SetDirty()
+	}
+	return nil
+}
+
+// mirroredField returns the field that is stored under the exact name.
+func mirroredField(m Model, name string) reflect.Value {
+	if m == nil {
+		return reflect.Value{}
+	}
+	val := derefIndirect(m)
+	finfo, err := findField(val, name, "xmp")
+	if err != nil || finfo.name != name || finfo.flags&fOmit > 0 {
+		return reflect.Value{}
+	}
+	return finfo.value(val)
+}
+
 // findPathField prefers the field from the namespace a path segment belongs to
 // and falls back to the short-form of name to find fields across namespaces
 // (e.g. some models use different namespaces internally).
@@ -573,7 +638,7 @@ func (d *Document) SetPath(desc PathValue) error {
 	if m == nil && n == nil {
 		// nothing to delete
 		if value == "" {
-			return nil
+			return fail(d.clearForeign(path, flags))
 		}
 		if flags&CREATE == 0 {
 			return fail(fmt.Errorf("xmp: create flag required to make model for '%s'", path.String()))
@@ -651,6 +716,9 @@ func (d *Document) setNodePath(m Model, n *Node, path Path, value string, flags
 		err = n.SetPath(path, value, flags)
 	}
 	if err == nil {
+		if m != nil {
+			d.updateForeign(m, path)
+		}
 		d.SetDirty()
 	}
 	return err
@@ -1186,7 +1254,15 @@ func (d *Document) ListPaths() (PathValueList, error) {
 		}
 		l = append(l, r...)
 	}
-	l = append(l, foreign...)
+	own := make(map[string]bool)
+	for _, pv := range l {
+		own[pv.Path.property()] = true
+	}
+	for _, pv := range foreign {
+		if !own[pv.Path.property()] {
+			l = append(l, pv)
+		}
+	}
 	sort.Stable(byPath(l))
 	return l.Unique(), nil
 }
-- 
2.43.0


From 3e8216afa96f8cb032b86ac929c8a2310e9a8750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:59 +0000
Subject: [PATCH 094/121] fix: ixml takes are take numbers and only circled
 takes are good

---
 models/ixml/model.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/models/ixml/model.go b/models/ixml/model.go
index eb06343..60615eb 100644
--- a/models/ixml/model.go
+++ b/models/ixml/model.go
@@ -122,7 +122,7 @@ func (x *IXML) SyncToXMP(d *xmp.Document) error {
 		dm.Scene = x.SceneName
 	}
 	if x.Take != 0 {
-		dm.TrackNumber = x.Take
+		dm.TakeNumber = x.Take
 	}
 	if x.Note != "" {
 		dm.LogComment = x.Note
@@ -130,7 +130,9 @@ func (x *IXML) SyncToXMP(d *xmp.Document) error {
 	if x.Project != "" {
 		dm.ProjectName = x.Project
 	}
-	dm.Good = xmp.Bool(x.IsCircled.Value())
+	if x.IsCircled.Value() {
+		dm.Good = xmp.True
+	}
 	if x.Speed != nil {
 		if tc := x.Speed.XmpTimecode(); !tc.IsZero() {
 			dm.StartTimecode = tc
-- 
2.43.0


From 77384dc15ccee39dd88724e3e19ca6e8f8c2fb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:02 +0000
Subject: [PATCH 095/121] fix: id3 only propagates a set compilation flag

---
 models/id3/model.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/models/id3/model.go b/models/id3/model.go
index ebf1866..6d7d148 100644
--- a/models/id3/model.go
+++ b/models/id3/model.go
@@ -120,8 +120,6 @@ func (x *ID3) SyncFromXMP(d *xmp.Document) error {
 		}
 		if dm.PartOfCompilation.Value() {
 			x.IsCompilation = True
-		} else {
-			x.IsCompilation = False
 		}
 		if dm.Composer != "" {
 			x.Composer = dm.Composer
@@ -190,7 +188,9 @@ func (x ID3) SyncToXMP(d *xmp.Document) error {
 	if x.AlbumTitle != "" {
 		dm.Album = x.AlbumTitle
 	}
-	dm.PartOfCompilation = xmp.Bool(x.IsCompilation.Value())
+	if x.IsCompilation.Value() {
+		dm.PartOfCompilation = xmp.True
+	}
 	if x.Composer != "" {
 		dm.Composer = x.Composer
 	}
-- 
2.43.0


From 2e08627f8c47447b0311265e0df64ee456ab964b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:05 +0000
Subject: [PATCH 096/121] fix: pdf adds no empty copyright

---
 models/pdf/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/pdf/model.go b/models/pdf/model.go
index 25f04d1..1154cad 100644
--- a/models/pdf/model.go
+++ b/models/pdf/model.go
@@ -109,7 +109,7 @@ func (x PDFInfo) SyncToXMP(d *xmp.Document) error {
 	if len(m.Description) == 0 {
 		m.Description = x.Subject
 	}
-	if len(m.Rights) == 0 {
+	if len(m.Rights) == 0 && x.Copyright != "" {
 		m.Rights.AddDefault("", x.Copyright)
 	}
 
-- 
2.43.0


From ee3dec7fa2fbb70dae3007bae9d8f447f1dd1005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:08 +0000
Subject: [PATCH 097/121] fix: exif dates, artists and software convert to and
 from XMP without loss

---
 models/exif/model.go | 19 +++++++++++--------
 models/exif/types.go | 25 ++++++++++++++++++-------
 2 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/models/exif/model.go b/models/exif/model.go
index 053343a..b3054e1 100644
--- a/models/exif/model.go
+++ b/models/exif/model.go
@@ -27,7 +27,6 @@ package exif
 
 import (
 	"fmt"
-	"strconv"
 	"strings"
 
 	"github.com/trimmer-io/go-xmp/models/dc"
@@ -267,7 +266,7 @@ func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 
 	if !x.DateTimeDigitizedXMP.IsZero() {
 		x.DateTimeDigitized = Date(x.DateTimeDigitizedXMP.Value())
-		x.SubSecTimeDigitized = strconv.Itoa(x.DateTimeDigitizedXMP.Value().Nanosecond())
+		x.SubSecTimeDigitized = formatSubSec(x.DateTimeDigitizedXMP.Value())
 	}
 
 	if len(x.ISOSpeedRatings) > 0 {
@@ -279,7 +278,7 @@ func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 
 	if m := dc.FindModel(d); m != nil {
 		x.ArtistXMP = m.Creator
-		x.Artist = strings.Join(m.Creator, ",")
+		x.Artist = strings.Join(m.Creator, "; ")
 		x.ImageDescriptionXMP = m.Description
 		x.ImageDescription = m.Description.Default()
 		x.CopyrightXMP = m.Rights
@@ -289,9 +288,9 @@ func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 		if !base.ModifyDate.IsZero() {
 			x.DateTimeXMP = base.ModifyDate
 			x.DateTime = Date(base.ModifyDate.Value())
-			x.SubSecTime = strconv.Itoa(base.ModifyDate.Value().Nanosecond())
+			x.SubSecTime = formatSubSec(base.ModifyDate.Value())
 		}
-		if base.CreatorTool.IsZero() {
+		if !base.CreatorTool.IsZero() {
 			x.SoftwareXMP = base.CreatorTool
 			x.Software = base.CreatorTool.String()
 		}
@@ -322,7 +321,7 @@ func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 		if !m.DateCreated.IsZero() {
 			x.DateTimeOriginalXMP = m.DateCreated
 			x.DateTimeOriginal = Date(m.DateCreated.Value())
-			x.SubSecTimeOriginal = strconv.Itoa(m.DateCreated.Value().Nanosecond())
+			x.SubSecTimeOriginal = formatSubSec(m.DateCreated.Value())
 		}
 	}
 	return nil
@@ -339,8 +338,12 @@ func (x *ExifInfo) SyncToXMP(d *xmp.Document) error {
 	if !x.DateTime.IsZero() {
 		x.DateTimeXMP, _ = convertDateToXMP(x.DateTime, x.SubSecTime)
 	}
-	if x.Artist != "" {
-		x.ArtistXMP = xmp.StringList(strings.Split(x.Artist, ";"))
+	if x.Artist != "" && len(x.ArtistXMP) == 0 {
+		for _, v := range strings.Split(x.Artist, ";") {
+			if v = strings.TrimSpace(v); v != "" {
+				x.ArtistXMP = append(x.ArtistXMP, v)
+			}
+		}
 	}
 	if x.ImageDescription != "" && len(x.ImageDescriptionXMP) == 0 {
 		x.ImageDescriptionXMP = xmp.NewAltString(x.ImageDescription)
diff --git a/models/exif/types.go b/models/exif/types.go
index 2c2f17a..fbdfbbf 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -121,17 +121,28 @@ func convertDateToXMP(d Date, s string) (xmp.Date, error) {
 	}
 	xd := xmp.Date(d)
 	s = strings.TrimSpace(s)
-	if s != "" {
+	if s == "" {
 		return xd, nil
 	}
-	if i, err := strconv.ParseInt(s, 10, 64); err != nil {
+	// fractions of a second, time has nanosecond precision
+	frac := s
+	if len(frac) > 9 {
+		frac = frac[:9]
+	}
+	nsec, err := strconv.ParseUint(frac, 10, 32)
+	if err != nil {
 		return xd, fmt.Errorf("exif: invalid subsecond format '%s': %v", s, err)
-	} else {
-		sec := d.Value().Unix()
-		nsec := i * int64(math.Pow10(9-len(s)))
-		xd = xmp.Date(time.Unix(sec, nsec))
 	}
-	return xd, nil
+	for i := len(frac); i < 9; i++ {
+		nsec *= 10
+	}
+	t := d.Value()
+	return xmp.Date(t.Add(time.Duration(nsec) - time.Duration(t.Nanosecond()))), nil
+}
+
+// formatSubSec returns the fractions of a second without trailing zeros.
+func formatSubSec(t time.Time) string {
+	return strings.TrimRight(fmt.Sprintf("%09d", t.Nanosecond()), "0")
 }
 
 type ComponentArray []Component
-- 
2.43.0


From 68a1ccd1d32195a5981175dc5c236fd316c7af1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:11 +0000
Subject: [PATCH 098/121] fix: riff and quicktime alternatives keep their
 default entry

---
 models/qt/types.go   | 2 +-
 models/riff/types.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/qt/types.go b/models/qt/types.go
index 8fb2866..3ddedd6 100644
--- a/models/qt/types.go
+++ b/models/qt/types.go
@@ -43,7 +43,7 @@ func (x MultilangArray) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model)
 }
 
 func (x *MultilangArray) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
-	return xmp.UnmarshalArray(d, node, xmp.AltString(*x).Typ(), (*xmp.AltString)(x))
+	return (*xmp.AltString)(x).UnmarshalXMP(d, node, m)
 }
 
 type Location struct {
diff --git a/models/riff/types.go b/models/riff/types.go
index 33a8e94..01e49b0 100644
--- a/models/riff/types.go
+++ b/models/riff/types.go
@@ -80,5 +80,5 @@ func (x AltString) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error
 }
 
 func (x *AltString) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
-	return xmp.UnmarshalArray(d, node, xmp.AltString(*x).Typ(), (*xmp.AltString)(x))
+	return (*xmp.AltString)(x).UnmarshalXMP(d, node, m)
 }
-- 
2.43.0


From 984da0d864290f266fb29476ef1430a1065d8e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:14 +0000
Subject: [PATCH 099/121] fix: quicktime user data identifiers are found

---
 models/xmp_base/model.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/models/xmp_base/model.go b/models/xmp_base/model.go
index c630a32..d103ec4 100644
--- a/models/xmp_base/model.go
+++ b/models/xmp_base/model.go
@@ -93,10 +93,10 @@ var identifierDesc = xmp.SyncDescList{
 	&xmp.SyncDesc{"iXML:fileUid", "xmp:Identifier", xmp.MERGE, prefixer("uuid:ixml")},
 	&xmp.SyncDesc{"qt:mdta/ContentIdentifier", "xmp:Identifier", xmp.MERGE, prefixer("uuid:cid")},
 	&xmp.SyncDesc{"iTunes:StoreFrontID", "xmp:Identifier", xmp.MERGE, prefixer("uuid:sfid")},
-	&xmp.SyncDesc{"qt:GUID", "xmp:Identifier", xmp.MERGE, prefixer("uuid:guid")},
-	&xmp.SyncDesc{"qt:ISRCCode", "xmp:Identifier", xmp.MERGE, prefixer("uuid:isrc")},
-	&xmp.SyncDesc{"qt:ContentID", "xmp:Identifier", xmp.MERGE, prefixer("uuid:cid")},
-	&xmp.SyncDesc{"qt:ClipID", "xmp:Identifier", xmp.MERGE, prefixer("uuid:clipid")},
+	&xmp.SyncDesc{"qt:udta/GUID", "xmp:Identifier", xmp.MERGE, prefixer("uuid:guid")},
+	&xmp.SyncDesc{"qt:udta/ISRCCode", "xmp:Identifier", xmp.MERGE, prefixer("uuid:isrc")},
+	&xmp.SyncDesc{"qt:udta/ContentID", "xmp:Identifier", xmp.MERGE, prefixer("uuid:cid")},
+	&xmp.SyncDesc{"qt:udta/ClipID", "xmp:Identifier", xmp.MERGE, prefixer("uuid:clipid")},
 	&xmp.SyncDesc{"qt:proapps/ClipID", "xmp:Identifier", xmp.MERGE, prefixer("uuid:clipid")},
 	&xmp.SyncDesc{"bext:umid", "xmp:Identifier", xmp.MERGE, prefixer("umid:smpte")},
 	&xmp.SyncDesc{"id3:podcastID", "xmp:Identifier", xmp.MERGE, prefixer("uuid:podcast")},
-- 
2.43.0


From f9094d7c1d2760d5929648727a81ca92ce78f516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:00 +0000
Subject: [PATCH 100/121] fix: frame counts, parts, media times and timecodes
 keep their value through text

---
 models/xmp_dm/types.go | 79 +++++++++++++++++++++++++++++++++---------
 1 file changed, 62 insertions(+), 17 deletions(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index bb24c77..068a122 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -19,6 +19,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"math/big"
 	"sort"
 	"strconv"
 	"strings"
@@ -74,10 +75,14 @@ func (x Part) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error {
 func (x *Part) UnmarshalText(data []byte) error {
 	p := Part{}
 	v := string(data)
-	tokens := strings.Split(v, "time:")
-	p.Path = tokens[0]
-	if len(tokens) > 1 {
-		t := tokens[1]
+	p.Path = v
+	if pos := strings.LastIndex(v, "time:"); pos == 0 || pos > 0 && v[pos-1] == '/' {
+		// the separator is not part of the path unless it is the root
+		p.Path = v[:pos]
+		if len(p.Path) > 1 {
+			p.Path = strings.TrimSuffix(p.Path, "/")
+		}
+		t := v[pos+len("time:"):]
 		if i := strings.Index(t, "d"); i > -1 {
 			// node + duration
 			if err := p.Start.UnmarshalText([]byte(t[:i])); err != nil {
@@ -110,7 +115,7 @@ func (x *Part) UnmarshalText(data []byte) error {
 func (x Part) MarshalText() ([]byte, error) {
 	buf := bytes.Buffer{}
 	buf.WriteString(x.Path)
-	if x.Duration.IsZero() {
+	if x.Start.IsZero() && x.Duration.IsZero() {
 		return buf.Bytes(), nil
 	}
 	if len(x.Path) > 0 && !strings.HasSuffix(x.Path, "/") {
@@ -192,15 +197,45 @@ func (x FrameCount) IsZero() bool {
 	return x.Count == 0 && x.Rate.IsZero()
 }
 
+// Sub returns the duration between y and x, in frames of x unless y is on a
+// different rate and does not fall on such a frame.
 func (x FrameCount) Sub(y FrameCount) FrameCount {
-	return FrameCount{
-		Count: x.Count - y.Count,
-		Rate:  x.Rate,
+	if x.IsMaximum() {
+		return x
+	}
+	if y.Count == 0 || x.Rate == y.Rate {
+		return FrameCount{
+			Count: x.Count - y.Count,
+			Rate:  x.Rate,
+		}
+	}
+	d := new(big.Rat).Sub(x.seconds(), y.seconds())
+	f := new(big.Rat).Mul(d, x.Rate.rat())
+	if f.IsInt() && f.Num().IsInt64() {
+		return FrameCount{Count: f.Num().Int64(), Rate: x.Rate}
 	}
+	if d.Num().IsInt64() && d.Denom().IsInt64() {
+		return FrameCount{Count: d.Num().Int64(), Rate: FrameRate{Rate: d.Denom().Int64(), Base: 1}}
+	}
+	s, _ := f.Float64()
+	return FrameCount{Count: int64(s), Rate: x.Rate}
+}
+
+// IsMaximum is true for the special count "maximum", the end of a resource.
+func (x FrameCount) IsMaximum() bool {
+	return x.Count == -1
 }
 
+func (x FrameCount) seconds() *big.Rat {
+	return new(big.Rat).Quo(new(big.Rat).SetInt64(x.Count), x.Rate.rat())
+}
+
+// IsSmaller compares points in time, counts may be on different rates.
 func (x FrameCount) IsSmaller(y FrameCount) bool {
-	return float64(x.Count)*x.Rate.Value() < float64(y.Count)*y.Rate.Value()
+	if x.IsMaximum() || y.IsMaximum() {
+		return !x.IsMaximum()
+	}
+	return x.seconds().Cmp(y.seconds()) < 0
 }
 
 func (x *FrameCount) UnmarshalText(data []byte) error {
@@ -336,6 +371,14 @@ func (x FrameRate) Value() float64 {
 	return float64(x.Rate) / float64(x.Base)
 }
 
+// rat returns the exact rate. Counts without a valid rate are in seconds.
+func (x FrameRate) rat() *big.Rat {
+	if x.Rate <= 0 || x.Base <= 0 {
+		return big.NewRat(1, 1)
+	}
+	return big.NewRat(x.Rate, x.Base)
+}
+
 func (x FrameRate) String() string {
 	buf := bytes.Buffer{}
 	buf.WriteByte('f')
@@ -555,11 +598,16 @@ func (x *MediaTime) UnmarshalXMPAttr(d *xmp.Decoder, a xmp.Attr) error {
 		dur += unit * time.Duration(n)
 		unit *= 60
 	}
+	// milliseconds, or nanoseconds when more precise
+	scale := time.Millisecond
+	if dur%scale != 0 {
+		scale = time.Nanosecond
+	}
 	*x = MediaTime{
-		Value: int64(dur / time.Millisecond),
+		Value: int64(dur / scale),
 		Scale: xmp.Rational{
 			Num: 1,
-			Den: 1000,
+			Den: int64(time.Second / scale),
 		},
 	}
 	return nil
@@ -637,11 +685,8 @@ func (x Timecode) String() string {
 }
 
 func (x *Timecode) Unpack() error {
-	sep := ":"
-	if x.IsDropFrame {
-		sep = ";"
-	}
-	fields := strings.Split(x.Value, sep)
+	// drop frame values may have a semicolon before the frames only
+	fields := strings.Split(strings.Replace(x.Value, ";", ":", -1), ":")
 	if len(fields) < 4 {
 		return fmt.Errorf("found only %d of 4 fields", len(fields))
 	}
@@ -662,7 +707,7 @@ func (x *Timecode) Unpack() error {
 }
 
 func (x Timecode) IsZero() bool {
-	return x.Value == "" && x.Format == ""
+	return x.Value == "" && x.Format == "" && x.H == 0 && x.M == 0 && x.S == 0 && x.F == 0
 }
 
 func (x Timecode) MarshalJSON() ([]byte, error) {
-- 
2.43.0


From a44b4be433663774282bad607334a4d14dcee04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 101/121] fix: id3 genre codes and empty genres are read as
 they are

---
 models/id3/types.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/models/id3/types.go b/models/id3/types.go
index 442e4e1..d820ba3 100644
--- a/models/id3/types.go
+++ b/models/id3/types.go
@@ -135,7 +135,7 @@ func ParseGenreV1(s string) (GenreV1, error) {
 			return i, nil
 		}
 	}
-	if t, err := strconv.Atoi(s); err == nil {
+	if t, err := strconv.ParseUint(s, 10, 8); err == nil {
 		return GenreV1(t), nil
 	}
 	return 0xff, fmt.Errorf("id3: invalid genre '%s'", s)
@@ -148,6 +148,9 @@ func (x *Genre) UnmarshalText(data []byte) error {
 	l := make(Genre, 0)
 	for _, v := range strings.Split(value, ",") {
 		v = strings.TrimSpace(v)
+		if v == "" {
+			continue
+		}
 		if g, err := ParseGenreV1(v); err == nil {
 			l = append(l, g.String())
 			continue
-- 
2.43.0


From 39e6bf7706cdd99bfa0c2c9cb7a68a5a2daf86d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:07 +0000
Subject: [PATCH 102/121] fix: exif table names and coordinates convert exactly

---
 models/exif/types.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/models/exif/types.go b/models/exif/types.go
index fbdfbbf..3040dd2 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -198,7 +198,7 @@ func (x *OECF) UnmarshalText(data []byte) error {
 			if o.Rows, err = strconv.Atoi(v); err != nil {
 				return fmt.Errorf("exif: invalid OECF rows value '%s': %v", v, err)
 			}
-		case i > 1 && i < o.Columns+1:
+		case i > 1 && i-2 < o.Columns:
 			o.Names = append(o.Names, v)
 		default:
 			r := xmp.Rational{}
@@ -370,10 +370,10 @@ func (x GPSCoord) IsZero() bool {
 func (x *GPSCoord) UnmarshalText(data []byte) error {
 	s := string(data)
 	f, err := strconv.ParseFloat(s, 64)
-	if err != nil || s[0] != '-' && len(strings.Split(s, ".")[0]) > 3 {
+	val := math.Abs(f)
+	if err != nil || !(val <= 360) {
 		return fmt.Errorf("exif: invalid decimal GPS coordinate '%s'", s)
 	}
-	val := math.Abs(f)
 	degrees := int(math.Floor(val))
 	minutes := int(math.Floor(60 * (val - float64(degrees))))
 	seconds := 3600 * (val - float64(degrees) - (float64(minutes) / 60))
@@ -394,9 +394,14 @@ func convertGPStoXMP(r GPSCoord, ref string) (xmp.GPSCoord, error) {
 		}
 		deg[i] = float64(v.Num) / float64(v.Den)
 	}
-	min := deg[0]*60 + deg[1] + deg[2]/60
+	// round to the precision of the text first so that minutes stay below 60
+	min := math.Round((deg[0]*60+deg[1]+deg[2]/60)*1e7) / 1e7
 	ideg := int(min / 60)
-	min -= float64(ideg) * 60
+	min = math.Round((min-float64(ideg)*60)*1e7) / 1e7
+	if min >= 60 {
+		ideg++
+		min = 0
+	}
 
 	buf := bytes.Buffer{}
 	buf.Write(strconv.AppendInt(make([]byte, 0, 3), int64(ideg), 10))
-- 
2.43.0


From d13533ba0af2f32933cd1159a924f275eda6315a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:11 +0000
Subject: [PATCH 103/121] fix: content ratings, quicktime points and locations
 keep all their parts

---
 models/itunes/types.go   |   4 +-
 models/qt/qt_metadata.go |  25 ++--------
 models/qt/types.go       | 100 ++++++++++++++++++++++++++++++++++++++-
 3 files changed, 105 insertions(+), 24 deletions(-)

diff --git a/models/itunes/types.go b/models/itunes/types.go
index e0c44fc..3c0860a 100644
--- a/models/itunes/types.go
+++ b/models/itunes/types.go
@@ -75,7 +75,7 @@ type ContentRating struct {
 }
 
 func (x ContentRating) IsZero() bool {
-	return x.Standard == "" && x.Rating == ""
+	return x.Standard == "" && x.Rating == "" && x.Score == "" && x.Reasons == ""
 }
 
 func (x ContentRating) String() string {
@@ -98,7 +98,7 @@ func (x *ContentRating) UnmarshalText(data []byte) error {
 	v = strings.TrimSpace(v)
 	v = strings.TrimPrefix(v, "(")
 	v = strings.TrimSuffix(v, ")")
-	for i, s := range strings.Split(v, "|") {
+	for i, s := range strings.SplitN(v, "|", 4) {
 		switch i {
 		case 0:
 			cr.Standard = s
diff --git a/models/qt/qt_metadata.go b/models/qt/qt_metadata.go
index ea385fc..c345f35 100644
--- a/models/qt/qt_metadata.go
+++ b/models/qt/qt_metadata.go
@@ -16,8 +16,6 @@ package qt
 
 import (
 	"fmt"
-	"strconv"
-	"strings"
 
 	"github.com/trimmer-io/go-xmp/models/tiff"
 	"github.com/trimmer-io/go-xmp/xmp"
@@ -126,11 +124,9 @@ func (x *QtMetadata) SyncFromXMP(d *xmp.Document) error {
 	if x.Location != nil {
 		x.LocationBody = x.Location.Body
 		x.LocationDate = x.Location.Date
-		x.LocationISO6709 = strings.Join([]string{
-			string(x.Location.Latitude),
-			string(x.Location.Longitude),
-			strconv.FormatFloat(x.Location.Altitude, 'f', -1, 64),
-		}, "+")
+		if v := formatISO6709(x.Location); v != "" {
+			x.LocationISO6709 = v
+		}
 		x.LocationName = x.Location.Name
 		x.LocationNote = x.Location.Note
 		x.LocationRole = x.Location.Role
@@ -139,7 +135,7 @@ func (x *QtMetadata) SyncFromXMP(d *xmp.Document) error {
 }
 
 func (x *QtMetadata) SyncToXMP(d *xmp.Document) error {
-	if x.Location == nil && x.LocationISO6709 != "" && x.LocationName != "" {
+	if x.Location == nil && (x.LocationISO6709 != "" || x.LocationName != "") {
 		x.Location = &Location{
 			Body: x.LocationBody,
 			Date: x.LocationDate,
@@ -147,18 +143,7 @@ func (x *QtMetadata) SyncToXMP(d *xmp.Document) error {
 			Note: x.LocationNote,
 			Role: x.LocationRole,
 		}
-		// "+43.5968+005.4797+362.904/",
-		for i, v := range strings.Split(x.LocationISO6709, "+") {
-			switch i {
-			case 0:
-				x.Location.Latitude = xmp.GPSCoord(v)
-			case 1:
-				x.Location.Longitude = xmp.GPSCoord(v)
-			case 2:
-				v = strings.TrimSuffix(v, "/")
-				x.Location.Altitude, _ = strconv.ParseFloat(v, 64)
-			}
-		}
+		x.Location.parseISO6709(x.LocationISO6709)
 	}
 	return nil
 }
diff --git a/models/qt/types.go b/models/qt/types.go
index 3ddedd6..ed261ce 100644
--- a/models/qt/types.go
+++ b/models/qt/types.go
@@ -9,6 +9,8 @@ package qt
 import (
 	"bytes"
 	"fmt"
+	"math"
+	"regexp"
 	"strconv"
 	"strings"
 
@@ -65,6 +67,96 @@ func (x *Location) UnmarshalText(data []byte) error {
 	return fmt.Errorf("qt: unsupported location value '%s'", string(data))
 }
 
+// "+43.5968+005.4797+362.904/", degrees may be followed by digits for minutes
+// and seconds
+var iso6709 = regexp.MustCompile(`^([+-])(\d\d)(\d\d)?(\d\d)?(\.\d+)?([+-])(\d\d\d)(\d\d)?(\d\d)?(\.\d+)?([+-]\d+(?:\.\d+)?)?(?:CRS[^/]*)?/?$`)
+
+func (x *Location) parseISO6709(s string) {
+	m := iso6709.FindStringSubmatch(strings.TrimSpace(s))
+	if m == nil {
+		return
+	}
+	x.Latitude = parseISO6709Coord(m[1:6], "N", "S")
+	x.Longitude = parseISO6709Coord(m[6:11], "E", "W")
+	if m[11] != "" {
+		x.Altitude, _ = strconv.ParseFloat(m[11], 64)
+	}
+}
+
+// v contains sign, degrees, minutes, seconds and the fraction of the last
+func parseISO6709Coord(v []string, pos, neg string) xmp.GPSCoord {
+	ref := pos
+	if v[0] == "-" {
+		ref = neg
+	}
+	var min float64
+	unit, last := 60.0, 1
+	for i := 1; i < 4 && v[i] != ""; i++ {
+		n, _ := strconv.Atoi(v[i])
+		min += float64(n) * unit
+		unit, last = unit/60, i
+	}
+	if v[4] != "" {
+		f, _ := strconv.ParseFloat("0"+v[4], 64)
+		min += f * [...]float64{0, 60, 1, 1.0 / 60}[last]
+	}
+	min = math.Round(min*1e7) / 1e7
+	deg := math.Floor(min / 60)
+	return xmp.GPSCoord(fmt.Sprintf("%d,%s%s", int(deg), trimFloat(min-deg*60, 7), ref))
+}
+
+func formatISO6709(x *Location) string {
+	lat, ok := formatISO6709Coord(x.Latitude, "N", "S", 2)
+	if !ok {
+		return ""
+	}
+	lon, ok := formatISO6709Coord(x.Longitude, "E", "W", 3)
+	if !ok {
+		return ""
+	}
+	s := lat + lon
+	if x.Altitude != 0 {
+		if x.Altitude > 0 {
+			s += "+"
+		}
+		s += strconv.FormatFloat(x.Altitude, 'f', -1, 64)
+	}
+	return s + "/"
+}
+
+// coordinates are DDD,MM,SSk or DDD,MM.mmk
+func formatISO6709Coord(c xmp.GPSCoord, pos, neg string, width int) (string, bool) {
+	s := string(c)
+	sign := "+"
+	switch {
+	case strings.HasSuffix(s, pos):
+	case strings.HasSuffix(s, neg):
+		sign = "-"
+	default:
+		return "", false
+	}
+	var deg, unit = 0.0, 1.0
+	for i, v := range strings.Split(s[:len(s)-1], ",") {
+		f, err := strconv.ParseFloat(v, 64)
+		if err != nil || i > 2 || !(f >= 0 && f <= 180) {
+			return "", false
+		}
+		deg += f * unit
+		unit /= 60
+	}
+	s = trimFloat(deg, 8)
+	for n := len(strings.Split(s, ".")[0]); n < width; n++ {
+		s = "0" + s
+	}
+	return sign + s, true
+}
+
+// trimFloat formats a number with at most prec decimals.
+func trimFloat(f float64, prec int) string {
+	s := strconv.FormatFloat(f, 'f', prec, 64)
+	return strings.TrimSuffix(strings.TrimRight(s, "0"), ".")
+}
+
 type Point struct {
 	X int
 	Y int
@@ -83,6 +175,10 @@ func (x Point) String() string {
 }
 
 func (x *Point) UnmarshalText(data []byte) error {
+	if len(data) == 0 {
+		*x = Point{}
+		return nil
+	}
 	v := string(data)
 	f := "%d,%d"
 	switch true {
@@ -118,7 +214,7 @@ type ContentRating struct {
 }
 
 func (x ContentRating) IsZero() bool {
-	return x.Standard == "" && x.Rating == ""
+	return x.Standard == "" && x.Rating == "" && x.Score == "" && x.Reasons == ""
 }
 
 func (x ContentRating) String() string {
@@ -141,7 +237,7 @@ func (x *ContentRating) UnmarshalText(data []byte) error {
 	v = strings.TrimSpace(v)
 	v = strings.TrimPrefix(v, "(")
 	v = strings.TrimSuffix(v, ")")
-	for i, s := range strings.Split(v, "|") {
+	for i, s := range strings.SplitN(v, "|", 4) {
 		switch i {
 		case 0:
 			cr.Standard = s
-- 
2.43.0


From 3d6a9303ed79c85beb72e3bd8fd146b52a980188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:14 +0000
Subject: [PATCH 104/121] fix: ixml time stamps count timecode frames,
 predefined function sets never change

---
 models/ixml/enum.go  | 12 ++++++---
 models/ixml/types.go | 61 ++++++++++++++++++++++++++++++++++----------
 2 files changed, 56 insertions(+), 17 deletions(-)

diff --git a/models/ixml/enum.go b/models/ixml/enum.go
index ff37eae..c18554f 100644
--- a/models/ixml/enum.go
+++ b/models/ixml/enum.go
@@ -57,7 +57,8 @@ func (x *TakeTypeList) Del(t TakeType) {
 		}
 	}
 	if idx > -1 {
-		*x = append((*x)[:idx], (*x)[idx+1:]...)
+		// never move items of a list this one was copied from
+		*x = append((*x)[:idx:idx], (*x)[idx+1:]...)
 	}
 }
 
@@ -154,7 +155,8 @@ func (x *LocationTypeList) Del(t LocationType) {
 		}
 	}
 	if idx > -1 {
-		*x = append((*x)[:idx], (*x)[idx+1:]...)
+		// never move items of a list this one was copied from
+		*x = append((*x)[:idx:idx], (*x)[idx+1:]...)
 	}
 }
 
@@ -247,7 +249,8 @@ func (x *LocationTimeList) Del(t LocationTime) {
 		}
 	}
 	if idx > -1 {
-		*x = append((*x)[:idx], (*x)[idx+1:]...)
+		// never move items of a list this one was copied from
+		*x = append((*x)[:idx:idx], (*x)[idx+1:]...)
 	}
 }
 
@@ -399,7 +402,8 @@ func (x *FunctionSet) Del(t FunctionType) {
 		}
 	}
 	if idx > -1 {
-		*x = append((*x)[:idx], (*x)[idx+1:]...)
+		// never move items of a list this one was copied from
+		*x = append((*x)[:idx:idx], (*x)[idx+1:]...)
 	}
 }
 
diff --git a/models/ixml/types.go b/models/ixml/types.go
index ee686b2..b2bf879 100644
--- a/models/ixml/types.go
+++ b/models/ixml/types.go
@@ -17,6 +17,8 @@ package ixml
 import (
 	"encoding/xml"
 	"fmt"
+	"math"
+	"math/big"
 	"strings"
 
 	"github.com/trimmer-io/go-xmp/models/xmp_dm"
@@ -146,31 +148,64 @@ type Speed struct {
 
 func (x Speed) XmpTimecode() xmpdm.Timecode {
 	samples := int64(x.TimestampSamplesSinceMidnightHI)<<32 | int64(x.TimestampSamplesSinceMidnightLO)
-	samples = samples * 1000
-	rate := int64(x.TimestampSampleRate) * 1000
-	if rate == 0 {
-		rate = int64(x.TimecodeRate.Value() * 1000)
+	num, den, rate := x.TimecodeRate.Num, x.TimecodeRate.Den, int64(x.TimestampSampleRate)
+	if samples < 0 || rate < 0 || num < 0 || den < 0 {
+		return xmpdm.Timecode{}
 	}
-	if rate <= 0 || samples < 0 {
+	isDrop := x.TimecodeFlag == TimecodeFlagDF
+	fps, frames := int64(1), samples
+	switch {
+	case num > 0 && den > 0:
+		// frames per second of timecode, e.g. 30 for 29.97 (30000/1001)
+		fps = int64(math.Floor(x.TimecodeRate.Value() + 0.5))
+		if fps == 0 || fps > math.MaxInt32 {
+			return xmpdm.Timecode{}
+		}
+		if rate > 0 {
+			n := new(big.Int).Mul(big.NewInt(samples), big.NewInt(num))
+			n.Div(n, new(big.Int).Mul(big.NewInt(rate), big.NewInt(den)))
+			if !n.IsInt64() {
+				return xmpdm.Timecode{}
+			}
+			frames = n.Int64()
+		}
+	case rate > 0:
+		// no frames, seconds only
+		frames = samples / rate
+	default:
 		return xmpdm.Timecode{}
 	}
-	sec := samples / rate
+	// count from midnight
+	drop := int64(0)
+	if isDrop && fps%30 == 0 {
+		drop = fps / 15
+	}
+	frames %= 86400*fps - 24*54*drop
+	if drop > 0 {
+		// skip the first frame numbers of every minute except each tenth
+		min10 := fps*600 - 9*drop
+		m := frames % min10
+		frames = frames/min10*fps*600 + m
+		if m >= fps*60 {
+			frames += drop * (1 + (m-fps*60)/(fps*60-drop))
+		}
+	}
+	sec, f := frames/fps, frames%fps
 	h := sec / 3600
 	m := (sec - h*3600) / 60
 	s := sec - h*3600 - m*60
-	f := 0
-	if x.TimecodeRate.Den != 0 {
-		f = int((samples % rate) * x.TimecodeRate.Num / x.TimecodeRate.Den / rate)
-	}
-	isDrop := x.TimecodeFlag == TimecodeFlagDF
-	return xmpdm.Timecode{
+	tc := xmpdm.Timecode{
 		Format:      xmpdm.ParseTimecodeFormat(x.TimecodeRate.Value(), isDrop),
 		H:           int(h),
 		M:           int(m),
 		S:           int(s),
-		F:           f,
+		F:           int(f),
 		IsDropFrame: isDrop,
 	}
+	if !tc.IsZero() {
+		tc.Value = tc.String()
+	}
+	return tc
 }
 
 type History struct {
-- 
2.43.0


From a5f70b468aed1a95125d4039e7486ef623234165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:43 +0000
Subject: [PATCH 105/121] fix: pantry entries are complete copies and keep the
 namespaces they use

---
 models/xmp_mm/model.go | 24 ++++++++++++--
 xmp/document.go        |  1 +
 xmp/node.go            | 16 ++++++++++
 xmp/sync.go            | 27 ++++++++++------
 xmp/xmp_ext.go         | 72 ++++++++++++++++++++++++++++++++++++++++++
 5 files changed, 128 insertions(+), 12 deletions(-)

diff --git a/models/xmp_mm/model.go b/models/xmp_mm/model.go
index e5041ff..d60bf9b 100644
--- a/models/xmp_mm/model.go
+++ b/models/xmp_mm/model.go
@@ -114,11 +114,31 @@ func (x *XmpMM) SetTag(tag, value string) error {
 	return nil
 }
 
+// cloneDocument copies a document the way it is written, paths and values do
+// not tell everything about properties.
+func cloneDocument(d *xmp.Document) *xmp.Document {
+	cpy := xmp.NewDocument()
+	b, err := xmp.Marshal(d)
+	if err == nil {
+		err = xmp.Unmarshal(b, cpy)
+	}
+	if err != nil {
+		cpy = xmp.NewDocument()
+		cpy.Merge(d, xmp.MERGE)
+	}
+	return cpy
+}
+
 func (x *XmpMM) AddPantry(d *xmp.Document) {
 	node := xmp.NewNode(xmp.NewName("rdf:Description"))
-	cpy := xmp.NewDocument()
-	cpy.Merge(d, xmp.MERGE)
+	cpy := cloneDocument(d)
 	node.Nodes = cpy.Nodes()
+	// the document this becomes part of may not know all namespaces
+	for _, ns := range cpy.Namespaces() {
+		if _, err := xmp.GetNamespace(ns.GetName()); err != nil {
+			node.AddAttr(ns.GetAttr())
+		}
+	}
 	x.Pantry = append(x.Pantry, (*xmp.Extension)(node))
 }
 
diff --git a/xmp/document.go b/xmp/document.go
index 80935a9..102ca93 100644
--- a/xmp/document.go
+++ b/xmp/document.go
@@ -95,6 +95,7 @@ func (d *Document) syncFromXMP() error {
 
 // called each time a model is stored as XMP/XML or XMP/JSON
 func (d *Document) syncToXMP() error {
+	d.declareExtensions()
 	if !d.dirty {
 		return nil
 	}
diff --git a/xmp/node.go b/xmp/node.go
index 5684bd7..8d1e35b 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -131,6 +131,22 @@ func copyNode(x *Node) *Node {
 	return n
 }
 
+// rename replaces namespace prefixes in a tree.
+func (n *Node) rename(prefixes map[string]string) {
+	replace := func(name *string) {
+		if to, ok := prefixes[getPrefix(*name)]; ok && hasPrefix(*name) {
+			*name = to + ":" + stripPrefix(*name)
+		}
+	}
+	replace(&n.XMLName.Local)
+	for i := range n.Attr {
+		replace(&n.Attr[i].Name.Local)
+	}
+	for _, v := range n.Nodes {
+		v.rename(prefixes)
+	}
+}
+
 func copyNodes(x NodeList) NodeList {
 	l := make(NodeList, 0, len(x))
 	for _, v := range x {
diff --git a/xmp/sync.go b/xmp/sync.go
index f4b5b7b..4b49eaf 100644
--- a/xmp/sync.go
+++ b/xmp/sync.go
@@ -275,16 +275,9 @@ func (d *Document) Merge(b *Document, flags SyncFlags) error {
 	// a namespace has one prefix and a prefix one namespace in each document
 	rename := make(map[string]string)
 	for n, v := range b.extNsMap {
-		name := v.GetName()
-		if ns := d.findNsByURI(n); ns != nil {
-			rename[name] = ns.GetName()
-			continue
-		}
-		for i := 1; d.findNsByPrefix(name) != nil || name != v.GetName() && b.findNsByPrefix(name) != nil; i++ {
-			name = v.GetName() + strconv.Itoa(i)
-		}
-		rename[v.GetName()] = name
-		d.extNsMap[n] = &Namespace{name, n, emptyFactory}
+		rename[v.GetName()] = d.addPrivateNamespace(v.GetName(), n, func(name string) bool {
+			return b.findNsByPrefix(name) != nil
+		})
 	}
 
 	// models are created with defaults that do not count as existing values
@@ -323,6 +316,20 @@ func (d *Document) Merge(b *Document, flags SyncFlags) error {
 	return nil
 }
 
+// addPrivateNamespace makes sure the document knows a namespace and returns its
+// prefix. This is another one when the prefix is in use.
+func (d *Document) addPrivateNamespace(prefix, uri string, reserved func(string) bool) string {
+	if ns := d.findNsByURI(uri); ns != nil {
+		return ns.GetName()
+	}
+	name := prefix
+	for i := 1; d.findNsByPrefix(name) != nil || name != prefix && reserved(name); i++ {
+		name = prefix + strconv.Itoa(i)
+	}
+	d.extNsMap[uri] = &Namespace{name, uri, emptyFactory}
+	return name
+}
+
 // splitLang removes the language from the path of a language entry.
 func splitLang(p Path) (string, bool) {
 	s := p.String()
diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index 97cc1f5..78be5ae 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -17,6 +17,7 @@ package xmp
 import (
 	"encoding/xml"
 	"fmt"
+	"reflect"
 )
 
 // Raw nodes are used to keep custom data models inside a container. This
@@ -113,6 +114,77 @@ func (x *Extension) UnmarshalXMP(d *Decoder, src *Node, m Model) error {
 	return nil
 }
 
+// Private namespaces of a document that becomes an extension are declared by
+// attributes of the extension until it is part of another document.
+func (x *Extension) declare(d *Document) {
+	rename := make(map[string]string)
+	attr := x.Attr[:0:0]
+	for _, v := range x.Attr {
+		if getPrefix(v.Name.Local) != "xmlns" {
+			attr = append(attr, v)
+			continue
+		}
+		prefix := stripPrefix(v.Name.Local)
+		rename[prefix] = d.addPrivateNamespace(prefix, v.Value, func(name string) bool {
+			for _, w := range x.Attr {
+				if w.Name.Local == "xmlns:"+name {
+					return true
+				}
+			}
+			return false
+		})
+	}
+	x.Attr = attr
+	for from, to := range rename {
+		if from != to {
+			renameNamespaces(x.Nodes, rename)
+			break
+		}
+	}
+}
+
+// renameNamespaces replaces the namespace prefixes of document content.
+func renameNamespaces(nodes NodeList, rename map[string]string) {
+	for _, n := range nodes {
+		if to, ok := rename[n.XMLName.Local]; ok {
+			n.XMLName.Local = to
+		}
+		n.rename(rename)
+		for _, v := range findExtensions(n.Model) {
+			renameNamespaces(v.Nodes, rename)
+		}
+	}
+}
+
+// findExtensions returns all extensions in a model.
+func findExtensions(m Model) []*Extension {
+	val := derefValue(reflect.ValueOf(m))
+	if !val.IsValid() || val.Kind() != reflect.Struct {
+		return nil
+	}
+	var l []*Extension
+	for i := 0; i < val.NumField(); i++ {
+		if f := val.Field(i); f.CanInterface() {
+			switch v := f.Interface().(type) {
+			case ExtensionArray:
+				l = append(l, v...)
+			case NamedExtensionArray:
+				l = append(l, v...)
+			}
+		}
+	}
+	return l
+}
+
+// declare adds the private namespaces used in extensions to the document.
+func (d *Document) declareExtensions() {
+	for _, n := range d.nodes {
+		for _, v := range findExtensions(n.Model) {
+			v.declare(d)
+		}
+	}
+}
+
 // used for xmpMM:Pantry bags
 //
 // <xmpMM:Pantry>
-- 
2.43.0


From 0aea712d2d21083df9fd59deec83d6df5b3d0520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:47 +0000
Subject: [PATCH 106/121] fix: iXML written after XMP has no RDF attributes in
 private sections

---
 xmp/node.go    | 14 ++++++++++++++
 xmp/xmp_ext.go |  5 ++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/xmp/node.go b/xmp/node.go
index 8d1e35b..dded4e5 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -131,6 +131,20 @@ func copyNode(x *Node) *Node {
 	return n
 }
 
+// dropAttr removes an attribute from all nodes in a tree.
+func (n *Node) dropAttr(attr Attr) {
+	var l AttrList
+	for _, v := range n.Attr {
+		if v != attr {
+			l = append(l, v)
+		}
+	}
+	n.Attr = l
+	for _, v := range n.Nodes {
+		v.dropAttr(attr)
+	}
+}
+
 // rename replaces namespace prefixes in a tree.
 func (n *Node) rename(prefixes map[string]string) {
 	replace := func(name *string) {
diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index 78be5ae..3390dbf 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -26,7 +26,10 @@ import (
 type Extension Node
 
 func (x *Extension) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
-	return (*Node)(x).MarshalXML(e, start)
+	// plain XML formats do not use RDF syntax
+	n := copyNode((*Node)(x))
+	n.dropAttr(rdfResourceAttr)
+	return n.MarshalXML(e, start)
 }
 
 func (x *Extension) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
-- 
2.43.0


From e0ff4c19c3d9887ca8dfa89a5318cf20f8d33d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:43 +0000
Subject: [PATCH 107/121] fix: ID3 v2.2 content type is the content type of
 v2.4, not the media type

---
 models/id3/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/id3/model.go b/models/id3/model.go
index 6d7d148..e39f224 100644
--- a/models/id3/model.go
+++ b/models/id3/model.go
@@ -364,7 +364,7 @@ var V22_TO_V24_TAGS map[string]string = map[string]string{
 	"TAL": "TALB", //   Album/Movie/Show title
 	"TBP": "TBPM", //   BPM (Beats Per Minute)
 	"TCM": "TCOM", //   Composer
-	"TCO": "TMED", //   Content type
+	"TCO": "TCON", //   Content type
 	"TCR": "TCOP", //   Copyright message
 	"TDA": "TDRC", // # Date, arguably this could also be release date TDRL
 	"TDY": "TDLY", //   Playlist delay
-- 
2.43.0


From 88e1cda85745ce08e5d734c0458c880fa8896225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:48 +0000
Subject: [PATCH 108/121] fix: xmpMM:Versions is an ordered array

---
 models/xmp_mm/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/xmp_mm/types.go b/models/xmp_mm/types.go
index dd19b01..d1e7167 100644
--- a/models/xmp_mm/types.go
+++ b/models/xmp_mm/types.go
@@ -111,7 +111,7 @@ type StVersion struct {
 type StVersionArray []*StVersion
 
 func (x StVersionArray) Typ() xmp.ArrayType {
-	return xmp.ArrayTypeUnordered
+	return xmp.ArrayTypeOrdered
 }
 
 func (x StVersionArray) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error {
-- 
2.43.0


From bd6be9fb555a22bd6f849ecf1dc4a1d33daf7122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:35 +0000
Subject: [PATCH 109/121] fix: pointers to values with own text, XMP or
 attribute form do not panic

---
 xmp/marshal.go   |  8 ++++----
 xmp/native.go    | 12 ++++++------
 xmp/path.go      | 11 ++++++-----
 xmp/unmarshal.go |  8 ++++----
 4 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/xmp/marshal.go b/xmp/marshal.go
index 5c161c6..c0c7771 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -311,21 +311,21 @@ func (e *Encoder) marshalValue(val reflect.Value, finfo *fieldInfo, node *Node,
 	typ := val.Type()
 
 	// call marshaler interface
-	if val.CanInterface() && (finfo != nil && finfo.flags&fMarshal > 0 || typ.Implements(marshalerType)) {
+	if val.CanInterface() && typ.Implements(marshalerType) {
 		// log.Debugf("xmp: marshalValue calling MarshalXMP on %v for %s\n", val.Type(), name)
 		return val.Interface().(Marshaler).MarshalXMP(e, node, nil)
 	}
 
 	if val.CanAddr() {
 		pv := val.Addr()
-		if pv.CanInterface() && (finfo != nil && finfo.flags&fMarshal > 0 || pv.Type().Implements(marshalerType)) {
+		if pv.CanInterface() && pv.Type().Implements(marshalerType) {
 			// log.Debugf("xmp: marshalValue calling MarshalXMP on %v for %s\n", val.Type(), name)
 			return pv.Interface().(Marshaler).MarshalXMP(e, node, nil)
 		}
 	}
 
 	// Check for text marshaler and marshal as node value
-	if val.CanInterface() && (finfo != nil && finfo.flags&fTextMarshal > 0 || typ.Implements(textMarshalerType)) {
+	if val.CanInterface() && typ.Implements(textMarshalerType) {
 		// log.Debugf("xmp: marshalValue calling MarshalText on %v for %s\n", val.Type(), name)
 		b, err := val.Interface().(encoding.TextMarshaler).MarshalText()
 		if err != nil || b == nil {
@@ -337,7 +337,7 @@ func (e *Encoder) marshalValue(val reflect.Value, finfo *fieldInfo, node *Node,
 
 	if val.CanAddr() {
 		pv := val.Addr()
-		if pv.CanInterface() && (finfo != nil && finfo.flags&fTextMarshal > 0 || pv.Type().Implements(textMarshalerType)) {
+		if pv.CanInterface() && pv.Type().Implements(textMarshalerType) {
 			// log.Debugf("xmp: marshalValue calling MarshalText on %v for %s\n", val.Type(), name)
 			b, err := pv.Interface().(encoding.TextMarshaler).MarshalText()
 			if err != nil || b == nil {
diff --git a/xmp/native.go b/xmp/native.go
index 19abe1b..e9f2ea0 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -127,7 +127,7 @@ func GetNativeField(v Model, name string) (string, error) {
 	// Check for text marshaler and marshal as node value
 	if fv.CanAddr() {
 		pv := fv.Addr()
-		if pv.CanInterface() && (finfo != nil && finfo.flags&fTextMarshal > 0 || pv.Type().Implements(textMarshalerType)) {
+		if pv.CanInterface() && pv.Type().Implements(textMarshalerType) {
 			b, err := pv.Interface().(encoding.TextMarshaler).MarshalText()
 			if err != nil || b == nil {
 				return "", err
@@ -136,7 +136,7 @@ func GetNativeField(v Model, name string) (string, error) {
 		}
 	}
 
-	if fv.CanInterface() && (finfo != nil && finfo.flags&fTextMarshal > 0 || typ.Implements(textMarshalerType)) {
+	if fv.CanInterface() && typ.Implements(textMarshalerType) {
 		b, err := fv.Interface().(encoding.TextMarshaler).MarshalText()
 		if err != nil || b == nil {
 			return "", err
@@ -194,23 +194,23 @@ func SetNativeField(v Model, name, value string) (err error) {
 	// try unmarshalers
 	if f.CanAddr() {
 		pv := f.Addr()
-		if pv.CanInterface() && (finfo != nil && finfo.flags&fBinaryUnmarshal > 0 || pv.Type().Implements(binaryUnmarshalerType)) {
+		if pv.CanInterface() && pv.Type().Implements(binaryUnmarshalerType) {
 			return pv.Interface().(encoding.BinaryUnmarshaler).UnmarshalBinary([]byte(value))
 		}
 	}
 
-	if f.CanInterface() && (finfo != nil && finfo.flags&fBinaryUnmarshal > 0 || f.Type().Implements(binaryUnmarshalerType)) {
+	if f.CanInterface() && f.Type().Implements(binaryUnmarshalerType) {
 		return f.Interface().(encoding.BinaryUnmarshaler).UnmarshalBinary([]byte(value))
 	}
 
 	if f.CanAddr() {
 		pv := f.Addr()
-		if pv.CanInterface() && (finfo != nil && finfo.flags&fTextUnmarshal > 0 || pv.Type().Implements(textUnmarshalerType)) {
+		if pv.CanInterface() && pv.Type().Implements(textUnmarshalerType) {
 			return pv.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value))
 		}
 	}
 
-	if f.CanInterface() && (finfo != nil && finfo.flags&fTextUnmarshal > 0 || f.Type().Implements(textUnmarshalerType)) {
+	if f.CanInterface() && f.Type().Implements(textUnmarshalerType) {
 		return f.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value))
 	}
 
diff --git a/xmp/path.go b/xmp/path.go
index df0eafc..988816e 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -438,6 +438,7 @@ func GetModelPath(v Model, path Path) (string, error) {
 		for fv.Kind() == reflect.Interface || fv.Kind() == reflect.Ptr {
 			fv = fv.Elem()
 		}
+		typ = fv.Type()
 
 		// continue loop when field is a struct and we're not at the end yet
 		if fv.Kind() == reflect.Struct && walker.Len() > 0 {
@@ -532,11 +533,11 @@ func GetModelPath(v Model, path Path) (string, error) {
 		// Check for text marshaler and marshal as string
 		av = fv
 		isText := false
-		if fv.CanInterface() && (finfo != nil && finfo.flags&fTextMarshal > 0 || typ.Implements(textMarshalerType)) {
+		if fv.CanInterface() && typ.Implements(textMarshalerType) {
 			isText = true
 		} else if fv.CanAddr() {
 			pv := fv.Addr()
-			if pv.CanInterface() && (finfo != nil && finfo.flags&fTextMarshal > 0 || pv.Type().Implements(textMarshalerType)) {
+			if pv.CanInterface() && pv.Type().Implements(textMarshalerType) {
 				av = pv
 				isText = true
 			}
@@ -1194,7 +1195,7 @@ func setModelPath(v Model, path Path, value string, flags SyncFlags, undo *[]fun
 		// Text
 		if fv.CanAddr() {
 			pv := fv.Addr()
-			if pv.CanInterface() && (finfo != nil && finfo.flags&fTextUnmarshal > 0 || pv.Type().Implements(textUnmarshalerType)) {
+			if pv.CanInterface() && pv.Type().Implements(textUnmarshalerType) {
 				return pv.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value))
 			}
 		}
@@ -1454,11 +1455,11 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 		// Check for text marshaler and marshal as string
 		av = fv
 		isText := false
-		if fv.CanInterface() && (finfo.flags&fTextMarshal > 0 || typ.Implements(textMarshalerType)) {
+		if fv.CanInterface() && typ.Implements(textMarshalerType) {
 			isText = true
 		} else if fv.CanAddr() {
 			pv := fv.Addr()
-			if pv.CanInterface() && (finfo.flags&fTextMarshal > 0 || pv.Type().Implements(textMarshalerType)) {
+			if pv.CanInterface() && pv.Type().Implements(textMarshalerType) {
 				av = pv
 				isText = true
 			}
diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 12eddf0..d712818 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -225,7 +225,7 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 	// XMP
 	if val.CanAddr() {
 		pv := val.Addr()
-		if pv.CanInterface() && (finfo != nil && finfo.flags&fUnmarshal > 0 || pv.Type().Implements(unmarshalerType)) {
+		if pv.CanInterface() && pv.Type().Implements(unmarshalerType) {
 			return pv.Interface().(Unmarshaler).UnmarshalXMP(d, src, nil)
 		}
 	}
@@ -233,7 +233,7 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 	// Text
 	if val.CanAddr() {
 		pv := val.Addr()
-		if pv.CanInterface() && (finfo != nil && finfo.flags&fTextUnmarshal > 0 || pv.Type().Implements(textUnmarshalerType)) && !isStructNode(pv.Type(), src) {
+		if pv.CanInterface() && pv.Type().Implements(textUnmarshalerType) && !isStructNode(pv.Type(), src) {
 			if err := checkSimple(src); err != nil {
 				return err
 			}
@@ -340,7 +340,7 @@ func (d *Decoder) unmarshalAttr(val reflect.Value, finfo *fieldInfo, src Attr) e
 	// attribute unmarshaler
 	if val.CanAddr() {
 		pv := val.Addr()
-		if pv.CanInterface() && (finfo != nil && finfo.flags&fUnmarshalAttr > 0 || pv.Type().Implements(attrUnmarshalerType)) {
+		if pv.CanInterface() && pv.Type().Implements(attrUnmarshalerType) {
 			return pv.Interface().(UnmarshalerAttr).UnmarshalXMPAttr(d, src)
 		}
 	}
@@ -348,7 +348,7 @@ func (d *Decoder) unmarshalAttr(val reflect.Value, finfo *fieldInfo, src Attr) e
 	// text unmarshaler
 	if val.CanAddr() {
 		pv := val.Addr()
-		if pv.CanInterface() && (finfo != nil && finfo.flags&fTextUnmarshal > 0 || pv.Type().Implements(textUnmarshalerType)) {
+		if pv.CanInterface() && pv.Type().Implements(textUnmarshalerType) {
 			return pv.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(src.Value))
 		}
 	}
-- 
2.43.0


From ed2b879dc4fd5c6950ad6daec06cd4fffb9cba7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:48 +0000
Subject: [PATCH 110/121] fix: types with an attribute form are read from
 element form too

---
 xmp/unmarshal.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index d712818..856565d 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -230,6 +230,14 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 		}
 	}
 
+	// types for attributes may be written as element as well
+	if val.CanAddr() && len(src.Nodes) == 0 && !hasFieldAttr(src) {
+		pv := val.Addr()
+		if pv.CanInterface() && pv.Type().Implements(attrUnmarshalerType) {
+			return pv.Interface().(UnmarshalerAttr).UnmarshalXMPAttr(d, Attr{Name: src.XMLName, Value: src.Value})
+		}
+	}
+
 	// Text
 	if val.CanAddr() {
 		pv := val.Addr()
-- 
2.43.0


From 3166ef4944fa1008b633ef579c14b74406754814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:54 +0000
Subject: [PATCH 111/121] fix: a missing pointer value is created by path
 without replace

---
 xmp/path.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index 988816e..30149c3 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -787,7 +787,8 @@ func setModelPath(v Model, path Path, value string, flags SyncFlags, undo *[]fun
 		if !fv.IsValid() {
 			return nil
 		}
-		if fv.Type().Kind() == reflect.Ptr && fv.IsNil() && fv.CanSet() {
+		missing := fv.Type().Kind() == reflect.Ptr && fv.IsNil()
+		if missing && fv.CanSet() {
 			pv := fv
 			*undo = append(*undo, func() { pv.Set(reflect.Zero(pv.Type())) })
 			fv.Set(reflect.New(fv.Type().Elem()))
@@ -1178,7 +1179,7 @@ func setModelPath(v Model, path Path, value string, flags SyncFlags, undo *[]fun
 		}
 
 		// for simple values, check current value before replacing
-		if flags&REPLACE == 0 && value != "" && !isEmptyValue(fv) {
+		if flags&REPLACE == 0 && value != "" && !missing && !isEmptyValue(fv) {
 			return fmt.Errorf("REPLACE flag required for overwriting value at %s on path %s", name, path)
 		}
 
-- 
2.43.0


From 4e0760343edaa8449d5ed990f5925c47f8b3b250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:54 +0000
Subject: [PATCH 112/121] fix: structures are written as valid RDF, all fields
 are elements beside parseType

---
 xmp/node.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index dded4e5..56c1aaa 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -441,15 +441,16 @@ func (n *Node) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
 		return nil
 	}
 
+	attr, nodes := n.structFields()
 	start.Name = n.XMLName
-	start.Attr = n.Attr.XML()
+	start.Attr = attr.XML()
 	if n.Model != nil {
 		return e.EncodeElement(struct {
 			Data  Model
 			Nodes []*Node
 		}{
 			Data:  n.Model,
-			Nodes: n.Nodes,
+			Nodes: nodes,
 		}, start)
 
 	} else {
@@ -458,12 +459,37 @@ func (n *Node) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
 			Nodes []*Node
 		}{
 			Data:  n.Value,
-			Nodes: n.Nodes,
+			Nodes: nodes,
 		}, start)
 
 	}
 }
 
+// RDF does not allow fields as attributes together with rdf:parseType="Resource",
+// all fields of such structures are written as elements.
+func (n *Node) structFields() (AttrList, NodeList) {
+	isStruct := false
+	for _, v := range n.Attr {
+		isStruct = isStruct || v.Name.Local == rdfResourceAttr.Name.Local && v.Value == rdfResourceAttr.Value
+	}
+	if !isStruct {
+		return n.Attr, n.Nodes
+	}
+	attr := make(AttrList, 0, len(n.Attr))
+	nodes := make(NodeList, 0, len(n.Attr)+len(n.Nodes))
+	for _, v := range n.Attr {
+		pre := getPrefix(v.Name.Local)
+		if !hasPrefix(v.Name.Local) || pre == "xmlns" || pre == nsRDF.GetName() || pre == nsXML.GetName() {
+			attr = append(attr, v)
+			continue
+		}
+		field := NewNode(v.Name)
+		field.Value = v.Value
+		nodes = append(nodes, field)
+	}
+	return attr, append(nodes, n.Nodes...)
+}
+
 func (n *Node) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	return n.unmarshalXML(d, start, 0)
 }
-- 
2.43.0


From ffd499a66c438242dbc48651aefb0896a9a52985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:00 +0000
Subject: [PATCH 113/121] fix: values in arrays use text methods on their
 pointer

---
 xmp/array.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xmp/array.go b/xmp/array.go
index c1cc46c..27bbac3 100644
--- a/xmp/array.go
+++ b/xmp/array.go
@@ -576,6 +576,13 @@ func MarshalArray(e *Encoder, node *Node, typ ArrayType, items interface{}) erro
 		return nil
 	}
 
+	// fixed arrays must be addressable to find methods on pointers
+	if kind == reflect.Array {
+		arr := reflect.New(val.Type()).Elem()
+		arr.Set(val)
+		val = arr
+	}
+
 	// output enclosing array type
 	arr := NewNode(xml.Name{Local: "rdf:" + string(typ)})
 	node.AddNode(arr)
@@ -623,7 +630,7 @@ func MarshalArray(e *Encoder, node *Node, typ ArrayType, items interface{}) erro
 			}
 		} else {
 			// write to stream
-			if err := e.EncodeElement(v, elem); err != nil {
+			if err := e.marshalValue(val.Index(i), nil, elem, false); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From da12132c80aca33d50cb0c0e5f845bd0c094af48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:32 +0000
Subject: [PATCH 114/121] fix: array elements that are pointers are set by path

---
 xmp/path.go | 45 ++++++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index 30149c3..7d34c79 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -1051,11 +1051,7 @@ func setModelPath(v Model, path Path, value string, flags SyncFlags, undo *[]fun
 					}
 
 					v := reflect.New(fv.Type().Elem())
-					if v.CanInterface() && v.Type().Implements(textUnmarshalerType) {
-						if err := v.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value)); err != nil {
-							return err
-						}
-					} else if err := setValue(v, value); err != nil {
+					if err := unmarshalElem(v, value); err != nil {
 						return err
 					}
 					av.Index(idx).Set(v.Elem())
@@ -1076,11 +1072,7 @@ func setModelPath(v Model, path Path, value string, flags SyncFlags, undo *[]fun
 					}
 
 					v := reflect.New(fv.Type().Elem())
-					if v.CanInterface() && v.Type().Implements(textUnmarshalerType) {
-						if err := v.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value)); err != nil {
-							return err
-						}
-					} else if err := setValue(v, value); err != nil {
+					if err := unmarshalElem(v, value); err != nil {
 						return err
 					}
 
@@ -1089,11 +1081,7 @@ func setModelPath(v Model, path Path, value string, flags SyncFlags, undo *[]fun
 				case flags&APPEND > 0 && value != "" && idx == -1:
 					// always append
 					v := reflect.New(fv.Type().Elem())
-					if v.CanInterface() && v.Type().Implements(textUnmarshalerType) {
-						if err := v.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value)); err != nil {
-							return err
-						}
-					} else if err := setValue(v, value); err != nil {
+					if err := unmarshalElem(v, value); err != nil {
 						return err
 					}
 
@@ -1105,11 +1093,7 @@ func setModelPath(v Model, path Path, value string, flags SyncFlags, undo *[]fun
 						return fmt.Errorf("index %d out of range on path %s", idx, path)
 					}
 					v := reflect.New(fv.Type().Elem())
-					if v.CanInterface() && v.Type().Implements(textUnmarshalerType) {
-						if err := v.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value)); err != nil {
-							return err
-						}
-					} else if err := setValue(v, value); err != nil {
+					if err := unmarshalElem(v, value); err != nil {
 						return err
 					}
 					// without replace flag other elements are kept
@@ -1146,11 +1130,7 @@ func setModelPath(v Model, path Path, value string, flags SyncFlags, undo *[]fun
 						}
 					}
 					v := reflect.New(fv.Type().Elem())
-					if v.CanInterface() && v.Type().Implements(textUnmarshalerType) {
-						if err := v.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value)); err != nil {
-							return err
-						}
-					} else if err := setValue(v, value); err != nil {
+					if err := unmarshalElem(v, value); err != nil {
 						return err
 					}
 					fv.Set(reflect.Zero(fv.Type()))
@@ -1273,6 +1253,21 @@ func ListModelPaths(v Model) (PathValueList, error) {
 	return listPaths(reflect.ValueOf(v), NewPath(v.Namespaces()[0].GetName()))
 }
 
+// unmarshalElem sets the array element v points to.
+func unmarshalElem(v reflect.Value, value string) error {
+	// elements may be pointers themselves
+	for v.Elem().Kind() == reflect.Ptr {
+		if v.Elem().IsNil() {
+			v.Elem().Set(reflect.New(v.Elem().Type().Elem()))
+		}
+		v = v.Elem()
+	}
+	if v.CanInterface() && v.Type().Implements(textUnmarshalerType) {
+		return v.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value))
+	}
+	return setValue(v, value)
+}
+
 func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 	if !val.IsValid() {
 		return nil, nil
-- 
2.43.0


From bc6dc240fc12ec4be59acfa2dd20945b8986724a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:44 +0000
Subject: [PATCH 115/121] fix: native tags of times are set from text

---
 xmp/native.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/xmp/native.go b/xmp/native.go
index e9f2ea0..bd836fd 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -191,27 +191,27 @@ func SetNativeField(v Model, name, value string) (err error) {
 	// load and potentially create value
 	f = derefValue(f)
 
-	// try unmarshalers
+	// try unmarshalers, text first because that is what reading returns
 	if f.CanAddr() {
 		pv := f.Addr()
-		if pv.CanInterface() && pv.Type().Implements(binaryUnmarshalerType) {
-			return pv.Interface().(encoding.BinaryUnmarshaler).UnmarshalBinary([]byte(value))
+		if pv.CanInterface() && pv.Type().Implements(textUnmarshalerType) {
+			return pv.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value))
 		}
 	}
 
-	if f.CanInterface() && f.Type().Implements(binaryUnmarshalerType) {
-		return f.Interface().(encoding.BinaryUnmarshaler).UnmarshalBinary([]byte(value))
+	if f.CanInterface() && f.Type().Implements(textUnmarshalerType) {
+		return f.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value))
 	}
 
 	if f.CanAddr() {
 		pv := f.Addr()
-		if pv.CanInterface() && pv.Type().Implements(textUnmarshalerType) {
-			return pv.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value))
+		if pv.CanInterface() && pv.Type().Implements(binaryUnmarshalerType) {
+			return pv.Interface().(encoding.BinaryUnmarshaler).UnmarshalBinary([]byte(value))
 		}
 	}
 
-	if f.CanInterface() && f.Type().Implements(textUnmarshalerType) {
-		return f.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value))
+	if f.CanInterface() && f.Type().Implements(binaryUnmarshalerType) {
+		return f.Interface().(encoding.BinaryUnmarshaler).UnmarshalBinary([]byte(value))
 	}
 
 	// otherwise set simple field value directly or fail
-- 
2.43.0


From 5fad7c4f23af259a6acfa69f7ae008c9bd53fe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:28 +0000
Subject: [PATCH 116/121] fix: a rejected native value changes nothing

---
 xmp/native.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/xmp/native.go b/xmp/native.go
index bd836fd..2a50a1b 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -191,6 +191,17 @@ func SetNativeField(v Model, name, value string) (err error) {
 	// load and potentially create value
 	f = derefValue(f)
 
+	// rejected values change nothing
+	if f.CanSet() {
+		old := reflect.New(f.Type()).Elem()
+		old.Set(f)
+		defer func() {
+			if err != nil {
+				f.Set(old)
+			}
+		}()
+	}
+
 	// try unmarshalers, text first because that is what reading returns
 	if f.CanAddr() {
 		pv := f.Addr()
-- 
2.43.0


From f9d8c3d9925a2215a3e4500bbb688df01c5dda9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:26 +0000
Subject: [PATCH 117/121] fix: lists of lists and of alternatives are listed,
 read and set by path

---
 xmp/path.go | 138 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 90 insertions(+), 48 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index 7d34c79..cef7fe1 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -404,6 +404,28 @@ func findPathField(val reflect.Value, prefix, name string) (*fieldInfo, error) {
 	return finfo, err
 }
 
+// findPathValue returns the field a path segment belongs to and its value. A
+// segment without name is an index into a list that is an item of another list.
+func findPathValue(val reflect.Value, prefix, name string) (*fieldInfo, reflect.Value, error) {
+	if name == "" && isListKind(val.Type()) {
+		return &fieldInfo{flags: fArray}, val, nil
+	}
+	finfo, err := findPathField(val, prefix, name)
+	if err != nil {
+		return nil, reflect.Value{}, err
+	}
+	return finfo, finfo.value(val), nil
+}
+
+// isListKind returns true for lists, but not for binary values.
+func isListKind(typ reflect.Type) bool {
+	switch typ.Kind() {
+	case reflect.Slice, reflect.Array:
+		return typ.Elem().Kind() != reflect.Uint8
+	}
+	return false
+}
+
 func GetModelPath(v Model, path Path) (string, error) {
 	val := derefIndirect(v)
 	l := path.Len()
@@ -414,13 +436,12 @@ func GetModelPath(v Model, path Path) (string, error) {
 			return "", fmt.Errorf("path field %d (%s): invalid index", l-walker.Len(), n)
 		}
 
-		finfo, err := findPathField(val, walker.NamespacePrefix(), name)
+		finfo, fv, err := findPathValue(val, walker.NamespacePrefix(), name)
 		if err != nil {
 			return "", errNotFound
 			// return "", fmt.Errorf("path field %d (%s) not found: %v", i, name, err)
 		}
 
-		fv := finfo.value(val)
 		typ := fv.Type()
 
 		// ignore empty fields
@@ -776,14 +797,13 @@ func setModelPath(v Model, path Path, value string, flags SyncFlags, undo *[]fun
 			return fmt.Errorf("path field %d (%s): invalid index", l-walker.Len(), n)
 		}
 
-		finfo, err := findPathField(val, walker.NamespacePrefix(), name)
+		finfo, fv, err := findPathValue(val, walker.NamespacePrefix(), name)
 		if err != nil {
 			// special error is catched by caller to retry setting as raw node
 			return errNotFound
 		}
 
 		// allocate memory for pointer values in structs
-		fv := finfo.value(val)
 		if !fv.IsValid() {
 			return nil
 		}
@@ -1019,8 +1039,8 @@ func setModelPath(v Model, path Path, value string, flags SyncFlags, undo *[]fun
 							return val.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value))
 						}
 
-						// recurse into struct
-						if reflect.Indirect(val).Kind() == reflect.Struct {
+						// recurse into struct or list
+						if reflect.Indirect(val).Kind() == reflect.Struct || isListKind(reflect.Indirect(val).Type()) {
 							continue
 						}
 
@@ -1401,49 +1421,11 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 					pvl.Add(path.Push(fname).AppendIndexString(v.GetLang()), v.Value)
 				}
 			default:
-				for i, l := 0, av.Len(); i < l; i++ {
-					v := derefValue(av.Index(i))
-
-					// check for text marshaler
-					isText := false
-					vv := v
-					if v.CanInterface() && v.Type().Implements(textMarshalerType) {
-						isText = true
-					} else if v.CanAddr() {
-						pv := v.Addr()
-						if pv.CanInterface() && pv.Type().Implements(textMarshalerType) {
-							vv = pv
-							isText = true
-						}
-					}
-
-					if isText {
-						b, err := vv.Interface().(encoding.TextMarshaler).MarshalText()
-						if err != nil {
-							return nil, err
-						}
-						pvl.Add(path.Push(fname).AppendIndex(i), string(b))
-						continue
-					}
-
-					switch v.Kind() {
-					case reflect.Struct, reflect.Slice, reflect.Array:
-						l, err := listPaths(v, path.Push(fname).AppendIndex(i))
-						if err != nil {
-							return nil, err
-						}
-						pvl = append(pvl, l...)
-					default:
-						if s, b, err := marshalSimple(v.Type(), v); err != nil {
-							return nil, err
-						} else {
-							if b != nil {
-								s = string(b)
-							}
-							pvl.Add(path.Push(fname).AppendIndex(i), s)
-						}
-					}
+				l, err := listItems(av, path.Push(fname))
+				if err != nil {
+					return nil, err
 				}
+				pvl = append(pvl, l...)
 			}
 			continue
 		}
@@ -1523,6 +1505,66 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 	return pvl, nil
 }
 
+// listItems lists the items of an array. Items that are lists themselves have
+// their index in a path segment without name.
+func listItems(av reflect.Value, path Path) (PathValueList, error) {
+	pvl := make(PathValueList, 0)
+	for i, l := 0, av.Len(); i < l; i++ {
+		v := derefValue(av.Index(i))
+
+		// check for text marshaler
+		isText := false
+		vv := v
+		if v.CanInterface() && v.Type().Implements(textMarshalerType) {
+			isText = true
+		} else if v.CanAddr() {
+			pv := v.Addr()
+			if pv.CanInterface() && pv.Type().Implements(textMarshalerType) {
+				vv = pv
+				isText = true
+			}
+		}
+
+		if isText {
+			b, err := vv.Interface().(encoding.TextMarshaler).MarshalText()
+			if err != nil {
+				return nil, err
+			}
+			pvl.Add(path.AppendIndex(i), string(b))
+			continue
+		}
+
+		switch {
+		case isAltString(v.Type()):
+			for _, a := range v.Convert(altStringType).Interface().(AltString) {
+				pvl.Add(path.AppendIndex(i).AppendIndexString(a.GetLang()), a.Value)
+			}
+		case isListKind(v.Type()):
+			l, err := listItems(v, path.AppendIndex(i))
+			if err != nil {
+				return nil, err
+			}
+			pvl = append(pvl, l...)
+		case v.Kind() == reflect.Struct:
+			l, err := listPaths(v, path.AppendIndex(i))
+			if err != nil {
+				return nil, err
+			}
+			pvl = append(pvl, l...)
+		default:
+			if s, b, err := marshalSimple(v.Type(), v); err != nil {
+				return nil, err
+			} else {
+				if b != nil {
+					s = string(b)
+				}
+				pvl.Add(path.AppendIndex(i), s)
+			}
+		}
+	}
+	return pvl, nil
+}
+
 var altStringType = reflect.TypeOf(AltString{})
 
 // isAltString returns true for the AltString type and types derived from it.
-- 
2.43.0


From e7c1de533cd3b42367ef121eb7863ed69aeed05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:33 +0000
Subject: [PATCH 118/121] fix: structures, their lists and embedded resources
 can be deleted by path

---
 xmp/node.go |  3 ++-
 xmp/path.go | 44 ++++++++++++++++++++++++++++++++++++++------
 2 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index 56c1aaa..eb43f61 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -717,7 +717,8 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 	}
 
 	err := node.setNode(idx, lang, path, value, flags)
-	if err == nil && value == "" && node.IsZero() {
+	isEntire := idx == -1 && lang == "" && path.Len() == 0
+	if err == nil && value == "" && (isEntire || node.IsZero()) {
 		n.RemoveNode(node).Close()
 	}
 	return err
diff --git a/xmp/path.go b/xmp/path.go
index cef7fe1..ddcf7d8 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -703,14 +703,18 @@ func (d *Document) setNodePath(m Model, n *Node, path Path, value string, flags
 	if m == nil || err == errNotFound {
 		dest, err = n.getPath(path, createsNode(value, flags))
 	}
-	if err != nil {
+	if err != nil && value != "" {
 		return err
 	}
 
-	// lists may start with an empty item
+	// lists may start with an empty item and structures have no value
 	isList := false
 	if dest == "" && (value == "" || flags&CREATE == 0) {
-		if isList, err = hasItems(m, n, path); err != nil {
+		ok, lerr := hasItems(m, n, path, value == "")
+		if lerr != nil {
+			return lerr
+		}
+		if isList = ok; !isList && err != nil {
 			return err
 		}
 	}
@@ -746,8 +750,9 @@ func (d *Document) setNodePath(m Model, n *Node, path Path, value string, flags
 	return err
 }
 
-// hasItems returns true when path is a list that contains any value.
-func hasItems(m Model, n *Node, path Path) (bool, error) {
+// hasItems returns true when path is a list that contains any value, or a
+// structure if fields count as well.
+func hasItems(m Model, n *Node, path Path, fields bool) (bool, error) {
 	var pvl PathValueList
 	if m != nil {
 		l, err := ListModelPaths(m)
@@ -761,7 +766,8 @@ func hasItems(m Model, n *Node, path Path) (bool, error) {
 		return false, err
 	}
 	for _, v := range append(pvl, l...) {
-		if strings.HasPrefix(v.Path.String(), path.String()+"[") {
+		p := v.Path.String()
+		if strings.HasPrefix(p, path.String()+"[") || fields && strings.HasPrefix(p, path.String()+"/") {
 			return true, nil
 		}
 	}
@@ -895,6 +901,22 @@ func setModelPath(v Model, path Path, value string, flags SyncFlags, undo *[]fun
 			}
 			switch arr := av.Interface().(type) {
 			case *ExtensionArray:
+				// entire extensions can only be removed
+				if walker.Len() == 0 {
+					if value != "" {
+						return fmt.Errorf("property name required on path %s", path)
+					}
+					switch {
+					case flags&DELETE == 0:
+						return fmt.Errorf("DELETE flag required to remove extension on path %s", path)
+					case idx < 0:
+						*arr = nil
+					case idx < len(*arr):
+						*arr = append(append(ExtensionArray{}, (*arr)[:idx]...), (*arr)[idx+1:]...)
+					}
+					return nil
+				}
+
 				// unwrap extension namespace and keep path remainder
 				name = walker.PeekNamespacePrefix()
 
@@ -1062,6 +1084,12 @@ func setModelPath(v Model, path Path, value string, flags SyncFlags, undo *[]fun
 						return fmt.Errorf("DELETE flag required to clear array value in %s", name)
 					}
 
+					// without index all items are cleared
+					if idx < 0 && value == "" {
+						av.Set(reflect.Zero(av.Type()))
+						return nil
+					}
+
 					// sanitize idx (it is -1 when no array index was specified)
 					if idx < 0 {
 						idx = 0
@@ -1069,6 +1097,10 @@ func setModelPath(v Model, path Path, value string, flags SyncFlags, undo *[]fun
 					if av.Len() <= idx {
 						return fmt.Errorf("array %s index %d out of bounds", name, idx)
 					}
+					if value == "" {
+						av.Index(idx).Set(reflect.Zero(av.Type().Elem()))
+						return nil
+					}
 
 					v := reflect.New(fv.Type().Elem())
 					if err := unmarshalElem(v, value); err != nil {
-- 
2.43.0


From 0abd25ae10d3b1e6a733ce6d50a5945b67609e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:24 +0000
Subject: [PATCH 119/121] fix: xmpinfo -quiet also suppresses the list of paths

---
 cmd/xmpinfo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/xmpinfo.go b/cmd/xmpinfo.go
index 9c3bb6b..bf1036f 100644
--- a/cmd/xmpinfo.go
+++ b/cmd/xmpinfo.go
@@ -170,7 +170,7 @@ func main() {
 		out(marshal(model))
 	}
 
-	if fpath {
+	if fpath && !quiet {
 		l, err := model.ListPaths()
 		if err != nil {
 			fail(err)
-- 
2.43.0


From 3edd1ffb795f0d5a64d31a77fc1c650163354a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:29 +0000
Subject: [PATCH 120/121] fix: the digiKam model is registered with all other
 models

---
 models/import.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/models/import.go b/models/import.go
index 04a1f9a..1f57798 100644
--- a/models/import.go
+++ b/models/import.go
@@ -19,6 +19,7 @@ import (
 	_ "github.com/trimmer-io/go-xmp/models/cc"
 	_ "github.com/trimmer-io/go-xmp/models/crs"
 	_ "github.com/trimmer-io/go-xmp/models/dc"
+	_ "github.com/trimmer-io/go-xmp/models/digikam"
 	_ "github.com/trimmer-io/go-xmp/models/dji"
 	_ "github.com/trimmer-io/go-xmp/models/exif"
 	_ "github.com/trimmer-io/go-xmp/models/id3"
-- 
2.43.0


From 12d56c0928de83c1ea42258a16f8bff2a2a30071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:42 +0000
Subject: [PATCH 121/121] fix: lists whose items are empty lists can be read
 back

---
 xmp/array.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xmp/array.go b/xmp/array.go
index 27bbac3..da3afae 100644
--- a/xmp/array.go
+++ b/xmp/array.go
@@ -646,6 +646,10 @@ func UnmarshalArray(d *Decoder, node *Node, typ ArrayType, out interface{}) erro
 	//
 	// LogDebugf("+++ Array start node %s\n", node.FullName())
 	//
+	// items of a list that are empty lists have no array node
+	if node.FullName() == "rdf:li" && len(node.Nodes) == 0 && node.Value == "" {
+		return nil
+	}
 	if len(node.Nodes) != 1 {
 		return fmt.Errorf("xmp: invalid array %s: contains %d nodes", node.FullName(), len(node.Nodes))
 	}
-- 
2.43.0

