From 84bd093dfe1adc82b6eab4e356b5866be814a45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 01/30] fix: reject integers of more than 64 bits instead of
 wrapping around

---
 convert/convert.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/convert/convert.go b/convert/convert.go
index b12830c..c626f99 100644
--- a/convert/convert.go
+++ b/convert/convert.go
@@ -45,6 +45,10 @@ func ToInt(s []byte) (int64, error) {
 		} else {
 			return 0, errors.New("invalid char")
 		}
+		if n > math.MaxInt64/10 {
+			// Another digit can't fit, and n must not wrap around.
+			return 0, errors.New("overflow")
+		}
 		n = n*10 + uint64(c)
 	}
 
-- 
2.43.0


From 0aa5b09e19624fdecae7e8800dce5f699fd58df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 02/30] fix: never split off a chunk larger than the chunk size

---
 batchsplitter/batch_splitter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batchsplitter/batch_splitter.go b/batchsplitter/batch_splitter.go
index 33e49e9..3134654 100644
--- a/batchsplitter/batch_splitter.go
+++ b/batchsplitter/batch_splitter.go
@@ -55,7 +55,7 @@ func (s *BatchSplitter) Next() bool {
 	}
 
 	// Look backwards from the maximum size for a newline.
-	for i := s.chunkSize; i >= 0; i-- {
+	for i := s.chunkSize - 1; i >= 0; i-- {
 		if s.buf[i] == '\n' {
 			i++
 			s.out = s.buf[:i]
-- 
2.43.0


From ba3cd10984f3d8441a6bda18cc7ce8323dcfa54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 03/30] fix: recognise a delimiter at the very start of a token

---
 downsampler/avgbucket.go | 6 +++++-
 influx/tags.go           | 2 +-
 influx/token.go          | 3 +--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/downsampler/avgbucket.go b/downsampler/avgbucket.go
index 7aead5b..a53d1be 100644
--- a/downsampler/avgbucket.go
+++ b/downsampler/avgbucket.go
@@ -99,7 +99,7 @@ func (fp *fieldPairs) update(raw []byte) (errs []error) {
 		raw = raw[1:] // remove leading comma or space
 		var nameBytes []byte
 		nameBytes, raw = influx.TokenEscaped(raw, []byte("="))
-		if len(raw) == 0 || raw[0] != '=' {
+		if len(nameBytes) == 0 || len(raw) == 0 || raw[0] != '=' {
 			errs = append(errs, errors.New("invalid field"))
 			return
 		}
@@ -131,6 +131,10 @@ func (fp *fieldPairs) update(raw []byte) (errs []error) {
 		} else {
 			// Other field
 			rawValue, raw = influx.Token(raw, []byte{','})
+			if len(rawValue) == 0 {
+				errs = append(errs, errors.New("missing field value"))
+				return
+			}
 			value, exists := fp.fields[name]
 			if !exists {
 				fp.fields[name] = newFieldValue(rawValue)
diff --git a/influx/tags.go b/influx/tags.go
index 83b6cff..9a9c00d 100644
--- a/influx/tags.go
+++ b/influx/tags.go
@@ -115,7 +115,7 @@ func ParseTags(line []byte) ([]byte, TagSet, []byte, error) {
 		}
 
 		key, line = Token(line[1:], []byte("= ,"))
-		if len(line) == 0 || line[0] != '=' {
+		if len(key) == 0 || len(line) == 0 || line[0] != '=' {
 			return nil, nil, nil, errors.New("invalid tag")
 		}
 
diff --git a/influx/token.go b/influx/token.go
index 4b3fa56..dbaffd2 100644
--- a/influx/token.go
+++ b/influx/token.go
@@ -35,13 +35,12 @@ func TokenEscaped(s []byte, until []byte) ([]byte, []byte) {
 
 func token(s []byte, until []byte) ([]byte, []byte, bool) {
 	length := len(s)
-	if length == 1 {
+	if length > 0 {
 		for _, c := range until {
 			if s[0] == c {
 				return nil, s, false
 			}
 		}
-		return s, nil, false
 	}
 
 	escaped := false
-- 
2.43.0


From 27e0a8e9513525b3590d89bb549b17112e95c0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 04/30] fix: read quoted strings without losing or inventing
 backslashes

---
 influx/token.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/influx/token.go b/influx/token.go
index dbaffd2..4604e74 100644
--- a/influx/token.go
+++ b/influx/token.go
@@ -14,7 +14,10 @@
 
 package influx
 
-import "errors"
+import (
+	"bytes"
+	"errors"
+)
 
 // Token takes an escaped line protocol line and returns the
 // unescaped characters leading up to until.
@@ -80,22 +83,21 @@ func QuotedString(s []byte) ([]byte, []byte, error) {
 	}
 
 	escaped := false
-	i := 0
-	for {
-		i++
-		if i >= length {
-			return nil, nil, errors.New("missing trailing double quote")
-		}
-		if s[i] == '"' {
-			if s[i-1] == '\\' {
-				escaped = true
-				continue
-			}
+	for i := 1; i < length; i++ {
+		switch s[i] {
+		case '\\':
+			// Whatever follows a backslash can't end the string.
+			escaped = true
+			i++
+		case '"':
 			out := s[1:i]
 			if escaped {
-				out = Unescape(out)
+				// Only quotes are unescaped, so that the output of
+				// EscapeQuotedString is the same as the input here.
+				out = bytes.Replace(out, []byte(`\"`), []byte(`"`), -1)
 			}
 			return out, s[i+1:], nil
 		}
 	}
+	return nil, nil, errors.New("missing trailing double quote")
 }
-- 
2.43.0


From 8ffe31f0415b4595f3a9fe8a9030016ed24642af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 05/30] fix: recognise negative timestamps of 19 digits

---
 influx/timestamps.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/influx/timestamps.go b/influx/timestamps.go
index 25a8c86..849b516 100644
--- a/influx/timestamps.go
+++ b/influx/timestamps.go
@@ -50,7 +50,7 @@ const (
 )
 
 var (
-	// MaxTsLen is maximum number of characters a valid timestamp can be.
+	// MaxTsLen is maximum number of digits a valid timestamp can have.
 	MaxTsLen = len(fmt.Sprint(maxNanoTime))
 
 	// ErrTimeOutOfRange gets returned when time is out of the representable range using int64 nanoseconds since the epoch.
@@ -76,6 +76,9 @@ func ExtractTimestamp(line []byte) (int64, int) {
 	if to < 0 {
 		to = 0
 	}
+	if to > 0 && line[to] == '-' {
+		to-- // a sign doesn't count towards MaxTsLen
+	}
 	for i := length - 1; i >= to; i-- {
 		if line[i] == ' ' {
 			out, err := convert.ToInt(line[i+1:])
@@ -112,6 +115,9 @@ func ExtractNanos(line []byte) (int64, int) {
 	if from < 0 {
 		from = 0
 	}
+	if from > 0 && line[from] == '-' {
+		from-- // a sign doesn't count towards MaxTsLen
+	}
 	for i := from; i < length; i++ {
 		if line[i] == ' ' {
 			out, err := convert.ToInt(line[i+1:])
-- 
2.43.0


From 1c21525a6ba04114318d724b215d156a07521e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 06/30] fix: reject metrics which end inside or right after
 their labels

---
 prometheus/parse.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/prometheus/parse.go b/prometheus/parse.go
index f37555e..aab886c 100644
--- a/prometheus/parse.go
+++ b/prometheus/parse.go
@@ -68,6 +68,10 @@ func ParseMetric(s []byte) (*Metric, error) {
 		}
 		out.Labels = labels
 		i += n
+
+		if i >= len(s) || s[i] != ' ' {
+			return nil, errors.New("no value")
+		}
 	}
 
 	i++
@@ -92,7 +96,7 @@ func ParseMetric(s []byte) (*Metric, error) {
 }
 
 func parseLabels(s []byte) (Labels, int, error) {
-	if s[0] == '}' {
+	if len(s) > 0 && s[0] == '}' {
 		return nil, 1, nil
 	}
 
@@ -117,6 +121,9 @@ func parseLabels(s []byte) (Labels, int, error) {
 
 		out = append(out, label)
 
+		if i >= len(s) {
+			return nil, i, errors.New("missing closing brace")
+		}
 		switch s[i] {
 		case '}':
 			return out, i + 1, nil
-- 
2.43.0


From 6b3255ac1a3df320e391d0797a731ee03749b1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 07/30] fix: don't overwrite the received text when formatting
 a metric

---
 prometheus/metric.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prometheus/metric.go b/prometheus/metric.go
index ccc9ecc..afc8a13 100644
--- a/prometheus/metric.go
+++ b/prometheus/metric.go
@@ -34,7 +34,9 @@ func (m *Metric) String() string {
 
 // ToBytes renders the metric to wire format.
 func (m *Metric) ToBytes() []byte {
-	out := bytes.NewBuffer(m.Name)
+	// Don't write into the memory following the name.
+	out := new(bytes.Buffer)
+	out.Write(m.Name)
 	if len(m.Labels) > 0 {
 		out.Write(m.Labels.ToBytes())
 	}
-- 
2.43.0


From 5c06251bffe3cfd407d2da73ff4d5a9a478bf0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:21 +0000
Subject: [PATCH 08/30] fix: compare measurement names rather than just their
 hashes

---
 filter/rules.go | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/filter/rules.go b/filter/rules.go
index ddbc8ae..e50599d 100644
--- a/filter/rules.go
+++ b/filter/rules.go
@@ -15,8 +15,8 @@
 package filter
 
 import (
+	"bytes"
 	"fmt"
-	"hash/fnv"
 	"regexp"
 	"sort"
 
@@ -37,22 +37,16 @@ type Rule struct {
 // CreateBasicRule creates a simple rule that publishes measurements
 // with the name @measurement to the NATS @subject.
 func CreateBasicRule(measurement string, subject string) Rule {
-	hh := hashMeasurement([]byte(measurement))
+	name := []byte(measurement)
 
 	return Rule{
 		match: func(line *parsedLine) bool {
-			return hh == line.HashedMeasurement()
+			return bytes.Equal(name, line.Measurement)
 		},
 		subject: subject,
 	}
 }
 
-func hashMeasurement(measurement []byte) uint32 {
-	hh := fnv.New32()
-	hh.Write(measurement)
-	return hh.Sum32()
-}
-
 // CreateRegexRule creates a rule that publishes measurements which
 // match the given @regexString to the NATS @subject.
 func CreateRegexRule(regexString, subject string) Rule {
@@ -186,8 +180,7 @@ type parsedLine struct {
 	Escaped   []byte
 	unescaped []byte
 
-	Measurement       []byte
-	hashedMeasurement *uint32
+	Measurement []byte
 
 	Tags      influx.TagSet
 	Remainder []byte
@@ -201,14 +194,6 @@ func (pl *parsedLine) Unescaped() []byte {
 	return pl.unescaped
 }
 
-func (pl *parsedLine) HashedMeasurement() uint32 {
-	if pl.hashedMeasurement == nil {
-		h := hashMeasurement(pl.Measurement)
-		pl.hashedMeasurement = &h
-	}
-	return *pl.hashedMeasurement
-}
-
 func (pl *parsedLine) SortTags() {
 	if sort.IsSorted(pl.Tags) {
 		// Tags are already sorted so nothing to do.
-- 
2.43.0


From 654f87af126eb7719b59f6a2c366b4f4183cc1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 09/30] fix: sort a line's tags without altering anything else
 in it

---
 filter/rules.go | 51 +++++++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/filter/rules.go b/filter/rules.go
index e50599d..46391ad 100644
--- a/filter/rules.go
+++ b/filter/rules.go
@@ -200,30 +200,35 @@ func (pl *parsedLine) SortTags() {
 		return
 	}
 
-	sort.Sort(pl.Tags)
-
-	// Replace Escaped with sorted tags version.
-
-	var newHdr []byte
-	newHdr = append(newHdr, influx.EscapeMeasurement(pl.Measurement)...)
-	newHdr = append(newHdr, ',')
-	newHdr = append(newHdr, pl.Tags.Bytes()...)
-
-	if len(pl.Remainder) == 0 {
-		// Nothing left so "newHdr" is exactly what needs to be returned.
-		pl.Escaped = newHdr
-		return
+	// Sort the tags as they were received along with the parsed ones.
+	line := bytes.TrimSuffix(pl.Escaped, []byte("\n"))
+	measurement, rest := influx.TokenEscaped(line, []byte(", "))
+	rawTags := make([][]byte, len(pl.Tags))
+	for i := range rawTags {
+		rawTags[i], rest = influx.TokenEscaped(rest[1:], []byte(", "))
 	}
-
-	if len(newHdr)+len(pl.Remainder)+1 == len(pl.Escaped) {
-		// Length hasn't changed so reuse memory used by original,
-		// overwriting the measurement name and tags part.
-		copy(pl.Escaped, newHdr)
-		return
+	sort.Sort(&tagSorter{pl.Tags, rawTags})
+
+	// Replace Escaped with sorted tags version. The parsed tags refer
+	// to the memory used by the original so it can't be reused.
+	out := make([]byte, 0, len(pl.Escaped))
+	out = append(out, measurement...)
+	for _, rawTag := range rawTags {
+		out = append(out, ',')
+		out = append(out, rawTag...)
 	}
+	out = append(out, rest...)
+	out = append(out, pl.Escaped[len(line):]...)
+	pl.Escaped = out
+}
+
+// tagSorter sorts parsed tags together with their escaped versions.
+type tagSorter struct {
+	influx.TagSet
+	raw [][]byte
+}
 
-	// Length as changed (original escaped differently?)
-	newHdr = append(newHdr, ' ')
-	newHdr = append(newHdr, pl.Remainder...)
-	pl.Escaped = newHdr
+func (t *tagSorter) Swap(i, j int) {
+	t.TagSet.Swap(i, j)
+	t.raw[i], t.raw[j] = t.raw[j], t.raw[i]
 }
-- 
2.43.0


From 0e0038ebc8d0c7c4f48ed3d315b9c33e57de4687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 10/30] fix: apply the time window to lines with short
 timestamps too

---
 filter/worker.go | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/filter/worker.go b/filter/worker.go
index 3c028da..89826c9 100644
--- a/filter/worker.go
+++ b/filter/worker.go
@@ -160,18 +160,9 @@ func (w *worker) publish(subject string, data []byte) {
 	}
 }
 
-// Any realistic nanosecond timestamp will be at least 18 characters
-// long.
-const minTsLen = 18
-
 func extractTimestamp(line []byte, defaultTs int64) int64 {
-	// Reject lines that are too short to have a timestamp.
-	if len(line) <= minTsLen+6 {
-		return defaultTs
-	}
-
-	out, _ := influx.ExtractNanos(line)
-	if out == -1 {
+	out, offset := influx.ExtractTimestamp(line)
+	if offset == -1 {
 		return defaultTs
 	}
 	return out
-- 
2.43.0


From ddac5b580fdc99e7b6eaecfde1be95b71804a71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:14 +0000
Subject: [PATCH 11/30] fix: don't take a line's newline for part of its last
 tag

---
 filter/rules.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filter/rules.go b/filter/rules.go
index 46391ad..162546e 100644
--- a/filter/rules.go
+++ b/filter/rules.go
@@ -157,7 +157,9 @@ func (rs *RuleSet) LookupParsed(line *parsedLine) int {
 }
 
 func newParsedLine(escaped []byte) (*parsedLine, error) {
-	measurement, tags, remainder, err := influx.ParseTags(escaped)
+	// The newline is not part of what is parsed, in particular not of
+	// the last tag of a line without fields.
+	measurement, tags, remainder, err := influx.ParseTags(bytes.TrimSuffix(escaped, []byte("\n")))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 029555160844a33237087d83610c71d958c6003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 12/30] fix: emit the exact mean of integer fields

---
 downsampler/avgbucket.go | 44 ++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/downsampler/avgbucket.go b/downsampler/avgbucket.go
index a53d1be..26e0cd6 100644
--- a/downsampler/avgbucket.go
+++ b/downsampler/avgbucket.go
@@ -17,6 +17,7 @@ package downsampler
 import (
 	"errors"
 	"fmt"
+	"math/bits"
 	"sort"
 	"strconv"
 	"time"
@@ -180,10 +181,9 @@ type fieldValue interface {
 func newFieldValue(v []byte) fieldValue {
 	if len(v) >= 2 && v[len(v)-1] == 'i' {
 		if iv, err := convert.ToInt(v[:len(v)-1]); err == nil {
-			return &intFieldValue{
-				average: iv,
-				count:   1,
-			}
+			value := new(intFieldValue)
+			value.add(iv)
+			return value
 		}
 	}
 	if fv, err := strconv.ParseFloat(string(v), 64); err == nil {
@@ -200,8 +200,33 @@ func newStringValue(v []byte) fieldValue {
 }
 
 type intFieldValue struct {
-	average int64
-	count   int64
+	// sumHi and sumLo are the upper and lower half of the (signed) sum
+	// of the values. 128 bits are needed to keep it exact.
+	sumHi uint64
+	sumLo uint64
+	count uint64
+}
+
+func (v *intFieldValue) add(i int64) {
+	var carry uint64
+	v.sumLo, carry = bits.Add64(v.sumLo, uint64(i), 0)
+	v.sumHi, _ = bits.Add64(v.sumHi, uint64(i>>63), carry)
+	v.count++
+}
+
+func (v *intFieldValue) average() int64 {
+	hi, lo := v.sumHi, v.sumLo
+	negative := int64(hi) < 0
+	if negative {
+		var borrow uint64
+		lo, borrow = bits.Sub64(0, lo, 0)
+		hi, _ = bits.Sub64(0, hi, borrow)
+	}
+	quo, _ := bits.Div64(hi, lo, v.count)
+	if negative {
+		return -int64(quo)
+	}
+	return int64(quo)
 }
 
 func (v *intFieldValue) update(b []byte) error {
@@ -212,15 +237,12 @@ func (v *intFieldValue) update(b []byte) error {
 	if err != nil {
 		return fmt.Errorf("wrong type for int: %s", b)
 	}
-
-	// Update incremental average.
-	v.count++
-	v.average = v.average + ((bi - v.average) / v.count)
+	v.add(bi)
 	return nil
 }
 
 func (v *intFieldValue) bytes() []byte {
-	return append(strconv.AppendInt(nil, v.average, 10), 'i')
+	return append(strconv.AppendInt(nil, v.average(), 10), 'i')
 }
 
 type floatFieldValue struct {
-- 
2.43.0


From ac92104842813b7acf1be0d6924a5d6e6c13b66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:06 +0000
Subject: [PATCH 13/30] fix: don't let field values change the type of a field

---
 downsampler/avgbucket.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/downsampler/avgbucket.go b/downsampler/avgbucket.go
index 26e0cd6..acfca5c 100644
--- a/downsampler/avgbucket.go
+++ b/downsampler/avgbucket.go
@@ -125,7 +125,7 @@ func (fp *fieldPairs) update(raw []byte) (errs []error) {
 			if !exists {
 				fp.fields[name] = newStringValue(rawValue)
 			} else {
-				if err := value.update(rawValue); err != nil {
+				if err := value.update(rawValue, true); err != nil {
 					errs = append(errs, err) // Non-fatal, so keep going.
 				}
 			}
@@ -140,7 +140,7 @@ func (fp *fieldPairs) update(raw []byte) (errs []error) {
 			if !exists {
 				fp.fields[name] = newFieldValue(rawValue)
 			} else {
-				if err := value.update(rawValue); err != nil {
+				if err := value.update(rawValue, false); err != nil {
 					errs = append(errs, err) // Non-fatal, so keep going.
 				}
 			}
@@ -174,7 +174,9 @@ func (fp *fieldPairs) bytes() []byte {
 }
 
 type fieldValue interface {
-	update([]byte) error
+	// update adds a value which was received as a quoted string or as
+	// something else. Values of another type are ignored with an error.
+	update(value []byte, quoted bool) error
 	bytes() []byte
 }
 
@@ -229,8 +231,8 @@ func (v *intFieldValue) average() int64 {
 	return int64(quo)
 }
 
-func (v *intFieldValue) update(b []byte) error {
-	if len(b) < 2 || b[len(b)-1] != 'i' {
+func (v *intFieldValue) update(b []byte, quoted bool) error {
+	if quoted || len(b) < 2 || b[len(b)-1] != 'i' {
 		return fmt.Errorf("wrong type for int: %s", b)
 	}
 	bi, err := convert.ToInt(b[:len(b)-1])
@@ -250,9 +252,9 @@ type floatFieldValue struct {
 	count   int64
 }
 
-func (v *floatFieldValue) update(b []byte) error {
+func (v *floatFieldValue) update(b []byte, quoted bool) error {
 	bf, err := strconv.ParseFloat(string(b), 64)
-	if err != nil {
+	if quoted || err != nil {
 		return fmt.Errorf("wrong type for float: %s", b)
 	}
 
@@ -268,7 +270,10 @@ func (v *floatFieldValue) bytes() []byte {
 
 type stringFieldValue struct{ b []byte }
 
-func (v *stringFieldValue) update(b []byte) error {
+func (v *stringFieldValue) update(b []byte, quoted bool) error {
+	if !quoted {
+		return fmt.Errorf("wrong type for string: %s", b)
+	}
 	v.b = b
 	return nil
 }
@@ -278,7 +283,10 @@ func (v *stringFieldValue) bytes() []byte {
 
 type rawFieldValue struct{ b []byte }
 
-func (v *rawFieldValue) update(b []byte) error {
+func (v *rawFieldValue) update(b []byte, quoted bool) error {
+	if _, isRaw := newFieldValue(b).(*rawFieldValue); quoted || !isRaw {
+		return fmt.Errorf("wrong type for non-numeric field: %s", b)
+	}
 	v.b = b
 	return nil
 }
-- 
2.43.0


From b0e27942da501f25bb8a5abdb932322103d21c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:07 +0000
Subject: [PATCH 14/30] fix: reject text after a string field and keep escapes
 of other fields

---
 downsampler/avgbucket.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/downsampler/avgbucket.go b/downsampler/avgbucket.go
index acfca5c..ea9675e 100644
--- a/downsampler/avgbucket.go
+++ b/downsampler/avgbucket.go
@@ -121,6 +121,10 @@ func (fp *fieldPairs) update(raw []byte) (errs []error) {
 				errs = append(errs, err)
 				return
 			}
+			if len(raw) > 0 && raw[0] != ',' {
+				errs = append(errs, errors.New("invalid field"))
+				return
+			}
 			value, exists := fp.fields[name]
 			if !exists {
 				fp.fields[name] = newStringValue(rawValue)
@@ -131,7 +135,7 @@ func (fp *fieldPairs) update(raw []byte) (errs []error) {
 			}
 		} else {
 			// Other field
-			rawValue, raw = influx.Token(raw, []byte{','})
+			rawValue, raw = influx.TokenEscaped(raw, []byte{','})
 			if len(rawValue) == 0 {
 				errs = append(errs, errors.New("missing field value"))
 				return
-- 
2.43.0


From c649b90a3348b2d125216b41535d815ee3a2180a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:40 +0000
Subject: [PATCH 15/30] fix: don't run the lines of different HTTP requests
 together

---
 listener/listener.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/listener/listener.go b/listener/listener.go
index 215eb3e..9bbaa4a 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -282,6 +282,8 @@ func (l *Listener) readHTTPBody(r *http.Request) (int64, error) {
 func (l *Listener) readHTTPBodyNanos(r *http.Request) (int64, error) {
 	l.mu.Lock()
 	defer l.mu.Unlock()
+	// Earlier data may not have ended with a newline.
+	l.batch.EnsureNewline()
 	return l.batch.ReadFrom(r.Body)
 }
 
@@ -304,6 +306,7 @@ func (l *Listener) readHTTPBodyWithPrecision(r *http.Request, precision string)
 
 		newLine := applyTimestampPrecision(line, precision)
 		l.mu.Lock()
+		l.batch.EnsureNewline()
 		l.batch.Append(newLine)
 		l.mu.Unlock()
 	}
-- 
2.43.0


From 5ddef47f97e61fcfc83edf312f8e6a61358adf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:59 +0000
Subject: [PATCH 16/30] fix: don't let a slow HTTP client hold up all received
 data

---
 listener/listener.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/listener/listener.go b/listener/listener.go
index 9bbaa4a..2dc92b0 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -20,6 +20,7 @@ import (
 	"bufio"
 	"bytes"
 	"fmt"
+	"io/ioutil"
 	"log"
 	"net"
 	"net/http"
@@ -280,11 +281,17 @@ func (l *Listener) readHTTPBody(r *http.Request) (int64, error) {
 }
 
 func (l *Listener) readHTTPBodyNanos(r *http.Request) (int64, error) {
-	l.mu.Lock()
-	defer l.mu.Unlock()
-	// Earlier data may not have ended with a newline.
-	l.batch.EnsureNewline()
-	return l.batch.ReadFrom(r.Body)
+	// Read the body before taking the lock, so that a slow client only
+	// delays itself.
+	body, err := ioutil.ReadAll(r.Body)
+	if len(body) > 0 {
+		l.mu.Lock()
+		defer l.mu.Unlock()
+		// Earlier data may not have ended with a newline.
+		l.batch.EnsureNewline()
+		l.batch.Append(body)
+	}
+	return int64(len(body)), err
 }
 
 func (l *Listener) readHTTPBodyWithPrecision(r *http.Request, precision string) (int, error) {
-- 
2.43.0


From 985722b857f2e5fdded65b6ebe1ec0faafc63a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:30 +0000
Subject: [PATCH 17/30] fix: clean up and return an error when a listener can't
 be started

---
 listener/listener.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/listener/listener.go b/listener/listener.go
index 2dc92b0..18ab7c3 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -87,11 +87,16 @@ func StartHTTPListener(c *config.Config) (*Listener, error) {
 	if err != nil {
 		return nil, err
 	}
+	ln, err := net.Listen("tcp", fmt.Sprintf(":%d", c.Port))
+	if err != nil {
+		listener.Stop()
+		return nil, err
+	}
 	server := listener.setupHTTP()
 
 	listener.wg.Add(2)
 	go listener.startStatistician()
-	go listener.listenHTTP(server)
+	go listener.listenHTTP(server, ln)
 
 	log.Printf("HTTP listener publishing to [%s] at %s", c.NATSSubject[0], c.NATSAddress)
 
@@ -142,6 +147,7 @@ func newListener(c *config.Config) (*Listener, error) {
 
 	nc, err := nats.Connect(l.c.NATSAddress, nats.MaxReconnects(-1), nats.Name(l.c.Name))
 	if err != nil {
+		l.probes.Close()
 		return nil, err
 	}
 	l.nc = nc
@@ -164,6 +170,7 @@ func (l *Listener) setupUDP(configBufSize int) (*net.UDPConn, error) {
 		log.Printf("rounding up receive buffer to nearest page size (now %d bytes)", bufSize)
 	}
 	if err := sc.SetReadBuffer(bufSize); err != nil {
+		sc.Close()
 		return nil, err
 	}
 
@@ -218,10 +225,7 @@ func (l *Listener) setupHTTP() *http.Server {
 
 	mux := http.NewServeMux()
 	mux.HandleFunc("/write", l.handleHTTPWrite)
-	return &http.Server{
-		Addr:    fmt.Sprintf(":%d", l.c.Port),
-		Handler: mux,
-	}
+	return &http.Server{Handler: mux}
 }
 
 // oldBatchSender is a goroutine which sends the batch when it reached
@@ -355,12 +359,12 @@ func applyTimestampPrecision(line []byte, precision string) []byte {
 	return append(newLine, '\n')
 }
 
-func (l *Listener) listenHTTP(server *http.Server) {
+func (l *Listener) listenHTTP(server *http.Server, ln net.Listener) {
 	defer l.wg.Done()
 
 	go func() {
 		l.probes.SetReady(true)
-		err := server.ListenAndServe()
+		err := server.Serve(ln)
 		if err == nil || err == http.ErrServerClosed {
 			return
 		}
-- 
2.43.0


From 12e9b9497ea21632a873a07365d5f44c44623b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 18/30] fix: wait for the HTTP server on stopping and never get
 ready afterwards

---
 listener/listener.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/listener/listener.go b/listener/listener.go
index 18ab7c3..589098f 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -73,6 +73,7 @@ func StartListener(c *config.Config) (_ *Listener, err error) {
 	listener.wg.Add(2)
 	go listener.startStatistician()
 	go listener.listenUDP(sc)
+	listener.probes.SetReady(true)
 
 	log.Printf("UDP listener publishing to [%s] at %s", c.NATSSubject[0], c.NATSAddress)
 
@@ -97,6 +98,7 @@ func StartHTTPListener(c *config.Config) (*Listener, error) {
 	listener.wg.Add(2)
 	go listener.startStatistician()
 	go listener.listenHTTP(server, ln)
+	listener.probes.SetReady(true)
 
 	log.Printf("HTTP listener publishing to [%s] at %s", c.NATSSubject[0], c.NATSAddress)
 
@@ -192,7 +194,6 @@ func (l *Listener) listenUDP(sc *net.UDPConn) {
 		l.wg.Done()
 	}()
 
-	l.probes.SetReady(true)
 	for {
 		// Read deadline is used so that the stop channel can be
 		// periodically checked.
@@ -362,8 +363,9 @@ func applyTimestampPrecision(line []byte, precision string) []byte {
 func (l *Listener) listenHTTP(server *http.Server, ln net.Listener) {
 	defer l.wg.Done()
 
+	l.wg.Add(1)
 	go func() {
-		l.probes.SetReady(true)
+		defer l.wg.Done()
 		err := server.Serve(ln)
 		if err == nil || err == http.ErrServerClosed {
 			return
-- 
2.43.0


From 66e6ec88ba233230938a72dce1ce3edc89620997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:52 +0000
Subject: [PATCH 19/30] fix: report when the monitor can't listen and never get
 ready after stopping

---
 monitor/monitor.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 3a3bdc8..678895e 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -18,6 +18,7 @@ package monitor
 import (
 	"fmt"
 	"log"
+	"net"
 	"net/http"
 	"sync"
 
@@ -56,8 +57,14 @@ func Start(conf *config.Config) (_ *Monitor, err error) {
 		return nil, fmt.Errorf("NATS: failed to flush: %v", err)
 	}
 
+	ln, err := net.Listen("tcp", fmt.Sprintf(":%d", m.c.Port))
+	if err != nil {
+		return nil, err
+	}
+
 	m.wg.Add(1)
-	go m.serveHTTP()
+	go m.serveHTTP(ln)
+	m.probes.SetReady(true)
 
 	log.Printf("monitor subscribed to [%s] at %s - serving HTTP on port %d",
 		m.c.NATSSubjectMonitor, m.c.NATSAddress, m.c.Port)
@@ -107,7 +114,7 @@ func (m *Monitor) natsConnect() (*nats.Conn, error) {
 	return nc, nil
 }
 
-func (m *Monitor) serveHTTP() {
+func (m *Monitor) serveHTTP(ln net.Listener) {
 	defer m.wg.Done()
 
 	mux := http.NewServeMux()
@@ -120,14 +127,12 @@ func (m *Monitor) serveHTTP() {
 		w.Write(m.metrics.ToBytes())
 	})
 
-	server := &http.Server{
-		Addr:    fmt.Sprintf(":%d", m.c.Port),
-		Handler: mux,
-	}
+	server := &http.Server{Handler: mux}
 
+	m.wg.Add(1)
 	go func() {
-		m.probes.SetReady(true)
-		err := server.ListenAndServe()
+		defer m.wg.Done()
+		err := server.Serve(ln)
 		if err == nil || err == http.ErrServerClosed {
 			return
 		}
-- 
2.43.0


From 8e207b430497034959a29e8ac4546aa1818cd208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:15 +0000
Subject: [PATCH 20/30] fix: don't leave NATS callbacks blocked after stopping

---
 downsampler/downsampler.go |  5 ++++-
 filter/filter.go           |  5 ++++-
 writer/writer.go           | 15 +++++++++------
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/downsampler/downsampler.go b/downsampler/downsampler.go
index 0eea6d7..e6472d7 100644
--- a/downsampler/downsampler.go
+++ b/downsampler/downsampler.go
@@ -82,7 +82,10 @@ func StartDownsampler(c *config.Config) (_ *Downsampler, err error) {
 		ds.wg.Add(1)
 		go ds.worker(subject, inputCh)
 		subscription, err := ds.nc.Subscribe(subject, func(msg *nats.Msg) {
-			inputCh <- msg.Data
+			select {
+			case inputCh <- msg.Data:
+			case <-ds.stop:
+			}
 		})
 		if err != nil {
 			return nil, fmt.Errorf("NATS: subscription for %q failed: %v", subject, err)
diff --git a/filter/filter.go b/filter/filter.go
index 7ab2f00..101fe91 100644
--- a/filter/filter.go
+++ b/filter/filter.go
@@ -93,7 +93,10 @@ func StartFilter(conf *config.Config) (_ *Filter, err error) {
 		if conf.Debug {
 			log.Printf("filter received %d bytes", len(msg.Data))
 		}
-		jobs <- msg.Data
+		select {
+		case jobs <- msg.Data:
+		case <-f.stop:
+		}
 	})
 	if err != nil {
 		return nil, fmt.Errorf("NATS: failed to subscribe: %v", err)
diff --git a/writer/writer.go b/writer/writer.go
index 5bfc905..713c6ec 100644
--- a/writer/writer.go
+++ b/writer/writer.go
@@ -86,18 +86,21 @@ func StartWriter(c *config.Config) (_ *Writer, err error) {
 		go w.worker(jobs)
 	}
 
+	enqueue := func(msg *nats.Msg) {
+		select {
+		case jobs <- msg:
+		case <-w.stop:
+		}
+	}
+
 	// Subscribe the writer to the configured NATS subjects.
 	subs := make([]*nats.Subscription, 0, len(c.NATSSubject))
 	for _, subject := range c.NATSSubject {
 		var sub *nats.Subscription
 		if c.QueueGroup == "" {
-			sub, err = w.nc.Subscribe(subject, func(msg *nats.Msg) {
-				jobs <- msg
-			})
+			sub, err = w.nc.Subscribe(subject, enqueue)
 		} else {
-			sub, err = w.nc.QueueSubscribe(subject, c.QueueGroup, func(msg *nats.Msg) {
-				jobs <- msg
-			})
+			sub, err = w.nc.QueueSubscribe(subject, c.QueueGroup, enqueue)
 		}
 
 		if err != nil {
-- 
2.43.0


From 07993849c047e51c6785b0929bf2a8c0f64e4657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 21/30] fix: don't retry writes which failed permanently

---
 writer/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer/writer.go b/writer/writer.go
index 713c6ec..c347619 100644
--- a/writer/writer.go
+++ b/writer/writer.go
@@ -196,7 +196,7 @@ func (w *Writer) worker(jobs <-chan *nats.Msg) {
 				if err := dbClient.Write(chunk); err != nil {
 					w.stats.Inc(statFailedWrites)
 					log.Printf("Error: %v", err)
-					if retryCh != nil {
+					if retryCh != nil && !isPermanentError(err) {
 						// Copy the bytes because the underlying batch
 						// buffer will be reused. A copy is relatively
 						// expensive but is only made in the (hopefully)
-- 
2.43.0


From bf4baa080095ef566b576bbf6cbbd3b8b86ee766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:59 +0000
Subject: [PATCH 22/30] fix: count every write request and failed write,
 retries included

---
 writer/retryworker.go | 14 --------------
 writer/writer.go      | 29 ++++++++++++++++++-----------
 2 files changed, 18 insertions(+), 25 deletions(-)

diff --git a/writer/retryworker.go b/writer/retryworker.go
index 8341ae7..e9c28de 100644
--- a/writer/retryworker.go
+++ b/writer/retryworker.go
@@ -35,7 +35,6 @@ func newRetryWorker(inputCh <-chan []byte, dbWriter dbWriter, c *config.Config)
 			maxBatches: c.WriterRetryBatches,
 			maxTTL:     c.WriterRetryTimeout.Duration,
 		},
-		writes:      make(chan struct{}, c.WriterRetryBatches*4),
 		writeErrors: make(chan error, c.WriterRetryBatches*4),
 		stop:        make(chan struct{}),
 	}
@@ -65,7 +64,6 @@ type retryWorker struct {
 	inputCh       <-chan []byte
 	dbWriter      dbWriter
 	retryInterval time.Duration
-	writes        chan struct{}
 	writeErrors   chan error
 	queue         *retryQueue
 	stop          chan struct{}
@@ -81,10 +79,6 @@ func (w *retryWorker) WriteErrors() <-chan error {
 	return w.writeErrors
 }
 
-func (w *retryWorker) Writes() <-chan struct{} {
-	return w.writes
-}
-
 func (w *retryWorker) loop() {
 	defer w.wg.Done()
 
@@ -103,7 +97,6 @@ func (w *retryWorker) loop() {
 
 			buf := w.queue.Front()
 			if buf != nil {
-				w.reportWrite()
 				err := w.dbWriter.Write(buf)
 				if err != nil {
 					if isPermanentError(err) {
@@ -120,13 +113,6 @@ func (w *retryWorker) loop() {
 	}
 }
 
-func (w *retryWorker) reportWrite() {
-	select {
-	case w.writes <- struct{}{}:
-	default:
-	}
-}
-
 func (w *retryWorker) reportError(err error) {
 	select {
 	case w.writeErrors <- err:
diff --git a/writer/writer.go b/writer/writer.go
index c347619..0cdbd36 100644
--- a/writer/writer.go
+++ b/writer/writer.go
@@ -150,18 +150,16 @@ func (w *Writer) Stop() {
 func (w *Writer) worker(jobs <-chan *nats.Msg) {
 	defer w.wg.Done()
 
-	dbClient := newInfluxClient(w.c)
+	dbClient := &countingWriter{newInfluxClient(w.c), w.stats}
 
 	var (
-		retryCh      chan []byte
-		retryWriteCh <-chan struct{}
-		retryErrCh   <-chan error
+		retryCh    chan []byte
+		retryErrCh <-chan error
 	)
 	if w.c.WriterRetryBatches > 0 {
 		retryCh = make(chan []byte, 1)
 		rw := newRetryWorker(retryCh, dbClient, w.c)
 		defer rw.Stop()
-		retryWriteCh = rw.Writes()
 		retryErrCh = rw.WriteErrors()
 	}
 
@@ -172,10 +170,7 @@ func (w *Writer) worker(jobs <-chan *nats.Msg) {
 		case j := <-jobs:
 			w.stats.Inc(statReceived)
 			batchAppend(j.Data)
-		case <-retryWriteCh:
-			w.stats.Inc(statWriteRequests)
 		case err := <-retryErrCh:
-			w.stats.Inc(statFailedWrites)
 			log.Printf("Retry error: %v", err)
 		case <-time.After(time.Second):
 			// Wake up regularly to check batch age
@@ -184,8 +179,6 @@ func (w *Writer) worker(jobs <-chan *nats.Msg) {
 		}
 
 		if w.shouldSend(batch) {
-			w.stats.Inc(statWriteRequests)
-
 			// It is possible for the batch to end up being slightly
 			// larger than the configured maximum batch size because
 			// inbound messages will almost never align exactly with
@@ -194,7 +187,6 @@ func (w *Writer) worker(jobs <-chan *nats.Msg) {
 			for splitter.Next() {
 				chunk := splitter.Chunk()
 				if err := dbClient.Write(chunk); err != nil {
-					w.stats.Inc(statFailedWrites)
 					log.Printf("Error: %v", err)
 					if retryCh != nil && !isPermanentError(err) {
 						// Copy the bytes because the underlying batch
@@ -245,6 +237,21 @@ func (w *Writer) shouldSend(batch *batch.Batch) bool {
 		batch.Age() >= w.c.BatchMaxAge.Duration
 }
 
+// countingWriter counts the writes made through it, retries included.
+type countingWriter struct {
+	dbWriter
+	stats *stats.Stats
+}
+
+func (cw *countingWriter) Write(buf []byte) error {
+	cw.stats.Inc(statWriteRequests)
+	err := cw.dbWriter.Write(buf)
+	if err != nil {
+		cw.stats.Inc(statFailedWrites)
+	}
+	return err
+}
+
 // This goroutine is responsible for monitoring the statistics and
 // sending it to the monitoring backend.
 func (w *Writer) startStatistician(subs []*nats.Subscription) {
-- 
2.43.0


From b62934f660bc856ca31741964a3f82a190ee50b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:07 +0000
Subject: [PATCH 23/30] fix: don't run the lines of different messages together
 in the writer

---
 writer/writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/writer/writer.go b/writer/writer.go
index 0cdbd36..c5ba139 100644
--- a/writer/writer.go
+++ b/writer/writer.go
@@ -218,6 +218,8 @@ func (w *Writer) getBatchWriteFunc(batch *batch.Batch) func([]byte) {
 		// filters.
 		for _, line := range bytes.SplitAfter(data, []byte("\n")) {
 			if w.filterLine(line) {
+				// The previous message may not have ended with a newline.
+				batch.EnsureNewline()
 				batch.Append(line)
 			}
 		}
-- 
2.43.0


From 384d335007cef2cae17981072fffeb749ee26b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:13 +0000
Subject: [PATCH 24/30] fix: refuse rules which would crash the filter or
 writer at start-up

---
 config/config.go | 48 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/config/config.go b/config/config.go
index 31cffe4..2ae6838 100644
--- a/config/config.go
+++ b/config/config.go
@@ -19,6 +19,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"regexp"
 	"time"
 
 	"github.com/BurntSushi/toml"
@@ -161,25 +162,38 @@ func (c *Config) validateFilter() error {
 		if rule.Subject == "" {
 			return errors.New(`rule missing "subject"`)
 		}
-		if rule.Rtype != "tags" && rule.Match == "" {
-			return errors.New(`rule missing "match"`)
+		if err := rule.validateMatch(); err != nil {
+			return err
 		}
-		if rule.Rtype != "tags" && len(rule.Tags) > 0 {
-			return fmt.Errorf(`%s rule cannot use "tags"`, rule.Rtype)
+	}
+	return nil
+}
+
+// validateMatch checks the parts of a rule which say what it matches.
+func (rule *Rule) validateMatch() error {
+	if rule.Rtype != "tags" && rule.Match == "" {
+		return errors.New(`rule missing "match"`)
+	}
+	if rule.Rtype != "tags" && len(rule.Tags) > 0 {
+		return fmt.Errorf(`%s rule cannot use "tags"`, rule.Rtype)
+	}
+	switch rule.Rtype {
+	case "tags":
+		if rule.Match != "" {
+			return errors.New(`tags rule cannot use "match"`)
 		}
-		if rule.Rtype == "tags" {
-			if rule.Match != "" {
-				return errors.New(`tags rule cannot use "match"`)
-			}
-			if len(rule.Tags) == 0 {
-				return errors.New(`tags rule missing "tags"`)
-			}
-			for _, tag := range rule.Tags {
-				if len(tag) != 2 {
-					return errors.New("each tags item must contain 2 values")
-				}
+		if len(rule.Tags) == 0 {
+			return errors.New(`tags rule missing "tags"`)
+		}
+		for _, tag := range rule.Tags {
+			if len(tag) != 2 {
+				return errors.New("each tags item must contain 2 values")
 			}
 		}
+	case "regex", "negregex":
+		if _, err := regexp.Compile(rule.Match); err != nil {
+			return fmt.Errorf("%s rule: %v", rule.Rtype, err)
+		}
 	}
 	return nil
 }
@@ -215,8 +229,8 @@ func (c *Config) validateWriter() error {
 		if rule.Rtype == "" {
 			return errors.New(`rule missing "type"`)
 		}
-		if rule.Match == "" {
-			return errors.New(`rule missing "match"`)
+		if err := rule.validateMatch(); err != nil {
+			return err
 		}
 		if rule.Subject != "" {
 			return fmt.Errorf("writer rules shouldn't have subject (%q)", rule.Subject)
-- 
2.43.0


From 43235f0ddd623f06982c87cd82105b2d50f28d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:37 +0000
Subject: [PATCH 25/30] fix: refuse settings which would make a component spin,
 hang or crash

---
 config/config.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/config/config.go b/config/config.go
index 2ae6838..25c8a92 100644
--- a/config/config.go
+++ b/config/config.go
@@ -132,10 +132,10 @@ func (c *Config) Validate() error {
 	case "writer":
 		return c.validateWriter()
 	case "monitor":
+		return c.validateMonitor()
 	default:
 		return fmt.Errorf("invalid mode: %s", c.Mode)
 	}
-	return nil
 }
 
 func (c *Config) validateListener() error {
@@ -148,6 +148,12 @@ func (c *Config) validateListener() error {
 	if c.BatchMaxSize > MaxNATSMsgSize {
 		return fmt.Errorf("listener batch must be %s or smaller", MaxNATSMsgSize)
 	}
+	if c.Mode == "listener_http" && c.BatchMaxAge.Duration <= 0 {
+		return errors.New("batch_max_age must be positive")
+	}
+	if c.StatsInterval.Duration <= 0 {
+		return errors.New("stats_interval must be positive")
+	}
 	return nil
 }
 
@@ -155,6 +161,12 @@ func (c *Config) validateFilter() error {
 	if len(c.NATSSubject) != 1 {
 		return errors.New("filter should only use one NATS subject")
 	}
+	if c.Workers < 1 {
+		return errors.New("filter needs at least one worker")
+	}
+	if c.StatsInterval.Duration <= 0 {
+		return errors.New("stats_interval must be positive")
+	}
 	for _, rule := range c.Rule {
 		if rule.Rtype == "" {
 			return errors.New(`rule missing "type"`)
@@ -199,9 +211,12 @@ func (rule *Rule) validateMatch() error {
 }
 
 func (c *Config) validateDownsampler() error {
-	if c.DownsamplePeriod.Duration == time.Duration(0) {
+	if c.DownsamplePeriod.Duration <= 0 {
 		return errors.New("downsample_period must be set")
 	}
+	if c.StatsInterval.Duration <= 0 {
+		return errors.New("stats_interval must be positive")
+	}
 	if c.DownsampleSuffix == "" {
 		return errors.New("downsample_suffix must be set")
 	}
@@ -212,6 +227,12 @@ func (c *Config) validateWriter() error {
 	if len(c.NATSSubject) < 1 {
 		return errors.New("writer needs at least one NATS subject")
 	}
+	if c.Workers < 0 {
+		return errors.New("workers must not be negative")
+	}
+	if c.StatsInterval.Duration <= 0 {
+		return errors.New("stats_interval must be positive")
+	}
 	if c.InfluxDBPort < 1 || c.InfluxDBPort > 65535 {
 		return errors.New("influxdb_port out of range")
 	}
@@ -239,6 +260,13 @@ func (c *Config) validateWriter() error {
 	return nil
 }
 
+func (c *Config) validateMonitor() error {
+	if c.Port < 1 || c.Port > 65535 {
+		return errors.New("monitor port out of range")
+	}
+	return nil
+}
+
 // NewConfigFromFile parses the specified configuration file and
 // returns a Config.
 func NewConfigFromFile(fileName string) (*Config, error) {
-- 
2.43.0


From c88af07448eafb00adf7517b4e7a9a9bf0b5fe01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:35 +0000
Subject: [PATCH 26/30] fix: escape the database name in write requests

Names containing characters such as '&', '+' or '%' ended up writing to
a different database.
---
 writer/influxclient.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/writer/influxclient.go b/writer/influxclient.go
index 800a44b..ebf8f8c 100644
--- a/writer/influxclient.go
+++ b/writer/influxclient.go
@@ -19,6 +19,7 @@ import (
 	"fmt"
 	"io/ioutil"
 	"net/http"
+	"net/url"
 	"time"
 
 	"github.com/jumptrading/influx-spout/v2/config"
@@ -26,7 +27,7 @@ import (
 
 func newInfluxClient(c *config.Config) *influxClient {
 	return &influxClient{
-		url:      fmt.Sprintf("%s://%s:%d/write?db=%s", c.InfluxDBProtocol, c.InfluxDBAddress, c.InfluxDBPort, c.DBName),
+		url:      fmt.Sprintf("%s://%s:%d/write?db=%s", c.InfluxDBProtocol, c.InfluxDBAddress, c.InfluxDBPort, url.QueryEscape(c.DBName)),
 		username: c.InfluxDBUser,
 		password: c.InfluxDBPass,
 		debug:    c.Debug,
-- 
2.43.0


From 45e1dbd9557a7b8558d6c7622bb80fac5efc8980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:35 +0000
Subject: [PATCH 27/30] fix: don't take a redirect followed as a GET for a
 successful write

---
 writer/influxclient.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/writer/influxclient.go b/writer/influxclient.go
index ebf8f8c..186d47f 100644
--- a/writer/influxclient.go
+++ b/writer/influxclient.go
@@ -16,6 +16,7 @@ package writer
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io/ioutil"
 	"net/http"
@@ -38,7 +39,8 @@ func newInfluxClient(c *config.Config) *influxClient {
 				IdleConnTimeout:     30 * time.Second,
 				DisableCompression:  true,
 			},
-			Timeout: c.WriteTimeout.Duration,
+			Timeout:       c.WriteTimeout.Duration,
+			CheckRedirect: checkRedirect,
 		},
 	}
 }
@@ -83,6 +85,19 @@ func (ic *influxClient) Write(buf []byte) error {
 	return nil
 }
 
+// checkRedirect only allows redirects which repeat the POST. For the
+// others the client would make a GET request without the batch, and
+// its success would be mistaken for a successful write.
+func checkRedirect(req *http.Request, via []*http.Request) error {
+	if req.Method != via[0].Method {
+		return http.ErrUseLastResponse
+	}
+	if len(via) >= 10 {
+		return errors.New("stopped after 10 redirects")
+	}
+	return nil
+}
+
 func isHTTPPOSTSuccess(code int) bool {
 	return code >= 200 && code < 300
 }
-- 
2.43.0


From 1f4ee6f8716c70343b1d10db1650408d07614915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:33 +0000
Subject: [PATCH 28/30] fix: accept lines of any length when converting
 timestamps

With a precision, the body of a write was read with bufio.Scanner's default
limit, so that the rest of the request was lost at the first line longer than
64 KiB.
---
 listener/listener.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/listener/listener.go b/listener/listener.go
index 589098f..7ced000 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -22,6 +22,7 @@ import (
 	"fmt"
 	"io/ioutil"
 	"log"
+	"math"
 	"net"
 	"net/http"
 	"os"
@@ -301,6 +302,9 @@ func (l *Listener) readHTTPBodyNanos(r *http.Request) (int64, error) {
 
 func (l *Listener) readHTTPBodyWithPrecision(r *http.Request, precision string) (int, error) {
 	scanner := bufio.NewScanner(r.Body)
+	// The scanner would otherwise give up at the first line longer than
+	// 64 KiB and the rest of the body would be lost.
+	scanner.Buffer(nil, math.MaxInt32)
 
 	// scanLines is like bufio.ScanLines but the returned lines
 	// includes the trailing newlines. Leaving the newline on the line
-- 
2.43.0


From c14044e79c4a558ef3a851e9dc6d62304106604e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:45 +0000
Subject: [PATCH 29/30] fix: print tapped lines as they are, not as format
 strings

---
 cmd/influx-spout-tap/influx-spout-tap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/influx-spout-tap/influx-spout-tap.go b/cmd/influx-spout-tap/influx-spout-tap.go
index 9dbe8b9..7b624ed 100644
--- a/cmd/influx-spout-tap/influx-spout-tap.go
+++ b/cmd/influx-spout-tap/influx-spout-tap.go
@@ -57,10 +57,10 @@ func process(msg *nats.Msg, r *regexp.Regexp) {
 	for _, line := range bytes.SplitAfter(msg.Data, []byte("\n")) {
 		if r != nil {
 			if r.Match(line) {
-				fmt.Printf(string(line))
+				fmt.Print(string(line))
 			}
 		} else {
-			fmt.Printf(string(line))
+			fmt.Print(string(line))
 		}
 	}
 }
-- 
2.43.0


From ca24a20eda572ff87e1a8ca3b786c790b273c923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:51 +0000
Subject: [PATCH 30/30] fix: don't let a stalled metrics client hold up the
 monitor

---
 monitor/monitor.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 678895e..50dd42e 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -122,9 +122,12 @@ func (m *Monitor) serveHTTP(ln net.Listener) {
 		r.Body.Close()
 		w.Header().Set("Content-Type", "text/plain")
 
-		defer m.mu.Unlock()
+		// Don't hold the lock while writing, so that a slow client only
+		// delays itself.
 		m.mu.Lock()
-		w.Write(m.metrics.ToBytes())
+		page := m.metrics.ToBytes()
+		m.mu.Unlock()
+		w.Write(page)
 	})
 
 	server := &http.Server{Handler: mux}
-- 
2.43.0

