From e91ae2d27bf61fc810199467cf380fe78bbdc37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 1/7] fix: report a malformed sequence as soon as a wrong
 continuation byte is seen

LookupFirstChar asked for more input when the buffer was shorter than the
length announced by the lead byte, even if one of the bytes already present
cannot continue the sequence, contrary to its documentation. A scanner fed by
an interactive stream then waited for bytes that cannot change the outcome.
---
 textseg/internal/charprops/property_table.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/textseg/internal/charprops/property_table.go b/textseg/internal/charprops/property_table.go
index 0aa85ee..facc8e7 100644
--- a/textseg/internal/charprops/property_table.go
+++ b/textseg/internal/charprops/property_table.go
@@ -33,17 +33,18 @@ func LookupFirstChar(p []byte) (props CharProperties, length int) {
 		return Error, 1
 	}
 
-	if len(p) < length {
-		// Buffer begins with incomplete UTF-8 sequence.
-		return zeroProperties, 0
-	}
 	// All of the subsequent bytes of the sequence we're decoding (if any)
-	// must be UTF-8 continuation bytes.
-	for i := 1; i < length; i++ {
+	// must be UTF-8 continuation bytes. If one of those already present is
+	// not then no further input could make this sequence complete.
+	for i := 1; i < length && i < len(p); i++ {
 		if (p[i] & 0b11000000) != 0b10000000 {
 			return Error, 1
 		}
 	}
+	if len(p) < length {
+		// Buffer begins with incomplete UTF-8 sequence.
+		return zeroProperties, 0
+	}
 
 	switch length {
 	case 1:
-- 
2.43.0


From 4dbd1a0c2c33b5e02214f707b819b70f944467da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:31 +0000
Subject: [PATCH 2/7] fix: recognise a regional indicator pair after an emoji
 or conjunct prefix

A regional indicator that arrives while an emoji or Indic conjunct prefix
is being tracked begins a new pair; the state was reset to the base state
instead, so the two halves of the flag were reported as separate clusters
when one detector is used across boundaries.
---
 textseg/internal/machine/state.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/textseg/internal/machine/state.go b/textseg/internal/machine/state.go
index d671b4e..a9e91a2 100644
--- a/textseg/internal/machine/state.go
+++ b/textseg/internal/machine/state.go
@@ -151,16 +151,16 @@ func (s State) nextState(next charprops.CharProperties) State {
 	if next.InCBProperty() == charprops.InCBConsonant {
 		return StateGB9cConsonant
 	}
+	// A regional indicator begins a new pair, whatever preceeds it, unless
+	// it is the second half of one.
+	if next.GCBProperty() == charprops.GCBRegionalIndicator && s != StateAwaitEmojiFlag {
+		return StateAwaitEmojiFlag
+	}
 	gcbProp := next.GCBProperty()
 	incbProp := next.InCBProperty()
 	switch s {
 	case StateBase:
-		switch gcbProp {
-		case charprops.GCBRegionalIndicator:
-			return StateAwaitEmojiFlag
-		default:
-			return StateBase
-		}
+		return StateBase
 	case StateAwaitEmojiFlag:
 		return StateBase
 	case StateGB11BeforeZWJ:
-- 
2.43.0


From 6c0b2bd00f9fc7a03e16addd3128add2f44b6eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:18 +0000
Subject: [PATCH 3/7] fix: let the sequence of UCD fields be iterated more than
 once

---
 textseg/internal/charprops/ucdparse/ucd_scan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/textseg/internal/charprops/ucdparse/ucd_scan.go b/textseg/internal/charprops/ucdparse/ucd_scan.go
index e2f3dd2..b6b0b63 100644
--- a/textseg/internal/charprops/ucdparse/ucd_scan.go
+++ b/textseg/internal/charprops/ucdparse/ucd_scan.go
@@ -76,8 +76,8 @@ func (e Entry) AllFields() iter.Seq[string] {
 type Fields []byte
 
 func (f Fields) Strings() iter.Seq[string] {
-	remain := []byte(f)
 	return func(yield func(string) bool) {
+		remain := []byte(f)
 		for {
 			before, after, foundSep := bytes.Cut(remain, fieldSeparator)
 			val := bytes.TrimSpace(before)
-- 
2.43.0


From 1dd559d407aa93467f3b2e8b6d8d56328a8265fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:18 +0000
Subject: [PATCH 4/7] fix: report UCD character ranges beyond U+10FFFF as
 invalid

---
 textseg/internal/charprops/ucdparse/ucd_scan.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/textseg/internal/charprops/ucdparse/ucd_scan.go b/textseg/internal/charprops/ucdparse/ucd_scan.go
index b6b0b63..72a155b 100644
--- a/textseg/internal/charprops/ucdparse/ucd_scan.go
+++ b/textseg/internal/charprops/ucdparse/ucd_scan.go
@@ -3,10 +3,12 @@ package ucdparse
 import (
 	"bufio"
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
 	"iter"
 	"strconv"
+	"unicode/utf8"
 )
 
 type Scanner struct {
@@ -38,12 +40,18 @@ func (sc Scanner) NextEntry() (Entry, error) {
 		startHex, endHex, isRange := bytes.Cut(rng, rangeSeparator)
 		var start, end rune
 		startInt, err := strconv.ParseUint(string(startHex), 16, 32)
+		if err == nil && startInt > utf8.MaxRune {
+			err = errTooLarge
+		}
 		if err != nil {
 			return Entry{}, fmt.Errorf("invalid start of character range %q: %s", startHex, err)
 		}
 		start = rune(startInt)
 		if isRange {
 			endInt, err := strconv.ParseUint(string(endHex), 16, 32)
+			if err == nil && endInt > utf8.MaxRune {
+				err = errTooLarge
+			}
 			if err != nil {
 				return Entry{}, fmt.Errorf("invalid end of character range %q: %s", endHex, err)
 			}
@@ -97,6 +105,8 @@ func (f Fields) FirstString() string {
 	return string(bytes.TrimSpace(before))
 }
 
+var errTooLarge = errors.New("not a Unicode code point")
+
 var commentMarker = []byte{'#'}
 var fieldSeparator = []byte{';'}
 var rangeSeparator = []byte{'.', '.'}
-- 
2.43.0


From 8b4d2e979f6b23b570209d0bee6115872c512a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:18 +0000
Subject: [PATCH 5/7] fix: report test characters that are not Unicode scalar
 values as invalid

---
 textseg/internal/charprops/ucdparse/testdata_scan.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/textseg/internal/charprops/ucdparse/testdata_scan.go b/textseg/internal/charprops/ucdparse/testdata_scan.go
index 6e138f9..18eb3dd 100644
--- a/textseg/internal/charprops/ucdparse/testdata_scan.go
+++ b/textseg/internal/charprops/ucdparse/testdata_scan.go
@@ -44,8 +44,8 @@ func (sc TestDataScanner) NextEntry() (TestDataEntry, error) {
 				if len(charHexStr) == 0 {
 					continue
 				}
-				charInt, err := strconv.ParseInt(charHexStr, 16, 32)
-				if err != nil {
+				charInt, err := strconv.ParseUint(charHexStr, 16, 32)
+				if err != nil || !utf8.ValidRune(rune(charInt)) {
 					return TestDataEntry{}, fmt.Errorf("invalid character reference %q", charHexStr)
 				}
 				buf := make([]byte, 4)
-- 
2.43.0


From 39d1171ede33a03eadc6e6bb26970e000b2d7e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:16 +0000
Subject: [PATCH 6/7] fix: do not wrap block offsets when building tables from
 more than 1023 blocks

---
 textseg/internal/charprops/gentable/generate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/textseg/internal/charprops/gentable/generate.go b/textseg/internal/charprops/gentable/generate.go
index 07cd1e8..18392a9 100644
--- a/textseg/internal/charprops/gentable/generate.go
+++ b/textseg/internal/charprops/gentable/generate.go
@@ -246,7 +246,7 @@ func (t *treeInProgress) buildCompactedBlocks(ret *RawPropertyTree, indexLevels
 			// property block.
 			srcBlock = make([]uint16, blockSize)
 		} else {
-			srcBlockStart := srcBlockIdx << blockShift
+			srcBlockStart := int(srcBlockIdx) << blockShift
 			srcBlock = t.indices[srcBlockStart : srcBlockStart+blockSize]
 		}
 
@@ -280,7 +280,7 @@ func (t *treeInProgress) buildCompactedBlocks(ret *RawPropertyTree, indexLevels
 		// property block.
 		srcBlock = make([]uint8, blockSize)
 	} else {
-		srcBlockStart := srcBlockIdx << blockShift
+		srcBlockStart := int(srcBlockIdx) << blockShift
 		srcBlock = t.rawProps[srcBlockStart : srcBlockStart+blockSize]
 	}
 
-- 
2.43.0


From 57e4afac1962e567c3f08bd7b2cf3effbbc46b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:02 +0000
Subject: [PATCH 7/7] fix: keep the fields of a UCD entry after the next line
 is read

Entry.Fields pointed into the buffer of the line scanner, so that the fields of entries kept while reading on were overwritten once that buffer was reused.
---
 textseg/internal/charprops/ucdparse/ucd_scan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/textseg/internal/charprops/ucdparse/ucd_scan.go b/textseg/internal/charprops/ucdparse/ucd_scan.go
index 72a155b..d5c366c 100644
--- a/textseg/internal/charprops/ucdparse/ucd_scan.go
+++ b/textseg/internal/charprops/ucdparse/ucd_scan.go
@@ -62,7 +62,7 @@ func (sc Scanner) NextEntry() (Entry, error) {
 		return Entry{
 			Start:  start,
 			End:    end + 1,
-			Fields: Fields(fieldsRaw),
+			Fields: Fields(bytes.Clone(fieldsRaw)),
 		}, nil
 	}
 }
-- 
2.43.0

