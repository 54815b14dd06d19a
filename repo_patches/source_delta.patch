From 3a915025961ed714ee8cbe9c9ef831c896150921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:47 +0000
Subject: [PATCH 1/9] fix: synchronise the width cache shared by all tables

---
 width.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/width.go b/width.go
index 5e110b9..10cc914 100644
--- a/width.go
+++ b/width.go
@@ -16,7 +16,7 @@ var ansiEscapeRE = regexp.MustCompile(
 	"[\u001b\u009b][[()#;?]*(?:[0-9]{1,4}(?:;[0-9]{0,4})*)?[0-9A-ORZcf-nqry=><]",
 )
 
-var widthCache = lru.New[string, uint16](lru.WithCapacity(10000))
+var widthCache = lru.NewSync[string, uint16](lru.WithCapacity(10000))
 
 // runewidth.FillLeft(str, width) or runewidth.FillRight(str, width) do not work
 
-- 
2.43.0


From 5e31c03f50927e1b8b6d9965d7bdcef27ffd20bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:48 +0000
Subject: [PATCH 2/9] fix: FormatItem must not widen columns for a row whose
 getter fails

---
 table.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 9bab608..2004cd8 100644
--- a/table.go
+++ b/table.go
@@ -95,6 +95,7 @@ func (t *Table) FormatItemBasic(item any, sep string) (string, error) {
 func (t *Table) FormatItem(item any) ([]string, error) {
 	cw := t.columnWidth
 	formatted := make([]string, t.ColumnCount())
+	widths := make([]uint16, t.ColumnCount())
 	for i, col := range t.Columns {
 		value, err := col.Getter.Value(item)
 		if err != nil {
@@ -109,7 +110,11 @@ func (t *Table) FormatItem(item any) ([]string, error) {
 		}
 		formatted[i] = valueFormatted
 		// even if col.Alignment == nil, we may need it for MergeRows* funcs
-		width := visualWidth(valueFormatted)
+		widths[i] = visualWidth(valueFormatted)
+	}
+	// no getter failed, so the row counts
+	for i, col := range t.Columns {
+		width := widths[i]
 		if width > cw[col.Name] {
 			cw[col.Name] = width
 		}
-- 
2.43.0


From fcf3baa27197bc795b702e7e7858e7e4fd47ee4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:49 +0000
Subject: [PATCH 3/9] fix: choose the header title by its visible width, not
 its bytes

---
 table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/table.go b/table.go
index 2004cd8..f1190cb 100644
--- a/table.go
+++ b/table.go
@@ -144,8 +144,8 @@ func (t *Table) padColumnHeader(col *Column) string {
 	if width == 0 {
 		return value
 	}
-	if len(value) > int(width) {
-		if len(col.ShortTitle) > int(width) {
+	if visualWidth(value) > width {
+		if visualWidth(col.ShortTitle) > width {
 			value = ""
 		} else {
 			value = col.ShortTitle
-- 
2.43.0


From 20a33acd70dcffbac699075ac747200752e3ed64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:50 +0000
Subject: [PATCH 4/9] fix: count characters, not bytes, of escape sequences

---
 width.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/width.go b/width.go
index 10cc914..cd10132 100644
--- a/width.go
+++ b/width.go
@@ -2,6 +2,7 @@ package table
 
 import (
 	"regexp"
+	"unicode/utf8"
 
 	"github.com/ilius/go-lru"
 	"github.com/ilius/go-table/runewidth"
@@ -49,7 +50,7 @@ func countMatchesLength(re *regexp.Regexp, s string) int {
 		// loc[0] is the start index of the match,
 		// loc[1] is the end index (exclusive)
 		start += loc[1]
-		total += loc[1] - loc[0] - 1
+		total += utf8.RuneCountInString(remaining[loc[0]:loc[1]]) - 1
 	}
 	return total
 }
-- 
2.43.0


From db0c08d31ccee2028c7d287463a6465d9908c70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:51 +0000
Subject: [PATCH 5/9] fix: limit the width of very wide strings instead of
 wrapping around

---
 width.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/width.go b/width.go
index cd10132..d502b5e 100644
--- a/width.go
+++ b/width.go
@@ -32,7 +32,11 @@ func visualWidth(str string) uint16 {
 	if w > 0 {
 		return w
 	}
-	w = uint16(runewidth.StringWidth(str) - countMatchesLength(ansiEscapeRE, str))
+	width := runewidth.StringWidth(str) - countMatchesLength(ansiEscapeRE, str)
+	if width > MAX_WIDTH {
+		width = MAX_WIDTH
+	}
+	w = uint16(width)
 	widthCache.Set(str, w)
 	return w
 }
-- 
2.43.0


From 4a75c7f92f104ada2110a03bb2e565cc8c66f3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:18 +0000
Subject: [PATCH 6/9] fix: merge rendering must not overflow, divide by zero or
 search forever

---
 horizontal.go | 33 +++++++++++++++++++++++++--------
 vertical.go   | 16 ++++++++--------
 2 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/horizontal.go b/horizontal.go
index e64945f..e7b7955 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -13,13 +13,13 @@ func (t *Table) MergeRowsHorizontal(
 	sep string,
 	compact bool,
 ) {
-	margin := uint16(len(sep))
+	margin := len(sep)
 	colN := t.ColumnCount()
 	if maxWidthArg > MAX_WIDTH {
 		maxWidthArg = MAX_WIDTH
 	}
-	maxWidth := uint16(maxWidthArg)
-	groupCount := int((maxWidth + margin) / (t.TableWidth(margin) + margin))
+	maxWidth := maxWidthArg
+	groupCount := (maxWidth + margin) / t.mergeGroupWidth(margin)
 	if groupCount < 1 {
 		groupCount = 1
 	}
@@ -66,19 +66,36 @@ func (t *Table) MergeRowsHorizontal(
 	}
 }
 
+// mergeGroupWidth is the width that a row and the separator after it take
+// (at least 1)
+func (t *Table) mergeGroupWidth(margin int) int {
+	width := margin * t.ColumnCount()
+	for _, col := range t.Columns {
+		width += int(t.Width(col.Name))
+	}
+	if width < 1 {
+		return 1
+	}
+	return width
+}
+
 func (t *Table) compactCalcH(
 	items FormattedItemList,
-	maxWidth uint16,
-	margin uint16,
+	maxWidth int,
+	margin int,
 	groupCountInit int,
 ) (extra int, cellWidth []uint16) {
-	colN := uint16(t.ColumnCount())
+	colN := t.ColumnCount()
 	for {
 		groupCount := groupCountInit + extra + 1
+		if extra > 0 && groupCount > items.Len()+1 {
+			// no item is left for another group
+			return
+		}
 		cellWidthNew := t.mergedRowsWidthH(items, groupCount)
-		totalWidth := margin*(uint16(groupCount)-1) + innerMargin*(colN-1)*uint16(groupCount)
+		totalWidth := margin*(groupCount-1) + int(innerMargin)*(colN-1)*groupCount
 		for _, w := range cellWidthNew {
-			totalWidth += w
+			totalWidth += int(w)
 		}
 		if totalWidth > maxWidth {
 			return
diff --git a/vertical.go b/vertical.go
index a64518e..00ef935 100644
--- a/vertical.go
+++ b/vertical.go
@@ -13,13 +13,13 @@ func (t *Table) MergeRowsVertical(
 	sep string,
 	compact bool,
 ) {
-	margin := uint16(len(sep))
+	margin := len(sep)
 	colN := t.ColumnCount()
 	if maxWidthArg > MAX_WIDTH {
 		maxWidthArg = MAX_WIDTH
 	}
-	maxWidth := uint16(maxWidthArg)
-	groupCount := int((maxWidth + margin) / (t.TableWidth(margin) + margin))
+	maxWidth := maxWidthArg
+	groupCount := (maxWidth + margin) / t.mergeGroupWidth(margin)
 	if groupCount < 1 {
 		groupCount = 1
 	}
@@ -68,20 +68,20 @@ func (t *Table) MergeRowsVertical(
 
 func (t *Table) compactCalcV(
 	items FormattedItemList,
-	maxWidth uint16,
-	margin uint16,
+	maxWidth int,
+	margin int,
 	groupCountInit int,
 ) (extra int, cellWidth []uint16) {
-	colN := uint16(t.ColumnCount())
+	colN := t.ColumnCount()
 	for {
 		groupCount := groupCountInit + extra + 1
 		cellWidthNew := t.mergedRowsWidthV(items, groupCount)
 		if cellWidthNew == nil {
 			return
 		}
-		totalWidth := margin*(uint16(groupCount)-1) + innerMargin*(colN-1)*uint16(groupCount)
+		totalWidth := margin*(groupCount-1) + int(innerMargin)*(colN-1)*groupCount
 		for _, w := range cellWidthNew {
-			totalWidth += w
+			totalWidth += int(w)
 		}
 		if totalWidth > maxWidth {
 			return
-- 
2.43.0


From d3b5f360e316aec1b6073bfb0e8cc18e43450a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:19 +0000
Subject: [PATCH 7/9] fix: columns of a merged row are separated by the inner
 separator

---
 horizontal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horizontal.go b/horizontal.go
index e7b7955..12cfd75 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -69,7 +69,7 @@ func (t *Table) MergeRowsHorizontal(
 // mergeGroupWidth is the width that a row and the separator after it take
 // (at least 1)
 func (t *Table) mergeGroupWidth(margin int) int {
-	width := margin * t.ColumnCount()
+	width := int(innerMargin)*(t.ColumnCount()-1) + margin
 	for _, col := range t.Columns {
 		width += int(t.Width(col.Name))
 	}
-- 
2.43.0


From d698be659cda5212738826a39be605cf67298d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:38 +0000
Subject: [PATCH 8/9] fix: TableWidth must not wrap around, nor count margins
 without columns

---
 table.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/table.go b/table.go
index f1190cb..0871fa8 100644
--- a/table.go
+++ b/table.go
@@ -164,9 +164,15 @@ func (t *Table) FormatHeader(sep string) string {
 }
 
 func (t *Table) TableWidth(margin uint16) uint16 {
-	width := (uint16(t.ColumnCount()) - 1) * margin
+	if t.ColumnCount() == 0 {
+		return 0
+	}
+	width := (t.ColumnCount() - 1) * int(margin)
 	for _, col := range t.Columns {
-		width += t.Width(col.Name)
+		width += int(t.Width(col.Name))
+	}
+	if width > MAX_WIDTH {
+		width = MAX_WIDTH
 	}
-	return width
+	return uint16(width)
 }
-- 
2.43.0


From d77edd0881d9f32e8b75cdfd43850109bac6687a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:39 +0000
Subject: [PATCH 9/9] fix: the separator takes its width in cells, not in bytes

---
 horizontal.go | 7 ++++++-
 vertical.go   | 2 +-
 width.go      | 6 +++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/horizontal.go b/horizontal.go
index 12cfd75..b43b8bd 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -13,7 +13,7 @@ func (t *Table) MergeRowsHorizontal(
 	sep string,
 	compact bool,
 ) {
-	margin := len(sep)
+	margin := sepWidth(sep)
 	colN := t.ColumnCount()
 	if maxWidthArg > MAX_WIDTH {
 		maxWidthArg = MAX_WIDTH
@@ -66,6 +66,11 @@ func (t *Table) MergeRowsHorizontal(
 	}
 }
 
+// sepWidth is the number of cells sep takes, and at least one for a tab
+func sepWidth(sep string) int {
+	return cellCount(strings.ReplaceAll(sep, "\t", " "))
+}
+
 // mergeGroupWidth is the width that a row and the separator after it take
 // (at least 1)
 func (t *Table) mergeGroupWidth(margin int) int {
diff --git a/vertical.go b/vertical.go
index 00ef935..ad23e2d 100644
--- a/vertical.go
+++ b/vertical.go
@@ -13,7 +13,7 @@ func (t *Table) MergeRowsVertical(
 	sep string,
 	compact bool,
 ) {
-	margin := len(sep)
+	margin := sepWidth(sep)
 	colN := t.ColumnCount()
 	if maxWidthArg > MAX_WIDTH {
 		maxWidthArg = MAX_WIDTH
diff --git a/width.go b/width.go
index d502b5e..e0bfe32 100644
--- a/width.go
+++ b/width.go
@@ -32,7 +32,7 @@ func visualWidth(str string) uint16 {
 	if w > 0 {
 		return w
 	}
-	width := runewidth.StringWidth(str) - countMatchesLength(ansiEscapeRE, str)
+	width := cellCount(str)
 	if width > MAX_WIDTH {
 		width = MAX_WIDTH
 	}
@@ -41,6 +41,10 @@ func visualWidth(str string) uint16 {
 	return w
 }
 
+func cellCount(str string) int {
+	return runewidth.StringWidth(str) - countMatchesLength(ansiEscapeRE, str)
+}
+
 func countMatchesLength(re *regexp.Regexp, s string) int {
 	// it does not count the first (invisible) character
 	// because runewidth library already ignores that
-- 
2.43.0

