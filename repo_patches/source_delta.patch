From a439c687ee8c4c32257463163603801e6ec857dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 01/47] fix: make column type merging total and independent of
 line order

Merging a number with an object or array panicked (losing the keys of the
line), null or bool merged with a structure depended on the order of lines.
---
 flatjsonl/type.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/flatjsonl/type.go b/flatjsonl/type.go
index c0a3638..dd3ef6b 100644
--- a/flatjsonl/type.go
+++ b/flatjsonl/type.go
@@ -19,10 +19,15 @@ const (
 // Update merges original type with updated.
 func (t Type) Update(u Type) Type {
 	// Undefined type is replaced by update.
-	if t == TypeAbsent || t == TypeNull {
+	if t == TypeAbsent || (t == TypeNull && u != TypeAbsent) {
 		return u
 	}
 
+	// Undefined update and structural update do not affect existing type.
+	if u == TypeAbsent || u == TypeNull || u == TypeObject || u == TypeArray {
+		return t
+	}
+
 	if t == TypeObject || t == TypeArray {
 		return u
 	}
@@ -37,15 +42,16 @@ func (t Type) Update(u Type) Type {
 		return TypeString
 	}
 
-	if u == TypeNull {
-		return t
-	}
-
 	// Bool and non-bool make unconstrained type: string.
 	if (t == TypeBool && u != TypeBool) || (t != TypeBool && u == TypeBool) {
 		return TypeString
 	}
 
+	// JSON literal and scalar make unconstrained type: string.
+	if t == TypeJSON || u == TypeJSON {
+		return TypeString
+	}
+
 	// Float overrides Int.
 	if t == TypeInt && u == TypeFloat {
 		return TypeFloat
-- 
2.43.0


From dce86f7b1b49dbd8f3365526d4d85d87c7395967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 02/47] fix: register value with extracted URL as a parent of
 URL keys

URL object was its own parent, -show-json-schema looped forever.
---
 flatjsonl/flattener.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index cf74ed7..bfab4b7 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -226,9 +226,10 @@ func (fv *FastWalker) walkFastJSONString(seq int64, flatPath []byte, pl int, pat
 
 			v, err := p.ParseBytes(us)
 			if err == nil {
-				flatPath = append(flatPath, []byte(".URL")...)
 				pl := len(flatPath)
 
+				flatPath = append(flatPath, []byte(".URL")...)
+
 				if fv.WantPath {
 					fv.WalkFastJSON(seq, flatPath, pl, append(path, "URL"), v)
 				} else {
-- 
2.43.0


From 5b375c2d3cd8cf0f86d4091158440f5704a618fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:06 +0000
Subject: [PATCH 03/47] fix: respect -offset-lines when scanning of keys is
 skipped

---
 flatjsonl/processor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 9e1f037..e082b55 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -465,6 +465,7 @@ func (p *Processor) iterateForWriters() error {
 	})
 
 	p.rd.MaxLines = 0
+	p.rd.OffsetLines = int64(p.f.OffsetLines)
 	atomic.StoreInt64(&p.rd.Sequence, 0)
 	atomic.StoreInt64(&p.errors, 0)
 
-- 
2.43.0


From 0b12de9061a53ac843ce3b2f43265ddf83e039b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:09 +0000
Subject: [PATCH 04/47] fix: do not write to missing table part in PostgreSQL
 dump

Rows with number of columns divisible by limit of columns were lost.
---
 flatjsonl/pg_dump_writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index bd5108e..02de49c 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -196,7 +196,7 @@ func (c *PGDumpWriter) insert(seq int64, tn string, values []string) error {
 	tw := c.csvCopiers[tableName]
 
 	for {
-		if len(values) < c.maxCols {
+		if len(values) <= c.maxCols {
 			row := make([]string, 0, len(values)+1)
 			row = append(row, strconv.Itoa(int(seq)))
 			row = append(row, values...)
-- 
2.43.0


From 2a9585954ac2589e6bdf0186b4a5d4e90321ea56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 05/47] fix: declare type of JSON literal columns in PostgreSQL
 dump

---
 flatjsonl/pg_dump_writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index 02de49c..7f193fa 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -290,7 +290,7 @@ func (c *PGDumpWriter) createTable(tn string, keys []flKey, isTransposed bool) e
 			if _, ok := c.p.cfg.ParseTime[k.original]; ok {
 				tp = " TIMESTAMP"
 			}
-		case TypeAbsent, TypeNull:
+		case TypeAbsent, TypeNull, TypeJSON:
 			tp = " VARCHAR"
 		}
 
-- 
2.43.0


From af415ac1facdc2c7b872f79a4571170daa6ebc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 06/47] fix: report failures to flush, commit and close outputs

A truncated CSV file, a lost SQLite transaction or a failed transposed file
ended with success.
---
 flatjsonl/csv_writer.go    | 11 ++++++-----
 flatjsonl/raw_writer.go    | 18 ++++++++----------
 flatjsonl/sqlite_writer.go | 10 +++++-----
 3 files changed, 19 insertions(+), 20 deletions(-)

diff --git a/flatjsonl/csv_writer.go b/flatjsonl/csv_writer.go
index e65f6be..854dead 100644
--- a/flatjsonl/csv_writer.go
+++ b/flatjsonl/csv_writer.go
@@ -2,6 +2,7 @@ package flatjsonl
 
 import (
 	"encoding/csv"
+	"errors"
 	"fmt"
 )
 
@@ -127,13 +128,13 @@ func (c *CSVWriter) ReceiveRow(seq int64, values []Value) error {
 func (c *CSVWriter) Close() error {
 	c.w.Flush()
 
-	for _, tw := range c.transposed {
-		tw.w.Flush()
+	err := c.w.Error()
 
-		if err := tw.f.Close(); err != nil {
-			println("failed to close transpose CSV file: " + err.Error())
+	for dst, tw := range c.transposed {
+		if twErr := tw.Close(); twErr != nil {
+			err = errors.Join(err, fmt.Errorf("failed to close transposed CSV file for %s: %w", dst, twErr))
 		}
 	}
 
-	return c.f.Close()
+	return errors.Join(err, c.f.Close())
 }
diff --git a/flatjsonl/raw_writer.go b/flatjsonl/raw_writer.go
index 0f7916d..26b7acb 100644
--- a/flatjsonl/raw_writer.go
+++ b/flatjsonl/raw_writer.go
@@ -2,6 +2,7 @@ package flatjsonl
 
 import (
 	"bufio"
+	"errors"
 	"fmt"
 )
 
@@ -115,19 +116,16 @@ func (c *RawWriter) writeRow(row []string) error {
 
 // Close flushes rows and closes file.
 func (c *RawWriter) Close() error {
-	if err := c.w.Flush(); err != nil {
-		return fmt.Errorf("failed to flush RAW file: %w", err)
+	err := c.w.Flush()
+	if err != nil {
+		err = fmt.Errorf("failed to flush RAW file: %w", err)
 	}
 
-	for _, tw := range c.transposed {
-		if err := tw.w.Flush(); err != nil {
-			return fmt.Errorf("failed to flush transposed RAW file: %w", err)
-		}
-
-		if err := tw.f.Close(); err != nil {
-			println("failed to close transposed RAW file: " + err.Error())
+	for dst, tw := range c.transposed {
+		if twErr := tw.Close(); twErr != nil {
+			err = errors.Join(err, fmt.Errorf("failed to close transposed RAW file for %s: %w", dst, twErr))
 		}
 	}
 
-	return c.f.Close()
+	return errors.Join(err, c.f.Close())
 }
diff --git a/flatjsonl/sqlite_writer.go b/flatjsonl/sqlite_writer.go
index 7d27ffc..538068a 100644
--- a/flatjsonl/sqlite_writer.go
+++ b/flatjsonl/sqlite_writer.go
@@ -2,6 +2,7 @@ package flatjsonl
 
 import (
 	"database/sql"
+	"errors"
 	"fmt"
 	"strconv"
 	"strings"
@@ -257,12 +258,11 @@ _seq_id integer,
 
 // Close commits outstanding transaction and closes database instance.
 func (c *SQLiteWriter) Close() error {
+	var err error
+
 	if c.tx != nil {
-		err := c.tx.Commit()
-		if err != nil {
-			println(err.Error())
-		}
+		err = c.commitTx()
 	}
 
-	return c.db.Close()
+	return errors.Join(err, c.db.Close())
 }
-- 
2.43.0


From 80b683fef704063736774434d39d644afcfc98c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 07/47] fix: return failure to close outputs instead of exiting
 the process

The original processing error was also masked.
---
 flatjsonl/processor.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index e082b55..b531a2b 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -5,7 +5,6 @@ import (
 	"errors"
 	"fmt"
 	"io"
-	"log"
 	"os"
 	"regexp"
 	"runtime"
@@ -294,10 +293,10 @@ func (p *Processor) PrepareKeys() error {
 }
 
 // WriteOutput runs second pass of reading to create the output.
-func (p *Processor) WriteOutput() error {
+func (p *Processor) WriteOutput() (err error) {
 	defer func() {
-		if err := p.w.Close(); err != nil {
-			log.Fatalf("failed to close writer: %v", err)
+		if clErr := p.w.Close(); clErr != nil {
+			err = errors.Join(err, fmt.Errorf("failed to close writer: %w", clErr))
 		}
 	}()
 
-- 
2.43.0


From a2b8a50a30ebfdcd90c505f168bf93d29b1ca3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 08/47] fix: do not round sequence numbers and array indexes

Sequence of 100001 was written as 1e+05.
---
 flatjsonl/keys.go   | 5 +++--
 flatjsonl/reader.go | 2 +-
 flatjsonl/writer.go | 5 +++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index b381051..7ae6f4a 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -59,8 +59,9 @@ func (is intOrString) Value() Value {
 	}
 
 	return Value{
-		Type:   TypeFloat,
-		Number: float64(is.i),
+		Type:      TypeFloat,
+		Number:    float64(is.i),
+		RawNumber: strconv.Itoa(is.i),
 	}
 }
 
diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 08cccda..4ae7009 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -319,7 +319,7 @@ func (rd *Reader) doLine(w *syncWorker, seq, n int64, sess *readSession) error {
 
 	if rd.AddSequence {
 		seqf := float64(seq)
-		w.walker.FnNumber(seq, []byte("._sequence"), 0, []string{"_sequence"}, seqf, []byte(Format(seqf)))
+		w.walker.FnNumber(seq, []byte("._sequence"), 0, []string{"_sequence"}, seqf, []byte(strconv.FormatInt(seq, 10)))
 	}
 
 	line := w.line
diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index 7caafba..22306da 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -320,8 +320,9 @@ func (b *baseWriter) receiveTransposedRowValues(seq int64, values []Value) (tran
 		if row == nil {
 			row = make([]Value, len(b.trimmedKeys))
 			row[0] = Value{
-				Type:   TypeFloat,
-				Number: float64(seq),
+				Type:      TypeFloat,
+				Number:    float64(seq),
+				RawNumber: strconv.FormatInt(seq, 10),
 			} // Add sequence.
 			row[1] = k.transposeKey.Value() // Add array idx/object property.
 			transposedRowsIdx[transposeKey] = row
-- 
2.43.0


From 9b0daa96f91eb1bf1f7df0a56ed3403d688698f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 09/47] fix: quote names and bind values in SQLite statements

A double quote in a key or a NUL character in a value failed the conversion.
---
 flatjsonl/sqlite_writer.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/flatjsonl/sqlite_writer.go b/flatjsonl/sqlite_writer.go
index 538068a..38d3d5c 100644
--- a/flatjsonl/sqlite_writer.go
+++ b/flatjsonl/sqlite_writer.go
@@ -5,8 +5,8 @@ import (
 	"errors"
 	"fmt"
 	"strconv"
-	"strings"
 
+	"github.com/bool64/sqluct"
 	_ "modernc.org/sqlite" // Database driver.
 )
 
@@ -17,7 +17,6 @@ type SQLiteWriter struct {
 	tx        *sql.Tx
 	rowsTx    int
 	sizeTx    int
-	replacer  *strings.Replacer
 	p         *Processor
 	maxCols   int
 
@@ -46,7 +45,6 @@ func NewSQLiteWriter(fn string, tableName string, p *Processor) (*SQLiteWriter,
 	c := &SQLiteWriter{
 		db:        db,
 		tableName: tableName,
-		replacer:  strings.NewReplacer(`"`, `""`),
 		p:         p,
 		maxCols:   p.f.SQLMaxCols - 1, // -1 for _seq_id.
 	}
@@ -132,26 +130,31 @@ func (c *SQLiteWriter) insert(seq int64, tn string, values []Value) error {
 	c.rowsTx++
 
 	tableName := tn
-	res := `INSERT INTO "` + tableName + `" VALUES (` + strconv.Itoa(int(seq)) + `,`
+	res := `INSERT INTO ` + sqluct.QuoteANSI(tableName) + ` VALUES (` + strconv.Itoa(int(seq)) + `,`
 	part := 1
 
+	var args []any
+
 	for i, v := range values {
 		if i > 0 && i%c.maxCols == 0 {
 			c.rowsTx++
 
 			res = res[:len(res)-1] + ")"
 
-			if err := c.execTx(res); err != nil {
+			if err := c.execTx(res, args...); err != nil {
 				return err
 			}
 
+			args = nil
 			part++
 			tableName = tn + partSuffix + strconv.Itoa(part)
-			res = `INSERT INTO "` + tableName + `" VALUES (` + strconv.Itoa(int(seq)) + `,`
+			res = `INSERT INTO ` + sqluct.QuoteANSI(tableName) + ` VALUES (` + strconv.Itoa(int(seq)) + `,`
 		}
 
 		if v.Type != TypeNull && v.Type != TypeAbsent {
-			res += `"` + c.replacer.Replace(v.Format()) + `",`
+			res += `?,`
+
+			args = append(args, v.Format())
 		} else {
 			res += `NULL,`
 		}
@@ -159,7 +162,7 @@ func (c *SQLiteWriter) insert(seq int64, tn string, values []Value) error {
 
 	res = res[:len(res)-1] + ")"
 
-	return c.execTx(res)
+	return c.execTx(res, args...)
 }
 
 func (c *SQLiteWriter) commitTx() error {
@@ -173,7 +176,7 @@ func (c *SQLiteWriter) commitTx() error {
 	return nil
 }
 
-func (c *SQLiteWriter) execTx(res string) error {
+func (c *SQLiteWriter) execTx(res string, args ...any) error {
 	if c.tx == nil {
 		tx, err := c.db.Begin()
 		if err != nil {
@@ -184,7 +187,7 @@ func (c *SQLiteWriter) execTx(res string) error {
 		c.rowsTx = 0
 	}
 
-	_, err := c.tx.Exec(res)
+	_, err := c.tx.Exec(res, args...)
 	if err != nil {
 		return fmt.Errorf("failed to insert SQLite row: %w", err)
 	}
@@ -194,7 +197,7 @@ func (c *SQLiteWriter) execTx(res string) error {
 
 func (c *SQLiteWriter) createTable(tn string, keys []flKey, isTransposed bool) error {
 	tableName := tn
-	createTable := `CREATE TABLE "` + tableName + `" (
+	createTable := `CREATE TABLE ` + sqluct.QuoteANSI(tableName) + ` (
 `
 
 	if !isTransposed {
@@ -220,7 +223,7 @@ _seq_id integer,
 
 			part++
 			tableName = tn + partSuffix + strconv.Itoa(part)
-			createTable = `CREATE TABLE "` + tableName + `" (
+			createTable = `CREATE TABLE ` + sqluct.QuoteANSI(tableName) + ` (
 `
 
 			if !isTransposed {
@@ -243,7 +246,7 @@ _seq_id integer,
 			tp = " REAL"
 		}
 
-		createTable += `"` + k.replaced + `"` + tp + `,` + "\n"
+		createTable += sqluct.QuoteANSI(k.replaced) + tp + `,` + "\n"
 	}
 
 	createTable = createTable[:len(createTable)-2] + "\n)"
-- 
2.43.0


From a34e641314a1cc9729b6273cf8ccc99cd87fe65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 10/47] fix: do not panic on keys without ASCII letters or
 digits in -replace-keys

---
 flatjsonl/keys.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 7ae6f4a..85a6dd7 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -765,20 +765,18 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 	snk := strings.Trim(ski, "[]")
 
 	for {
-		if len(snk) == 0 {
-			panic("BUG: empty snk for '" + origKey + "'")
-		}
-
-		if stored, ok := p.replaceByKey[snk]; (!ok || origKey == stored) && (snk[0] == '_' || unicode.IsLetter(rune(snk[0]))) {
-			p.replaceByKey[snk] = origKey
-			origKey = snk
+		if len(snk) > 0 {
+			if stored, ok := p.replaceByKey[snk]; (!ok || origKey == stored) && (snk[0] == '_' || unicode.IsLetter(rune(snk[0]))) {
+				p.replaceByKey[snk] = origKey
+				origKey = snk
 
-			break
+				break
+			}
 		}
 
 		i--
 
-		if i == 0 {
+		if i <= 0 {
 			break
 		}
 
-- 
2.43.0


From 68649e98109966131d53acc79855bb81f626b6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 11/47] fix: do not panic on brackets in names of transposed
 properties

The line that caused panic was not scanned for the rest of its keys.
---
 flatjsonl/keys.go | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 85a6dd7..25f930b 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -208,16 +208,8 @@ func scanTransposedKey(dst string, tk string, k *flKey) {
 	}
 
 	// Array.
-	if trimmed[0] == '[' {
-		pos := strings.Index(trimmed, "]")
-		idx := trimmed[1:pos]
-
-		i, err := strconv.Atoi(idx)
-		if err != nil {
-			panic("BUG: failed to parse idx " + idx + ": " + err.Error())
-		}
-
-		trimmed = trimmed[pos+1:]
+	if i, pos, ok := arrayIndex(trimmed); ok {
+		trimmed = trimmed[pos:]
 		k.transposeKey = intOrString{t: TypeInt, i: i}
 	} else {
 		if pos := strings.Index(trimmed, "."); pos > 0 {
@@ -237,6 +229,25 @@ func scanTransposedKey(dst string, tk string, k *flKey) {
 	k.transposeTrimmed = trimmed
 }
 
+// arrayIndex finds array index at the beginning of a key, object property can have brackets too.
+func arrayIndex(key string) (idx int, end int, ok bool) {
+	if !strings.HasPrefix(key, "[") {
+		return 0, 0, false
+	}
+
+	pos := strings.Index(key, "]")
+	if pos == -1 {
+		return 0, 0, false
+	}
+
+	idx, err := strconv.Atoi(key[1:pos])
+	if err != nil {
+		return 0, 0, false
+	}
+
+	return idx, pos + 1, true
+}
+
 type hasher struct {
 	digest *xxhash.Digest
 }
-- 
2.43.0


From 5840327e68a7feb58469a21d54d2d54476af99e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 12/47] fix: keep malformed number as a string instead of
 losing the row

A literal like 1.2.3 panicked and stalled output of all following rows.
---
 flatjsonl/flattener.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index bfab4b7..4e2d8e8 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -67,13 +67,16 @@ func (fv *FastWalker) WalkFastJSON(seq int64, flatPath []byte, pl int, path []st
 	case fastjson.TypeString:
 		fv.walkFastJSONString(seq, flatPath, pl, path, v)
 	case fastjson.TypeNumber:
+		fv.buf = fv.buf[:0]
+		fv.buf = v.MarshalTo(fv.buf)
+
 		n, err := v.Float64()
 		if err != nil {
-			panic(fmt.Sprintf("BUG: failed to use JSON number %q at %d:%s: %v", v.String(), seq, string(flatPath), err))
-		}
+			// Parser does not validate numbers, malformed literal is kept as a string.
+			fv.FnString(seq, flatPath, pl, path, fv.buf)
 
-		fv.buf = fv.buf[:0]
-		fv.buf = v.MarshalTo(fv.buf)
+			return
+		}
 
 		fv.FnNumber(seq, flatPath, pl, path, n, fv.buf)
 	case fastjson.TypeFalse, fastjson.TypeTrue:
-- 
2.43.0


From 1e8a28c0c0785c8cc3a199b98732a60a571d9276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 13/47] fix: report panic in line processing as a failure

The row of the line was silently lost, or rows after it were never written.
---
 flatjsonl/reader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 4ae7009..e6e2824 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -302,12 +302,14 @@ func (rd *Reader) Read(sess *readSession) error {
 	return sess.scanner.Err()
 }
 
-func (rd *Reader) doLine(w *syncWorker, seq, n int64, sess *readSession) error {
+func (rd *Reader) doLine(w *syncWorker, seq, n int64, sess *readSession) (err error) {
 	defer func() {
 		if r := recover(); r != nil {
 			println("panic on line:", string(w.line))
 			println(fmt.Sprintf("%v", r))
 			println(string(debug.Stack()))
+
+			err = fmt.Errorf("panic on line %d: %v", n, r)
 		}
 	}()
 
-- 
2.43.0


From 0db2ea54bce1bf1abfdec60f7be68f358b406419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 14/47] fix: read single column from all of its keys

With only one column, values of keys that differ in case and values extracted
from strings were lost, an empty property name panicked.
---
 flatjsonl/flattener.go | 16 +++++++++++++---
 flatjsonl/processor.go | 27 ++++++++++++++++++++++-----
 flatjsonl/reader.go    | 19 +++----------------
 3 files changed, 38 insertions(+), 24 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 4e2d8e8..c0da391 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -51,10 +51,20 @@ func (fv *FastWalker) configure(p *Processor) {
 
 // GetKey walks into a single key.
 func (fv *FastWalker) GetKey(seq int64, flatPath []byte, path []string, v *fastjson.Value) {
-	vv := v.Get(path...)
-	if vv != nil {
-		fv.WalkFastJSON(seq, flatPath, 0, path, vv)
+	vv := v
+
+	for _, s := range path {
+		if vv.Type() == fastjson.TypeArray {
+			s = strings.Trim(s, "[]")
+		}
+
+		if vv = vv.Get(s); vv == nil {
+			return
+		}
 	}
+
+	// Flat path is shared between workers, capacity is limited to avoid writing to it.
+	fv.WalkFastJSON(seq, flatPath[:len(flatPath):len(flatPath)], 0, path, vv)
 }
 
 // WalkFastJSON iterates fastjson.Value JSON structure.
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index b531a2b..2351597 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -535,6 +535,26 @@ func (p *Processor) iterateForWriters() error {
 	return wi.waitPending()
 }
 
+// singleKey returns the key that is the only source of values, such key can be read without full traversal.
+func (p *Processor) singleKey() (key flKey, ok bool) {
+	if len(p.includeKeys) != 1 || p.f.ExtractStrings || len(p.extractRegex) > 0 || len(p.keys) != 1 {
+		return flKey{}, false
+	}
+
+	sources := 0
+
+	// Keys that differ only in case share the column.
+	p.flKeys.Range(func(_ uint64, k flKey) bool {
+		if k.canonical == p.keys[0].canonical {
+			sources++
+		}
+
+		return true
+	})
+
+	return p.keys[0], sources == 1
+}
+
 type lineBuf struct {
 	h      *hasher
 	values []Value
@@ -545,11 +565,8 @@ func newWriteIterator(p *Processor, pkIndex map[uint64]int, pkDst map[uint64]str
 	wi.pending = xsync.NewMapOf[int64, *lineBuf]()
 	wi.finished = &sync.Map{}
 
-	if len(p.includeKeys) == 1 {
-		for _, i := range p.includeKeys {
-			kk := p.keys[i]
-			wi.singleKeyHash = newHasher().hashBytes([]byte("." + strings.Join(kk.path, ".")))
-		}
+	if kk, ok := p.singleKey(); ok {
+		wi.singleKeyHash = newHasher().hashBytes([]byte(KeyFromPath(kk.path)))
 	}
 
 	wi.lineBufPool = sync.Pool{
diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index e6e2824..807020e 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -211,22 +211,9 @@ func (rd *Reader) Read(sess *readSession) error {
 		doLineErr error
 	)
 
-	if len(rd.Processor.includeKeys) == 1 && !rd.Processor.f.ExtractStrings {
-		for _, i := range rd.Processor.includeKeys {
-			kk := rd.Processor.keys[i]
-			path := make([]string, 0, len(kk.path))
-
-			for _, s := range kk.path {
-				if s[0] == '[' && s[len(s)-1] == ']' {
-					s = s[1 : len(s)-1]
-				}
-
-				path = append(path, s)
-			}
-
-			rd.singleKeyPath = path
-			rd.singleKeyFlat = []byte("." + strings.Join(kk.path, "."))
-		}
+	if kk, ok := rd.Processor.singleKey(); ok {
+		rd.singleKeyPath = kk.path
+		rd.singleKeyFlat = []byte(KeyFromPath(kk.path))
 	}
 
 	var n int64
-- 
2.43.0


From 5a79bffc5fcfb89e27931bf46bb6f33624502b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 15/47] fix: declare type of a shared column for all of its
 keys

Only type of the first key was used, PostgreSQL failed to load other values.
---
 flatjsonl/keys.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 25f930b..8bef22a 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -694,8 +694,13 @@ func (p *Processor) prepareKeys() {
 	for i, pk := range p.keys {
 		if pk.transposeDst == "" {
 			if j, ok := keyExists[pk.replaced]; ok {
-				pk.UpdateType(p.keys[i].t)
-				p.keys[i] = pk
+				keys[j].UpdateType(pk.t)
+
+				// Concatenated value is always a string.
+				if p.cfg.ConcatDelimiter != nil {
+					keys[j].UpdateType(TypeString)
+				}
+
 				keyMap[i] = j
 
 				continue
-- 
2.43.0


From 877284576d434ee02e4ec5689dc82ab5e7ce5adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 16/47] fix: coalesce to the first non-null value

---
 flatjsonl/processor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 2351597..40243f6 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -760,7 +760,8 @@ func (wi *writeIterator) setValue(v Value, pk uint64, l *lineBuf) {
 	ev := l.values[i]
 	t := ev.Type
 
-	if t == TypeAbsent {
+	// Null does not prevent coalescing of the next values.
+	if t == TypeAbsent || (t == TypeNull && wi.p.cfg.ConcatDelimiter == nil) {
 		l.values[i] = v
 
 		return
-- 
2.43.0


From 05dd9feaf7adc39bee2f7199046b745dd3f2c373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 17/47] fix: skip columns with zero values in -skip-zero-cols

The flag had no effect.
---
 flatjsonl/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 8bef22a..7ba9873 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -85,7 +85,7 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 	key := KeyFromPath(path)
 
 	k.UpdateType(t)
-	k.isZero = k.isZero && isZero
+	k.isZero = isZero
 	k.path = pp
 	k.original = key
 	k.canonical = p.ck(key)
-- 
2.43.0


From d49a173e0bdd551e07a97ca6b58b3a0707474df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 18/47] fix: keep columns that share prefix with high
 cardinality key

Column .ab was dropped if .a had too many children.
---
 flatjsonl/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 7ba9873..b2c1053 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -452,7 +452,7 @@ func (p *Processor) prepareScannedKeys() {
 				}
 			}
 
-			if len(k.original) > len(hc) && strings.HasPrefix(k.original, hc) {
+			if strings.HasPrefix(k.original, hc+".") {
 				p.flKeys.Delete(key)
 
 				deleted[k.original] = true
-- 
2.43.0


From 1a2da35a486992379206bf728c11fecac2012bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 19/47] fix: keep truncated keys unique in -key-limit

Different keys were truncated to the same column, values were lost.
---
 flatjsonl/keys.go      | 22 ++++++++++++++++++----
 flatjsonl/processor.go |  1 +
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index b2c1053..bb40991 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -643,6 +643,7 @@ func (p *Processor) prepareKeys() {
 
 	p.replaceKeys = make(map[string]string)
 	p.replaceByKey = make(map[string]string)
+	p.limitedKeys = make(map[string]string)
 
 	for k, r := range p.cfg.ReplaceKeys {
 		mk := p.ck(k)
@@ -737,10 +738,7 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 
 	defer func() {
 		if p.f.KeyLimit > 0 && len(kk) > p.f.KeyLimit {
-			i := p.includeKeys[kk]
-			is := strconv.Itoa(i)
-
-			kk = kk[0:(p.f.KeyLimit-len(is))] + is
+			kk = p.limitKey(kk)
 
 			p.replaceKeys[ck] = kk
 		}
@@ -803,6 +801,22 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 	return origKey
 }
 
+// limitKey truncates a key and makes it different from other truncated keys.
+func (p *Processor) limitKey(key string) string {
+	for i := p.includeKeys[key]; ; i++ {
+		is := strconv.Itoa(i)
+		limited := key[0:max(0, p.f.KeyLimit-len(is))] + is
+
+		if other, ok := p.limitedKeys[limited]; ok && other != key {
+			continue
+		}
+
+		p.limitedKeys[limited] = key
+
+		return limited
+	}
+}
+
 var (
 	matchFirstCap        = regexp.MustCompile("(.)([A-Z][a-z]+)")
 	matchAllCap          = regexp.MustCompile("([a-z0-9])([A-Z])")
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 40243f6..2985b2e 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -44,6 +44,7 @@ type Processor struct {
 
 	replaceKeys  map[string]string
 	replaceByKey map[string]string
+	limitedKeys  map[string]string
 
 	// keys are ordered by replaced column names, indexes match values of includeKeys.
 	keys []flKey
-- 
2.43.0


From c0c698812b1743b7776e5b6a0fe7fbc6bef77314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:25 +0000
Subject: [PATCH 20/47] fix: update types of scanned keys without data race

Types were appended to a shared slice outside of the lock, and the slice was
growing with every line that had a value of a different type.
---
 flatjsonl/keys.go | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index bb40991..8405b5c 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -29,19 +29,21 @@ type flKey struct {
 }
 
 func (k *flKey) UpdateType(u Type) {
-	if len(k.tt) == 0 {
-		k.tt = append(k.tt, u)
-	} else {
-		for _, t := range k.tt {
-			if t != u {
-				k.tt = append(k.tt, u)
+	if k.isNewType(u) {
+		k.tt = append(k.tt[:len(k.tt):len(k.tt)], u)
+	}
 
-				break
-			}
+	k.t = k.t.Update(u)
+}
+
+func (k *flKey) isNewType(u Type) bool {
+	for _, t := range k.tt {
+		if t == u {
+			return false
 		}
 	}
 
-	k.t = k.t.Update(u)
+	return true
 }
 
 type intOrString struct {
@@ -141,15 +143,8 @@ func (p *Processor) scanKey(pk, parent uint64, path []string, t Type, isZero boo
 		k = p.initKey(pk, parent, path, t, isZero)
 	}
 
-	updType := false
-
-	if k.t != t {
-		k.UpdateType(t)
-
-		updType = true
-	}
-
-	if updType || (k.isZero && !isZero) {
+	// Types of existing key are shared with other workers and must not be updated without a lock.
+	if k.isNewType(t) || (k.isZero && !isZero) {
 		p.mu.Lock()
 		defer p.mu.Unlock()
 
-- 
2.43.0


From d632062255e9307cbc31d4777d224b9a323289a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 21/47] fix: report invalid -match-line-prefix as an error

---
 flatjsonl/processor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 2985b2e..cb1125b 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -178,7 +178,12 @@ func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //
 	}
 
 	if f.MatchLinePrefix != "" {
-		p.rd.MatchPrefix = regexp.MustCompile(f.MatchLinePrefix)
+		r, err := regexp.Compile(f.MatchLinePrefix)
+		if err != nil {
+			return nil, fmt.Errorf("match line prefix: %w", err)
+		}
+
+		p.rd.MatchPrefix = r
 	}
 
 	p.replaceRegex = map[*regexp.Regexp]string{}
-- 
2.43.0


From c2956c95fb64b62f38db9499d891c26681676ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 22/47] fix: start reading repeated input from the beginning in
 every pass

---
 flatjsonl/reader.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 807020e..11a6aec 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -402,6 +402,7 @@ func (rd *Reader) prefixedLine(seq int64, line []byte, walkFn func(seq int64, fl
 type LoopReader struct {
 	BytesLimit int
 	bytesRead  int
+	data       []byte
 	src        *bytes.Reader
 }
 
@@ -412,8 +413,13 @@ func LoopReaderFromFile(fn string, bytesLimit int) (*LoopReader, error) {
 		return nil, err
 	}
 
+	if len(f) == 0 {
+		return nil, fmt.Errorf("%s: %w", fn, errEmptyFile)
+	}
+
 	return &LoopReader{
 		BytesLimit: bytesLimit,
+		data:       f,
 		src:        bytes.NewReader(f),
 	}, nil
 }
@@ -428,9 +434,10 @@ func (l *LoopReader) Size() int64 {
 	return int64(l.BytesLimit)
 }
 
-// Reset resets the counter.
+// Reset resets the counter and rewinds the source.
 func (l *LoopReader) Reset() {
 	l.bytesRead = 0
+	l.src.Reset(l.data)
 }
 
 // Read implements io.Reader.
-- 
2.43.0


From ec5007406fd44f16d78b38f4a52e5ec81926c5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 23/47] fix: keep empty property name as index of transposed
 row

---
 flatjsonl/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 8405b5c..3c4a62c 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -68,7 +68,7 @@ func (is intOrString) Value() Value {
 }
 
 func (is intOrString) String() string {
-	if is.s != "" {
+	if is.t == TypeString {
 		return is.s
 	}
 
-- 
2.43.0


From 10434a72ab6088ca3c74207f0f21c1ebb15bc6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 24/47] fix: close input files

---
 flatjsonl/reader.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 11a6aec..db581b1 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -99,13 +99,14 @@ func (rd *Reader) session(in Input, task string) (sess *readSession, err error)
 	)
 
 	if in.FileName != "" { //nolint:nestif
-		fj, err := os.Open(in.FileName)
-		if err != nil {
+		var fj *os.File
+
+		if fj, err = os.Open(in.FileName); err != nil {
 			return nil, fmt.Errorf("failed to open file %s: %w", in, err)
 		}
 
 		defer func() {
-			if err != nil && fj != nil {
+			if err != nil {
 				if clErr := fj.Close(); clErr != nil {
 					err = fmt.Errorf("%w, failed close file (%s)", err, clErr.Error())
 				}
@@ -113,6 +114,7 @@ func (rd *Reader) session(in Input, task string) (sess *readSession, err error)
 		}()
 
 		r = fj
+		sess.fj = fj
 
 		switch {
 		case strings.HasSuffix(in.FileName, ".gz"):
-- 
2.43.0


From de2efd24212c5f2f893c83980c136f9cbca7ecde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 25/47] fix: close files of compressed outputs

---
 flatjsonl/pg_dump_writer.go |  6 ++++--
 flatjsonl/writer.go         | 17 +++++++++++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index 7f193fa..4c8ed57 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -67,12 +67,14 @@ func NewPGDumpWriter(fn string, tableName string, p *Processor) (*PGDumpWriter,
 
 		switch {
 		case strings.HasSuffix(fn, ".gz"):
-			c.f = gzip.NewWriter(c.f)
+			c.f = compressedFile{WriteCloser: gzip.NewWriter(c.f), file: c.f}
 		case strings.HasSuffix(fn, ".zst"):
-			c.f, err = zstd.NewWriter(c.f, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true))
+			zw, err := zstd.NewWriter(c.f, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true))
 			if err != nil {
 				return nil, err
 			}
+
+			c.f = compressedFile{WriteCloser: zw, file: c.f}
 		}
 	}
 
diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index 22306da..70a0338 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -359,6 +359,17 @@ func (nopWriter) Close() error {
 	return nil
 }
 
+// compressedFile closes both compressor and the file it writes to.
+type compressedFile struct {
+	io.WriteCloser
+
+	file io.Closer
+}
+
+func (c compressedFile) Close() error {
+	return errors.Join(c.WriteCloser.Close(), c.file.Close())
+}
+
 type fileWriter struct {
 	f  io.WriteCloser
 	fn string
@@ -384,14 +395,16 @@ func newFileWriter(fn string) (*fileWriter, error) {
 		switch {
 		case strings.HasSuffix(fn, ".gz"):
 			c.compressed = progress.NewCountingWriter(c.f)
-			c.f = gzip.NewWriter(c.compressed)
+			c.f = compressedFile{WriteCloser: gzip.NewWriter(c.compressed), file: c.f}
 		case strings.HasSuffix(fn, ".zst"):
 			c.compressed = progress.NewCountingWriter(c.f)
 
-			c.f, err = zstd.NewWriter(c.compressed, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true))
+			zw, err := zstd.NewWriter(c.compressed, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true))
 			if err != nil {
 				return nil, err
 			}
+
+			c.f = compressedFile{WriteCloser: zw, file: c.f}
 		}
 	}
 
-- 
2.43.0


From b58990615a7b3e7df264c7718551f425e8014227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 26/47] fix: keep name of the first of keys that differ in case

---
 flatjsonl/keys.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 3c4a62c..08f939b 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -482,8 +482,8 @@ func (p *Processor) flKeysInit() {
 	if p.flKeys.Size() == 0 && len(p.includeKeys) > 0 {
 		h := newHasher()
 
-		for key := range p.includeKeys {
-			if strings.HasPrefix(key, "const:") {
+		for _, key := range p.cfg.IncludeKeys {
+			if _, ok := p.includeKeys[key]; !ok || strings.HasPrefix(key, "const:") {
 				continue
 			}
 
@@ -508,6 +508,10 @@ func (p *Processor) flKeysInit() {
 			}
 
 			p.flKeys.Store(pk, k)
+
+			if _, ok := p.canonicalKeys[k.canonical]; !ok {
+				p.canonicalKeys[k.canonical] = k
+			}
 		}
 	}
 
@@ -517,11 +521,18 @@ func (p *Processor) flKeysInit() {
 			return true
 		}
 
-		v := p.canonicalKeys[value.canonical]
-		value.isZero = value.isZero && v.isZero
-		value.t = v.t.Update(value.t)
+		v, ok := p.canonicalKeys[value.canonical]
+		if !ok {
+			p.canonicalKeys[value.canonical] = value
+
+			return true
+		}
+
+		// First seen key is kept to have deterministic name of the column.
+		v.isZero = value.isZero && v.isZero
+		v.t = v.t.Update(value.t)
 
-		p.canonicalKeys[value.canonical] = value
+		p.canonicalKeys[value.canonical] = v
 
 		return true
 	})
-- 
2.43.0


From 14ca434147c9b52248625969de5a68d727c3c80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 27/47] fix: transpose a key with the most specific of matching
 prefixes

---
 flatjsonl/keys.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 08f939b..1648343 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -93,12 +93,8 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 	k.canonical = p.ck(key)
 	k.parent = parent
 
-	for tk, dst := range p.cfg.Transpose {
-		if len(k.original) > len(tk) && strings.HasPrefix(k.original, tk) {
-			scanTransposedKey(dst, tk, &k)
-
-			break
-		}
+	if tk, ok := p.transposePrefix(k.original); ok {
+		scanTransposedKey(p.cfg.Transpose[tk], tk, &k)
 	}
 
 	for r, x := range p.extractRegex {
@@ -132,6 +128,17 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 	return k
 }
 
+// transposePrefix finds the most specific prefix of a transposed key.
+func (p *Processor) transposePrefix(key string) (prefix string, found bool) {
+	for tk := range p.cfg.Transpose {
+		if len(key) > len(tk) && strings.HasPrefix(key, tk) && (!found || len(tk) > len(prefix)) {
+			prefix, found = tk, true
+		}
+	}
+
+	return prefix, found
+}
+
 func (p *Processor) scanKey(pk, parent uint64, path []string, t Type, isZero bool) (_ extractor, stop bool) {
 	if _, phc := p.parentHighCardinality.Load(parent); phc {
 		return nil, true
-- 
2.43.0


From 5574a7d43bf6bc1b4b66958a9da0882d992e7efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 28/47] fix: use the same extractor of a key in every run

---
 flatjsonl/keys.go      | 12 ++++++------
 flatjsonl/processor.go | 17 ++++++++++++++---
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 1648343..c3fd1f7 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -97,9 +97,9 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 		scanTransposedKey(p.cfg.Transpose[tk], tk, &k)
 	}
 
-	for r, x := range p.extractRegex {
-		if r.MatchString(key) {
-			k.extractor = x
+	for _, e := range p.extractRegex {
+		if e.r.MatchString(key) {
+			k.extractor = e.x
 
 			break
 		}
@@ -506,9 +506,9 @@ func (p *Processor) flKeysInit() {
 				canonical: p.ck(key),
 			}
 
-			for r, x := range p.extractRegex {
-				if r.MatchString(key) {
-					k.extractor = x
+			for _, e := range p.extractRegex {
+				if e.r.MatchString(key) {
+					k.extractor = e.x
 
 					break
 				}
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index cb1125b..34cc0e1 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"regexp"
 	"runtime"
+	"sort"
 	"strconv"
 	"strings"
 	"sync"
@@ -22,6 +23,12 @@ import (
 	"gopkg.in/yaml.v3"
 )
 
+// regexExtractor is an extractor of values of keys that match a regular expression.
+type regexExtractor struct {
+	r *regexp.Regexp
+	x extractor
+}
+
 // Processor reads JSONL files with Reader and passes flat rows to Writer.
 type Processor struct {
 	Log    func(args ...any)
@@ -39,7 +46,7 @@ type Processor struct {
 	includeRegex []*regexp.Regexp
 	excludeRegex []*regexp.Regexp
 	replaceRegex map[*regexp.Regexp]string
-	extractRegex map[*regexp.Regexp]extractor
+	extractRegex []regexExtractor
 	constVals    map[int]string
 
 	replaceKeys  map[string]string
@@ -187,7 +194,6 @@ func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //
 	}
 
 	p.replaceRegex = map[*regexp.Regexp]string{}
-	p.extractRegex = map[*regexp.Regexp]extractor{}
 
 	for _, reg := range p.cfg.ExcludeKeysRegex {
 		r, err := regex(reg)
@@ -222,9 +228,14 @@ func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //
 			return nil, fmt.Errorf("include keys: %w", err)
 		}
 
-		p.extractRegex[r] = x.Extractor()
+		p.extractRegex = append(p.extractRegex, regexExtractor{r: r, x: x.Extractor()})
 	}
 
+	// First matching regexp is used, order of a map is not stable.
+	sort.Slice(p.extractRegex, func(i, j int) bool {
+		return p.extractRegex[i].r.String() < p.extractRegex[j].r.String()
+	})
+
 	go p.watchMemUsage()
 
 	return p, nil
-- 
2.43.0


From 11a49eda70bed3c6adf9d91463d7737500145730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 29/47] fix: show keys hierarchy and JSON schema in stable
 order

---
 flatjsonl/flattener.go | 12 ++++++++++--
 flatjsonl/keys.go      | 22 +++++++++++++---------
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index c0da391..9f5ab7a 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -3,6 +3,7 @@ package flatjsonl
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -406,8 +407,15 @@ func (k KeyHierarchy) Hierarchy() interface{} {
 
 	res := make([]interface{}, 0, len(k.Sub))
 
-	for _, s := range k.Sub {
-		res = append(res, s.Hierarchy())
+	names := make([]string, 0, len(k.Sub))
+	for name := range k.Sub {
+		names = append(names, name)
+	}
+
+	sort.Strings(names)
+
+	for _, name := range names {
+		res = append(res, k.Sub[name].Hierarchy())
 	}
 
 	return map[string]interface{}{k.Name: res}
diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index c3fd1f7..d86ce5e 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -422,6 +422,7 @@ func (p *Processor) prepareScannedKeys() {
 	var (
 		deleted = map[string]bool{}
 		hcOrig  []string
+		scanned []flKey
 	)
 
 	p.parentHighCardinality.Range(func(key uint64, value bool) bool {
@@ -448,12 +449,6 @@ func (p *Processor) prepareScannedKeys() {
 		}
 
 		for _, hc := range hcOrig {
-			if k.original == hc {
-				if p.f.ShowJSONSchema {
-					p.jsonSchema.AddKey(k, p.flKeys)
-				}
-			}
-
 			if strings.HasPrefix(k.original, hc+".") {
 				p.flKeys.Delete(key)
 
@@ -463,6 +458,17 @@ func (p *Processor) prepareScannedKeys() {
 			}
 		}
 
+		scanned = append(scanned, k)
+
+		return true
+	})
+
+	// Order of map iteration is not stable.
+	sort.Slice(scanned, func(i, j int) bool {
+		return scanned[i].original < scanned[j].original
+	})
+
+	for _, k := range scanned {
 		if p.f.ShowKeysHier {
 			p.keyHierarchy.Add(k.path)
 		}
@@ -470,9 +476,7 @@ func (p *Processor) prepareScannedKeys() {
 		if p.f.ShowJSONSchema {
 			p.jsonSchema.AddKey(k, p.flKeys)
 		}
-
-		return true
-	})
+	}
 
 	var newFlKeys []string
 
-- 
2.43.0


From ce7dc63e7dc1bd2643077fc3fb4c1d1995056efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:57 +0000
Subject: [PATCH 30/47] fix: replace keys in stable order

---
 flatjsonl/keys.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index d86ce5e..c5e7a7e 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -662,8 +662,15 @@ func (p *Processor) prepareKeys() {
 	p.replaceByKey = make(map[string]string)
 	p.limitedKeys = make(map[string]string)
 
-	for k, r := range p.cfg.ReplaceKeys {
-		mk := p.ck(k)
+	replaced := make([]string, 0, len(p.cfg.ReplaceKeys))
+	for k := range p.cfg.ReplaceKeys {
+		replaced = append(replaced, k)
+	}
+
+	sort.Strings(replaced)
+
+	for _, k := range replaced {
+		mk, r := p.ck(k), p.cfg.ReplaceKeys[k]
 
 		p.replaceByKey[r] = mk
 		p.replaceKeys[mk] = r
@@ -732,12 +739,12 @@ func (p *Processor) prepareKeys() {
 	}
 
 	if len(keyMap) > 0 {
-		for k, i := range p.includeKeys {
-			if j, ok := keyMap[i]; ok {
-				p.includeKeys[k] = j
+		for _, v := range sorted {
+			if j, ok := keyMap[v.idx]; ok {
+				p.includeKeys[v.orig] = j
 
-				if strings.HasPrefix(k, "const:") {
-					p.constVals[j] = strings.TrimPrefix(k, "const:")
+				if strings.HasPrefix(v.orig, "const:") {
+					p.constVals[j] = strings.TrimPrefix(v.orig, "const:")
 				}
 			}
 		}
-- 
2.43.0


From 5df0f7003211e7ce92874df393eda6c0baa4c7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 31/47] fix: keep column of a scalar that differs in case from
 an object

---
 flatjsonl/keys.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index c5e7a7e..8d633f8 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -468,7 +468,12 @@ func (p *Processor) prepareScannedKeys() {
 		return scanned[i].original < scanned[j].original
 	})
 
+	// Deleted key can share a column with a scanned key that differs in case.
+	shared := map[string]bool{}
+
 	for _, k := range scanned {
+		shared[k.canonical] = true
+
 		if p.f.ShowKeysHier {
 			p.keyHierarchy.Add(k.path)
 		}
@@ -481,7 +486,7 @@ func (p *Processor) prepareScannedKeys() {
 	var newFlKeys []string
 
 	for _, key := range p.flKeysList {
-		if !deleted[key] {
+		if !deleted[key] || shared[p.ck(key)] {
 			newFlKeys = append(newFlKeys, key)
 		}
 	}
-- 
2.43.0


From 980f41021bdfaa2cc2fd528e3c8d3917c5eb9899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:51 +0000
Subject: [PATCH 32/47] fix: compare headers in csvequals

---
 cmd/csvequals/main.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cmd/csvequals/main.go b/cmd/csvequals/main.go
index eb96685..46ba136 100644
--- a/cmd/csvequals/main.go
+++ b/cmd/csvequals/main.go
@@ -51,7 +51,7 @@ func main() {
 		}
 	}()
 
-	f2s, err := os.Stat(fn1)
+	f2s, err := os.Stat(fn2)
 	if err != nil {
 		log.Fatal(err)
 	}
@@ -118,8 +118,6 @@ func main() {
 		if keys1 == nil {
 			keys1 = append(keys1, r1...)
 			keys2 = append(keys2, r2...)
-
-			continue
 		}
 
 		for i, v := range r1 {
-- 
2.43.0


From af60a1b06a2c63d472b78b438a5d4d81606c4c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 33/47] fix: validate -sql-max-cols

---
 flatjsonl/processor.go     | 9 +++++++++
 flatjsonl/sqlite_writer.go | 4 ----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 34cc0e1..b8e6220 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -193,6 +193,15 @@ func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //
 		p.rd.MatchPrefix = r
 	}
 
+	if p.f.SQLMaxCols == 0 {
+		p.f.SQLMaxCols = 500
+	}
+
+	// One column is taken by _seq_id.
+	if p.f.SQLMaxCols < 2 {
+		return nil, fmt.Errorf("at least 2 columns are needed in SQL table: %d", p.f.SQLMaxCols)
+	}
+
 	p.replaceRegex = map[*regexp.Regexp]string{}
 
 	for _, reg := range p.cfg.ExcludeKeysRegex {
diff --git a/flatjsonl/sqlite_writer.go b/flatjsonl/sqlite_writer.go
index 38d3d5c..86a4df5 100644
--- a/flatjsonl/sqlite_writer.go
+++ b/flatjsonl/sqlite_writer.go
@@ -38,10 +38,6 @@ func NewSQLiteWriter(fn string, tableName string, p *Processor) (*SQLiteWriter,
 		return nil, err
 	}
 
-	if p.f.SQLMaxCols == 0 {
-		p.f.SQLMaxCols = 500
-	}
-
 	c := &SQLiteWriter{
 		db:        db,
 		tableName: tableName,
-- 
2.43.0


From bd8adf3aea1f9d8453899a038d06fa2dfe027202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 34/47] fix: do not panic on -show-keys-hier without keys

---
 flatjsonl/processor.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index b8e6220..0a4d261 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -359,9 +359,12 @@ func (p *Processor) maybeShowKeys() error {
 	}
 
 	if p.f.ShowKeysHier {
-		b, err := assertjson.MarshalIndentCompact(
-			p.keyHierarchy.Hierarchy().(map[string]interface{})["."], //nolint:errcheck
-			"", " ", 120)
+		keys := []interface{}{}
+		if h, ok := p.keyHierarchy.Hierarchy().(map[string]interface{}); ok {
+			keys, _ = h["."].([]interface{})
+		}
+
+		b, err := assertjson.MarshalIndentCompact(keys, "", " ", 120)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 0a9a577950e7e08f169daa37464f0f0eada744b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 35/47] fix: close PostgreSQL dump file when flush fails

---
 flatjsonl/pg_dump_writer.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index 4c8ed57..c5c42f5 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -3,6 +3,7 @@ package flatjsonl
 import (
 	"bytes"
 	"encoding/csv"
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -320,9 +321,5 @@ func (c *PGDumpWriter) createTable(tn string, keys []flKey, isTransposed bool) e
 
 // Close flushes CSV and closes output file.
 func (c *PGDumpWriter) Close() error {
-	if err := c.flush(); err != nil {
-		return err
-	}
-
-	return c.f.Close()
+	return errors.Join(c.flush(), c.f.Close())
 }
-- 
2.43.0


From 0b1b5bccf7ac48f90d931afcdaf3cd4fc93e61cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:57 +0000
Subject: [PATCH 36/47] fix: discover numbers with fraction or exponent as
 float

---
 flatjsonl/keys.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 8d633f8..a042c58 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -1,6 +1,7 @@
 package flatjsonl
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"regexp"
@@ -372,9 +373,10 @@ func (p *Processor) scanAvailableKeys() error {
 
 					return x
 				}
-				w.FnNumber = func(_ int64, flatPath []byte, pl int, path []string, value float64, _ []byte) {
+				w.FnNumber = func(_ int64, flatPath []byte, pl int, path []string, value float64, raw []byte) {
 					pk, parent := h.hashParentBytes(flatPath, pl)
-					isInt := float64(int(value)) == value
+					// Literals like 1.0 or 1e3 are not accepted by integer columns.
+					isInt := float64(int(value)) == value && !bytes.ContainsAny(raw, ".eE")
 
 					if isInt {
 						p.scanKey(pk, parent, path, TypeInt, value == 0)
-- 
2.43.0


From 50b8fe7709283b3af7512c815f7d3ca1bf83ef91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:42 +0000
Subject: [PATCH 37/47] fix: type of transposed index column fits both array
 and object

---
 flatjsonl/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index 70a0338..c1f41b6 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -164,7 +164,7 @@ func (b *baseWriter) setupKeys(keys []flKey) {
 		tw := b.transposedWriter(key.transposeDst, keys)
 
 		tw.keyIndexes = append(tw.keyIndexes, i)
-		tw.indexType = key.transposeKey.t
+		tw.indexType = tw.indexType.Update(key.transposeKey.t)
 
 		ik, ok := tw.trimmedKeys[key.transposeTrimmed]
 		if !ok {
-- 
2.43.0


From d9a26520861292272393037711df0649655fcf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:24 +0000
Subject: [PATCH 38/47] fix: groups of line prefix do not disable root keys
 with children limit

---
 flatjsonl/keys.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index a042c58..689bc85 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -114,7 +114,8 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 		return existing
 	}
 
-	if p.f.ChildrenLimit > 0 && len(k.path) > 1 {
+	// Root element is never replaced, groups of line prefix have it as a parent.
+	if p.f.ChildrenLimit > 0 && k.parent != 0 && len(k.path) > 1 {
 		p.collectKeyCardinality(k)
 	}
 
-- 
2.43.0


From f08d5b3eaddbebe594bb00541fcc57196382010a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 39/47] fix: negative buffer size, concurrency, field limit and
 progress interval are reported as errors

---
 flatjsonl/processor.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 0a4d261..184fd0f 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -112,6 +112,17 @@ func loadConfig(value string, cfg *Config) error {
 
 // NewProcessor creates an instance of Processor.
 func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //nolint:funlen
+	switch {
+	case f.BufSize < 0:
+		return nil, fmt.Errorf("negative buffer size: %d", f.BufSize)
+	case f.Concurrency < 0:
+		return nil, fmt.Errorf("negative concurrency: %d", f.Concurrency)
+	case f.FieldLimit < 0:
+		return nil, fmt.Errorf("negative field limit: %d", f.FieldLimit)
+	case f.ProgressInterval < 0:
+		return nil, fmt.Errorf("negative progress interval: %s", f.ProgressInterval)
+	}
+
 	pr := &progress.Progress{
 		Interval:         f.ProgressInterval,
 		IncrementalSpeed: true,
-- 
2.43.0


From 73c2111354644be8f3fe34b7bd5f6fd6fe737e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:22 +0000
Subject: [PATCH 40/47] fix: empty name of input file is reported as error

---
 flatjsonl/reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index db581b1..0a3a880 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -122,6 +122,8 @@ func (rd *Reader) session(in Input, task string) (sess *readSession, err error)
 		case strings.HasSuffix(in.FileName, ".zst"):
 			cmp = "zst"
 		}
+	} else if in.Reader == nil {
+		return nil, errors.New("empty name of input file")
 	} else {
 		r = in.Reader
 		in.Reader.Reset()
-- 
2.43.0


From d68b52a23a5200ef0ea8dc56297145c889376fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 41/47] fix: value that is extracted into itself is not
 extracted endlessly

---
 flatjsonl/flattener.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 9f5ab7a..1fbb5c5 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -38,6 +38,9 @@ type FastWalker struct {
 	KeepJSON       map[string]bool
 
 	buf []byte
+
+	// extracted is the result of extraction that is being walked.
+	extracted []byte
 }
 
 func (fv *FastWalker) configure(p *Processor) {
@@ -184,12 +187,18 @@ func (fv *FastWalker) walkFastJSONString(seq int64, flatPath []byte, pl int, pat
 
 	if x != nil { //nolint:nestif
 		xs, name, err := x.extract(s)
-		if err == nil {
+		// Text that is extracted into itself (for example, a single segment of URL path) can not be extracted further.
+		if err == nil && !bytes.Equal(xs, fv.extracted) {
 			p := parserPool.Get()
 			p.AllowUnexpectedTail = true
 			defer parserPool.Put(p)
 
 			if v, err := p.ParseBytes(xs); err == nil {
+				outer := fv.extracted
+				fv.extracted = xs
+
+				defer func() { fv.extracted = outer }()
+
 				pl := len(flatPath)
 
 				flatPath = append(flatPath, []byte("."+name)...)
-- 
2.43.0


From 4116f31b6b86263ba9f053212ee9877308a11fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 42/47] fix: JSON schema of a root value that is kept as JSON
 does not panic

---
 flatjsonl/flattener.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 1fbb5c5..f97c46a 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -351,6 +351,12 @@ func (j *jsonSchema) AddKey(k flKey, keys *xsync.MapOf[uint64, flKey]) {
 
 	for i := len(parents) - 1; i >= 0; i-- {
 		pk := parents[i]
+
+		// Root value is kept as JSON.
+		if len(pk.path) == 0 {
+			continue
+		}
+
 		name := pk.path[len(pk.path)-1]
 
 		if i != 0 && pk.t == TypeString {
-- 
2.43.0


From 036c5c251e1c78299627275d0d13696e3179d52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:18 +0000
Subject: [PATCH 43/47] fix: close SQLite database when it can not be set up

---
 flatjsonl/sqlite_writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/sqlite_writer.go b/flatjsonl/sqlite_writer.go
index 86a4df5..a2182fd 100644
--- a/flatjsonl/sqlite_writer.go
+++ b/flatjsonl/sqlite_writer.go
@@ -35,7 +35,7 @@ func NewSQLiteWriter(fn string, tableName string, p *Processor) (*SQLiteWriter,
 
 	_, err = db.Exec("pragma journal_mode=off;")
 	if err != nil {
-		return nil, err
+		return nil, errors.Join(err, db.Close())
 	}
 
 	c := &SQLiteWriter{
-- 
2.43.0


From 2d5729c79c2fbe4cedf84922eb48d868e7a470be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:01 +0000
Subject: [PATCH 44/47] fix: wait for workers when reading fails

---
 flatjsonl/reader.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 0a3a880..db6bfcb 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -233,8 +233,8 @@ func (rd *Reader) Read(sess *readSession) error {
 			}
 		}
 
-		if err := sess.scanner.Err(); err != nil {
-			return fmt.Errorf("scan failed: %w", err)
+		if sess.scanner.Err() != nil {
+			break
 		}
 
 		line := sess.scanner.Bytes()
@@ -290,7 +290,11 @@ func (rd *Reader) Read(sess *readSession) error {
 		return doLineErr
 	}
 
-	return sess.scanner.Err()
+	if err := sess.scanner.Err(); err != nil {
+		return fmt.Errorf("scan failed: %w", err)
+	}
+
+	return nil
 }
 
 func (rd *Reader) doLine(w *syncWorker, seq, n int64, sess *readSession) (err error) {
-- 
2.43.0


From 8bb37def57509b533eb204764fde78b08f45da58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:11 +0000
Subject: [PATCH 45/47] fix: keep truncated keys different from other keys

---
 flatjsonl/keys.go      | 38 +++++++++++++++++++++++---------------
 flatjsonl/processor.go |  2 +-
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 689bc85..4ce1eb5 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -668,7 +668,7 @@ func (p *Processor) prepareKeys() {
 
 	p.replaceKeys = make(map[string]string)
 	p.replaceByKey = make(map[string]string)
-	p.limitedKeys = make(map[string]string)
+	p.plainKeys = make(map[string]bool)
 
 	replaced := make([]string, 0, len(p.cfg.ReplaceKeys))
 	for k := range p.cfg.ReplaceKeys {
@@ -704,18 +704,12 @@ func (p *Processor) prepareKeys() {
 	})
 
 	for _, v := range sorted {
-		origKey := v.orig
-
-		ck, ok := p.canonicalKeys[p.ck(origKey)]
+		p.plainKeys[p.plainKey(v.orig)] = true
+	}
 
-		switch {
-		case !ok: // Can happen for meta keys like `const:X`.
-			ck.replaced = p.prepareKey(origKey)
-		case ck.transposeDst == "":
-			ck.replaced = p.prepareKey(ck.original)
-		default:
-			ck.replaced = p.prepareKey(ck.transposeTrimmed)
-		}
+	for _, v := range sorted {
+		ck := p.canonicalKeys[p.ck(v.orig)]
+		ck.replaced = p.prepareKey(p.plainKey(v.orig))
 
 		p.keys[v.idx] = ck
 	}
@@ -761,6 +755,20 @@ func (p *Processor) prepareKeys() {
 	p.keys = keys
 }
 
+// plainKey is a name of a key before it is replaced.
+func (p *Processor) plainKey(origKey string) string {
+	ck, ok := p.canonicalKeys[p.ck(origKey)]
+
+	switch {
+	case !ok: // Can happen for meta keys like `const:X`.
+		return origKey
+	case ck.transposeDst == "":
+		return ck.original
+	default:
+		return ck.transposeTrimmed
+	}
+}
+
 func (p *Processor) prepareKey(origKey string) (kk string) {
 	ck := p.ck(origKey)
 
@@ -833,17 +841,17 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 	return origKey
 }
 
-// limitKey truncates a key and makes it different from other truncated keys.
+// limitKey truncates a key and makes it different from names of other keys.
 func (p *Processor) limitKey(key string) string {
 	for i := p.includeKeys[key]; ; i++ {
 		is := strconv.Itoa(i)
 		limited := key[0:max(0, p.f.KeyLimit-len(is))] + is
 
-		if other, ok := p.limitedKeys[limited]; ok && other != key {
+		if other, ok := p.replaceByKey[limited]; p.plainKeys[limited] || (ok && other != key) {
 			continue
 		}
 
-		p.limitedKeys[limited] = key
+		p.replaceByKey[limited] = key
 
 		return limited
 	}
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 184fd0f..d407d05 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -51,7 +51,7 @@ type Processor struct {
 
 	replaceKeys  map[string]string
 	replaceByKey map[string]string
-	limitedKeys  map[string]string
+	plainKeys    map[string]bool
 
 	// keys are ordered by replaced column names, indexes match values of includeKeys.
 	keys []flKey
-- 
2.43.0


From 65d74a0d4610a0b964e62b7845394742f5c35a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:11 +0000
Subject: [PATCH 46/47] fix: keep generated keys different from keys made by
 regex

---
 flatjsonl/keys.go | 64 +++++++++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 24 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 4ce1eb5..72d7ca3 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -704,7 +704,14 @@ func (p *Processor) prepareKeys() {
 	})
 
 	for _, v := range sorted {
-		p.plainKeys[p.plainKey(v.orig)] = true
+		key := p.plainKey(v.orig)
+		p.plainKeys[key] = true
+
+		if name, ok := p.replaceByRegex(key); ok {
+			if _, exists := p.replaceByKey[name]; !exists {
+				p.replaceByKey[name] = key
+			}
+		}
 	}
 
 	for _, v := range sorted {
@@ -784,29 +791,8 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 		}
 	}()
 
-	for reg, rep := range p.replaceRegex {
-		kr := origKey
-
-		matches := reg.FindStringSubmatch(origKey)
-		if matches != nil {
-			kr = rep
-
-			for i, m := range matches {
-				if i == 0 {
-					continue
-				}
-
-				kr = strings.ReplaceAll(kr, "${"+strconv.Itoa(i)+"}", trimSpaces.ReplaceAllString(strings.TrimSpace(m), "_"))
-			}
-		}
-
-		if kr != origKey {
-			if strings.HasSuffix(kr, "|to_snake_case") {
-				kr = toSnakeCase(strings.TrimSuffix(kr, "|to_snake_case"))
-			}
-
-			return kr
-		}
+	if kr, ok := p.replaceByRegex(origKey); ok {
+		return kr
 	}
 
 	if !p.f.ReplaceKeys {
@@ -841,6 +827,36 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 	return origKey
 }
 
+// replaceByRegex makes a name of a key with a matching rule of configuration.
+func (p *Processor) replaceByRegex(origKey string) (string, bool) {
+	for reg, rep := range p.replaceRegex {
+		kr := origKey
+
+		matches := reg.FindStringSubmatch(origKey)
+		if matches != nil {
+			kr = rep
+
+			for i, m := range matches {
+				if i == 0 {
+					continue
+				}
+
+				kr = strings.ReplaceAll(kr, "${"+strconv.Itoa(i)+"}", trimSpaces.ReplaceAllString(strings.TrimSpace(m), "_"))
+			}
+		}
+
+		if kr != origKey {
+			if strings.HasSuffix(kr, "|to_snake_case") {
+				kr = toSnakeCase(strings.TrimSuffix(kr, "|to_snake_case"))
+			}
+
+			return kr, true
+		}
+	}
+
+	return "", false
+}
+
 // limitKey truncates a key and makes it different from names of other keys.
 func (p *Processor) limitKey(key string) string {
 	for i := p.includeKeys[key]; ; i++ {
-- 
2.43.0


From 9b744b79ef6f2ed17a6d16b6063b3e835214a371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:42 +0000
Subject: [PATCH 47/47] fix: single key is found by its own path only, in all
 properties with the same name

---
 flatjsonl/flattener.go | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index f97c46a..05e30fa 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -55,20 +55,38 @@ func (fv *FastWalker) configure(p *Processor) {
 
 // GetKey walks into a single key.
 func (fv *FastWalker) GetKey(seq int64, flatPath []byte, path []string, v *fastjson.Value) {
-	vv := v
+	// Flat path is shared between workers, capacity is limited to avoid writing to it.
+	fv.getKey(seq, flatPath[:len(flatPath):len(flatPath)], path, path, v)
+}
 
-	for _, s := range path {
-		if vv.Type() == fastjson.TypeArray {
-			s = strings.Trim(s, "[]")
-		}
+// getKey finds values by the rest of the path, there can be many, because names of properties are not always unique.
+func (fv *FastWalker) getKey(seq int64, flatPath []byte, path, rest []string, v *fastjson.Value) {
+	if len(rest) == 0 {
+		fv.WalkFastJSON(seq, flatPath, 0, path, v)
 
-		if vv = vv.Get(s); vv == nil {
-			return
+		return
+	}
+
+	s := rest[0]
+
+	if v.Type() == fastjson.TypeArray {
+		a := v.GetArray()
+
+		i, err := strconv.Atoi(strings.Trim(s, "[]"))
+		if err == nil && i >= 0 && i < len(a) && s == "["+strconv.Itoa(i)+"]" {
+			fv.getKey(seq, flatPath, path, rest[1:], a[i])
 		}
+
+		return
 	}
 
-	// Flat path is shared between workers, capacity is limited to avoid writing to it.
-	fv.WalkFastJSON(seq, flatPath[:len(flatPath):len(flatPath)], 0, path, vv)
+	if v.Type() == fastjson.TypeObject {
+		v.GetObject().Visit(func(key []byte, v *fastjson.Value) {
+			if s == string(key) {
+				fv.getKey(seq, flatPath, path, rest[1:], v)
+			}
+		})
+	}
 }
 
 // WalkFastJSON iterates fastjson.Value JSON structure.
-- 
2.43.0

