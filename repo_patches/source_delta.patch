From a60632c2a075620744dcb1b6c3a851e407888010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 01/34] fix: quote identifiers with PostgreSQL escaping rules

---
 stmt/stmt.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/stmt/stmt.go b/stmt/stmt.go
index bf81364..b172a94 100644
--- a/stmt/stmt.go
+++ b/stmt/stmt.go
@@ -1,7 +1,6 @@
 package stmt
 
 import (
-	"strconv"
 	"strings"
 
 	"github.com/ulule/loukoum/v3/types"
@@ -20,7 +19,7 @@ func quote(ident string) string {
 	split := strings.Split(ident, ".")
 	quoted := make([]string, 0, len(split))
 	for i := range split {
-		quoted = append(quoted, strconv.Quote(split[i]))
+		quoted = append(quoted, `"`+strings.ReplaceAll(split[i], `"`, `""`)+`"`)
 	}
 	return strings.Join(quoted, ".")
 }
-- 
2.43.0


From f70255917294ab755e0d681e99f27a03f57393e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 02/34] fix: do not share state between a builder and the ones
 derived from it

---
 builder/builder.go | 21 +++++++++++++++++++++
 builder/select.go  | 16 ++++++----------
 builder/update.go  | 10 +++-------
 3 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index e449873..12c2f13 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -354,6 +354,27 @@ func ToSet(args []interface{}) stmt.Set {
 	return set
 }
 
+// cloneSet returns a copy of given set, so it can be modified without altering the builder that owns it.
+func cloneSet(set stmt.Set) stmt.Set {
+	pairs := stmt.NewPairContainer()
+	pairs.Mode = set.Pairs.Mode
+	for column, expression := range set.Pairs.Map {
+		pairs.Map[column] = expression
+	}
+	pairs.Columns = append(pairs.Columns, set.Pairs.Columns...)
+	pairs.Expressions = append(pairs.Expressions, set.Pairs.Expressions...)
+	set.Pairs = pairs
+	return set
+}
+
+// appendWith returns a copy of given WITH clause including given queries.
+func appendWith(with stmt.With, args []stmt.WithQuery) stmt.With {
+	queries := make([]stmt.WithQuery, 0, len(with.Queries)+len(args))
+	queries = append(queries, with.Queries...)
+	queries = append(queries, args...)
+	return stmt.NewWith(queries)
+}
+
 // ToLimit takes an empty interfaces and returns a Limit instance.
 func ToLimit(arg interface{}) stmt.Limit {
 	switch value := arg.(type) {
diff --git a/builder/select.go b/builder/select.go
index 276e0c1..8e966eb 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -93,7 +93,7 @@ func (b Select) join1(args []interface{}) Select {
 		panic("loukoum: given join clause is undefined")
 	}
 
-	b.query.Joins = append(b.query.Joins, join)
+	b.query.Joins = append(b.query.Joins[:len(b.query.Joins):len(b.query.Joins)], join)
 
 	return b
 }
@@ -104,7 +104,7 @@ func (b Select) join2(args []interface{}) Select {
 		panic("loukoum: given join clause is undefined")
 	}
 
-	b.query.Joins = append(b.query.Joins, join)
+	b.query.Joins = append(b.query.Joins[:len(b.query.Joins):len(b.query.Joins)], join)
 
 	return b
 }
@@ -123,19 +123,14 @@ func (b Select) join3(args []interface{}) Select {
 		panic("loukoum: given join clause is undefined")
 	}
 
-	b.query.Joins = append(b.query.Joins, join)
+	b.query.Joins = append(b.query.Joins[:len(b.query.Joins):len(b.query.Joins)], join)
 
 	return b
 }
 
 // With adds WITH clauses.
 func (b Select) With(args ...stmt.WithQuery) Select {
-	if b.query.With.IsEmpty() {
-		b.query.With = stmt.NewWith(args)
-		return b
-	}
-
-	b.query.With.Queries = append(b.query.With.Queries, args...)
+	b.query.With = appendWith(b.query.With, args)
 	return b
 }
 
@@ -197,7 +192,8 @@ func (b Select) Having(condition stmt.Expression) Select {
 
 // OrderBy adds ORDER BY clauses.
 func (b Select) OrderBy(orders ...stmt.Order) Select {
-	b.query.OrderBy.Orders = append(b.query.OrderBy.Orders, orders...)
+	list := b.query.OrderBy.Orders
+	b.query.OrderBy.Orders = append(list[:len(list):len(list)], orders...)
 	return b
 }
 
diff --git a/builder/update.go b/builder/update.go
index f95bfe6..1236b09 100644
--- a/builder/update.go
+++ b/builder/update.go
@@ -29,7 +29,7 @@ func (b Update) Set(args ...interface{}) Update {
 		panic("loukoum: update set clause requires at least one argument")
 	}
 
-	b.query.Set = MergeSet(b.query.Set, args)
+	b.query.Set = MergeSet(cloneSet(b.query.Set), args)
 	return b
 }
 
@@ -44,6 +44,7 @@ func (b Update) Using(args ...interface{}) Update {
 		panic("loukoum: using clause requires a column or an expression")
 	}
 
+	b.query.Set = cloneSet(b.query.Set)
 	for i := range args {
 		b.query.Set.Pairs.Use(stmt.NewExpression(args[i]))
 	}
@@ -53,12 +54,7 @@ func (b Update) Using(args ...interface{}) Update {
 
 // With adds WITH clauses.
 func (b Update) With(args ...stmt.WithQuery) Update {
-	if b.query.With.IsEmpty() {
-		b.query.With = stmt.NewWith(args)
-		return b
-	}
-
-	b.query.With.Queries = append(b.query.With.Queries, args...)
+	b.query.With = appendWith(b.query.With, args)
 	return b
 }
 
-- 
2.43.0


From f51ace7f2a5393e16adb397b15a8c5bbedbb9ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 03/34] fix: do not keep a reference on the slice of columns
 given by the caller

---
 builder/builder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index 12c2f13..1d7271a 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -80,7 +80,7 @@ func ToColumns(values []interface{}) []stmt.Column { // nolint: gocyclo
 					panic("loukoum: given column is undefined")
 				}
 			}
-			return array
+			return append([]stmt.Column{}, array...)
 		case []string:
 			list := make([]interface{}, len(array))
 			for i := range array {
@@ -122,7 +122,7 @@ func ToSelectExpressions(values []interface{}) []stmt.SelectExpression { // noli
 	if len(values) == 1 {
 		switch array := values[0].(type) {
 		case []stmt.SelectExpression:
-			return array
+			return append([]stmt.SelectExpression{}, array...)
 		case []stmt.Column:
 			expressions := make([]stmt.SelectExpression, 0, len(values))
 			for i := range array {
-- 
2.43.0


From 7e38c6bae9bc02ad7d314ea382531a7eea466014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:06 +0000
Subject: [PATCH 04/34] fix: reject undefined columns given as a slice to a
 select builder

---
 builder/builder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index 1d7271a..0a1a57d 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -122,6 +122,11 @@ func ToSelectExpressions(values []interface{}) []stmt.SelectExpression { // noli
 	if len(values) == 1 {
 		switch array := values[0].(type) {
 		case []stmt.SelectExpression:
+			for i := range array {
+				if array[i] == nil || array[i].IsEmpty() {
+					panic("loukoum: given column is undefined")
+				}
+			}
 			return append([]stmt.SelectExpression{}, array...)
 		case []stmt.Column:
 			expressions := make([]stmt.SelectExpression, 0, len(values))
@@ -135,6 +140,9 @@ func ToSelectExpressions(values []interface{}) []stmt.SelectExpression { // noli
 		case []string:
 			expressions := make([]stmt.SelectExpression, 0, len(values))
 			for i := range array {
+				if strings.TrimSpace(array[i]) == "" {
+					panic("loukoum: given column is undefined")
+				}
 				expressions = append(expressions, stmt.NewColumn(array[i]))
 			}
 			return expressions
-- 
2.43.0


From 5c3d3f09b61b64e0b36ac9c5eb95f34104844e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 05/34] fix: do not reorder a SET clause in place when it's
 rendered

---
 stmt/set.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/stmt/set.go b/stmt/set.go
index 48f6a6a..e64d1a8 100644
--- a/stmt/set.go
+++ b/stmt/set.go
@@ -128,21 +128,21 @@ func (pairs PairContainer) Values() ([]Column, []Expression) {
 		return pairs.Columns, pairs.Expressions
 	}
 
-	sort.Slice(pairs.Columns, func(i, j int) bool {
-		return pairs.Columns[i].Name < pairs.Columns[j].Name ||
-			pairs.Columns[i].Alias < pairs.Columns[j].Alias
+	columns := make([]Column, len(pairs.Columns))
+	copy(columns, pairs.Columns)
+
+	sort.Slice(columns, func(i, j int) bool {
+		return columns[i].Name < columns[j].Name ||
+			columns[i].Alias < columns[j].Alias
 	})
 
-	columns := make([]Column, 0, len(pairs.Columns))
-	expressions := make([]Expression, 0, len(pairs.Columns))
+	expressions := make([]Expression, 0, len(columns))
 
-	for i := range pairs.Columns {
-		column := pairs.Columns[i]
-		expression, ok := pairs.Map[column]
+	for i := range columns {
+		expression, ok := pairs.Map[columns[i]]
 		if !ok {
 			panic("loukoum: invalid state for stmt.PairContainer")
 		}
-		columns = append(columns, column)
 		expressions = append(expressions, expression)
 	}
 
-- 
2.43.0


From 62d4f6addeda4be359be86ff14b53786941d171e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:08 +0000
Subject: [PATCH 06/34] fix: use a consistent ordering for the columns of a SET
 clause

---
 stmt/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stmt/set.go b/stmt/set.go
index e64d1a8..6b32b9d 100644
--- a/stmt/set.go
+++ b/stmt/set.go
@@ -133,7 +133,7 @@ func (pairs PairContainer) Values() ([]Column, []Expression) {
 
 	sort.Slice(columns, func(i, j int) bool {
 		return columns[i].Name < columns[j].Name ||
-			columns[i].Alias < columns[j].Alias
+			(columns[i].Name == columns[j].Name && columns[i].Alias < columns[j].Alias)
 	})
 
 	expressions := make([]Expression, 0, len(columns))
-- 
2.43.0


From a801a8eb5978cb7eac28eb354ba0a5277f112347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 07/34] fix: check the right clause when DISTINCT ON, a prefix
 or a suffix is redefined

---
 builder/select.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/builder/select.go b/builder/select.go
index 8e966eb..a040452 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -20,7 +20,7 @@ func NewSelect() Select {
 
 // DistinctOn adds a DISTINCT ON clause to the query.
 func (b Select) DistinctOn(args ...interface{}) Select {
-	if !b.query.GroupBy.IsEmpty() {
+	if !b.query.DistinctOn.IsEmpty() {
 		panic("loukoum: select builder has distinct on clause already defined")
 	}
 
@@ -219,7 +219,7 @@ func (b Select) Offset(value interface{}) Select {
 
 // Suffix adds given clauses as suffixes.
 func (b Select) Suffix(suffix interface{}) Select {
-	if !b.query.Offset.IsEmpty() {
+	if !b.query.Suffix.IsEmpty() {
 		panic("loukoum: select builder has suffixes clauses already defined")
 	}
 
@@ -230,7 +230,7 @@ func (b Select) Suffix(suffix interface{}) Select {
 
 // Prefix adds given clauses as prefixes.
 func (b Select) Prefix(prefix interface{}) Select {
-	if !b.query.Offset.IsEmpty() {
+	if !b.query.Prefix.IsEmpty() {
 		panic("loukoum: select builder has prefixes clauses already defined")
 	}
 
-- 
2.43.0


From 3899d8bcb6d3a1ee6f3387c4cf614bec7e8f5ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 08/34] fix: detect builders given by value

---
 builder/builder.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index 0a1a57d..a78b384 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -27,26 +27,42 @@ type Builder interface {
 
 // IsSelectBuilder returns true if given builder is of type "Select"
 func IsSelectBuilder(builder Builder) bool {
-	_, ok := builder.(*Select)
-	return ok
+	switch builder.(type) {
+	case Select, *Select:
+		return true
+	default:
+		return false
+	}
 }
 
 // IsInsertBuilder returns true if given builder is of type "Insert"
 func IsInsertBuilder(builder Builder) bool {
-	_, ok := builder.(*Insert)
-	return ok
+	switch builder.(type) {
+	case Insert, *Insert:
+		return true
+	default:
+		return false
+	}
 }
 
 // IsUpdateBuilder returns true if given builder is of type "Update"
 func IsUpdateBuilder(builder Builder) bool {
-	_, ok := builder.(*Update)
-	return ok
+	switch builder.(type) {
+	case Update, *Update:
+		return true
+	default:
+		return false
+	}
 }
 
 // IsDeleteBuilder returns true if given builder is of type "Delete"
 func IsDeleteBuilder(builder Builder) bool {
-	_, ok := builder.(*Delete)
-	return ok
+	switch builder.(type) {
+	case Delete, *Delete:
+		return true
+	default:
+		return false
+	}
 }
 
 // ToColumn takes an empty interfaces and returns a Column instance.
-- 
2.43.0


From 6c83087de79e7e4a9742ca2e5901788a1cde4ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:11 +0000
Subject: [PATCH 09/34] fix: use the tables of a FROM clause given to a builder

---
 builder/builder.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index a78b384..aca7c8a 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -224,25 +224,23 @@ func ToTables(values []interface{}) []stmt.Table {
 
 // ToFrom takes an empty interfaces and returns a From instance.
 func ToFrom(args ...interface{}) stmt.From {
-	from := stmt.From{}
-
-	tables := make([]stmt.Statement, len(args))
+	tables := make([]stmt.Statement, 0, len(args))
 	for i := range args {
 		switch value := args[i].(type) {
 		case string:
-			tables[i] = stmt.NewTable(value)
+			tables = append(tables, stmt.NewTable(value))
 		case stmt.From:
-			from = value
+			tables = append(tables, value.Tables...)
 		case stmt.Table:
-			tables[i] = value
+			tables = append(tables, value)
 		case stmt.Raw:
-			tables[i] = value
+			tables = append(tables, value)
 		default:
 			panic(fmt.Sprintf("loukoum: cannot use %T as from clause", args[i]))
 		}
 	}
 
-	from = stmt.NewFrom(tables)
+	from := stmt.NewFrom(tables)
 	if from.IsEmpty() {
 		panic("loukoum: given from clause is undefined")
 	}
-- 
2.43.0


From 526ced0b86e20add399929f3ec59a269aa599048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:11 +0000
Subject: [PATCH 10/34] fix: reject undefined tables in a FROM clause

---
 builder/builder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index aca7c8a..33132ff 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -240,6 +240,12 @@ func ToFrom(args ...interface{}) stmt.From {
 		}
 	}
 
+	for i := range tables {
+		if tables[i] == nil || tables[i].IsEmpty() {
+			panic("loukoum: given table is undefined")
+		}
+	}
+
 	from := stmt.NewFrom(tables)
 	if from.IsEmpty() {
 		panic("loukoum: given from clause is undefined")
-- 
2.43.0


From 94019d40de038220cd9d1ee348a8b751681349f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 11/34] fix: select every columns by default instead of a
 column named *

---
 builder/select.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/select.go b/builder/select.go
index a040452..7b6b3ea 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -44,7 +44,7 @@ func (b Select) Distinct() Select {
 // Columns adds result columns to the query.
 func (b Select) Columns(args ...interface{}) Select {
 	if len(args) == 0 {
-		args = []interface{}{"*"}
+		args = []interface{}{stmt.NewRaw("*")}
 	}
 
 	b.query.Expressions = ToSelectExpressions(args)
-- 
2.43.0


From 7951e210ed6bd0dbfd74abb7ab2ed42fbbe062ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 12/34] fix: reject undefined conditions instead of dropping
 the clause silently

---
 builder/builder.go | 10 ++++++++++
 builder/delete.go  |  3 +++
 builder/select.go  | 10 ++++------
 builder/update.go  |  3 +++
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index 33132ff..506c313 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -403,6 +403,16 @@ func appendWith(with stmt.With, args []stmt.WithQuery) stmt.With {
 	return stmt.NewWith(queries)
 }
 
+// ensureCondition panics if given condition is undefined: a query must never lose one of its conditions.
+func ensureCondition(condition stmt.Expression) {
+	if condition == nil {
+		panic("loukoum: condition must be not nil")
+	}
+	if condition.IsEmpty() {
+		panic("loukoum: given condition is undefined")
+	}
+}
+
 // ToLimit takes an empty interfaces and returns a Limit instance.
 func ToLimit(arg interface{}) stmt.Limit {
 	switch value := arg.(type) {
diff --git a/builder/delete.go b/builder/delete.go
index b38c15d..27f3154 100644
--- a/builder/delete.go
+++ b/builder/delete.go
@@ -40,6 +40,7 @@ func (b Delete) Using(args ...interface{}) Delete {
 
 // Where adds WHERE clauses.
 func (b Delete) Where(condition stmt.Expression) Delete {
+	ensureCondition(condition)
 	if b.query.Where.IsEmpty() {
 		b.query.Where = stmt.NewWhere(condition)
 		return b
@@ -50,12 +51,14 @@ func (b Delete) Where(condition stmt.Expression) Delete {
 
 // And adds AND WHERE conditions.
 func (b Delete) And(condition stmt.Expression) Delete {
+	ensureCondition(condition)
 	b.query.Where = b.query.Where.And(condition)
 	return b
 }
 
 // Or adds OR WHERE conditions.
 func (b Delete) Or(condition stmt.Expression) Delete {
+	ensureCondition(condition)
 	b.query.Where = b.query.Where.Or(condition)
 	return b
 }
diff --git a/builder/select.go b/builder/select.go
index 7b6b3ea..db5e926 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -136,9 +136,7 @@ func (b Select) With(args ...stmt.WithQuery) Select {
 
 // Where adds WHERE clauses.
 func (b Select) Where(condition stmt.Expression) Select {
-	if condition == nil {
-		panic("loukoum: condition must be not nil")
-	}
+	ensureCondition(condition)
 	if b.query.Where.IsEmpty() {
 		b.query.Where = stmt.NewWhere(condition)
 		return b
@@ -149,15 +147,14 @@ func (b Select) Where(condition stmt.Expression) Select {
 
 // And adds AND WHERE conditions.
 func (b Select) And(condition stmt.Expression) Select {
-	if condition == nil {
-		panic("loukoum: condition must be not nil")
-	}
+	ensureCondition(condition)
 	b.query.Where = b.query.Where.And(condition)
 	return b
 }
 
 // Or adds OR WHERE conditions.
 func (b Select) Or(condition stmt.Expression) Select {
+	ensureCondition(condition)
 	b.query.Where = b.query.Where.Or(condition)
 	return b
 }
@@ -185,6 +182,7 @@ func (b Select) Having(condition stmt.Expression) Select {
 		panic("loukoum: select builder has having clause already defined")
 	}
 
+	ensureCondition(condition)
 	b.query.Having = stmt.NewHaving(condition)
 
 	return b
diff --git a/builder/update.go b/builder/update.go
index 1236b09..7aa56a8 100644
--- a/builder/update.go
+++ b/builder/update.go
@@ -60,6 +60,7 @@ func (b Update) With(args ...stmt.WithQuery) Update {
 
 // Where adds WHERE clauses.
 func (b Update) Where(condition stmt.Expression) Update {
+	ensureCondition(condition)
 	if b.query.Where.IsEmpty() {
 		b.query.Where = stmt.NewWhere(condition)
 		return b
@@ -70,12 +71,14 @@ func (b Update) Where(condition stmt.Expression) Update {
 
 // And adds AND WHERE conditions.
 func (b Update) And(condition stmt.Expression) Update {
+	ensureCondition(condition)
 	b.query.Where = b.query.Where.And(condition)
 	return b
 }
 
 // Or adds OR WHERE conditions.
 func (b Update) Or(condition stmt.Expression) Update {
+	ensureCondition(condition)
 	b.query.Where = b.query.Where.Or(condition)
 	return b
 }
-- 
2.43.0


From 11a6edcc744604fcfc0df8216e7cec05df5b02a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 13/34] fix: keep a comment on a single line

---
 stmt/comment.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stmt/comment.go b/stmt/comment.go
index d42d2a0..5e3a673 100644
--- a/stmt/comment.go
+++ b/stmt/comment.go
@@ -1,6 +1,8 @@
 package stmt
 
 import (
+	"strings"
+
 	"github.com/ulule/loukoum/v3/token"
 	"github.com/ulule/loukoum/v3/types"
 )
@@ -24,7 +26,7 @@ func (comment Comment) Write(ctx types.Context) {
 	}
 	ctx.Write(token.Comment.String())
 	ctx.Write(" ")
-	ctx.Write(comment.Comment)
+	ctx.Write(strings.NewReplacer("\n", " ", "\r", " ").Replace(comment.Comment))
 }
 
 // IsEmpty returns true if statement is undefined.
-- 
2.43.0


From 2b077125005d5ccd9d0519f51c6b78c97cd219f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 14/34] fix: accept uint as limit and offset

---
 builder/builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index 506c313..2f9bd16 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -329,6 +329,10 @@ func ToInt64(value interface{}) (int64, bool) { // nolint: gocyclo
 		return int64(cast), true
 	case int32:
 		return int64(cast), true
+	case uint:
+		if uint64(cast) <= math.MaxInt64 {
+			return int64(cast), true
+		}
 	case uint8:
 		return int64(cast), true
 	case uint16:
-- 
2.43.0


From 7cfefc1d652c31715194529215b14a1fb6bd9ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 15/34] fix: validate limit and offset given as statements

---
 builder/builder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index 2f9bd16..1787e3b 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -421,6 +421,9 @@ func ensureCondition(condition stmt.Expression) {
 func ToLimit(arg interface{}) stmt.Limit {
 	switch value := arg.(type) {
 	case stmt.Limit:
+		if value.Count <= 0 {
+			panic("loukoum: limit must be a positive integer")
+		}
 		return value
 	default:
 		limit, ok := ToInt64(value)
@@ -438,6 +441,9 @@ func ToLimit(arg interface{}) stmt.Limit {
 func ToOffset(arg interface{}) stmt.Offset {
 	switch value := arg.(type) {
 	case stmt.Offset:
+		if value.Start < 0 {
+			panic("loukoum: offset must be a non-negative integer")
+		}
 		return value
 	default:
 		offset, ok := ToInt64(value)
-- 
2.43.0


From bb6ff7007b04f4d6468422c32c111a0c5996eda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 16/34] fix: reject an ON CONFLICT update without values
 instead of dropping the clause

---
 builder/insert.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/builder/insert.go b/builder/insert.go
index 71dcf11..67755b2 100644
--- a/builder/insert.go
+++ b/builder/insert.go
@@ -94,6 +94,9 @@ func (b Insert) OnConflict(args ...interface{}) Insert {
 			if b.query.OnConflict.Target.IsEmpty() {
 				panic("loukoum: on conflict update clause requires at least one target")
 			}
+			if value.IsEmpty() {
+				panic("loukoum: on conflict update clause requires at least one value")
+			}
 			b.query.OnConflict.Action = value
 			return b
 		default:
-- 
2.43.0


From 266179785716e349e3450bb57fb103606fa6bc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 17/34] fix: use NULL for a nil *time.Time

---
 stmt/expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stmt/expression.go b/stmt/expression.go
index 429b834..bec6709 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -32,6 +32,9 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 	case time.Time:
 		return NewValue(value)
 	case *time.Time:
+		if value == nil {
+			return NewValue(nil)
+		}
 		return NewValue(*value)
 	case StatementEncoder:
 		stmt := value.Statement()
-- 
2.43.0


From 74372654169d6b3b0cb865a00aef394449f1329a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 18/34] fix: insert NULL when the only value of a row is nil

---
 stmt/expression.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index bec6709..7af4304 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -301,18 +301,26 @@ func NewArrayListExpression(values ...interface{}) Expression { // nolint: gocyc
 	// We pass only one argument and it's a slice or an expression.
 	arraylist := toArrayList(values[0])
 	if len(arraylist.Values) == 0 {
-		arraylist.Values = []Expression{NewArrayExpression(values...)}
+		arraylist.Values = []Expression{newRowExpression(values...)}
 
 	}
 	return arraylist
 }
 
+// newRowExpression creates a new Expression for a row: unlike NewArrayExpression, a nil value is a NULL column.
+func newRowExpression(values ...interface{}) Expression {
+	if len(values) == 1 && values[0] == nil {
+		return Array{Values: []Expression{NewValue(nil)}}
+	}
+	return NewArrayExpression(values...)
+}
+
 func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 	arraylist := ArrayList{}
 	switch values := value.(type) {
 	case [][]interface{}:
 		for i := range values {
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(values[i]...))
+			arraylist.Values = append(arraylist.Values, newRowExpression(values[i]...))
 		}
 	case [][]string:
 		for i := range values {
-- 
2.43.0


From 593249241c10f836a8677b397e8ba7f34d60a583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 19/34] fix: reject an insert set clause without values

---
 builder/insert.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/builder/insert.go b/builder/insert.go
index 67755b2..59f5b77 100644
--- a/builder/insert.go
+++ b/builder/insert.go
@@ -117,6 +117,9 @@ func (b Insert) Set(args ...interface{}) Insert {
 	}
 
 	pairs := ToSet(args).Pairs
+	if pairs.IsEmpty() {
+		panic("loukoum: insert set clause requires at least one value")
+	}
 	columns, expressions := pairs.Values()
 
 	array := stmt.NewArrayListExpression(expressions)
-- 
2.43.0


From 052eb4efeb94cd6f298d53b9e44b3503786aad40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 20/34] fix: wrap a subquery used as an operand between
 parenthesis

---
 stmt/expression.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 7af4304..255c5f5 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -122,13 +122,13 @@ func (identifier Identifier) NotEqual(value interface{}) InfixExpression {
 // Is performs a "is" comparison.
 func (identifier Identifier) Is(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.Is)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // IsNot performs a "is not" comparison.
 func (identifier Identifier) IsNot(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.IsNot)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // IsNull performs a "is null" comparison.
@@ -176,47 +176,47 @@ func (identifier Identifier) NotIn(value ...interface{}) In {
 // Like performs a "like" condition.
 func (identifier Identifier) Like(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.Like)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // NotLike performs a "not like" condition.
 func (identifier Identifier) NotLike(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.NotLike)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // ILike performs a "ilike" condition.
 func (identifier Identifier) ILike(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.ILike)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // NotILike performs a "not ilike" condition.
 func (identifier Identifier) NotILike(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.NotILike)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // Between performs a "between" condition.
 func (identifier Identifier) Between(from, to interface{}) Between {
-	return NewBetween(identifier, NewExpression(from), NewExpression(to))
+	return NewBetween(identifier, NewWrapper(NewExpression(from)), NewWrapper(NewExpression(to)))
 }
 
 // NotBetween performs a "not between" condition.
 func (identifier Identifier) NotBetween(from, to interface{}) Between {
-	return NewNotBetween(identifier, NewExpression(from), NewExpression(to))
+	return NewNotBetween(identifier, NewWrapper(NewExpression(from)), NewWrapper(NewExpression(to)))
 }
 
 // IsDistinctFrom performs an "is distinct from" comparison.
 func (identifier Identifier) IsDistinctFrom(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.IsDistinctFrom)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // IsNotDistinctFrom performs an "is not distinct from" comparison.
 func (identifier Identifier) IsNotDistinctFrom(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.IsNotDistinctFrom)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // Ensure that Identifier is an Expression
@@ -647,13 +647,13 @@ func (call Call) LessThan(value interface{}) InfixExpression {
 // Like performs a "like" condition.
 func (call Call) Like(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.Like)
-	return NewInfixExpression(call, operator, NewExpression(value))
+	return NewInfixExpression(call, operator, NewWrapper(NewExpression(value)))
 }
 
 // ILike performs a "ilike" condition.
 func (call Call) ILike(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.ILike)
-	return NewInfixExpression(call, operator, NewExpression(value))
+	return NewInfixExpression(call, operator, NewWrapper(NewExpression(value)))
 }
 
 // In adds a IN expression.
-- 
2.43.0


From a31cb6452ae8b2c3b8d1ac0b6bf2af238d42ced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 21/34] fix: wrap a subquery used in a list of values between
 parenthesis

---
 stmt/expression.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 255c5f5..90c2a79 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -312,7 +312,11 @@ func newRowExpression(values ...interface{}) Expression {
 	if len(values) == 1 && values[0] == nil {
 		return Array{Values: []Expression{NewValue(nil)}}
 	}
-	return NewArrayExpression(values...)
+	row := NewArrayExpression(values...)
+	if array, ok := row.(Array); ok && len(array.Values) == 1 {
+		return Array{Values: []Expression{NewWrapper(array.Values[0])}}
+	}
+	return row
 }
 
 func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
@@ -495,6 +499,9 @@ func (array Array) Write(ctx types.Context) {
 		if i > 0 {
 			ctx.Write(", ")
 		}
+		if len(array.Values) > 1 {
+			value = NewWrapper(value)
+		}
 		value.Write(ctx)
 	}
 }
@@ -621,7 +628,7 @@ func (call Call) Write(ctx types.Context) {
 		if i > 0 {
 			ctx.Write(", ")
 		}
-		arg.Write(ctx)
+		NewWrapper(arg).Write(ctx)
 	}
 	ctx.Write(")")
 }
-- 
2.43.0


From 33520d1d0062e5b80e7bfb881b0ea4dedb9b3bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 22/34] fix: do not handle a NUL character as the end of the
 input

---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 9488a9d..35774f0 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -9,7 +9,7 @@ import (
 
 const (
 	// EOF sentinel
-	eof = 0
+	eof = -1
 	// Newline sentinel
 	newline = '\n'
 )
-- 
2.43.0


From 2f2310b88d3cd309f6006d0cd5e5c73241f2c90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 23/34] fix: return EOF when there is no more token to iterate
 on

---
 lexer/iteratee.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lexer/iteratee.go b/lexer/iteratee.go
index 174115d..26dfcc7 100644
--- a/lexer/iteratee.go
+++ b/lexer/iteratee.go
@@ -25,6 +25,9 @@ func (it Iteratee) Is(next token.Type) bool {
 
 // Next returns the next token.
 func (it *Iteratee) Next() token.Token {
+	if !it.HasNext() {
+		return token.New(token.EOF, "")
+	}
 	element := it.list[it.cursor]
 	it.cursor++
 	return element
-- 
2.43.0


From 03b2276fe8c6c92bbb7ad42e74878a098cb597e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 24/34] fix: return an error instead of ignoring a part of a
 join statement

---
 parser/join.go | 61 ++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 54 insertions(+), 7 deletions(-)

diff --git a/parser/join.go b/parser/join.go
index 894cb55..6d80f43 100644
--- a/parser/join.go
+++ b/parser/join.go
@@ -15,6 +15,15 @@ import (
 // ErrJoinInvalidCondition is returned when join condition cannot be parsed.
 var ErrJoinInvalidCondition = fmt.Errorf("join condition is invalid")
 
+// Steps of a join statement: each one may be used only once, and in this order.
+const (
+	joinStart = iota
+	joinType
+	joinOn
+	joinCondition
+	joinEnd
+)
+
 // ParseJoin will try to parse given subquery as a join statement.
 func ParseJoin(subquery string) (stmt.Join, error) { // nolint: gocyclo
 	lexer := lexer.New(strings.NewReader(subquery))
@@ -24,29 +33,41 @@ func ParseJoin(subquery string) (stmt.Join, error) { // nolint: gocyclo
 		Type: types.InnerJoin,
 	}
 
-	for it.HasNext() {
+	// Everything has to be parsed: we must not ignore a part of the given query.
+	step, depth, valid := joinStart, 0, true
+
+	for valid && it.HasNext() {
 		e := it.Next()
 
 		switch e.Type {
 		// Parse join type
 		case token.Join:
-			continue
+			if step < joinType {
+				step = joinType
+				continue
+			}
 		case token.Inner:
 			if it.Is(token.Join) {
 				it.Next()
 				join.Type = types.InnerJoin
+				valid = step < joinType
+				step = joinType
 				continue
 			}
 		case token.Left:
 			if it.Is(token.Join) {
 				it.Next()
 				join.Type = types.LeftJoin
+				valid = step < joinType
+				step = joinType
 				continue
 			}
 		case token.Right:
 			if it.Is(token.Join) {
 				it.Next()
 				join.Type = types.RightJoin
+				valid = step < joinType
+				step = joinType
 				continue
 			}
 		case token.Literal:
@@ -54,11 +75,14 @@ func ParseJoin(subquery string) (stmt.Join, error) { // nolint: gocyclo
 			if it.Is(token.On) {
 				it.Next()
 				join.Table = stmt.NewTable(e.Value)
+				valid = step < joinOn
+				step = joinOn
 				continue
 			}
 
 			// Parse join condition
-			if it.Is(token.Equals) {
+			if it.Is(token.Equals) && step < joinCondition {
+				step = joinCondition
 
 				// Left condition
 				left := stmt.NewColumn(e.Value)
@@ -132,12 +156,35 @@ func ParseJoin(subquery string) (stmt.Join, error) { // nolint: gocyclo
 				continue
 			}
 
-		case token.On, token.LParen, token.RParen:
-			continue
+		case token.On:
+			if step < joinOn {
+				step = joinOn
+				continue
+			}
+		case token.LParen:
+			if step < joinCondition {
+				step = joinOn
+				depth++
+				continue
+			}
+		case token.RParen:
+			if step == joinCondition && depth > 0 {
+				depth--
+				continue
+			}
+		case token.Semicolon:
+			if step == joinCondition && depth == 0 {
+				step = joinEnd
+				continue
+			}
 		}
 
-		// Ignore invalid token and stop iterating.
-		break
+		valid = false
+	}
+
+	if !valid || step < joinCondition || depth != 0 {
+		err := errors.Wrapf(ErrJoinInvalidCondition, "given query cannot be parsed: %s", subquery)
+		return stmt.Join{}, err
 	}
 
 	return join, nil
-- 
2.43.0


From fb5894712acf3f4ec1dd78d059f6c05df08ada9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 25/34] fix: reject lists of rows that would be ignored by an
 insert

---
 stmt/expression.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 90c2a79..509e6f8 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -299,7 +299,13 @@ type ArrayList struct {
 // NewArrayListExpression creates a new Expression using a list of values.
 func NewArrayListExpression(values ...interface{}) Expression { // nolint: gocyclo
 	// We pass only one argument and it's a slice or an expression.
-	arraylist := toArrayList(values[0])
+	if len(values) == 0 {
+		panic("loukoum: at least one value is required")
+	}
+	arraylist := ArrayList{}
+	if len(values) == 1 {
+		arraylist = toArrayList(values[0])
+	}
 	if len(arraylist.Values) == 0 {
 		arraylist.Values = []Expression{newRowExpression(values...)}
 
-- 
2.43.0


From b69d3e745700786e0420abeb2462dd8fb8ce1f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 26/34] fix: wrap a subquery alone in a row of expressions
 between parenthesis

---
 stmt/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 509e6f8..9beb2bd 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -371,7 +371,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 			for j := range values[i] {
 				raws[j] = values[i][j]
 			}
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, newRowExpression(raws...))
 		}
 	}
 
-- 
2.43.0


From c39dcce3edc8ab41a75d176a3b3746b36de4d5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 27/34] fix: reject arguments given after the action of an ON
 CONFLICT clause

---
 builder/insert.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/builder/insert.go b/builder/insert.go
index 59f5b77..f73d61f 100644
--- a/builder/insert.go
+++ b/builder/insert.go
@@ -84,6 +84,10 @@ func (b Insert) OnConflict(args ...interface{}) Insert {
 	}
 
 	for i := range args {
+		if _, ok := args[i].(stmt.ConflictAction); ok && i != len(args)-1 {
+			panic("loukoum: on conflict clause must end with its action")
+		}
+
 		switch value := args[i].(type) {
 		case string, stmt.Column:
 			b.query.OnConflict.Target.Columns = append(b.query.OnConflict.Target.Columns, ToColumn(value))
-- 
2.43.0


From fd479386c23ae6e57a25d3f51feb47732ecc8bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 28/34] fix: do not keep a reference on the arguments of a
 function call

---
 stmt/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 9beb2bd..a39e58a 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -620,7 +620,7 @@ type Call struct {
 func NewCall(function string, args ...Expression) Call {
 	return Call{
 		function: function,
-		args:     args,
+		args:     append([]Expression{}, args...),
 	}
 }
 
-- 
2.43.0


From cbd68265503851fe3a5f7da5fd6288691c67e609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:07 +0000
Subject: [PATCH 29/34] fix: wrap a subquery used as a condition or as its
 operand between parenthesis

---
 stmt/expression.go | 8 ++++++++
 stmt/having.go     | 2 +-
 stmt/in.go         | 4 ++--
 stmt/infix.go      | 4 ++--
 stmt/join.go       | 2 +-
 5 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index a39e58a..a7bbd56 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -589,6 +589,14 @@ func NewWrapper(arg Expression) Expression {
 	}
 }
 
+// wrapSelect encapsulates given expression between parenthesis if it's a subquery.
+func wrapSelect(arg Expression) Expression {
+	if subquery, ok := arg.(Select); ok {
+		return NewWrapper(subquery)
+	}
+	return arg
+}
+
 func (Wrapper) expression() {}
 
 // Write exposes statement as a SQL query.
diff --git a/stmt/having.go b/stmt/having.go
index 4adad71..3e68f91 100644
--- a/stmt/having.go
+++ b/stmt/having.go
@@ -14,7 +14,7 @@ type Having struct {
 // NewHaving returns a new Having instance.
 func NewHaving(expression Expression) Having {
 	return Having{
-		Condition: expression,
+		Condition: wrapSelect(expression),
 	}
 }
 
diff --git a/stmt/in.go b/stmt/in.go
index ad3b1c1..a3f1a2c 100644
--- a/stmt/in.go
+++ b/stmt/in.go
@@ -14,7 +14,7 @@ type In struct {
 // NewIn returns a new In instance using an inclusive operator.
 func NewIn(expression Expression, value Expression) In {
 	return In{
-		Expression: expression,
+		Expression: wrapSelect(expression),
 		Operator:   NewComparisonOperator(types.In),
 		Value:      value,
 	}
@@ -23,7 +23,7 @@ func NewIn(expression Expression, value Expression) In {
 // NewNotIn returns a new In instance using an exclusive operator.
 func NewNotIn(expression Expression, value Expression) In {
 	return In{
-		Expression: expression,
+		Expression: wrapSelect(expression),
 		Operator:   NewComparisonOperator(types.NotIn),
 		Value:      value,
 	}
diff --git a/stmt/infix.go b/stmt/infix.go
index 09841b9..730db4a 100644
--- a/stmt/infix.go
+++ b/stmt/infix.go
@@ -15,9 +15,9 @@ type InfixExpression struct {
 // NewInfixExpression returns a new InfixExpression instance.
 func NewInfixExpression(left Expression, operator Operator, right Expression) InfixExpression {
 	return InfixExpression{
-		Left:     left,
+		Left:     wrapSelect(left),
 		Operator: operator,
-		Right:    right,
+		Right:    wrapSelect(right),
 	}
 }
 
diff --git a/stmt/join.go b/stmt/join.go
index 397bec5..2fa412a 100644
--- a/stmt/join.go
+++ b/stmt/join.go
@@ -17,7 +17,7 @@ func NewJoin(kind types.JoinType, table Table, condition Expression) Join {
 	return Join{
 		Type:      kind,
 		Table:     table,
-		Condition: condition,
+		Condition: wrapSelect(condition),
 	}
 }
 
-- 
2.43.0


From 6ac30e2201ecfc1b28c21254023e7bb4bab340e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:08 +0000
Subject: [PATCH 30/34] fix: wrap the subqueries of a column-list SET clause
 between parenthesis

---
 stmt/set.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stmt/set.go b/stmt/set.go
index 6b32b9d..9252304 100644
--- a/stmt/set.go
+++ b/stmt/set.go
@@ -195,7 +195,11 @@ func (pairs PairContainer) WriteArray(ctx types.Context) {
 		if i != 0 {
 			ctx.Write(", ")
 		}
-		pairs.Expressions[i].Write(ctx)
+		expression := pairs.Expressions[i]
+		if len(pairs.Expressions) > 1 {
+			expression = NewWrapper(expression)
+		}
+		expression.Write(ctx)
 	}
 	ctx.Write(")")
 }
-- 
2.43.0


From 3c4d54db058bef7b4cd53d3c7d801b8ed165d395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:14 +0000
Subject: [PATCH 31/34] fix: write every byte of a string in its literal, even
 if it is not valid UTF-8

---
 format/format.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/format/format.go b/format/format.go
index a6e0d52..5346aa9 100644
--- a/format/format.go
+++ b/format/format.go
@@ -70,8 +70,8 @@ func Value(arg interface{}) string { // nolint: gocyclo
 func String(value string) string {
 	buffer := &bytes.Buffer{}
 	writeRune(buffer, '\'')
-	for _, char := range value {
-		switch char {
+	for i := range []byte(value) {
+		switch value[i] {
 		case '\'':
 			writeString(buffer, `\'`)
 		case '\\':
@@ -83,7 +83,7 @@ func String(value string) string {
 		case '\t':
 			writeString(buffer, `\t`)
 		default:
-			writeRune(buffer, char)
+			writeString(buffer, value[i:i+1])
 		}
 	}
 	writeRune(buffer, '\'')
-- 
2.43.0


From 7ee7a519347375f01f3d4ac1c69505afa21742cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:51 +0000
Subject: [PATCH 32/34] fix: refuse an undefined order instead of dropping it
 from ORDER BY

---
 builder/select.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/select.go b/builder/select.go
index db5e926..6ef2bd1 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -190,6 +190,12 @@ func (b Select) Having(condition stmt.Expression) Select {
 
 // OrderBy adds ORDER BY clauses.
 func (b Select) OrderBy(orders ...stmt.Order) Select {
+	for i := range orders {
+		if orders[i].IsEmpty() {
+			panic("loukoum: given order is undefined")
+		}
+	}
+
 	list := b.query.OrderBy.Orders
 	b.query.OrderBy.Orders = append(list[:len(list):len(list)], orders...)
 	return b
-- 
2.43.0


From 1dff4933f65d3d9f38848f0f35e707255ad418cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:52 +0000
Subject: [PATCH 33/34] fix: refuse an undefined WITH query instead of dropping
 it

---
 builder/builder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index 1787e3b..97f762d 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -401,6 +401,12 @@ func cloneSet(set stmt.Set) stmt.Set {
 
 // appendWith returns a copy of given WITH clause including given queries.
 func appendWith(with stmt.With, args []stmt.WithQuery) stmt.With {
+	for i := range args {
+		if args[i].IsEmpty() {
+			panic("loukoum: given with query is undefined")
+		}
+	}
+
 	queries := make([]stmt.WithQuery, 0, len(with.Queries)+len(args))
 	queries = append(queries, with.Queries...)
 	queries = append(queries, args...)
-- 
2.43.0


From c8cf2c7cb39f0406eb2d816e66f00943f8a0722f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:11 +0000
Subject: [PATCH 34/34] fix: refuse an undefined expression used as a value
 instead of writing nothing

---
 stmt/expression.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/stmt/expression.go b/stmt/expression.go
index a7bbd56..dabbf8a 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -22,6 +22,9 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 	}
 	switch value := arg.(type) {
 	case Expression:
+		if value.IsEmpty() {
+			panic("loukoum: given expression is undefined")
+		}
 		return value
 	case string, bool, int, int8, int16, int32, int64,
 		uint, uint8, uint16, uint32, uint64, float32, float64,
@@ -42,6 +45,9 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 		if !ok {
 			panic(fmt.Sprintf("cannot use {%+v}[%T] as loukoum Expression", value, value))
 		}
+		if expression.IsEmpty() {
+			panic("loukoum: given expression is undefined")
+		}
 		return expression
 	case Int64Encoder:
 		return NewValue(value.Int64())
@@ -626,6 +632,11 @@ type Call struct {
 
 // NewCall returns a new Call.
 func NewCall(function string, args ...Expression) Call {
+	for i := range args {
+		if args[i] == nil || args[i].IsEmpty() {
+			panic("loukoum: given expression is undefined")
+		}
+	}
 	return Call{
 		function: function,
 		args:     append([]Expression{}, args...),
-- 
2.43.0

