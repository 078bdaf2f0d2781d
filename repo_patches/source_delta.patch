From 73867098e27e37e2183f5237a52eac4fa07e9ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:03 +0000
Subject: [PATCH 01/35] fix: keep the grouping of nested filter conditions in
 SQL

And, Or, AllOf and Not were written without parentheses, so that e.g.
`(a || b) && c` was sent as `a OR b AND c`. An empty AllOf wrote nothing.
---
 butane_core/src/db/helper.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index b141d48..45f9b41 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -68,6 +68,11 @@ where
             Ge(col, ex) => write!(w, "{col} >= ").and_then(|_| Ok(f(ex, values, pls, w))),
             Like(col, ex) => write!(w, "{col} like ").and_then(|_| Ok(f(ex, values, pls, w))),
             AllOf(conds) => {
+                if conds.is_empty() {
+                    write!(w, "TRUE").unwrap();
+                    return;
+                }
+                write!(w, "(").unwrap();
                 let mut remaining = conds.len();
                 for cond in conds {
                     // future perf improvement: figure out a clean way to avoid the extra boxing
@@ -77,19 +82,21 @@ where
                         remaining -= 1;
                     }
                 }
-                Ok(())
+                write!(w, ")")
             }
             And(a, b) => {
+                write!(w, "(").unwrap();
                 f(Condition(a), values, pls, w);
                 write!(w, " AND ").unwrap();
                 f(Condition(b), values, pls, w);
-                Ok(())
+                write!(w, ")")
             }
             Or(a, b) => {
+                write!(w, "(").unwrap();
                 f(Condition(a), values, pls, w);
                 write!(w, " OR ").unwrap();
                 f(Condition(b), values, pls, w);
-                Ok(())
+                write!(w, ")")
             }
             Not(a) => write!(w, "NOT ").and_then(|_| Ok(f(Condition(a), values, pls, w))),
             Subquery {
-- 
2.43.0


From 3bae69627751387f5909bc9d35a908eca2f08a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:03 +0000
Subject: [PATCH 02/35] fix: an empty IN list matches nothing instead of being
 a syntax error

---
 butane_core/src/db/helper.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index 45f9b41..676c8a5 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -134,6 +134,7 @@ where
                 write!(w, ")").unwrap();
                 Ok(())
             }
+            In(_, vals) if vals.is_empty() => write!(w, "FALSE"),
             In(col, vals) => {
                 write!(w, "{} IN (", quote_reserved_word(col)).unwrap();
                 let mut remaining = vals.len();
-- 
2.43.0


From 35cc7ddc1265e91bbc06133fc8d511f11d98db78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:03 +0000
Subject: [PATCH 03/35] fix: separate the joins of a subquery

---
 butane_core/src/db/helper.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index 676c8a5..c90ff14 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -277,7 +277,10 @@ pub fn list_columns(columns: &[Column], w: &mut impl Write) {
 }
 
 pub(crate) fn sql_joins(joins: Vec<Join>, w: &mut impl Write) {
-    for join in joins {
+    for (i, join) in joins.into_iter().enumerate() {
+        if i > 0 {
+            w.write_str(" ").unwrap();
+        }
         match join {
             Join::Inner {
                 join_table,
-- 
2.43.0


From 29c2f7015e59c4d9caed93bc29e05d4b5cc3c995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:45 +0000
Subject: [PATCH 04/35] fix: quote reserved column names in conditions and
 RETURNING

A column named like an SQL keyword was quoted when created and selected
but not when compared in a filter or returned from an insert.
---
 butane_core/src/db/helper.rs | 29 +++++++++++++++++++----------
 butane_core/src/db/pg.rs     |  7 ++++++-
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index c90ff14..c11cd3d 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -55,18 +55,27 @@ where
         Condition(c) => match *c {
             True => write!(w, "TRUE"),
             Eq(col, ex) => match ex {
-                Expr::Val(SqlVal::Null) => write!(w, "{col} IS NULL"),
-                _ => write!(w, "{col} = ").and_then(|_| Ok(f(ex, values, pls, w))),
+                Expr::Val(SqlVal::Null) => write!(w, "{} IS NULL", quote_reserved_word(col)),
+                _ => write!(w, "{} = ", quote_reserved_word(col))
+                    .and_then(|_| Ok(f(ex, values, pls, w))),
             },
             Ne(col, ex) => match ex {
-                Expr::Val(SqlVal::Null) => write!(w, "{col} IS NOT NULL"),
-                _ => write!(w, "{col} <> ").and_then(|_| Ok(f(ex, values, pls, w))),
+                Expr::Val(SqlVal::Null) => write!(w, "{} IS NOT NULL", quote_reserved_word(col)),
+                _ => write!(w, "{} <> ", quote_reserved_word(col))
+                    .and_then(|_| Ok(f(ex, values, pls, w))),
             },
-            Lt(col, ex) => write!(w, "{col} < ").and_then(|_| Ok(f(ex, values, pls, w))),
-            Gt(col, ex) => write!(w, "{col} > ").and_then(|_| Ok(f(ex, values, pls, w))),
-            Le(col, ex) => write!(w, "{col} <= ").and_then(|_| Ok(f(ex, values, pls, w))),
-            Ge(col, ex) => write!(w, "{col} >= ").and_then(|_| Ok(f(ex, values, pls, w))),
-            Like(col, ex) => write!(w, "{col} like ").and_then(|_| Ok(f(ex, values, pls, w))),
+            Lt(col, ex) => {
+                write!(w, "{} < ", quote_reserved_word(col)).and_then(|_| Ok(f(ex, values, pls, w)))
+            }
+            Gt(col, ex) => {
+                write!(w, "{} > ", quote_reserved_word(col)).and_then(|_| Ok(f(ex, values, pls, w)))
+            }
+            Le(col, ex) => write!(w, "{} <= ", quote_reserved_word(col))
+                .and_then(|_| Ok(f(ex, values, pls, w))),
+            Ge(col, ex) => write!(w, "{} >= ", quote_reserved_word(col))
+                .and_then(|_| Ok(f(ex, values, pls, w))),
+            Like(col, ex) => write!(w, "{} like ", quote_reserved_word(col))
+                .and_then(|_| Ok(f(ex, values, pls, w))),
             AllOf(conds) => {
                 if conds.is_empty() {
                     write!(w, "TRUE").unwrap();
@@ -305,7 +314,7 @@ pub(crate) fn sql_column(col: query::Column, w: &mut impl Write) {
             quote_reserved_word(table),
             quote_reserved_word(col.name())
         ),
-        None => w.write_str(col.name()),
+        None => w.write_str(&quote_reserved_word(col.name())),
     }
     .unwrap()
 }
diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index ce1accb..1d05621 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -241,7 +241,12 @@ where
             &mut PgPlaceholderSource::new(),
             &mut sql,
         );
-        write!(&mut sql, " RETURNING {}", pkcol.name()).unwrap();
+        write!(
+            &mut sql,
+            " RETURNING {}",
+            helper::quote_reserved_word(pkcol.name())
+        )
+        .unwrap();
         if cfg!(feature = "log") {
             debug!("insert sql {sql}");
         }
-- 
2.43.0


From ea77dee43a135c590c176eb50096f08810190713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:12 +0000
Subject: [PATCH 05/35] fix: PostgreSQL placeholder numbers past 127

The counter was an i8, which overflowed for statements with more than 126 values.
---
 butane_core/src/db/pg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index 1d05621..f13ce0f 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -940,7 +940,7 @@ fn pgtype_for_val(val: &SqlVal) -> postgres::types::Type {
 
 #[derive(Debug)]
 struct PgPlaceholderSource {
-    n: i8,
+    n: i32,
 }
 impl PgPlaceholderSource {
     fn new() -> Self {
-- 
2.43.0


From e1254bf2d885cadf25f72a70b424444b06f2c5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:28 +0000
Subject: [PATCH 06/35] fix: a Turso transaction whose commit fails is rolled
 back when dropped

---
 butane_core/src/db/turso.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 38635c5..55e6421 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -709,15 +709,16 @@ impl<'c> ConnectionMethods for TursoTransaction<'c> {
 #[async_trait]
 impl<'c> BackendTransaction<'c> for TursoTransaction<'c> {
     async fn commit(&mut self) -> Result<()> {
-        let conn = self.conn.take().ok_or_else(Self::already_consumed)?;
-        conn.execute("COMMIT").await?;
+        self.get()?.execute("COMMIT").await?;
+        // Only now: dropping a transaction whose commit failed must roll it back.
+        self.conn = None;
         self.committed = true;
         Ok(())
     }
 
     async fn rollback(&mut self) -> Result<()> {
-        let conn = self.conn.take().ok_or_else(Self::already_consumed)?;
-        conn.execute("ROLLBACK").await?;
+        self.get()?.execute("ROLLBACK").await?;
+        self.conn = None;
         Ok(())
     }
 
-- 
2.43.0


From b809a930b603b968bce840e677e50c7e2bb8a395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:44 +0000
Subject: [PATCH 07/35] fix: unmigrate reports an error while following the
 migration chain

---
 butane_core/src/migrations/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_core/src/migrations/mod.rs b/butane_core/src/migrations/mod.rs
index 87fe3c5..782a265 100644
--- a/butane_core/src/migrations/mod.rs
+++ b/butane_core/src/migrations/mod.rs
@@ -147,7 +147,7 @@ pub trait Migrations: Clone {
         };
         migration.downgrade(connection)?;
 
-        while let Ok(Some(migration_name)) = migration.migration_from() {
+        while let Some(migration_name) = migration.migration_from()? {
             migration = self
                 .get_migration(&migration_name)
                 .ok_or(Error::MigrationError("Migration not in chain".to_string()))?;
-- 
2.43.0


From d5bbe9d3ba43c01f6627d58d552b105a6d7c92ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:57 +0000
Subject: [PATCH 08/35] fix: writing an empty migration file panicked

---
 butane_core/src/migrations/fsmigrations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_core/src/migrations/fsmigrations.rs b/butane_core/src/migrations/fsmigrations.rs
index a1dc4a5..ba30c7c 100644
--- a/butane_core/src/migrations/fsmigrations.rs
+++ b/butane_core/src/migrations/fsmigrations.rs
@@ -115,7 +115,7 @@ impl FsMigration {
         self.ensure_dir()?;
         let path = self.root.join(fname);
         let mut contents: Vec<u8> = contents.into();
-        if contents[contents.len() - 1] != b'\n' {
+        if contents.last() != Some(&b'\n') {
             contents.push(b'\n');
         }
         self.fs
-- 
2.43.0


From dcc95c272f05b4a85efaddde9dfeea39d0a4c21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:08 +0000
Subject: [PATCH 09/35] fix: SQL literals of text with quotes, JSON and dates

---
 butane_core/src/db/helper.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index c11cd3d..1f4a1b6 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -319,6 +319,11 @@ pub(crate) fn sql_column(col: query::Column, w: &mut impl Write) {
     .unwrap()
 }
 
+/// The SQL literal of a text value.
+fn quote_text_literal(val: &str) -> String {
+    format!("'{}'", val.replace('\'', "''"))
+}
+
 pub fn sql_literal_value(val: &SqlVal) -> Result<String> {
     use SqlVal::*;
     match val {
@@ -327,12 +332,12 @@ pub fn sql_literal_value(val: &SqlVal) -> Result<String> {
         Int(val) => Ok(val.to_string()),
         BigInt(val) => Ok(val.to_string()),
         Real(val) => Ok(val.to_string()),
-        Text(val) => Ok(format!("'{val}'")),
+        Text(val) => Ok(quote_text_literal(val)),
         Blob(val) => Ok(format!("x'{}'", hex::encode_upper(val))),
         #[cfg(feature = "json")]
-        Json(val) => Ok(format!("{val}")),
+        Json(val) => Ok(quote_text_literal(&val.to_string())),
         #[cfg(feature = "datetime")]
-        Date(val) => Ok(format!("'{}'", val.format("'%Y-%m-%d'"))),
+        Date(val) => Ok(val.format("'%Y-%m-%d'").to_string()),
         #[cfg(feature = "datetime")]
         Timestamp(ndt) => Ok(ndt.format("'%Y-%m-%dT%H:%M:%S%.f'").to_string()),
         #[cfg(feature = "pg")]
-- 
2.43.0


From 25a29d2503f2fdc57bb6c54d230a66897fdfebd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:30 +0000
Subject: [PATCH 10/35] fix: BYTEA literals on PostgreSQL

---
 butane_core/src/db/pg.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index f13ce0f..d1e6e7c 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -744,7 +744,7 @@ fn add_column(tbl_name: &str, col: &AColumn) -> Result<String> {
         "ALTER TABLE {} ADD COLUMN {} DEFAULT {};",
         helper::quote_reserved_word(tbl_name),
         define_column(col)?,
-        helper::sql_literal_value(&default)?
+        sql_literal_value(&default)?
     )];
     if col.reference().is_some() {
         stmts.push(define_fkey_constraint(tbl_name, col));
@@ -753,6 +753,14 @@ fn add_column(tbl_name: &str, col: &AColumn) -> Result<String> {
     Ok(result)
 }
 
+fn sql_literal_value(val: &SqlVal) -> Result<String> {
+    match val {
+        // x'..' is a bit string in PostgreSQL, which does not convert to BYTEA
+        SqlVal::Blob(val) => Ok(format!("'\\x{}'", hex::encode(val))),
+        _ => helper::sql_literal_value(val),
+    }
+}
+
 fn remove_column(tbl_name: &str, name: &str) -> String {
     format!(
         "ALTER TABLE {} DROP COLUMN {};",
@@ -847,7 +855,7 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
                 "ALTER TABLE {} ALTER COLUMN {} SET DEFAULT {};",
                 quote_reserved_word(tbl_name),
                 quote_reserved_word(old.name()),
-                helper::sql_literal_value(val)?
+                sql_literal_value(val)?
             ),
         });
     }
-- 
2.43.0


From ad506cd3b1a7c361672a29f647793534adf34995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:30 +0000
Subject: [PATCH 11/35] fix: PostgreSQL migrations see the effect of earlier
 operations

---
 butane_core/src/db/pg.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index d1e6e7c..2b017d5 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -50,8 +50,12 @@ impl Backend for PgBackend {
     fn create_migration_sql(&self, current: &ADB, ops: Vec<Operation>) -> Result<String> {
         let mut current: ADB = (*current).clone();
         let mut lines = ops
-            .iter()
-            .map(|o| sql_for_op(&mut current, o))
+            .into_iter()
+            .map(|o| {
+                let sql = sql_for_op(&mut current, &o);
+                current.transform_with(o);
+                sql
+            })
             .collect::<Result<Vec<String>>>()?;
         lines.retain(|s| !s.is_empty());
         Ok(format!("{}\n", lines.join("\n")))
-- 
2.43.0


From e41aea5ef334451ece71c7d81c3ffafdc476301e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:07 +0000
Subject: [PATCH 12/35] fix: timestamp literals have the format in which
 timestamps are stored

---
 butane_core/src/db/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index 1f4a1b6..fdef263 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -339,7 +339,7 @@ pub fn sql_literal_value(val: &SqlVal) -> Result<String> {
         #[cfg(feature = "datetime")]
         Date(val) => Ok(val.format("'%Y-%m-%d'").to_string()),
         #[cfg(feature = "datetime")]
-        Timestamp(ndt) => Ok(ndt.format("'%Y-%m-%dT%H:%M:%S%.f'").to_string()),
+        Timestamp(ndt) => Ok(ndt.format("'%Y-%m-%d %H:%M:%S%.f'").to_string()),
         #[cfg(feature = "pg")]
         Custom(val) => Err(Error::LiteralForCustomUnsupported(*(*val).clone())),
     }
-- 
2.43.0


From aa2cd00f6f741d3070d66a70fad8c3b0efbe231e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:07 +0000
Subject: [PATCH 13/35] fix: JSON parameters have the type of JSON columns on
 PostgreSQL

---
 butane_core/src/db/pg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index 2b017d5..15a5a0a 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -938,7 +938,7 @@ fn pgtype_for_val(val: &SqlVal) -> postgres::types::Type {
         Some(SqlType::Text) => postgres::types::Type::TEXT,
         Some(SqlType::Blob) => postgres::types::Type::BYTEA,
         #[cfg(feature = "json")]
-        Some(SqlType::Json) => postgres::types::Type::JSON,
+        Some(SqlType::Json) => postgres::types::Type::JSONB,
         #[cfg(feature = "datetime")]
         Some(SqlType::Date) => postgres::types::Type::DATE,
         #[cfg(feature = "datetime")]
-- 
2.43.0


From 7126747032d813863b4bd4a1468c28dc8134a5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:07 +0000
Subject: [PATCH 14/35] fix: unexpected JSON in a map column is an error, not a
 panic

---
 butane_core/src/sqlval.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/butane_core/src/sqlval.rs b/butane_core/src/sqlval.rs
index 2047b4c..62b7d50 100644
--- a/butane_core/src/sqlval.rs
+++ b/butane_core/src/sqlval.rs
@@ -546,10 +546,10 @@ where
 {
     fn from_sql_ref(val: SqlValRef) -> Result<Self> {
         if let SqlValRef::Json(serde_json::Value::Object(m)) = val {
-            return Ok(m
+            return m
                 .iter()
-                .map(|(k, v)| (k.to_owned(), T::deserialize(v).unwrap()))
-                .collect::<HashMap<String, T>>());
+                .map(|(k, v)| Ok((k.to_owned(), T::deserialize(v)?)))
+                .collect::<Result<HashMap<String, T>>>();
         }
         sql_conv_err!(val, Json)
     }
@@ -585,10 +585,10 @@ where
 {
     fn from_sql_ref(val: SqlValRef) -> Result<Self> {
         if let SqlValRef::Json(serde_json::Value::Object(m)) = val {
-            return Ok(m
+            return m
                 .iter()
-                .map(|(k, v)| (k.to_owned(), T::deserialize(v).unwrap()))
-                .collect::<BTreeMap<String, T>>());
+                .map(|(k, v)| Ok((k.to_owned(), T::deserialize(v)?)))
+                .collect::<Result<BTreeMap<String, T>>>();
         }
         sql_conv_err!(val, Json)
     }
-- 
2.43.0


From dab67d9b794c7b019a515d0c4020768ae3b42d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:43 +0000
Subject: [PATCH 15/35] fix: integers that do not fit are an error instead of
 being truncated

---
 butane_core/src/db/sqlite.rs |  7 ++++++-
 butane_core/src/db/turso.rs  |  5 ++++-
 butane_core/src/sqlval.rs    | 33 ++++++++++++++++++++++++---------
 3 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/butane_core/src/db/sqlite.rs b/butane_core/src/db/sqlite.rs
index ec0c987..9a30717 100644
--- a/butane_core/src/db/sqlite.rs
+++ b/butane_core/src/db/sqlite.rs
@@ -637,7 +637,12 @@ fn sql_valref_from_rusqlite<'a>(
     }
     Ok(match ty {
         SqlType::Bool => SqlValRef::Bool(val.as_i64()? != 0),
-        SqlType::Int => SqlValRef::Int(val.as_i64()? as i32),
+        SqlType::Int => {
+            let i = val.as_i64()?;
+            SqlValRef::Int(
+                i32::try_from(i).map_err(|_| rusqlite::types::FromSqlError::OutOfRange(i))?,
+            )
+        }
         SqlType::BigInt => SqlValRef::BigInt(val.as_i64()?),
         SqlType::Real => SqlValRef::Real(val.as_f64()?),
         SqlType::Text => SqlValRef::Text(val.as_str()?),
diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 55e6421..a64de28 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -808,7 +808,10 @@ fn turso_value_to_sqlval_typed(val: &turso::Value, ty: &SqlType) -> Result<SqlVa
                     )))
                 }
             };
-            SqlVal::Int(i as i32)
+            SqlVal::Int(
+                i32::try_from(i)
+                    .map_err(|_| Error::CannotConvertSqlVal(ty.clone(), SqlVal::BigInt(i)))?,
+            )
         }
         SqlType::BigInt => {
             let i = match val {
diff --git a/butane_core/src/sqlval.rs b/butane_core/src/sqlval.rs
index 62b7d50..57f1b94 100644
--- a/butane_core/src/sqlval.rs
+++ b/butane_core/src/sqlval.rs
@@ -384,12 +384,27 @@ macro_rules! impl_basic_from_sql {
     };
 }
 
+// As impl_basic_from_sql, for integers narrower than what the database stores
+macro_rules! impl_narrow_from_sql {
+    ($prim:ty, $variant:ident, $sqltype:ident) => {
+        impl FromSql for $prim {
+            fn from_sql_ref(valref: SqlValRef) -> Result<Self> {
+                if let SqlValRef::$variant(val) = valref {
+                    <$prim>::try_from(val).or_else(|_| sql_conv_err!(valref, $sqltype))
+                } else {
+                    sql_conv_err!(valref, $sqltype)
+                }
+            }
+        }
+    };
+}
+
 macro_rules! impl_prim_sql {
     ($prim:ty, $variant:ident, $sqltype:ident) => {
-        impl_prim_sql! {$prim, $variant, $sqltype, $prim}
+        impl_prim_sql! {$prim, $variant, $sqltype, impl_basic_from_sql}
     };
-    ($prim:ty, $variant:ident, $sqltype:ident, $reftype: ty) => {
-        impl_basic_from_sql!($prim, $variant, $sqltype);
+    ($prim:ty, $variant:ident, $sqltype:ident, $from_sql:ident) => {
+        $from_sql!($prim, $variant, $sqltype);
         impl ToSql for $prim {
             fn to_sql(&self) -> SqlVal {
                 self.clone().into_sql()
@@ -403,7 +418,7 @@ macro_rules! impl_prim_sql {
         }
         impl FieldType for $prim {
             const SQLTYPE: SqlType = SqlType::$sqltype;
-            type RefType = $reftype;
+            type RefType = $prim;
         }
 
         impl PrimaryKeyType for $prim {}
@@ -413,12 +428,12 @@ macro_rules! impl_prim_sql {
 impl_prim_sql!(bool, Bool, Bool);
 impl_prim_sql!(i64, BigInt, BigInt);
 impl_prim_sql!(i32, Int, Int);
-impl_prim_sql!(u32, BigInt, BigInt);
+impl_prim_sql!(u32, BigInt, BigInt, impl_narrow_from_sql);
 // TODO need a small int type
-impl_prim_sql!(u16, Int, Int);
-impl_prim_sql!(i16, Int, Int);
-impl_prim_sql!(u8, Int, Int);
-impl_prim_sql!(i8, Int, Int);
+impl_prim_sql!(u16, Int, Int, impl_narrow_from_sql);
+impl_prim_sql!(i16, Int, Int, impl_narrow_from_sql);
+impl_prim_sql!(u8, Int, Int, impl_narrow_from_sql);
+impl_prim_sql!(i8, Int, Int, impl_narrow_from_sql);
 impl_prim_sql!(f64, Real, Real);
 impl_prim_sql!(f32, Real, Real);
 
-- 
2.43.0


From 5d06ee21e3a55f12f03bb2499339f4893767a9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:54 +0000
Subject: [PATCH 16/35] fix: malformed JSON of a derived field type is an
 error, not a panic

---
 butane_codegen/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_codegen/src/lib.rs b/butane_codegen/src/lib.rs
index ba0b92d..f1e0486 100644
--- a/butane_codegen/src/lib.rs
+++ b/butane_codegen/src/lib.rs
@@ -461,7 +461,7 @@ fn derive_field_type_with_json(struct_name: &Ident) -> TokenStream2 {
             fn from_sql_ref(val: butane::SqlValRef) -> std::result::Result<Self, butane::Error> {
                 if let butane::SqlValRef::Json(v) = val {
                     use ::serde::Deserialize;
-                    return Ok(#struct_name::deserialize(v).unwrap());
+                    return Ok(#struct_name::deserialize(v)?);
                 }
                 Err(butane::Error::CannotConvertSqlVal(
                     butane::SqlType::Json,
-- 
2.43.0


From 31db0702b031195786b32adddb3ecdfcb79d1390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:43 +0000
Subject: [PATCH 17/35] fix: VecRows::current returned the row after the
 current one

---
 butane_core/src/db/connmethods.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/db/connmethods.rs b/butane_core/src/db/connmethods.rs
index 597b128..6c8a52b 100644
--- a/butane_core/src/db/connmethods.rs
+++ b/butane_core/src/db/connmethods.rs
@@ -182,7 +182,10 @@ where
     }
 
     fn current(&self) -> Option<&dyn BackendRow> {
-        self.rows.get(self.idx).map(|row| row as &dyn BackendRow)
+        // `idx` is the row `next` will return
+        self.rows
+            .get(self.idx.checked_sub(1)?)
+            .map(|row| row as &dyn BackendRow)
     }
 }
 
-- 
2.43.0


From c541d6e8e0b3f42c36dca563e82a607394e44a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:43 +0000
Subject: [PATCH 18/35] fix: two threads reading the key of a shared ForeignKey
 could panic

---
 butane_core/src/fkey.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/butane_core/src/fkey.rs b/butane_core/src/fkey.rs
index 532cac4..d592542 100644
--- a/butane_core/src/fkey.rs
+++ b/butane_core/src/fkey.rs
@@ -80,14 +80,10 @@ impl<T: DataObject> ForeignKey<T> {
     }
 
     fn ensure_valpk(&self) -> &SqlVal {
-        match self.valpk.get() {
-            Some(sqlval) => return sqlval,
-            None => match self.val.get() {
-                Some(val) => self.valpk.set(val.pk().to_sql()).unwrap(),
-                None => panic!("Invalid foreign key state"),
-            },
-        }
-        self.valpk.get().unwrap()
+        self.valpk.get_or_init(|| match self.val.get() {
+            Some(val) => val.pk().to_sql(),
+            None => panic!("Invalid foreign key state"),
+        })
     }
 }
 
-- 
2.43.0


From d45a43775e6757724ac584b09cf2907b136dedc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:10 +0000
Subject: [PATCH 19/35] fix: a foreign key read from a value that is no key of
 its model panicked in pk()

---
 butane_core/src/fkey.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/butane_core/src/fkey.rs b/butane_core/src/fkey.rs
index d592542..c986a60 100644
--- a/butane_core/src/fkey.rs
+++ b/butane_core/src/fkey.rs
@@ -185,6 +185,8 @@ where
     T: DataObject,
 {
     fn from_sql_ref(valref: SqlValRef) -> Result<Self> {
+        // Check this now because `pk` has no way to report an error.
+        T::PKType::from_sql_ref(valref.clone())?;
         Ok(ForeignKey {
             valpk: SqlVal::from(valref).into(),
             val: OnceLock::new(),
-- 
2.43.0


From 7bd1b558b47a5795d83b0e1ecd80d16541747ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:47 +0000
Subject: [PATCH 20/35] fix: filters on fields whose name is a keyword made the
 macro panic

---
 butane_codegen/src/filter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/butane_codegen/src/filter.rs b/butane_codegen/src/filter.rs
index c8627e6..12cdf4a 100755
--- a/butane_codegen/src/filter.rs
+++ b/butane_codegen/src/filter.rs
@@ -30,7 +30,10 @@ pub fn handle_expr(fields: &impl ToTokens, expr: &Expr) -> TokenStream2 {
 }
 
 fn ident(name: &str) -> Ident {
-    Ident::new(name, Span::call_site())
+    match name.strip_prefix("r#") {
+        Some(raw) => Ident::new_raw(raw, Span::call_site()),
+        None => Ident::new(name, Span::call_site()),
+    }
 }
 
 fn handle_block(block: &syn::Block) -> TokenStream2 {
-- 
2.43.0


From 71102a643fd18fe38cc7ad491e96aa9a5dc45e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:19 +0000
Subject: [PATCH 21/35] fix: removing a value from a Many only removes it from
 its own owner

Many::save deleted every row of the link table with a removed value, whoever
owned it: removing a tag from one post removed it from all posts.
---
 butane_core/src/many.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/many.rs b/butane_core/src/many.rs
index 17de3bd..5adb748 100644
--- a/butane_core/src/many.rs
+++ b/butane_core/src/many.rs
@@ -260,7 +260,13 @@ impl<T: DataObject> ManyOps<T> for Many<T> {
         if !self.removed_values.is_empty() {
             conn.delete_where(
                 &self.item_table,
-                BoolExpr::In("has", std::mem::take(&mut self.removed_values)),
+                BoolExpr::And(
+                    Box::new(BoolExpr::Eq("owner", Expr::Val(owner.clone()))),
+                    Box::new(BoolExpr::In(
+                        "has",
+                        std::mem::take(&mut self.removed_values),
+                    )),
+                ),
             )
             .await?;
         }
-- 
2.43.0


From 1c4b0566dde414b428d188d196f4fb731fceea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:36 +0000
Subject: [PATCH 22/35] fix: adding to and removing from a Many take effect in
 the order they were made

Many::save did the additions first, so a value removed and added again was
gone after a save, although adding it was the last thing asked for.
---
 butane_core/src/many.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/butane_core/src/many.rs b/butane_core/src/many.rs
index 5adb748..42074f5 100644
--- a/butane_core/src/many.rs
+++ b/butane_core/src/many.rs
@@ -97,7 +97,9 @@ where
     pub fn remove(&mut self, val: &T) {
         // all_values is now out of date, so clear it
         self.all_values = OnceLock::new();
-        self.removed_values.push(val.pk().to_sql())
+        let pk = val.pk().to_sql();
+        self.new_values.retain(|v| *v != pk);
+        self.removed_values.push(pk);
     }
 
     /// Return already loaded values.
@@ -246,17 +248,7 @@ pub trait ManyOps<T: DataObject> {
 impl<T: DataObject> ManyOps<T> for Many<T> {
     async fn save(&mut self, conn: &impl ConnectionMethods) -> Result<()> {
         let owner = self.owner.as_ref().ok_or(Error::NotInitialized)?;
-        while !self.new_values.is_empty() {
-            conn.insert_only(
-                &self.item_table,
-                &self.columns(),
-                &[
-                    owner.as_ref(),
-                    self.new_values.pop().unwrap().as_ref().clone(),
-                ],
-            )
-            .await?;
-        }
+        // Removals first: a value removed and then added again is to stay.
         if !self.removed_values.is_empty() {
             conn.delete_where(
                 &self.item_table,
@@ -270,6 +262,17 @@ impl<T: DataObject> ManyOps<T> for Many<T> {
             )
             .await?;
         }
+        while !self.new_values.is_empty() {
+            conn.insert_only(
+                &self.item_table,
+                &self.columns(),
+                &[
+                    owner.as_ref(),
+                    self.new_values.pop().unwrap().as_ref().clone(),
+                ],
+            )
+            .await?;
+        }
         self.new_values.clear();
         Ok(())
     }
-- 
2.43.0


From 418cf275b9782569f6c2829a14efbffd34115dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:45 +0000
Subject: [PATCH 23/35] fix: a failed save of a Many keeps what it has not
 saved

Many::save forgot the value it was inserting, or all the values it was
removing, when the statement failed, so that saving again, which succeeds,
left them out.
---
 butane_core/src/many.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/butane_core/src/many.rs b/butane_core/src/many.rs
index 42074f5..7358385 100644
--- a/butane_core/src/many.rs
+++ b/butane_core/src/many.rs
@@ -254,26 +254,21 @@ impl<T: DataObject> ManyOps<T> for Many<T> {
                 &self.item_table,
                 BoolExpr::And(
                     Box::new(BoolExpr::Eq("owner", Expr::Val(owner.clone()))),
-                    Box::new(BoolExpr::In(
-                        "has",
-                        std::mem::take(&mut self.removed_values),
-                    )),
+                    Box::new(BoolExpr::In("has", self.removed_values.clone())),
                 ),
             )
             .await?;
+            self.removed_values.clear();
         }
-        while !self.new_values.is_empty() {
+        while let Some(val) = self.new_values.last() {
             conn.insert_only(
                 &self.item_table,
                 &self.columns(),
-                &[
-                    owner.as_ref(),
-                    self.new_values.pop().unwrap().as_ref().clone(),
-                ],
+                &[owner.as_ref(), val.as_ref()],
             )
             .await?;
+            self.new_values.pop();
         }
-        self.new_values.clear();
         Ok(())
     }
 
-- 
2.43.0


From 6a321ce76022216c7000dc00158230e9e9ed8595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:56 +0000
Subject: [PATCH 24/35] fix: loading a Many leaves out values that were removed
 from it

Many::remove drops the loaded values because they are out of date, but
loading them again before saving gave the removed values back.
---
 butane_core/src/many.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/butane_core/src/many.rs b/butane_core/src/many.rs
index 7358385..be99508 100644
--- a/butane_core/src/many.rs
+++ b/butane_core/src/many.rs
@@ -153,6 +153,8 @@ where
 {
     use crate::query::QueryOps;
     let mut vals: Vec<T> = query.load(conn).await?;
+    // What is still to be removed from the db is not part of the values any more
+    vals.retain(|v| !many.removed_values.contains(&v.pk().to_sql()));
     // Now add in the values for things not saved to the db yet
     if !many.new_values.is_empty() {
         vals.append(
-- 
2.43.0


From dbf0b2b819f4830b8b7b86bed031f1fd9a961e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:58 +0000
Subject: [PATCH 25/35] fix: embed migrations in a raw string that their JSON
 cannot end

---
 butane_cli/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/butane_cli/src/lib.rs b/butane_cli/src/lib.rs
index 4088bc6..e2d1d3d 100644
--- a/butane_cli/src/lib.rs
+++ b/butane_cli/src/lib.rs
@@ -372,6 +372,12 @@ pub fn embed(base_dir: &Path) -> Result<()> {
     }
     let json = serde_json::to_string_pretty(&mem_ms)?;
 
+    // The raw string must not end inside the JSON, which may itself contain `"#`.
+    let mut hashes = "#".to_string();
+    while json.contains(&format!("\"{hashes}")) {
+        hashes.push('#');
+    }
+
     let src = format!(
         "//! Butane migrations embedded in Rust.
 
@@ -379,7 +385,7 @@ use butane::migrations::MemMigrations;
 
 /// Load the butane migrations embedded in Rust.
 pub fn get_migrations() -> Result<MemMigrations, butane::Error> {{
-    let json = r#\"{json}\"#;
+    let json = r{hashes}\"{json}\"{hashes};
     MemMigrations::from_json(json)
 }}
 "
-- 
2.43.0


From cf2dfedeb2185f8663a1dd546f516d994e05f6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:58 +0000
Subject: [PATCH 26/35] fix: rolling back to a migration that is not applied is
 an error, not a panic

---
 butane_cli/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_cli/src/lib.rs b/butane_cli/src/lib.rs
index e2d1d3d..f6c8845 100644
--- a/butane_cli/src/lib.rs
+++ b/butane_cli/src/lib.rs
@@ -328,7 +328,7 @@ pub fn unmigrate_to(base_dir: &Path, mut conn: Connection, to: &str) -> Result<(
         let index = to_unapply
             .iter()
             .position(|m| m.name() == latest.name())
-            .unwrap();
+            .ok_or_else(|| anyhow::anyhow!("Migration {to} is not applied."))?;
         to_unapply = to_unapply.split_at(index + 1).0.into();
     }
 
-- 
2.43.0


From 61662e369e7820e5e2a2326755882b1ef5d2070e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:03 +0000
Subject: [PATCH 27/35] fix: dropping a future of the async adapter waits for
 its function to finish

The function runs on another thread and borrows from the future's caller,
which was free to change or free what was borrowed once the future was gone.
---
 butane_core/src/db/adapter.rs | 50 ++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/butane_core/src/db/adapter.rs b/butane_core/src/db/adapter.rs
index b4f2c6f..aeea2a9 100644
--- a/butane_core/src/db/adapter.rs
+++ b/butane_core/src/db/adapter.rs
@@ -71,10 +71,10 @@ impl AsyncAdapterEnv {
         // with context occur on that worker thread.
         let (tx, rx) = tokio::sync::oneshot::channel();
         let func_taking_ptr = |ctx: SyncSendPtrMut<T>| func(unsafe { ctx.inner.as_ref() }.unwrap());
-        unsafe {
+        let _running = unsafe {
             let wrapped_func = move || _ = tx.send(func_taking_ptr(context.clone_unsafe()));
-            self.invoke_internal_unsafe(wrapped_func)?;
-        }
+            self.invoke_internal_unsafe(wrapped_func)?
+        };
         rx.await?
     }
 
@@ -93,10 +93,10 @@ impl AsyncAdapterEnv {
     {
         let (tx, rx) = tokio::sync::oneshot::channel();
         let func_taking_ptr = |ctx: SyncSendPtrMut<T>| func(unsafe { ctx.inner.as_mut().unwrap() });
-        unsafe {
+        let _running = unsafe {
             let wrapped_func = move || _ = tx.send(func_taking_ptr(context.clone_unsafe()));
-            self.invoke_internal_unsafe(wrapped_func)?;
-        }
+            self.invoke_internal_unsafe(wrapped_func)?
+        };
         rx.await?
     }
 
@@ -112,19 +112,24 @@ impl AsyncAdapterEnv {
         let (tx, rx) = crossbeam_channel::unbounded();
         let context_ptr = unsafe { SendPtr::new(context) };
         let func_taking_ptr = |ctx: SendPtr<T>| func(unsafe { ctx.inner.as_ref() }.unwrap());
-        unsafe {
+        let _running = unsafe {
             let wrapped_func = move || _ = tx.send(func_taking_ptr(context_ptr));
-            self.invoke_internal_unsafe(wrapped_func)?;
-        }
+            self.invoke_internal_unsafe(wrapped_func)?
+        };
         rx.recv()?
     }
 
+    /// Sends `wrapped_func` to the worker thread.
+    ///
+    /// # Safety
+    /// Whatever `wrapped_func` borrows must outlive the returned
+    /// [`RunningFunc`], which must be dropped, not forgotten.
     unsafe fn invoke_internal_unsafe<'s, 'result>(
         &'s self,
         // wrapped_func is a complete encapsulation of the function we
         // want to invoke without any parameters left to provide
         wrapped_func: impl FnOnce() + Send + 'result,
-    ) -> Result<()> {
+    ) -> Result<RunningFunc> {
         // We transmute wrapped_func (with an intermediate boxing
         // step) solely to transform it's lifetime. The lifetime is an
         // issue here because Rust itself has no way of knowing how
@@ -132,13 +137,32 @@ impl AsyncAdapterEnv {
         // *we* know that our worker thread will immediately execute
         // the function and the caller to this method will wait to
         // hear from the worker thread before proceeding (and thus
-        // before letting the lifetime lapse)
+        // before letting the lifetime lapse). Since an async caller may
+        // itself be dropped while it waits, what enforces this is
+        // that dropping the `RunningFunc` waits too.
         // https://stackoverflow.com/questions/52424449/
-        let boxed_func: Box<dyn FnOnce() + Send + 'result> = Box::new(wrapped_func);
+        let (done_tx, done_rx) = crossbeam_channel::bounded(0);
+        let boxed_func: Box<dyn FnOnce() + Send + 'result> = Box::new(move || {
+            let _done = done_tx; // dropped after `wrapped_func` has finished
+            wrapped_func()
+        });
         let static_func: Box<dyn FnOnce() + Send + 'static> =
             unsafe { std::mem::transmute(boxed_func) };
         self.sender.send(Command::Func(static_func))?;
-        Ok(())
+        Ok(RunningFunc { done: done_rx })
+    }
+}
+
+/// A function sent to the worker thread. Dropping it waits until the
+/// worker thread is done with the function.
+struct RunningFunc {
+    /// Nothing is ever sent, but it disconnects when the function is done.
+    done: crossbeam_channel::Receiver<std::convert::Infallible>,
+}
+
+impl Drop for RunningFunc {
+    fn drop(&mut self) {
+        _ = self.done.recv();
     }
 }
 
-- 
2.43.0


From 4f8d407d1ffe82552edd5ffb0798e67f9ed0b37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:03 +0000
Subject: [PATCH 28/35] fix: drop a transaction begun by the async adapter for
 a caller that is gone

It was leaked, so the connection stayed within the transaction.
---
 butane_core/src/db/adapter.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/butane_core/src/db/adapter.rs b/butane_core/src/db/adapter.rs
index aeea2a9..259edfa 100644
--- a/butane_core/src/db/adapter.rs
+++ b/butane_core/src/db/adapter.rs
@@ -397,14 +397,18 @@ where
     T: BackendConnection,
 {
     async fn transaction<'c>(&'c mut self) -> Result<TransactionAsync<'c>> {
-        let transaction_ptr: SyncSendPtrMut<dyn BackendTransaction> = self
-            .invoke_mut(|conn| {
-                let transaction: Transaction = conn.transaction()?;
-                let transaction_ptr: *mut dyn BackendTransaction = Box::into_raw(transaction.trans);
-                Ok(unsafe { SyncSendPtrMut::new(transaction_ptr) })
-            })
-            .await?;
-        let transaction_adapter = self.create_with_same_env(transaction_ptr);
+        // The adapter is kept out here so that it, and with it the
+        // transaction, is dropped if we are before the result arrives.
+        let mut transaction_adapter: Option<AsyncAdapter<dyn BackendTransaction>> = None;
+        self.invoke_mut(|conn| {
+            let transaction: Transaction = conn.transaction()?;
+            let transaction_ptr: *mut dyn BackendTransaction = Box::into_raw(transaction.trans);
+            let transaction_ptr = unsafe { SyncSendPtrMut::new(transaction_ptr) };
+            transaction_adapter = Some(self.create_with_same_env(transaction_ptr));
+            Ok(())
+        })
+        .await?;
+        let transaction_adapter = transaction_adapter.expect("set by the function just run");
         Ok(TransactionAsync::new(Box::new(transaction_adapter)))
     }
 
-- 
2.43.0


From 74392df80149ac55e5f7a1087a3bc64279e0761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:04 +0000
Subject: [PATCH 29/35] fix: an async adapter is formatted by its thread, which
 may be using what it wraps

---
 butane_core/src/db/adapter.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/butane_core/src/db/adapter.rs b/butane_core/src/db/adapter.rs
index 259edfa..a579388 100644
--- a/butane_core/src/db/adapter.rs
+++ b/butane_core/src/db/adapter.rs
@@ -218,19 +218,28 @@ where
 unsafe impl<T: ?Sized> Send for SyncSendPtrMut<T> {}
 unsafe impl<T: ?Sized> Sync for SyncSendPtrMut<T> {}
 
-impl<T: Debug + ?Sized> Debug for SyncSendPtrMut<T> {
-    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::result::Result<(), std::fmt::Error> {
-        // We enforce that inner is non-null and valid.
-        unsafe { (*self.inner).fmt(f) }
-    }
-}
-
-#[derive(Debug)]
 pub(super) struct AsyncAdapter<T: ?Sized> {
     env: Arc<AsyncAdapterEnv>,
     context: SyncSendPtrMut<T>,
 }
 
+impl<T: Debug + ?Sized> Debug for AsyncAdapter<T> {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::result::Result<(), std::fmt::Error> {
+        // Like every other use of the context, this is left to the
+        // worker thread, which may be in the middle of using it.
+        let alternate = f.alternate();
+        let context = self.invoke_blocking(|context| match alternate {
+            true => Ok(format!("{context:#?}")),
+            false => Ok(format!("{context:?}")),
+        });
+        let context = context.unwrap_or_else(|e| e.to_string());
+        f.debug_struct("AsyncAdapter")
+            .field("env", &self.env)
+            .field("context", &format_args!("{context}"))
+            .finish()
+    }
+}
+
 impl<T: ?Sized> AsyncAdapter<T> {
     /// Create an `AsyncAdapter` with the given context, using the same `env` as self.
     fn create_with_same_env<U: ?Sized>(&self, context_ptr: SyncSendPtrMut<U>) -> AsyncAdapter<U> {
-- 
2.43.0


From bcb1487c1e7246998eebe7085958e35cfcb3552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:04 +0000
Subject: [PATCH 30/35] fix: a clone of a SyncAdapter keeps the runtime it uses

---
 butane_core/src/db/sync_adapter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_core/src/db/sync_adapter.rs b/butane_core/src/db/sync_adapter.rs
index b0c329b..36e23b3 100644
--- a/butane_core/src/db/sync_adapter.rs
+++ b/butane_core/src/db/sync_adapter.rs
@@ -74,7 +74,7 @@ where
     fn clone(&self) -> Self {
         SyncAdapter {
             runtime_handle: self.runtime_handle.clone(),
-            _runtime: None,
+            _runtime: self._runtime.clone(),
             inner: self.inner.clone(),
         }
     }
-- 
2.43.0


From a07346135a487d452f2ae52554dbce0ae5f0ebc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:16 +0000
Subject: [PATCH 31/35] fix: PostgreSQL constraint names follow the quoting of
 their table

---
 butane_core/src/db/pg.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index 15a5a0a..967c6d7 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -700,6 +700,17 @@ fn define_fkey_constraint(table_name: &str, column: &AColumn) -> String {
     }
 }
 
+/// Name PostgreSQL gives to a constraint of a table by default. It starts with the name of the
+/// table as stored, so it needs to be quoted if that does.
+fn constraint_name(tbl_name: &str, suffix: &str) -> String {
+    let name = format!("{tbl_name}_{suffix}");
+    if helper::quote_reserved_word(tbl_name) == tbl_name {
+        name
+    } else {
+        format!("\"{name}\"")
+    }
+}
+
 fn drop_fkey_constraints(table: &ATable, column: &AColumn) -> Result<String> {
     let mut modified_column = column.clone();
     modified_column.remove_reference();
@@ -813,9 +824,9 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
         if new.is_pk() {
             // Drop the old primary key
             stmts.push(format!(
-                "ALTER TABLE {} DROP CONSTRAINT IF EXISTS {}_pkey;",
+                "ALTER TABLE {} DROP CONSTRAINT IF EXISTS {};",
                 quote_reserved_word(tbl_name),
-                tbl_name
+                constraint_name(tbl_name, "pkey")
             ));
 
             // add the new primary key
@@ -840,10 +851,9 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
         } else {
             // Standard constraint naming scheme
             stmts.push(format!(
-                "ALTER TABLE {} DROP CONSTRAINT {}_{}_key;",
+                "ALTER TABLE {} DROP CONSTRAINT {};",
                 quote_reserved_word(tbl_name),
-                tbl_name,
-                old.name()
+                constraint_name(tbl_name, &format!("{}_key", old.name()))
             ));
         }
     }
@@ -868,10 +878,9 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
         if old.reference().is_some() {
             // Drop the old reference
             stmts.push(format!(
-                "ALTER TABLE {} DROP CONSTRAINT {}_{}_fkey;",
+                "ALTER TABLE {} DROP CONSTRAINT {};",
                 quote_reserved_word(tbl_name),
-                tbl_name,
-                old.name()
+                constraint_name(tbl_name, &format!("{}_fkey", old.name()))
             ));
         }
         if new.reference().is_some() {
-- 
2.43.0


From d5f36dd198b1648c15a2a581145796eda3a292f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:16 +0000
Subject: [PATCH 32/35] fix: Turso deletes rows selected by a subquery

---
 butane_core/src/db/turso.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index a64de28..020f385 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -544,6 +544,8 @@ impl ConnectionMethods for TursoConnection {
     }
 
     async fn delete_where(&self, table: &str, expr: BoolExpr) -> Result<usize> {
+        // Turso doesn't support subqueries here either
+        let expr = self.transform_subqueries(expr).await?;
         let mut sql = format!("DELETE FROM {}", helper::quote_reserved_word(table));
         let mut values: Vec<SqlVal> = Vec::new();
         sql.write_str(" WHERE ").unwrap();
-- 
2.43.0


From bab21f5bb3f9528c46c789c59973b7a0b7968c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:11 +0000
Subject: [PATCH 33/35] fix: the first type recorded on disk is locked too, and
 an unreadable types file is reported

---
 butane_core/src/migrations/fsmigrations.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/butane_core/src/migrations/fsmigrations.rs b/butane_core/src/migrations/fsmigrations.rs
index ba30c7c..7caafce 100644
--- a/butane_core/src/migrations/fsmigrations.rs
+++ b/butane_core/src/migrations/fsmigrations.rs
@@ -241,14 +241,16 @@ impl MigrationMut for FsMigration {
     }
 
     fn add_type(&mut self, key: TypeKey, sqltype: DeferredSqlType) -> Result<()> {
-        let _lock = self.lock_exclusive();
+        self.ensure_dir()?;
+        let _lock = self.lock_exclusive()?;
         let typefile = self.root.join(TYPES_FILENAME);
 
         let mut types: SqlTypeMap = match self.fs.read(&typefile) {
             Ok(reader) => serde_json::from_reader(reader).inspect_err(|_| {
                 eprintln!("failed to read types {typefile:?}");
             })?,
-            Err(_) => BTreeMap::new(),
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => BTreeMap::new(),
+            Err(e) => return Err(e.into()),
         };
         types.insert(key, sqltype);
         self.write_contents(
-- 
2.43.0


From f674c1f7456d971fa4e2f4bd458fca3ea473a484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:31 +0000
Subject: [PATCH 34/35] fix: recording a table in a migration on disk takes the
 migration's lock

---
 butane_core/src/migrations/fsmigrations.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/butane_core/src/migrations/fsmigrations.rs b/butane_core/src/migrations/fsmigrations.rs
index 7caafce..b5b5de3 100644
--- a/butane_core/src/migrations/fsmigrations.rs
+++ b/butane_core/src/migrations/fsmigrations.rs
@@ -178,6 +178,8 @@ impl FsMigration {
 
 impl MigrationMut for FsMigration {
     fn add_modified_table(&mut self, table: &ATable) -> Result<()> {
+        self.ensure_dir()?;
+        let _lock = self.lock_exclusive()?;
         self.write_contents(
             &format!("{}.table", table.name),
             serde_json::to_string_pretty(table)?.as_bytes(),
-- 
2.43.0


From d8c4a41f616153a5c650c4ae0ef338e4dedb4272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:13 +0000
Subject: [PATCH 35/35] fix: a PostgreSQL type of kind multirange can be
 recorded

---
 butane_core/src/custom.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/butane_core/src/custom.rs b/butane_core/src/custom.rs
index 8b1fd3e..35bbc79 100644
--- a/butane_core/src/custom.rs
+++ b/butane_core/src/custom.rs
@@ -188,6 +188,7 @@ mod pgtypeser {
         Pseudo,
         Array(SerializablePgType),
         Range(SerializablePgType),
+        Multirange(SerializablePgType),
         Domain(SerializablePgType),
         Composite(Vec<SerializablePgField>),
     }
@@ -200,6 +201,7 @@ mod pgtypeser {
                 Pseudo => Self::Pseudo,
                 Array(ty) => Self::Array(ty.into()),
                 Range(ty) => Self::Range(ty.into()),
+                Multirange(ty) => Self::Multirange(ty.into()),
                 Domain(ty) => Self::Domain(ty.into()),
                 Composite(v) => Self::Composite(v.into_iter().map(|f| f.into()).collect()),
                 // TODO why is rustc requiring wildcard here
@@ -216,6 +218,7 @@ mod pgtypeser {
                 SerializablePgKind::Pseudo => Pseudo,
                 SerializablePgKind::Array(ty) => Array(ty.into()),
                 SerializablePgKind::Range(ty) => Range(ty.into()),
+                SerializablePgKind::Multirange(ty) => Multirange(ty.into()),
                 SerializablePgKind::Domain(ty) => Domain(ty.into()),
                 SerializablePgKind::Composite(v) => {
                     Composite(v.into_iter().map(|f| f.into()).collect())
-- 
2.43.0

