From 327b920594977b5a81abdd0479de702004d50eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:28 +0000
Subject: [PATCH 01/25] fix: keep the nesting of boolean expressions in
 generated SQL

---
 butane_core/src/db/helper.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index b141d48..6168206 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -68,6 +68,7 @@ where
             Ge(col, ex) => write!(w, "{col} >= ").and_then(|_| Ok(f(ex, values, pls, w))),
             Like(col, ex) => write!(w, "{col} like ").and_then(|_| Ok(f(ex, values, pls, w))),
             AllOf(conds) => {
+                write!(w, "(").unwrap();
                 let mut remaining = conds.len();
                 for cond in conds {
                     // future perf improvement: figure out a clean way to avoid the extra boxing
@@ -77,19 +78,22 @@ where
                         remaining -= 1;
                     }
                 }
-                Ok(())
+                write!(w, ")")
             }
+            // Parenthesized so that the nesting of the expression survives SQL's precedence rules
             And(a, b) => {
+                write!(w, "(").unwrap();
                 f(Condition(a), values, pls, w);
                 write!(w, " AND ").unwrap();
                 f(Condition(b), values, pls, w);
-                Ok(())
+                write!(w, ")")
             }
             Or(a, b) => {
+                write!(w, "(").unwrap();
                 f(Condition(a), values, pls, w);
                 write!(w, " OR ").unwrap();
                 f(Condition(b), values, pls, w);
-                Ok(())
+                write!(w, ")")
             }
             Not(a) => write!(w, "NOT ").and_then(|_| Ok(f(Condition(a), values, pls, w))),
             Subquery {
-- 
2.43.0


From 343184c79982d82e8e9586a975ef18a7b919b572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:29 +0000
Subject: [PATCH 02/25] fix: render the empty conjunction and the empty IN list
 as valid SQL

---
 butane_core/src/db/helper.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index 6168206..c44276d 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -67,6 +67,9 @@ where
             Le(col, ex) => write!(w, "{col} <= ").and_then(|_| Ok(f(ex, values, pls, w))),
             Ge(col, ex) => write!(w, "{col} >= ").and_then(|_| Ok(f(ex, values, pls, w))),
             Like(col, ex) => write!(w, "{col} like ").and_then(|_| Ok(f(ex, values, pls, w))),
+            // The empty conjunction holds, and nothing is in the empty set
+            AllOf(conds) if conds.is_empty() => write!(w, "TRUE"),
+            In(_, vals) if vals.is_empty() => write!(w, "FALSE"),
             AllOf(conds) => {
                 write!(w, "(").unwrap();
                 let mut remaining = conds.len();
-- 
2.43.0


From 4a39c86c9ad955f251d63793b9ce9f8e23d6c713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:29 +0000
Subject: [PATCH 03/25] fix: quote reserved words used as column names in
 conditions

---
 butane_core/src/db/helper.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index c44276d..13ef0da 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -55,18 +55,27 @@ where
         Condition(c) => match *c {
             True => write!(w, "TRUE"),
             Eq(col, ex) => match ex {
-                Expr::Val(SqlVal::Null) => write!(w, "{col} IS NULL"),
-                _ => write!(w, "{col} = ").and_then(|_| Ok(f(ex, values, pls, w))),
+                Expr::Val(SqlVal::Null) => write!(w, "{} IS NULL", quote_reserved_word(col)),
+                _ => write!(w, "{} = ", quote_reserved_word(col))
+                    .and_then(|_| Ok(f(ex, values, pls, w))),
             },
             Ne(col, ex) => match ex {
-                Expr::Val(SqlVal::Null) => write!(w, "{col} IS NOT NULL"),
-                _ => write!(w, "{col} <> ").and_then(|_| Ok(f(ex, values, pls, w))),
+                Expr::Val(SqlVal::Null) => write!(w, "{} IS NOT NULL", quote_reserved_word(col)),
+                _ => write!(w, "{} <> ", quote_reserved_word(col))
+                    .and_then(|_| Ok(f(ex, values, pls, w))),
             },
-            Lt(col, ex) => write!(w, "{col} < ").and_then(|_| Ok(f(ex, values, pls, w))),
-            Gt(col, ex) => write!(w, "{col} > ").and_then(|_| Ok(f(ex, values, pls, w))),
-            Le(col, ex) => write!(w, "{col} <= ").and_then(|_| Ok(f(ex, values, pls, w))),
-            Ge(col, ex) => write!(w, "{col} >= ").and_then(|_| Ok(f(ex, values, pls, w))),
-            Like(col, ex) => write!(w, "{col} like ").and_then(|_| Ok(f(ex, values, pls, w))),
+            Lt(col, ex) => {
+                write!(w, "{} < ", quote_reserved_word(col)).and_then(|_| Ok(f(ex, values, pls, w)))
+            }
+            Gt(col, ex) => {
+                write!(w, "{} > ", quote_reserved_word(col)).and_then(|_| Ok(f(ex, values, pls, w)))
+            }
+            Le(col, ex) => write!(w, "{} <= ", quote_reserved_word(col))
+                .and_then(|_| Ok(f(ex, values, pls, w))),
+            Ge(col, ex) => write!(w, "{} >= ", quote_reserved_word(col))
+                .and_then(|_| Ok(f(ex, values, pls, w))),
+            Like(col, ex) => write!(w, "{} like ", quote_reserved_word(col))
+                .and_then(|_| Ok(f(ex, values, pls, w))),
             // The empty conjunction holds, and nothing is in the empty set
             AllOf(conds) if conds.is_empty() => write!(w, "TRUE"),
             In(_, vals) if vals.is_empty() => write!(w, "FALSE"),
@@ -301,7 +310,7 @@ pub(crate) fn sql_column(col: query::Column, w: &mut impl Write) {
             quote_reserved_word(table),
             quote_reserved_word(col.name())
         ),
-        None => w.write_str(col.name()),
+        None => w.write_str(&quote_reserved_word(col.name())),
     }
     .unwrap()
 }
-- 
2.43.0


From 9ac35bf0f92661a7854f8f59fd55763ace462606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:48 +0000
Subject: [PATCH 04/25] fix: number PostgreSQL placeholders past 127 without
 overflow

---
 butane_core/src/db/pg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index ce1accb..1f52495 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -935,7 +935,7 @@ fn pgtype_for_val(val: &SqlVal) -> postgres::types::Type {
 
 #[derive(Debug)]
 struct PgPlaceholderSource {
-    n: i8,
+    n: usize,
 }
 impl PgPlaceholderSource {
     fn new() -> Self {
-- 
2.43.0


From 627be599c60901f130acd3bfc9cef1f93b65ddd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:41 +0000
Subject: [PATCH 05/25] fix: quote a reserved word used as key column in
 RETURNING

---
 butane_core/src/db/pg.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index 1f52495..2655d3e 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -241,7 +241,12 @@ where
             &mut PgPlaceholderSource::new(),
             &mut sql,
         );
-        write!(&mut sql, " RETURNING {}", pkcol.name()).unwrap();
+        write!(
+            &mut sql,
+            " RETURNING {}",
+            helper::quote_reserved_word(pkcol.name())
+        )
+        .unwrap();
         if cfg!(feature = "log") {
             debug!("insert sql {sql}");
         }
-- 
2.43.0


From 50ad2cc7efba0f78870ae5585b9ce1410a28911b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:44 +0000
Subject: [PATCH 06/25] fix: separate the joins of a subquery by a space

---
 butane_core/src/db/helper.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index 13ef0da..b8355b6 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -285,6 +285,7 @@ pub fn list_columns(columns: &[Column], w: &mut impl Write) {
 }
 
 pub(crate) fn sql_joins(joins: Vec<Join>, w: &mut impl Write) {
+    let mut sep = "";
     for join in joins {
         match join {
             Join::Inner {
@@ -293,12 +294,18 @@ pub(crate) fn sql_joins(joins: Vec<Join>, w: &mut impl Write) {
                 col2,
             } => {
                 // INNER JOIN <join_table> ON <col1> = <col2>
-                write!(w, "INNER JOIN {} ON ", quote_reserved_word(join_table)).unwrap();
+                write!(
+                    w,
+                    "{sep}INNER JOIN {} ON ",
+                    quote_reserved_word(join_table)
+                )
+                .unwrap();
                 sql_column(col1, w);
                 w.write_str(" = ").unwrap();
                 sql_column(col2, w);
             }
         }
+        sep = " ";
     }
 }
 
-- 
2.43.0


From 5ae21dac4e2694bd66803e7bda5fedf6adfd6862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:12 +0000
Subject: [PATCH 07/25] verification hook: expose private Turso conversions
 under cfg(butane_verif)

---
 butane_core/src/db/turso.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 38635c5..1cbb6af 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -1235,3 +1235,32 @@ impl helper::PlaceholderSource for TursoPlaceholderSource {
         Cow::Borrowed("?")
     }
 }
+
+/// Access to private functions for external verification.
+#[cfg(butane_verif)]
+pub mod verif {
+    use super::*;
+
+    /// The condition generated for `expr` and the values bound to its placeholders.
+    pub fn where_sql(expr: BoolExpr) -> (String, Vec<SqlVal>) {
+        let mut sql = String::new();
+        let mut values = Vec::new();
+        sql_for_expr(
+            query::Expr::Condition(Box::new(expr)),
+            &mut values,
+            &mut TursoPlaceholderSource::new(),
+            &mut sql,
+        );
+        (sql, values)
+    }
+
+    /// A database value as stored by Turso.
+    pub fn to_turso(val: &SqlValRef<'_>) -> turso::Value {
+        sqlval_to_turso(val)
+    }
+
+    /// A value stored by Turso as a database value of a given type.
+    pub fn from_turso(val: &turso::Value, ty: &SqlType) -> Result<SqlVal> {
+        turso_value_to_sqlval_typed(val, ty)
+    }
+}
-- 
2.43.0


From 8c7176ac418d0862b1ccbbbec493d17e8be8c537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:42 +0000
Subject: [PATCH 08/25] fix: current() of buffered rows is the row last
 returned by next()

---
 butane_core/src/db/connmethods.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/db/connmethods.rs b/butane_core/src/db/connmethods.rs
index 597b128..e1cbc6b 100644
--- a/butane_core/src/db/connmethods.rs
+++ b/butane_core/src/db/connmethods.rs
@@ -182,7 +182,8 @@ where
     }
 
     fn current(&self) -> Option<&dyn BackendRow> {
-        self.rows.get(self.idx).map(|row| row as &dyn BackendRow)
+        let last = self.idx.checked_sub(1)?;
+        self.rows.get(last).map(|row| row as &dyn BackendRow)
     }
 }
 
-- 
2.43.0


From dcb718b5fe3b5dd0442ab445024c3396f20d007a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:56 +0000
Subject: [PATCH 09/25] fix: a database value that does not fit the Rust type
 is a conversion error

---
 butane_core/src/sqlval.rs | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/butane_core/src/sqlval.rs b/butane_core/src/sqlval.rs
index 2047b4c..c216ecc 100644
--- a/butane_core/src/sqlval.rs
+++ b/butane_core/src/sqlval.rs
@@ -368,14 +368,16 @@ macro_rules! impl_basic_from_sql {
         impl FromSql for $prim {
             fn from_sql_ref(valref: SqlValRef) -> Result<Self> {
                 if let SqlValRef::$variant(val) = valref {
-                    Ok(val as $prim)
+                    <$prim>::try_from(val)
+                        .map_err(|_| CannotConvertSqlVal(SqlType::$sqltype, val.into()))
                 } else {
                     sql_conv_err!(valref, $sqltype)
                 }
             }
             fn from_sql(val: SqlVal) -> Result<Self> {
                 if let SqlVal::$variant(val) = val {
-                    Ok(val as $prim)
+                    <$prim>::try_from(val)
+                        .map_err(|_| CannotConvertSqlVal(SqlType::$sqltype, val.into()))
                 } else {
                     sql_conv_err!(val, $sqltype)
                 }
@@ -390,6 +392,12 @@ macro_rules! impl_prim_sql {
     };
     ($prim:ty, $variant:ident, $sqltype:ident, $reftype: ty) => {
         impl_basic_from_sql!($prim, $variant, $sqltype);
+        impl_prim_to_sql!($prim, $variant, $sqltype, $reftype);
+    };
+}
+
+macro_rules! impl_prim_to_sql {
+    ($prim:ty, $variant:ident, $sqltype:ident, $reftype: ty) => {
         impl ToSql for $prim {
             fn to_sql(&self) -> SqlVal {
                 self.clone().into_sql()
@@ -420,7 +428,16 @@ impl_prim_sql!(i16, Int, Int);
 impl_prim_sql!(u8, Int, Int);
 impl_prim_sql!(i8, Int, Int);
 impl_prim_sql!(f64, Real, Real);
-impl_prim_sql!(f32, Real, Real);
+// The nearest f32 stands for a f64
+impl FromSql for f32 {
+    fn from_sql_ref(valref: SqlValRef) -> Result<Self> {
+        Ok(f64::from_sql_ref(valref)? as f32)
+    }
+    fn from_sql(val: SqlVal) -> Result<Self> {
+        Ok(f64::from_sql(val)? as f32)
+    }
+}
+impl_prim_to_sql!(f32, Real, Real, f32);
 
 impl FromSql for String {
     fn from_sql_ref(valref: SqlValRef) -> Result<Self> {
@@ -546,10 +563,11 @@ where
 {
     fn from_sql_ref(val: SqlValRef) -> Result<Self> {
         if let SqlValRef::Json(serde_json::Value::Object(m)) = val {
-            return Ok(m
+            return m
                 .iter()
-                .map(|(k, v)| (k.to_owned(), T::deserialize(v).unwrap()))
-                .collect::<HashMap<String, T>>());
+                .map(|(k, v)| Ok((k.to_owned(), T::deserialize(v)?)))
+                .collect::<serde_json::Result<HashMap<String, T>>>()
+                .map_err(|_| CannotConvertSqlVal(SqlType::Json, SqlVal::Json(m.into())));
         }
         sql_conv_err!(val, Json)
     }
@@ -585,10 +603,11 @@ where
 {
     fn from_sql_ref(val: SqlValRef) -> Result<Self> {
         if let SqlValRef::Json(serde_json::Value::Object(m)) = val {
-            return Ok(m
+            return m
                 .iter()
-                .map(|(k, v)| (k.to_owned(), T::deserialize(v).unwrap()))
-                .collect::<BTreeMap<String, T>>());
+                .map(|(k, v)| Ok((k.to_owned(), T::deserialize(v)?)))
+                .collect::<serde_json::Result<BTreeMap<String, T>>>()
+                .map_err(|_| CannotConvertSqlVal(SqlType::Json, SqlVal::Json(m.into())));
         }
         sql_conv_err!(val, Json)
     }
-- 
2.43.0


From c4f9ade08ce9860a7adabf271db755aab0cf51aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:56 +0000
Subject: [PATCH 10/25] fix: an integer outside the column type's range is an
 error, not truncated

---
 butane_core/src/db/sqlite.rs | 8 +++++++-
 butane_core/src/db/turso.rs  | 5 ++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/butane_core/src/db/sqlite.rs b/butane_core/src/db/sqlite.rs
index ec0c987..d8a3dc6 100644
--- a/butane_core/src/db/sqlite.rs
+++ b/butane_core/src/db/sqlite.rs
@@ -637,7 +637,13 @@ fn sql_valref_from_rusqlite<'a>(
     }
     Ok(match ty {
         SqlType::Bool => SqlValRef::Bool(val.as_i64()? != 0),
-        SqlType::Int => SqlValRef::Int(val.as_i64()? as i32),
+        SqlType::Int => {
+            let i = val.as_i64()?;
+            SqlValRef::Int(
+                i32::try_from(i)
+                    .map_err(|_| Error::CannotConvertSqlVal(SqlType::Int, SqlVal::BigInt(i)))?,
+            )
+        }
         SqlType::BigInt => SqlValRef::BigInt(val.as_i64()?),
         SqlType::Real => SqlValRef::Real(val.as_f64()?),
         SqlType::Text => SqlValRef::Text(val.as_str()?),
diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 1cbb6af..28919e5 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -807,7 +807,10 @@ fn turso_value_to_sqlval_typed(val: &turso::Value, ty: &SqlType) -> Result<SqlVa
                     )))
                 }
             };
-            SqlVal::Int(i as i32)
+            SqlVal::Int(
+                i32::try_from(i)
+                    .map_err(|_| Error::CannotConvertSqlVal(SqlType::Int, SqlVal::BigInt(i)))?,
+            )
         }
         SqlType::BigInt => {
             let i = match val {
-- 
2.43.0


From 17d08eb2dafc423f4f979d5f0514375c0c342d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:58 +0000
Subject: [PATCH 11/25] fix: removing from a many-to-many relation only touches
 its own owner's links, and a failing save loses no pending change

---
 butane_core/src/many.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/butane_core/src/many.rs b/butane_core/src/many.rs
index 17de3bd..9e99908 100644
--- a/butane_core/src/many.rs
+++ b/butane_core/src/many.rs
@@ -246,25 +246,28 @@ pub trait ManyOps<T: DataObject> {
 impl<T: DataObject> ManyOps<T> for Many<T> {
     async fn save(&mut self, conn: &impl ConnectionMethods) -> Result<()> {
         let owner = self.owner.as_ref().ok_or(Error::NotInitialized)?;
-        while !self.new_values.is_empty() {
+        // Pending changes are only forgotten once the statement performing them has succeeded.
+        while let Some(has) = self.new_values.last() {
             conn.insert_only(
                 &self.item_table,
                 &self.columns(),
-                &[
-                    owner.as_ref(),
-                    self.new_values.pop().unwrap().as_ref().clone(),
-                ],
+                &[owner.as_ref(), has.as_ref()],
             )
             .await?;
+            self.new_values.pop();
         }
         if !self.removed_values.is_empty() {
+            // The table holds the links of every owner, so restrict the removal to our own.
             conn.delete_where(
                 &self.item_table,
-                BoolExpr::In("has", std::mem::take(&mut self.removed_values)),
+                BoolExpr::And(
+                    Box::new(BoolExpr::Eq("owner", Expr::Val(owner.clone()))),
+                    Box::new(BoolExpr::In("has", self.removed_values.clone())),
+                ),
             )
             .await?;
+            self.removed_values.clear();
         }
-        self.new_values.clear();
         Ok(())
     }
 
-- 
2.43.0


From 2948014537785f11328346f4c42196a48326550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:39 +0000
Subject: [PATCH 12/25] fix: threads storing the same foreign key at once no
 longer panic

---
 butane_core/src/fkey.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/butane_core/src/fkey.rs b/butane_core/src/fkey.rs
index 532cac4..23bf1dc 100644
--- a/butane_core/src/fkey.rs
+++ b/butane_core/src/fkey.rs
@@ -80,14 +80,11 @@ impl<T: DataObject> ForeignKey<T> {
     }
 
     fn ensure_valpk(&self) -> &SqlVal {
-        match self.valpk.get() {
-            Some(sqlval) => return sqlval,
-            None => match self.val.get() {
-                Some(val) => self.valpk.set(val.pk().to_sql()).unwrap(),
-                None => panic!("Invalid foreign key state"),
-            },
-        }
-        self.valpk.get().unwrap()
+        // Other threads may be doing the same
+        self.valpk.get_or_init(|| match self.val.get() {
+            Some(val) => val.pk().to_sql(),
+            None => panic!("Invalid foreign key state"),
+        })
     }
 }
 
-- 
2.43.0


From fdffff0919124c9c5beb3602f5d9090ec750241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:58 +0000
Subject: [PATCH 13/25] fix: undoing migrations reports a predecessor that
 cannot be read instead of stopping silently

---
 butane_core/src/migrations/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_core/src/migrations/mod.rs b/butane_core/src/migrations/mod.rs
index 87fe3c5..782a265 100644
--- a/butane_core/src/migrations/mod.rs
+++ b/butane_core/src/migrations/mod.rs
@@ -147,7 +147,7 @@ pub trait Migrations: Clone {
         };
         migration.downgrade(connection)?;
 
-        while let Ok(Some(migration_name)) = migration.migration_from() {
+        while let Some(migration_name) = migration.migration_from()? {
             migration = self
                 .get_migration(&migration_name)
                 .ok_or(Error::MigrationError("Migration not in chain".to_string()))?;
-- 
2.43.0


From d060b23a3106ca015eaef4c8e43a2f68932e1561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:55 +0000
Subject: [PATCH 14/25] fix: Turso's has_table no longer ends the transaction
 it is called in

---
 butane_core/src/db/turso.rs | 38 +++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 28919e5..17c25cc 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -274,18 +274,14 @@ impl TursoConnection {
             .map(|v| sqlval_to_turso(&v.as_ref()))
             .collect();
 
-        let mut rows = self
+        let rows = self
             .conn()?
             .query(sql, params)
             .await
             .map_err(|e| Error::Internal(e.to_string()))?;
 
         let mut result_values = Vec::new();
-        while let Some(row) = rows
-            .next()
-            .await
-            .map_err(|e| Error::Internal(e.to_string()))?
-        {
+        for row in read_to_end(rows).await? {
             let val = row
                 .get_value(0)
                 .map_err(|e| Error::Internal(e.to_string()))?;
@@ -388,7 +384,7 @@ impl ConnectionMethods for TursoConnection {
             .iter()
             .map(|v| sqlval_to_turso(&v.as_ref()))
             .collect();
-        let mut rows = self
+        let rows = self
             .conn()?
             .query(&sqlquery, params)
             .await
@@ -396,11 +392,7 @@ impl ConnectionMethods for TursoConnection {
 
         // Collect all rows into a Vec to avoid lifetime issues
         let mut vec_rows = Vec::new();
-        while let Some(row) = rows
-            .next()
-            .await
-            .map_err(|e| Error::Internal(e.to_string()))?
-        {
+        for row in read_to_end(rows).await? {
             // Convert turso row to VecRow
             let mut values = Vec::new();
             for (i, col) in columns.iter().enumerate() {
@@ -568,16 +560,12 @@ impl ConnectionMethods for TursoConnection {
     async fn has_table(&self, table: &str) -> Result<bool> {
         let sql = "SELECT name FROM sqlite_master WHERE type='table' AND name=?";
         let params = vec![turso::Value::Text(table.to_string())];
-        let mut rows = self
+        let rows = self
             .conn()?
             .query(sql, params)
             .await
             .map_err(|e| Error::Internal(e.to_string()))?;
-        Ok(rows
-            .next()
-            .await
-            .map_err(|e| Error::Internal(e.to_string()))?
-            .is_some())
+        Ok(!read_to_end(rows).await?.is_empty())
     }
 }
 
@@ -751,6 +739,20 @@ impl<'c> Drop for TursoTransaction<'c> {
     }
 }
 
+/// Read all the rows. Turso ends an open transaction when rows are dropped
+/// before they have been read to the end.
+async fn read_to_end(mut rows: turso::Rows) -> Result<Vec<turso::Row>> {
+    let mut result = Vec::new();
+    while let Some(row) = rows
+        .next()
+        .await
+        .map_err(|e| Error::Internal(e.to_string()))?
+    {
+        result.push(row);
+    }
+    Ok(result)
+}
+
 // Value conversion functions
 fn sqlval_to_turso(val: &SqlValRef<'_>) -> turso::Value {
     use SqlValRef::*;
-- 
2.43.0


From 88e9509c8e0de99f95ec5606922abd9efbd2b4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:55 +0000
Subject: [PATCH 15/25] fix: unfinished and uncommittable Turso transactions
 are rolled back

---
 butane_core/src/db/turso.rs | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 17c25cc..8586ef1 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -698,7 +698,13 @@ impl<'c> ConnectionMethods for TursoTransaction<'c> {
 impl<'c> BackendTransaction<'c> for TursoTransaction<'c> {
     async fn commit(&mut self) -> Result<()> {
         let conn = self.conn.take().ok_or_else(Self::already_consumed)?;
-        conn.execute("COMMIT").await?;
+        if let Err(e) = conn.execute("COMMIT").await {
+            // The database keeps a transaction it could not commit open.
+            if let Err(e) = conn.execute("ROLLBACK").await {
+                crate::warn!("Rollback after failed commit failed: {e}");
+            }
+            return Err(e);
+        }
         self.committed = true;
         Ok(())
     }
@@ -719,20 +725,22 @@ impl<'c> Drop for TursoTransaction<'c> {
         if let Some(conn) = self.conn.take() {
             if !self.committed {
                 // If transaction was not committed or rolled back, roll it back
-                // Use block_in_place to execute async rollback in a sync Drop context
-                if tokio::runtime::Handle::try_current().is_ok() {
-                    let conn_clone = conn.conn.clone();
-                    let _ = tokio::task::block_in_place(|| {
-                        tokio::runtime::Handle::current().block_on(async move {
-                            conn_clone
-                                .execute("ROLLBACK", Vec::<turso::Value>::new())
-                                .await
+                // The rollback is async, and there may be no tokio runtime here
+                // or one which may not be blocked, so it gets a runtime of its own.
+                let conn = &conn.conn;
+                let result = std::thread::scope(|scope| {
+                    scope
+                        .spawn(|| {
+                            tokio::runtime::Builder::new_current_thread()
+                                .build()
+                                .map_err(|e| e.to_string())?
+                                .block_on(conn.execute("ROLLBACK", Vec::<turso::Value>::new()))
+                                .map_err(|e| e.to_string())
                         })
-                    });
-                } else {
-                    eprintln!(
-                        "Warning: TursoTransaction dropped without commit or rollback and no tokio runtime available"
-                    );
+                        .join()
+                });
+                if !matches!(result, Ok(Ok(_))) {
+                    crate::warn!("Rollback of dropped transaction failed: {result:?}");
                 }
             }
         }
-- 
2.43.0


From 4bf5e8f6630dc1020c4287b7c4a321079f45b565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:31 +0000
Subject: [PATCH 16/25] fix: SQL literals for text, JSON and dates denote the
 value whatever it contains

Quotes inside text were not doubled, JSON was not quoted, dates were quoted twice and
timestamps written in a format the SQLite backends do not read back. Infinite and NaN
numbers and text containing NUL, which have no literal, are refused.
---
 butane_core/src/db/helper.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index b8355b6..1ebfc93 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -322,6 +322,12 @@ pub(crate) fn sql_column(col: query::Column, w: &mut impl Write) {
     .unwrap()
 }
 
+/// The string literal for `text`: every quote inside it is doubled.
+fn sql_quoted(text: &str) -> String {
+    format!("'{}'", text.replace('\'', "''"))
+}
+
+/// Return the SQL literal denoting `val`.
 pub fn sql_literal_value(val: &SqlVal) -> Result<String> {
     use SqlVal::*;
     match val {
@@ -329,15 +335,20 @@ pub fn sql_literal_value(val: &SqlVal) -> Result<String> {
         SqlVal::Bool(val) => Ok(val.to_string()),
         Int(val) => Ok(val.to_string()),
         BigInt(val) => Ok(val.to_string()),
+        // There is no literal for infinities and NaN, nor for text containing the NUL character.
+        Real(num) if !num.is_finite() => Err(Error::CannotConvertSqlVal(SqlType::Real, val.clone())),
         Real(val) => Ok(val.to_string()),
-        Text(val) => Ok(format!("'{val}'")),
+        Text(text) if text.contains('\0') => {
+            Err(Error::CannotConvertSqlVal(SqlType::Text, val.clone()))
+        }
+        Text(val) => Ok(sql_quoted(val)),
         Blob(val) => Ok(format!("x'{}'", hex::encode_upper(val))),
         #[cfg(feature = "json")]
-        Json(val) => Ok(format!("{val}")),
+        Json(val) => Ok(sql_quoted(&val.to_string())),
         #[cfg(feature = "datetime")]
-        Date(val) => Ok(format!("'{}'", val.format("'%Y-%m-%d'"))),
+        Date(val) => Ok(sql_quoted(&val.format("%Y-%m-%d").to_string())),
         #[cfg(feature = "datetime")]
-        Timestamp(ndt) => Ok(ndt.format("'%Y-%m-%dT%H:%M:%S%.f'").to_string()),
+        Timestamp(ndt) => Ok(sql_quoted(&ndt.format("%Y-%m-%d %H:%M:%S%.f").to_string())),
         #[cfg(feature = "pg")]
         Custom(val) => Err(Error::LiteralForCustomUnsupported(*(*val).clone())),
     }
-- 
2.43.0


From 40fecf37441505b54336beffda3b32fdf2b2f594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:31 +0000
Subject: [PATCH 17/25] fix: binary literals on PostgreSQL are bytea rather
 than bit strings

---
 butane_core/src/db/pg.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index 2655d3e..6902243 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -744,7 +744,7 @@ fn add_column(tbl_name: &str, col: &AColumn) -> Result<String> {
         "ALTER TABLE {} ADD COLUMN {} DEFAULT {};",
         helper::quote_reserved_word(tbl_name),
         define_column(col)?,
-        helper::sql_literal_value(&default)?
+        sql_literal_value(&default)?
     )];
     if col.reference().is_some() {
         stmts.push(define_fkey_constraint(tbl_name, col));
@@ -753,6 +753,15 @@ fn add_column(tbl_name: &str, col: &AColumn) -> Result<String> {
     Ok(result)
 }
 
+/// Return the SQL literal denoting `val`.
+fn sql_literal_value(val: &SqlVal) -> Result<String> {
+    match val {
+        // x'..' is a bit string in PostgreSQL
+        SqlVal::Blob(val) => Ok(format!("'\\x{}'", hex::encode_upper(val))),
+        val => helper::sql_literal_value(val),
+    }
+}
+
 fn remove_column(tbl_name: &str, name: &str) -> String {
     format!(
         "ALTER TABLE {} DROP COLUMN {};",
@@ -847,7 +856,7 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
                 "ALTER TABLE {} ALTER COLUMN {} SET DEFAULT {};",
                 quote_reserved_word(tbl_name),
                 quote_reserved_word(old.name()),
-                helper::sql_literal_value(val)?
+                sql_literal_value(val)?
             ),
         });
     }
-- 
2.43.0


From d9cec558e0cc28d33ef7e7f38e4b1fe8b3bd7bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:31 +0000
Subject: [PATCH 18/25] fix: Turso no longer splits SQL at semicolons inside
 quotes or comments

---
 butane_core/src/db/turso.rs | 38 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 8586ef1..113075a 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -321,7 +321,7 @@ impl ConnectionMethods for TursoConnection {
         }
         // Turso doesn't have execute_batch, so we need to execute statements one by one
         // Split on semicolons and execute each statement separately
-        for statement in sql.split(';').map(str::trim).filter(|s| !s.is_empty()) {
+        for statement in split_statements(sql) {
             self.conn()?
                 .execute(statement, ())
                 .await
@@ -952,6 +952,42 @@ impl BackendRow for TursoRow {
 }
 
 // Migration SQL generation (reuse SQLite logic since Turso is compatible)
+/// The non-empty statements of `sql`. They are separated by semicolons, except those inside
+/// quotes or comments.
+fn split_statements(sql: &str) -> Vec<&str> {
+    let mut statements = Vec::new();
+    let mut start = 0;
+    // What ends the quotes or the comment we are in, and from where on
+    let mut until: Option<(&str, usize)> = None;
+    for (pos, c) in sql.char_indices() {
+        let rest = &sql[pos..];
+        match until {
+            Some((end, from)) => {
+                if pos >= from && rest.starts_with(end) {
+                    until = None;
+                }
+            }
+            None => match c {
+                '\'' => until = Some(("'", pos + 1)),
+                '"' => until = Some(("\"", pos + 1)),
+                '-' if rest.starts_with("--") => until = Some(("\n", pos + 2)),
+                '/' if rest.starts_with("/*") => until = Some(("*/", pos + 2)),
+                ';' => {
+                    statements.push(&sql[start..pos]);
+                    start = pos + 1;
+                }
+                _ => {}
+            },
+        }
+    }
+    statements.push(&sql[start..]);
+    statements
+        .into_iter()
+        .map(str::trim)
+        .filter(|s| !s.is_empty())
+        .collect()
+}
+
 fn sql_for_op(current: &mut ADB, op: &Operation) -> Result<String> {
     match op {
         Operation::AddTable(tbl) => Ok(create_table(tbl, false)),
-- 
2.43.0


From 13b5869d7edfc5a68d33c19394337a87254e279a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:41 +0000
Subject: [PATCH 19/25] fix: unique and primary key columns can be removed on
 SQLite and Turso

ALTER TABLE DROP COLUMN refuses them, so the table is recreated without them.
---
 butane_core/src/db/sqlite.rs | 5 +++--
 butane_core/src/db/turso.rs  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/butane_core/src/db/sqlite.rs b/butane_core/src/db/sqlite.rs
index d8a3dc6..6661bd4 100644
--- a/butane_core/src/db/sqlite.rs
+++ b/butane_core/src/db/sqlite.rs
@@ -811,8 +811,9 @@ fn remove_column(current: &mut ADB, tbl_name: &str, name: &str) -> Result<String
         .column(name)
         .ok_or_else(|| Error::ColumnNotFound(tbl_name.to_string(), name.to_string()))?;
     // "ALTER TABLE b DROP COLUMN fkey;" fails due to sqlite not being
-    // able to remove the attached constraint.
-    if col.reference().is_some() {
+    // able to remove the attached constraint. The same goes for a unique
+    // or primary key column.
+    if col.reference().is_some() || col.unique() || col.is_pk() {
         Ok(change_column(current, tbl_name, col, None))
     } else {
         Ok(format!(
diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 113075a..7ffe198 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -1135,7 +1135,7 @@ fn remove_column(current: &mut ADB, tbl_name: &str, name: &str) -> Result<String
     let col = table
         .column(name)
         .ok_or_else(|| Error::ColumnNotFound(tbl_name.to_string(), name.to_string()))?;
-    if col.reference().is_some() {
+    if col.reference().is_some() || col.unique() || col.is_pk() {
         Ok(change_column(current, tbl_name, col, None))
     } else {
         Ok(format!(
-- 
2.43.0


From 8ea3c9a0d6c2f0b7b3a57539b821d4a89b421680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:41 +0000
Subject: [PATCH 20/25] fix: nullable columns added to SQLite and Turso tables
 keep their reference

---
 butane_core/src/db/sqlite.rs | 12 +++++++++++-
 butane_core/src/db/turso.rs  | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/butane_core/src/db/sqlite.rs b/butane_core/src/db/sqlite.rs
index 6661bd4..4a20ae9 100644
--- a/butane_core/src/db/sqlite.rs
+++ b/butane_core/src/db/sqlite.rs
@@ -794,10 +794,20 @@ fn drop_table(name: &str) -> String {
 
 fn add_column(tbl_name: &str, col: &AColumn) -> Result<String> {
     let default: SqlVal = helper::column_default(col)?;
+    // Only a column which is NULL in all existing rows can be added together with its reference
+    let reference = match col.reference() {
+        Some(ARef::Literal(literal)) if default == SqlVal::Null => format!(
+            " REFERENCES {}({})",
+            helper::quote_reserved_word(literal.table_name()),
+            helper::quote_reserved_word(literal.column_name()),
+        ),
+        _ => String::new(),
+    };
     Ok(format!(
-        "ALTER TABLE {} ADD COLUMN {} DEFAULT {};",
+        "ALTER TABLE {} ADD COLUMN {}{} DEFAULT {};",
         helper::quote_reserved_word(tbl_name),
         define_column(col),
+        reference,
         helper::sql_literal_value(&default)?
     ))
 }
diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 7ffe198..d02a56f 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -1119,10 +1119,20 @@ fn drop_table(name: &str) -> String {
 
 fn add_column(tbl_name: &str, col: &AColumn) -> Result<String> {
     let default: SqlVal = helper::column_default(col)?;
+    // Only a column which is NULL in all existing rows can be added together with its reference
+    let reference = match col.reference() {
+        Some(ARef::Literal(literal)) if default == SqlVal::Null => format!(
+            " REFERENCES {}({})",
+            helper::quote_reserved_word(literal.table_name()),
+            helper::quote_reserved_word(literal.column_name()),
+        ),
+        _ => String::new(),
+    };
     Ok(format!(
-        "ALTER TABLE {} ADD COLUMN {} DEFAULT {};",
+        "ALTER TABLE {} ADD COLUMN {}{} DEFAULT {};",
         helper::quote_reserved_word(tbl_name),
         define_column(col),
+        reference,
         helper::sql_literal_value(&default)?
     ))
 }
-- 
2.43.0


From c8253d7ee9a7bbd9b5c8da9f20dd62c32d2cebf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:41 +0000
Subject: [PATCH 21/25] fix: PostgreSQL migrations see the effect of their
 earlier operations

A change to a column of a table the same migration creates was dropped with a warning.
---
 butane_core/src/db/pg.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index 6902243..e713ca1 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -50,8 +50,12 @@ impl Backend for PgBackend {
     fn create_migration_sql(&self, current: &ADB, ops: Vec<Operation>) -> Result<String> {
         let mut current: ADB = (*current).clone();
         let mut lines = ops
-            .iter()
-            .map(|o| sql_for_op(&mut current, o))
+            .into_iter()
+            .map(|o| {
+                let sql = sql_for_op(&mut current, &o);
+                current.transform_with(o);
+                sql
+            })
             .collect::<Result<Vec<String>>>()?;
         lines.retain(|s| !s.is_empty());
         Ok(format!("{}\n", lines.join("\n")))
-- 
2.43.0


From 9a91f10f25e2979fc81135e32fb89cbf966f083a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:41 +0000
Subject: [PATCH 22/25] fix: PostgreSQL columns with generated values can be
 added and change type

SERIAL was used as the type in SET DATA TYPE, and together with a DEFAULT.
---
 butane_core/src/db/pg.rs | 70 +++++++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 26 deletions(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index e713ca1..74505cf 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -716,40 +716,53 @@ fn col_sqltype(col: &AColumn) -> Result<Cow<'_, str>> {
                     _ => Err(Error::InvalidAuto(col.name().to_string())),
                 }
             } else {
-                Ok(match ty {
-                    SqlType::Bool => Cow::Borrowed("BOOLEAN"),
-                    SqlType::Int => Cow::Borrowed("INTEGER"),
-                    SqlType::BigInt => Cow::Borrowed("BIGINT"),
-                    SqlType::Real => Cow::Borrowed("DOUBLE PRECISION"),
-                    SqlType::Text => Cow::Borrowed("TEXT"),
-                    #[cfg(feature = "datetime")]
-                    SqlType::Date => Cow::Borrowed("DATE"),
-                    #[cfg(feature = "datetime")]
-                    SqlType::Timestamp => Cow::Borrowed("TIMESTAMP"),
-                    SqlType::Blob => Cow::Borrowed("BYTEA"),
-                    #[cfg(feature = "json")]
-                    SqlType::Json => Cow::Borrowed("JSONB"),
-                    SqlType::Custom(c) => match c {
-                        SqlTypeCustom::Pg(ref ty) => Cow::Owned(ty.name().to_string()),
-                    },
-                })
+                Ok(sqltype(ty))
             }
         }
     }
 }
 
+fn sqltype(ty: SqlType) -> Cow<'static, str> {
+    match ty {
+        SqlType::Bool => Cow::Borrowed("BOOLEAN"),
+        SqlType::Int => Cow::Borrowed("INTEGER"),
+        SqlType::BigInt => Cow::Borrowed("BIGINT"),
+        SqlType::Real => Cow::Borrowed("DOUBLE PRECISION"),
+        SqlType::Text => Cow::Borrowed("TEXT"),
+        #[cfg(feature = "datetime")]
+        SqlType::Date => Cow::Borrowed("DATE"),
+        #[cfg(feature = "datetime")]
+        SqlType::Timestamp => Cow::Borrowed("TIMESTAMP"),
+        SqlType::Blob => Cow::Borrowed("BYTEA"),
+        #[cfg(feature = "json")]
+        SqlType::Json => Cow::Borrowed("JSONB"),
+        SqlType::Custom(c) => match c {
+            SqlTypeCustom::Pg(ref ty) => Cow::Owned(ty.name().to_string()),
+        },
+    }
+}
+
 fn drop_table(name: &str) -> String {
     format!("DROP TABLE {};", helper::quote_reserved_word(name))
 }
 
 fn add_column(tbl_name: &str, col: &AColumn) -> Result<String> {
-    let default: SqlVal = helper::column_default(col)?;
-    let mut stmts = vec![format!(
-        "ALTER TABLE {} ADD COLUMN {} DEFAULT {};",
-        helper::quote_reserved_word(tbl_name),
-        define_column(col)?,
-        sql_literal_value(&default)?
-    )];
+    let mut stmts = vec![if col.is_auto() {
+        // The default is the next number of the column's sequence
+        format!(
+            "ALTER TABLE {} ADD COLUMN {};",
+            helper::quote_reserved_word(tbl_name),
+            define_column(col)?,
+        )
+    } else {
+        let default: SqlVal = helper::column_default(col)?;
+        format!(
+            "ALTER TABLE {} ADD COLUMN {} DEFAULT {};",
+            helper::quote_reserved_word(tbl_name),
+            define_column(col)?,
+            sql_literal_value(&default)?
+        )
+    }];
     if col.reference().is_some() {
         stmts.push(define_fkey_constraint(tbl_name, col));
     }
@@ -789,13 +802,18 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
             quote_reserved_word(new.name())
         ));
     }
-    if old.typeid()? != new.typeid()? {
+    let new_type = new.typeid()?;
+    if old.typeid()? != new_type {
         // column type change
         stmts.push(format!(
             "ALTER TABLE {} ALTER COLUMN {} SET DATA TYPE {};",
             quote_reserved_word(tbl_name),
             quote_reserved_word(old.name()),
-            col_sqltype(new)?,
+            // Not col_sqltype: serial is not a type
+            match new_type {
+                TypeIdentifier::Name(name) => Cow::Owned(name),
+                TypeIdentifier::Ty(ty) => sqltype(ty),
+            },
         ));
     }
     if old.nullable() != new.nullable() {
-- 
2.43.0


From 0ea454d0ca707230561c1b8f660defb8cb602cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:35 +0000
Subject: [PATCH 23/25] fix: Turso's has_table finds tables whose names have
 capitals

---
 butane_core/src/db/turso.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index d02a56f..32f8a8b 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -558,7 +558,8 @@ impl ConnectionMethods for TursoConnection {
     }
 
     async fn has_table(&self, table: &str) -> Result<bool> {
-        let sql = "SELECT name FROM sqlite_master WHERE type='table' AND name=?";
+        // Turso keeps table names in lower case.
+        let sql = "SELECT name FROM sqlite_master WHERE type='table' AND lower(name)=lower(?)";
         let params = vec![turso::Value::Text(table.to_string())];
         let rows = self
             .conn()?
-- 
2.43.0


From 703fc18190132f79931dc69360f113895ae41893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:50 +0000
Subject: [PATCH 24/25] fix: an empty migration script can be written to disk

---
 butane_core/src/migrations/fsmigrations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_core/src/migrations/fsmigrations.rs b/butane_core/src/migrations/fsmigrations.rs
index a1dc4a5..ba30c7c 100644
--- a/butane_core/src/migrations/fsmigrations.rs
+++ b/butane_core/src/migrations/fsmigrations.rs
@@ -115,7 +115,7 @@ impl FsMigration {
         self.ensure_dir()?;
         let path = self.root.join(fname);
         let mut contents: Vec<u8> = contents.into();
-        if contents[contents.len() - 1] != b'\n' {
+        if contents.last() != Some(&b'\n') {
             contents.push(b'\n');
         }
         self.fs
-- 
2.43.0


From 1f42e2db4c4e218d7fe14d57a00514584acd31b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:50 +0000
Subject: [PATCH 25/25] fix: migrations on disk register types under the lock

---
 butane_core/src/migrations/fsmigrations.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/butane_core/src/migrations/fsmigrations.rs b/butane_core/src/migrations/fsmigrations.rs
index ba30c7c..77d7c48 100644
--- a/butane_core/src/migrations/fsmigrations.rs
+++ b/butane_core/src/migrations/fsmigrations.rs
@@ -241,14 +241,17 @@ impl MigrationMut for FsMigration {
     }
 
     fn add_type(&mut self, key: TypeKey, sqltype: DeferredSqlType) -> Result<()> {
-        let _lock = self.lock_exclusive();
+        // The lock file lives in this directory.
+        self.ensure_dir()?;
+        let _lock = self.lock_exclusive()?;
         let typefile = self.root.join(TYPES_FILENAME);
 
         let mut types: SqlTypeMap = match self.fs.read(&typefile) {
             Ok(reader) => serde_json::from_reader(reader).inspect_err(|_| {
                 eprintln!("failed to read types {typefile:?}");
             })?,
-            Err(_) => BTreeMap::new(),
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => BTreeMap::new(),
+            Err(e) => return Err(e.into()),
         };
         types.insert(key, sqltype);
         self.write_contents(
-- 
2.43.0

