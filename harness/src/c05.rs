//! C05: values stored through SQLite (and Turso) and read back; stored cells read as other types.
use crate::c04::{edge_i64, sqlval, text};
use crate::check;
use crate::common::*;
use butane_core::db::{Column, Connection, ConnectionMethods};
use butane_core::migrations::adb::*;
use butane_core::query::BoolExpr;
use butane_core::{SqlType, SqlVal, SqlValRef};

fn ty_of(k: usize) -> SqlType {
    match k {
        1 => SqlType::Bool,
        2 => SqlType::Int,
        3 => SqlType::BigInt,
        4 => SqlType::Real,
        5 => SqlType::Text,
        6 => SqlType::Blob,
        7 => SqlType::Json,
        8 => SqlType::Date,
        _ => SqlType::Timestamp,
    }
}
pub fn same(a: &SqlVal, b: &SqlVal) -> bool {
    match (a, b) {
        (SqlVal::Real(x), SqlVal::Real(y)) => x == y || x.is_nan() && y.is_nan(),
        _ => a == b,
    }
}
fn json_close(a: &serde_json::Value, b: &serde_json::Value) -> bool {
    use serde_json::Value as J;
    match (a, b) {
        (J::Number(x), J::Number(y)) => x == y || (x.is_f64() && y.is_f64() && (x.as_f64().unwrap().to_bits() as i128 - y.as_f64().unwrap().to_bits() as i128).abs() <= 2),
        (J::Array(x), J::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| json_close(a, b)),
        (J::Object(x), J::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| json_close(v, w))),
        _ => a == b,
    }
}
thread_local! { static SOFT: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) }; }
fn cmp(who: &str, v: &SqlVal, want: &SqlVal, got: &SqlVal) -> Result<(), Fail> {
    if same(want, got) {
        return Ok(());
    }
    if let (SqlVal::Json(a), SqlVal::Json(b)) = (want, got) {
        if json_close(a, b) {
            SOFT.with(|s| *s.borrow_mut() = Some(format!("{who}: {v:?} read back as {got:?}")));
            return Ok(());
        }
    }
    fail("stored-value", format!("{who}: stored {v:?}, read back {got:?}"))
}
fn value(r: &mut Rng, k: usize) -> SqlVal {
    if r.chance(1, 8) {
        return SqlVal::Null;
    }
    if k == 7 && r.chance(1, 3) {
        return SqlVal::Json(serde_json::json!({ text(r): f64::from_bits(r.next()), "f": r.below(1 << 30) as f64 / 1e7 }));
    }
    if k == 8 || k == 9 {
        if r.chance(1, 4) {
            let d = chrono::NaiveDate::from_ymd_opt(*r.pick(&[-262143, -10000, -1, 0, 1, 999, 9999, 10000, 262142]), 1 + r.below(12) as u32, 1 + r.below(28) as u32).unwrap();
            return if k == 8 { SqlVal::Date(d) } else { SqlVal::Timestamp(d.and_hms_nano_opt(23, 59, 59, *r.pick(&[0, 1, 999_999_999, 1_000_000_000, 1_999_999_999, 120_000_000])).unwrap()) };
        }
    }
    sqlval(r, k)
}
pub fn schema() -> ADB {
    let mut t = ATable::new("vals".into());
    t.add_column(AColumn::new("id", DeferredSqlType::KnownId(TypeIdentifier::Ty(SqlType::BigInt)), false, true, false, false, None, None));
    for k in 1..10 {
        t.add_column(AColumn::new(format!("c{k}"), DeferredSqlType::KnownId(TypeIdentifier::Ty(ty_of(k))), true, false, false, false, None, None));
    }
    let mut a = ADB::new();
    a.replace_table(t);
    a
}
const COLS: [&str; 10] = ["id", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9"];
/// the meaning of a stored cell in a column, written independently of the code: None = error
fn meaning(cell: &rusqlite::types::Value, k: usize) -> Option<SqlVal> {
    use rusqlite::types::Value as V;
    Some(match (cell, k) {
        (V::Null, _) => SqlVal::Null,
        (V::Integer(i), 1) => SqlVal::Bool(*i != 0),
        (V::Integer(i), 2) => SqlVal::Int(i32::try_from(*i).ok()?),
        (V::Integer(i), 3) => SqlVal::BigInt(*i),
        (V::Real(r), 4) => SqlVal::Real(*r),
        (V::Text(t), 5) => SqlVal::Text(t.clone()),
        (V::Blob(b), 6) => SqlVal::Blob(b.clone()),
        (V::Text(t), 7) => SqlVal::Json(serde_json::from_str(t).ok()?),
        (V::Text(t), 8) => SqlVal::Date(t.parse().ok()?),
        (V::Text(t), 9) => SqlVal::Timestamp(chrono::NaiveDateTime::parse_from_str(t, "%Y-%m-%d %H:%M:%S%.f").ok()?),
        _ => return None,
    })
}
fn cell(r: &mut Rng) -> rusqlite::types::Value {
    use rusqlite::types::Value as V;
    match r.below(5) {
        0 => V::Null,
        1 => V::Integer(edge_i64(r)),
        2 => V::Real(*r.pick(&[0.0, 1.0, 1.5, -3.0, 1e300])),
        3 => V::Text(match r.below(6) {
            0 => "2024-02-30".into(),
            1 => "2024-02-29".into(),
            2 => "2024-02-29 10:11:12".into(),
            3 => "{\"a\":1}".into(),
            4 => "17".into(),
            _ => text(r),
        }),
        _ => V::Blob((0..r.below(5)).map(|_| r.next() as u8).collect()),
    }
}
pub struct C05 {
    db: Option<Connection>,
    #[cfg(feature = "turso")]
    tu: Option<(tokio::runtime::Runtime, butane_core::db::ConnectionAsync)>,
    n: i64,
}
fn err<T>(e: impl std::fmt::Display, what: &str) -> Result<T, Fail> {
    fail("db-error", format!("{what}: {e}"))
}
impl C05 {
    fn row(&mut self, r: &mut Rng) -> Vec<SqlVal> {
        self.n += 1;
        let mut v = vec![SqlVal::BigInt(self.n)];
        v.extend((1..10).map(|k| value(r, k)));
        v
    }
    fn sqlite(&mut self, r: &mut Rng) -> Result<(), Fail> {
        if self.db.is_none() {
            let c = butane_core::db::connect(&butane_core::db::ConnectionSpec::new("sqlite", ":memory:")).unwrap();
            let sql = butane_core::db::get_backend("sqlite").unwrap().create_migration_sql(&ADB::new(), diff(&ADB::new(), &schema())).unwrap();
            ConnectionMethods::execute(&c, &sql).unwrap();
            ConnectionMethods::execute(&c, "CREATE TABLE raw (c)").unwrap();
            self.db = Some(c);
        }
        let row = self.row(r);
        let how = r.below(3);
        let db = self.db.as_ref().unwrap();
        let cols: Vec<Column> = COLS.iter().enumerate().map(|(i, c)| Column::new(c, if i == 0 { SqlType::BigInt } else { ty_of(i) })).collect();
        let refs: Vec<SqlValRef> = row.iter().map(|v| v.as_ref()).collect();
        match how {
            0 => db.insert_only("vals", &cols, &refs),
            1 => db.insert_or_replace("vals", &cols, &cols[0], &refs),
            _ => db.insert_only("vals", &cols[..1], &refs[..1]).and_then(|_| db.update("vals", cols[0].clone(), refs[0].clone(), &cols[1..], &refs[1..])),
        }
        .or_else(|e| err(e, &format!("storing {row:?} in SQLite")))?;
        let mut q = db.query("vals", &cols, Some(BoolExpr::Eq("id", butane_core::query::Expr::Val(row[0].clone()))), None, None, None).or_else(|e| err(e, "query"))?;
        let Some(b) = q.next().or_else(|e| err(e, "next"))? else { return fail("stored-value", format!("row of {row:?} not found")) };
        for k in 1..10 {
            let got: SqlVal = match b.get(k, ty_of(k)) {
                Ok(v) => v.into(),
                Err(e) => return fail("stored-value", format!("SQLite: reading back {:?}: {e}", row[k])),
            };
            // SQLite has no NaN
            let want = if matches!(row[k], SqlVal::Real(x) if x.is_nan()) { SqlVal::Null } else { row[k].clone() };
            cmp("SQLite", &row[k], &want, &got)?;
        }
        Ok(())
    }
    fn foreign(&mut self, r: &mut Rng) -> Result<(), Fail> {
        if self.db.is_none() {
            return Ok(());
        }
        let c = cell(r);
        let k = 1 + r.below(9);
        // a rusqlite connection of our own, read through butane's row type
        let conn = rusqlite::Connection::open_in_memory().unwrap();
        let mut st = conn.prepare("SELECT ?").unwrap();
        let mut rows = st.query([c.clone()]).unwrap();
        let row = rows.next().unwrap().unwrap();
        let got: Option<SqlVal> = butane_core::db::BackendRow::get(row, 0, ty_of(k)).ok().map(|v| v.into());
        let want = meaning(&c, k);
        check!(got == want, "foreign-cell", "SQLite cell {c:?} read as {:?} gives {got:?}, expected {want:?}", ty_of(k));
        check!(butane_core::db::BackendRow::get(row, 0, SqlType::Custom(butane_core::custom::SqlTypeCustom::Pg(tokio_postgres::types::Type::POINT))).is_err() || matches!(c, rusqlite::types::Value::Null), "foreign-cell", "custom type read from SQLite");
        #[cfg(feature = "turso")]
        {
            use rusqlite::types::Value as V;
            use turso::Value as T;
            let t = match &c {
                V::Null => T::Null,
                V::Integer(i) => T::Integer(*i),
                V::Real(x) => T::Real(*x),
                V::Text(x) => T::Text(x.clone()),
                V::Blob(x) => T::Blob(x.clone()),
            };
            let got = butane_core::db::turso::verif::from_turso(&t, &ty_of(k)).ok();
            check!(got == want, "foreign-cell", "Turso cell {c:?} read as {:?} gives {got:?}, expected {want:?}", ty_of(k));
        }
        Ok(())
    }
    #[cfg(feature = "turso")]
    fn turso(&mut self, r: &mut Rng) -> Result<(), Fail> {
        if self.tu.is_none() {
            let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
            let c = rt.block_on(butane_core::db::connect_async(&butane_core::db::ConnectionSpec::new("turso", ":memory:"))).unwrap();
            let sql = butane_core::db::get_backend("turso").unwrap().create_migration_sql(&ADB::new(), diff(&ADB::new(), &schema())).unwrap();
            rt.block_on(butane_core::db::ConnectionMethodsAsync::execute(&c, &sql)).unwrap();
            self.tu = Some((rt, c));
        }
        let row = self.row(r);
        let how = r.below(2);
        let (rt, db) = self.tu.as_ref().unwrap();
        use butane_core::db::ConnectionMethodsAsync as CM;
        let cols: Vec<Column> = COLS.iter().enumerate().map(|(i, c)| Column::new(c, if i == 0 { SqlType::BigInt } else { ty_of(i) })).collect();
        let refs: Vec<SqlValRef> = row.iter().map(|v| v.as_ref()).collect();
        rt.block_on(async {
            match how {
                0 => CM::insert_only(db, "vals", &cols, &refs).await,
                _ => {
                    CM::insert_only(db, "vals", &cols[..1], &refs[..1]).await?;
                    CM::update(db, "vals", cols[0].clone(), refs[0].clone(), &cols[1..], &refs[1..]).await
                }
            }
        })
        .or_else(|e| err(e, &format!("storing {row:?} in Turso")))?;
        let mut q = match rt.block_on(CM::query(db, "vals", &cols, Some(BoolExpr::Eq("id", butane_core::query::Expr::Val(row[0].clone()))), None, None, None)) {
            Ok(q) => q,
            Err(e) => return fail("stored-value", format!("Turso: reading back {row:?}: {e}")),
        };
        let Some(b) = q.next().or_else(|e| err(e, "next"))? else { return fail("stored-value", format!("row of {row:?} not found on Turso")) };
        for k in 1..10 {
            let got: SqlVal = match b.get(k, ty_of(k)) {
                Ok(v) => v.into(),
                Err(e) => return fail("stored-value", format!("Turso: reading back {:?}: {e}", row[k])),
            };
            let want = if got == SqlVal::Null && matches!(row[k], SqlVal::Real(x) if x.is_nan()) { SqlVal::Null } else { row[k].clone() };
            cmp("Turso", &row[k], &want, &got)?;
        }
        Ok(())
    }
    fn case(&mut self, c: Case, _x: &Ctx) -> R {
        let seed = match c {
            Case::Enum(i) => i as u64 + 1000,
            Case::Rand(s) => s,
        };
        let mut r = Rng::new(seed);
        pg(&mut Rng::new(seed ^ 0x9e37))?;
        self.sqlite(&mut r)?;
        for _ in 0..4 {
            self.foreign(&mut r)?;
        }
        #[cfg(feature = "turso")]
        self.turso(&mut r)?;
        if let Some(w) = SOFT.with(|s| s.borrow_mut().take()) {
            return fail("json-float-rounding", w);
        }
        Ok(format!("row {seed}"))
    }
}
/// what is sent to PostgreSQL for a value, and what is made of it when it comes back
fn pg(r: &mut Rng) -> Result<(), Fail> {
    use butane_core::custom::{SqlValCustom, SqlValRefCustom};
    use tokio_postgres::types::{private::BytesMut, FromSql, IsNull, ToSql, Type};
    let tys = [Type::BOOL, Type::INT4, Type::INT8, Type::FLOAT8, Type::TEXT, Type::BYTEA, Type::JSONB, Type::DATE, Type::TIMESTAMP, Type::UUID, Type::POINT];
    for k in 1..11 {
        let v = if k == 10 {
            SqlVal::Custom(Box::new(SqlValCustom::Pg { ty: Type::UUID, data: (0..r.below(20)).map(|_| r.next() as u8).collect() }))
        } else {
            match value(r, k) {
                SqlVal::Timestamp(t) => {
                    use chrono::Timelike;
                    SqlVal::Timestamp(t.with_nanosecond(t.nanosecond() % 1_000_000_000 / 1000 * 1000).unwrap())
                }
                v => v,
            }
        };
        let own = &tys[k - 1];
        for ty in &tys {
            let (mut a, mut b) = (BytesMut::new(), BytesMut::new());
            let x = v.as_ref().to_sql_checked(ty, &mut a).map(|n| matches!(n, IsNull::Yes)).map_err(|e| e.to_string());
            let y = v.to_sql_checked(ty, &mut b).map(|n| matches!(n, IsNull::Yes)).map_err(|e| e.to_string());
            let null = x == Ok(true);
            check!(x.is_ok() == y.is_ok() && null == (y == Ok(true)) && a == b, "pg-owned", "{v:?} as {ty}: borrowed {x:?} {a:?}, owned {y:?} {b:?}");
            if let SqlVal::Custom(c) = &v {
                let mut d = BytesMut::new();
                let z = c.to_sql_checked(ty, &mut d).map(|n| matches!(n, IsNull::Yes)).map_err(|e| e.to_string());
                check!(x.is_ok() == z.is_ok() && a == d, "pg-owned", "{v:?} as {ty}: {x:?} {a:?}, by itself {z:?} {d:?}");
            }
            check!(null == matches!(v, SqlVal::Null), "pg-null", "{v:?} as {ty} is sent as {x:?}");
            check!(x.is_ok() == (null || ty == own), "pg-type", "{v:?} sent as {ty}: {x:?}");
            if null {
                let w: SqlVal = <SqlValRef as FromSql>::from_sql_null(ty).map(|w| w.into()).map_err(|e| Fail { id: "db-error".into(), what: format!("a null {ty}: {e}") })?;
                check!(a.is_empty() && w == SqlVal::Null, "stored-value", "a null {ty} read back {w:?}");
            } else if x.is_ok() {
                check!(<SqlValRef as FromSql>::accepts(ty), "pg-type", "{ty} is not accepted");
                let w: SqlVal = <SqlValRef as FromSql>::from_sql(ty, &a).map(|w| w.into()).map_err(|e| Fail { id: "db-error".into(), what: format!("{v:?} sent as {ty}: {e}") })?;
                cmp("postgresql", &v, &v, &w)?;
            }
        }
        if let SqlVal::Custom(c) = &v {
            let SqlValCustom::Pg { ty, data } = &**c;
            // the same value in its other two forms
            let mut a = BytesMut::new();
            let x = SqlValRef::Custom(SqlValRefCustom::PgBytes { ty: ty.clone(), data }).to_sql_checked(ty, &mut a).map(|n| matches!(n, IsNull::Yes)).map_err(|e| e.to_string());
            check!(x.is_ok() && a[..] == data[..], "pg-custom", "{v:?}: {x:?} {a:?}");
            let n = r.next() as i32;
            for ty in [Type::INT4, Type::INT8] {
                let mut a = BytesMut::new();
                let x = SqlValRef::Custom(SqlValRefCustom::PgToSql { ty: Type::INT4, tosql: &n }).to_sql_checked(&ty, &mut a).map(|n| matches!(n, IsNull::Yes)).map_err(|e| e.to_string());
                check!(x.is_ok() == (ty == Type::INT4) && (x.is_err() || a[..] == n.to_be_bytes()), "pg-custom", "{n} given as INT4, asked for as {ty}: {x:?} {a:?}");
            }
        }
    }
    Ok(())
}
pub fn prop() -> Prop {
    let mut s = C05 {
        db: None,
        #[cfg(feature = "turso")]
        tu: None,
        n: 0,
    };
    Prop { id: "C05", rule: "rows of random and boundary values of every column type written and read back through the backend; random cells read as every type; random values encoded for and decoded from PostgreSQL", enumerated: 50, run: Box::new(move |c, x| s.case(c, x)) }
}
