//! C13: rows of every backend delivered once, in order; column access checked; copies complete.
use crate::c04::sqlval;
use crate::c05::{same, schema};
use crate::check;
use crate::common::*;
use butane_core::db::{BackendRow, BackendRows, Column, Connection, ConnectionAsync, ConnectionMethods, ConnectionMethodsAsync as CM, ConnectionSpec};
use butane_core::migrations::adb::*;
use butane_core::{SqlType, SqlVal, SqlValRef};
use fallible_iterator::FallibleIterator;

const TYS: [SqlType; 10] = [SqlType::BigInt, SqlType::Bool, SqlType::Int, SqlType::BigInt, SqlType::Real, SqlType::Text, SqlType::Blob, SqlType::Json, SqlType::Date, SqlType::Timestamp];
const NAMES: [&str; 10] = ["id", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9"];

/// what reading a value as a type must give: on a buffered row only the value's own type (or null) is readable
fn fits(v: &SqlVal, ty: &SqlType) -> bool {
    match v {
        SqlVal::Null => true,
        SqlVal::Bool(_) => *ty == SqlType::Bool,
        SqlVal::Int(_) => *ty == SqlType::Int,
        SqlVal::BigInt(_) => *ty == SqlType::BigInt,
        SqlVal::Real(_) => *ty == SqlType::Real,
        SqlVal::Text(_) => *ty == SqlType::Text,
        SqlVal::Blob(_) => *ty == SqlType::Blob,
        SqlVal::Json(_) => *ty == SqlType::Json,
        SqlVal::Date(_) => *ty == SqlType::Date,
        SqlVal::Timestamp(_) => *ty == SqlType::Timestamp,
        _ => false,
    }
}
fn check_row(who: &str, row: &dyn BackendRow, want: &[SqlVal], pick: &[usize], buffered: bool, r: &mut Rng) -> Result<(), Fail> {
    check!(row.len() == pick.len(), "row-access", "{who}: row of {} columns reports length {}", pick.len(), row.len());
    for (i, &k) in pick.iter().enumerate() {
        let v = match row.get(i, TYS[k].clone()) {
            Ok(v) => SqlVal::from(v),
            Err(e) => return fail("row-access", format!("{who}: column {i} ({}) holding {:?} is not readable: {e}", NAMES[k], want[k])),
        };
        check!(same(&v, &want[k]), "row-access", "{who}: column {i} ({}) reads {v:?}, holds {:?}", NAMES[k], want[k]);
        let other = &TYS[r.below(10)];
        match row.get(i, other.clone()) {
            Ok(v) if buffered => {
                check!(fits(&want[k], other) && same(&v.clone().into(), &want[k]), "row-type", "{who}: column {i} holding {:?} read as {other:?} gives {v:?}", want[k]);
            }
            Ok(v) => {
                // a row of the running query: SQLite may lend an integer as a boolean, a text as a date ..., never another kind
                let got: SqlVal = v.into();
                check!(got == SqlVal::Null && want[k] == SqlVal::Null || fits(&got, other), "row-type", "{who}: reading as {other:?} gives {got:?}");
            }
            Err(_) => check!(!fits(&want[k], other), "row-type", "{who}: column {i} holding {:?} is not readable as {other:?}", want[k]),
        }
    }
    for i in [pick.len(), pick.len() + 1, usize::MAX] {
        if let Ok(v) = row.get(i, TYS[r.below(10)].clone()) {
            return fail("row-access", format!("{who}: column {i} of {} reads {v:?}", pick.len()));
        }
    }
    Ok(())
}
fn check_rows(who: &str, mut rows: Box<dyn BackendRows + '_>, want: &[Vec<SqlVal>], pick: &[usize], buffered: bool, r: &mut Rng) -> Result<(), Fail> {
    if buffered {
        check!(rows.current().is_none(), "row-order", "{who}: a current row before the first");
    }
    for (n, w) in want.iter().enumerate() {
        match rows.next() {
            Ok(Some(row)) => check_row(&format!("{who}, row {n}"), row, w, pick, buffered, r)?,
            Ok(None) => return fail("row-order", format!("{who}: ends after {n} of {} rows", want.len())),
            Err(e) => return fail("row-order", format!("{who}: row {n}: {e}")),
        }
        for _ in 0..r.below(3) {
            match rows.current() {
                Some(row) => check_row(&format!("{who}, current row {n}"), row, w, pick, buffered, r)?,
                None => return fail("row-order", format!("{who}: no current row after delivering row {n} of {}", want.len())),
            }
        }
    }
    for k in 0..3 {
        match rows.next() {
            Ok(None) => {}
            Ok(Some(_)) => return fail("row-order", format!("{who}: a row after the end (call {k})")),
            Err(e) => return fail("row-order", format!("{who}: after the end: {e}")),
        }
        if buffered {
            // asking again does not bring a row back
            check!(rows.current().is_none(), "row-order", "{who}: a current row after the end");
        }
    }
    Ok(())
}
fn check_mapped(who: &str, rows: Box<dyn BackendRows + '_>, want: &[Vec<SqlVal>], pick: &[usize], buffered: bool, r: &mut Rng) -> Result<(), Fail> {
    let mut calls = 0usize;
    let mut bad: Option<Fail> = None;
    let stop = if r.chance(1, 3) { r.below(want.len().max(1)) } else { usize::MAX - 1 };
    {
        let mut m = rows.mapped(|row| {
            if calls < want.len() && bad.is_none() {
                bad = check_row(&format!("{who}, mapped row {calls}"), row, &want[calls], pick, buffered, &mut *r).err();
            }
            calls += 1;
            if calls == stop + 1 {
                return Err(butane_core::Error::Internal("stop here".into()));
            }
            Ok(calls)
        });
        for n in 0..want.len() {
            match m.next() {
                Ok(Some(c)) => check!(c == n + 1 && n != stop, "row-order", "{who}: row {n} mapped to answer {c}"),
                Ok(None) => return fail("row-order", format!("{who}: mapped rows end after {n} of {}", want.len())),
                Err(e) => {
                    check!(n == stop, "row-order", "{who}: mapping row {n}: {e}");
                    break;
                }
            }
        }
        if stop >= want.len() {
            check!(matches!(m.next(), Ok(None)), "row-order", "{who}: mapped rows do not end");
        }
    }
    if let Some(f) = bad {
        return Err(f);
    }
    check!(calls == want.len() || calls == stop + 1, "row-order", "{who}: function called {calls} times for {} rows", want.len());
    Ok(())
}
pub struct C13 {
    db: Connection,
    rt: tokio::runtime::Runtime,
    adb: ConnectionAsync,
    #[cfg(feature = "turso")]
    tu: ConnectionAsync,
}
fn ddl(backend: &str) -> String {
    butane_core::db::get_backend(backend).unwrap().create_migration_sql(&ADB::new(), diff(&ADB::new(), &schema())).unwrap()
}
fn dberr<T>(e: impl std::fmt::Display, what: &str) -> Result<T, Fail> {
    fail("db-error", format!("{what}: {e}"))
}
impl C13 {
    fn new() -> Self {
        let db = butane_core::db::connect(&ConnectionSpec::new("sqlite", ":memory:")).unwrap();
        ConnectionMethods::execute(&db, &ddl("sqlite")).unwrap();
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
        let adb = rt.block_on(butane_core::db::connect_async(&ConnectionSpec::new("sqlite", ":memory:"))).unwrap();
        rt.block_on(CM::execute(&adb, &ddl("sqlite"))).unwrap();
        #[cfg(feature = "turso")]
        let tu = rt.block_on(butane_core::db::connect_async(&ConnectionSpec::new("turso", ":memory:"))).unwrap();
        #[cfg(feature = "turso")]
        rt.block_on(CM::execute(&tu, &ddl("turso"))).unwrap();
        C13 {
            db,
            rt,
            adb,
            #[cfg(feature = "turso")]
            tu,
        }
    }
    fn case(&mut self, c: Case) -> R {
        let seed = match c {
            Case::Enum(i) => i as u64 + 1000,
            Case::Rand(s) => s,
        };
        let mut r = Rng::new(seed);
        let n = r.below(6);
        let rows: Vec<Vec<SqlVal>> = (0..n)
            .map(|i| {
                let mut v = vec![SqlVal::BigInt(i as i64)];
                v.extend((1..10).map(|k| match if r.chance(1, 5) { SqlVal::Null } else { sqlval(&mut r, k) } {
                    SqlVal::Real(x) if !x.is_finite() => SqlVal::Real(0.5),
                    SqlVal::Json(_) => SqlVal::Json(serde_json::json!({"k": i, "s": "t"})),
                    v => v,
                }));
                v
            })
            .collect();
        let cols: Vec<Column> = (0..10).map(|i| Column::new(NAMES[i], TYS[i].clone())).collect();
        // the columns asked for: any selection, in any order
        let pick: Vec<usize> = if r.chance(1, 2) { (0..10).collect() } else { (0..1 + r.below(6)).map(|_| r.below(10)).collect() };
        let asked: Vec<Column> = pick.iter().map(|&k| cols[k].clone()).collect();
        let desc = r.chance(1, 2);
        let order = [butane_core::query::Order { column: "id", direction: if desc { butane_core::query::OrderDirection::Descending } else { butane_core::query::OrderDirection::Ascending } }];
        let mut want = rows.clone();
        if desc {
            want.reverse();
        }
        let e = |e, w: &str| dberr::<()>(e, w);
        ConnectionMethods::execute(&self.db, "DELETE FROM vals").or_else(|x| e(x, "delete"))?;
        let mut dbs = vec![("SQLite through the adapter", &self.adb)];
        #[cfg(feature = "turso")]
        dbs.push(("Turso", &self.tu));
        for (_, d) in &dbs {
            self.rt.block_on(CM::execute(*d, "DELETE FROM vals")).or_else(|x| e(x, "delete"))?;
        }
        for row in &rows {
            let refs: Vec<SqlValRef> = row.iter().map(|v| v.as_ref()).collect();
            self.db.insert_only("vals", &cols, &refs).or_else(|x| e(x, "insert"))?;
            for (_, d) in &dbs {
                self.rt.block_on(CM::insert_only(*d, "vals", &cols, &refs)).or_else(|x| e(x, "insert"))?;
            }
        }
        for mapped in [false, true] {
            let f = if mapped { check_mapped } else { check_rows };
            let q = self.db.query("vals", &asked, None, None, None, Some(&order)).or_else(|x| dberr(x, "query"))?;
            f("SQLite", q, &want, &pick, false, &mut r)?;
            for (who, d) in &dbs {
                let q = match self.rt.block_on(CM::query(*d, "vals", &asked, None, None, None, Some(&order))) {
                    Ok(q) => q,
                    Err(x) => return fail("row-access", format!("{who}: rows are not delivered: {x}")),
                };
                f(who, q, &want, &pick, true, &mut r)?;
            }
        }
        // reading fails part way: the rows before that, then the error, wherever the copy meets it
        let p = crate::probe::Probe::sqlite(&format!("{}; INSERT INTO t (a) VALUES (1), (2), (3)", crate::ops::DDL));
        let bad = r.below(4);
        *p.bad_row.lock().unwrap() = Some(bad);
        let q = Connection::new(Box::new(p)).into_async().map(|c| {
            self.rt.block_on(CM::query(&c, "t", &crate::ops::all(), None, None, None, None)).and_then(|mut rows| {
                let mut ids = vec![];
                while let Some(row) = rows.next()? {
                    ids.push(SqlVal::from(row.get(0, SqlType::Int)?));
                }
                Ok(ids)
            })
        });
        match q {
            Ok(Err(_)) => {}
            Ok(Ok(ids)) => return fail("row-order", format!("through the adapter: reading fails at row {bad}, the answer is a complete list of {ids:?}")),
            Err(x) => return dberr(x, "into_async"),
        }
        Ok(format!("{n} rows, columns {pick:?}, {desc}: {rows:?}"))
    }
}
pub fn prop() -> Prop {
    let mut s: Option<C13> = None;
    Prop { id: "C13", rule: "random tables queried for random column lists; every row read as every type, current row repeated, reading past the end, mapping with a stop", enumerated: 60, run: Box::new(move |c, _| s.get_or_insert_with(C13::new).case(c)) }
}
