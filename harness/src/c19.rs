//! C19: a literal in generated SQL denotes the value, whatever it contains.
use crate::c04::sqlval;
use crate::c14::*;
use crate::check;
use crate::common::*;
use butane_core::db::{get_backend, ConnectionSpec};
use butane_core::migrations::adb::*;
use butane_core::{SqlType, SqlVal};

const NASTY: [&str; 24] = [
    "", "'", "''", "it's", "';", "'; DROP TABLE t; --", "--", "/*", "*/", "a;b", "\\", "\\'", "\\x41", "\"", "`", "$1", "?", "%s{}", "\n", "\r\n\t", "é漢😀", "'' OR ''='", "E'x'", "x';\n--'",
];
fn awkward(r: &mut Rng) -> String {
    let parts = ["'", "''", ";", "--", "/*", "*/", "\\", "\"", "\n", "a", "é", "$1", "?", "\u{1}", "DROP TABLE t", " ", "😀", "`", "[", "]"];
    (0..r.below(8)).map(|_| *r.pick(&parts)).collect()
}
fn writable(v: &SqlVal) -> bool {
    match v {
        SqlVal::Real(x) => x.is_finite(),
        SqlVal::Text(s) => !s.contains('\0'),
        SqlVal::Custom(_) => false,
        _ => true,
    }
}
fn col(t: &SqlType, v: &SqlVal) -> AColumn {
    AColumn::new("x", DeferredSqlType::KnownId(TypeIdentifier::Ty(t.clone())), true, false, false, false, Some(v.clone()), None)
}
fn table() -> ATable {
    let mut t = ATable::new("t".into());
    t.columns.push(AColumn::new("id", DeferredSqlType::KnownId(TypeIdentifier::Ty(SqlType::Int)), false, true, false, false, None, None));
    t
}
fn same(a: &SqlVal, b: &SqlVal) -> bool {
    match (a, b) {
        (SqlVal::Real(x), SqlVal::Real(y)) => x == y,
        (SqlVal::Int(x), SqlVal::BigInt(y)) | (SqlVal::BigInt(y), SqlVal::Int(x)) => *x as i64 == *y,
        _ => a == b,
    }
}
/// an ulp or so: how SQLite reads decimal numbers is its own matter
fn near(a: &SqlVal, b: &SqlVal) -> bool {
    match (a, b) {
        (SqlVal::Real(x), SqlVal::Real(y)) => (x - y).abs() <= x.abs() * 1e-14,
        _ => false,
    }
}
fn case(t: &SqlType, v: &SqlVal, ctx: &Ctx, n: u64, turso: bool) -> R {
    let mut adb = ADB::new();
    adb.replace_table(table());
    for b in ["sqlite", "turso", "pg"] {
        let Some(be) = get_backend(b) else { continue };
        let sql = be.create_migration_sql(&adb, vec![Operation::AddColumn("t".into(), col(t, v))]);
        if !writable(v) {
            check!(sql.is_err(), "accepted", "{b}: {v:?} cannot be written as a literal, but {sql:?}");
            continue;
        }
        let sql = sql.map_err(|e| Fail { id: "refused".into(), what: format!("{b}: {v:?}: {e}") })?;
        if b == "pg" {
            pg(&sql, t, v)?;
            continue;
        }
        if b == "turso" && !turso {
            continue;
        }
        let create = be.create_migration_sql(&ADB::new(), vec![Operation::AddTable(table())]).unwrap();
        let cols = [butane_core::db::Column::new("id", SqlType::Int), butane_core::db::Column::new("x", t.clone())];
        let whatever = |e: &dyn std::fmt::Display| Fail { id: if b == "turso" && e.to_string().contains("non-constant default") && sql.contains("DEFAULT -") { "turso-negative-default" } else { "exec" }.into(), what: format!("{b}: {v:?}: {e}: {sql}") };
        let got: Vec<SqlVal> = if b == "sqlite" {
            let c = butane::db::connect(&ConnectionSpec::new("sqlite", ":memory:")).unwrap();
            use butane_core::db::ConnectionMethods;
            c.execute(&create).map_err(|e| whatever(&e))?;
            c.execute("INSERT INTO t VALUES (7);").map_err(|e| whatever(&e))?;
            c.execute(&sql).map_err(|e| whatever(&e))?;
            let mut rows = c.query("t", &cols, None, None, None, None).map_err(|e| whatever(&e))?;
            let mut o = vec![];
            while let Some(r) = rows.next().map_err(|e| whatever(&e))? {
                check!(matches!(r.get(0, SqlType::Int), Ok(butane_core::SqlValRef::Int(7))), "other", "{b}: the key changed: {sql}");
                o.push(r.get(1, t.clone()).map_err(|e| whatever(&e))?.into());
            }
            o
        } else {
            let f = format!("{}/lit{n}.db", ctx.scratch);
            let _ = std::fs::create_dir_all(&ctx.scratch);
            let _ = std::fs::remove_file(&f);
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            let r = rt.block_on(async {
                use butane_core::db::ConnectionMethodsAsync;
                let c = butane::db::connect_async(&ConnectionSpec::new("turso", &f)).await.unwrap();
                c.execute(&create).await.map_err(|e| whatever(&e))?;
                c.execute("INSERT INTO t VALUES (7);").await.map_err(|e| whatever(&e))?;
                c.execute(&sql).await.map_err(|e| whatever(&e))?;
                // a value the schema holds is one thing, one written into a row another: see both
                let mut rows = c.query("t", &cols, None, None, None, None).await.map_err(|e| whatever(&e))?;
                let mut o = vec![];
                while let Some(r) = rows.next().map_err(|e| whatever(&e))? {
                    o.push(r.get(1, t.clone()).map_err(|e| whatever(&e))?.into());
                }
                Ok::<_, Fail>(o)
            });
            for s in ["", "-wal", "-shm"] {
                let _ = std::fs::remove_file(format!("{f}{s}"));
            }
            r?
        };
        check!(got.len() == 1, "rows", "{b}: {} rows after {sql}", got.len());
        if !same(&got[0], v) && near(&got[0], v) {
            return fail("engine-real-rounding", format!("{b}: {v:?} comes back as {:?}", got[0]));
        }
        check!(same(&got[0], v), "value", "{b}: the default {v:?} of a {t:?} column comes back as {:?}, from {sql}", got[0]);
    }
    Ok(format!("{t:?} {v:?}").chars().take(150).collect())
}
/// PostgreSQL: one statement, ending in DEFAULT and the literal, which is read with a scanner of its own
fn pg(sql: &str, t: &SqlType, v: &SqlVal) -> Result<(), Fail> {
    let head = format!("ALTER TABLE t ADD COLUMN x {} DEFAULT ", storage("pg", t));
    let Some(l) = sql.strip_prefix(&head) else { return fail("pg", format!("{v:?}: unexpected {sql}")) };
    let text = |want: &str| -> Result<(), Fail> {
        // standard_conforming_strings: a quote is doubled, nothing else is special
        let mut o = String::new();
        let c: Vec<char> = l.chars().collect();
        check!(c.first() == Some(&'\''), "pg", "{v:?}: no string literal: {sql}");
        let mut i = 1;
        loop {
            check!(i < c.len(), "pg", "{v:?}: the literal does not end: {sql}");
            if c[i] == '\'' {
                if c.get(i + 1) == Some(&'\'') {
                    o.push('\'');
                    i += 2;
                    continue;
                }
                break;
            }
            o.push(c[i]);
            i += 1;
        }
        let rest: String = c[i + 1..].iter().collect();
        check!(rest.trim() == ";", "pg", "{v:?}: {rest:?} follows the literal: {sql}");
        check!(o == want, "pg", "{v:?} is written as {o:?}: {sql}");
        Ok(())
    };
    let bare = l.trim_end().trim_end_matches(';');
    match v {
        SqlVal::Null => check!(bare == "NULL", "pg", "{v:?}: {sql}"),
        SqlVal::Bool(b) => check!(bare == b.to_string(), "pg", "{v:?}: {sql}"),
        SqlVal::Int(i) => check!(bare.parse::<i32>() == Ok(*i), "pg", "{v:?}: {sql}"),
        SqlVal::BigInt(i) => check!(bare.parse::<i64>() == Ok(*i), "pg", "{v:?}: {sql}"),
        SqlVal::Real(x) => check!(bare.parse::<f64>().map(|y| y == *x).unwrap_or(false), "pg", "{v:?}: {sql}"),
        SqlVal::Text(s) => text(s)?,
        SqlVal::Blob(b) => text(&format!("\\x{}", b.iter().map(|b| format!("{b:02X}")).collect::<String>()))?,
        SqlVal::Json(j) => text(&j.to_string())?,
        SqlVal::Date(d) => text(&d.format("%Y-%m-%d").to_string())?,
        SqlVal::Timestamp(d) => text(&d.format("%Y-%m-%d %H:%M:%S%.f").to_string())?,
        SqlVal::Custom(_) => {}
    }
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C19",
        rule: "values of every kind (texts with quotes, semicolons, comment marks, backslashes; JSON holding such texts; extreme numbers, dates and times; every byte) as default of a column added to a table with a row: executed on SQLite and Turso and read back through butane; for PostgreSQL the literal is read with an independent scanner",
        enumerated: 2 * NASTY.len() + 14,
        run: Box::new(|c, ctx| match c {
            Case::Enum(i) if i < NASTY.len() => case(&SqlType::Text, &SqlVal::Text(NASTY[i].into()), ctx, i as u64, true),
            Case::Enum(i) if i < 2 * NASTY.len() => {
                let s = NASTY[i - NASTY.len()];
                case(&SqlType::Json, &SqlVal::Json(serde_json::json!({ s: [s, 1, null, true] })), ctx, i as u64, true)
            }
            Case::Enum(i) => {
                let d = |y, m, d| chrono::NaiveDate::from_ymd_opt(y, m, d).unwrap();
                let (t, v) = match i - 2 * NASTY.len() {
                    0 => (SqlType::Bool, SqlVal::Bool(true)),
                    1 => (SqlType::Bool, SqlVal::Bool(false)),
                    2 => (SqlType::Int, SqlVal::Int(i32::MIN)),
                    3 => (SqlType::BigInt, SqlVal::BigInt(i64::MIN)),
                    4 => (SqlType::BigInt, SqlVal::BigInt(i64::MAX)),
                    5 => (SqlType::Blob, SqlVal::Blob((0..=255).collect())),
                    6 => (SqlType::Blob, SqlVal::Blob(vec![])),
                    7 => (SqlType::Date, SqlVal::Date(d(1, 1, 1))),
                    8 => (SqlType::Timestamp, SqlVal::Timestamp(d(2024, 2, 29).and_hms_nano_opt(23, 59, 59, 123_456_789).unwrap())),
                    9 => (SqlType::Timestamp, SqlVal::Timestamp(d(1970, 1, 1).and_hms_opt(0, 0, 0).unwrap())),
                    10 => (SqlType::Real, SqlVal::Real(-0.5)),
                    11 => (SqlType::Real, SqlVal::Real(f64::INFINITY)),
                    12 => (SqlType::Text, SqlVal::Text("a\0b".into())),
                    _ => (SqlType::Real, SqlVal::Real(3.0)),
                };
                case(&t, &v, ctx, i as u64, true)
            }
            Case::Rand(seed) => {
                let mut r = Rng::new(seed);
                let t = TYPES[r.below(9)].clone();
                let v = match t {
                    SqlType::Text if r.chance(3, 4) => SqlVal::Text(awkward(&mut r)),
                    SqlType::Json if r.chance(1, 2) => SqlVal::Json(serde_json::Value::String(awkward(&mut r))),
                    _ => sqlval(&mut r, kind(&t)),
                };
                let turso = r.chance(1, 20);
                // JSON numbers: C05's finding
                if let SqlVal::Json(j) = &v { if j.to_string().contains('.') || j.to_string().contains('e') && j.is_number() { return Ok("trivial".into()); } }
                case(&t, &v, ctx, seed, turso)
            }
        }),
    }
}
