//! C14: generated SQL carries every attribute of every column; C19 (literals) is in c19.rs.
//! The text is compared token by token with one written independently here; operations that make sense
//! together are also executed, and the tables that result are compared with the schema.
use crate::c04::sqlval;
use crate::common::*;
use crate::check;
use butane_core::db::{get_backend, Backend};
use butane_core::migrations::adb::*;
use butane_core::{SqlType, SqlVal};
use rusqlite::types::Value as V;
use std::collections::BTreeMap;

const TABS: [&str; 7] = ["a", "b", "Order", "a_Many", "select", "a_", "_b"];
const COLS: [&str; 7] = ["id", "x", "y", "where", "Name", "x2", "_x_"];
#[derive(Clone, Debug)]
pub struct C {
    pub name: String,
    pub ty: Option<SqlType>,
    pub null: bool,
    pub pk: bool,
    pub auto: bool,
    pub uniq: bool,
    pub def: Option<SqlVal>,
    pub rf: Option<(String, String)>,
}
impl C {
    pub fn a(&self) -> AColumn {
        let t = match &self.ty {
            Some(t) => DeferredSqlType::KnownId(TypeIdentifier::Ty(t.clone())),
            None => DeferredSqlType::KnownId(TypeIdentifier::Name("ltree".into())),
        };
        AColumn::new(&self.name, t, self.null, self.pk, self.auto, self.uniq, self.def.clone(), self.rf.as_ref().map(|(t, c)| ARef::Literal(ARefLiteral::new(t.as_str(), c.as_str()))))
    }
}
type T = (String, Vec<C>);
#[derive(Clone, Debug)]
enum Op {
    Add(T),
    AddIf(T),
    AddCons(T),
    DropCons(T),
    Drop(String),
    AddCol(String, C),
    DropCol(String, String),
    Change(String, C, C),
}
fn at(t: &T) -> ATable {
    let mut a = ATable::new(t.0.clone());
    a.columns = t.1.iter().map(|c| c.a()).collect();
    a
}
impl Op {
    fn op(&self) -> Operation {
        match self {
            Op::Add(t) => Operation::AddTable(at(t)),
            Op::AddIf(t) => Operation::AddTableIfNotExists(at(t)),
            Op::AddCons(t) => Operation::AddTableConstraints(at(t)),
            Op::DropCons(t) => Operation::RemoveTableConstraints(at(t)),
            Op::Drop(n) => Operation::RemoveTable(n.clone()),
            Op::AddCol(t, c) => Operation::AddColumn(t.clone(), c.a()),
            Op::DropCol(t, c) => Operation::RemoveColumn(t.clone(), c.clone()),
            Op::Change(t, a, c) => Operation::ChangeColumn(t.clone(), a.a(), c.a()),
        }
    }
}
pub const TYPES: [SqlType; 9] = [SqlType::Bool, SqlType::Int, SqlType::BigInt, SqlType::Real, SqlType::Text, SqlType::Blob, SqlType::Json, SqlType::Date, SqlType::Timestamp];
pub fn storage(b: &str, t: &SqlType) -> &'static str {
    let k = TYPES.iter().position(|x| x == t).unwrap();
    match b {
        "pg" => ["BOOLEAN", "INTEGER", "BIGINT", "DOUBLE PRECISION", "TEXT", "BYTEA", "JSONB", "DATE", "TIMESTAMP"][k],
        _ => ["INTEGER", "INTEGER", "INTEGER", "REAL", "TEXT", "BLOB", "TEXT", "TEXT", "TEXT"][k],
    }
}
fn q(s: &str) -> String {
    format!("\"{}\"", s)
}
/// the kind of value (c04::sqlval) that belongs to a type
pub fn kind(t: &SqlType) -> usize {
    TYPES.iter().position(|x| x == t).unwrap() + 1
}
pub fn neutral(t: &SqlType) -> SqlVal {
    match t {
        SqlType::Bool => SqlVal::Bool(false),
        SqlType::Int | SqlType::BigInt => SqlVal::Int(0),
        SqlType::Real => SqlVal::Real(0.0),
        SqlType::Text => SqlVal::Text(String::new()),
        SqlType::Blob => SqlVal::Blob(vec![]),
        SqlType::Json => SqlVal::Json(serde_json::Value::Null),
        SqlType::Date => SqlVal::Date(chrono::NaiveDate::from_ymd_opt(1, 1, 1).unwrap()),
        _ => SqlVal::Timestamp(chrono::NaiveDate::from_ymd_opt(1970, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap()),
    }
}
fn lit(b: &str, v: &SqlVal) -> Option<String> {
    let quoted = |s: &str| format!("'{}'", s.replace('\'', "''"));
    let hex = |v: &[u8]| v.iter().map(|b| format!("{b:02X}")).collect::<String>();
    Some(match v {
        SqlVal::Null => "NULL".into(),
        SqlVal::Bool(x) => x.to_string(),
        SqlVal::Int(x) => x.to_string(),
        SqlVal::BigInt(x) => x.to_string(),
        SqlVal::Real(x) if x.is_finite() => x.to_string(),
        SqlVal::Text(s) if !s.contains('\0') => quoted(s),
        SqlVal::Blob(x) if b == "pg" => format!("'\\x{}'", hex(x)),
        SqlVal::Blob(x) => format!("x'{}'", hex(x)),
        SqlVal::Json(j) => quoted(&j.to_string()),
        SqlVal::Date(d) => quoted(&d.format("%Y-%m-%d").to_string()),
        SqlVal::Timestamp(d) => quoted(&d.format("%Y-%m-%d %H:%M:%S%.f").to_string()),
        _ => return None,
    })
}
fn first(c: &C) -> Option<SqlVal> {
    match (&c.def, c.null, &c.ty) {
        (Some(v), _, _) => Some(v.clone()),
        (None, true, _) => Some(SqlVal::Null),
        (None, _, Some(t)) => Some(neutral(t)),
        _ => None,
    }
}
/// None: there is no such column on this backend
fn coldef(b: &str, c: &C) -> Option<String> {
    let ty = match (&c.ty, b) {
        (None, _) => "ltree",
        (Some(SqlType::Int), "pg") if c.auto => "SERIAL",
        (Some(SqlType::BigInt), "pg") if c.auto => "BIGSERIAL",
        (Some(_), "pg") if c.auto => return None,
        (Some(t), _) => storage(b, t),
    };
    let mut s = format!("{} {ty}", q(&c.name));
    if !c.null {
        s += " NOT NULL";
    }
    if c.pk {
        s += " PRIMARY KEY";
    } else if c.auto && b != "pg" {
        s += " AUTOINCREMENT";
    }
    if c.uniq {
        s += " UNIQUE";
    }
    Some(s)
}
fn target(c: &C) -> String {
    let r = c.rf.as_ref().unwrap();
    format!("{} ({})", q(&r.0), q(&r.1))
}
fn create(b: &str, t: &T, name: &str, new: bool) -> Option<String> {
    let mut parts = vec![];
    for c in &t.1 {
        parts.push(coldef(b, c)?);
    }
    if b != "pg" {
        parts.extend(t.1.iter().filter(|c| c.rf.is_some()).map(|c| format!("FOREIGN KEY ({}) REFERENCES {}", q(&c.name), target(c))));
    }
    Some(format!("CREATE TABLE {} {} ({}) {};", if new { "IF NOT EXISTS" } else { "" }, q(name), parts.join(" , "), if b == "sqlite" { "STRICT" } else { "" }))
}
fn rebuilt(b: &str, t: &T) -> Option<String> {
    let tmp = format!("{}__butane_tmp", t.0);
    let cols = t.1.iter().map(|c| q(&c.name)).collect::<Vec<_>>().join(", ");
    Some(format!("{} INSERT INTO {} SELECT {cols} FROM {}; DROP TABLE {}; ALTER TABLE {} RENAME TO {};", create(b, t, &tmp, false)?, q(&tmp), q(&t.0), q(&t.0), q(&tmp), q(&t.0)))
}
fn fkey(t: &str, c: &C) -> String {
    format!("ALTER TABLE {} ADD FOREIGN KEY ({}) REFERENCES {};", q(t), q(&c.name), target(c))
}
type S = BTreeMap<String, Vec<C>>;
/// the SQL expected for one operation, which it makes to the schema
fn expect(b: &str, s: &mut S, op: &Op) -> Option<String> {
    let alter = |t: &str| format!("ALTER TABLE {}", q(t));
    let fkdrop = |t: &str, c: &str| format!("{} DROP CONSTRAINT {};", alter(t), q(&format!("{t}_{c}_fkey")));
    match op {
        Op::Add(t) | Op::AddIf(t) => {
            s.insert(t.0.clone(), t.1.clone());
            create(b, t, &t.0, matches!(op, Op::AddIf(_)))
        }
        Op::AddCons(t) => Some(if b == "pg" { t.1.iter().filter(|c| c.rf.is_some()).map(|c| fkey(&t.0, c)).collect() } else { String::new() }),
        Op::DropCons(t) => Some(if b == "pg" { t.1.iter().filter(|c| c.rf.is_some()).map(|c| fkdrop(&t.0, &c.name)).collect() } else { String::new() }),
        Op::Drop(n) => {
            s.remove(n);
            Some(format!("DROP TABLE {};", q(n)))
        }
        Op::AddCol(t, c) => {
            if let Some(v) = s.get_mut(t) {
                match v.iter().position(|x| x.name == c.name) {
                    Some(k) => v[k] = c.clone(),
                    None => v.push(c.clone()),
                }
            }
            let d = coldef(b, c)?;
            if b == "pg" && c.auto {
                return Some(format!("{} ADD COLUMN {d}; {}", alter(t), if c.rf.is_some() { fkey(t, c) } else { String::new() }));
            }
            let v = first(c)?;
            let l = lit(b, &v)?;
            Some(if b == "pg" {
                format!("{} ADD COLUMN {d} DEFAULT {l}; {}", alter(t), if c.rf.is_some() { fkey(t, c) } else { String::new() })
            } else {
                format!("{} ADD COLUMN {d} {} DEFAULT {l};", alter(t), if c.rf.is_some() && v == SqlVal::Null { format!("REFERENCES {}", target(c)) } else { String::new() })
            })
        }
        Op::DropCol(t, n) => {
            let was = s.get(t).and_then(|v| v.iter().find(|c| &c.name == n)).cloned();
            if let Some(v) = s.get_mut(t) {
                v.retain(|c| &c.name != n);
            }
            let plain = format!("{} DROP COLUMN {};", alter(t), q(n));
            if b == "pg" {
                return Some(plain);
            }
            let was = was?;
            if was.rf.is_some() || was.uniq || was.pk {
                rebuilt(b, &(t.clone(), s[t].clone()))
            } else {
                Some(plain)
            }
        }
        Op::Change(t, a, c) => {
            let Some(v) = s.get_mut(t) else { return Some(String::new()) };
            match v.iter().position(|x| x.name == c.name) {
                Some(k) => v[k] = c.clone(),
                None => v.push(c.clone()),
            }
            if b != "pg" {
                return rebuilt(b, &(t.clone(), v.clone()));
            }
            let col = format!("{} ALTER COLUMN {}", alter(t), q(&a.name));
            let mut o = String::new();
            if a.ty != c.ty {
                o += &format!("{col} SET DATA TYPE {};", c.ty.as_ref().map_or("ltree", |t| storage(b, t)));
            }
            if a.null != c.null {
                o += &format!("{col} {} NOT NULL;", if c.null { "DROP" } else { "SET" });
            }
            if c.pk && !a.pk {
                o += &format!("{} DROP CONSTRAINT IF EXISTS {}; {} ADD PRIMARY KEY ({});", alter(t), q(&format!("{t}_pkey")), alter(t), q(&c.name));
            }
            if c.uniq && !a.uniq {
                o += &format!("{} ADD UNIQUE ({});", alter(t), q(&c.name));
            }
            if !c.uniq && a.uniq {
                o += &format!("{} DROP CONSTRAINT {};", alter(t), q(&format!("{t}_{}_key", c.name)));
            }
            if a.def != c.def {
                o += &match &c.def {
                    None => format!("{col} DROP DEFAULT;"),
                    Some(v) => format!("{col} SET DEFAULT {};", lit(b, v)?),
                };
            }
            if a.rf != c.rf {
                if a.rf.is_some() {
                    o += &fkdrop(t, &a.name);
                }
                if c.rf.is_some() {
                    o += &fkey(t, c);
                }
            }
            Some(o)
        }
    }
}
/// the tokens of a text: layout, case and the quoting of names set aside (those are C03's), and commas, which
/// SQLite lets one leave out between constraints
pub fn tokens(s: &str) -> Result<Vec<String>, Fail> {
    use sqlparser::tokenizer::*;
    let t = Tokenizer::new(&sqlparser::dialect::PostgreSqlDialect {}, s).tokenize();
    match t {
        Err(e) => fail("text", format!("does not tokenize: {e}: {s}")),
        Ok(v) => Ok(v
            .into_iter()
            .filter_map(|t| match t {
                Token::Whitespace(_) | Token::Comma => None,
                Token::Word(w) => Some(w.value.to_lowercase()),
                Token::SingleQuotedString(s) => Some(format!("'{s}'")),
                t => Some(t.to_string()),
            })
            .collect()),
    }
}
fn text(v: &str, max: usize) -> String {
    v.chars().take(max).collect()
}
fn rcol(r: &mut Rng, name: &str) -> C {
    let ty = if r.chance(1, 12) { None } else { Some(TYPES[r.below(9)].clone()) };
    let def = if r.chance(1, 2) { None } else {
        let k = if r.chance(1, 4) { r.below(10) } else { ty.as_ref().map_or(5, kind) };
        match sqlval(r, k) { SqlVal::Real(x) if x.is_nan() => None, v => Some(v) }
    };
    C { name: name.into(), ty, null: r.chance(1, 2), pk: r.chance(1, 4), auto: r.chance(1, 4), uniq: r.chance(1, 3), def, rf: if r.chance(1, 3) { Some((r.pick(&TABS).to_string(), r.pick(&COLS).to_string())) } else { None } }
}
fn rtable(r: &mut Rng, name: &str) -> T {
    let mut v: Vec<C> = COLS.iter().filter_map(|c| if r.chance(1, 2) { Some(rcol(r, c)) } else { None }).collect();
    if r.chance(1, 2) { v.reverse(); }
    (name.into(), v)
}
fn tweak(r: &mut Rng, c: &C) -> C {
    let mut n = c.clone();
    for _ in 0..1 + r.below(2) {
        let o = rcol(r, &c.name);
        match r.below(7) {
            0 => n.ty = o.ty,
            1 => n.null = !n.null,
            2 => n.pk = !n.pk,
            3 => n.auto = !n.auto,
            4 => n.uniq = !n.uniq,
            5 => n.def = o.def,
            _ => n.rf = o.rf,
        }
    }
    n
}
fn backends() -> Vec<(&'static str, Box<dyn Backend>)> {
    ["sqlite", "pg", "turso"].iter().filter_map(|n| get_backend(n).map(|b| (*n, b))).collect()
}
fn adb(s: &S) -> ADB {
    let mut a = ADB::new();
    for (n, c) in s {
        a.replace_table(at(&(n.clone(), c.clone())));
    }
    a
}
fn compare(s: &S, ops: &[Op]) -> Result<(), Fail> {
    for (b, be) in backends() {
        let mut now = s.clone();
        let mut want = String::new();
        let mut ok = true;
        for o in ops {
            match expect(b, &mut now, o) {
                Some(t) => want += &t,
                None => { ok = false; break; }
            }
        }
        let got = be.create_migration_sql(&adb(s), ops.iter().map(|o| o.op()).collect());
        match (ok, got) {
            (false, Ok(t)) => return fail("accepted", format!("{b}: {ops:?} on {s:?} cannot be expressed, but gives {}", text(&t, 600))),
            (false, Err(_)) => {}
            (true, Err(e)) => return fail("refused", format!("{b}: {ops:?} on {s:?}: {e}")),
            (true, Ok(t)) => {
                let (g, w) = (tokens(&t)?, tokens(&want)?);
                if g != w {
                    let k = g.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(g.len().min(w.len()));
                    return fail("sql", format!("{b}: {ops:?} on {s:?} gives\n{}\nwhich at token {k} has {:?} where {:?} belongs", text(&t, 1500), g.get(k), w.get(k)));
                }
            }
        }
    }
    Ok(())
}
// ---- execution ----
fn vtable(r: &mut Rng, name: &str) -> T {
    let auto = r.chance(1, 2);
    let mut v = vec![C { name: "id".into(), ty: Some(if r.chance(1, 2) { SqlType::Int } else { SqlType::BigInt }), null: false, pk: true, auto, uniq: false, def: None, rf: None }];
    for c in &COLS[1..] {
        if r.chance(1, 2) {
            v.push(vcol(r, c));
        }
    }
    (name.into(), v)
}
fn vcol(r: &mut Rng, name: &str) -> C {
    let ty = TYPES[r.below(9)].clone();
    let def = if r.chance(1, 2) { None } else {
        match sqlval(r, kind(&ty)) {
            v if lit("sqlite", &v).is_none() => None,
            // SQLite reads such numbers as infinite, or an ulp off
            SqlVal::Real(x) if x != 0.0 && !(1e-15..1e15).contains(&x.abs()) => None,
            v => Some(v),
        }
    };
    C { name: name.into(), ty: Some(ty), null: r.chance(1, 2), pk: false, auto: false, uniq: r.chance(1, 3), def, rf: if r.chance(1, 3) { Some((r.pick(&TABS).to_string(), "id".into())) } else { None } }
}
fn stored(c: &C, v: &SqlVal) -> V {
    match v {
        SqlVal::Null => V::Null,
        SqlVal::Bool(b) => V::Integer(*b as i64),
        SqlVal::Int(i) => V::Integer(*i as i64),
        SqlVal::BigInt(i) => V::Integer(*i),
        SqlVal::Real(x) => V::Real(*x),
        SqlVal::Text(s) => V::Text(s.clone()),
        SqlVal::Blob(b) => V::Blob(b.clone()),
        SqlVal::Json(j) => V::Text(j.to_string()),
        SqlVal::Date(d) => V::Text(d.format("%Y-%m-%d").to_string()),
        SqlVal::Timestamp(d) => V::Text(d.format("%Y-%m-%d %H:%M:%S%.f").to_string()),
        _ => panic!("{c:?}"),
    }
}
fn something(c: &C, n: i64) -> V {
    match storage("sqlite", c.ty.as_ref().unwrap()) {
        "INTEGER" => V::Integer(n),
        "REAL" => V::Real(n as f64 + 0.5),
        "BLOB" => V::Blob(vec![n as u8, 0, 39]),
        _ => V::Text(format!("it's {n}; --")),
    }
}
fn close(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Real(x), V::Real(y)) => (x - y).abs() <= x.abs() * 1e-15,
        _ => a == b,
    }
}
type Rows = BTreeMap<String, BTreeMap<String, V>>;
fn inspect(b: &str, db: &rusqlite::Connection, s: &S, rows: &Rows, ctx: &str) -> Result<(), Fail> {
    let e = |e: rusqlite::Error| Fail { id: "exec".into(), what: format!("{e}: {}", text(ctx, 2500)) };
    let mut st = db.prepare("SELECT name FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite_%' ORDER BY name").map_err(e)?;
    let names: Vec<String> = st.query_map([], |r| r.get(0)).map_err(e)?.collect::<Result<_, _>>().map_err(e)?;
    check!(names.iter().eq({ let mut w: Vec<&String> = s.keys().collect(); w.sort(); w }), "tables", "{b}: the tables are {names:?}, not {:?}, after {}", s.keys(), text(ctx, 2500));
    for (t, cols) in s {
        let mut st = db.prepare(&format!("SELECT name, type, \"notnull\", pk FROM pragma_table_info('{t}')")).map_err(e)?;
        let mut got: Vec<(String, String, bool, bool)> = st.query_map([], |r| Ok((r.get(0)?, r.get(1)?, r.get(2)?, r.get::<_, i64>(3)? > 0))).map_err(e)?.collect::<Result<_, _>>().map_err(e)?;
        got.sort();
        let mut want: Vec<_> = cols.iter().map(|c| (c.name.clone(), storage(b, c.ty.as_ref().unwrap()).to_string(), !c.null, c.pk)).collect();
        want.sort();
        check!(got == want, "columns", "{b}: the columns (name, type, not null, key) of {t} are {got:?}, not {want:?}, after {}", text(ctx, 2500));
        let mut st = db.prepare(&format!("SELECT i.name FROM pragma_index_list('{t}') l JOIN pragma_index_info(l.name) i WHERE l.origin='u' AND l.\"unique\"")).map_err(e)?;
        let mut got: Vec<String> = st.query_map([], |r| r.get(0)).map_err(e)?.collect::<Result<_, _>>().map_err(e)?;
        got.sort();
        let mut want: Vec<String> = cols.iter().filter(|c| c.uniq).map(|c| c.name.clone()).collect();
        want.sort();
        check!(got == want, "unique", "{b}: the unique columns of {t} are {got:?}, not {want:?}, after {}", text(ctx, 2500));
        let mut st = db.prepare(&format!("SELECT \"from\", \"table\", \"to\" FROM pragma_foreign_key_list('{t}')")).map_err(e)?;
        let mut got: Vec<(String, String, String)> = st.query_map([], |r| Ok((r.get(0)?, r.get(1)?, r.get(2)?))).map_err(e)?.collect::<Result<_, _>>().map_err(e)?;
        got.sort();
        let mut want: Vec<_> = cols.iter().filter_map(|c| c.rf.as_ref().map(|r| (c.name.clone(), r.0.clone(), r.1.clone()))).collect();
        want.sort();
        check!(got == want, "references", "{b}: the references of {t} are {got:?}, not {want:?}, after {}", text(ctx, 2500));
        let names: Vec<String> = cols.iter().map(|c| q(&c.name)).collect();
        let mut st = db.prepare(&format!("SELECT {} FROM {}", names.join(","), q(t))).map_err(e)?;
        let got: Vec<Vec<V>> = st.query_map([], |r| (0..cols.len()).map(|i| r.get(i)).collect::<Result<Vec<V>, _>>()).map_err(e)?.collect::<Result<_, _>>().map_err(e)?;
        match rows.get(t) {
            None => check!(got.is_empty(), "rows", "{b}: {t} has rows"),
            Some(w) => {
                check!(got.len() == 1, "rows", "{b}: {t} has {} rows, not 1, after {}", got.len(), text(ctx, 2500));
                for (c, v) in cols.iter().zip(&got[0]) {
                    check!(close(v, &w[&c.name]), "values", "{b}: column {} of the row of {t} is {v:?}, not {:?}, after {}", c.name, w[&c.name], text(ctx, 2500));
                }
            }
        }
    }
    Ok(())
}
fn execute(r: &mut Rng) -> R {
    let mut s: S = S::new();
    for n in TABS {
        if r.chance(1, 2) {
            let t = vtable(r, n);
            s.insert(t.0, t.1);
        }
    }
    let filled = r.chance(2, 3);
    let mut rows: Rows = Rows::new();
    let mut now = s.clone();
    let mut n = 10;
    if filled {
        for (t, c) in &s {
            n += 1;
            rows.insert(t.clone(), c.iter().map(|c| (c.name.clone(), something(c, n))).collect());
        }
    }
    let first_rows = rows.clone();
    let mut ops = vec![];
    for _ in 0..1 + r.below(4) {
        let have: Vec<String> = now.keys().cloned().collect();
        let free: Vec<&str> = TABS.iter().filter(|t| !now.contains_key(**t)).cloned().collect();
        let op = match r.below(8) {
            0 if !free.is_empty() => { let n = *r.pick(&free); Op::Add(vtable(r, n)) }
            1 if !free.is_empty() => { let n = *r.pick(&free); Op::AddIf(vtable(r, n)) }
            2 if !have.is_empty() => Op::Drop(r.pick(&have).clone()),
            3 if !have.is_empty() => { let t = r.pick(&have).clone(); Op::AddCons((t.clone(), now[&t].clone())) }
            4 | 5 if !have.is_empty() => {
                let t = r.pick(&have).clone();
                let used: Vec<&str> = now[&t].iter().map(|c| c.name.as_str()).collect();
                let free: Vec<&str> = COLS.iter().filter(|c| !used.contains(c)).cloned().collect();
                if free.is_empty() { continue; }
                let mut c = { let n = *r.pick(&free); vcol(r, n) };
                // SQLite cannot add unique columns, nor references that are not NULL (known findings)
                c.uniq = false;
                if c.rf.is_some() {
                    c.null = true;
                    c.def = None;
                }
                if !c.null && c.def == Some(SqlVal::Null) { c.def = None; }
                // (known finding)
                if matches!(&c.def, Some(SqlVal::Real(x)) if x.fract() != 0.0) { c.null = true; }
                Op::AddCol(t, c)
            }
            6 if !have.is_empty() => {
                let t = r.pick(&have).clone();
                if now[&t].len() < 2 { continue; }
                let k = 1 + r.below(now[&t].len() - 1);
                Op::DropCol(t.clone(), now[&t][k].name.clone())
            }
            7 if !have.is_empty() => {
                let t = r.pick(&have).clone();
                if now[&t].len() < 2 { continue; }
                let k = 1 + r.below(now[&t].len() - 1);
                let c = now[&t][k].clone();
                let mut d = vcol(r, &c.name);
                if filled {
                    d.ty = c.ty.clone();
                    d.def = c.def.clone();
                    if rows.get(&t).map_or(false, |w| w[&c.name] == V::Null) { d.null = true; }
                }
                Op::Change(t, c, d)
            }
            _ => continue,
        };
        match &op {
            Op::Drop(t) => { rows.remove(t); }
            Op::AddCol(t, c) => if let Some(w) = rows.get_mut(t) { w.insert(c.name.clone(), stored(c, &first(c).unwrap())); }
            Op::DropCol(t, c) => if let Some(w) = rows.get_mut(t) { w.remove(c); }
            _ => {}
        }
        expect("sqlite", &mut now, &op);
        ops.push(op);
    }
    compare(&s, &ops)?;
    for (b, be) in backends() {
        if b == "pg" { continue; }
        let db = rusqlite::Connection::open_in_memory().unwrap();
        let start: Vec<Operation> = s.iter().map(|(n, c)| Operation::AddTable(at(&(n.clone(), c.clone())))).collect();
        let ctx = format!("{ops:?} on {s:?}");
        let run = |q: &str| db.execute_batch(q).map_err(|e| Fail { id: "exec".into(), what: format!("{b}: {e}: {} ({})", text(q, 1500), text(&ctx, 1500)) });
        run("PRAGMA foreign_keys=OFF;")?;
        run(&be.create_migration_sql(&ADB::new(), start).map_err(|e| Fail { id: "refused".into(), what: e.to_string() })?)?;
        for (t, w) in &first_rows {
            let names: Vec<String> = w.keys().map(|k| q(k)).collect();
            db.execute(&format!("INSERT INTO {} ({}) VALUES ({})", q(t), names.join(","), vec!["?"; names.len()].join(",")), rusqlite::params_from_iter(w.values())).map_err(|e| Fail { id: "exec".into(), what: format!("{e}") })?;
        }
        inspect(b, &db, &s, &first_rows, "creation")?;
        run(&be.create_migration_sql(&adb(&s), ops.iter().map(|o| o.op()).collect()).map_err(|e| Fail { id: "refused".into(), what: format!("{b}: {e}: {ctx}") })?)?;
        inspect(b, &db, &now, &rows, &ctx)?;
    }
    Ok(format!("{} operations on {} tables", ops.len(), s.len()) + &format!(" {:?}", ops).chars().take(200).collect::<String>())
}
/// what is recorded as a known finding
fn finding(i: usize) -> R {
    let plain = |n: &str| C { name: n.into(), ty: Some(SqlType::Int), null: false, pk: false, auto: false, uniq: false, def: None, rf: None };
    let mut s = S::new();
    s.insert("a".into(), vec![C { pk: true, ..plain("id") }]);
    let sqlite = |op: Op, s: &S| -> Result<rusqlite::Connection, String> {
        let db = rusqlite::Connection::open_in_memory().unwrap();
        let be = get_backend("sqlite").unwrap();
        db.execute_batch(&be.create_migration_sql(&ADB::new(), vec![Operation::AddTable(at(&("a".into(), s["a"].clone())))]).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        db.execute_batch(&be.create_migration_sql(&adb(s), vec![op.op()]).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        Ok(db)
    };
    match i {
        0 => {
            if let Err(e) = sqlite(Op::AddCol("a".into(), C { uniq: true, null: true, ..plain("x") }), &s) {
                return fail("sqlite-add-unique", format!("adding a unique column to a table: {e}"));
            }
        }
        1 => {
            let db = sqlite(Op::AddCol("a".into(), C { rf: Some(("a".into(), "id".into())), ..plain("x") }), &s).map_err(|e| Fail { id: "exec".into(), what: e })?;
            let n: i64 = db.query_row("SELECT count(*) FROM pragma_foreign_key_list('a')", [], |r| r.get(0)).unwrap();
            if n == 0 {
                return fail("sqlite-add-reference", "a column added with a value that is not NULL does not get its reference");
            }
        }
        2 => {
            let t = get_backend("pg").unwrap().create_migration_sql(&adb(&s), vec![Op::Change("a".into(), plain("id"), C { auto: true, ..plain("id") }).op()]).map_err(|e| Fail { id: "refused".into(), what: e.to_string() })?;
            if t.trim().is_empty() {
                return fail("pg-change-auto", "making a column automatic emits no SQL");
            }
        }
        3 => {
            let db = rusqlite::Connection::open_in_memory().unwrap();
            let be = get_backend("sqlite").unwrap();
            let sql = |s: &S, o: Op| be.create_migration_sql(&adb(s), vec![o.op()]).unwrap();
            db.execute_batch(&sql(&S::new(), Op::Add(("a".into(), s["a"].clone())))).unwrap();
            db.execute_batch("INSERT INTO a VALUES (1)").unwrap();
            if let Err(e) = db.execute_batch(&sql(&s, Op::AddCol("a".into(), C { ty: Some(SqlType::Real), def: Some(SqlVal::Real(1.5)), ..plain("x") }))) {
                return fail("sqlite-strict-real-default", e.to_string());
            }
        }
        _ => {
            let mut s = S::new();
            s.insert("Order".into(), vec![C { pk: true, ..plain("id") }]);
            let t = get_backend("pg").unwrap().create_migration_sql(&adb(&s), vec![Op::Change("Order".into(), C { uniq: true, ..plain("x") }, plain("x")).op()]).map_err(|e| Fail { id: "refused".into(), what: e.to_string() })?;
            if !t.contains("\"Order_x_key\"") {
                return fail("pg-constraint-names", format!("the constraint PostgreSQL names Order_x_key is addressed as order_x_key: {t}"));
            }
        }
    }
    Ok(format!("finding {i} gone"))
}
const COMBOS: usize = 10 * 16 * 4;
pub fn prop() -> Prop {
    Prop {
        id: "C14",
        rule: "the SQL of random lists of schema operations over random tables (every combination of type, nullability, key, uniqueness, generation, default and reference for single columns enumerated) on SQLite, PostgreSQL and Turso compared token by token with an independently written expectation; random valid histories executed on SQLite (the SQLite and the Turso text), with columns, types, keys, unique indexes, references and the values of an existing row compared with the schema",
        enumerated: 5 + COMBOS,
        run: Box::new(|c, _| match c {
            Case::Enum(i) if i < 5 => finding(i),
            Case::Enum(i) => {
                let k = i - 5;
                let mut r = Rng::new(k as u64);
                let mut one = C { name: COLS[1 + k % 5].into(), ty: TYPES.get(k / 64).cloned(), null: k & 1 > 0, pk: k & 2 > 0, auto: k & 4 > 0, uniq: k & 8 > 0, def: None, rf: None };
                if k & 16 > 0 { one.rf = Some(("Order".into(), "where".into())); }
                if k & 32 > 0 { let kd = one.ty.as_ref().map_or(5, kind); one.def = Some(sqlval(&mut r, kd)); }
                if let Some(SqlVal::Real(x)) = &one.def { if x.is_nan() { one.def = None; } }
                let t: T = ("Order".into(), vec![C { rf: None, ..rcol(&mut r, "id") }, one.clone()]);
                let mut s = S::new();
                compare(&s, &[Op::Add(t.clone())])?;
                compare(&s, &[Op::AddIf(t.clone())])?;
                compare(&s, &[Op::AddCons(t.clone())])?;
                compare(&s, &[Op::DropCons(t.clone())])?;
                s.insert(t.0.clone(), t.1.clone());
                compare(&s, &[Op::DropCol("Order".into(), one.name.clone())])?;
                compare(&s, &[Op::AddCol("Order".into(), C { name: "y2".into(), ..one.clone() })])?;
                for _ in 0..3 {
                    let n = tweak(&mut r, &one);
                    compare(&s, &[Op::Change("Order".into(), one.clone(), n.clone())])?;
                }
                Ok(format!("{one:?}"))
            }
            Case::Rand(seed) => {
                let mut r = Rng::new(seed);
                if r.chance(1, 2) {
                    return execute(&mut r);
                }
                let mut s = S::new();
                for n in TABS {
                    if r.chance(1, 2) {
                        let t = rtable(&mut r, n);
                        s.insert(t.0, t.1);
                    }
                }
                let mut now = s.clone();
                let mut ops = vec![];
                for _ in 0..r.below(5) {
                    let t = r.pick(&TABS).to_string();
                    let cols = now.get(&t).cloned().unwrap_or_default();
                    let old = if cols.is_empty() { rcol(&mut r, "x") } else { r.pick(&cols).clone() };
                    let op = match r.below(9) {
                        0 => Op::Add(rtable(&mut r, &t)),
                        1 => Op::AddIf(rtable(&mut r, &t)),
                        2 => Op::AddCons(rtable(&mut r, &t)),
                        3 => Op::DropCons(rtable(&mut r, &t)),
                        4 => Op::Drop(t),
                        5 => { let n = *r.pick(&COLS); Op::AddCol(t, rcol(&mut r, n)) }
                        6 => Op::DropCol(t, old.name),
                        _ => { let n = tweak(&mut r, &old); Op::Change(t, old, n) }
                    };
                    // names that occur twice in a table are not among the schemas
                    if let Op::Add(t) | Op::AddIf(t) = &op { if t.1.is_empty() { continue; } }
                    expect("sqlite", &mut now, &op);
                    ops.push(op);
                }
                compare(&s, &ops)?;
                Ok(format!("{ops:?}").chars().take(300).collect())
            }
        }),
    }
}
