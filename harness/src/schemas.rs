//! random schemas and their comparison by attributes
use crate::c04::sqlval;
use crate::common::*;
use butane_core::migrations::adb::*;
use butane_core::{SqlType, SqlVal};

pub const TABS: [&str; 6] = ["a", "b", "Order", "a_Many", "select", "t t"];
pub const COLS: [&str; 7] = ["id", "x", "y", "where", "Name", "x2", "q\"q"];
pub fn a_type(r: &mut Rng) -> SqlType {
    [SqlType::Bool, SqlType::Int, SqlType::BigInt, SqlType::Real, SqlType::Text, SqlType::Blob, SqlType::Json, SqlType::Date, SqlType::Timestamp][r.below(9)].clone()
}
pub fn deferred(r: &mut Rng, all: bool) -> DeferredSqlType {
    let t = a_type(r);
    match r.below(if all { 6 } else { 2 }) {
        0 | 4 => DeferredSqlType::Known(t),
        1 | 5 => DeferredSqlType::KnownId(TypeIdentifier::Ty(t)),
        2 => DeferredSqlType::KnownId(TypeIdentifier::Name("ltree".into())),
        _ => DeferredSqlType::Deferred(if r.chance(1, 2) { TypeKey::PK(r.pick(&TABS).to_string()) } else { TypeKey::CustomType("CT".into()) }),
    }
}
pub fn default(r: &mut Rng) -> Option<SqlVal> {
    if r.chance(1, 2) {
        return None;
    }
    let k = 1 + r.below(9);
    Some(match sqlval(r, k) {
        SqlVal::Real(x) if x.is_nan() => SqlVal::Null,
        v => v,
    })
}
pub fn reference(r: &mut Rng, all: bool) -> Option<ARef> {
    match r.below(4) {
        0 => Some(ARef::Literal(ARefLiteral::new(*r.pick(&TABS), *r.pick(&COLS)))),
        1 if all => Some(ARef::Deferred(DeferredSqlType::Deferred(TypeKey::PK(r.pick(&TABS).to_string())))),
        _ => None,
    }
}
pub fn column(r: &mut Rng, name: &str, all: bool) -> AColumn {
    let t = deferred(r, all);
    let (n, p, a, u) = (r.chance(1, 2), r.chance(1, 4), r.chance(1, 4), r.chance(1, 3));
    let d = default(r);
    let rf = reference(r, all);
    AColumn::new(name, t, n, p, a, u, d, rf)
}
pub fn table(r: &mut Rng, name: &str, all: bool) -> ATable {
    let mut t = ATable::new(name.into());
    for c in COLS {
        if r.chance(1, 2) {
            t.columns.push(column(r, c, all));
        }
    }
    if r.chance(1, 2) {
        t.columns.reverse();
    }
    t
}
pub fn schema(r: &mut Rng, all: bool) -> ADB {
    let mut a = ADB::new();
    for n in TABS {
        if r.chance(1, 2) {
            a.replace_table(table(r, n, all));
        }
    }
    a
}
/// the attributes of a column, read through its accessors
pub type Attrs = (String, String, bool, bool, bool, bool, String, String);
pub fn attrs(c: &AColumn) -> Attrs {
    let js = serde_json::to_value(c).unwrap();
    let ty = match c.typeid() {
        Ok(t) => format!("{t:?}"),
        Err(_) => js["sqltype"].to_string(),
    };
    (c.name().into(), ty, c.nullable(), c.is_pk(), c.is_auto(), c.unique(), format!("{:?}", c.default()), format!("{:?}", c.reference()))
}
pub fn view(a: &ADB) -> std::collections::BTreeMap<String, std::collections::BTreeMap<String, Attrs>> {
    a.tables().map(|t| (t.name.clone(), t.columns.iter().map(|c| (c.name().to_string(), attrs(c))).collect())).collect()
}
/// change one attribute, by way of the public constructor
pub fn tweak(r: &mut Rng, c: &AColumn, all: bool) -> AColumn {
    let mut ty = match c.typeid() {
        Ok(t) => DeferredSqlType::KnownId(t),
        Err(_) => serde_json::from_value(serde_json::to_value(c).unwrap()["sqltype"].clone()).unwrap(),
    };
    let (mut n, mut p, mut a, mut u, mut d, mut rf) = (c.nullable(), c.is_pk(), c.is_auto(), c.unique(), c.default().clone(), c.reference().clone());
    match r.below(7) {
        0 => ty = deferred(r, all),
        1 => n = !n,
        2 => p = !p,
        3 => a = !a,
        4 => u = !u,
        5 => d = default(r),
        _ => rf = reference(r, all),
    }
    AColumn::new(c.name(), ty, n, p, a, u, d, rf)
}
/// a schema near another one
pub fn edit(r: &mut Rng, old: &ADB, all: bool) -> ADB {
    let mut new = old.clone();
    for _ in 0..r.below(4) {
        let names: Vec<String> = new.tables().map(|t| t.name.clone()).collect();
        match r.below(8) {
            0 => {
                let n = *r.pick(&TABS);
                new.replace_table(table(r, n, all));
            }
            1 if !names.is_empty() => new.remove_table(r.pick(&names)),
            _ if !names.is_empty() => {
                let mut t = new.get_table(r.pick(&names)).unwrap().clone();
                match r.below(6) {
                    0 => {
                        let n = *r.pick(&COLS);
                        t.columns.retain(|c| c.name() != n);
                        t.columns.push(column(r, n, all));
                    }
                    1 if !t.columns.is_empty() => {
                        let k = r.below(t.columns.len());
                        t.columns.remove(k);
                    }
                    _ if !t.columns.is_empty() => {
                        let k = r.below(t.columns.len());
                        t.columns[k] = tweak(r, &t.columns[k].clone(), all);
                    }
                    _ => {}
                }
                new.replace_table(t);
            }
            _ => {}
        }
    }
    new
}
