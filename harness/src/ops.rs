//! Random calls of the methods every connection and transaction offers.
use crate::common::*;
use butane_core::db::*;
use butane_core::query::{BoolExpr, Expr, Order, OrderDirection};
use butane_core::{Result, SqlType, SqlVal, SqlValRef};

pub const DDL: &str = "CREATE TABLE t (id INTEGER PRIMARY KEY AUTOINCREMENT, a INTEGER NOT NULL, b TEXT UNIQUE)";
#[derive(Clone, Debug)]
pub enum Op {
    Execute(String),
    Query { expr: Option<BoolExpr>, limit: Option<i32>, offset: Option<i32>, sort: Option<Vec<Order>> },
    InsertPk(SqlVal, SqlVal),
    InsertOnly(SqlVal, SqlVal),
    Replace(SqlVal, SqlVal, SqlVal),
    Update(SqlVal, SqlVal, SqlVal),
    /// of no column: whatever the database says to that
    UpdateNone(SqlVal),
    Delete(SqlVal),
    DeleteWhere(BoolExpr),
    HasTable(String),
}
pub fn id() -> Column {
    Column::new("id", SqlType::Int)
}
pub fn ab() -> [Column; 2] {
    [Column::new("a", SqlType::Int), Column::new("b", SqlType::Text)]
}
pub fn all() -> [Column; 3] {
    [Column::new("id", SqlType::Int), Column::new("a", SqlType::Int), Column::new("b", SqlType::Text)]
}
fn key(r: &mut Rng) -> SqlVal {
    SqlVal::Int(1 + r.below(6) as i32)
}
fn a(r: &mut Rng) -> SqlVal {
    if r.chance(1, 15) {
        SqlVal::Null
    } else {
        SqlVal::Int(r.below(5) as i32)
    }
}
fn b(r: &mut Rng) -> SqlVal {
    if r.chance(1, 4) {
        SqlVal::Null
    } else {
        SqlVal::Text(r.pick(&["x", "y", "it's", "", "née", "a;b"]).to_string())
    }
}
fn cond(r: &mut Rng) -> BoolExpr {
    match r.below(5) {
        0 => BoolExpr::Eq("id", Expr::Val(key(r))),
        1 => BoolExpr::Lt("a", Expr::Val(SqlVal::Int(r.below(5) as i32))),
        2 => BoolExpr::Eq("b", Expr::Val(b(r))),
        3 => BoolExpr::True,
        _ => BoolExpr::Or(Box::new(BoolExpr::Eq("id", Expr::Val(key(r)))), Box::new(BoolExpr::Gt("a", Expr::Val(SqlVal::Int(3))))),
    }
}
impl Op {
    pub fn random(r: &mut Rng) -> Op {
        match r.below(15) {
            0 => Op::Execute(format!("INSERT INTO t (a, b) VALUES ({}, NULL)", r.below(9))),
            1 => Op::Execute(format!("UPDATE t SET a = a + {} WHERE id > {}", r.below(9), r.below(5))),
            2 => Op::Execute("INSERT INTO missing VALUES (1)".into()),
            3 | 4 => Op::Query {
                expr: if r.chance(1, 2) { Some(cond(r)) } else { None },
                limit: if r.chance(1, 3) { Some(r.below(4) as i32) } else { None },
                offset: if r.chance(1, 5) { Some(r.below(3) as i32) } else { None },
                sort: if r.chance(1, 2) {
                    Some((0..r.below(5)).map(|i| Order { column: ["b", "id", "a", "b"][i], direction: if r.chance(1, 2) { OrderDirection::Ascending } else { OrderDirection::Descending } }).collect())
                } else {
                    None
                },
            },
            5 | 6 => Op::InsertPk(a(r), b(r)),
            7 => Op::InsertOnly(a(r), b(r)),
            8 => Op::Replace(key(r), a(r), b(r)),
            9 => Op::Update(key(r), a(r), b(r)),
            10 => Op::Delete(key(r)),
            11 => Op::DeleteWhere(cond(r)),
            12 => Op::HasTable(r.pick(&["t", "missing", ""]).to_string()),
            13 => Op::UpdateNone(key(r)),
            _ => Op::InsertPk(a(r), b(r)),
        }
    }
    pub fn writes(&self) -> bool {
        !matches!(self, Op::Query { .. } | Op::HasTable(_))
    }
}
fn rows(q: Result<RawQueryResult<'_>>) -> String {
    let go = || -> Result<Vec<Vec<SqlVal>>> {
        let mut q = q?;
        let mut out = vec![];
        while let Some(r) = q.next()? {
            let mut v = vec![];
            for (i, c) in all().iter().enumerate() {
                v.push(SqlVal::from(r.get(i, c.ty().clone())?));
            }
            out.push(v);
        }
        Ok(out)
    };
    format!("{:?}", go())
}
macro_rules! apply {
    ($name:ident, $tr:ident, ($($asy:tt)?), ($($aw:tt)*)) => {
        /// what the call answers, errors with their text
        pub $($asy)? fn $name<C: $tr + ?Sized>(c: &C, op: &Op) -> String {
            let s = |a: &SqlVal, b: &SqlVal, p: Option<&SqlVal>| -> Vec<SqlVal> { p.into_iter().chain([a, b]).cloned().collect() };
            match op {
                Op::Execute(sql) => format!("{:?}", $tr::execute(c, sql)$($aw)*),
                Op::Query { expr, limit, offset, sort } => rows($tr::query(c, "t", &all(), expr.clone(), *limit, *offset, sort.as_deref())$($aw)*),
                Op::InsertPk(a, b) => {
                    let v = s(a, b, None);
                    let v: Vec<SqlValRef> = v.iter().map(|v| v.as_ref()).collect();
                    format!("{:?}", $tr::insert_returning_pk(c, "t", &ab(), &id(), &v)$($aw)*)
                }
                Op::InsertOnly(a, b) => {
                    let v = s(a, b, None);
                    let v: Vec<SqlValRef> = v.iter().map(|v| v.as_ref()).collect();
                    format!("{:?}", $tr::insert_only(c, "t", &ab(), &v)$($aw)*)
                }
                Op::Replace(k, a, b) => {
                    let v = s(a, b, Some(k));
                    let v: Vec<SqlValRef> = v.iter().map(|v| v.as_ref()).collect();
                    format!("{:?}", $tr::insert_or_replace(c, "t", &all(), &id(), &v)$($aw)*)
                }
                Op::Update(k, a, b) => {
                    let v = s(a, b, None);
                    let v: Vec<SqlValRef> = v.iter().map(|v| v.as_ref()).collect();
                    format!("{:?}", $tr::update(c, "t", id(), k.as_ref(), &ab(), &v)$($aw)*)
                }
                Op::UpdateNone(k) => format!("{:?}", $tr::update(c, "t", id(), k.as_ref(), &[], &[])$($aw)*),
                Op::Delete(k) => format!("{:?}", $tr::delete(c, "t", "id", k.clone())$($aw)*),
                Op::DeleteWhere(e) => format!("{:?}", $tr::delete_where(c, "t", e.clone())$($aw)*),
                Op::HasTable(t) => format!("{:?}", $tr::has_table(c, t)$($aw)*),
            }
        }
    };
}
apply!(apply, ConnectionMethods, (), ());
apply!(apply_async, ConnectionMethodsAsync, (async), (.await));
/// the answer without an error's text
pub fn plain(a: String) -> String {
    if a.starts_with("Err") {
        "Err".into()
    } else {
        a
    }
}
