//! Filters evaluated on small SQLite (and Turso) tables, against an independent evaluator.
use crate::check;
use crate::common::*;
use butane_core::db::{BackendRows, Column, Connection, ConnectionMethods};
use butane_core::query::{BoolExpr, Column as QColumn, Expr, Join};
use butane_core::{SqlType, SqlVal};
use std::collections::BTreeMap;

type Row = BTreeMap<&'static str, SqlVal>;
pub struct EvalDb {
    db: Option<Connection>,
    t: Vec<Row>,
    u: Vec<Row>,
    l: Vec<Row>,
}
const INTS: &[&str] = &["id", "a", "limit"];
const TEXTS: &[&str] = &["order", "s"];
fn opt(r: &mut Rng, v: SqlVal) -> SqlVal {
    if r.chance(1, 4) {
        SqlVal::Null
    } else {
        v
    }
}
fn lit(v: &SqlVal) -> String {
    match v {
        SqlVal::Null => "NULL".into(),
        SqlVal::Int(i) => i.to_string(),
        SqlVal::Text(t) => format!("'{}'", t.replace('\'', "''")),
        _ => unreachable!(),
    }
}
fn texts(r: &mut Rng) -> SqlVal {
    SqlVal::Text(r.pick(&["a", "b", "ab", "A", "", "a'b", "a%"]).to_string())
}
fn ints(r: &mut Rng) -> SqlVal {
    SqlVal::Int(r.below(4) as i32 - 1)
}
impl EvalDb {
    pub fn new() -> Self {
        let mut r = Rng::new(77);
        let mut t = vec![];
        for i in 0..24 {
            let mut m = Row::new();
            m.insert("id", SqlVal::Int(i));
            let v = ints(&mut r);
            m.insert("a", opt(&mut r, v));
            let v = ints(&mut r);
            m.insert("limit", opt(&mut r, v));
            let v = texts(&mut r);
            m.insert("order", opt(&mut r, v));
            let v = texts(&mut r);
            m.insert("s", opt(&mut r, v));
            t.push(m);
        }
        let mut u = vec![];
        for i in 0..8 {
            let mut m = Row::new();
            m.insert("uid", SqlVal::Int(i - 1));
            let v = ints(&mut r);
            m.insert("x", opt(&mut r, v));
            let v = texts(&mut r);
            m.insert("group", opt(&mut r, v));
            u.push(m);
        }
        let mut l = vec![];
        for _ in 0..14 {
            let mut m = Row::new();
            m.insert("owner", SqlVal::Int(r.below(24) as i32));
            m.insert("has", SqlVal::Int(r.below(9) as i32 - 1));
            l.push(m);
        }
        EvalDb {
            db: None,
            t,
            u,
            l,
        }
    }
    fn script(&self) -> Vec<String> {
        let mut v = vec![
            "CREATE TABLE \"table\" (id INTEGER, a INTEGER, \"limit\" INTEGER, \"order\" TEXT, s TEXT)".to_string(),
            "CREATE TABLE u (uid INTEGER, x INTEGER, \"group\" TEXT)".to_string(),
            "CREATE TABLE link (owner INTEGER, has INTEGER)".to_string(),
        ];
        let ins = |t: &str, m: &Row| {
            format!("INSERT INTO {t} ({}) VALUES ({})", m.keys().map(|k| format!("\"{k}\"")).collect::<Vec<_>>().join(","), m.values().map(lit).collect::<Vec<_>>().join(","))
        };
        v.extend(self.t.iter().map(|m| ins("\"table\"", m)));
        v.extend(self.u.iter().map(|m| ins("u", m)));
        v.extend(self.l.iter().map(|m| ins("link", m)));
        v
    }
    pub fn case(&mut self, seed: u64, _ctx: &Ctx) -> Result<(), Fail> {
        let mut r = Rng::new(seed ^ 0xabcdef);
        let d = 1 + r.below(4);
        let e = self.gen(&mut r, d, true);
        if std::env::var("VTRACE").is_ok() {
            eprintln!("{e:?}");
        }
        let want: Vec<i32> = self.t.iter().filter(|row| self.eval(&e, row, true) == Some(true)).map(|m| if let SqlVal::Int(i) = m["id"] { i } else { 0 }).collect();
        let cols = [Column::new("id", SqlType::Int)];
        if self.db.is_none() {
            let c = butane_core::db::connect(&butane_core::db::ConnectionSpec::new("sqlite", ":memory:")).unwrap();
            for s in self.script() {
                ConnectionMethods::execute(&c, &s).unwrap();
            }
            self.db = Some(c);
        }
        let db = self.db.as_ref().unwrap();
        let mut rows = db.query("table", &cols, Some(e.clone()), None, None, None).map_err(|x| Fail { id: "sqlite-error".into(), what: format!("sqlite query {e:?}: {x}") })?;
        let mut got = vec![];
        while let Some(row) = rows.next().map_err(|x| Fail { id: "sqlite-error".into(), what: format!("{x}") })? {
            let v: SqlVal = row.get(0, SqlType::Int).map_err(|x| Fail { id: "sqlite-error".into(), what: format!("{x}") })?.into();
            if let SqlVal::Int(i) = v {
                got.push(i)
            }
        }
        got.sort();
        check!(got == want, "sqlite-meaning", "filter {e:?} on SQLite selects rows {got:?}, expected {want:?}");
        Ok(())
    }
    fn gen(&self, r: &mut Rng, d: usize, outer: bool) -> BoolExpr {
        use BoolExpr::*;
        let icol: &'static str = if outer { r.pick(INTS) } else { r.pick(&["uid", "x"]) };
        let tcol: &'static str = if outer { r.pick(TEXTS) } else { "group" };
        if d == 0 || r.chance(1, 5) {
            let int = r.chance(1, 2);
            let c = if int { icol } else { tcol };
            let v = |r: &mut Rng| {
                if r.chance(1, 12) {
                    SqlVal::Null
                } else if int {
                    if r.chance(1, 3) {
                        SqlVal::BigInt(r.below(4) as i64 - 1)
                    } else {
                        ints(r)
                    }
                } else {
                    texts(r)
                }
            };
            let o = if outer && r.chance(1, 6) { Expr::Column(if int { r.pick(INTS) } else { r.pick(TEXTS) }) } else { Expr::Val(v(r)) };
            return match r.below(11) {
                0 => True,
                1 => Eq(c, o),
                2 => Ne(c, o),
                3 => Lt(c, o),
                4 => Gt(c, o),
                5 => Le(c, o),
                6 => Ge(c, o),
                7 => Like(tcol, Expr::Val(SqlVal::Text(r.pick(&["a%", "%b", "_", "a_", ""]).to_string()))),
                8 => Eq(c, Expr::Val(SqlVal::Null)),
                9 => Ne(c, Expr::Val(SqlVal::Null)),
                _ => {
                    let n = r.below(4);
                    In(c, (0..n).map(|_| v(r)).collect())
                }
            };
        }
        match r.below(if outer { 7 } else { 5 }) {
            0 => {
                let n = r.below(4);
                AllOf((0..n).map(|_| self.gen(r, d - 1, outer)).collect())
            }
            1 => And(Box::new(self.gen(r, d - 1, outer)), Box::new(self.gen(r, d - 1, outer))),
            2 | 3 => Or(Box::new(self.gen(r, d - 1, outer)), Box::new(self.gen(r, d - 1, outer))),
            4 => Not(Box::new(self.gen(r, d - 1, outer))),
            5 => {
                let int = r.chance(1, 2);
                Subquery { col: if int { icol } else { tcol }, tbl2: "u".into(), tbl2_col: if int { r.pick(&["uid", "x"]) } else { "group" }, expr: Box::new(self.gen(r, d - 1, false)) }
            }
            _ => SubqueryJoin {
                col: icol,
                tbl2: "u".into(),
                col2: QColumn::new("link", "owner"),
                joins: vec![Join::Inner { join_table: "link", col1: QColumn::new("u", "uid"), col2: QColumn::new("link", "has") }],
                expr: Box::new(self.gen(r, d - 1, false)),
            },
        }
    }
    fn eval(&self, e: &BoolExpr, row: &Row, outer: bool) -> Option<bool> {
        use BoolExpr::*;
        let val = |x: &Expr| match x {
            Expr::Column(c) => row[c].clone(),
            Expr::Val(v) => v.clone(),
            _ => unreachable!(),
        };
        let cmp = |c: &str, x: &Expr, nulltest: Option<bool>, f: &dyn Fn(std::cmp::Ordering) -> bool| -> Option<bool> {
            if let (Some(b), Expr::Val(SqlVal::Null)) = (nulltest, x) {
                return Some((row[c] == SqlVal::Null) == b);
            }
            ord(&row[c], &val(x)).map(f)
        };
        use std::cmp::Ordering as O;
        match e {
            True => Some(true),
            Eq(c, x) => cmp(c, x, Some(true), &|o| o == O::Equal),
            Ne(c, x) => cmp(c, x, Some(false), &|o| o != O::Equal),
            Lt(c, x) => cmp(c, x, None, &|o| o == O::Less),
            Gt(c, x) => cmp(c, x, None, &|o| o == O::Greater),
            Le(c, x) => cmp(c, x, None, &|o| o != O::Greater),
            Ge(c, x) => cmp(c, x, None, &|o| o != O::Less),
            Like(c, x) => match (&row[c], val(x)) {
                (SqlVal::Text(a), SqlVal::Text(p)) => Some(like(&a.to_lowercase().chars().collect::<Vec<_>>(), &p.to_lowercase().chars().collect::<Vec<_>>())),
                _ => None,
            },
            AllOf(v) => v.iter().fold(Some(true), |a, x| and3(a, self.eval(x, row, outer))),
            And(a, b) => and3(self.eval(a, row, outer), self.eval(b, row, outer)),
            Or(a, b) => not3(and3(not3(self.eval(a, row, outer)), not3(self.eval(b, row, outer)))),
            Not(a) => not3(self.eval(a, row, outer)),
            In(c, v) => member(&row[c], v),
            Subquery { col, tbl2_col, expr, .. } => {
                let s: Vec<SqlVal> = self.u.iter().filter(|u| self.eval(expr, u, false) == Some(true)).map(|u| u[tbl2_col].clone()).collect();
                member(&row[col], &s)
            }
            SubqueryJoin { col, expr, .. } => {
                let mut s = vec![];
                for u in &self.u {
                    for l in &self.l {
                        if ord(&u["uid"], &l["has"]) == Some(O::Equal) && self.eval(expr, u, false) == Some(true) {
                            s.push(l["owner"].clone());
                        }
                    }
                }
                member(&row[col], &s)
            }
        }
    }
}
fn and3(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    match (a, b) {
        (Some(false), _) | (_, Some(false)) => Some(false),
        (Some(true), Some(true)) => Some(true),
        _ => None,
    }
}
fn not3(a: Option<bool>) -> Option<bool> {
    a.map(|x| !x)
}
fn int(v: &SqlVal) -> Option<i64> {
    match v {
        SqlVal::Int(i) => Some(*i as i64),
        SqlVal::BigInt(i) => Some(*i),
        _ => None,
    }
}
fn ord(a: &SqlVal, b: &SqlVal) -> Option<std::cmp::Ordering> {
    match (a, b) {
        (SqlVal::Text(x), SqlVal::Text(y)) => Some(x.as_bytes().cmp(y.as_bytes())),
        _ => Some(int(a)?.cmp(&int(b)?)),
    }
}
fn member(x: &SqlVal, v: &[SqlVal]) -> Option<bool> {
    if v.is_empty() {
        return Some(false);
    }
    let mut r = Some(false);
    for y in v {
        match ord(x, y) {
            Some(std::cmp::Ordering::Equal) => return Some(true),
            Some(_) => {}
            None => r = None,
        }
    }
    r
}
fn like(s: &[char], p: &[char]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some('%') => (0..=s.len()).any(|i| like(&s[i..], &p[1..])),
        Some('_') => !s.is_empty() && like(&s[1..], &p[1..]),
        Some(c) => s.first() == Some(c) && like(&s[1..], &p[1..]),
    }
}
