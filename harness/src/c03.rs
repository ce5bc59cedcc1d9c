//! C03: generated select, insert, upsert, update and delete statements: their text as received by
//! a PostgreSQL server, and their effect on SQLite (and Turso) tables against a table model.
use crate::check;
use crate::common::*;
use crate::exprs::*;
use crate::pgsrv::*;
use butane_core::db::{BackendRows, Column, Connection, ConnectionMethods, ConnectionMethodsAsync};
use butane_core::query::{BoolExpr, Expr, Order, OrderDirection};
use butane_core::{SqlType, SqlVal, SqlValRef};
use std::collections::BTreeMap;

const TABLES: &[&str] = &["group", "plain", "select", "Mixed", "table"];
const NAMES: &[&str] = &["a", "order", "b", "limit", "user", "name", "c1", "where", "zz"];
#[derive(Clone, Debug)]
pub enum Op {
    Insert { ret: bool, cols: Vec<usize>, vals: Vec<SqlVal> },
    Upsert { cols: Vec<usize>, vals: Vec<SqlVal> },
    Update { pk: i32, cols: Vec<usize>, vals: Vec<SqlVal> },
    /// key 0: null
    Delete { pk: i32 },
    DeleteWhere { col: usize, val: SqlVal },
    Query { cols: Vec<usize>, filt: Option<(usize, SqlVal)>, limit: Option<i32>, offset: Option<i32>, order: Option<Vec<(usize, bool)>> },
}
#[derive(Clone, Debug)]
pub struct Sc {
    table: &'static str,
    /// column 0 is the key
    cols: Vec<(&'static str, bool)>,
    ops: Vec<Op>,
}
fn val(r: &mut Rng, text: bool) -> SqlVal {
    if r.chance(1, 8) {
        SqlVal::Null
    } else if text {
        SqlVal::Text(r.pick(&["x", "y'", "", "ü", "$1", "?"]).to_string())
    } else {
        SqlVal::Int(r.below(5) as i32 - 2)
    }
}
fn scenario(r: &mut Rng) -> Sc {
    let mut pool = NAMES.to_vec();
    let n = if r.chance(1, 6) {
        pool.extend(["c2", "c3", "c4", "c5", "c6", "c7"]);
        6 + r.below(8)
    } else {
        1 + r.below(5)
    };
    let mut cols = vec![];
    for i in 0..n {
        let k = r.below(pool.len());
        let nm = pool.remove(k);
        cols.push((if i == 0 && r.chance(1, 2) { "id" } else { nm }, i > 0 && r.chance(1, 2)));
    }
    let mut ops = vec![];
    let some = |r: &mut Rng, with_pk: bool| {
        let mut v: Vec<usize> = (if with_pk { 0 } else { 1 }..n).filter(|i| *i == 0 || r.chance(3, 4)).collect();
        for i in (1..v.len()).rev() {
            let j = r.below(i + 1);
            v.swap(i, j);
        }
        v
    };
    for _ in 0..2 + r.below(9) {
        let vals = |r: &mut Rng, c: &[usize]| -> Vec<SqlVal> { c.iter().map(|i| if *i == 0 { SqlVal::Int(1 + r.below(6) as i32) } else { val(r, cols[*i].1) }).collect() };
        ops.push(match r.below(10) {
            0 | 1 => {
                let c = some(r, false);
                Op::Insert { ret: r.chance(2, 3), vals: vals(r, &c), cols: c }
            }
            2 | 3 | 4 => {
                let c = some(r, true);
                Op::Upsert { vals: vals(r, &c), cols: c }
            }
            5 | 6 => {
                let c = some(r, false);
                if c.is_empty() {
                    continue;
                }
                Op::Update { pk: 1 + r.below(6) as i32, vals: vals(r, &c), cols: c }
            }
            7 => Op::Delete { pk: if r.chance(1, 8) { 0 } else { 1 + r.below(6) as i32 } },
            8 if n > 1 => {
                let c = 1 + r.below(n - 1);
                Op::DeleteWhere { col: c, val: SqlVal::Int(r.below(5) as i32 - 2) }
            }
            _ => {
                let mut c = some(r, true);
                c.truncate(1 + r.below(n));
                if r.chance(1, 6) {
                    let k = r.below(c.len());
                    c.insert(k, c[k]);
                }
                let o = r.chance(2, 3).then(|| {
                    let mut o: Vec<(usize, bool)> = some(r, false).into_iter().take(2).map(|i| (i, r.chance(1, 2))).collect();
                    o.push((0, r.chance(1, 2)));
                    o
                });
                Op::Query {
                    cols: c,
                    filt: if n > 1 && r.chance(1, 2) { Some((1 + r.below(n - 1), SqlVal::Int(r.below(5) as i32 - 2))) } else { None },
                    limit: r.chance(1, 2).then(|| r.below(4) as i32),
                    offset: r.chance(1, 3).then(|| r.below(3) as i32),
                    order: o,
                }
            }
        });
    }
    Sc { table: r.pick(TABLES), cols, ops }
}
impl Sc {
    fn col(&self, i: usize) -> Column {
        Column::new(self.cols[i].0, if self.cols[i].1 { SqlType::Text } else { SqlType::Int })
    }
    fn colv(&self, c: &[usize]) -> Vec<Column> {
        c.iter().map(|i| self.col(*i)).collect()
    }
    fn order(&self, o: &Option<Vec<(usize, bool)>>) -> Option<Vec<Order>> {
        o.as_ref().map(|o| o.iter().map(|(i, d)| Order { column: self.cols[*i].0, direction: if *d { OrderDirection::Descending } else { OrderDirection::Ascending } }).collect())
    }
    fn filt(&self, f: &Option<(usize, SqlVal)>) -> Option<BoolExpr> {
        f.as_ref().map(|(i, v)| BoolExpr::Ne(self.cols[*i].0, Expr::Val(v.clone())))
    }
}
fn refs(v: &[SqlVal]) -> Vec<SqlValRef<'_>> {
    v.iter().map(|x| x.as_ref()).collect()
}
// ---- PostgreSQL: the statement text ----
#[derive(Debug, Clone)]
enum X {
    K(&'static str),
    N(String),
    P(&'static str),
    M(usize),
    I(i64),
}
fn matches(t: &T, x: &X) -> bool {
    match (t, x) {
        (T::Id(s), X::K(k)) => s.eq_ignore_ascii_case(k),
        (T::Id(s), X::N(n)) => s == n && !RESERVED.contains(&s.to_uppercase().as_str()),
        (T::Q(s), X::N(n)) => s == n,
        (T::P(s), X::P(p)) => s == p,
        (T::Mark(i), X::M(j)) => i == j,
        (T::Num(i), X::I(j)) => i == j,
        _ => false,
    }
}
fn list(out: &mut Vec<X>, names: &[Column]) {
    for (i, n) in names.iter().enumerate() {
        if i > 0 {
            out.push(X::P(","));
        }
        out.push(X::N(n.name().into()));
    }
}
fn marks(out: &mut Vec<X>, n: usize) {
    for i in 0..n {
        if i > 0 {
            out.push(X::P(","));
        }
        out.push(X::M(i + 1));
    }
}
fn expected(s: &Sc, op: &Op) -> (Vec<X>, Vec<SqlVal>) {
    use X::*;
    let t = N(s.table.into());
    let pk = N(s.cols[0].0.into());
    let mut o = vec![];
    match op {
        Op::Insert { ret, cols, vals } => {
            o.extend([K("insert"), K("into"), t]);
            if cols.is_empty() {
                o.extend([K("default"), K("values")]);
            } else {
                o.push(P("("));
                list(&mut o, &s.colv(cols));
                o.extend([P(")"), K("values"), P("(")]);
                marks(&mut o, cols.len());
                o.push(P(")"));
            }
            if *ret {
                o.extend([K("returning"), pk]);
            }
            (o, vals.clone())
        }
        Op::Upsert { cols, vals } => {
            o.extend([K("insert"), K("into"), t, P("(")]);
            list(&mut o, &s.colv(cols));
            o.extend([P(")"), K("values"), P("(")]);
            marks(&mut o, cols.len());
            o.extend([P(")"), K("on"), K("conflict"), P("("), pk, P(")"), K("do")]);
            if cols.len() > 1 {
                o.extend([K("update"), K("set"), P("(")]);
                list(&mut o, &s.colv(cols));
                o.extend([P(")"), P("="), P("(")]);
                for (i, c) in s.colv(cols).iter().enumerate() {
                    if i > 0 {
                        o.push(P(","));
                    }
                    o.extend([K("excluded"), P("."), N(c.name().into())]);
                }
                o.push(P(")"));
            } else {
                o.push(K("nothing"));
            }
            (o, vals.clone())
        }
        Op::Update { pk: k, cols, vals } => {
            o.extend([K("update"), t, K("set")]);
            for (i, c) in s.colv(cols).iter().enumerate() {
                if i > 0 {
                    o.push(P(","));
                }
                o.extend([N(c.name().into()), P("="), M(i + 1)]);
            }
            o.extend([K("where"), pk, P("="), M(cols.len() + 1)]);
            let mut v = vals.clone();
            v.push(SqlVal::Int(*k));
            (o, v)
        }
        Op::Delete { pk: k } => {
            o.extend([K("delete"), K("from"), t, K("where"), pk]);
            o.extend(if *k == 0 { [K("is"), K("null")] } else { [P("="), I(*k as i64)] });
            (o, vec![])
        }
        Op::DeleteWhere { col, val } => {
            let SqlVal::Int(i) = val else { unreachable!() };
            o.extend([K("delete"), K("from"), t, K("where"), N(s.cols[*col].0.into()), P("<>"), I(*i as i64)]);
            (o, vec![])
        }
        Op::Query { cols, filt, limit, offset, order } => {
            o.push(K("select"));
            list(&mut o, &s.colv(cols));
            o.extend([K("from"), t]);
            if let Some((c, SqlVal::Int(i))) = filt {
                o.extend([K("where"), N(s.cols[*c].0.into()), P("<>"), I(*i as i64)]);
            }
            if let Some(ord) = order {
                o.extend([K("order"), K("by")]);
                for (i, (c, d)) in ord.iter().enumerate() {
                    if i > 0 {
                        o.push(P(","));
                    }
                    o.extend([N(s.cols[*c].0.into()), K(if *d { "desc" } else { "asc" })]);
                }
            }
            if let Some(l) = limit {
                o.extend([K("limit"), I(*l as i64)]);
            }
            if let Some(l) = offset {
                o.extend([K("offset"), I(*l as i64)]);
            }
            (o, vec![])
        }
    }
}
pub fn pg_op(pg: &Pg, s: &Sc, op: &Op) -> Result<(), Fail> {
    let c = &pg.conn;
    let (want, vals) = expected(s, op);
    pg.oids(vals.iter().map(|k| if let SqlVal::Int(_) = k { 23 } else { oid_of(&vkey(k)) }).collect());
    let pk = s.col(0);
    pg.rows(vec![("x".into(), 23)], vec![vec![Some(7i32.to_be_bytes().to_vec())]]);
    pg.srv.take();
    let e = |x: butane_core::Error| Fail { id: "error".into(), what: format!("{op:?} on {}: {x}", s.table) };
    pg.rt.block_on(async {
        match op {
            Op::Insert { ret: true, cols, vals } => {
                let k = c.insert_returning_pk(s.table, &s.colv(cols), &pk, &refs(vals)).await.map_err(e)?;
                check!(k == SqlVal::Int(7), "returned-key", "{op:?}: the database returned key 7, the call {k:?}");
                Ok(())
            }
            Op::Insert { cols, vals, .. } => c.insert_only(s.table, &s.colv(cols), &refs(vals)).await.map_err(e),
            Op::Upsert { cols, vals } => c.insert_or_replace(s.table, &s.colv(cols), &pk, &refs(vals)).await.map_err(e),
            Op::Update { pk: k, cols, vals } => c.update(s.table, pk.clone(), SqlValRef::Int(*k), &s.colv(cols), &refs(vals)).await.map_err(e),
            Op::Delete { pk: k } => c.delete(s.table, s.cols[0].0, if *k == 0 { SqlVal::Null } else { SqlVal::Int(*k) }).await.map_err(e),
            Op::DeleteWhere { .. } => {
                let Op::DeleteWhere { col, val } = op else { unreachable!() };
                pg.srv.st.lock().unwrap().affected = 5;
                let n = c.delete_where(s.table, s.filt(&Some((*col, val.clone()))).unwrap()).await.map_err(e)?;
                check!(n == 5, "count", "{op:?}: 5 rows were affected, the call says {n}");
                Ok(())
            }
            Op::Query { cols, filt, limit, offset, order } => {
                pg.rows(cols.iter().map(|i| (s.cols[*i].0.to_string(), if s.cols[*i].1 { 25 } else { 23 })).collect(), vec![]);
                let o = s.order(order);
                c.query(s.table, &s.colv(cols), s.filt(filt), *limit, *offset, o.as_deref()).await.map(|_| ()).map_err(e)
            }
        }
    })?;
    let st = pg.stmts();
    check!(st.len() == 1, "statements", "{} statements for {op:?}: {st:?}", st.len());
    let (sql, params) = &st[0];
    let toks = lex(sql).map_err(|x| Fail { id: "syntax".into(), what: format!("{x}: {sql}") })?;
    let toks: Vec<T> = toks.into_iter().filter(|t| *t != T::P(";".into())).collect();
    let ok = toks.len() == want.len() && toks.iter().zip(&want).all(|(t, x)| matches(t, x));
    check!(ok, "statement", "{op:?} on table {} with columns {:?} became: {sql}; expected {want:?}", s.table, s.cols);
    let wv: Vec<String> = vals.iter().map(vkey).collect();
    check!(&wv == params, "values", "{op:?}: values {wv:?}, bound {params:?} for {sql}");
    Ok(())
}
// ---- engines ----
type Row = BTreeMap<usize, String>;
pub enum Eng {
    Lite(Connection),
    #[cfg(feature = "turso")]
    Turso(tokio::runtime::Runtime, butane_core::db::ConnectionAsync),
}
macro_rules! call {
    ($e:expr, $m:ident ( $($a:expr),* )) => { match $e {
        Eng::Lite(c) => ConnectionMethods::$m(c, $($a),*),
        #[cfg(feature = "turso")]
        Eng::Turso(rt, c) => rt.block_on(ConnectionMethodsAsync::$m(c, $($a),*)),
    } };
}
fn cell(v: SqlVal) -> String {
    vkey(&v)
}
impl Eng {
    pub fn rows(&self, t: &str, cols: &[Column], e: Option<BoolExpr>, l: Option<i32>, o: Option<i32>, s: Option<&[Order]>) -> Result<Vec<Vec<String>>, butane_core::Error> {
        fn drain(mut rows: Box<dyn BackendRows + '_>, cols: &[Column]) -> Result<Vec<Vec<String>>, butane_core::Error> {
            let mut out = vec![];
            while let Some(r) = rows.next()? {
                out.push((0..cols.len()).map(|i| Ok(cell(r.get(i, cols[i].ty().clone())?.into()))).collect::<Result<Vec<_>, butane_core::Error>>()?);
            }
            Ok(out)
        }
        match self {
            Eng::Lite(c) => drain(ConnectionMethods::query(c, t, cols, e, l, o, s)?, cols),
            #[cfg(feature = "turso")]
            Eng::Turso(rt, c) => rt.block_on(async { drain(ConnectionMethodsAsync::query(c, t, cols, e, l, o, s).await?, cols) }),
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Eng::Lite(_) => "sqlite",
            #[cfg(feature = "turso")]
            Eng::Turso(..) => "turso",
        }
    }
}
fn run(eng: &Eng, s: &Sc, tables: bool) -> Result<(), Fail> {
    let q = |n: &str| format!("\"{n}\"");
    let mut ddl = format!("CREATE TABLE {} ({} INTEGER PRIMARY KEY", q(s.table), q(s.cols[0].0));
    for (n, t) in &s.cols[1..] {
        ddl += &format!(", {} {}", q(n), if *t { "TEXT" } else { "INTEGER" });
    }
    ddl += ")";
    let er = |x: butane_core::Error| Fail { id: "setup".into(), what: format!("{x}") };
    call!(eng, execute(&format!("DROP TABLE IF EXISTS {}", q(s.table)))).map_err(er)?;
    call!(eng, execute(&ddl)).map_err(er)?;
    let w = |x: &str| x.to_string();
    for (n, there) in if tables { vec![(w(s.table), true), (w("%"), false), (w(""), false), (format!("_{}", &s.table[1..]), false), (format!("{}%", &s.table[..2]), false), (format!("{}'", s.table), false), (format!("{}x", s.table), false)] } else { vec![] } {
        let got = call!(eng, has_table(&n)).map_err(er)?;
        check!(got == there, "has-table", "{}: a database whose tables are {} and perhaps others of {TABLES:?}: a table named {n:?} exists: {got}", eng.name(), s.table);
    }
    let mut model: Vec<(i32, Row)> = vec![];
    let null = || "NULL".to_string();
    let pk = s.col(0);
    let all: Vec<usize> = (0..s.cols.len()).collect();
    for op in &s.ops {
        let e = |x: butane_core::Error| Fail { id: "error".into(), what: format!("{}: {op:?} on {} {:?}: {x}", eng.name(), s.table, s.cols) };
        match op {
            Op::Insert { ret, cols, vals } => {
                let k = model.iter().map(|r| r.0).max().unwrap_or(0) + 1;
                let mut row: Row = (1..s.cols.len()).map(|i| (i, null())).collect();
                for (c, v) in cols.iter().zip(vals) {
                    row.insert(*c, vkey(v));
                }
                row.insert(0, format!("int:{k}"));
                if *ret {
                    let g = call!(eng, insert_returning_pk(s.table, &s.colv(cols), &pk, &refs(vals))).map_err(e)?;
                    check!(g == SqlVal::Int(k), "returned-key", "{}: {op:?} inserted key {k}, returned {g:?}", eng.name());
                } else {
                    call!(eng, insert_only(s.table, &s.colv(cols), &refs(vals))).map_err(e)?;
                }
                model.push((k, row));
            }
            Op::Upsert { cols, vals } => {
                let kv = cols.iter().zip(vals).find(|(c, _)| **c == 0).unwrap().1;
                let SqlVal::Int(k) = kv else { unreachable!() };
                call!(eng, insert_or_replace(s.table, &s.colv(cols), &pk, &refs(vals))).map_err(e)?;
                let pos = model.iter().position(|r| r.0 == *k);
                let pos = pos.unwrap_or_else(|| {
                    model.push((*k, (1..s.cols.len()).map(|i| (i, null())).chain([(0, format!("int:{k}"))]).collect()));
                    model.len() - 1
                });
                for (c, v) in cols.iter().zip(vals) {
                    model[pos].1.insert(*c, vkey(v));
                }
            }
            Op::Update { pk: k, cols, vals } => {
                call!(eng, update(s.table, pk.clone(), SqlValRef::Int(*k), &s.colv(cols), &refs(vals))).map_err(e)?;
                for r in model.iter_mut().filter(|r| r.0 == *k) {
                    for (c, v) in cols.iter().zip(vals) {
                        r.1.insert(*c, vkey(v));
                    }
                }
            }
            Op::Delete { pk: k } => {
                call!(eng, delete(s.table, s.cols[0].0, if *k == 0 { SqlVal::Null } else { SqlVal::Int(*k) })).map_err(e)?;
                model.retain(|r| r.0 != *k);
            }
            Op::DeleteWhere { col, val } => {
                let n = call!(eng, delete_where(s.table, s.filt(&Some((*col, val.clone()))).unwrap())).map_err(e)?;
                let b = model.len();
                let w = vkey(val);
                model.retain(|r| r.1[col] == "NULL" || r.1[col] == w);
                check!(n == b - model.len(), "count", "{}: {op:?} deleted {} rows, the call says {n}", eng.name(), b - model.len());
            }
            Op::Query { cols, filt, limit, offset, order } => {
                let o = s.order(order);
                let got = eng.rows(s.table, &s.colv(cols), s.filt(filt), *limit, *offset, o.as_deref()).map_err(e)?;
                let mut rows: Vec<&(i32, Row)> = model.iter().filter(|r| filt.as_ref().map(|(c, v)| r.1[c] != "NULL" && r.1[c] != vkey(v)).unwrap_or(true)).collect();
                rows.sort_by(|x, y| {
                    for (c, d) in order.as_deref().unwrap_or(&[]) {
                        let o = key(&x.1[c]).cmp(&key(&y.1[c]));
                        let o = if *d { o.reverse() } else { o };
                        if o.is_ne() {
                            return o;
                        }
                    }
                    std::cmp::Ordering::Equal
                });
                let total = rows.len();
                let proj = |r: &(i32, Row)| cols.iter().map(|c| r.1[c].clone()).collect::<Vec<_>>();
                let mut want: Vec<Vec<String>> = rows.into_iter().map(proj).collect();
                let off = offset.unwrap_or(0) as usize;
                let n = total.saturating_sub(off).min(limit.unwrap_or(i32::MAX) as usize);
                if order.is_some() {
                    want = want.into_iter().skip(off).take(n).collect();
                    check!(got == want, "query", "{}: {op:?} on {} {:?} with rows {model:?} returned {got:?}, expected {want:?}", eng.name(), s.table, s.cols);
                } else {
                    check!(got.len() == n, "query-count", "{}: {op:?} on {model:?} returned {got:?}, expected {n} rows", eng.name());
                    for g in &got {
                        let Some(p) = want.iter().position(|w| w == g) else { return fail("query", format!("{}: {op:?} on {model:?} returned {g:?}", eng.name())) };
                        want.remove(p);
                    }
                }
            }
        }
        let mut got = eng.rows(s.table, &s.colv(&all), None, None, None, None).map_err(e)?;
        let mut want: Vec<Vec<String>> = model.iter().map(|r| all.iter().map(|c| r.1[c].clone()).collect()).collect();
        got.sort();
        want.sort();
        check!(got == want, "effect", "{}: after {op:?} on {} {:?} the rows are {got:?}, expected {want:?}; history {:?}", eng.name(), s.table, s.cols, s.ops);
    }
    Ok(())
}
/// null first, integers by value, text by bytes
fn key(s: &str) -> (u8, i64, String) {
    if s == "NULL" {
        (0, 0, String::new())
    } else if let Some(i) = s.strip_prefix("int:") {
        (1, i.parse().unwrap(), String::new())
    } else {
        let t: String = serde_json::from_str(s.strip_prefix("text:").unwrap()).unwrap();
        (2, 0, t)
    }
}
pub fn lite() -> Eng {
    Eng::Lite(butane_core::db::connect(&butane_core::db::ConnectionSpec::new("sqlite", ":memory:")).unwrap())
}
#[cfg(feature = "turso")]
pub fn turso() -> Eng {
    use butane_core::db::Backend;
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let c = rt.block_on(butane_core::db::turso::TursoBackend::new().connect_async(":memory:")).unwrap();
    Eng::Turso(rt, c)
}
pub fn prop() -> Prop {
    let mut pg: Option<Pg> = None;
    let mut l: Option<Eng> = None;
    Prop {
        id: "C03",
        rule: "histories of up to ten inserts, upserts, updates, deletes and queries over a table of one to five (or up to thirteen) columns, reserved words among the names; every statement as received by a PostgreSQL server compared token by token, and its effect on SQLite (every fourth: Turso) compared with a table model after every step",
        enumerated: 0,
        run: Box::new(move |c, _ctx| {
            let Case::Rand(seed) = c else { unreachable!() };
            let s = scenario(&mut Rng::new(seed));
            let pg = pg.get_or_insert_with(Pg::new);
            for op in &s.ops {
                pg_op(pg, &s, op)?;
            }
            run(l.get_or_insert_with(lite), &s, true)?;
            #[cfg(feature = "turso")]
            if seed % 4 == 0 {
                run(&turso(), &s, true)?;
            }
            Ok(format!("{s:?}"))
        }),
    }
}

/// every eighth random case of a property that rests on these statements is a history of the operations it rests on
pub fn also(p: Prop, keep: fn(&Op) -> bool) -> Prop {
    let Prop { id, rule, enumerated, mut run } = p;
    let mut pg: Option<Pg> = None;
    let mut l: Option<Eng> = None;
    Prop {
        id,
        rule: Box::leak(format!("{rule}; every eighth: a history of the statements it rests on, over random tables, against a table model and as received by a PostgreSQL server").into_boxed_str()),
        enumerated,
        run: Box::new(move |c, ctx| {
            let Case::Rand(seed) = c else { return run(c, ctx) };
            if seed % 8 != 3 {
                return run(c, ctx);
            }
            let mut s = scenario(&mut Rng::new(seed));
            s.ops.retain(|o| keep(o) || matches!(o, Op::Insert { .. }));
            let pg = pg.get_or_insert_with(Pg::new);
            for op in s.ops.iter().filter(|o| keep(o)) {
                pg_op(pg, &s, op)?;
            }
            self::run(l.get_or_insert_with(lite), &s, false)?;
            #[cfg(feature = "turso")]
            self::run(&turso(), &s, false)?;
            Ok(format!("{s:?}"))
        }),
    }
}
