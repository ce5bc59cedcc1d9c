//! C15: a query asks for exactly what was configured; field expressions build what they are named after.
use crate::check;
use crate::common::*;
use crate::models::*;
use crate::probe::*;
use butane_core::db::Column;
use butane_core::fkey::ForeignKey;
use butane_core::query::{BoolExpr, Column as QColumn, Expr, FieldExpr, Join, Order, OrderDirection, Query, QueryOpsAsync, QueryOpsSync};
use butane_core::{AutoPk, FromSql, DataObject, DataResult, Result, SqlVal, SqlValRef};
use std::borrow::Cow;

fn texts(r: &mut Rng) -> String {
    r.pick(&["", "a", "b", "it's", "%", "ü"]).to_string()
}
fn post_filter(r: &mut Rng, d: usize) -> BoolExpr {
    match r.below(if d == 0 { 6 } else { 10 }) {
        0 => PostFields.title().eq(&texts(r)),
        1 => PostFields.num().lt(&Some(r.below(5) as i32)),
        2 => BoolExpr::In("id", (0..r.below(4)).map(|i| SqlVal::BigInt(i as i64)).collect()),
        3 => BoolExpr::True,
        4 => PostFields.tags().contains(TagFields.name().eq(&texts(r))),
        5 => PostFields.title().like(texts(r)),
        6 => BoolExpr::Not(Box::new(post_filter(r, d - 1))),
        7 => BoolExpr::AllOf((0..r.below(3)).map(|_| post_filter(r, d - 1)).collect()),
        8 => BoolExpr::Or(Box::new(post_filter(r, d - 1)), Box::new(post_filter(r, d - 1))),
        _ => BoolExpr::And(Box::new(post_filter(r, d - 1)), Box::new(post_filter(r, d - 1))),
    }
}
fn dir(d: &OrderDirection) -> OrderDirection {
    d.clone()
}
struct C15 {
    db: Probe,
}
fn show(p: &Post) -> String {
    format!("{:?} {} {:?}", p.id, p.title, p.num)
}
impl C15 {
    fn queries(&mut self, r: &mut Rng) -> R {
        let db = self.db.clone();
        db.raw("DELETE FROM post");
        let n = r.below(7);
        for i in 0..n {
            db.raw(&format!("INSERT INTO post (id, title, num) VALUES ({}, '{}', {})", i * 3 + 1, r.pick(&["a", "b", "c"]), r.below(4)));
        }
        let (mut filter, mut limit, mut offset, mut sort) = (None, None, None, vec![]);
        let mut q: Query<Post> = if r.chance(1, 2) { Post::query() } else { Query::new("post") };
        let mut steps = String::new();
        for _ in 0..r.below(7) {
            match r.below(8) {
                0 | 1 => {
                    let f = post_filter(r, 2);
                    steps += &format!(".filter({f:?})");
                    filter = Some(f.clone());
                    q = q.filter(f);
                }
                2 => {
                    let l = *r.pick(&[0, 1, 2, 5, i32::MAX]);
                    steps += &format!(".limit({l})");
                    limit = Some(l);
                    q = q.limit(l);
                }
                3 => {
                    let o = *r.pick(&[0, 1, 3, i32::MAX]);
                    steps += &format!(".offset({o})");
                    offset = Some(o);
                    q = q.offset(o);
                }
                k => {
                    let c = *r.pick(&["title", "num", "id"]);
                    let d = if k == 4 || k == 7 && r.chance(1, 2) { OrderDirection::Ascending } else { OrderDirection::Descending };
                    steps += &format!(".order({c},{d:?})");
                    sort.push(Order { direction: dir(&d), column: c });
                    q = match (k, &d) {
                        (4, _) => q.order_asc(c),
                        (5, _) => q.order_desc(c),
                        _ => q.order(c, d),
                    };
                }
            }
            if r.chance(1, 5) {
                q = q.clone();
            }
        }
        // without OFFSET but a limit SQLite refuses nothing; an offset without limit is legal in butane
        let asy = r.chance(1, 2);
        let what = r.below(4);
        let name = format!("Post::query(){steps}, {} of {n} rows{}", ["load", "load_first", "delete", "failing"][what], if asy { ", asynchronous" } else { "" });
        db.take();
        let want_q = |l: Option<i32>| ev_query("post", Post::COLUMNS, &filter, l, offset, Some(&sort));
        let raw = |l: Option<i32>| -> Result<Vec<Post>> {
            use butane_core::db::BackendRows;
            let g = db.inner.lock().unwrap();
            let mut rows = butane_core::db::ConnectionMethods::query(&*g, "post", Post::COLUMNS, filter.clone(), l, offset, if sort.is_empty() { None } else { Some(&sort) })?;
            let mut v = vec![];
            while let Some(x) = rows.next()? {
                v.push(Post::from_row(x)?);
            }
            Ok(v)
        };
        match what {
            0 | 3 => {
                let want: Result<Vec<String>> = raw(limit).map(|v| v.iter().map(show).collect());
                if what == 3 {
                    db.fail_at(Some(0));
                }
                let got = if asy { now(QueryOpsAsync::load(q, &db)) } else { QueryOpsSync::load(q, &db) };
                let log = db.take();
                check!(log.len() == 1 && log[0].0 == want_q(limit), "query-sent", "{name}: sends {log:?}, configured {}", want_q(limit));
                if what == 3 {
                    check!(got.is_err(), "query-result", "{name}: a failed query gives {} objects", got.unwrap().len());
                    return Ok(name);
                }
                match (got, want) {
                    (Ok(g), Ok(w)) => {
                        let g: Vec<String> = g.iter().map(show).collect();
                        check!(g == w, "query-result", "{name}: gives {g:?}, the database answers {w:?}");
                    }
                    (Err(_), Err(_)) => {}
                    (g, w) => return fail("query-result", format!("{name}: gives {:?}, the database answers {w:?}", g.map(|v| v.len()))),
                }
            }
            1 => {
                let want = raw(Some(1)).map(|v| v.first().map(show));
                let got = if asy { now(QueryOpsAsync::load_first(q, &db)) } else { QueryOpsSync::load_first(q, &db) };
                let log = db.take();
                check!(log.len() == 1 && log[0].0 == want_q(Some(1)), "query-sent", "{name}: sends {log:?}, expected {}", want_q(Some(1)));
                let got = got.map(|p| p.as_ref().map(show));
                check!(format!("{got:?}") == format!("{want:?}"), "query-result", "{name}: gives {got:?}, the database answers {want:?}");
            }
            _ => {
                let keep: Vec<Vec<SqlVal>> = {
                    let g = db.inner.lock().unwrap();
                    let f = filter.clone().unwrap_or(BoolExpr::True);
                    use butane_core::db::BackendRows;
                    let mut rows = butane_core::db::ConnectionMethods::query(&*g, "post", &Post::COLUMNS[..1], Some(f), None, None, None).unwrap();
                    let mut gone = vec![];
                    while let Some(x) = rows.next().unwrap() {
                        gone.push(SqlVal::from(x.get(0, butane_core::SqlType::BigInt).unwrap()));
                    }
                    drop(rows);
                    drop(g);
                    db.rows("post", &Post::COLUMNS[..1]).into_iter().filter(|x| !gone.contains(&x[0])).collect()
                };
                let before = db.rows("post", &Post::COLUMNS[..1]).len();
                let got = if asy { now(QueryOpsAsync::delete(q, &db)) } else { QueryOpsSync::delete(q, &db) };
                let log = db.take();
                let want = format!("delete_where post {:?}", filter.clone().unwrap_or(BoolExpr::True));
                check!(log.len() == 1 && log[0].0 == want, "query-sent", "{name}: sends {log:?}, expected {want}");
                let after = db.rows("post", &Post::COLUMNS[..1]);
                check!(after == keep, "query-delete", "{name}: leaves {after:?}, expected {keep:?}");
                check!(matches!(got, Ok(k) if k == before - keep.len()), "query-delete", "{name}: reports {got:?}, {} rows went", before - keep.len());
            }
        }
        Ok(name)
    }
    fn fields(&mut self, r: &mut Rng) -> R {
        let v = |x: SqlVal| Expr::Val(x);
        let col: &'static str = r.pick(&["c", "d", "a_long_name"]);
        let f: FieldExpr<i32> = FieldExpr::new(col);
        let k = r.below(100) as i32 - 50;
        let t = texts(r);
        let b = r.below(100) as i64;
        let inner = post_filter(r, 1);
        let sub = |col: &'static str, tbl: &'static str, pk: &'static str, e: BoolExpr| BoolExpr::Subquery { col, tbl2: Cow::Borrowed(tbl), tbl2_col: pk, expr: Box::new(e) };
        let many = |link: &'static str, tbl: &'static str, pk: &'static str, e: BoolExpr| BoolExpr::SubqueryJoin {
            col: "id",
            tbl2: Cow::Borrowed(tbl),
            col2: QColumn::new(link, "owner"),
            joins: vec![Join::Inner { join_table: link, col1: QColumn::new(link, "has"), col2: QColumn::new(tbl, pk) }],
            expr: Box::new(e),
        };
        let list: Vec<i32> = (0..r.below(5)).map(|_| r.below(9) as i32).collect();
        let cases: Vec<(&str, BoolExpr, BoolExpr)> = vec![
            ("eq", f.eq(&k), BoolExpr::Eq(col, v(SqlVal::Int(k)))),
            ("ne", f.ne(&k), BoolExpr::Ne(col, v(SqlVal::Int(k)))),
            ("lt", f.lt(&k), BoolExpr::Lt(col, v(SqlVal::Int(k)))),
            ("gt", f.gt(&k), BoolExpr::Gt(col, v(SqlVal::Int(k)))),
            ("le", f.le(&k), BoolExpr::Le(col, v(SqlVal::Int(k)))),
            ("ge", f.ge(&k), BoolExpr::Ge(col, v(SqlVal::Int(k)))),
            ("like", f.like(t.clone()), BoolExpr::Like(col, v(SqlVal::Text(t.clone())))),
            ("is_in", f.is_in(list.clone()), BoolExpr::In(col, list.iter().map(|i| SqlVal::Int(*i)).collect())),
            ("optional eq", PostFields.num().eq(&None), BoolExpr::Eq("num", v(SqlVal::Null))),
            ("optional le", PostFields.num().le(&Some(k)), BoolExpr::Le("num", v(SqlVal::Int(k)))),
            ("subfilter", FieldExpr::<ForeignKey<Blog>>::new(col).subfilter(inner.clone()), sub(col, "blog", "id", inner.clone())),
            ("subfilterpk", FieldExpr::<ForeignKey<Blog>>::new(col).subfilterpk(AutoPk::from_sql_ref(SqlValRef::BigInt(b)).unwrap()), sub(col, "blog", "id", BoolExpr::Eq("id", v(SqlVal::BigInt(b))))),
            ("subfilterpk", FieldExpr::<ForeignKey<Item>>::new(col).subfilterpk(k), sub(col, "item", "code", BoolExpr::Eq("code", v(SqlVal::Int(k))))),
            ("contains", PostFields.tags().contains(inner.clone()), many("post_tags_Many", "tag", "name", inner.clone())),
            ("contains", PostFields.refs().contains(inner.clone()), many("post_refs_Many", "blog", "id", inner.clone())),
            ("containspk", PostFields.tags().containspk(t.clone()), many("post_tags_Many", "tag", "name", BoolExpr::Eq("name", v(SqlVal::Text(t.clone()))))),
        ];
        for (n, got, want) in &cases {
            check!(got == want, "field-expr", "field {col}: {n} ({k}, {t:?}, {b}, {list:?}) builds {got:?}, expected {want:?}");
        }
        check!(f.name() == col, "field-expr", "field {col} names itself {}", f.name());
        Ok(format!("field {col} {k} {t:?} {inner:?}"))
    }
    fn case(&mut self, c: Case) -> R {
        let seed = match c {
            Case::Enum(i) => i as u64 + 77,
            Case::Rand(s) => s,
        };
        let mut r = Rng::new(seed);
        if r.chance(1, 4) {
            self.fields(&mut r)
        } else {
            self.queries(&mut r)
        }
    }
}
pub fn prop() -> Prop {
    let mut s: Option<C15> = None;
    Prop {
        id: "C15",
        rule: "up to seven builder calls in random order on a query over a table with at most six rows, loaded (synchronously and asynchronously), loaded first, deleted, or failing, against a recording connection on SQLite; every field expression on random columns and values; distinct by configuration",
        enumerated: 200,
        run: Box::new(move |c, _| {
            let s = s.get_or_insert_with(|| C15 { db: Probe::sqlite(DDL) });
            s.db.fail_at(None);
            s.case(c)
        }),
    }
}
