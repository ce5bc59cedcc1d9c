//! C01 (structure of conditions) and C02 (markers and values), against the text sent to a
//! PostgreSQL server and against SQLite's and Turso's answers.
use crate::check;
use crate::common::*;
use crate::exprs::*;
use crate::pgsrv::*;
use butane_core::db::{Column, ConnectionMethodsAsync};
use butane_core::query::BoolExpr;
use butane_core::SqlType;

pub fn prop(id: &'static str) -> Prop {
    let en = enumerated();
    let n = en.len();
    let mut pg: Option<Pg> = None;
    let mut eval = crate::evaldb::EvalDb::new();
    Prop {
        id,
        rule: "filter expressions: every connective over pairs of connectives and leaves, then random ones to depth 5; non-trivial: at least one comparison. Statement text and bound values as received by a PostgreSQL server, read back with SQL precedence; every third case also evaluated on SQLite (and Turso) tables against an independent evaluator",
        enumerated: n,
        run: Box::new(move |c, ctx| {
            let pg = pg.get_or_insert_with(Pg::new);
            let (e, seed) = match c {
                Case::Enum(i) => (en[i].clone(), i as u64),
                Case::Rand(s) => {
                    let mut r = Rng::new(s);
                    let d = 1 + r.below(5);
                    (gen_expr(&mut r, d), s)
                }
            };
            pg_case(id, pg, &e, seed % 2 == 0)?;
            #[cfg(feature = "turso")]
            turso_case(id, &e)?;
            if seed % 3 == 0 || matches!(c, Case::Enum(i) if i < 60) {
                eval.case(seed, ctx)?;
            }
            Ok(format!("{e:?}"))
        }),
    }
}
fn pg_case(id: &str, pg: &mut Pg, e: &BoolExpr, del: bool) -> Result<(), Fail> {
    let mut want = vec![];
    values_of(e, &mut want);
    pg.oids(want.iter().map(|k| oid_of(k)).collect());
    pg.srv.take();
    let cols = [Column::new("order", SqlType::Int)];
    let head;
    let conn = &pg.conn;
    if del {
        pg.rt.block_on(async { conn.delete_where("group", e.clone()).await }).map_err(|x| Fail { id: "error".into(), what: format!("delete_where of {e:?}: {x}") })?;
        head = "DELETE FROM \"group\" WHERE ";
    } else {
        pg.rows(vec![("order".into(), 23)], vec![]);
        pg.rt.block_on(async { conn.query("group", &cols, Some(e.clone()), None, None, None).await.map(|_| ()) }).map_err(|x| Fail { id: "error".into(), what: format!("query of {e:?}: {x}") })?;
        head = "SELECT \"order\" FROM \"group\" WHERE ";
    }
    let st = pg.stmts();
    check!(st.len() == 1, "statements", "{} statements for one call: {st:?}", st.len());
    let (sql, params) = &st[0];
    let Some(w) = sql.strip_prefix(head) else { return fail("statement", format!("statement does not start with {head:?}: {sql}")) };
    judge(id, e, w, sql, params)
}
/// the condition Turso's generator makes of the expression, and the values it binds
#[cfg(feature = "turso")]
fn turso_case(id: &str, e: &BoolExpr) -> Result<(), Fail> {
    let (sql, vals) = butane_core::db::turso::verif::where_sql(e.clone());
    let (mut w, mut q, mut n) = (String::new(), None, 0);
    for c in sql.chars() {
        match (c, q) {
            ('?', None) => {
                n += 1;
                w.push_str(&format!("${n}"));
                continue;
            }
            ('\'' | '"', None) => q = Some(c),
            (c, Some(d)) if c == d => q = None,
            _ => {}
        }
        w.push(c);
    }
    let vals: Vec<String> = vals.iter().map(vkey).collect();
    judge(id, e, &w, &sql, &vals)
}
fn judge(id: &str, e: &BoolExpr, w: &str, sql: &str, params: &Vec<String>) -> Result<(), Fail> {
    let mut want = vec![];
    values_of(e, &mut want);
    let mut p = Parser::new(w).map_err(|x| Fail { id: "syntax".into(), what: format!("{x} in: {sql}") })?;
    let marks = marker_seq(&p.t);
    let got = p.cond().and_then(|n| p.end().map(|_| n));
    let got = got.map_err(|x| Fail { id: "syntax".into(), what: format!("{x} in: {sql}") })?;
    let n = norm(e);
    if id == "C01" {
        check!(same_shape(&n, &got), "meaning", "expression {e:?} became {sql}, which SQL reads as {got:?}");
    } else {
        check!(marks == (1..=marks.len()).collect::<Vec<_>>(), "markers", "marker numbers are {marks:?} in {sql}");
        check!(marks.len() == params.len(), "count", "{} markers but {} values: {sql}", marks.len(), params.len());
        check!(&want == params, "values", "values of {e:?} are {want:?}, bound were {params:?} for {sql}");
        if same_shape(&n, &got) {
            let res = resolve(&got, params);
            check!(res == n, "correspondence", "expression {e:?} sent as {sql} with {params:?} stands for {res:?}");
        }
    }
    Ok(())
}
