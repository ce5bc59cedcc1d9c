// ===== specification: SQL text of an expression, and the values its placeholders stand for =====
//@include ident.rs
/// no statement has anywhere near this many parameters
pub spec const MAXPH: int = 0x7fff_ffff_ffff_ffff;
pub trait PlaceholderSource {
  spec fn ph(n: int) -> Seq<char>;   // text of the n-th placeholder
  spec fn at(&self) -> int;          // number of the next one
  spec fn adv(k: int) -> int;
  proof fn adv_ok() ensures (forall|k: int| #[trigger] Self::adv(k) == k) || (forall|k: int| #[trigger] Self::adv(k) == 0);
  fn next_placeholder(&mut self) -> (r: Cow<'_, str>)
    requires Self::adv(1) <= old(self).at() < MAXPH,
    ensures r.disp() == Self::ph(old(self).at()), final(self).at() == old(self).at() + Self::adv(1);
}
/// number of placeholders a value takes
pub open spec fn inline_val(v: SqlVal) -> bool { v is Int || v is BigInt }
pub open spec fn nph_vals(vs: Seq<SqlVal>) -> int
  decreases vs.len()
{ if vs.len() == 0 { 0 } else { nph_vals(vs.drop_last()) + (if inline_val(vs.last()) { 0int } else { 1 }) } }
pub open spec fn nph(e: Expr) -> int
  decreases e
{
  match e {
    Expr::Column(_) => 0,
    Expr::Val(v) => if inline_val(v) { 0 } else { 1 },
    Expr::Placeholder => 1,
    Expr::Condition(c) => nph_c(*c),
  }
}
pub open spec fn nph_c(c: BoolExpr) -> int
  decreases c
{
  match c {
    BoolExpr::True => 0,
    BoolExpr::Eq(_, Expr::Val(SqlVal::Null)) => 0,
    BoolExpr::Ne(_, Expr::Val(SqlVal::Null)) => 0,
    BoolExpr::Eq(_, e) => nph(e),
    BoolExpr::Ne(_, e) => nph(e),
    BoolExpr::Lt(_, e) => nph(e),
    BoolExpr::Gt(_, e) => nph(e),
    BoolExpr::Le(_, e) => nph(e),
    BoolExpr::Ge(_, e) => nph(e),
    BoolExpr::Like(_, e) => nph(e),
    BoolExpr::AllOf(cs) => nph_all(cs@, cs@.len() as int),
    BoolExpr::And(a, b) => nph_c(*a) + nph_c(*b),
    BoolExpr::Or(a, b) => nph_c(*a) + nph_c(*b),
    BoolExpr::Not(a) => nph_c(*a),
    BoolExpr::Subquery { col, tbl2, tbl2_col, expr } => nph_c(*expr),
    BoolExpr::In(_, vs) => nph_vals(vs@),
    BoolExpr::SubqueryJoin { col, tbl2, col2, joins, expr } => nph_c(*expr),
  }
}
pub open spec fn nph_all(cs: Seq<BoolExpr>, n: int) -> int
  decreases cs, n
{ if n <= 0 || n > cs.len() { 0 } else { nph_all(cs, n - 1) + nph_c(cs[n - 1]) } }
/// the values bound to the placeholders, in placeholder order
pub open spec fn vals_vals(vs: Seq<SqlVal>) -> Seq<SqlVal>
  decreases vs.len()
{ if vs.len() == 0 { Seq::empty() } else if inline_val(vs.last()) { vals_vals(vs.drop_last()) } else { vals_vals(vs.drop_last()) + seq![vs.last()] } }
pub open spec fn vals(e: Expr) -> Seq<SqlVal>
  decreases e
{
  match e {
    Expr::Column(_) => Seq::empty(),
    Expr::Val(v) => if inline_val(v) { Seq::empty() } else { seq![v] },
    Expr::Placeholder => Seq::empty(),
    Expr::Condition(c) => vals_c(*c),
  }
}
pub open spec fn vals_c(c: BoolExpr) -> Seq<SqlVal>
  decreases c
{
  match c {
    BoolExpr::True => Seq::empty(),
    BoolExpr::Eq(_, Expr::Val(SqlVal::Null)) => Seq::empty(),
    BoolExpr::Ne(_, Expr::Val(SqlVal::Null)) => Seq::empty(),
    BoolExpr::Eq(_, e) => vals(e),
    BoolExpr::Ne(_, e) => vals(e),
    BoolExpr::Lt(_, e) => vals(e),
    BoolExpr::Gt(_, e) => vals(e),
    BoolExpr::Le(_, e) => vals(e),
    BoolExpr::Ge(_, e) => vals(e),
    BoolExpr::Like(_, e) => vals(e),
    BoolExpr::AllOf(cs) => vals_all(cs@, cs@.len() as int),
    BoolExpr::And(a, b) => vals_c(*a) + vals_c(*b),
    BoolExpr::Or(a, b) => vals_c(*a) + vals_c(*b),
    BoolExpr::Not(a) => vals_c(*a),
    BoolExpr::Subquery { col, tbl2, tbl2_col, expr } => vals_c(*expr),
    BoolExpr::In(_, vs) => vals_vals(vs@),
    BoolExpr::SubqueryJoin { col, tbl2, col2, joins, expr } => vals_c(*expr),
  }
}
pub open spec fn vals_all(cs: Seq<BoolExpr>, n: int) -> Seq<SqlVal>
  decreases cs, n
{ if n <= 0 || n > cs.len() { Seq::empty() } else { vals_all(cs, n - 1) + vals_c(cs[n - 1]) } }

// ---- text ----
pub open spec fn val_text<P: PlaceholderSource>(v: SqlVal, n: int) -> Seq<char> {
  match v { SqlVal::Int(i) => int_text(i as int), SqlVal::BigInt(i) => int_text(i as int), _ => P::ph(n) }
}
pub open spec fn vals_text<P: PlaceholderSource>(vs: Seq<SqlVal>, n: int) -> Seq<char>
  decreases vs.len()
{
  if vs.len() == 0 { Seq::empty() }
  else if vs.len() == 1 { val_text::<P>(vs[0], n) }
  else { vals_text::<P>(vs.drop_last(), n) + ", "@ + val_text::<P>(vs.last(), n + P::adv(nph_vals(vs.drop_last()))) }
}
pub open spec fn qcol_text(c: QColumn) -> Seq<char> {
  match c.table { Some(t) => ident(t.disp()) + "."@ + ident(c.name@), None => ident(c.name@) }
}
pub open spec fn join_sql(j: Join) -> Seq<char> {
  match j { Join::Inner { join_table, col1, col2 } => "INNER JOIN "@ + ident(join_table@) + " ON "@ + qcol_text(col1) + " = "@ + qcol_text(col2) }
}
pub open spec fn joins_sql(js: Seq<Join>) -> Seq<char>
  decreases js.len()
{ if js.len() == 0 { Seq::empty() } else if js.len() == 1 { join_sql(js[0]) } else { joins_sql(js.drop_last()) + " "@ + join_sql(js.last()) } }
pub open spec fn text<P: PlaceholderSource>(e: Expr, n: int) -> Seq<char>
  decreases e, 0int
{
  match e {
    Expr::Column(name) => ident(name@),
    Expr::Val(v) => val_text::<P>(v, n),
    Expr::Placeholder => P::ph(n),
    Expr::Condition(c) => text_c::<P>(*c, n),
  }
}
pub open spec fn text_c<P: PlaceholderSource>(c: BoolExpr, n: int) -> Seq<char>
  decreases c, 0int
{
  match c {
    BoolExpr::True => "TRUE"@,
    BoolExpr::Eq(col, Expr::Val(SqlVal::Null)) => ident(col@) + " IS NULL"@,
    BoolExpr::Ne(col, Expr::Val(SqlVal::Null)) => ident(col@) + " IS NOT NULL"@,
    BoolExpr::Eq(col, e) => ident(col@) + " = "@ + text::<P>(e, n),
    BoolExpr::Ne(col, e) => ident(col@) + " <> "@ + text::<P>(e, n),
    BoolExpr::Lt(col, e) => ident(col@) + " < "@ + text::<P>(e, n),
    BoolExpr::Gt(col, e) => ident(col@) + " > "@ + text::<P>(e, n),
    BoolExpr::Le(col, e) => ident(col@) + " <= "@ + text::<P>(e, n),
    BoolExpr::Ge(col, e) => ident(col@) + " >= "@ + text::<P>(e, n),
    BoolExpr::Like(col, e) => ident(col@) + " like "@ + text::<P>(e, n),
    BoolExpr::AllOf(cs) => if cs@.len() == 0 { "TRUE"@ } else { "("@ + text_all::<P>(cs@, cs@.len() as int, n) + ")"@ },
    BoolExpr::And(a, b) => "("@ + text_c::<P>(*a, n) + " AND "@ + text_c::<P>(*b, n + P::adv(nph_c(*a))) + ")"@,
    BoolExpr::Or(a, b) => "("@ + text_c::<P>(*a, n) + " OR "@ + text_c::<P>(*b, n + P::adv(nph_c(*a))) + ")"@,
    BoolExpr::Not(a) => "NOT "@ + text_c::<P>(*a, n),
    BoolExpr::Subquery { col, tbl2, tbl2_col, expr } =>
      ident(col@) + " IN (SELECT "@ + ident(tbl2_col@) + " FROM "@ + ident(tbl2.disp()) + " WHERE "@ + text_c::<P>(*expr, n) + ")"@,
    BoolExpr::In(col, vs) => if vs@.len() == 0 { "FALSE"@ } else { ident(col@) + " IN ("@ + vals_text::<P>(vs@, n) + ")"@ },
    BoolExpr::SubqueryJoin { col, tbl2, col2, joins, expr } =>
      ident(col@) + " IN (SELECT "@ + qcol_text(col2) + " FROM "@ + ident(tbl2.disp()) + " "@ + joins_sql(joins@) + " WHERE "@ + text_c::<P>(*expr, n) + ")"@,
  }
}
/// the first k conjuncts, joined by AND
pub open spec fn text_all<P: PlaceholderSource>(cs: Seq<BoolExpr>, k: int, n: int) -> Seq<char>
  decreases cs, k
{
  if k <= 0 || k > cs.len() { Seq::empty() }
  else if k == 1 { text_c::<P>(cs[0], n) }
  else { text_all::<P>(cs, k - 1, n) + " AND "@ + text_c::<P>(cs[k - 1], n + P::adv(nph_all(cs, k - 1))) }
}


// ---- the same text, appended to what is already written (`emit(pre, e, n) == pre + text(e, n)`, proved below) ----
pub open spec fn emit_val<P: PlaceholderSource>(pre: Seq<char>, v: SqlVal, n: int) -> Seq<char> {
  match v { SqlVal::Int(i) => pre + int_text(i as int), SqlVal::BigInt(i) => pre + int_text(i as int), _ => pre + P::ph(n) }
}
pub open spec fn emit_ident(pre: Seq<char>, w: Seq<char>) -> Seq<char> { pre + ident(w) }
pub open spec fn emit_vals<P: PlaceholderSource>(pre: Seq<char>, vs: Seq<SqlVal>, k: int, n: int) -> Seq<char>
  decreases k
{
  if k <= 0 || k > vs.len() { pre }
  else if k == 1 { emit_val::<P>(pre, vs[0], n) }
  else { emit_val::<P>(emit_vals::<P>(pre, vs, k - 1, n) + ", "@, vs[k - 1], n + P::adv(nph_vals(vs.take(k - 1)))) }
}
pub open spec fn emit_qcol(pre: Seq<char>, c: QColumn) -> Seq<char> {
  match c.table { Some(t) => pre + ident(t.disp()) + "."@ + ident(c.name@), None => pre + ident(c.name@) }
}
pub open spec fn emit_joins(pre: Seq<char>, js: Seq<Join>, k: int) -> Seq<char>
  decreases k
{
  if k <= 0 || k > js.len() { pre }
  else { match js[k - 1] { Join::Inner { join_table, col1, col2 } =>
    emit_qcol(emit_qcol((if k == 1 { pre } else { emit_joins(pre, js, k - 1) + " "@ }) + "INNER JOIN "@ + ident(join_table@) + " ON "@, col1) + " = "@, col2) } }
}
pub open spec fn emit<P: PlaceholderSource>(pre: Seq<char>, e: Expr, n: int) -> Seq<char>
  decreases e, 0int
{
  match e {
    Expr::Column(name) => pre + ident(name@),
    Expr::Val(v) => emit_val::<P>(pre, v, n),
    Expr::Placeholder => pre + P::ph(n),
    Expr::Condition(c) => emit_c::<P>(pre, *c, n),
  }
}
pub open spec fn emit_c<P: PlaceholderSource>(pre: Seq<char>, c: BoolExpr, n: int) -> Seq<char>
  decreases c, 0int
{
  match c {
    BoolExpr::True => pre + "TRUE"@,
    BoolExpr::Eq(col, Expr::Val(SqlVal::Null)) => pre + ident(col@) + " IS NULL"@,
    BoolExpr::Ne(col, Expr::Val(SqlVal::Null)) => pre + ident(col@) + " IS NOT NULL"@,
    BoolExpr::Eq(col, e) => emit::<P>(pre + ident(col@) + " = "@, e, n),
    BoolExpr::Ne(col, e) => emit::<P>(pre + ident(col@) + " <> "@, e, n),
    BoolExpr::Lt(col, e) => emit::<P>(pre + ident(col@) + " < "@, e, n),
    BoolExpr::Gt(col, e) => emit::<P>(pre + ident(col@) + " > "@, e, n),
    BoolExpr::Le(col, e) => emit::<P>(pre + ident(col@) + " <= "@, e, n),
    BoolExpr::Ge(col, e) => emit::<P>(pre + ident(col@) + " >= "@, e, n),
    BoolExpr::Like(col, e) => emit::<P>(pre + ident(col@) + " like "@, e, n),
    BoolExpr::AllOf(cs) => if cs@.len() == 0 { pre + "TRUE"@ } else { emit_all::<P>(pre + "("@, cs@, cs@.len() as int, n) + ")"@ },
    BoolExpr::And(a, b) => emit_c::<P>(emit_c::<P>(pre + "("@, *a, n) + " AND "@, *b, n + P::adv(nph_c(*a))) + ")"@,
    BoolExpr::Or(a, b) => emit_c::<P>(emit_c::<P>(pre + "("@, *a, n) + " OR "@, *b, n + P::adv(nph_c(*a))) + ")"@,
    BoolExpr::Not(a) => emit_c::<P>(pre + "NOT "@, *a, n),
    BoolExpr::Subquery { col, tbl2, tbl2_col, expr } =>
      emit_c::<P>(pre + ident(col@) + " IN (SELECT "@ + ident(tbl2_col@) + " FROM "@ + ident(tbl2.disp()) + " WHERE "@, *expr, n) + ")"@,
    BoolExpr::In(col, vs) => if vs@.len() == 0 { pre + "FALSE"@ } else { emit_vals::<P>(pre + ident(col@) + " IN ("@, vs@, vs@.len() as int, n) + ")"@ },
    BoolExpr::SubqueryJoin { col, tbl2, col2, joins, expr } =>
      emit_c::<P>(emit_joins(emit_qcol(pre + ident(col@) + " IN (SELECT "@, col2) + " FROM "@ + ident(tbl2.disp()) + " "@, joins@, joins@.len() as int) + " WHERE "@, *expr, n) + ")"@,
  }
}
pub open spec fn emit_all<P: PlaceholderSource>(pre: Seq<char>, cs: Seq<BoolExpr>, k: int, n: int) -> Seq<char>
  decreases cs, k
{
  if k <= 0 || k > cs.len() { pre }
  else if k == 1 { emit_c::<P>(pre, cs[0], n) }
  else { emit_c::<P>(emit_all::<P>(pre, cs, k - 1, n) + " AND "@, cs[k - 1], n + P::adv(nph_all(cs, k - 1))) }
}
pub mod emit_lemmas {
use super::*;
pub proof fn emit_qcol_text(pre: Seq<char>, c: QColumn)
  ensures emit_qcol(pre, c) == pre + qcol_text(c)
{ match c.table { Some(t) => cat3(pre, ident(t.disp()), "."@, ident(c.name@)), None => {} } }
pub proof fn cat2(p: Seq<char>, a: Seq<char>, b: Seq<char>)
  ensures p + a + b == p + (a + b)
{ assert(p + (a) + b =~= p + (a + b)); }
pub proof fn cat3(p: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>)
  ensures p + a + b + c == p + (a + b + c)
{ assert(p + (a) + b =~= p + (a + b)); assert(p + (a + b) + c =~= p + (a + b + c)); }
pub proof fn cat4(p: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>)
  ensures p + a + b + c + d == p + (a + b + c + d)
{ assert(p + (a) + b =~= p + (a + b)); assert(p + (a + b) + c =~= p + (a + b + c)); assert(p + (a + b + c) + d =~= p + (a + b + c + d)); }
pub proof fn cat5(p: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>)
  ensures p + a + b + c + d + e == p + (a + b + c + d + e)
{ assert(p + (a) + b =~= p + (a + b)); assert(p + (a + b) + c =~= p + (a + b + c)); assert(p + (a + b + c) + d =~= p + (a + b + c + d)); assert(p + (a + b + c + d) + e =~= p + (a + b + c + d + e)); }
pub proof fn cat6(p: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>, f: Seq<char>)
  ensures p + a + b + c + d + e + f == p + (a + b + c + d + e + f)
{ cat5(p, a, b, c, d, e); assert(p + (a + b + c + d + e) + f =~= p + (a + b + c + d + e + f)); }
pub proof fn cat8(p: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>, f: Seq<char>, g: Seq<char>, h: Seq<char>)
  ensures p + a + b + c + d + e + f + g + h == p + (a + b + c + d + e + f + g + h)
{ assert(p + (a) + b =~= p + (a + b)); assert(p + (a + b) + c =~= p + (a + b + c)); assert(p + (a + b + c) + d =~= p + (a + b + c + d)); assert(p + (a + b + c + d) + e =~= p + (a + b + c + d + e)); assert(p + (a + b + c + d + e) + f =~= p + (a + b + c + d + e + f)); assert(p + (a + b + c + d + e + f) + g =~= p + (a + b + c + d + e + f + g)); assert(p + (a + b + c + d + e + f + g) + h =~= p + (a + b + c + d + e + f + g + h)); }
pub proof fn cat10(p: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>, f: Seq<char>, g: Seq<char>, h: Seq<char>, i: Seq<char>, j: Seq<char>)
  ensures p + a + b + c + d + e + f + g + h + i + j == p + (a + b + c + d + e + f + g + h + i + j)
{ assert(p + (a) + b =~= p + (a + b)); assert(p + (a + b) + c =~= p + (a + b + c)); assert(p + (a + b + c) + d =~= p + (a + b + c + d)); assert(p + (a + b + c + d) + e =~= p + (a + b + c + d + e)); assert(p + (a + b + c + d + e) + f =~= p + (a + b + c + d + e + f)); assert(p + (a + b + c + d + e + f) + g =~= p + (a + b + c + d + e + f + g)); assert(p + (a + b + c + d + e + f + g) + h =~= p + (a + b + c + d + e + f + g + h)); assert(p + (a + b + c + d + e + f + g + h) + i =~= p + (a + b + c + d + e + f + g + h + i)); assert(p + (a + b + c + d + e + f + g + h + i) + j =~= p + (a + b + c + d + e + f + g + h + i + j)); }
pub proof fn emit_vals_text<P: PlaceholderSource>(pre: Seq<char>, vs: Seq<SqlVal>, k: int, n: int)
  requires 0 <= k <= vs.len()
  ensures emit_vals::<P>(pre, vs, k, n) == pre + vals_text::<P>(vs.take(k), n)
  decreases k
{
  if k == 0 { assert(vs.take(0) =~= Seq::empty()); }
  else {
    emit_vals_text::<P>(pre, vs, k - 1, n);
    assert(vs.take(k).drop_last() =~= vs.take(k - 1)); assert(vs.take(k).last() == vs[k - 1]);
    if k == 1 { assert(vs.take(1)[0] == vs[0]); }
    assert(emit_vals::<P>(pre, vs, k, n) =~= pre + vals_text::<P>(vs.take(k), n));
  }
}
pub proof fn emit_joins_text(pre: Seq<char>, js: Seq<Join>, k: int)
  requires 0 <= k <= js.len()
  ensures emit_joins(pre, js, k) == pre + joins_sql(js.take(k))
  decreases k
{
  if k == 0 { assert(js.take(0) =~= Seq::empty()); }
  else {
    emit_joins_text(pre, js, k - 1);
    assert(js.take(k).drop_last() =~= js.take(k - 1)); assert(js.take(k).last() == js[k - 1]);
    match js[k - 1] { Join::Inner { join_table, col1, col2 } => {
      let p0 = if k == 1 { pre } else { emit_joins(pre, js, k - 1) + " "@ };
      let p1 = p0 + "INNER JOIN "@ + ident(join_table@) + " ON "@;
      emit_qcol_text(p1, col1);
      emit_qcol_text(emit_qcol(p1, col1) + " = "@, col2);
      cat6(p0, "INNER JOIN "@, ident(join_table@), " ON "@, qcol_text(col1), " = "@, qcol_text(col2));
      if k > 1 { cat3(pre, joins_sql(js.take(k - 1)), " "@, join_sql(js[k - 1])); cat2(pre, joins_sql(js.take(k - 1)), " "@); }
    } }
  }
}
pub proof fn emit_text<P: PlaceholderSource>(pre: Seq<char>, e: Expr, n: int)
  ensures emit::<P>(pre, e, n) == pre + text::<P>(e, n)
  decreases e, 0int
{ match e { Expr::Condition(c) => emit_c_text::<P>(pre, *c, n), _ => {} } }
pub proof fn emit_c_text<P: PlaceholderSource>(pre: Seq<char>, c: BoolExpr, n: int)
  ensures emit_c::<P>(pre, c, n) == pre + text_c::<P>(c, n)
  decreases c, 0int
{
  match c {
    BoolExpr::Eq(col, e) => { emit_text::<P>(pre + ident(col@) + " = "@, e, n); cat3(pre, ident(col@), " = "@, text::<P>(e, n)); cat2(pre, ident(col@), " IS NULL"@); }
    BoolExpr::Ne(col, e) => { emit_text::<P>(pre + ident(col@) + " <> "@, e, n); cat3(pre, ident(col@), " <> "@, text::<P>(e, n)); cat2(pre, ident(col@), " IS NOT NULL"@); }
    BoolExpr::Lt(col, e) => { emit_text::<P>(pre + ident(col@) + " < "@, e, n); cat3(pre, ident(col@), " < "@, text::<P>(e, n)); cat2(pre, ident(col@), " < "@); }
    BoolExpr::Gt(col, e) => { emit_text::<P>(pre + ident(col@) + " > "@, e, n); cat3(pre, ident(col@), " > "@, text::<P>(e, n)); cat2(pre, ident(col@), " > "@); }
    BoolExpr::Le(col, e) => { emit_text::<P>(pre + ident(col@) + " <= "@, e, n); cat3(pre, ident(col@), " <= "@, text::<P>(e, n)); cat2(pre, ident(col@), " <= "@); }
    BoolExpr::Ge(col, e) => { emit_text::<P>(pre + ident(col@) + " >= "@, e, n); cat3(pre, ident(col@), " >= "@, text::<P>(e, n)); cat2(pre, ident(col@), " >= "@); }
    BoolExpr::Like(col, e) => { emit_text::<P>(pre + ident(col@) + " like "@, e, n); cat3(pre, ident(col@), " like "@, text::<P>(e, n)); cat2(pre, ident(col@), " like "@); }
    BoolExpr::AllOf(cs) => if cs@.len() > 0 { emit_all_text::<P>(pre + "("@, cs@, cs@.len() as int, n); cat3(pre, "("@, text_all::<P>(cs@, cs@.len() as int, n), ")"@); },
    BoolExpr::And(a, b) => { emit_c_text::<P>(pre + "("@, *a, n); emit_c_text::<P>(emit_c::<P>(pre + "("@, *a, n) + " AND "@, *b, n + P::adv(nph_c(*a))); cat5(pre, "("@, text_c::<P>(*a, n), " AND "@, text_c::<P>(*b, n + P::adv(nph_c(*a))), ")"@); }
    BoolExpr::Or(a, b) => { emit_c_text::<P>(pre + "("@, *a, n); emit_c_text::<P>(emit_c::<P>(pre + "("@, *a, n) + " OR "@, *b, n + P::adv(nph_c(*a))); cat5(pre, "("@, text_c::<P>(*a, n), " OR "@, text_c::<P>(*b, n + P::adv(nph_c(*a))), ")"@); }
    BoolExpr::Not(a) => { emit_c_text::<P>(pre + "NOT "@, *a, n); cat2(pre, "NOT "@, text_c::<P>(*a, n)); }
    BoolExpr::Subquery { col, tbl2, tbl2_col, expr } => {
      emit_c_text::<P>(pre + ident(col@) + " IN (SELECT "@ + ident(tbl2_col@) + " FROM "@ + ident(tbl2.disp()) + " WHERE "@, *expr, n);
      cat8(pre, ident(col@), " IN (SELECT "@, ident(tbl2_col@), " FROM "@, ident(tbl2.disp()), " WHERE "@, text_c::<P>(*expr, n), ")"@); }
    BoolExpr::In(col, vs) => { emit_vals_text::<P>(pre + ident(col@) + " IN ("@, vs@, vs@.len() as int, n); assert(vs@.take(vs@.len() as int) =~= vs@); if vs@.len() > 0 { cat4(pre, ident(col@), " IN ("@, vals_text::<P>(vs@, n), ")"@); } }
    BoolExpr::SubqueryJoin { col, tbl2, col2, joins, expr } => {
      let p1 = emit_qcol(pre + ident(col@) + " IN (SELECT "@, col2) + " FROM "@ + ident(tbl2.disp()) + " "@;
      emit_joins_text(p1, joins@, joins@.len() as int); assert(joins@.take(joins@.len() as int) =~= joins@);
      emit_c_text::<P>(emit_joins(p1, joins@, joins@.len() as int) + " WHERE "@, *expr, n);
      emit_qcol_text(pre + ident(col@) + " IN (SELECT "@, col2);
      cat10(pre, ident(col@), " IN (SELECT "@, qcol_text(col2), " FROM "@, ident(tbl2.disp()), " "@, joins_sql(joins@), " WHERE "@, text_c::<P>(*expr, n), ")"@);
    }
    BoolExpr::True => {}
  }
}
pub proof fn emit_all_text<P: PlaceholderSource>(pre: Seq<char>, cs: Seq<BoolExpr>, k: int, n: int)
  requires 0 <= k <= cs.len()
  ensures emit_all::<P>(pre, cs, k, n) == pre + text_all::<P>(cs, k, n)
  decreases cs, k
{
  if k == 0 {}
  else {
    emit_all_text::<P>(pre, cs, k - 1, n);
    emit_c_text::<P>(if k == 1 { pre } else { emit_all::<P>(pre, cs, k - 1, n) + " AND "@ }, cs[k - 1], n + P::adv(nph_all(cs, k - 1)));
    if k == 1 { emit_c_text::<P>(pre, cs[0], n); }
    assert(emit_all::<P>(pre, cs, k, n) =~= pre + text_all::<P>(cs, k, n));
  }
}
}
pub use emit_lemmas::*;

pub mod nph_lemmas {
use super::*;
pub broadcast proof fn nph_vals_nonneg(vs: Seq<SqlVal>)
  ensures #[trigger] nph_vals(vs) >= 0
  decreases vs.len()
{ if vs.len() > 0 { nph_vals_nonneg(vs.drop_last()); } }
pub broadcast proof fn nph_e_nonneg(e: Expr)
  ensures #[trigger] nph(e) >= 0
  decreases e
{ match e { Expr::Condition(c) => nph_c_nonneg(*c), _ => {} } }
pub broadcast proof fn nph_c_nonneg(c: BoolExpr)
  ensures #[trigger] nph_c(c) >= 0
  decreases c
{
  match c {
    BoolExpr::Eq(_, e) => nph_e_nonneg(e), BoolExpr::Ne(_, e) => nph_e_nonneg(e),
    BoolExpr::Lt(_, e) => nph_e_nonneg(e), BoolExpr::Gt(_, e) => nph_e_nonneg(e),
    BoolExpr::Le(_, e) => nph_e_nonneg(e), BoolExpr::Ge(_, e) => nph_e_nonneg(e),
    BoolExpr::Like(_, e) => nph_e_nonneg(e),
    BoolExpr::And(a, b) => { nph_c_nonneg(*a); nph_c_nonneg(*b); }
    BoolExpr::Or(a, b) => { nph_c_nonneg(*a); nph_c_nonneg(*b); }
    BoolExpr::Not(a) => nph_c_nonneg(*a),
    BoolExpr::AllOf(cs) => nph_all_nonneg(cs@, cs@.len() as int),
    BoolExpr::Subquery { col, tbl2, tbl2_col, expr } => nph_c_nonneg(*expr),
    BoolExpr::SubqueryJoin { col, tbl2, col2, joins, expr } => nph_c_nonneg(*expr),
    BoolExpr::In(_, vs) => nph_vals_nonneg(vs@),
    BoolExpr::True => {}
  }
}
pub broadcast proof fn nph_all_nonneg(cs: Seq<BoolExpr>, n: int)
  ensures #[trigger] nph_all(cs, n) >= 0
  decreases cs, n
{ if n <= 0 || n > cs.len() {} else { nph_all_nonneg(cs, n - 1); nph_c_nonneg(cs[n - 1]); } }
/// a prefix of a conjunction (of an IN list) takes no more placeholders than the whole
pub proof fn nph_all_mono(cs: Seq<BoolExpr>, k: int, n: int)
  requires 0 <= k <= n <= cs.len()
  ensures nph_all(cs, k) <= nph_all(cs, n)
  decreases n
{ if k < n { nph_all_mono(cs, k, n - 1); nph_c_nonneg(cs[n - 1]); } }
pub proof fn nph_vals_mono(vs: Seq<SqlVal>, k: int)
  requires 0 <= k <= vs.len()
  ensures nph_vals(vs.take(k)) <= nph_vals(vs)
  decreases vs.len()
{
  if k < vs.len() { nph_vals_mono(vs.drop_last(), k); assert(vs.drop_last().take(k) =~= vs.take(k)); }
  else { assert(vs.take(k) =~= vs); }
}
/// one unfolding step of each recursive definition
pub proof fn unfold_c(c: BoolExpr)
  ensures
    c is AllOf ==> vals_c(c) == vals_all(c->AllOf_0@, c->AllOf_0@.len() as int) && nph_c(c) == nph_all(c->AllOf_0@, c->AllOf_0@.len() as int)
      && vals_all(c->AllOf_0@, 0) == Seq::<SqlVal>::empty() && nph_all(c->AllOf_0@, 0) == 0,
    c is In ==> vals_c(c) == vals_vals(c->In_1@) && nph_c(c) == nph_vals(c->In_1@),
    vals_vals(Seq::empty()) == Seq::<SqlVal>::empty(), nph_vals(Seq::empty()) == 0,
    c is Subquery ==> nph_c(c) == nph_c(*c->Subquery_expr), c is Not ==> nph_c(c) == nph_c(*c->Not_0),
    c is And ==> nph_c(*c->And_0) >= 0 && nph_c(*c->And_1) >= 0, c is Or ==> nph_c(*c->Or_0) >= 0 && nph_c(*c->Or_1) >= 0,
{ broadcast use nph_c_nonneg; reveal_with_fuel(vals_all, 2); reveal_with_fuel(nph_all, 2); }
pub broadcast group nph_nonneg { nph_vals_nonneg, nph_e_nonneg, nph_c_nonneg, nph_all_nonneg }
}
pub use nph_lemmas::*;
