// ===== turso (external) =====
#[verifier::external_body] pub struct TuConn { x: u8 }
#[verifier::external_body] pub struct Value { x: u8 }
#[verifier::external_body] pub struct TuRows { x: u8 }
#[verifier::external_body] pub struct TuRow { x: u8 }
impl Value { pub uninterp spec fn b(&self) -> int; }
#[verifier::external_body] pub struct TuError { x: u8 }
impl VDisp for TuError { uninterp spec fn disp(&self) -> Seq<char>; }
pub type TResult<T> = core::result::Result<T, TuError>;
pub struct TursoConnection { pub conn: TuConn }
pub uninterp spec fn tu_may(c: TuConn, sql: Seq<char>, ps: Seq<int>) -> bool;
pub uninterp spec fn tu_exec(c: TuConn, sql: Seq<char>, ps: Seq<int>) -> TResult<u64>;
pub uninterp spec fn tu_rows(c: TuConn, sql: Seq<char>, ps: Seq<int>) -> TResult<Seq<Seq<Value>>>;
pub uninterp spec fn tu_val(v: Value, ty: SqlType) -> Result<SqlVal>;
pub open spec fn tbs(v: Seq<Value>) -> Seq<int> { Seq::new(v.len(), |i: int| v[i].b()) }
pub trait TuParams { spec fn tseq(&self) -> Seq<int>; }
impl TuParams for Vec<Value> { open spec fn tseq(&self) -> Seq<int> { tbs(self@) } }
impl TuParams for () { open spec fn tseq(&self) -> Seq<int> { Seq::empty() } }
impl TuConn {
  #[verifier::external_body] pub fn execute<P: TuParams>(&self, sql: &str, p: P) -> (r: TResult<u64>) requires tu_may(*self, sql@, p.tseq()) ensures r == tu_exec(*self, sql@, p.tseq()) { unimplemented!() }
  #[verifier::external_body] pub fn query<P: TuParams>(&self, sql: &str, p: P) -> (r: TResult<TuRows>) requires tu_may(*self, sql@, p.tseq()) ensures r is Ok == tu_rows(*self, sql@, p.tseq()) is Ok,
    r is Ok ==> r->Ok_0.all() == tu_rows(*self, sql@, p.tseq())->Ok_0 && r->Ok_0.pos() == 0 { unimplemented!() }
}
impl TuRows {
  pub uninterp spec fn all(&self) -> Seq<Seq<Value>>;
  pub uninterp spec fn pos(&self) -> int;
  #[verifier::external_body] pub fn next(&mut self) -> (r: TResult<Option<TuRow>>)
    ensures final(self).all() == old(self).all(), r is Ok ==> (r->Ok_0 is Some == (old(self).pos() < old(self).all().len())) && (r->Ok_0 is Some ==> final(self).pos() == old(self).pos() + 1 && (r->Ok_0->0).vals() == old(self).all()[old(self).pos()]) && (r->Ok_0 is None ==> final(self).pos() == old(self).pos()) { unimplemented!() }
}
impl TuRow {
  pub uninterp spec fn vals(&self) -> Seq<Value>;
  #[verifier::external_body] pub fn get_value(&self, i: usize) -> (r: TResult<Value>) ensures r is Ok ==> i < self.vals().len() && r->Ok_0 == self.vals()[i as int] { unimplemented!() }
}
impl TursoConnection {
  pub fn conn(&self) -> (r: Result<&TuConn>) ensures r is Ok, *r->Ok_0 == self.conn { Ok(&self.conn) }
}
impl SqlVal { #[verifier::external_body] pub fn as_ref(&self) -> (r: SqlValRef<'_>) ensures bound_ref(r) == bound(*self) { unimplemented!() } }
#[verifier::external_body] pub fn sqlval_to_turso(v: &SqlValRef<'_>) -> (r: Value) ensures r.b() == bound_ref(*v) { unimplemented!() }
#[verifier::external_body] pub fn turso_value_to_sqlval_typed(v: &Value, ty: &SqlType) -> (r: Result<SqlVal>) ensures r == tu_val(*v, *ty) { unimplemented!() }
pub open spec fn is_bounds(acc: Seq<Value>, vs: Seq<SqlVal>, k: int) -> bool { acc.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] acc[i]).b() == bound(vs[i]) }
pub open spec fn is_bounds_ref(acc: Seq<Value>, vs: Seq<SqlValRef>, k: int) -> bool { acc.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] acc[i]).b() == bound_ref(vs[i]) }
pub proof fn done_bounds(acc: Seq<Value>, vs: Seq<SqlVal>)
  requires is_bounds(acc, vs, vs.len() as int) ensures tbs(acc) == bounds(vs)
{ assert(tbs(acc) =~= bounds(vs)); }
pub proof fn done_bounds_ref(acc: Seq<Value>, vs: Seq<SqlValRef>)
  requires is_bounds_ref(acc, vs, vs.len() as int) ensures tbs(acc) == bounds_ref(vs), forall|x: SqlValRef, t: Value| t.b() == bound_ref(x) ==> #[trigger] tbs(acc.push(t)) == #[trigger] bounds_ref(vs.push(x))
{
  assert(tbs(acc) =~= bounds_ref(vs));
  assert forall|x: SqlValRef, t: Value| t.b() == bound_ref(x) implies #[trigger] tbs(acc.push(t)) == #[trigger] bounds_ref(vs.push(x)) by { assert(tbs(acc.push(t)) =~= bounds_ref(vs.push(x))); }
}
/// all the rows a statement gives
pub open spec fn got(a: Seq<TuRow>, all: Seq<Seq<Value>>, k: int) -> bool { a.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] a[i]).vals() == all[i] }
//@@ fn path=butane_core/src/db/turso.rs name=read_to_end loops=1
//@@ sig
//@ #[verifier::exec_allows_no_decreases_clause]
//@ #[verifier::allow_complex_invariants]
//@ pub fn read_to_end(mut rows: TuRows) -> (r: Result<Vec<TuRow>>)
//@@ spec
//@   requires rows.pos() == 0
//@   ensures r is Ok ==> got(r->Ok_0@, rows.all(), rows.all().len() as int)
//@@ entry
//@   let ghost all0 = rows.all();
//@@ loop 1
//@   invariant rows.all() == all0, 0 <= rows.pos() <= rows.all().len(), got(result@, rows.all(), rows.pos()),
//@   ensures rows.pos() == rows.all().len(),
//@@ end
pub open spec fn tu_delete_sql(table: Seq<char>, pk: Seq<char>) -> Seq<char> { "DELETE FROM "@ + ident(table) + " WHERE "@ + ident(pk) + " = ?"@ }
pub open spec fn tu_delete_where_sql(table: Seq<char>, e: BoolExpr) -> Seq<char> { emit_c::<TursoPlaceholderSource>("DELETE FROM "@ + ident(table) + " WHERE "@, e, 0) }
impl TursoConnection {
//@@ fn path=butane_core/src/db/turso.rs name=insert_only impl="ConnectionMethods for TursoConnection" as=cm_insert_only loops=1
//@@ subst TursoPlaceholderSource::new => new_turso_source
//@@ sig
//@ pub fn cm_insert_only(&self, table: &str, columns: &[Column], values: &[SqlValRef<'_>]) -> (r: Result<()>)
//@@ spec
//@   requires columns@.len() < MAXPH, tu_may(self.conn, emit_insert::<TursoPlaceholderSource>(Seq::empty(), table@, columns@, 0), bounds_ref(values@)),
//@   ensures r is Ok == tu_exec(self.conn, emit_insert::<TursoPlaceholderSource>(Seq::empty(), table@, columns@, 0), bounds_ref(values@)) is Ok
//@@ loop 1
//@   $all == values@, is_bounds_ref($acc@, values@, $pos),
//@@ loop_after 1
//@   proof { done_bounds_ref($acc@, values@); }
//@@ end
//@@ fn path=butane_core/src/db/turso.rs name=insert_returning_pk impl="ConnectionMethods for TursoConnection" as=cm_insert_returning_pk loops=1
//@@ subst TursoPlaceholderSource::new => new_turso_source
//@@ sig
//@ pub fn cm_insert_returning_pk(&self, table: &str, columns: &[Column], pkcol: &Column, values: &[SqlValRef<'_>]) -> (r: Result<SqlVal>)
//@@ spec
//@   requires columns@.len() < MAXPH, tu_may(self.conn, emit_insert::<TursoPlaceholderSource>(Seq::empty(), table@, columns@, 0), bounds_ref(values@)),
//@     tu_may(self.conn, "SELECT last_insert_rowid()"@, Seq::empty()),
//@   ensures r is Ok ==> tu_exec(self.conn, emit_insert::<TursoPlaceholderSource>(Seq::empty(), table@, columns@, 0), bounds_ref(values@)) is Ok,
//@     r is Ok ==> tu_rows(self.conn, "SELECT last_insert_rowid()"@, Seq::empty()) is Ok && r == tu_val(tu_rows(self.conn, "SELECT last_insert_rowid()"@, Seq::empty())->Ok_0[0][0], pkcol.ty),
//@@ loop 1
//@   $all == values@, is_bounds_ref($acc@, values@, $pos),
//@@ loop_after 1
//@   proof { done_bounds_ref($acc@, values@); }
//@@ end
//@@ fn path=butane_core/src/db/turso.rs name=insert_or_replace impl="ConnectionMethods for TursoConnection" as=cm_insert_or_replace loops=1
//@@ subst sql_insert_or_update => turso_upsert
//@@ sig
//@ pub fn cm_insert_or_replace(&self, table: &str, columns: &[Column], pkcol: &Column, values: &[SqlValRef<'_>]) -> (r: Result<()>)
//@@ spec
//@   requires columns@.len() < 0x7fff_ffff, tu_may(self.conn, emit_upsert::<TursoPlaceholderSource>(Seq::empty(), table@, columns@, *pkcol), bounds_ref(values@)),
//@   ensures r is Ok == tu_exec(self.conn, emit_upsert::<TursoPlaceholderSource>(Seq::empty(), table@, columns@, *pkcol), bounds_ref(values@)) is Ok
//@@ loop 1
//@   $all == values@, is_bounds_ref($acc@, values@, $pos),
//@@ loop_after 1
//@   proof { done_bounds_ref($acc@, values@); }
//@@ end
//@@ fn path=butane_core/src/db/turso.rs name=update impl="ConnectionMethods for TursoConnection" as=cm_update loops=1
//@@ subst TursoPlaceholderSource::new => new_turso_source
//@@ sig
//@ pub fn cm_update(&self, table: &str, pkcol: Column, pk: SqlValRef<'_>, columns: &[Column], values: &[SqlValRef<'_>]) -> (r: Result<()>)
//@@ spec
//@   requires columns@.len() < MAXPH - 1, tu_may(self.conn, emit_update::<TursoPlaceholderSource>(Seq::empty(), table@, pkcol, columns@, 0), bounds_ref(values@.push(pk))),
//@   ensures r is Ok == tu_exec(self.conn, emit_update::<TursoPlaceholderSource>(Seq::empty(), table@, pkcol, columns@, 0), bounds_ref(values@.push(pk))) is Ok
//@@ loop 1
//@   $all == values@, is_bounds_ref($acc@, values@, $pos),
//@@ loop_after 1
//@   proof { done_bounds_ref($acc@, values@); }
//@@ end
//@@ fn path=butane_core/src/db/turso.rs name=delete impl="ConnectionMethods for TursoConnection" as=cm_delete
//@@ sig
//@ pub fn cm_delete(&self, table: &str, pkcol: &'static str, pk: SqlVal) -> (r: Result<()>)
//@@ spec
//@   requires tu_may(self.conn, tu_delete_sql(table@, pkcol@), seq![bound(pk)]),
//@   ensures r is Ok == tu_exec(self.conn, tu_delete_sql(table@, pkcol@), seq![bound(pk)]) is Ok
//@@ before execute
//@   proof { assert(tbs(params@) =~= seq![bound(pk)]); }
//@@ end
//@@ fn path=butane_core/src/db/turso.rs name=has_table impl="ConnectionMethods for TursoConnection" as=cm_has_table
//@@ sig
//@ pub fn cm_has_table(&self, table: &str) -> (r: Result<bool>)
//@@ spec
//@   requires tu_may(self.conn, tu_has_table(), seq![bound_text(table@)]),
//@   ensures r is Ok ==> tu_rows(self.conn, tu_has_table(), seq![bound_text(table@)]) is Ok && r->Ok_0 == (tu_rows(self.conn, tu_has_table(), seq![bound_text(table@)])->Ok_0.len() > 0),
//@@ before query
//@   proof { assert(tbs(params@) =~= seq![bound_text(table@)]); }
//@@ end
//@@ fn path=butane_core/src/db/turso.rs name=delete_where impl="ConnectionMethods for TursoConnection" as=cm_delete_where loops=1
//@@ subst sql_for_expr => turso_sql_for_expr
//@@ subst TursoPlaceholderSource::new => new_turso_source
//@@ sig
//@ pub fn cm_delete_where(&self, table: &str, expr: BoolExpr) -> (r: Result<usize>)
//@@ spec
//@   requires nph_c(expr) <= MAXPH, tu_may(self.conn, tu_delete_where_sql(table@, expr), bounds(vals_c(expr))),
//@   ensures r is Ok == tu_exec(self.conn, tu_delete_where_sql(table@, expr), bounds(vals_c(expr))) is Ok,
//@     r is Ok ==> r->Ok_0 == tu_exec(self.conn, tu_delete_where_sql(table@, expr), bounds(vals_c(expr)))->Ok_0,
//@@ loop 1
//@   $all == vals_c(expr), is_bounds($acc@, vals_c(expr), $pos),
//@@ loop_after 1
//@   proof { done_bounds($acc@, vals_c(expr)); }
//@@ end
//@@ fn path=butane_core/src/db/turso.rs name=query impl="ConnectionMethods for TursoConnection" as=cm_query loops=3
//@@ subst sql_for_expr => turso_sql_for_expr
//@@ subst TursoPlaceholderSource::new => new_turso_source
//@@ sig
//@ #[verifier::exec_allows_no_decreases_clause]
//@ #[verifier::allow_complex_invariants]
//@ pub fn cm_query(&self, table: &str, columns: &[Column], expr: Option<BoolExpr>, limit: Option<i32>, offset: Option<i32>, order: Option<&[Order]>) -> (r: Result<Box<VecRows>>)
//@@ spec
//@   requires forall|e: BoolExpr| #[trigger] flattened(self.conn, expr, Some(e)) ==> nph_c(e) <= MAXPH,
//@     forall|e: Option<BoolExpr>| #[trigger] flattened(self.conn, expr, e) ==> tu_may(self.conn, select_sql::<TursoPlaceholderSource>(table@, columns@, e, lite_limit(limit, offset), offset, order), bounds(opt_vals(e))),
//@   ensures r is Ok ==> exists|e: Option<BoolExpr>| #[trigger] flattened(self.conn, expr, e) && turso_answer(self.conn, (*r->Ok_0).all(), columns@, select_sql::<TursoPlaceholderSource>(table@, columns@, e, lite_limit(limit, offset), offset, order), bounds(opt_vals(e))),
//@@ entry
//@   let ghost expr0 = expr;
//@@ loop 1
//@   $all == values@, is_bounds($acc@, values@, $pos),
//@@ loop_after 1
//@   proof { assert(flattened(self.conn, expr0, expr)); done_bounds($acc@, values@); assert(sqlquery@ =~= select_sql::<TursoPlaceholderSource>(table@, columns@, expr, lite_limit(limit, offset), offset, order)); }
//@@ loop 2
//@   tu_rows(self.conn, sqlquery@, bounds(opt_vals(expr))) is Ok, got($all, tu_rows(self.conn, sqlquery@, bounds(opt_vals(expr)))->Ok_0, $all.len() as int), $all.len() == tu_rows(self.conn, sqlquery@, bounds(opt_vals(expr)))->Ok_0.len(), rows_so_far(vec_rows@, tu_rows(self.conn, sqlquery@, bounds(opt_vals(expr)))->Ok_0, $pos, columns@),
//@@ loop 3
//@   $all == columns@, values_ok(values@, row.vals(), columns@, $pos),
//@   ensures $pos == $all.len(),
//@@ loop_after 3
//@   proof { assert($pos == columns@.len()); }
//@@ end
}
/// subqueries are replaced by the membership lists their answers give
pub uninterp spec fn flat_c(c: TuConn, e: BoolExpr, r: BoolExpr) -> bool;
pub open spec fn flattened(c: TuConn, e: Option<BoolExpr>, r: Option<BoolExpr>) -> bool { match (e, r) { (None, None) => true, (Some(x), Some(y)) => flat_c(c, x, y), _ => false } }
impl TursoConnection { #[verifier::external_body] pub fn transform_subqueries(&self, expr: BoolExpr) -> (r: Result<BoolExpr>) ensures r is Ok ==> flat_c(self.conn, expr, r->Ok_0) { unimplemented!() } }
//@@ type path=butane_core/src/db/turso.rs name=TursoRow
pub struct VecRows { pub rows: Vec<TursoRow> }
impl VecRows {
  pub open spec fn all(&self) -> Seq<TursoRow> { self.rows@ }
  pub fn new(rows: Vec<TursoRow>) -> (r: VecRows) ensures r.rows == rows { VecRows { rows } }
}
pub open spec fn row_ok(r: TursoRow, t: Seq<Value>, cols: Seq<Column>) -> bool {
  values_ok(r.values@, t, cols, cols.len() as int)
}
pub open spec fn values_ok(v: Seq<SqlVal>, t: Seq<Value>, cols: Seq<Column>, k: int) -> bool {
  v.len() == k && forall|i: int| 0 <= i < k ==> i < t.len() && tu_val(t[i], cols[i].ty) == Ok::<SqlVal, Error>(#[trigger] v[i])
}
pub open spec fn rows_so_far(v: Seq<TursoRow>, all: Seq<Seq<Value>>, k: int, cols: Seq<Column>) -> bool { v.len() == k && forall|i: int| 0 <= i < k ==> row_ok(#[trigger] v[i], all[i], cols) }
pub open spec fn turso_answer(c: TuConn, v: Seq<TursoRow>, cols: Seq<Column>, sql: Seq<char>, ps: Seq<int>) -> bool {
  tu_rows(c, sql, ps) is Ok && rows_so_far(v, tu_rows(c, sql, ps)->Ok_0, tu_rows(c, sql, ps)->Ok_0.len() as int, cols)
}

pub open spec fn tu_has_table() -> Seq<char> { "SELECT name FROM sqlite_master WHERE type='table' AND lower(name)=lower(?)"@ }
pub mod turso { pub use super::Value; }
impl Value { #[verifier::external_body] #[allow(non_snake_case)] pub fn Text(s: String) -> (r: Value) ensures r.b() == bound_text(s@) { unimplemented!() } }
