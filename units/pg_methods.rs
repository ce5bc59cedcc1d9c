// ===== tokio-postgres (external): statements are issued only where permitted, and their answers are the database's =====
#[verifier::external_body] pub struct PgClient { x: u8 }
#[verifier::external_body] pub struct PgStmt { x: u8 }
#[verifier::external_body] pub struct PgRow { x: u8 }
#[verifier::external_body] pub struct DynToSqlPg { x: u8 }
pub type PgError = EOpaque;
#[verifier::external_body] pub struct PgRowStream { x: u8 }
impl core::convert::From<PgError> for Error { #[verifier::external_body] fn from(e: PgError) -> (r: Error) { unimplemented!() } }
pub type PResult<T> = core::result::Result<T, PgError>;
impl DynToSqlPg { pub uninterp spec fn b(&self) -> int; }
pub trait PgBind { spec fn pb(&self) -> int; }
impl PgBind for SqlVal { open spec fn pb(&self) -> int { bound(*self) } }
impl<'a> PgBind for SqlValRef<'a> { open spec fn pb(&self) -> int { bound_ref(*self) } }
impl<'a> PgBind for &'a str { open spec fn pb(&self) -> int { bound_text((*self)@) } }
#[verifier::external_body] pub fn vdyn_ToSql<T: PgBind>(v: &T) -> (r: &DynToSqlPg) ensures r.b() == v.pb() { unimplemented!() }
#[verifier::external_body] pub fn vdyn_DynToSqlPg<T: PgBind>(v: &T) -> (r: &DynToSqlPg) ensures r.b() == v.pb() { unimplemented!() }
pub open spec fn pbs(v: Seq<&DynToSqlPg>) -> Seq<int> { Seq::new(v.len(), |i: int| v[i].b()) }
pub broadcast proof fn pbs1(v: Seq<&DynToSqlPg>) requires v.len() == 1 ensures #[trigger] pbs(v) == seq![v[0].b()] { assert(pbs(v) =~= seq![v[0].b()]); }
pub open spec fn is_pb(acc: Seq<&DynToSqlPg>, vs: Seq<SqlVal>, k: int) -> bool { acc.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] acc[i]).b() == bound(vs[i]) }
pub open spec fn is_pb_ref(acc: Seq<&DynToSqlPg>, vs: Seq<SqlValRef>, k: int) -> bool { acc.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] acc[i]).b() == bound_ref(vs[i]) }
pub proof fn done_pb(acc: Seq<&DynToSqlPg>, vs: Seq<SqlVal>) requires is_pb(acc, vs, vs.len() as int) ensures pbs(acc) == bounds(vs) { assert(pbs(acc) =~= bounds(vs)); }
pub proof fn done_pb_ref(acc: Seq<&DynToSqlPg>, vs: Seq<SqlValRef>) requires is_pb_ref(acc, vs, vs.len() as int) ensures pbs(acc) == bounds_ref(vs) { assert(pbs(acc) =~= bounds_ref(vs)); }
pub uninterp spec fn pg_may(c: PgClient, sql: Seq<char>, ps: Seq<int>) -> bool;
pub uninterp spec fn pg_may_batch(c: PgClient, sql: Seq<char>) -> bool;
pub uninterp spec fn pg_exec(c: PgClient, sql: Seq<char>, ps: Seq<int>) -> PResult<u64>;
pub uninterp spec fn pg_batch(c: PgClient, sql: Seq<char>) -> PResult<()>;
pub uninterp spec fn pg_rows(c: PgClient, sql: Seq<char>, ps: Seq<int>) -> PResult<Seq<PgRow>>;
pub uninterp spec fn pg_val(r: PgRow, i: int, col: Column) -> Result<SqlVal>;
/// the name by which a table is looked up is a parameter like any other
pub trait PgQuery { spec fn sql(&self) -> Seq<char>; }
impl<'a> PgQuery for &'a str { open spec fn sql(&self) -> Seq<char> { (*self)@ } }
impl<'a> PgQuery for &'a PgStmt { open spec fn sql(&self) -> Seq<char> { (**self).text() } }
impl PgStmt { pub uninterp spec fn text(&self) -> Seq<char>; }
impl PgClient {
  #[verifier::external_body] pub fn batch_execute(&self, sql: &str) -> (r: PResult<()>) requires pg_may_batch(*self, sql@) ensures r == pg_batch(*self, sql@) { unimplemented!() }
  #[verifier::external_body] pub fn execute(&self, sql: &str, p: &[&DynToSqlPg]) -> (r: PResult<u64>) requires pg_may(*self, sql@, pbs(p@)) ensures r == pg_exec(*self, sql@, pbs(p@)) { unimplemented!() }
  #[verifier::external_body] pub fn prepare(&self, sql: &str) -> (r: PResult<PgStmt>) ensures r is Ok ==> r->Ok_0.text() == sql@ { unimplemented!() }
  #[verifier::external_body] pub fn prepare_typed(&self, sql: &str, t: &[PgType]) -> (r: PResult<PgStmt>) ensures r is Ok ==> r->Ok_0.text() == sql@ { unimplemented!() }
  #[verifier::external_body] pub fn query(&self, q: &PgStmt, p: &[&DynToSqlPg]) -> (r: PResult<Vec<PgRow>>) requires pg_may(*self, q.text(), pbs(p@)) ensures r is Ok == pg_rows(*self, q.text(), pbs(p@)) is Ok, r is Ok ==> r->Ok_0@ == pg_rows(*self, q.text(), pbs(p@))->Ok_0 { unimplemented!() }
  #[verifier::external_body] pub fn query_raw<Q: PgQuery>(&self, q: Q, p: Vec<&DynToSqlPg>) -> (r: PResult<PgRowStream>) requires pg_may(*self, q.sql(), pbs(p@))
    ensures r is Ok == pg_rows(*self, q.sql(), pbs(p@)) is Ok, r is Ok ==> r->Ok_0.all() == pg_rows(*self, q.sql(), pbs(p@))->Ok_0 && r->Ok_0.pos() == 0 { unimplemented!() }
}
impl PgRowStream {
  pub uninterp spec fn all(&self) -> Seq<PgRow>;
  pub uninterp spec fn pos(&self) -> int;
  #[verifier::external_body] pub fn next(&mut self) -> (r: Option<PResult<PgRow>>)
    ensures final(self).all() == old(self).all(), r is Some && r->0 is Ok ==> old(self).pos() < old(self).all().len() && final(self).pos() == old(self).pos() + 1 && r->0->Ok_0 == old(self).all()[old(self).pos()],
      r is None ==> old(self).pos() == old(self).all().len() && final(self).pos() == old(self).pos() { unimplemented!() }
}
pub struct PgMapped<F> { pub st: PgRowStream, pub f: F }
impl<U, F: Fn(PResult<PgRow>) -> U> PgMapped<F> {
  /// the adapter's result for the stream's next item
  #[verifier::external_body] pub fn next(&mut self) -> (r: Option<U>) requires forall|x: PResult<PgRow>| old(self).f.requires((x,))
    ensures r is Some ==> exists|x: PResult<PgRow>| #[trigger] old(self).f.ensures((x,), r->0) && (x is Ok ==> old(self).st.pos() < old(self).st.all().len() && x->Ok_0 == old(self).st.all()[old(self).st.pos()]),
      r is None ==> old(self).st.pos() == old(self).st.all().len() { unimplemented!() }
}
impl PgRowStream { pub fn map<U, F: Fn(PResult<PgRow>) -> U>(self, f: F) -> (r: PgMapped<F>) ensures r.st == self, r.f == f { PgMapped { st: self, f } } }
impl PgRow { pub uninterp spec fn width(&self) -> nat;
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.width() { unimplemented!() } }
#[verifier::external_body] pub fn sqlval_for_pg_query(v: &SqlVal) -> (r: &DynToSqlPg) ensures r.b() == bound(*v) { unimplemented!() }
#[verifier::external_body] pub fn sqlvalref_for_pg_query<'a>(v: &'a SqlValRef<'a>) -> (r: &'a DynToSqlPg) ensures r.b() == bound_ref(*v) { unimplemented!() }
#[verifier::external_body] pub fn pgtype_for_val(v: &SqlVal) -> (r: PgType) { unimplemented!() }
/// a connection or a transaction
pub trait PgConnectionLike { spec fn cl(&self) -> Option<PgClient>; fn client(&self) -> (r: Result<&PgClient>) ensures r is Ok == self.cl() is Some, r is Ok ==> *(r->Ok_0) == self.cl()->0; }
pub struct PgAny<T> { pub inner: T }
impl<T: PgConnectionLike> PgAny<T> {
  pub open spec fn may(&self, sql: Seq<char>, ps: Seq<int>) -> bool { self.inner.cl() is Some ==> pg_may(self.inner.cl()->0, sql, ps) }
  pub open spec fn done(&self, sql: Seq<char>, ps: Seq<int>) -> bool { self.inner.cl() is Some && pg_exec(self.inner.cl()->0, sql, ps) is Ok }
  pub fn client(&self) -> (r: Result<&PgClient>) ensures r is Ok == self.inner.cl() is Some, r is Ok ==> *(r->Ok_0) == self.inner.cl()->0 { self.inner.client() }
//@@ fn path=butane_core/src/db/pg.rs name=execute impl="ConnectionMethods for T" as=cm_execute
//@@ sig
//@ pub fn cm_execute(&self, sql: &str) -> (r: Result<()>)
//@@ spec
//@   requires self.inner.cl() is Some ==> pg_may_batch(self.inner.cl()->0, sql@)
//@   ensures r is Ok == (self.inner.cl() is Some && pg_batch(self.inner.cl()->0, sql@) is Ok)
//@@ end
//@@ fn path=butane_core/src/db/pg.rs name=insert_only impl="ConnectionMethods for T" as=cm_insert_only loops=1
//@@ subst PgPlaceholderSource::new => new_pg_source
//@@ sig
//@ pub fn cm_insert_only(&self, table: &str, columns: &[Column], values: &[SqlValRef<'_>]) -> (r: Result<()>)
//@@ spec
//@   requires columns@.len() < MAXPH, self.may(emit_insert::<PgPlaceholderSource>(Seq::empty(), table@, columns@, 1), bounds_ref(values@)),
//@   ensures r is Ok == self.done(emit_insert::<PgPlaceholderSource>(Seq::empty(), table@, columns@, 1), bounds_ref(values@))
//@@ loop 1
//@   $all == values@, is_pb_ref($acc@, values@, $pos),
//@@ loop_after 1
//@   proof { done_pb_ref($acc@, values@); }
//@@ end
//@@ fn path=butane_core/src/db/pg.rs name=insert_returning_pk impl="ConnectionMethods for T" as=cm_insert_returning_pk loops=1
//@@ subst PgPlaceholderSource::new => new_pg_source
//@@ subst Box::pin => vpin
//@@ sig
//@ pub fn cm_insert_returning_pk(&self, table: &str, columns: &[Column], pkcol: &Column, values: &[SqlValRef<'_>]) -> (r: Result<SqlVal>)
//@@ spec
//@   requires columns@.len() < MAXPH, self.may(pg_pk_sql(table@, columns@, *pkcol), bounds_ref(values@)),
//@   ensures self.inner.cl() is None ==> r is Err, r is Ok ==> pg_rows(self.inner.cl()->0, pg_pk_sql(table@, columns@, *pkcol), bounds_ref(values@)) is Ok && r == pg_val(pg_rows(self.inner.cl()->0, pg_pk_sql(table@, columns@, *pkcol), bounds_ref(values@))->Ok_0[0], 0, *pkcol),
//@@ loop 1
//@   $all == values@, is_pb_ref($acc@, values@, $pos),
//@@ loop_after 1
//@   proof { done_pb_ref($acc@, values@); }
//@@ hint r => res
//@@ hint future.map_err(Error::Postgres)? => stream
//@@ closure 1
//@   (o: PResult<Result<SqlVal>>) ensures o is Ok == r is Ok, r is Ok ==> o->Ok_0 == pg_val(r->Ok_0, 0, *pkcol), r is Err ==> o->Err_0 == r->Err_0
//@@ end
//@@ fn path=butane_core/src/db/pg.rs name=insert_or_replace impl="ConnectionMethods for T" as=cm_insert_or_replace loops=1
//@@ subst sql_insert_or_replace_with_placeholders => pg_upsert
//@@ sig
//@ pub fn cm_insert_or_replace(&self, table: &str, columns: &[Column], pkcol: &Column, values: &[SqlValRef<'_>]) -> (r: Result<()>)
//@@ spec
//@   requires columns@.len() < 0x7fff_ffff, self.may(emit_upsert::<PgPlaceholderSource>(Seq::empty(), table@, columns@, *pkcol), bounds_ref(values@)),
//@   ensures r is Ok == self.done(emit_upsert::<PgPlaceholderSource>(Seq::empty(), table@, columns@, *pkcol), bounds_ref(values@))
//@@ loop 1
//@   $all == values@, is_pb_ref($acc@, values@, $pos),
//@@ loop_after 1
//@   proof { done_pb_ref($acc@, values@); }
//@@ end
//@@ fn path=butane_core/src/db/pg.rs name=update impl="ConnectionMethods for T" as=cm_update loops=1
//@@ subst PgPlaceholderSource::new => new_pg_source
//@@ sig
//@ pub fn cm_update(&self, table: &str, pkcol: Column, pk: SqlValRef<'_>, columns: &[Column], values: &[SqlValRef<'_>]) -> (r: Result<()>)
//@@ spec
//@   requires columns@.len() < MAXPH - 1, self.may(emit_update::<PgPlaceholderSource>(Seq::empty(), table@, pkcol, columns@, 1), bounds_ref(values@.push(pk))),
//@   ensures r is Ok == self.done(emit_update::<PgPlaceholderSource>(Seq::empty(), table@, pkcol, columns@, 1), bounds_ref(values@.push(pk)))
//@@ loop 1
//@   $all == values@.push(pk), is_pb_ref($acc@, values@.push(pk), $pos),
//@@ loop_after 1
//@   proof { done_pb_ref($acc@, values@.push(pk)); }
//@@ end
//@@ fn path=butane_core/src/db/pg.rs name=delete_where impl="ConnectionMethods for T" as=delete_where loops=1
//@@ subst sql_for_expr => pg_sql_for_expr
//@@ subst PgPlaceholderSource::new => new_pg_source
//@@ sig
//@ pub fn delete_where(&self, table: &str, expr: BoolExpr) -> (r: Result<usize>)
//@@ spec
//@   requires nph_c(expr) < MAXPH, self.may(delete_sql::<PgPlaceholderSource>(table@, expr), bounds(vals_c(expr))),
//@   ensures r is Ok == self.done(delete_sql::<PgPlaceholderSource>(table@, expr), bounds(vals_c(expr))),
//@     r is Ok ==> r->Ok_0 == pg_exec(self.inner.cl()->0, delete_sql::<PgPlaceholderSource>(table@, expr), bounds(vals_c(expr)))->Ok_0 as usize,
//@@ loop 1
//@   $all == vals_c(expr), is_pb($acc@, vals_c(expr), $pos),
//@@ loop_after 1
//@   proof { done_pb($acc@, vals_c(expr)); }
//@@ end
//@@ fn path=butane_core/src/db/pg.rs name=delete impl="ConnectionMethods for T" as=cm_delete
//@@ sig
//@ pub fn cm_delete(&self, table: &str, pkcol: &'static str, pk: SqlVal) -> (r: Result<()>)
//@@ spec
//@   requires self.may(delete_sql::<PgPlaceholderSource>(table@, pk_is(pkcol, pk)), bounds(vals_c(pk_is(pkcol, pk)))), nph_c(pk_is(pkcol, pk)) < MAXPH,
//@   ensures r is Ok == self.done(delete_sql::<PgPlaceholderSource>(table@, pk_is(pkcol, pk)), bounds(vals_c(pk_is(pkcol, pk))))
//@@ end
//@@ fn path=butane_core/src/db/pg.rs name=has_table impl="ConnectionMethods for T" as=cm_has_table
//@@ sig
//@ pub fn cm_has_table(&self, table: &str) -> (r: Result<bool>)
//@@ spec
//@   requires self.may(has_table_sql(), seq![bound_text(table@)]),
//@   ensures self.inner.cl() is None ==> r is Err, r is Ok ==> pg_rows(self.inner.cl()->0, has_table_sql(), seq![bound_text(table@)]) is Ok && r->Ok_0 == (pg_rows(self.inner.cl()->0, has_table_sql(), seq![bound_text(table@)])->Ok_0.len() > 0),
//@@ entry
//@   broadcast use {pbs1};
//@@ end
//@@ fn path=butane_core/src/db/pg.rs name=query impl="ConnectionMethods for T" as=cm_query loops=3
//@@ subst sql_for_expr => pg_sql_for_expr
//@@ subst PgPlaceholderSource::new => new_pg_source
//@@ subst Box::pin => vpin
//@@ subst VecRows::new => PgVecRows::new
//@@ sig
//@ #[verifier::exec_allows_no_decreases_clause]
//@ #[verifier::allow_complex_invariants]
//@ pub fn cm_query(&self, table: &str, columns: &[Column], expr: Option<BoolExpr>, limit: Option<i32>, offset: Option<i32>, order: Option<&[Order]>) -> (r: Result<Box<PgVecRows>>)
//@@ spec
//@   requires opt_nph(expr) < MAXPH, self.may(select_sql::<PgPlaceholderSource>(table@, columns@, expr, limit, offset, order), bounds(opt_vals(expr))),
//@   ensures r is Ok ==> pg_answer(self.inner.cl()->0, (*r->Ok_0).all(), columns@, select_sql::<PgPlaceholderSource>(table@, columns@, expr, limit, offset, order), bounds(opt_vals(expr))),
//@@ loop 1
//@   true,
//@@ loop 2
//@   $all == values@, is_pb($acc@, values@, $pos),
//@@ loop_after 2
//@   proof { done_pb($acc@, values@); assert(values@ == opt_vals(expr)); assert(sqlquery@ =~= select_sql::<PgPlaceholderSource>(table@, columns@, expr, limit, offset, order)); }
//@@ loop 3
//@   invariant pg_rows(self.inner.cl()->0, sqlquery@, bounds(opt_vals(expr))) is Ok, rowstream.all() == pg_rows(self.inner.cl()->0, sqlquery@, bounds(opt_vals(expr)))->Ok_0, 0 <= rowstream.pos() <= rowstream.all().len(), pg_upto(rowvec@, rowstream.all(), rowstream.pos(), columns@),
//@   ensures rowstream.pos() == rowstream.all().len(),
//@@ loop_after 3
//@   proof { assert(rowvec@ =~= rowstream.all()); }
//@@ end
}
pub open spec fn pg_upto(v: Seq<PgRow>, all: Seq<PgRow>, k: int, cols: Seq<Column>) -> bool { v.len() == k && forall|i: int| 0 <= i < k ==> #[trigger] v[i] == all[i] && v[i].width() == cols.len() }
pub open spec fn pg_pk_sql(table: Seq<char>, cols: Seq<Column>, pk: Column) -> Seq<char> { emit_insert::<PgPlaceholderSource>(Seq::empty(), table, cols, 1) + " RETURNING "@ + ident(pk.name@) }
#[verifier::external_body] pub fn sql_val_from_postgres(row: &PgRow, idx: usize, col: &Column) -> (r: Result<SqlVal>) ensures r == pg_val(*row, idx as int, *col) { unimplemented!() }
/// a row per answer of the database, each as wide as what was asked
pub open spec fn pg_answer(c: PgClient, v: Seq<PgRow>, cols: Seq<Column>, sql: Seq<char>, ps: Seq<int>) -> bool {
  pg_rows(c, sql, ps) is Ok && v == pg_rows(c, sql, ps)->Ok_0 && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).width() == cols.len()
}
pub open spec fn pk_is(pkcol: &'static str, pk: SqlVal) -> BoolExpr { BoolExpr::Eq(pkcol, Expr::Val(pk)) }
pub open spec fn has_table_sql() -> Seq<char> { "SELECT table_name FROM information_schema.tables WHERE table_name=$1;"@ }
pub struct PgVecRows { pub rows: Vec<PgRow> }
impl PgVecRows {
  pub open spec fn all(&self) -> Seq<PgRow> { self.rows@ }
  pub fn new(rows: Vec<PgRow>) -> (r: PgVecRows) ensures r.rows == rows { PgVecRows { rows } }
}
pub assume_specification<T, A: core::alloc::Allocator> [<Vec<T, A> as core::convert::AsRef<[T]>>::as_ref] (v: &Vec<T, A>) -> (r: &[T]) ensures r@ == v@;
pub type Type = PgType;
pub type Row = PgRow;
pub fn vpin<T>(x: T) -> (r: T) ensures r == x { x }
//@@ fn path=butane_core/src/db/pg.rs name=check_columns
//@@ sig
//@ pub fn check_columns(row: &PgRow, cols: &[Column]) -> (r: Result<()>)
//@@ spec
//@   ensures r is Ok == (row.width() == cols@.len())
//@@ end
