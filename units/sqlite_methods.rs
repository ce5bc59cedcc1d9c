// ===== rusqlite (external): statements are issued only where permitted, and their answers are the database's =====
pub uninterp spec fn bound(v: SqlVal) -> int;
pub uninterp spec fn bound_ref(v: SqlValRef) -> int;
pub uninterp spec fn bound_text(v: Seq<char>) -> int;
pub trait IntoParams { spec fn bseq(&self) -> Seq<int>; }
impl IntoParams for Vec<SqlVal> { open spec fn bseq(&self) -> Seq<int> { bounds(self@) } }
impl<'a> IntoParams for Vec<SqlValRef<'a>> { open spec fn bseq(&self) -> Seq<int> { bounds_ref(self@) } }
impl<'b, 'a> IntoParams for &'b [SqlValRef<'a>] { open spec fn bseq(&self) -> Seq<int> { bounds_ref((*self)@) } }
impl<'b, 'a> IntoParams for &'b Vec<SqlVal> { open spec fn bseq(&self) -> Seq<int> { bounds((*self)@) } }
pub open spec fn bounds(v: Seq<SqlVal>) -> Seq<int> { Seq::new(v.len(), |i: int| bound(v[i])) }
pub open spec fn bounds_ref(v: Seq<SqlValRef>) -> Seq<int> { Seq::new(v.len(), |i: int| bound_ref(v[i])) }
#[verifier::external_body] pub struct Params { x: u8 }
impl Params { pub uninterp spec fn seq(&self) -> Seq<int>; }
#[verifier::external_body] pub fn params_from_iter<I: IntoParams>(i: I) -> (r: Params) ensures r.seq() == i.bseq() { unimplemented!() }
pub trait RqParams { spec fn rseq(&self) -> Seq<int>; }
impl RqParams for Params { open spec fn rseq(&self) -> Seq<int> { self.seq() } }
impl RqParams for [u8; 0] { open spec fn rseq(&self) -> Seq<int> { Seq::empty() } }
impl<'a> RqParams for [&'a str; 1] { open spec fn rseq(&self) -> Seq<int> { seq![bound_text(self@[0]@)] } }
#[verifier::external_body] pub struct RqConn { x: u8 }
#[verifier::external_body] pub struct RqStmt { x: u8 }
#[verifier::external_body] pub struct RqRow { x: u8 }
#[verifier::external_body] pub struct RqRows { x: u8 }
#[verifier::external_body] pub struct ValueRef { x: u8 }
/// the statement may be issued
pub uninterp spec fn rq_may(c: RqConn, sql: Seq<char>, ps: Seq<int>) -> bool;
pub uninterp spec fn rq_may_batch(c: RqConn, sql: Seq<char>) -> bool;
/// the database's answers
pub uninterp spec fn rq_exec(c: RqConn, sql: Seq<char>, ps: Seq<int>) -> Result<usize>;
pub uninterp spec fn rq_batch(c: RqConn, sql: Seq<char>) -> Result<()>;
pub uninterp spec fn rq_row(c: RqConn, sql: Seq<char>, ps: Seq<int>) -> Result<RqRow>;
pub uninterp spec fn rq_rows(c: RqConn, sql: Seq<char>, ps: Seq<int>) -> Result<Seq<RqRow>>;
pub uninterp spec fn rq_col(r: RqRow, i: int) -> ValueRef;
pub uninterp spec fn rq_val(v: ValueRef, ty: SqlType) -> Result<SqlVal>;
impl RqConn {
  #[verifier::external_body] pub fn execute(&self, sql: &str, p: Params) -> (r: Result<usize>) requires rq_may(*self, sql@, p.seq()) ensures r == rq_exec(*self, sql@, p.seq()) { unimplemented!() }
  #[verifier::external_body] pub fn execute_batch(&self, sql: &str) -> (r: Result<()>) requires rq_may_batch(*self, sql@) ensures r == rq_batch(*self, sql@) { unimplemented!() }
  #[verifier::external_body] pub fn query_row_and_then<P: RqParams>(&self, sql: &str, p: P) -> (r: Result<RqRow>) requires rq_may(*self, sql@, p.rseq()) ensures r == rq_row(*self, sql@, p.rseq()) { unimplemented!() }
  #[verifier::external_body] pub fn prepare(&self, sql: &str) -> (r: Result<RqStmt>) ensures r is Ok ==> r->Ok_0.conn() == *self && r->Ok_0.sql() == sql@ { unimplemented!() }
}
impl RqStmt {
  pub uninterp spec fn conn(&self) -> RqConn;
  pub uninterp spec fn sql(&self) -> Seq<char>;
  #[verifier::external_body] pub fn query<P: RqParams>(&mut self, p: P) -> (r: Result<RqRows>) requires rq_may(old(self).conn(), old(self).sql(), p.rseq())
    ensures r is Ok == rq_rows(old(self).conn(), old(self).sql(), p.rseq()) is Ok, r is Ok ==> r->Ok_0.all() == rq_rows(old(self).conn(), old(self).sql(), p.rseq())->Ok_0 && r->Ok_0.pos() == 0 { unimplemented!() }
}
impl RqRows {
  pub uninterp spec fn all(&self) -> Seq<RqRow>;
  pub uninterp spec fn pos(&self) -> int;
  #[verifier::external_body] pub fn next(&mut self) -> (r: Result<Option<RqRow>>) ensures r is Ok ==> (r->Ok_0 is Some == (old(self).pos() < old(self).all().len())) { unimplemented!() }
}
impl RqRow { #[verifier::external_body] pub fn get_ref_unwrap(&self, i: usize) -> (r: ValueRef) ensures r == rq_col(*self, i as int) { unimplemented!() } }
#[verifier::external_body] pub fn sql_val_from_rusqlite(v: ValueRef, col: &Column) -> (r: Result<SqlVal>) ensures r == rq_val(v, col.ty) { unimplemented!() }
/// a running query
#[verifier::external_body] pub struct QueryAdapter { x: u8 }
impl QueryAdapter {
  pub uninterp spec fn conn(&self) -> RqConn;
  pub uninterp spec fn sql(&self) -> Seq<char>;
  pub uninterp spec fn params(&self) -> Seq<int>;
  #[verifier::external_body] pub fn new(stmt: RqStmt, p: Params) -> (r: Result<QueryAdapter>) requires rq_may(stmt.conn(), stmt.sql(), p.seq())
    ensures r is Ok == rq_rows(stmt.conn(), stmt.sql(), p.seq()) is Ok, r is Ok ==> r->Ok_0.conn() == stmt.conn() && r->Ok_0.sql() == stmt.sql() && r->Ok_0.params() == p.seq() { unimplemented!() }
}
pub open spec fn opt_order(pre: Seq<char>, o: Option<&[Order]>) -> Seq<char> { match o { Some(s) => emit_order(pre + " ORDER BY "@, s@, s@.len() as int), None => pre } }
pub open spec fn opt_limit(pre: Seq<char>, l: Option<i32>) -> Seq<char> { match l { Some(n) => pre + " LIMIT "@ + int_text(n as int), None => pre } }
pub open spec fn opt_offset(pre: Seq<char>, l: Option<i32>) -> Seq<char> { match l { Some(n) => pre + " OFFSET "@ + int_text(n as int), None => pre } }
pub open spec fn opt_where<P: PlaceholderSource>(pre: Seq<char>, e: Option<BoolExpr>) -> Seq<char> { match e { Some(c) => emit_c::<P>(pre + " WHERE "@, c, P::adv(1)), None => pre } }
pub open spec fn opt_vals(e: Option<BoolExpr>) -> Seq<SqlVal> { match e { Some(c) => vals_c(c), None => Seq::empty() } }
pub open spec fn opt_nph(e: Option<BoolExpr>) -> int { match e { Some(c) => nph_c(c), None => 0 } }
/// SQLite needs a limit where there is an offset
pub open spec fn lite_limit(limit: Option<i32>, offset: Option<i32>) -> Option<i32> { if limit is None && offset is Some { Some(i32::MAX) } else { limit } }
pub open spec fn select_sql<P: PlaceholderSource>(table: Seq<char>, cols: Seq<Column>, e: Option<BoolExpr>, limit: Option<i32>, offset: Option<i32>, order: Option<&[Order]>) -> Seq<char> {
  opt_offset(opt_limit(opt_order(opt_where::<P>(emit_select(Seq::empty(), cols, table), e), order), limit), offset)
}
pub open spec fn delete_sql<P: PlaceholderSource>(table: Seq<char>, e: BoolExpr) -> Seq<char> {
  emit_c::<P>("DELETE FROM "@ + ident(table) + " WHERE "@, e, P::adv(1))
}
pub open spec fn lite_pk_sql(table: Seq<char>, pk: Column) -> Seq<char> {
  "SELECT "@ + ident(pk.name@) + " FROM "@ + ident(table) + " WHERE ROWID = last_insert_rowid()"@
}
impl RqConn {
//@@ fn path=butane_core/src/db/sqlite.rs name=execute impl="ConnectionMethods for rusqlite::Connection" as=cm_execute
//@@ sig
//@ pub fn cm_execute(&self, sql: &str) -> (r: Result<()>)
//@@ spec
//@   requires rq_may_batch(*self, sql@)
//@   ensures r == rq_batch(*self, sql@)
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=query impl="ConnectionMethods for rusqlite::Connection" as=cm_query
//@@ subst sql_for_expr => sqlite_sql_for_expr
//@@ subst SQLitePlaceholderSource::new => new_sqlite_source
//@@ sig
//@ pub fn cm_query(&self, table: &str, columns: &[Column], expr: Option<BoolExpr>, limit: Option<i32>, offset: Option<i32>, order: Option<&[Order]>) -> (r: Result<Box<QueryAdapter>>)
//@@ spec
//@   requires opt_nph(expr) <= MAXPH, rq_may(*self, select_sql::<SQLitePlaceholderSource>(table@, columns@, expr, lite_limit(limit, offset), offset, order), bounds(opt_vals(expr)))
//@   ensures r is Ok ==> (*r->Ok_0).conn() == *self && (*r->Ok_0).sql() == select_sql::<SQLitePlaceholderSource>(table@, columns@, expr, lite_limit(limit, offset), offset, order) && (*r->Ok_0).params() == bounds(opt_vals(expr)),
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=insert_returning_pk impl="ConnectionMethods for rusqlite::Connection" as=cm_insert_returning_pk
//@@ subst SQLitePlaceholderSource::new => new_sqlite_source
//@@ sig
//@ pub fn cm_insert_returning_pk(&self, table: &str, columns: &[Column], pkcol: &Column, values: &[SqlValRef<'_>]) -> (r: Result<SqlVal>)
//@@ spec
//@   requires columns@.len() < MAXPH, rq_may(*self, emit_insert::<SQLitePlaceholderSource>(Seq::empty(), table@, columns@, 0), bounds_ref(values@)),
//@     rq_may(*self, lite_pk_sql(table@, *pkcol), Seq::empty()),
//@   ensures r is Ok ==> rq_exec(*self, emit_insert::<SQLitePlaceholderSource>(Seq::empty(), table@, columns@, 0), bounds_ref(values@)) is Ok
//@     && rq_row(*self, lite_pk_sql(table@, *pkcol), Seq::empty()) is Ok && r == rq_val(rq_col(rq_row(*self, lite_pk_sql(table@, *pkcol), Seq::empty())->Ok_0, 0), pkcol.ty),
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=insert_only impl="ConnectionMethods for rusqlite::Connection" as=cm_insert_only
//@@ subst SQLitePlaceholderSource::new => new_sqlite_source
//@@ sig
//@ pub fn cm_insert_only(&self, table: &str, columns: &[Column], values: &[SqlValRef<'_>]) -> (r: Result<()>)
//@@ spec
//@   requires columns@.len() < MAXPH, rq_may(*self, emit_insert::<SQLitePlaceholderSource>(Seq::empty(), table@, columns@, 0), bounds_ref(values@)),
//@   ensures r is Ok == rq_exec(*self, emit_insert::<SQLitePlaceholderSource>(Seq::empty(), table@, columns@, 0), bounds_ref(values@)) is Ok
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=insert_or_replace impl="ConnectionMethods for rusqlite::Connection" as=cm_insert_or_replace
//@@ subst sql_insert_or_update => sqlite_upsert
//@@ sig
//@ pub fn cm_insert_or_replace(&self, table: &str, columns: &[Column], pkcol: &Column, values: &[SqlValRef<'_>]) -> (r: Result<()>)
//@@ spec
//@   requires columns@.len() < 0x7fff_ffff, rq_may(*self, emit_upsert::<SQLitePlaceholderSource>(Seq::empty(), table@, columns@, *pkcol), bounds_ref(values@)),
//@   ensures r is Ok == rq_exec(*self, emit_upsert::<SQLitePlaceholderSource>(Seq::empty(), table@, columns@, *pkcol), bounds_ref(values@)) is Ok
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=update impl="ConnectionMethods for rusqlite::Connection" as=cm_update
//@@ subst SQLitePlaceholderSource::new => new_sqlite_source
//@@ sig
//@ pub fn cm_update(&self, table: &str, pkcol: Column, pk: SqlValRef<'_>, columns: &[Column], values: &[SqlValRef<'_>]) -> (r: Result<()>)
//@@ spec
//@   requires columns@.len() < MAXPH - 1, rq_may(*self, emit_update::<SQLitePlaceholderSource>(Seq::empty(), table@, pkcol, columns@, 0), bounds_ref(values@.push(pk))),
//@   ensures r is Ok == rq_exec(*self, emit_update::<SQLitePlaceholderSource>(Seq::empty(), table@, pkcol, columns@, 0), bounds_ref(values@.push(pk))) is Ok
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=delete_where impl="ConnectionMethods for rusqlite::Connection" as=cm_delete_where
//@@ subst sql_for_expr => sqlite_sql_for_expr
//@@ subst SQLitePlaceholderSource::new => new_sqlite_source
//@@ sig
//@ pub fn cm_delete_where(&self, table: &str, expr: BoolExpr) -> (r: Result<usize>)
//@@ spec
//@   requires nph_c(expr) <= MAXPH, rq_may(*self, delete_sql::<SQLitePlaceholderSource>(table@, expr), bounds(vals_c(expr))),
//@   ensures r == rq_exec(*self, delete_sql::<SQLitePlaceholderSource>(table@, expr), bounds(vals_c(expr)))
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=has_table impl="ConnectionMethods for rusqlite::Connection" as=cm_has_table
//@@ sig
//@ pub fn cm_has_table(&self, table: &str) -> (r: Result<bool>)
//@@ spec
//@   requires rq_may(*self, lite_has_table(), seq![bound_text(table@)]),
//@   ensures r is Ok ==> rq_rows(*self, lite_has_table(), seq![bound_text(table@)]) is Ok && r->Ok_0 == (rq_rows(*self, lite_has_table(), seq![bound_text(table@)])->Ok_0.len() > 0),
//@@ end
}

/// the catalogue's tables of exactly one name
pub open spec fn lite_has_table() -> Seq<char> { "SELECT name FROM sqlite_master WHERE type='table' AND name=?;"@ }
