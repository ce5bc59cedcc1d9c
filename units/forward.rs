// ===== what is asked of a connection or transaction, and what it answers =====
//@@ type path=butane_core/src/db/connmethods.rs name=Column
/// rows to come; what they are is C13
#[verifier::external_body] pub struct RawQueryResult<'c> { p: PhantomData<&'c u8> }
#[verifier::external_body] pub struct Backend { }
#[allow(inconsistent_fields)] pub ghost enum Req<'v> {
  Execute { sql: Seq<char> },
  Query { table: Seq<char>, columns: Seq<Column>, expr: Option<BoolExpr>, limit: Option<i32>, offset: Option<i32>, sort: Option<Seq<Order>> },
  InsertPk { table: Seq<char>, columns: Seq<Column>, pkcol: Column, values: Seq<SqlValRef<'v>> },
  InsertOnly { table: Seq<char>, columns: Seq<Column>, values: Seq<SqlValRef<'v>> },
  InsertOrReplace { table: Seq<char>, columns: Seq<Column>, pkcol: Column, values: Seq<SqlValRef<'v>> },
  Update { table: Seq<char>, pkcol: Column, pk: SqlValRef<'v>, columns: Seq<Column>, values: Seq<SqlValRef<'v>> },
  Delete { table: Seq<char>, pkcol: Seq<char>, pk: SqlVal },
  DeleteWhere { table: Seq<char>, expr: BoolExpr },
  HasTable { table: Seq<char> },
}
pub ghost enum Ans<'c> { Unit(Result<()>), Rows(Result<RawQueryResult<'c>>), Val(Result<SqlVal>), Count(Result<usize>), Bool(Result<bool>) }
pub open spec fn err_of(a: Ans) -> bool { match a { Ans::Unit(r) => r is Err, Ans::Rows(r) => r is Err, Ans::Val(r) => r is Err, Ans::Count(r) => r is Err, Ans::Bool(r) => r is Err } }
pub open spec fn sorted(s: Option<&[Order]>) -> Option<Seq<Order>> { match s { Some(o) => Some(o@), None => None } }
pub trait ConnectionMethods {
  /// `a` is an answer this gave to `q`: known only from asking
  spec fn does<'v, 'r>(&self, q: Req<'v>, a: Ans<'r>) -> bool;
  fn execute(&self, sql: &str) -> (r: Result<()>)
    ensures self.does(Req::Execute { sql: sql@ }, Ans::Unit(r));
  fn query<'c>(&'c self, table: &str, columns: &[Column], expr: Option<BoolExpr>, limit: Option<i32>, offset: Option<i32>, sort: Option<&[Order]>) -> (r: Result<RawQueryResult<'c>>)
    ensures self.does(Req::Query { table: table@, columns: columns@, expr, limit, offset, sort: sorted(sort) }, Ans::Rows(r));
  fn insert_returning_pk(&self, table: &str, columns: &[Column], pkcol: &Column, values: &[SqlValRef<'_>]) -> (r: Result<SqlVal>)
    ensures self.does(Req::InsertPk { table: table@, columns: columns@, pkcol: *pkcol, values: values@ }, Ans::Val(r));
  fn insert_only(&self, table: &str, columns: &[Column], values: &[SqlValRef<'_>]) -> (r: Result<()>)
    ensures self.does(Req::InsertOnly { table: table@, columns: columns@, values: values@ }, Ans::Unit(r));
  fn insert_or_replace(&self, table: &str, columns: &[Column], pkcol: &Column, values: &[SqlValRef<'_>]) -> (r: Result<()>)
    ensures self.does(Req::InsertOrReplace { table: table@, columns: columns@, pkcol: *pkcol, values: values@ }, Ans::Unit(r));
  fn update(&self, table: &str, pkcol: Column, pk: SqlValRef<'_>, columns: &[Column], values: &[SqlValRef<'_>]) -> (r: Result<()>)
    ensures self.does(Req::Update { table: table@, pkcol, pk, columns: columns@, values: values@ }, Ans::Unit(r));
  fn delete(&self, table: &str, pkcol: &'static str, pk: SqlVal) -> (r: Result<()>)
    ensures self.does(Req::Delete { table: table@, pkcol: pkcol@, pk }, Ans::Unit(r));
  fn delete_where(&self, table: &str, expr: BoolExpr) -> (r: Result<usize>)
    ensures self.does(Req::DeleteWhere { table: table@, expr }, Ans::Count(r));
  fn has_table(&self, table: &str) -> (r: Result<bool>)
    ensures self.does(Req::HasTable { table: table@ }, Ans::Bool(r));
}
pub trait BackendConnection: ConnectionMethods { }
pub trait BackendTransaction: ConnectionMethods + Sized {
  /// committed or rolled back, whatever came of it
  spec fn over(&self) -> bool;
  /// `r` is what ending it gave
  spec fn ends(&self, commit: bool, r: Result<()>) -> bool;
  /// nothing can be done with a transaction that is over
  proof fn refuses(&self, commit: bool, r: Result<()>)
    requires self.over(), self.ends(commit, r)
    ensures r is Err;
  fn commit(&mut self) -> (r: Result<()>)
    ensures old(self).ends(true, r), final(self).over();
  fn rollback(&mut self) -> (r: Result<()>)
    ensures old(self).ends(false, r), final(self).over();
  fn connection_methods(&self) -> (r: &Self)
    ensures *r == *self;
}
/// the libraries' connection and transaction
pub struct RConn { pub p: u8 }
#[verifier::external_body] pub struct RTrans<'c> { p: PhantomData<&'c u8> }
#[verifier::external_body] pub struct RError { }
impl core::convert::From<RError> for Error { #[verifier::external_body] fn from(e: RError) -> (r: Error) { unimplemented!() } }
impl<'c> RTrans<'c> {
  pub uninterp spec fn conn(&self) -> RConn;
  /// what ending it gave
  pub uninterp spec fn ended(&self, commit: bool, ok: bool) -> bool;
  #[verifier::external_body] pub fn deref(&self) -> (r: &RConn) ensures *r == self.conn() { unimplemented!() }
  #[verifier::external_body] pub fn commit(self) -> (r: core::result::Result<(), RError>) ensures self.ended(true, r is Ok) { unimplemented!() }
  #[verifier::external_body] pub fn rollback(self) -> (r: core::result::Result<(), RError>) ensures self.ended(false, r is Ok) { unimplemented!() }
}
/// turso's connection
#[derive(Clone, Copy)] pub struct Runtime { pub p: u8 }
pub struct TConn { pub p: u8 }
impl Runtime { pub fn block_on<X>(&self, x: X) -> (r: X) ensures r == x { x } }
pub open spec fn did(t: TursoConnection, sql: Seq<char>, r: Result<()>) -> bool {
  exists|x: Result<()>| #[trigger] t.does(Req::Execute { sql }, Ans::Unit(x)) && (x is Ok == r is Ok)
}
//@for T in RConn TursoConnection
impl ConnectionMethods for %T% {
  uninterp spec fn does<'v, 'r>(&self, q: Req<'v>, a: Ans<'r>) -> bool;
  #[verifier::external_body] fn execute(&self, sql: &str) -> (r: Result<()>) { unimplemented!() }
  #[verifier::external_body] fn query<'c>(&'c self, table: &str, columns: &[Column], expr: Option<BoolExpr>, limit: Option<i32>, offset: Option<i32>, sort: Option<&[Order]>) -> (r: Result<RawQueryResult<'c>>) { unimplemented!() }
  #[verifier::external_body] fn insert_returning_pk(&self, table: &str, columns: &[Column], pkcol: &Column, values: &[SqlValRef<'_>]) -> (r: Result<SqlVal>) { unimplemented!() }
  #[verifier::external_body] fn insert_only(&self, table: &str, columns: &[Column], values: &[SqlValRef<'_>]) -> (r: Result<()>) { unimplemented!() }
  #[verifier::external_body] fn insert_or_replace(&self, table: &str, columns: &[Column], pkcol: &Column, values: &[SqlValRef<'_>]) -> (r: Result<()>) { unimplemented!() }
  #[verifier::external_body] fn update(&self, table: &str, pkcol: Column, pk: SqlValRef<'_>, columns: &[Column], values: &[SqlValRef<'_>]) -> (r: Result<()>) { unimplemented!() }
  #[verifier::external_body] fn delete(&self, table: &str, pkcol: &'static str, pk: SqlVal) -> (r: Result<()>) { unimplemented!() }
  #[verifier::external_body] fn delete_where(&self, table: &str, expr: BoolExpr) -> (r: Result<usize>) { unimplemented!() }
  #[verifier::external_body] fn has_table(&self, table: &str) -> (r: Result<bool>) { unimplemented!() }
}
//@endfor
