// ===== migrations: the record of what is applied, connections and their transactions =====
impl ToSql for str {
  open spec fn enc(&self) -> AVal { AVal::Text(self@) }
  open spec fn encodable(&self) -> bool { true }
//@for F in to_sql to_sql_ref
//@@ fn path=butane_core/src/sqlval.rs name=%F% impl="ToSql for str" traitspec
//@@ end
//@endfor
}
impl ToSql for String {
  open spec fn enc(&self) -> AVal { AVal::Text(self@) }
  open spec fn encodable(&self) -> bool { true }
//@for F in to_sql to_sql_ref into_sql
//@@ fn path=butane_core/src/sqlval.rs name=%F% impl="ToSql for String" traitspec
//@@ end
//@endfor
}
impl FromSql for String {
  open spec fn can_dec(v: AVal) -> bool { v is Text }
  open spec fn is_dec(&self, v: AVal) -> bool { v == AVal::Text(self@) }
//@for F in from_sql_ref from_sql
//@@ fn path=butane_core/src/sqlval.rs name=%F% impl="FromSql for String" traitspec
//@@ end
//@endfor
}
//@@ type path=butane_core/src/migrations/mod.rs name=ButaneMigration
#[verifier::external_body]
//@@ type path=butane_core/src/migrations/mod.rs name=COLUMNS impl="DataResult for ButaneMigration" as=RECORD_COLUMNS
pub trait MigrationRecord { const PKCOL: &'static str; const TABLE: &'static str; }
impl MigrationRecord for ButaneMigration {
//@@ type path=butane_core/src/migrations/mod.rs name=PKCOL impl="DataObject for ButaneMigration"
//@@ type path=butane_core/src/migrations/mod.rs name=TABLE impl="DataObject for ButaneMigration"
}
impl DataResult for ButaneMigration {
  const COLUMNS: &'static [Column] = RECORD_COLUMNS;
  open spec fn reads(w: RowView, r: Result<Self>) -> bool { r is Ok ==> w.width == 1 && (w.cell)(0, SqlType::Text) == Some(AVal::Text(r->Ok_0.name@)) }
  open spec fn table() -> Seq<char> { Self::TABLE@ }
//@@ fn path=butane_core/src/migrations/mod.rs name=from_row impl="DataResult for ButaneMigration" traitspec
//@@ subst row.get(0, SqlType :: Text).unwrap() => vlive(row.get(0, SqlType :: Text))
//@@ end
  fn query() -> (r: Query<Self>) { vabsent() }
}
/// `unwrap` on what is claimed nothing about when it fails (the program panics)
#[verifier::external_body] pub fn vlive<T>(r: Result<T>) -> (x: T) ensures r is Ok, x == r->Ok_0 { unimplemented!() }
/// stands for a function body that is never reached from here
#[verifier::external_body] pub fn vabsent<T>() -> (r: T) ensures false { unimplemented!() }
/// a transaction: its statements so far, and the connection's committed transactions
pub struct Transaction<'c> { pub log: &'c mut Ghost<Seq<Seq<(Call, bool)>>>, pub done: Ghost<Seq<(Call, bool)>> }
pub struct NoRows { }
impl BackendRows for NoRows { open spec fn rest(&self) -> Seq<RowView> { Seq::empty() } fn next<'a>(&'a mut self) -> (r: Result<Option<&'a (dyn BackendRow + 'a)>>) { vabsent() } }
impl<'c> ConnectionMethods for Transaction<'c> {
  type Rows = NoRows;
  open spec fn calls(&self) -> Seq<(Call, bool)> { self.done@ }
  #[verifier::prophetic] open spec fn same_place(&self, o: &Self) -> bool { *self.log == *o.log && *final(self.log) == *final(o.log) }
  uninterp spec fn tables(&self, t: Seq<char>) -> Option<bool>;
  uninterp spec fn answer(&self, s: Sel) -> Option<Seq<RowView>>;
  uninterp spec fn links(&self, table: Seq<char>, o: AVal, h: AVal) -> nat;
  fn has_table<S: VDisp + ?Sized>(&self, table: &S) -> (r: Result<bool>) { vabsent() }
  fn execute<S: VDisp + ?Sized>(&mut self, sql: &S) -> (r: Result<()>) { vabsent() }
  fn query<S: VDisp + ?Sized>(&self, table: &S, columns: &[Column], expr: Option<BoolExpr>, limit: Option<i32>, offset: Option<i32>, sort: Option<&[Order]>) -> (r: Result<Self::Rows>) { vabsent() }
  fn insert_returning_pk<S: VDisp + ?Sized>(&mut self, table: &S, columns: &[Column], pkcol: &Column, values: &[SqlValRef<'_>]) -> (r: Result<SqlVal>) { vabsent() }
  fn insert_only<S: VDisp + ?Sized>(&mut self, table: &S, columns: &[Column], values: &[SqlValRef<'_>]) -> (r: Result<()>) { vabsent() }
  fn insert_or_replace<S: VDisp + ?Sized>(&mut self, table: &S, columns: &[Column], pkcol: &Column, values: &[SqlValRef<'_>]) -> (r: Result<()>) { vabsent() }
  fn update<S: VDisp + ?Sized>(&mut self, table: &S, pkcol: Column, pk: SqlValRef<'_>, columns: &[Column], values: &[SqlValRef<'_>]) -> (r: Result<()>) { vabsent() }
  fn delete_where<S: VDisp + ?Sized>(&mut self, table: &S, expr: BoolExpr) -> (r: Result<usize>) { vabsent() }
}
impl<'c> Transaction<'c> {
  /// a transaction that is not committed leaves nothing behind, one that is committed becomes the newest
  #[verifier::external_body] pub fn commit(self) -> (r: Result<()>)
    ensures (*final(self.log))@ == (if r is Ok { (*old(self.log))@.push(self.done@) } else { (*old(self.log))@ })
  { unimplemented!() }
  #[verifier::external_body] pub fn rollback(self) -> (r: Result<()>)
    ensures (*final(self.log))@ == (*old(self.log))@
  { unimplemented!() }
}
pub trait BackendConnection: ConnectionMethods {
  /// the transactions committed so far
  spec fn log(&self) -> Seq<Seq<(Call, bool)>>;
  spec fn backend(&self) -> Seq<char>;
  fn backend_name(&self) -> (r: &'static str) ensures r@ == self.backend();
  fn transaction<'c>(&'c mut self) -> (r: Result<Transaction<'c>>)
    ensures final(self).calls() == old(self).calls(), final(self).backend() == old(self).backend(),
      r is Err ==> final(self).log() == old(self).log(),
      r is Ok ==> r->Ok_0.done@.len() == 0 && (*r->Ok_0.log)@ == old(self).log() && final(self).log() == (*final(r->Ok_0.log))@;
}
pub open spec fn records(c: Call, name: Seq<char>) -> bool { c is InsertOnly && c->InsertOnly_table == ButaneMigration::TABLE@ && c->InsertOnly_cols == RECORD_COLUMNS@ && c->InsertOnly_vals.len() == 1 && c->InsertOnly_vals[0] == AVal::Text(name) }
pub open spec fn unrecords(c: Call, name: Seq<char>) -> bool { c is DeleteWhere && c->DeleteWhere_table == ButaneMigration::TABLE@ && (match c->expr { BoolExpr::Eq(k, Expr::Val(v)) => k@ == ButaneMigration::PKCOL@ && vv(v) == AVal::Text(name), _ => false }) }
/// one committed transaction: the script and the record
pub open spec fn applied_by(name: Seq<char>, up: Option<Seq<char>>, t: Seq<(Call, bool)>) -> bool {
  up is Some && t.len() == 2 && t[0] == (Call::Execute(up->0), true) && t[1].1 && records(t[1].0, name)
}
pub open spec fn undone_by(name: Seq<char>, down: Option<Seq<char>>, t: Seq<(Call, bool)>) -> bool {
  down is Some && t.len() == 2 && t[0] == (Call::Execute(down->0), true) && t[1].1 && unrecords(t[1].0, name)
}
pub open spec fn grew_by(a: Seq<Seq<(Call, bool)>>, b: Seq<Seq<(Call, bool)>>) -> bool { b.len() == a.len() + 1 && b.drop_last() =~= a }
pub trait Migration: Sized {
  spec fn id(&self) -> Seq<char>;
  /// the predecessor's name (outer None: it cannot be read)
  spec fn prev(&self) -> Option<Option<Seq<char>>>;
  /// the scripts (None: there is none or it cannot be read)
  spec fn up(&self, backend: Seq<char>) -> Option<Seq<char>>;
  spec fn down(&self, backend: Seq<char>) -> Option<Seq<char>>;
  fn name(&self) -> (r: Cow<'_, str>) ensures r.disp() == self.id();
  fn migration_from(&self) -> (r: Result<Option<Cow<'_, str>>>)
    ensures (r is Ok) == (self.prev() is Some), r is Ok ==> (match r->Ok_0 { Some(n) => self.prev()->0 == Some(n.disp()), None => self.prev()->0 is None });
  fn up_sql<S: VDisp + ?Sized>(&self, backend_name: &S) -> (r: Result<Option<String>>)
    ensures r is Ok ==> (match r->Ok_0 { Some(t) => self.up(backend_name.disp()) == Some(t@), None => self.up(backend_name.disp()) is None }), r is Err ==> self.up(backend_name.disp()) is None;
  fn down_sql<S: VDisp + ?Sized>(&self, backend_name: &S) -> (r: Result<Option<String>>)
    ensures r is Ok ==> (match r->Ok_0 { Some(t) => self.down(backend_name.disp()) == Some(t@), None => self.down(backend_name.disp()) is None }), r is Err ==> self.down(backend_name.disp()) is None;
