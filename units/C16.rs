//@include prelude.rs
broadcast use prelude::valg::vtext;
//@include sqlval_types.rs
//@include error.rs
//@include adb_types.rs
//@include adb_store.rs
/// the table that records what is applied: one text column, its key
pub open spec fn bookkeeping(t: ATable) -> bool {
  t.name@ == "butane_migrations"@ && t.columns@.len() == 1 && t.columns@[0].name@ == "name"@ && ct(t.columns@[0].sqltype) == CT::Ty(SqlType::Text) && t.columns@[0].pk && !t.columns@[0].nullable && !t.columns@[0].auto && !t.columns@[0].unique && t.columns@[0].default is None && t.columns@[0].reference is None
}
//@@ fn path=butane_core/src/migrations/mod.rs name=migrations_table
//@@ spec
//@   ensures bookkeeping(r)
//@@ end
// ---- backends and migrations ----
pub trait Backend {
  spec fn id(&self) -> Seq<char>;
  /// the script for these operations from this schema (C14)
  spec fn script(&self, a: ADB, ops: Seq<Operation>) -> Option<Seq<char>>;
  fn name(&self) -> (r: &'static str) ensures r@ == self.id();
  fn create_migration_sql(&self, current: &ADB, ops: Vec<Operation>) -> (r: Result<String>) ensures r is Ok ==> self.script(*current, ops@) == Some(r->Ok_0@), r is Err ==> self.script(*current, ops@) is None;
}
pub trait Migration: Sized {
  spec fn id(&self) -> Seq<char>;
  spec fn schema(&self) -> Option<ADB>;
  spec fn prev(&self) -> Option<Option<Seq<char>>>;
  spec fn up(&self, backend: Seq<char>) -> Option<Seq<char>>;
  spec fn down(&self, backend: Seq<char>) -> Option<Seq<char>>;
  spec fn backends(&self) -> Seq<String>;
  fn db(&self) -> (r: Result<ADB>) ensures r is Ok ==> self.schema() == Some(r->Ok_0);
  fn name(&self) -> (r: Cow<'_, str>) ensures r.disp() == self.id();
  fn migration_from(&self) -> (r: Result<Option<Cow<'_, str>>>)
    ensures r is Ok ==> (match r->Ok_0 { Some(n) => self.prev() == Some(Some(n.disp())), None => self.prev() == Some(None::<Seq<char>>) });
  fn up_sql<S: VDisp + ?Sized>(&self, backend_name: &S) -> (r: Result<Option<String>>)
    ensures r is Ok ==> (match r->Ok_0 { Some(t) => self.up(backend_name.disp()) == Some(t@), None => self.up(backend_name.disp()) is None });
  fn down_sql<S: VDisp + ?Sized>(&self, backend_name: &S) -> (r: Result<Option<String>>)
    ensures r is Ok ==> (match r->Ok_0 { Some(t) => self.down(backend_name.disp()) == Some(t@), None => self.down(backend_name.disp()) is None });
  fn sql_backends(&self) -> (r: Result<Vec<String>>) ensures r is Ok ==> r->Ok_0@ == self.backends();
}
/// what was told to a migration being written
pub ghost struct Told {
  pub id: Seq<char>,
  /// the tables in order, and for an unmodified one the migration it is unmodified from
  pub tables: Seq<(ATable, Option<Seq<char>>)>,
  /// backend, up, down
  pub scripts: Seq<(Seq<char>, Seq<char>, Seq<char>)>,
  pub types: Seq<(TypeKey, DeferredSqlType)>,
  pub prev: Option<Option<Seq<char>>>,
}
pub open spec fn fresh(n: Seq<char>) -> Told { Told { id: n, tables: Seq::empty(), scripts: Seq::empty(), types: Seq::empty(), prev: None } }
pub open spec fn text_of(s: Option<String>) -> Option<Seq<char>> { match s { Some(x) => Some(x@), None => None } }
pub trait MigrationMut: Migration {
  spec fn told(&self) -> Told;
  fn add_modified_table(&mut self, table: &ATable) -> (r: Result<()>) ensures r is Ok ==> final(self).told() == (Told { tables: old(self).told().tables.push((*table, None)), ..old(self).told() });
  fn add_unmodified_table<S: VDisp + ?Sized>(&mut self, table: &ATable, from_migration_name: &S) -> (r: Result<()>) ensures r is Ok ==> final(self).told() == (Told { tables: old(self).told().tables.push((*table, Some(from_migration_name.disp()))), ..old(self).told() });
  fn add_sql<S: VDisp + ?Sized>(&mut self, backend_name: &S, up_sql: &str, down_sql: &str) -> (r: Result<()>) ensures r is Ok ==> final(self).told() == (Told { scripts: old(self).told().scripts.push((backend_name.disp(), up_sql@, down_sql@)), ..old(self).told() });
  fn add_type(&mut self, key: TypeKey, sqltype: DeferredSqlType) -> (r: Result<()>) ensures r is Ok ==> final(self).told() == (Told { types: old(self).told().types.push((key, sqltype)), ..old(self).told() });
  fn set_migration_from(&mut self, prev: Option<String>) -> (r: Result<()>) ensures r is Ok ==> final(self).told() == (Told { prev: Some(text_of(prev)), ..old(self).told() });
}
pub trait MigrationsMut: Sized {
  type M: MigrationMut;
  /// the migrations added so far
  spec fn added(&self) -> Seq<Self::M>;
  spec fn now(&self) -> Self::M;
  fn new_migration(&self, name: &str) -> (r: Self::M) ensures r.told() == fresh(name@);
  fn add_migration(&mut self, m: Self::M) -> (r: Result<()>) ensures r is Ok ==> final(self).added() == old(self).added().push(m);
  fn current(&mut self) -> (r: &mut Self::M) ensures *r == old(self).now(), final(self).now() == *final(r), final(self).added() == old(self).added();
}
// ---- what a new migration holds ----
pub open spec fn changes(op: Operation, n: Seq<char>) -> bool { match op {
  Operation::AddTable(t) => t.name@ == n,
  Operation::AddTableConstraints(t) => t.name@ == n,
  Operation::AddTableIfNotExists(t) => t.name@ == n,
  Operation::AddColumn(t, _) => t@ == n,
  Operation::RemoveColumn(t, _) => t@ == n,
  Operation::ChangeColumn(t, _, _) => t@ == n,
  Operation::RemoveTable(_) => false,
  Operation::RemoveTableConstraints(_) => false,
} }
pub open spec fn changed(ops: Seq<Operation>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < ops.len() && changes(#[trigger] ops[i], n) }
pub open spec fn mark<M: Migration>(ops: Seq<Operation>, from: Option<&M>, t: ATable) -> (ATable, Option<Seq<char>>) { (t, if changed(ops, t.name@) { None } else { Some(from->0.id()) }) }
pub open spec fn marks<M: Migration>(ops: Seq<Operation>, from: Option<&M>, v: Seq<ATable>, k: int, r: Seq<(ATable, Option<Seq<char>>)>) -> bool {
  r.len() == k && forall|i: int| 0 <= i < k ==> #[trigger] r[i] == mark(ops, from, v[i]) && (changed(ops, v[i].name@) || from is Some)
}
pub open spec fn scripts<B: Backend>(b: Seq<Box<B>>, a: ADB, ups: Seq<Operation>, to: ADB, downs: Seq<Operation>, k: int, r: Seq<(Seq<char>, Seq<char>, Seq<char>)>) -> bool {
  r.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] r[i]).0 == b[i].id() && Some(r[i].1) == b[i].script(a, ups) && Some(r[i].2) == b[i].script(to, downs)
}
/// the schema to start from
pub open spec fn starts_from<M: Migration>(from: Option<&M>, a: ADB) -> bool { match from { None => empty_schema(a), Some(m) => m.schema() == Some(a) } }
/// the operations to run: the difference, and for the first migration the bookkeeping table
pub open spec fn up_ops(ops: Seq<Operation>, first: bool, ups: Seq<Operation>) -> bool {
  if first { ups.len() == ops.len() + 1 && ups.drop_last() =~= ops && ups.last() is AddTableIfNotExists && bookkeeping(ups.last()->AddTableIfNotExists_0) } else { ups == ops }
}
pub open spec fn plan<M: Migration>(from: Option<&M>, to: ADB, a: ADB, ups: Seq<Operation>) -> bool { starts_from(from, a) && (diff_of(a, to).len() == 0 || up_ops(diff_of(a, to), from is None, ups)) }
pub open spec fn records_change<M: MigrationMut, B: Backend>(t: Told, b: Seq<Box<B>>, name: Seq<char>, from: Option<&M>, to: ADB, a: ADB, ups: Seq<Operation>) -> bool {
  t.id == name && lists_tables(to) && marks(diff_of(a, to), from, stored(to), stored(to).len() as int, t.tables) && scripts(b, a, ups, to, diff_of(to, a), b.len() as int, t.scripts)
  && t.prev == Some(match from { None => None::<Seq<char>>, Some(m) => Some(m.id()) }) && t.types.len() == 0
}
pub open spec fn created<X: MigrationsMut, B: Backend>(was: Seq<X::M>, now: Seq<X::M>, b: Seq<Box<B>>, name: Seq<char>, from: Option<&X::M>, to: ADB, a: ADB, ups: Seq<Operation>, r: bool) -> bool {
  if diff_of(a, to).len() == 0 { !r && now == was } else { r && now.len() == was.len() + 1 && now.drop_last() =~= was && records_change(now.last().told(), b, name, from, to, a, ups) }
}
proof fn lemma_changed(ops: Seq<Operation>, k: int)
  requires 0 < k <= ops.len()
  ensures forall|n: Seq<char>| #[trigger] changed(ops.take(k), n) == (changed(ops.take(k - 1), n) || changes(ops[k - 1], n))
{
  assert forall|n: Seq<char>| #[trigger] changed(ops.take(k), n) == (changed(ops.take(k - 1), n) || changes(ops[k - 1], n)) by {
    let a = ops.take(k); let b = ops.take(k - 1);
    if changed(a, n) { let i = choose|i: int| 0 <= i < a.len() && changes(#[trigger] a[i], n); if i < k - 1 { assert(changes(b[i], n)); } }
    if changed(b, n) { let i = choose|i: int| 0 <= i < b.len() && changes(#[trigger] b[i], n); assert(changes(a[i], n)); }
    if changes(ops[k - 1], n) { assert(changes(a[k - 1], n)); }
  }
}
broadcast proof fn listed_push(s: Seq<String>, x: String, n: Seq<char>)
  ensures #[trigger] listed(s.push(x), n) == (listed(s, n) || x@ == n)
{
  let a = s.push(x);
  if listed(s, n) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == n; assert(a[i]@ == n); }
  if x@ == n { assert(a[s.len() as int]@ == n); }
  if listed(a, n) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == n; if i < s.len() { assert(s[i]@ == n); } }
}
//@@ fn path=butane_core/src/migrations/mod.rs name=create_migration_to impl="trait MigrationsMut" selfas=this
//@@ hint from => opt
//@@ subst Self => X
//@@ sig
//@ pub fn create_migration_to<X: MigrationsMut, B: Backend>(this: &mut X, backends: &NonEmpty<Box<B>>, name: &str, from: Option<&X::M>, to_db: ADB) -> (r: Result<bool>)
//@@ spec
//@   ensures r is Ok ==> exists|a: ADB, ups: Seq<Operation>| #[trigger] plan(from, to_db, a, ups) && created::<X, B>(old(this).added(), final(this).added(), backends.v@, name@, from, to_db, a, ups, r->Ok_0)
//@@ loop 1
//@   ops@ == $all, $all == diff_of(from_db, to_db), forall|n: Seq<char>| #[trigger] listed(modified_tables@, n) == changed($all.take($pos), n)
//@@ loop_entry 1
//@   proof { lemma_changed($all, $pos); }
//@   broadcast use listed_push;
//@@ before is_empty
//@   proof { if ops@.len() == 0 { assert(plan(from, to_db, from_db, ops@)); } }
//@@ loop_after 1
//@   proof { assert($all.take($pos) =~= $all); }
//@@ loop 2
//@   $all =~= stored(to_db), m.told() == (Told { tables: m.told().tables, ..fresh(name@) }), marks(diff_of(from_db, to_db), from, $all, $pos, m.told().tables),
//@@ loop 3
//@   m.told() == (Told { tables: m.told().tables, scripts: m.told().scripts, ..fresh(name@) }), marks(diff_of(from_db, to_db), from, stored(to_db), stored(to_db).len() as int, m.told().tables),
//@   scripts(backends.v@, from_db, ops@, to_db, diff_of(to_db, from_db), $pos, m.told().scripts),
//@@ exit
//@   proof { assert(plan(from, to_db, from_db, ops@)); assert(final(this).added().drop_last() =~= old(this).added()); }
//@@ end
//@@ fn path=butane_core/src/migrations/mod.rs name=create_migration impl="trait MigrationsMut" selfas=this
//@@ subst Self => X
//@@ subst this.create_migration_to( => create_migration_to(this, 
//@@ sig
//@ pub fn create_migration<X: MigrationsMut, B: Backend>(this: &mut X, backends: &NonEmpty<Box<B>>, name: &str, from: Option<&X::M>) -> (r: Result<bool>)
//@@ spec
//@   ensures r is Ok ==> exists|to: ADB, a: ADB, ups: Seq<Operation>| old(this).now().schema() == Some(to) && #[trigger] plan(from, to, a, ups) && created::<X, B>(old(this).added(), final(this).added(), backends.v@, name@, from, to, a, ups, r->Ok_0)
//@@ end
/// copying: what the copy is told
pub open spec fn copied_scripts<F: Migration>(from: &F, names: Seq<String>) -> Seq<(Seq<char>, Seq<char>, Seq<char>)> decreases names.len() {
  if names.len() == 0 { Seq::empty() } else { let n = names.last()@; let rest = copied_scripts(from, names.drop_last()); if from.up(n) is Some && from.down(n) is Some { rest.push((n, from.up(n)->0, from.down(n)->0)) } else { rest } }
}
pub open spec fn as_modified(s: Seq<ATable>) -> Seq<(ATable, Option<Seq<char>>)> { Seq::new(s.len(), |i: int| (s[i], None::<Seq<char>>)) }
//@@ fn path=butane_core/src/migrations/mod.rs name=copy_migration
//@@ hint .migration_from()? => opt
//@@ sig
//@ pub fn copy_migration<F: Migration, T: MigrationMut>(from: &F, to: &mut T) -> (r: Result<()>)
//@@ spec
//@   ensures r is Ok ==> from.schema() is Some && ({ let db = from.schema()->0; let was = old(to).told(); let now = final(to).told();
//@     now.prev == from.prev() && from.prev() is Some && now.tables =~= was.tables + as_modified(stored(db)) && lists_tables(db) && now.types =~= was.types + typed(db) && now.scripts =~= was.scripts + copied_scripts(from, from.backends()) && now.id == was.id })
//@@ loop 1
//@   $all =~= stored(db), to.told() == (Told { tables: to.told().tables, prev: from.prev(), ..old(to).told() }), to.told().tables =~= old(to).told().tables + as_modified($all.take($pos)),
//@@ loop 2
//@   $all.len() == typed(db).len(), forall|i: int| 0 <= i < $all.len() ==> (*(#[trigger] $all[i]).0, *$all[i].1) == typed(db)[i],
//@   to.told() == (Told { tables: to.told().tables, types: to.told().types, prev: from.prev(), ..old(to).told() }), to.told().tables =~= old(to).told().tables + as_modified(stored(db)), to.told().types =~= old(to).told().types + typed(db).take($pos),
//@@ loop 3
//@   to.told() == (Told { tables: to.told().tables, types: to.told().types, scripts: to.told().scripts, prev: from.prev(), ..old(to).told() }), to.told().tables =~= old(to).told().tables + as_modified(stored(db)), to.told().types =~= old(to).told().types + typed(db),
//@   $all == from.backends(), to.told().scripts =~= old(to).told().scripts + copied_scripts(from, $all.take($pos)),
//@@ loop_entry 3
//@   proof { assert($all.take($pos).drop_last() =~= $all.take($pos - 1)); }
//@@ loop_after 3
//@   proof { assert($all.take($pos) =~= $all); }
//@@ end
//@include memmig.rs
} // verus!
fn main() {}
