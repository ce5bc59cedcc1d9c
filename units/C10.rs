//@define SCHEMA
//@include prelude.rs
broadcast use prelude::valg::vtext;
use core::marker::PhantomData;
//@include sqlval_types.rs
//@include error.rs
//@@ type path=butane_core/src/custom.rs name=SqlValRefCustom subst="postgres::types::Type=>PgType;&'a(dynpostgres::types::ToSql+Sync)=>&'a DynPgToSql"
//@@ type path=butane_core/src/sqlval.rs name=SqlValRef subst="serde_json::Value=>JsonVal"
//@include vals.rs
//@include conv.rs
//@include rows.rs
//@include query_types.rs
//@include clones.rs
//@include mapped.rs
//@include querydef.rs
//@include pktrait.rs
//@include migration.rs
  /// migrations are equal when their names are
  fn veq(&self, o: &Self) -> (r: bool) ensures r == (self.id() == o.id());
  fn apply<C: BackendConnection>(&self, conn: &mut C) -> (r: Result<()>)
    ensures final(conn).calls() == old(conn).calls(), final(conn).backend() == old(conn).backend(), r is Err ==> final(conn).log() == old(conn).log(), r is Ok ==> grew_by(old(conn).log(), final(conn).log()) && applied_by(self.id(), self.up(old(conn).backend()), final(conn).log().last());
  fn downgrade<C: BackendConnection>(&self, conn: &mut C) -> (r: Result<()>)
    ensures final(conn).calls() == old(conn).calls(), final(conn).backend() == old(conn).backend(), r is Err ==> final(conn).log() == old(conn).log(), r is Ok ==> grew_by(old(conn).log(), final(conn).log()) && undone_by(self.id(), self.down(old(conn).backend()), final(conn).log().last());
}
/// the record read from the database holds this name
pub open spec fn holds(v: Seq<ButaneMigration>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).name@ == n }
pub open spec fn all_records() -> Sel { Sel { table: ButaneMigration::TABLE@, cols: RECORD_COLUMNS@, filter: None, limit: None, offset: None, sort: Seq::empty() } }
/// the names the database has recorded (None: it cannot say)
pub open spec fn has_record<C: ConnectionMethods>(conn: &C, n: Seq<char>) -> bool { conn.tables(ButaneMigration::TABLE@) == Some(true) && conn.answer(all_records()) is Some && exists|i: int| 0 <= i < conn.answer(all_records())->0.len() && names(#[trigger] conn.answer(all_records())->0[i], n) }
pub open spec fn names(w: RowView, n: Seq<char>) -> bool { (w.cell)(0, SqlType::Text) == Some(AVal::Text(n)) }
/// `s` is the chain of predecessors from `start` on, newest first, and `end` is what comes after it
pub open spec fn path<X: Migrations>(ms: &X, start: Option<X::M>, s: Seq<X::M>, end: Option<X::M>) -> bool decreases s.len() {
  if s.len() == 0 { start == end } else { path(ms, start, s.drop_last(), Some(s.last())) && end == before(ms, s.last()) }
}
pub open spec fn before<X: Migrations>(ms: &X, m: X::M) -> Option<X::M> { match m.prev() { Some(Some(n)) => ms.named(n), _ => None } }
pub open spec fn none_is<M: Migration>(s: Seq<M>, n: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).id() != n }
pub open spec fn none_recorded<M: Migration, C: ConnectionMethods>(s: Seq<M>, conn: &C) -> bool { forall|i: int| 0 <= i < s.len() ==> !has_record(conn, (#[trigger] s[i]).id()) }
/// all migrations, oldest first
pub open spec fn whole_chain<X: Migrations>(ms: &X, v: Seq<X::M>) -> bool { path(ms, ms.newest(), v.reverse(), None) && (v.len() > 0 ==> v[0].prev() is Some) }
/// those after `m`, oldest first
pub open spec fn after<X: Migrations>(ms: &X, m: X::M, v: Seq<X::M>) -> bool { none_is(v, m.id()) && exists|x: X::M, s: Seq<X::M>| x.id() == m.id() && s == v.reverse() && #[trigger] path(ms, ms.newest(), s, Some(x)) }
/// the newest migration of the chain the database has a record of
pub open spec fn last_applied<X: Migrations, C: ConnectionMethods>(ms: &X, conn: &C, r: Option<X::M>) -> bool {
  (conn.tables(ButaneMigration::TABLE@) == Some(false) && r is None)
  || (exists|s: Seq<X::M>| #[trigger] path(ms, ms.newest(), s, r) && none_recorded(s, conn) && (match r { Some(m) => has_record(conn, m.id()), None => s.len() > 0 ==> s.last().prev() is Some }))
}
pub open spec fn missing<X: Migrations, C: ConnectionMethods>(ms: &X, conn: &C, v: Seq<X::M>) -> bool {
  exists|r: Option<X::M>| #[trigger] last_applied(ms, conn, r) && (match r { None => whole_chain(ms, v), Some(m) => after(ms, m, v) })
}
/// the first `k` of `v` were applied, each in one transaction, after the history `a`
pub open spec fn applied<M: Migration>(a: Seq<Seq<(Call, bool)>>, b: Seq<Seq<(Call, bool)>>, v: Seq<M>, k: int, backend: Seq<char>) -> bool {
  0 <= k <= v.len() && b.len() == a.len() + k && (forall|i: int| 0 <= i < a.len() ==> b[i] == #[trigger] a[i]) && forall|i: int| 0 <= i < k ==> applied_by((#[trigger] v[i]).id(), v[i].up(backend), b[a.len() + i])
}
pub open spec fn undone<M: Migration>(a: Seq<Seq<(Call, bool)>>, b: Seq<Seq<(Call, bool)>>, v: Seq<M>, backend: Seq<char>) -> bool {
  b.len() == a.len() + v.len() && (forall|i: int| 0 <= i < a.len() ==> b[i] == #[trigger] a[i]) && forall|i: int| 0 <= i < v.len() ==> undone_by((#[trigger] v[i]).id(), v[i].down(backend), b[a.len() + i])
}
pub trait Migrations: Sized {
  type M: Migration;
  spec fn named(&self, n: Seq<char>) -> Option<Self::M>;
  spec fn newest(&self) -> Option<Self::M>;
  fn get_migration<S: VDisp + ?Sized>(&self, name: &S) -> (r: Option<Self::M>) ensures r == self.named(name.disp());
  fn latest(&self) -> (r: Option<Self::M>) ensures r == self.newest();
}
pub fn veq<M: Migration>(a: &M, b: &M) -> (r: bool) ensures r == (a.id() == b.id()) { a.veq(b) }
pub trait VContains<T> { spec fn has(&self, m: &T) -> bool; fn vcontains(&self, m: &T) -> (r: bool) ensures r == self.has(m); }
/// derived equality: by name
impl VContains<ButaneMigration> for Vec<ButaneMigration> { open spec fn has(&self, m: &ButaneMigration) -> bool { holds(self@, m.name@) } #[verifier::external_body] fn vcontains(&self, m: &ButaneMigration) -> (r: bool) { unimplemented!() } }
pub broadcast proof fn path_push<X: Migrations>(ms: &X, start: Option<X::M>, s: Seq<X::M>, m: X::M, end: Option<X::M>)
  requires path(ms, start, s, Some(m)), end == before(ms, m)
  ensures #[trigger] path(ms, start, s.push(m), end)
{ assert(s.push(m).drop_last() =~= s); }
pub broadcast proof fn take_all<T>(s: Seq<T>, n: int) requires n == s.len() ensures #[trigger] s.take(n) == s { assert(s.take(n) =~= s); }
pub broadcast proof fn reversed<T>(s: Seq<T>) ensures #[trigger] s.reverse().reverse() == s { assert(s.reverse().reverse() =~= s); }
//@@ fn path=butane_core/src/migrations/mod.rs name=migrations_since impl="trait Migrations" selfas=this eq
//@@ hint .migration_from()? => opt
//@@ hint .migration_from() => res
//@@ hint .get_migration(&migration_name) => opt
//@@ subst Self => X
//@@ entry
//@   broadcast use {path_push, reversed, take_all};
//@@ sig
//@ #[verifier::exec_allows_no_decreases_clause] #[verifier::allow_complex_invariants]
//@ pub fn migrations_since<X: Migrations>(this: &X, since: &X::M) -> (r: Result<Vec<X::M>>)
//@@ spec
//@   ensures r is Ok ==> after(this, *since, r->Ok_0@)
//@@ loop 1
//@ invariant path(this, this.newest(), accum@, last), none_is(accum@, since.id()),
//@@ loop 2
//@   $acc@ == $all.take($pos)
//@@ end
//@@ fn path=butane_core/src/migrations/mod.rs name=all_migrations impl="trait Migrations" selfas=this
//@@ hint .migration_from()? => opt
//@@ hint .migration_from() => res
//@@ hint .get_migration(&migration_name) => opt
//@@ subst Self => X
//@@ entry
//@   broadcast use {path_push, reversed, take_all};
//@@ sig
//@ #[verifier::exec_allows_no_decreases_clause] #[verifier::allow_complex_invariants]
//@ pub fn all_migrations<X: Migrations>(this: &X) -> (r: Result<Vec<X::M>>)
//@@ spec
//@   ensures r is Ok ==> whole_chain(this, r->Ok_0@)
//@@ loop 1
//@ invariant path(this, this.newest(), accum@, last), last is None && accum@.len() > 0 ==> accum@.last().prev() is Some,
//@ ensures last is None,
//@@ loop 2
//@   $acc@ == $all.take($pos)
//@@ end
//@@ fn path=butane_core/src/migrations/mod.rs name=last_applied_migration impl="trait Migrations" selfas=this
//@@ hint .migration_from()? => opt
//@@ hint .migration_from() => res
//@@ hint .get_migration(&migration_name) => opt
//@@ subst Self => X
//@@ subst mapped(ButaneMigration :: from_row) => mapped(VFromRow::<ButaneMigration>::of())
//@@ subst ButaneMigration::COLUMNS => RECORD_COLUMNS
//@@ entry
//@   broadcast use {path_push, reversed, take_all};
//@   proof { assert(path(this, this.newest(), Seq::<X::M>::empty(), this.newest())); }
//@@ sig
//@ #[verifier::exec_allows_no_decreases_clause] #[verifier::allow_complex_invariants]
//@ pub fn last_applied_migration<X: Migrations, C: ConnectionMethods>(this: &X, conn: &C) -> (r: Result<Option<X::M>>)
//@@ spec
//@   ensures r is Ok ==> last_applied(this, conn, r->Ok_0)
//@@ after collect
//@   proof { assert forall|n: Seq<char>| has_record(conn, n) == #[trigger] holds($let@, n) by {
//@     let rows = conn.answer(all_records())->0;
//@     if holds($let@, n) { let i = choose|i: int| 0 <= i < $let@.len() && (#[trigger] $let@[i]).name@ == n; assert(names(rows[i], n)); }
//@     if has_record(conn, n) { let i = choose|i: int| 0 <= i < rows.len() && names(#[trigger] rows[i], n); assert($let@[i].name@ == n); }
//@   } }
//@@ loop 1
//@ invariant exists|s: Seq<X::M>| #[trigger] path(this, this.newest(), s, m_opt) && none_recorded(s, conn) && (m_opt is None && s.len() > 0 ==> s.last().prev() is Some),
//@ ensures m_opt is None,
//@@ loop_entry 1
//@   proof { if m_opt is Some { let m = m_opt->0; let s0 = choose|s: Seq<X::M>| #[trigger] path(this, this.newest(), s, m_opt) && none_recorded(s, conn); path_push(this, this.newest(), s0, m, before(this, m)); assert(s0.push(m).last() == m); assert(!has_record(conn, m.id()) ==> none_recorded(s0.push(m), conn)); } }
//@@ end
//@@ fn path=butane_core/src/migrations/mod.rs name=unapplied_migrations impl="trait Migrations" selfas=this
//@@ hint .migration_from()? => opt
//@@ hint .migration_from() => res
//@@ hint .get_migration(&migration_name) => opt
//@@ subst Self => X
//@@ subst this.last_applied_migration( => last_applied_migration(this, 
//@@ subst this.all_migrations() => all_migrations(this)
//@@ subst this.migrations_since( => migrations_since(this, 
//@@ sig
//@ pub fn unapplied_migrations<X: Migrations, C: ConnectionMethods>(this: &X, conn: &C) -> (r: Result<Vec<X::M>>)
//@@ spec
//@   ensures r is Ok ==> missing(this, conn, r->Ok_0@)
//@@ end
//@@ fn path=butane_core/src/migrations/mod.rs name=migrate impl="trait Migrations" selfas=this
//@@ hint .migration_from()? => opt
//@@ hint .migration_from() => res
//@@ hint .get_migration(&migration_name) => opt
//@@ subst Self => X
//@@ subst this.unapplied_migrations( => unapplied_migrations(this, 
//@@ sig
//@ pub fn migrate<X: Migrations, C: BackendConnection>(this: &X, connection: &mut C) -> (r: Result<()>)
//@@ spec
//@   ensures final(connection).calls() == old(connection).calls(),
//@     r is Ok ==> exists|v: Seq<X::M>| #[trigger] missing(this, old(connection), v) && applied(old(connection).log(), final(connection).log(), v, v.len() as int, old(connection).backend()),
//@     r is Err ==> final(connection).log() == old(connection).log() || exists|v: Seq<X::M>, k: int| #[trigger] missing(this, old(connection), v) && k < v.len() && #[trigger] applied(old(connection).log(), final(connection).log(), v, k, old(connection).backend())
//@@ loop 1
//@   connection.calls() == old(connection).calls(), connection.backend() == old(connection).backend(), $all == to_apply@, applied(old(connection).log(), connection.log(), to_apply@, $pos, old(connection).backend())
//@@ end
//@@ fn path=butane_core/src/migrations/mod.rs name=unmigrate impl="trait Migrations" selfas=this
//@@ hint .migration_from()? => opt
//@@ hint .migration_from() => res
//@@ hint .get_migration(&migration_name) => opt
//@@ subst Self => X
//@@ subst this.last_applied_migration( => last_applied_migration(this, 
//@@ entry
//@   broadcast use {path_push, reversed, take_all};
//@@ sig
//@ #[verifier::exec_allows_no_decreases_clause] #[verifier::allow_complex_invariants]
//@ pub fn unmigrate<X: Migrations, C: BackendConnection>(this: &X, connection: &mut C) -> (r: Result<()>)
//@@ spec
//@   ensures final(connection).calls() == old(connection).calls(),
//@     r is Ok ==> exists|m: Option<X::M>| #[trigger] last_applied(this, old(connection), m) && (match m { None => final(connection).log() == old(connection).log(), Some(m) => exists|s: Seq<X::M>| s.len() > 0 && #[trigger] path(this, Some(m), s, None) && s.last().prev() == Some(None::<Seq<char>>) && undone(old(connection).log(), final(connection).log(), s, old(connection).backend()) }),
//@     r is Err ==> final(connection).log() == old(connection).log() || exists|m: X::M, s: Seq<X::M>, e: Option<X::M>| #[trigger] last_applied(this, old(connection), Some(m)) && #[trigger] path(this, Some(m), s, e) && undone(old(connection).log(), final(connection).log(), s, old(connection).backend())
//@@ after last_applied_migration
//@   let ghost first = $let;
//@   proof { assert(path(this, Some(first), Seq::<X::M>::empty(), Some(first))); path_push(this, Some(first), Seq::<X::M>::empty(), first, before(this, first)); assert(Seq::<X::M>::empty().push(first).last() == first); }
//@@ loop 1
//@ invariant connection.calls() == old(connection).calls(), connection.backend() == old(connection).backend(), last_applied(this, old(connection), Some(first)),
//@   exists|t: Seq<X::M>| t.len() > 0 && t.last() == migration && #[trigger] path(this, Some(first), t, before(this, migration)) && undone(old(connection).log(), connection.log(), t, old(connection).backend()),
//@ ensures migration.prev() == Some(None::<Seq<char>>),
//@@ loop_entry 1
//@   let ghost t0 = choose|t: Seq<X::M>| t.len() > 0 && t.last() == migration && #[trigger] path(this, Some(first), t, before(this, migration)) && undone(old(connection).log(), connection.log(), t, old(connection).backend());
//@@ after ok_or
//@   proof { path_push(this, Some(first), t0, migration, before(this, migration)); assert(t0.push(migration).last() == migration); }
//@@ end
} // verus!
fn main() {}
