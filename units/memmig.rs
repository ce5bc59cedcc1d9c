// ---- migrations kept in memory ----
#[verifier::external_body] pub fn vcow<S: VDisp + ?Sized>(s: &S) -> (r: Cow<'_, str>) ensures r.disp() == s.disp() { unimplemented!() }
impl<'a, 'b> VEq<Cow<'b, str>> for Cow<'a, str> { open spec fn eqs(&self, o: &Cow<'b, str>) -> bool { self.disp() == o.disp() } #[verifier::external_body] fn veq(&self, o: &Cow<'b, str>) -> (r: bool) { unimplemented!() } }
pub open spec fn same_texts(a: Seq<String>, b: Seq<String>, k: int) -> bool { a.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] a[i])@ == b[i]@ }
//@@ type path=butane_core/src/migrations/memmigrations.rs name=MemMigration derives=Clone
impl Clone for MemMigration { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@@ type path=butane_core/src/migrations/memmigrations.rs name=MemMigrations
/// nothing told yet
pub open spec fn blank(m: MemMigration, n: Seq<char>) -> bool { m.name@ == n && empty_schema(m.db) && m.from is None && m.up.map() == Map::<Seq<char>, String>::empty() && m.down.map() == Map::<Seq<char>, String>::empty() }
pub open spec fn maybe(m: Map<Seq<char>, String>, k: Seq<char>) -> Option<Seq<char>> { if m.dom().contains(k) { Some(m[k]@) } else { None } }
/// one entry changed
pub open spec fn put(a: Map<Seq<char>, String>, b: Map<Seq<char>, String>, k: Seq<char>, v: Seq<char>) -> bool { b.dom() =~= a.dom().insert(k) && b[k]@ == v && forall|x: Seq<char>| x != k && #[trigger] a.dom().contains(x) ==> b[x] == a[x] }
pub open spec fn all_but_db(a: MemMigration, b: MemMigration) -> bool { a.name == b.name && a.from == b.from && a.up == b.up && a.down == b.down }
pub open spec fn all_but_sql(a: MemMigration, b: MemMigration) -> bool { a.name == b.name && a.from == b.from && a.db == b.db }
impl MemMigration {
//@@ fn path=butane_core/src/migrations/memmigrations.rs name=new impl=MemMigration
//@@ spec
//@   ensures blank(r, name@)
//@@ end
//@@ fn path=butane_core/src/migrations/memmigrations.rs name=db impl="Migration for MemMigration"
//@@ spec
//@   ensures r is Ok ==> resolved(self.db) == Some(r->Ok_0), r is Err ==> resolved(self.db) is None
//@@ end
//@@ fn path=butane_core/src/migrations/memmigrations.rs name=migration_from impl="Migration for MemMigration"
//@@ subst Cow::from => vcow
//@@ spec
//@   ensures r is Ok, (match r->Ok_0 { Some(n) => self.from is Some && n.disp() == self.from->0@, None => self.from is None })
//@@ end
//@@ fn path=butane_core/src/migrations/memmigrations.rs name=name impl="Migration for MemMigration"
//@@ subst Cow::from => vcow
//@@ spec
//@   ensures r.disp() == self.name@
//@@ end
//@@ fn path=butane_core/src/migrations/memmigrations.rs name=up_sql impl="Migration for MemMigration"
//@@ spec
//@   ensures r is Ok, text_of(r->Ok_0) == maybe(self.up.map(), backend_name@)
//@@ end
//@@ fn path=butane_core/src/migrations/memmigrations.rs name=down_sql impl="Migration for MemMigration"
//@@ spec
//@   ensures r is Ok, text_of(r->Ok_0) == maybe(self.down.map(), backend_name@)
//@@ end
//@@ fn path=butane_core/src/migrations/memmigrations.rs name=sql_backends impl="Migration for MemMigration"
//@@ spec
//@   ensures r is Ok, lists(self.up.order(), self.up.map().dom()), r->Ok_0@.len() == self.up.order().len(), forall|i: int| 0 <= i < r->Ok_0@.len() ==> (#[trigger] r->Ok_0@[i])@ == self.up.order()[i]@
//@@ loop 1
//@   $all == self.up.order(), same_texts($acc@, $all, $pos)
//@@ end
//@@ fn path=butane_core/src/migrations/memmigrations.rs name=eq impl="PartialEq for MemMigration" eq
//@@ sig
//@ pub fn veq(&self, other: &Self) -> (r: bool)
//@@ spec
//@   ensures r == (self.name@ == other.name@)
//@@ end
//@@ fn path=butane_core/src/migrations/memmigrations.rs name=add_modified_table impl="MigrationMut for MemMigration"
//@@ spec
//@   ensures all_but_db(*old(self), *final(self)), r is Ok ==> exists|d: ADB| d.tables.map() == old(self).db.tables.map().insert(table.name@, *table) && d.extra_types == old(self).db.extra_types && #[trigger] resolved(d) == Some(final(self).db)
//@@ end
//@@ fn path=butane_core/src/migrations/memmigrations.rs name=add_unmodified_table impl="MigrationMut for MemMigration"
//@@ spec
//@   ensures all_but_db(*old(self), *final(self)), r is Ok ==> exists|d: ADB| d.tables.map() == old(self).db.tables.map().insert(table.name@, *table) && d.extra_types == old(self).db.extra_types && #[trigger] resolved(d) == Some(final(self).db)
//@@ end
//@@ fn path=butane_core/src/migrations/memmigrations.rs name=delete_table impl="MigrationMut for MemMigration"
//@@ spec
//@   ensures r is Ok, all_but_db(*old(self), *final(self)), final(self).db.tables.map() == old(self).db.tables.map().remove(table@), final(self).db.extra_types == old(self).db.extra_types
//@@ end
//@@ fn path=butane_core/src/migrations/memmigrations.rs name=add_sql impl="MigrationMut for MemMigration"
//@@ spec
//@   ensures r is Ok, all_but_sql(*old(self), *final(self)), put(old(self).up.map(), final(self).up.map(), backend_name@, up_sql@), put(old(self).down.map(), final(self).down.map(), backend_name@, down_sql@)
//@@ end
//@@ fn path=butane_core/src/migrations/memmigrations.rs name=remove_sql impl="MigrationMut for MemMigration"
//@@ spec
//@   ensures r is Ok, all_but_sql(*old(self), *final(self)), final(self).up.map() == old(self).up.map().remove(backend_name@), final(self).down.map() == old(self).down.map().remove(backend_name@)
//@@ end
//@@ fn path=butane_core/src/migrations/memmigrations.rs name=add_type impl="MigrationMut for MemMigration"
//@@ spec
//@   ensures all_but_db(*old(self), *final(self)), r is Ok ==> exists|d: ADB| d.tables == old(self).db.tables && d.extra_types.map() == old(self).db.extra_types.map().insert(key.k(), sqltype) && #[trigger] resolved(d) == Some(final(self).db)
//@@ end
//@@ fn path=butane_core/src/migrations/memmigrations.rs name=set_migration_from impl="MigrationMut for MemMigration"
//@@ spec
//@   ensures r is Ok, *final(self) == (MemMigration { from: prev, ..*old(self) })
//@@ end
}
/// the newest one after adding: the added one if there was none or it follows the newest
pub open spec fn newest_after(was: Option<String>, m: MemMigration) -> Option<Seq<char>> { match was { None => Some(m.name@), Some(l) => if m.from is Some && m.from->0@ == l@ { Some(m.name@) } else { Some(l@) } } }
/// every migration is kept under its own name, and the latest is one of them
pub closed spec fn filed(s: MemMigrations) -> bool { (forall|n: Seq<char>| #[trigger] s.migrations.map().dom().contains(n) ==> s.migrations.map()[n].name@ == n) && (s.latest is Some ==> s.migrations.map().dom().contains(s.latest->0@)) }
impl MemMigrations {
//@@ fn path=butane_core/src/migrations/memmigrations.rs name=new impl=MemMigrations
//@@ spec
//@   ensures r.migrations.map() == Map::<Seq<char>, MemMigration>::empty(), blank(r.current, "current"@), r.latest is None, filed(r)
//@@ end
//@@ fn path=butane_core/src/migrations/memmigrations.rs name=get_migration impl="Migrations for MemMigrations"
//@@ subst Self::M => MemMigration
//@@ sig
//@ pub fn get_migration(&self, name: &str) -> (r: Option<MemMigration>)
//@@ spec
//@   ensures r == (if self.migrations.map().dom().contains(name@) { Some(self.migrations.map()[name@]) } else { None }), filed(*self) && r is Some ==> r->0.name@ == name@
//@@ end
//@@ fn path=butane_core/src/migrations/memmigrations.rs name=latest impl="Migrations for MemMigrations"
//@@ sig
//@ pub fn latest(&self) -> (r: Option<MemMigration>)
//@@ spec
//@   ensures r == (if self.latest is Some && self.migrations.map().dom().contains(self.latest->0@) { Some(self.migrations.map()[self.latest->0@]) } else { None }), filed(*self) ==> (match (r, self.latest) { (Some(m), Some(l)) => m.name@ == l@, (None, None) => true, _ => false })
//@@ end
//@@ fn path=butane_core/src/migrations/memmigrations.rs name=current impl="MigrationsMut for MemMigrations"
//@@ sig
//@ pub fn current(&mut self) -> (r: &mut MemMigration)
//@@ spec
//@   ensures *r == old(self).current, *final(self) == (MemMigrations { current: *final(r), ..*old(self) })
//@@ end
//@@ fn path=butane_core/src/migrations/memmigrations.rs name=clear_current impl="MigrationsMut for MemMigrations"
//@@ spec
//@   ensures r is Ok, blank(final(self).current, "current"@), final(self).migrations == old(self).migrations, final(self).latest == old(self).latest
//@@ end
//@@ fn path=butane_core/src/migrations/memmigrations.rs name=new_migration impl="MigrationsMut for MemMigrations"
//@@ sig
//@ pub fn new_migration(&self, name: &str) -> (r: MemMigration)
//@@ spec
//@   ensures blank(r, name@)
//@@ end
//@@ fn path=butane_core/src/migrations/memmigrations.rs name=add_migration impl="MigrationsMut for MemMigrations" eq
//@@ sig
//@ pub fn add_migration(&mut self, m: MemMigration) -> (r: Result<()>)
//@@ spec
//@   ensures r is Ok, final(self).current == old(self).current, final(self).migrations.map() == old(self).migrations.map().insert(m.name@, m), text_of(final(self).latest) == newest_after(old(self).latest, m), filed(*old(self)) ==> filed(*final(self))
//@@ end
//@@ fn path=butane_core/src/migrations/memmigrations.rs name=delete_migrations impl="MigrationsMut for MemMigrations"
//@@ spec
//@   ensures r is Ok, final(self).migrations.map() == Map::<Seq<char>, MemMigration>::empty(), final(self).latest is None, final(self).current == old(self).current, filed(*final(self))
//@@ end
}
