pub trait VContains<T> { spec fn has(&self, m: &T) -> bool; fn vcontains(&self, m: &T) -> (r: bool) ensures r == self.has(m); }
impl VContains<String> for Vec<String> { open spec fn has(&self, m: &String) -> bool { listed(self@, m@) } #[verifier::external_body] fn vcontains(&self, m: &String) -> (r: bool) { unimplemented!() } }
pub open spec fn listed(s: Seq<String>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == n }
impl<'a, K: VKey, V> VIntoIter for &'a BTreeMap<K, V> { type It = VIt<(&'a K, &'a V)>;
  open spec fn into_spec(self, it: VIt<(&'a K, &'a V)>) -> bool { it.pos() == 0 && lists(self.order(), self.map().dom()) && it.all().len() == self.order().len() && forall|i: int| 0 <= i < it.all().len() ==> *(#[trigger] it.all()[i]).0 == self.order()[i] && *it.all()[i].1 == self.map()[self.order()[i].k()] }
  #[verifier::external_body] fn vinto_iter(self) -> (r: VIt<(&'a K, &'a V)>) { unimplemented!() } }
impl<K: VKey, V> BTreeMap<K, V> { #[verifier::external_body] pub fn clear(&mut self) ensures final(self).map() == Map::<Seq<char>, V>::empty() { unimplemented!() } }
/// a list that is not empty (nonempty crate; its order)
pub struct NonEmpty<T> { pub v: Vec<T> }
impl<'a, T> VIntoIter for &'a NonEmpty<T> { type It = VRefIt<'a, T>;
  open spec fn into_spec(self, it: VRefIt<'a, T>) -> bool { it.all() == self.v@ && it.pos() == 0 }
  #[verifier::external_body] fn vinto_iter(self) -> (r: VRefIt<'a, T>) { unimplemented!() } }
// ---- schemas ----
pub open spec fn stored(a: ADB) -> Seq<ATable> { Seq::new(a.tables.order().len(), |i: int| a.tables.map()[a.tables.order()[i].k()]) }
pub open spec fn typed(a: ADB) -> Seq<(TypeKey, DeferredSqlType)> { Seq::new(a.extra_types.order().len(), |i: int| (a.extra_types.order()[i], a.extra_types.map()[a.extra_types.order()[i].k()])) }
/// every table exactly once
pub open spec fn lists_tables(a: ADB) -> bool { lists(a.tables.order(), a.tables.map().dom()) }
pub open spec fn empty_schema(a: ADB) -> bool { a.tables.map() == Map::<Seq<char>, ATable>::empty() && a.extra_types.map() == Map::<Seq<char>, DeferredSqlType>::empty() }
/// what resolving makes of a schema (C18)
pub uninterp spec fn resolved(a: ADB) -> Option<ADB>;
/// the operations from one schema to another (C09)
pub uninterp spec fn diff_of(a: ADB, b: ADB) -> Seq<Operation>;
#[verifier::external_body] pub fn diff(old: &ADB, new: &ADB) -> (r: Vec<Operation>) ensures r@ == diff_of(*old, *new) { unimplemented!() }
impl ADB {
//@@ fn path=butane_core/src/migrations/adb.rs name=new impl=ADB
//@@ spec
//@   ensures empty_schema(r)
//@@ end
//@@ fn path=butane_core/src/migrations/adb.rs name=tables impl=ADB
//@@ sig
//@ pub fn tables(&self) -> (r: VRefIt<'_, ATable>)
//@@ spec
//@   ensures r.pos() == 0, r.all() =~= stored(*self), lists_tables(*self)
//@@ end
//@@ fn path=butane_core/src/migrations/adb.rs name=types impl=ADB
//@@ spec
//@   ensures *r == self.extra_types
//@@ end
//@@ fn path=butane_core/src/migrations/adb.rs name=replace_table impl=ADB
//@@ spec
//@   ensures final(self).tables.map() == old(self).tables.map().insert(table.name@, table), final(self).extra_types == old(self).extra_types
//@@ end
//@@ fn path=butane_core/src/migrations/adb.rs name=remove_table impl=ADB
//@@ spec
//@   ensures final(self).tables.map() == old(self).tables.map().remove(name@), final(self).extra_types == old(self).extra_types
//@@ end
//@@ fn path=butane_core/src/migrations/adb.rs name=add_type impl=ADB
//@@ spec
//@   ensures final(self).extra_types.map() == old(self).extra_types.map().insert(key.k(), sqltype), final(self).tables == old(self).tables
//@@ end
  #[verifier::external_body] pub fn resolve_types(&mut self) -> (r: Result<()>) ensures r is Ok ==> resolved(*old(self)) == Some(*final(self)), r is Err ==> resolved(*old(self)) is None { unimplemented!() }
}
impl ATable {
//@@ fn path=butane_core/src/migrations/adb.rs name=new impl=ATable
//@@ spec
//@   ensures r.name == name, r.columns@.len() == 0
//@@ end
//@@ fn path=butane_core/src/migrations/adb.rs name=add_column impl=ATable
//@@ spec
//@   ensures final(self).name == old(self).name, old(self).columns@.len() == 0 ==> final(self).columns@ == seq![col]
//@@ end
  /// C09
  #[verifier::external_body] pub fn replace_column(&mut self, col: AColumn) ensures final(self).name == old(self).name, old(self).columns@.len() == 0 ==> final(self).columns@ == seq![col] { unimplemented!() }
}
impl AColumn {
//@@ fn path=butane_core/src/migrations/adb.rs name=new impl=AColumn
//@@ sig
//@ pub fn new<S: VInto<String>>(name: S, sqltype: DeferredSqlType, nullable: bool, pk: bool, auto: bool, unique: bool, default: Option<SqlVal>, reference: Option<ARef>) -> (r: Self)
//@@ spec
//@   ensures name.vinto_spec(r.name), r.sqltype == sqltype, r.nullable == nullable, r.pk == pk, r.auto == auto, r.unique == unique, r.default == default, r.reference == reference
//@@ end
}
