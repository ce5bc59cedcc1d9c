//@define CELLINV
//@define KEYS
//@include prelude.rs
broadcast use prelude::valg::vtext;
use core::marker::PhantomData;
//@include sqlval_types.rs
//@include error.rs
//@@ type path=butane_core/src/custom.rs name=SqlValRefCustom subst="postgres::types::Type=>PgType;&'a(dynpostgres::types::ToSql+Sync)=>&'a DynPgToSql"
//@@ type path=butane_core/src/sqlval.rs name=SqlValRef subst="serde_json::Value=>JsonVal"
//@include vals.rs
//@include conv.rs
//@include rows.rs
//@include query_types.rs
//@include clones.rs
//@include mapped.rs
//@include querydef.rs
//@include pktrait.rs
//@include dataobj.rs
//@include cell.rs

/// what is assumed of the type of a primary key
pub trait KeyExact: ToSql + FromSql {
  /// `v` is how some key is stored
  spec fn exact(v: AVal) -> bool;
  proof fn exact_of_key(&self) requires self.encodable() ensures Self::exact(self.enc());
  proof fn key_of_exact(&self) requires Self::exact(self.enc()) ensures self.encodable();
  proof fn exact_read(&self, v: AVal) requires Self::exact(v) ensures Self::can_dec(v), self.is_dec(v) ==> self.enc() == v;
  /// equality of keys is equality of what is stored
  fn eq(&self, o: &Self) -> (r: bool) ensures r == (self.enc() == o.enc());
}
pub broadcast proof fn key_read<K: KeyExact>(k: K, v: AVal) requires K::exact(v), #[trigger] k.is_dec(v) ensures k.enc() == v, k.encodable() { k.exact_read(v); k.key_of_exact(); }
pub broadcast proof fn key_readable<K: KeyExact>(v: AVal) requires K::exact(v) ensures #[trigger] K::can_dec(v) { let k: K = arbitrary(); k.exact_read(v); }
pub broadcast proof fn key_encodable<K: KeyExact>(k: K) requires K::exact(#[trigger] k.enc()) ensures k.encodable() { k.key_of_exact(); }
pub broadcast proof fn key_exact<K: KeyExact>(k: K) requires k.encodable() ensures K::exact(#[trigger] k.enc()) { k.exact_of_key(); }
/// keys clone to themselves
pub broadcast axiom fn key_clone<K: KeyExact + Clone>(a: K, b: K) requires #[trigger] call_ensures(K::clone, (&a,), b) ensures a == b;
impl core::fmt::Debug for Error { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
/// setting a cell that was just made does not fail (a panic otherwise: nothing is claimed)
pub trait VMayPanic { fn vmay_panic(self); }
impl<T> VMayPanic for core::result::Result<(), T> { #[verifier::external_body] fn vmay_panic(self) { unimplemented!() } }
impl SqlVal { #[verifier::external_body] pub fn eq(&self, o: &SqlVal) -> (r: bool) ensures r == (vv(*self) == vv(*o)) { unimplemented!() } }
impl<T> VInto<OnceLock<T>> for T { open spec fn vinto_spec(self, r: OnceLock<T>) -> bool { r.was_set() && !r.fresh() && r.eventual() == Some(self) } fn vinto(self) -> (r: OnceLock<T>) { OnceLock::from(self) } }
pub enum KeyCow<'a, K> { Borrowed(&'a K), Owned(K) }
impl<'a, K> KeyCow<'a, K> {
  pub open spec fn key(&self) -> K { match self { KeyCow::Borrowed(k) => **k, KeyCow::Owned(k) => *k } }
  #[verifier::external_body] pub fn vkey(self) -> (r: K) ensures r == self.key() { unimplemented!() }
}
pub trait AsPrimaryKey<T: DataObject> {
  spec fn denoted(&self) -> AVal;
  spec fn denotes_one(&self) -> bool;
  fn as_pk(&self) -> (r: KeyCow<'_, T::PKType>) requires self.denotes_one() ensures r.key().enc() == self.denoted(), r.key().encodable();
}
#[verifier::reject_recursive_types(T)]
//@@ type path=butane_core/src/fkey.rs name=ForeignKey
/// the key of the one object a reference denotes
pub uninterp spec fn denoted_by<T: DataObject>(f: ForeignKey<T>) -> AVal;
impl<T: DataObject> ForeignKey<T> {
  pub closed spec fn denotes(&self) -> AVal { denoted_by(*self) }
  /// both cells only ever hold the denoted object and its key
  pub closed spec fn linked(&self) -> bool {
    (forall|b: Box<T>| #[trigger] self.val.allows(b) <==> (*b).key().enc() == denoted_by(*self)) && (forall|s: SqlVal| #[trigger] self.valpk.allows(s) <==> vv(s) == denoted_by(*self))
  }
  /// and never are both found empty
  pub closed spec fn complete(&self) -> bool { !(self.val.late() && self.valpk.late()) }
  pub open spec fn wf(&self) -> bool { self.linked() && self.complete() }
  /// it denotes an object with a real key
  pub open spec fn real(&self) -> bool { <T::PKType as KeyExact>::exact(self.denotes()) }
  pub closed spec fn loaded(&self) -> bool { self.val.was_set() }
  pub closed spec fn blank(&self) -> bool { self.val.fresh() && self.valpk.fresh() }
  pub closed spec fn object(&self) -> Option<Box<T>> { self.val.eventual() }
//@@ fn path=butane_core/src/fkey.rs name=new_raw impl="ForeignKey<T>"
//@   ensures r.blank()
//@@ end
//@@ fn path=butane_core/src/fkey.rs name=from_pk impl="ForeignKey<T>"
//@@ subst .unwrap() => .vmay_panic()
//@@ entry
//@   broadcast use {key_read, key_readable, key_encodable, key_exact, key_clone};
//@   let ghost mut chosen = false; let ghost k = pk.enc();
//@@ after new_raw
//@   proof { choose_denoted($let, k); chosen = true; }
//@@ exit
//@   proof { if !chosen { choose_denoted(__ret, k); } complete_reference(__ret); }
//@@ spec
//@   requires pk.encodable()
//@   ensures r.wf(), r.denotes() == pk.enc(), r.real()
//@@ end
//@@ fn path=butane_core/src/fkey.rs name=from impl="From<T> for ForeignKey<T>" as=from_object
//@@ sig
//@ pub fn from_object(obj: T) -> (r: Self)
//@@ entry
//@   broadcast use {key_read, key_readable, key_encodable, key_exact, key_clone};
//@   let ghost mut chosen = false; let ghost k = obj.key().enc();
//@@ after new_raw
//@   proof { choose_denoted($let, k); chosen = true; }
//@@ exit
//@   proof { if !chosen { choose_denoted(__ret, k); } complete_reference(__ret); }
//@@ spec
//@   ensures r.wf(), r.denotes() == obj.key().enc(), r.object() is Some, obj.key().encodable() ==> r.real()
//@@ end
//@@ fn path=butane_core/src/fkey.rs name=from impl="From<&T> for ForeignKey<T>" as=from_object_ref
//@@ sig
//@ pub fn from_object_ref(obj: &T) -> (r: Self)
//@@ entry
//@   broadcast use {key_read, key_readable, key_encodable, key_exact, key_clone};
//@@ spec
//@   requires obj.key().encodable()
//@   ensures r.wf(), r.denotes() == obj.key().enc(), r.real()
//@@ end
//@@ fn path=butane_core/src/fkey.rs name=from_sql_ref impl="FromSql for ForeignKey<T>"
//@@ subst SqlVal::from => owned_from_ref
//@@ sig
//@ pub fn from_sql_ref(valref: SqlValRef<'_>) -> (r: Result<Self>)
//@@ entry
//@   let ghost k = vr(valref);
//@@ exit
//@   proof { choose_denoted(__ret->Ok_0, k); complete_reference(__ret->Ok_0); }
//@@ spec
//@   ensures r is Ok, r->Ok_0.wf(), r->Ok_0.denotes() == vr(valref)
//@@ end
//@@ fn path=butane_core/src/fkey.rs name=get impl="ForeignKey<T>"
//@@ hint self.val.get() => opt
//@@ spec
//@   requires self.wf()
//@   ensures r is Ok ==> r->Ok_0.key().enc() == self.denotes() && self.object() is Some && *r->Ok_0 == *(self.object()->0), self.loaded() ==> r is Ok
//@@ end
//@@ fn path=butane_core/src/fkey.rs name=pk impl="ForeignKey<T>"
//@@ entry
//@   broadcast use {key_read, key_readable, key_encodable, key_exact, key_clone};
//@@ spec
//@   requires self.wf(), self.real()
//@   ensures r.enc() == self.denotes(), r.encodable()
//@@ end
//@@ fn path=butane_core/src/fkey.rs name=ensure_valpk impl="ForeignKey<T>"
//@@ entry
//@   broadcast use {key_read, key_readable, key_encodable, key_exact, key_clone};
//@@ closure 1
//@   (r: SqlVal) requires self.wf(), self.real(), self.valpk.late() ensures vv(r) == self.denotes()
//@@ spec
//@   requires self.wf(), self.real()
//@   ensures vv(*r) == self.denotes(), self.valpk.given() || self.valpk.was_set(), self.valpk.eventual() == Some(*r)
//@@ end
//@for F,S in load:ForeignKeyOpsSync load:ForeignKeyOpsAsync
//@@ fn path=butane_core/src/fkey.rs name=load impl="%S%<T> for ForeignKey<T>" as=load_%S%
//@@ sig
//@ pub fn load_%S%<'a, C: ConnectionMethods>(&'a self, conn: &C) -> (r: Result<&'a T>)
//@@ entry
//@   broadcast use {key_read, key_readable, key_encodable, key_exact, key_clone};
//@@ closure 1
//@   (r: Result<Box<T>>) requires self.wf(), self.real(), self.val.late() ensures r is Ok ==> (*(r->Ok_0)).key().enc() == self.denotes()
//@@ spec
//@   requires self.wf(), self.real()
//@   ensures r is Ok ==> r->Ok_0.key().enc() == self.denotes() && self.object() is Some && *r->Ok_0 == *(self.object()->0), self.loaded() ==> r is Ok
//@@ end
//@endfor
//@for F,V in to_sql:vv to_sql_ref:vr
//@@ fn path=butane_core/src/fkey.rs name=%F% impl="ToSql for ForeignKey<T>"
//@@ spec
//@   requires self.wf(), self.real()
//@   ensures %V%(r) == self.denotes()
//@@ end
//@endfor
//@@ fn path=butane_core/src/fkey.rs name=into_sql impl="ToSql for ForeignKey<T>"
//@@ spec
//@   requires self.wf(), self.real()
//@   ensures vv(r) == self.denotes()
//@@ end
//@@ fn path=butane_core/src/fkey.rs name=eq impl="PartialEq<U> for ForeignKey<T>"
//@@ subst other.as_pk() => other.as_pk().vkey()
//@@ sig
//@ pub fn eq<U: AsPrimaryKey<T>>(&self, other: &U) -> (r: bool)
//@@ spec
//@   requires self.wf(), other.denotes_one()
//@   ensures r == (self.denotes() == other.denoted())
//@@ end
}
impl<T: DataObject> AsPrimaryKey<T> for ForeignKey<T> {
  open spec fn denoted(&self) -> AVal { self.denotes() }
  open spec fn denotes_one(&self) -> bool { self.wf() && self.real() }
//@@ fn path=butane_core/src/fkey.rs name=as_pk impl="AsPrimaryKey<T> for ForeignKey<T>" traitspec
//@@ subst Cow => KeyCow
//@@ sig
//@ fn as_pk(&self) -> (r: KeyCow<'_, T::PKType>)
//@@ end
}
/// whoever makes a reference decides, once, which object it denotes
#[verifier::external_body] pub proof fn choose_denoted<T: DataObject>(f: ForeignKey<T>, k: AVal)
  requires f.val.fresh() || (f.val.was_set() && f.val.eventual() is Some && (*(f.val.eventual()->0)).key().enc() == k), f.valpk.fresh() || (f.valpk.was_set() && f.valpk.eventual() is Some && vv(f.valpk.eventual()->0) == k),
  ensures f.linked(), f.denotes() == k { unimplemented!() }
/// once a cell has been filled, readers never find both empty
#[verifier::external_body] pub proof fn complete_reference<T: DataObject>(f: ForeignKey<T>)
  requires f.linked(), f.val.given() || f.val.was_set() || f.valpk.given() || f.valpk.was_set()
  ensures f.complete() { unimplemented!() }
} // verus!
fn main() {}
