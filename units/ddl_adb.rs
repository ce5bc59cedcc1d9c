// ===== schemas: the functions the SQL is made with =====
impl VDisp for TypeKey { uninterp spec fn disp(&self) -> Seq<char>; }
impl VInto<TypeIdentifier> for SqlType { open spec fn vinto_spec(self, r: TypeIdentifier) -> bool { r == TypeIdentifier::Ty(self) } fn vinto(self) -> (r: TypeIdentifier) { TypeIdentifier::Ty(self) } }
impl VEq<ARef> for ARef { open spec fn eqs(&self, o: &ARef) -> bool { same_ref(Some(*self), Some(*o)) } #[verifier::external_body] fn veq(&self, o: &ARef) -> (r: bool) { unimplemented!() } }
impl ARefLiteral {
//@for F in table_name column_name
//@@ fn path=butane_core/src/migrations/adb.rs name=%F% impl=ARefLiteral
//@   ensures r@ == self.%F%@
//@@ end
//@endfor
}
impl AColumn {
//@for F,G in nullable:nullable unique:unique is_pk:pk is_auto:auto
//@@ fn path=butane_core/src/migrations/adb.rs name=%F% impl=AColumn
//@   ensures r == self.%G%
//@@ end
//@endfor
//@@ fn path=butane_core/src/migrations/adb.rs name=name impl=AColumn
//@   ensures r@ == self.name@
//@@ end
//@@ fn path=butane_core/src/migrations/adb.rs name=default impl=AColumn
//@   ensures *r == self.default
//@@ end
//@@ fn path=butane_core/src/migrations/adb.rs name=reference impl=AColumn
//@   ensures *r == self.reference
//@@ end
//@@ fn path=butane_core/src/migrations/adb.rs name=remove_reference impl=AColumn
//@   ensures *final(self) == (AColumn { reference: None, ..*old(self) })
//@@ end
//@@ fn path=butane_core/src/migrations/adb.rs name=typeid impl=AColumn
//@   ensures match ct(self.sqltype) { CT::Deferred(_) => r is Err, c => r is Ok && ctid(r->Ok_0) == c }
//@@ end
}
impl ATable {
//@@ fn path=butane_core/src/migrations/adb.rs name=replace_column impl=ATable loops=1 eq
//@   ensures final(self).name == old(self).name, final(self).columns@ =~= put(old(self).columns@, col)
//@@ entry
//@   let ghost was = self.columns@;
//@@ loop 1
//@   invariant_except_break
//@     $acc is None,
//@   invariant
//@     $all == was, $acc is None ==> forall|i: int| 0 <= i < $pos ==> __fin1[i] == #[trigger] was[i] && was[i].name@ != col.name@,
//@     $acc is Some ==> $pos > 0 && *($acc->0) == was[$pos - 1] && *final($acc->0) == __fin1[$pos - 1] && was[$pos - 1].name@ == col.name@ && (forall|i: int| 0 <= i < $pos - 1 ==> __fin1[i] == #[trigger] was[i] && was[i].name@ != col.name@),
//@   ensures
//@     $acc is None ==> $pos == $all.len(),
//@@ exit
//@   proof {
//@     let now = self.columns@;
//@     lemma_at_is(was, col.name@);
//@     if now.len() == was.len() { let k = choose|k: int| 0 <= k < was.len() && (#[trigger] was[k]).name@ == col.name@ && now[k] == col && forall|i: int| 0 <= i < was.len() && i != k ==> now[i] == was[i] && (i < k ==> was[i].name@ != col.name@); lemma_at(was, col.name@, k); }
//@     else { lemma_at(was, col.name@, was.len() as int); }
//@   }
//@@ end
//@@ fn path=butane_core/src/migrations/adb.rs name=add_column impl=ATable
//@   ensures final(self).name == old(self).name, final(self).columns@ =~= put(old(self).columns@, col)
//@@ end
//@@ fn path=butane_core/src/migrations/adb.rs name=remove_column impl=ATable loops=1 eq
//@   ensures final(self).name == old(self).name, final(self).columns@ =~= less(old(self).columns@, name@)
//@@ entry
//@   let ghost was = self.columns@;
//@@ loop 1
//@   $all == was, $acc@ =~= less(was.take($pos), name@)
//@@ loop_exit 1
//@   proof { reveal(Seq::filter); assert(was.take($pos).drop_last() =~= was.take($pos - 1)); }
//@@ exit
//@   proof { assert(was.take(was.len() as int) =~= was); }
//@@ end
//@@ fn path=butane_core/src/migrations/adb.rs name=column impl=ATable loops=1 eq
//@   ensures r is Some == (at(self.columns@, name@) < self.columns@.len()), r is Some ==> *(r->0) == self.columns@[at(self.columns@, name@)]
//@@ loop 1
//@   invariant_except_break
//@     $acc is None,
//@   invariant
//@     $all == self.columns@, $acc is None ==> forall|i: int| 0 <= i < $pos ==> (#[trigger] $all[i]).name@ != name@,
//@     $acc is Some ==> $pos > 0 && *($acc->0) == $all[$pos - 1] && $all[$pos - 1].name@ == name@ && forall|i: int| 0 <= i < $pos - 1 ==> (#[trigger] $all[i]).name@ != name@,
//@   ensures
//@     $acc is None ==> $pos == $all.len(),
//@@ loop_after 1
//@   proof { if $acc is Some { lemma_at(self.columns@, name@, $pos - 1); } else { lemma_at(self.columns@, name@, self.columns@.len() as int); } }
//@@ end
}
impl ADB {
//@@ fn path=butane_core/src/migrations/adb.rs name=get_table impl=ADB
//@   ensures r is Some == schema(*self).dom().contains(name@), r is Some ==> *(r->0) == self.tables.map()[name@] && vw(*(r->0)) == schema(*self)[name@]
//@@ end
//@@ fn path=butane_core/src/migrations/adb.rs name=replace_table impl=ADB
//@   ensures schema(*final(self)) =~= schema(*old(self)).insert(table.name@, vw(table))
//@@ end
//@@ fn path=butane_core/src/migrations/adb.rs name=remove_table impl=ADB
//@   ensures schema(*final(self)) =~= schema(*old(self)).remove(name@)
//@@ end
//@@ fn path=butane_core/src/migrations/adb.rs name=transform_with impl=ADB
//@   requires wf(schema(*old(self)))
//@   ensures schema(*final(self)) =~= step(schema(*old(self)), op)
//@@ end
}
//@@ fn path=butane_core/src/db/helper.rs name=quote_reserved_word
//@@ sig
//@ pub fn quote_reserved_word<S: VDisp + ?Sized>(word: &S) -> (r: Cow<'_, str>)
//@@ spec
//@   ensures r.disp() == ident(word.disp())
//@@ end
pub struct DateTime {}
impl DateTime { #[verifier::external_body] pub fn from_timestamp(a: i64, b: u32) -> (r: Option<VUtc>) ensures a == 0 && b == 0 ==> r is Some && (r->0).at() == epoch() { unimplemented!() } }
pub type Value = JsonVal;
#[verifier::external_body] pub struct VUtc { x: u8 }
impl VUtc { pub uninterp spec fn at(&self) -> NaiveDateTime; #[verifier::external_body] pub fn naive_utc(&self) -> (r: NaiveDateTime) ensures r == self.at() { unimplemented!() } }
impl NaiveDate { #[verifier::external_body] pub fn from_ymd_opt(y: i32, m: u32, d: u32) -> (r: Option<NaiveDate>) ensures y == 1 && m == 1 && d == 1 ==> r == Some(day_one()) { unimplemented!() } }
impl JsonVal { #[verifier::external_body] pub fn default() -> (r: JsonVal) ensures r == json_null() { unimplemented!() } }
//@@ fn path=butane_core/src/db/helper.rs name=column_default
//@@ spec
//@   ensures r is Ok ==> initial(*col, r->Ok_0), has_initial(*col) ==> r is Ok
//@@ end
/// the length in bytes (nothing is claimed about it)
pub assume_specification [String::len] (s: &String) -> (r: usize);
pub trait VCloneFrom: Sized { fn vclone_from(&mut self, o: &Self) ensures *final(self) == *o; }
impl VCloneFrom for String { #[verifier::external_body] fn vclone_from(&mut self, o: &Self) { unimplemented!() } }
impl<T, const N: usize> VJoin<T> for [T; N] { open spec fn vjoin_seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vjoin(&self, sep: &str) -> (r: String) where T: VDisp { unimplemented!() } }
pub mod helper { pub use super::*; }
