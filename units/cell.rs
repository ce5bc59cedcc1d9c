// ===== OnceLock: written at most once, also through shared references =====
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct OnceLock<T> { t: core::marker::PhantomData<T> }
impl<T> OnceLock<T> {
  /// the value this cell ever holds (a cell is never emptied or overwritten)
  pub uninterp spec fn eventual(&self) -> Option<T>;
  /// the cell was made holding its value
  pub uninterp spec fn was_set(&self) -> bool;
  /// the cell was made empty
  pub uninterp spec fn fresh(&self) -> bool;
  #[verifier::external_body] pub fn new() -> (r: OnceLock<T>) ensures r.fresh(), !r.was_set() { unimplemented!() }
  #[verifier::external_body] pub fn from(v: T) -> (r: OnceLock<T>) ensures r.was_set(), !r.fresh(), r.eventual() == Some(v) { unimplemented!() }
  /// the values this cell may ever be given: fixed once by whoever made it
  pub uninterp spec fn allows(&self, v: T) -> bool;
  /// a reader has found it empty
  pub uninterp spec fn late(&self) -> bool;
  /// it has been written to since it was made
  pub uninterp spec fn given(&self) -> bool;
  #[verifier::external_body] pub fn get(&self) -> (r: Option<&T>)
    ensures r is Some ==> self.eventual() == Some(*(r->0)) && self.allows(*(r->0)), self.was_set() ==> r is Some, r is None ==> self.late() { unimplemented!() }
  #[verifier::external_body] pub fn set(&self, v: T) -> (r: core::result::Result<(), T>)
    /*?CELLINV*/ requires !self.was_set() ==> self.allows(v),
    ensures r is Ok ==> self.eventual() == Some(v), r is Err ==> self.eventual() is Some, self.given() { unimplemented!() }
  #[verifier::external_body] pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> (r: &T)
    requires self.late() && !self.was_set() ==> f.requires(()),
    /*?CELLINV*/   self.late() && !self.was_set() ==> forall|v: T| f.ensures((), v) ==> self.allows(v),
    ensures self.eventual() == Some(*r), self.allows(*r), self.given() { unimplemented!() }
  #[verifier::external_body] pub fn into_inner(self) -> (r: Option<T>) ensures r is Some ==> self.eventual() == r && self.allows(r->0), self.given() || self.was_set() ==> r is Some { unimplemented!() }
}
/// whoever makes an empty cell decides, once, what may be put in it
#[verifier::external_body] pub proof fn choose_allowed<T>(c: OnceLock<T>, p: spec_fn(T) -> bool) requires c.fresh() ensures forall|v: T| #[trigger] c.allows(v) <==> p(v) { unimplemented!() }
/// a panic: nothing is claimed about it (a cell that was just set is not empty)
#[verifier::external_body] pub fn vdies<T>() -> T ensures false { unimplemented!() }
//@@ fn path=butane_core/src/util.rs name=get_or_init_once_lock impl=""
//@@ sig
//@ pub fn get_or_init_once_lock<T, F>(cell: &OnceLock<T>, f: F) -> (r: Result<&T>) where F: FnOnce() -> Result<T>
//@@ subst vpanic() => vdies()
//@@ spec
//@   requires cell.late() && !cell.was_set() ==> f.requires(()),
//@ /*?CELLINV*/    cell.late() && !cell.was_set() ==> forall|v: T| f.ensures((), Ok(v)) ==> cell.allows(v)
//@   ensures r is Ok ==> cell.eventual() == Some(*(r->Ok_0)) && cell.allows(*(r->Ok_0)),
//@     cell.was_set() ==> r is Ok, r is Err ==> f.ensures((), Err(r->Err_0))
//@@ end
//@@ fn path=butane_core/src/util.rs name=get_or_init_once_lock_async impl=""
//@@ sig
//@ pub fn get_or_init_once_lock_async<T, F>(cell: &OnceLock<T>, f: F) -> (r: Result<&T>) where F: FnOnce() -> Result<T>
//@@ subst vpanic() => vdies()
//@@ spec
//@   requires cell.late() && !cell.was_set() ==> f.requires(()),
//@ /*?CELLINV*/    cell.late() && !cell.was_set() ==> forall|v: T| f.ensures((), Ok(v)) ==> cell.allows(v)
//@   ensures r is Ok ==> cell.eventual() == Some(*(r->Ok_0)) && cell.allows(*(r->Ok_0)),
//@     cell.was_set() ==> r is Ok, r is Err ==> f.ensures((), Err(r->Err_0))
//@@ end
