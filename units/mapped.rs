// ===== rows mapped to objects =====
/// the function a row is mapped with: what it may give for a row
pub trait RowMap<B> {
  spec fn gives(w: RowView, r: Result<B>) -> bool;
  fn apply(&mut self, v: &dyn BackendRow) -> (r: Result<B>)
    ensures forall|w: RowView| is_row(v, w) ==> #[trigger] Self::gives(w, r);
}
//@@ type path=butane_core/src/db/connmethods.rs name=MapDeref
impl<I: BackendRows, F> MapDeref<I, F> {
  pub closed spec fn left(&self) -> Seq<RowView> { self.it.rest() }
//@@ fn path=butane_core/src/db/connmethods.rs name=next impl="fallible_iterator::FallibleIterator for MapDeref<I, F>"
//@@ hint (self.f)(v) => res
//@@ subst (self.f) (v) => self.f.apply(v)
//@@ sig
//@ pub fn next<B>(&mut self) -> (r: Result<Option<B>>) where F: RowMap<B>
//@@ spec
//@   ensures
//@     r is Ok && r->Ok_0 is None ==> old(self).left().len() == 0 && final(self).left().len() == 0,
//@     r is Ok && r->Ok_0 is Some ==> old(self).left().len() > 0 && final(self).left() == old(self).left().skip(1) && F::gives(old(self).left()[0], Ok(r->Ok_0->0)),
//@@ end
  // fallible_iterator's provided methods
  #[verifier::exec_allows_no_decreases_clause]
  pub fn collect<B>(self) -> (r: Result<Vec<B>>) where F: RowMap<B>
    ensures r is Ok ==> r->Ok_0@.len() == self.left().len() && forall|i: int| 0 <= i < r->Ok_0@.len() ==> F::gives(self.left()[i], Ok(#[trigger] r->Ok_0@[i]))
  {
    let mut it = self; let mut v: Vec<B> = Vec::new(); let ghost all = self.left();
    loop
      invariant v@.len() <= all.len(), it.left() == all.skip(v@.len() as int), forall|i: int| 0 <= i < v@.len() ==> F::gives(all[i], Ok(#[trigger] v@[i])), all == self.left(),
    {
      match it.next() {
        Err(e) => { return Err(e); }
        Ok(None) => { return Ok(v); }
        Ok(Some(x)) => { proof { assert(all.skip(v@.len() as int).skip(1) =~= all.skip(v@.len() as int + 1)); } v.push(x); }
      }
    }
  }
  #[verifier::exec_allows_no_decreases_clause]
  pub fn nth<B>(self, n: usize) -> (r: Result<Option<B>>) where F: RowMap<B>
    ensures r is Ok ==> (r->Ok_0 is Some) == (n < self.left().len()), r is Ok && r->Ok_0 is Some ==> F::gives(self.left()[n as int], Ok(r->Ok_0->0))
  {
    let mut it = self; let mut k: usize = 0; let ghost all = self.left();
    loop
      invariant k <= n, k <= all.len(), it.left() == all.skip(k as int), all == self.left(),
    {
      match it.next() {
        Err(e) => { return Err(e); }
        Ok(None) => { return Ok(None); }
        Ok(Some(x)) => { if k == n { return Ok(Some(x)); } proof { assert(all.skip(k as int).skip(1) =~= all.skip(k as int + 1)); } k += 1; }
      }
    }
  }
}
pub trait VMapped: BackendRows + Sized {
  fn mapped<F>(self, f: F) -> (r: MapDeref<Self, F>) ensures r.left() == self.rest();
}
impl<R: BackendRows> VMapped for R {
//@@ fn path=butane_core/src/db/connmethods.rs name=mapped impl="trait BackendRows"
//@@ sig
//@ fn mapped<F>(self, f: F) -> (r: MapDeref<Self, F>)
//@@ end
}
/// `T::from_row` as a mapping function
pub struct VFromRow<T> { t: core::marker::PhantomData<T> }
impl<T: DataResult> VFromRow<T> { pub fn of() -> Self { VFromRow { t: core::marker::PhantomData } } }
impl<T: DataResult> RowMap<T> for VFromRow<T> {
  open spec fn gives(w: RowView, r: Result<T>) -> bool { T::reads(w, r) }
  fn apply(&mut self, v: &dyn BackendRow) -> (r: Result<T>) { T::from_row(v) }
}
