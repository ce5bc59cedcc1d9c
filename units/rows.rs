// ===== rows: what a backend delivers =====
/// a row as its reader sees it: the value of each column when read as a type (None: reading is an error)
pub ghost struct RowView { pub width: nat, pub cell: spec_fn(int, SqlType) -> Option<AVal> }
pub trait BackendRow {
  spec fn width(&self) -> nat;
  spec fn cell(&self, i: int, ty: SqlType) -> Option<AVal>;
  fn get(&self, idx: usize, ty: SqlType) -> (r: Result<SqlValRef<'_>>)
    ensures (r is Ok) == (self.cell(idx as int, ty) is Some), r is Ok ==> Some(vr(r->Ok_0)) == self.cell(idx as int, ty);
  fn len(&self) -> (r: usize)
    ensures r == self.width();
}
#[verifier::external_body] pub fn vdyn_BackendRow<T: BackendRow>(x: &T) -> (r: &dyn BackendRow)
  ensures r.width() == x.width(), forall|i: int, ty: SqlType| #[trigger] r.cell(i, ty) == x.cell(i, ty) { unimplemented!() }
/// reading from a list of values: the value at the position, if it is null or of the asked type
pub open spec fn list_cell(v: Seq<SqlVal>, i: int, ty: SqlType) -> Option<AVal> {
  if 0 <= i < v.len() && (vv(v[i]) is Null || aty(vv(v[i])) == Some(ty)) { Some(vv(v[i])) } else { None }
}
pub open spec fn same_row<A: BackendRow + ?Sized, B: BackendRow + ?Sized>(a: &A, b: &B) -> bool { a.width() == b.width() && forall|i: int, ty: SqlType| #[trigger] a.cell(i, ty) == b.cell(i, ty) }
pub open spec fn view_row<A: BackendRow + ?Sized>(a: &A) -> RowView { RowView { width: a.width(), cell: |i: int, ty: SqlType| a.cell(i, ty) } }
/// what a query delivers: rows still to come
pub trait BackendRows {
  spec fn rest(&self) -> Seq<RowView>;
  fn next<'a>(&'a mut self) -> (r: Result<Option<&'a (dyn BackendRow + 'a)>>)
    ensures r is Ok ==> (r->Ok_0 is Some) == (old(self).rest().len() > 0),
      r is Ok && r->Ok_0 is Some ==> is_row(r->Ok_0->0, old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
      r is Ok && r->Ok_0 is None ==> final(self).rest() == old(self).rest();
}
pub open spec fn is_row<A: BackendRow + ?Sized>(a: &A, v: RowView) -> bool { a.width() == v.width && forall|i: int, ty: SqlType| #![trigger a.cell(i, ty)] #![trigger (v.cell)(i, ty)] a.cell(i, ty) == (v.cell)(i, ty) }
