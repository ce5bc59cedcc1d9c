//@include prelude.rs
broadcast use prelude::valg::vtext;
//@include sqlval_types.rs
//@include error.rs
//@@ type path=butane_core/src/custom.rs name=SqlValRefCustom subst="postgres::types::Type=>PgType;&'a(dynpostgres::types::ToSql+Sync)=>&'a DynPgToSql"
//@@ type path=butane_core/src/sqlval.rs name=SqlValRef subst="serde_json::Value=>JsonVal"
//@include vals.rs
//@include rows.rs
//@include tryfrom.rs
//@include stored.rs
//@@ type path=butane_core/src/db/sqlite.rs name=SQLITE_DT_FORMAT
//@@ type path=butane_core/src/db/sqlite.rs name=SQLITE_DATE_FORMAT
//@@ type path=butane_core/src/db/sqlite.rs name=BACKEND_NAME
//@@ type path=butane_core/src/db/connmethods.rs name=Column
//@@ type path=butane_core/src/db/connmethods.rs name=VecRow
//@@ type path=butane_core/src/db/connmethods.rs name=VecRows
//@@ type path=butane_core/src/db/turso.rs name=TursoRow
//@for T,F in VecRow:connmethods TursoRow:turso
impl BackendRow for %T% {
  open spec fn width(&self) -> nat { self.values@.len() }
  open spec fn cell(&self, i: int, ty: SqlType) -> Option<AVal> { list_cell(self.values@, i, ty) }
//@@ fn path=butane_core/src/db/%F%.rs name=get impl="BackendRow for %T%" traitspec
//@@ end
//@@ fn path=butane_core/src/db/%F%.rs name=len impl="BackendRow for %T%" traitspec
//@@ end
}
//@endfor
impl<T: BackendRow> VecRows<T> {
  /// rows delivered so far (asking again after the end counts on)
  pub open spec fn delivered(&self) -> int { self.idx as int }
  pub open spec fn all(&self) -> Seq<T> { self.rows@ }
//@@ fn path=butane_core/src/db/connmethods.rs name=new impl="VecRows<T>"
//@   ensures r.all() == rows@, r.delivered() == 0
//@@ end
//@@ fn path=butane_core/src/db/connmethods.rs name=next impl="BackendRows for VecRows<T>"
//@@ sig
//@ pub fn next(&mut self) -> (r: Result<Option<&dyn BackendRow>>)
//@@ spec
//@   requires old(self).delivered() < usize::MAX
//@   ensures r is Ok, final(self).all() == old(self).all(), final(self).delivered() == old(self).delivered() + 1,
//@     r->Ok_0 is Some == (old(self).delivered() < old(self).all().len()),
//@     r->Ok_0 is Some ==> same_row(r->Ok_0->0, &old(self).all()[old(self).delivered()]),
//@@ end
//@@ fn path=butane_core/src/db/connmethods.rs name=current impl="BackendRows for VecRows<T>"
//@@ sig
//@ pub fn current(&self) -> (r: Option<&dyn BackendRow>)
//@@ spec
//@   ensures r is Some == (1 <= self.delivered() <= self.all().len()),
//@     r is Some ==> same_row(r->0, &self.all()[self.delivered() - 1]),
//@@ end
}
/// `v` are the values of a row read as the given columns
pub open spec fn copied(v: Seq<SqlVal>, w: RowView, cols: Seq<Column>, k: int) -> bool {
  v.len() == k && forall|i: int| 0 <= i < k ==> (w.cell)(i, #[trigger] cols[i].ty) == Some(vv(v[i]))
}
pub open spec fn readable_row(w: RowView, cols: Seq<Column>, k: int) -> bool { forall|i: int| 0 <= i < k ==> (w.cell)(i, #[trigger] cols[i].ty) is Some }
impl VecRow {
//@@ fn path=butane_core/src/db/connmethods.rs name=new impl="VecRow" loops=1
//@@ sig
//@ pub fn new(original: &dyn BackendRow, columns: &[Column]) -> (r: Result<Self>)
//@@ spec
//@   ensures (r is Ok) == (original.width() == columns@.len() && readable_row(view_row(original), columns@, columns@.len() as int)),
//@     r is Ok ==> copied(r->Ok_0.values@, view_row(original), columns@, columns@.len() as int),
//@@ loop 1
//@   copied($acc@, view_row(original), columns@, $pos), readable_row(view_row(original), columns@, $pos), $all.len() == columns@.len(), original.width() == columns@.len()
//@@ end
}
//@@ fn path=butane_core/src/db/connmethods.rs name=vec_from_backend_rows loops=1 impl=""
//@@ subst Box<dyn BackendRows + 'a> => Box<R>
//@@ sig
//@ #[verifier::exec_allows_no_decreases_clause] #[verifier::allow_complex_invariants]
//@ pub fn vec_from_backend_rows<R: BackendRows>(mut other: Box<R>, columns: &[Column]) -> (r: Result<VecRows<VecRow>>)
//@@ spec
//@   ensures r is Ok ==> r->Ok_0.delivered() == 0 && r->Ok_0.all().len() == other.rest().len()
//@       && forall|k: int| 0 <= k < other.rest().len() ==> copied((#[trigger] r->Ok_0.all()[k]).values@, other.rest()[k], columns@, columns@.len() as int),
//@@ entry
//@   let ghost all = other.rest();
//@@ loop 1
//@   invariant rows@.len() <= all.len(), other.rest() == all.skip(rows@.len() as int),
//@     forall|k: int| 0 <= k < rows@.len() ==> copied((#[trigger] rows@[k]).values@, all[k], columns@, columns@.len() as int),
//@   ensures rows@.len() == all.len(),
//@@ end
// ---- rows of a running SQLite query ----
#[verifier::external_body] pub struct RqRow { x: u8 }
#[verifier::external_body] pub struct RqStmt { x: u8 }
impl RqRow {
  pub uninterp spec fn cells(&self) -> Seq<SVal>;
  #[verifier::external_body] pub fn get_ref(&self, i: usize) -> (r: core::result::Result<ValueRef<'_>, EOpaque>) ensures (r is Ok) == (i < self.cells().len()), r is Ok ==> s_ref(r->Ok_0) == self.cells()[i as int] { unimplemented!() }
  #[verifier::external_body] pub fn as_ref(&self) -> (r: &RqStmt) ensures r.columns() == self.cells().len() { unimplemented!() }
}
impl RqStmt { pub uninterp spec fn columns(&self) -> nat; #[verifier::external_body] pub fn column_count(&self) -> (r: usize) ensures r == self.columns() { unimplemented!() } }
//@@ fn path=butane_core/src/db/sqlite.rs name=sql_valref_from_rusqlite impl=""
//@   ensures (r is Ok) == (meaning(s_ref(val), *ty) is Some), r is Ok ==> Some(vr(r->Ok_0)) == meaning(s_ref(val), *ty)
//@@ end
impl BackendRow for RqRow {
  open spec fn width(&self) -> nat { self.cells().len() }
  open spec fn cell(&self, i: int, ty: SqlType) -> Option<AVal> { if 0 <= i < self.cells().len() { meaning(self.cells()[i], ty) } else { None } }
//@@ fn path=butane_core/src/db/sqlite.rs name=get impl="BackendRow for rusqlite::Row<'_>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=len impl="BackendRow for rusqlite::Row<'_>" traitspec
//@@ end
}
// ---- rows mapped to objects: the function is applied once to every row delivered, in order ----
pub trait RowFn<B> {
  spec fn calls(&self) -> Seq<RowView>;
  spec fn answers(&self) -> Seq<Result<B>>;
  fn apply(&mut self, v: &dyn BackendRow) -> (r: Result<B>)
    ensures final(self).calls().len() == old(self).calls().len() + 1, final(self).calls().drop_last() == old(self).calls(), is_row(v, final(self).calls().last()), final(self).answers() == old(self).answers().push(r);
}
//@@ type path=butane_core/src/db/connmethods.rs name=MapDeref
impl<I: BackendRows, F> MapDeref<I, F> {
//@@ fn path=butane_core/src/db/connmethods.rs name=next impl="fallible_iterator::FallibleIterator for MapDeref<I, F>"
//@@ hint (self.f)(v) => res
//@@ subst (self.f) (v) => self.f.apply(v)
//@@ sig
//@ pub fn next<B>(&mut self) -> (r: Result<Option<B>>) where F: RowFn<B>
//@@ spec
//@   ensures
//@     r is Ok && r->Ok_0 is None ==> old(self).it.rest().len() == 0 && final(self).f.calls() == old(self).f.calls(),
//@     r is Ok && r->Ok_0 is Some ==> old(self).it.rest().len() > 0 && final(self).it.rest() == old(self).it.rest().skip(1)
//@       && final(self).f.calls().len() == old(self).f.calls().len() + 1 && final(self).f.calls().drop_last() == old(self).f.calls()
//@       && same_view(final(self).f.calls().last(), old(self).it.rest()[0]) && final(self).f.answers().last() == Ok::<B, Error>(r->Ok_0->0),
//@@ end
}
pub open spec fn same_view(a: RowView, b: RowView) -> bool { a.width == b.width && forall|i: int, ty: SqlType| (#[trigger] (a.cell)(i, ty)) == (b.cell)(i, ty) }
} // verus!
fn main() {}
