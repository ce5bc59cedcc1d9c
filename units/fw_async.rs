/// the object behind the adapter, which lives on another thread
pub struct AsyncAdapter<T> { pub inner: T }
pub uninterp spec fn adapter_failed(e: Error) -> bool;
/// the adapter's own failure (its thread is gone)
pub open spec fn lost(a: Ans) -> bool { match a { Ans::Unit(r) => r is Err && adapter_failed(r->Err_0), Ans::Rows(r) => r is Err && adapter_failed(r->Err_0), Ans::Val(r) => r is Err && adapter_failed(r->Err_0), Ans::Count(r) => r is Err && adapter_failed(r->Err_0), Ans::Bool(r) => r is Err && adapter_failed(r->Err_0) } }
impl<T> AsyncAdapter<T> {
  #[verifier::external_body] fn invoke<F: FnOnce(&T) -> Result<U>, U>(&self, func: F) -> (r: Result<U>)
    requires func.requires((&self.inner,)),
    ensures func.ensures((&self.inner,), r) || (r is Err && adapter_failed(r->Err_0))
  { unimplemented!() }
}
/// the rows copied for another thread (C13)
#[verifier::external_body] pub struct VecRows { }
pub uninterp spec fn copy_of(rows: RawQueryResult, columns: Seq<Column>, r: Result<VecRows>) -> bool;
#[verifier::external_body] pub fn vec_from_backend_rows<'c>(rows: RawQueryResult<'c>, columns: &[Column]) -> (r: Result<VecRows>) ensures copy_of(rows, columns@, r) { unimplemented!() }
impl<'c> RawQueryResult<'c> { pub uninterp spec fn copied(&self) -> Option<VecRows>; }
#[verifier::external_body] pub fn vbuffered<'c>(v: Box<VecRows>) -> (r: RawQueryResult<'c>) ensures r.copied() == Some(*v) { unimplemented!() }
pub open spec fn fetched<T: ConnectionMethods>(t: &T, q: Req, cols: Seq<Column>, r: Result<Box<VecRows>>) -> bool {
  exists|x: Result<RawQueryResult>| #[trigger] t.does(q, Ans::Rows(x)) && (match x { Err(e) => r is Err && r->Err_0 == e, Ok(rows) => exists|v: Result<VecRows>| #[trigger] copy_of(rows, cols, v) && ((v is Ok) == (r is Ok)) && (v is Ok ==> *r->Ok_0 == v->Ok_0) })
}
impl<T: ConnectionMethods> AsyncAdapter<T> {
//@@ fn path=butane_core/src/db/adapter.rs name=execute impl="ConnectionMethodsAsync for AsyncAdapter<T>"
//@@ closure 1
//@ (r: Result<()>) ensures conn.does(Req::Execute { sql: sql@ }, Ans::Unit(r))
//@@ spec
//@   ensures ({ let a = Ans::Unit(r); self.inner.does(Req::Execute { sql: sql@ }, a) || lost(a) })
//@@ end
//@@ fn path=butane_core/src/db/adapter.rs name=insert_returning_pk impl="ConnectionMethodsAsync for AsyncAdapter<T>"
//@@ closure 1
//@ (r: Result<SqlVal>) ensures conn.does(Req::InsertPk { table: table@, columns: columns@, pkcol: *pkcol, values: values@ }, Ans::Val(r))
//@@ spec
//@   ensures ({ let a = Ans::Val(r); self.inner.does(Req::InsertPk { table: table@, columns: columns@, pkcol: *pkcol, values: values@ }, a) || lost(a) })
//@@ end
//@@ fn path=butane_core/src/db/adapter.rs name=insert_only impl="ConnectionMethodsAsync for AsyncAdapter<T>"
//@@ closure 1
//@ (r: Result<()>) ensures conn.does(Req::InsertOnly { table: table@, columns: columns@, values: values@ }, Ans::Unit(r))
//@@ spec
//@   ensures ({ let a = Ans::Unit(r); self.inner.does(Req::InsertOnly { table: table@, columns: columns@, values: values@ }, a) || lost(a) })
//@@ end
//@@ fn path=butane_core/src/db/adapter.rs name=insert_or_replace impl="ConnectionMethodsAsync for AsyncAdapter<T>"
//@@ closure 1
//@ (r: Result<()>) ensures conn.does(Req::InsertOrReplace { table: table@, columns: columns@, pkcol: *pkcol, values: values@ }, Ans::Unit(r))
//@@ spec
//@   ensures ({ let a = Ans::Unit(r); self.inner.does(Req::InsertOrReplace { table: table@, columns: columns@, pkcol: *pkcol, values: values@ }, a) || lost(a) })
//@@ end
//@@ fn path=butane_core/src/db/adapter.rs name=update impl="ConnectionMethodsAsync for AsyncAdapter<T>"
//@@ closure 1
//@ (r: Result<()>) ensures conn.does(Req::Update { table: table@, pkcol, pk, columns: columns@, values: values@ }, Ans::Unit(r))
//@@ spec
//@   ensures ({ let a = Ans::Unit(r); self.inner.does(Req::Update { table: table@, pkcol, pk, columns: columns@, values: values@ }, a) || lost(a) })
//@@ end
//@@ fn path=butane_core/src/db/adapter.rs name=delete_where impl="ConnectionMethodsAsync for AsyncAdapter<T>"
//@@ closure 1
//@ (r: Result<usize>) ensures conn.does(Req::DeleteWhere { table: table@, expr }, Ans::Count(r))
//@@ spec
//@   ensures ({ let a = Ans::Count(r); self.inner.does(Req::DeleteWhere { table: table@, expr }, a) || lost(a) })
//@@ end
//@@ fn path=butane_core/src/db/adapter.rs name=has_table impl="ConnectionMethodsAsync for AsyncAdapter<T>"
//@@ closure 1
//@ (r: Result<bool>) ensures conn.does(Req::HasTable { table: table@ }, Ans::Bool(r))
//@@ spec
//@   ensures ({ let a = Ans::Bool(r); self.inner.does(Req::HasTable { table: table@ }, a) || lost(a) })
//@@ end
//@@ fn path=butane_core/src/db/adapter.rs name=query impl="ConnectionMethodsAsync for AsyncAdapter<T>"
//@@ subst let rows : Box < dyn BackendRows > = conn.query(table, => let rows = conn.query(table,
//@@ subst Ok(rows) => Ok(vbuffered(rows))
//@@ subst super::connmethods::vec_from_backend_rows => vec_from_backend_rows
//@@ closure 1
//@ (r: Result<Box<VecRows>>) ensures fetched(conn, Req::Query { table: table@, columns: columns@, expr, limit, offset, sort: sorted(sort) }, columns@, r)
//@@ spec
//@   ensures r is Ok ==> r->Ok_0.copied() is Some && fetched(&self.inner, Req::Query { table: table@, columns: columns@, expr, limit, offset, sort: sorted(sort) }, columns@, Ok(Box::new(r->Ok_0.copied()->0)))
//@@ end
}
