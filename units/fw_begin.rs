// ===== beginning a transaction =====
impl RConn {
  /// the library began `t` on this connection
  pub uninterp spec fn begins(&self, t: RTrans) -> bool;
  #[verifier::external_body] pub fn transaction<'a>(&'a mut self) -> (r: core::result::Result<RTrans<'a>, RError>) ensures r is Ok ==> old(self).begins(r->Ok_0) { unimplemented!() }
}
impl SQLiteConnection {
//@@ fn path=butane_core/src/db/sqlite.rs name=transaction impl="BackendConnection for SQLiteConnection"
//@@ subst let trans : Transaction < '_ > = self.conn.transaction() => let trans = self.conn.transaction()
//@@ sig
//@ fn transaction<'a>(&'a mut self) -> (r: Result<Transaction<SqliteTransaction<'a>>>)
//@@ spec
//@   ensures r is Ok ==> r->Ok_0.inner().inner() is Some && old(self).inner().begins(r->Ok_0.inner().inner()->0)
//@@ end
}
impl TursoConnection {
//@@ fn path=butane_core/src/db/turso.rs name=transaction impl="BackendConnection for TursoConnection"
//@@ sig
//@ fn transaction<'a>(&'a mut self) -> (r: Result<Transaction<TursoTransaction<'a>>>)
//@@ spec
//@   ensures r is Ok ==> r->Ok_0.inner().inner() == Some(*old(self)) && r->Ok_0.inner().open() && did(*old(self), "BEGIN TRANSACTION"@, Ok(()))
//@@ end
}
//@@ type path=butane_core/src/db/pg.rs name=PgConnection subst="postgres::Client=>RConn;tokio::task::JoinHandle<()>=>PgType"
impl PgConnection {
  pub closed spec fn inner(&self) -> RConn { self.client }
//@@ fn path=butane_core/src/db/pg.rs name=transaction impl="BackendConnection for PgConnection"
//@@ subst let trans : Transaction < '_ > = self.client.transaction() => let trans = self.client.transaction()
//@@ sig
//@ fn transaction<'a>(&'a mut self) -> (r: Result<Transaction<PgTransaction<'a>>>)
//@@ spec
//@   ensures r is Ok ==> r->Ok_0.inner().inner() is Some && old(self).inner().begins(r->Ok_0.inner().inner()->0)
//@@ end
}
