//@@ type path=butane_core/src/db/sqlite.rs name=SQLiteConnection subst="rusqlite::Connection=>RConn"
impl SQLiteConnection {
  pub closed spec fn inner(&self) -> RConn { self.conn }
//@@ fn path=butane_core/src/db/sqlite.rs name=wrapped_connection_methods impl="SQLiteConnection"
//@@ sig
//@ fn wrapped_connection_methods(&self) -> (r: Result<&RConn>)
//@@ spec
//@   ensures r is Ok, *r->Ok_0 == self.inner()
//@@ end
}
impl ConnectionMethods for SQLiteConnection {
  open spec fn does<'v, 'r>(&self, q: Req<'v>, a: Ans<'r>) -> bool { self.inner().does(q, a) }
//@@ fn path=butane_core/src/db/sqlite.rs name=execute impl="ConnectionMethods for SQLiteConnection" traitspec
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=query impl="ConnectionMethods for SQLiteConnection" traitspec
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=insert_returning_pk impl="ConnectionMethods for SQLiteConnection" traitspec
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=insert_only impl="ConnectionMethods for SQLiteConnection" traitspec
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=insert_or_replace impl="ConnectionMethods for SQLiteConnection" traitspec
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=update impl="ConnectionMethods for SQLiteConnection" traitspec
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=delete_where impl="ConnectionMethods for SQLiteConnection" traitspec
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=has_table impl="ConnectionMethods for SQLiteConnection" traitspec
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=delete impl="ConnectionMethods for SQLiteConnection" traitspec
//@@ end
}
