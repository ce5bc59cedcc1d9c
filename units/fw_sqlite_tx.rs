//@@ type path=butane_core/src/db/sqlite.rs name=SqliteTransaction subst="rusqlite::Transaction<'c>=>RTrans<'c>"
impl<'c> SqliteTransaction<'c> {
  pub closed spec fn inner(&self) -> Option<RTrans<'c>> { self.trans }
//@@ fn path=butane_core/src/db/sqlite.rs name=new impl="SqliteTransaction<'c>"
//@@ sig
//@ fn new(trans: RTrans<'c>) -> (r: Self)
//@@ spec
//@   ensures r.inner() == Some(trans)
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=get impl="SqliteTransaction<'c>"
//@@ sig
//@ fn get(&self) -> (r: Result<&RTrans<'c>>)
//@@ spec
//@   ensures r is Ok == self.inner() is Some, r is Ok ==> Some(*r->Ok_0) == self.inner()
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=wrapped_connection_methods impl="SqliteTransaction<'c>"
//@@ sig
//@ fn wrapped_connection_methods(&self) -> (r: Result<&RConn>)
//@@ spec
//@   ensures r is Ok == self.inner() is Some, r is Ok ==> *r->Ok_0 == self.inner()->0.conn()
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=already_consumed impl="SqliteTransaction<'c>"
//@@ end
}
impl<'x> ConnectionMethods for SqliteTransaction<'x> {
  open spec fn does<'v, 'r>(&self, q: Req<'v>, a: Ans<'r>) -> bool { match self.inner() { Some(t) => t.conn().does(q, a), None => err_of(a) } }
//@@ fn path=butane_core/src/db/sqlite.rs name=execute impl="ConnectionMethods for SqliteTransaction<'_>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=query impl="ConnectionMethods for SqliteTransaction<'_>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=insert_returning_pk impl="ConnectionMethods for SqliteTransaction<'_>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=insert_only impl="ConnectionMethods for SqliteTransaction<'_>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=insert_or_replace impl="ConnectionMethods for SqliteTransaction<'_>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=update impl="ConnectionMethods for SqliteTransaction<'_>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=delete_where impl="ConnectionMethods for SqliteTransaction<'_>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=has_table impl="ConnectionMethods for SqliteTransaction<'_>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=delete impl="ConnectionMethods for SqliteTransaction<'_>" traitspec
//@@ end
}
impl<'c> BackendTransaction for SqliteTransaction<'c> {
  open spec fn over(&self) -> bool { self.inner() is None }
  open spec fn ends(&self, commit: bool, r: Result<()>) -> bool { match self.inner() { Some(t) => t.ended(commit, r is Ok), None => r is Err } }
  proof fn refuses(&self, commit: bool, r: Result<()>) { }
//@for F in commit rollback
//@@ fn path=butane_core/src/db/sqlite.rs name=%F% impl="BackendTransaction<'c> for SqliteTransaction<'c>" traitspec
//@@ hint trans.commit() => res
//@@ hint trans.rollback() => res
//@@ end
//@endfor
//@@ fn path=butane_core/src/db/sqlite.rs name=connection_methods impl="BackendTransaction<'c> for SqliteTransaction<'c>" traitspec
//@@ sig
//@ fn connection_methods(&self) -> (r: &Self)
//@@ end
}
