//@@ type path=butane_core/src/db/mod.rs name=Connection subst="Box<dynBackendConnection>=>Box<T>" gen="<T>"
impl<T: BackendConnection> Connection<T> {
  pub closed spec fn inner(&self) -> T { *self.conn }
//@@ fn path=butane_core/src/db/mod.rs name=wrapped_connection_methods impl="Connection"
//@@ subst self.conn.as_ref() => &*self.conn
//@@ sig
//@ fn wrapped_connection_methods(&self) -> (r: Result<&T>)
//@@ spec
//@   ensures r is Ok, *r->Ok_0 == self.inner()
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=new impl="Connection"
//@@ sig
//@ fn new(conn: Box<T>) -> (r: Self)
//@@ spec
//@   ensures r.inner() == *conn
//@@ end
}
impl<T: BackendConnection> ConnectionMethods for Connection<T> {
  open spec fn does<'v, 'r>(&self, q: Req<'v>, a: Ans<'r>) -> bool { self.inner().does(q, a) }
//@@ fn path=butane_core/src/db/mod.rs name=execute impl="ConnectionMethods for Connection" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=query impl="ConnectionMethods for Connection" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=insert_returning_pk impl="ConnectionMethods for Connection" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=insert_only impl="ConnectionMethods for Connection" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=insert_or_replace impl="ConnectionMethods for Connection" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=update impl="ConnectionMethods for Connection" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=delete_where impl="ConnectionMethods for Connection" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=has_table impl="ConnectionMethods for Connection" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=delete impl="ConnectionMethods for Connection" traitspec
//@@ end
}
