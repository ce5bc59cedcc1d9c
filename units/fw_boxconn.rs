/// `Box<dyn BackendConnection>`
pub struct BoxedConn<T> { pub b: T }
impl<T> BoxedConn<T> { fn deref(&self) -> (r: &T) ensures *r == self.b { &self.b } fn deref_mut(&mut self) -> (r: &mut T) ensures *r == old(self).b, *final(r) == final(self).b { &mut self.b } }
impl<T: BackendConnection> ConnectionMethods for BoxedConn<T> {
  open spec fn does<'v, 'r>(&self, q: Req<'v>, a: Ans<'r>) -> bool { match q { Req::Delete { .. } => true, _ => self.b.does(q, a) } }
//@@ fn path=butane_core/src/db/mod.rs name=execute impl="ConnectionMethods for Box<dyn BackendConnection>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=query impl="ConnectionMethods for Box<dyn BackendConnection>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=insert_returning_pk impl="ConnectionMethods for Box<dyn BackendConnection>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=insert_only impl="ConnectionMethods for Box<dyn BackendConnection>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=insert_or_replace impl="ConnectionMethods for Box<dyn BackendConnection>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=update impl="ConnectionMethods for Box<dyn BackendConnection>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=delete_where impl="ConnectionMethods for Box<dyn BackendConnection>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=has_table impl="ConnectionMethods for Box<dyn BackendConnection>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/connmethods.rs name=delete impl="trait ConnectionMethods" traitspec
//@@ end
}
