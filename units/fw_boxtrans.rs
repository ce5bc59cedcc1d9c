/// `Box<dyn BackendTransaction<'bt> + 'bt>`
pub struct BoxedTrans<T> { pub b: T }
impl<T> BoxedTrans<T> { fn deref(&self) -> (r: &T) ensures *r == self.b { &self.b } fn deref_mut(&mut self) -> (r: &mut T) ensures *r == old(self).b, *final(r) == final(self).b { &mut self.b } }
impl<T: BackendTransaction> ConnectionMethods for BoxedTrans<T> {
  open spec fn does<'v, 'r>(&self, q: Req<'v>, a: Ans<'r>) -> bool { match q { Req::Delete { .. } => true, _ => self.b.does(q, a) } }
//@@ fn path=butane_core/src/db/mod.rs name=execute impl="ConnectionMethods for Box<dyn BackendTransaction<'bt> + 'bt>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=query impl="ConnectionMethods for Box<dyn BackendTransaction<'bt> + 'bt>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=insert_returning_pk impl="ConnectionMethods for Box<dyn BackendTransaction<'bt> + 'bt>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=insert_only impl="ConnectionMethods for Box<dyn BackendTransaction<'bt> + 'bt>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=insert_or_replace impl="ConnectionMethods for Box<dyn BackendTransaction<'bt> + 'bt>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=update impl="ConnectionMethods for Box<dyn BackendTransaction<'bt> + 'bt>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=delete_where impl="ConnectionMethods for Box<dyn BackendTransaction<'bt> + 'bt>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=has_table impl="ConnectionMethods for Box<dyn BackendTransaction<'bt> + 'bt>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/connmethods.rs name=delete impl="trait ConnectionMethods" traitspec
//@@ end
}
impl<T: BackendTransaction> BackendTransaction for BoxedTrans<T> {
  open spec fn over(&self) -> bool { self.b.over() }
  open spec fn ends(&self, commit: bool, r: Result<()>) -> bool { self.b.ends(commit, r) }
  proof fn refuses(&self, commit: bool, r: Result<()>) { self.b.refuses(commit, r); }
//@for F in commit rollback
//@@ fn path=butane_core/src/db/mod.rs name=%F% impl="BackendTransaction<'c> for Box<dyn BackendTransaction<'c> + 'c>" traitspec
//@@ end
//@endfor
//@@ fn path=butane_core/src/db/mod.rs name=connection_methods impl="BackendTransaction<'c> for Box<dyn BackendTransaction<'c> + 'c>" traitspec
//@@ sig
//@ fn connection_methods(&self) -> (r: &Self)
//@@ end
}
