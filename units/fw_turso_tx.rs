//@@ type path=butane_core/src/db/turso.rs name=TursoConnection subst="turso::Connection=>TConn"
//@@ type path=butane_core/src/db/turso.rs name=TursoTransaction
impl<'c> TursoTransaction<'c> {
  pub closed spec fn inner(&self) -> Option<TursoConnection> { match self.conn { Some(c) => Some(*c), None => None } }
//@@ fn path=butane_core/src/db/turso.rs name=new impl="TursoTransaction<'c>"
//@   ensures r.inner() == Some(*conn), r.open()
//@@ end
//@@ fn path=butane_core/src/db/turso.rs name=get impl="TursoTransaction<'c>"
//@@ closure 1
//@ (r: Error)
//@@ spec
//@   ensures r is Ok == self.inner() is Some, r is Ok ==> Some(*r->Ok_0) == self.inner()
//@@ end
//@@ fn path=butane_core/src/db/turso.rs name=already_consumed impl="TursoTransaction<'c>"
//@@ end
}
impl<'c> ConnectionMethods for TursoTransaction<'c> {
  open spec fn does<'v, 'r>(&self, q: Req<'v>, a: Ans<'r>) -> bool { match q { Req::Delete { .. } => true, _ => match self.inner() { Some(t) => t.does(q, a), None => err_of(a) } } }
//@@ fn path=butane_core/src/db/turso.rs name=execute impl="ConnectionMethods for TursoTransaction<'c>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/turso.rs name=query impl="ConnectionMethods for TursoTransaction<'c>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/turso.rs name=insert_returning_pk impl="ConnectionMethods for TursoTransaction<'c>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/turso.rs name=insert_only impl="ConnectionMethods for TursoTransaction<'c>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/turso.rs name=insert_or_replace impl="ConnectionMethods for TursoTransaction<'c>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/turso.rs name=update impl="ConnectionMethods for TursoTransaction<'c>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/turso.rs name=delete_where impl="ConnectionMethods for TursoTransaction<'c>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/turso.rs name=has_table impl="ConnectionMethods for TursoTransaction<'c>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/connmethods.rs name=delete impl="trait ConnectionMethods" traitspec
//@@ end
}
impl<'c> BackendTransaction for TursoTransaction<'c> {
  open spec fn over(&self) -> bool { self.inner() is None }
  open spec fn ends(&self, commit: bool, r: Result<()>) -> bool { match self.inner() { Some(t) => if commit { did(t, "COMMIT"@, r) && (r is Err ==> asked(t, "ROLLBACK"@)) } else { did(t, "ROLLBACK"@, r) }, None => r is Err } }
  proof fn refuses(&self, commit: bool, r: Result<()>) { }
//@for F in commit rollback
//@@ fn path=butane_core/src/db/turso.rs name=%F% impl="BackendTransaction<'c> for TursoTransaction<'c>" traitspec
//@@ end
//@endfor
//@@ fn path=butane_core/src/db/turso.rs name=connection_methods impl="BackendTransaction<'c> for TursoTransaction<'c>" traitspec
//@@ sig
//@ fn connection_methods(&self) -> (r: &Self)
//@@ end
}
// dropped without having been ended: rolled back
#[verifier::external_body] pub struct TValue { }
pub struct TError { }
impl TError { #[verifier::external_body] pub fn vto_string(&self) -> String { unimplemented!() } }
impl TConn {
  pub uninterp spec fn ran(&self, sql: Seq<char>) -> bool;
  #[verifier::external_body] pub fn execute(&self, sql: &str, params: Vec<TValue>) -> (r: core::result::Result<u64, TError>) ensures self.ran(sql@) { unimplemented!() }
}
/// threads that can be started and that end, each with a runtime of its own
pub struct Scope { }
pub struct Joiner<X> { pub x: X }
pub fn vscope<X, F: FnOnce(&Scope) -> X>(f: F) -> (r: X) requires forall|s: &Scope| f.requires((s,)) ensures exists|s: &Scope| f.ensures((s,), r) { let s = Scope { }; f(&s) }
impl Scope { pub fn spawn<X, F: FnOnce() -> X>(&self, f: F) -> (r: Joiner<X>) requires f.requires(()) ensures f.ensures((), r.x) { Joiner { x: f() } } }
impl<X> Joiner<X> { pub fn vjoin(self) -> (r: core::result::Result<X, String>) ensures r == Ok::<X, String>(self.x) { Ok(self.x) } }
pub struct Builder { }
impl Builder { pub fn new_current_thread() -> Builder { Builder { } } pub fn build(&self) -> (r: core::result::Result<Runtime, TError>) ensures r is Ok { Ok(Runtime { p: 0 }) } }
impl<'c> TursoTransaction<'c> {
//@@ fn path=butane_core/src/db/turso.rs name=drop impl="Drop for TursoTransaction<'c>" as=on_drop
//@@ subst std::thread::scope => vscope
//@@ subst turso::Value => TValue
//@@ closure 1
//@ (r: core::result::Result<core::result::Result<u64, String>, String>) ensures conn.ran("ROLLBACK"@)
//@@ closure 2
//@ (r: core::result::Result<u64, String>) ensures conn.ran("ROLLBACK"@)
//@@ spec
//@   ensures old(self).inner() is Some && old(self).open() ==> old(self).inner()->0.conn().ran("ROLLBACK"@)
//@@ end
  pub closed spec fn open(&self) -> bool { !self.committed }
}
impl TursoConnection { pub closed spec fn conn(&self) -> TConn { self.conn } }
pub open spec fn asked(t: TursoConnection, sql: Seq<char>) -> bool { exists|x: Result<()>| #[trigger] t.does(Req::Execute { sql }, Ans::Unit(x)) }
