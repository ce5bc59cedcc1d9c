//@@ type path=butane_core/src/db/mod.rs name=Transaction subst="Box<dynBackendTransaction<'c>+'c>=>Box<T>" gen="<T>"
impl<T> Transaction<T> {
  pub closed spec fn inner(&self) -> T { *self.trans }
//@@ fn path=butane_core/src/db/mod.rs name=new impl="Transaction<'c>"
//@@ sig
//@ fn new(trans: Box<T>) -> (r: Self)
//@@ spec
//@   ensures r.inner() == *trans
//@@ end
}
impl<T: BackendTransaction> Transaction<T> {
//@@ fn path=butane_core/src/db/mod.rs name=commit impl="Transaction<'c>"
//@   ensures self.inner().ends(true, r)
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=rollback impl="Transaction<'c>"
//@@ subst self.trans.deref_mut() => self.trans
//@@ spec
//@   ensures self.inner().ends(false, r)
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=wrapped_connection_methods impl="Transaction<'c>"
//@@ subst let a : & dyn BackendTransaction < 'c > = self.trans.as_ref() => let a : & T = & * self.trans
//@@ sig
//@ fn wrapped_connection_methods(&self) -> (r: Result<&T>)
//@@ spec
//@   ensures r is Ok, *r->Ok_0 == self.inner()
//@@ end
}
impl<T: BackendTransaction> ConnectionMethods for Transaction<T> {
  open spec fn does<'v, 'r>(&self, q: Req<'v>, a: Ans<'r>) -> bool { self.inner().does(q, a) }
//@@ fn path=butane_core/src/db/mod.rs name=execute impl="ConnectionMethods for Transaction<'_>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=query impl="ConnectionMethods for Transaction<'_>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=insert_returning_pk impl="ConnectionMethods for Transaction<'_>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=insert_only impl="ConnectionMethods for Transaction<'_>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=insert_or_replace impl="ConnectionMethods for Transaction<'_>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=update impl="ConnectionMethods for Transaction<'_>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=delete_where impl="ConnectionMethods for Transaction<'_>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=has_table impl="ConnectionMethods for Transaction<'_>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/mod.rs name=delete impl="ConnectionMethods for Transaction<'_>" traitspec
//@@ end
}
impl<T: BackendTransaction> BackendTransaction for Transaction<T> {
  open spec fn over(&self) -> bool { self.inner().over() }
  open spec fn ends(&self, commit: bool, r: Result<()>) -> bool { self.inner().ends(commit, r) }
  proof fn refuses(&self, commit: bool, r: Result<()>) { self.inner().refuses(commit, r); }
//@for F in commit rollback
//@@ fn path=butane_core/src/db/mod.rs name=%F% impl="BackendTransaction<'c> for Transaction<'c>" traitspec
//@@ subst self.trans.deref_mut() => self.trans
//@@ end
//@endfor
//@@ fn path=butane_core/src/db/mod.rs name=connection_methods impl="BackendTransaction<'c> for Transaction<'c>" traitspec
//@@ sig
//@ fn connection_methods(&self) -> (r: &Self)
//@@ end
}
