//@@ type path=butane_core/src/db/pg.rs name=PgTransaction subst="postgres::Transaction<'c>=>RTrans<'c>"
impl<'c> PgTransaction<'c> {
  pub closed spec fn inner(&self) -> Option<RTrans<'c>> { self.trans }
//@@ fn path=butane_core/src/db/pg.rs name=new impl="PgTransaction<'c>"
//@@ sig
//@ fn new(trans: RTrans<'c>) -> (r: Self)
//@@ spec
//@   ensures r.inner() == Some(trans)
//@@ end
//@@ fn path=butane_core/src/db/pg.rs name=get impl="PgTransaction<'c>"
//@@ sig
//@ fn get(&self) -> (r: Result<&RTrans<'c>>)
//@@ spec
//@   ensures r is Ok == self.inner() is Some, r is Ok ==> Some(*r->Ok_0) == self.inner()
//@@ end
//@@ fn path=butane_core/src/db/pg.rs name=already_consumed impl="PgTransaction<'c>"
//@@ end
//@@ fn path=butane_core/src/db/pg.rs name=client impl="PgConnectionLike for PgTransaction<'c>"
//@@ sig
//@ fn client(&self) -> (r: Result<&RTrans<'c>>)
//@@ spec
//@   ensures r is Ok == self.inner() is Some, r is Ok ==> Some(*r->Ok_0) == self.inner()
//@@ end
}
impl<'c> PgTransaction<'c> {
//@for F,W in commit:true rollback:false
//@@ fn path=butane_core/src/db/pg.rs name=%F% impl="BackendTransaction<'c> for PgTransaction<'c>"
//@@ hint trans.commit() => res
//@@ hint trans.rollback() => res
//@@ spec
//@   ensures final(self).inner() is None, match old(self).inner() { Some(t) => t.ended(%W%, r is Ok), None => r is Err }
//@@ end
//@endfor
}
