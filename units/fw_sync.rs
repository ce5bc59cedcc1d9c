//@@ type path=butane_core/src/db/sync_adapter.rs name=SyncAdapter subst="tokio::runtime::Handle=>Runtime;Arc<tokio::runtime::Runtime>=>Runtime"
impl<T> SyncAdapter<T> {
  pub closed spec fn inner(&self) -> T { self.inner }
//@@ fn path=butane_core/src/db/sync_adapter.rs name=block_on impl="SyncAdapter<T>"
//@@ sig
//@ fn block_on<X>(&self, future: X) -> (r: X)
//@@ spec
//@   ensures r == future
//@@ end
//@@ fn path=butane_core/src/db/sync_adapter.rs name=chain impl="SyncAdapter<T>"
//@   ensures r.inner() == inner
//@@ end
//@@ fn path=butane_core/src/db/sync_adapter.rs name=into_inner impl="SyncAdapter<T>"
//@   ensures r == self.inner()
//@@ end
}
impl<T: ConnectionMethods> ConnectionMethods for SyncAdapter<T> {
  open spec fn does<'v, 'r>(&self, q: Req<'v>, a: Ans<'r>) -> bool { match q { Req::Delete { .. } => true, _ => self.inner().does(q, a) } }
//@@ fn path=butane_core/src/db/sync_adapter.rs name=execute impl="ConnectionMethods for SyncAdapter<T>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/sync_adapter.rs name=query impl="ConnectionMethods for SyncAdapter<T>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/sync_adapter.rs name=insert_returning_pk impl="ConnectionMethods for SyncAdapter<T>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/sync_adapter.rs name=insert_only impl="ConnectionMethods for SyncAdapter<T>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/sync_adapter.rs name=insert_or_replace impl="ConnectionMethods for SyncAdapter<T>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/sync_adapter.rs name=update impl="ConnectionMethods for SyncAdapter<T>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/sync_adapter.rs name=delete_where impl="ConnectionMethods for SyncAdapter<T>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/sync_adapter.rs name=has_table impl="ConnectionMethods for SyncAdapter<T>" traitspec
//@@ end
//@@ fn path=butane_core/src/db/connmethods.rs name=delete impl="trait ConnectionMethods" traitspec
//@@ end
}
impl<T: BackendTransaction> BackendTransaction for SyncAdapter<T> {
  open spec fn over(&self) -> bool { self.inner().over() }
  open spec fn ends(&self, commit: bool, r: Result<()>) -> bool { self.inner().ends(commit, r) }
  proof fn refuses(&self, commit: bool, r: Result<()>) { self.inner().refuses(commit, r); }
//@for F in commit rollback
//@@ fn path=butane_core/src/db/sync_adapter.rs name=%F% impl="BackendTransaction<'c> for SyncAdapter<T>" traitspec
//@@ end
//@endfor
//@@ fn path=butane_core/src/db/sync_adapter.rs name=connection_methods impl="BackendTransaction<'c> for SyncAdapter<T>" traitspec
//@@ sig
//@ fn connection_methods(&self) -> (r: &Self)
//@@ end
}
