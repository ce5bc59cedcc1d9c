//@@ type path=butane_core/src/db/dummy.rs name=DummyConnection
impl ConnectionMethods for DummyConnection {
  open spec fn does<'v, 'r>(&self, q: Req<'v>, a: Ans<'r>) -> bool { match q { Req::Delete { .. } => true, _ => err_of(a) } }
//@@ fn path=butane_core/src/db/dummy.rs name=execute impl="ConnectionMethods for DummyConnection" traitspec
//@@ end
//@@ fn path=butane_core/src/db/dummy.rs name=query impl="ConnectionMethods for DummyConnection" traitspec
//@@ end
//@@ fn path=butane_core/src/db/dummy.rs name=insert_returning_pk impl="ConnectionMethods for DummyConnection" traitspec
//@@ end
//@@ fn path=butane_core/src/db/dummy.rs name=insert_only impl="ConnectionMethods for DummyConnection" traitspec
//@@ end
//@@ fn path=butane_core/src/db/dummy.rs name=insert_or_replace impl="ConnectionMethods for DummyConnection" traitspec
//@@ end
//@@ fn path=butane_core/src/db/dummy.rs name=update impl="ConnectionMethods for DummyConnection" traitspec
//@@ end
//@@ fn path=butane_core/src/db/dummy.rs name=delete_where impl="ConnectionMethods for DummyConnection" traitspec
//@@ end
//@@ fn path=butane_core/src/db/dummy.rs name=has_table impl="ConnectionMethods for DummyConnection" traitspec
//@@ end
//@@ fn path=butane_core/src/db/connmethods.rs name=delete impl="trait ConnectionMethods" traitspec
//@@ end
}
