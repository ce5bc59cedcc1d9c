//@define SCHEMA
//@include prelude.rs
broadcast use prelude::valg::vtext;
use core::marker::PhantomData;
//@include sqlval_types.rs
//@include error.rs
//@@ type path=butane_core/src/custom.rs name=SqlValRefCustom subst="postgres::types::Type=>PgType;&'a(dynpostgres::types::ToSql+Sync)=>&'a DynPgToSql"
//@@ type path=butane_core/src/sqlval.rs name=SqlValRef subst="serde_json::Value=>JsonVal"
//@include vals.rs
//@include conv.rs
//@include rows.rs
//@include query_types.rs
//@include clones.rs
//@include mapped.rs
//@include querydef.rs
//@include pktrait.rs
//@include migration.rs
//@@ fn path=butane_core/src/migrations/migration.rs name=apply impl="trait Migration" txvar=transaction
//@@ sig
//@ fn apply<C: BackendConnection>(&self, conn: &mut C) -> (r: Result<()>)
//@@ spec
//@   ensures final(conn).calls() == old(conn).calls(), final(conn).backend() == old(conn).backend(), r is Err ==> final(conn).log() == old(conn).log(), r is Ok ==> grew_by(old(conn).log(), final(conn).log()) && applied_by(self.id(), self.up(old(conn).backend()), final(conn).log().last())
//@@ end
//@@ fn path=butane_core/src/migrations/migration.rs name=mark_applied impl="trait Migration"
//@@ subst ButaneMigration::COLUMNS => RECORD_COLUMNS
//@@ sig
//@ fn mark_applied<C: ConnectionMethods>(&self, conn: &mut C) -> (r: Result<()>)
//@@ spec
//@   ensures old(conn).same_place(final(conn)), final(conn).calls() == old(conn).calls().push(final(conn).calls().last()), final(conn).calls().last().1 == (r is Ok), records(final(conn).calls().last().0, self.id())
//@@ end
//@@ fn path=butane_core/src/migrations/migration.rs name=downgrade impl="trait Migration" txvar=transaction
//@@ sig
//@ fn downgrade<C: BackendConnection>(&self, conn: &mut C) -> (r: Result<()>)
//@@ spec
//@   ensures final(conn).calls() == old(conn).calls(), final(conn).backend() == old(conn).backend(), r is Err ==> final(conn).log() == old(conn).log(), r is Ok ==> grew_by(old(conn).log(), final(conn).log()) && undone_by(self.id(), self.down(old(conn).backend()), final(conn).log().last())
//@@ end
}
} // verus!
fn main() {}
