//@include prelude.rs
broadcast use prelude::valg::vtext;
use core::marker::PhantomData;
//@include sqlval_types.rs
//@include error.rs
//@@ type path=butane_core/src/custom.rs name=SqlValRefCustom subst="postgres::types::Type=>PgType;&'a(dynpostgres::types::ToSql+Sync)=>&'a DynPgToSql"
//@@ type path=butane_core/src/sqlval.rs name=SqlValRef subst="serde_json::Value=>JsonVal"
//@include query_types.rs
//@include forward.rs
//@include fw_boxconn.rs
//@include fw_boxtrans.rs
//@include fw_connection.rs
//@include fw_transaction.rs
//@include fw_sqlite_tx.rs
//@include fw_sqlite_conn.rs
//@include fw_turso_tx.rs
//@include fw_pg_tx.rs
//@include fw_sync.rs
//@include fw_dummy.rs
//@include fw_async.rs
} // verus!
fn main() {}
