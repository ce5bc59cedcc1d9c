//@include prelude.rs
broadcast use prelude::valg::vtext;
use Expr::{Condition, Placeholder, Val};
use BoolExpr::*;

//@include sqlval_types.rs
//@include error.rs
//@@ type path=butane_core/src/custom.rs name=SqlValRefCustom subst="postgres::types::Type=>PgType;&'a(dynpostgres::types::ToSql+Sync)=>&'a DynPgToSql"
//@@ type path=butane_core/src/sqlval.rs name=SqlValRef subst="serde_json::Value=>JsonVal"
//@include query_types.rs
//@include render.rs
//@include helper_where.rs
//@include builders.rs
//@include sqlite_methods.rs
//@include turso_methods.rs
//@include pg_methods.rs
} // verus!
fn main() {}
