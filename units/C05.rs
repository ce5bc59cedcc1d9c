//@include prelude.rs
broadcast use prelude::valg::vtext;
//@include sqlval_types.rs
//@include error.rs
//@@ type path=butane_core/src/custom.rs name=SqlValRefCustom subst="postgres::types::Type=>PgType;&'a(dynpostgres::types::ToSql+Sync)=>&'a DynPgToSql"
//@@ type path=butane_core/src/sqlval.rs name=SqlValRef subst="serde_json::Value=>JsonVal"
//@include vals.rs
//@include tryfrom.rs
//@include stored.rs
//@@ type path=butane_core/src/db/sqlite.rs name=SQLITE_DT_FORMAT
//@@ type path=butane_core/src/db/sqlite.rs name=SQLITE_DATE_FORMAT
//@@ type path=butane_core/src/db/sqlite.rs name=BACKEND_NAME
//@@ type path=butane_core/src/db/turso.rs name=BACKEND_NAME as=TURSO_BACKEND_NAME
//@@ type path=butane_core/src/db/turso.rs name=TURSO_DT_FORMAT
//@@ type path=butane_core/src/db/turso.rs name=TURSO_DATE_FORMAT
//@@ fn path=butane_core/src/db/sqlite.rs name=sqlvalref_to_sqlite impl=""
//@   requires !(vr(*valref) is Custom)
//@   ensures s_out(r) == stored(vr(*valref))
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=sql_valref_from_rusqlite impl=""
//@   ensures (r is Ok) == (meaning(s_ref(val), *ty) is Some), r is Ok ==> Some(vr(r->Ok_0)) == meaning(s_ref(val), *ty)
//@@ end
//@@ fn path=butane_core/src/db/turso.rs name=sqlval_to_turso impl=""
//@@ subst turso::Value => TValue
//@@ subst Value => TValue
//@@ spec
//@   requires !(vr(*val) is Custom)
//@   ensures s_tu(r) == stored(vr(*val))
//@@ end
//@@ fn path=butane_core/src/db/turso.rs name=turso_value_to_sqlval_typed impl=""
//@@ subst turso::Value => TValue
//@@ subst Value => TValue
//@@ subst BACKEND_NAME => TURSO_BACKEND_NAME
//@@ spec
//@   ensures (r is Ok) == (meaning(s_tu(*val), *ty) is Some), r is Ok ==> Some(vv(r->Ok_0)) == meaning(s_tu(*val), *ty)
//@@ end
//@@ fn path=butane_core/src/db/turso.rs name=turso_value_to_sqlval_untyped impl=""
//@@ subst turso::Value => TValue
//@@ subst Value => TValue
//@@ spec
//@   ensures r is Ok, stored(vv(r->Ok_0)) == s_tu(*val)
//@@ end
} // verus!
fn main() {}
