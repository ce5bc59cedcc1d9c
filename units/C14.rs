//@include prelude.rs
broadcast use prelude::valg::vtext;
//@include sqlval_types.rs
//@include error.rs
//@include literal.rs
//@include adb_types.rs
//@include ident.rs
//@include ddl.rs
//@include ddl_adb.rs
//@include ddl_sqlite.rs
//@include ddl_tables.rs
//@include ddl_ops.rs
//@include ddl_pg.rs
} // verus!
fn main() {}
