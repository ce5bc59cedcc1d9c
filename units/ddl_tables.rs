pub mod sqlite_tables {
use super::*;
use super::sqlite_ddl::*;
broadcast use {valg::vtext, txt::join_same, txt::pushed, some_fkeys};
//@@ fn path=butane_core/src/db/sqlite.rs name=create_table_constraints loops=1
//@@ spec
//@   requires usable(Db::Sqlite, table.columns@)
//@   ensures r@ == join_seq(fkeys(table.columns@, table.columns@.len() as int), "\n"@)
//@@ loop 1
//@   $all == table.columns@, same_texts($acc@, fkeys($all, $pos))
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=create_table loops=1
//@@ spec
//@   requires usable(Db::Sqlite, table.columns@)
//@   ensures create_text(Db::Sqlite, vw(*table), allow_exists, r@)
//@@ entry
//@   broadcast use valg::vassoc;
//@@ loop 1
//@   $all == table.columns@, same_texts($acc@, coldefs(Db::Sqlite, $all, $pos))
//@@ end
//@@ fn path=butane_core/src/db/sqlite.rs name=copy_table loops=1
//@@ spec
//@   ensures copy_text(Db::Sqlite, old.name@, vw(*new), r@)
//@@ entry
//@   broadcast use valg::vassoc;
//@@ loop 1
//@   $all == new.columns@, same_texts($acc@, names($all, $pos))
//@@ end
}
pub mod turso_tables {
use super::*;
pub open spec fn table_defs(t: TV) -> Seq<Seq<char>> { coldefs(Db::Turso, t.cols, t.cols.len() as int) + fkeys(t.cols, t.cols.len() as int) }
use super::turso_ddl::*;
broadcast use {valg::vtext, txt::join_same, txt::pushed, some_fkeys};
//@@ fn path=butane_core/src/db/turso.rs name=create_table loops=3
//@@ spec
//@   requires usable(Db::Turso, table.columns@)
//@   ensures create_text(Db::Turso, vw(*table), if_not_exists, r@)
//@@ entry
//@   broadcast use valg::vassoc;
//@   proof { lemma_if_new(); }
//@@ loop 1
//@   $all == table.columns@, same_texts($acc@, coldefs(Db::Turso, $all, $pos))
//@@ loop 2
//@   $all == table.columns@, same_texts(constraints@, fkeys($all, $pos))
//@@ loop_after 2
//@   proof { let d = coldefs(Db::Turso, table.columns@, table.columns@.len() as int); let f = fkeys(table.columns@, table.columns@.len() as int);
//@     assert(same_texts(defs@ + constraints@, d + f)) by { assert forall|i: int| 0 <= i < (defs@ + constraints@).len() implies (#[trigger] (defs@ + constraints@)[i]).disp() == (d + f)[i] by { if i < defs@.len() { assert(defs@[i].disp() == d[i]); } else { assert(constraints@[i - defs@.len()].disp() == f[i - defs@.len()]); } } } }
//@@ loop 3
//@   $all == defs@, same_texts(defs@, table_defs(vw(*table))), same_texts($acc@, indented(table_defs(vw(*table)), $pos))
//@@ end
//@@ fn path=butane_core/src/db/turso.rs name=copy_table loops=1
//@@ spec
//@   ensures copy_text(Db::Turso, old.name@, vw(*new), r@)
//@@ entry
//@   broadcast use valg::vassoc;
//@@ loop 1
//@   $all == new.columns@, same_texts($acc@, names($all, $pos))
//@@ end
}
