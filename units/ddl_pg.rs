// ===== Pg: the SQL of schema operations =====
pub mod pg_ddl {
use super::*;
broadcast use {valg::vtext, txt::join_same, txt::pushed, eq_null, zero_finite};
pub open spec fn b() -> Db { Db::Pg }
impl PgType { #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == pg_name(*self) { unimplemented!() } }
use super::pg_literal as sql_literal_value;
//@@ fn path=butane_core/src/db/pg.rs name=sqltype
//@@ spec
//@   ensures r.disp() == storage(b(), ty)
//@@ end
//@@ fn path=butane_core/src/db/pg.rs name=col_sqltype
//@@ spec
//@   ensures r is Ok == has_type(b(), *col), r is Ok ==> r->Ok_0.disp() == coltype(b(), *col)
//@@ end
//@@ fn path=butane_core/src/db/pg.rs name=define_column
//@@ spec
//@   ensures r is Ok == has_type(b(), *col), r is Ok ==> r->Ok_0@ == coldef(b(), *col)
//@@ entry
//@   broadcast use valg::vassoc;
//@   reveal_with_fuel(join_seq, 4); reveal_with_fuel(join_text, 4);
//@@ end
//@@ fn path=butane_core/src/db/pg.rs name=define_fkey_constraint
//@@ spec
//@   requires column.reference is Some, resolved_ref(*column)
//@   ensures r@ == pg_fkey(table_name@, *column)
//@@ end
//@@ fn path=butane_core/src/db/pg.rs name=drop_table
//@@ spec
//@   ensures r@ == drop_text(name@)
//@@ end
//@@ fn path=butane_core/src/db/pg.rs name=remove_column
//@@ spec
//@   ensures r@ == drop_col_text(tbl_name@, name@)
//@@ end
//@@ fn path=butane_core/src/db/pg.rs name=create_table loops=1
//@@ spec
//@   ensures r is Ok ==> create_text(b(), vw(*table), allow_exists, r->Ok_0@), r is Err ==> exists|i: int| 0 <= i < table.columns@.len() && !has_type(b(), #[trigger] table.columns@[i])
//@@ entry
//@   proof { lemma_if_new(); }
//@@ loop 1
//@   $all == table.columns@, same_texts($acc@, coldefs(b(), $all, $pos))
//@@ end
//@@ fn path=butane_core/src/db/pg.rs name=create_table_fkey_constraints loops=1
//@@ spec
//@   requires usable(b(), table.columns@)
//@   ensures r@ == join_seq(pg_fkeys(table.name@, table.columns@, table.columns@.len() as int), "\n"@)
//@@ loop 1
//@   $all == table.columns@, same_texts($acc@, pg_fkeys(table.name@, $all, $pos))
//@@ end
//@@ fn path=butane_core/src/db/pg.rs name=change_column eq
//@@ spec
//@   requires resolved_ref(*old), resolved_ref(*new)
//@   ensures r is Ok && old.name@ == new.name@ ==> pg_change_text(table.name@, *old, *new, r->Ok_0@), r is Err ==> pg_change_fails(*old, *new)
//@@ entry
//@   broadcast use txt::none_yet;
//@@ end
//@@ fn path=butane_core/src/db/pg.rs name=drop_fkey_constraints
//@@ spec
//@   requires fit_col(b(), *column)
//@   ensures r is Ok ==> r->Ok_0@ == join_seq(opt(column.reference is Some, pg_drop_fkey(table.name@, column.name@)), "\n"@), r is Err ==> ct(column.sqltype) is Deferred
//@@ end
//@@ fn path=butane_core/src/db/pg.rs name=remove_table_fkey_constraints loops=1
//@@ spec
//@   requires usable(b(), table.columns@)
//@   ensures r is Ok ==> r->Ok_0@ == join_seq(pg_drop_fkeys(table.name@, table.columns@, table.columns@.len() as int), "\n"@), r is Err ==> exists|i: int| 0 <= i < table.columns@.len() && ct((#[trigger] table.columns@[i]).sqltype) is Deferred
//@@ loop 1
//@   $all == table.columns@, same_texts($acc@, pg_drop_fkeys(table.name@, $all, $pos))
//@@ end
//@@ fn path=butane_core/src/db/pg.rs name=add_column eq
//@@ spec
//@   requires usable(b(), seq![*col])
//@   ensures r is Ok ==> pg_added(tbl_name@, *col, r->Ok_0@), r is Err ==> pg_add_fails(*col)
//@@ entry
//@   assert(fit_col(b(), seq![*col][0]));
//@   reveal_with_fuel(join_text, 3);
//@@ end
//@@ fn path=butane_core/src/db/pg.rs name=sql_for_op
//@@ spec
//@   requires wf(schema(*old(current))), fit(b(), schema(*old(current))), fit_op(b(), *op)
//@   ensures match r { Ok(x) => op_text(b(), schema(*old(current)), *op, x@) && (schema(*final(current)) == schema(*old(current)) || (op is ChangeColumn || op is RemoveColumn) && schema(*final(current)) == step(schema(*old(current)), *op)),
//@     Err(_) => *final(current) == *old(current) && op_fails(b(), schema(*old(current)), *op) }
//@@ entry
//@   proof { if let Operation::ChangeColumn(_, a, c) = op { assert(fit_col(b(), seq![*a][0])); assert(fit_col(b(), seq![*c][0])); } }
//@@ end
pub struct PgBackend {}
impl PgBackend {
//@@ fn path=butane_core/src/db/pg.rs name=create_migration_sql impl="Backend for PgBackend" loops=2
//@@ sig
//@ pub fn create_migration_sql(&self, current: &ADB, ops: Vec<Operation>) -> (r: Result<String>)
//@@ spec
//@   requires wf(schema(*current)), fit(b(), schema(*current)), forall|i: int| 0 <= i < ops@.len() ==> fit_op(b(), #[trigger] ops@[i])
//@   ensures match r { Ok(x) => migration_text(b(), schema(*current), ops@, x@), Err(_) => exists|i: int| 0 <= i < ops@.len() && op_fails(b(), steps(schema(*current), ops@, i), #[trigger] ops@[i]) }
//@@ entry
//@   let ghost ops0 = ops@; let ghost s0 = schema(*current);
//@   assert(steps(s0, ops0, 0) == s0);
//@@ loop 1
//@   $all == ops0, schema(current) == steps(s0, ops0, $pos), wf(schema(current)), fit(b(), schema(current)), $acc@.len() == $pos, op_texts(b(), s0, ops0, texts($acc@))
//@@ loop_entry 1
//@   let ghost before = schema(current);
//@   proof { { assert(fit_op(b(), ops0[$pos - 1])); let op = ops0[$pos - 1]; lemma_step_wf(before, op); lemma_step_fit(b(), before, op); if op is ChangeColumn || op is RemoveColumn { lemma_step_twice(before, op); } } }
//@   let ghost acc0 = $acc@;
//@@ loop_exit 1
//@   proof { lemma_op_texts(b(), s0, ops0, texts(acc0), texts($acc@)); }
//@@ loop 2
//@   op_texts(b(), s0, ops0, texts($all)), $all.len() == ops0.len(), texts($acc@) =~= nonempty(texts($all).take($pos))
//@@ loop_exit 2
//@   proof { reveal(Seq::filter); assert(texts($all).take($pos).drop_last() =~= texts($all).take($pos - 1)); }
//@@ loop_after 2
//@   proof { assert(texts($all).take($all.len() as int) =~= texts($all)); }
//@@ exit
//@   proof { assert(same_texts(lines@, texts(lines@))); }
//@@ end
}
}
