//@for S,F,B in Sqlite:sqlite:SQLiteBackend Turso:turso:TursoBackend
pub mod %F%_ops {
use super::*;
use super::%F%_ddl::*;
pub struct %B% {}
use super::%F%_tables::*;
broadcast use {valg::vtext, txt::join_same, txt::pushed};
//@@ fn path=butane_core/src/db/%F%.rs name=change_column
//@@ spec
//@   requires wf(schema(*verus_builtin::old(current))), schema(*verus_builtin::old(current)).dom().contains(tbl_name@) ==> usable(b(), schema(*verus_builtin::old(current))[tbl_name@].cols), new matches Some(c) ==> usable(b(), seq![*c])
//@   ensures ({ let s = schema(*verus_builtin::old(current)); if s.dom().contains(tbl_name@) { let cols = match new { Some(c) => put(s[tbl_name@].cols, *c), None => less(s[tbl_name@].cols, old.name@) };
//@       change_text(b(), s[tbl_name@], cols, r@) && schema(*final(current)) =~= s.insert(tbl_name@, TV { name: tbl_name@, cols }) } else { r@.len() == 0 && *final(current) == *verus_builtin::old(current) } })
//@@ entry
//@   let ghost s0 = schema(*current);
//@   proof { if s0.dom().contains(tbl_name@) { match new { Some(c) => lemma_put_usable(b(), s0[tbl_name@].cols, *c), None => lemma_less_usable(b(), s0[tbl_name@].cols, old.name@) } } }
//@   broadcast use txt::join4;
//@@ end
//@@ fn path=butane_core/src/db/%F%.rs name=remove_column
//@@ spec
//@   requires wf(schema(*old(current))), schema(*old(current)).dom().contains(tbl_name@) ==> usable(b(), schema(*old(current))[tbl_name@].cols)
//@   ensures ({ let s = schema(*old(current)); let k = at(s[tbl_name@].cols, name@); let t = TV { name: tbl_name@, cols: less(s[tbl_name@].cols, name@) };
//@     match r { Ok(x) => s.dom().contains(tbl_name@) && k < s[tbl_name@].cols.len()
//@         && (if s[tbl_name@].cols[k].reference is Some || s[tbl_name@].cols[k].unique || s[tbl_name@].cols[k].pk { change_text(b(), s[tbl_name@], t.cols, x@) && schema(*final(current)) == s.insert(tbl_name@, t) } else { x@ == drop_col_text(tbl_name@, name@) && schema(*final(current)) == s }),
//@       Err(_) => *final(current) == *old(current) && (!s.dom().contains(tbl_name@) || k >= s[tbl_name@].cols.len()) } })
//@@ entry
//@   broadcast use valg::vassoc;
//@   proof { lemma_at_is(schema(*current)[tbl_name@].cols, name@); }
//@@ end
//@@ fn path=butane_core/src/db/%F%.rs name=sql_for_op
//@@ spec
//@   requires wf(schema(*old(current))), fit(b(), schema(*old(current))), fit_op(b(), *op)
//@   ensures match r { Ok(x) => op_text(b(), schema(*old(current)), *op, x@) && (schema(*final(current)) == schema(*old(current)) || (op is ChangeColumn || op is RemoveColumn) && schema(*final(current)) == step(schema(*old(current)), *op)),
//@     Err(_) => *final(current) == *old(current) && op_fails(b(), schema(*old(current)), *op) }
//@@ end
impl %B% {
//@@ fn path=butane_core/src/db/%F%.rs name=create_migration_sql impl="Backend for %B%" loops=2
//@@ sig
//@ pub fn create_migration_sql(&self, current: &ADB, ops: Vec<Operation>) -> (r: Result<String>)
//@@ spec
//@   requires wf(schema(*current)), fit(b(), schema(*current)), forall|i: int| 0 <= i < ops@.len() ==> fit_op(b(), #[trigger] ops@[i])
//@   ensures match r { Ok(x) => migration_text(b(), schema(*current), ops@, x@), Err(_) => exists|i: int| 0 <= i < ops@.len() && op_fails(b(), steps(schema(*current), ops@, i), #[trigger] ops@[i]) }
//@@ entry
//@   let ghost ops0 = ops@; let ghost s0 = schema(*current);
//@   assert(steps(s0, ops0, 0) == s0);
//@@ loop 1
//@   $all == ops0, schema(current) == steps(s0, ops0, $pos), wf(schema(current)), fit(b(), schema(current)), $acc@.len() == $pos, op_texts(b(), s0, ops0, texts($acc@))
//@@ loop_entry 1
//@   let ghost before = schema(current);
//@   proof { { assert(fit_op(b(), ops0[$pos - 1])); let op = ops0[$pos - 1]; lemma_step_wf(before, op); lemma_step_fit(b(), before, op); if op is ChangeColumn || op is RemoveColumn { lemma_step_twice(before, op); } } }
//@   let ghost acc0 = $acc@;
//@@ loop_exit 1
//@   proof { lemma_op_texts(b(), s0, ops0, texts(acc0), texts($acc@)); }
//@@ loop 2
//@   op_texts(b(), s0, ops0, texts($all)), $all.len() == ops0.len(), texts($acc@) =~= nonempty(texts($all).take($pos))
//@@ loop_exit 2
//@   proof { reveal(Seq::filter); assert(texts($all).take($pos).drop_last() =~= texts($all).take($pos - 1)); }
//@@ loop_after 2
//@   proof { assert(texts($all).take($all.len() as int) =~= texts($all)); }
//@@ exit
//@   proof { assert(same_texts(lines@, texts(lines@))); }
//@@ end
}
}
//@endfor
