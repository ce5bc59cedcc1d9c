//@for S,F in Sqlite:sqlite Turso:turso
// ===== %S%: tables and columns =====
pub mod %F%_ddl {
use super::*;
broadcast use {valg::vtext, txt::join_same, txt::pushed, eq_null, zero_finite};
pub open spec fn b() -> Db { Db::%S% }
//@@ fn path=butane_core/src/db/%F%.rs name=sqltype
//@@ spec
//@   requires !(*ty is Custom)
//@   ensures r@ == storage(b(), *ty)
//@@ end
//@@ fn path=butane_core/src/db/%F%.rs name=col_sqltype
//@@ spec
//@   requires has_type(b(), *col)
//@   ensures r.disp() == coltype(b(), *col)
//@@ end
//@@ fn path=butane_core/src/db/%F%.rs name=define_column
//@@ spec
//@   requires has_type(b(), *col)
//@   ensures r@ == coldef(b(), *col)
//@@ entry
//@   broadcast use valg::vassoc;
//@   reveal_with_fuel(join_seq, 4); reveal_with_fuel(join_text, 4);
//@@ end
//@@ fn path=butane_core/src/db/%F%.rs name=define_constraint
//@@ spec
//@   requires column.reference is Some, resolved_ref(*column)
//@   ensures r@ == fkey(*column)
//@@ entry
//@   broadcast use valg::vassoc;
//@@ end
//@@ fn path=butane_core/src/db/%F%.rs name=drop_table
//@@ spec
//@   ensures r@ == drop_text(name@)
//@@ entry
//@   broadcast use valg::vassoc;
//@@ end
//@@ fn path=butane_core/src/db/%F%.rs name=tmp_table_name
//@@ spec
//@   ensures r@ == tmp(name@)
//@@ end
//@@ fn path=butane_core/src/db/%F%.rs name=add_column eq
//@@ spec
//@   requires usable(b(), seq![*col])
//@   ensures r is Ok ==> with_initial(b(), *col, "ALTER TABLE "@ + ident(tbl_name@) + " ADD COLUMN "@ + coldef(b(), *col), r->Ok_0@),
//@     r is Err ==> !has_initial(*col) || (col.default is Some && !literal_exists(col.default->0))
//@@ entry
//@   broadcast use valg::vassoc;
//@   assert(fit_col(b(), seq![*col][0]));
//@@ end
}
//@endfor
