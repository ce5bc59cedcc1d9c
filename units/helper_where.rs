// ===== db/helper.rs: conditions =====
//@@ fn path=butane_core/src/db/helper.rs name=quote_reserved_word
//@@ sig
//@ pub fn quote_reserved_word<S: VDisp + ?Sized>(word: &S) -> (r: Cow<'_, str>)
//@@ spec
//@   ensures r.disp() == ident(word.disp())
//@@ end

//@@ fn path=butane_core/src/db/helper.rs name=sql_column
//@@ sig
//@ pub fn sql_column(col: QColumn, w: &mut impl Write)
//@@ spec
//@   ensures final(w).wv() == emit_qcol(old(w).wv(), col)
//@@ end

//@@ fn path=butane_core/src/db/helper.rs name=sql_joins loops=1
//@@ sig
//@ pub fn sql_joins(joins: Vec<Join>, w: &mut impl Write)
//@@ spec
//@   ensures final(w).wv() == emit_joins(old(w).wv(), joins@, joins@.len() as int)
//@@ loop 1
//@   w.wv() == emit_joins(old(w).wv(), $all, $pos),
//@   $all == joins@,
//@   sep@ == (if $pos == 0 { ""@ } else { " "@ }),
//@@ end

// placeholder sources of the three backends
//@@ type path=butane_core/src/db/sqlite.rs name=SQLitePlaceholderSource
//@@ type path=butane_core/src/db/turso.rs name=TursoPlaceholderSource
//@@ type path=butane_core/src/db/pg.rs name=PgPlaceholderSource
//@for S,F in SQLite:sqlite Turso:turso
impl PlaceholderSource for %S%PlaceholderSource {
  open spec fn ph(n: int) -> Seq<char> { "?"@ }
  open spec fn at(&self) -> int { 0 }
  open spec fn adv(k: int) -> int { 0 }
  proof fn adv_ok() {}
//@@ fn path=butane_core/src/db/%F%.rs name=next_placeholder impl="PlaceholderSource for %S%PlaceholderSource"
//@@ sig
//@ fn next_placeholder(&mut self) -> (r: Cow<'_, str>)
//@@ end
}
//@endfor
impl PlaceholderSource for PgPlaceholderSource {
  open spec fn ph(n: int) -> Seq<char> { "$"@ + int_text(n) }
  open spec fn at(&self) -> int { self.n as int }
  open spec fn adv(k: int) -> int { k }
  proof fn adv_ok() {}
//@@ fn path=butane_core/src/db/pg.rs name=next_placeholder impl="PlaceholderSource for PgPlaceholderSource"
//@@ sig
//@ fn next_placeholder(&mut self) -> (r: Cow<'_, str>)
//@@ end
}
//@for S,F in SQLite:sqlite Turso:turso Pg:pg
//@@ fn path=butane_core/src/db/%F%.rs name=new impl="%S%PlaceholderSource" as=new_%F%_source
//@@ sig
//@ pub fn new_%F%_source() -> (r: %S%PlaceholderSource)
//@@ spec
//@   ensures r.at() == %S%PlaceholderSource::adv(1)
//@@ end

//@@ fn path=butane_core/src/db/helper.rs name=sql_for_expr as=helper_%F% dropparam=f loops=2 splitret
//@@ subst f => %F%_sql_for_expr
//@@ sig
//@ #[verifier::exec_allows_no_decreases_clause]
//@ pub fn helper_%F%<W: Write>(expr: Expr, values: &mut Vec<SqlVal>, pls: &mut %S%PlaceholderSource, w: &mut W)
//@@ spec
//@   requires old(pls).at() >= %S%PlaceholderSource::adv(1), old(pls).at() + %S%PlaceholderSource::adv(nph(expr)) <= MAXPH,
//@   ensures
//@     final(w).wv() == emit::<%S%PlaceholderSource>(old(w).wv(), expr, old(pls).at()),
//@     final(pls).at() == old(pls).at() + %S%PlaceholderSource::adv(nph(expr)),
//@     final(values)@ == old(values)@ + vals(expr),
//@@ entry
//@   proof {
//@     if expr is Condition {
//@       assert(vals(expr) == vals_c(*expr->Condition_0)); assert(nph(expr) == nph_c(*expr->Condition_0));
//@       unfold_c(*expr->Condition_0);
//@     }
//@   }
//@@ loop 1
//@   $all == conds@, $all.len() > 0,
//@   w.wv() == (if 0 < $pos && $pos < $all.len() { emit_all::<%S%PlaceholderSource>(old(w).wv() + "("@, $all, $pos, old(pls).at()) + " AND "@ } else { emit_all::<%S%PlaceholderSource>(old(w).wv() + "("@, $all, $pos, old(pls).at()) }),
//@   pls.at() == old(pls).at() + %S%PlaceholderSource::adv(nph_all($all, $pos)),
//@   values@ == old(values)@ + vals_all($all, $pos),
//@   remaining == (if $pos < $all.len() { $all.len() - $pos } else { 1 }),
//@@ loop_entry 1
//@   proof { nph_all_mono($all, $pos, $all.len() as int); nph_all_nonneg($all, $pos - 1); assert(cond == $all[$pos - 1]); }
//@@ loop 2
//@   $all == vals@, $all.len() > 0,
//@   w.wv() == (if 0 < $pos && $pos < $all.len() { emit_vals::<%S%PlaceholderSource>(old(w).wv() + ident(col@) + " IN ("@, $all, $pos, old(pls).at()) + ", "@ } else { emit_vals::<%S%PlaceholderSource>(old(w).wv() + ident(col@) + " IN ("@, $all, $pos, old(pls).at()) }),
//@   pls.at() == old(pls).at() + %S%PlaceholderSource::adv(nph_vals($all.take($pos))),
//@   values@ == old(values)@ + vals_vals($all.take($pos)),
//@   remaining == (if $pos < $all.len() { $all.len() - $pos } else { 1 }),
//@@ loop_entry 2
//@   proof { nph_vals_mono($all, $pos); nph_vals_nonneg($all.take($pos - 1)); assert($all.take($pos).drop_last() =~= $all.take($pos - 1)); assert($all.take($pos).last() == val); }
//@@ loop_after 2
//@   proof { assert($all.take($pos) =~= $all); }
//@@ end

//@@ fn path=butane_core/src/db/%F%.rs name=sql_for_expr as=%F%_sql_for_expr droparg=helper::sql_for_expr@1@sql_for_expr
//@@ subst helper::sql_for_expr => helper_%F%
//@@ sig
//@ #[verifier::exec_allows_no_decreases_clause]
//@ pub fn %F%_sql_for_expr<W: Write>(expr: Expr, values: &mut Vec<SqlVal>, pls: &mut %S%PlaceholderSource, w: &mut W)
//@@ spec
//@   requires old(pls).at() >= %S%PlaceholderSource::adv(1), old(pls).at() + %S%PlaceholderSource::adv(nph(expr)) <= MAXPH,
//@   ensures
//@     final(w).wv() == emit::<%S%PlaceholderSource>(old(w).wv(), expr, old(pls).at()),
//@     final(pls).at() == old(pls).at() + %S%PlaceholderSource::adv(nph(expr)),
//@     final(values)@ == old(values)@ + vals(expr),
//@@ end
//@endfor
