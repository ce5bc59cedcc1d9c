// ===== specification: column lists, statements =====
//@@ type path=butane_core/src/db/connmethods.rs name=Column
impl Column {
//@@ fn path=butane_core/src/db/connmethods.rs name=name impl=Column
//@ ensures r == self.name
//@@ end
//@@ fn path=butane_core/src/db/connmethods.rs name=ty impl=Column
//@ ensures *r == self.ty
//@@ end
}
/// the first k column names, separated by commas
pub open spec fn cols_text(cs: Seq<Column>, k: int) -> Seq<char>
  decreases k
{ if k <= 0 || k > cs.len() { Seq::empty() } else if k == 1 { ident(cs[0].name@) } else { cols_text(cs, k - 1) + ", "@ + ident(cs[k - 1].name@) } }
/// k parameter markers, the first of which has number n
pub open spec fn emit_marks<P: PlaceholderSource>(pre: Seq<char>, k: int, n: int) -> Seq<char>
  decreases k
{ if k <= 0 { pre } else if k == 1 { pre + P::ph(n) } else { emit_marks::<P>(pre, k - 1, n) + ", "@ + P::ph(n + P::adv(k - 1)) } }
/// column = marker, ...
pub open spec fn emit_sets<P: PlaceholderSource>(pre: Seq<char>, cs: Seq<Column>, k: int, n: int) -> Seq<char>
  decreases k
{ if k <= 0 || k > cs.len() { pre } else if k == 1 { pre + ident(cs[0].name@) + " = "@ + P::ph(n) }
  else { emit_sets::<P>(pre, cs, k - 1, n) + ", "@ + ident(cs[k - 1].name@) + " = "@ + P::ph(n + P::adv(k - 1)) } }
pub open spec fn emit_excluded(pre: Seq<char>, cs: Seq<Column>, k: int, first: Seq<char>, next: Seq<char>) -> Seq<char>
  decreases k
{ if k <= 0 || k > cs.len() { pre } else if k == 1 { pre + first + ident(cs[0].name@) } else { emit_excluded(pre, cs, k - 1, first, next) + next + ident(cs[k - 1].name@) } }
pub open spec fn dir_text(d: OrderDirection) -> Seq<char> { match d { OrderDirection::Ascending => "ASC"@, OrderDirection::Descending => "DESC"@ } }
pub open spec fn emit_order(pre: Seq<char>, os: Seq<Order>, k: int) -> Seq<char>
  decreases k
{ if k <= 0 || k > os.len() { pre } else if k == 1 { pre + ident(os[0].column@) + " "@ + dir_text(os[0].direction) }
  else { emit_order(pre, os, k - 1) + ", "@ + ident(os[k - 1].column@) + " "@ + dir_text(os[k - 1].direction) } }
pub open spec fn emit_select(pre: Seq<char>, cols: Seq<Column>, table: Seq<char>) -> Seq<char> {
  pre + "SELECT "@ + cols_text(cols, cols.len() as int) + " FROM "@ + ident(table)
}
pub open spec fn emit_insert<P: PlaceholderSource>(pre: Seq<char>, table: Seq<char>, cols: Seq<Column>, n: int) -> Seq<char> {
  if cols.len() == 0 { pre + "INSERT INTO "@ + ident(table) + " "@ + "DEFAULT VALUES "@ }
  else { emit_marks::<P>(pre + "INSERT INTO "@ + ident(table) + " "@ + "("@ + cols_text(cols, cols.len() as int) + ") VALUES ("@, cols.len() as int, n) + ")"@ }
}
pub open spec fn emit_update<P: PlaceholderSource>(pre: Seq<char>, table: Seq<char>, pk: Column, cols: Seq<Column>, n: int) -> Seq<char> {
  emit_sets::<P>(pre + "UPDATE "@ + ident(table) + " SET "@, cols, cols.len() as int, n) + " WHERE "@ + ident(pk.name@) + " = "@ + P::ph(n + P::adv(cols.len() as int))
}
pub open spec fn idents_ok<T: VDisp>(v: Seq<T>, cs: Seq<Column>, k: int) -> bool { forall|i: int| 0 <= i < k ==> (#[trigger] v[i]).disp() == ident(cs[i].name@) }
pub proof fn cols_join<T: VDisp>(v: Seq<T>, cs: Seq<Column>, k: int)
  requires 0 <= k <= cs.len(), v.len() == cs.len(), forall|i: int| 0 <= i < cs.len() ==> (#[trigger] v[i]).disp() == ident(cs[i].name@)
  ensures join_text(v.take(k), ", "@) == cols_text(cs, k)
  decreases k
{
  if k > 0 {
    cols_join(v, cs, k - 1);
    assert(v.take(k).drop_last() =~= v.take(k - 1)); assert(v.take(k).last() == v[k - 1]); assert(v.take(k)[0] == v[0]);
  }
}
//@@ fn path=butane_core/src/db/helper.rs name=list_columns loops=2
//@@ sig
//@ pub fn list_columns(columns: &[Column], w: &mut impl Write)
//@@ spec
//@   ensures final(w).wv() == old(w).wv() + cols_text(columns@, columns@.len() as int)
//@@ loop 1
//@   $all == columns@, w.wv() == old(w).wv(), colnames@.len() == $pos, forall|i: int| 0 <= i < $pos ==> (#[trigger] colnames@[i])@ == columns@[i].name@,
//@@ loop 2
//@   w.wv() == old(w).wv(), $all == colnames@, colnames@.len() == columns@.len(), forall|i: int| 0 <= i < columns@.len() ==> (#[trigger] colnames@[i])@ == columns@[i].name@,
//@   $acc@.len() == $pos, idents_ok($acc@, columns@, $pos),
//@@ loop_after 2
//@   proof { cols_join($acc@, columns@, columns@.len() as int); assert($acc@.take(columns@.len() as int) =~= $acc@); }
//@@ end
//@@ fn path=butane_core/src/db/helper.rs name=sql_select
//@@ sig
//@ pub fn sql_select(columns: &[Column], table: &str, w: &mut impl Write)
//@@ spec
//@   ensures final(w).wv() == emit_select(old(w).wv(), columns@, table@)
//@@ end
//@@ fn path=butane_core/src/db/helper.rs name=sql_insert_with_placeholders loops=1
//@@ sig
//@ pub fn sql_insert_with_placeholders<P: PlaceholderSource>(table: &str, columns: &[Column], pls: &mut P, w: &mut impl Write)
//@@ spec
//@   requires old(pls).at() >= P::adv(1), old(pls).at() + columns@.len() <= MAXPH,
//@   ensures final(w).wv() == emit_insert::<P>(old(w).wv(), table@, columns@, old(pls).at())
//@@ entry
//@   proof { P::adv_ok(); }
//@@ loop 1
//@   $all == columns@, columns@.len() > 0, pls.at() == old(pls).at() + P::adv($pos), $acc@ == (if $pos == 0 { ""@ } else { ", "@ }),
//@   w.wv() == emit_marks::<P>(old(w).wv() + "INSERT INTO "@ + ident(table@) + " "@ + "("@ + cols_text(columns@, columns@.len() as int) + ") VALUES ("@, $pos, old(pls).at()),
//@@ loop_entry 1
//@   proof { P::adv_ok(); }
//@@ end
//@@ fn path=butane_core/src/db/helper.rs name=sql_update_with_placeholders loops=1
//@@ sig
//@ pub fn sql_update_with_placeholders<P: PlaceholderSource>(table: &str, pkcol: Column, columns: &[Column], pls: &mut P, w: &mut impl Write)
//@@ spec
//@   requires old(pls).at() >= P::adv(1), old(pls).at() + columns@.len() + 1 <= MAXPH,
//@   ensures final(w).wv() == emit_update::<P>(old(w).wv(), table@, pkcol, columns@, old(pls).at())
//@@ entry
//@   proof { P::adv_ok(); }
//@@ loop 1
//@   $all == columns@, pls.at() == old(pls).at() + P::adv($pos), $acc@ == (if $pos == 0 { ""@ } else { ", "@ }),
//@   w.wv() == emit_sets::<P>(old(w).wv() + "UPDATE "@ + ident(table@) + " SET "@, columns@, $pos, old(pls).at()),
//@@ loop_entry 1
//@   proof { P::adv_ok(); }
//@@ end
//@@ fn path=butane_core/src/db/helper.rs name=sql_limit
//@@ sig
//@ pub fn sql_limit(limit: i32, w: &mut impl Write)
//@@ spec
//@   ensures final(w).wv() == old(w).wv() + " LIMIT "@ + int_text(limit as int)
//@@ end
//@@ fn path=butane_core/src/db/helper.rs name=sql_offset
//@@ sig
//@ pub fn sql_offset(offset: i32, w: &mut impl Write)
//@@ spec
//@   ensures final(w).wv() == old(w).wv() + " OFFSET "@ + int_text(offset as int)
//@@ end
//@@ fn path=butane_core/src/db/helper.rs name=sql_order loops=1
//@@ sig
//@ pub fn sql_order(order: &[Order], w: &mut impl Write)
//@@ spec
//@   ensures final(w).wv() == emit_order(old(w).wv() + " ORDER BY "@, order@, order@.len() as int)
//@@ loop 1
//@   $all == order@, $acc@ == (if $pos == 0 { ""@ } else { ", "@ }), w.wv() == emit_order(old(w).wv() + " ORDER BY "@, order@, $pos),
//@@ end
/// insert, or on a conflict of the primary key rewrite every given column
pub open spec fn upsert_head(pre: Seq<char>, table: Seq<char>, cols: Seq<Column>) -> Seq<char> {
  pre + "INSERT "@ + "INTO "@ + ident(table) + " ("@ + cols_text(cols, cols.len() as int) + ") VALUES ("@
}
pub open spec fn upsert_tail(p1: Seq<char>, cols: Seq<Column>, pk: Column) -> Seq<char> {
  let p2 = p1 + ")"@ + " ON CONFLICT ("@ + ident(pk.name@) + ") DO "@;
  if cols.len() > 1 { excluded(p2 + "UPDATE SET ("@ + cols_text(cols, cols.len() as int) + ") = ("@, cols, cols.len() as int) + ")"@ } else { p2 + "NOTHING"@ }
}
pub open spec fn excluded(pre: Seq<char>, cs: Seq<Column>, k: int) -> Seq<char>
  decreases k
{ if k <= 0 || k > cs.len() { pre } else { (if k == 1 { pre } else { excluded(pre, cs, k - 1) + ", "@ }) + "excluded."@ + ident(cs[k - 1].name@) } }
pub open spec fn emit_upsert<P: PlaceholderSource>(pre: Seq<char>, table: Seq<char>, cols: Seq<Column>, pk: Column) -> Seq<char> {
  upsert_tail(emit_marks::<P>(upsert_head(pre, table, cols), cols.len() as int, 1), cols, pk)
}
//@for S,F,N in SQLite:sqlite:sql_insert_or_update Turso:turso:sql_insert_or_update Pg:pg:sql_insert_or_replace_with_placeholders
//@@ fn path=butane_core/src/db/%F%.rs name=%N% as=%F%_upsert loops=2
//@@ sig
//@ pub fn %F%_upsert(table: &str, columns: &[Column], pkcol: &Column, w: &mut impl Write)
//@@ spec
//@   requires columns@.len() < 0x7fff_ffff,
//@   ensures final(w).wv() == emit_upsert::<%S%PlaceholderSource>(old(w).wv(), table@, columns@, *pkcol)
//@@ loop 1
//@   $all == columns@, columns@.len() < 0x7fff_ffff, upsert_acc($acc, $pos),
//@   w.wv() == emit_marks::<%S%PlaceholderSource>(upsert_head(old(w).wv(), table@, columns@), $pos, 1),
//@@ loop 2
//@   $all == columns@, columns@.len() > 1, $acc@ == (if $pos == 0 { ""@ } else { ", "@ }),
//@   w.wv() == excluded(emit_marks::<%S%PlaceholderSource>(upsert_head(old(w).wv(), table@, columns@), columns@.len() as int, 1) + ")"@ + " ON CONFLICT ("@ + ident(pkcol.name@) + ") DO "@ + "UPDATE SET ("@ + cols_text(columns@, columns@.len() as int) + ") = ("@, columns@, $pos),
//@@ end
//@endfor
/// the accumulator of the marker loop: the separator (unnumbered markers) or the next number
pub trait UpsertAcc { spec fn acc_ok(&self, k: int) -> bool; }
impl UpsertAcc for &str { open spec fn acc_ok(&self, k: int) -> bool { self@ == (if k == 0 { ""@ } else { ", "@ }) } }
impl UpsertAcc for i32 { open spec fn acc_ok(&self, k: int) -> bool { *self == k + 1 } }
pub open spec fn upsert_acc(a: impl UpsertAcc, k: int) -> bool { a.acc_ok(k) }
