//@include prelude.rs
broadcast use prelude::valg::vtext;
use core::marker::PhantomData;
//@include sqlval_types.rs
//@include error.rs
//@@ type path=butane_core/src/custom.rs name=SqlValRefCustom subst="postgres::types::Type=>PgType;&'a(dynpostgres::types::ToSql+Sync)=>&'a DynPgToSql"
//@@ type path=butane_core/src/sqlval.rs name=SqlValRef subst="serde_json::Value=>JsonVal"
//@include vals.rs
//@include conv.rs
//@include rows.rs
//@include query_types.rs
//@include clones.rs
//@include mapped.rs
//@include querydef.rs
//@include pktrait.rs
//@include dataobj.rs
// ===== field expressions =====
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct ForeignKey<T> { t: PhantomData<T> }
//@@ type path=butane_core/src/query/fieldexpr.rs name=FieldExpr subst="T:Into<SqlVal>,=>T:Sized,"
pub open spec fn is_val(e: Expr, v: AVal) -> bool { e is Val && vv(e->Val_0) == v }
impl<T> FieldExpr<T> {
  pub closed spec fn col(&self) -> &'static str { self.name }
//@@ fn path=butane_core/src/query/fieldexpr.rs name=new impl="FieldExpr<T>"
//@   ensures r.col() == name
//@@ end
//@@ fn path=butane_core/src/query/fieldexpr.rs name=name impl="FieldExpr<T>"
//@   ensures r == self.col()
//@@ end
//@for F,V in eq:Eq ne:Ne lt:Lt gt:Gt le:Le ge:Ge
//@@ fn path=butane_core/src/query/fieldexpr.rs name=%F% impl="FieldExpr<T>"
//@@ sig
//@ pub fn %F%<U: ToSql>(&self, val: &U) -> (r: BoolExpr)
//@@ spec
//@   requires val.encodable()
//@   ensures r is %V%, r->%V%_0 == self.col(), is_val(r->%V%_1, val.enc())
//@@ end
//@endfor
//@@ fn path=butane_core/src/query/fieldexpr.rs name=like impl="FieldExpr<T>"
//@   requires val.encodable()
//@   ensures r is Like, r->Like_0 == self.col(), is_val(r->Like_1, val.enc())
//@@ end
//@@ fn path=butane_core/src/query/fieldexpr.rs name=is_in impl="FieldExpr<T>" loops=1
//@   requires forall|i: int| 0 <= i < vals@.len() ==> (#[trigger] vals@[i]).encodable()
//@   ensures r is In, r->In_0 == self.col(), r->In_1@.len() == vals@.len(), forall|i: int| 0 <= i < vals@.len() ==> vv(#[trigger] r->In_1@[i]) == vals@[i].enc()
//@@ loop 1
//@   $acc@.len() == $pos, forall|i: int| 0 <= i < $all.len() ==> (#[trigger] $all[i]).encodable(), forall|i: int| 0 <= i < $pos ==> vv(#[trigger] $acc@[i]) == $all[i].enc()
//@@ end
}
impl<F: DataObject> FieldExpr<ForeignKey<F>> {
//@@ fn path=butane_core/src/query/fieldexpr.rs name=subfilter impl="FieldExpr<ForeignKey<F>>"
//@   ensures r is Subquery, r->Subquery_col == self.col(), r->Subquery_tbl2.disp() == F::TABLE@, r->Subquery_tbl2_col == F::PKCOL, *(r->Subquery_expr) == q
//@@ end
//@@ fn path=butane_core/src/query/fieldexpr.rs name=subfilterpk impl="FieldExpr<ForeignKey<F>>"
//@   requires pk.encodable()
//@   ensures r is Subquery, r->Subquery_col == self.col(), r->Subquery_tbl2.disp() == F::TABLE@, r->Subquery_tbl2_col == F::PKCOL, *(r->Subquery_expr) is Eq, (*(r->Subquery_expr))->Eq_0 == F::PKCOL, is_val((*(r->Subquery_expr))->Eq_1, pk.enc())
//@@ end
}
//@@ type path=butane_core/src/query/fieldexpr.rs name=ManyFieldExpr
pub open spec fn owners_of<O: DataObject, T: DataObject>(r: BoolExpr, link: &str) -> bool {
  r is SubqueryJoin && r->SubqueryJoin_col == O::PKCOL && r->SubqueryJoin_tbl2.disp() == T::TABLE@ && qcol(r->col2, link@, "owner"@)
    && r->joins@.len() == 1 && (match r->joins@[0] { Join::Inner { join_table, col1, col2 } => join_table@ == link@ && qcol(col1, link@, "has"@) && qcol(col2, T::TABLE@, T::PKCOL@) })
}
pub open spec fn qcol(c: QColumn, t: Seq<char>, n: Seq<char>) -> bool { c.table is Some && c.table->0.disp() == t && c.name@ == n }
impl QColumn {
//@@ fn path=butane_core/src/query/mod.rs name=new impl=Column
//@@ subst Column => QColumn
//@@ spec
//@   ensures qcol(r, table@, name@)
//@@ end
}
impl<O: DataObject, T: DataObject> ManyFieldExpr<O, T> {
  pub closed spec fn link(&self) -> &'static str { self.many_table }
//@@ fn path=butane_core/src/query/fieldexpr.rs name=new impl="ManyFieldExpr<O, T>"
//@   ensures r.link() == many_table
//@@ end
//@@ fn path=butane_core/src/query/fieldexpr.rs name=contains impl="ManyFieldExpr<O, T>"
//@@ subst Column :: new( => QColumn :: new(
//@@ spec
//@   ensures owners_of::<O, T>(r, self.link()), *(r->SubqueryJoin_expr) == q
//@@ end
//@@ fn path=butane_core/src/query/fieldexpr.rs name=containspk impl="ManyFieldExpr<O, T>"
//@@ subst pk.borrow() => pk
//@@ subst self.vcontains( => self.contains(
//@@ sig
//@ pub fn containspk<R: ToSql>(&self, pk: R) -> (r: BoolExpr)
//@@ spec
//@   requires pk.encodable()
//@   ensures owners_of::<O, T>(r, self.link()), *(r->SubqueryJoin_expr) is Eq, (*(r->SubqueryJoin_expr))->Eq_0 == T::PKCOL, is_val((*(r->SubqueryJoin_expr))->Eq_1, pk.enc())
//@@ end
}
} // verus!
fn main() {}
