//@define SAVES
//@include prelude.rs
broadcast use prelude::valg::vtext;
use core::marker::PhantomData;
//@include sqlval_types.rs
//@include error.rs
//@@ type path=butane_core/src/custom.rs name=SqlValRefCustom subst="postgres::types::Type=>PgType;&'a(dynpostgres::types::ToSql+Sync)=>&'a DynPgToSql"
//@@ type path=butane_core/src/sqlval.rs name=SqlValRef subst="serde_json::Value=>JsonVal"
//@include vals.rs
//@include conv.rs
//@include rows.rs
//@include query_types.rs
//@include clones.rs
//@include mapped.rs
//@include querydef.rs
//@include pktrait.rs
//@include dataobj.rs


impl<T> VIt<T> {
  #[verifier::external_body] pub fn nth(self, n: usize) -> (r: Option<T>) requires self.pos() == 0 ensures (r is Some) == (n < self.all().len()), r is Some ==> r->0 == self.all()[n as int] { unimplemented!() }
}
/// the row statement saving `o` takes (none when there is nothing to write)
pub open spec fn row_statement<T: DataObject>(o: &T, c: Call) -> bool {
  if T::AUTO_PK && !o.key().valid() {
    c is InsertPk && c->InsertPk_table == T::TABLE@ && pkcol::<T>(c->InsertPk_pkcol)
      && (if T::COLUMNS@.len() == 1 { c->InsertPk_cols.len() == 0 && c->InsertPk_vals.len() == 0 } else { c->InsertPk_cols == T::NON_AUTO_COLUMNS@ && c->InsertPk_vals == o.row(true) })
  } else if T::AUTO_PK {
    c is Update && c->Update_table == T::TABLE@ && pkcol::<T>(c->Update_pkcol) && c->pk == o.key().enc() && c->Update_cols == T::NON_AUTO_COLUMNS@ && c->Update_vals == o.row(false)
  } else {
    c is Upsert && c->Upsert_table == T::TABLE@ && pkcol::<T>(c->Upsert_pkcol) && c->Upsert_cols == T::COLUMNS@ && c->Upsert_vals == o.row(true)
  }
}
pub open spec fn pkcol<T: DataObject>(c: Column) -> bool { c.name == T::PKCOL && c.ty == <T::PKType as FieldType>::SQLTYPE }
pub open spec fn relations<T: DataObject>(o: &T, ok: bool) -> (Call, bool) { (Call::Relations { table: T::TABLE@, key: o.key().enc() }, ok) }
/// `o` became `f` and the statements `s` were issued
pub open spec fn saved<T: DataObject>(o: &T, f: &T, s: Seq<(Call, bool)>, ok: bool) -> bool {
  if T::AUTO_PK && T::COLUMNS@.len() == 1 && o.key().valid() { s =~= seq![relations(o, ok)] && f.key() == o.key() }
  else {
    s.len() > 0 && row_statement(o, s[0].0)
      && (if !s[0].1 || (T::AUTO_PK && !o.key().valid() && !(s[0].0->got is Some && T::PKType::can_dec(s[0].0->got->0))) { !ok && s.len() == 1 && *f == *o }
        else { s.len() == 2 && s[1] == relations(f, ok) && (if T::AUTO_PK && !o.key().valid() { f.key().is_dec(s[0].0->got->0) && f.key().valid() } else { f.key() == o.key() }) })
  }
}
pub open spec fn since(a: Seq<(Call, bool)>, b: Seq<(Call, bool)>) -> Seq<(Call, bool)> { b.skip(a.len() as int) }
pub open spec fn by_key<T: DataObject>(e: BoolExpr, k: AVal) -> bool { match e { BoolExpr::Eq(c, Expr::Val(v)) => c == T::PKCOL && vv(v) == k, _ => false } }
pub open spec fn found<T: DataObject, C: ConnectionMethods>(conn: &C, k: AVal, r: Option<T>) -> bool {
  exists|s: Sel| asks_one::<T>(s, k) && (#[trigger] conn.answer(s)) is Some && (r is Some) == (conn.answer(s)->0.len() > 0) && (r is Some ==> T::reads(conn.answer(s)->0[0], Ok(r->0)))
}
pub open spec fn asks_one<T: DataObject>(s: Sel, k: AVal) -> bool { s.table == T::TABLE@ && s.cols == T::COLUMNS@ && s.filter is Some && by_key::<T>(s.filter->0, k) && s.limit == Some(1i32) && s.offset is None && s.sort.len() == 0 }
pub broadcast proof fn read_valid<K: PrimaryKeyType>(k: K, v: AVal) requires K::can_dec(v), #[trigger] k.is_dec(v) ensures k.valid() { k.decoded_valid(v); }
pub trait DataObjectOps: DataObject {
//@@ fn path=butane_core/src/lib.rs name=get impl="trait DataObjectOps"
//@@ sig
//@ fn get<C: ConnectionMethods, I: ToSql>(conn: &C, id: I) -> (r: Result<Self>)
//@@ spec
//@   requires id.encodable()
//@   ensures r is Ok ==> found(conn, id.enc(), Some(r->Ok_0))
//@@ end
//@@ fn path=butane_core/src/lib.rs name=try_get impl="trait DataObjectOps"
//@@ subst T => Self
//@@ subst id.borrow() => id
//@@ entry
//@   proof { Self::tables_agree(); }
//@@ sig
//@ fn try_get<C: ConnectionMethods, I: ToSql>(conn: &C, id: I) -> (r: Result<Option<Self>>)
//@@ spec
//@   requires id.encodable()
//@   ensures r is Ok ==> found(conn, id.enc(), r->Ok_0)
//@@ end
//@@ fn path=butane_core/src/lib.rs name=save impl="trait DataObjectOps"
//@@ subst T => Self
//@@ sig
//@ fn save<C: ConnectionMethods>(&mut self, conn: &mut C) -> (r: Result<()>)
//@@ entry
//@   broadcast use read_valid;
//@   proof { if self.key().valid() { self.key().valid_encodable(); } }
//@@ spec
//@   ensures old(conn).calls().is_prefix_of(final(conn).calls()), saved(old(self), final(self), since(old(conn).calls(), final(conn).calls()), r is Ok), old(self).key().valid() ==> final(self).key() == old(self).key()
//@@ end
//@@ fn path=butane_core/src/lib.rs name=delete impl="trait DataObjectOps"
//@@ subst T => Self
//@@ sig
//@ fn delete<C: ConnectionMethods>(&self, conn: &mut C) -> (r: Result<()>)
//@@ spec
//@   requires self.key().encodable()
//@   ensures ({ let s = since(old(conn).calls(), final(conn).calls()); old(conn).calls().is_prefix_of(final(conn).calls()) && s.len() == 1 && s[0].1 == (r is Ok) && s[0].0 is DeleteWhere && s[0].0->DeleteWhere_table == Self::TABLE@ && by_key::<Self>(s[0].0->expr, self.key().enc()) })
//@@ end
}
} // verus!
fn main() {}
