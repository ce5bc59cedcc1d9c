//@include prelude.rs
broadcast use prelude::valg::vtext;
//@include sqlval_types.rs
//@include error.rs
//@@ type path=butane_core/src/custom.rs name=SqlValRefCustom subst="postgres::types::Type=>PgType;&'a(dynpostgres::types::ToSql+Sync)=>&'a DynPgToSql"
//@@ type path=butane_core/src/sqlval.rs name=SqlValRef subst="serde_json::Value=>JsonVal"
//@include vals.rs
// ===== the machine model: postgres-types' encoders and decoders of single values =====
pub type Type = PgType;
use PgV as FromSql;
impl vstd::std_specs::cmp::PartialEqSpecImpl for PgType { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl PartialEq for PgType { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
/// the bytes of a value sent as a parameter of a type; None: the type does not take it
pub uninterp spec fn pg_wire(ty: PgType, v: AVal) -> Option<Seq<u8>>;
/// the value bytes of a type denote; None: they denote none
pub uninterp spec fn pg_read(ty: PgType, raw: Seq<u8>) -> Option<AVal>;
/// the type a value has by itself
pub open spec fn pg_of(v: AVal) -> Option<PgType> { match v {
  AVal::Null => None, AVal::Bool(_) => Some(PgType::BOOL), AVal::Int(_) => Some(PgType::INT4), AVal::BigInt(_) => Some(PgType::INT8), AVal::Real(_) => Some(PgType::FLOAT8), AVal::Text(_) => Some(PgType::TEXT),
  AVal::Blob(_) => Some(PgType::BYTEA), AVal::Json(_) => Some(PgType::JSONB), AVal::Date(_) => Some(PgType::DATE), AVal::Timestamp(_) => Some(PgType::TIMESTAMP), AVal::Custom(ty, _) => Some(ty),
} }
pub open spec fn native(ty: PgType) -> bool { !(ty is JSON || ty is UNKNOWN || ty is Other) }
/// PostgreSQL keeps microseconds
pub uninterp spec fn whole_micros(d: NaiveDateTime) -> bool;
/// decoding inverts encoding
pub axiom fn ax_pg_inverse(v: AVal)
  ensures !(v is Null) && (v is Timestamp ==> whole_micros(v->Timestamp_0)) && !(v is Custom) && pg_wire(pg_of(v)->0, v) is Some ==> pg_read(pg_of(v)->0, pg_wire(pg_of(v)->0, v)->0) == Some(v);
pub type PgResult<T> = core::result::Result<T, PgErr>;
/// a value as what it stands for
pub trait PgV: Sized { spec fn av(&self) -> AVal; spec fn pgt() -> PgType;
  fn to_sql_checked(&self, ty: &PgType, out: &mut BytesMut) -> (r: PgResult<IsNull>)
    ensures r is Ok == pg_wire(*ty, self.av()) is Some, r is Ok ==> r->Ok_0 is No && final(out)@ == old(out)@ + pg_wire(*ty, self.av())->0;
  fn from_sql(ty: &PgType, raw: &[u8]) -> (r: PgResult<Self>)
    ensures r is Ok ==> pg_read(*ty, raw@) == Some(r->Ok_0.av()), pg_read(*ty, raw@) is Some && *ty == Self::pgt() ==> r is Ok;
}
impl PgV for bool { open spec fn av(&self) -> AVal { AVal::Bool(*self) } open spec fn pgt() -> PgType { PgType::BOOL }
  #[verifier::external_body] fn to_sql_checked(&self, ty: &PgType, out: &mut BytesMut) -> (r: PgResult<IsNull>) { unimplemented!() }
  #[verifier::external_body] fn from_sql(ty: &PgType, raw: &[u8]) -> (r: PgResult<Self>) { unimplemented!() } }
impl PgV for i32 { open spec fn av(&self) -> AVal { AVal::Int(*self as int) } open spec fn pgt() -> PgType { PgType::INT4 }
  #[verifier::external_body] fn to_sql_checked(&self, ty: &PgType, out: &mut BytesMut) -> (r: PgResult<IsNull>) { unimplemented!() }
  #[verifier::external_body] fn from_sql(ty: &PgType, raw: &[u8]) -> (r: PgResult<Self>) { unimplemented!() } }
impl PgV for i64 { open spec fn av(&self) -> AVal { AVal::BigInt(*self as int) } open spec fn pgt() -> PgType { PgType::INT8 }
  #[verifier::external_body] fn to_sql_checked(&self, ty: &PgType, out: &mut BytesMut) -> (r: PgResult<IsNull>) { unimplemented!() }
  #[verifier::external_body] fn from_sql(ty: &PgType, raw: &[u8]) -> (r: PgResult<Self>) { unimplemented!() } }
impl PgV for f64 { open spec fn av(&self) -> AVal { AVal::Real(*self) } open spec fn pgt() -> PgType { PgType::FLOAT8 }
  #[verifier::external_body] fn to_sql_checked(&self, ty: &PgType, out: &mut BytesMut) -> (r: PgResult<IsNull>) { unimplemented!() }
  #[verifier::external_body] fn from_sql(ty: &PgType, raw: &[u8]) -> (r: PgResult<Self>) { unimplemented!() } }
impl PgV for JsonVal { open spec fn av(&self) -> AVal { AVal::Json(*self) } open spec fn pgt() -> PgType { PgType::JSONB }
  #[verifier::external_body] fn to_sql_checked(&self, ty: &PgType, out: &mut BytesMut) -> (r: PgResult<IsNull>) { unimplemented!() }
  #[verifier::external_body] fn from_sql(ty: &PgType, raw: &[u8]) -> (r: PgResult<Self>) { unimplemented!() } }
impl PgV for NaiveDate { open spec fn av(&self) -> AVal { AVal::Date(*self) } open spec fn pgt() -> PgType { PgType::DATE }
  #[verifier::external_body] fn to_sql_checked(&self, ty: &PgType, out: &mut BytesMut) -> (r: PgResult<IsNull>) { unimplemented!() }
  #[verifier::external_body] fn from_sql(ty: &PgType, raw: &[u8]) -> (r: PgResult<Self>) { unimplemented!() } }
impl PgV for NaiveDateTime { open spec fn av(&self) -> AVal { AVal::Timestamp(*self) } open spec fn pgt() -> PgType { PgType::TIMESTAMP }
  #[verifier::external_body] fn to_sql_checked(&self, ty: &PgType, out: &mut BytesMut) -> (r: PgResult<IsNull>) { unimplemented!() }
  #[verifier::external_body] fn from_sql(ty: &PgType, raw: &[u8]) -> (r: PgResult<Self>) { unimplemented!() } }
impl<'a> PgV for &'a str { open spec fn av(&self) -> AVal { AVal::Text(self@) } open spec fn pgt() -> PgType { PgType::TEXT }
  #[verifier::external_body] fn to_sql_checked(&self, ty: &PgType, out: &mut BytesMut) -> (r: PgResult<IsNull>) { unimplemented!() }
  #[verifier::external_body] fn from_sql(ty: &PgType, raw: &[u8]) -> (r: PgResult<Self>) { unimplemented!() } }
impl<'a> PgV for &'a [u8] { open spec fn av(&self) -> AVal { AVal::Blob(self@) } open spec fn pgt() -> PgType { PgType::BYTEA }
  #[verifier::external_body] fn to_sql_checked(&self, ty: &PgType, out: &mut BytesMut) -> (r: PgResult<IsNull>) { unimplemented!() }
  #[verifier::external_body] fn from_sql(ty: &PgType, raw: &[u8]) -> (r: PgResult<Self>) { unimplemented!() } }
impl BytesMut { #[verifier::external_body] pub fn put(&mut self, d: &[u8]) ensures final(self)@ == old(self)@ + d@ { unimplemented!() } }
#[verifier::external_body] pub fn vboxerr(e: Error) -> (r: PgErr) { unimplemented!() }
pub uninterp spec fn pg_name(t: PgType) -> Seq<char>;
impl VDisp for PgType { open spec fn disp(&self) -> Seq<char> { pg_name(*self) } }
pub uninterp spec fn val_text(v: SqlVal) -> Seq<char>; pub uninterp spec fn ty_text(v: SqlType) -> Seq<char>;
impl VDisp for SqlVal { open spec fn disp(&self) -> Seq<char> { val_text(*self) } }
impl VDisp for SqlType { open spec fn disp(&self) -> Seq<char> { ty_text(*self) } }
// ===== what is sent for a value, and what received bytes denote =====
/// None: the value cannot be sent as the type; Some(None): a null; Some(Some(b)): the bytes
pub open spec fn sent(v: AVal, ty: PgType) -> Option<Option<Seq<u8>>> { match v {
  AVal::Null => Some(None),
  AVal::Custom(t, d) => if t == ty { Some(Some(d)) } else { None },
  _ => match pg_wire(ty, v) { Some(b) => Some(Some(b)), None => None },
} }
pub open spec fn denotes(ty: PgType, raw: Seq<u8>) -> Option<AVal> { if native(ty) { pg_read(ty, raw) } else { Some(AVal::Custom(ty, raw)) } }
pub open spec fn told(r: PgResult<IsNull>, a: Seq<u8>, b: Seq<u8>, v: AVal, ty: PgType) -> bool {
  r is Ok == sent(v, ty) is Some && (r is Ok ==> match sent(v, ty)->0 { None => r->Ok_0 is Yes && b == a, Some(x) => r->Ok_0 is No && b == a + x })
}
//@@ fn path=butane_core/src/db/pg.rs name=check_type_match
//@@ subst Box::new => vboxerr
//@@ sig
//@ pub fn check_type_match(ty1: &PgType, ty2: &PgType) -> (r: PgResult<()>)
//@@ spec
//@   ensures r is Ok == (*ty1 == *ty2)
//@@ end
impl SqlValRef<'_> {
//@@ fn path=butane_core/src/db/pg.rs name=to_sql impl="postgres::types::ToSql for SqlValRef<'_>"
//@@ sig
//@ pub fn to_sql(&self, requested_ty: &PgType, out: &mut BytesMut) -> (r: PgResult<IsNull>)
//@@ spec
//@   ensures told(r, old(out)@, final(out)@, vr(*self), *requested_ty)
//@@ end
}
impl SqlVal {
//@@ fn path=butane_core/src/db/pg.rs name=to_sql impl="postgres::types::ToSql for SqlVal"
//@@ sig
//@ pub fn to_sql(&self, ty: &PgType, out: &mut BytesMut) -> (r: PgResult<IsNull>)
//@@ spec
//@   ensures told(r, old(out)@, final(out)@, vv(*self), *ty)
//@@ end
}
//@@ fn path=butane_core/src/db/pg.rs name=from_sql impl="postgres::types::FromSql<'a> for SqlValRef<'a>" as=ref_from_pg
//@@ sig
//@ pub fn ref_from_pg<'a>(ty: &PgType, raw: &'a [u8]) -> (r: PgResult<SqlValRef<'a>>)
//@@ spec
//@   ensures r is Ok == denotes(*ty, raw@) is Some, r is Ok ==> Some(vr(r->Ok_0)) == denotes(*ty, raw@)
//@@ end
//@@ fn path=butane_core/src/db/pg.rs name=from_sql_null impl="postgres::types::FromSql<'a> for SqlValRef<'a>" as=ref_from_pg_null
//@@ sig
//@ pub fn ref_from_pg_null<'a>(_ty: &PgType) -> (r: PgResult<SqlValRef<'a>>)
//@@ spec
//@   ensures r is Ok, vr(r->Ok_0) is Null
//@@ end
//@@ fn path=butane_core/src/db/pg.rs name=accepts impl="postgres::types::ToSql for SqlValRef<'_>" as=ref_accepts
//@ ensures r
//@@ end
//@@ fn path=butane_core/src/db/pg.rs name=accepts impl="postgres::types::FromSql<'a> for SqlValRef<'a>" as=ref_from_accepts
//@ ensures r
//@@ end
impl SqlValCustom {
//@@ fn path=butane_core/src/custom.rs name=to_sql impl="postgres::types::ToSql for SqlValCustom"
//@@ subst Box::new => vboxerr
//@@ sig
//@ pub fn to_sql(&self, wanted_ty: &PgType, out: &mut BytesMut) -> (r: PgResult<IsNull>)
//@@ spec
//@   ensures told(r, old(out)@, final(out)@, cust(*self), *wanted_ty)
//@@ end
}
//@@ fn path=butane_core/src/db/pg.rs name=pgtype_for_val
//@@ spec
//@   ensures !(vv(*val) is Json) ==> r == (match pg_of(vv(*val)) { None => PgType::UNKNOWN, Some(t) => t }), vv(*val) is Json ==> r is JSON || r is JSONB
//@@ end
// ===== one cell of a row =====
#[verifier::external_body] pub struct PgRow { x: u8 }
impl PgRow {
  pub uninterp spec fn width(&self) -> nat;
  pub uninterp spec fn ty(&self, i: int) -> PgType;
  /// None: a null
  pub uninterp spec fn raw(&self, i: int) -> Option<Seq<u8>>;
  pub open spec fn cell(&self, i: int) -> Option<AVal> { if 0 <= i < self.width() { match self.raw(i) { None => Some(AVal::Null), Some(b) => denotes(self.ty(i), b) } } else { None } }
  /// tokio-postgres: the column's bytes through from_sql, a null through from_sql_null (both above), an error past the end
  #[verifier::external_body] pub fn try_get<'a>(&'a self, i: usize) -> (r: Result<SqlValRef<'a>>) ensures r is Ok == self.cell(i as int) is Some, r is Ok ==> Some(vr(r->Ok_0)) == self.cell(i as int) { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.width() { unimplemented!() }
}
pub type Row = PgRow;
//@@ type path=butane_core/src/db/connmethods.rs name=Column
impl Column {
//@@ fn path=butane_core/src/db/connmethods.rs name=name impl="Column"
//@ ensures r@ == self.name@
//@@ end
//@@ fn path=butane_core/src/db/connmethods.rs name=ty impl="Column"
//@ ensures *r == self.ty
//@@ end
}
//@@ fn path=butane_core/src/db/pg.rs name=sql_val_from_postgres
//@@ sig
//@ pub fn sql_val_from_postgres(row: &PgRow, idx: usize, col: &Column) -> (r: Result<SqlVal>)
//@@ spec
//@   ensures r is Ok == (row.cell(idx as int) is Some && (row.cell(idx as int)->0 is Null || aty(row.cell(idx as int)->0) == Some(col.ty))), r is Ok ==> Some(vv(r->Ok_0)) == row.cell(idx as int)
//@@ end
impl PgRow {
//@@ fn path=butane_core/src/db/pg.rs name=get impl="BackendRow for postgres::Row"
//@ ensures r is Ok == self.cell(idx as int) is Some, r is Ok ==> Some(vr(r->Ok_0)) == self.cell(idx as int)
//@@ end
}
/// a value sent as its own type is read back as that value
pub proof fn lemma_round_trip(v: AVal, raw: Seq<u8>)
  requires pg_of(v) is Some, sent(v, pg_of(v)->0) == Some(Some(raw)), v is Custom ==> !native(pg_of(v)->0), v is Timestamp ==> whole_micros(v->Timestamp_0),
  ensures denotes(pg_of(v)->0, raw) == Some(v)
{ ax_pg_inverse(v); }
} // verus!
fn main() {}
