// ===== specification: the abstract value both representations stand for =====
pub ghost enum AVal { Null, Bool(bool), Int(int), BigInt(int), Real(f64), Text(Seq<char>), Blob(Seq<u8>), Json(JsonVal), Date(NaiveDate), Timestamp(NaiveDateTime), Custom(PgType, Seq<u8>) }
pub open spec fn cust(c: SqlValCustom) -> AVal { match c { SqlValCustom::Pg { ty, data } => AVal::Custom(ty, data@) } }
pub uninterp spec fn pg_encoded(ty: PgType, t: &DynPgToSql) -> Seq<u8>;
pub open spec fn cust_ref(c: SqlValRefCustom) -> AVal { match c { SqlValRefCustom::PgBytes { ty, data } => AVal::Custom(ty, data@), SqlValRefCustom::PgToSql { ty, tosql } => AVal::Custom(ty, pg_encoded(ty, tosql)) } }
pub open spec fn vv(v: SqlVal) -> AVal { match v {
  SqlVal::Null => AVal::Null, SqlVal::Bool(b) => AVal::Bool(b), SqlVal::Int(i) => AVal::Int(i as int), SqlVal::BigInt(i) => AVal::BigInt(i as int), SqlVal::Real(r) => AVal::Real(r),
  SqlVal::Text(t) => AVal::Text(t@), SqlVal::Blob(b) => AVal::Blob(b@), SqlVal::Json(j) => AVal::Json(j), SqlVal::Date(d) => AVal::Date(d), SqlVal::Timestamp(d) => AVal::Timestamp(d), SqlVal::Custom(c) => cust(*c),
} }
pub open spec fn vr(v: SqlValRef) -> AVal { match v {
  SqlValRef::Null => AVal::Null, SqlValRef::Bool(b) => AVal::Bool(b), SqlValRef::Int(i) => AVal::Int(i as int), SqlValRef::BigInt(i) => AVal::BigInt(i as int), SqlValRef::Real(r) => AVal::Real(r),
  SqlValRef::Text(t) => AVal::Text(t@), SqlValRef::Blob(b) => AVal::Blob(b@), SqlValRef::Json(j) => AVal::Json(j), SqlValRef::Date(d) => AVal::Date(d), SqlValRef::Timestamp(d) => AVal::Timestamp(d), SqlValRef::Custom(c) => cust_ref(c),
} }
/// the column type of a value
pub open spec fn aty(v: AVal) -> Option<SqlType> { match v {
  AVal::Null => None, AVal::Bool(_) => Some(SqlType::Bool), AVal::Int(_) => Some(SqlType::Int), AVal::BigInt(_) => Some(SqlType::BigInt), AVal::Real(_) => Some(SqlType::Real), AVal::Text(_) => Some(SqlType::Text),
  AVal::Blob(_) => Some(SqlType::Blob), AVal::Json(_) => Some(SqlType::Json), AVal::Date(_) => Some(SqlType::Date), AVal::Timestamp(_) => Some(SqlType::Timestamp), AVal::Custom(ty, _) => Some(SqlType::Custom(SqlTypeCustom::Pg(ty))),
} }
impl JsonVal { pub fn vto_owned(&self) -> (r: JsonVal) ensures r == *self { self.clone() } }
// `x.into()`
impl VInto<SqlVal> for SqlVal { open spec fn vinto_spec(self, r: SqlVal) -> bool { r == self } fn vinto(self) -> (r: SqlVal) { self } }
impl<'a> VInto<SqlVal> for SqlValRef<'a> { open spec fn vinto_spec(self, r: SqlVal) -> bool { vv(r) == vr(self) } fn vinto(self) -> (r: SqlVal) { owned_from_ref(self) } }
impl<'a> VInto<SqlValCustom> for SqlValRefCustom<'a> { open spec fn vinto_spec(self, r: SqlValCustom) -> bool { cust(r) == cust_ref(self) } fn vinto(self) -> (r: SqlValCustom) { custom_from_ref(self) } }
impl<'a> VInto<Vec<u8>> for &'a [u8] { open spec fn vinto_spec(self, r: Vec<u8>) -> bool { r@ == self@ } #[verifier::external_body] fn vinto(self) -> (r: Vec<u8>) { unimplemented!() } }
pub assume_specification<T, A: core::alloc::Allocator> [<Vec<T, A> as core::convert::AsRef<[T]>>::as_ref] (s: &Vec<T, A>) -> (r: &[T]) ensures r@ == s@;
pub assume_specification<T: ?Sized, A: core::alloc::Allocator> [<Box<T, A> as core::convert::AsRef<T>>::as_ref] (s: &Box<T, A>) -> (r: &T) ensures r == &**s;
pub assume_specification [<String as core::convert::AsRef<str>>::as_ref] (s: &String) -> (r: &str) ensures r@ == s@;
#[derive(Debug)] pub struct PgErr { x: u8 }
pub enum IsNull { Yes, No }
#[verifier::external_body] pub struct BytesMut { x: u8 }
impl BytesMut {
  pub uninterp spec fn view(&self) -> Seq<u8>;
  #[verifier::external_body] pub fn new() -> (r: BytesMut) ensures r@.len() == 0 { unimplemented!() }
  #[verifier::external_body] pub fn vto_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
}
impl DynPgToSql { /* assumed not to fail: the real code panics there (TODO in the source) */
  #[verifier::external_body] pub fn to_sql_checked(&self, ty: &PgType, b: &mut BytesMut) -> (r: core::result::Result<IsNull, PgErr>) ensures r is Ok, r->Ok_0 is No, final(b)@ == old(b)@ + pg_encoded(*ty, self) { unimplemented!() }
}
//@@ fn path=butane_core/src/custom.rs name=from impl="From<SqlValRefCustom<'_>> for SqlValCustom" as=custom_from_ref
//@@ sig
//@ pub fn custom_from_ref(r: SqlValRefCustom<'_>) -> (o: SqlValCustom)
//@@ spec
//@   ensures cust(o) == cust_ref(r)
//@@ end
impl SqlValCustom {
//@@ fn path=butane_core/src/custom.rs name=as_valref impl=SqlValCustom
//@ ensures cust_ref(r) == cust(*self)
//@@ end
}
//@@ fn path=butane_core/src/sqlval.rs name=from impl="From<SqlValRef<'_>> for SqlVal" as=owned_from_ref
//@@ sig
//@ pub fn owned_from_ref(valref: SqlValRef<'_>) -> (o: SqlVal)
//@@ spec
//@   ensures vv(o) == vr(valref)
//@@ end
//@@ fn path=butane_core/src/sqlval.rs name=from impl="From<&'a SqlVal> for SqlValRef<'a>" as=ref_from_owned
//@@ sig
//@ pub fn ref_from_owned<'a>(val: &'a SqlVal) -> (o: SqlValRef<'a>)
//@@ spec
//@   ensures vr(o) == vv(*val)
//@@ end
impl<'a> SqlValRef<'a> {
  pub fn from(v: &'a SqlVal) -> (r: SqlValRef<'a>) ensures vr(r) == vv(*v) { ref_from_owned(v) }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for SqlType { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
/// derived equality of column types is equality
impl PartialEq for SqlType { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<'a> SqlValRef<'a> {
//@@ fn path=butane_core/src/sqlval.rs name=sqltype impl="SqlValRef<'_>"
//@   ensures r == aty(vr(*self))
//@@ end
}
impl SqlVal {
//@@ fn path=butane_core/src/sqlval.rs name=as_ref impl=SqlVal
//@   ensures vr(r) == vv(*self)
//@@ end
//@@ fn path=butane_core/src/sqlval.rs name=sqltype impl=SqlVal
//@   ensures r == aty(vv(*self))
//@@ end
//@@ fn path=butane_core/src/sqlval.rs name=is_compatible impl=SqlVal
//@   ensures r == (match aty(vv(*self)) { None => null_allowed, Some(x) => *t == x })
//@@ end
}
#[verifier::external_body] pub fn vec_from(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@ { unimplemented!() }
