// ===== what SQLite and Turso keep in a cell (external: rusqlite, turso, chrono, serde_json) =====
pub ghost enum SVal { Null, Int(int), Real(f64), Text(Seq<u8>), Blob(Seq<u8>) }
pub trait VBytes { spec fn vb(&self) -> Seq<u8>; fn vas_bytes(&self) -> (r: &[u8]) ensures r@ == self.vb(); }
impl VBytes for str { open spec fn vb(&self) -> Seq<u8> { utf8(self@) } #[verifier::external_body] fn vas_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
pub trait VToVec { spec fn vtv(&self) -> Seq<u8>; fn vto_vec(&self) -> (r: Vec<u8>) ensures r@ == self.vtv(); }
impl VToVec for [u8] { open spec fn vtv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vto_vec(&self) -> (r: Vec<u8>) { unimplemented!() } }
impl VToVec for Vec<u8> { open spec fn vtv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vto_vec(&self) -> (r: Vec<u8>) { unimplemented!() } }
// rusqlite's value types
pub enum Value { Null, Integer(i64), Real(f64), Text(String), Blob(Vec<u8>) }
#[derive(Clone, Copy)]
pub enum ValueRef<'a> { Null, Integer(i64), Real(f64), Text(&'a [u8]), Blob(&'a [u8]) }
pub enum ToSqlOutput<'a> { Borrowed(ValueRef<'a>), Owned(Value) }
impl<'a> ToSqlOutput<'a> { pub fn from(s: String) -> (r: ToSqlOutput<'a>) ensures r == ToSqlOutput::<'a>::Owned(Value::Text(s)) { ToSqlOutput::Owned(Value::Text(s)) } }
pub open spec fn s_owned(v: Value) -> SVal { match v { Value::Null => SVal::Null, Value::Integer(i) => SVal::Int(i as int), Value::Real(r) => SVal::Real(r), Value::Text(t) => SVal::Text(utf8(t@)), Value::Blob(b) => SVal::Blob(b@) } }
pub open spec fn s_ref(v: ValueRef) -> SVal { match v { ValueRef::Null => SVal::Null, ValueRef::Integer(i) => SVal::Int(i as int), ValueRef::Real(r) => SVal::Real(r), ValueRef::Text(t) => SVal::Text(t@), ValueRef::Blob(b) => SVal::Blob(b@) } }
pub open spec fn s_out(v: ToSqlOutput) -> SVal { match v { ToSqlOutput::Borrowed(r) => s_ref(r), ToSqlOutput::Owned(o) => s_owned(o) } }
impl<'a> ValueRef<'a> {
  #[verifier::external_body] pub fn as_i64(&self) -> (r: core::result::Result<i64, EOpaque>) ensures (r is Ok) == (s_ref(*self) is Int), r is Ok ==> s_ref(*self) == SVal::Int(r->Ok_0 as int) { unimplemented!() }
  #[verifier::external_body] pub fn as_f64(&self) -> (r: core::result::Result<f64, EOpaque>) ensures (r is Ok) == (s_ref(*self) is Real), r is Ok ==> s_ref(*self) == SVal::Real(r->Ok_0) { unimplemented!() }
  #[verifier::external_body] pub fn as_str(&self) -> (r: core::result::Result<&'a str, EOpaque>) ensures (r is Ok) == (s_text(s_ref(*self)) is Some), r is Ok ==> s_text(s_ref(*self)) == Some(r->Ok_0@) { unimplemented!() }
  #[verifier::external_body] pub fn as_blob(&self) -> (r: core::result::Result<&'a [u8], EOpaque>) ensures (r is Ok) == (s_ref(*self) is Blob), r is Ok ==> s_ref(*self) == SVal::Blob(r->Ok_0@) { unimplemented!() }
}
/// the text a cell holds, if it holds text
pub open spec fn s_text(s: SVal) -> Option<Seq<char>> { match s { SVal::Text(b) => utf8_dec(b), _ => None } }
// turso's value type
#[derive(Debug)]
pub enum TValue { Null, Integer(i64), Real(f64), Text(String), Blob(Vec<u8>) }
pub open spec fn s_tu(v: TValue) -> SVal { match v { TValue::Null => SVal::Null, TValue::Integer(i) => SVal::Int(i as int), TValue::Real(r) => SVal::Real(r), TValue::Text(t) => SVal::Text(utf8(t@)), TValue::Blob(b) => SVal::Blob(b@) } }
impl VDisp for TValue { uninterp spec fn disp(&self) -> Seq<char>; }
// dates and JSON as text: parsing inverts formatting for the exact formats named here
pub uninterp spec fn date_text(d: NaiveDate, f: Seq<char>) -> Seq<char>;
pub uninterp spec fn date_parse(s: Seq<char>, f: Seq<char>) -> Option<NaiveDate>;
pub uninterp spec fn ts_text(d: NaiveDateTime, f: Seq<char>) -> Seq<char>;
pub uninterp spec fn ts_parse(s: Seq<char>, f: Seq<char>) -> Option<NaiveDateTime>;
pub uninterp spec fn json_text(j: JsonVal) -> Seq<char>;
pub uninterp spec fn json_parse(s: Seq<char>) -> Option<JsonVal>;
pub axiom fn axiom_date(d: NaiveDate) ensures date_parse(date_text(d, "%Y-%m-%d"@), "%Y-%m-%d"@) == Some(d);
pub axiom fn axiom_ts(d: NaiveDateTime) ensures ts_parse(ts_text(d, "%Y-%m-%d %H:%M:%S%.f"@), "%Y-%m-%d %H:%M:%S%.f"@) == Some(d);
/// serde_json reads its own text of the value back exactly (not so for some floating-point numbers: known finding)
pub uninterp spec fn json_exact(j: JsonVal) -> bool;
pub axiom fn axiom_json(j: JsonVal) requires json_exact(j) ensures json_parse(json_text(j)) == Some(j);
#[verifier::external_body] pub struct DelayedFormat { x: u8 }
impl VDisp for DelayedFormat { uninterp spec fn disp(&self) -> Seq<char>; }
impl NaiveDate {
  #[verifier::external_body] pub fn vformat(&self, f: &str) -> (r: DelayedFormat) ensures r.disp() == date_text(*self, f@) { unimplemented!() }
  #[verifier::external_body] pub fn parse_from_str(s: &str, f: &str) -> (r: core::result::Result<NaiveDate, EOpaque>) ensures (r is Ok) == (date_parse(s@, f@) is Some), r is Ok ==> date_parse(s@, f@) == Some(r->Ok_0) { unimplemented!() }
}
impl NaiveDateTime {
  #[verifier::external_body] pub fn vformat(&self, f: &str) -> (r: DelayedFormat) ensures r.disp() == ts_text(*self, f@) { unimplemented!() }
  #[verifier::external_body] pub fn parse_from_str(s: &str, f: &str) -> (r: core::result::Result<NaiveDateTime, EOpaque>) ensures (r is Ok) == (ts_parse(s@, f@) is Some), r is Ok ==> ts_parse(s@, f@) == Some(r->Ok_0) { unimplemented!() }
}
#[verifier::external_body] pub fn to_string(v: &JsonVal) -> (r: core::result::Result<String, EOpaque>) ensures r is Ok, r->Ok_0@ == json_text(*v) { unimplemented!() }
#[verifier::external_body] pub fn from_str(s: &str) -> (r: core::result::Result<JsonVal, EOpaque>) ensures (r is Ok) == (json_parse(s@) is Some), r is Ok ==> json_parse(s@) == Some(r->Ok_0) { unimplemented!() }
impl core::convert::From<EOpaque> for Error { #[verifier::external_body] fn from(e: EOpaque) -> (r: Error) { unimplemented!() } }
// ===== specification: the cell a value is kept in, and what a cell means in a column of a type =====
pub open spec fn stored(v: AVal) -> SVal { match v {
  AVal::Null => SVal::Null, AVal::Bool(b) => SVal::Int(if b { 1 } else { 0 }), AVal::Int(i) => SVal::Int(i), AVal::BigInt(i) => SVal::Int(i), AVal::Real(r) => SVal::Real(r), AVal::Text(t) => SVal::Text(utf8(t)), AVal::Blob(b) => SVal::Blob(b),
  AVal::Json(j) => SVal::Text(utf8(json_text(j))), AVal::Date(d) => SVal::Text(utf8(date_text(d, "%Y-%m-%d"@))), AVal::Timestamp(d) => SVal::Text(utf8(ts_text(d, "%Y-%m-%d %H:%M:%S%.f"@))), AVal::Custom(_, _) => arbitrary(),
} }
pub open spec fn meaning(s: SVal, ty: SqlType) -> Option<AVal> {
  if s is Null { Some(AVal::Null) } else { match ty {
    SqlType::Bool => match s { SVal::Int(i) => Some(AVal::Bool(i != 0)), _ => None },
    SqlType::Int => match s { SVal::Int(i) => if i32::MIN <= i <= i32::MAX { Some(AVal::Int(i)) } else { None }, _ => None },
    SqlType::BigInt => match s { SVal::Int(i) => Some(AVal::BigInt(i)), _ => None },
    SqlType::Real => match s { SVal::Real(r) => Some(AVal::Real(r)), _ => None },
    SqlType::Text => match s_text(s) { Some(t) => Some(AVal::Text(t)), None => None },
    SqlType::Blob => match s { SVal::Blob(b) => Some(AVal::Blob(b)), _ => None },
    SqlType::Json => match s_text(s) { Some(t) => match json_parse(t) { Some(j) => Some(AVal::Json(j)), None => None }, None => None },
    SqlType::Date => match s_text(s) { Some(t) => match date_parse(t, "%Y-%m-%d"@) { Some(d) => Some(AVal::Date(d)), None => None }, None => None },
    SqlType::Timestamp => match s_text(s) { Some(t) => match ts_parse(t, "%Y-%m-%d %H:%M:%S%.f"@) { Some(d) => Some(AVal::Timestamp(d)), None => None }, None => None },
    SqlType::Custom(_) => None,
  } }
}
/// the cell a value is stored in means that value in the column it belongs to
pub proof fn stored_means(v: AVal, ty: SqlType)
  requires v is Null || aty(v) == Some(ty), !(v is Custom), v is Json ==> json_exact(v->Json_0), v is Int ==> i32::MIN <= v->Int_0 <= i32::MAX
  ensures meaning(stored(v), ty) == Some(v)
{ match v { AVal::Json(j) => { axiom_json(j); }, AVal::Date(d) => { axiom_date(d); }, AVal::Timestamp(d) => { axiom_ts(d); }, _ => {} } }
/// what is read from a column is null or of the column's type
pub proof fn read_type(s: SVal, ty: SqlType)
  requires meaning(s, ty) is Some
  ensures meaning(s, ty)->0 is Null == s is Null, !(s is Null) ==> aty(meaning(s, ty)->0) == Some(ty)
{ }
