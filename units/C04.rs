//@include prelude.rs
broadcast use prelude::valg::vtext;
//@include sqlval_types.rs
//@include error.rs
use Error::CannotConvertSqlVal;
//@@ type path=butane_core/src/custom.rs name=SqlValRefCustom subst="postgres::types::Type=>PgType;&'a(dynpostgres::types::ToSql+Sync)=>&'a DynPgToSql"
//@@ type path=butane_core/src/sqlval.rs name=SqlValRef subst="serde_json::Value=>JsonVal"
//@include vals.rs
//@include conv.rs
impl SqlVal {
//@for F,V in bool:Bool integer:Int real:Real
//@@ fn path=butane_core/src/sqlval.rs name=%F% impl=SqlVal
//@   ensures (r is Ok) == (vv(*self) is %V%), r is Ok ==> r->Ok_0.av() == vv(*self)
//@@ end
//@endfor
//@@ fn path=butane_core/src/sqlval.rs name=bigint impl=SqlVal
//@   ensures (r is Ok) == (vv(*self) is BigInt || vv(*self) is Int), r is Ok ==> AVal::BigInt(r->Ok_0 as int) == vv(*self) || AVal::Int(r->Ok_0 as int) == vv(*self)
//@@ end
//@for F,V,S in text:Text:*self blob:Blob:*self owned_text:Text:self owned_blob:Blob:self
//@@ fn path=butane_core/src/sqlval.rs name=%F% impl=SqlVal ret=r
//@   ensures (r is Ok) == (vv(%S%) is %V%), r is Ok ==> AVal::%V%(r->Ok_0@) == vv(%S%)
//@@ end
//@endfor
}
//@for T in bool i64 i32 u32 u16 i16 u8 i8 f64
impl ToSql for %T% {
  open spec fn enc(&self) -> AVal { self.av() }
  open spec fn encodable(&self) -> bool { true }
//@@ fn path=butane_core/src/sqlval.rs name=to_sql impl="ToSql for %T%" traitspec
//@@ end
//@@ fn path=butane_core/src/sqlval.rs name=to_sql_ref impl="ToSql for %T%" traitspec
//@@ end
//@@ fn path=butane_core/src/sqlval.rs name=into_sql impl="ToSql for %T%" traitspec
//@@ end
}
impl RoundTrip for %T% {
  open spec fn same(&self, y: &Self) -> bool { *self == *y }
  open spec fn exact(v: AVal) -> bool { true }
  proof fn round_trip(x: &Self, y: &Self) { }
  proof fn never_another(x: &Self, v: AVal) { }
}
//@endfor
//@for T in bool i64 i32 u32 u16 i16 u8 i8 f64 NaiveDate NaiveDateTime
impl FromSql for %T% {
  open spec fn can_dec(v: AVal) -> bool { <%T% as Lift>::of(v) }
  open spec fn is_dec(&self, v: AVal) -> bool { v == self.av() }
//@@ fn path=butane_core/src/sqlval.rs name=from_sql_ref impl="FromSql for %T%" traitspec
//@@ end
//@@ fn path=butane_core/src/sqlval.rs name=from_sql impl="FromSql for %T%" traitspec
//@@ end
}
//@endfor

// ---- f32: stored as the double of equal value, read as the nearest single ----
impl ToSql for f32 {
  open spec fn enc(&self) -> AVal { AVal::Real(widen(*self)) }
  open spec fn encodable(&self) -> bool { true }
//@@ fn path=butane_core/src/sqlval.rs name=to_sql impl="ToSql for f32" traitspec
//@@ end
//@@ fn path=butane_core/src/sqlval.rs name=to_sql_ref impl="ToSql for f32" traitspec
//@@ end
//@@ fn path=butane_core/src/sqlval.rs name=into_sql impl="ToSql for f32" traitspec
//@@ end
}
impl FromSql for f32 {
  open spec fn can_dec(v: AVal) -> bool { v is Real }
  open spec fn is_dec(&self, v: AVal) -> bool { match v { AVal::Real(d) => *self == narrow(d), _ => false } }
//@@ fn path=butane_core/src/sqlval.rs name=from_sql_ref impl="FromSql for f32" traitspec
//@@ end
//@@ fn path=butane_core/src/sqlval.rs name=from_sql impl="FromSql for f32" traitspec
//@@ end
}
impl RoundTrip for f32 {
  open spec fn same(&self, y: &Self) -> bool { *self == *y }
  open spec fn exact(v: AVal) -> bool { exists|y: f32| v == AVal::Real(#[trigger] widen(y)) }
  proof fn round_trip(x: &Self, y: &Self) { axiom_narrow_widen(*x); }
  proof fn never_another(x: &Self, v: AVal) { let y = choose|y: f32| v == AVal::Real(#[trigger] widen(y)); axiom_narrow_widen(y); }
}
// ---- text, bytes, JSON, dates ----
//@for T|R|V|X in String|String|Text|self@ Vec<u8>|Vec<u8>|Blob|self@ JsonVal|serde_json::Value|Json|*self NaiveDate|NaiveDate|Date|*self NaiveDateTime|NaiveDateTime|Timestamp|*self
impl ToSql for %T% {
  open spec fn enc(&self) -> AVal { AVal::%V%(%X%) }
  open spec fn encodable(&self) -> bool { true }
//@@ fn path=butane_core/src/sqlval.rs name=to_sql impl="ToSql for %R%" traitspec
//@@ end
//@@ fn path=butane_core/src/sqlval.rs name=to_sql_ref impl="ToSql for %R%" traitspec
//@@ end
//@@ fn path=butane_core/src/sqlval.rs name=into_sql impl="ToSql for %R%" traitspec
//@@ end
}
impl RoundTrip for %T% {
  open spec fn same(&self, y: &Self) -> bool { self.enc() == y.enc() }
  open spec fn exact(v: AVal) -> bool { true }
  proof fn round_trip(x: &Self, y: &Self) { }
  proof fn never_another(x: &Self, v: AVal) { }
}
//@endfor
//@for T|R|V in String|String|Text Vec<u8>|Vec<u8>|Blob JsonVal|serde_json::Value|Json
impl FromSql for %T% {
  open spec fn can_dec(v: AVal) -> bool { v is %V% }
  open spec fn is_dec(&self, v: AVal) -> bool { v == self.enc() }
//@@ fn path=butane_core/src/sqlval.rs name=from_sql_ref impl="FromSql for %R%" traitspec
//@@ subst Vec::from => vec_from
//@@ end
//@@ fn path=butane_core/src/sqlval.rs name=from_sql impl="FromSql for %R%" traitspec
//@@ end
}
//@endfor
// ---- time stamps with time zone UTC; UUIDs; strings ----
#[verifier::external_body] #[derive(Copy)] pub struct DateTimeUtc { x: u8 }
impl Clone for DateTimeUtc { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn utc_of(n: NaiveDateTime) -> DateTimeUtc;
pub uninterp spec fn naive_of(d: DateTimeUtc) -> NaiveDateTime;
pub axiom fn axiom_utc(n: NaiveDateTime, d: DateTimeUtc) ensures naive_of(utc_of(n)) == n, utc_of(naive_of(d)) == d;
impl NaiveDateTime { #[verifier::external_body] pub fn and_utc(self) -> (r: DateTimeUtc) ensures r == utc_of(self) { unimplemented!() } }
impl DateTimeUtc { #[verifier::external_body] pub fn naive_utc(&self) -> (r: NaiveDateTime) ensures r == naive_of(*self) { unimplemented!() } }
impl ToSql for DateTimeUtc {
  open spec fn enc(&self) -> AVal { AVal::Timestamp(naive_of(*self)) }
  open spec fn encodable(&self) -> bool { true }
//@for F in to_sql to_sql_ref into_sql
//@@ fn path=butane_core/src/sqlval.rs name=%F% impl="ToSql for DateTime<chrono::offset::Utc>" traitspec
//@@ end
//@endfor
}
impl FromSql for DateTimeUtc {
  open spec fn can_dec(v: AVal) -> bool { v is Timestamp }
  open spec fn is_dec(&self, v: AVal) -> bool { match v { AVal::Timestamp(n) => *self == utc_of(n), _ => false } }
//@for F in from_sql_ref from_sql
//@@ fn path=butane_core/src/sqlval.rs name=%F% impl="FromSql for DateTime<chrono::offset::Utc>" traitspec
//@@ end
//@endfor
}
impl RoundTrip for DateTimeUtc {
  open spec fn same(&self, y: &Self) -> bool { *self == *y }
  open spec fn exact(v: AVal) -> bool { true }
  proof fn round_trip(x: &Self, y: &Self) { axiom_utc(naive_of(*x), *x); }
  proof fn never_another(x: &Self, v: AVal) { axiom_utc(v->Timestamp_0, *x); }
}
#[verifier::external_body] #[derive(Copy)] pub struct Uuid { x: u8 }
impl Clone for Uuid { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn uuid_bytes(u: Uuid) -> Seq<u8>;
pub uninterp spec fn uuid_of_text(t: Seq<char>) -> Option<Uuid>;
pub axiom fn axiom_uuid(u: Uuid, w: Uuid) ensures uuid_bytes(u).len() == 16, uuid_bytes(u) == uuid_bytes(w) ==> u == w;
impl Uuid {
  #[verifier::external_body] pub fn vas_bytes(&self) -> (r: &[u8]) ensures r@ == uuid_bytes(*self) { unimplemented!() }
  #[verifier::external_body] pub fn from_slice(b: &[u8]) -> (r: core::result::Result<Uuid, TryErr>) ensures (r is Ok) == (b@.len() == 16), r is Ok ==> uuid_bytes(r->Ok_0) == b@ { unimplemented!() }
  #[verifier::external_body] pub fn parse_str(t: &str) -> (r: core::result::Result<Uuid, TryErr>) ensures (r is Ok) == (uuid_of_text(t@) is Some), r is Ok ==> Some(r->Ok_0) == uuid_of_text(t@) { unimplemented!() }
}
pub trait VToVec { spec fn vtv(&self) -> Seq<u8>; fn vto_vec(&self) -> (r: Vec<u8>) ensures r@ == self.vtv(); }
impl VToVec for [u8] { open spec fn vtv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vto_vec(&self) -> (r: Vec<u8>) { unimplemented!() } }
impl ToSql for Uuid {
  open spec fn enc(&self) -> AVal { AVal::Blob(uuid_bytes(*self)) }
  open spec fn encodable(&self) -> bool { true }
//@for F in to_sql to_sql_ref
//@@ fn path=butane_core/src/uuid.rs name=%F% impl="ToSql for Uuid" traitspec
//@@ end
//@endfor
}
impl FromSql for Uuid {
  open spec fn can_dec(v: AVal) -> bool { match v { AVal::Blob(b) => b.len() == 16, AVal::Text(t) => uuid_of_text(t) is Some, _ => false } }
  open spec fn is_dec(&self, v: AVal) -> bool { match v { AVal::Blob(b) => uuid_bytes(*self) == b, AVal::Text(t) => Some(*self) == uuid_of_text(t), _ => false } }
//@@ fn path=butane_core/src/uuid.rs name=from_sql_ref impl="FromSql for Uuid" traitspec
//@@ end
}
impl RoundTrip for Uuid {
  open spec fn same(&self, y: &Self) -> bool { *self == *y }
  /// the text form of a UUID is accepted as well and stored as bytes the next time
  open spec fn exact(v: AVal) -> bool { v is Blob }
  proof fn round_trip(x: &Self, y: &Self) { axiom_uuid(*x, *y); }
  proof fn never_another(x: &Self, v: AVal) { }
}
impl ToSql for str {
  open spec fn enc(&self) -> AVal { AVal::Text(self@) }
  open spec fn encodable(&self) -> bool { true }
//@for F in to_sql to_sql_ref
//@@ fn path=butane_core/src/sqlval.rs name=%F% impl="ToSql for str" traitspec
//@@ end
//@endfor
}
impl ToSql for &str {
  open spec fn enc(&self) -> AVal { AVal::Text(self@) }
  open spec fn encodable(&self) -> bool { true }
//@for F in to_sql to_sql_ref
//@@ fn path=butane_core/src/sqlval.rs name=%F% impl="ToSql for &str" traitspec
//@@ end
//@endfor
}
// ---- optional values ----
impl<T: ToSql> ToSql for Option<T> {
  open spec fn enc(&self) -> AVal { match self { Some(x) => x.enc(), None => AVal::Null } }
  open spec fn encodable(&self) -> bool { match self { Some(x) => x.encodable(), None => true } }
//@for F in to_sql to_sql_ref into_sql
//@@ fn path=butane_core/src/sqlval.rs name=%F% impl="ToSql for Option<T>" traitspec
//@@ end
//@endfor
}
impl<T: FromSql> FromSql for Option<T> {
  open spec fn can_dec(v: AVal) -> bool { v is Null || T::can_dec(v) }
  open spec fn is_dec(&self, v: AVal) -> bool { (self is None) == (v is Null) && (self is Some ==> (self->0).is_dec(v)) }
//@@ fn path=butane_core/src/sqlval.rs name=from_sql_ref impl="FromSql for Option<T>" traitspec
//@@ end
}
/// types whose values are never stored as null
pub trait NeverNull: RoundTrip { proof fn never_null(x: &Self) ensures !(x.enc() is Null); }
//@for T in bool i64 i32 u32 u16 i16 u8 i8 f64 f32 String Vec<u8> JsonVal NaiveDate NaiveDateTime Uuid DateTimeUtc
impl NeverNull for %T% { proof fn never_null(x: &Self) { } }
//@endfor
impl<T: NeverNull> RoundTrip for Option<T> {
  open spec fn same(&self, y: &Self) -> bool { (self is None) == (y is None) && (self is Some ==> (self->0).same(&(y->0))) }
  open spec fn exact(v: AVal) -> bool { v is Null || T::exact(v) }
  proof fn round_trip(x: &Self, y: &Self) { if x is Some { T::never_null(&(x->0)); if y is Some { T::round_trip(&(x->0), &(y->0)); } else { T::round_trip(&(x->0), &(x->0)); } } }
  proof fn never_another(x: &Self, v: AVal) { if x is Some { T::never_another(&(x->0), v); } }
}
//@include pk.rs
impl<T: PrimaryKeyType + RoundTrip> RoundTrip for AutoPk<T> {
  closed spec fn same(&self, y: &Self) -> bool { self.inner is Some && y.inner is Some && (self.inner->0).same(&(y.inner->0)) }
  closed spec fn exact(v: AVal) -> bool { T::exact(v) }
  proof fn round_trip(x: &Self, y: &Self) { if y.inner is Some { T::round_trip(&(x.inner->0), &(y.inner->0)); } else { T::round_trip(&(x.inner->0), &(x.inner->0)); } }
  proof fn never_another(x: &Self, v: AVal) { T::never_another(&(x.inner->0), v); }
}
} // verus!
fn main() {}
