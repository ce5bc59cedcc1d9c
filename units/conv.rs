//@include tryfrom.rs
// single precision: exact widening, nearest narrowing (floating point is uninterpreted)
pub uninterp spec fn widen(x: f32) -> f64;
pub uninterp spec fn narrow(x: f64) -> f32;
pub axiom fn axiom_narrow_widen(x: f32) ensures narrow(widen(x)) == x;
impl VInto<f64> for f32 { open spec fn vinto_spec(self, r: f64) -> bool { r == widen(self) } #[verifier::external_body] fn vinto(self) -> (r: f64) { unimplemented!() } }
#[verifier::external_body] pub fn vcast_f32(x: f64) -> (r: f32) ensures r == narrow(x) { unimplemented!() }
//@for T,V in i32:Int i64:BigInt f64:Real bool:Bool NaiveDate:Date NaiveDateTime:Timestamp
impl VInto<SqlVal> for %T% { open spec fn vinto_spec(self, r: SqlVal) -> bool { r == SqlVal::%V%(self) } fn vinto(self) -> (r: SqlVal) { SqlVal::%V%(self) } }
//@endfor
/// the database value a Rust value of a basic type stands for
pub trait Lift { spec fn av(self) -> AVal; spec fn of(v: AVal) -> bool; }
//@for T,V in bool:Bool f64:Real NaiveDate:Date NaiveDateTime:Timestamp
impl Lift for %T% { open spec fn av(self) -> AVal { AVal::%V%(self) } open spec fn of(v: AVal) -> bool { v is %V% } }
//@endfor
//@for T,V in i64:BigInt i32:Int u32:BigInt u16:Int i16:Int u8:Int i8:Int
impl Lift for %T% { open spec fn av(self) -> AVal { AVal::%V%(self as int) } open spec fn of(v: AVal) -> bool { match v { AVal::%V%(i) => <%T%>::MIN <= i <= <%T%>::MAX, _ => false } } }
//@endfor
// ===== specification of the conversion traits =====
pub trait ToSql {
  /// the database value the Rust value stands for
  spec fn enc(&self) -> AVal;
  /// false only for a generated key not assigned yet
  spec fn encodable(&self) -> bool;
  fn to_sql(&self) -> (r: SqlVal)
    requires self.encodable()
    ensures vv(r) == self.enc();
  fn to_sql_ref(&self) -> (r: SqlValRef<'_>)
    requires self.encodable()
    ensures vr(r) == self.enc();
//@@ fn path=butane_core/src/sqlval.rs name=into_sql impl="trait ToSql" traitspec
//@   requires self.encodable()
//@   ensures vv(r) == self.enc()
//@@ end
}
pub trait FromSql: Sized {
  /// the database values that have a meaning as this Rust type
  spec fn can_dec(v: AVal) -> bool;
  /// `self` is what `v` means
  spec fn is_dec(&self, v: AVal) -> bool;
  fn from_sql_ref(val: SqlValRef<'_>) -> (r: Result<Self>)
    ensures (r is Ok) == Self::can_dec(vr(val)), r is Ok ==> r->Ok_0.is_dec(vr(val));
//@@ fn path=butane_core/src/sqlval.rs name=from_sql impl="trait FromSql" traitspec
//@   ensures (r is Ok) == Self::can_dec(vv(val)), r is Ok ==> r->Ok_0.is_dec(vv(val))
//@@ end
}
/// value to database value and back: never an error, always an equal value
pub trait RoundTrip: ToSql + FromSql {
  spec fn same(&self, y: &Self) -> bool;
  proof fn round_trip(x: &Self, y: &Self)
    requires x.encodable()
    ensures Self::can_dec(x.enc()), y.is_dec(x.enc()) ==> y.same(x);
  /// what a database value is read as stands for that value again
  proof fn never_another(x: &Self, v: AVal)
    requires Self::can_dec(v), x.is_dec(v), Self::exact(v)
    ensures x.encodable() && x.enc() == v;
  spec fn exact(v: AVal) -> bool;
}
