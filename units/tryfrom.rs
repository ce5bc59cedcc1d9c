// ===== T::try_from: exactly the lossless conversions =====
pub struct TryErr { x: u8 }
pub trait VTryFrom<S>: Sized { spec fn fits(s: S) -> bool; spec fn becomes(s: S, t: Self) -> bool; fn tf(s: S) -> (r: core::result::Result<Self, TryErr>) ensures (r is Ok) == Self::fits(s), r is Ok ==> Self::becomes(s, r->Ok_0); }
pub fn vtry_from<T: VTryFrom<S>, S>(s: S) -> (r: core::result::Result<T, TryErr>) ensures (r is Ok) == T::fits(s), r is Ok ==> T::becomes(s, r->Ok_0) { T::tf(s) }
//@for T in bool i64 i32 f64 NaiveDate NaiveDateTime
impl VTryFrom<%T%> for %T% { open spec fn fits(s: %T%) -> bool { true } open spec fn becomes(s: %T%, t: %T%) -> bool { s == t } fn tf(s: %T%) -> (r: core::result::Result<%T%, TryErr>) { Ok(s) } }
impl VInto<%T%> for %T% { open spec fn vinto_spec(self, r: %T%) -> bool { r == self } fn vinto(self) -> (r: %T%) { self } }
//@endfor
//@for T,S in u32:i64 u16:i32 i16:i32 u8:i32 i8:i32 i32:i64
impl VTryFrom<%S%> for %T% { open spec fn fits(s: %S%) -> bool { <%T%>::MIN <= s <= <%T%>::MAX } open spec fn becomes(s: %S%, t: %T%) -> bool { s == t } #[verifier::external_body] fn tf(s: %S%) -> (r: core::result::Result<%T%, TryErr>) { unimplemented!() } }
//@endfor
//@for T,S in u32:i64 u16:i32 i16:i32 u8:i32 i8:i32
impl VInto<%S%> for %T% { open spec fn vinto_spec(self, r: %S%) -> bool { r == self } fn vinto(self) -> (r: %S%) { self as %S% } }
//@endfor
