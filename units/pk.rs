//@include pktrait.rs
//@for T in bool i64 i32 u32 u16 i16 u8 i8 f64 f32 String Vec<u8> JsonVal NaiveDate NaiveDateTime Uuid DateTimeUtc
impl PrimaryKeyType for %T% {
  open spec fn valid(&self) -> bool { true }
  proof fn valid_encodable(&self) { }
  proof fn decoded_valid(&self, v: AVal) { }
//@@ fn path=butane_core/src/sqlval.rs name=is_valid impl="trait PrimaryKeyType" traitspec
//@@ end
//@@ fn path=butane_core/src/sqlval.rs name=initialize impl="trait PrimaryKeyType" traitspec
//@@ end
}
//@endfor
//@include autopk.rs
