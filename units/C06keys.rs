//@include prelude.rs
broadcast use prelude::valg::vtext;
//@include sqlval_types.rs
//@include error.rs
//@@ type path=butane_core/src/custom.rs name=SqlValRefCustom subst="postgres::types::Type=>PgType;&'a(dynpostgres::types::ToSql+Sync)=>&'a DynPgToSql"
//@@ type path=butane_core/src/sqlval.rs name=SqlValRef subst="serde_json::Value=>JsonVal"
//@include vals.rs
//@include conv.rs
//@include pktrait.rs
/// some key type that is not generated and leaves the trait's methods as they are (its conversions: C04)
pub struct PlainKey { pub k: u64 }
impl PlainKey { pub uninterp spec fn v(&self) -> AVal; pub uninterp spec fn from(v: AVal) -> Option<PlainKey>; }
impl Clone for PlainKey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl ToSql for PlainKey {
  open spec fn enc(&self) -> AVal { self.v() }
  open spec fn encodable(&self) -> bool { true }
  #[verifier::external_body] fn to_sql(&self) -> (r: SqlVal) { unimplemented!() }
  #[verifier::external_body] fn to_sql_ref(&self) -> (r: SqlValRef<'_>) { unimplemented!() }
  #[verifier::external_body] fn into_sql(self) -> (r: SqlVal) { unimplemented!() }
}
impl FromSql for PlainKey {
  open spec fn can_dec(v: AVal) -> bool { PlainKey::from(v) is Some }
  open spec fn is_dec(&self, v: AVal) -> bool { PlainKey::from(v) == Some(*self) }
  #[verifier::external_body] fn from_sql_ref(val: SqlValRef<'_>) -> (r: Result<Self>) { unimplemented!() }
  #[verifier::external_body] fn from_sql(val: SqlVal) -> (r: Result<Self>) { unimplemented!() }
}
impl PrimaryKeyType for PlainKey {
  open spec fn valid(&self) -> bool { true }
  proof fn valid_encodable(&self) { }
  proof fn decoded_valid(&self, v: AVal) { }
//@@ fn path=butane_core/src/sqlval.rs name=is_valid impl="trait PrimaryKeyType" traitspec
//@@ end
//@@ fn path=butane_core/src/sqlval.rs name=initialize impl="trait PrimaryKeyType" traitspec
//@@ end
}
//@include autopk.rs
} // verus!
fn main() {}
