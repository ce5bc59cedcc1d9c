//@@ type path=butane_core/src/autopk.rs name=AutoPk
//@define derived
impl<T: PrimaryKeyType> Clone for AutoPk<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T: PrimaryKeyType> AutoPk<T> {
  pub closed spec fn key(&self) -> Option<T> { self.inner }
//@@ fn path=butane_core/src/autopk.rs name=with_value impl=AutoPk<T>
//@ ensures r.key() == Some(val)
//@@ end
//@@ fn path=butane_core/src/autopk.rs name=expect_inner impl=AutoPk<T>
//@ requires self.key() is Some
//@ ensures Some(*r) == self.key()
//@@ end
}
impl<T: PrimaryKeyType> ToSql for AutoPk<T> {
  closed spec fn enc(&self) -> AVal { match self.inner { Some(k) => k.enc(), None => AVal::Null } }
  closed spec fn encodable(&self) -> bool { match self.inner { Some(k) => k.encodable(), None => false } }
//@for F in to_sql to_sql_ref into_sql
//@@ fn path=butane_core/src/autopk.rs name=%F% impl="ToSql for AutoPk<T>" traitspec
//@@ end
//@endfor
}
impl<T: PrimaryKeyType> FromSql for AutoPk<T> {
  closed spec fn can_dec(v: AVal) -> bool { T::can_dec(v) }
  closed spec fn is_dec(&self, v: AVal) -> bool { match self.inner { Some(k) => k.is_dec(v), None => false } }
//@for F in from_sql_ref from_sql
//@@ fn path=butane_core/src/autopk.rs name=%F% impl="FromSql for AutoPk<T>" traitspec
//@@ end
//@endfor
}
impl<T: PrimaryKeyType> PrimaryKeyType for AutoPk<T> {
  closed spec fn valid(&self) -> bool { match self.inner { Some(k) => k.valid(), None => false } }
  proof fn valid_encodable(&self) { self.inner->0.valid_encodable(); }
  proof fn decoded_valid(&self, v: AVal) { self.inner->0.decoded_valid(v); }
//@@ fn path=butane_core/src/autopk.rs name=is_valid impl="PrimaryKeyType for AutoPk<T>" traitspec
//@@ end
//@@ fn path=butane_core/src/sqlval.rs name=initialize impl="trait PrimaryKeyType" traitspec
//@@ end
}
