// ===== primary keys =====
pub trait PrimaryKeyType: ToSql + FromSql + Clone {
  /// false only for a generated key not assigned yet
  spec fn valid(&self) -> bool;
  /// a valid key has a database value, and what the database returns is a valid key
  proof fn valid_encodable(&self) requires self.valid() ensures self.encodable();
  proof fn decoded_valid(&self, v: AVal) requires self.is_dec(v), Self::can_dec(v) ensures self.valid();
  fn is_valid(&self) -> (r: bool)
    ensures r == self.valid();
  fn initialize(&mut self, value: SqlVal) -> (r: Result<()>)
    ensures old(self).valid() ==> r is Ok && *final(self) == *old(self),
      !old(self).valid() ==> (r is Ok) == Self::can_dec(vv(value)),
      !old(self).valid() && r is Ok ==> final(self).is_dec(vv(value)),
      r is Err ==> *final(self) == *old(self);
}
