// ===== model objects (their code is generated: contract only) =====
pub trait FieldType { const SQLTYPE: SqlType; }
pub trait DataObject: DataResult {
  type PKType: PrimaryKeyType + FieldType
/*?KEYS*/    + KeyExact
  ;
  const PKCOL: &'static str;
  const TABLE: &'static str;
  const AUTO_PK: bool;
  spec fn key(&self) -> Self::PKType;
  fn pk(&self) -> (r: &Self::PKType)
    ensures *r == self.key();
/*?KEYS*/  /// finding the object with a given key
/*?KEYS*/  fn get<C: ConnectionMethods, I: ToSql>(conn: &C, id: I) -> (r: Result<Self>)
/*?KEYS*/    requires id.encodable()
/*?KEYS*/    ensures r is Ok ==> r->Ok_0.key().enc() == id.enc();
/*?SAVES*/  const NON_AUTO_COLUMNS: &'static [Column];
/*?SAVES*/  /// the values of the columns that are not generated
/*?SAVES*/  spec fn row(&self, include_pk: bool) -> Seq<AVal>;
/*?SAVES*/  /// everything but the key
/*?SAVES*/  spec fn rest(&self) -> int;
/*?SAVES*/  fn non_auto_values(&self, include_pk: bool) -> (r: Vec<SqlValRef<'_>>)
/*?SAVES*/    ensures avals(r@) == self.row(include_pk);
/*?SAVES*/  fn pk_mut(&mut self) -> (r: &mut Self::PKType)
/*?SAVES*/    ensures *r == old(self).key(), final(self).key() == *final(r), final(self).rest() == old(self).rest(), *final(r) == *r ==> *final(self) == *old(self);
/*?SAVES*/  fn save_many_to_many<C: ConnectionMethods>(&mut self, conn: &mut C) -> (r: Result<()>)
/*?SAVES*/    ensures final(self).key() == old(self).key(), final(conn).calls() == old(conn).calls().push((Call::Relations { table: Self::TABLE@, key: old(self).key().enc() }, r is Ok));
  proof fn tables_agree()
    ensures Self::table() == Self::TABLE@;
}
