// ===== schemas (extracted types) =====
//@include maps.rs
//@@ type path=butane_core/src/migrations/adb.rs name=TypeIdentifier derives=PartialEq,Clone
//@@ type path=butane_core/src/migrations/adb.rs name=TypeKey derives=PartialEq,Clone
//@@ type path=butane_core/src/migrations/adb.rs name=DeferredSqlType derives=Clone
//@@ type path=butane_core/src/migrations/adb.rs name=ARefLiteral derives=PartialEq,Clone
//@@ type path=butane_core/src/migrations/adb.rs name=ARef derives=PartialEq,Clone
//@@ type path=butane_core/src/migrations/adb.rs name=AColumn derives=PartialEq,Clone
//@@ type path=butane_core/src/migrations/adb.rs name=ATable derives=Clone
//@@ type path=butane_core/src/migrations/adb.rs name=ADB derives=Clone
//@@ type path=butane_core/src/migrations/adb.rs name=Operation derives=Clone
//@for T in TypeIdentifier TypeKey DeferredSqlType ARefLiteral ARef AColumn ATable ADB Operation
impl Clone for %T% { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@endfor
/// a table-or-custom type name
pub ghost enum TK { PK(Seq<char>), CT(Seq<char>) }
pub open spec fn tk(k: TypeKey) -> TK { match k { TypeKey::PK(s) => TK::PK(s@), TypeKey::CustomType(s) => TK::CT(s@) } }
pub open spec fn tkey(k: TK) -> Seq<char> { match k { TK::PK(s) => seq!['P'] + s, TK::CT(s) => seq!['C'] + s } }
impl VKey for TypeKey { open spec fn k(&self) -> Seq<char> { tkey(tk(*self)) } }
/// a column type: what it stands for, or the name still to be resolved
pub ghost enum CT { Ty(SqlType), Name(Seq<char>), Deferred(TK) }
pub open spec fn ctid(t: TypeIdentifier) -> CT { match t { TypeIdentifier::Ty(s) => CT::Ty(s), TypeIdentifier::Name(n) => CT::Name(n@) } }
pub open spec fn ct(t: DeferredSqlType) -> CT { match t { DeferredSqlType::Known(s) => CT::Ty(s), DeferredSqlType::KnownId(i) => ctid(i), DeferredSqlType::Deferred(k) => CT::Deferred(tk(k)) } }
/// equality of database values as `==` decides it (NaN differs from itself)
pub uninterp spec fn sqlval_eq(a: SqlVal, b: SqlVal) -> bool;
pub broadcast axiom fn sqlval_eq_sym(a: SqlVal, b: SqlVal) ensures #[trigger] sqlval_eq(a, b) == sqlval_eq(b, a);
impl VEq<SqlVal> for SqlVal { open spec fn eqs(&self, o: &SqlVal) -> bool { sqlval_eq(*self, *o) } #[verifier::external_body] fn veq(&self, o: &SqlVal) -> (r: bool) { unimplemented!() } }
impl VEq<SqlType> for SqlType { open spec fn eqs(&self, o: &SqlType) -> bool { *self == *o } #[verifier::external_body] fn veq(&self, o: &SqlType) -> (r: bool) { unimplemented!() } }
impl VEq<TypeIdentifier> for TypeIdentifier { open spec fn eqs(&self, o: &TypeIdentifier) -> bool { ctid(*self) == ctid(*o) } #[verifier::external_body] fn veq(&self, o: &TypeIdentifier) -> (r: bool) { unimplemented!() } }
impl VEq<TypeKey> for TypeKey { open spec fn eqs(&self, o: &TypeKey) -> bool { tk(*self) == tk(*o) } #[verifier::external_body] fn veq(&self, o: &TypeKey) -> (r: bool) { unimplemented!() } }
/// Known and KnownId are the same when they hold the same type
impl VEq<DeferredSqlType> for DeferredSqlType {
  open spec fn eqs(&self, o: &DeferredSqlType) -> bool { ct(*self) == ct(*o) }
//@@ fn path=butane_core/src/migrations/adb.rs name=eq impl="PartialEq<DeferredSqlType> for DeferredSqlType" eq
//@@ sig
//@ fn veq(&self, other: &DeferredSqlType) -> (r: bool)
//@@ end
}
pub open spec fn same_ref(a: Option<ARef>, b: Option<ARef>) -> bool { match (a, b) {
  (None, None) => true,
  (Some(ARef::Literal(x)), Some(ARef::Literal(y))) => x.table_name@ == y.table_name@ && x.column_name@ == y.column_name@,
  (Some(ARef::Deferred(x)), Some(ARef::Deferred(y))) => ct(x) == ct(y),
  _ => false } }
/// columns with the same name and the same attributes, all of them
pub open spec fn same_col(a: AColumn, b: AColumn) -> bool {
  a.name@ == b.name@ && ct(a.sqltype) == ct(b.sqltype) && a.nullable == b.nullable && a.pk == b.pk && a.auto == b.auto && a.unique == b.unique
  && (match (a.default, b.default) { (None, None) => true, (Some(x), Some(y)) => sqlval_eq(x, y), _ => false }) && same_ref(a.reference, b.reference)
}
/// derived equality compares every field
impl VEq<AColumn> for AColumn { open spec fn eqs(&self, o: &AColumn) -> bool { same_col(*self, *o) } #[verifier::external_body] fn veq(&self, o: &AColumn) -> (r: bool) { unimplemented!() } }
