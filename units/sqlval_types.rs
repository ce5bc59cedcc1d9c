// ===== SqlVal, SqlType (extracted; chrono, serde_json and postgres types opaque) =====
#[verifier::external_body] pub struct JsonVal { x: u8 }
#[verifier::external_body] #[derive(Copy)] pub struct NaiveDate { x: u8 }
#[verifier::external_body] #[derive(Copy)] pub struct NaiveDateTime { x: u8 }
#[allow(non_camel_case_types)] pub enum PgType { BOOL, INT4, INT8, FLOAT8, TEXT, BYTEA, JSON, JSONB, DATE, TIMESTAMP, UNKNOWN, Other(u64) }
#[verifier::external_body] pub struct DynPgToSql { x: u8 }
impl Clone for NaiveDate { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for NaiveDateTime { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for JsonVal { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for PgType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@@ type path=butane_core/src/custom.rs name=SqlTypeCustom subst="tokio_postgres::types::Type=>PgType"
//@@ type path=butane_core/src/custom.rs name=SqlValCustom subst="postgres::types::Type=>PgType"
//@@ type path=butane_core/src/lib.rs name=SqlType
//@@ type path=butane_core/src/sqlval.rs name=SqlVal subst="serde_json::Value=>JsonVal"
impl Clone for SqlVal { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for SqlType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for SqlTypeCustom { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for SqlValCustom { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
