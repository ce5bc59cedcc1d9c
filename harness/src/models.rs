//! Models, by the macro (and one by hand the way the macro writes them).
use butane_core::db::{BackendRow, Column, ConnectionMethods, ConnectionMethodsAsync};
use butane_core::fkey::ForeignKey;
use butane_core::internal::DataObjectInternal;
use butane_core::many::{Many, ManyOpsAsync, ManyOpsSync};
use butane_core::query::{FieldExpr, ManyFieldExpr};
use butane_core::*;
use std::borrow::Cow;

macro_rules! model {
    ($name:ident, $fields:ident, $table:literal, auto $auto:literal, pk $pk:ident : $pkty:ty, [$($f:ident : $fty:ty),*], [$($m:ident : $mty:ty = $mtab:literal),*]) => {
        #[derive(Debug, Clone)]
        pub struct $name { pub $pk: $pkty, $(pub $f: $fty,)* $(pub $m: Many<$mty>,)* }
        #[derive(Default)]
        pub struct $fields;
        impl $fields {
            pub fn $pk(&self) -> FieldExpr<$pkty> { FieldExpr::new(stringify!($pk)) }
            $(pub fn $f(&self) -> FieldExpr<$fty> { FieldExpr::new(stringify!($f)) })*
            $(pub fn $m(&self) -> ManyFieldExpr<$name, $mty> { ManyFieldExpr::new($mtab) })*
        }
        impl DataResult for $name {
            type DBO = $name;
            const COLUMNS: &'static [Column] = &[Column::new(stringify!($pk), <$pkty as FieldType>::SQLTYPE), $(Column::new(stringify!($f), <$fty as FieldType>::SQLTYPE)),*];
            fn from_row<'a>(row: &(dyn BackendRow + 'a)) -> Result<Self> {
                if row.len() != Self::COLUMNS.len() {
                    return Err(Error::BoundsError("columns".into()));
                }
                let mut i = 0;
                let $pk = <$pkty>::from_sql_ref(row.get(i, <$pkty as FieldType>::SQLTYPE)?)?;
                $(i += 1; let $f = <$fty>::from_sql_ref(row.get(i, <$fty as FieldType>::SQLTYPE)?)?;)*
                let _ = i;
                #[allow(unused_mut)]
                let mut obj = $name { $pk, $($f,)* $($m: Many::new(),)* };
                $(let k = obj.$pk.to_sql(); obj.$m.ensure_init($mtab, k, <$pkty as FieldType>::SQLTYPE);)*
                Ok(obj)
            }
            fn query() -> query::Query<Self> { query::Query::new(<$name as DataObject>::TABLE) }
        }
        impl DataObjectInternal for $name {
            const NON_AUTO_COLUMNS: &'static [Column] = { if $auto { &[$(Column::new(stringify!($f), <$fty as FieldType>::SQLTYPE)),*] } else { Self::COLUMNS } };
            fn pk_mut(&mut self) -> &mut impl PrimaryKeyType { &mut self.$pk }
            async fn save_many_to_many_async(&mut self, _conn: &impl ConnectionMethodsAsync) -> Result<()> {
                $(let k = self.$pk.to_sql(); self.$m.ensure_init($mtab, k, <$pkty as FieldType>::SQLTYPE); ManyOpsAsync::save(&mut self.$m, _conn).await?;)*
                Ok(())
            }
            fn save_many_to_many_sync(&mut self, _conn: &impl ConnectionMethods) -> Result<()> {
                $(let k = self.$pk.to_sql(); self.$m.ensure_init($mtab, k, <$pkty as FieldType>::SQLTYPE); ManyOpsSync::save(&mut self.$m, _conn)?;)*
                Ok(())
            }
            fn non_auto_values(&self, include_pk: bool) -> Vec<SqlValRef<'_>> {
                #[allow(unused_mut)]
                let mut v: Vec<SqlValRef<'_>> = vec![];
                if include_pk && !$auto { v.push(self.$pk.to_sql_ref()); }
                $(v.push(self.$f.to_sql_ref());)*
                v
            }
        }
        impl DataObject for $name {
            type PKType = $pkty;
            type Fields = $fields;
            const PKCOL: &'static str = stringify!($pk);
            const TABLE: &'static str = $table;
            const AUTO_PK: bool = $auto;
            fn pk(&self) -> &$pkty { &self.$pk }
        }
        impl ToSql for $name {
            fn to_sql(&self) -> SqlVal { self.pk().to_sql() }
            fn to_sql_ref(&self) -> SqlValRef<'_> { self.pk().to_sql_ref() }
        }
        impl AsPrimaryKey<$name> for $name {
            fn as_pk(&self) -> Cow<'_, $pkty> { Cow::Borrowed(self.pk()) }
        }
    };
}
use butane::model;
#[model]
#[table = "tag"]
#[derive(Debug, Clone)]
pub struct Tag { #[pk] pub name: String }
#[model]
#[table = "lone"]
#[derive(Debug, Clone)]
pub struct Lone { pub id: AutoPk<i32> }
#[model]
#[table = "mark"]
#[derive(Debug, Clone)]
pub struct Mark { pub id: AutoPk<i32>, pub tags: Many<Tag> }
#[model]
#[table = "note"]
#[derive(Debug, Clone)]
pub struct Note { pub id: AutoPk<i32>, pub text: String, pub tags: Many<Tag> }
#[model]
#[table = "item"]
#[derive(Debug, Clone)]
pub struct Item { #[pk] pub code: i32, pub label: String, pub weight: f64, pub tags: Many<Tag> }
#[model]
#[table = "blog"]
#[derive(Debug, Clone)]
pub struct Blog { pub id: AutoPk<i64>, pub name: String }
#[model]
#[table = "post"]
#[derive(Debug, Clone)]
pub struct Post { pub id: AutoPk<i64>, pub title: String, pub num: Option<i32>, pub blog: Option<ForeignKey<Blog>>, pub item: Option<ForeignKey<Item>>, pub tags: Many<Tag>, pub refs: Many<Blog> }
pub const DDL: &str = "CREATE TABLE tag (name TEXT NOT NULL PRIMARY KEY); CREATE TABLE lone (id INTEGER PRIMARY KEY AUTOINCREMENT); CREATE TABLE mark (id INTEGER PRIMARY KEY AUTOINCREMENT); CREATE TABLE mark_tags_Many (owner INTEGER NOT NULL, has TEXT NOT NULL); CREATE TABLE note (id INTEGER PRIMARY KEY AUTOINCREMENT, text TEXT NOT NULL); CREATE TABLE note_tags_Many (owner INTEGER NOT NULL, has TEXT NOT NULL); CREATE TABLE item (code INTEGER NOT NULL PRIMARY KEY, label TEXT NOT NULL, weight REAL NOT NULL); \
CREATE TABLE blog (id INTEGER PRIMARY KEY AUTOINCREMENT, name TEXT NOT NULL); CREATE TABLE post (id INTEGER PRIMARY KEY AUTOINCREMENT, title TEXT NOT NULL, num INTEGER, blog INTEGER, item INTEGER); \
CREATE TABLE post_tags_Many (owner INTEGER NOT NULL, has TEXT NOT NULL); CREATE TABLE post_refs_Many (owner INTEGER NOT NULL, has INTEGER NOT NULL); CREATE TABLE item_tags_Many (owner INTEGER NOT NULL, has TEXT NOT NULL);";

/// a key whose conversion takes a while, to let threads meet
#[derive(Debug, Clone, PartialEq)]
pub struct SlowKey(pub i32);
impl ToSql for SlowKey {
    fn to_sql(&self) -> SqlVal {
        std::thread::sleep(std::time::Duration::from_millis(3));
        SqlVal::Int(self.0)
    }
    fn to_sql_ref(&self) -> SqlValRef<'_> { SqlValRef::Int(self.0) }
}
impl FromSql for SlowKey {
    fn from_sql_ref(v: SqlValRef<'_>) -> Result<Self> { i32::from_sql_ref(v).map(SlowKey) }
}
impl FieldType for SlowKey {
    type RefType = Self;
    const SQLTYPE: SqlType = SqlType::Int;
}
impl PrimaryKeyType for SlowKey {}
model!(Slow, SlowFields, "slow", auto false, pk id: SlowKey, [], []);
