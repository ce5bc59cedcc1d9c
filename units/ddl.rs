// ===== specification: the SQL of schema operations =====
/// whose SQL
pub ghost enum Db { Sqlite, Turso, Pg }
// ---- lists of texts ----
pub mod txt {
use super::*;
pub open spec fn join_seq(s: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { join_seq(s.drop_last(), sep) + sep + s.last() } }
pub open spec fn same_texts<T: VDisp>(a: Seq<T>, w: Seq<Seq<char>>) -> bool { a.len() == w.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).disp() == w[i] }
pub broadcast proof fn join_same<T: VDisp>(a: Seq<T>, w: Seq<Seq<char>>, sep: Seq<char>)
  requires #[trigger] same_texts(a, w)
  ensures #[trigger] join_text(a, sep) == join_seq(w, sep)
  decreases a.len()
{ if a.len() > 1 { assert(same_texts(a.drop_last(), w.drop_last())) by { assert forall|i: int| 0 <= i < a.drop_last().len() implies (#[trigger] a.drop_last()[i]).disp() == w.drop_last()[i] by { assert(a[i].disp() == w[i]); } } join_same(a.drop_last(), w.drop_last(), sep); assert(a.last().disp() == w[a.len() - 1]); } else if a.len() == 1 { assert(a[0].disp() == w[0]); } }
pub proof fn same_push<T: VDisp>(a: Seq<T>, w: Seq<Seq<char>>, x: T) requires same_texts(a, w) ensures same_texts(a.push(x), w.push(x.disp()))
{ assert forall|i: int| 0 <= i < a.push(x).len() implies (#[trigger] a.push(x)[i]).disp() == w.push(x.disp())[i] by { if i < a.len() { assert(a[i].disp() == w[i]); } } }
pub broadcast proof fn pushed<T: VDisp>(a: Seq<T>, w: Seq<Seq<char>>, x: T) requires #[trigger] same_texts(a, w) ensures same_texts(#[trigger] a.push(x), w.push(x.disp())) { same_push(a, w, x); }
pub broadcast proof fn none_yet<T: VDisp>() ensures same_texts(#[trigger] Seq::<T>::empty(), Seq::empty()) { }
pub open spec fn texts(a: Seq<String>) -> Seq<Seq<char>> { Seq::new(a.len(), |i: int| a[i]@) }
pub broadcast proof fn join4<T: VDisp>(s: Seq<T>, sep: Seq<char>) requires s.len() == 4 ensures #[trigger] join_text(s, sep) == s[0].disp() + sep + s[1].disp() + sep + s[2].disp() + sep + s[3].disp()
{ reveal_with_fuel(join_text, 5); let a = s.drop_last(); let c = a.drop_last(); let d = c.drop_last(); assert(d.len() == 1); assert(join_text(d, sep) == s[0].disp()); assert(join_text(c, sep) == s[0].disp() + sep + s[1].disp()); assert(join_text(a, sep) == s[0].disp() + sep + s[1].disp() + sep + s[2].disp()); }
/// the texts that are not empty
pub open spec fn nonempty(s: Seq<Seq<char>>) -> Seq<Seq<char>> { s.filter(|t: Seq<char>| t.len() > 0) }
pub open spec fn opt(b: bool, t: Seq<char>) -> Seq<Seq<char>> { if b { seq![t] } else { Seq::empty() } }
}
pub use txt::*;
// ---- columns ----
pub open spec fn yes(b: bool, t: Seq<char>) -> Seq<char> { if b { t } else { Seq::empty() } }
pub uninterp spec fn pg_name(t: PgType) -> Seq<char>;
/// the storage type of a column type
pub open spec fn storage(b: Db, t: SqlType) -> Seq<char> { match b {
  Db::Pg => match t { SqlType::Bool => "BOOLEAN"@, SqlType::Int => "INTEGER"@, SqlType::BigInt => "BIGINT"@, SqlType::Real => "DOUBLE PRECISION"@, SqlType::Text => "TEXT"@, SqlType::Blob => "BYTEA"@,
    SqlType::Json => "JSONB"@, SqlType::Date => "DATE"@, SqlType::Timestamp => "TIMESTAMP"@, SqlType::Custom(SqlTypeCustom::Pg(t)) => pg_name(t) },
  _ => match t { SqlType::Bool => "INTEGER"@, SqlType::Int => "INTEGER"@, SqlType::BigInt => "INTEGER"@, SqlType::Real => "REAL"@, SqlType::Blob => "BLOB"@, _ => "TEXT"@ } } }
/// ... and of a column: a generated PostgreSQL column draws its values from a sequence
pub open spec fn coltype(b: Db, c: AColumn) -> Seq<char> { match (b, ct(c.sqltype)) {
  (_, CT::Name(n)) => n,
  (Db::Pg, CT::Ty(t)) => if c.auto { if t == SqlType::Int { "SERIAL"@ } else { "BIGSERIAL"@ } } else { storage(b, t) },
  (_, CT::Ty(t)) => storage(b, t),
  (_, CT::Deferred(_)) => ""@ } }
/// the backend has such columns
pub open spec fn has_type(b: Db, c: AColumn) -> bool { match (b, ct(c.sqltype)) {
  (Db::Pg, CT::Ty(t)) => c.auto ==> t == SqlType::Int || t == SqlType::BigInt,
  (Db::Pg, CT::Deferred(_)) => false,
  (_, CT::Ty(t)) => !(t is Custom),
  _ => true } }
/// the attributes of a column
pub open spec fn attrs(b: Db, c: AColumn) -> Seq<Seq<char>> {
  opt(!c.nullable, "NOT NULL"@) + opt(c.pk, "PRIMARY KEY"@) + opt(!(b is Pg) && c.auto && !c.pk, "AUTOINCREMENT"@) + opt(c.unique, "UNIQUE"@) }
pub open spec fn coldef(b: Db, c: AColumn) -> Seq<char> { ident(c.name@) + " "@ + coltype(b, c) + (if attrs(b, c).len() == 0 { Seq::empty() } else { " "@ + join_seq(attrs(b, c), " "@) }) }
pub open spec fn coldefs(b: Db, s: Seq<AColumn>, k: int) -> Seq<Seq<char>> { Seq::new(k as nat, |i: int| coldef(b, s[i])) }
/// its reference, if it has one
pub open spec fn resolved_ref(c: AColumn) -> bool { c.reference matches Some(r) ==> r is Literal }
pub open spec fn target(c: AColumn) -> Seq<char> { let l = c.reference->0->Literal_0; ident(l.table_name@) + "("@ + ident(l.column_name@) + ")"@ }
pub open spec fn fkey(c: AColumn) -> Seq<char> { "FOREIGN KEY ("@ + ident(c.name@) + ") REFERENCES "@ + target(c) }
pub open spec fn fkeys(s: Seq<AColumn>, k: int) -> Seq<Seq<char>> decreases k { if k <= 0 { Seq::empty() } else { fkeys(s, k - 1) + opt(s[k - 1].reference is Some, fkey(s[k - 1])) } }
pub open spec fn usable(b: Db, s: Seq<AColumn>) -> bool { forall|i: int| 0 <= i < s.len() ==> fit_col(b, #[trigger] s[i]) }
/// its reference is resolved; the backend can store it (SQLite and Turso; PostgreSQL reports an error otherwise); its default is not a NaN
pub open spec fn fit_col(b: Db, c: AColumn) -> bool { resolved_ref(c) && (!(b is Pg) ==> has_type(b, c)) && (b is Pg ==> (c.default matches Some(v) ==> sqlval_eq(v, v))) }
// ---- tables ----
pub ghost struct TV { pub name: Seq<char>, pub cols: Seq<AColumn> }
pub open spec fn vw(t: ATable) -> TV { TV { name: t.name@, cols: t.columns@ } }
pub type Schema = IMap<Seq<char>, TV>;
pub open spec fn schema(a: ADB) -> Schema { IMap::new(|n: Seq<char>| a.tables.map().dom().contains(n), |n: Seq<char>| vw(a.tables.map()[n])) }
pub open spec fn wf(s: Schema) -> bool { forall|n: Seq<char>| #[trigger] s.dom().contains(n) ==> s[n].name == n }
/// where the column is (the number of columns if there is none)
pub open spec fn at(s: Seq<AColumn>, n: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else if s[0].name@ == n { 0 } else { 1 + at(s.skip(1), n) } }
pub proof fn lemma_at(s: Seq<AColumn>, n: Seq<char>, k: int)
  requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).name@ != n, k == s.len() || s[k].name@ == n
  ensures at(s, n) == k
  decreases s.len()
{ if k > 0 { assert(s[0].name@ != n); assert forall|i: int| 0 <= i < k - 1 implies (#[trigger] s.skip(1)[i]).name@ != n by { assert(s[i + 1].name@ != n); } lemma_at(s.skip(1), n, k - 1); } }
pub proof fn lemma_at_is(s: Seq<AColumn>, n: Seq<char>)
  ensures 0 <= at(s, n) <= s.len(), at(s, n) < s.len() ==> s[at(s, n)].name@ == n, forall|i: int| 0 <= i < at(s, n) ==> (#[trigger] s[i]).name@ != n
  decreases s.len()
{ if s.len() > 0 && s[0].name@ != n { lemma_at_is(s.skip(1), n); assert forall|i: int| 0 <= i < at(s, n) implies (#[trigger] s[i]).name@ != n by { if i > 0 { assert(s.skip(1)[i - 1].name@ != n); } } } }
pub open spec fn put(s: Seq<AColumn>, c: AColumn) -> Seq<AColumn> { if at(s, c.name@) < s.len() { s.update(at(s, c.name@), c) } else { s.push(c) } }
pub open spec fn other_name(n: Seq<char>) -> spec_fn(AColumn) -> bool { |c: AColumn| c.name@ != n }
pub open spec fn less(s: Seq<AColumn>, n: Seq<char>) -> Seq<AColumn> { s.filter(other_name(n)) }
pub proof fn lemma_put_twice(s: Seq<AColumn>, c: AColumn) ensures put(put(s, c), c) == put(s, c)
{ let n = c.name@; lemma_at_is(s, n); let k = at(s, n); let p = put(s, c);
  assert forall|i: int| 0 <= i < k implies (#[trigger] p[i]).name@ != n by { assert(s[i].name@ != n); }
  lemma_at(p, n, k); assert(put(p, c) =~= p); }
pub proof fn lemma_less_twice(s: Seq<AColumn>, n: Seq<char>) ensures less(less(s, n), n) == less(s, n) decreases s.len()
{ reveal(Seq::filter); if s.len() > 0 { let d = s.drop_last(); lemma_less_twice(d, n); if s.last().name@ != n { assert(less(s, n) =~= less(d, n).push(s.last())); assert(less(s, n).drop_last() =~= less(d, n)); } } }
/// the schema after an operation
pub open spec fn step(s: Schema, op: Operation) -> Schema { match op {
  Operation::AddTable(t) => s.insert(t.name@, vw(t)),
  Operation::AddTableIfNotExists(t) => s.insert(t.name@, vw(t)),
  Operation::RemoveTable(n) => s.remove(n@),
  Operation::AddColumn(t, c) => if s.dom().contains(t@) { s.insert(t@, TV { name: s[t@].name, cols: put(s[t@].cols, c) }) } else { s },
  Operation::RemoveColumn(t, c) => if s.dom().contains(t@) { s.insert(t@, TV { name: s[t@].name, cols: less(s[t@].cols, c@) }) } else { s },
  Operation::ChangeColumn(t, _, c) => if s.dom().contains(t@) { s.insert(t@, TV { name: s[t@].name, cols: put(s[t@].cols, c) }) } else { s },
  Operation::AddTableConstraints(_) => s,
  Operation::RemoveTableConstraints(_) => s } }
pub open spec fn steps(s: Schema, ops: Seq<Operation>, k: int) -> Schema decreases k { if k <= 0 { s } else { step(steps(s, ops, k - 1), ops[k - 1]) } }
pub proof fn lemma_step_wf(s: Schema, op: Operation) requires wf(s) ensures wf(step(s, op))
{ let t = step(s, op); assert forall|n: Seq<char>| #[trigger] t.dom().contains(n) implies t[n].name == n by { if s.dom().contains(n) { } } }
/// doing the change of a column again changes nothing
pub proof fn lemma_step_twice(s: Schema, op: Operation) requires op is ChangeColumn || op is RemoveColumn ensures step(step(s, op), op) == step(s, op)
{ match op {
    Operation::ChangeColumn(t, _, c) => { if s.dom().contains(t@) { lemma_put_twice(s[t@].cols, c); } }
    Operation::RemoveColumn(t, c) => { if s.dom().contains(t@) { lemma_less_twice(s[t@].cols, c@); } }
    _ => {} }
  assert(step(step(s, op), op) =~= step(s, op)); }
// ---- default values of columns added to existing tables ----
pub uninterp spec fn epoch() -> NaiveDateTime;
pub uninterp spec fn day_one() -> NaiveDate;
pub uninterp spec fn json_null() -> JsonVal;
pub open spec fn neutral(t: SqlType, v: SqlVal) -> bool { match t {
  SqlType::Bool => v == SqlVal::Bool(false), SqlType::Int => v == SqlVal::Int(0), SqlType::BigInt => v == SqlVal::Int(0), SqlType::Real => v == SqlVal::Real(0.0),
  SqlType::Text => v is Text && v->Text_0@.len() == 0, SqlType::Blob => v is Blob && v->Blob_0@.len() == 0, SqlType::Json => v == SqlVal::Json(json_null()),
  SqlType::Date => v == SqlVal::Date(day_one()), SqlType::Timestamp => v == SqlVal::Timestamp(epoch()), SqlType::Custom(_) => false } }
/// the declared default, or NULL if that is allowed, or the neutral value of the type
pub open spec fn initial(c: AColumn, v: SqlVal) -> bool { match c.default { Some(d) => v == d, None => if c.nullable { v is Null } else { ct(c.sqltype) matches CT::Ty(t) && neutral(t, v) } } }
pub open spec fn has_initial(c: AColumn) -> bool { c.default is Some || c.nullable || (ct(c.sqltype) matches CT::Ty(t) && !(t is Custom)) }
/// `t` is `before` followed by the literal of the column's first value
pub open spec fn with_initial(b: Db, c: AColumn, before: Seq<char>, t: Seq<char>) -> bool {
  exists|v: SqlVal, l: Seq<char>| #![trigger initial(c, v), denotes(v, l)] initial(c, v) && denotes(v, l) && t == before + (if v is Null && c.reference is Some { " REFERENCES "@ + target(c) } else { Seq::empty() }) + " DEFAULT "@ + l + ";"@ }
/// the neutral values have literals
pub broadcast axiom fn zero_finite() ensures #[trigger] finite(0.0);
// ---- statements ----
pub open spec fn drop_text(n: Seq<char>) -> Seq<char> { "DROP TABLE "@ + ident(n) + ";"@ }
pub open spec fn drop_col_text(t: Seq<char>, c: Seq<char>) -> Seq<char> { "ALTER TABLE "@ + ident(t) + " DROP COLUMN "@ + ident(c) + ";"@ }
pub open spec fn rename_text(a: Seq<char>, b: Seq<char>) -> Seq<char> { "ALTER TABLE "@ + ident(a) + " RENAME TO "@ + ident(b) + ";"@ }
pub open spec fn names(s: Seq<AColumn>, k: int) -> Seq<Seq<char>> { Seq::new(k as nat, |i: int| ident(s[i].name@)) }
pub open spec fn if_new(b: bool) -> Seq<char> { yes(b, "IF NOT EXISTS "@) }
pub open spec fn indented(s: Seq<Seq<char>>, k: int) -> Seq<Seq<char>> { Seq::new(k as nat, |i: int| "    "@ + s[i]) }
/// the definition of a table: every column, and what its columns refer to
pub open spec fn create_text(b: Db, t: TV, new: bool, r: Seq<char>) -> bool {
  let d = coldefs(b, t.cols, t.cols.len() as int); let f = fkeys(t.cols, t.cols.len() as int); let start = "CREATE TABLE "@ + if_new(new) + ident(t.name);
  match b {
    Db::Sqlite => r == start + " (\n"@ + join_seq(d, ",\n"@) + (if f.len() == 0 { Seq::empty() } else { ",\n"@ + join_seq(f, "\n"@) }) + "\n) STRICT;"@,
    // on one line, or on several
    Db::Turso => r == start + " ("@ + join_seq(d + f, ", "@) + ");"@ || r == start + " ("@ + "\n"@ + join_seq(indented(d + f, (d + f).len() as int), ",\n"@) + "\n);"@,
    Db::Pg => r == start + " (\n"@ + join_seq(d, ",\n"@) + "\n);"@ } }
pub proof fn lemma_fkeys(s: Seq<AColumn>, k: int, i: int) requires 0 <= i < fkeys(s, k).len() ensures fkeys(s, k)[i].len() > 0 decreases k
{ if k > 0 { reveal_strlit("FOREIGN KEY ("); if i < fkeys(s, k - 1).len() { lemma_fkeys(s, k - 1, i); } } }
pub broadcast proof fn some_fkeys(s: Seq<AColumn>, k: int, sep: Seq<char>) ensures (#[trigger] join_seq(fkeys(s, k), sep)).len() == 0 <==> fkeys(s, k).len() == 0
{ let f = fkeys(s, k); if f.len() > 0 { lemma_fkeys(s, k, f.len() - 1); } }
pub proof fn lemma_if_new() ensures "CREATE TABLE IF NOT EXISTS "@ == "CREATE TABLE "@ + "IF NOT EXISTS "@ { reveal_strlit("CREATE TABLE IF NOT EXISTS "); reveal_strlit("CREATE TABLE "); reveal_strlit("IF NOT EXISTS "); assert("CREATE TABLE IF NOT EXISTS "@ =~= "CREATE TABLE "@ + "IF NOT EXISTS "@); }
/// the rows are copied by the names of the new table's columns
pub open spec fn copy_text(b: Db, old: Seq<char>, new: TV, r: Seq<char>) -> bool {
  let n = names(new.cols, new.cols.len() as int); let i = "INSERT INTO "@ + ident(new.name);
  r == i + " SELECT "@ + join_seq(n, ", "@) + " FROM "@ + ident(old) + ";"@ || (b is Turso && r == i + " SELECT\n    "@ + join_seq(n, ",\n    "@) + "\nFROM "@ + ident(old) + ";"@) }
/// a table is changed by making the new one beside it, copying the rows, and putting it in the place of the old one
pub open spec fn tmp(n: Seq<char>) -> Seq<char> { n + "__butane_tmp"@ }
pub open spec fn change_text(b: Db, old: TV, cols: Seq<AColumn>, r: Seq<char>) -> bool {
  exists|a: Seq<char>, c: Seq<char>| #![trigger create_text(b, TV { name: tmp(old.name), cols }, false, a), copy_text(b, old.name, TV { name: tmp(old.name), cols }, c)] create_text(b, TV { name: tmp(old.name), cols }, false, a) && copy_text(b, old.name, TV { name: tmp(old.name), cols }, c)
    && r == a + "\n"@ + c + "\n"@ + drop_text(old.name) + "\n"@ + rename_text(tmp(old.name), old.name) }
// ---- PostgreSQL ----
pub open spec fn pg_fkey(t: Seq<char>, c: AColumn) -> Seq<char> { let l = c.reference->0->Literal_0; "ALTER TABLE "@ + ident(t) + " ADD FOREIGN KEY ("@ + ident(c.name@) + ") REFERENCES "@ + ident(l.table_name@) + "("@ + ident(l.column_name@) + ");"@ }
pub open spec fn pg_fkeys(t: Seq<char>, s: Seq<AColumn>, k: int) -> Seq<Seq<char>> decreases k { if k <= 0 { Seq::empty() } else { pg_fkeys(t, s, k - 1) + opt(s[k - 1].reference is Some, pg_fkey(t, s[k - 1])) } }
/// constraints have the names PostgreSQL gives them
pub open spec fn pg_drop_fkey(t: Seq<char>, c: Seq<char>) -> Seq<char> { "ALTER TABLE "@ + ident(t) + " DROP CONSTRAINT "@ + t + "_"@ + c + "_fkey;"@ }
pub open spec fn pg_drop_fkeys(t: Seq<char>, s: Seq<AColumn>, k: int) -> Seq<Seq<char>> decreases k { if k <= 0 { Seq::empty() } else { pg_drop_fkeys(t, s, k - 1) + opt(s[k - 1].reference is Some, pg_drop_fkey(t, s[k - 1].name@)) } }
pub open spec fn same_default(a: AColumn, c: AColumn) -> bool { match (a.default, c.default) { (None, None) => true, (Some(x), Some(y)) => sqlval_eq(x, y), _ => false } }
pub open spec fn basetype(c: AColumn) -> Seq<char> { match ct(c.sqltype) { CT::Name(n) => n, CT::Ty(t) => storage(Db::Pg, t), CT::Deferred(_) => Seq::empty() } }
pub open spec fn and(s: Seq<Seq<char>>, b: bool, t: Seq<char>) -> Seq<Seq<char>> { if b { s.push(t) } else { s } }
/// one statement for each attribute in which the columns differ; `l`: the literal of the new default
pub open spec fn pg_change(t: Seq<char>, a: AColumn, c: AColumn, l: Seq<char>) -> Seq<Seq<char>> {
  let alter = "ALTER TABLE "@ + ident(t) + " ALTER COLUMN "@ + ident(a.name@);
  let s1 = and(Seq::empty(), ct(a.sqltype) != ct(c.sqltype), alter + " SET DATA TYPE "@ + basetype(c) + ";"@);
  let s2 = and(s1, a.nullable != c.nullable, alter + " "@ + (if c.nullable { "DROP"@ } else { "SET"@ }) + " NOT NULL;"@);
  let s3 = and(s2, a.pk != c.pk && c.pk, "ALTER TABLE "@ + ident(t) + " DROP CONSTRAINT IF EXISTS "@ + t + "_pkey;"@);
  let s4 = and(s3, a.pk != c.pk && c.pk, "ALTER TABLE "@ + ident(t) + " ADD PRIMARY KEY ("@ + ident(c.name@) + ");"@);
  let s5 = and(s4, a.unique != c.unique && c.unique, "ALTER TABLE "@ + ident(t) + " ADD UNIQUE ("@ + ident(c.name@) + ");"@);
  let s6 = and(s5, a.unique != c.unique && !c.unique, "ALTER TABLE "@ + ident(t) + " DROP CONSTRAINT "@ + t + "_"@ + a.name@ + "_key;"@);
  let s7 = and(s6, !same_default(a, c) && c.default is None, alter + " DROP DEFAULT;"@);
  let s8 = and(s7, !same_default(a, c) && c.default is Some, alter + " SET DEFAULT "@ + l + ";"@);
  let s9 = and(s8, !same_ref(a.reference, c.reference) && a.reference is Some, pg_drop_fkey(t, a.name@));
  and(s9, !same_ref(a.reference, c.reference) && c.reference is Some, pg_fkey(t, c)) }
pub open spec fn pg_change_text(t: Seq<char>, a: AColumn, c: AColumn, r: Seq<char>) -> bool { if !same_default(a, c) && c.default is Some { exists|l: Seq<char>| #[trigger] denotes_pg(c.default->0, l) && r == join_seq(pg_change(t, a, c, l), "\n"@) } else { r == join_seq(pg_change(t, a, c, Seq::empty()), "\n"@) } }
pub open spec fn pg_change_fails(a: AColumn, c: AColumn) -> bool { ct(a.sqltype) is Deferred || ct(c.sqltype) is Deferred || (!same_default(a, c) && c.default is Some && !literal_exists(c.default->0)) }
/// a column added to a table with rows: they get the initial value, or the next numbers of the sequence
pub open spec fn pg_add(t: Seq<char>, c: AColumn) -> Seq<char> { "ALTER TABLE "@ + ident(t) + " ADD COLUMN "@ + coldef(Db::Pg, c) }
pub open spec fn pg_with_ref(x: Seq<char>, t: Seq<char>, c: AColumn) -> Seq<char> { if c.reference is Some { x + "\n"@ + pg_fkey(t, c) } else { x } }
pub open spec fn pg_added(t: Seq<char>, c: AColumn, r: Seq<char>) -> bool {
  if c.auto { r == pg_with_ref(pg_add(t, c) + ";"@, t, c) } else { exists|v: SqlVal, l: Seq<char>| #![trigger initial(c, v), denotes_pg(v, l)] initial(c, v) && denotes_pg(v, l) && r == pg_with_ref(pg_add(t, c) + " DEFAULT "@ + l + ";"@, t, c) } }
pub open spec fn pg_add_fails(c: AColumn) -> bool { !has_type(Db::Pg, c) || (!c.auto && (!has_initial(c) || (c.default is Some && !literal_exists(c.default->0)))) }
pub open spec fn pg_op_text(s: Schema, op: Operation, r: Seq<char>) -> bool { match op {
  Operation::AddTable(t) => create_text(Db::Pg, vw(t), false, r),
  Operation::AddTableIfNotExists(t) => create_text(Db::Pg, vw(t), true, r),
  Operation::RemoveTable(n) => r == drop_text(n@),
  Operation::AddTableConstraints(t) => r == join_seq(pg_fkeys(t.name@, t.columns@, t.columns@.len() as int), "\n"@),
  Operation::RemoveTableConstraints(t) => r == join_seq(pg_drop_fkeys(t.name@, t.columns@, t.columns@.len() as int), "\n"@),
  Operation::AddColumn(t, c) => pg_added(t@, c, r),
  Operation::RemoveColumn(t, n) => r == drop_col_text(t@, n@),
  // (a change of the name is not among the operations that comparing schemas gives)
  Operation::ChangeColumn(t, a, c) => if s.dom().contains(t@) { a.name@ == c.name@ ==> pg_change_text(t@, a, c, r) } else { r.len() == 0 } } }
pub open spec fn pg_op_fails(s: Schema, op: Operation) -> bool { match op {
  Operation::AddTable(t) => !typed(t.columns@), Operation::AddTableIfNotExists(t) => !typed(t.columns@), Operation::RemoveTableConstraints(t) => !typed(t.columns@),
  Operation::AddColumn(_, c) => pg_add_fails(c), Operation::ChangeColumn(t, a, c) => pg_change_fails(a, c), _ => false } }
pub open spec fn typed(s: Seq<AColumn>) -> bool { forall|i: int| 0 <= i < s.len() ==> has_type(Db::Pg, #[trigger] s[i]) }
/// the SQL of one operation on a schema
pub open spec fn op_text(b: Db, s: Schema, op: Operation, r: Seq<char>) -> bool { if b is Pg { pg_op_text(s, op, r) } else { match op {
  Operation::AddTable(t) => create_text(b, vw(t), false, r),
  Operation::AddTableIfNotExists(t) => create_text(b, vw(t), true, r),
  Operation::RemoveTable(n) => r == drop_text(n@),
  Operation::AddTableConstraints(_) => r.len() == 0,
  Operation::RemoveTableConstraints(_) => r.len() == 0,
  Operation::AddColumn(t, c) => with_initial(b, c, "ALTER TABLE "@ + ident(t@) + " ADD COLUMN "@ + coldef(b, c), r),
  Operation::RemoveColumn(t, n) => s.dom().contains(t@) && at(s[t@].cols, n@) < s[t@].cols.len() && { let c = s[t@].cols[at(s[t@].cols, n@)];
    if c.reference is Some || c.unique || c.pk { change_text(b, s[t@], less(s[t@].cols, n@), r) } else { r == drop_col_text(t@, n@) } },
  Operation::ChangeColumn(t, _, c) => if s.dom().contains(t@) { change_text(b, s[t@], put(s[t@].cols, c), r) } else { r.len() == 0 } } } }
/// there is no SQL for it: a column without a default, or one that is not there
pub open spec fn op_fails(b: Db, s: Schema, op: Operation) -> bool { if b is Pg { pg_op_fails(s, op) } else { match op {
  Operation::AddColumn(t, c) => !has_initial(c) || (c.default is Some && !literal_exists(c.default->0)),
  Operation::RemoveColumn(t, n) => !s.dom().contains(t@) || at(s[t@].cols, n@) >= s[t@].cols.len(),
  _ => false } } }
/// what is asked of operations and schemas: references are resolved, and there are no types the backend cannot store
pub open spec fn fit_op(b: Db, op: Operation) -> bool { match op {
  Operation::AddTable(t) => usable(b, t.columns@), Operation::AddTableIfNotExists(t) => usable(b, t.columns@), Operation::AddTableConstraints(t) => usable(b, t.columns@), Operation::RemoveTableConstraints(t) => usable(b, t.columns@),
  Operation::AddColumn(_, c) => usable(b, seq![c]), Operation::ChangeColumn(_, a, c) => usable(b, seq![c]) && (b is Pg ==> usable(b, seq![a])), _ => true } }
pub open spec fn fit(b: Db, s: Schema) -> bool { forall|n: Seq<char>| #[trigger] s.dom().contains(n) ==> usable(b, s[n].cols) }
pub proof fn lemma_less_usable(b: Db, s: Seq<AColumn>, n: Seq<char>) requires usable(b, s) ensures usable(b, less(s, n)) decreases s.len()
{ reveal(Seq::filter); if s.len() > 0 { let d = s.drop_last(); assert(usable(b, d)) by { assert forall|i: int| 0 <= i < d.len() implies fit_col(b, #[trigger] d[i]) by { assert(d[i] == s[i]); } }
    lemma_less_usable(b, d, n); let l = less(d, n); assert(s.last() == s[s.len() - 1]); if s.last().name@ != n { assert forall|i: int| 0 <= i < l.push(s.last()).len() implies fit_col(b, #[trigger] l.push(s.last())[i]) by { if i < l.len() { assert(fit_col(b, l[i])); } } } } }
pub proof fn lemma_put_usable(b: Db, s: Seq<AColumn>, c: AColumn) requires usable(b, s), usable(b, seq![c]) ensures usable(b, put(s, c))
{ lemma_at_is(s, c.name@); let p = put(s, c); assert(seq![c][0] == c); assert forall|i: int| 0 <= i < p.len() implies fit_col(b, #[trigger] p[i]) by { if i < s.len() { assert(fit_col(b, s[i])); } assert(fit_col(b, seq![c][0])); } }
pub proof fn lemma_step_fit(b: Db, s: Schema, op: Operation) requires fit(b, s), fit_op(b, op) ensures fit(b, step(s, op))
{ let t = step(s, op);
  assert forall|n: Seq<char>| #[trigger] t.dom().contains(n) implies usable(b, t[n].cols) by {
    if s.dom().contains(n) { assert(usable(b, s[n].cols)); match op { Operation::AddColumn(_, c) => lemma_put_usable(b, s[n].cols, c), Operation::ChangeColumn(_, _, c) => lemma_put_usable(b, s[n].cols, c), Operation::RemoveColumn(_, c) => lemma_less_usable(b, s[n].cols, c@), _ => {} } } } }
pub broadcast axiom fn eq_null(a: SqlVal) ensures #[trigger] sqlval_eq(a, SqlVal::Null) == (a is Null);
/// SQLite and Turso: one text for each operation on the schema which the operations before it leave, the empty ones left out
pub open spec fn op_texts(b: Db, s: Schema, ops: Seq<Operation>, w: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < w.len() ==> op_text(b, steps(s, ops, i), ops[i], #[trigger] w[i]) }
pub open spec fn migration_text(b: Db, s: Schema, ops: Seq<Operation>, r: Seq<char>) -> bool { exists|w: Seq<Seq<char>>| w.len() == ops.len() && #[trigger] op_texts(b, s, ops, w) && r == join_seq(nonempty(w), "\n"@) + "\n"@ }
pub proof fn lemma_op_texts(b: Db, s: Schema, ops: Seq<Operation>, w: Seq<Seq<char>>, w2: Seq<Seq<char>>)
  requires op_texts(b, s, ops, w), w2.len() == w.len() + 1, forall|i: int| 0 <= i < w.len() ==> #[trigger] w2[i] == w[i], op_text(b, steps(s, ops, w.len() as int), ops[w.len() as int], w2.last())
  ensures op_texts(b, s, ops, w2)
{ assert forall|i: int| 0 <= i < w2.len() implies op_text(b, steps(s, ops, i), ops[i], #[trigger] w2[i]) by { if i < w.len() { assert(w2[i] == w[i]); } } }
