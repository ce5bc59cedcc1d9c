//! C16: migrations created between random schemas, with recording backends and a recording collection; copies; migrations kept in memory against a model.
use crate::check;
use crate::common::*;
use crate::schemas::*;
use butane_core::db::*;
use butane_core::migrations::adb::*;
use butane_core::migrations::*;
use butane_core::{Error, Result, SqlType};
use nonempty::NonEmpty;
use std::borrow::Cow;
use std::collections::BTreeMap;

/// a backend whose script says what it was asked for
#[derive(Clone, Debug)]
struct Rec {
    name: &'static str,
    fails: Option<usize>,
    calls: std::sync::Arc<std::sync::atomic::AtomicUsize>,
}
fn script(b: &str, a: &ADB, ops: &[Operation]) -> String {
    // some have nothing to do
    match ops.len() * 7 + a.tables().count() + b.len() {
        n if n % 5 == 0 => return String::new(),
        n if n % 11 == 0 => return "\n".into(),
        _ => {}
    }
    format!("{b}: {:?} / {:?}", view(a), ops)
}
#[async_trait::async_trait]
impl Backend for Rec {
    fn name(&self) -> &'static str {
        self.name
    }
    fn row_id_column(&self) -> Option<&'static str> {
        None
    }
    fn create_migration_sql(&self, current: &ADB, ops: Vec<Operation>) -> Result<String> {
        let n = self.calls.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if self.fails == Some(n) {
            return Err(Error::Internal("no script".into()));
        }
        Ok(script(self.name, current, &ops))
    }
    fn connect(&self, _: &str) -> Result<Connection> {
        unreachable!()
    }
    async fn connect_async(&self, _: &str) -> Result<ConnectionAsync> {
        unreachable!()
    }
}
/// stands for a script that is not there
const NONE: &str = "(none)";
type Sqls = Vec<(String, String, String)>;
/// what a migration was told, in order
#[derive(Clone, Debug)]
struct Told {
    name: String,
    base: ADB,
    tables: Vec<(ATable, Option<String>)>,
    sql: Sqls,
    types: Vec<(TypeKey, DeferredSqlType)>,
    prev: Option<Option<String>>,
    /// this call fails
    fails: Option<usize>,
    calls: usize,
}
impl PartialEq for Told {
    fn eq(&self, o: &Told) -> bool {
        self.name == o.name
    }
}
impl Told {
    fn new(name: &str) -> Told {
        Told { name: name.into(), base: ADB::new(), tables: vec![], sql: vec![], types: vec![], prev: None, fails: None, calls: 0 }
    }
    fn call(&mut self) -> Result<()> {
        self.calls += 1;
        if self.fails == Some(self.calls - 1) {
            return Err(Error::Internal("refused".into()));
        }
        Ok(())
    }
}
impl Migration for Told {
    fn db(&self) -> Result<ADB> {
        Ok(self.base.clone())
    }
    fn migration_from(&self) -> Result<Option<Cow<'_, str>>> {
        Ok(self.prev.clone().flatten().map(Cow::from))
    }
    fn name(&self) -> Cow<'_, str> {
        Cow::from(&self.name)
    }
    fn up_sql(&self, b: &str) -> Result<Option<String>> {
        Ok(self.sql.iter().find(|s| s.0 == b && s.1 != NONE).map(|s| s.1.clone()))
    }
    fn down_sql(&self, b: &str) -> Result<Option<String>> {
        Ok(self.sql.iter().find(|s| s.0 == b && s.2 != NONE).map(|s| s.2.clone()))
    }
    fn sql_backends(&self) -> Result<Vec<String>> {
        Ok(self.sql.iter().map(|s| s.0.clone()).collect())
    }
}
impl MigrationMut for Told {
    fn add_modified_table(&mut self, t: &ATable) -> Result<()> {
        self.call()?;
        Ok(self.tables.push((t.clone(), None)))
    }
    fn add_unmodified_table(&mut self, t: &ATable, from: &str) -> Result<()> {
        self.call()?;
        Ok(self.tables.push((t.clone(), Some(from.into()))))
    }
    fn delete_table(&mut self, _: &str) -> Result<()> {
        Err(Error::Internal("delete_table was called".into()))
    }
    fn add_sql(&mut self, b: &str, u: &str, d: &str) -> Result<()> {
        self.call()?;
        Ok(self.sql.push((b.into(), u.into(), d.into())))
    }
    fn remove_sql(&mut self, _: &str) -> Result<()> {
        Err(Error::Internal("remove_sql was called".into()))
    }
    fn add_type(&mut self, k: TypeKey, t: DeferredSqlType) -> Result<()> {
        self.call()?;
        Ok(self.types.push((k, t)))
    }
    fn set_migration_from(&mut self, prev: Option<String>) -> Result<()> {
        self.call()?;
        Ok(self.prev = Some(prev))
    }
}
#[derive(Clone)]
struct Recs {
    now: Told,
    added: Vec<Told>,
    fails: Option<usize>,
}
impl Migrations for Recs {
    type M = Told;
    fn get_migration(&self, name: &str) -> Option<Told> {
        self.added.iter().find(|m| m.name == name).cloned()
    }
    fn latest(&self) -> Option<Told> {
        self.added.last().cloned()
    }
}
impl MigrationsMut for Recs {
    fn new_migration(&self, name: &str) -> Told {
        Told { fails: self.fails, ..Told::new(name) }
    }
    fn add_migration(&mut self, m: Told) -> Result<()> {
        Ok(self.added.push(m))
    }
    fn delete_migrations(&mut self) -> Result<()> {
        Err(Error::Internal("delete_migrations was called".into()))
    }
    fn current(&mut self) -> &mut Told {
        &mut self.now
    }
    fn clear_current(&mut self) -> Result<()> {
        Err(Error::Internal("clear_current was called".into()))
    }
}
fn tattrs(t: &ATable) -> (String, Vec<Attrs>) {
    (t.name.clone(), t.columns.iter().map(attrs).collect())
}
fn touched(o: &Operation) -> Option<&str> {
    match o {
        Operation::AddTable(t) | Operation::AddTableIfNotExists(t) | Operation::AddTableConstraints(t) => Some(&t.name),
        Operation::AddColumn(t, _) | Operation::RemoveColumn(t, _) | Operation::ChangeColumn(t, _, _) => Some(t),
        Operation::RemoveTable(_) | Operation::RemoveTableConstraints(_) => None,
    }
}
fn bookkeeping(t: &ATable) -> bool {
    let want = AColumn::new("name", DeferredSqlType::KnownId(TypeIdentifier::Ty(SqlType::Text)), false, true, false, false, None, None);
    t.name == "butane_migrations" && t.columns.len() == 1 && attrs(&t.columns[0]) == attrs(&want)
}
fn create(r: &mut Rng) -> R {
    let first = r.chance(1, 3);
    let old = if first { ADB::new() } else { schema(r, true) };
    let new = match r.below(6) {
        0 => schema(r, true),
        1 => old.clone(),
        _ => edit(r, &old, true),
    };
    let n = 1 + r.below(3);
    let names = ["sqlite", "pg", "turso"];
    let rot = r.below(3);
    let fails = if r.chance(1, 6) { Some(r.below(2)) } else { None };
    let backs: Vec<Box<dyn Backend>> = (0..n).map(|i| Box::new(Rec { name: names[(i + rot) % 3], fails: if i == n - 1 { fails } else { None }, calls: Default::default() }) as Box<dyn Backend>).collect();
    let backs = NonEmpty::from_vec(backs).unwrap();
    let pred = Told { base: old.clone(), prev: Some(if r.chance(1, 2) { Some("zero".into()) } else { None }), ..Told::new("one") };
    let from = if first { None } else { Some(pred) };
    let refused = if r.chance(1, 6) { Some(r.below(8)) } else { None };
    let had = if first { vec![] } else { vec![from.clone().unwrap()] };
    let mut ms = Recs { now: Told { base: new.clone(), ..Told::new("current") }, added: had.clone(), fails: refused };
    let by_current = r.chance(1, 2);
    let got = if by_current { ms.create_migration(&backs, "two", from.as_ref()) } else { ms.create_migration_to(&backs, "two", from.as_ref(), new.clone()) };
    let what = format!("from {:?} to {:?}", from.as_ref().map(|m| view(&m.base)), view(&new));
    let ops = diff(&old, &new);
    if view(&old) == view(&new) {
        check!(matches!(got, Ok(false)) && ms.added.len() == had.len(), "no change", "the schemas agree, yet {got:?} and {} migrations\n{what}", ms.added.len());
        return Ok("agree".into());
    }
    let all_calls = new.tables().count() + n + 1;
    if fails.is_some() || refused.is_some_and(|k| k < all_calls) {
        check!(got.is_err() && ms.added.len() == had.len(), "failed step", "a step failed (script {fails:?}, call {refused:?}), yet {got:?} and {} migrations\n{what}", ms.added.len());
        return Ok("refused".into());
    }
    check!(matches!(got, Ok(true)) && ms.added.len() == had.len() + 1, "created", "{got:?} and {} migrations\n{what}", ms.added.len());
    let m = ms.added.last().unwrap();
    check!(m.name == "two", "name", "the migration is named {}", m.name);
    let want_prev = Some(from.as_ref().map(|m| m.name.clone()));
    check!(m.prev == want_prev, "predecessor", "the predecessor is {:?}, not {want_prev:?}", m.prev);
    let want: Vec<_> = new.tables().map(|t| (tattrs(t), if ops.iter().any(|o| touched(o) == Some(&t.name)) { None } else { Some("one".to_string()) })).collect();
    let have: Vec<_> = m.tables.iter().map(|(t, f)| (tattrs(t), f.clone())).collect();
    check!(have == want, "tables", "tables stored {have:?}\nnot           {want:?}\n{what}");
    for (t, f) in &m.tables {
        let same = old.get_table(&t.name).is_some_and(|o| view(&old)[&o.name] == view(&new)[&t.name]);
        check!(same == f.is_some(), "tables", "{} is {} and stored as {}\n{what}", t.name, if same { "unchanged" } else { "changed" }, if f.is_some() { "unmodified" } else { "modified" });
    }
    check!(m.types.is_empty(), "types", "{:?}", m.types);
    check!(m.sql.len() == n, "scripts", "{} scripts for {n} backends", m.sql.len());
    for (i, s) in m.sql.iter().enumerate() {
        let b = names[(i + rot) % 3];
        let mut up = ops.clone();
        if first {
            up.push(Operation::AddTableIfNotExists(migrations_table()));
        }
        let want = (b.to_string(), script(b, &old, &up), script(b, &new, &diff(&new, &old)));
        check!(*s == want, "scripts", "script\n{s:?}\nnot\n{want:?}\n{what}");
    }
    check!(bookkeeping(&migrations_table()), "bookkeeping", "the bookkeeping table is {:?}", migrations_table());
    Ok(format!("{} tables, {} operations", m.tables.len(), ops.len()))
}
fn types(r: &mut Rng) -> Vec<(TypeKey, DeferredSqlType)> {
    let m: BTreeMap<TypeKey, DeferredSqlType> = (0..r.below(4)).map(|i| (if r.chance(1, 2) { TypeKey::PK(format!("T{i}")) } else { TypeKey::CustomType(format!("C{i}")) }, DeferredSqlType::KnownId(TypeIdentifier::Ty(a_type(r))))).collect();
    m.into_iter().collect()
}
fn copy(r: &mut Rng) -> R {
    let mut base = schema(r, true);
    let tys = types(r);
    for (k, t) in &tys {
        base.add_type(k.clone(), t.clone());
    }
    let mut sql: Sqls = vec![];
    for b in ["sqlite", "pg", "turso"] {
        if r.chance(2, 3) {
            let u = if r.chance(1, 5) { NONE.into() } else if r.chance(1, 4) { String::new() } else { format!("up {b} {}", r.below(9)) };
            let d = if r.chance(1, 5) { NONE.into() } else if r.chance(1, 4) { String::new() } else { format!("down {b} {}", r.below(9)) };
            sql.push((b.into(), u, d));
        }
    }
    let prev = if r.chance(1, 3) { None } else { Some("zero".to_string()) };
    let from = Told { base, sql: sql.clone(), prev: Some(prev.clone()), ..Told::new("src") };
    let mut to = Told { prev: if r.chance(1, 2) { Some(Some("other".into())) } else { None }, ..Told::new("dst") };
    to.fails = if r.chance(1, 6) { Some(r.below(6)) } else { None };
    let got = copy_migration(&from, &mut to);
    let kept: Sqls = sql.into_iter().filter(|s| s.1 != NONE && s.2 != NONE).collect();
    let total = 1 + from.base.tables().count() + tys.len() + kept.len();
    if to.fails.is_some_and(|k| k < total) {
        check!(got.is_err(), "copy", "a step failed yet the copy succeeded");
        return Ok("refused".into());
    }
    check!(got.is_ok(), "copy", "{got:?}");
    let want: Vec<_> = from.base.tables().map(|t| (tattrs(t), None)).collect();
    let have: Vec<_> = to.tables.iter().map(|(t, f)| (tattrs(t), f.clone())).collect();
    check!(have == want && to.name == "dst" && to.prev == Some(prev.clone()), "copy", "copied tables {have:?} not {want:?}; predecessor {:?} not {prev:?}", to.prev);
    check!(to.sql == kept, "copy", "copied scripts {:?} not {kept:?}", to.sql);
    check!(format!("{:?}", to.types) == format!("{tys:?}"), "copy", "copied types {:?} not {tys:?}", to.types);
    Ok("copied".into())
}
/// the model of one migration in memory
#[derive(Clone, Default, Debug, PartialEq)]
struct Model {
    name: String,
    tables: BTreeMap<String, Vec<Attrs>>,
    types: BTreeMap<TypeKey, String>,
    sql: BTreeMap<String, (String, String)>,
    prev: Option<String>,
}
fn model(m: &MemMigration) -> Result<Model> {
    let db = m.db()?;
    let mut sql = BTreeMap::new();
    for b in m.sql_backends()? {
        let (Some(u), Some(d)) = (m.up_sql(&b)?, m.down_sql(&b)?) else { return Err(Error::Internal(format!("{b} is listed and has no scripts"))) };
        sql.insert(b, (u, d));
    }
    for b in ["sqlite", "pg", "turso", "none"] {
        if (m.up_sql(b)?.is_some() || m.down_sql(b)?.is_some()) && !sql.contains_key(b) {
            return Err(Error::Internal(format!("{b} has a script and is not listed")));
        }
    }
    Ok(Model { name: m.name().into_owned(), tables: db.tables().map(|t| (t.name.clone(), t.columns.iter().map(attrs).collect())).collect(), types: db.types().iter().map(|(k, t)| (k.clone(), format!("{t:?}"))).collect(), sql, prev: m.migration_from()?.map(|s| s.into_owned()) })
}
fn keyed(r: &mut Rng) -> ATable {
    let n = *r.pick(&TABS);
    let mut t = table(r, n, false);
    if t.pk().is_none() {
        t.add_column(AColumn::new("id", DeferredSqlType::KnownId(TypeIdentifier::Ty(a_type(r))), false, true, false, false, None, None));
    }
    t
}
fn memory(r: &mut Rng) -> R {
    let mut ms = MemMigrations::new();
    let mut now = Model { name: "current".into(), ..Default::default() };
    let mut all: BTreeMap<String, Model> = BTreeMap::new();
    let mut latest: Option<String> = None;
    let mut log = vec![];
    for _ in 0..1 + r.below(12) {
        match r.below(10) {
            9 => {
                for (k, t) in types(r) {
                    log.push(format!("type {k:?}"));
                    check!(ms.current().add_type(k.clone(), t.clone()).is_ok(), "memory", "add_type failed");
                    now.types.insert(k, format!("{t:?}"));
                }
            }
            0..=2 => {
                let t = keyed(r);
                let un = r.chance(1, 2);
                log.push(format!("add {}", t.name));
                let got = if un { ms.current().add_unmodified_table(&t, "x") } else { ms.current().add_modified_table(&t) };
                check!(got.is_ok(), "memory", "{got:?}");
                now.tables.insert(t.name.clone(), t.columns.iter().map(attrs).collect());
            }
            3 => {
                let n = *r.pick(&TABS);
                log.push(format!("delete {n}"));
                check!(ms.current().delete_table(n).is_ok(), "memory", "delete_table failed");
                now.tables.remove(n);
            }
            4 => {
                let b = *r.pick(&["sqlite", "pg", "turso"]);
                let (u, d) = (format!("u{}", r.below(9)), format!("d{}", r.below(9)));
                log.push(format!("sql {b} {u} {d}"));
                check!(ms.current().add_sql(b, &u, &d).is_ok(), "memory", "add_sql failed");
                now.sql.insert(b.into(), (u, d));
            }
            5 => {
                let b = *r.pick(&["sqlite", "pg", "turso"]);
                log.push(format!("no sql {b}"));
                check!(ms.current().remove_sql(b).is_ok(), "memory", "remove_sql failed");
                now.sql.remove(b);
            }
            6 => {
                let p = if r.chance(1, 3) { None } else { Some(format!("m{}", r.below(4))) };
                log.push(format!("from {p:?}"));
                check!(ms.current().set_migration_from(p.clone()).is_ok(), "memory", "set_migration_from failed");
                now.prev = p;
            }
            7 => {
                // a new one with what is current
                let n = format!("m{}", r.below(4));
                log.push(format!("new {n}"));
                let mut m = ms.new_migration(&n);
                check!(model(&m).ok() == Some(Model { name: n.clone(), ..Default::default() }), "memory", "a new migration holds {:?}", model(&m));
                let src = ms.current().clone();
                check!(copy_migration(&src, &mut m).is_ok() && ms.add_migration(m).is_ok(), "memory", "copying failed");
                let follows = match &latest {
                    None => true,
                    Some(l) => now.prev.as_ref() == Some(l),
                };
                if follows {
                    latest = Some(n.clone());
                }
                all.insert(n.clone(), Model { name: n, ..now.clone() });
            }
            _ => {
                if r.chance(1, 3) {
                    log.push("delete all".into());
                    check!(ms.delete_migrations().is_ok(), "memory", "delete_migrations failed");
                    all.clear();
                    latest = None;
                } else {
                    log.push("clear".into());
                    check!(ms.clear_current().is_ok(), "memory", "clear_current failed");
                    now = Model { name: "current".into(), ..Default::default() };
                }
            }
        }
        let got = model(ms.current());
        check!(got.as_ref().ok() == Some(&now), "memory", "after {log:?} the current state is\n{got:?}\nnot\n{now:?}");
        for i in 0..4 {
            let n = format!("m{i}");
            let got = ms.get_migration(&n).map(|m| model(&m).map_err(|e| e.to_string()));
            let want = all.get(&n).cloned().map(Ok);
            check!(got == want, "memory", "after {log:?} {n} is\n{got:?}\nnot\n{want:?}");
        }
        check!(ms.get_migration("current").is_none(), "memory", "the current state is listed");
        let l = ms.latest().map(|m| m.name().into_owned());
        check!(l == latest, "memory", "after {log:?} the newest is {l:?}, not {latest:?}");
    }
    Ok(format!("{log:?}"))
}
fn case(c: Case) -> R {
    let seed = match c {
        Case::Enum(i) => i as u64 + 16000,
        Case::Rand(s) => s,
    };
    let mut r = Rng::new(seed);
    match seed % 4 {
        0 => copy(&mut r),
        1 => memory(&mut r),
        _ => create(&mut r),
    }
}
pub fn prop() -> Prop {
    Prop { id: "C16", rule: "migrations created between random schemas with recording backends and collections (any step may fail), copies of random migrations, and random histories of migrations in memory against a model", enumerated: 400, run: Box::new(|c, _| case(c)) }
}
