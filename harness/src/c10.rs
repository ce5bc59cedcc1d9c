//! C10: migrations are applied oldest first, each once, and undone newest first. C11: each of them takes effect with its record or not at all.
use crate::check;
use crate::common::*;
use butane_core::db::*;
use butane_core::migrations::adb::ADB;
use butane_core::migrations::*;
use butane_core::{Error, Result, SqlType, SqlVal};
use std::borrow::Cow;
use std::collections::BTreeSet;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
enum Prev {
    Root,
    After(String),
    Unreadable,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Script {
    Good,
    /// nothing to do
    Void,
    /// fails at this statement
    Bad(usize),
    /// fails when it is committed
    BadEnd,
    /// there is none for this database
    Absent,
    Unreadable,
}
#[derive(Clone, Debug)]
struct Step {
    name: String,
    prev: Prev,
    up: Script,
    down: Script,
}
impl PartialEq for Step {
    fn eq(&self, o: &Step) -> bool {
        self.name == o.name
    }
}
fn tab(name: &str) -> String {
    name.bytes().map(|b| format!("{b:02x}")).collect()
}
fn sql(way: &str, name: &str, s: Script, makes: bool) -> String {
    if s == Script::Void {
        return if name.len() % 2 == 0 { String::new() } else { "-- nothing\n".into() };
    }
    let mut v = vec![
        format!("INSERT INTO oplog (what) VALUES ('{way} {}')", name.replace('\'', "''")),
        if way == "up" { format!("CREATE TABLE IF NOT EXISTS t_{} (a INTEGER)", tab(name)) } else { format!("DROP TABLE IF EXISTS t_{}", tab(name)) },
        "INSERT INTO other VALUES (1)".to_string(),
    ];
    if makes && way == "up" {
        v.push("CREATE TABLE IF NOT EXISTS butane_migrations (name TEXT NOT NULL PRIMARY KEY)".into());
    }
    match s {
        Script::Bad(k) => v.insert(k.min(v.len()), "INSERT INTO nowhere VALUES (1)".into()),
        Script::BadEnd => v.push("INSERT INTO child VALUES (99)".into()),
        _ => {}
    }
    v.join(";\n") + ";"
}
impl Step {
    fn script(&self, backend: &str, way: &str, s: Script) -> Result<Option<String>> {
        match s {
            Script::Absent => Ok(None),
            Script::Unreadable => Err(Error::Internal("unreadable script".into())),
            _ if backend == "sqlite" => Ok(Some(sql(way, &self.name, s, self.prev == Prev::Root))),
            _ => Ok(Some(format!("INSERT INTO oplog (what) VALUES ('for {backend}')"))),
        }
    }
}
impl Migration for Step {
    fn db(&self) -> Result<ADB> {
        Ok(ADB::new())
    }
    fn migration_from(&self) -> Result<Option<Cow<'_, str>>> {
        match &self.prev {
            Prev::Root => Ok(None),
            Prev::After(n) => Ok(Some(Cow::from(n))),
            Prev::Unreadable => Err(Error::Internal("unreadable predecessor".into())),
        }
    }
    fn name(&self) -> Cow<'_, str> {
        Cow::from(&self.name)
    }
    fn up_sql(&self, b: &str) -> Result<Option<String>> {
        self.script(b, "up", self.up)
    }
    fn down_sql(&self, b: &str) -> Result<Option<String>> {
        self.script(b, "down", self.down)
    }
    fn sql_backends(&self) -> Result<Vec<String>> {
        Ok(vec!["sqlite".into(), "pg".into()])
    }
}
#[derive(Clone, Debug)]
struct Steps {
    all: Arc<Vec<Step>>,
    newest: Option<String>,
}
impl Migrations for Steps {
    type M = Step;
    fn get_migration(&self, n: &str) -> Option<Step> {
        self.all.iter().find(|s| s.name == n).cloned()
    }
    fn latest(&self) -> Option<Step> {
        self.newest.as_ref().and_then(|n| self.get_migration(n))
    }
}

/// what is expected of the database
#[derive(Clone, Debug)]
struct World {
    table: bool,
    trigger: bool,
    recorded: BTreeSet<String>,
    barred: BTreeSet<String>,
    oplog: Vec<String>,
}
impl World {
    fn apply(&mut self, m: &Step) -> bool {
        let makes = m.prev == Prev::Root && m.up == Script::Good;
        if !matches!(m.up, Script::Good | Script::Void) || !(self.table || makes) || self.recorded.contains(&m.name) || (self.trigger && self.barred.contains(&m.name)) {
            return false;
        }
        self.table |= makes;
        self.recorded.insert(m.name.clone());
        if m.up == Script::Good {
            self.oplog.push(format!("up {}", m.name));
        }
        true
    }
    fn undo(&mut self, m: &Step) -> bool {
        if !matches!(m.down, Script::Good | Script::Void) || !self.table || (self.trigger && self.barred.contains(&m.name) && self.recorded.contains(&m.name)) {
            return false;
        }
        self.recorded.remove(&m.name);
        if m.down == Script::Good {
            self.oplog.push(format!("down {}", m.name));
        }
        true
    }
}
type Chain = (Vec<Step>, bool); // newest first, and whether its end was reached
fn walk(ms: &Steps, until: impl Fn(&Step) -> bool) -> (Vec<Step>, Option<Option<Step>>) {
    let mut v = vec![];
    let mut m = ms.latest();
    while let Some(x) = m {
        if until(&x) {
            return (v, Some(Some(x)));
        }
        m = match &x.prev {
            Prev::Root => None,
            Prev::After(n) => ms.get_migration(n),
            Prev::Unreadable => return (v, None),
        };
        v.push(x);
    }
    (v, Some(None))
}
fn names(r: Result<Vec<impl Migration>>) -> Option<Vec<String>> {
    r.ok().map(|v| v.iter().map(|m| m.name().to_string()).collect())
}
fn rev(v: Vec<Step>) -> Vec<String> {
    v.into_iter().rev().map(|s| s.name).collect()
}
fn dump(c: &impl ConnectionMethods, table: &str, cols: &[&'static str]) -> Vec<String> {
    let cols: Vec<Column> = cols.iter().map(|n| Column::new(n, SqlType::Text)).collect();
    let mut rows = match c.query(table, &cols, None, None, None, None) {
        Ok(r) => r,
        Err(_) => return vec!["(no such table)".into()],
    };
    let mut out = vec![];
    while let Some(r) = rows.next().unwrap() {
        out.push((0..cols.len()).map(|i| r.get(i, SqlType::Text).ok().map(|v| format!("{:?}", SqlVal::from(v))).unwrap_or("?".into())).collect::<Vec<_>>().join(","));
    }
    out
}
fn texts(v: Vec<String>) -> Vec<String> {
    v.into_iter().map(|s| s.trim_start_matches("Text(\"").trim_end_matches("\")").to_string()).collect()
}
fn setup(r: &mut Rng, all: &[String], deep: bool) -> (Connection, World) {
    let c = butane_core::db::connect(&ConnectionSpec::new("sqlite", ":memory:")).unwrap();
    let ex = |s: &str| ConnectionMethods::execute(&c, s).unwrap();
    ex("PRAGMA foreign_keys = ON");
    ex("CREATE TABLE oplog (n INTEGER PRIMARY KEY AUTOINCREMENT, what TEXT)");
    ex("CREATE TABLE other (a INTEGER)");
    ex("CREATE TABLE parent (id INTEGER PRIMARY KEY)");
    ex("CREATE TABLE child (p INTEGER REFERENCES parent(id) DEFERRABLE INITIALLY DEFERRED)");
    let mut w = World { table: r.chance(2, 3), trigger: false, recorded: Default::default(), barred: Default::default(), oplog: vec![] };
    if w.table {
        ex("CREATE TABLE butane_migrations (name TEXT NOT NULL PRIMARY KEY)");
        // how far the chain was applied, with the occasional hole
        let upto = r.below(all.len() + 1);
        for (i, n) in all.iter().enumerate() {
            if if r.chance(1, 4) { r.chance(1, 2) } else { i < upto } {
                ex(&format!("INSERT INTO butane_migrations VALUES ('{}')", n.replace('\'', "''")));
                w.recorded.insert(n.clone());
            }
        }
        if r.chance(1, 4) {
            ex("INSERT INTO butane_migrations VALUES ('unheard of')");
            w.recorded.insert("unheard of".into());
        }
        if deep && r.chance(1, 3) {
            w.trigger = true;
            ex("CREATE TABLE barred (n TEXT)");
            for n in all {
                if r.chance(1, 4) {
                    ex(&format!("INSERT INTO barred VALUES ('{}')", n.replace('\'', "''")));
                    w.barred.insert(n.clone());
                }
            }
            ex("CREATE TRIGGER no_ins BEFORE INSERT ON butane_migrations WHEN NEW.name IN (SELECT n FROM barred) BEGIN SELECT RAISE(ABORT, 'barred'); END");
            ex("CREATE TRIGGER no_del BEFORE DELETE ON butane_migrations WHEN OLD.name IN (SELECT n FROM barred) BEGIN SELECT RAISE(ABORT, 'barred'); END");
        }
    }
    (c, w)
}
fn agrees(c: &impl ConnectionMethods, w: &World, hist: &str) -> std::result::Result<(), Fail> {
    let log = texts(dump(c, "oplog", &["what"]));
    check!(log == w.oplog, "order", "{hist}: the scripts took effect as {log:?}, expected {:?}", w.oplog);
    let rec: BTreeSet<String> = texts(dump(c, "butane_migrations", &["name"])).into_iter().collect();
    let want: BTreeSet<String> = if w.table { w.recorded.clone() } else { std::iter::once("(no such table)".to_string()).collect() };
    check!(rec == want, "recorded", "{hist}: recorded are {rec:?}, expected {want:?}");
    Ok(())
}
/// one case: `ms` behaves as `model`; some operations in a row
fn history<Ms: Migrations>(r: &mut Rng, ms: &Ms, model: &Steps, c: &mut impl BackendConnection, w: &mut World, hist: &mut String, only_one: bool) -> std::result::Result<(), Fail> {
    let get = |n: &String| ms.get_migration(n);
    for _ in 0..if only_one { 1 + r.below(2) } else { 1 + r.below(4) } {
        let k = if only_one { 10 + r.below(2) } else { r.below(10) };
        match k {
            0 | 1 => {
                *hist += "all_migrations; ";
                let (v, end) = walk(model, |_| false);
                let got = names(ms.all_migrations());
                let want = end.map(|_| rev(v));
                check!(got == want, "list", "{hist}: gives {got:?}, expected {want:?}");
            }
            2 => {
                if model.all.is_empty() {
                    continue;
                }
                let since = r.pick(&model.all).clone();
                *hist += &format!("migrations_since({}); ", since.name);
                let Some(m) = get(&since.name) else { return fail("list", format!("{hist}: no migration {}", since.name)) };
                let (v, end) = walk(model, |x| x.name == since.name);
                let got = names(ms.migrations_since(&m));
                let want = end.flatten().map(|_| rev(v));
                check!(got == want, "list", "{hist}: gives {got:?}, expected {want:?}");
            }
            3 => {
                *hist += "unapplied/last applied; ";
                let found = if w.table { walk(model, |x| w.recorded.contains(&x.name)) } else { (walk(model, |_| false).0, Some(None)) };
                let got = ms.last_applied_migration(c).ok().map(|o| o.map(|m| m.name().to_string()));
                let want = found.1.clone().map(|o| o.map(|m| m.name));
                check!(got == want, "last", "{hist}: last applied is {got:?}, expected {want:?}");
                let want = if found.1 == Some(None) { let (v, e) = walk(model, |_| false); e.map(|_| rev(v)) } else { found.1.map(|_| rev(found.0)) };
                let got = names(ms.unapplied_migrations(c));
                check!(got == want, "list", "{hist}: unapplied are {got:?}, expected {want:?}");
            }
            4..=7 => {
                *hist += "migrate; ";
                let found = if w.table { walk(model, |x| w.recorded.contains(&x.name)) } else { walk(model, |_| false) };
                let want = match found.1 {
                    None => false,
                    Some(_) => found.0.iter().rev().all(|m| w.apply(m)),
                };
                let got = ms.migrate(c);
                check!(got.is_ok() == want, "outcome", "{hist}: gives {got:?}, expected success: {want}");
                agrees(c, w, hist)?;
            }
            8 | 9 => {
                *hist += "unmigrate; ";
                let found = if w.table { walk(model, |x| w.recorded.contains(&x.name)) } else { (vec![], Some(None)) };
                let want = match found.1 {
                    None => false,
                    Some(None) => true,
                    Some(Some(mut m)) => loop {
                        if !w.undo(&m) {
                            break false;
                        }
                        match &m.prev {
                            Prev::Root => break true,
                            Prev::Unreadable => break false,
                            Prev::After(n) => match model.get_migration(n) {
                                Some(x) => m = x,
                                None => break false,
                            },
                        }
                    },
                };
                let got = ms.unmigrate(c);
                check!(got.is_ok() == want, "outcome", "{hist}: gives {got:?}, expected success: {want}");
                agrees(c, w, hist)?;
            }
            _ => {
                if model.all.is_empty() {
                    continue;
                }
                let s = r.pick(&model.all).clone();
                let Some(m) = get(&s.name) else { return fail("list", format!("{hist}: no migration {}", s.name)) };
                *hist += &format!("{} {}; ", if k == 10 { "apply" } else { "downgrade" }, s.name);
                let all = |c: &_| (dump(c, "sqlite_master", &["name", "sql"]), dump(c, "oplog", &["what"]), dump(c, "other", &["a"]), dump(c, "child", &["p"]), dump(c, "butane_migrations", &["name"]));
                let before = all(c);
                let want = if k == 10 { w.apply(&s) } else { w.undo(&s) };
                let got = if k == 10 { m.apply(c) } else { m.downgrade(c) };
                let after = all(c);
                check!(got.is_ok() == want, "outcome", "{hist}: gives {got:?}, expected success: {want}");
                check!(want || before == after, "partial", "{hist}: failed and left {after:?}, before {before:?}");
                let made = after.0.iter().any(|x| x.starts_with(&format!("Text(\"t_{}\")", tab(&s.name))));
                check!(!want || made == (k == 10) || [s.up, s.down][k - 10] == Script::Void, "partial", "{hist}: the schema change is {}", if made { "there" } else { "not there" });
                agrees(c, w, hist)?;
            }
        }
    }
    Ok(())
}
fn case(r: &mut Rng, ctx: &Ctx, one: bool, many: bool) -> R {
    let n = if many { 103 + r.below(40) } else { r.below(7) };
    // names whose order is not the order of the chain
    let mut pool: Vec<String> = (0..if many { 160 } else { 14 }).map(|i| format!("{}{i}", ["m", "a", "z", "k"][r.below(4)])).collect();
    if r.chance(1, 2) {
        // names that differ in case only, or match one another as patterns
        pool.truncate(if many { 150 } else { 3 });
        pool.extend(["n1", "N1", "n_", "n%", "%", "it's", "_1", "*", "n1 "].iter().map(|s| s.to_string()));
    }
    let kind = if many { 6 * r.below(2) } else { r.below(if one { 4 } else { 8 }) }; // 7: on disk, 6 and 5: in memory, otherwise our own
    let faulty = !many && r.chance(1, 2);
    let mut all: Vec<Step> = vec![];
    let script = |r: &mut Rng| if r.chance(1, 12) { Script::Void } else if faulty && r.chance(1, 4) { match r.below(if kind >= 5 { 2 } else { 5 }) { 0 => Script::Bad(r.below(5)), 1 => Script::BadEnd, 2 => Script::Absent, 3 => Script::Unreadable, _ => Script::Good } } else { Script::Good };
    for i in 0..n {
        let name = pool.swap_remove(r.below(pool.len()));
        let prev = if i == 0 { Prev::Root } else { Prev::After(all[i - 1].name.clone()) };
        all.push(Step { name, prev, up: script(r), down: script(r) });
    }
    let newest = all.last().map(|s| s.name.clone());
    // others that are not predecessors of the newest
    for _ in 0..if n > 1 { r.below(3) } else { 0 } {
        let name = pool.swap_remove(r.below(pool.len()));
        let p = r.below(n);
        let prev = if p == n - 1 { Prev::Root } else { Prev::After(all[p].name.clone()) };
        all.push(Step { name, prev, up: script(r), down: script(r) });
    }
    if kind < 5 && faulty && n > 0 && r.chance(1, 3) {
        let k = r.below(n);
        all[k].prev = if r.chance(2, 3) { Prev::Unreadable } else { Prev::After("gone".into()) };
    }
    let order: Vec<String> = all.iter().map(|s| s.name.clone()).collect();
    let model = Steps { all: Arc::new(all), newest };
    let (c, mut w) = setup(r, &order, !many && (one || faulty));
    let kinds = if kind == 7 { "on disk" } else if kind >= 5 { "in memory" } else { "own" };
    let mut hist = format!("{kinds} chain {}; recorded {}{}: ", model.all.iter().map(|s| format!("{}<-{}({:?},{:?})", match &s.prev { Prev::Root => "", Prev::After(n) => n, Prev::Unreadable => "?" }, s.name, s.up, s.down)).collect::<Vec<_>>().join(" "), if w.table { format!("{:?}", w.recorded) } else { "(no table)".into() }, if w.trigger { format!(", barred {:?}", w.barred) } else { String::new() });
    fn fill<Ms: MigrationsMut>(mut ms: Ms, model: &Steps) -> Result<Ms> where Ms::M: MigrationMut {
        for s in model.all.iter() {
            let mut m = ms.new_migration(&s.name);
            if s.up != Script::Absent {
                m.add_sql("sqlite", &s.script("sqlite", "up", s.up)?.unwrap(), &s.script("sqlite", "down", s.down)?.unwrap())?;
            }
            m.add_sql("pg", "nonsense", "nonsense")?;
            m.set_migration_from(match &s.prev { Prev::After(n) => Some(n.clone()), _ => None })?;
            ms.add_migration(m)?;
        }
        Ok(ms)
    }
    match kind {
        7 => {
            let dir = std::path::PathBuf::from(&ctx.scratch).join(format!("c10_{}", std::process::id()));
            let _ = std::fs::remove_dir_all(&dir);
            std::fs::create_dir_all(&dir).unwrap();
            let ms = fill(butane_core::migrations::from_root(&dir), &model);
            let res = match ms {
                Ok(ms) => go(r, &ms, &model, c, &mut w, &mut hist, one),
                Err(e) => fail("outcome", format!("{hist}: not stored: {e:?}")),
            };
            let _ = std::fs::remove_dir_all(&dir);
            res?
        }
        5 | 6 => {
            let ms = fill(MemMigrations::new(), &model).map_err(|e| Fail { id: "outcome".into(), what: format!("{hist}: {e:?}") })?;
            go(r, &ms, &model, c, &mut w, &mut hist, one)?
        }
        _ => go(r, &model.clone(), &model, c, &mut w, &mut hist, one)?,
    }
    Ok(hist)
}
fn go<Ms: Migrations + Send + 'static>(r: &mut Rng, ms: &Ms, model: &Steps, mut c: Connection, w: &mut World, hist: &mut String, one: bool) -> std::result::Result<(), Fail> {
    if !one && r.chance(1, 12) {
        // through the asynchronous connection
        *hist += "(async) ";
        let mut w2 = w.clone();
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
        let found = if w2.table { walk(model, |x| w2.recorded.contains(&x.name)) } else { walk(model, |_| false) };
        let want = match found.1 {
            None => false,
            Some(_) => found.0.iter().rev().all(|m| w2.apply(m)),
        };
        return rt.block_on(async {
            let mut ca = c.into_async().unwrap();
            let got = ms.migrate_async(&mut ca).await;
            *hist += "migrate; ";
            check!(got.is_ok() == want, "outcome", "{hist}: gives {got:?}, expected success: {want}");
            let h = hist.clone();
            let res = ca.with_sync(move |c| Ok(agrees(c, &w2, &h))).await;
            match res {
                Ok(x) => x,
                Err(e) => fail("outcome", format!("{hist}: {e:?}")),
            }
        });
    }
    history(r, ms, model, &mut c, w, hist, one)
}
pub fn prop(one: bool) -> Prop {
    Prop {
        id: if one { "C11" } else { "C10" },
        rule: if one {
            "up to two migrations applied or undone on SQLite, every kind of fault in script, record and commit (deferred constraint); distinct by case"
        } else {
            "chains of up to six migrations and others beside them (own implementation, in memory, on disk), any set of records, faults in scripts, records, commits and predecessors; up to four operations in a row; some through an asynchronous connection; distinct by case"
        },
        enumerated: 300,
        run: Box::new(move |c, ctx| {
            let mut r = Rng::new(match c { Case::Enum(i) => i as u64 + 9000, Case::Rand(s) => s });
            case(&mut r, ctx, one, !one && matches!(c, Case::Enum(i) if i % 60 == 7))
        }),
    }
}
