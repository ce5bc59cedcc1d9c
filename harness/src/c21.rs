//! C21: migrations kept in a directory give back what they were given.
use crate::check;
use crate::common::*;
use crate::schemas::*;
use butane_core::migrations::adb::*;
use butane_core::migrations::*;
use butane_core::{SqlType, SqlVal};
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;

#[derive(Clone, Default)]
struct M {
    tables: BTreeMap<String, ATable>,
    bases: BTreeMap<String, String>,
    types: Vec<(TypeKey, DeferredSqlType)>,
    has_info: bool,
    from: Option<String>,
    backends: Vec<String>,
    scripts: BTreeMap<(String, bool), String>,
}
#[derive(Clone, Default)]
struct World {
    all: BTreeMap<String, M>,
    latest: Option<String>,
}
const NAMES: [&str; 5] = ["m0", "20240102_second", "third one", "x", "zz"];
const BACKENDS: [&str; 3] = ["sqlite", "pg", "turso"];
fn with_nl(t: &str) -> String {
    if t.ends_with('\n') { t.into() } else { format!("{t}\n") }
}
impl World {
    /// the chain that ends with the latest, oldest first
    fn chain(&self) -> Vec<String> {
        let mut v = vec![];
        let mut n = self.latest.clone();
        while let Some(x) = n.filter(|x| self.all.contains_key(x)) {
            n = self.all[&x].from.clone();
            v.push(x);
        }
        v.reverse();
        v
    }
    fn db(&self, n: &str) -> Option<ADB> {
        let m = &self.all[n];
        let mut a = ADB::new();
        for (t, b) in &m.bases {
            a.replace_table(self.all.get(b)?.tables.get(t)?.clone());
        }
        for t in m.tables.values() {
            a.replace_table(t.clone());
        }
        for (k, t) in &m.types {
            a.add_type(k.clone(), t.clone());
        }
        a.resolve_types().ok()?;
        Some(a)
    }
}
fn agrees(ms: &FsMigrations, w: &World, dir: &PathBuf, hist: &str) -> Result<(), Fail> {
    for n in NAMES.iter().chain(&["current"]) {
        let m = ms.get_migration(n);
        let Some(k) = w.all.get(*n) else {
            check!(m.is_none(), "given-back", "{hist}: {n:?} was never made but is there");
            continue;
        };
        let Some(m) = m else { return fail("given-back", format!("{hist}: {n:?} is not found")) };
        check!(m.name() == *n, "given-back", "{hist}: {n:?} is named {:?}", m.name());
        let from = m.migration_from();
        check!(matches!(&from, Ok(f) if f.as_deref() == k.from.as_deref()), "predecessor", "{hist}: {n:?} follows {from:?}, was told {:?}", k.from);
        let b = m.sql_backends();
        check!(matches!(&b, Ok(b) if *b == k.backends), "scripts", "{hist}: {n:?} has scripts for {b:?}, was given {:?}", k.backends);
        for be in BACKENDS {
            for up in [true, false] {
                let got = if up { m.up_sql(be) } else { m.down_sql(be) };
                let want = k.scripts.get(&(be.to_string(), up));
                check!(matches!(&got, Ok(g) if g.as_ref() == want), "scripts", "{hist}: {n:?} {be} up={up}: {got:?}, was given {want:?}");
            }
        }
        let (got, want) = (m.db(), w.db(n));
        match (&got, &want) {
            (Ok(g), Some(a)) => check!(g.tables().eq(a.tables()) && g.types() == a.types(), "tables", "{hist}: {n:?} holds {g:?}, was given {a:?}"),
            (Err(_), None) => {}
            _ => return fail("tables", format!("{hist}: {n:?} gives {got:?}, was given {want:?}")),
        }
    }
    for n in ["state.json", ".gitignore", "nothing"] {
        check!(ms.get_migration(n).is_none(), "given-back", "{hist}: {n:?} is found as a migration");
    }
    let l = ms.latest().map(|m| m.name().to_string());
    let want = w.latest.clone().filter(|x| w.all.contains_key(x));
    check!(l == want, "latest", "{hist}: the latest is {l:?}, expected {want:?}");
    let chain = w.chain();
    let got = ms.all_migrations().map(|v| v.iter().map(|m| m.name().to_string()).collect::<Vec<_>>());
    check!(matches!(&got, Ok(v) if *v == chain), "latest", "{hist}: the chain is {got:?}, expected {chain:?}");
    let det: BTreeSet<String> = w.all.keys().filter(|n| *n != "current" && !chain.contains(n)).map(|n| dir.join(n).display().to_string()).collect();
    let got = ms.detached_migration_paths().map(|v| v.into_iter().collect::<BTreeSet<_>>());
    check!(matches!(&got, Ok(v) if *v == det), "detached", "{hist}: detached are {got:?}, expected {det:?}");
    Ok(())
}
/// with a primary key, and without defaults whose decimal digits may be misread (known finding)
fn finite(mut t: ATable) -> ATable {
    if t.pk().is_none() {
        t.columns.insert(0, AColumn::new("pk", DeferredSqlType::Known(SqlType::Int), false, true, false, false, None, None));
    }
    for c in t.columns.iter_mut() {
        if matches!(c.default(), Some(SqlVal::Real(x)) if (*x * 8.0).fract() != 0.0 || x.abs() > 1e15) {
            *c = AColumn::new(c.name(), DeferredSqlType::Known(SqlType::Real), c.nullable(), c.is_pk(), c.is_auto(), c.unique(), Some(SqlVal::Real(0.125 * c.name().len() as f64)), c.reference().clone());
        }
    }
    t
}
fn history(r: &mut Rng, dir: &PathBuf) -> Result<String, Fail> {
    let mut w = World::default();
    let mut hist = String::new();
    // one after the other, with tables of their own and those of the one before
    let mut plan: Vec<(usize, usize)> = vec![];
    if r.chance(2, 3) {
        for i in 0..2 + r.below(3) {
            plan.push((10, i));
            for _ in 0..r.below(3) {
                plan.push((if i > 0 && r.chance(1, 2) { 3 } else { 0 }, i));
            }
            if r.chance(1, 3) {
                plan.extend([(6, i), (6, i), (6, i), (8, i)]);
            }
            plan.push((11, i));
        }
        plan.reverse();
    }
    for _ in 0..plan.len() + 2 + r.below(14) {
        let mut ms = from_root(dir);
        let planned = plan.pop();
        let idx = planned.map_or(r.below(5), |p| p.1);
        let cur = planned.is_none() && r.chance(1, 5);
        let n = if cur { "current" } else { NAMES[idx] };
        let mut m = if cur { ms.current().clone() } else { ms.get_migration(n).unwrap_or_else(|| ms.new_migration(n)) };
        let before = w.clone();
        let had = w.all.contains_key(n);
        let mut k = w.all.get(n).cloned().unwrap_or_default();
        let mut want = true;
        let tab = *r.pick(&TABS);
        let be = *r.pick(&BACKENDS);
        let op = planned.map_or(r.below(16), |p| p.0);
        let res: butane_core::Result<()> = match op {
            0..=2 => {
                let (all, tn) = (r.chance(1, 4), tab);
                let t = finite(table(r, tn, all));
                hist += &format!("{n}.add_modified_table({tn}); ");
                k.tables.insert(t.name.clone(), t.clone());
                m.add_modified_table(&t)
            }
            3 | 4 => {
                let f = if planned.is_some() { NAMES[idx - 1] } else { *r.pick(&NAMES) };
                hist += &format!("{n}.add_unmodified_table({tab}, {f}); ");
                want = w.chain().iter().any(|x| x == f);
                if want {
                    k.bases.insert(tab.into(), w.all[f].bases.get(tab).cloned().unwrap_or(f.into()));
                    k.has_info = true;
                }
                // the name alone tells which one is meant
                m.add_unmodified_table(&table(r, tab, false), f)
            }
            5 => {
                hist += &format!("{n}.delete_table({tab}); ");
                want = k.tables.remove(tab).is_some();
                m.delete_table(tab)
            }
            6 | 7 => {
                let t = ["", "\n", "CREATE TABLE a (x INT);", "DROP TABLE a;\n", "INSERT INTO a VALUES ('ä\n');\n\n", " ", "DROP TABLE a;\nDROP TABLE b;", "\nx"];
                let (u, d) = (*r.pick(&t), *r.pick(&t));
                hist += &format!("{n}.add_sql({be}, {u:?}, {d:?}); ");
                k.scripts.insert((be.into(), true), with_nl(u));
                k.scripts.insert((be.into(), false), with_nl(d));
                if !k.backends.iter().any(|b| b == be) {
                    k.backends.push(be.into());
                    k.has_info = true;
                }
                m.add_sql(be, u, d)
            }
            8 => {
                hist += &format!("{n}.remove_sql({be}); ");
                want = k.scripts.contains_key(&(be.to_string(), true));
                if want {
                    k.scripts.remove(&(be.to_string(), true));
                    k.scripts.remove(&(be.to_string(), false));
                    k.backends.retain(|b| b != be);
                    k.has_info = true;
                }
                m.remove_sql(be)
            }
            9 => {
                let key = if r.chance(1, 2) { TypeKey::CustomType(["CT", "a::B", "C:D", ""][r.below(4)].into()) } else { TypeKey::PK(tab.into()) };
                let t = deferred(r, false);
                hist += &format!("{n}.add_type({key}, {t:?}); ");
                k.types.retain(|(x, _)| *x != key);
                k.types.push((key.clone(), t.clone()));
                m.add_type(key, t)
            }
            10 => {
                let f = if cur { Some(NAMES[r.below(5)]) } else if idx == 0 || planned.is_none() && r.chance(1, 4) { None } else if planned.is_some() { Some(NAMES[idx - 1]) } else { Some(NAMES[r.below(idx)]) };
                hist += &format!("{n}.set_migration_from({f:?}); ");
                k.from = f.map(String::from);
                k.has_info = true;
                m.set_migration_from(f.map(String::from))
            }
            11 if !cur && had => {
                hist += &format!("add_migration({n}); ");
                if w.latest.is_none() || w.latest == k.from {
                    w.latest = Some(n.into());
                }
                ms.add_migration(m)
            }
            12 if r.chance(1, 3) => {
                hist += "detach_latest; ";
                match w.latest.as_ref().and_then(|l| w.all.get(l)).and_then(|l| l.from.clone()) {
                    Some(f) => w.latest = Some(f),
                    None => want = false,
                }
                ms.detach_latest_migration()
            }
            13 if had => {
                let o = NAMES[r.below(5)];
                if o == n {
                    continue;
                }
                hist += &format!("{n}.copy_to({o}); ");
                let mut ok = w.all.get(o).cloned().unwrap_or_default();
                ok.tables.extend(k.tables.clone());
                ok.scripts.extend(k.scripts.clone());
                if !k.types.is_empty() {
                    ok.types = k.types.clone();
                }
                if k.has_info {
                    (ok.from, ok.bases, ok.backends, ok.has_info) = (k.from.clone(), k.bases.clone(), k.backends.clone(), true);
                }
                // no chain that comes back to itself
                if ok.from.as_ref().is_some_and(|f| NAMES.iter().position(|x| x == f) >= NAMES.iter().position(|x| *x == o)) {
                    continue;
                }
                w.all.insert(o.into(), ok);
                m.copy_to(&mut ms.new_migration(o))
            }
            14 if r.chance(1, 2) => {
                hist += &format!("{n}.delete_db(); ");
                want = had;
                k = M { from: k.from.clone(), has_info: k.has_info, ..M::default() };
                m.delete_db()
            }
            15 if r.chance(1, 3) => {
                hist += "clear_current; ";
                want = w.all.remove("current").is_some();
                let x = ms.clear_current();
                let ok = x.is_ok() == want;
                check!(ok, "outcome", "{hist}: gives {x:?}");
                agrees(&from_root(dir), &w, dir, &hist)?;
                continue;
            }
            12 if r.chance(1, 8) => {
                hist += "delete_migrations; ";
                w.all.retain(|n, _| n == "current");
                w.latest = None;
                let x = ms.delete_migrations();
                check!(x.is_ok(), "outcome", "{hist}: gives {x:?}");
                agrees(&from_root(dir), &w, dir, &hist)?;
                continue;
            }
            _ => continue,
        };
        check!(res.is_ok() == want, "outcome", "{hist}: gives {res:?}, expected success: {want}");
        if want {
            let latest_only = matches!(op, 11 | 12);
            if !latest_only {
                w.all.insert(n.into(), k);
            }
        } else {
            w = before;
            // some make the directory before they find out
            if !had && dir.join(n).is_dir() {
                w.all.insert(n.into(), M::default());
            }
        }
        agrees(&from_root(dir), &w, dir, &hist)?;
    }
    Ok(hist)
}
/// several at once
fn together(r: &mut Rng, dir: &PathBuf) -> Result<String, Fail> {
    let (n, per) = (2 + r.below(5), 1 + r.below(6));
    let made = r.chance(1, 2);
    let m = from_root(dir).new_migration("m0");
    let mut want = BTreeMap::new();
    if made {
        let k = TypeKey::CustomType("first".into());
        want.insert(format!("{k}"), SqlType::Blob);
        if let Err(e) = m.clone().add_type(k, DeferredSqlType::Known(SqlType::Blob)) {
            return fail("types", format!("add_type: {e:?}"));
        }
    }
    let gate = std::sync::Barrier::new(n);
    let types: Vec<Vec<SqlType>> = (0..n).map(|_| (0..per).map(|_| a_type(r)).collect()).collect();
    let readers = r.chance(1, 2);
    let errs = std::sync::Mutex::new(vec![]);
    std::thread::scope(|s| {
        for (i, ts) in types.iter().enumerate() {
            let (mut m, gate, errs) = (m.clone(), &gate, &errs);
            s.spawn(move || {
                gate.wait();
                for (j, t) in ts.iter().enumerate() {
                    if let Err(e) = m.add_type(TypeKey::CustomType(format!("t{i}_{j}")), DeferredSqlType::Known(t.clone())) {
                        errs.lock().unwrap().push(format!("add_type: {e:?}"));
                    }
                    if readers {
                        if let Err(e) = m.db() {
                            errs.lock().unwrap().push(format!("db: {e:?}"));
                        }
                    }
                }
            });
        }
    });
    let what = format!("{n} at once, {per} types each, directory there before: {made}, read in between: {readers}");
    let errs = errs.into_inner().unwrap();
    check!(errs.is_empty(), "types", "{what}: {errs:?}");
    for (i, ts) in types.iter().enumerate() {
        for (j, t) in ts.iter().enumerate() {
            want.insert(format!("CustomType(t{i}_{j})"), t.clone());
        }
    }
    let db = m.db().map_err(|e| Fail { id: "types".into(), what: format!("{what}: {e:?}") })?;
    for (k, t) in want {
        check!(db.types().iter().any(|(x, y)| x.to_string() == k && *y == DeferredSqlType::Known(t.clone())), "types", "{what}: {k} is not {t:?}: {:?}", db.types());
    }
    Ok(what)
}
/// a default whose digits serde_json reads one unit in the last place off
fn exact_default(dir: &PathBuf) -> Result<String, Fail> {
    let x = 1.2916536556874313e-191;
    let mut t = ATable::new("a".into());
    t.columns.push(AColumn::new("id", DeferredSqlType::Known(SqlType::Int), false, true, false, false, None, None));
    t.columns.push(AColumn::new("x", DeferredSqlType::Known(SqlType::Real), false, false, false, false, Some(SqlVal::Real(x)), None));
    let mut m = from_root(dir).new_migration("m0");
    let db = m.add_modified_table(&t).and_then(|_| m.db());
    match db.as_ref().ok().and_then(|d| d.get_table("a")) {
        Some(g) if *g == t => Ok("trivial".into()),
        Some(g) => {
            let near = matches!(g.column("x").map(|c| c.default()), Some(Some(SqlVal::Real(y))) if y.to_bits().abs_diff(x.to_bits()) == 1);
            fail(if near { "json-float-rounding" } else { "tables" }, format!("default {x:e}: given back is {g:?}"))
        }
        None => fail("tables", format!("default {x:e}: {db:?}")),
    }
}
pub fn prop() -> Prop {
    Prop {
        id: "C21",
        rule: "histories of up to about thirty operations on six migrations kept in a directory, all of it read back through a fresh handle after each; several threads adding types at once; distinct by case",
        enumerated: 300,
        run: Box::new(move |c, ctx| {
            let mut r = Rng::new(match c { Case::Enum(i) => i as u64 + 21000, Case::Rand(s) => s });
            let dir = PathBuf::from(&ctx.scratch).join(format!("c21_{}", std::process::id()));
            let _ = std::fs::remove_dir_all(&dir);
            std::fs::create_dir_all(&dir).unwrap();
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if matches!(c, Case::Enum(0)) { exact_default(&dir) } else if r.chance(1, 8) { together(&mut r, &dir) } else { history(&mut r, &dir) }));
            let _ = std::fs::remove_dir_all(&dir);
            match res {
                Ok(x) => x,
                Err(e) => std::panic::resume_unwind(e),
            }
        }),
    }
}
