//! C08: a foreign key always denotes one object, loaded or not.
use crate::check;
use crate::common::*;
use crate::models::*;
use crate::probe::*;
use butane_core::fkey::{ForeignKey, ForeignKeyOpsAsync, ForeignKeyOpsSync};
use butane_core::{AsPrimaryKey, AutoPk, DataObject, FromSql, SqlVal, ToSql};
use std::fmt::Debug;

fn history<T: DataObject + Clone + Debug + AsPrimaryKey<T>>(db: &Probe, r: &mut Rng, key: T::PKType, other: T::PKType, obj: T, present: bool, drop: &str, restore: &str, change: &str) -> R
where
    T::PKType: Debug + Clone + PartialEq + Sync,
{
    db.raw(drop);
    if present {
        db.raw(restore);
    }
    let sql = key.to_sql();
    let how = r.below(5);
    let (mut fk, built): (ForeignKey<T>, &str) = match how {
        0 => (ForeignKey::from_pk(key.clone()), "from_pk"),
        1 => (ForeignKey::from(obj.clone()), "from(object)"),
        2 => (ForeignKey::from(&obj), "from(&object)"),
        3 => (ForeignKey::from_sql_ref(sql.as_ref()).unwrap(), "from_sql_ref"),
        _ => (ForeignKey::from_sql(sql.clone()).unwrap(), "from_sql"),
    };
    let mut hist = format!("{} {built} {key:?}{}: ", T::TABLE, if present { "" } else { " (absent)" });
    let mut present = present;
    let mut changed = false;
    let mut loaded: Option<String> = if how == 1 { Some(format!("{obj:?}")) } else { None };
    for _ in 0..2 + r.below(9) {
        db.take();
        match r.below(12) {
            0 => {
                hist += "pk; ";
                check!(fk.pk() == key, "key", "{hist}: pk() is {:?}", fk.pk());
                check!(*fk.as_pk() == key, "key", "{hist}: as_pk() is {:?}", fk.as_pk());
            }
            1 => {
                hist += "to_sql; ";
                check!(fk.to_sql() == sql, "stored", "{hist}: stored as {:?}", fk.to_sql());
            }
            2 => {
                hist += "to_sql_ref; ";
                check!(SqlVal::from(fk.to_sql_ref()) == sql, "stored", "{hist}: stored as {:?}", fk.to_sql_ref());
            }
            3 => {
                hist += "into_sql; ";
                let v = fk.clone().into_sql();
                check!(v == sql, "stored", "{hist}: stored as {v:?}");
            }
            4 => {
                hist += "eq; ";
                check!(fk == obj && fk == ForeignKey::<T>::from_pk(key.clone()) && fk == ForeignKey::from(obj.clone()) && fk == fk.clone(), "compare", "{hist}: differs from itself");
                check!(fk != ForeignKey::<T>::from_pk(other.clone()), "compare", "{hist}: equals key {other:?}");
            }
            5 => {
                hist += "get; ";
                match (&loaded, fk.get()) {
                    (None, Err(_)) => {}
                    (Some(l), Ok(o)) => check!(&format!("{o:?}") == l, "contents", "{hist}: holds {o:?}, loaded {l}"),
                    (l, g) => return fail("contents", format!("{hist}: get() gives {g:?}, loaded {l:?}")),
                }
                check!(db.take().is_empty(), "contents", "{hist}: get() asks the database");
            }
            6 => {
                hist += "clone; ";
                fk = fk.clone();
            }
            7 => {
                hist += if present { "delete row; " } else { "insert row; " };
                db.raw(if present { drop } else { restore });
                present = !present;
                changed = false;
            }
            8 if present && !change.is_empty() => {
                hist += "change row; ";
                db.raw(change);
                changed = true;
            }
            _ => {
                let asy = r.chance(1, 2);
                let failing = r.chance(1, 4);
                hist += &format!("load{}{}; ", if asy { " async" } else { "" }, if failing { " (query fails)" } else { "" });
                db.fail_at(failing.then_some(0));
                let res = if asy { now(ForeignKeyOpsAsync::load(&fk, db)) } else { ForeignKeyOpsSync::load(&fk, db) }.map(|o| (format!("{o:?}"), *o.pk() == key));
                db.fail_at(None);
                let log = db.take();
                match (&loaded, res) {
                    (Some(l), Ok((o, _))) => {
                        check!(&o == l, "reloaded", "{hist}: gives {o}, loaded before {l}");
                        check!(log.is_empty(), "fetched-again", "{hist}: asks the database again: {log:?}");
                    }
                    (Some(_), Err(e)) => return fail("reloaded", format!("{hist}: fails with {e} though loaded")),
                    (None, Ok((o, same))) => {
                        check!(present && !failing, "load", "{hist}: gives {o} though there is nothing to load");
                        check!(same, "load-key", "{hist}: gives {o}");
                        check!(changed || o == format!("{obj:?}"), "load", "{hist}: gives {o}, stored {obj:?}");
                        check!(log.len() == 1, "fetched-again", "{hist}: asks {log:?}");
                        loaded = Some(o);
                    }
                    (None, Err(e)) => check!(!present || failing, "load", "{hist}: fails with {e} though the object is there ({log:?})"),
                }
            }
        }
    }
    Ok(hist)
}
fn auto(k: i64) -> AutoPk<i64> {
    AutoPk::from_sql(SqlVal::BigInt(k)).unwrap()
}
/// several threads use one reference at the same time
fn threads(r: &mut Rng) -> R {
    let k = r.below(1000) as i32;
    let from_obj = r.chance(3, 4);
    let fk = if from_obj { ForeignKey::from(Slow { id: SlowKey(k) }) } else { ForeignKey::from_pk(SlowKey(k)) };
    let name = format!("four threads store one reference made {} {k}", if from_obj { "from an object with key" } else { "from key" });
    let go = std::sync::Barrier::new(4);
    let got: Vec<Option<SqlVal>> = std::thread::scope(|s| {
        let h: Vec<_> = (0..4).map(|i| s.spawn({ let (fk, go) = (&fk, &go); move || { go.wait(); if i % 2 == 0 { fk.to_sql() } else { SqlVal::from(fk.to_sql_ref()) } } })).collect();
        h.into_iter().map(|h| h.join().ok()).collect()
    });
    check!(got.iter().all(|v| *v == Some(SqlVal::Int(k))), "threads", "{name}: get {got:?} (None: a panic)");
    Ok(name)
}
pub fn prop() -> Prop {
    let mut s: Option<Probe> = None;
    Prop {
        id: "C08",
        rule: "references to objects with integer, text and generated keys, built in all five ways, then up to ten steps (report the key, store, compare, get, clone, load synchronously or asynchronously with and without a failing query, change or remove the row) on SQLite; and four threads storing one reference; distinct by history",
        enumerated: 200,
        run: Box::new(move |c, _| {
            let db = s.get_or_insert_with(|| Probe::sqlite(DDL));
            db.fail_at(None);
            db.take();
            let mut r = Rng::new(match c { Case::Enum(i) => i as u64 + 4000, Case::Rand(s) => s });
            if r.chance(1, 40) {
                return threads(&mut r);
            }
            let p = r.chance(3, 4);
            match r.below(3) {
                0 => {
                    let k = *r.pick(&["a", "", "it's", "ü%"]);
                    let q = k.replace('\'', "''");
                    history(db, &mut r, k.to_string(), "other".to_string(), Tag { name: k.to_string() }, p, "DELETE FROM tag", &format!("INSERT INTO tag VALUES ('{q}'), ('zz')"), "")
                }
                1 => {
                    let k = *r.pick(&[0, -1, 7, i32::MAX, i32::MIN]);
                    let mut tags = butane_core::many::Many::new();
                    tags.ensure_init("item_tags_Many", SqlVal::Int(k), butane_core::SqlType::Int);
                    let o = Item { code: k, label: "l".into(), weight: 1.5, tags };
                    history(db, &mut r, k, 5, o, p, "DELETE FROM item", &format!("INSERT INTO item VALUES ({k}, 'l', 1.5), (123, 'm', 2.0)"), "UPDATE item SET label = 'new'")
                }
                _ => {
                    let k = *r.pick(&[1, 9, i64::MAX]);
                    let o = Blog { id: auto(k), name: "b".into() };
                    history(db, &mut r, auto(k), auto(3), o, p, "DELETE FROM blog", &format!("INSERT INTO blog VALUES (17, 'z'), ({k}, 'b')"), "UPDATE blog SET name = 'new'")
                }
            }
        }),
    }
}
