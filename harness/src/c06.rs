//! C06: saving inserts a new object once and afterwards updates that same row.
use crate::check;
use crate::common::*;
use crate::models::*;
use crate::probe::*;
use butane_core::db::Column;
use butane_core::many::Many;
use butane_core::{AutoPk, DataObject, DataObjectOpsAsync, DataObjectOpsSync, DataResult, FieldType, PrimaryKeyType, SqlVal, ToSql};
use std::collections::BTreeMap;

type Rows = BTreeMap<String, Vec<SqlVal>>;
fn table<T: DataObject>(db: &Probe) -> Rows {
    db.rows(T::TABLE, T::COLUMNS).into_iter().map(|r| (format!("{:?}", r[0]), r)).collect()
}
fn key_text<T: DataObject>(o: &T) -> String {
    if o.pk().is_valid() { format!("{:?}", o.pk().to_sql()) } else { "unassigned".into() }
}
/// what a model's harness side knows about an object
trait Subject: DataObject + Clone + std::fmt::Debug {
    /// the values of the columns after the key
    fn fields(&self) -> Vec<SqlVal>;
    fn alter(&mut self, r: &mut Rng);
    /// pending additions to its relations: (table, key)
    fn link(&mut self, _r: &mut Rng) -> Vec<(&'static str, SqlVal)> {
        vec![]
    }
}
fn text(r: &mut Rng) -> String {
    r.pick(&["", "a", "it's", "ü"]).to_string()
}
impl Subject for Lone {
    fn fields(&self) -> Vec<SqlVal> { vec![] }
    fn alter(&mut self, _: &mut Rng) {}
}
impl Subject for Mark {
    fn fields(&self) -> Vec<SqlVal> { vec![] }
    fn alter(&mut self, _: &mut Rng) {}
    fn link(&mut self, r: &mut Rng) -> Vec<(&'static str, SqlVal)> {
        let t = Tag { name: text(r) };
        self.tags.add(&t).unwrap();
        vec![("mark_tags_Many", t.name.to_sql())]
    }
}
impl Subject for Note {
    fn fields(&self) -> Vec<SqlVal> { vec![self.text.to_sql()] }
    fn alter(&mut self, r: &mut Rng) { self.text = text(r) }
    fn link(&mut self, r: &mut Rng) -> Vec<(&'static str, SqlVal)> {
        let t = Tag { name: text(r) };
        self.tags.add(&t).unwrap();
        vec![("note_tags_Many", t.name.to_sql())]
    }
}
impl Subject for Tag {
    fn fields(&self) -> Vec<SqlVal> { vec![] }
    fn alter(&mut self, _: &mut Rng) {}
}
impl Subject for Blog {
    fn fields(&self) -> Vec<SqlVal> { vec![self.name.to_sql()] }
    fn alter(&mut self, r: &mut Rng) { self.name = text(r) }
}
impl Subject for Item {
    fn fields(&self) -> Vec<SqlVal> { vec![self.label.to_sql(), self.weight.to_sql()] }
    fn alter(&mut self, r: &mut Rng) { self.label = text(r); self.weight = r.below(4) as f64 / 2.0 }
    fn link(&mut self, r: &mut Rng) -> Vec<(&'static str, SqlVal)> {
        let t = Tag { name: text(r) };
        self.tags.add(&t).unwrap();
        vec![("item_tags_Many", t.name.to_sql())]
    }
}
impl Subject for Post {
    fn fields(&self) -> Vec<SqlVal> {
        vec![self.title.to_sql(), self.num.to_sql(), self.blog.to_sql(), self.item.to_sql()]
    }
    fn alter(&mut self, r: &mut Rng) {
        self.title = text(r);
        self.num = r.chance(1, 2).then(|| r.below(9) as i32);
        self.item = r.chance(1, 2).then(|| butane_core::fkey::ForeignKey::from_pk(r.below(9) as i32));
    }
    fn link(&mut self, r: &mut Rng) -> Vec<(&'static str, SqlVal)> {
        let t = Tag { name: text(r) };
        self.tags.add(&t).unwrap();
        vec![("post_tags_Many", t.name.to_sql())]
    }
}
fn links(db: &Probe, t: &str) -> Vec<Vec<SqlVal>> {
    db.rows(t, &[Column::new("owner", butane_core::SqlType::BigInt), Column::new("has", butane_core::SqlType::Text)])
}
fn history<T: Subject>(db: &Probe, r: &mut Rng, mut o: T, others: &[T]) -> R
where
    T::PKType: Sync + std::fmt::Debug,
{
    db.raw(&format!("DELETE FROM {}", T::TABLE));
    for t in ["post_tags_Many", "item_tags_Many", "post_refs_Many", "mark_tags_Many", "note_tags_Many"] {
        db.raw(&format!("DELETE FROM {t}"));
    }
    for x in others {
        let mut x = x.clone();
        x.alter(r);
        DataObjectOpsSync::save(&mut x, db).map_err(|e| Fail { id: "save".into(), what: format!("saving {x:?} fails: {e}") })?;
    }
    let mut hist = format!("{} {} among {} rows: ", T::TABLE, key_text(&o), others.len());
    let pk = Column::new(T::PKCOL, <T::PKType as FieldType>::SQLTYPE);
    let nonauto = cols(&T::COLUMNS[if T::AUTO_PK { 1 } else { 0 }..]);
    let mut pending: Vec<(&'static str, SqlVal)> = vec![];
    for _ in 0..1 + r.below(6) {
        if o.pk().is_valid() {
            let other = match o.pk().to_sql() {
                SqlVal::Int(i) => SqlVal::Int(i ^ 77),
                SqlVal::BigInt(i) => SqlVal::BigInt(i ^ 77),
                SqlVal::Text(t) => SqlVal::Text(t + "x"),
                v => v,
            };
            let mut p = o.clone();
            let res = butane_core::internal::DataObjectInternal::pk_mut(&mut p).initialize(other.clone());
            check!(res.is_ok() && p.pk() == o.pk(), "key-replaced", "{hist}: initialize({other:?}) makes the key {} into {} ({res:?})", key_text(&o), key_text(&p));
        }
        let asy = r.chance(1, 2);
        let fail = if r.chance(1, 4) { Some(r.below(3)) } else { None };
        let before = table::<T>(db);
        db.take();
        match r.below(8) {
            0 | 1 => {
                hist += "alter; ";
                o.alter(r);
            }
            2 => {
                hist += "add link; ";
                pending.extend(o.link(r));
            }
            3 if o.pk().is_valid() => {
                hist += &format!("fetch{}; ", if fail == Some(0) { " (fails)" } else { "" });
                db.fail_at(fail);
                let id = o.pk().clone();
                let (a, b) = if asy { (now(<T as DataObjectOpsAsync<T>>::try_get(db, id.clone())), now(<T as DataObjectOpsAsync<T>>::get(db, id.clone()))) } else { (<T as DataObjectOpsSync<T>>::try_get(db, id.clone()), <T as DataObjectOpsSync<T>>::get(db, id.clone())) };
                db.fail_at(None);
                for (i, x) in [a, b.map(Some)].into_iter().enumerate() {
                    match (x, before.get(&key_text(&o))) {
                        (Ok(Some(x)), Some(row)) => check!(x.pk().to_sql() == row[0] && x.fields() == row[1..], "fetch", "{hist}: gives {x:?}, stored {row:?}"),
                        (Ok(None), None) => check!(i == 0, "fetch", "{hist}: nothing"),
                        (Err(_), _) if fail == Some(i) => {}
                        (Err(butane_core::Error::NoSuchObject), None) if i == 1 => {}
                        (x, row) => return crate::common::fail("fetch", format!("{hist}: {} gives {x:?}, stored {row:?}", ["try_get", "get"][i])),
                    }
                }
                check!(table::<T>(db) == before, "fetch", "{hist}: fetching changes the table");
            }
            4 if o.pk().is_valid() => {
                hist += &format!("delete{}; ", if fail == Some(0) { " (fails)" } else { "" });
                db.fail_at(fail);
                let res = if asy { now(DataObjectOpsAsync::delete(&o, db)) } else { DataObjectOpsSync::delete(&o, db) };
                db.fail_at(None);
                check!(res.is_ok() == (fail != Some(0)), "delete", "{hist}: {res:?}");
                let mut want = before.clone();
                if res.is_ok() {
                    want.remove(&key_text(&o));
                }
                check!(table::<T>(db) == want, "delete", "{hist}: table {:?}, expected {want:?}", table::<T>(db));
            }
            _ => {
                hist += &format!("save{}{}; ", if asy { " async" } else { "" }, fail.map(|f| format!(" (statement {f} fails)")).unwrap_or_default());
                let key_before = key_text(&o);
                let valid = o.pk().is_valid();
                let f = o.fields();
                db.fail_at(fail);
                let res = if asy { now(DataObjectOpsAsync::save(&mut o, db)) } else { DataObjectOpsSync::save(&mut o, db) };
                db.fail_at(None);
                let log = db.take();
                let after = table::<T>(db);
                let vals_of = |v: &[SqlVal]| vals(&v.iter().map(|x| x.as_ref()).collect::<Vec<_>>());
                let row = if T::AUTO_PK && !valid {
                    Some(format!("insert_returning_pk {} {nonauto} {} {}", T::TABLE, cols(&[pk.clone()]), vals_of(&f)))
                } else if T::AUTO_PK && T::COLUMNS.len() == 1 {
                    None
                } else if T::AUTO_PK {
                    Some(format!("update {} {} [{key_before}] {nonauto} {}", T::TABLE, cols(&[pk.clone()]), vals_of(&f)))
                } else {
                    let mut all = vec![o.pk().to_sql()];
                    all.extend(f.iter().cloned());
                    Some(format!("insert_or_replace {} {nonauto} {} {}", T::TABLE, cols(&[pk.clone()]), vals_of(&all)))
                };
                let n = row.is_some() as usize;
                if let Some(row) = &row {
                    check!(log.first().map(|l| &l.0) == Some(row), "statement", "{hist}: sends {:?}, expected {row}", log.first());
                }
                check!(log.iter().skip(n).all(|l| l.0.starts_with("insert_only ") || l.0.starts_with("delete_where ")), "statement", "{hist}: sends {log:?}");
                check!(valid == (key_text(&o) == key_before && valid), "key-replaced", "{hist}: key {key_before} became {}", key_text(&o));
                let row_ok = n == 0 || log[0].1;
                if !row_ok {
                    check!(res.is_err() && log.len() == 1, "after-failure", "{hist}: goes on after the failed row: {log:?} ({res:?})");
                    check!(key_text(&o) == key_before && after == before, "after-failure", "{hist}: key {key_before} became {}, table {before:?} became {after:?}", key_text(&o));
                    continue;
                }
                check!(o.pk().is_valid(), "key", "{hist}: no key after saving");
                let mut want = before.clone();
                let mut full = vec![o.pk().to_sql()];
                full.extend(f.iter().cloned());
                if T::AUTO_PK && !valid {
                    check!(!before.contains_key(&key_text(&o)), "key", "{hist}: the key {} was taken", key_text(&o));
                    want.insert(key_text(&o), full);
                } else if T::AUTO_PK {
                    want.entry(key_text(&o)).and_modify(|e| *e = full);
                } else {
                    want.insert(key_text(&o), full);
                }
                check!(after == want, "rows", "{hist}: table {after:?}, expected {want:?}");
                if res.is_ok() {
                    for (t, h) in pending.drain(..) {
                        let l = links(db, t);
                        check!(l.iter().any(|x| x[1] == h && format!("{:?}", x[0]).contains(&format!("{:?}", o.pk().to_sql()).replace("Int(", "").replace("Big", "").replace(')', ""))), "relations", "{hist}: no link to {h:?} in {l:?}");
                    }
                    check!(log.iter().all(|l| l.1), "relations", "{hist}: a failed statement goes unnoticed: {log:?}");
                } else {
                    check!(log.iter().any(|l| !l.1), "relations", "{hist}: fails without a failing statement: {res:?}");
                }
            }
        }
    }
    Ok(hist)
}
pub fn prop() -> Prop {
    let mut s: Option<Probe> = None;
    Prop {
        id: "C06",
        rule: "objects of seven models (generated key with and without further columns, chosen integer and text keys, with many-to-many relations and references), then up to six steps (alter, link, save, fetch, delete; synchronous and asynchronous, with a failing statement in a quarter of them) among other rows on SQLite; statements sent and tables compared after every step; distinct by history",
        enumerated: 300,
        run: Box::new(move |c, _| {
            let db = s.get_or_insert_with(|| Probe::sqlite(DDL));
            db.fail_at(None);
            db.take();
            let mut r = Rng::new(match c { Case::Enum(i) => i as u64 + 9000, Case::Rand(s) => s });
            let r = &mut r;
            let post = || Post { id: AutoPk::default(), title: "t".into(), num: None, blog: None, item: None, tags: Many::new(), refs: Many::new() };
            let item = |k: i32| Item { code: k, label: "l".into(), weight: 0.5, tags: Many::new() };
            let blog = || Blog { id: AutoPk::default(), name: "b".into() };
            let n = r.below(3);
            let note = || Note { id: AutoPk::default(), text: "n".into(), tags: Many::new() };
            match r.below(7) {
                6 => history(db, r, note(), &vec![note(); n]),
                5 => history(db, r, Mark { id: AutoPk::default(), tags: Many::new() }, &vec![Mark { id: AutoPk::default(), tags: Many::new() }; n]),
                0 => history(db, r, Lone { id: AutoPk::default() }, &vec![Lone { id: AutoPk::default() }; n]),
                1 => {
                    let k = text(r);
                    history(db, r, Tag { name: k }, &[Tag { name: "a".into() }, Tag { name: "zz".into() }][..n])
                }
                2 => history(db, r, blog(), &vec![blog(); n]),
                3 => {
                    let k = *r.pick(&[0, 1, -5, i32::MAX]);
                    history(db, r, item(k), &[item(1), item(2)][..n])
                }
                _ => history(db, r, post(), &vec![post(); n]),
            }
        }),
    }
}
