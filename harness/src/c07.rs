//! C07: a many-to-many relation changes only its own owner's links, exactly as asked.
use crate::check;
use crate::common::*;
use crate::models::*;
use crate::probe::*;
use butane_core::db::Column;
use butane_core::many::{Many, ManyOpsAsync, ManyOpsSync};
use butane_core::query::OrderDirection;
use butane_core::{AutoPk, DataObjectOpsSync, FromSql, SqlType, SqlVal};
use std::collections::BTreeMap;

const TAGS: [&str; 29] = ["a", "b", "it's", "", "ü%", "n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9", "m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7", "m8", "m9", "l0", "l1", "l2", "l3"];
/// those used most of the time
const FEW: &[&str] = &["a", "b", "it's", "", "ü%"];
const COLS: [Column; 2] = [Column::new("owner", SqlType::BigInt), Column::new("has", SqlType::Text)];
type Links = BTreeMap<(usize, i64, String), usize>;
const TABS: [&str; 2] = ["post_tags_Many", "item_tags_Many"];
struct Rel {
    tab: usize,
    owner: i64,
    many: Many<Tag>,
    add: Vec<String>,
    rem: Vec<String>,
    cache: Option<Vec<String>>,
}
fn many(tab: usize, owner: i64) -> Many<Tag> {
    let mut m = Many::new();
    m.ensure_init(TABS[tab], SqlVal::BigInt(owner), SqlType::BigInt);
    m
}
fn links(db: &Probe) -> Links {
    let mut l = Links::new();
    for (i, t) in TABS.iter().enumerate() {
        for r in db.rows(t, &COLS) {
            if let (SqlVal::BigInt(o), SqlVal::Text(h)) = (&r[0], &r[1]) {
                *l.entry((i, *o, h.clone())).or_default() += 1;
            }
        }
    }
    l
}
/// the links once the pending changes are carried out
fn target(l: &Links, x: &Rel) -> Links {
    let mut l = l.clone();
    for h in &x.add {
        *l.entry((x.tab, x.owner, h.clone())).or_default() += 1;
    }
    l.retain(|k, _| !(k.0 == x.tab && k.1 == x.owner && x.rem.contains(&k.2)));
    l
}
fn tag(n: &str) -> Tag {
    Tag { name: n.to_string() }
}
fn names<'a>(i: impl Iterator<Item = &'a Tag>) -> Vec<String> {
    i.map(|t| t.name.clone()).collect()
}
fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}
fn history(db: &Probe, r: &mut Rng) -> R {
    for t in TABS {
        db.raw(&format!("DELETE FROM {t}"));
    }
    for i in 0..r.below(5) {
        db.raw(&format!("INSERT INTO {} (owner, has) VALUES ({}, '{}')", TABS[r.below(2)], 1 + r.below(2), TAGS[i].replace('\'', "''")));
    }
    let mut rels: Vec<Rel> = [(0, 1), (0, 2), (1, 1)].iter().map(|&(tab, owner)| Rel { tab, owner, many: many(tab, owner), add: vec![], rem: vec![], cache: None }).collect();
    let mut hist = String::new();
    let show = |l: &Links| format!("{:?}", l.iter().map(|((t, o, h), n)| format!("{}:{o}->{h:?}x{n}", TABS[*t])).collect::<Vec<_>>());
    for _ in 0..1 + r.below(9) {
        let k = if r.chance(2, 3) { 0 } else { r.below(3) };
        let asy = r.chance(1, 2);
        let before = links(db);
        let fail_at = if r.chance(1, 4) { Some(r.below(4)) } else { None };
        let x = &mut rels[k];
        hist += &format!("{}#{}{}: ", TABS[x.tab], x.owner, if asy { " async" } else { "" });
        let others = |l: &Links| -> Links { l.iter().filter(|(q, _)| q.0 != x.tab || q.1 != x.owner).map(|(a, b)| (a.clone(), *b)).collect() };
        let others_before = others(&before);
        let several = |r: &mut Rng| -> Vec<&'static str> {
            if r.chance(1, 12) {
                let from = r.below(8);
                TAGS[from..from + 14 + r.below(8)].to_vec()
            } else {
                vec![*r.pick(FEW)]
            }
        };
        match r.below(10) {
            0 | 1 | 2 => {
                let ts = several(r);
                hist += &format!("add {ts:?}; ");
                for t in ts {
                    let t = tag(t);
                    check!(x.many.add(&t).is_ok(), "add", "{hist}: add fails");
                    x.add.push(t.name);
                }
                x.cache = None;
                check!(x.many.get().is_err(), "cache-after-change", "{hist}: old contents still available");
            }
            3 => {
                let ts = several(r);
                hist += &format!("remove {ts:?}; ");
                for t in ts {
                    let t = tag(t);
                    x.many.remove(&t);
                    x.rem.push(t.name);
                }
                x.cache = None;
                check!(x.many.get().is_err(), "cache-after-change", "{hist}: old contents still available");
            }
            4 | 5 => {
                hist += &match fail_at { Some(n) => format!("save (statement {n} fails); "), None => "save; ".to_string() };
                let want = target(&before, x);
                db.fail_at(fail_at);
                let res = if asy { now(ManyOpsAsync::save(&mut x.many, db)) } else { ManyOpsSync::save(&mut x.many, db) };
                db.fail_at(None);
                let l = links(db);
                check!(others(&l) == others_before, "other-owners", "{hist}: links of others changed from {} to {}", show(&before), show(&l));
                if res.is_ok() {
                    check!(l == want, "links-after-save", "{hist}: links {}, expected {}", show(&l), show(&want));
                } else {
                    // what did not happen must still be pending
                    let again = ManyOpsSync::save(&mut x.many, db);
                    let l = links(db);
                    check!(again.is_ok() && l == want, "lost-on-failure", "{hist}: saved again after the failure, links {}, expected {} ({again:?})", show(&l), show(&want));
                }
                x.add.clear();
                x.rem.clear();
            }
            6 => {
                hist += &match fail_at { Some(0) => "delete (fails); ".to_string(), _ => "delete; ".to_string() };
                db.fail_at(fail_at);
                let res = if asy { now(ManyOpsAsync::delete(&mut x.many, db)) } else { ManyOpsSync::delete(&mut x.many, db) };
                db.fail_at(None);
                let l = links(db);
                if res.is_ok() {
                    check!(l == others_before, "links-after-delete", "{hist}: links {}, expected {}", show(&l), show(&others_before));
                    x.add.clear();
                    x.rem.clear();
                    x.cache = Some(vec![]);
                } else {
                    check!(l == before, "links-after-delete", "{hist}: links changed by a failed deletion from {} to {}", show(&before), show(&l));
                }
            }
            7 => {
                let v: Vec<Tag> = (0..r.below(4)).map(|_| tag(r.pick(FEW))).collect();
                let n: Vec<String> = v.iter().map(|t| t.name.clone()).collect();
                hist += &format!("set {n:?}{}; ", fail_at.map(|n| format!(" (statement {n} fails)")).unwrap_or_default());
                db.fail_at(fail_at);
                let res = if asy { now(ManyOpsAsync::set(&mut x.many, db, v)) } else { ManyOpsSync::set(&mut x.many, db, v) };
                db.fail_at(None);
                let l = links(db);
                check!(others(&l) == others_before, "other-owners", "{hist}: links of others changed from {} to {}", show(&before), show(&l));
                if res.is_ok() {
                    let mut want = others_before.clone();
                    for h in &n {
                        *want.entry((x.tab, x.owner, h.clone())).or_default() += 1;
                    }
                    check!(l == want, "links-after-set", "{hist}: links {}, expected {}", show(&l), show(&want));
                    x.add.clear();
                    x.rem.clear();
                    x.cache = Some(n);
                } else {
                    x.many = many(x.tab, x.owner);
                    x.add.clear();
                    x.rem.clear();
                    x.cache = None;
                }
            }
            8 => {
                let t = *r.pick(FEW);
                if r.chance(1, 3) {
                    hist += &format!("(elsewhere: {t:?} is unlinked); ");
                    db.raw(&format!("DELETE FROM {} WHERE owner = {} AND has = '{}'", TABS[x.tab], x.owner, t.replace('\'', "''")));
                } else {
                    hist += &format!("(elsewhere: {t:?} is linked); ");
                    db.raw(&format!("INSERT INTO {} (owner, has) VALUES ({}, '{}')", TABS[x.tab], x.owner, t.replace('\'', "''")));
                }
            }
            _ => {
                let ord = match r.below(3) { 0 => None, 1 => Some(OrderDirection::Ascending), _ => Some(OrderDirection::Descending) };
                hist += &format!("load {ord:?}{}; ", fail_at.filter(|f| *f < 2).map(|n| format!(" (query {n} fails)")).unwrap_or_default());
                db.fail_at(fail_at);
                let res: butane_core::Result<Vec<String>> = match (asy, ord.clone()) {
                    (true, None) => now(ManyOpsAsync::load(&x.many, db)).map(|i| names(i)),
                    (false, None) => ManyOpsSync::load(&x.many, db).map(|i| names(i)),
                    (true, Some(o)) => now(ManyOpsAsync::load_ordered(&x.many, db, o)).map(|i| names(i)),
                    (false, Some(o)) => ManyOpsSync::load_ordered(&x.many, db, o).map(|i| names(i)),
                };
                db.fail_at(None);
                let log = db.take();
                let l = links(db);
                check!(l == before, "links-after-load", "{hist}: loading changes the links from {} to {}", show(&before), show(&l));
                let got = match res {
                    Ok(v) => v,
                    Err(e) => {
                        check!(log.iter().any(|c| !c.1), "load", "{hist}: fails with {e} though no query does");
                        check!(x.cache.is_none() && x.many.get().is_err(), "load", "{hist}: a failed load leaves contents");
                        continue;
                    }
                };
                check!(log.iter().all(|c| c.1), "load", "{hist}: a failed query goes unnoticed");
                let want = match &x.cache {
                    Some(c) => c.clone(),
                    None => {
                        let mut w: Vec<String> = TAGS.iter().filter(|t| before.contains_key(&(x.tab, x.owner, t.to_string()))).map(|t| t.to_string()).collect();
                        w.sort();
                        if matches!(ord, Some(OrderDirection::Descending)) {
                            w.reverse();
                        }
                        w.extend(TAGS.iter().filter(|t| x.add.iter().any(|a| a == *t)).map(|t| t.to_string()));
                        if ord.is_some() && x.add.is_empty() {
                            check!(got == w, "load", "{hist}: gives {got:?}, expected {w:?} in this order");
                        }
                        w
                    }
                };
                check!(sorted(got.clone()) == sorted(want.clone()), "load", "{hist}: gives {got:?}, expected {want:?} (links {})", show(&before));
                x.cache = Some(got);
            }
        }
        let l = links(db);
        for x in &rels {
            match (&x.cache, x.many.get()) {
                (None, Err(_)) => {}
                (Some(c), Ok(i)) => {
                    let g = names(i);
                    check!(&g == c, "contents", "{hist}: {}#{} holds {g:?}, loaded {c:?} (links {})", TABS[x.tab], x.owner, show(&l));
                }
                (c, g) => return fail("contents", format!("{hist}: {}#{} {} available, expected {c:?}", TABS[x.tab], x.owner, if g.is_ok() { "is" } else { "is not" })),
            }
        }
        db.take();
    }
    // an object without a key cannot be linked
    if r.chance(1, 10) {
        let mut m: Many<Blog> = Many::new();
        check!(ManyOpsSync::save(&mut m, db).is_err() && ManyOpsSync::delete(&mut m, db).is_err(), "not-initialized", "an uninitialized relation is saved or deleted");
        check!(ManyOpsSync::load(&m, db).map(|i| i.count()).unwrap_or(9) == 0, "not-initialized", "an uninitialized relation has values");
        m.ensure_init("post_refs_Many", SqlVal::BigInt(1), SqlType::BigInt);
        let b = Blog { id: AutoPk::default(), name: "x".into() };
        check!(m.add(&b).is_err(), "unsaved-object", "an object without a key is accepted");
        db.take();
        check!(ManyOpsSync::save(&mut m, db).is_ok() && db.take().is_empty(), "unsaved-object", "the refused object is saved");
        let saved = Blog { id: AutoPk::from_sql(SqlVal::BigInt(5)).unwrap(), name: "y".into() };
        for asy in [false, true] {
            let v = if r.chance(1, 2) { vec![saved.clone(), b.clone()] } else { vec![b.clone(), saved.clone()] };
            let res = if asy { now(ManyOpsAsync::set(&mut m, db, v)) } else { ManyOpsSync::set(&mut m, db, v) };
            check!(res.is_err(), "unsaved-object", "set accepts an object without a key");
        }
        let mut p = Post { id: AutoPk::default(), title: "t".into(), num: None, blog: None, item: None, tags: Many::new(), refs: Many::new() };
        let mut i = Item { code: 3, label: "l".into(), weight: 0.5, tags: Many::new() };
        check!(DataObjectOpsSync::save(&mut p, db).is_ok() && DataObjectOpsSync::save(&mut i, db).is_ok(), "model", "saving fails");
        let (id, code) = (p.id.clone(), i.code);
        let got = <Post as DataObjectOpsSync<Post>>::get(db, id).and_then(|p| Ok((p, <Item as DataObjectOpsSync<Item>>::get(db, code)?)));
        db.raw("DELETE FROM post");
        db.raw("DELETE FROM item");
        match got {
            Ok((p2, i2)) => {
                for (p, i, how) in [(&p, &i, "saved"), (&p2, &i2, "loaded")] {
                    let got = (cols(&p.tags.columns()), cols(&p.refs.columns()), cols(&i.tags.columns()));
                    let want = ("[owner:BigInt,has:Text]".to_string(), "[owner:BigInt,has:BigInt]".to_string(), "[owner:Int,has:Text]".to_string());
                    check!(got == want, "link-columns", "link columns of a {how} object {got:?}, expected {want:?}");
                }
            }
            Err(e) => return fail("model", format!("reading back fails: {e}")),
        }
        db.take();
        let c = m.columns();
        check!(cols(&c) == "[owner:BigInt,has:BigInt]", "link-columns", "link columns {}", cols(&c));
    }
    Ok(hist)
}
pub fn prop() -> Prop {
    let mut s: Option<Probe> = None;
    Prop {
        id: "C07",
        rule: "histories of up to nine adds, removals (of one or many objects), saves, deletions, sets, loads (synchronous and asynchronous) and changes made elsewhere, over three relations sharing two link tables, with a failing statement in a quarter of them, on SQLite; the link tables compared with a count per owner and object after every step; distinct by history",
        enumerated: 300,
        run: Box::new(move |c, _| {
            let db = s.get_or_insert_with(|| {
                let p = Probe::sqlite(DDL);
                for t in TAGS {
                    p.raw(&format!("INSERT INTO tag (name) VALUES ('{}')", t.replace('\'', "''")));
                }
                p
            });
            db.fail_at(None);
            db.take();
            let mut r = Rng::new(match c { Case::Enum(i) => i as u64 + 1000, Case::Rand(s) => s });
            history(db, &mut r)
        }),
    }
}
