//! C18: random schemas with chains of names, resolved and compared with a walk along the names.
use crate::check;
use crate::common::*;
use crate::schemas::a_type;
use butane_core::migrations::adb::*;
use butane_core::SqlType;
use std::collections::{BTreeMap, BTreeSet};

const JSON: [&str; 6] = ["HashMap", "collections::HashMap", "std::collections::HashMap", "BTreeMap", "collections::BTreeMap", "std::collections::BTreeMap"];
const STR: [&str; 3] = ["String", "string::String", "std::string::String"];
fn is_json(s: &str) -> bool {
    JSON.iter().any(|m| STR.iter().any(|t| s.starts_with(&format!("{m}<{t},"))))
}
fn known(r: &mut Rng) -> DeferredSqlType {
    let t = a_type(r);
    match r.below(3) {
        0 => DeferredSqlType::Known(t),
        1 => DeferredSqlType::KnownId(TypeIdentifier::Name("ltree".into())),
        _ => DeferredSqlType::KnownId(TypeIdentifier::Ty(t)),
    }
}
fn key(r: &mut Rng, n: usize) -> TypeKey {
    match r.below(12) {
        0 => TypeKey::CustomType(format!("{}<{},i32>", r.pick(&JSON), r.pick(&STR))),
        1 => TypeKey::CustomType(format!("{}<{},i32>", r.pick(&["Map", "HashMap", "x::HashMap", "hashmap::HashMap"]), r.pick(&["str", "i32", "String2", "Strin"]))),
        8 if r.chance(1, 2) => TypeKey::CustomType(format!("{}{}<{},i32>{}", r.pick(&["Vec<", "my::", "My", " "]), r.pick(&JSON), r.pick(&STR), r.pick(&["", ">"]))),
        2 | 3 => TypeKey::PK(format!("S{}", r.below(n))),
        4..=6 => TypeKey::CustomType(format!("T{}", r.below(n))),
        7 => TypeKey::CustomType(format!("C{}", r.below(n))),
        _ => TypeKey::PK(format!("T{}", r.below(n))),
    }
}
fn ty(r: &mut Rng, n: usize, d: usize) -> DeferredSqlType {
    if r.chance(d, 4) {
        DeferredSqlType::Deferred(key(r, n))
    } else {
        known(r)
    }
}
fn ident(t: &DeferredSqlType) -> Result<TypeIdentifier, TypeKey> {
    match t {
        DeferredSqlType::Known(t) => Ok(TypeIdentifier::Ty(t.clone())),
        DeferredSqlType::KnownId(t) => Ok(t.clone()),
        DeferredSqlType::Deferred(k) => Err(k.clone()),
    }
}
/// follow the names
fn walk(tabs: &BTreeMap<String, DeferredSqlType>, ext: &BTreeMap<TypeKey, DeferredSqlType>, k: &TypeKey) -> Option<TypeIdentifier> {
    let mut k = k.clone();
    for _ in 0..200 {
        let d = match &k {
            TypeKey::CustomType(s) if is_json(s) => return Some(TypeIdentifier::Ty(SqlType::Json)),
            TypeKey::PK(n) if tabs.contains_key(n) => tabs[n].clone(),
            _ => ext.get(&k)?.clone(),
        };
        match ident(&d) {
            Ok(t) => return Some(t),
            Err(k2) => k = k2,
        }
    }
    None
}
fn sqltype(c: &AColumn) -> DeferredSqlType {
    serde_json::from_value(serde_json::to_value(c).unwrap()["sqltype"].clone()).unwrap()
}
fn case(c: Case) -> R {
    let seed = match c {
        Case::Enum(i) if i < 18 * 2 => {
            // every spelling of a map with text keys
            let (m, s) = (JSON[i / 2 % 6], STR[i / 12]);
            let name = format!("{m}<{s},{}>", if i % 2 == 0 { "i64" } else { "Vec<Foo>" });
            let mut a = ADB::new();
            let mut t = ATable::new("t".into());
            t.columns.push(AColumn::new("id", DeferredSqlType::Known(SqlType::Int), false, true, false, false, None, None));
            t.columns.push(AColumn::new_simple("m", DeferredSqlType::Deferred(TypeKey::CustomType(name.clone()))));
            a.replace_table(t);
            let r = a.resolve_types();
            check!(r.is_ok() && a.get_table("t").unwrap().columns[1].typeid().ok() == Some(TypeIdentifier::Ty(SqlType::Json)), "resolve", "{name}: {r:?}, {a:?}");
            return Ok(name);
        }
        Case::Enum(i) => i as u64 + 7000,
        Case::Rand(s) => s,
    };
    let mut r = Rng::new(seed);
    let n = 1 + r.below(7);
    let d = r.below(4);
    let mut tabs = vec![];
    let clean = r.chance(1, 2);
    for i in 0..n {
        let name = format!("T{i}");
        let mut t = ATable::new(name);
        for c in 0..r.below(3) {
            let x = ty(&mut r, n, d + 1);
            t.columns.push(AColumn::new(format!("c{c}"), x, r.chance(1, 2), false, false, r.chance(1, 2), None, None));
        }
        let x = if clean && i == 0 { known(&mut r) } else if clean { DeferredSqlType::Deferred(TypeKey::PK(format!("T{}", r.below(i)))) } else { ty(&mut r, n, d) };
        t.columns.push(AColumn::new("key", x, false, true, r.chance(1, 2), false, None, None));
        for c in 0..r.below(4) {
            let k = if clean { TypeKey::PK(format!("{}{}", if r.chance(1, 3) { "S" } else { "T" }, r.below(n))) } else { key(&mut r, n) };
            let reference = match &k {
                TypeKey::PK(_) if r.chance(3, 4) => Some(ARef::Deferred(DeferredSqlType::Deferred(k.clone()))),
                _ if r.chance(1, 3) => Some(ARef::Literal(ARefLiteral::new("T0", "zz"))),
                _ => None,
            };
            t.columns.push(AColumn::new(format!("f{c}"), DeferredSqlType::Deferred(k), r.chance(1, 2), r.chance(1, 8), r.chance(1, 8), r.chance(1, 2), crate::schemas::default(&mut r), reference));
        }
        tabs.push(t);
    }
    if r.chance(1, 2) {
        let mut t = ATable::new("T0_many_Many".into());
        for c in ["owner", "has"] {
            let k = TypeKey::PK(format!("T{}", r.below(n)));
            t.columns.push(AColumn::new(c, DeferredSqlType::Deferred(k.clone()), false, false, false, false, None, Some(ARef::Deferred(DeferredSqlType::Deferred(k)))));
        }
        tabs.push(t);
    }
    let mut ext: BTreeMap<TypeKey, DeferredSqlType> = BTreeMap::new();
    for i in 0..n {
        if clean || r.chance(1, 2) {
            ext.insert(TypeKey::PK(format!("S{i}")), DeferredSqlType::Deferred(TypeKey::PK(format!("T{}", r.below(n)))));
        }
        if r.chance(2, 3) {
            let x = ty(&mut r, n, d);
            ext.insert(TypeKey::CustomType(format!("T{i}")), x);
        }
        if r.chance(1, 3) {
            // a chain against the order of the names
            let x = if i + 1 < n { DeferredSqlType::Deferred(TypeKey::CustomType(format!("C{}", i + 1))) } else { known(&mut r) };
            ext.insert(TypeKey::CustomType(format!("C{i}")), x);
        }
    }
    let pks: BTreeMap<String, DeferredSqlType> = tabs.iter().filter_map(|t| t.columns.iter().find(|c| c.is_pk()).map(|c| (t.name.clone(), sqltype(c)))).collect();
    let pkn: BTreeMap<String, String> = tabs.iter().filter_map(|t| t.columns.iter().find(|c| c.is_pk()).map(|c| (t.name.clone(), c.name().to_string()))).collect();
    let mut a = ADB::new();
    for t in &tabs {
        a.replace_table(t.clone());
    }
    for (k, v) in &ext {
        a.add_type(k.clone(), v.clone());
    }
    let res = a.resolve_types();
    let mut lost: BTreeSet<String> = BTreeSet::new();
    for t in &tabs {
        let Some(g) = a.get_table(&t.name) else { return fail("resolve", format!("table {} is gone", t.name)) };
        check!(g.columns.len() == t.columns.len(), "resolve", "columns of {}: {g:?}", t.name);
        for (o, g) in t.columns.iter().zip(&g.columns) {
            let rest = |c: &AColumn| (c.name().to_string(), c.nullable(), c.is_pk(), c.is_auto(), c.unique(), format!("{:?}", c.default()));
            check!(rest(o) == rest(g), "resolve", "an attribute changed: {o:?} to {g:?}");
            let want = match ident(&sqltype(o)) {
                Ok(t) => Ok(t),
                Err(k) => walk(&pks, &ext, &k).ok_or(k),
            };
            if let Err(k) = &want {
                lost.insert(k.to_string());
            }
            check!(ident(&sqltype(g)) == want, "resolve", "{}.{}: {:?} resolved to {:?}, expected {want:?}\n{tabs:?}\n{ext:?}", t.name, o.name(), sqltype(o), sqltype(g));
            let wr = match o.reference() {
                Some(ARef::Deferred(DeferredSqlType::Deferred(k))) => {
                    let tn = match (ext.get(k), k) {
                        (Some(DeferredSqlType::Deferred(TypeKey::PK(n))), _) => n.clone(),
                        (_, TypeKey::PK(n)) => n.clone(),
                        _ => unreachable!(),
                    };
                    match pkn.get(&tn) {
                        Some(p) => Some(ARef::Literal(ARefLiteral::new(tn, p.clone()))),
                        None => o.reference().clone(),
                    }
                }
                x => x.clone(),
            };
            check!(*g.reference() == wr, "reference", "{}.{}: {:?} resolved to {:?}, expected {wr:?}", t.name, o.name(), o.reference(), g.reference());
        }
    }
    check!(a.tables().count() == tabs.len(), "resolve", "tables: {a:?}");
    match &res {
        Ok(()) => check!(lost.is_empty(), "unresolved", "Ok although {lost:?} stand for nothing"),
        Err(e) => {
            check!(!lost.is_empty(), "unresolved", "error {e} although everything resolves: {tabs:?} {ext:?}");
            check!(lost.iter().any(|k| e.to_string().contains(k)), "unresolved", "error {e} names none of {lost:?}");
        }
    }
    let again = a.clone();
    let _ = a.resolve_types();
    check!(again.tables().eq(a.tables()), "resolve", "resolving again changed {again:?} to {a:?}");
    Ok(format!("{tabs:?}"))
}
pub fn prop() -> Prop {
    Prop { id: "C18", rule: "random schemas with chains, cycles and missing names, resolved types and references compared with a walk along the names; every spelling of a map with text keys", enumerated: 300, run: Box::new(|c, _| case(c)) }
}
