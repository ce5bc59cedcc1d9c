//! C04: Rust values to database values and back, and every database value read as every type.
use crate::check;
use crate::common::*;
use butane_core::custom::*;
use butane_core::{AutoPk, FromSql, PrimaryKeyType, SqlType, SqlVal, SqlValRef, ToSql};
use chrono::{DateTime, NaiveDate, NaiveDateTime, Utc};
use std::collections::{BTreeMap, HashMap};

pub fn edge_i64(r: &mut Rng) -> i64 {
    let e = [0i64, 1, -1, i8::MIN as i64, i8::MAX as i64, u8::MAX as i64, i16::MIN as i64, i16::MAX as i64, u16::MAX as i64, i32::MIN as i64, i32::MAX as i64, u32::MAX as i64, i64::MIN, i64::MAX];
    let b = *r.pick(&e);
    match r.below(4) {
        0 => b,
        1 => b.wrapping_add(r.below(3) as i64 - 1),
        2 => r.next() as i64,
        _ => (r.next() as i64) >> r.below(60),
    }
}
pub fn text(r: &mut Rng) -> String {
    let n = r.below(8);
    (0..n).map(|_| *r.pick(&['a', '\'', '"', '\0', ';', '-', '\n', 'é', '𝄞', '%', '?', '$', '1', '\\', ' '])).collect()
}
pub fn real(r: &mut Rng) -> f64 {
    match r.below(4) {
        0 => *r.pick(&[0.0, -0.0, 1.5, f64::MAX, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NEG_INFINITY, 1e300, 0.1, 16777217.0]),
        1 => f32::from_bits(r.next() as u32) as f64,
        _ => f64::from_bits(r.next()),
    }
}
pub fn ndt(r: &mut Rng) -> NaiveDateTime {
    let secs = match r.below(4) {
        0 => 0,
        1 => (r.next() as i64) >> 22,
        2 => -62135596800 + r.below(100000) as i64,
        _ => r.below(4_000_000_000) as i64 - 2_000_000_000,
    };
    let ns = match r.below(4) {
        0 => 0,
        1 => r.below(1000) as u32 * 1_000_000,
        2 => r.below(1_000_000) as u32 * 1000,
        _ => r.below(1_000_000_000) as u32,
    };
    DateTime::<Utc>::from_timestamp(secs.clamp(-62135596800 - 40_000_000_000, 253402300799), ns).unwrap().naive_utc()
}
pub fn json_v(r: &mut Rng, d: usize) -> serde_json::Value {
    use serde_json::Value as J;
    match r.below(if d == 0 { 5 } else { 7 }) {
        0 => J::Null,
        1 => J::Bool(r.chance(1, 2)),
        2 => J::from(edge_i64(r)),
        3 => J::String(text(r)),
        4 => J::from((r.next() as i32) as f64 / 8.0),
        5 => J::Array((0..r.below(3)).map(|_| json_v(r, d - 1)).collect()),
        _ => J::Object((0..r.below(3)).map(|_| (text(r), json_v(r, d - 1))).collect()),
    }
}
pub fn sqlval(r: &mut Rng, kind: usize) -> SqlVal {
    match kind {
        0 => SqlVal::Null,
        1 => SqlVal::Bool(r.chance(1, 2)),
        2 => SqlVal::Int(edge_i64(r) as i32),
        3 => SqlVal::BigInt(edge_i64(r)),
        4 => SqlVal::Real(real(r)),
        5 => SqlVal::Text(if r.chance(1, 4) { uuid::Uuid::from_u128(r.next() as u128 * 77777777777777777).to_string() } else { text(r) }),
        6 => SqlVal::Blob((0..if r.chance(1, 2) { 16 } else { r.below(20) }).map(|_| r.next() as u8).collect()),
        7 => SqlVal::Json(if r.chance(1, 2) { serde_json::Value::Object((0..r.below(4)).map(|_| (text(r), serde_json::Value::from(edge_i64(r) as i32))).collect()) } else { json_v(r, 2) }),
        8 => SqlVal::Date(ndt(r).date()),
        9 => SqlVal::Timestamp(ndt(r)),
        _ => SqlVal::Custom(Box::new(SqlValCustom::Pg { ty: tokio_postgres::types::Type::POINT, data: vec![1, 2, 3] })),
    }
}
fn same(a: &SqlVal, b: &SqlVal) -> bool {
    match (a, b) {
        (SqlVal::Real(x), SqlVal::Real(y)) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
        _ => a == b,
    }
}
/// value of type T to SqlVal (three ways) and back (two ways)
fn rt<T: ToSql + FromSql + Clone + std::fmt::Debug>(x: T, want: SqlVal, eq: impl Fn(&T, &T) -> bool) -> Result<(), Fail> {
    let a = x.to_sql();
    let b: SqlVal = x.to_sql_ref().into();
    let c = x.clone().into_sql();
    for (n, v) in [("to_sql", &a), ("to_sql_ref", &b), ("into_sql", &c)] {
        check!(same(v, &want), "encode", "{n} of {x:?} is {v:?}, not {want:?}");
    }
    let nm = std::any::type_name::<T>();
    match T::from_sql_ref(a.as_ref()) {
        Ok(y) => check!(eq(&x, &y), "round-trip", "{nm}: from_sql_ref(to_sql({x:?})) is {y:?}"),
        Err(e) => return fail("round-trip", format!("{nm}: from_sql_ref(to_sql({x:?})) fails: {e}")),
    }
    match T::from_sql(a) {
        Ok(y) => check!(eq(&x, &y), "round-trip", "{nm}: from_sql(to_sql({x:?})) is {y:?}"),
        Err(e) => return fail("round-trip", format!("{nm}: from_sql(to_sql({x:?})) fails: {e}")),
    }
    // optional
    let o = Some(x.clone());
    check!(same(&o.to_sql(), &want) && same(&SqlVal::from(o.to_sql_ref()), &want) && same(&o.clone().into_sql(), &want), "option", "Some({x:?}) does not encode as {want:?}");
    for y in [Option::<T>::from_sql_ref(want.as_ref()), Option::<T>::from_sql(want.clone())] {
        match y {
            Ok(Some(y)) => check!(eq(&x, &y), "option", "{nm}: Some({x:?}) comes back as {y:?}"),
            y => return fail("option", format!("{nm}: Some({x:?}) comes back as {y:?}")),
        }
    }
    Ok(())
}
/// any database value read as T is an error or, encoded again, that same value; it is an error exactly if `means` says so
fn rd<T: ToSql + FromSql + std::fmt::Debug>(v: &SqlVal, means: bool, exact: bool) -> Result<(), Fail> {
    let nm = std::any::type_name::<T>();
    for y in [T::from_sql_ref(v.as_ref()), T::from_sql(v.clone())] {
        match y {
            Ok(y) => {
                check!(means, "accepted", "{v:?} read as {nm} gives {y:?}, expected an error");
                check!(!exact || same(&y.to_sql(), v), "altered", "{v:?} read as {nm} gives {y:?}, a different value");
            }
            Err(e) => check!(!means, "refused", "{v:?} is refused as {nm}: {e}"),
        }
    }
    match (Option::<T>::from_sql_ref(v.as_ref()), Option::<T>::from_sql(v.clone())) {
        (Ok(a), Ok(b)) => {
            check!(a.is_none() == matches!(v, SqlVal::Null) && b.is_none() == matches!(v, SqlVal::Null), "option", "{v:?} read as Option<{nm}> gives {a:?} / {b:?}");
            check!(means || a.is_none(), "option", "{v:?} read as Option<{nm}> gives {a:?}, expected an error")
        }
        (Err(_), Err(_)) => check!(!means && !matches!(v, SqlVal::Null), "option", "{v:?} is refused as Option<{nm}>"),
        (a, b) => return fail("option", format!("{v:?} read as Option<{nm}>: {a:?} but {b:?}")),
    }
    Ok(())
}
fn pk<T: PrimaryKeyType + std::fmt::Debug + Default>(x: T) -> Result<(), Fail> {
    let v = x.to_sql();
    check!(x.is_valid(), "pk", "{x:?} is not valid");
    let a = AutoPk::<T>::from_sql(v.clone()).map_err(|e| Fail { id: "pk".into(), what: format!("AutoPk from {v:?}: {e}") })?;
    check!(same(&a.to_sql(), &v) && same(&SqlVal::from(a.to_sql_ref()), &v) && same(&a.clone().into_sql(), &v), "pk", "AutoPk of {v:?} encodes differently");
    let mut u = AutoPk::<T>::uninitialized();
    check!(!u.is_valid() && a.is_valid(), "pk", "validity of AutoPk");
    u.initialize(v.clone()).map_err(|e| Fail { id: "pk".into(), what: e.to_string() })?;
    check!(u.is_valid() && same(&u.to_sql(), &v), "pk", "initialize({v:?}) gives {u:?}");
    for n in [AutoPk::<T>::from_sql(SqlVal::Null), AutoPk::<T>::from_sql_ref(SqlValRef::Null)] {
        check!(n.is_err(), "accepted", "Null read as AutoPk<{}> gives {n:?}, expected an error", std::any::type_name::<T>());
    }
    check!(a.clone().into_sql() == AutoPk::<T>::from_sql_ref(v.as_ref()).map(|a| a.into_sql()).unwrap_or(SqlVal::Null), "pk", "AutoPk from {v:?} by reference differs");
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C04",
        rule: "for every supported type a random or edge value, encoded three ways and decoded two ways; then a database value of every kind read as every type; non-trivial: all",
        enumerated: 0,
        run: Box::new(|c, _| {
            let s = match c { Case::Enum(i) => i as u64, Case::Rand(s) => s };
            let mut r = Rng::new(s);
            let r = &mut r;
            let i = edge_i64(r);
            rt(i % 2 == 0, SqlVal::Bool(i % 2 == 0), |a, b| a == b)?;
            rt(i as i8, SqlVal::Int(i as i8 as i32), |a, b| a == b)?;
            rt(i as u8, SqlVal::Int(i as u8 as i32), |a, b| a == b)?;
            rt(i as i16, SqlVal::Int(i as i16 as i32), |a, b| a == b)?;
            rt(i as u16, SqlVal::Int(i as u16 as i32), |a, b| a == b)?;
            rt(i as i32, SqlVal::Int(i as i32), |a, b| a == b)?;
            rt(i as u32, SqlVal::BigInt(i as u32 as i64), |a, b| a == b)?;
            rt(i, SqlVal::BigInt(i), |a, b| a == b)?;
            let f = real(r);
            rt(f, SqlVal::Real(f), |a, b| a.to_bits() == b.to_bits())?;
            let g = f as f32;
            rt(g, SqlVal::Real(g as f64), |a, b| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()))?;
            let t = text(r);
            rt(t.clone(), SqlVal::Text(t.clone()), |a, b| a == b)?;
            check!(t.as_str().to_sql() == SqlVal::Text(t.clone()) && SqlVal::from(t.as_str().to_sql_ref()) == SqlVal::Text(t.clone()) && SqlVal::from(t.as_str()) == SqlVal::Text(t.clone()), "str", "&str {t:?}");
            let b: Vec<u8> = (0..r.below(30)).map(|_| r.next() as u8).collect();
            rt(b.clone(), SqlVal::Blob(b), |a, b| a == b)?;
            let j = json_v(r, 3);
            rt(j.clone(), SqlVal::Json(j), |a, b| a == b)?;
            let d = ndt(r);
            rt(d, SqlVal::Timestamp(d), |a, b| a == b)?;
            rt(d.date(), SqlVal::Date(d.date()), |a, b| a == b)?;
            rt(d.and_utc(), SqlVal::Timestamp(d), |a, b| a == b)?;
            let u = uuid::Uuid::from_u128((r.next() as u128) << 64 | r.next() as u128);
            rt(u, SqlVal::Blob(u.as_bytes().to_vec()), |a, b| a == b)?;
            let hm: HashMap<String, i32> = (0..r.below(4)).map(|_| (text(r), edge_i64(r) as i32)).collect();
            let bm: BTreeMap<String, Vec<Option<String>>> = (0..r.below(4)).map(|_| (text(r), vec![Some(text(r)), None])).collect();
            rt(hm.clone(), SqlVal::Json(serde_json::to_value(&hm).unwrap()), |a, b| a == b)?;
            rt(bm.clone(), SqlVal::Json(serde_json::to_value(&bm).unwrap()), |a, b| a == b)?;
            check!(None::<i32>.to_sql() == SqlVal::Null && None::<String>.clone().into_sql() == SqlVal::Null && matches!(None::<i64>.to_sql_ref(), SqlValRef::Null), "option", "None is not null");
            pk(i)?;
            pk(i as i32)?;
            pk(i as u16)?;
            pk(t.clone())?;
            pk(u)?;
            // every kind read as every type
            for k in 0..11 {
                let v = sqlval(r, k);
                let back = SqlVal::from(v.as_ref());
                check!(same(&back, &v), "owned-borrowed", "{v:?} borrowed and owned again is {back:?}");
                let (int, big) = (match v { SqlVal::Int(i) => Some(i as i64), _ => None }, match v { SqlVal::BigInt(i) => Some(i), _ => None });
                let inr = |lo: i64, hi: i64, x: Option<i64>| x.map(|x| lo <= x && x <= hi).unwrap_or(false);
                rd::<bool>(&v, matches!(v, SqlVal::Bool(_)), true)?;
                rd::<i8>(&v, inr(-128, 127, int), true)?;
                rd::<u8>(&v, inr(0, 255, int), true)?;
                rd::<i16>(&v, inr(-32768, 32767, int), true)?;
                rd::<u16>(&v, inr(0, 65535, int), true)?;
                rd::<i32>(&v, int.is_some(), true)?;
                rd::<u32>(&v, inr(0, u32::MAX as i64, big), true)?;
                rd::<i64>(&v, big.is_some(), true)?;
                rd::<f64>(&v, matches!(v, SqlVal::Real(_)), true)?;
                rd::<f32>(&v, matches!(v, SqlVal::Real(_)), false)?;
                rd::<String>(&v, matches!(v, SqlVal::Text(_)), true)?;
                rd::<Vec<u8>>(&v, matches!(v, SqlVal::Blob(_)), true)?;
                rd::<serde_json::Value>(&v, matches!(v, SqlVal::Json(_)), true)?;
                rd::<NaiveDate>(&v, matches!(v, SqlVal::Date(_)), true)?;
                rd::<NaiveDateTime>(&v, matches!(v, SqlVal::Timestamp(_)), true)?;
                rd::<DateTime<Utc>>(&v, matches!(v, SqlVal::Timestamp(_)), true)?;
                rd::<uuid::Uuid>(&v, match &v { SqlVal::Blob(b) => b.len() == 16, SqlVal::Text(t) => uuid::Uuid::parse_str(t).is_ok(), _ => false }, matches!(v, SqlVal::Blob(_)))?;
                let ok = match &v { SqlVal::Json(serde_json::Value::Object(m)) => m.values().all(|x| x.as_i64().map(|x| x as i32 as i64 == x).unwrap_or(false)), _ => false };
                rd::<HashMap<String, i32>>(&v, ok, true)?;
                rd::<BTreeMap<String, i32>>(&v, ok, true)?;
                check!(v.bool().ok() == match v { SqlVal::Bool(b) => Some(b), _ => None }, "accessor", "bool of {v:?}");
                check!(v.integer().ok().map(|x| x as i64) == int, "accessor", "integer of {v:?}");
                check!(v.bigint().ok() == int.or(big), "accessor", "bigint of {v:?}");
                check!(v.real().ok().map(f64::to_bits) == match v { SqlVal::Real(x) => Some(x.to_bits()), _ => None }, "accessor", "real of {v:?}");
                check!(v.text().ok() == match &v { SqlVal::Text(x) => Some(x.as_str()), _ => None }, "accessor", "text of {v:?}");
                check!(v.blob().ok() == match &v { SqlVal::Blob(x) => Some(&x[..]), _ => None }, "accessor", "blob of {v:?}");
                check!(v.clone().owned_text().ok().as_deref() == v.text().ok() && v.clone().owned_blob().ok().as_deref() == v.blob().ok(), "accessor", "owned accessors of {v:?}");
                let tys = [SqlType::Bool, SqlType::Int, SqlType::BigInt, SqlType::Real, SqlType::Text, SqlType::Blob, SqlType::Json, SqlType::Date, SqlType::Timestamp, SqlType::Custom(SqlTypeCustom::Pg(tokio_postgres::types::Type::POINT))];
                for (n, t) in tys.iter().enumerate() {
                    check!(v.is_compatible(t, true) == (k == 0 || k == n + 1) && v.is_compatible(t, false) == (k == n + 1), "compatible", "is_compatible of {v:?} and {t:?}");
                }
                check!(v.sqltype().as_ref() == if k == 0 { None } else { Some(&tys[k - 1]) } && v.sqltype() == v.as_ref().sqltype(), "sqltype", "sqltype of {v:?}");
            }
            Ok(format!("{i} {f:?} {t:?} {u}"))
        }),
    }
}
