//! C09: differences of random schemas applied with the code's own operations.
use crate::check;
use crate::common::*;
use crate::schemas::*;
use butane_core::migrations::adb::*;

fn case(c: Case) -> R {
    let seed = match c {
        Case::Enum(i) => i as u64 + 1000,
        Case::Rand(s) => s,
    };
    let mut r = Rng::new(seed);
    let old = schema(&mut r, true);
    let new = if r.chance(1, 4) { schema(&mut r, true) } else { edit(&mut r, &old, true) };
    let (vo, vn) = (view(&old), view(&new));
    let ops = diff(&old, &new);
    check!(view(&old) == vo && view(&new) == vn, "diff", "computing the difference changed a schema");
    check!(ops.is_empty() == (vo == vn), "diff-empty", "{} operations between {} schemas: {ops:?}\nold {vo:?}\nnew {vn:?}", ops.len(), if vo == vn { "equal" } else { "different" });
    // references: asked for once every table is there, lifted while every table still is
    let refers = |t: &ATable| t.columns.iter().any(|c| c.reference().is_some());
    let at = |f: &dyn Fn(&Operation) -> bool| ops.iter().position(|o| f(o));
    let last_add = ops.iter().rposition(|o| matches!(o, Operation::AddTable(_))).unwrap_or(0);
    let first_drop = at(&|o| matches!(o, Operation::RemoveTable(_))).unwrap_or(ops.len());
    for t in new.tables().filter(|t| !vo.contains_key(&t.name) && refers(t)) {
        check!(at(&|o| matches!(o, Operation::AddTableConstraints(u) if u.name == t.name)).is_some_and(|i| i > last_add), "constraints", "the references of the new table {} are not asked for once all tables are there: {ops:?}", t.name);
    }
    for t in old.tables().filter(|t| !vn.contains_key(&t.name) && refers(t)) {
        check!(at(&|o| matches!(o, Operation::RemoveTableConstraints(u) if u.name == t.name)).is_some_and(|i| i < first_drop), "constraints", "the references of the table {} are not lifted before tables are removed: {ops:?}", t.name);
    }
    let mut cur = old.clone();
    for op in &ops {
        cur.transform_with(op.clone());
    }
    let vc = view(&cur);
    check!(vc == vn, "diff", "after the operations {ops:?}\nthe schema is {vc:?}\nnot            {vn:?}\nold {vo:?}");
    check!(diff(&cur, &new).is_empty(), "diff-empty", "not empty after applying");
    check!(cur.tables().all(|t| t.columns.len() == vn[&t.name].len()), "diff", "a column occurs twice: {cur:?}");
    // single operations
    if let Some(t) = old.tables().next() {
        let nm = *r.pick(&COLS);
        let col = column(&mut r, nm, true);
        let mut want = vo.clone();
        let op = match r.below(4) {
            0 => {
                want.get_mut(&t.name).unwrap().insert(nm.into(), attrs(&col));
                Operation::AddColumn(t.name.clone(), col)
            }
            1 => {
                want.get_mut(&t.name).unwrap().remove(nm);
                Operation::RemoveColumn(t.name.clone(), nm.into())
            }
            2 => {
                want.remove(&t.name);
                Operation::RemoveTable(t.name.clone())
            }
            _ => {
                let t2 = table(&mut r, "a", true);
                want.insert("a".into(), t2.columns.iter().map(|c| (c.name().to_string(), attrs(c))).collect());
                Operation::AddTableIfNotExists(t2)
            }
        };
        let mut cur = old.clone();
        cur.transform_with(op.clone());
        check!(view(&cur) == want, "operation", "{op:?} on {vo:?} gives {:?}", view(&cur));
    }
    Ok(format!("{ops:?}"))
}
pub fn prop() -> Prop {
    Prop { id: "C09", rule: "random schemas and small edits of them: attributes compared one by one after applying the computed operations", enumerated: 200, run: Box::new(|c, _| case(c)) }
}
