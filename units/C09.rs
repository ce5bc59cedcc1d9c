//@include prelude.rs
broadcast use prelude::valg::vtext;
//@include sqlval_types.rs
//@include error.rs
//@include adb_types.rs
// ---- what a schema is: tables by name, columns by name ----
pub open spec fn unique_cols(s: Seq<AColumn>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).name@ != (#[trigger] s[j]).name@ }
pub open spec fn has_col(s: Seq<AColumn>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).name@ == n }
pub open spec fn the_col(s: Seq<AColumn>, n: Seq<char>) -> AColumn { s[choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).name@ == n] }
pub type TView = IMap<Seq<char>, AColumn>;
pub type SView = IMap<Seq<char>, TView>;
pub open spec fn colmap(s: Seq<AColumn>) -> TView { IMap::new(|n: Seq<char>| has_col(s, n), |n: Seq<char>| the_col(s, n)) }
pub open spec fn tv(t: ATable) -> TView { colmap(t.columns@) }
pub open spec fn wf_table(t: ATable) -> bool { unique_cols(t.columns@) }
pub open spec fn sv(a: ADB) -> SView { IMap::new(|n: Seq<char>| a.tables.map().dom().contains(n), |n: Seq<char>| tv(a.tables.map()[n])) }
pub open spec fn wf(a: ADB) -> bool { forall|n: Seq<char>| #[trigger] a.tables.map().dom().contains(n) ==> a.tables.map()[n].name@ == n && wf_table(a.tables.map()[n]) }
/// the same column: identical, or equal as the code's `==` decides it (which tells a NaN default from itself)
pub open spec fn col_is(a: AColumn, b: AColumn) -> bool { a == b || same_col(a, b) }
pub open spec fn agree_t(a: TView, b: TView) -> bool { (forall|n: Seq<char>| #[trigger] a.dom().contains(n) <==> b.dom().contains(n)) && forall|n: Seq<char>| #[trigger] a.dom().contains(n) ==> col_is(a[n], b[n]) }
pub open spec fn agree(a: SView, b: SView) -> bool { (forall|n: Seq<char>| #[trigger] a.dom().contains(n) <==> b.dom().contains(n)) && forall|n: Seq<char>| #[trigger] a.dom().contains(n) ==> agree_t(a[n], b[n]) }
pub open spec fn equal_t(a: TView, b: TView) -> bool { (forall|n: Seq<char>| #[trigger] a.dom().contains(n) <==> b.dom().contains(n)) && forall|n: Seq<char>| #[trigger] a.dom().contains(n) ==> same_col(a[n], b[n]) }
pub open spec fn equal_s(a: SView, b: SView) -> bool { (forall|n: Seq<char>| #[trigger] a.dom().contains(n) <==> b.dom().contains(n)) && forall|n: Seq<char>| #[trigger] a.dom().contains(n) ==> equal_t(a[n], b[n]) }
proof fn lemma_col(s: Seq<AColumn>, i: int)
  requires unique_cols(s), 0 <= i < s.len()
  ensures has_col(s, s[i].name@), the_col(s, s[i].name@) == s[i]
{ let n = s[i].name@; let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).name@ == n; assert(s[i].name@ == n); if j < i { assert(s[j].name@ != s[i].name@); } else if i < j { assert(s[i].name@ != s[j].name@); } }
proof fn lemma_pushed(was: Seq<AColumn>, now: Seq<AColumn>, col: AColumn)
  requires unique_cols(was), now == was.push(col), !has_col(was, col.name@)
  ensures unique_cols(now), colmap(now) =~= colmap(was).insert(col.name@, col)
{
  assert forall|i: int, j: int| 0 <= i < j < now.len() implies (#[trigger] now[i]).name@ != (#[trigger] now[j]).name@ by { assert(was[i].name@ == now[i].name@); if j < was.len() { assert(was[j].name@ == now[j].name@); } }
  assert forall|n: Seq<char>| has_col(now, n) == (has_col(was, n) || n == col.name@) by {
    if has_col(was, n) { let i = choose|i: int| 0 <= i < was.len() && (#[trigger] was[i]).name@ == n; assert(now[i].name@ == n); }
    if n == col.name@ { assert(now[was.len() as int].name@ == n); }
    if has_col(now, n) { let i = choose|i: int| 0 <= i < now.len() && (#[trigger] now[i]).name@ == n; if i < was.len() { assert(was[i].name@ == n); } }
  }
  assert forall|n: Seq<char>| has_col(now, n) implies the_col(now, n) == (if n == col.name@ { col } else { the_col(was, n) }) by {
    let i = choose|i: int| 0 <= i < now.len() && (#[trigger] now[i]).name@ == n; lemma_col(now, i);
    if i < was.len() { lemma_col(was, i); assert(was[i] == now[i]); }
  }
}
proof fn lemma_replaced(was: Seq<AColumn>, now: Seq<AColumn>, col: AColumn, k: int)
  requires unique_cols(was), now.len() == was.len(), 0 <= k < was.len(), was[k].name@ == col.name@, now[k] == col, forall|i: int| 0 <= i < was.len() && i != k ==> #[trigger] now[i] == was[i]
  ensures unique_cols(now), colmap(now) =~= colmap(was).insert(col.name@, col)
{
  assert forall|i: int| 0 <= i < was.len() implies (#[trigger] now[i]).name@ == was[i].name@ by { if i != k { assert(now[i] == was[i]); } }
  assert forall|i: int, j: int| 0 <= i < j < now.len() implies (#[trigger] now[i]).name@ != (#[trigger] now[j]).name@ by { assert(was[i].name@ == now[i].name@ && was[j].name@ == now[j].name@); }
  assert forall|n: Seq<char>| has_col(now, n) == has_col(was, n) by {
    if has_col(was, n) { let i = choose|i: int| 0 <= i < was.len() && (#[trigger] was[i]).name@ == n; assert(now[i].name@ == n); }
    if has_col(now, n) { let i = choose|i: int| 0 <= i < now.len() && (#[trigger] now[i]).name@ == n; assert(was[i].name@ == n); }
  }
  assert(now[k].name@ == col.name@);
  assert forall|n: Seq<char>| has_col(now, n) implies the_col(now, n) == (if n == col.name@ { col } else { the_col(was, n) }) by {
    let i = choose|i: int| 0 <= i < now.len() && (#[trigger] now[i]).name@ == n; lemma_col(now, i); lemma_col(was, i);
    if n == col.name@ { lemma_col(now, k); }
  }
}
/// `now` are the first `k` columns of `was` other than those named `n`
pub open spec fn without(now: Seq<AColumn>, was: Seq<AColumn>, n: Seq<char>) -> bool { now =~= was.filter(other_name(n)) }
pub open spec fn other_name(n: Seq<char>) -> spec_fn(AColumn) -> bool { |c: AColumn| c.name@ != n }
proof fn lemma_without(now: Seq<AColumn>, was: Seq<AColumn>, n: Seq<char>)
  requires unique_cols(was), without(now, was, n)
  ensures unique_cols(now), colmap(now) =~= colmap(was).remove(n)
  decreases was.len()
{
  reveal(Seq::filter);
  let f = other_name(n);
  if was.len() == 0 { assert(colmap(now) =~= colmap(was).remove(n)); } else {
    let w = was.drop_last(); let m = w.filter(f); let c = was.last();
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies (#[trigger] w[i]).name@ != (#[trigger] w[j]).name@ by { assert(was[i].name@ != was[j].name@); }
    lemma_without(m, w, n);
    assert(!has_col(w, c.name@)) by { if has_col(w, c.name@) { let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).name@ == c.name@; assert(was[i].name@ != was[was.len() - 1].name@); } }
    assert(was =~= w.push(c));
    lemma_pushed(w, was, c);
    if f(c) {
      assert(now =~= m.push(c));
      assert(!has_col(m, c.name@)) by { assert(!colmap(w).remove(n).dom().contains(c.name@)); assert(!colmap(m).dom().contains(c.name@)); }
      lemma_pushed(m, now, c);
    } else { assert(now =~= m); }
    assert(colmap(now) =~= colmap(was).remove(n));
  }
}
// ---- what an operation does ----
pub open spec fn applied(s: SView, op: Operation) -> SView { match op {
  Operation::AddTable(t) => s.insert(t.name@, tv(t)),
  Operation::AddTableIfNotExists(t) => s.insert(t.name@, tv(t)),
  Operation::RemoveTable(n) => s.remove(n@),
  Operation::AddColumn(t, c) => if s.dom().contains(t@) { s.insert(t@, s[t@].insert(c.name@, c)) } else { s },
  Operation::RemoveColumn(t, c) => if s.dom().contains(t@) { s.insert(t@, s[t@].remove(c@)) } else { s },
  Operation::ChangeColumn(t, _, c) => if s.dom().contains(t@) { s.insert(t@, s[t@].insert(c.name@, c)) } else { s },
  Operation::AddTableConstraints(_) => s,
  Operation::RemoveTableConstraints(_) => s } }
pub open spec fn all_applied(s: SView, ops: Seq<Operation>) -> SView decreases ops.len() { if ops.len() == 0 { s } else { applied(all_applied(s, ops.drop_last()), ops.last()) } }
proof fn lemma_all_push(s: SView, ops: Seq<Operation>, op: Operation) ensures all_applied(s, ops.push(op)) == applied(all_applied(s, ops), op) { assert(ops.push(op).drop_last() =~= ops); }
proof fn lemma_all_add(s: SView, a: Seq<Operation>, b: Seq<Operation>) ensures all_applied(s, a + b) == all_applied(all_applied(s, a), b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_all_add(s, a, b.drop_last()); } }
/// a change of one column of the table `n`
pub open spec fn col_op(op: Operation, n: Seq<char>) -> bool { match op { Operation::AddColumn(t, _) => t@ == n, Operation::RemoveColumn(t, _) => t@ == n, Operation::ChangeColumn(t, _, _) => t@ == n, _ => false } }
pub open spec fn t_applied(s: TView, op: Operation) -> TView { match op { Operation::AddColumn(_, c) => s.insert(c.name@, c), Operation::RemoveColumn(_, c) => s.remove(c@), Operation::ChangeColumn(_, _, c) => s.insert(c.name@, c), _ => s } }
pub open spec fn t_all(s: TView, ops: Seq<Operation>) -> TView decreases ops.len() { if ops.len() == 0 { s } else { t_applied(t_all(s, ops.drop_last()), ops.last()) } }
proof fn lemma_t_push(s: TView, ops: Seq<Operation>, op: Operation) ensures t_all(s, ops.push(op)) == t_applied(t_all(s, ops), op) { assert(ops.push(op).drop_last() =~= ops); }
proof fn lemma_col_ops(s: SView, ops: Seq<Operation>, n: Seq<char>)
  requires s.dom().contains(n), forall|i: int| 0 <= i < ops.len() ==> col_op(#[trigger] ops[i], n)
  ensures all_applied(s, ops) == s.insert(n, t_all(s[n], ops))
  decreases ops.len()
{
  if ops.len() == 0 { assert(s.insert(n, s[n]) =~= s); } else {
    assert forall|i: int| 0 <= i < ops.drop_last().len() implies col_op(#[trigger] ops.drop_last()[i], n) by { assert(col_op(ops[i], n)); }
    lemma_col_ops(s, ops.drop_last(), n);
    assert(col_op(ops.last(), n));
    assert(s.insert(n, t_all(s[n], ops.drop_last())).insert(n, t_all(s[n], ops)) =~= s.insert(n, t_all(s[n], ops)));
  }
}
pub open spec fn names_upto(d: Set<Seq<char>>, s: Seq<AColumn>, k: int) -> bool { forall|n: Seq<char>| #[trigger] d.contains(n) == has_col(s.take(k), n) }
pub open spec fn in_upto(a: Seq<&String>, k: int, n: Seq<char>) -> bool { exists|i: int| 0 <= i < k && (#[trigger] a[i])@ == n }
proof fn lemma_names(d: Set<Seq<char>>, s: Seq<AColumn>, k: int)
  requires names_upto(d, s, k), 0 <= k < s.len()
  ensures names_upto(d.insert(s[k].name@), s, k + 1)
{
  assert forall|n: Seq<char>| #[trigger] has_col(s.take(k + 1), n) == (has_col(s.take(k), n) || n == s[k].name@) by {
    if has_col(s.take(k), n) { let i = choose|i: int| 0 <= i < k && (#[trigger] s.take(k)[i]).name@ == n; assert(s.take(k + 1)[i].name@ == n); }
    if n == s[k].name@ { assert(s.take(k + 1)[k].name@ == n); }
    if has_col(s.take(k + 1), n) { let i = choose|i: int| 0 <= i < k + 1 && (#[trigger] s.take(k + 1)[i]).name@ == n; if i < k { assert(s.take(k)[i].name@ == n); } }
  }
}
proof fn lemma_in(a: Seq<&String>, d: Set<Seq<char>>, n: Seq<char>)
  requires lists(a, d)
  ensures in_upto(a, a.len() as int, n) == d.contains(n)
{
  if d.contains(n) { assert(has_key(a, n)); let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).k() == n; assert(a[i]@ == n); }
  if in_upto(a, a.len() as int, n) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == n; assert(d.contains(a[i].k())); }
}
proof fn lemma_same_tables(o: TView, w: TView, a3: Seq<&String>, a4: Seq<&String>, a5: Seq<&String>)
  requires forall|n: Seq<char>| in_upto(a3, a3.len() as int, n) == (#[trigger] w.dom().contains(n) && !o.dom().contains(n)),
    forall|n: Seq<char>| in_upto(a4, a4.len() as int, n) == (#[trigger] o.dom().contains(n) && !w.dom().contains(n)),
    forall|n: Seq<char>| o.dom().contains(n) && #[trigger] w.dom().contains(n) ==> in_upto(a5, a5.len() as int, n),
    forall|i: int| 0 <= i < a5.len() ==> o.dom().contains((#[trigger] a5[i])@)
  ensures equal_t(o, w) == (a3.len() + a4.len() == 0 && forall|i: int| 0 <= i < a5.len() ==> same_col(o[(#[trigger] a5[i])@], w[a5[i]@]))
{
  if equal_t(o, w) {
    if a3.len() > 0 { assert(in_upto(a3, a3.len() as int, a3[0]@)); assert(w.dom().contains(a3[0]@) && !o.dom().contains(a3[0]@)); }
    if a4.len() > 0 { assert(in_upto(a4, a4.len() as int, a4[0]@)); assert(o.dom().contains(a4[0]@) && !w.dom().contains(a4[0]@)); }
  }
  if a3.len() + a4.len() == 0 && (forall|i: int| 0 <= i < a5.len() ==> same_col(o[(#[trigger] a5[i])@], w[a5[i]@])) {
    assert forall|n: Seq<char>| #[trigger] o.dom().contains(n) <==> w.dom().contains(n) by { assert(!in_upto(a3, 0, n) && !in_upto(a4, 0, n)); }
    assert forall|n: Seq<char>| #[trigger] o.dom().contains(n) implies same_col(o[n], w[n]) by { assert(w.dom().contains(n)); let i = choose|i: int| 0 <= i < a5.len() && (#[trigger] a5[i])@ == n; }
  }
}
pub open spec fn with_upto(o: TView, w: TView, a: Seq<&String>, k: int) -> TView { IMap::new(|n: Seq<char>| o.dom().contains(n) || in_upto(a, k, n), |n: Seq<char>| if in_upto(a, k, n) { w[n] } else { o[n] }) }
pub open spec fn less_upto(o: TView, a: Seq<&String>, k: int) -> TView { IMap::new(|n: Seq<char>| o.dom().contains(n) && !in_upto(a, k, n), |n: Seq<char>| o[n]) }
// ---- the same for tables ----
pub broadcast proof fn skip_add<T>(a: Seq<T>, b: Seq<T>, n: int) requires n == a.len() ensures #[trigger] (a + b).skip(n) == b { assert((a + b).skip(n) =~= b); }
pub open spec fn keys_upto(d: Set<Seq<char>>, s: Seq<String>, k: int) -> bool { forall|n: Seq<char>| #[trigger] d.contains(n) == has_key(s.take(k), n) }
proof fn lemma_keys(d: Set<Seq<char>>, s: Seq<String>, k: int)
  requires keys_upto(d, s, k), 0 <= k < s.len()
  ensures keys_upto(d.insert(s[k]@), s, k + 1)
{
  assert forall|n: Seq<char>| #[trigger] has_key(s.take(k + 1), n) == (has_key(s.take(k), n) || n == s[k]@) by {
    if has_key(s.take(k), n) { let i = choose|i: int| 0 <= i < k && (#[trigger] s.take(k)[i]).k() == n; assert(s.take(k + 1)[i].k() == n); }
    if n == s[k]@ { assert(s.take(k + 1)[k].k() == n); }
    if has_key(s.take(k + 1), n) { let i = choose|i: int| 0 <= i < k + 1 && (#[trigger] s.take(k + 1)[i]).k() == n; if i < k { assert(s.take(k)[i].k() == n); } }
  }
}
proof fn lemma_keys_all(d: Set<Seq<char>>, s: Seq<String>, all: Set<Seq<char>>)
  requires keys_upto(d, s, s.len() as int), lists(s, all)
  ensures d == all
{
  assert(s.take(s.len() as int) =~= s);
  assert forall|n: Seq<char>| d.contains(n) == all.contains(n) by { if has_key(s, n) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).k() == n; assert(all.contains(s[i].k())); } }
  assert(d =~= all);
}
pub open spec fn s_with(o: SView, w: SView, a: Seq<&String>, k: int) -> SView { IMap::new(|n: Seq<char>| o.dom().contains(n) || in_upto(a, k, n), |n: Seq<char>| if in_upto(a, k, n) { w[n] } else { o[n] }) }
pub open spec fn s_less(o: SView, a: Seq<&String>, k: int) -> SView { IMap::new(|n: Seq<char>| o.dom().contains(n) && !in_upto(a, k, n), |n: Seq<char>| o[n]) }
proof fn lemma_same_schemas(o: SView, w: SView, a3: Seq<&String>, a4: Seq<&String>, a5: Seq<&String>)
  requires forall|n: Seq<char>| in_upto(a3, a3.len() as int, n) == (#[trigger] w.dom().contains(n) && !o.dom().contains(n)),
    forall|n: Seq<char>| in_upto(a4, a4.len() as int, n) == (#[trigger] o.dom().contains(n) && !w.dom().contains(n)),
    forall|n: Seq<char>| o.dom().contains(n) && #[trigger] w.dom().contains(n) ==> in_upto(a5, a5.len() as int, n),
    forall|i: int| 0 <= i < a5.len() ==> o.dom().contains((#[trigger] a5[i])@)
  ensures equal_s(o, w) == (a3.len() + a4.len() == 0 && forall|i: int| 0 <= i < a5.len() ==> equal_t(o[(#[trigger] a5[i])@], w[a5[i]@]))
{
  if equal_s(o, w) {
    if a3.len() > 0 { assert(in_upto(a3, a3.len() as int, a3[0]@)); assert(w.dom().contains(a3[0]@) && !o.dom().contains(a3[0]@)); }
    if a4.len() > 0 { assert(in_upto(a4, a4.len() as int, a4[0]@)); assert(o.dom().contains(a4[0]@) && !w.dom().contains(a4[0]@)); }
  }
  if a3.len() + a4.len() == 0 && (forall|i: int| 0 <= i < a5.len() ==> equal_t(o[(#[trigger] a5[i])@], w[a5[i]@])) {
    assert forall|n: Seq<char>| #[trigger] o.dom().contains(n) <==> w.dom().contains(n) by { assert(!in_upto(a3, 0, n) && !in_upto(a4, 0, n)); }
    assert forall|n: Seq<char>| #[trigger] o.dom().contains(n) implies equal_t(o[n], w[n]) by { assert(w.dom().contains(n)); let i = choose|i: int| 0 <= i < a5.len() && (#[trigger] a5[i])@ == n; }
  }
}
proof fn lemma_agreeing(s: SView, o: SView, w: SView, mid2: SView, a: Seq<&String>)
  requires s.dom() =~= mid2.dom(), forall|n: Seq<char>| #[trigger] mid2.dom().contains(n) == w.dom().contains(n), forall|n: Seq<char>| w.dom().contains(n) ==> #[trigger] mid2[n] == (if o.dom().contains(n) { o[n] } else { w[n] }),
    forall|n: Seq<char>| o.dom().contains(n) && #[trigger] w.dom().contains(n) ==> in_upto(a, a.len() as int, n),
    forall|i: int| 0 <= i < a.len() ==> agree_t(s[(#[trigger] a[i])@], w[a[i]@]),
    forall|n: Seq<char>| mid2.dom().contains(n) && !in_upto(a, a.len() as int, n) ==> #[trigger] s[n] == mid2[n]
  ensures agree(s, w)
{
  assert forall|n: Seq<char>| #[trigger] s.dom().contains(n) implies agree_t(s[n], w[n]) by {
    assert(mid2.dom().contains(n) && w.dom().contains(n));
    if in_upto(a, a.len() as int, n) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == n; } else { assert(!o.dom().contains(n)); assert(s[n] == mid2[n]); }
  }
}
/// what an operation of a difference may name
pub open spec fn fits(op: Operation, old: ADB, new: ADB) -> bool {
  let o = old.tables.map(); let w = new.tables.map();
  match op {
    Operation::AddTable(t) => w.dom().contains(t.name@) && t == w[t.name@] && !o.dom().contains(t.name@),
    Operation::AddTableConstraints(t) => w.dom().contains(t.name@) && t == w[t.name@] && !o.dom().contains(t.name@),
    Operation::RemoveTable(n) => o.dom().contains(n@) && !w.dom().contains(n@),
    Operation::RemoveTableConstraints(t) => o.dom().contains(t.name@) && t == o[t.name@] && !w.dom().contains(t.name@),
    Operation::AddColumn(t, _) => o.dom().contains(t@) && w.dom().contains(t@),
    Operation::RemoveColumn(t, _) => o.dom().contains(t@) && w.dom().contains(t@),
    Operation::ChangeColumn(t, _, _) => o.dom().contains(t@) && w.dom().contains(t@),
    Operation::AddTableIfNotExists(_) => false,
  }
}
pub open spec fn refers(t: ATable) -> bool { exists|i: int| 0 <= i < t.columns@.len() && (#[trigger] t.columns@[i]).reference is Some }
/// references are only asked for once every table is there …
pub open spec fn adds_before(ops: Seq<Operation>, k: int) -> bool { forall|j: int| 0 <= j < ops.len() && (#[trigger] ops[j]) is AddTable ==> j < k }
pub open spec fn asked(ops: Seq<Operation>, t: ATable, k: int) -> bool { exists|i: int| 0 <= i && k <= i < ops.len() && #[trigger] ops[i] == Operation::AddTableConstraints(t) }
pub open spec fn constrained_after(ops: Seq<Operation>, old: ADB, new: ADB, k: int) -> bool {
  adds_before(ops, k) && forall|n: Seq<char>| #[trigger] new.tables.map().dom().contains(n) && !old.tables.map().dom().contains(n) && refers(new.tables.map()[n]) ==> asked(ops, new.tables.map()[n], k)
}
/// … and lifted while every table is still there
pub open spec fn drops_from(ops: Seq<Operation>, k: int) -> bool { forall|j: int| 0 <= j < ops.len() && (#[trigger] ops[j]) is RemoveTable ==> k <= j }
pub open spec fn lifted(ops: Seq<Operation>, t: ATable, k: int) -> bool { exists|i: int| 0 <= i < k && i < ops.len() && #[trigger] ops[i] == Operation::RemoveTableConstraints(t) }
pub open spec fn lifted_before(ops: Seq<Operation>, old: ADB, new: ADB, k: int) -> bool {
  drops_from(ops, k) && forall|n: Seq<char>| #[trigger] old.tables.map().dom().contains(n) && !new.tables.map().dom().contains(n) && refers(old.tables.map()[n]) ==> lifted(ops, old.tables.map()[n], k)
}
proof fn lemma_more(was: Seq<Operation>, now: Seq<Operation>)
  requires was.len() <= now.len(), was =~= now.take(was.len() as int)
  ensures forall|t: ATable, k: int| #[trigger] asked(was, t, k) ==> asked(now, t, k), forall|t: ATable, k: int, l: int| #[trigger] lifted(was, t, k) && k <= l ==> #[trigger] lifted(now, t, l)
{
  assert forall|i: int| 0 <= i < was.len() implies #[trigger] was[i] == now[i] by { assert(was[i] == now.take(was.len() as int)[i]); }
  assert forall|t: ATable, k: int| #[trigger] asked(was, t, k) implies asked(now, t, k) by { let i = choose|i: int| 0 <= i && k <= i < was.len() && #[trigger] was[i] == Operation::AddTableConstraints(t); assert(now[i] == was[i]); }
  assert forall|t: ATable, k: int, l: int| #[trigger] lifted(was, t, k) && k <= l implies #[trigger] lifted(now, t, l) by { let i = choose|i: int| 0 <= i < k && i < was.len() && #[trigger] was[i] == Operation::RemoveTableConstraints(t); assert(now[i] == was[i]); }
}
pub mod code {
use super::*;
broadcast use {prelude::valg::vtext, sqlval_eq_sym, skip_add};
impl ATable {
//@@ fn path=butane_core/src/migrations/adb.rs name=replace_column impl=ATable loops=1 eq
//@   requires wf_table(*old(self))
//@   ensures wf_table(*final(self)), final(self).name == old(self).name, tv(*final(self)) =~= tv(*old(self)).insert(col.name@, col)
//@@ entry
//@   let ghost was = self.columns@;
//@@ loop 1
//@   invariant_except_break
//@     $acc is None,
//@   invariant
//@     $all == was, $acc is None ==> forall|i: int| 0 <= i < $pos ==> __fin1[i] == #[trigger] was[i] && was[i].name@ != col.name@,
//@     $acc is Some ==> $pos > 0 && *($acc->0) == was[$pos - 1] && *final($acc->0) == __fin1[$pos - 1] && was[$pos - 1].name@ == col.name@ && (forall|i: int| 0 <= i < $pos - 1 ==> __fin1[i] == #[trigger] was[i]),
//@   ensures
//@     $acc is None ==> $pos == $all.len(),
//@@ exit
//@   let ghost now = self.columns@;
//@   proof {
//@     assert(now.len() == was.len() || now.len() == was.len() + 1);
//@     if now.len() == was.len() + 1 { assert(!has_col(was, col.name@)); assert(now =~= was.push(col)); lemma_pushed(was, now, col); } else {
//@       let k = choose|k: int| 0 <= k < was.len() && (#[trigger] was[k]).name@ == col.name@ && now[k] == col; lemma_replaced(was, now, col, k); }
//@   }
//@@ end
//@@ fn path=butane_core/src/migrations/adb.rs name=add_column impl=ATable
//@   requires wf_table(*old(self))
//@   ensures wf_table(*final(self)), final(self).name == old(self).name, tv(*final(self)) =~= tv(*old(self)).insert(col.name@, col)
//@@ end
//@@ fn path=butane_core/src/migrations/adb.rs name=remove_column impl=ATable loops=1 eq
//@   requires wf_table(*old(self))
//@   ensures wf_table(*final(self)), final(self).name == old(self).name, tv(*final(self)) =~= tv(*old(self)).remove(name@)
//@@ entry
//@   let ghost was = self.columns@;
//@@ loop 1
//@   $all == was, without($acc@, was.take($pos), name@)
//@@ loop_exit 1
//@   proof { reveal(Seq::filter); assert(was.take($pos).drop_last() =~= was.take($pos - 1)); }
//@@ exit
//@   proof { assert(was.take(was.len() as int) =~= was); lemma_without(self.columns@, was, name@); }
//@@ end
//@@ fn path=butane_core/src/migrations/adb.rs name=column impl=ATable loops=1 eq
//@   ensures r is Some == has_col(self.columns@, name@), r is Some ==> (r->0).name@ == name@
//@@ loop 1
//@   invariant_except_break
//@     $acc is None,
//@   invariant
//@     $all == self.columns@, $acc is None ==> forall|i: int| 0 <= i < $pos ==> (#[trigger] $all[i]).name@ != name@,
//@     $acc is Some ==> $pos > 0 && *($acc->0) == $all[$pos - 1] && $all[$pos - 1].name@ == name@,
//@   ensures
//@     $acc is None ==> $pos == $all.len(),
//@@ end
}
impl ADB {
//@@ fn path=butane_core/src/migrations/adb.rs name=remove_table impl=ADB
//@   ensures final(self).tables.map() == old(self).tables.map().remove(name@)
//@@ end
//@@ fn path=butane_core/src/migrations/adb.rs name=transform_with impl=ADB
//@   requires wf(*old(self)), (op matches Operation::AddTable(t) ==> wf_table(t)), (op matches Operation::AddTableIfNotExists(t) ==> wf_table(t))
//@   ensures wf(*final(self)), sv(*final(self)) =~~= applied(sv(*old(self)), op)
//@@ end
}
//@@ fn path=butane_core/src/migrations/adb.rs name=col_by_name impl="" loops=1 eq
//@   requires unique_cols(columns@)
//@   ensures r is Some == has_col(columns@, name@), r is Some ==> *(r->0) == the_col(columns@, name@) && (r->0).name@ == name@
//@@ loop 1
//@   invariant_except_break
//@     $acc is None,
//@   invariant
//@     $all == columns@, $acc is None ==> forall|i: int| 0 <= i < $pos ==> (#[trigger] $all[i]).name@ != name@,
//@     $acc is Some ==> $pos > 0 && *($acc->0) == $all[$pos - 1] && $all[$pos - 1].name@ == name@,
//@   ensures
//@     $acc is None ==> $pos == $all.len(),
//@@ end
//@@ fn path=butane_core/src/migrations/adb.rs name=diff_table impl="" loops=5 eq
//@   requires wf_table(*old), wf_table(*new), old.name@ == new.name@
//@   ensures forall|i: int| 0 <= i < r@.len() ==> col_op(#[trigger] r@[i], new.name@), agree_t(t_all(tv(*old), r@), tv(*new)), (r@.len() == 0) == equal_t(tv(*old), tv(*new))
//@@ entry
//@   let ghost mut mid = tv(*old); let ghost mut mid2 = tv(*old); let ghost mut all3: Seq<&String> = Seq::empty(); let ghost mut all4: Seq<&String> = Seq::empty();
//@@ loop_entry 1
//@   let ghost was = $acc.set();
//@@ loop 1
//@   $all == new.columns@, names_upto($acc.set(), new.columns@, $pos)
//@@ loop_exit 1
//@   proof { lemma_names(was, new.columns@, $pos - 1); }
//@@ loop_after 1
//@   proof { assert(new.columns@.take($pos) =~= new.columns@); }
//@@ loop_entry 2
//@   let ghost was = $acc.set();
//@@ loop 2
//@   $all == old.columns@, names_upto($acc.set(), old.columns@, $pos)
//@@ loop_exit 2
//@   proof { lemma_names(was, old.columns@, $pos - 1); }
//@@ loop_after 2
//@   proof { assert(old.columns@.take($pos) =~= old.columns@); }
//@@ loop_entry 3
//@   let ghost was = ops@;
//@@ loop 3
//@   forall|i: int| 0 <= i < ops@.len() ==> col_op(#[trigger] ops@[i], new.name@),
//@   t_all(tv(*old), ops@) =~= with_upto(tv(*old), tv(*new), $all, $pos), ops@.len() == $pos
//@@ loop_exit 3
//@   proof { lemma_t_push(tv(*old), was, ops@.last()); assert(ops@ =~= was.push(ops@.last())); }
//@@ loop_after 3
//@   proof { mid = t_all(tv(*old), ops@); all3 = $all;
//@     assert forall|n: Seq<char>| in_upto($all, $all.len() as int, n) == (#[trigger] tv(*new).dom().contains(n) && !tv(*old).dom().contains(n)) by { lemma_in($all, new_names.set().difference(old_names.set()), n); }
//@     assert(mid =~= IMap::new(|n: Seq<char>| tv(*old).dom().contains(n) || tv(*new).dom().contains(n), |n: Seq<char>| if tv(*old).dom().contains(n) { tv(*old)[n] } else { tv(*new)[n] }));
//@   }
//@@ loop_entry 4
//@   let ghost was = ops@;
//@@ loop 4
//@   forall|i: int| 0 <= i < ops@.len() ==> col_op(#[trigger] ops@[i], new.name@),
//@   t_all(tv(*old), ops@) =~= less_upto(mid, $all, $pos), ops@.len() == all3.len() + $pos
//@@ loop_exit 4
//@   proof { lemma_t_push(tv(*old), was, ops@.last()); assert(ops@ =~= was.push(ops@.last())); }
//@@ loop_after 4
//@   proof { mid2 = t_all(tv(*old), ops@); all4 = $all;
//@     assert forall|n: Seq<char>| in_upto($all, $all.len() as int, n) == (#[trigger] tv(*old).dom().contains(n) && !tv(*new).dom().contains(n)) by { lemma_in($all, old_names.set().difference(new_names.set()), n); }
//@     assert(mid2 =~= IMap::new(|n: Seq<char>| tv(*new).dom().contains(n), |n: Seq<char>| if tv(*old).dom().contains(n) { tv(*old)[n] } else { tv(*new)[n] }));
//@   }
//@@ loop_entry 5
//@   let ghost was = ops@;
//@   proof { assert forall|i: int| 0 <= i < $pos - 1 implies (#[trigger] $all[i])@ != $all[$pos - 1]@ by { assert($all[i].k() != $all[$pos - 1].k()); }
//@     assert(new_names.set().contains($all[$pos - 1].k()) && old_names.set().contains($all[$pos - 1].k())); }
//@@ loop 5
//@   forall|i: int| 0 <= i < ops@.len() ==> col_op(#[trigger] ops@[i], new.name@),
//@   ops@.len() >= all3.len() + all4.len(), (ops@.len() == 0) == (all3.len() + all4.len() == 0 && forall|i: int| 0 <= i < $pos ==> same_col(tv(*old)[(#[trigger] $all[i])@], tv(*new)[$all[i]@])),
//@   t_all(tv(*old), ops@).dom() =~= mid2.dom(),
//@   forall|i: int| 0 <= i < $pos ==> col_is(t_all(tv(*old), ops@)[(#[trigger] $all[i])@], tv(*new)[$all[i]@]),
//@   forall|n: Seq<char>| mid2.dom().contains(n) && !in_upto($all, $pos, n) ==> #[trigger] t_all(tv(*old), ops@)[n] == mid2[n],
//@@ loop_exit 5
//@   proof { if ops@.len() > was.len() { lemma_t_push(tv(*old), was, ops@.last()); assert(ops@ =~= was.push(ops@.last())); } }
//@@ loop_after 5
//@   proof { assert forall|n: Seq<char>| tv(*old).dom().contains(n) && #[trigger] tv(*new).dom().contains(n) implies in_upto($all, $all.len() as int, n) by { lemma_in($all, new_names.set().intersect(old_names.set()), n); } 
//@     let o = tv(*old); let w = tv(*new);
//@     assert forall|n: Seq<char>| in_upto(all3, all3.len() as int, n) == (#[trigger] w.dom().contains(n) && !o.dom().contains(n)) by { lemma_in(all3, new_names.set().difference(old_names.set()), n); }
//@     assert forall|n: Seq<char>| in_upto(all4, all4.len() as int, n) == (#[trigger] o.dom().contains(n) && !w.dom().contains(n)) by { lemma_in(all4, old_names.set().difference(new_names.set()), n); }
//@     assert forall|i: int| 0 <= i < $all.len() implies o.dom().contains((#[trigger] $all[i])@) by { assert(new_names.set().intersect(old_names.set()).contains($all[i].k())); }
//@     lemma_same_tables(o, w, all3, all4, $all);
//@   }
//@@ end
//@@ fn path=butane_core/src/migrations/adb.rs name=diff impl="" loops=8 eq
//@   requires wf(*old), wf(*new)
//@   ensures agree(all_applied(sv(*old), r@), sv(*new)), (r@.len() == 0) == equal_s(sv(*old), sv(*new)), forall|i: int| 0 <= i < r@.len() ==> fits(#[trigger] r@[i], *old, *new),
//@     exists|k: int| #[trigger] constrained_after(r@, *old, *new, k), exists|k: int| #[trigger] lifted_before(r@, *old, *new, k),
//@@ entry
//@   let ghost o = sv(*old); let ghost w = sv(*new);
//@   let ghost mut mid = o; let ghost mut mid2 = o; let ghost mut all3: Seq<&String> = Seq::empty(); let ghost mut all4: Seq<&String> = Seq::empty(); let ghost mut mid_len: int = 0; let ghost mut k4: int = 0; let ghost mut got4: Seq<&String> = Seq::empty();
//@for L,X in 1:new 2:old
//@@ loop_entry %L%
//@   let ghost was = $acc.set();
//@@ loop %L%
//@   $all == %X%.tables.order(), keys_upto($acc.set(), %X%.tables.order(), $pos)
//@@ loop_exit %L%
//@   proof { lemma_keys(was, %X%.tables.order(), $pos - 1); }
//@@ loop_after %L%
//@   proof { lemma_keys_all($acc.set(), %X%.tables.order(), %X%.tables.map().dom()); }
//@endfor
//@@ loop_entry 3
//@   let ghost was = ops@;
//@   proof { assert(new_names.set().difference(old_names.set()).contains($all[$pos - 1].k())); }
//@@ loop 3
//@   forall|i: int| 0 <= i < ops@.len() ==> fits(#[trigger] ops@[i], *old, *new),
//@   ops@.len() == $pos, all_applied(o, ops@) =~= s_with(o, w, $all, $pos), drops_from(ops@, $pos),
//@@ loop_exit 3
//@   proof { lemma_all_push(o, was, ops@.last()); assert(ops@ =~= was.push(ops@.last())); }
//@@ loop_after 3
//@   proof { mid = all_applied(o, ops@); all3 = $all;
//@     assert forall|n: Seq<char>| in_upto($all, $all.len() as int, n) == (#[trigger] w.dom().contains(n) && !o.dom().contains(n)) by { lemma_in($all, new_names.set().difference(old_names.set()), n); }
//@     assert(mid =~= IMap::new(|n: Seq<char>| o.dom().contains(n) || w.dom().contains(n), |n: Seq<char>| if o.dom().contains(n) { o[n] } else { w[n] }));
//@   }
//@@ loop_entry 4
//@   let ghost was = ops@;
//@   proof { assert(old_names.set().difference(new_names.set()).contains($all[$pos - 1].k())); }
//@@ loop 4
//@   forall|i: int| 0 <= i < ops@.len() ==> fits(#[trigger] ops@[i], *old, *new),
//@   ops@.len() == all3.len() + $pos, all_applied(o, ops@) == mid, drops_from(ops@, ops@.len() as int), adds_before(ops@, all3.len() as int),
//@   forall|i: int| 0 <= i < $pos ==> lifted(ops@, old.tables.map()[(#[trigger] $all[i])@], ops@.len() as int),
//@@ loop_exit 4
//@   proof { lemma_all_push(o, was, ops@.last()); assert(ops@ =~= was.push(ops@.last())); lemma_more(was, ops@); assert(ops@.last() == ops@[ops@.len() - 1]); }
//@@ loop_after 4
//@   proof { k4 = ops@.len() as int; got4 = $all; }
//@@ loop_entry 5
//@   let ghost was = ops@;
//@   proof { assert(old_names.set().difference(new_names.set()).contains($all[$pos - 1].k())); }
//@@ loop 5
//@   forall|i: int| 0 <= i < ops@.len() ==> fits(#[trigger] ops@[i], *old, *new),
//@   ops@.len() == all3.len() + $all.len() + $pos, all_applied(o, ops@) =~= s_less(mid, $all, $pos), $all == got4,
//@   adds_before(ops@, all3.len() as int), k4 == all3.len() + got4.len(), k4 <= ops@.len(), drops_from(ops@, k4), forall|i: int| 0 <= i < got4.len() ==> lifted(ops@, old.tables.map()[(#[trigger] got4[i])@], k4),
//@@ loop_exit 5
//@   proof { lemma_all_push(o, was, ops@.last()); assert(ops@ =~= was.push(ops@.last())); lemma_more(was, ops@); }
//@@ loop_after 5
//@   proof { mid2 = all_applied(o, ops@); all4 = $all;
//@     assert forall|n: Seq<char>| in_upto($all, $all.len() as int, n) == (#[trigger] o.dom().contains(n) && !w.dom().contains(n)) by { lemma_in($all, old_names.set().difference(new_names.set()), n); }
//@     assert(mid2 =~= IMap::new(|n: Seq<char>| w.dom().contains(n), |n: Seq<char>| if o.dom().contains(n) { o[n] } else { w[n] }));
//@   }
//@@ loop_entry 6
//@   let ghost was = ops@;
//@   proof { assert forall|i: int| 0 <= i < $pos - 1 implies (#[trigger] $all[i])@ != $all[$pos - 1]@ by { assert($all[i].k() != $all[$pos - 1].k()); }
//@     assert(new_names.set().contains($all[$pos - 1].k()) && old_names.set().contains($all[$pos - 1].k())); }
//@@ loop 6
//@   forall|i: int| 0 <= i < ops@.len() ==> fits(#[trigger] ops@[i], *old, *new),
//@   ops@.len() >= all3.len() + all4.len(), (ops@.len() == 0) == (all3.len() + all4.len() == 0 && forall|i: int| 0 <= i < $pos ==> equal_t(o[(#[trigger] $all[i])@], w[$all[i]@])),
//@   all_applied(o, ops@).dom() =~= mid2.dom(), all4 == got4,
//@   adds_before(ops@, all3.len() as int), k4 == all3.len() + got4.len(), k4 <= ops@.len(), drops_from(ops@, k4), forall|i: int| 0 <= i < got4.len() ==> lifted(ops@, old.tables.map()[(#[trigger] got4[i])@], k4),
//@   forall|i: int| 0 <= i < $pos ==> agree_t(all_applied(o, ops@)[(#[trigger] $all[i])@], w[$all[i]@]),
//@   forall|n: Seq<char>| mid2.dom().contains(n) && !in_upto($all, $pos, n) ==> #[trigger] all_applied(o, ops@)[n] == mid2[n],
//@@ loop_exit 6
//@   proof { let n = $all[$pos - 1]@; let d = ops@.skip(was.len() as int); let cur = all_applied(o, was);
//@     assert(cur[n] == o[n]);
//@     lemma_all_add(o, was, d); lemma_col_ops(cur, d, n); assert(ops@ =~= was + d); lemma_more(was, ops@);
//@     assert forall|j: int| was.len() <= j < ops@.len() implies !((#[trigger] ops@[j]) is AddTable) && !(ops@[j] is RemoveTable) by { assert(col_op(d[j - was.len()], n)); }
//@     assert forall|j: int| 0 <= j < was.len() implies (#[trigger] ops@[j]) == was[j] by { }
//@     assert forall|i: int| 0 <= i < ops@.len() implies fits(#[trigger] ops@[i], *old, *new) by { if i >= was.len() { assert(col_op(d[i - was.len()], n)); assert(ops@[i] == d[i - was.len()]); } else { assert(fits(was[i], *old, *new)); } }
//@   }
//@@ loop_after 6
//@   proof { assert forall|n: Seq<char>| o.dom().contains(n) && #[trigger] w.dom().contains(n) implies in_upto($all, $all.len() as int, n) by { lemma_in($all, new_names.set().intersect(old_names.set()), n); }
//@     assert forall|n: Seq<char>| in_upto(all3, all3.len() as int, n) == (#[trigger] w.dom().contains(n) && !o.dom().contains(n)) by { lemma_in(all3, new_names.set().difference(old_names.set()), n); }
//@     assert forall|n: Seq<char>| in_upto(all4, all4.len() as int, n) == (#[trigger] o.dom().contains(n) && !w.dom().contains(n)) by { lemma_in(all4, old_names.set().difference(new_names.set()), n); }
//@     assert forall|i: int| 0 <= i < $all.len() implies o.dom().contains((#[trigger] $all[i])@) by { assert(new_names.set().intersect(old_names.set()).contains($all[i].k())); }
//@     lemma_same_schemas(o, w, all3, all4, $all);
//@     lemma_agreeing(all_applied(o, ops@), o, w, mid2, $all);
//@     mid = all_applied(o, ops@); mid_len = ops@.len() as int;
//@   }
//@@ loop_entry 7
//@   let ghost was = ops@;
//@   proof { assert(new_names.set().difference(old_names.set()).contains($all[$pos - 1].k())); }
//@@ loop 7
//@   forall|i: int| 0 <= i < ops@.len() ==> fits(#[trigger] ops@[i], *old, *new),
//@   ops@.len() >= mid_len, $pos == 0 ==> ops@.len() == mid_len, $all == all3, all_applied(o, ops@) == mid,
//@   adds_before(ops@, all3.len() as int), k4 == all3.len() + got4.len(), k4 <= ops@.len(), drops_from(ops@, k4), forall|i: int| 0 <= i < got4.len() ==> lifted(ops@, old.tables.map()[(#[trigger] got4[i])@], k4),
//@   forall|i: int| 0 <= i < $pos && refers(new.tables.map()[(#[trigger] $all[i])@]) ==> asked(ops@, new.tables.map()[$all[i]@], all3.len() as int),
//@@ loop_exit 7
//@   proof { if ops@.len() > was.len() { lemma_all_push(o, was, ops@.last()); assert(ops@ =~= was.push(ops@.last())); assert(ops@.last() == ops@[ops@.len() - 1]); } lemma_more(was, ops@); }
//@@ loop 8
//@   $all == table.columns@, !$acc ==> forall|i: int| 0 <= i < $pos ==> (#[trigger] $all[i]).reference is None,
//@@ loop_after 7
//@   proof { 
//@     assert forall|n: Seq<char>| #[trigger] new.tables.map().dom().contains(n) && !old.tables.map().dom().contains(n) && refers(new.tables.map()[n]) implies asked(ops@, new.tables.map()[n], all3.len() as int) by {
//@       lemma_in(all3, new_names.set().difference(old_names.set()), n); assert(new_names.set().difference(old_names.set()).contains(n)); assert(in_upto(all3, all3.len() as int, n));
//@       let i = choose|i: int| 0 <= i < all3.len() && (#[trigger] all3[i])@ == n; assert(all3[i]@ == n); }
//@     assert forall|n: Seq<char>| #[trigger] old.tables.map().dom().contains(n) && !new.tables.map().dom().contains(n) && refers(old.tables.map()[n]) implies lifted(ops@, old.tables.map()[n], k4) by {
//@       lemma_in(got4, old_names.set().difference(new_names.set()), n); assert(old_names.set().difference(new_names.set()).contains(n)); assert(in_upto(got4, got4.len() as int, n));
//@       let i = choose|i: int| 0 <= i < got4.len() && (#[trigger] got4[i])@ == n; assert(got4[i]@ == n); }
//@     assert(constrained_after(ops@, *old, *new, all3.len() as int)); assert(lifted_before(ops@, *old, *new, k4));
//@   }
//@@ end
}
} // verus!
fn main() {}
