//@include prelude.rs
broadcast use prelude::valg::vtext;
//@include sqlval_types.rs
//@include error.rs
//@include adb_types.rs
use core::cmp::Ordering;
//@@ type path=butane_core/src/migrations/adb.rs name=TypeResolver
//@@ type path=butane_core/src/migrations/adb.rs name=MANY_SUFFIX
impl VDisp for TypeKey { uninterp spec fn disp(&self) -> Seq<char>; }
pub uninterp spec fn str_cmp(a: Seq<char>, b: Seq<char>) -> Ordering;
/// the text order of std: a total order
#[verifier::external_body]
pub broadcast proof fn axiom_str_cmp(a: Seq<char>, b: Seq<char>)
  ensures (#[trigger] str_cmp(a, b) == Ordering::Equal) == (a == b), (str_cmp(a, b) == Ordering::Less) == (str_cmp(b, a) == Ordering::Greater) {}
pub assume_specification [<String as core::cmp::Ord>::cmp] (a: &String, b: &String) -> (r: Ordering) ensures r == str_cmp(a@, b@);
/// container types kept as JSON
pub uninterp spec fn json_prefixes() -> Seq<String>;
pub struct JsonPrefixes;
pub const JSON_MAP_PREFIXES: JsonPrefixes = JsonPrefixes;
impl JsonPrefixes { #[verifier::external_body] pub fn viter(&self) -> (r: VRefIt<'_, String>) ensures r.pos() == 0, r.all().len() == json_prefixes().len(), forall|i: int| 0 <= i < r.all().len() ==> #[trigger] r.all()[i] == json_prefixes()[i] { unimplemented!() } }
pub open spec fn json_upto(s: Seq<char>, k: int) -> bool { exists|i: int| 0 <= i < k && starts(s, (#[trigger] json_prefixes()[i])@) }
pub open spec fn json_like(k: TK) -> bool { match k { TK::CT(s) => json_upto(s, json_prefixes().len() as int), TK::PK(_) => false } }
// ---- what a name finally stands for ----
pub open spec fn pk_at(s: Seq<AColumn>, i: int) -> bool { 0 <= i < s.len() && s[i].pk && forall|j: int| 0 <= j < i ==> !(#[trigger] s[j]).pk }
pub open spec fn has_pk(t: ATable) -> bool { exists|i: int| pk_at(t.columns@, i) }
pub open spec fn pk_ix(t: ATable) -> int { choose|i: int| pk_at(t.columns@, i) }
pub open spec fn the_pk(t: ATable) -> AColumn { t.columns@[pk_ix(t)] }
pub type Ts = Map<Seq<char>, ATable>;
pub type Es = Map<Seq<char>, DeferredSqlType>;
pub type Rs = Map<Seq<char>, TypeIdentifier>;
/// one step: the type of the table's key, or of the registered type
pub open spec fn step(ts: Ts, es: Es, k: TK) -> Option<CT> {
  if json_like(k) { Some(CT::Ty(SqlType::Json)) }
  else if k is PK && ts.dom().contains(k->PK_0) && has_pk(ts[k->PK_0]) { Some(ct(the_pk(ts[k->PK_0]).sqltype)) }
  else if es.dom().contains(tkey(k)) { Some(ct(es[tkey(k)])) }
  else { None }
}
pub open spec fn fin(ts: Ts, es: Es, k: TK, n: nat) -> Option<CT> decreases n {
  if n == 0 { None } else { match step(ts, es, k) { None => None, Some(CT::Deferred(k2)) => fin(ts, es, k2, (n - 1) as nat), Some(c) => Some(c) } }
}
pub open spec fn stands(ts: Ts, es: Es, k: TK, c: CT) -> bool { exists|n: nat| #[trigger] fin(ts, es, k, n) == Some(c) }
pub open spec fn unresolvable(ts: Ts, es: Es, k: TK) -> bool { forall|n: nat| #[trigger] fin(ts, es, k, n) is None }
pub proof fn lemma_mono(ts: Ts, es: Es, k: TK, n: nat, m: nat)
  requires fin(ts, es, k, n) is Some, n <= m
  ensures fin(ts, es, k, m) == fin(ts, es, k, n)
  decreases n
{ if let Some(CT::Deferred(k2)) = step(ts, es, k) { lemma_mono(ts, es, k2, (n - 1) as nat, (m - 1) as nat); } }
pub proof fn lemma_one(ts: Ts, es: Es, k: TK, a: CT, b: CT)
  requires stands(ts, es, k, a), stands(ts, es, k, b)
  ensures a == b
{ let n = choose|n: nat| #[trigger] fin(ts, es, k, n) == Some(a); let m = choose|n: nat| #[trigger] fin(ts, es, k, n) == Some(b); if n <= m { lemma_mono(ts, es, k, n, m); } else { lemma_mono(ts, es, k, m, n); } }
pub proof fn lemma_known(ts: Ts, es: Es, k: TK, n: nat)
  ensures !(fin(ts, es, k, n) matches Some(CT::Deferred(_)))
  decreases n
{ if n > 0 { if let Some(CT::Deferred(k2)) = step(ts, es, k) { lemma_known(ts, es, k2, (n - 1) as nat); } } }
pub proof fn lemma_step(ts: Ts, es: Es, k: TK, o: CT, c: CT)
  requires step(ts, es, k) == Some(o), ty_ok(ts, es, o, c), !(c is Deferred)
  ensures stands(ts, es, k, c)
{
  if o is Deferred && c != o { let n = choose|n: nat| #[trigger] fin(ts, es, o->Deferred_0, n) == Some(c); assert(fin(ts, es, k, n + 1) == Some(c)); }
  else { assert(fin(ts, es, k, 1) == Some(c)); }
}
/// a column type as left behind: as it was, or what it stood for
pub open spec fn ty_ok(ts: Ts, es: Es, o: CT, c: CT) -> bool { c == o || (o is Deferred && !(c is Deferred) && stands(ts, es, o->Deferred_0, c)) }
// ---- references ----
pub ghost enum RV { No, Lit(Seq<char>, Seq<char>), Def(CT) }
pub open spec fn rv(r: Option<ARef>) -> RV { match r { None => RV::No, Some(ARef::Literal(l)) => RV::Lit(l.table_name@, l.column_name@), Some(ARef::Deferred(d)) => RV::Def(ct(d)) } }
/// the table a name in a reference denotes: itself, or the one it was registered for
pub open spec fn ref_table(es: Es, k: TK) -> Option<Seq<char>> {
  if es.dom().contains(tkey(k)) && (ct(es[tkey(k)]) matches CT::Deferred(TK::PK(n))) { Some(ct(es[tkey(k)])->Deferred_0->PK_0) }
  else if k is PK { Some(k->PK_0) } else { None }
}
pub open spec fn ref_want(ts: Ts, es: Es, r: RV) -> RV { match r {
  RV::Def(CT::Deferred(k)) => match ref_table(es, k) { Some(n) => if ts.dom().contains(n) && has_pk(ts[n]) { RV::Lit(n, the_pk(ts[n]).name@) } else { r }, None => r },
  _ => r } }
pub open spec fn ref_fine(es: Es, r: RV) -> bool { r matches RV::Def(c) ==> c is Deferred && ref_table(es, c->Deferred_0) is Some }
/// everything but type and reference is as it was
pub open spec fn rest_same(o: AColumn, c: AColumn) -> bool { o.name == c.name && o.nullable == c.nullable && o.pk == c.pk && o.auto == c.auto && o.unique == c.unique && o.default == c.default }
pub open spec fn col_ok(ts: Ts, es: Es, o: AColumn, c: AColumn) -> bool {
  rest_same(o, c) && (!(ct(o.sqltype) is Deferred) ==> c.sqltype == o.sqltype) && ty_ok(ts, es, ct(o.sqltype), ct(c.sqltype)) && rv(c.reference) == ref_want(ts, es, rv(o.reference))
}
pub open spec fn tab_ok(ts: Ts, es: Es, o: ATable, c: ATable) -> bool { o.name == c.name && o.columns@.len() == c.columns@.len() && forall|i: int| 0 <= i < o.columns@.len() ==> col_ok(ts, es, #[trigger] o.columns@[i], c.columns@[i]) }
pub open spec fn tabs_ok(ts: Ts, es: Es, cur: Ts) -> bool { cur.dom() == ts.dom() && forall|n: Seq<char>| #[trigger] ts.dom().contains(n) ==> tab_ok(ts, es, ts[n], cur[n]) }
pub open spec fn ext_ok(ts: Ts, es: Es, cur: Es) -> bool { cur.dom() == es.dom() && forall|n: Seq<char>| #[trigger] es.dom().contains(n) ==> ty_ok(ts, es, ct(es[n]), ct(cur[n])) }
pub open spec fn all_known(t: ATable) -> bool { forall|i: int| 0 <= i < t.columns@.len() ==> !(ct((#[trigger] t.columns@[i]).sqltype) is Deferred) }
// ---- what the resolver has learned ----
pub open spec fn sound(ts: Ts, es: Es, r: Rs) -> bool { forall|k: TK| #[trigger] r.dom().contains(tkey(k)) && !json_like(k) ==> stands(ts, es, k, ctid(r[tkey(k)])) }
pub open spec fn findable(r: Rs, k: TK) -> bool { json_like(k) || r.dom().contains(tkey(k)) }
pub open spec fn found(r: Rs, k: TK) -> Option<CT> { if json_like(k) { Some(CT::Ty(SqlType::Json)) } else if r.dom().contains(tkey(k)) { Some(ctid(r[tkey(k)])) } else { None } }
pub proof fn lemma_tkey(a: TK, b: TK) ensures tkey(a) == tkey(b) <==> a == b
{ if tkey(a) == tkey(b) { assert(tkey(a)[0] == tkey(b)[0]); match (a, b) { (TK::PK(x), TK::PK(y)) => { assert(tkey(a).skip(1) =~= x); assert(tkey(b).skip(1) =~= y); } (TK::CT(x), TK::CT(y)) => { assert(tkey(a).skip(1) =~= x); assert(tkey(b).skip(1) =~= y); } _ => {} } } }
pub proof fn lemma_learn(ts: Ts, es: Es, r: Rs, k: TK, t: TypeIdentifier)
  requires sound(ts, es, r), json_like(k) || stands(ts, es, k, ctid(t))
  ensures sound(ts, es, r.insert(tkey(k), t))
{ assert forall|j: TK| #[trigger] r.insert(tkey(k), t).dom().contains(tkey(j)) && !json_like(j) implies stands(ts, es, j, ctid(r.insert(tkey(k), t)[tkey(j)])) by { lemma_tkey(j, k); if j != k { assert(r.dom().contains(tkey(j))); } } }
pub proof fn lemma_found(ts: Ts, es: Es, r: Rs, k: TK)
  requires sound(ts, es, r), found(r, k) is Some
  ensures stands(ts, es, k, found(r, k)->0)
{ if json_like(k) { assert(fin(ts, es, k, 1) == Some(CT::Ty(SqlType::Json))); } }
/// nothing more can be learned from this table (or registered type), and nothing in it resolved
pub open spec fn stable_t(r: Rs, t: ATable) -> bool {
  (has_pk(t) && !(ct(the_pk(t).sqltype) is Deferred) ==> r.dom().contains(tkey(TK::PK(t.name@))))
  && forall|i: int| 0 <= i < t.columns@.len() && ct((#[trigger] t.columns@[i]).sqltype) is Deferred ==> !findable(r, ct(t.columns@[i].sqltype)->Deferred_0)
}
pub open spec fn stable_e(r: Rs, key: Seq<char>, c: CT) -> bool { match c { CT::Deferred(k) => !findable(r, k), _ => r.dom().contains(key) } }
pub open spec fn stable(ts: Ts, es: Es, r: Rs) -> bool { (forall|n: Seq<char>| #[trigger] ts.dom().contains(n) ==> stable_t(r, ts[n])) && (forall|n: Seq<char>| #[trigger] es.dom().contains(n) ==> stable_e(r, n, ct(es[n]))) }
pub open spec fn wf(ts: Ts) -> bool { forall|n: Seq<char>| #[trigger] ts.dom().contains(n) ==> ts[n].name@ == n && (has_pk(ts[n]) || ends(n, MANY_SUFFIX@)) }
pub open spec fn refs_fine(ts: Ts, es: Es) -> bool { forall|n: Seq<char>, i: int| #![trigger ts[n].columns@[i]] ts.dom().contains(n) && 0 <= i < ts[n].columns@.len() ==> ref_fine(es, rv(ts[n].columns@[i].reference)) }
/// a name is a table with a key or a registered type, not both
pub open spec fn no_clash(ts: Ts, es: Es) -> bool { forall|n: Seq<char>| #[trigger] ts.dom().contains(n) && has_pk(ts[n]) ==> !es.dom().contains(tkey(TK::PK(n))) }
pub proof fn lemma_same_pk(o: ATable, c: ATable)
  requires o.columns@.len() == c.columns@.len(), forall|i: int| 0 <= i < o.columns@.len() ==> (#[trigger] o.columns@[i]).pk == c.columns@[i].pk
  ensures has_pk(o) == has_pk(c), has_pk(o) ==> pk_ix(o) == pk_ix(c)
{
  assert forall|i: int| pk_at(o.columns@, i) == #[trigger] pk_at(c.columns@, i) by { if pk_at(o.columns@, i) { assert forall|j: int| 0 <= j < i implies !(#[trigger] c.columns@[j]).pk by { assert(!o.columns@[j].pk); } } if pk_at(c.columns@, i) { assert forall|j: int| 0 <= j < i implies !(#[trigger] o.columns@[j]).pk by { assert(!c.columns@[j].pk); } } }
  if has_pk(o) { let i = pk_ix(o); assert(pk_at(c.columns@, i)); let j = pk_ix(c); if i < j { assert(!c.columns@[i].pk); } else if j < i { assert(!c.columns@[j].pk); } }
  if has_pk(c) { let i = pk_ix(c); assert(pk_at(o.columns@, i)); }
}
/// when nothing changes any more, every name that stands for something has been found
pub proof fn lemma_complete(ts: Ts, es: Es, cts: Ts, ces: Es, r: Rs, k: TK, n: nat)
  requires tabs_ok(ts, es, cts), ext_ok(ts, es, ces), stable(cts, ces, r), wf(ts), fin(ts, es, k, n) is Some
  ensures findable(r, k)
  decreases n
{
  if !json_like(k) {
    let o = step(ts, es, k)->0;
    if let CT::Deferred(k2) = o { lemma_complete(ts, es, cts, ces, r, k2, (n - 1) as nat); }
    if k is PK && ts.dom().contains(k->PK_0) && has_pk(ts[k->PK_0]) {
      let t = k->PK_0; assert(cts.dom().contains(t)); assert(tab_ok(ts, es, ts[t], cts[t]));
      lemma_same_pk(ts[t], cts[t]); assert(col_ok(ts, es, ts[t].columns@[pk_ix(ts[t])], cts[t].columns@[pk_ix(ts[t])]));
      assert(stable_t(r, cts[t]));
    } else { assert(ces.dom().contains(tkey(k))); assert(stable_e(r, tkey(k), ct(ces[tkey(k)]))); }
  }
}
pub proof fn lemma_tabs(ts: Ts, es: Es, cur: Ts, ord: Seq<String>, all: Seq<ATable>, fin: Seq<ATable>)
  requires lists(ord, ts.dom()), cur.dom() == ts.dom(), at_keys(fin, ord, cur), all.len() == fin.len(), forall|i: int| 0 <= i < ord.len() ==> tab_ok(ts, es, ts[ord[i].k()], #[trigger] fin[i])
  ensures tabs_ok(ts, es, cur)
{ assert forall|n: Seq<char>| #[trigger] ts.dom().contains(n) implies tab_ok(ts, es, ts[n], cur[n]) by { assert(has_key(ord, n)); let i = choose|i: int| 0 <= i < ord.len() && (#[trigger] ord[i]).k() == n; assert(fin[i] == cur[n]); } }
pub proof fn lemma_ext(ts: Ts, es: Es, cur: Es, ord: Seq<TypeKey>, fin: Seq<DeferredSqlType>)
  requires lists(ord, es.dom()), cur.dom() == es.dom(), at_keys(fin, ord, cur), forall|i: int| 0 <= i < ord.len() ==> ty_ok(ts, es, ct(es[ord[i].k()]), ct(#[trigger] fin[i]))
  ensures ext_ok(ts, es, cur)
{ assert forall|n: Seq<char>| #[trigger] es.dom().contains(n) implies ty_ok(ts, es, ct(es[n]), ct(cur[n])) by { assert(has_key(ord, n)); let i = choose|i: int| 0 <= i < ord.len() && (#[trigger] ord[i]).k() == n; assert(fin[i] == cur[n]); } }
pub open spec fn stable_ts(r: Rs, ts: Ts) -> bool { forall|n: Seq<char>| #[trigger] ts.dom().contains(n) ==> stable_t(r, ts[n]) }
pub proof fn lemma_stable_ts(r: Rs, cur: Ts, ord: Seq<String>, fin: Seq<ATable>)
  requires lists(ord, cur.dom()), at_keys(fin, ord, cur), forall|i: int| 0 <= i < ord.len() ==> stable_t(r, #[trigger] fin[i])
  ensures stable_ts(r, cur)
{ assert forall|n: Seq<char>| #[trigger] cur.dom().contains(n) implies stable_t(r, cur[n]) by { assert(has_key(ord, n)); let i = choose|i: int| 0 <= i < ord.len() && (#[trigger] ord[i]).k() == n; assert(fin[i] == cur[n]); } }
pub proof fn lemma_stable_es(r: Rs, cur: Es, ord: Seq<TypeKey>, fin: Seq<DeferredSqlType>)
  requires lists(ord, cur.dom()), at_keys(fin, ord, cur), forall|i: int| 0 <= i < ord.len() ==> stable_e(r, ord[i].k(), ct(#[trigger] fin[i]))
  ensures forall|n: Seq<char>| #[trigger] cur.dom().contains(n) ==> stable_e(r, n, ct(cur[n]))
{ assert forall|n: Seq<char>| #[trigger] cur.dom().contains(n) implies stable_e(r, n, ct(cur[n])) by { assert(has_key(ord, n)); let i = choose|i: int| 0 <= i < ord.len() && (#[trigger] ord[i]).k() == n; assert(fin[i] == cur[n]); } }
// ---- termination: every pass that changes something learns a name or resolves a column ----
pub open spec fn one_if(b: bool) -> nat { if b { 1 } else { 0 } }
pub open spec fn cnt_c(s: Seq<AColumn>, k: int) -> nat decreases k { if k <= 0 { 0 } else { cnt_c(s, k - 1) + one_if(ct(s[k - 1].sqltype) is Deferred) } }
pub open spec fn cnt_t(s: Seq<ATable>, k: int) -> nat decreases k { if k <= 0 { 0 } else { cnt_t(s, k - 1) + cnt_c(s[k - 1].columns@, s[k - 1].columns@.len() as int) } }
pub open spec fn cnt_e(s: Seq<DeferredSqlType>, k: int) -> nat decreases k { if k <= 0 { 0 } else { cnt_e(s, k - 1) + one_if(ct(s[k - 1]) is Deferred) } }
pub open spec fn listed<K: VKey, V>(o: Seq<K>, m: Map<Seq<char>, V>) -> Seq<V> { Seq::new(o.len(), |i: int| m[o[i].k()]) }
pub open spec fn names(ts: Ts, es: Es) -> Set<Seq<char>> { es.dom().union(ts.dom().map(|n: Seq<char>| tkey(TK::PK(n)))) }
pub open spec fn free(u: Set<Seq<char>>, r: Rs) -> nat { u.difference(r.dom()).len() }
pub proof fn lemma_free(u: Set<Seq<char>>, r: Rs, k: Seq<char>, t: TypeIdentifier)
  requires u.contains(k), !r.dom().contains(k)
  ensures free(u, r.insert(k, t)) + 1 == free(u, r)
{ assert(u.difference(r.insert(k, t).dom()) =~= u.difference(r.dom()).remove(k)); assert(u.difference(r.dom()).contains(k)); }
impl TypeKey {
//@@ fn path=butane_core/src/migrations/adb.rs name=cmp impl="Ord for TypeKey"
//@@ entry
//@   broadcast use axiom_str_cmp;
//@@ spec
//@   ensures (r == Ordering::Equal) == (tk(*self) == tk(*other)),
//@     tk(*self) is PK && tk(*other) is CT ==> r == Ordering::Less, tk(*self) is CT && tk(*other) is PK ==> r == Ordering::Greater,
//@     tk(*self) is PK && tk(*other) is PK ==> r == str_cmp(tk(*self)->PK_0, tk(*other)->PK_0), tk(*self) is CT && tk(*other) is CT ==> r == str_cmp(tk(*self)->CT_0, tk(*other)->CT_0)
//@@ end
}
impl TypeIdentifier {
//@@ fn path=butane_core/src/migrations/adb.rs name=from impl="From<SqlType> for TypeIdentifier"
//@@ sig
//@ fn from(ty: SqlType) -> (r: TypeIdentifier)
//@@ spec
//@   ensures r == TypeIdentifier::Ty(ty)
//@@ end
}
impl VInto<TypeIdentifier> for SqlType { open spec fn vinto_spec(self, r: TypeIdentifier) -> bool { r == TypeIdentifier::Ty(self) } fn vinto(self) -> (r: TypeIdentifier) { TypeIdentifier::from(self) } }
impl DeferredSqlType {
//@@ fn path=butane_core/src/migrations/adb.rs name=from impl="From<TypeIdentifier> for DeferredSqlType"
//@@ sig
//@ fn from(id: TypeIdentifier) -> (r: DeferredSqlType)
//@@ spec
//@   ensures r == DeferredSqlType::KnownId(id)
//@@ end
}
impl VInto<DeferredSqlType> for TypeIdentifier { open spec fn vinto_spec(self, r: DeferredSqlType) -> bool { r == DeferredSqlType::KnownId(self) } fn vinto(self) -> (r: DeferredSqlType) { DeferredSqlType::from(self) } }
impl TypeResolver {
//@@ fn path=butane_core/src/migrations/adb.rs name=new impl=TypeResolver
//@   ensures r.types.map() == Map::<Seq<char>, TypeIdentifier>::empty()
//@@ end
//@@ fn path=butane_core/src/migrations/adb.rs name=find_type impl=TypeResolver loops=1
//@   ensures r is Some == findable(self.types.map(), tk(*key)), r is Some ==> Some(ctid(r->0)) == found(self.types.map(), tk(*key))
//@@ loop 1
//@   $all.len() == json_prefixes().len(), forall|i: int| 0 <= i < $all.len() ==> #[trigger] $all[i] == json_prefixes()[i], tk(*key) == TK::CT(ct@), !json_upto(ct@, $pos),
//@@ end
//@@ fn path=butane_core/src/migrations/adb.rs name=insert impl=TypeResolver
//@   ensures r == !old(self).types.map().dom().contains(key.k()), final(self).types.map() == (if r { old(self).types.map().insert(key.k(), ty) } else { old(self).types.map() })
//@@ end
//@@ fn path=butane_core/src/migrations/adb.rs name=insert_pk impl=TypeResolver
//@   ensures r == !old(self).types.map().dom().contains(tkey(TK::PK(key@))), final(self).types.map() == (if r { old(self).types.map().insert(tkey(TK::PK(key@)), ty) } else { old(self).types.map() })
//@@ end
}
impl DeferredSqlType {
//@@ fn path=butane_core/src/migrations/adb.rs name=is_known impl=DeferredSqlType
//@   ensures r == !(ct(*self) is Deferred)
//@@ end
//@@ fn path=butane_core/src/migrations/adb.rs name=resolve impl=DeferredSqlType
//@   ensures match ct(*self) { CT::Deferred(k) => r is Ok == findable(resolver.types.map(), k) && (r is Ok ==> Some(ctid(r->Ok_0)) == found(resolver.types.map(), k)), c => r is Ok && ctid(r->Ok_0) == c }
//@@ end
}
impl AColumn {
//@@ fn path=butane_core/src/migrations/adb.rs name=is_pk impl=AColumn
//@   ensures r == self.pk
//@@ end
//@@ fn path=butane_core/src/migrations/adb.rs name=typeid impl=AColumn
//@   ensures match ct(self.sqltype) { CT::Deferred(_) => r is Err, c => r is Ok && ctid(r->Ok_0) == c }
//@@ end
//@@ fn path=butane_core/src/migrations/adb.rs name=resolve_type impl=AColumn
//@   ensures rest_same(*old(self), *final(self)), final(self).reference == old(self).reference,
//@     r == (ct(old(self).sqltype) is Deferred && findable(resolver.types.map(), ct(old(self).sqltype)->Deferred_0)), !r ==> final(self).sqltype == old(self).sqltype,
//@     r ==> Some(ct(final(self).sqltype)) == found(resolver.types.map(), ct(old(self).sqltype)->Deferred_0)
//@@ end
//@@ fn path=butane_core/src/migrations/adb.rs name=resolve_reference_target impl=AColumn
//@   requires ref_fine(extra_types.map(), rv(old(self).reference))
//@   ensures rest_same(*old(self), *final(self)), final(self).sqltype == old(self).sqltype, rv(final(self).reference) == ref_want(tables.map(), extra_types.map(), rv(old(self).reference))
//@@ end
}
impl ARefLiteral {
//@@ fn path=butane_core/src/migrations/adb.rs name=new impl=ARefLiteral
//@@ sig
//@ fn new<A: VInto<String>, B: VInto<String>>(table_name: A, column_name: B) -> (r: Self)
//@@ spec
//@   ensures table_name.vinto_spec(r.table_name), column_name.vinto_spec(r.column_name)
//@@ end
}
impl ATable {
//@@ fn path=butane_core/src/migrations/adb.rs name=pk impl=ATable loops=1
//@   ensures r is Some == has_pk(*self), r is Some ==> *(r->0) == the_pk(*self)
//@@ loop 1
//@   invariant_except_break
//@     $acc is None,
//@   invariant
//@     $all == self.columns@, $acc is None ==> forall|i: int| 0 <= i < $pos ==> !(#[trigger] $all[i]).pk,
//@     $acc is Some ==> *($acc->0) == the_pk(*self) && has_pk(*self),
//@   ensures
//@     $acc is None ==> $pos == $all.len(),
//@@ loop_entry 1
//@   proof { if $all[$pos - 1].pk { assert(pk_at(self.columns@, $pos - 1)); let j = pk_ix(*self); if j < $pos - 1 { assert(!$all[j].pk); } else if $pos - 1 < j { assert(!self.columns@[$pos - 1].pk); } } }
//@@ end
}
impl ADB {
//@@ fn path=butane_core/src/migrations/adb.rs name=resolve_types impl=ADB
//@   requires wf(old(self).tables.map()), refs_fine(old(self).tables.map(), old(self).extra_types.map()), no_clash(old(self).tables.map(), old(self).extra_types.map())
//@   ensures tabs_ok(old(self).tables.map(), old(self).extra_types.map(), final(self).tables.map()), ext_ok(old(self).tables.map(), old(self).extra_types.map(), final(self).extra_types.map()),
//@     r is Ok ==> forall|n: Seq<char>| #[trigger] old(self).tables.map().dom().contains(n) ==> all_known(final(self).tables.map()[n]),
//@     r is Err ==> exists|n: Seq<char>, i: int| #![trigger old(self).tables.map()[n].columns@[i]] old(self).tables.map().dom().contains(n) && 0 <= i < old(self).tables.map()[n].columns@.len() && ct(old(self).tables.map()[n].columns@[i].sqltype) is Deferred && unresolvable(old(self).tables.map(), old(self).extra_types.map(), ct(old(self).tables.map()[n].columns@[i].sqltype)->Deferred_0)
//@@ entry
//@   let ghost ts = self.tables.map(); let ghost es = self.extra_types.map();
//@   let ghost u = names(ts, es);
//@   let ghost ord = self.tables.order(); let ghost eord = self.extra_types.order();
//@@ loop_entry 1
//@   let ghost t0 = *table;
//@   proof { assert(ts.dom().contains(ord[$pos - 1].k())); }
//@@ loop 1
//@   forall|i: int| 0 <= i < $pos ==> tab_ok(ts, es, ts[ord[i].k()], #[trigger] $fin[i]),
//@@ loop 2
//@   $all == t0.columns@, forall|i: int| 0 <= i < $pos ==> col_ok(ts, es, #[trigger] t0.columns@[i], $fin[i]),
//@@ loop_after 1
//@   proof { assert(self.tables.map().dom() == ts.dom()); lemma_tabs(ts, es, self.tables.map(), ord, $all, $fin); }
//@@ loop 3
//@ invariant
//@   tabs_ok(ts, es, self.tables.map()), ext_ok(ts, es, self.extra_types.map()), self.tables.order() == ord, self.extra_types.order() == eord,
//@   sound(ts, es, resolver.types.map()), !changed ==> stable(self.tables.map(), self.extra_types.map(), resolver.types.map()),
//@ decreases cnt_t(listed(ord, self.tables.map()), ord.len() as int) + cnt_e(listed(eord, self.extra_types.map()), eord.len() as int) + free(u, resolver.types.map()) + one_if(changed),
//@@ loop_entry 3
//@   let ghost r0 = resolver.types.map(); let ghost cur0 = self.tables.map(); let ghost ext0 = self.extra_types.map();
//@@ loop_entry 4
//@   let ghost t0 = *table; let ghost c1 = changed; let ghost kn = ord[$pos - 1].k(); let ghost o0 = ts[kn]; let ghost r1 = resolver.types.map();
//@   proof { assert(ts.dom().contains(kn)); assert(t0 == cur0[kn]); assert(tab_ok(ts, es, o0, t0));
//@     assert forall|i: int| 0 <= i < o0.columns@.len() implies (#[trigger] o0.columns@[i]).pk == t0.columns@[i].pk by { assert(col_ok(ts, es, o0.columns@[i], t0.columns@[i])); }
//@     lemma_same_pk(o0, t0);
//@     assert(u.contains(tkey(TK::PK(kn))));
//@     assert forall|t: TypeIdentifier| !r1.dom().contains(tkey(TK::PK(kn))) implies free(u, #[trigger] r1.insert(tkey(TK::PK(kn)), t)) + 1 == free(u, r1) by { lemma_free(u, r1, tkey(TK::PK(kn)), t); }
//@     if has_pk(t0) && !(ct(the_pk(t0).sqltype) is Deferred) {
//@       assert(col_ok(ts, es, o0.columns@[pk_ix(o0)], t0.columns@[pk_ix(o0)]));
//@       lemma_step(ts, es, TK::PK(kn), ct(the_pk(o0).sqltype), ct(the_pk(t0).sqltype));
//@       assert forall|t: TypeIdentifier| ctid(t) == ct(the_pk(t0).sqltype) implies sound(ts, es, #[trigger] r1.insert(tkey(TK::PK(kn)), t)) by { lemma_learn(ts, es, r1, TK::PK(kn), t); }
//@     } }
//@@ loop 4
//@   cnt_t($fin, $pos) + free(u, resolver.types.map()) + one_if(changed) <= cnt_t($all, $pos) + free(u, r0),
//@   sound(ts, es, resolver.types.map()), !changed ==> resolver.types.map() == r0,
//@   forall|i: int| 0 <= i < $pos ==> tab_ok(ts, es, ts[ord[i].k()], #[trigger] $fin[i]),
//@   forall|i: int| 0 <= i < $pos && !changed ==> stable_t(r0, #[trigger] $fin[i]),
//@@ loop_entry 5
//@   proof { let c = *col; let r = resolver.types.map(); assert(c == t0.columns@[$pos - 1]); assert(col_ok(ts, es, o0.columns@[$pos - 1], c));
//@     if ct(c.sqltype) is Deferred { let k = ct(c.sqltype)->Deferred_0; if findable(r, k) { lemma_found(ts, es, r, k); } } }
//@@ loop 5
//@   $all == t0.columns@, c1 ==> changed,
//@   cnt_t($fin4, $pos4 - 1) + cnt_c($fin, $pos) + free(u, resolver.types.map()) + one_if(changed) <= cnt_t($all4, $pos4 - 1) + cnt_c($all, $pos) + free(u, r0),
//@   forall|i: int| 0 <= i < $pos ==> col_ok(ts, es, #[trigger] o0.columns@[i], $fin[i]),
//@   !changed ==> resolver.types.map() == r0 && (has_pk(t0) && !(ct(the_pk(t0).sqltype) is Deferred) ==> r0.dom().contains(tkey(TK::PK(kn)))),
//@   forall|i: int| 0 <= i < $pos && !changed ==> (#[trigger] $fin[i]).sqltype == t0.columns@[i].sqltype && (ct($fin[i].sqltype) is Deferred ==> !findable(r0, ct($fin[i].sqltype)->Deferred_0)),
//@@ loop_after 5
//@   proof { assert(table.columns@ == $fin5); 
//@     assert(tab_ok(ts, es, o0, *table));
//@     assert forall|i: int| 0 <= i < t0.columns@.len() implies (#[trigger] t0.columns@[i]).pk == table.columns@[i].pk by { assert(col_ok(ts, es, o0.columns@[i], t0.columns@[i])); assert(col_ok(ts, es, o0.columns@[i], table.columns@[i])); }
//@     lemma_same_pk(t0, *table);
//@     if !changed { if has_pk(t0) { assert($fin5[pk_ix(t0)].sqltype == t0.columns@[pk_ix(t0)].sqltype); } assert(stable_t(r0, *table)); } }
//@@ loop_after 4
//@   proof { assert($fin =~= listed(ord, self.tables.map())); assert($all =~= listed(ord, cur0)); lemma_tabs(ts, es, self.tables.map(), ord, $all, $fin); if !changed { lemma_stable_ts(r0, self.tables.map(), ord, $fin); } }
//@@ loop_entry 6
//@   let ghost kk = eord[$pos - 1]; let ghost r1 = resolver.types.map(); let ghost o1 = ct(es[kk.k()]);
//@   proof { assert(es.dom().contains(kk.k())); assert(u.contains(kk.k()));
//@     assert forall|t: TypeIdentifier| !r1.dom().contains(kk.k()) implies free(u, #[trigger] r1.insert(kk.k(), t)) + 1 == free(u, r1) by { lemma_free(u, r1, kk.k(), t); }
//@     assert($all[$pos - 1].0 == kk); let c = ct($all[$pos - 1].1); assert(ty_ok(ts, es, o1, c));
//@     if !json_like(tk(kk)) { if tk(kk) is PK { let n = tk(kk)->PK_0; assert(!(ts.dom().contains(n) && has_pk(ts[n]))); } assert(step(ts, es, tk(kk)) == Some(o1)); if !(c is Deferred) { lemma_step(ts, es, tk(kk), o1, c); } }
//@     if c is Deferred { let k = c->Deferred_0; if findable(r1, k) { lemma_found(ts, es, r1, k); } }
//@     else { assert forall|t: TypeIdentifier| ctid(t) == c implies sound(ts, es, #[trigger] r1.insert(kk.k(), t)) by { lemma_learn(ts, es, r1, tk(kk), t); } } }
//@@ loop 6
//@   cnt_e($fin, $pos) + cnt_t(listed(ord, self.tables.map()), ord.len() as int) + free(u, resolver.types.map()) + one_if(changed) <= cnt_e(listed(eord, ext0), $pos) + cnt_t(listed(ord, cur0), ord.len() as int) + free(u, r0),
//@   sound(ts, es, resolver.types.map()), !changed ==> resolver.types.map() == r0 && stable_ts(r0, self.tables.map()),
//@   forall|i: int| 0 <= i < $pos ==> ty_ok(ts, es, ct(es[eord[i].k()]), ct(#[trigger] $fin[i])),
//@   forall|i: int| 0 <= i < $pos && !changed ==> stable_e(r0, eord[i].k(), ct(#[trigger] $fin[i])),
//@@ loop_after 6
//@   proof { assert($fin =~= listed(eord, self.extra_types.map())); lemma_ext(ts, es, self.extra_types.map(), eord, $fin); if !changed { lemma_stable_es(r0, self.extra_types.map(), eord, $fin); } }
//@@ loop_entry 7
//@   let ghost t0 = *table; let ghost kn = ord[$pos - 1].k(); let ghost o0 = ts[kn];
//@   proof { assert(ts.dom().contains(kn)); assert(tab_ok(ts, es, o0, t0)); assert(stable_t(resolver.types.map(), t0)); }
//@@ loop 7
//@   forall|i: int| 0 <= i < $pos ==> all_known(#[trigger] $all[i]),
//@@ loop_entry 8
//@   proof { let c = *col; let i = $pos - 1; assert(c == t0.columns@[i]); assert(col_ok(ts, es, o0.columns@[i], c));
//@     if ct(c.sqltype) is Deferred { let k = ct(c.sqltype)->Deferred_0; assert(!findable(resolver.types.map(), k)); assert(ct(ts[kn].columns@[i].sqltype) == ct(c.sqltype));
//@       assert forall|n: nat| #[trigger] fin(ts, es, k, n) is None by { if fin(ts, es, k, n) is Some { lemma_complete(ts, es, self.tables.map(), self.extra_types.map(), resolver.types.map(), k, n); } } } }
//@@ loop 8
//@   $all == t0.columns@, forall|i: int| 0 <= i < $pos ==> !(ct((#[trigger] t0.columns@[i]).sqltype) is Deferred),
//@@ loop_after 7
//@   proof { assert forall|n: Seq<char>| #[trigger] ts.dom().contains(n) implies all_known(self.tables.map()[n]) by { assert(has_key(ord, n)); let i = choose|i: int| 0 <= i < ord.len() && (#[trigger] ord[i]).k() == n; assert($all[i] == self.tables.map()[n]); } }
//@@ end
}
} // verus!
fn main() {}
