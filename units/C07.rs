//@define CELLINV
//@include prelude.rs
broadcast use prelude::valg::vtext;
use core::marker::PhantomData;
//@include sqlval_types.rs
//@include error.rs
//@@ type path=butane_core/src/custom.rs name=SqlValRefCustom subst="postgres::types::Type=>PgType;&'a(dynpostgres::types::ToSql+Sync)=>&'a DynPgToSql"
//@@ type path=butane_core/src/sqlval.rs name=SqlValRef subst="serde_json::Value=>JsonVal"
//@include vals.rs
//@include conv.rs
//@include rows.rs
//@include query_types.rs
//@include clones.rs
//@include mapped.rs
//@include querydef.rs
//@include pktrait.rs
//@include dataobj.rs
//@include cell.rs
#[verifier::reject_recursive_types(T)]
//@@ type path=butane_core/src/many.rs name=Many
/// how often `h` was added
pub open spec fn count(s: Seq<SqlVal>, h: AVal) -> nat decreases s.len() { if s.len() == 0 { 0 } else { count(s.drop_last(), h) + (if vv(s.last()) == h { 1nat } else { 0 }) } }
/// how many links to `h` there are once the pending changes are carried out
pub open spec fn target(n: nat, new: Seq<SqlVal>, removed: Seq<SqlVal>, h: AVal) -> nat { if is_member(removed, h) { 0 } else { n + count(new, h) } }
/// a cloned list is the same list
pub broadcast proof fn list_clone(a: Vec<SqlVal>, b: Vec<SqlVal>) requires #[trigger] vstd::std_specs::vec::vec_clone_trigger(a, b), a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> cloned::<SqlVal>(#[trigger] a[i], b[i])
  ensures a@ == b@, vals(a@) == vals(b@)
{ assert forall|i: int| 0 <= i < a.len() implies a@[i] == b@[i] by { assert(cloned::<SqlVal>(a[i], b[i])); } assert(a@ =~= b@); }
pub proof fn count_push(s: Seq<SqlVal>, v: SqlVal, h: AVal) ensures count(s.push(v), h) == count(s, h) + (if vv(v) == h { 1nat } else { 0 }) { assert(s.push(v).drop_last() =~= s); }
pub open spec fn vals(s: Seq<SqlVal>) -> Seq<AVal> { Seq::new(s.len(), |i: int| vv(s[i])) }
impl<'a, T> VRefIt<'a, T> {
  #[verifier::external_body] pub fn collect(self) -> (r: Vec<&'a T>) requires self.pos() == 0 ensures refs(r@, self.all()) { unimplemented!() }
}
/// the query for the values linked to `o` in link table `t`
pub open spec fn asks_own<T: DataObject>(s: Sel, t: Seq<char>, o: SqlVal) -> bool {
  s.table == T::table() && s.cols == T::COLUMNS@ && s.limit is None && s.offset is None
    && s.filter is Some && (match s.filter->0 { BoolExpr::Subquery { col, tbl2, tbl2_col, expr } => col == T::PKCOL && tbl2.disp() == t && tbl2_col@ == "has"@ && (match *expr { BoolExpr::Eq(c, Expr::Val(v)) => c@ == "owner"@ && v == o, _ => false }), _ => false })
}
pub open spec fn asks_for<T: DataObject>(e: BoolExpr) -> Sel { Sel { table: T::table(), cols: T::COLUMNS@, filter: Some(e), limit: None, offset: None, sort: Seq::empty() } }
/// `v` is what a database answers: the linked rows, then the rows of the pending additions `pend`
pub open spec fn answered<T: DataObject>(f: spec_fn(Sel) -> Option<Seq<RowView>>, s: Sel, pend: Seq<AVal>, v: Seq<T>) -> bool {
  f(s) is Some && (if pend.len() == 0 { read_from(v, f(s)->0) }
    else { exists|l: Vec<SqlVal>| #[trigger] vals(l@) == pend && f(asks_for::<T>(BoolExpr::In(T::PKCOL, l))) is Some && read_from(v, f(s)->0 + f(asks_for::<T>(BoolExpr::In(T::PKCOL, l)))->0) })
}
pub open spec fn came<T: DataObject>(t: Seq<char>, o: SqlVal, pend: Seq<AVal>, v: Seq<T>) -> bool {
  exists|f: spec_fn(Sel) -> Option<Seq<RowView>>, s: Sel| asks_own::<T>(s, t, o) && #[trigger] answered(f, s, pend, v)
}
/// what may be cached for a relation with owner `o` and additions `p` (some of which may have been carried out meanwhile)
pub open spec fn cacheable<T: DataObject>(t: Seq<char>, o: Option<SqlVal>, p: Seq<AVal>, v: Seq<T>) -> bool {
  o is Some && exists|k: int| 0 <= k <= p.len() && #[trigger] came(t, o->0, p.take(k), v)
}
pub open spec fn caches<T: DataObject>(c: OnceLock<Vec<T>>, t: Seq<char>, o: Option<SqlVal>, p: Seq<AVal>) -> bool { forall|v: Vec<T>| #[trigger] c.allows(v) <==> cacheable(t, o, p, v@) }
pub open spec fn asker<C: ConnectionMethods>(c: &C) -> spec_fn(Sel) -> Option<Seq<RowView>> { |s: Sel| c.answer(s) }
pub open spec fn kcount<T: DataObject>(s: Seq<T>, h: AVal) -> nat decreases s.len() { if s.len() == 0 { 0 } else { kcount(s.drop_last(), h) + (if s.last().key().enc() == h { 1nat } else { 0 }) } }
pub proof fn same_count<T: DataObject>(n: Seq<SqlVal>, s: Seq<T>, h: AVal) requires n.len() == s.len(), forall|i: int| 0 <= i < n.len() ==> vv(#[trigger] n[i]) == s[i].key().enc() ensures count(n, h) == kcount(s, h) decreases n.len()
{ if n.len() > 0 { same_count(n.drop_last(), s.drop_last(), h); } }
impl<T: DataObject> Many<T> {
  /// whatever is or will be cached are this relation's values: the linked ones and the pending additions
  pub open spec fn wf(&self) -> bool { self.all_values.was_set() || exists|p: Seq<AVal>| vals(self.new_values@).is_prefix_of(p) && #[trigger] caches(self.all_values, self.item_table.disp(), self.owner, p) }
  proof fn allows_now(&self) requires self.wf(), !self.all_values.was_set()
    ensures forall|v: Vec<T>| self.owner is Some && #[trigger] came(self.item_table.disp(), self.owner->0, vals(self.new_values@), v@) ==> self.all_values.allows(v)
  {
    let p = choose|p: Seq<AVal>| vals(self.new_values@).is_prefix_of(p) && #[trigger] caches(self.all_values, self.item_table.disp(), self.owner, p);
    assert(p.take(vals(self.new_values@).len() as int) =~= vals(self.new_values@));
    assert forall|v: Vec<T>| self.owner is Some && #[trigger] came(self.item_table.disp(), self.owner->0, vals(self.new_values@), v@) implies self.all_values.allows(v) by {
      assert(came(self.item_table.disp(), self.owner->0, p.take(vals(self.new_values@).len() as int), v@));
    }
  }
  pub open spec fn own(&self, t: Seq<char>, o: AVal) -> bool { t == self.item_table.disp() && self.owner is Some && o == vv(self.owner->0) }
  pub open spec fn same_but_pending(&self, o: &Self) -> bool { self.item_table == o.item_table && self.owner == o.owner && self.owner_type == o.owner_type }
//@@ fn path=butane_core/src/many.rs name=new impl="Many<T>"
//@@ exit
//@   proof { let p = vals(__ret.new_values@); choose_allowed(__ret.all_values, |v: Vec<T>| cacheable(__ret.item_table.disp(), __ret.owner, p, v@)); assert(caches(__ret.all_values, __ret.item_table.disp(), __ret.owner, p)); }
//@@ spec
//@   ensures r.wf(), r.owner is None, r.new_values@.len() == 0, r.removed_values@.len() == 0, r.all_values.fresh()
//@@ end
//@@ fn path=butane_core/src/many.rs name=ensure_init impl="Many<T>"
//@@ exit
//@   proof { let p = vals(self.new_values@); choose_allowed(self.all_values, |v: Vec<T>| cacheable(self.item_table.disp(), self.owner, p, v@)); assert(caches(self.all_values, self.item_table.disp(), self.owner, p)); }
//@@ spec
//@   ensures old(self).owner is Some && old(self).wf() ==> final(self).wf(), old(self).owner is None ==> final(self).wf(),
//@     final(self).new_values@ == old(self).new_values@, final(self).removed_values@ == old(self).removed_values@,
//@     old(self).owner is Some ==> *final(self) == *old(self),
//@     old(self).owner is None ==> final(self).owner == Some(owner) && final(self).item_table.disp() == item_table@ && final(self).owner_type == owner_type && final(self).all_values.fresh(),
//@@ end
//@@ fn path=butane_core/src/many.rs name=add impl="Many<T>"
//@@ entry
//@   proof { if new_val.key().valid() { new_val.key().valid_encodable(); } }
//@@ exit
//@   proof { let p = vals(self.new_values@); choose_allowed(self.all_values, |v: Vec<T>| cacheable(self.item_table.disp(), self.owner, p, v@)); assert(caches(self.all_values, self.item_table.disp(), self.owner, p)); }
//@@ spec
//@   ensures r is Ok == new_val.key().valid(), r is Err ==> *final(self) == *old(self), r is Ok ==> final(self).wf(),
//@     r is Ok ==> final(self).same_but_pending(old(self)) && final(self).removed_values@ == old(self).removed_values@ && final(self).all_values.fresh()
//@       && added_to(old(self).new_values@, final(self).new_values@) && vv(final(self).new_values@.last()) == new_val.key().enc(),
//@@ end
//@@ fn path=butane_core/src/many.rs name=remove impl="Many<T>"
//@@ exit
//@   proof { let p = vals(self.new_values@); choose_allowed(self.all_values, |v: Vec<T>| cacheable(self.item_table.disp(), self.owner, p, v@)); assert(caches(self.all_values, self.item_table.disp(), self.owner, p)); }
//@@ spec
//@   requires val.key().encodable()
//@   ensures final(self).wf(), final(self).same_but_pending(old(self)) && final(self).new_values@ == old(self).new_values@ && final(self).all_values.fresh()
//@       && added_to(old(self).removed_values@, final(self).removed_values@) && vv(final(self).removed_values@.last()) == val.key().enc(),
//@@ end
//@@ fn path=butane_core/src/many.rs name=get impl="Many<T>"
//@@ hint self.all_values.get() => opt
//@@ sig
//@ pub fn get(&self) -> (r: Result<VRefIt<'_, T>>)
//@@ spec
//@   ensures self.all_values.was_set() ==> r is Ok, r is Ok ==> self.all_values.eventual() is Some && r->Ok_0.all() == self.all_values.eventual()->0@ && r->Ok_0.pos() == 0
//@@ end
//@@ fn path=butane_core/src/many.rs name=query impl="Many<T>"
//@   ensures (r is Ok) == (self.owner is Some), r is Ok ==> asks_own::<T>(r->Ok_0.sel(), self.item_table.disp(), self.owner->0) && r->Ok_0.sel().sort == Seq::<Order>::empty()
//@@ end
//@@ fn path=butane_core/src/many.rs name=columns impl="Many<T>"
//@@ spec
//@   ensures link_columns(r@), r@[0].ty == self.owner_type, r@[1].ty == <T::PKType as FieldType>::SQLTYPE
//@@ end
//@@ fn path=butane_core/src/many.rs name=save impl="ManyOps<T> for Many<T>"
//@@ sig
//@ #[verifier::exec_allows_no_decreases_clause] #[verifier::allow_complex_invariants]
//@ pub fn save<C: ConnectionMethods>(&mut self, conn: &mut C) -> (r: Result<()>)
//@@ entry
//@   broadcast use {list_clone, prefix_shrinks};
//@   proof { reveal_strlit("owner"); reveal_strlit("has"); reveal_with_fuel(on_links, 4); reveal_with_fuel(selects, 4); assert("has"@.len() != "owner"@.len()); }
//@@ spec
//@   ensures final(self).same_but_pending(old(self)), final(self).all_values == old(self).all_values, old(self).wf() ==> final(self).wf(),
//@     old(self).owner is None ==> r is Err,
//@     r is Ok ==> final(self).new_values@.len() == 0 && final(self).removed_values@.len() == 0,
//@     // links of other owners and other tables are never touched
//@     forall|t: Seq<char>, o: AVal, h: AVal| !old(self).own(t, o) ==> #[trigger] final(conn).links(t, o, h) == old(conn).links(t, o, h),
//@     // what is asked for is either done or still pending
//@     forall|t: Seq<char>, o: AVal, h: AVal| old(self).own(t, o) ==> target(#[trigger] final(conn).links(t, o, h), final(self).new_values@, final(self).removed_values@, h)
//@         == target(old(conn).links(t, o, h), old(self).new_values@, old(self).removed_values@, h),
//@@ loop 1
//@   invariant self.same_but_pending(old(self)), old(self).wf() ==> self.wf(), self.all_values == old(self).all_values, self.removed_values@ == old(self).removed_values@, owner == &old(self).owner->0, old(self).owner is Some,
//@     forall|t: Seq<char>, o: AVal, h: AVal| !old(self).own(t, o) ==> #[trigger] conn.links(t, o, h) == old(conn).links(t, o, h),
//@     forall|t: Seq<char>, o: AVal, h: AVal| old(self).own(t, o) ==> #[trigger] conn.links(t, o, h) + count(self.new_values@, h) == old(conn).links(t, o, h) + count(old(self).new_values@, h),
//@   ensures self.new_values@.len() == 0,
//@@ end
}
//@@ fn path=butane_core/src/many.rs name=load_query_uncached impl=""
//@@ sig
//@ pub fn load_query_uncached<'a, T: DataObject, C: ConnectionMethods>(many: &'a Many<T>, conn: &C, query: Query<T>) -> (r: Result<Vec<T>>)
//@@ entry
//@   broadcast use list_clone;
//@   let ghost qs = query.sel();
//@@ spec
//@   ensures r is Ok ==> answered(asker(conn), query.sel(), vals(many.new_values@), r->Ok_0@)
//@@ end
//@@ fn path=butane_core/src/many.rs name=load_query impl=""
//@@ entry
//@   proof { if !many.all_values.was_set() { many.allows_now(); } }
//@@ sig
//@ pub fn load_query<'a, T: DataObject, C: ConnectionMethods>(many: &'a Many<T>, conn: &C, query: Query<T>) -> (r: Result<VRefIt<'a, T>>)
//@@ closure 1
//@   (r: Result<Vec<T>>) ensures r is Ok ==> came(many.item_table.disp(), many.owner->0, vals(many.new_values@), r->Ok_0@)
//@@ spec
//@   requires many.wf(), many.owner is Some, asks_own::<T>(query.sel(), many.item_table.disp(), many.owner->0)
//@   ensures r is Ok ==> many.holds(r->Ok_0.all()) && r->Ok_0.pos() == 0
//@@ end
impl<T: DataObject> Many<T> {
  /// `v` is what the relation's cache holds, and its values
  pub open spec fn holds(&self, v: Seq<T>) -> bool { self.all_values.eventual() is Some && v == self.all_values.eventual()->0@ && (self.all_values.was_set() || self.all_values.allows(self.all_values.eventual()->0)) }
//@@ fn path=butane_core/src/many.rs name=load impl="ManyOps<T> for Many<T>"
//@@ sig
//@ pub fn load<'a, C: ConnectionMethods>(&'a self, conn: &C) -> (r: Result<VIt<&'a T>>)
//@@ spec
//@   requires self.wf()
//@   ensures r is Ok ==> r->Ok_0.pos() == 0 && (if self.owner is Some { exists|v: Seq<T>| #[trigger] self.holds(v) && refs(r->Ok_0.all(), v) } else { r->Ok_0.all().len() == 0 })
//@@ end
//@@ fn path=butane_core/src/many.rs name=load_ordered impl="ManyOps<T> for Many<T>"
//@@ sig
//@ pub fn load_ordered<'a, C: ConnectionMethods>(&'a self, conn: &C, order: OrderDirection) -> (r: Result<VIt<&'a T>>)
//@@ spec
//@   requires self.wf()
//@   ensures r is Ok ==> r->Ok_0.pos() == 0 && (if self.owner is Some { exists|v: Seq<T>| #[trigger] self.holds(v) && refs(r->Ok_0.all(), v) } else { r->Ok_0.all().len() == 0 })
//@@ end
//@@ fn path=butane_core/src/many.rs name=delete impl="ManyOps<T> for Many<T>"
//@@ sig
//@ pub fn delete<C: ConnectionMethods>(&mut self, conn: &mut C) -> (r: Result<()>)
//@@ entry
//@   proof { reveal_strlit("owner"); reveal_strlit("has"); reveal_with_fuel(on_links, 4); reveal_with_fuel(selects, 4); assert("has"@.len() != "owner"@.len()); }
//@@ spec
//@   ensures r is Err ==> *final(self) == *old(self) && same_links(final(conn), old(conn)), old(self).owner is None ==> r is Err,
//@     r is Ok ==> final(self).wf() && final(self).same_but_pending(old(self)) && final(self).new_values@.len() == 0 && final(self).removed_values@.len() == 0 && final(self).all_values.was_set() && final(self).all_values.eventual()->0@.len() == 0,
//@     forall|t: Seq<char>, o: AVal, h: AVal| #[trigger] final(conn).links(t, o, h) == (if r is Ok && old(self).own(t, o) { 0 } else { old(conn).links(t, o, h) }),
//@@ end
//@@ fn path=butane_core/src/many.rs name=set impl="ManyOps<T> for Many<T>"
//@@ before save
//@   proof { assert forall|h: AVal| #[trigger] count(self.new_values@, h) == kcount(values@, h) by { same_count(self.new_values@, values@, h); } }
//@@ subst ManyOps :: delete(self, => self.delete(
//@@ subst ManyOps :: save(self, => self.save(
//@@ sig
//@ pub fn set<C: ConnectionMethods>(&mut self, conn: &mut C, values: Vec<T>) -> (r: Result<()>)
//@@ spec
//@   ensures final(self).same_but_pending(old(self)), old(self).owner is None ==> r is Err,
//@     forall|t: Seq<char>, o: AVal, h: AVal| !old(self).own(t, o) ==> #[trigger] final(conn).links(t, o, h) == old(conn).links(t, o, h),
//@     // afterwards exactly the given values are linked
//@     r is Ok ==> forall|t: Seq<char>, o: AVal, h: AVal| old(self).own(t, o) ==> #[trigger] final(conn).links(t, o, h) == kcount(values@, h),
//@     r is Ok ==> final(self).new_values@.len() == 0 && final(self).removed_values@.len() == 0 && final(self).all_values.was_set() && final(self).all_values.eventual() == Some(values),
//@@ loop 1
//@   self.same_but_pending(old(self)), self.removed_values@.len() == 0, self.new_values@.len() == $pos, forall|i: int| 0 <= i < $pos ==> vv(#[trigger] self.new_values@[i]) == $all[i].key().enc()
//@@ end
}
pub open spec fn added_to(a: Seq<SqlVal>, b: Seq<SqlVal>) -> bool { b.len() == a.len() + 1 && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
pub broadcast proof fn prefix_shrinks(a: Seq<SqlVal>, b: Seq<SqlVal>, p: Seq<AVal>) requires b.len() > 0, a == b.drop_last(), #[trigger] vals(b).is_prefix_of(p) ensures #[trigger] vals(a).is_prefix_of(p) { assert(vals(a) =~= vals(b).drop_last()); assert(vals(a) =~= p.take(a.len() as int)); }
pub open spec fn refs<T>(a: Seq<&T>, v: Seq<T>) -> bool { a.len() == v.len() && forall|i: int| 0 <= i < a.len() ==> *(#[trigger] a[i]) == v[i] }
} // verus!
fn main() {}
