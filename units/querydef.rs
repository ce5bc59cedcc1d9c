// ===== queries and what a database answers =====
//@@ type path=butane_core/src/db/connmethods.rs name=Column
impl Column {
//@@ fn path=butane_core/src/db/connmethods.rs name=new impl=Column
//@   ensures r.name == name, r.ty == ty
//@@ end
}
/// what is asked of the database
pub ghost struct Sel { pub table: Seq<char>, pub cols: Seq<Column>, pub filter: Option<BoolExpr>, pub limit: Option<i32>, pub offset: Option<i32>, pub sort: Seq<Order> }
pub ghost enum Call {
  InsertPk { table: Seq<char>, cols: Seq<Column>, pkcol: Column, vals: Seq<AVal>, got: Option<AVal> },
  InsertOnly { table: Seq<char>, cols: Seq<Column>, vals: Seq<AVal> },
  Upsert { table: Seq<char>, cols: Seq<Column>, pkcol: Column, vals: Seq<AVal> },
  Update { table: Seq<char>, pkcol: Column, pk: AVal, cols: Seq<Column>, vals: Seq<AVal> },
  DeleteWhere { table: Seq<char>, expr: BoolExpr },
  /// the many-to-many relations of an object are saved
  Relations { table: Seq<char>, key: AVal },
  Execute(Seq<char>),
}
pub open spec fn sorted_by(s: Option<&[Order]>) -> Seq<Order> { match s { Some(o) => o@, None => Seq::empty() } }
pub open spec fn avals(v: Seq<SqlValRef>) -> Seq<AVal> { Seq::new(v.len(), |i: int| vr(v[i])) }
pub trait VOwned: Sized { fn vto_owned(&self) -> (r: Self) ensures r == *self; }
impl VOwned for Option<i32> { fn vto_owned(&self) -> (r: Self) { *self } }
pub trait ConnectionMethods {
  type Rows: BackendRows;
  /// the writing statements issued so far, and whether each succeeded
  spec fn calls(&self) -> Seq<(Call, bool)>;
  /// what the database answers to a query in its present state (None: the query fails)
  spec fn answer(&self, s: Sel) -> Option<Seq<RowView>>;
  /// how many links from `o` to `h` the link table holds
  spec fn links(&self, table: Seq<char>, o: AVal, h: AVal) -> nat;
/*?SCHEMA*/  /// what it belongs to (a transaction: the connection's committed history), untouched by statements
/*?SCHEMA*/  #[verifier::prophetic] spec fn same_place(&self, o: &Self) -> bool;
/*?SCHEMA*/  spec fn tables(&self, t: Seq<char>) -> Option<bool>;
/*?SCHEMA*/  fn has_table<S: VDisp + ?Sized>(&self, table: &S) -> (r: Result<bool>)
/*?SCHEMA*/    ensures r is Ok ==> self.tables(table.disp()) == Some(r->Ok_0), r is Err ==> self.tables(table.disp()) is None;
/*?SCHEMA*/  fn execute<S: VDisp + ?Sized>(&mut self, sql: &S) -> (r: Result<()>)
/*?SCHEMA*/    ensures old(self).same_place(final(self)), final(self).calls() == old(self).calls().push((Call::Execute(sql.disp()), r is Ok));
  fn query<S: VDisp + ?Sized>(&self, table: &S, columns: &[Column], expr: Option<BoolExpr>, limit: Option<i32>, offset: Option<i32>, sort: Option<&[Order]>) -> (r: Result<Self::Rows>)
    ensures ({ let a = self.answer(Sel { table: table.disp(), cols: columns@, filter: expr, limit, offset, sort: sorted_by(sort) }); (r is Ok) == (a is Some) && (r is Ok ==> r->Ok_0.rest() == a->0) });
  fn insert_returning_pk<S: VDisp + ?Sized>(&mut self, table: &S, columns: &[Column], pkcol: &Column, values: &[SqlValRef<'_>]) -> (r: Result<SqlVal>)
    ensures final(self).calls() == old(self).calls().push((Call::InsertPk { table: table.disp(), cols: columns@, pkcol: *pkcol, vals: avals(values@), got: (match r { Ok(v) => Some(vv(v)), Err(_) => None }) }, r is Ok));
  fn insert_only<S: VDisp + ?Sized>(&mut self, table: &S, columns: &[Column], values: &[SqlValRef<'_>]) -> (r: Result<()>)
/*?SCHEMA*/    ensures old(self).same_place(final(self)),
/*?!SCHEMA*/    ensures
      final(self).calls() == old(self).calls().push((Call::InsertOnly { table: table.disp(), cols: columns@, vals: avals(values@) }, r is Ok)),
      r is Err ==> forall|t: Seq<char>, o: AVal, h: AVal| #[trigger] final(self).links(t, o, h) == old(self).links(t, o, h),
      r is Ok && link_columns(columns@) && values@.len() == 2 ==> forall|t: Seq<char>, o: AVal, h: AVal| #[trigger] final(self).links(t, o, h) == old(self).links(t, o, h) + (if t == table.disp() && o == vr(values@[0]) && h == vr(values@[1]) { 1nat } else { 0 });
  fn insert_or_replace<S: VDisp + ?Sized>(&mut self, table: &S, columns: &[Column], pkcol: &Column, values: &[SqlValRef<'_>]) -> (r: Result<()>)
    ensures final(self).calls() == old(self).calls().push((Call::Upsert { table: table.disp(), cols: columns@, pkcol: *pkcol, vals: avals(values@) }, r is Ok));
  fn update<S: VDisp + ?Sized>(&mut self, table: &S, pkcol: Column, pk: SqlValRef<'_>, columns: &[Column], values: &[SqlValRef<'_>]) -> (r: Result<()>)
    ensures final(self).calls() == old(self).calls().push((Call::Update { table: table.disp(), pkcol, pk: vr(pk), cols: columns@, vals: avals(values@) }, r is Ok));
//@@ fn path=butane_core/src/db/connmethods.rs name=delete impl="trait ConnectionMethods"
//@@ sig
//@ fn delete<S: VDisp + ?Sized>(&mut self, table: &S, pkcol: &'static str, pk: SqlVal) -> (r: Result<()>)
//@@ spec
//@   ensures final(self).calls() == old(self).calls().push((Call::DeleteWhere { table: table.disp(), expr: BoolExpr::Eq(pkcol, Expr::Val(pk)) }, r is Ok))
//@@ end
  fn delete_where<S: VDisp + ?Sized>(&mut self, table: &S, expr: BoolExpr) -> (r: Result<usize>)
/*?SCHEMA*/    ensures old(self).same_place(final(self)),
/*?!SCHEMA*/    ensures
      final(self).calls() == old(self).calls().push((Call::DeleteWhere { table: table.disp(), expr }, r is Ok)),
      r is Err ==> forall|t: Seq<char>, o: AVal, h: AVal| #[trigger] final(self).links(t, o, h) == old(self).links(t, o, h),
      r is Ok && on_links(expr) ==> forall|t: Seq<char>, o: AVal, h: AVal| #[trigger] final(self).links(t, o, h) == (if t == table.disp() && selects(expr, o, h) { 0 } else { old(self).links(t, o, h) });
}
pub open spec fn same_links<C: ConnectionMethods + ?Sized>(a: &C, b: &C) -> bool { forall|t: Seq<char>, o: AVal, h: AVal| #[trigger] a.links(t, o, h) == b.links(t, o, h) }
/// the columns of a link table, owner first
pub open spec fn link_columns(c: Seq<Column>) -> bool { c.len() == 2 && c[0].name@ == "owner"@ && c[1].name@ == "has"@ }
/// conditions on a link's two columns: comparison with a value, membership, and/or/not
pub open spec fn on_links(e: BoolExpr) -> bool decreases e { match e {
  BoolExpr::True => true,
  BoolExpr::Eq(c, Expr::Val(v)) => c@ == "owner"@ || c@ == "has"@,
  BoolExpr::In(c, _) => c@ == "owner"@ || c@ == "has"@,
  BoolExpr::And(a, b) => on_links(*a) && on_links(*b),
  BoolExpr::Or(a, b) => on_links(*a) && on_links(*b),
  BoolExpr::AllOf(v) => forall|i: int| 0 <= i < v@.len() ==> on_links(#[trigger] v@[i]),
  _ => false,
} }
pub open spec fn selects(e: BoolExpr, o: AVal, h: AVal) -> bool decreases e { match e {
  BoolExpr::True => true,
  BoolExpr::Eq(c, Expr::Val(v)) => vv(v) == (if c@ == "owner"@ { o } else { h }),
  BoolExpr::In(c, l) => is_member(l@, if c@ == "owner"@ { o } else { h }),
  BoolExpr::And(a, b) => selects(*a, o, h) && selects(*b, o, h),
  BoolExpr::Or(a, b) => selects(*a, o, h) || selects(*b, o, h),
  BoolExpr::AllOf(v) => forall|i: int| 0 <= i < v@.len() ==> selects(#[trigger] v@[i], o, h),
  _ => false,
} }
pub open spec fn is_member(l: Seq<SqlVal>, x: AVal) -> bool { exists|i: int| 0 <= i < l.len() && vv(#[trigger] l[i]) == x }
/// a type a query's rows are read as
pub trait DataResult: Sized {
  const COLUMNS: &'static [Column];
  /// what reading a row gives
  spec fn reads(w: RowView, r: Result<Self>) -> bool;
  spec fn table() -> Seq<char>;
  fn from_row(row: &dyn BackendRow) -> (r: Result<Self>)
    ensures forall|w: RowView| is_row(row, w) ==> #[trigger] Self::reads(w, r);
  fn query() -> (r: Query<Self>)
    ensures r.table.disp() == Self::table(), r.filter is None, r.limit is None, r.offset is None, r.sort@ == Seq::<Order>::empty();
}
//@@ type path=butane_core/src/query/mod.rs name=Query
impl<T: DataResult> Query<T> {
  pub closed spec fn sel(&self) -> Sel { Sel { table: self.table.disp(), cols: T::COLUMNS@, filter: self.filter, limit: self.limit, offset: self.offset, sort: self.sort@ } }
//@@ fn path=butane_core/src/query/mod.rs name=new impl="Query<T>"
//@   ensures r.sel() == (Sel { table: table@, cols: T::COLUMNS@, filter: None, limit: None, offset: None, sort: Seq::empty() })
//@@ end
//@@ fn path=butane_core/src/query/mod.rs name=filter impl="Query<T>"
//@   ensures r.sel() == (Sel { filter: Some(expr), ..self.sel() })
//@@ end
//@@ fn path=butane_core/src/query/mod.rs name=limit impl="Query<T>"
//@   ensures r.sel() == (Sel { limit: Some(lim), ..self.sel() })
//@@ end
//@@ fn path=butane_core/src/query/mod.rs name=offset impl="Query<T>"
//@   ensures r.sel() == (Sel { offset: Some(off), ..self.sel() })
//@@ end
//@@ fn path=butane_core/src/query/mod.rs name=order impl="Query<T>"
//@   ensures r.sel() == (Sel { sort: self.sel().sort.push(Order { direction, column }), ..self.sel() })
//@@ end
//@@ fn path=butane_core/src/query/mod.rs name=order_asc impl="Query<T>"
//@   ensures r.sel() == (Sel { sort: self.sel().sort.push(Order { direction: OrderDirection::Ascending, column }), ..self.sel() })
//@@ end
//@@ fn path=butane_core/src/query/mod.rs name=order_desc impl="Query<T>"
//@   ensures r.sel() == (Sel { sort: self.sel().sort.push(Order { direction: OrderDirection::Descending, column }), ..self.sel() })
//@@ end
//@@ fn path=butane_core/src/query/mod.rs name=fetch impl="QueryOpsInternal<T> for Query<T>"
//@@ sig
//@ pub fn fetch<C: ConnectionMethods>(self, conn: &C, limit: Option<i32>) -> (r: Result<C::Rows>)
//@@ entry
//@   proof { assert(self.sort@.len() == 0 ==> self.sort@ =~= Seq::<Order>::empty()); }
//@@ spec
//@   ensures ({ let a = conn.answer(Sel { limit, ..self.sel() }); (r is Ok) == (a is Some) && (r is Ok ==> r->Ok_0.rest() == a->0) })
//@@ end
//@@ fn path=butane_core/src/query/mod.rs name=load_first impl="QueryOps<T> for Query<T>"
//@@ subst QueryOpsInternal :: fetch(self, => self.fetch(
//@@ subst mapped(T :: from_row) => mapped(VFromRow::<T>::of())
//@@ sig
//@ pub fn load_first<C: ConnectionMethods>(self, conn: &C) -> (r: Result<Option<T>>)
//@@ spec
//@   ensures ({ let a = conn.answer(Sel { limit: Some(1), ..self.sel() });
//@     r is Ok ==> a is Some && ((r->Ok_0 is Some) == (a->0.len() > 0)) && (r->Ok_0 is Some ==> T::reads(a->0[0], Ok(r->Ok_0->0))) })
//@@ end
//@@ fn path=butane_core/src/query/mod.rs name=load impl="QueryOps<T> for Query<T>"
//@@ subst QueryOpsInternal :: fetch(self, => self.fetch(
//@@ subst mapped(T :: from_row) => mapped(VFromRow::<T>::of())
//@@ sig
//@ pub fn load<C: ConnectionMethods>(self, conn: &C) -> (r: Result<Vec<T>>)
//@@ spec
//@   ensures r is Ok ==> conn.answer(self.sel()) is Some && read_from(r->Ok_0@, conn.answer(self.sel())->0)
//@@ end
//@@ fn path=butane_core/src/query/mod.rs name=delete impl="QueryOps<T> for Query<T>"
//@@ sig
//@ pub fn delete<C: ConnectionMethods>(self, conn: &mut C) -> (r: Result<usize>)
//@@ spec
//@   ensures final(conn).calls() == old(conn).calls().push((Call::DeleteWhere { table: self.sel().table, expr: (match self.sel().filter { Some(e) => e, None => BoolExpr::True }) }, r is Ok))
//@@ end
}
impl<T: DataResult> Clone for Query<T> {
//@@ fn path=butane_core/src/query/mod.rs name=clone impl="Clone for Query<T>"
//@@ spec
//@   ensures r.sel() == self.sel()
//@@ end
}
/// objects read from the rows, in order
pub open spec fn read_from<T: DataResult>(o: Seq<T>, rows: Seq<RowView>) -> bool { o.len() == rows.len() && forall|i: int| 0 <= i < o.len() ==> T::reads(rows[i], Ok(#[trigger] o[i])) }
