// ===== query expression types (extracted) =====
//@@ type path=butane_core/src/query/mod.rs name=TblName
//@@ type path=butane_core/src/query/mod.rs name=Column as=QColumn
impl QColumn {
//@@ fn path=butane_core/src/query/mod.rs name=table impl=Column
//@ ensures r is Some == self.table is Some, r is Some ==> r->0@ == self.table->0.disp()
//@@ end
//@@ fn path=butane_core/src/query/mod.rs name=name impl=Column
//@ ensures r == self.name
//@@ end
}
//@@ type path=butane_core/src/query/mod.rs name=Join subst="Column=>QColumn"
//@@ type path=butane_core/src/query/mod.rs name=OrderDirection
//@@ type path=butane_core/src/query/mod.rs name=Order
//@@ type path=butane_core/src/query/mod.rs name=BoolExpr subst="Column=>QColumn"
//@@ type path=butane_core/src/query/mod.rs name=Expr
