//@include prelude.rs
broadcast use prelude::valg::vtext;
use Expr::{Condition, Placeholder, Val};
use BoolExpr::*;

//@include sqlval_types.rs
//@include query_types.rs
//@include render.rs
//@include helper_where.rs
} // verus!
fn main() {}
