//@include prelude.rs
broadcast use prelude::valg::vtext;
//@include sqlval_types.rs
//@include error.rs
//@include adb_types.rs
//@include adb_store.rs
pub open spec fn text_of(o: Option<String>) -> Option<Seq<char>> { match o { Some(t) => Some(t@), None => None } }
//@include memmig.rs
} // verus!
fn main() {}
