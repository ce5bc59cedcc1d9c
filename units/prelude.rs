#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_braces, unused_parens, non_camel_case_types, unreachable_patterns, unreachable_code, unused_assignments, non_snake_case)]
use vstd::prelude::*;
verus! {

// ===== prelude: models of std used by the extracted code (TRUSTED where external_body) =====
global size_of usize == 8;
pub mod prelude {
use super::*;
#[derive(Debug)]
pub struct FmtError;
pub type StdResult<T = (), E = FmtError> = core::result::Result<T, E>;
pub fn vok() -> (r: StdResult<(), FmtError>)
  ensures r is Ok, r == StdResult::<(), FmtError>::Ok(())
{ Ok(()) }
#[verifier::external_body]
pub fn vpanic<T>() -> T
  requires false
{ unimplemented!() }
pub fn vassert(b: bool)
  requires b
{ }
#[verifier::external_body]
pub const fn vnondet() -> (b: bool) { false }
#[verifier::external_body]
pub fn mem_take<T: VDefault>(x: &mut T) -> (r: T)
  ensures r == *old(x), *final(x) == T::vdefault()
{ unimplemented!() }
#[verifier::external_body]
pub fn mem_replace<T>(x: &mut T, y: T) -> (r: T)
  ensures r == *old(x), *final(x) == y
{ unimplemented!() }
#[verifier::external_body]
pub fn mem_swap<T>(x: &mut T, y: &mut T)
  ensures *final(x) == *old(y), *final(y) == *old(x)
{ unimplemented!() }
pub trait VDefault: Sized { spec fn vdefault() -> Self; }
pub uninterp spec fn empty_vec<T>() -> Vec<T>;
impl<T> VDefault for Vec<T> { open spec fn vdefault() -> Self { empty_vec() } }
impl<T> VDefault for Option<T> { open spec fn vdefault() -> Self { None } }

// ---- text ----
pub uninterp spec fn int_text(i: int) -> Seq<char>;
pub uninterp spec fn fmt_text(spec: Seq<char>, x: Seq<char>) -> Seq<char>;
pub trait VDisp { spec fn disp(&self) -> Seq<char>; }
impl VDisp for str { open spec fn disp(&self) -> Seq<char> { self@ } }
impl VDisp for String { open spec fn disp(&self) -> Seq<char> { self@ } }
impl VDisp for char { open spec fn disp(&self) -> Seq<char> { seq![*self] } }
impl VDisp for i8 { open spec fn disp(&self) -> Seq<char> { int_text(*self as int) } }
impl VDisp for i16 { open spec fn disp(&self) -> Seq<char> { int_text(*self as int) } }
impl VDisp for i32 { open spec fn disp(&self) -> Seq<char> { int_text(*self as int) } }
impl VDisp for i64 { open spec fn disp(&self) -> Seq<char> { int_text(*self as int) } }
impl VDisp for u8 { open spec fn disp(&self) -> Seq<char> { int_text(*self as int) } }
impl VDisp for u16 { open spec fn disp(&self) -> Seq<char> { int_text(*self as int) } }
impl VDisp for u32 { open spec fn disp(&self) -> Seq<char> { int_text(*self as int) } }
impl VDisp for u64 { open spec fn disp(&self) -> Seq<char> { int_text(*self as int) } }
impl VDisp for usize { open spec fn disp(&self) -> Seq<char> { int_text(*self as int) } }
impl VDisp for bool { open spec fn disp(&self) -> Seq<char> { if *self { "true"@ } else { "false"@ } } }
impl<T: VDisp + ?Sized> VDisp for &T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } }
impl<T: VDisp + ?Sized> VDisp for &mut T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } }
impl<T: VDisp + ?Sized> VDisp for Box<T> { open spec fn disp(&self) -> Seq<char> { (**self).disp() } }

/// the writer behind `write!`, `write_str` and `push_str`; writing never fails (the real writers are `String`s)
pub trait Write {
  spec fn wv(&self) -> Seq<char>;
  fn vput(&mut self, s: &str)
    ensures final(self).wv() == old(self).wv() + s@;
  fn vdisp<D: VDisp + ?Sized>(&mut self, d: &D)
    ensures final(self).wv() == old(self).wv() + d.disp();
  fn vdisp_fmt<D: VDisp + ?Sized>(&mut self, spec: &str, d: &D)
    ensures final(self).wv() == old(self).wv() + fmt_text(spec@, d.disp());
}
impl Write for String {
  open spec fn wv(&self) -> Seq<char> { self@ }
  #[verifier::external_body]
  fn vput(&mut self, s: &str) { unimplemented!() }
  #[verifier::external_body]
  fn vdisp<D: VDisp + ?Sized>(&mut self, d: &D) { unimplemented!() }
  #[verifier::external_body]
  fn vdisp_fmt<D: VDisp + ?Sized>(&mut self, spec: &str, d: &D) { unimplemented!() }
}
pub trait VToString: VDisp {
  fn vto_string(&self) -> (r: String)
    ensures r@ == self.disp();
  fn vto_owned(&self) -> (r: String)
    ensures r@ == self.disp();
}
impl<T: VDisp + ?Sized> VToString for T {
  #[verifier::external_body]
  fn vto_string(&self) -> (r: String) { unimplemented!() }
  #[verifier::external_body]
  fn vto_owned(&self) -> (r: String) { unimplemented!() }
}

/// `text + more`
pub fn vadd<D: VDisp + ?Sized>(a: String, b: &D) -> (r: String) ensures r@ == a@ + b.disp() { let mut a = a; a.vdisp(b); a }
pub assume_specification [<str as core::convert::AsRef<str>>::as_ref] (s: &str) -> (r: &str) ensures r@ == s@;
// ---- Cow<str>: same constructors as std's ----
pub enum Cow<'a, B: ?Sized> { Borrowed(&'a B), Owned(String) }
impl<'a> VDisp for Cow<'a, str> {
  open spec fn disp(&self) -> Seq<char> { match self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
}
impl<'a> Cow<'a, str> {
  #[verifier::external_body] pub fn as_ref(&self) -> (r: &str) ensures r@ == self.disp() { unimplemented!() }
  #[verifier::external_body] pub fn into_owned(self) -> (r: String) ensures r@ == self.disp() { unimplemented!() }
}
pub trait VBits: Sized { spec fn or_spec(self, o: Self) -> Self; spec fn and_spec(self, o: Self) -> Self;
  fn vbitor(self, o: Self) -> (r: Self) ensures r == self.or_spec(o); fn vbitand(self, o: Self) -> (r: Self) ensures r == self.and_spec(o); }
impl VBits for bool { open spec fn or_spec(self, o: Self) -> Self { self || o } open spec fn and_spec(self, o: Self) -> Self { self && o } fn vbitor(self, o: Self) -> (r: Self) { self || o } fn vbitand(self, o: Self) -> (r: Self) { self && o } }
pub trait VInto<T>: Sized { spec fn vinto_spec(self, r: T) -> bool; fn vinto(self) -> (r: T) ensures self.vinto_spec(r); }
impl<'a> VInto<Cow<'a, str>> for String { open spec fn vinto_spec(self, r: Cow<'a, str>) -> bool { r == Cow::<'a, str>::Owned(self) } fn vinto(self) -> (r: Cow<'a, str>) { Cow::Owned(self) } }
impl<'a, S: VDisp + ?Sized> VInto<Cow<'a, str>> for &'a S { open spec fn vinto_spec(self, r: Cow<'a, str>) -> bool { r.disp() == self.disp() } #[verifier::external_body] fn vinto(self) -> (r: Cow<'a, str>) { unimplemented!() } }
impl VInto<String> for String { open spec fn vinto_spec(self, r: String) -> bool { r == self } fn vinto(self) -> (r: String) { self } }
impl<'a> VInto<String> for &'a str { open spec fn vinto_spec(self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn vinto(self) -> (r: String) { unimplemented!() } }

// ---- iterators ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIt<T> { v: Vec<T> }
impl<T> VIt<T> {
  pub uninterp spec fn all(&self) -> Seq<T>;
  pub uninterp spec fn pos(&self) -> int;
  #[verifier::external_body]
  pub fn next(&mut self) -> (r: Option<T>)
    requires 0 <= old(self).pos() <= old(self).all().len(),
    ensures final(self).all() == old(self).all(),
      old(self).pos() < old(self).all().len() ==> final(self).pos() == old(self).pos() + 1 && r == Some(old(self).all()[old(self).pos()]),
      old(self).pos() >= old(self).all().len() ==> final(self).pos() == old(self).pos() && r is None,
  { unimplemented!() }
  #[verifier::external_body]
  pub fn vrev(self) -> (r: VIt<T>)
    requires self.pos() == 0
    ensures r.all() == self.all().reverse(), r.pos() == 0
  { unimplemented!() }
  #[verifier::external_body]
  pub fn vindex(&self) -> (r: usize)
    ensures r == self.pos()
  { unimplemented!() }
  pub fn vinto_iter(self) -> (r: Self) ensures r == self { self }
  #[verifier::external_body]
  pub fn vskip(self, n: usize) -> (r: VIt<T>)
    requires self.pos() == 0
    ensures r.all() == (if n <= self.all().len() { self.all().skip(n as int) } else { Seq::empty() }), r.pos() == 0
  { unimplemented!() }
  #[verifier::external_body]
  pub fn vtake(self, n: usize) -> (r: VIt<T>)
    requires self.pos() == 0
    ensures r.all() == (if n <= self.all().len() { self.all().take(n as int) } else { self.all() }), r.pos() == 0
  { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VRefIt<'a, T> { v: Vec<&'a T> }
impl<'a, T> VRefIt<'a, T> {
  pub uninterp spec fn all(&self) -> Seq<T>;
  pub uninterp spec fn pos(&self) -> int;
  #[verifier::external_body]
  pub fn next(&mut self) -> (r: Option<&'a T>)
    requires 0 <= old(self).pos() <= old(self).all().len(),
    ensures final(self).all() == old(self).all(),
      old(self).pos() < old(self).all().len() ==> final(self).pos() == old(self).pos() + 1 && r is Some && *(r->0) == old(self).all()[old(self).pos()],
      old(self).pos() >= old(self).all().len() ==> final(self).pos() == old(self).pos() && r is None,
  { unimplemented!() }
  #[verifier::external_body]
  pub fn vrev(self) -> (r: VRefIt<'a, T>)
    requires self.pos() == 0
    ensures r.all() == self.all().reverse(), r.pos() == 0
  { unimplemented!() }
  #[verifier::external_body]
  pub fn vindex(&self) -> (r: usize)
    ensures r == self.pos()
  { unimplemented!() }
  pub fn vinto_iter(self) -> (r: Self) ensures r == self { self }
  #[verifier::external_body]
  pub fn vskip(self, n: usize) -> (r: VRefIt<'a, T>)
    requires self.pos() == 0
    ensures r.all() == (if n <= self.all().len() { self.all().skip(n as int) } else { Seq::empty() }), r.pos() == 0
  { unimplemented!() }
  #[verifier::external_body]
  pub fn vtake(self, n: usize) -> (r: VRefIt<'a, T>)
    requires self.pos() == 0
    ensures r.all() == (if n <= self.all().len() { self.all().take(n as int) } else { self.all() }), r.pos() == 0
  { unimplemented!() }
}
pub trait VIter<T> {
  spec fn viter_seq(&self) -> Seq<T>;
  fn viter<'a>(&'a self) -> (r: VRefIt<'a, T>)
    ensures r.all() == self.viter_seq(), r.pos() == 0;
}
impl<T> VIter<T> for Vec<T> { open spec fn viter_seq(&self) -> Seq<T> { self@ }
  #[verifier::external_body] fn viter<'a>(&'a self) -> (r: VRefIt<'a, T>) { unimplemented!() } }
impl<T> VIter<T> for [T] { open spec fn viter_seq(&self) -> Seq<T> { self@ }
  #[verifier::external_body] fn viter<'a>(&'a self) -> (r: VRefIt<'a, T>) { unimplemented!() } }
pub trait VIntoIter: Sized {
  type It;
  spec fn into_spec(self, it: Self::It) -> bool;
  fn vinto_iter(self) -> (r: Self::It)
    ensures self.into_spec(r);
}
impl<T> VIntoIter for Vec<T> { type It = VIt<T>;
  open spec fn into_spec(self, it: VIt<T>) -> bool { it.all() == self@ && it.pos() == 0 }
  #[verifier::external_body] fn vinto_iter(self) -> (r: VIt<T>) { unimplemented!() } }
impl<'a, T> VIntoIter for &'a Vec<T> { type It = VRefIt<'a, T>;
  open spec fn into_spec(self, it: VRefIt<'a, T>) -> bool { it.all() == self@ && it.pos() == 0 }
  #[verifier::external_body] fn vinto_iter(self) -> (r: VRefIt<'a, T>) { unimplemented!() } }
impl<'a, T> VIntoIter for &'a [T] { type It = VRefIt<'a, T>;
  open spec fn into_spec(self, it: VRefIt<'a, T>) -> bool { it.all() == self@ && it.pos() == 0 }
  #[verifier::external_body] fn vinto_iter(self) -> (r: VRefIt<'a, T>) { unimplemented!() } }
impl VIntoIter for core::ops::Range<usize> { type It = VIt<usize>;
  open spec fn into_spec(self, it: VIt<usize>) -> bool { it.pos() == 0 && it.all().len() == (if self.end >= self.start { self.end - self.start } else { 0 })
    && forall|i: int| 0 <= i < it.all().len() ==> #[trigger] it.all()[i] == self.start + i }
  #[verifier::external_body] fn vinto_iter(self) -> (r: VIt<usize>) { unimplemented!() } }

// ---- joining ----
pub open spec fn join_text<T: VDisp>(s: Seq<T>, sep: Seq<char>) -> Seq<char>
  decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0].disp() } else { join_text(s.drop_last(), sep) + sep + s.last().disp() } }
pub trait VJoin<T> { spec fn vjoin_seq(&self) -> Seq<T>; fn vjoin(&self, sep: &str) -> (r: String) where T: VDisp ensures r@ == join_text(self.vjoin_seq(), sep@); }
impl<T> VJoin<T> for Vec<T> { open spec fn vjoin_seq(&self) -> Seq<T> { self@ }
  #[verifier::external_body] fn vjoin(&self, sep: &str) -> (r: String) where T: VDisp { unimplemented!() } }

/// `[a, b].concat()`; elements are assumed to clone to themselves
pub trait VConcat<T> { spec fn vconcat_spec(&self) -> Seq<T>; spec fn vconcat_last(&self, r: Seq<T>) -> bool; fn vconcat(&self) -> (r: Vec<T>) ensures r@ == self.vconcat_spec(), self.vconcat_last(r@); }
impl<'a, T> VConcat<T> for [&'a [T]; 2] { open spec fn vconcat_spec(&self) -> Seq<T> { self@[0]@ + self@[1]@ }
  open spec fn vconcat_last(&self, r: Seq<T>) -> bool { self@[1]@.len() == 1 ==> r == self@[0]@.push(self@[1]@[0]) }
  #[verifier::external_body] fn vconcat(&self) -> (r: Vec<T>) { unimplemented!() } }
// ---- text algebra (proved) ----
pub mod valg {
use super::*;
pub broadcast axiom fn axiom_empty_vec<T>() ensures (#[trigger] empty_vec::<T>())@ == Seq::<T>::empty();
pub broadcast proof fn seq_assoc<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>)
  ensures #[trigger] ((a + b) + c) == a + (b + c)
{ assert(((a + b) + c) =~= a + (b + c)); }
pub broadcast proof fn seq_empty_r<T>(a: Seq<T>)
  ensures #[trigger] (a + Seq::<T>::empty()) == a
{ assert((a + Seq::<T>::empty()) =~= a); }
pub broadcast proof fn seq_empty_l<T>(a: Seq<T>)
  ensures #[trigger] (Seq::<T>::empty() + a) == a
{ assert((Seq::<T>::empty() + a) =~= a); }
pub broadcast proof fn empty_lit()
  ensures #[trigger] ""@ == Seq::<char>::empty()
{ reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
pub uninterp spec fn utf8(t: Seq<char>) -> Seq<u8>;
pub uninterp spec fn utf8_dec(b: Seq<u8>) -> Option<Seq<char>>;
pub broadcast axiom fn axiom_utf8(t: Seq<char>) ensures utf8_dec(#[trigger] utf8(t)) == Some(t);
pub broadcast group vtext { axiom_utf8, seq_empty_r, seq_empty_l, empty_lit, axiom_empty_vec }
pub broadcast group vassoc { seq_assoc }
}
pub use valg::*;
} // mod prelude
pub use prelude::*;
