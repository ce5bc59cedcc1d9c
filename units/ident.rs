// ===== identifiers as they appear in SQL =====
pub uninterp spec fn is_keyword(upper: Seq<char>) -> bool;
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
pub struct Keywords;
pub const ALL_KEYWORDS: Keywords = Keywords;
impl Keywords {
  #[verifier::external_body]
  pub fn vcontains(&self, s: &&str) -> (r: bool) ensures r == is_keyword(s@) { unimplemented!() }
}
pub trait VUpper: VDisp { fn vto_uppercase(&self) -> (r: String) ensures r@ == upper(self.disp()); }
impl<T: VDisp + ?Sized> VUpper for T { #[verifier::external_body] fn vto_uppercase(&self) -> (r: String) { unimplemented!() } }

/// an identifier as it appears in SQL
pub open spec fn ident(w: Seq<char>) -> Seq<char> {
  if is_keyword(upper(w)) { "\""@ + w + "\""@ } else { w }
}
