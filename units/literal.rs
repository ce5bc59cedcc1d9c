// ===== literals =====
pub mod lits {
use super::*;
/// the characters of a text with every quote doubled
pub open spec fn doubled(s: Seq<char>) -> Seq<char> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { (if s[0] == '\'' { seq!['\'', '\''] } else { seq![s[0]] }) + doubled(s.skip(1)) } }
/// what a database makes of the text after an opening quote: the text up to the first quote that is not
/// doubled, each doubled one standing for one, and what follows it
pub open spec fn scan(t: Seq<char>) -> Option<(Seq<char>, Seq<char>)> decreases t.len()
{ if t.len() == 0 { None }
  else if t[0] != '\'' { match scan(t.skip(1)) { Some((v, r)) => Some((seq![t[0]] + v, r)), None => None } }
  else if t.len() > 1 && t[1] == '\'' { match scan(t.skip(2)) { Some((v, r)) => Some((seq!['\''] + v, r)), None => None } }
  else { Some((Seq::empty(), t.skip(1))) } }
/// `t` is a complete string literal for `s`: whatever follows it (other than another quote) stays outside
pub open spec fn reads_as(t: Seq<char>, s: Seq<char>) -> bool
{ t.len() > 0 && t[0] == '\'' && forall|rest: Seq<char>| (rest.len() == 0 || rest[0] != '\'') ==> #[trigger] scan((t + rest).skip(1)) == Some((s, rest)) }
pub proof fn lemma_scan(s: Seq<char>, rest: Seq<char>)
  requires rest.len() == 0 || rest[0] != '\''
  ensures scan(doubled(s) + seq!['\''] + rest) == Some((s, rest))
  decreases s.len()
{
  let t = doubled(s) + seq!['\''] + rest;
  if s.len() == 0 { assert(t.skip(1) =~= rest); assert(t[0] == '\''); assert(s =~= Seq::empty()); }
  else {
    lemma_scan(s.skip(1), rest);
    let u = doubled(s.skip(1)) + seq!['\''] + rest;
    if s[0] == '\'' { assert(t.skip(2) =~= u); assert(seq!['\''] + s.skip(1) =~= s); }
    else { assert(t[0] == s[0]); assert(t.skip(1) =~= u); assert(seq![s[0]] + s.skip(1) =~= s); }
  }
}
pub proof fn lemma_reads(s: Seq<char>)
  ensures reads_as(seq!['\''] + doubled(s) + seq!['\''], s)
{
  let t = seq!['\''] + doubled(s) + seq!['\''];
  assert forall|rest: Seq<char>| (rest.len() == 0 || rest[0] != '\'') implies #[trigger] scan((t + rest).skip(1)) == Some((s, rest)) by {
    lemma_scan(s, rest); assert((t + rest).skip(1) =~= doubled(s) + seq!['\''] + rest);
  }
}
pub open spec fn plain(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\'' }
pub proof fn lemma_plain(s: Seq<char>) requires plain(s) ensures doubled(s) == s decreases s.len()
{ if s.len() > 0 { assert(plain(s.skip(1))) by { assert forall|i: int| 0 <= i < s.skip(1).len() implies #[trigger] s.skip(1)[i] != '\'' by { assert(s.skip(1)[i] == s[i + 1]); } } lemma_plain(s.skip(1)); assert(seq![s[0]] + s.skip(1) =~= s); } else { assert(s =~= Seq::empty()); } }
/// a text that is its own doubled form needs no escaping
pub broadcast proof fn quoted_text(s: Seq<char>)
  ensures #[trigger] reads_as("'"@ + doubled(s) + "'"@, s)
{ reveal_strlit("'"); assert("'"@ =~= seq!['\'']); lemma_reads(s); }
pub broadcast proof fn quoted_hex(b: Seq<u8>)
  ensures #[trigger] reads_as("'\\x"@ + hex_text(b) + "'"@, "\\x"@ + hex_text(b))
{
  reveal_strlit("'\\x"); reveal_strlit("\\x"); reveal_strlit("'");
  let s = "\\x"@ + hex_text(b);
  hex_plain(b);
  assert(plain(s)) by { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != '\'' by { if i >= 2 { assert(s[i] == hex_text(b)[i - 2]); } else { assert(s[i] == "\\x"@[i]); } } }
  lemma_plain(s); lemma_reads(s);
  assert("'\\x"@ + hex_text(b) + "'"@ =~= seq!['\''] + s + seq!['\'']);
}
/// `text.replace(c, with)`
pub open spec fn replaced(s: Seq<char>, c: char, with: Seq<char>) -> Seq<char> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { (if s[0] == c { with } else { seq![s[0]] }) + replaced(s.skip(1), c, with) } }
pub broadcast proof fn replaced_quotes(s: Seq<char>)
  ensures #[trigger] replaced(s, '\'', "''"@) == doubled(s)
  decreases s.len()
{ reveal_strlit("''"); assert("''"@ =~= seq!['\'', '\'']); if s.len() > 0 { replaced_quotes(s.skip(1)); } }
/// upper-case hexadecimal digits, two per byte (hex crate)
pub uninterp spec fn hex_text(b: Seq<u8>) -> Seq<char>;
pub axiom fn hex_plain(b: Seq<u8>) ensures plain(hex_text(b));
/// the decimal digits of a finite number: parsing them gives that number (Display of f64)
pub uninterp spec fn real_text(x: f64) -> Seq<char>;
pub uninterp spec fn finite(x: f64) -> bool;
pub uninterp spec fn json_text(j: JsonVal) -> Seq<char>;
pub uninterp spec fn date_text(f: Seq<char>, d: NaiveDate) -> Seq<char>;
pub uninterp spec fn time_text(f: Seq<char>, d: NaiveDateTime) -> Seq<char>;
pub broadcast group glits { quoted_text, quoted_hex, replaced_quotes }
}
pub use lits::*;
pub trait VReplace { spec fn txt(&self) -> Seq<char>; fn vreplace(&self, c: char, with: &str) -> (r: String) ensures r@ == replaced(self.txt(), c, with@);
  fn vcontains(&self, c: char) -> (r: bool) ensures r == self.txt().contains(c); }
impl VReplace for str { open spec fn txt(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vreplace(&self, c: char, with: &str) -> (r: String) { unimplemented!() } #[verifier::external_body] fn vcontains(&self, c: char) -> (r: bool) { unimplemented!() } }
impl VReplace for String { open spec fn txt(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vreplace(&self, c: char, with: &str) -> (r: String) { unimplemented!() } #[verifier::external_body] fn vcontains(&self, c: char) -> (r: bool) { unimplemented!() } }
pub assume_specification [f64::is_finite] (x: f64) -> (r: bool) ensures r == finite(x);
impl VDisp for f64 { open spec fn disp(&self) -> Seq<char> { real_text(*self) } }
impl VDisp for JsonVal { open spec fn disp(&self) -> Seq<char> { json_text(*self) } }
pub struct VText { pub t: String }
impl VDisp for VText { open spec fn disp(&self) -> Seq<char> { self.t@ } }
impl NaiveDate { #[verifier::external_body] pub fn vformat(&self, f: &str) -> (r: VText) ensures r.disp() == date_text(f@, *self) { unimplemented!() } }
impl NaiveDateTime { #[verifier::external_body] pub fn vformat(&self, f: &str) -> (r: VText) ensures r.disp() == time_text(f@, *self) { unimplemented!() } }
#[verifier::external_body] pub fn encode_upper(b: &Vec<u8>) -> (r: String) ensures r@ == hex_text(b@) { unimplemented!() }
/// the SQL text `t` denotes the value; dates and times in the form in which the backends read them back (C04)
pub open spec fn denotes(v: SqlVal, t: Seq<char>) -> bool { match v {
  SqlVal::Null => t == "NULL"@,
  SqlVal::Bool(b) => t == (if b { "true"@ } else { "false"@ }),
  SqlVal::Int(i) => t == int_text(i as int),
  SqlVal::BigInt(i) => t == int_text(i as int),
  SqlVal::Real(x) => finite(x) && t == real_text(x),
  SqlVal::Text(s) => !s@.contains('\0') && reads_as(t, s@),
  SqlVal::Blob(b) => t == "x'"@ + hex_text(b@) + "'"@,
  SqlVal::Json(j) => reads_as(t, json_text(j)),
  SqlVal::Date(d) => reads_as(t, date_text("%Y-%m-%d"@, d)),
  SqlVal::Timestamp(d) => reads_as(t, time_text("%Y-%m-%d %H:%M:%S%.f"@, d)),
  SqlVal::Custom(_) => false } }
/// PostgreSQL: binary values are strings `\x..`
pub open spec fn denotes_pg(v: SqlVal, t: Seq<char>) -> bool { match v { SqlVal::Blob(b) => reads_as(t, "\\x"@ + hex_text(b@)), _ => denotes(v, t) } }
/// values for which there is a literal
pub open spec fn literal_exists(v: SqlVal) -> bool { match v { SqlVal::Real(x) => finite(x), SqlVal::Text(s) => !s@.contains('\0'), SqlVal::Custom(_) => false, _ => true } }
//@@ fn path=butane_core/src/db/helper.rs name=sql_quoted
//@@ spec
//@   ensures r@ == "'"@ + doubled(text@) + "'"@, reads_as(r@, text@)
//@@ entry
//@   broadcast use {valg::vtext, valg::vassoc, lits::replaced_quotes};
//@@ exit
//@   proof { quoted_text(text@); valg::seq_assoc("'"@, doubled(text@), "'"@); }
//@@ end
//@@ fn path=butane_core/src/db/helper.rs name=sql_literal_value
//@@ spec
//@   ensures r is Ok ==> denotes(*val, r->Ok_0@), literal_exists(*val) ==> r is Ok
//@@ entry
//@   broadcast use {valg::vtext, valg::vassoc};
//@@ end
//@@ fn path=butane_core/src/db/pg.rs name=sql_literal_value as=pg_literal
//@@ spec
//@   ensures r is Ok ==> denotes_pg(*val, r->Ok_0@), literal_exists(*val) ==> r is Ok
//@@ entry
//@   broadcast use {valg::vtext, valg::vassoc, lits::quoted_hex};
//@@ end
