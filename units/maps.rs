// ===== equality tests, ordered maps and sets (models of std; TRUSTED where external_body) =====
pub trait VEq<B: ?Sized> { spec fn eqs(&self, o: &B) -> bool; fn veq(&self, o: &B) -> (r: bool) ensures r == self.eqs(o); }
pub fn veq<A: VEq<B> + ?Sized, B: ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == a.eqs(b) { a.veq(b) }
impl<'a, 'b, A: VEq<B> + ?Sized, B: ?Sized> VEq<&'b B> for &'a A { open spec fn eqs(&self, o: &&'b B) -> bool { (**self).eqs(*o) } fn veq(&self, o: &&'b B) -> (r: bool) { (**self).veq(*o) } }
impl VEq<String> for String { open spec fn eqs(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn veq(&self, o: &String) -> (r: bool) { unimplemented!() } }
impl VEq<str> for String { open spec fn eqs(&self, o: &str) -> bool { self@ == o@ } #[verifier::external_body] fn veq(&self, o: &str) -> (r: bool) { unimplemented!() } }
impl VEq<String> for str { open spec fn eqs(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn veq(&self, o: &String) -> (r: bool) { unimplemented!() } }
impl VEq<str> for str { open spec fn eqs(&self, o: &str) -> bool { self@ == o@ } #[verifier::external_body] fn veq(&self, o: &str) -> (r: bool) { unimplemented!() } }
impl<'b> VEq<&'b str> for String { open spec fn eqs(&self, o: &&'b str) -> bool { self@ == (*o)@ } #[verifier::external_body] fn veq(&self, o: &&'b str) -> (r: bool) { unimplemented!() } }
impl<'b> VEq<&'b String> for String { open spec fn eqs(&self, o: &&'b String) -> bool { self@ == (*o)@ } #[verifier::external_body] fn veq(&self, o: &&'b String) -> (r: bool) { unimplemented!() } }
impl<'a> VEq<String> for &'a str { open spec fn eqs(&self, o: &String) -> bool { (*self)@ == o@ } #[verifier::external_body] fn veq(&self, o: &String) -> (r: bool) { unimplemented!() } }
impl<A: VEq<A>> VEq<Option<A>> for Option<A> { open spec fn eqs(&self, o: &Option<A>) -> bool { match (self, o) { (Some(a), Some(b)) => a.eqs(b), (None, None) => true, _ => false } } #[verifier::external_body] fn veq(&self, o: &Option<A>) -> (r: bool) { unimplemented!() } }
//@for T in bool usize i32 i64 u32
impl VEq<%T%> for %T% { open spec fn eqs(&self, o: &%T%) -> bool { *self == *o } fn veq(&self, o: &%T%) -> (r: bool) { *self == *o } }
//@endfor
pub trait VAsStr { spec fn as_text(&self) -> Seq<char>; fn vas_str(&self) -> (r: &str) ensures r@ == self.as_text(); }
impl VAsStr for String { open spec fn as_text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vas_str(&self) -> (r: &str) { unimplemented!() } }
impl VAsStr for str { open spec fn as_text(&self) -> Seq<char> { self@ } fn vas_str(&self) -> (r: &str) { self } }
impl<T: VAsStr + ?Sized> VAsStr for &T { open spec fn as_text(&self) -> Seq<char> { (**self).as_text() } fn vas_str(&self) -> (r: &str) { (**self).vas_str() } }
// ---- iterators that lend their items mutably: all() as found, fin() as left behind ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VMutIt<'a, T> { v: Vec<&'a mut T> }
impl<'a, T> VMutIt<'a, T> {
  pub uninterp spec fn all(&self) -> Seq<T>;
  pub uninterp spec fn fin(&self) -> Seq<T>;
  pub uninterp spec fn pos(&self) -> int;
  #[verifier::external_body]
  pub fn next(&mut self) -> (r: Option<&'a mut T>)
    requires 0 <= old(self).pos() <= old(self).all().len(),
    ensures final(self).all() == old(self).all(), final(self).fin() == old(self).fin(),
      old(self).pos() < old(self).all().len() ==> final(self).pos() == old(self).pos() + 1 && r is Some && *(r->0) == old(self).all()[old(self).pos()] && *final(r->0) == old(self).fin()[old(self).pos()],
      old(self).pos() >= old(self).all().len() ==> final(self).pos() == old(self).pos() && r is None,
  { unimplemented!() }
  /// the iterator is dropped: what it did not deliver stays as it was
  #[verifier::external_body]
  pub fn vend(self)
    ensures forall|i: int| self.pos() <= i < self.all().len() ==> self.fin()[i] == self.all()[i] { unimplemented!() }
}
pub trait VIterMut<T> {
  spec fn items(&self) -> Seq<T>;
  fn viter_mut<'a>(&'a mut self) -> (r: VMutIt<'a, T>) ensures r.all() == old(self).items(), r.fin() == final(self).items(), r.fin().len() == r.all().len(), r.pos() == 0;
}
impl<T> VIterMut<T> for Vec<T> { open spec fn items(&self) -> Seq<T> { self@ } #[verifier::external_body] fn viter_mut<'a>(&'a mut self) -> (r: VMutIt<'a, T>) { unimplemented!() } }
impl<'a, T> Clone for VRefIt<'a, T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.all() == self.all(), r.pos() == self.pos() { unimplemented!() } }
// ---- keys ----
/// keys are told apart by a text
pub trait VKey { spec fn k(&self) -> Seq<char>; }
impl VKey for String { open spec fn k(&self) -> Seq<char> { self@ } }
impl VKey for str { open spec fn k(&self) -> Seq<char> { self@ } }
impl<T: VKey + ?Sized> VKey for &T { open spec fn k(&self) -> Seq<char> { (**self).k() } }
pub open spec fn has_key<K: VKey>(s: Seq<K>, x: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).k() == x }
pub open spec fn keys_distinct<K: VKey>(s: Seq<K>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).k() != (#[trigger] s[j]).k() }
/// `s` lists exactly the members of `d`, each once
pub open spec fn lists<K: VKey>(s: Seq<K>, d: Set<Seq<char>>) -> bool {
  keys_distinct(s) && (forall|i: int| 0 <= i < s.len() ==> d.contains((#[trigger] s[i]).k())) && (forall|x: Seq<char>| #[trigger] d.contains(x) ==> has_key(s, x))
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct BTreeSet<K> { v: Vec<K> }
impl<K: VKey> BTreeSet<K> {
  pub uninterp spec fn set(&self) -> Set<Seq<char>>;
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r.set() == Set::<Seq<char>>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, x: K) -> (r: bool) ensures final(self).set() == old(self).set().insert(x.k()), r == !old(self).set().contains(x.k()) { unimplemented!() }
  #[verifier::external_body] pub fn vcontains<Q: VKey + ?Sized>(&self, x: &Q) -> (r: bool) ensures r == self.set().contains(x.k()) { unimplemented!() }
  #[verifier::external_body] pub fn remove<Q: VKey + ?Sized>(&mut self, x: &Q) -> (r: bool) ensures r == old(self).set().contains(x.k()), final(self).set() == old(self).set().remove(x.k()) { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.set() =~= Set::<Seq<char>>::empty()) { unimplemented!() }
  #[verifier::external_body] pub fn viter(&self) -> (r: VRefIt<'_, K>) ensures r.pos() == 0, lists(r.all(), self.set()) { unimplemented!() }
  #[verifier::external_body] pub fn vdifference<'a>(&'a self, o: &'a Self) -> (r: VRefIt<'a, K>) ensures r.pos() == 0, lists(r.all(), self.set().difference(o.set())) { unimplemented!() }
  #[verifier::external_body] pub fn vintersection<'a>(&'a self, o: &'a Self) -> (r: VRefIt<'a, K>) ensures r.pos() == 0, lists(r.all(), self.set().intersect(o.set())) { unimplemented!() }
}
impl<'a, K: VKey> VIntoIter for &'a BTreeSet<K> { type It = VRefIt<'a, K>;
  open spec fn into_spec(self, it: VRefIt<'a, K>) -> bool { it.pos() == 0 && lists(it.all(), self.set()) }
  #[verifier::external_body] fn vinto_iter(self) -> (r: VRefIt<'a, K>) { unimplemented!() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { v: Vec<(K, V)> }
pub open spec fn at_keys<K: VKey, V>(s: Seq<V>, o: Seq<K>, m: Map<Seq<char>, V>) -> bool { s.len() == o.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == m[o[i].k()] }
impl<K: VKey, V> BTreeMap<K, V> {
  pub uninterp spec fn map(&self) -> Map<Seq<char>, V>;
  /// its keys in order
  pub uninterp spec fn order(&self) -> Seq<K>;
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r.map() == Map::<Seq<char>, V>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn get<Q: VKey + ?Sized>(&self, x: &Q) -> (r: Option<&V>) ensures r is Some == self.map().dom().contains(x.k()), r is Some ==> *(r->0) == self.map()[x.k()] { unimplemented!() }
  #[verifier::external_body] pub fn vcontains_key<Q: VKey + ?Sized>(&self, x: &Q) -> (r: bool) ensures r == self.map().dom().contains(x.k()) { unimplemented!() }
  #[verifier::external_body] pub fn get_mut<Q: VKey + ?Sized>(&mut self, x: &Q) -> (r: Option<&mut V>)
    ensures r is Some == old(self).map().dom().contains(x.k()), r is None ==> final(self).map() == old(self).map(), r is Some ==> *(r->0) == old(self).map()[x.k()] && final(self).map() == old(self).map().insert(x.k(), *final(r->0)) { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, x: K, v: V) -> (r: Option<V>)
    ensures final(self).map() == old(self).map().insert(x.k(), v), r is Some == old(self).map().dom().contains(x.k()), r is Some ==> r->0 == old(self).map()[x.k()] { unimplemented!() }
  #[verifier::external_body] pub fn remove<Q: VKey + ?Sized>(&mut self, x: &Q) -> (r: Option<V>)
    ensures final(self).map() == old(self).map().remove(x.k()), r is Some == old(self).map().dom().contains(x.k()), r is Some ==> r->0 == old(self).map()[x.k()] { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.map().dom() =~= Set::<Seq<char>>::empty()) { unimplemented!() }
  #[verifier::external_body] pub fn vkeys(&self) -> (r: VRefIt<'_, K>) ensures r.pos() == 0, r.all() == self.order(), lists(self.order(), self.map().dom()) { unimplemented!() }
  #[verifier::external_body] pub fn vvalues(&self) -> (r: VRefIt<'_, V>) ensures r.pos() == 0, lists(self.order(), self.map().dom()), at_keys(r.all(), self.order(), self.map()) { unimplemented!() }
  #[verifier::external_body] pub fn viter<'a>(&'a self) -> (r: VIt<(&'a K, &'a V)>) ensures r.pos() == 0, lists(self.order(), self.map().dom()), r.all().len() == self.order().len(), forall|i: int| 0 <= i < r.all().len() ==> *(#[trigger] r.all()[i]).0 == self.order()[i] && *r.all()[i].1 == self.map()[self.order()[i].k()] { unimplemented!() }
  #[verifier::external_body] pub fn vvalues_mut<'a>(&'a mut self) -> (r: VMutIt<'a, V>)
    ensures r.pos() == 0, lists(old(self).order(), old(self).map().dom()), final(self).order() == old(self).order(), final(self).map().dom() == old(self).map().dom(), r.fin().len() == r.all().len(),
      at_keys(r.all(), old(self).order(), old(self).map()), at_keys(r.fin(), old(self).order(), final(self).map()) { unimplemented!() }
}
impl<K: VKey, V> Clone for BTreeMap<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'a, K, V> VMutPairIt<'a, K, V> {
  pub uninterp spec fn all(&self) -> Seq<(K, V)>;
  pub uninterp spec fn fin(&self) -> Seq<V>;
  pub uninterp spec fn pos(&self) -> int;
  #[verifier::external_body]
  pub fn next(&mut self) -> (r: Option<(&'a K, &'a mut V)>)
    requires 0 <= old(self).pos() <= old(self).all().len(),
    ensures final(self).all() == old(self).all(), final(self).fin() == old(self).fin(),
      old(self).pos() < old(self).all().len() ==> final(self).pos() == old(self).pos() + 1 && r is Some && *(r->0).0 == old(self).all()[old(self).pos()].0 && *(r->0).1 == old(self).all()[old(self).pos()].1 && *final((r->0).1) == old(self).fin()[old(self).pos()],
      old(self).pos() >= old(self).all().len() ==> final(self).pos() == old(self).pos() && r is None,
  { unimplemented!() }
  #[verifier::external_body]
  pub fn vend(self)
    ensures forall|i: int| self.pos() <= i < self.all().len() ==> self.fin()[i] == self.all()[i].1 { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VMutPairIt<'a, K, V> { v: Vec<(&'a K, &'a mut V)> }
impl<K: VKey, V> BTreeMap<K, V> {
  #[verifier::external_body] pub fn viter_mut<'a>(&'a mut self) -> (r: VMutPairIt<'a, K, V>)
    ensures r.pos() == 0, lists(old(self).order(), old(self).map().dom()), final(self).order() == old(self).order(), final(self).map().dom() == old(self).map().dom(), r.fin().len() == r.all().len(), r.all().len() == old(self).order().len(),
      forall|i: int| 0 <= i < r.all().len() ==> (#[trigger] r.all()[i]).0 == old(self).order()[i] && r.all()[i].1 == old(self).map()[old(self).order()[i].k()],
      at_keys(r.fin(), old(self).order(), final(self).map()) { unimplemented!() }
}
// ---- hash maps: as ordered maps, with entries ----
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { v: Vec<(K, V)> }
impl<K: VKey, V> HashMap<K, V> {
  pub uninterp spec fn map(&self) -> Map<Seq<char>, V>;
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r.map() == Map::<Seq<char>, V>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn get<Q: VKey + ?Sized>(&self, x: &Q) -> (r: Option<&V>) ensures r is Some == self.map().dom().contains(x.k()), r is Some ==> *(r->0) == self.map()[x.k()] { unimplemented!() }
  #[verifier::external_body] pub fn vcontains_key<Q: VKey + ?Sized>(&self, x: &Q) -> (r: bool) ensures r == self.map().dom().contains(x.k()) { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, x: K, v: V) -> (r: Option<V>)
    ensures final(self).map() == old(self).map().insert(x.k(), v), r is Some == old(self).map().dom().contains(x.k()), r is Some ==> r->0 == old(self).map()[x.k()] { unimplemented!() }
  #[verifier::external_body] pub fn remove<Q: VKey + ?Sized>(&mut self, x: &Q) -> (r: Option<V>)
    ensures final(self).map() == old(self).map().remove(x.k()), r is Some == old(self).map().dom().contains(x.k()), r is Some ==> r->0 == old(self).map()[x.k()] { unimplemented!() }
  #[verifier::external_body] pub fn entry<'a>(&'a mut self, x: K) -> (r: Entry<'a, K, V>)
    ensures old(self).map().dom().contains(x.k()) ==> r is Occupied && final(self).map() == old(self).map(),
      !old(self).map().dom().contains(x.k()) ==> r is Vacant && (r->Vacant_0).was() == old(self).map() && (r->Vacant_0).at() == x.k() && (r->Vacant_0).fin() == final(self).map() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct OccupiedEntry<'a, K, V> { v: &'a mut HashMap<K, V> }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VacantEntry<'a, K, V> { v: &'a mut HashMap<K, V> }
impl<'a, K, V> VacantEntry<'a, K, V> {
  pub uninterp spec fn was(&self) -> Map<Seq<char>, V>;
  pub uninterp spec fn at(&self) -> Seq<char>;
  pub uninterp spec fn fin(&self) -> Map<Seq<char>, V>;
  #[verifier::external_body] pub fn insert(self, v: V) -> (r: &'a mut V) ensures *r == v, self.fin() == self.was().insert(self.at(), *final(r)) { unimplemented!() }
}
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
pub open spec fn ends(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
pub trait VAffix { spec fn affix_of(&self) -> Seq<char>;
  fn vstarts_with<P: VAsStr + ?Sized>(&self, p: &P) -> (r: bool) ensures r == starts(self.affix_of(), p.as_text());
  fn vends_with<P: VAsStr + ?Sized>(&self, p: &P) -> (r: bool) ensures r == ends(self.affix_of(), p.as_text()); }
//@for T in str String
impl VAffix for %T% { open spec fn affix_of(&self) -> Seq<char> { self@ }
  #[verifier::external_body] fn vstarts_with<P: VAsStr + ?Sized>(&self, p: &P) -> (r: bool) { unimplemented!() }
  #[verifier::external_body] fn vends_with<P: VAsStr + ?Sized>(&self, p: &P) -> (r: bool) { unimplemented!() } }
//@endfor
