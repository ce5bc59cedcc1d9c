//@include prelude.rs
broadcast use {prelude::valg::vtext, lem::only_trans, lem::texts_push, lem::push_drop};
//@include sqlval_types.rs
//@include error.rs
//@include adb_types.rs
//@include adb_store.rs
pub open spec fn text_of(o: Option<String>) -> Option<Seq<char>> { match o { Some(t) => Some(t@), None => None } }
#[verifier::external_body] pub fn vcow<S: VDisp + ?Sized>(s: &S) -> (r: Cow<'_, str>) ensures r.disp() == s.disp() { unimplemented!() }
impl<'a, 'b> VEq<Cow<'b, str>> for Cow<'a, str> { open spec fn eqs(&self, o: &Cow<'b, str>) -> bool { self.disp() == o.disp() } #[verifier::external_body] fn veq(&self, o: &Cow<'b, str>) -> (r: bool) { unimplemented!() } }
impl<'a> VEq<str> for Cow<'a, str> { open spec fn eqs(&self, o: &str) -> bool { self.disp() == o@ } #[verifier::external_body] fn veq(&self, o: &str) -> (r: bool) { unimplemented!() } }
impl<'a, 'b> VEq<&'b str> for Cow<'a, str> { open spec fn eqs(&self, o: &&'b str) -> bool { self.disp() == (*o)@ } #[verifier::external_body] fn veq(&self, o: &&'b str) -> (r: bool) { unimplemented!() } }
impl<'a> VAffix for Cow<'a, str> { open spec fn affix_of(&self) -> Seq<char> { self.disp() }
  #[verifier::external_body] fn vstarts_with<P: VAsStr + ?Sized>(&self, p: &P) -> (r: bool) { unimplemented!() }
  #[verifier::external_body] fn vends_with<P: VAsStr + ?Sized>(&self, p: &P) -> (r: bool) { unimplemented!() } }
pub open spec fn cow_text(o: Option<Cow<'_, str>>) -> Option<Seq<char>> { match o { Some(t) => Some(t.disp()), None => None } }
pub mod lem { use super::*;
pub type Pv = Seq<Seq<char>>;
pub type Files = Map<Pv, Seq<u8>>;
/// nothing but these three changed
pub open spec fn only(a: Files, b: Files, x: Pv, y: Pv, z: Pv) -> bool { forall|q: Pv| #![trigger b.dom().contains(q)] #![trigger a.dom().contains(q)] q != x && q != y && q != z ==> b.dom().contains(q) == a.dom().contains(q) && (a.dom().contains(q) ==> b[q] == a[q]) }
pub open spec fn texts(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub broadcast proof fn texts_push(s: Seq<String>, x: String) ensures #[trigger] texts(s.push(x)) == texts(s).push(x@) { assert(texts(s.push(x)) =~= texts(s).push(x@)); }
/// only files lying in `p` may have changed
pub open spec fn local(f: Files, g: Files, p: Pv) -> bool { forall|q: Pv| #![trigger g.dom().contains(q)] #![trigger f.dom().contains(q)] (q.len() != p.len() + 1 || q.drop_last() != p) ==> g.dom().contains(q) == f.dom().contains(q) && (f.dom().contains(q) ==> g[q] == f[q]) }
pub broadcast proof fn local_only(f: Files, g: Files, p: Pv, n: Seq<char>) requires #[trigger] only(f, g, p.push(n), p.push(n), p.push(n)) ensures local(f, g, p) { assert(p.push(n).drop_last() =~= p); }
pub broadcast proof fn local_trans(f: Files, g: Files, h: Files, p: Pv) requires #[trigger] local(f, g, p), #[trigger] local(g, h, p) ensures local(f, h, p) { }
pub broadcast proof fn push_drop(p: Pv, x: Seq<char>) ensures #[trigger] p.push(x).drop_last() == p { assert(p.push(x).drop_last() =~= p); }
/// all but `n`
pub open spec fn without(s: Seq<Seq<char>>, n: Seq<char>) -> Seq<Seq<char>> decreases s.len() { if s.len() == 0 { s } else if s.last() == n { without(s.drop_last(), n) } else { without(s.drop_last(), n).push(s.last()) } }
pub broadcast proof fn only_trans(a: Files, b: Files, c: Files, x: Pv, y: Pv, z: Pv) requires #[trigger] only(a, b, x, y, z), #[trigger] only(b, c, x, y, z) ensures only(a, c, x, y, z) { }
}
pub use lem::*;
// ---- paths: lists of names (TRUSTED: `join` of one name adds one name) ----
#[verifier::external_body] pub struct PathBuf { x: u8 }
pub type Path = PathBuf;
#[verifier::external_body] pub struct OsStr { x: u8 }
impl OsStr { pub uninterp spec fn n(&self) -> Seq<char>;
  #[verifier::external_body] pub fn to_string_lossy(&self) -> (r: Cow<'_, str>) ensures r.disp() == self.n() { unimplemented!() } }
impl VDisp for OsStr { open spec fn disp(&self) -> Seq<char> { self.n() } }
impl VEq<str> for OsStr { open spec fn eqs(&self, o: &str) -> bool { self.n() == o@ } #[verifier::external_body] fn veq(&self, o: &str) -> (r: bool) { unimplemented!() } }
impl VEq<PathBuf> for PathBuf { open spec fn eqs(&self, o: &PathBuf) -> bool { self.p() == o.p() } #[verifier::external_body] fn veq(&self, o: &PathBuf) -> (r: bool) { unimplemented!() } }
impl PathBuf {
  pub uninterp spec fn p(&self) -> Pv;
  #[verifier::external_body] pub fn vjoin<N: VDisp>(&self, n: N) -> (r: PathBuf) ensures r.p() == self.p().push(n.disp()) { unimplemented!() }
  #[verifier::external_body] pub fn push<N: VDisp>(&mut self, n: N) ensures final(self).p() == old(self).p().push(n.disp()) { unimplemented!() }
  #[verifier::external_body] pub fn parent(&self) -> (r: Option<&PathBuf>) ensures self.p().len() > 1 ==> r is Some, r is Some ==> self.p().len() > 0 && r->0.p() == self.p().drop_last() { unimplemented!() }
  #[verifier::external_body] pub fn file_name(&self) -> (r: Option<&OsStr>) ensures self.p().len() > 0 ==> r is Some, r is Some ==> self.p().len() > 0 && r->0.n() == self.p().last() { unimplemented!() }
  #[verifier::external_body] pub fn from(x: &PathBuf) -> (r: PathBuf) ensures r.p() == x.p() { unimplemented!() }
  #[verifier::external_body] pub fn is_file(&self, d: &Disk) -> (r: bool) ensures r == d.files().dom().contains(self.p()) { unimplemented!() }
  #[verifier::external_body] pub fn is_dir(&self, d: &Disk) -> (r: bool) ensures r == d.dirs().contains(self.p()) { unimplemented!() }
  #[verifier::external_body] pub fn exists(&self, d: &Disk) -> (r: bool) ensures r == (d.files().dom().contains(self.p()) || d.dirs().contains(self.p())) { unimplemented!() }
}
impl Clone for PathBuf { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// ---- the disk (TRUSTED: what std::fs does) ----
#[verifier::external_body] pub struct Disk { x: u8 }
pub open spec fn under(q: Pv, p: Pv) -> bool { p.len() <= q.len() && q.take(p.len() as int) == p }
impl Disk {
  pub uninterp spec fn files(&self) -> Files;
  pub uninterp spec fn dirs(&self) -> Set<Pv>;
  /// lock files this process holds locked for itself alone, and those it shares
  pub uninterp spec fn held(&self) -> Set<Pv>;
  pub uninterp spec fn shared(&self) -> Set<Pv>;
}
pub open spec fn same_locks(a: Disk, b: Disk) -> bool { b.held() == a.held() && b.shared() == a.shared() }
/// directories come into being only on the way to `p`
pub open spec fn dirs_to(a: Disk, b: Disk, p: Pv) -> bool { (forall|q: Pv| #[trigger] a.dirs().contains(q) ==> b.dirs().contains(q)) && (forall|q: Pv| #[trigger] b.dirs().contains(q) ==> a.dirs().contains(q) || under(p, q)) }
pub enum ErrorKind { NotFound, Other }
impl VEq<ErrorKind> for ErrorKind { open spec fn eqs(&self, o: &ErrorKind) -> bool { *self == *o } #[verifier::external_body] fn veq(&self, o: &ErrorKind) -> (r: bool) { unimplemented!() } }
pub struct IoErr { pub k: ErrorKind }
impl IoErr { #[verifier::external_body] pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k { unimplemented!() } }
pub type IoResult<T> = core::result::Result<T, IoErr>;
impl core::convert::From<IoErr> for Error { #[verifier::external_body] fn from(e: IoErr) -> (r: Error) { unimplemented!() } }
#[verifier::external_body] pub fn vinto_error(e: IoErr) -> (r: Error) { unimplemented!() }
//@for T in IoErr EOpaque
impl VInto<Error> for %T% { open spec fn vinto_spec(self, r: Error) -> bool { true } #[verifier::external_body] fn vinto(self) -> (r: Error) { unimplemented!() } }
//@endfor
impl VEq<u8> for u8 { open spec fn eqs(&self, o: &u8) -> bool { *self == *o } fn veq(&self, o: &u8) -> (r: bool) { *self == *o } }
impl core::convert::From<EOpaque> for Error { #[verifier::external_body] fn from(e: EOpaque) -> (r: Error) { unimplemented!() } }
pub struct Reader { pub content: Ghost<Seq<u8>> }
pub struct Writer { pub at: Ghost<Pv> }
impl Reader { #[verifier::external_body] pub fn read_to_string(&mut self, buf: &mut String) -> (r: IoResult<usize>) ensures r is Ok ==> exists|t: Seq<char>| old(self).content@ == #[trigger] utf8(t) && final(buf)@ == old(buf)@ + t { unimplemented!() } }
impl Writer { #[verifier::external_body] pub fn write_all(&mut self, d: &mut Disk, b: &[u8]) -> (r: IoResult<()>)
  ensures final(self).at == old(self).at, r is Ok ==> final(d).files() == old(d).files().insert(old(self).at@, old(d).files()[old(self).at@] + b@), only(old(d).files(), final(d).files(), old(self).at@, old(self).at@, old(self).at@), final(d).dirs() == old(d).dirs(), same_locks(*old(d), *final(d)) { unimplemented!() } }
#[verifier::external_body] pub fn vio_copy(d: &mut Disk, rd: &mut Reader, wr: &mut Writer) -> (r: IoResult<u64>)
  ensures final(wr).at == old(wr).at, r is Ok ==> final(d).files() == old(d).files().insert(old(wr).at@, old(d).files()[old(wr).at@] + old(rd).content@), only(old(d).files(), final(d).files(), old(wr).at@, old(wr).at@, old(wr).at@), final(d).dirs() == old(d).dirs(), same_locks(*old(d), *final(d)) { unimplemented!() }
/// `l` lists what lies directly in `p`, each once
pub open spec fn entries(l: Seq<PathBuf>, d: Disk, p: Pv) -> bool {
  (forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).p() != (#[trigger] l[j]).p())
  && (forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).p().len() == p.len() + 1 && l[i].p().drop_last() == p && (d.files().dom().contains(l[i].p()) || d.dirs().contains(l[i].p())))
  && (forall|n: Seq<char>| (#[trigger] d.files().dom().contains(p.push(n)) || d.dirs().contains(p.push(n))) ==> entry_at(l, p.push(n)))
}
pub open spec fn entry_at(l: Seq<PathBuf>, q: Pv) -> bool { exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).p() == q }
/// a file system (the trait's contract; `OsFilesystem` hands each call to std::fs)
pub struct Fs { pub x: u8 }
impl Clone for Fs { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Fs {
  #[verifier::external_body] pub fn ensure_dir(&self, d: &mut Disk, p: &PathBuf) -> (r: IoResult<()>) ensures final(d).files() == old(d).files(), same_locks(*old(d), *final(d)), dirs_to(*old(d), *final(d), p.p()), r is Ok ==> final(d).dirs().contains(p.p()) { unimplemented!() }
  #[verifier::external_body] pub fn list_dir(&self, d: &Disk, p: &PathBuf) -> (r: IoResult<Vec<PathBuf>>) ensures r is Ok ==> entries(r->Ok_0@, *d, p.p()) { unimplemented!() }
  #[verifier::external_body] pub fn write(&self, d: &mut Disk, p: &PathBuf) -> (r: IoResult<Writer>)
    ensures r is Ok ==> r->Ok_0.at@ == p.p() && final(d).files() == old(d).files().insert(p.p(), Seq::<u8>::empty()), only(old(d).files(), final(d).files(), p.p(), p.p(), p.p()), final(d).dirs() == old(d).dirs(), same_locks(*old(d), *final(d)) { unimplemented!() }
  #[verifier::external_body] pub fn read(&self, d: &Disk, p: &PathBuf) -> (r: IoResult<Reader>)
    ensures r is Ok ==> d.files().dom().contains(p.p()) && r->Ok_0.content@ == d.files()[p.p()], r is Err && r->Err_0.k is NotFound ==> !d.files().dom().contains(p.p()) { unimplemented!() }
  /// reading what others may be changing: only under the lock
  #[verifier::external_body] pub fn read_held(&self, d: &Disk, p: &PathBuf) -> (r: IoResult<Reader>)
    requires p.p().len() > 0, d.held().contains(lock_path(p.p().drop_last()))
    ensures r is Ok ==> d.files().dom().contains(p.p()) && r->Ok_0.content@ == d.files()[p.p()], r is Err && r->Err_0.k is NotFound ==> !d.files().dom().contains(p.p()) { unimplemented!() }
  #[verifier::external_body] pub fn delete(&self, d: &mut Disk, p: &PathBuf) -> (r: IoResult<()>) ensures r is Ok ==> final(d).files() == old(d).files().remove(p.p()), only(old(d).files(), final(d).files(), p.p(), p.p(), p.p()), final(d).dirs() == old(d).dirs(), same_locks(*old(d), *final(d)) { unimplemented!() }
}
#[verifier::external_body] pub fn remove_file(d: &mut Disk, p: PathBuf) -> (r: IoResult<()>) ensures rest_same(*old(d), *final(d), p.p()), shrunk(*old(d), *final(d)), r is Ok ==> final(d).files() == old(d).files().remove(p.p()), only(old(d).files(), final(d).files(), p.p(), p.p(), p.p()), final(d).dirs() == old(d).dirs(), same_locks(*old(d), *final(d)) { unimplemented!() }
pub open spec fn shrunk(a: Disk, b: Disk) -> bool { (forall|q: Pv| #[trigger] b.files().dom().contains(q) ==> a.files().dom().contains(q)) && (forall|q: Pv| #[trigger] b.dirs().contains(q) ==> a.dirs().contains(q)) }
pub open spec fn none_under(b: Disk, p: Pv) -> bool { forall|q: Pv| under(q, p) ==> !b.files().dom().contains(q) && !b.dirs().contains(q) }
pub open spec fn rest_same(a: Disk, b: Disk, p: Pv) -> bool { forall|q: Pv| #![trigger b.files().dom().contains(q)] #![trigger a.files().dom().contains(q)] #![trigger b.dirs().contains(q)] #![trigger a.dirs().contains(q)] !under(q, p) ==> b.files().dom().contains(q) == a.files().dom().contains(q) && (a.files().dom().contains(q) ==> b.files()[q] == a.files()[q]) && b.dirs().contains(q) == a.dirs().contains(q) }
#[verifier::external_body] pub fn remove_dir_all(d: &mut Disk, p: &PathBuf) -> (r: IoResult<()>) ensures rest_same(*old(d), *final(d), p.p()), shrunk(*old(d), *final(d)), r is Ok ==> none_under(*final(d), p.p()), same_locks(*old(d), *final(d)) { unimplemented!() }
// ---- locks (TRUSTED: fs2) ----
pub struct File { pub at: Ghost<Pv> }
impl File {
  #[verifier::external_body] pub fn lock_exclusive(&self, d: &mut Disk) -> (r: IoResult<()>) ensures final(d).files() == old(d).files(), final(d).dirs() == old(d).dirs(), final(d).shared() == old(d).shared(), r is Ok ==> final(d).held() == old(d).held().insert(self.at@), r is Err ==> final(d).held() == old(d).held() { unimplemented!() }
  #[verifier::external_body] pub fn lock_shared(&self, d: &mut Disk) -> (r: IoResult<()>) ensures final(d).files() == old(d).files(), final(d).dirs() == old(d).dirs(), final(d).held() == old(d).held(), r is Ok ==> final(d).shared() == old(d).shared().insert(self.at@), r is Err ==> final(d).shared() == old(d).shared() { unimplemented!() }
}
/// how a file is opened (TRUSTED: std::fs)
pub struct OpenOptions { pub r: bool, pub w: bool, pub a: bool, pub c: bool, pub t: bool }
impl OpenOptions {
  pub fn new() -> (o: Self) ensures !o.r && !o.w && !o.a && !o.c && !o.t { OpenOptions { r: false, w: false, a: false, c: false, t: false } }
//@for M,F in read:r write:w append:a create:c truncate:t
  #[verifier::external_body] pub fn %M%(self, b: bool) -> (o: Self) ensures o == (OpenOptions { %F%: b, ..self }) { unimplemented!() }
//@endfor
  #[verifier::external_body] pub fn open(self, d: &mut Disk, path: &PathBuf) -> (r: IoResult<File>)
    ensures r is Ok ==> r->Ok_0.at@ == path.p() && final(d).files() == (if old(d).files().dom().contains(path.p()) && !self.t { old(d).files() } else { old(d).files().insert(path.p(), Seq::<u8>::empty()) }), !old(d).files().dom().contains(path.p()) && !(self.c && (self.w || self.a)) ==> r is Err, only(old(d).files(), final(d).files(), path.p(), path.p(), path.p()), final(d).dirs() == old(d).dirs(), same_locks(*old(d), *final(d)) { unimplemented!() }
}
pub struct MigrationLock { pub file: File }
impl MigrationLock {
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=get_file impl=MigrationLock
//@@ subst .open( => .open(__gd, 
//@@ sig
//@ pub fn get_file(__gd: &mut Disk, path: &PathBuf) -> (r: Result<File>)
//@@ spec
//@   ensures r is Ok ==> r->Ok_0.at@ == path.p(), only(verus_builtin::old(__gd).files(), final(__gd).files(), path.p(), path.p(), path.p()), final(__gd).dirs() == verus_builtin::old(__gd).dirs(), same_locks(*verus_builtin::old(__gd), *final(__gd))
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=new_exclusive impl=MigrationLock
//@@ subst Self :: get_file( => Self::get_file(__gd, 
//@@ subst .lock_exclusive() => .lock_exclusive(__gd)
//@@ sig
//@ pub fn new_exclusive(__gd: &mut Disk, path: &PathBuf) -> (r: Result<Self>)
//@@ spec
//@   ensures only(verus_builtin::old(__gd).files(), final(__gd).files(), path.p(), path.p(), path.p()), final(__gd).dirs() == verus_builtin::old(__gd).dirs(), r is Ok ==> final(__gd).held() == verus_builtin::old(__gd).held().insert(path.p())
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=new_shared impl=MigrationLock
//@@ subst Self :: get_file( => Self::get_file(__gd, 
//@@ subst FileExt :: lock_shared(& file) => file.lock_shared(__gd)
//@@ sig
//@ pub fn new_shared(__gd: &mut Disk, path: &PathBuf) -> (r: Result<Self>)
//@@ spec
//@   ensures only(verus_builtin::old(__gd).files(), final(__gd).files(), path.p(), path.p(), path.p()), final(__gd).dirs() == verus_builtin::old(__gd).dirs(), r is Ok ==> final(__gd).shared() == verus_builtin::old(__gd).shared().insert(path.p())
//@@ end
}
// ---- text formats (TRUSTED: serde_json gives back what it was given, a final newline or not) ----
pub uninterp spec fn to_json<T>(x: T) -> Seq<char>;
pub uninterp spec fn to_json_line<T>(x: T) -> Seq<char>;
pub uninterp spec fn of_json<T>(b: Seq<u8>) -> Option<T>;
/// a value whose text is read back as it was (a known finding: a fractional default may be one unit in the last place off)
pub uninterp spec fn told_exactly<T>(x: T) -> bool;
pub broadcast axiom fn info_exact(i: MigrationInfo) ensures #[trigger] told_exactly(i);
pub broadcast axiom fn state_exact(i: MigrationsState) ensures #[trigger] told_exactly(i);
pub broadcast axiom fn types_exact(i: SqlTypeMap) ensures #[trigger] told_exactly(i);
pub broadcast axiom fn json_back<T>(x: T) requires told_exactly(x) ensures of_json::<T>(lined(#[trigger] utf8(to_json(x)))) == Some(x);
pub broadcast axiom fn json_line_back<T>(x: T) requires told_exactly(x) ensures of_json::<T>(lined(#[trigger] utf8(to_json_line(x)))) == Some(x);
pub broadcast axiom fn json_nl_back<T>(x: T) requires told_exactly(x) ensures of_json::<T>(lined(#[trigger] utf8(to_json(x).push('\n')))) == Some(x), of_json::<T>(utf8(to_json(x).push('\n'))) == Some(x);
pub broadcast axiom fn utf8_nl(t: Seq<char>) ensures (#[trigger] utf8(t)).push(10u8) == utf8(t.push('\n')), utf8(t).len() == 0 <==> t.len() == 0, utf8(t).len() > 0 ==> (utf8(t).last() == 10u8 <==> t.last() == '\n');
/// with a final newline
pub open spec fn lined(b: Seq<u8>) -> Seq<u8> { if b.len() > 0 && b.last() == 10u8 { b } else { b.push(10u8) } }
pub open spec fn lined_text(t: Seq<char>) -> Seq<char> { if t.len() > 0 && t.last() == '\n' { t } else { t.push('\n') } }

  #[verifier::external_body] pub fn to_string_pretty<T>(x: &T) -> (r: core::result::Result<String, EOpaque>) ensures r is Ok ==> r->Ok_0@ == to_json(*x) { unimplemented!() }
  #[verifier::external_body] pub fn to_string<T>(x: &T) -> (r: core::result::Result<String, EOpaque>) ensures r is Ok ==> r->Ok_0@ == to_json_line(*x) { unimplemented!() }
  #[verifier::external_body] pub fn from_reader<T>(rd: Reader) -> (r: core::result::Result<T, EOpaque>) ensures r is Ok ==> of_json::<T>(rd.content@) == Some(r->Ok_0), r is Err ==> of_json::<T>(rd.content@) is None { unimplemented!() }
impl VAsBytes for String { open spec fn bytes_of(&self) -> Seq<u8> { utf8(self@) } #[verifier::external_body] fn vas_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
pub trait VAsBytes { spec fn bytes_of(&self) -> Seq<u8>; fn vas_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes_of(); }
impl VAsBytes for str { open spec fn bytes_of(&self) -> Seq<u8> { utf8(self@) } #[verifier::external_body] fn vas_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
impl<'a> VInto<Vec<u8>> for &'a [u8] { open spec fn vinto_spec(self, r: Vec<u8>) -> bool { r@ == self@ } #[verifier::external_body] fn vinto(self) -> (r: Vec<u8>) { unimplemented!() } }
impl<V> VIntoIter for BTreeMap<String, V> { type It = VIt<(String, V)>;
  open spec fn into_spec(self, it: VIt<(String, V)>) -> bool { it.pos() == 0 && pairs_of(it.all(), self.map()) }
  #[verifier::external_body] fn vinto_iter(self) -> (r: VIt<(String, V)>) { unimplemented!() } }
impl VIntoIter for BTreeMap<TypeKey, DeferredSqlType> { type It = VIt<(TypeKey, DeferredSqlType)>;
  open spec fn into_spec(self, it: VIt<(TypeKey, DeferredSqlType)>) -> bool { it.pos() == 0 && (forall|i: int| 0 <= i < it.all().len() ==> self.map().dom().contains((#[trigger] it.all()[i]).0.k()) && self.map()[it.all()[i].0.k()] == it.all()[i].1)
    && (forall|n: Seq<char>| #[trigger] self.map().dom().contains(n) ==> exists|i: int| 0 <= i < it.all().len() && (#[trigger] it.all()[i]).0.k() == n) }
  #[verifier::external_body] fn vinto_iter(self) -> (r: VIt<(TypeKey, DeferredSqlType)>) { unimplemented!() } }
// ---- migrations kept in a directory ----
pub type SqlTypeMap = BTreeMap<TypeKey, DeferredSqlType>;
pub const TYPES_FILENAME: &'static str = "types.json";
//@@ type path=butane_core/src/migrations/fsmigrations.rs name=MigrationInfo derives=
//@@ type path=butane_core/src/migrations/fsmigrations.rs name=MigrationsState derives=
//@@ type path=butane_core/src/migrations/fsmigrations.rs name=FsMigration derives= subst="std::sync::Arc<dynFilesystem+Send+Sync>=>Fs"
//@@ type path=butane_core/src/migrations/fsmigrations.rs name=FsMigrations derives= subst="std::sync::Arc<dynFilesystem+Send+Sync>=>Fs"
/// #[derive(Default)]
#[verifier::external_body] pub fn derived_default() -> (r: MigrationInfo) ensures told(r) == blank() { unimplemented!() }
impl MigrationInfo {
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=new impl=MigrationInfo
//@@ exit
//@   assert(told(__ret).backends =~= blank().backends);
//@@ spec
//@   ensures told(r) == blank()
//@@ end
}
impl MigrationsState {
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=new impl=MigrationsState
//@@ spec
//@   ensures r.latest is None
//@@ end
}
pub open spec fn info_path(p: Pv) -> Pv { p.push("info.json"@) }
pub open spec fn bases_path(p: Pv, m: Seq<char>, n: Seq<char>) -> Pv { table_path(p.drop_last().push(m), n) }
/// what is told about a migration
pub ghost struct Info { pub from: Option<Seq<char>>, pub bases: Map<Seq<char>, String>, pub backends: Seq<Seq<char>> }
pub open spec fn told(i: MigrationInfo) -> Info { Info { from: text_of(i.from_name), bases: i.table_bases.map(), backends: texts(i.backends@) } }
pub open spec fn blank() -> Info { Info { from: None, bases: Map::empty(), backends: Seq::empty() } }
pub open spec fn info_of(f: Files, p: Pv) -> Option<Info> { if f.dom().contains(info_path(p)) { match of_json::<MigrationInfo>(f[info_path(p)]) { Some(i) => Some(told(i)), None => None } } else { Some(blank()) } }
pub open spec fn sql_path_of(p: Pv, backend: Seq<char>, dir: Seq<char>) -> Pv { p.push(backend + ("_"@ + (dir + ".sql"@))) }
/// the script kept for a backend
pub open spec fn script(f: Files, p: Pv, backend: Seq<char>, dir: Seq<char>) -> Option<Seq<char>> { if f.dom().contains(sql_path_of(p, backend, dir)) { utf8_dec(f[sql_path_of(p, backend, dir)]) } else { None } }
pub open spec fn lock_path(p: Pv) -> Pv { p.push("lock"@) }
pub open spec fn types_path(p: Pv) -> Pv { p.push("types.json"@) }
pub open spec fn table_at(f: Files, q: Pv) -> Option<ATable> { if f.dom().contains(q) { of_json::<ATable>(f[q]) } else { None } }
pub open spec fn types_of(f: Files, p: Pv) -> Option<Map<Seq<char>, DeferredSqlType>> { if f.dom().contains(types_path(p)) { match of_json::<SqlTypeMap>(f[types_path(p)]) { Some(m) => Some(m.map()), None => None } } else { Some(Map::empty()) } }
/// both scripts are kept (each with a final newline), the backend is told once, the rest as before
pub open spec fn scripts_added(f: Files, g: Files, p: Pv, b: Seq<char>, up: Seq<char>, down: Seq<char>) -> bool {
  script(g, p, b, "up"@) == Some(lined_text(up)) && script(g, p, b, "down"@) == Some(lined_text(down))
  && info_of(f, p) is Some && info_of(g, p) == Some(if info_of(f, p)->0.backends.contains(b) { info_of(f, p)->0 } else { Info { backends: info_of(f, p)->0.backends.push(b), ..info_of(f, p)->0 } })
}
pub open spec fn scripts_removed(f: Files, g: Files, p: Pv, b: Seq<char>) -> bool {
  !g.dom().contains(sql_path_of(p, b, "up"@)) && !g.dom().contains(sql_path_of(p, b, "down"@))
  && info_of(f, p) is Some && info_of(g, p) == Some(Info { backends: without(info_of(f, p)->0.backends, b), ..info_of(f, p)->0 })
}
pub open spec fn found(m: Option<&FsMigration>, dir: Pv, n: Seq<char>) -> bool { match m { Some(m) => m.root.p() =~= dir.push(n), None => true } }
pub proof fn found_at(m: Option<&FsMigration>, dir: Pv, n: Seq<char>) requires found(m, dir, n) ensures m is Some ==> m->0.root.p() == dir.push(n) { }
pub open spec fn siblings(s: Seq<FsMigration>, dir: Pv) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).root.p().len() == dir.len() + 1 && s[i].root.p().drop_last() == dir }
/// the table is told to be as in the migration it was last modified in
pub open spec fn based_on(f: Files, g: Files, p: Pv, t: Seq<char>, from: Seq<char>) -> bool {
  info_of(f, p) is Some && info_of(g, p) is Some && info_of(f, p.drop_last().push(from)) is Some
  && info_of(g, p)->0.from == info_of(f, p)->0.from && info_of(g, p)->0.backends == info_of(f, p)->0.backends
  && info_of(g, p)->0.bases.dom() == info_of(f, p)->0.bases.dom().insert(t)
  && (forall|n: Seq<char>| n != t ==> info_of(g, p)->0.bases[n] == #[trigger] info_of(f, p)->0.bases[n])
  && info_of(g, p)->0.bases[t]@ == (if info_of(f, p.drop_last().push(from))->0.bases.dom().contains(t) { info_of(f, p.drop_last().push(from))->0.bases[t]@ } else { from })
}
pub broadcast proof fn texts_listed(s: Seq<String>, n: Seq<char>) ensures #[trigger] listed(s, n) == texts(s).contains(n) { if listed(s, n) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == n; assert(texts(s)[i] == n); } if texts(s).contains(n) { let i = choose|i: int| 0 <= i < texts(s).len() && texts(s)[i] == n; assert(s[i]@ == n); } }
pub proof fn lined_texts(t: Seq<char>) ensures utf8_dec(lined(utf8(t))) == Some(lined_text(t)) { broadcast use utf8_nl; }
pub proof fn last_differs(a: Seq<char>, b: Seq<char>, k: int) requires 0 < k <= a.len(), k <= b.len(), a[a.len() - k] != b[b.len() - k] ensures a != b { }
/// the names of files that are told apart
pub proof fn names_differ(p: Pv, b: Seq<char>)
  ensures sql_path_of(p, b, "up"@) != sql_path_of(p, b, "down"@), sql_path_of(p, b, "up"@) != info_path(p), sql_path_of(p, b, "down"@) != info_path(p),
    (b + "_up"@) + ".sql"@ == b + ("_"@ + ("up"@ + ".sql"@)), b + ("_up"@ + ".sql"@) == b + ("_"@ + ("up"@ + ".sql"@)), b + ("_down"@ + ".sql"@) == b + ("_"@ + ("down"@ + ".sql"@)),
    (b + "_down"@) + ".sql"@ == b + ("_"@ + ("down"@ + ".sql"@)) {
  reveal_strlit("_up"); reveal_strlit("_down"); reveal_strlit("_"); reveal_strlit("up"); reveal_strlit("down"); reveal_strlit(".sql"); reveal_strlit("info.json");
  assert((b + "_up"@) + ".sql"@ =~= b + ("_"@ + ("up"@ + ".sql"@)));
  assert((b + "_down"@) + ".sql"@ =~= b + ("_"@ + ("down"@ + ".sql"@)));
  let u = b + ("_"@ + ("up"@ + ".sql"@)); let w = b + ("_"@ + ("down"@ + ".sql"@));
  last_differs(u, w, 5); last_differs(u, "info.json"@, 1); last_differs(w, "info.json"@, 1);
  assert(p.push(u).last() == u); assert(p.push(w).last() == w); assert(info_path(p).last() == "info.json"@);
}
pub proof fn other_names(p: Pv) ensures lock_path(p) != types_path(p), lock_path(p) != info_path(p), types_path(p) != info_path(p), forall|n: Seq<char>| #[trigger] table_path(p, n) != lock_path(p) && table_path(p, n) != types_path(p) && table_path(p, n) != info_path(p) {
  reveal_strlit("lock"); reveal_strlit("types.json"); reveal_strlit("info.json"); reveal_strlit(".table");
  assert(lock_path(p).last() == "lock"@); assert(types_path(p).last() == "types.json"@); assert(info_path(p).last() == "info.json"@);
  last_differs("lock"@, "types.json"@, 1); last_differs("lock"@, "info.json"@, 1); last_differs("types.json"@, "info.json"@, 6);
  assert forall|n: Seq<char>| #[trigger] table_path(p, n) != lock_path(p) && table_path(p, n) != types_path(p) && table_path(p, n) != info_path(p) by {
    let t = n + ".table"@; assert(table_path(p, n).last() == t); last_differs(t, "lock"@, 1); last_differs(t, "types.json"@, 1); last_differs(t, "info.json"@, 1); } }
pub open spec fn table_path(p: Pv, n: Seq<char>) -> Pv { p.push(n + ".table"@) }
#[verifier::external_body] pub fn vcow_of<'a>(s: String) -> (r: Cow<'a, str>) ensures r.disp() == s@ { unimplemented!() }
#[verifier::external_body] pub fn from_root(p: &PathBuf) -> (r: FsMigrations) ensures r.root.p() == p.p() { unimplemented!() }
pub open spec fn state_path(p: Pv) -> Pv { p.push("state.json"@) }
pub open spec fn ignore_path(p: Pv) -> Pv { p.push(".gitignore"@) }
/// the migration told to be the latest of those in `p`
pub open spec fn latest_of(f: Files, p: Pv) -> Option<Option<Seq<char>>> { if f.dom().contains(state_path(p)) { match of_json::<MigrationsState>(f[state_path(p)]) { Some(s) => Some(text_of(s.latest)), None => None } } else { Some(None) } }
/// beyond what is told about the whole, nothing changed
pub open spec fn state_only(a: Disk, b: Disk, p: Pv) -> bool { same_locks(a, b) && b.dirs() == a.dirs() && only(a.files(), b.files(), ignore_path(p), state_path(p), state_path(p)) }
pub proof fn state_names(p: Pv) ensures state_path(p) != ignore_path(p), forall|n: Seq<char>| #[trigger] info_path(p.push(n)) != state_path(p) && info_path(p.push(n)) != ignore_path(p) {
  reveal_strlit("state.json"); reveal_strlit(".gitignore"); assert(state_path(p).last() == "state.json"@); assert(ignore_path(p).last() == ".gitignore"@); last_differs("state.json"@, ".gitignore"@, 1);
  assert forall|n: Seq<char>| #[trigger] info_path(p.push(n)) != state_path(p) && info_path(p.push(n)) != ignore_path(p) by { assert(info_path(p.push(n)).len() == p.len() + 2); } }
/// the one before it is now the latest
pub open spec fn stepped_back(f: Files, g: Files, p: Pv) -> bool { latest_of(f, p) is Some && latest_of(f, p)->0 is Some && info_of(f, p.push(latest_of(f, p)->0->0)) is Some && info_of(f, p.push(latest_of(f, p)->0->0))->0.from is Some && latest_of(g, p) == Some(info_of(f, p.push(latest_of(f, p)->0->0))->0.from) }
/// a migration that follows the latest (or comes when there is none) is now the latest
pub open spec fn stepped_on(f: Files, g: Files, p: Pv, m: Pv) -> bool { latest_of(f, p) is Some && info_of(f, m) is Some && latest_of(g, p) == (if latest_of(f, p)->0 is None || latest_of(f, p)->0 == info_of(f, m)->0.from { Some(Some(m.last())) } else { latest_of(f, p) }) }
// ---- reading a directory (TRUSTED: std::fs) ----
pub struct DirEntry { pub at: Ghost<Pv> }
pub struct FileType { pub dir: bool }
impl FileType { pub fn is_dir(&self) -> (r: bool) ensures r == self.dir { self.dir } }
impl DirEntry {
  #[verifier::external_body] pub fn path(&self) -> (r: PathBuf) ensures r.p() == self.at@ { unimplemented!() }
  #[verifier::external_body] pub fn file_type(&self, d: &Disk) -> (r: IoResult<FileType>) ensures r is Ok ==> r->Ok_0.dir == d.dirs().contains(self.at@) { unimplemented!() }
}
/// what lies directly in `p` is listed, each once, or else could not be read
pub open spec fn all_read(l: Seq<IoResult<DirEntry>>, d: Disk, p: Pv) -> bool {
  (forall|i: int| 0 <= i < l.len() && (#[trigger] l[i]) is Ok ==> l[i]->Ok_0.at@.len() == p.len() + 1 && l[i]->Ok_0.at@ == p.push(l[i]->Ok_0.at@.last()) && (d.files().dom().contains(l[i]->Ok_0.at@) || d.dirs().contains(l[i]->Ok_0.at@)))
  && (forall|i: int, j: int| 0 <= i < j < l.len() && (#[trigger] l[i]) is Ok && (#[trigger] l[j]) is Ok ==> l[i]->Ok_0.at@ != l[j]->Ok_0.at@)
  && ((forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) is Ok) ==> forall|n: Seq<char>| (#[trigger] d.files().dom().contains(p.push(n)) || d.dirs().contains(p.push(n))) ==> read_at(l, l.len() as int, p.push(n)))
}
pub open spec fn listed_sofar(v: Seq<PathBuf>, l: Seq<IoResult<DirEntry>>, k: int) -> bool { v.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] l[i]) is Ok && v[i].p() == l[i]->Ok_0.at@ }
pub proof fn listed_all(v: Seq<PathBuf>, l: Seq<IoResult<DirEntry>>, d: Disk, p: Pv) requires all_read(l, d, p), listed_sofar(v, l, l.len() as int) ensures entries(v, d, p) {
  assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).p().len() == p.len() + 1 && v[i].p().drop_last() == p && (d.files().dom().contains(v[i].p()) || d.dirs().contains(v[i].p())) by { assert(l[i] is Ok); assert(l[i]->Ok_0.at@.drop_last() =~= p) by { assert(l[i]->Ok_0.at@ == p.push(l[i]->Ok_0.at@.last())); } }
  assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).p() != (#[trigger] v[j]).p() by { assert(l[i] is Ok && l[j] is Ok); }
  assert forall|n: Seq<char>| (#[trigger] d.files().dom().contains(p.push(n)) || d.dirs().contains(p.push(n))) implies entry_at(v, p.push(n)) by { assert(forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) is Ok); assert(read_at(l, l.len() as int, p.push(n))); let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]) is Ok && l[i]->Ok_0.at@ == p.push(n); assert(v[i].p() == p.push(n)); } }
pub open spec fn read_at(l: Seq<IoResult<DirEntry>>, k: int, q: Pv) -> bool { exists|i: int| 0 <= i < k && (#[trigger] l[i]) is Ok && l[i]->Ok_0.at@ == q }
#[verifier::external_body] pub fn read_dir(d: &Disk, p: &PathBuf) -> (r: IoResult<Vec<IoResult<DirEntry>>>) ensures r is Ok ==> all_read(r->Ok_0@, *d, p.p()) { unimplemented!() }
/// nothing outside `p` nor in what is being worked on changed; nothing came into being
pub open spec fn spared(a: Disk, b: Disk, p: Pv) -> bool { 
  (forall|q: Pv| #![trigger b.files().dom().contains(q)] #![trigger a.files().dom().contains(q)] #![trigger b.dirs().contains(q)] #![trigger a.dirs().contains(q)] (!under(q, p) || q == p || under(q, p.push("current"@))) ==> b.files().dom().contains(q) == a.files().dom().contains(q) && (a.files().dom().contains(q) ==> b.files()[q] == a.files()[q]) && b.dirs().contains(q) == a.dirs().contains(q))
  && (forall|q: Pv| #[trigger] b.files().dom().contains(q) ==> a.files().dom().contains(q)) && (forall|q: Pv| #[trigger] b.dirs().contains(q) ==> a.dirs().contains(q)) }
pub open spec fn gone_sofar(b: Disk, l: Seq<IoResult<DirEntry>>, k: int, p: Pv) -> bool { forall|i: int| 0 <= i < k ==> (#[trigger] l[i]) is Ok && (l[i]->Ok_0.at@ == p.push("current"@) || !b.files().dom().contains(l[i]->Ok_0.at@) && !b.dirs().contains(l[i]->Ok_0.at@)) }
/// only what is being worked on is left
pub open spec fn only_current(b: Disk, p: Pv) -> bool { forall|n: Seq<char>| n != "current"@ ==> !#[trigger] b.files().dom().contains(p.push(n)) && !b.dirs().contains(p.push(n)) }
pub proof fn under_child(q: Pv, p: Pv, n: Seq<char>, m: Seq<char>) requires n != m, under(q, p.push(n)) ensures !under(q, p.push(m)), q != p, under(q, p) {
  assert(q.take(p.push(n).len() as int)[p.len() as int] == n); if under(q, p.push(m)) { assert(q.take(p.push(m).len() as int)[p.len() as int] == m); } assert(q.take(p.len() as int) =~= q.take(p.push(n).len() as int).take(p.len() as int)); assert(p.push(n).take(p.len() as int) =~= p); }
pub broadcast proof fn itself_gone(b: Disk, p: Pv) requires #[trigger] none_under(b, p) ensures !b.files().dom().contains(p), !b.dirs().contains(p) { assert(p.take(p.len() as int) =~= p); assert(under(p, p)); }
pub broadcast proof fn one_gone(a: Disk, b: Disk, c: Disk, p: Pv, n: Seq<char>) requires #[trigger] spared(a, b, p), n != "current"@, #[trigger] rest_same(b, c, p.push(n)), shrunk(b, c) ensures spared(a, c, p) {
  assert forall|q: Pv| (!under(q, p) || q == p || under(q, p.push("current"@))) implies !under(q, #[trigger] p.push(n)) || !under(q, p.push(n)) by { if under(q, p.push(n)) { under_child(q, p, n, "current"@); } }
  assert forall|q: Pv| #![trigger c.files().dom().contains(q)] #![trigger c.dirs().contains(q)] #![trigger a.files().dom().contains(q)] #![trigger a.dirs().contains(q)] (!under(q, p) || q == p || under(q, p.push("current"@))) implies c.files().dom().contains(q) == a.files().dom().contains(q) && (a.files().dom().contains(q) ==> c.files()[q] == a.files()[q]) && c.dirs().contains(q) == a.dirs().contains(q) by { if under(q, p.push(n)) { under_child(q, p, n, "current"@); } assert(b.files().dom().contains(q) == a.files().dom().contains(q)); } }
pub proof fn all_gone(a: Disk, b: Disk, l: Seq<IoResult<DirEntry>>, p: Pv) requires all_read(l, a, p), spared(a, b, p), gone_sofar(b, l, l.len() as int, p) ensures only_current(b, p) {
  assert forall|n: Seq<char>| n != "current"@ implies !#[trigger] b.files().dom().contains(p.push(n)) && !b.dirs().contains(p.push(n)) by {
    assert(p.push(n).last() == n); assert(p.push("current"@).last() == "current"@);
    if b.files().dom().contains(p.push(n)) || b.dirs().contains(p.push(n)) { assert(a.files().dom().contains(p.push(n)) || a.dirs().contains(p.push(n))); let t = a.files().dom().contains(p.push(n)); assert(read_at(l, l.len() as int, p.push(n))); } } }
/// a directory beside the chain
pub open spec fn detached(d: Disk, ser: Seq<FsMigration>, p: Pv, q: Pv) -> bool { d.dirs().contains(q) && q.len() == p.len() + 1 && q.drop_last() == p && q.last() != "current"@ && !kept_at(ser, ser.len() as int, q) }
pub open spec fn kept_at(ser: Seq<FsMigration>, k: int, q: Pv) -> bool { exists|i: int| 0 <= i < k && (#[trigger] ser[i]).root.p() == q }
pub open spec fn one_shown(t: Seq<char>, d: Disk, ser: Seq<FsMigration>, p: Pv) -> bool { exists|q: Pv| t == shown(q) && #[trigger] detached(d, ser, p, q) }
pub uninterp spec fn shown(q: Pv) -> Seq<char>;
pub struct Shown { pub at: Ghost<Pv> }
impl VDisp for Shown { open spec fn disp(&self) -> Seq<char> { shown(self.at@) } }
impl Shown { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == shown(self.at@) { unimplemented!() } }
impl PathBuf { #[verifier::external_body] pub fn display(&self) -> (r: Shown) ensures r.at@ == self.p() { unimplemented!() } }
pub open spec fn paths_told(v: Seq<String>, d: Disk, ser: Seq<FsMigration>, p: Pv) -> bool {
  (forall|j: int| 0 <= j < v.len() ==> one_shown((#[trigger] v[j])@, d, ser, p))
  && (forall|q: Pv| #[trigger] detached(d, ser, p, q) ==> named_in(v, shown(q))) }
pub open spec fn named_in(v: Seq<String>, t: Seq<char>) -> bool { exists|j: int| 0 <= j < v.len() && (#[trigger] v[j])@ == t }
pub open spec fn lists_sofar(v: Seq<String>, l: Seq<IoResult<DirEntry>>, k: int, d: Disk, ser: Seq<FsMigration>, p: Pv) -> bool {
  (forall|j: int| 0 <= j < v.len() ==> one_shown((#[trigger] v[j])@, d, ser, p))
  && (forall|i: int| 0 <= i < k ==> (#[trigger] l[i]) is Ok && (detached(d, ser, p, l[i]->Ok_0.at@) ==> named_in(v, shown(l[i]->Ok_0.at@)))) }
pub proof fn lists_all(v: Seq<String>, l: Seq<IoResult<DirEntry>>, d: Disk, ser: Seq<FsMigration>, p: Pv) requires all_read(l, d, p), lists_sofar(v, l, l.len() as int, d, ser, p) ensures paths_told(v, d, ser, p) {
  assert forall|q: Pv| #[trigger] detached(d, ser, p, q) implies named_in(v, shown(q)) by { assert(q =~= p.push(q.last())); assert(d.dirs().contains(p.push(q.last()))); assert(d.files().dom().contains(p.push(q.last())) || d.dirs().contains(p.push(q.last()))); let t = d.files().dom().contains(p.push(q.last())); assert(read_at(l, l.len() as int, q)); } }
pub broadcast proof fn named_more(v: Seq<String>, x: String, t: Seq<char>) requires #[trigger] named_in(v, t) ensures #[trigger] named_in(v.push(x), t) { let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j])@ == t; assert(v.push(x)[j]@ == t); }
pub broadcast proof fn named_new(v: Seq<String>, x: String) ensures #[trigger] named_in(v.push(x), x@) { assert(v.push(x)[v.len() as int]@ == x@); }
pub broadcast proof fn lists_more(v: Seq<String>, l: Seq<IoResult<DirEntry>>, k: int, d: Disk, ser: Seq<FsMigration>, p: Pv, x: String) requires #[trigger] lists_sofar(v, l, k, d, ser, p), x@ == shown(l[k]->Ok_0.at@), 0 <= k < l.len(), l[k] is Ok, detached(d, ser, p, l[k]->Ok_0.at@) ensures #[trigger] lists_sofar(v.push(x), l, k + 1, d, ser, p) {
  let w = v.push(x);
  assert forall|j: int| 0 <= j < w.len() implies one_shown((#[trigger] w[j])@, d, ser, p) by { if j < v.len() { assert(w[j] == v[j]); } else { assert(w[j] == x); } }
  assert forall|i: int| 0 <= i < k + 1 implies (#[trigger] l[i]) is Ok && (detached(d, ser, p, l[i]->Ok_0.at@) ==> named_in(w, shown(l[i]->Ok_0.at@))) by { if i < k { if detached(d, ser, p, l[i]->Ok_0.at@) { named_more(v, x, shown(l[i]->Ok_0.at@)); } } else { named_new(v, x); } } }
#[verifier::external_body] pub fn os_filesystem() -> (r: Fs) { unimplemented!() }
#[verifier::external_body] pub fn vignored() -> (r: &'static [u8]) { unimplemented!() }
/// the chain (C10)
pub uninterp spec fn series(d: Disk, p: Pv) -> Seq<FsMigration>;
impl FsMigrations {
  /// C10; each was looked up by its name
  #[verifier::external_body] pub fn all_migrations(&self, d: &Disk) -> (r: Result<Vec<FsMigration>>) ensures r is Ok ==> siblings(r->Ok_0@, self.root.p()) && r->Ok_0@ == series(*d, self.root.p()) { unimplemented!() }
}
/// every table is kept in the file of its name
pub open spec fn tables_named(f: Files, p: Pv) -> bool {
  info_of(f, p) is Some && (forall|n: Seq<char>| table_at(f, #[trigger] table_path(p, n)) is Some ==> table_at(f, table_path(p, n))->0.name@ == n)
  && (forall|n: Seq<char>| #[trigger] info_of(f, p)->0.bases.dom().contains(n) && table_at(f, bases_path(p, info_of(f, p)->0.bases[n]@, n)) is Some ==> table_at(f, bases_path(p, info_of(f, p)->0.bases[n]@, n))->0.name@ == n) }
/// the tables: those modified here from here, the others from the migration that last modified them
pub open spec fn tables_kept(m: Map<Seq<char>, ATable>, f: Files, p: Pv) -> bool {
  forall|n: Seq<char>| #![trigger m.dom().contains(n)] m.dom().contains(n) == (f.dom().contains(table_path(p, n)) || info_of(f, p)->0.bases.dom().contains(n))
    && (m.dom().contains(n) ==> Some(m[n]) == (if f.dom().contains(table_path(p, n)) { table_at(f, table_path(p, n)) } else { table_at(f, bases_path(p, info_of(f, p)->0.bases[n]@, n)) })) }
pub open spec fn based_sofar(m: Map<Seq<char>, ATable>, f: Files, p: Pv, l: Seq<(String, String)>, k: int) -> bool {
  (forall|i: int| 0 <= i < k ==> m.dom().contains((#[trigger] l[i]).0@) && Some(m[l[i].0@]) == table_at(f, bases_path(p, l[i].1@, l[i].0@)))
  && (forall|n: Seq<char>| #[trigger] m.dom().contains(n) ==> exists|i: int| 0 <= i < k && (#[trigger] l[i]).0@ == n) }
pub open spec fn based_tables(m: Map<Seq<char>, ATable>, f: Files, p: Pv) -> bool {
  forall|n: Seq<char>| #![trigger m.dom().contains(n)] m.dom().contains(n) == info_of(f, p)->0.bases.dom().contains(n) && (m.dom().contains(n) ==> Some(m[n]) == table_at(f, bases_path(p, info_of(f, p)->0.bases[n]@, n))) }
pub proof fn based_all(m: Map<Seq<char>, ATable>, f: Files, p: Pv, l: Seq<(String, String)>)
  requires based_sofar(m, f, p, l, l.len() as int), pairs_of(l, info_of(f, p)->0.bases)
  ensures based_tables(m, f, p) {
  let b = info_of(f, p)->0.bases;
  assert forall|n: Seq<char>| m.dom().contains(n) == b.dom().contains(n) && (m.dom().contains(n) ==> Some(m[n]) == table_at(f, bases_path(p, b[n]@, n))) by {
    if b.dom().contains(n) { let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0@ == n; assert(l[i].0@ == n); }
    if m.dom().contains(n) { let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0@ == n; assert(l[i].0@ == n); } } }
/// the entries of a map, each once
pub open spec fn pairs_of<V>(l: Seq<(String, V)>, b: Map<Seq<char>, V>) -> bool {
  (forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).0@ != (#[trigger] l[j]).0@)
  && (forall|i: int| 0 <= i < l.len() ==> b.dom().contains((#[trigger] l[i]).0@) && b[l[i].0@] == l[i].1)
  && (forall|n: Seq<char>| #[trigger] b.dom().contains(n) ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0@ == n) }
pub open spec fn own_sofar(p: Pv, l: Seq<PathBuf>, k: int, n: Seq<char>) -> bool { exists|i: int| 0 <= i < k && (#[trigger] l[i]).p() == table_path(p, n) }
pub open spec fn tables_sofar(m: Map<Seq<char>, ATable>, f: Files, p: Pv, l: Seq<PathBuf>, k: int) -> bool {
  (forall|i: int| 0 <= i < k && l[i].p().len() > 0 && ends((#[trigger] l[i]).p().last(), ".table"@) ==> f.dom().contains(l[i].p()))
  && forall|n: Seq<char>| #![trigger m.dom().contains(n)] m.dom().contains(n) == (own_sofar(p, l, k, n) || info_of(f, p)->0.bases.dom().contains(n))
    && (m.dom().contains(n) ==> Some(m[n]) == (if own_sofar(p, l, k, n) { table_at(f, table_path(p, n)) } else { table_at(f, bases_path(p, info_of(f, p)->0.bases[n]@, n)) })) }
pub broadcast proof fn ends_with_table(s: Seq<char>) ensures #[trigger] ends(s, ".table"@) ==> s == s.take(s.len() - ".table"@.len()) + ".table"@ { if ends(s, ".table"@) { assert(s =~= s.take(s.len() - ".table"@.len()) + ".table"@); } }
pub proof fn tables_step(m: Map<Seq<char>, ATable>, m2: Map<Seq<char>, ATable>, f: Files, p: Pv, d: Disk, l: Seq<PathBuf>, k: int)
  requires 0 <= k < l.len(), tables_named(f, p), entries(l, d, p), tables_sofar(m, f, p, l, k), l[k].p() == p.push(l[k].p().last()),
    ends(l[k].p().last(), ".table"@) ==> table_at(f, l[k].p()) is Some && m2 == m.insert(table_at(f, l[k].p())->0.name@, table_at(f, l[k].p())->0),
    !ends(l[k].p().last(), ".table"@) ==> m2 == m
  ensures tables_sofar(m2, f, p, l, k + 1) {
  let x = l[k].p().last();
  if ends(x, ".table"@) { ends_with_table(x); let s = x.take(x.len() - ".table"@.len()); assert(l[k].p() == table_path(p, s));
    assert forall|n: Seq<char>| #[trigger] own_sofar(p, l, k + 1, n) == (own_sofar(p, l, k, n) || n == s) by { if n != s { stems_differ(p, n, s); } if own_sofar(p, l, k, n) { let i = choose|i: int| 0 <= i < k && (#[trigger] l[i]).p() == table_path(p, n); assert(l[i].p() == table_path(p, n)); } if n == s { assert(l[k].p() == table_path(p, n)); } }
  } else {
    assert forall|n: Seq<char>| #[trigger] own_sofar(p, l, k + 1, n) == own_sofar(p, l, k, n) by { if l[k].p() == table_path(p, n) { assert(x == n + ".table"@); assert(x.skip(x.len() - ".table"@.len()) =~= ".table"@); } if own_sofar(p, l, k, n) { let i = choose|i: int| 0 <= i < k && (#[trigger] l[i]).p() == table_path(p, n); assert(l[i].p() == table_path(p, n)); } }
  } }
pub proof fn stems_differ(p: Pv, a: Seq<char>, b: Seq<char>) requires a != b ensures table_path(p, a) != table_path(p, b) {
  let t = ".table"@; if table_path(p, a) == table_path(p, b) { assert(table_path(p, a).last() == a + t); assert(table_path(p, b).last() == b + t); assert((a + t).len() == (b + t).len()); assert(a =~= (a + t).take(a.len() as int)); assert(b =~= (b + t).take(b.len() as int)); } }
pub proof fn tables_all(m: Map<Seq<char>, ATable>, f: Files, p: Pv, d: Disk, l: Seq<PathBuf>)
  requires tables_sofar(m, f, p, l, l.len() as int), entries(l, d, p), d.files() == f
  ensures tables_kept(m, f, p) {
  assert forall|n: Seq<char>| #[trigger] own_sofar(p, l, l.len() as int, n) == f.dom().contains(table_path(p, n)) by {
    let q = table_path(p, n); assert(q.last() == n + ".table"@);
    if f.dom().contains(q) { assert(entry_at(l, p.push(n + ".table"@))); let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).p() == q; assert(l[i].p() == q); }
    if own_sofar(p, l, l.len() as int, n) { let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).p() == q; assert((n + ".table"@).skip((n + ".table"@).len() - ".table"@.len()) =~= ".table"@); assert(ends(l[i].p().last(), ".table"@)); } } }
pub open spec fn types_sofar(t: Map<Seq<char>, DeferredSqlType>, f: Files, p: Pv, l: Seq<PathBuf>, k: int) -> bool {
  if entry_before(l, k, types_path(p)) { f.dom().contains(types_path(p)) && types_of(f, p) == Some(t) } else { t == Map::<Seq<char>, DeferredSqlType>::empty() } }
pub open spec fn entry_before(l: Seq<PathBuf>, k: int, q: Pv) -> bool { exists|i: int| 0 <= i < k && (#[trigger] l[i]).p() == q }
pub proof fn types_step(t: Map<Seq<char>, DeferredSqlType>, t2: Map<Seq<char>, DeferredSqlType>, f: Files, p: Pv, d: Disk, l: Seq<PathBuf>, k: int)
  requires 0 <= k < l.len(), entries(l, d, p), types_sofar(t, f, p, l, k), l[k].p() == p.push(l[k].p().last()),
    ends(l[k].p().last(), ".table"@) ==> t2 == t, l[k].p().last() == "types.json"@ && !ends(l[k].p().last(), ".table"@) ==> f.dom().contains(types_path(p)) && types_of(f, p) == Some(t2), l[k].p().last() != "types.json"@ ==> t2 == t
  ensures types_sofar(t2, f, p, l, k + 1) {
  let x = l[k].p().last(); other_names(p);
  if ends(x, ".table"@) { ends_with_table(x); let s = x.take(x.len() - ".table"@.len()); assert(l[k].p() == table_path(p, s)); }
  assert(types_path(p).last() == "types.json"@); 
  if entry_before(l, k, types_path(p)) { let i = choose|i: int| 0 <= i < k && (#[trigger] l[i]).p() == types_path(p); assert(l[i].p() == types_path(p)); assert(l[k].p() != l[i].p()); }
  if x == "types.json"@ { assert(l[k].p() == types_path(p)); } }
pub proof fn types_first(t: Map<Seq<char>, DeferredSqlType>, f: Files, p: Pv, d: Disk, l: Seq<PathBuf>, k: int)
  requires 0 <= k < l.len(), entries(l, d, p), types_sofar(t, f, p, l, k)
  ensures l[k].p() == types_path(p) ==> t == Map::<Seq<char>, DeferredSqlType>::empty() {
  if entry_before(l, k, types_path(p)) && l[k].p() == types_path(p) { let i = choose|i: int| 0 <= i < k && (#[trigger] l[i]).p() == types_path(p); assert(l[i].p() != l[k].p()); } }
pub proof fn types_all(t: Map<Seq<char>, DeferredSqlType>, f: Files, p: Pv, d: Disk, l: Seq<PathBuf>)
  requires types_sofar(t, f, p, l, l.len() as int), entries(l, d, p), d.files() == f
  ensures Some(t) == types_of(f, p) { if f.dom().contains(types_path(p)) { assert(entry_at(l, p.push("types.json"@))); } }
/// each file of `p` has the same contents in `o`, and nothing else changed
pub open spec fn copied(f: Files, g: Files, p: Pv, o: Pv) -> bool { forall|n: Seq<char>| #[trigger] f.dom().contains(p.push(n)) ==> g.dom().contains(o.push(n)) && g[o.push(n)] == f[p.push(n)] }
pub open spec fn copied_sofar(f: Files, g: Files, p: Pv, o: Pv, l: Seq<PathBuf>, k: int) -> bool {
  p != o && (forall|i: int| 0 <= i < k ==> g.dom().contains(o.push(#[trigger] l[i].p().last())) && g[o.push(l[i].p().last())] == f[l[i].p()])
  && local(f, g, o) }
pub proof fn copied_step(f: Files, g: Files, h: Files, p: Pv, o: Pv, d: Disk, l: Seq<PathBuf>, k: int)
  requires 0 <= k < l.len(), copied_sofar(f, g, p, o, l, k), entries(l, d, p), only(g, h, o.push(l[k].p().last()), o.push(l[k].p().last()), o.push(l[k].p().last())), h.dom().contains(o.push(l[k].p().last())), h[o.push(l[k].p().last())] == g[l[k].p()], g.dom().contains(l[k].p())
  ensures copied_sofar(f, h, p, o, l, k + 1) {
  local_only(g, h, o, l[k].p().last()); local_trans(f, g, h, o); let x = o.push(l[k].p().last());
  assert(x.last() == l[k].p().last());
  assert forall|i: int| 0 <= i < k + 1 implies h.dom().contains(o.push(#[trigger] l[i].p().last())) && h[o.push(l[i].p().last())] == f[l[i].p()] by {
    assert(l[i].p() =~= p.push(l[i].p().last())); assert(l[k].p() =~= p.push(l[k].p().last())); assert(o.push(l[i].p().last()).last() == l[i].p().last()); } }
pub proof fn copied_all(f: Files, g: Files, p: Pv, o: Pv, d: Disk, l: Seq<PathBuf>)
  requires copied_sofar(f, g, p, o, l, l.len() as int), entries(l, d, p), d.files() == f
  ensures copied(f, g, p, o) {
  assert forall|n: Seq<char>| #[trigger] f.dom().contains(p.push(n)) implies g.dom().contains(o.push(n)) && g[o.push(n)] == f[p.push(n)] by {
    assert(entry_at(l, p.push(n))); let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).p() == p.push(n); assert(l[i].p().last() == n); } }
pub proof fn emptied_step(f: Files, g: Files, h: Files, p: Pv, d: Disk, l: Seq<PathBuf>, k: int)
  requires 0 <= k < l.len(), emptied_sofar(f, g, p, l, k), entries(l, d, p), only(g, h, l[k].p(), l[k].p(), l[k].p()), l[k].p() == p.push(l[k].p().last()),
    l[k].p().last() != "info.json"@ ==> !h.dom().contains(l[k].p()),
    l[k].p().last() == "info.json"@ ==> info_of(g, p) is Some && info_of(h, p) == Some(Info { from: info_of(g, p)->0.from, ..blank() })
  ensures emptied_sofar(f, h, p, l, k + 1) {
  local_only(g, h, p, l[k].p().last()); local_trans(f, g, h, p); assert(info_path(p).last() == "info.json"@); }
pub proof fn emptied_all(f: Files, g: Files, p: Pv, d: Disk, l: Seq<PathBuf>)
  requires emptied_sofar(f, g, p, l, l.len() as int), entries(l, d, p), d.files() == f
  ensures emptied(f, g, p) {
  assert forall|n: Seq<char>| n != "info.json"@ implies !#[trigger] g.dom().contains(p.push(n)) by {
    if g.dom().contains(p.push(n)) { assert(p.push(n).last() == n); assert(info_path(p).last() == "info.json"@); assert(f.dom().contains(p.push(n))); assert(entry_at(l, p.push(n))); } }
  if f.dom().contains(info_path(p)) { assert(entry_at(l, p.push("info.json"@))); } }
/// nothing is left but the predecessor
pub open spec fn emptied(f: Files, g: Files, p: Pv) -> bool {
  (forall|n: Seq<char>| n != "info.json"@ ==> !#[trigger] g.dom().contains(p.push(n)))
  && (f.dom().contains(info_path(p)) ==> info_of(f, p) is Some && info_of(g, p) == Some(Info { from: info_of(f, p)->0.from, ..blank() })) }
pub open spec fn emptied_sofar(f: Files, g: Files, p: Pv, l: Seq<PathBuf>, k: int) -> bool {
  (forall|i: int| 0 <= i < k && (#[trigger] l[i]).p() != info_path(p) ==> !g.dom().contains(l[i].p()))
  && (forall|i: int| 0 <= i < k && (#[trigger] l[i]).p() == info_path(p) && f.dom().contains(info_path(p)) ==> info_of(f, p) is Some && info_of(g, p) == Some(Info { from: info_of(f, p)->0.from, ..blank() }))
  && ((forall|i: int| 0 <= i < k ==> (#[trigger] l[i]).p() != info_path(p)) ==> info_of(g, p) == info_of(f, p))
  && (forall|q: Pv| q != info_path(p) && #[trigger] g.dom().contains(q) ==> f.dom().contains(q))
  && local(f, g, p) }
impl FsMigration {
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=ensure_dir impl=FsMigration
//@@ subst self.fs.ensure_dir( => self.fs.ensure_dir(__gd, 
//@@ sig
//@ pub fn ensure_dir(&self, __gd: &mut Disk) -> (r: Result<()>)
//@@ spec
//@   ensures final(__gd).files() == verus_builtin::old(__gd).files(), same_locks(*verus_builtin::old(__gd), *final(__gd)), dirs_to(*verus_builtin::old(__gd), *final(__gd), self.root.p()), r is Ok ==> final(__gd).dirs().contains(self.root.p())
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=write_contents impl=FsMigration eq
//@@ subst self.ensure_dir( => self.ensure_dir(__gd
//@@ subst .write(& path) => .write(__gd, &path)
//@@ subst .write_all( => .write_all(__gd, 
//@@ subst < Error as Into < Error > > :: into( => vinto_error(
//@@ sig
//@ pub fn write_contents(&self, __gd: &mut Disk, fname: &str, contents: &[u8]) -> (r: Result<()>)
//@@ spec
//@   ensures same_locks(*verus_builtin::old(__gd), *final(__gd)), dirs_to(*verus_builtin::old(__gd), *final(__gd), self.root.p()), only(verus_builtin::old(__gd).files(), final(__gd).files(), self.root.p().push(fname@), self.root.p().push(fname@), self.root.p().push(fname@)), r is Ok ==> final(__gd).dirs().contains(self.root.p()) && final(__gd).files() =~= verus_builtin::old(__gd).files().insert(self.root.p().push(fname@), lined(contents@))
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=write_info impl=FsMigration
//@@ subst self.write_contents( => self.write_contents(__gd, 
//@@ entry
//@   broadcast use {json_nl_back, info_exact, state_exact, types_exact};
//@@ sig
//@ pub fn write_info(&self, __gd: &mut Disk, info: &MigrationInfo) -> (r: Result<()>)
//@@ spec
//@   ensures same_locks(*verus_builtin::old(__gd), *final(__gd)), dirs_to(*verus_builtin::old(__gd), *final(__gd), self.root.p()), only(verus_builtin::old(__gd).files(), final(__gd).files(), info_path(self.root.p()), info_path(self.root.p()), info_path(self.root.p())), r is Ok ==> info_of(final(__gd).files(), self.root.p()) == Some(told(*info))
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=info impl=FsMigration
//@@ subst path.is_file() => path.is_file(__gd)
//@@ subst self.fs.read( => self.fs.read(__gd, 
//@@ sig
//@ pub fn info(&self, __gd: &Disk) -> (r: Result<MigrationInfo>)
//@@ spec
//@   ensures r is Ok ==> info_of(__gd.files(), self.root.p()) == Some(told(r->Ok_0))
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=sql_path impl=FsMigration
//@@ entry
//@   broadcast use prelude::valg::vassoc;
//@@ spec
//@   ensures r.p() == sql_path_of(self.root.p(), backend@, direction@)
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=read_sql impl=FsMigration
//@@ subst path.is_file() => path.is_file(__gd)
//@@ subst self.fs.read( => self.fs.read(__gd, 
//@@ sig
//@ pub fn read_sql(&self, __gd: &Disk, backend: &str, direction: &str) -> (r: Result<Option<String>>)
//@@ spec
//@   ensures r is Ok ==> text_of(r->Ok_0) == script(__gd.files(), self.root.p(), backend@, direction@) && (r->Ok_0 is None == !__gd.files().dom().contains(sql_path_of(self.root.p(), backend@, direction@)))
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=write_sql impl=FsMigration
//@@ subst self.write_contents( => self.write_contents(__gd, 
//@@ sig
//@ pub fn write_sql(&self, __gd: &mut Disk, name: &str, sql: &str) -> (r: Result<()>)
//@@ spec
//@   ensures same_locks(*verus_builtin::old(__gd), *final(__gd)), dirs_to(*verus_builtin::old(__gd), *final(__gd), self.root.p()), only(verus_builtin::old(__gd).files(), final(__gd).files(), self.root.p().push(name@ + ".sql"@), self.root.p().push(name@ + ".sql"@), self.root.p().push(name@ + ".sql"@)), r is Ok ==> final(__gd).files() == verus_builtin::old(__gd).files().insert(self.root.p().push(name@ + ".sql"@), lined(utf8(sql@)))
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=delete_file impl=FsMigration
//@@ subst self.ensure_dir( => self.ensure_dir(__gd
//@@ subst self.fs.delete( => self.fs.delete(__gd, 
//@@ sig
//@ pub fn delete_file(&self, __gd: &mut Disk, fname: &str) -> (r: Result<()>)
//@@ spec
//@   ensures same_locks(*verus_builtin::old(__gd), *final(__gd)), dirs_to(*verus_builtin::old(__gd), *final(__gd), self.root.p()), only(verus_builtin::old(__gd).files(), final(__gd).files(), self.root.p().push(fname@), self.root.p().push(fname@), self.root.p().push(fname@)), r is Ok ==> final(__gd).files() == verus_builtin::old(__gd).files().remove(self.root.p().push(fname@))
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=delete_sql impl=FsMigration
//@@ subst self.delete_file( => self.delete_file(__gd, 
//@@ sig
//@ pub fn delete_sql(&self, __gd: &mut Disk, name: &str) -> (r: Result<()>)
//@@ spec
//@   ensures same_locks(*verus_builtin::old(__gd), *final(__gd)), dirs_to(*verus_builtin::old(__gd), *final(__gd), self.root.p()), only(verus_builtin::old(__gd).files(), final(__gd).files(), self.root.p().push(name@ + ".sql"@), self.root.p().push(name@ + ".sql"@), self.root.p().push(name@ + ".sql"@)), r is Ok ==> final(__gd).files() == verus_builtin::old(__gd).files().remove(self.root.p().push(name@ + ".sql"@))
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=lock_exclusive impl=FsMigration
//@@ subst MigrationLock :: new_exclusive( => MigrationLock::new_exclusive(__gd, 
//@@ sig
//@ pub fn lock_exclusive(&self, __gd: &mut Disk) -> (r: Result<MigrationLock>)
//@@ spec
//@   ensures only(verus_builtin::old(__gd).files(), final(__gd).files(), lock_path(self.root.p()), lock_path(self.root.p()), lock_path(self.root.p())), final(__gd).dirs() == verus_builtin::old(__gd).dirs(), r is Ok ==> final(__gd).held().contains(lock_path(self.root.p()))
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=lock_shared impl=FsMigration
//@@ subst MigrationLock :: new_shared( => MigrationLock::new_shared(__gd, 
//@@ sig
//@ pub fn lock_shared(&self, __gd: &mut Disk) -> (r: Result<MigrationLock>)
//@@ spec
//@   ensures only(verus_builtin::old(__gd).files(), final(__gd).files(), lock_path(self.root.p()), lock_path(self.root.p()), lock_path(self.root.p())), final(__gd).dirs() == verus_builtin::old(__gd).dirs(), r is Ok ==> final(__gd).shared().contains(lock_path(self.root.p()))
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=add_modified_table impl="MigrationMut for FsMigration"
//@@ subst self.write_contents( => self.write_contents(__gd, 
//@@ entry
//@   broadcast use json_back;
//@@ sig
//@ pub fn add_modified_table(&mut self, __gd: &mut Disk, table: &ATable) -> (r: Result<()>)
//@@ spec
//@   ensures *final(self) == *verus_builtin::old(self), same_locks(*verus_builtin::old(__gd), *final(__gd)), only(verus_builtin::old(__gd).files(), final(__gd).files(), table_path(verus_builtin::old(self).root.p(), table.name@), table_path(verus_builtin::old(self).root.p(), table.name@), table_path(verus_builtin::old(self).root.p(), table.name@)), r is Ok && told_exactly(*table) ==> table_at(final(__gd).files(), table_path(verus_builtin::old(self).root.p(), table.name@)) == Some(*table)
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=add_unmodified_table impl="MigrationMut for FsMigration" eq
//@@ subst self.info() => self.info(__gd)
//@@ subst .info()? => .info(__gd)?
//@@ subst .all_migrations() => .all_migrations(__gd)
//@@ subst self.write_info( => self.write_info(__gd, 
//@@ sig
//@ pub fn add_unmodified_table(&mut self, __gd: &mut Disk, table: &ATable, from_migration_name: &str) -> (r: Result<()>)
//@@ loop 1
//@   found($acc, self.root.p().drop_last(), from_migration_name@), $pos <= $all.len(), siblings($all, self.root.p().drop_last())
//@@ loop_after 1
//@   proof { found_at($acc, self.root.p().drop_last(), from_migration_name@); }
//@@ spec
//@   ensures *final(self) == *verus_builtin::old(self), same_locks(*verus_builtin::old(__gd), *final(__gd)), only(verus_builtin::old(__gd).files(), final(__gd).files(), info_path(verus_builtin::old(self).root.p()), info_path(verus_builtin::old(self).root.p()), info_path(verus_builtin::old(self).root.p())), r is Ok ==> based_on(verus_builtin::old(__gd).files(), final(__gd).files(), verus_builtin::old(self).root.p(), table.name@, from_migration_name@)
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=delete_table impl="MigrationMut for FsMigration"
//@@ subst self.ensure_dir( => self.ensure_dir(__gd
//@@ subst remove_file( => remove_file(__gd, 
//@@ sig
//@ pub fn delete_table(&mut self, __gd: &mut Disk, table: &str) -> (r: Result<()>)
//@@ spec
//@   ensures *final(self) == *verus_builtin::old(self), same_locks(*verus_builtin::old(__gd), *final(__gd)), only(verus_builtin::old(__gd).files(), final(__gd).files(), table_path(verus_builtin::old(self).root.p(), table@), table_path(verus_builtin::old(self).root.p(), table@), table_path(verus_builtin::old(self).root.p(), table@)), r is Ok ==> final(__gd).files() == verus_builtin::old(__gd).files().remove(table_path(verus_builtin::old(self).root.p(), table@))
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=add_sql impl="MigrationMut for FsMigration"
//@@ subst self.write_sql( => self.write_sql(__gd, 
//@@ subst self.info() => self.info(__gd)
//@@ subst self.write_info( => self.write_info(__gd, 
//@@ entry
//@   proof { names_differ(verus_builtin::old(self).root.p(), backend_name@); lined_texts(up_sql@); lined_texts(down_sql@); } broadcast use texts_listed;
//@@ sig
//@ pub fn add_sql(&mut self, __gd: &mut Disk, backend_name: &str, up_sql: &str, down_sql: &str) -> (r: Result<()>)
//@@ spec
//@   ensures *final(self) == *verus_builtin::old(self), same_locks(*verus_builtin::old(__gd), *final(__gd)), only(verus_builtin::old(__gd).files(), final(__gd).files(), sql_path_of(verus_builtin::old(self).root.p(), backend_name@, "up"@), sql_path_of(verus_builtin::old(self).root.p(), backend_name@, "down"@), info_path(verus_builtin::old(self).root.p())), r is Ok ==> scripts_added(verus_builtin::old(__gd).files(), final(__gd).files(), verus_builtin::old(self).root.p(), backend_name@, up_sql@, down_sql@)
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=remove_sql impl="MigrationMut for FsMigration" eq
//@@ subst self.delete_sql( => self.delete_sql(__gd, 
//@@ subst self.info() => self.info(__gd)
//@@ subst self.write_info( => self.write_info(__gd, 
//@@ entry
//@   proof { names_differ(verus_builtin::old(self).root.p(), backend_name@); }
//@@ loop 1
//@   texts($acc@) == without(texts($all.take($pos)), backend_name@)
//@@ loop_entry 1
//@   proof { assert(texts($all.take($pos)).drop_last() =~= texts($all.take($pos - 1))); assert(texts($all.take($pos)).last() == $all[$pos - 1]@); }
//@@ loop_after 1
//@   proof { assert($all.take($all.len() as int) =~= $all); }
//@@ sig
//@ pub fn remove_sql(&mut self, __gd: &mut Disk, backend_name: &str) -> (r: Result<()>)
//@@ spec
//@   ensures *final(self) == *verus_builtin::old(self), same_locks(*verus_builtin::old(__gd), *final(__gd)), only(verus_builtin::old(__gd).files(), final(__gd).files(), sql_path_of(verus_builtin::old(self).root.p(), backend_name@, "up"@), sql_path_of(verus_builtin::old(self).root.p(), backend_name@, "down"@), info_path(verus_builtin::old(self).root.p())), r is Ok ==> scripts_removed(verus_builtin::old(__gd).files(), final(__gd).files(), verus_builtin::old(self).root.p(), backend_name@)
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=add_type impl="MigrationMut for FsMigration" eq
//@@ subst self.ensure_dir( => self.ensure_dir(__gd
//@@ subst self.lock_exclusive( => self.lock_exclusive(__gd
//@@ subst self.fs.read( => self.fs.read_held(__gd, 
//@@ subst self.write_contents( => self.write_contents(__gd, 
//@@ entry
//@   proof { other_names(verus_builtin::old(self).root.p()); } proof { let l = lock_path(verus_builtin::old(self).root.p()); let t = types_path(verus_builtin::old(self).root.p()); assert(forall|f: Files, g: Files| #[trigger] only(f, g, l, l, l) ==> only(f, g, t, l, l)); assert(forall|f: Files, g: Files| #[trigger] only(f, g, t, t, t) ==> only(f, g, t, l, l)); } broadcast use json_line_back, json_back, types_exact;
//@@ sig
//@ pub fn add_type(&mut self, __gd: &mut Disk, key: TypeKey, sqltype: DeferredSqlType) -> (r: Result<()>)
//@@ spec
//@   ensures *final(self) == *verus_builtin::old(self), only(verus_builtin::old(__gd).files(), final(__gd).files(), types_path(verus_builtin::old(self).root.p()), lock_path(verus_builtin::old(self).root.p()), lock_path(verus_builtin::old(self).root.p())), r is Ok ==> final(__gd).held().contains(lock_path(verus_builtin::old(self).root.p())) && (types_of(verus_builtin::old(__gd).files(), verus_builtin::old(self).root.p()) is Some ==> types_of(final(__gd).files(), verus_builtin::old(self).root.p()) == Some(types_of(verus_builtin::old(__gd).files(), verus_builtin::old(self).root.p())->0.insert(key.k(), sqltype)))
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=set_migration_from impl="MigrationMut for FsMigration"
//@@ subst self.info() => self.info(__gd)
//@@ subst self.write_info( => self.write_info(__gd, 
//@@ sig
//@ pub fn set_migration_from(&mut self, __gd: &mut Disk, prev: Option<String>) -> (r: Result<()>)
//@@ spec
//@   ensures *final(self) == *verus_builtin::old(self), same_locks(*verus_builtin::old(__gd), *final(__gd)), only(verus_builtin::old(__gd).files(), final(__gd).files(), info_path(verus_builtin::old(self).root.p()), info_path(verus_builtin::old(self).root.p()), info_path(verus_builtin::old(self).root.p())), r is Ok ==> info_of(verus_builtin::old(__gd).files(), verus_builtin::old(self).root.p()) is Some && info_of(final(__gd).files(), verus_builtin::old(self).root.p()) == Some(Info { from: text_of(prev), ..info_of(verus_builtin::old(__gd).files(), verus_builtin::old(self).root.p())->0 })
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=db impl="Migration for FsMigration" eq
//@@ subst self.ensure_dir( => self.ensure_dir(__gd
//@@ subst self.lock_shared( => self.lock_shared(__gd
//@@ subst self.fs.list_dir( => self.fs.list_dir(__gd, 
//@@ subst self.fs.read( => self.fs.read(__gd, 
//@@ subst self.info() => self.info(__gd)
//@@ entry
//@   proof { other_names(self.root.p()); } broadcast use ends_with_table;
//@@ loop 1
//@   tables_named(__gd.files(), self.root.p()) ==> based_sofar(db.tables.map(), __gd.files(), self.root.p(), $all, $pos), db.extra_types.map() == Map::<Seq<char>, DeferredSqlType>::empty()
//@@ loop_after 1
//@   proof { if tables_named(__gd.files(), self.root.p()) { based_all(db.tables.map(), __gd.files(), self.root.p(), $all); } }
//@@ loop 2
//@   tables_named(__gd.files(), self.root.p()) ==> tables_sofar(db.tables.map(), __gd.files(), self.root.p(), $all, $pos), types_sofar(db.extra_types.map(), __gd.files(), self.root.p(), $all, $pos)
//@@ loop_entry 2
//@   let ghost m0 = db.tables.map(); let ghost t0 = db.extra_types.map(); proof { types_first(t0, __gd.files(), self.root.p(), *__gd, $all, $pos - 1); assert($all[$pos - 1].p() =~= self.root.p().push($all[$pos - 1].p().last())); }
//@@ loop_exit 2
//@   proof { if tables_named(__gd.files(), self.root.p()) { tables_step(m0, db.tables.map(), __gd.files(), self.root.p(), *__gd, $all, $pos - 1); } types_step(t0, db.extra_types.map(), __gd.files(), self.root.p(), *__gd, $all, $pos - 1); }
//@@ loop_after 2
//@   proof { if tables_named(__gd.files(), self.root.p()) { tables_all(db.tables.map(), __gd.files(), self.root.p(), *__gd, $all); } types_all(db.extra_types.map(), __gd.files(), self.root.p(), *__gd, $all); }
//@@ loop 3
//@   (forall|n: Seq<char>| #![trigger db.extra_types.map().dom().contains(n)] db.extra_types.map().dom().contains(n) ==> types.map().dom().contains(n) && db.extra_types.map()[n] == types.map()[n]), (forall|i: int| 0 <= i < $pos ==> db.extra_types.map().dom().contains((#[trigger] $all[i]).0.k())), db.tables.map() == m0, of_json::<SqlTypeMap>(__gd.files()[types_path(self.root.p())]) == Some(types)
//@@ loop_after 3
//@   proof { assert(db.extra_types.map() =~= types.map()); }
//@@ sig
//@ pub fn db(&self, __gd: &mut Disk) -> (r: Result<ADB>)
//@@ spec
//@   ensures only(verus_builtin::old(__gd).files(), final(__gd).files(), lock_path(self.root.p()), lock_path(self.root.p()), lock_path(self.root.p())), r is Ok ==> final(__gd).shared().contains(lock_path(self.root.p())) && (tables_named(final(__gd).files(), self.root.p()) ==> exists|a: ADB| #[trigger] resolved(a) == Some(r->Ok_0) && tables_kept(a.tables.map(), final(__gd).files(), self.root.p()) && Some(a.extra_types.map()) == types_of(final(__gd).files(), self.root.p()))
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=copy_to impl=FsMigration
//@@ subst self.ensure_dir( => self.ensure_dir(__gd
//@@ subst other.ensure_dir( => other.ensure_dir(__gd
//@@ subst self.fs.list_dir( => self.fs.list_dir(__gd, 
//@@ subst self.fs.read( => self.fs.read(__gd, 
//@@ subst other.fs.write( => other.fs.write(__gd, 
//@@ subst copy( => vio_copy(__gd, 
//@@ sig
//@ pub fn copy_to(&self, __gd: &mut Disk, other: &mut Self) -> (r: Result<()>)
//@@ loop 1
//@   copied_sofar(verus_builtin::old(__gd).files(), __gd.files(), self.root.p(), other.root.p(), $all, $pos), *other == *verus_builtin::old(other)
//@@ entry
//@   broadcast use local_only, local_trans;
//@@ before list_dir
//@   let ghost d0 = *__gd;
//@@ loop_entry 1
//@   let ghost g0 = __gd.files(); proof { assert(local(g0, g0, other.root.p())); }
//@@ loop_exit 1
//@   proof { copied_step(verus_builtin::old(__gd).files(), g0, __gd.files(), self.root.p(), other.root.p(), d0, $all, $pos - 1); }
//@@ loop_after 1
//@   proof { copied_all(verus_builtin::old(__gd).files(), __gd.files(), self.root.p(), other.root.p(), d0, $all); }
//@@ spec
//@   requires verus_builtin::old(other).root.p() != self.root.p()
//@   ensures *final(other) == *verus_builtin::old(other), local(verus_builtin::old(__gd).files(), final(__gd).files(), verus_builtin::old(other).root.p()), r is Ok ==> copied(verus_builtin::old(__gd).files(), final(__gd).files(), self.root.p(), verus_builtin::old(other).root.p())
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=delete_db impl=FsMigration eq
//@@ subst Default :: default() => derived_default()
//@@ subst self.fs.list_dir( => self.fs.list_dir(__gd, 
//@@ subst self.fs.delete( => self.fs.delete(__gd, 
//@@ subst self.info() => self.info(__gd)
//@@ subst self.write_info( => self.write_info(__gd, 
//@@ sig
//@ pub fn delete_db(&self, __gd: &mut Disk) -> (r: Result<()>)
//@@ entry
//@   broadcast use local_only, local_trans; let ghost d0 = *__gd; proof { assert(local(d0.files(), d0.files(), self.root.p())); }
//@@ loop_entry 1
//@   let ghost g0 = __gd.files(); proof { assert($all[$pos - 1].p() =~= self.root.p().push($all[$pos - 1].p().last())); }
//@@ loop_exit 1
//@   proof { emptied_step(d0.files(), g0, __gd.files(), self.root.p(), d0, $all, $pos - 1); }
//@@ loop_after 1
//@   proof { emptied_all(d0.files(), __gd.files(), self.root.p(), d0, $all); }
//@@ loop 1
//@   emptied_sofar(verus_builtin::old(__gd).files(), __gd.files(), self.root.p(), $all, $pos)
//@@ spec
//@   ensures local(verus_builtin::old(__gd).files(), final(__gd).files(), self.root.p()), r is Ok ==> emptied(verus_builtin::old(__gd).files(), final(__gd).files(), self.root.p())
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=migration_from impl="Migration for FsMigration"
//@@ subst self.info() => self.info(__gd)
//@@ subst Cow::from => vcow_of
//@@ sig
//@ pub fn migration_from(&self, __gd: &Disk) -> (r: Result<Option<Cow<'_, str>>>)
//@@ spec
//@   ensures r is Ok ==> info_of(__gd.files(), self.root.p()) is Some && cow_text(r->Ok_0) == info_of(__gd.files(), self.root.p())->0.from
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=name impl="Migration for FsMigration"
//@@ spec
//@   requires self.root.p().len() > 0
//@   ensures r.disp() == self.root.p().last()
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=up_sql impl="Migration for FsMigration"
//@@ subst self.read_sql( => self.read_sql(__gd, 
//@@ sig
//@ pub fn up_sql(&self, __gd: &Disk, backend_name: &str) -> (r: Result<Option<String>>)
//@@ spec
//@   ensures r is Ok ==> text_of(r->Ok_0) == script(__gd.files(), self.root.p(), backend_name@, "up"@)
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=down_sql impl="Migration for FsMigration"
//@@ subst self.read_sql( => self.read_sql(__gd, 
//@@ sig
//@ pub fn down_sql(&self, __gd: &Disk, backend_name: &str) -> (r: Result<Option<String>>)
//@@ spec
//@   ensures r is Ok ==> text_of(r->Ok_0) == script(__gd.files(), self.root.p(), backend_name@, "down"@)
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=sql_backends impl="Migration for FsMigration"
//@@ subst self.info() => self.info(__gd)
//@@ sig
//@ pub fn sql_backends(&self, __gd: &Disk) -> (r: Result<Vec<String>>)
//@@ spec
//@   ensures r is Ok ==> info_of(__gd.files(), self.root.p()) is Some && texts(r->Ok_0@) == info_of(__gd.files(), self.root.p())->0.backends
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=eq impl="PartialEq for FsMigration" eq
//@@ sig
//@ pub fn veq(&self, other: &Self) -> (r: bool)
//@@ spec
//@   requires self.root.p().len() > 0, other.root.p().len() > 0
//@   ensures r == (self.root.p().last() == other.root.p().last())
//@@ end
}
impl FsMigrations {
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=new impl="FsMigrations"
//@@ subst Arc :: new(OsFilesystem { }) => os_filesystem()
//@@ spec
//@   ensures r.root.p() == root.p(), r.current.root.p() == root.p().push("current"@)
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=get_state impl="FsMigrations" eq
//@@ subst self.fs.read( => self.fs.read(__gd, 
//@@ sig
//@ pub fn get_state(&self, __gd: &Disk) -> (r: Result<MigrationsState>)
//@@ spec
//@   ensures r is Ok ==> latest_of(__gd.files(), self.root.p()) == Some(text_of(r->Ok_0.latest))
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=save_state impl="FsMigrations"
//@@ subst path.exists() => path.exists(__gd)
//@@ subst self.fs.write( => self.fs.write(__gd, 
//@@ subst b"lock\n" => vignored()
//@@ subst .write_all( => .write_all(__gd, 
//@@ entry
//@   broadcast use {json_nl_back, info_exact, state_exact, types_exact}; let ghost d0 = *__gd; proof { state_names(self.root.p()); }
//@@ sig
//@ pub fn save_state(&mut self, __gd: &mut Disk, state: &MigrationsState) -> (r: Result<()>)
//@@ spec
//@   ensures *final(self) == *verus_builtin::old(self), state_only(*verus_builtin::old(__gd), *final(__gd), verus_builtin::old(self).root.p()), r is Ok ==> latest_of(final(__gd).files(), verus_builtin::old(self).root.p()) == Some(text_of(state.latest))
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=get_migration impl="Migrations for FsMigrations"
//@@ subst dir.is_dir() => dir.is_dir(__gd)
//@@ sig
//@ pub fn get_migration(&self, __gd: &Disk, name: &str) -> (r: Option<FsMigration>)
//@@ spec
//@   ensures r is Some == __gd.dirs().contains(self.root.p().push(name@)), r is Some ==> r->0.root.p() == self.root.p().push(name@)
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=latest impl="Migrations for FsMigrations"
//@@ subst self.get_state() => self.get_state(__gd)
//@@ subst self.get_migration( => self.get_migration(__gd, 
//@@ sig
//@ pub fn latest(&self, __gd: &Disk) -> (r: Option<FsMigration>)
//@@ spec
//@   ensures r is Some ==> latest_of(__gd.files(), self.root.p()) is Some && latest_of(__gd.files(), self.root.p())->0 is Some && r->0.root.p() == self.root.p().push(latest_of(__gd.files(), self.root.p())->0->0) && __gd.dirs().contains(r->0.root.p())
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=detach_latest_migration impl="FsMigrations"
//@@ hint .migration_from()? => opt
//@@ subst self.get_state() => self.get_state(__gd)
//@@ subst self.latest() => self.latest(__gd)
//@@ subst .migration_from() => .migration_from(__gd)
//@@ subst self.save_state( => self.save_state(__gd, 
//@@ entry
//@   proof { state_names(self.root.p()); }
//@@ sig
//@ pub fn detach_latest_migration(&mut self, __gd: &mut Disk) -> (r: Result<()>)
//@@ spec
//@   ensures *final(self) == *verus_builtin::old(self), state_only(*verus_builtin::old(__gd), *final(__gd), verus_builtin::old(self).root.p()), r is Ok ==> stepped_back(verus_builtin::old(__gd).files(), final(__gd).files(), verus_builtin::old(self).root.p())
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=current impl="MigrationsMut for FsMigrations"
//@@ sig
//@ pub fn current(&mut self) -> (r: &mut FsMigration)
//@@ spec
//@   ensures *r == verus_builtin::old(self).current
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=clear_current impl="MigrationsMut for FsMigrations"
//@@ subst remove_dir_all( => remove_dir_all(__gd, 
//@@ sig
//@ pub fn clear_current(&mut self, __gd: &mut Disk) -> (r: Result<()>)
//@@ spec
//@   ensures *final(self) == *verus_builtin::old(self), rest_same(*verus_builtin::old(__gd), *final(__gd), verus_builtin::old(self).current.root.p()), same_locks(*verus_builtin::old(__gd), *final(__gd)), r is Ok ==> none_under(*final(__gd), verus_builtin::old(self).current.root.p())
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=new_migration impl="MigrationsMut for FsMigrations"
//@@ sig
//@ pub fn new_migration(&self, name: &str) -> (r: FsMigration)
//@@ spec
//@   ensures r.root.p() == self.root.p().push(name@)
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=add_migration impl="MigrationsMut for FsMigrations" eq
//@@ hint .migration_from()? => opt
//@@ subst self.get_state() => self.get_state(__gd)
//@@ subst .migration_from() => .migration_from(__gd)
//@@ subst self.save_state( => self.save_state(__gd, 
//@@ sig
//@ pub fn add_migration(&mut self, __gd: &mut Disk, m: FsMigration) -> (r: Result<()>)
//@@ spec
//@   requires m.root.p().len() > 0
//@   ensures *final(self) == *verus_builtin::old(self), state_only(*verus_builtin::old(__gd), *final(__gd), verus_builtin::old(self).root.p()), r is Ok ==> stepped_on(verus_builtin::old(__gd).files(), final(__gd).files(), verus_builtin::old(self).root.p(), m.root.p())
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=delete_migrations impl="MigrationsMut for FsMigrations" eq
//@@ subst read_dir( => read_dir(__gd, 
//@@ subst .file_type() => .file_type(__gd)
//@@ subst remove_dir_all(entry.path()) => remove_dir_all(__gd, &entry.path())
//@@ subst remove_file( => remove_file(__gd, 
//@@ sig
//@ pub fn delete_migrations(&mut self, __gd: &mut Disk) -> (r: Result<()>)
//@@ entry
//@   broadcast use {one_gone, itself_gone}; let ghost d0 = *__gd;
//@@ loop_entry 1
//@   proof { let e = $all[$pos - 1]; if e is Ok { assert(e->Ok_0.at@ == self.root.p().push(e->Ok_0.at@.last())); } }
//@@ loop_after 1
//@   proof { all_gone(d0, *__gd, $all, self.root.p()); }
//@@ loop 1
//@   same_locks(d0, *__gd), spared(d0, *__gd, self.root.p()), gone_sofar(*__gd, $all, $pos, self.root.p()), all_read($all, d0, self.root.p()), *self == *verus_builtin::old(self), d0 == *verus_builtin::old(__gd)
//@@ spec
//@   ensures *final(self) == *verus_builtin::old(self), same_locks(*verus_builtin::old(__gd), *final(__gd)), spared(*verus_builtin::old(__gd), *final(__gd), verus_builtin::old(self).root.p()), r is Ok ==> only_current(*final(__gd), verus_builtin::old(self).root.p())
//@@ end
//@@ fn path=butane_core/src/migrations/fsmigrations.rs name=detached_migration_paths impl="FsMigrations" eq
//@@ subst self.all_migrations() => self.all_migrations(__gd)
//@@ subst read_dir( => read_dir(__gd, &
//@@ subst path.is_dir() => path.is_dir(__gd)
//@@ sig
//@ pub fn detached_migration_paths(&self, __gd: &Disk) -> (r: Result<Vec<String>>)
//@@ loop_entry 1
//@   let ghost e = $all[$pos - 1]; let ghost v0 = detached_directory_names@; proof { if e is Ok { assert(e->Ok_0.at@ == self.root.p().push(e->Ok_0.at@.last())); } }
//@@ loop_exit 1
//@   proof { if detached(*__gd, migration_series@, self.root.p(), e->Ok_0.at@) { lists_more(v0, $all, $pos - 1, *__gd, migration_series@, self.root.p(), detached_directory_names@.last()); assert(detached_directory_names@ =~= v0.push(detached_directory_names@.last())); } }
//@@ loop_after 1
//@   proof { lists_all(detached_directory_names@, $all, *__gd, migration_series@, self.root.p()); }
//@@ loop 1
//@   lists_sofar(detached_directory_names@, $all, $pos, *__gd, migration_series@, self.root.p()), all_read($all, *__gd, self.root.p()), migration_series@ == series(*__gd, self.root.p())
//@@ loop 2
//@   $acc == kept_at($all, $pos, path.p()), $all == migration_series@
//@@ spec
//@   ensures r is Ok ==> paths_told(r->Ok_0@, *__gd, series(*__gd, self.root.p()), self.root.p())
//@@ end
}
// ---- the operating system's file system keeps the contract of `Fs` (TRUSTED: std::fs) ----
pub struct OsFilesystem {}
#[verifier::external_body] pub fn std_create_dir_all(d: &mut Disk, p: &PathBuf) -> (r: IoResult<()>) ensures final(d).files() == old(d).files(), same_locks(*old(d), *final(d)), dirs_to(*old(d), *final(d), p.p()), r is Ok ==> final(d).dirs().contains(p.p()) { unimplemented!() }
#[verifier::external_body] pub fn std_create(d: &mut Disk, p: &PathBuf) -> (r: IoResult<Writer>)
    ensures r is Ok ==> r->Ok_0.at@ == p.p() && final(d).files() == old(d).files().insert(p.p(), Seq::<u8>::empty()), only(old(d).files(), final(d).files(), p.p(), p.p(), p.p()), final(d).dirs() == old(d).dirs(), same_locks(*old(d), *final(d)) { unimplemented!() }
#[verifier::external_body] pub fn std_open(d: &Disk, p: &PathBuf) -> (r: IoResult<Reader>)
    ensures r is Ok ==> d.files().dom().contains(p.p()) && r->Ok_0.content@ == d.files()[p.p()], r is Err && r->Err_0.k is NotFound ==> !d.files().dom().contains(p.p()) { unimplemented!() }
#[verifier::external_body] pub fn std_remove_file(d: &mut Disk, p: &PathBuf) -> (r: IoResult<()>) ensures r is Ok ==> final(d).files() == old(d).files().remove(p.p()), only(old(d).files(), final(d).files(), p.p(), p.p(), p.p()), final(d).dirs() == old(d).dirs(), same_locks(*old(d), *final(d)) { unimplemented!() }
impl OsFilesystem {
//@@ fn path=butane_core/src/migrations/fs.rs name=ensure_dir impl="Filesystem for OsFilesystem"
//@@ subst create_dir_all( => std_create_dir_all(__gd, 
//@@ sig
//@ pub fn ensure_dir(&self, __gd: &mut Disk, path: &PathBuf) -> (r: IoResult<()>)
//@@ spec
//@   ensures final(__gd).files() == verus_builtin::old(__gd).files(), same_locks(*verus_builtin::old(__gd), *final(__gd)), dirs_to(*verus_builtin::old(__gd), *final(__gd), path.p()), r is Ok ==> final(__gd).dirs().contains(path.p())
//@@ end
//@@ fn path=butane_core/src/migrations/fs.rs name=write impl="Filesystem for OsFilesystem"
//@@ hint File::create(path) => res
//@@ subst File :: create( => std_create(__gd, 
//@@ subst Box :: new(f) as Box < dyn Write > => f
//@@ sig
//@ pub fn write(&self, __gd: &mut Disk, path: &PathBuf) -> (r: IoResult<Writer>)
//@@ spec
//@   ensures r is Ok ==> r->Ok_0.at@ == path.p() && final(__gd).files() == verus_builtin::old(__gd).files().insert(path.p(), Seq::<u8>::empty()), only(verus_builtin::old(__gd).files(), final(__gd).files(), path.p(), path.p(), path.p()), final(__gd).dirs() == verus_builtin::old(__gd).dirs(), same_locks(*verus_builtin::old(__gd), *final(__gd))
//@@ end
//@@ fn path=butane_core/src/migrations/fs.rs name=read impl="Filesystem for OsFilesystem"
//@@ hint File::open(path) => res
//@@ subst File :: open( => std_open(__gd, 
//@@ subst Box :: new(f) as Box < dyn Read > => f
//@@ sig
//@ pub fn read(&self, __gd: &Disk, path: &PathBuf) -> (r: IoResult<Reader>)
//@@ spec
//@   ensures r is Ok ==> __gd.files().dom().contains(path.p()) && r->Ok_0.content@ == __gd.files()[path.p()], r is Err && r->Err_0.k is NotFound ==> !__gd.files().dom().contains(path.p())
//@@ end
//@@ fn path=butane_core/src/migrations/fs.rs name=delete impl="Filesystem for OsFilesystem"
//@@ subst remove_file( => std_remove_file(__gd, 
//@@ sig
//@ pub fn delete(&self, __gd: &mut Disk, path: &PathBuf) -> (r: IoResult<()>)
//@@ spec
//@   ensures r is Ok ==> final(__gd).files() == verus_builtin::old(__gd).files().remove(path.p()), only(verus_builtin::old(__gd).files(), final(__gd).files(), path.p(), path.p(), path.p()), final(__gd).dirs() == verus_builtin::old(__gd).dirs(), same_locks(*verus_builtin::old(__gd), *final(__gd))
//@@ end
//@@ fn path=butane_core/src/migrations/fs.rs name=list_dir impl="Filesystem for OsFilesystem"
//@@ hint entry => res
//@@ hint read_dir(path)? => iter
//@@ hint collect_res 1 => true
//@@ subst read_dir( => read_dir(__gd, 
//@@ sig
//@ pub fn list_dir(&self, __gd: &Disk, path: &PathBuf) -> (r: IoResult<Vec<PathBuf>>)
//@@ loop 1
//@   __err1 is None ==> listed_sofar($acc@, $all, $pos), all_read($all, *__gd, path.p())
//@@ loop_after 1
//@   proof { if __err1 is None { listed_all($acc@, $all, *__gd, path.p()); } }
//@@ spec
//@   ensures r is Ok ==> entries(r->Ok_0@, *__gd, path.p())
//@@ end
}
} // verus!
fn main() {}
