// ---- regular expressions, the pattern cache and its lock ----
pub struct Count; pub struct Length; pub struct VxValueFn;
pub struct Regex { pub p: Ghost<Seq<char>> }
pub struct VxReError { x: u8 }
impl Regex {
    #[verifier::external_body] pub fn new(p: &str) -> (r: Result<Regex, VxReError>) ensures r is Ok <==> re_compiles(p@), r is Ok ==> r->Ok_0.p@ == p@ { unimplemented!() }
    #[verifier::external_body] pub fn is_match(&self, s: &str) -> (r: bool) ensures r == re_is_match(self.p@, s@) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_iregexp_check(p: &str) -> (r: bool) ensures r == iregexp_ok(p@) { unimplemented!() }
/// the lock invariant: what may be in the cache.  full: the pattern is anchored at both ends
pub open spec fn entry_ok(full: bool, k: Seq<char>, re: Regex) -> bool { iregexp_ok(k) && re_compiles(re.p@) && re.p@ == if full { full_pat(k) } else { map_pat(k) } }
/// the lock and the least-recently-used map behind it, known only by the lock invariant:
/// any other holder of the lock may have put in anything the invariant allows
pub struct VxCacheMutex { pub full: Ghost<bool> }
pub struct VxCache { pub full: Ghost<bool> }
#[derive(Debug)]
pub struct VxPoison { x: u8 }
impl VxCacheMutex {
    #[verifier::external_body] pub fn lock(&self) -> (r: Result<VxCache, VxPoison>) ensures r is Ok, r->Ok_0.full == self.full { unimplemented!() }
}
impl VxCache {
    #[verifier::external_body] pub fn get(&self, k: &String) -> (r: Option<&Regex>) ensures r is Some ==> entry_ok(self.full@, k@, *r.unwrap()) { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, k: String, re: Regex) -> (r: Option<(String, Regex)>) requires entry_ok(old(self).full@, k@, re) ensures final(self).full == old(self).full { unimplemented!() }
    #[verifier::external_body] pub fn put(&mut self, k: String, re: Regex) -> (r: Option<Regex>) requires entry_ok(old(self).full@, k@, re) ensures final(self).full == old(self).full { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, k: &String) -> (r: bool) { unimplemented!() }
}
pub struct VxEmptyCache { x: u8 }
#[verifier::external_body] pub fn vx_lru_new(n: VxNonZero) -> (r: VxEmptyCache) { unimplemented!() }
/// the invariant of a lock is fixed when it is made; an empty cache satisfies both
#[verifier::external_body] pub fn vx_mutex_full(c: VxEmptyCache) -> (r: VxCacheMutex) ensures r.full@ { unimplemented!() }
#[verifier::external_body] pub fn vx_mutex_part(c: VxEmptyCache) -> (r: VxCacheMutex) ensures !r.full@ { unimplemented!() }
pub struct VxNonZero { x: u8 }
#[verifier::external_body] pub fn vx_nonzero(n: usize) -> (r: Option<VxNonZero>) ensures r is Some <==> n != 0 { unimplemented!() }
