// ---- the parser's dependencies: std's HashMap and str::parse ----
/// std's HashMap, as far as the parser needs it: the signatures known, by name
pub struct HashMap<K, V> { pub m: Ghost<SSigs>, pub k: Option<K>, pub v: Option<V> }
pub type RangeInclusive<T> = VxRangeInc<T>;
impl HashMap<String, FunctionSignature> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m@ == vstd::map::Map::<Seq<char>, SSig>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<K: VxStr + ?Sized>(&self, k: &K) -> (r: Option<&FunctionSignature>)
        ensures r is Some == self.m@.contains_key(k.vx_s()), r is Some ==> sig_view(*r.unwrap()) == self.m@[k.vx_s()]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, s: FunctionSignature) ensures final(self).m@ == old(self).m@.insert(k@, sig_view(s)) { unimplemented!() }
}
// ---- str::parse ----
pub trait VxParse { spec fn vx_pt(&self) -> Seq<char>; fn vx_parse<T: VxParsed>(&self) -> (r: Result<T, VxParseErr>) ensures T::vx_parses(self.vx_pt(), r); }
#[derive(Debug)]
pub struct VxParseErr {}
pub trait VxParsed: Sized { spec fn vx_parses(s: Seq<char>, r: Result<Self, VxParseErr>) -> bool; }
impl VxParse for str { open spec fn vx_pt(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_parse<T: VxParsed>(&self) -> (r: Result<T, VxParseErr>) { unimplemented!() } }
/// str::parse::<i64>: a sign and digits of a value in range; nothing else
pub open spec fn i64_text(s: Seq<char>) -> bool { (s.len() > 0 && digits(s)) || (s.len() > 1 && s[0] == '-' && digits(s.skip(1))) }
impl VxParsed for i64 { open spec fn vx_parses(s: Seq<char>, r: Result<i64, VxParseErr>) -> bool {
    &&& i64_text(s) ==> r is Ok == (i64::MIN <= int_val(s) <= i64::MAX)
    &&& !i64_text(s) && (s.len() == 0 || s[0] != '+') ==> r is Err
    &&& r is Ok && i64_text(s) ==> r->Ok_0 == int_val(s)
} }
