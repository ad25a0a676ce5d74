// ---- pest: a parse tree. What the tree of a text looks like is the grammar's business (see gram.rs) ----
pub struct Pair<'i, R> { pub rule: R, pub text: &'i str, pub inner: Vec<Pair<'i, R>> }
impl<'i, R: Copy> Pair<'i, R> {
    pub fn as_rule(&self) -> (r: R) ensures r == self.rule { self.rule }
    pub fn as_str(&self) -> (r: &'i str) ensures r@ == self.text@ { self.text }
    pub fn into_inner(self) -> (r: VIter<Pair<'i, R>>) ensures r.v@ == self.inner@ { VIter { v: self.inner } }
}
pub struct VxPestError {}
impl VxText for VxPestError { uninterp spec fn vx_x(&self) -> Seq<char>;
    #[verifier::external_body] fn vx_chars(&self) -> (r: VIter<char>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
pub struct JSONPath {}
/// whether the grammar accepts the text, and the top of its tree
pub uninterp spec fn grammatical(t: Seq<char>) -> bool;
pub uninterp spec fn tree(t: Seq<char>) -> Seq<Pair<'static, Rule>>;
impl JSONPath {
    #[verifier::external_body]
    pub fn parse<'i>(rule: Rule, t: &'i str) -> (r: Result<VIter<Pair<'i, Rule>>, VxPestError>)
        requires rule == Rule::jsonpath
        ensures r is Ok == grammatical(t@), r is Ok ==> r->Ok_0.v@ == tree(t@) && g_top(tree(t@))
    { unimplemented!() }
}
