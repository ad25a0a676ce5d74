pub open spec fn hp_ok(x: Parser) -> bool { x.index_range.lo == -9007199254740991 && x.index_range.hi == 9007199254740991 }
pub open spec fn v_es(s: Seq<FilterExpression>) -> Seq<SE> { Seq::new(s.len(), |i: int| if 0 <= i < s.len() { v_e(s[i]) } else { SE::Null }) }
pub open spec fn v_segs(s: Seq<Segment>) -> Seq<SSeg> { Seq::new(s.len(), |i: int| if 0 <= i < s.len() { v_seg(s[i]) } else { SSeg::Eoi }) }
/// std's Peekable over the tokens of a vector
pub struct VxPeekable<T> { pub v: Ghost<Seq<T>>, pub i: Option<T> }
impl<T> VxPeekable<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures r == (if old(self).v@.len() == 0 { None::<T> } else { Some(old(self).v@[0]) }), final(self).v@ == (if old(self).v@.len() == 0 { old(self).v@ } else { old(self).v@.skip(1) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&T>)
        ensures match r { None => old(self).v@.len() == 0, Some(t) => old(self).v@.len() > 0 && *t == old(self).v@[0] }, final(self).v@ == old(self).v@
    { unimplemented!() }
}
impl<T> VIter<T> { #[verifier::external_body] pub fn peekable(self) -> (r: VxPeekable<T>) ensures r.v@ == self.v@ { unimplemented!() } }
impl Clone for Token { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// derive(PartialEq): the kinds are the same and so are their texts
pub open spec fn same_kind(a: TokenType, b: TokenType) -> bool {
    match b {
        TokenType::Colon => a is Colon, TokenType::RBracket => a is RBracket, TokenType::LParen => a is LParen, TokenType::RParen => a is RParen, TokenType::Not => a is Not,
        TokenType::Comma => a is Comma, TokenType::LBracket => a is LBracket, TokenType::Eoq => a is Eoq, TokenType::Filter => a is Filter, TokenType::Wild => a is Wild, TokenType::Root => a is Root, TokenType::Current => a is Current,
        _ => kind_same(a, b),
    }
}
pub uninterp spec fn kind_same(a: TokenType, b: TokenType) -> bool;
impl PartialEq for TokenType { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for TokenType {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { same_kind(*self, *o) }
}
pub uninterp spec fn kind_disp(k: TokenType) -> Seq<char>;
impl VxDisp for TokenType { open spec fn vx_disp(&self) -> Seq<char> { kind_disp(*self) } #[verifier::external_body] fn vx_show(&self) -> (r: String) { unimplemented!() } }

/// str::starts_with, with a character or a text
pub trait VxPrefix { spec fn vx_begins(&self, s: Seq<char>) -> bool; }
impl VxPrefix for char { open spec fn vx_begins(&self, s: Seq<char>) -> bool { s.len() > 0 && s[0] == *self } }
impl VxPrefix for &str { open spec fn vx_begins(&self, s: Seq<char>) -> bool { self@.len() <= s.len() && s.take(self@.len() as int) =~= self@ } }
pub trait VxStarts { spec fn vx_st(&self) -> Seq<char>; fn vx_starts_with<P: VxPrefix>(&self, p: P) -> (r: bool) ensures r == p.vx_begins(self.vx_st()); }
impl VxStarts for str { open spec fn vx_st(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_starts_with<P: VxPrefix>(&self, p: P) -> (r: bool) { unimplemented!() } }
/// str::len counts bytes
pub trait VxStrLen { fn vx_len(&self) -> (r: usize); }
impl VxStrLen for str { #[verifier::external_body] fn vx_len(&self) -> (r: usize) ensures r == encode_utf8(self@).len() { self.len() } }
