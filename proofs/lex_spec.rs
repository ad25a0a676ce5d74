pub mod vx_cix { use super::*; use vstd::prelude::*;
// ---- positions: byte offsets in UTF-8 ----
pub open spec fn clen(c: char) -> int { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
/// the byte offset of the i-th character
pub open spec fn boff(s: Seq<char>, i: int) -> int decreases i { if i <= 0 { 0 } else { boff(s, i - 1) + clen(s[i - 1]) } }
pub proof fn lemma_boff(s: Seq<char>, i: int, j: int) requires 0 <= i <= j ensures boff(s, i) + (j - i) <= boff(s, j) decreases j - i { if i < j { lemma_boff(s, i, j - 1); } }
/// b is the offset of the i-th character (or of the end)
pub open spec fn at(s: Seq<char>, b: int, i: int) -> bool { 0 <= i <= s.len() && boff(s, i) == b }
pub open spec fn cix(s: Seq<char>, b: int) -> int { choose|i: int| at(s, b, i) }
pub open spec fn bound(s: Seq<char>, b: int) -> bool { at(s, b, cix(s, b)) }
pub proof fn lemma_at(s: Seq<char>, b: int, i: int) requires at(s, b, i) ensures cix(s, b) == i, bound(s, b) {
    let j = cix(s, b);
    assert(at(s, b, j));
    if i < j { lemma_boff(s, i, j); } else if j < i { lemma_boff(s, j, i); }
}
pub broadcast proof fn lemma_cix(s: Seq<char>, i: int) requires 0 <= i <= s.len() ensures #[trigger] cix(s, boff(s, i)) == i, bound(s, boff(s, i)) { lemma_at(s, boff(s, i), i); }
}
pub use vx_cix::*;
pub open spec fn span_text(s: Seq<char>, a: int, b: int) -> Seq<char> { s.subrange(cix(s, a), cix(s, b)) }
// ---- what a token may be ----
pub open spec fn name_first(c: char) -> bool { ('A' <= c && c <= 'Z') || c == '_' || ('a' <= c && c <= 'z') || c as u32 >= 0x80 }
pub open spec fn name_char(c: char) -> bool { name_first(c) || is_dig(c) }
pub open spec fn fname_first(c: char) -> bool { 'a' <= c && c <= 'z' }
pub open spec fn fname_char(c: char) -> bool { fname_first(c) || c == '_' || is_dig(c) }
pub open spec fn name_text(t: Seq<char>) -> bool { t.len() > 0 && name_first(t[0]) && forall|i: int| 1 <= i < t.len() ==> name_char(#[trigger] t[i]) }
pub open spec fn fname_text(t: Seq<char>) -> bool { t.len() > 0 && fname_first(t[0]) && forall|i: int| 1 <= i < t.len() ==> fname_char(#[trigger] t[i]) }
pub open spec fn blank(c: char) -> bool { c == ' ' || c == '\n' || c == '\r' || c == '\t' }
/// digits, perhaps after a minus sign
pub open spec fn index_text(t: Seq<char>) -> bool { (t.len() > 0 && digits(t)) || (t.len() > 1 && t[0] == '-' && digits(t.skip(1))) }
pub open spec fn esc_char(c: char) -> bool { c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't' || c == 'u' || c == '/' || c == '\\' }
/// the inside of a string literal in quotes q, from i on: no quote and no end of text but after a backslash, and only escapes
pub open spec fn str_from(t: Seq<char>, q: char, i: int) -> bool decreases t.len() - i {
    if i < 0 || i > t.len() { false }
    else if i == t.len() { true }
    else if t[i] == '\\' { i + 1 < t.len() && (esc_char(t[i + 1]) || t[i + 1] == q) && str_from(t, q, i + 2) }
    else { t[i] != q && t[i] != '\0' && str_from(t, q, i + 1) }
}
pub open spec fn kind_ok(k: TokenType, t: Seq<char>) -> bool {
    match k {
        TokenType::Eoq => t =~= Seq::empty(),
        TokenType::Error { .. } => true,
        TokenType::Colon => t =~= seq![':'],
        TokenType::Comma => t =~= seq![','],
        TokenType::DoubleDot => t =~= seq!['.', '.'],
        TokenType::Filter => t =~= seq!['?'],
        TokenType::Index { value } => value@ =~= t && index_text(t),
        TokenType::LBracket => t =~= seq!['['],
        TokenType::Name { value } => value@ =~= t && name_text(t),
        TokenType::RBracket => t =~= seq![']'],
        TokenType::Root => t =~= seq!['$'],
        TokenType::Wild => t =~= seq!['*'],
        TokenType::And => t =~= seq!['&', '&'],
        TokenType::Current => t =~= seq!['@'],
        TokenType::DoubleQuoteString { value } => value@ =~= t && str_from(t, '"', 0),
        TokenType::Eq => t =~= seq!['=', '='],
        TokenType::False => t =~= "false"@,
        TokenType::Float { value } => value@ =~= t && num_text(t) && num_broken(t),
        TokenType::Function { name } => name@ =~= t && fname_text(t),
        TokenType::Ge => t =~= seq!['>', '='],
        TokenType::Gt => t =~= seq!['>'],
        TokenType::Int { value } => value@ =~= t && num_text(t) && !num_broken(t),
        TokenType::Le => t =~= seq!['<', '='],
        TokenType::LParen => t =~= seq!['('],
        TokenType::Lt => t =~= seq!['<'],
        TokenType::Ne => t =~= seq!['!', '='],
        TokenType::Not => t =~= seq!['!'],
        TokenType::Null => t =~= "null"@,
        TokenType::Or => t =~= seq!['|', '|'],
        TokenType::RParen => t =~= seq![')'],
        TokenType::SingleQuoteString { value } => value@ =~= t && str_from(t, '\'', 0),
        TokenType::True => t =~= "true"@,
    }
}
// ---- P13 ----
/// what may lie between tokens: blanks, the dot before a name or wildcard, quotes, and the parenthesis after a function name
pub open spec fn gap_char(c: char) -> bool { blank(c) || c == '.' || c == '\'' || c == '"' || c == '(' }
pub open spec fn gap(s: Seq<char>, a: int, b: int) -> bool { a <= b && forall|i: int| a <= i < b ==> gap_char(#[trigger] s[i]) }
pub open spec fn tok_ok(t: Token, s: Seq<char>) -> bool {
    bound(s, t.span.0 as int) && bound(s, t.span.1 as int) && t.span.0 <= t.span.1 && kind_ok(t.kind, span_text(s, t.span.0 as int, t.span.1 as int))
}
/// where the text of the first k tokens ends
pub open spec fn tok_end(t: Seq<Token>, k: int) -> int { if k <= 0 { 0 } else { t[k - 1].span.1 as int } }
pub open spec fn toks_ok(t: Seq<Token>, s: Seq<char>) -> bool {
    forall|k: int| 0 <= k < t.len() ==> tok_ok(#[trigger] t[k], s) && tok_end(t, k) <= t[k].span.0 && gap(s, cix(s, tok_end(t, k)), cix(s, t[k].span.0 as int))
}
pub open spec fn last_kind(k: TokenType) -> bool { k is Eoq || k is Error }
/// no end in sight
pub open spec fn open_toks(t: Seq<Token>) -> bool { forall|k: int| 0 <= k < t.len() ==> !last_kind((#[trigger] t[k]).kind) }
/// exactly one end-of-input or error token, at the end
pub open spec fn closed_toks(t: Seq<Token>) -> bool { t.len() > 0 && open_toks(t.drop_last()) && last_kind(t.last().kind) }
// ---- the lexer ----
pub struct CharIndices<'q> { pub q: &'q str, pub i: Ghost<int> }
impl<'q> CharIndices<'q> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, char)>)
        requires 0 <= old(self).i@ <= old(self).q@.len(),
        ensures final(self).q == old(self).q,
            old(self).i@ == old(self).q@.len() ==> r is None && final(self).i@ == old(self).i@,
            old(self).i@ < old(self).q@.len() ==> final(self).i@ == old(self).i@ + 1 && r is Some && r.unwrap().0 == boff(old(self).q@, old(self).i@) && r.unwrap().1 == old(self).q@[old(self).i@],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'q str) ensures r@ == self.q@.skip(self.i@) { unimplemented!() }
}
/// only at the end of the text does the end-of-input token stand
pub open spec fn ends(t: Seq<Token>, s: Seq<char>) -> bool { t.len() > 0 && (t.last().kind is Eoq ==> t.last().span.0 == boff(s, s.len() as int) && t.last().span.1 == boff(s, s.len() as int)) }
