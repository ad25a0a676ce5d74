// ---- strings: building, formatting, characters ----
pub trait VxDisp { spec fn vx_disp(&self) -> Seq<char>; fn vx_show(&self) -> (r: String) ensures r@ == self.vx_disp(); }
impl VxDisp for String { open spec fn vx_disp(&self) -> Seq<char> { self@ } fn vx_show(&self) -> (r: String) { self.vx_to_owned() } }
impl VxDisp for str { open spec fn vx_disp(&self) -> Seq<char> { self@ } fn vx_show(&self) -> (r: String) { self.vx_to_owned() } }
impl VxDisp for char { open spec fn vx_disp(&self) -> Seq<char> { seq![*self] } fn vx_show(&self) -> (r: String) { let mut s = String::new(); s.push(*self); proof { assert(s@ =~= seq![*self]); } s } }
impl<T: VxDisp + ?Sized> VxDisp for &T { open spec fn vx_disp(&self) -> Seq<char> { (**self).vx_disp() } fn vx_show(&self) -> (r: String) { (**self).vx_show() } }
pub struct VxS { pub s: String }
impl VxS {
    pub fn new() -> (r: Self) ensures r.s@ == Seq::<char>::empty() { VxS { s: String::new() } }
    pub fn lit(self, t: &str) -> (r: Self) ensures r.s@ == self.s@ + t@ { let mut me = self; me.s.push_str(t); me }
    pub fn arg<T: VxDisp>(self, t: &T) -> (r: Self) ensures r.s@ == self.s@ + t.vx_disp() { let mut me = self; let x = t.vx_show(); me.s.push_str(x.as_str()); me }
    pub fn done(self) -> (r: String) ensures r@ == self.s@ { self.s }
}
pub trait VxText { spec fn vx_x(&self) -> Seq<char>;
    fn vx_chars(&self) -> (r: VIter<char>) ensures r.v@ == self.vx_x();
    fn vx_to_string(&self) -> (r: String) ensures r@ == self.vx_x(); }
impl VxText for str { open spec fn vx_x(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_chars(&self) -> (r: VIter<char>) { VIter { v: self.chars().collect() } }
    fn vx_to_string(&self) -> (r: String) { self.vx_to_owned() } }
impl VxText for String { open spec fn vx_x(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_chars(&self) -> (r: VIter<char>) { VIter { v: self.chars().collect() } }
    fn vx_to_string(&self) -> (r: String) { self.vx_to_owned() } }
pub trait VxPush { spec fn vx_p(&self) -> Seq<char>; fn vx_push_str(&mut self, s: &str) ensures final(self).vx_p() == old(self).vx_p() + s@; }
impl VxPush for String { open spec fn vx_p(&self) -> Seq<char> { self@ } fn vx_push_str(&mut self, s: &str) { self.push_str(s); } }
pub proof fn lemma_names()
    ensures "count"@ != "length"@, "count"@ != "match"@, "count"@ != "search"@, "count"@ != "value"@, "length"@ != "match"@, "length"@ != "search"@, "length"@ != "value"@,
        "match"@ != "search"@, "match"@ != "value"@, "search"@ != "value"@,
{
    reveal_strlit("count"); reveal_strlit("length"); reveal_strlit("match"); reveal_strlit("search"); reveal_strlit("value");
    assert("count"@[0] != "length"@[0]); assert("count"@[0] != "match"@[0]); assert("count"@[0] != "search"@[0]); assert("count"@[0] != "value"@[0]);
    assert("length"@[0] != "match"@[0]); assert("length"@[0] != "search"@[0]); assert("length"@[0] != "value"@[0]);
    assert("match"@[0] != "search"@[0]); assert("match"@[0] != "value"@[0]); assert("search"@[0] != "value"@[0]);
}

// ---- numbers as text ----
pub open spec fn dec_digit(d: int) -> char { if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' } else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' } }
/// decimal digits, no leading zeros
pub open spec fn dec(n: int) -> Seq<char> decreases n { if n < 10 { seq![dec_digit(n)] } else { dec(n / 10).push(dec_digit(n % 10)) } }
pub open spec fn dec_int(n: int) -> Seq<char> { if n < 0 { seq!['-'] + dec(-n) } else { dec(n) } }
impl VxDisp for usize { open spec fn vx_disp(&self) -> Seq<char> { dec_int(*self as int) } #[verifier::external_body] fn vx_show(&self) -> (r: String) { self.to_string() } }
impl VxDisp for i64 { open spec fn vx_disp(&self) -> Seq<char> { dec_int(*self as int) } #[verifier::external_body] fn vx_show(&self) -> (r: String) { self.to_string() } }
pub open spec fn hex_digit(d: int) -> char { if d < 10 { dec_digit(d) } else if d == 10 { 'a' } else if d == 11 { 'b' } else if d == 12 { 'c' } else if d == 13 { 'd' } else if d == 14 { 'e' } else { 'f' } }
pub open spec fn hex4(n: int) -> Seq<char> { seq![hex_digit(n / 4096 % 16), hex_digit(n / 256 % 16), hex_digit(n / 16 % 16), hex_digit(n % 16)] }
impl VxS {
    #[verifier::external_body] pub fn arg_04x(self, t: &u32) -> (r: Self) ensures *t < 0x10000 ==> r.s@ == self.s@ + hex4(*t as int) { unimplemented!() }
}
// ---- RFC 9535 section 2.7: normalized paths ----
/// one character of a name in a normalized path
pub open spec fn quoted_char(c: char) -> Seq<char> {
    if c == '\'' { "\\'"@ } else if c == '\\' { "\\\\"@ } else if c == '\u{08}' { "\\b"@ } else if c == '\u{0c}' { "\\f"@ } else if c == '\n' { "\\n"@ }
    else if c == '\r' { "\\r"@ } else if c == '\t' { "\\t"@ } else if (c as u32) < 0x20 { "\\u"@ + hex4(c as u32 as int) } else { seq![c] }
}
pub open spec fn quoted_to(s: Seq<char>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { quoted_to(s, n - 1) + quoted_char(s[n - 1]) } }
pub open spec fn quoted(s: Seq<char>) -> Seq<char> { "'"@ + quoted_to(s, s.len() as int) + seq!['\''] }
pub open spec fn step_idx(i: int) -> Seq<char> { "["@ + dec_int(i) + "]"@ }
pub open spec fn step_key(k: Seq<char>) -> Seq<char> { "["@ + quoted(k) + "]"@ }
pub trait VxExtend<T> { spec fn vx_e(&self) -> Seq<T>; fn vx_extend<S: VxSeq<Item = T>>(&mut self, s: S) ensures final(self).vx_e() == old(self).vx_e() + s.vx_seq(); }
impl<T> VxExtend<T> for Vec<T> { open spec fn vx_e(&self) -> Seq<T> { self@ }
    fn vx_extend<S: VxSeq<Item = T>>(&mut self, s: S) { let mut v = s.vx_vec(); self.append(&mut v); } }
pub fn vx_once<T>(x: T) -> (r: VIter<T>) ensures r.v@ == seq![x] { let mut v = Vec::new(); v.push(x); proof { assert(v@ =~= seq![x]); } VIter { v } }
impl<T> VIter<T> {
    pub fn chain<S: VxSeq<Item = T>>(self, o: S) -> (r: VIter<T>) ensures r.v@ == self.v@ + o.vx_seq() { let mut v = self.v; let mut w = o.vx_vec(); v.append(&mut w); VIter { v } }
    #[verifier::external_body]
    pub fn vx_rev(self) -> (r: VIter<T>) ensures r.v@ == self.v@.reverse() { let mut v = self.v; v.reverse(); VIter { v } }
}
/// a deque holds the items in order
pub fn vx_deque<T>(s: VIter<T>) -> (r: VIter<T>) ensures r == s { s }
pub open spec fn texts(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
/// the texts with sep between them
pub open spec fn joined(s: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { joined(s.drop_last(), sep) + sep + s.last() }
}
pub trait VxJoin { spec fn vx_j(&self) -> Seq<String>; fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == joined(texts(self.vx_j()), sep@); }
impl VxJoin for Vec<String> { open spec fn vx_j(&self) -> Seq<String> { self@ } #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { self.join(sep) } }
pub proof fn lemma_joined_flat(s: Seq<Seq<char>>)
    ensures joined(s, ""@) =~= flat(s),
    decreases s.len()
{ reveal_strlit(""); if s.len() == 1 { assert(s =~= seq![s[0]]); lemma_flat_one(s[0]); } else if s.len() > 1 { lemma_joined_flat(s.drop_last()); } }
