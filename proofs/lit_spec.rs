// ---- RFC 9535 section 2.3.1: what the text between the quotes of a string literal denotes ----
pub open spec fn hexdig(c: char) -> int {
    if '0' <= c && c <= '9' { c as int - '0' as int } else if 'a' <= c && c <= 'f' { c as int - 'a' as int + 10 } else if 'A' <= c && c <= 'F' { c as int - 'A' as int + 10 } else { -1 }
}
pub open spec fn is_hex4(s: Seq<char>, i: int) -> bool { 0 <= i && i + 4 <= s.len() && hexdig(s[i]) >= 0 && hexdig(s[i + 1]) >= 0 && hexdig(s[i + 2]) >= 0 && hexdig(s[i + 3]) >= 0 }
pub open spec fn hex4_at(s: Seq<char>, i: int) -> int { hexdig(s[i]) * 4096 + hexdig(s[i + 1]) * 256 + hexdig(s[i + 2]) * 16 + hexdig(s[i + 3]) }
pub open spec fn is_high(h: int) -> bool { 0xD800 <= h <= 0xDBFF }
pub open spec fn is_low(h: int) -> bool { 0xDC00 <= h <= 0xDFFF }
/// the unit at i: the scalar value it denotes and where the next unit starts; None if there is no valid unit
pub open spec fn unit_at(s: Seq<char>, i: int) -> Option<(int, int)> {
    let c = s[i];
    if c != '\\' { if c as int <= 0x1F { None } else { Some((c as int, i + 1)) } }
    else if i + 1 >= s.len() { None }
    else {
        let e = s[i + 1];
        if e == '"' { Some((0x22, i + 2)) } else if e == '\\' { Some((0x5C, i + 2)) } else if e == '/' { Some((0x2F, i + 2)) }
        else if e == 'b' { Some((0x08, i + 2)) } else if e == 'f' { Some((0x0C, i + 2)) } else if e == 'n' { Some((0x0A, i + 2)) }
        else if e == 'r' { Some((0x0D, i + 2)) } else if e == 't' { Some((0x09, i + 2)) }
        else if e == 'u' && is_hex4(s, i + 2) {
            let h = hex4_at(s, i + 2);
            if is_low(h) { None }
            else if !is_high(h) { Some((h, i + 6)) }
            else if i + 7 < s.len() && s[i + 6] == '\\' && s[i + 7] == 'u' && is_hex4(s, i + 8) && is_low(hex4_at(s, i + 8)) {
                Some((0x10000 + (h - 0xD800) * 0x400 + (hex4_at(s, i + 8) - 0xDC00), i + 12))
            } else { None }
        } else { None }
    }
}
/// the scalar values the text from i on denotes
pub open spec fn den(s: Seq<char>, i: int) -> Option<Seq<int>> decreases s.len() - i {
    if i < 0 || i >= s.len() { Some(Seq::empty()) }
    else {
        match unit_at(s, i) {
            None => None,
            Some(u) => if u.1 <= i { None } else { match den(s, u.1) { None => None, Some(d) => Some(seq![u.0] + d) } },
        }
    }
}
// ---- single-quoted text: \' is the quote, \" is no escape, a quote of its own does not occur ----
pub open spec fn sunit_at(s: Seq<char>, i: int) -> Option<(int, int)> {
    if s[i] == '\'' { None }
    else if s[i] == '\\' && i + 1 < s.len() && s[i + 1] == '\'' { Some((0x27, i + 2)) }
    else if s[i] == '\\' && i + 1 < s.len() && s[i + 1] == '"' { None }
    else { unit_at(s, i) }
}
pub open spec fn sden(s: Seq<char>, i: int) -> Option<Seq<int>> decreases s.len() - i {
    if i < 0 || i >= s.len() { Some(Seq::empty()) }
    else {
        match sunit_at(s, i) {
            None => None,
            Some(u) => if u.1 <= i { None } else { match sden(s, u.1) { None => None, Some(d) => Some(seq![u.0] + d) } },
        }
    }
}
/// a \uXXXX escape of a control character
pub open spec fn ctrl_at(s: Seq<char>, i: int) -> bool { s[i] == '\\' && i + 1 < s.len() && s[i + 1] == 'u' && is_hex4(s, i + 2) && hex4_at(s, i + 2) <= 0x1F }
pub open spec fn has_ctrl(s: Seq<char>, i: int) -> bool decreases s.len() - i {
    if i < 0 || i >= s.len() { false } else { match unit_at(s, i) { None => false, Some(u) => if u.1 <= i { false } else { ctrl_at(s, i) || has_ctrl(s, u.1) } } }
}
pub open spec fn scalars(s: Seq<char>) -> Seq<int> { s.map_values(|c: char| c as int) }
/// what was decoded so far, followed by what is left
pub open spec fn with_rest(done: Seq<int>, left: Option<Seq<int>>) -> Option<Seq<int>> { match left { None => None, Some(d) => Some(done + d) } }
pub proof fn lemma_scalars_push(s: Seq<char>, c: char) ensures scalars(s.push(c)) =~= scalars(s).push(c as int) {}
pub proof fn lemma_with_rest(done: Seq<int>, x: int, left: Option<Seq<int>>)
    ensures with_rest(done.push(x), left) == with_rest(done, match left { None => None, Some(d) => Some(seq![x] + d) }),
{ match left { Some(d) => { assert(done.push(x) + d =~= done + (seq![x] + d)); } None => {} } }
pub proof fn lemma_pair(h: u32, l: u32)
    requires 0xD800 <= h <= 0xDBFF, 0xDC00 <= l <= 0xDFFF,
    ensures ((h & 0x03FF) << 10) | (l & 0x03FF) == (h - 0xD800) * 0x400 + (l - 0xDC00), (((h & 0x03FF) << 10) | (l & 0x03FF)) <= 0xFFFFF,
{
    assert(((h & 0x03FF) << 10) | (l & 0x03FF) == sub(h, 0xD800) * 0x400 + sub(l, 0xDC00)) by (bit_vector) requires 0xD800 <= h <= 0xDBFF, 0xDC00 <= l <= 0xDFFF;
}
pub open spec fn all_hex(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> hexdig(#[trigger] s[i]) >= 0 }
/// the value of hexadecimal digits
pub open spec fn hex_val(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { hex_val(s.drop_last()) * 16 + hexdig(s.last()) } }
pub proof fn lemma_hex4(s: Seq<char>, i: int)
    requires 0 <= i, i + 4 <= s.len(),
    ensures is_hex4(s, i) == all_hex(s.subrange(i, i + 4)), is_hex4(s, i) ==> hex_val(s.subrange(i, i + 4)) == hex4_at(s, i) && 0 <= hex4_at(s, i) <= 0xFFFF,
{
    let t = s.subrange(i, i + 4);
    assert(t[0] == s[i] && t[1] == s[i + 1] && t[2] == s[i + 2] && t[3] == s[i + 3]);
    if is_hex4(s, i) { assert forall|k: int| 0 <= k < t.len() implies hexdig(#[trigger] t[k]) >= 0 by { if k == 0 {} else if k == 1 {} else if k == 2 {} else {} } }
    assert(t.drop_last().last() == t[2]); assert(t.drop_last().drop_last().last() == t[1]); assert(t.drop_last().drop_last().drop_last().last() == t[0]);
    assert(t.last() == t[3]);
    reveal_with_fuel(hex_val, 5);
}
// ---- std: numbers from text, scalar values ----
#[derive(Debug)]
pub struct VxParseIntError {}
/// the text is digits of the radix with an optional sign and the value fits
#[verifier::external_body]
pub fn vx_u32_radix(s: &str, radix: u32) -> (r: Result<u32, VxParseIntError>)
    ensures radix == 16 && all_hex(s@) && 0 < s@.len() <= 8 ==> r == Ok::<u32, VxParseIntError>(hex_val(s@) as u32),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_char_from_u32(n: u32) -> (r: Option<char>)
    ensures match r { Some(c) => c as u32 == n, None => true }, r is Some == (n <= 0x10FFFF && !(0xD800 <= n <= 0xDFFF)),
{ char::from_u32(n) }
pub trait VxRes0<T> { fn vx_ok(self) -> (r: Option<T>); }
impl<T, E> VxRes0<T> for Result<T, E> { fn vx_ok(self) -> (r: Option<T>) ensures r == (match self { Ok(x) => Some(x), Err(_) => None }) { match self { Ok(x) => Some(x), Err(_) => None } } }
pub trait VxCh { fn vx_is_ascii_hexdigit(&self) -> bool; fn vx_is_ascii_digit(&self) -> bool; }
impl VxCh for char {
    fn vx_is_ascii_hexdigit(&self) -> (r: bool) ensures r == (hexdig(*self) >= 0) { let c = *self; ('0' <= c && c <= '9') || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') }
    fn vx_is_ascii_digit(&self) -> (r: bool) ensures r == ('0' <= *self <= '9') { let c = *self; '0' <= c && c <= '9' }
}
pub struct VxRangeInc<T> { pub lo: T, pub hi: T }
pub fn vx_rangeinc<T>(lo: T, hi: T) -> (r: VxRangeInc<T>) ensures r.lo == lo, r.hi == hi { VxRangeInc { lo, hi } }
impl<T: VxOrd2> VxRangeInc<T> { pub fn vx_contains(&self, x: &T) -> (r: bool) ensures r == (self.lo.vx_i2() <= x.vx_i2() <= self.hi.vx_i2()) { self.lo.vx_le2(x) && x.vx_le2(&self.hi) } }
pub trait VxOrd2: Sized { spec fn vx_i2(&self) -> int; fn vx_le2(&self, o: &Self) -> (r: bool) ensures r == (self.vx_i2() <= o.vx_i2()); }
impl VxOrd2 for u32 { open spec fn vx_i2(&self) -> int { *self as int } fn vx_le2(&self, o: &Self) -> (r: bool) { *self <= *o } }
impl VxOrd2 for i64 { open spec fn vx_i2(&self) -> int { *self as int } fn vx_le2(&self, o: &Self) -> (r: bool) { *self <= *o } }
pub trait VxPart<T> { spec fn vx_s(&self) -> Seq<T>; fn vx_part(&self, r: VxRange<usize>) -> (o: Option<VxRef<T>>)
    ensures o is Some == (r.lo <= r.hi <= self.vx_s().len()), o is Some ==> o.unwrap().s@ == self.vx_s().subrange(r.lo as int, r.hi as int); }
/// a borrowed part of a slice
pub struct VxRef<T> { pub s: Ghost<Seq<T>>, pub v: Vec<T> }
impl VxPart<char> for Vec<char> { open spec fn vx_s(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_part(&self, r: VxRange<usize>) -> (o: Option<VxRef<char>>) { unimplemented!() } }
impl VxRef<char> { #[verifier::external_body] pub fn vx_iter(&self) -> (r: VxCharsOf) ensures r.s@ == self.s@ { unimplemented!() } }
pub struct VxCharsOf { pub s: Ghost<Seq<char>> }
impl VxCharsOf { #[verifier::external_body] pub fn collect<T>(self) -> (r: String) ensures r@ == self.s@ { unimplemented!() } }
pub trait VxOptFilter<T>: Sized { spec fn vx_of(self) -> Option<T>;
    fn vx_opt_filter<F: FnOnce(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires self.vx_of() is Some ==> f.requires((&self.vx_of().unwrap(),)),
        ensures match self.vx_of() { None => r is None, Some(x) => (r == Some(x) && f.ensures((&x,), true)) || (r is None && f.ensures((&x,), false)) }; }
impl<T> VxOptFilter<T> for Option<T> { open spec fn vx_of(self) -> Option<T> { self }
    fn vx_opt_filter<F: FnOnce(&T) -> bool>(self, f: F) -> (r: Option<T>) { match self { None => None, Some(x) => { if f(&x) { Some(x) } else { None } } } } }
