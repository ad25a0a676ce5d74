// ---- the same at the level of UTF-8 bytes ----
use vstd::utf8::*;
pub open spec fn bhex(b: u8) -> int { if b < 0x80 { hexdig(b as char) } else { -1 } }
pub open spec fn enc1(x: int) -> Seq<u8> { encode_scalar(x as u32) }
/// the bytes of each scalar value
pub open spec fn enc_all(d: Seq<int>) -> Seq<u8> decreases d.len() { if d.len() == 0 { Seq::empty() } else { enc1(d[0]) + enc_all(d.skip(1)) } }
pub open spec fn bhex4(b: Seq<u8>, i: int) -> bool { 0 <= i && i + 4 <= b.len() && bhex(b[i]) >= 0 && bhex(b[i + 1]) >= 0 && bhex(b[i + 2]) >= 0 && bhex(b[i + 3]) >= 0 }
pub open spec fn bhex4_at(b: Seq<u8>, i: int) -> int { bhex(b[i]) * 4096 + bhex(b[i + 1]) * 256 + bhex(b[i + 2]) * 16 + bhex(b[i + 3]) }
/// the bytes the unit at i gives and where the next unit starts; a byte of an unescaped character is a unit
pub open spec fn bunit_at(b: Seq<u8>, i: int) -> Option<(Seq<u8>, int)> {
    let c = b[i];
    if c != 0x5C { Some((seq![c], i + 1)) }
    else if i + 1 >= b.len() { None }
    else {
        let e = b[i + 1];
        if e == 0x22 { Some((enc1(0x22), i + 2)) } else if e == 0x5C { Some((enc1(0x5C), i + 2)) } else if e == 0x2F { Some((enc1(0x2F), i + 2)) }
        else if e == 0x62 { Some((enc1(0x08), i + 2)) } else if e == 0x66 { Some((enc1(0x0C), i + 2)) } else if e == 0x6E { Some((enc1(0x0A), i + 2)) }
        else if e == 0x72 { Some((enc1(0x0D), i + 2)) } else if e == 0x74 { Some((enc1(0x09), i + 2)) }
        else if e == 0x75 && bhex4(b, i + 2) {
            let h = bhex4_at(b, i + 2);
            if is_low(h) { None }
            else if !is_high(h) { Some((enc1(h), i + 6)) }
            else if i + 7 < b.len() && b[i + 6] == 0x5C && b[i + 7] == 0x75 && bhex4(b, i + 8) && is_low(bhex4_at(b, i + 8)) {
                Some((enc1(0x10000 + (h - 0xD800) * 0x400 + (bhex4_at(b, i + 8) - 0xDC00)), i + 12))
            } else { None }
        } else { None }
    }
}
pub open spec fn bden(b: Seq<u8>, i: int) -> Option<Seq<u8>> decreases b.len() - i {
    if i < 0 || i >= b.len() { Some(Seq::empty()) }
    else {
        match bunit_at(b, i) {
            None => None,
            Some(u) => if u.1 <= i { None } else { match bden(b, u.1) { None => None, Some(d) => Some(u.0 + d) } },
        }
    }
}
pub open spec fn bwith_rest(done: Seq<u8>, left: Option<Seq<u8>>) -> Option<Seq<u8>> { match left { None => None, Some(d) => Some(done + d) } }
pub proof fn lemma_bwith_rest(done: Seq<u8>, x: Seq<u8>, left: Option<Seq<u8>>)
    ensures bwith_rest(done + x, left) == bwith_rest(done, match left { None => None, Some(d) => Some(x + d) }),
{ match left { Some(d) => { assert((done + x) + d =~= done + (x + d)); } None => {} } }
pub proof fn lemma_enc_one(c: char) ensures encode_utf8(seq![c]) =~= encode_scalar(c as u32)
{ reveal_with_fuel(encode_utf8, 2); assert(seq![c].drop_first() =~= Seq::<char>::empty()); }
pub proof fn lemma_enc_ascii(x: u32) requires x < 0x80 ensures encode_scalar(x) =~= seq![x as u8]
{ assert(x < 0x80 ==> (x & 0x7F) as u8 == x as u8) by (bit_vector); assert(encode_scalar(x).len() == 1); }
pub proof fn lemma_enc_wide(c: char) requires 0x80 <= c as u32
    ensures 2 <= encode_scalar(c as u32).len() <= 4, forall|i: int| 0 <= i < encode_scalar(c as u32).len() ==> #[trigger] encode_scalar(c as u32)[i] >= 0x80,
{
    let x = c as u32;
    assert(0x80u8 | ((x & 0x3F) as u8) >= 0x80 && (0xC0u8 | (((x >> 6) & 0x1F) as u8)) >= 0x80 && (0xE0u8 | (((x >> 12) & 0xF) as u8)) >= 0x80 && (0xF0u8 | (((x >> 18) & 0x7) as u8)) >= 0x80) by (bit_vector);
    assert((0x80u8 | (((x >> 6) & 0x3F) as u8)) >= 0x80 && (0x80u8 | (((x >> 12) & 0x3F) as u8)) >= 0x80) by (bit_vector);
}
/// the bytes of s from character k on: the first character's, then the rest
pub proof fn lemma_enc_step(s: Seq<char>, k: int)
    requires 0 <= k < s.len(),
    ensures encode_utf8(s.skip(k)) =~= encode_scalar(s[k] as u32) + encode_utf8(s.skip(k + 1)),
{
    assert(s.skip(k) =~= seq![s[k]] + s.skip(k + 1));
    encode_utf8_concat(seq![s[k]], s.skip(k + 1));
    lemma_enc_one(s[k]);
}
/// an ASCII character is one byte
pub proof fn lemma_enc_step_ascii(s: Seq<char>, k: int)
    requires 0 <= k < s.len(), (s[k] as u32) < 0x80,
    ensures encode_utf8(s.skip(k)) =~= seq![s[k] as u8] + encode_utf8(s.skip(k + 1)),
{ lemma_enc_step(s, k); lemma_enc_ascii(s[k] as u32); }
pub proof fn lemma_skip2(b: Seq<u8>, i: int, x: Seq<u8>, t: Seq<u8>)
    requires 0 <= i <= b.len(), b.skip(i) == x + t,
    ensures b.skip(i + x.len()) =~= t, i + x.len() <= b.len(), forall|j: int| 0 <= j < x.len() ==> #[trigger] b[i + j] == x[j],
{
    assert(b.skip(i).len() == x.len() + t.len());
    assert forall|j: int| 0 <= j < t.len() implies b.skip(i + x.len())[j] == #[trigger] t[j] by { assert(b.skip(i)[x.len() + j] == t[j]); }
    assert forall|j: int| 0 <= j < x.len() implies #[trigger] b[i + j] == x[j] by { assert(b.skip(i)[j] == x[j]); }
}
/// n characters from k on are ASCII: byte for character
pub proof fn lemma_ascii_run(s: Seq<char>, k: int, n: int, b: Seq<u8>, i: int)
    requires 0 <= k, 0 <= n, k + n <= s.len(), 0 <= i <= b.len(), b.skip(i) == encode_utf8(s.skip(k)), forall|j: int| 0 <= j < n ==> (#[trigger] s[k + j] as u32) < 0x80,
    ensures i + n <= b.len(), b.skip(i + n) =~= encode_utf8(s.skip(k + n)), forall|j: int| 0 <= j < n ==> #[trigger] b[i + j] == s[k + j] as u8,
    decreases n,
{
    if n > 0 {
        lemma_ascii_run(s, k, n - 1, b, i);
        assert((s[k + (n - 1)] as u32) < 0x80);
        lemma_enc_step_ascii(s, k + n - 1);
        lemma_skip2(b, i + n - 1, seq![s[k + n - 1] as u8], encode_utf8(s.skip(k + n)));
        assert(b[(i + n - 1) + 0] == s[k + n - 1] as u8);
        assert forall|j: int| 0 <= j < n implies #[trigger] b[i + j] == s[k + j] as u8 by { if j == n - 1 {} }
    }
}
/// bytes that are no escape are themselves
pub proof fn lemma_plain(b: Seq<u8>, i: int, n: int)
    requires 0 <= i, 0 <= n, i + n <= b.len(), forall|j: int| i <= j < i + n ==> #[trigger] b[j] != 0x5C, bden(b, i + n) is Some,
    ensures bden(b, i) == Some(b.subrange(i, i + n) + bden(b, i + n).unwrap()),
    decreases n,
{
    let rest = bden(b, i + n).unwrap();
    if n > 0 {
        lemma_plain(b, i + 1, n - 1);
        let d = b.subrange(i + 1, i + n) + rest;
        assert(bunit_at(b, i) == Some((seq![b[i]], i + 1)));
        assert(bden(b, i) == Some(seq![b[i]] + d));
        assert(seq![b[i]] + d =~= b.subrange(i, i + n) + rest);
    } else { assert(b.subrange(i, i) + rest =~= rest); }
}
pub proof fn lemma_hex_ascii(c: char) requires hexdig(c) >= 0 ensures (c as u32) < 0x80, bhex(c as u8) == hexdig(c), (c as u8) as char == c {}
pub proof fn lemma_hex_run(s: Seq<char>, k: int, b: Seq<u8>, i: int)
    requires is_hex4(s, k), 0 <= i, i + 4 <= b.len(), forall|j: int| 0 <= j < 4 ==> #[trigger] b[i + j] == s[k + j] as u8,
    ensures bhex4(b, i), bhex4_at(b, i) == hex4_at(s, k),
{
    lemma_hex_ascii(s[k]); lemma_hex_ascii(s[k + 1]); lemma_hex_ascii(s[k + 2]); lemma_hex_ascii(s[k + 3]);
    assert(b[i + 0] == s[k + 0] as u8); assert(b[i + 1] == s[k + 1] as u8); assert(b[i + 2] == s[k + 2] as u8); assert(b[i + 3] == s[k + 3] as u8);
}
/// an escape is the same unit at both levels
pub proof fn lemma_bunit(s: Seq<char>, k: int, b: Seq<u8>, i: int)
    requires 0 <= k < s.len(), 0 <= i <= b.len(), b.skip(i) == encode_utf8(s.skip(k)), s[k] == '\\', unit_at(s, k) is Some,
    ensures
        bunit_at(b, i) == Some((enc1(unit_at(s, k).unwrap().0), i + unit_at(s, k).unwrap().1 - k)), i + unit_at(s, k).unwrap().1 - k <= b.len(),
        b.skip(i + unit_at(s, k).unwrap().1 - k) == encode_utf8(s.skip(unit_at(s, k).unwrap().1)),
{
    let u = unit_at(s, k).unwrap();
    let n = u.1 - k;
    lemma_unit_ascii(s, k);
    lemma_ascii_run(s, k, n, b, i);
    assert(b[i + 0] == s[k + 0] as u8); assert(b[i + 1] == s[k + 1] as u8);
    if n >= 6 {
        assert forall|j: int| 0 <= j < 4 implies #[trigger] b[(i + 2) + j] == s[(k + 2) + j] as u8 by { assert(b[i + (2 + j)] == s[k + (2 + j)] as u8); }
        lemma_hex_run(s, k + 2, b, i + 2);
    }
    if n >= 12 {
        assert forall|j: int| 0 <= j < 4 implies #[trigger] b[(i + 8) + j] == s[(k + 8) + j] as u8 by { assert(b[i + (8 + j)] == s[k + (8 + j)] as u8); }
        lemma_hex_run(s, k + 8, b, i + 8);
        assert(b[i + 6] == s[k + 6] as u8); assert(b[i + 7] == s[k + 7] as u8);
    }
}
pub proof fn lemma_bplain(b: Seq<u8>, i: int, x: Seq<u8>, t: Seq<u8>)
    requires 0 <= i <= b.len(), b.skip(i) == x + t, forall|j: int| 0 <= j < x.len() ==> #[trigger] x[j] != 0x5C,
    ensures i + x.len() <= b.len(), b.skip(i + x.len()) == t, b.subrange(i, i + x.len()) == x,
        bden(b, i + x.len()) is Some ==> bden(b, i) == Some(x + bden(b, i + x.len()).unwrap()),
{
    lemma_skip2(b, i, x, t);
    let n = x.len() as int;
    assert(b.subrange(i, i + n) =~= x);
    assert forall|j: int| i <= j < i + n implies #[trigger] b[j] != 0x5C by { assert(b[i + (j - i)] == x[j - i]); }
    if bden(b, i + n) is Some { lemma_plain(b, i, n); }
}
/// no byte of another character is a backslash
pub proof fn lemma_enc_no_escape(c: char) requires c != '\\' ensures encode_scalar(c as u32).len() >= 1, forall|j: int| 0 <= j < encode_scalar(c as u32).len() ==> #[trigger] encode_scalar(c as u32)[j] != 0x5C
{ if (c as u32) < 0x80 { lemma_enc_ascii(c as u32); } else { lemma_enc_wide(c); } }
/// an unescaped character: its bytes are units of their own
pub proof fn lemma_bchar(s: Seq<char>, k: int, b: Seq<u8>, i: int)
    requires 0 <= k < s.len(), 0 <= i <= b.len(), b.skip(i) == encode_utf8(s.skip(k)), s[k] != '\\',
    ensures ({
        let n = encode_scalar(s[k] as u32).len() as int;
        1 <= n && i + n <= b.len() && b.skip(i + n) == encode_utf8(s.skip(k + 1)) && b.subrange(i, i + n) == encode_scalar(s[k] as u32)
        && (bden(b, i + n) is Some ==> bden(b, i) == Some(encode_scalar(s[k] as u32) + bden(b, i + n).unwrap()))
    }),
{
    lemma_enc_step(s, k);
    lemma_enc_no_escape(s[k]);
    lemma_bplain(b, i, encode_scalar(s[k] as u32), encode_utf8(s.skip(k + 1)));
}
/// a valid literal denotes the same at both levels
pub proof fn lemma_bden(s: Seq<char>, k: int, b: Seq<u8>, i: int)
    requires 0 <= k <= s.len(), 0 <= i <= b.len(), b.skip(i) == encode_utf8(s.skip(k)), den(s, k) is Some,
    ensures bden(b, i) == Some(enc_all(den(s, k).unwrap())),
    decreases s.len() - k,
{
    if k == s.len() { assert(s.skip(k) =~= Seq::<char>::empty()); assert(b.skip(i).len() == 0); }
    else {
        let u = unit_at(s, k).unwrap();
        let d = den(s, u.1).unwrap();
        assert(den(s, k) == Some(seq![u.0] + d));
        assert((seq![u.0] + d).skip(1) =~= d);
        if s[k] != '\\' {
            lemma_bchar(s, k, b, i);
            lemma_bden(s, k + 1, b, i + encode_scalar(s[k] as u32).len());
        } else {
            lemma_unit_ascii(s, k);
            lemma_bunit(s, k, b, i);
            lemma_bden(s, u.1, b, i + u.1 - k);
        }
    }
}
/// an escape is ASCII
pub proof fn lemma_unit_ascii(s: Seq<char>, k: int)
    requires 0 <= k < s.len(), s[k] == '\\', unit_at(s, k) is Some,
    ensures unit_at(s, k).unwrap().1 <= s.len(), unit_at(s, k).unwrap().1 - k == 2 || unit_at(s, k).unwrap().1 - k == 6 || unit_at(s, k).unwrap().1 - k == 12,
        forall|j: int| 0 <= j < unit_at(s, k).unwrap().1 - k ==> (#[trigger] s[k + j] as u32) < 0x80,
{
    let n = unit_at(s, k).unwrap().1 - k;
    if n >= 6 { lemma_hex_ascii(s[k + 2]); lemma_hex_ascii(s[k + 3]); lemma_hex_ascii(s[k + 4]); lemma_hex_ascii(s[k + 5]); }
    if n >= 12 { lemma_hex_ascii(s[k + 8]); lemma_hex_ascii(s[k + 9]); lemma_hex_ascii(s[k + 10]); lemma_hex_ascii(s[k + 11]); }
    assert forall|j: int| 0 <= j < n implies (#[trigger] s[k + j] as u32) < 0x80 by {
        if j == 0 {} else if j == 1 {} else if j == 2 {} else if j == 3 {} else if j == 4 {} else if j == 5 {} else if j == 6 {} else if j == 7 {} else if j == 8 {} else if j == 9 {} else if j == 10 {} else {}
    }
}
/// every value a literal denotes is a scalar value
pub open spec fn is_sv(x: int) -> bool { 0 <= x <= 0x10FFFF && !(0xD800 <= x <= 0xDFFF) }
pub proof fn lemma_den_scalar(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), den(s, k) is Some,
    ensures forall|j: int| 0 <= j < den(s, k).unwrap().len() ==> is_sv(#[trigger] den(s, k).unwrap()[j]),
    decreases s.len() - k,
{
    if k < s.len() {
        let u = unit_at(s, k).unwrap();
        if s[k] == '\\' { lemma_unit_ascii(s, k); if u.1 - k >= 6 { lemma_hex4(s, k + 2); } if u.1 - k >= 12 { lemma_hex4(s, k + 8); } }
        lemma_den_scalar(s, u.1);
        let d = den(s, u.1).unwrap();
        assert(is_sv(u.0));
        assert forall|j: int| 0 <= j < den(s, k).unwrap().len() implies is_sv(#[trigger] den(s, k).unwrap()[j]) by { if j > 0 { assert(den(s, k).unwrap()[j] == d[j - 1]); } }
    }
}
pub proof fn lemma_enc_chars(d: Seq<int>) -> (t: Seq<char>)
    requires forall|j: int| 0 <= j < d.len() ==> is_sv(#[trigger] d[j]),
    ensures scalars(t) =~= d, encode_utf8(t) =~= enc_all(d),
    decreases d.len(),
{
    if d.len() == 0 { assert(encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty()); Seq::empty() }
    else {
        assert forall|j: int| 0 <= j < d.skip(1).len() implies is_sv(#[trigger] d.skip(1)[j]) by { assert(is_sv(d[j + 1])); }
        let t1 = lemma_enc_chars(d.skip(1));
        let c = (d[0] as u32) as char;
        assert(is_sv(d[0]));
        assert(c as u32 == d[0]);
        let t = seq![c] + t1;
        encode_utf8_concat(seq![c], t1);
        lemma_enc_one(c);
        assert(d =~= seq![d[0]] + d.skip(1));
        assert(scalars(t) =~= seq![d[0]] + scalars(t1));
        t
    }
}
/// different texts have different bytes
pub proof fn lemma_enc_inj(s: Seq<char>, t: Seq<char>) requires encode_utf8(s) == encode_utf8(t) ensures s == t
{ encode_utf8_decode_utf8(s); encode_utf8_decode_utf8(t); }
pub proof fn lemma_bhex(b: Seq<u8>, i: int) requires bhex4(b, i) ensures 0 <= bhex4_at(b, i) <= 0xFFFF {}
/// four hexadecimal digits as text
pub proof fn lemma_hex_text(b: Seq<u8>)
    requires b.len() == 4, bhex4(b, 0),
    ensures valid_utf8(b), bhex4_at(b, 0) <= 0xFFFF, forall|x: Seq<char>| #[trigger] encode_utf8(x) == b ==> x.len() == 4 && all_hex(x) && hex_val(x) == bhex4_at(b, 0),
{
    let t = seq![b[0] as char, b[1] as char, b[2] as char, b[3] as char];
    assert(t.skip(0) =~= t); assert(t.skip(4) =~= Seq::<char>::empty());
    lemma_enc_step_ascii(t, 0); lemma_enc_step_ascii(t, 1); lemma_enc_step_ascii(t, 2); lemma_enc_step_ascii(t, 3);
    assert(encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty());
    assert(encode_utf8(t) =~= b);
    encode_utf8_valid_utf8(t);
    assert(is_hex4(t, 0)); assert(t.subrange(0, 4) =~= t); lemma_hex4(t, 0);
    assert forall|x: Seq<char>| #[trigger] encode_utf8(x) == b implies x.len() == 4 && all_hex(x) && hex_val(x) == bhex4_at(b, 0) by { lemma_enc_inj(x, t); }
}
// ---- std: text from bytes ----
#[derive(Debug)]
pub struct VxUtf8Error {}
#[verifier::external_body]
pub fn vx_from_utf8(v: Vec<u8>) -> (r: Result<String, VxUtf8Error>)
    ensures r is Ok == valid_utf8(v@), r is Ok ==> encode_utf8(r->Ok_0@) == v@,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_str_from_utf8(v: &[u8]) -> (r: Result<&str, VxUtf8Error>)
    ensures r is Ok == valid_utf8(v@), r is Ok ==> encode_utf8(r->Ok_0@) == v@,
{ unimplemented!() }
pub trait VxSub<T> { spec fn vx_t(&self) -> Seq<T>;
    fn vx_sub(&self, lo: usize, hi: usize) -> (o: &[T]) requires lo <= hi <= self.vx_t().len() ensures o@ == self.vx_t().subrange(lo as int, hi as int); }
impl<T> VxSub<T> for [T] { open spec fn vx_t(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_sub(&self, lo: usize, hi: usize) -> (o: &[T]) { &self[lo..hi] } }
/// the UTF-8 bytes of one character
pub trait VxCharEnc { fn vx_encode_utf8(&self, buf: &mut [u8; 4]) -> (r: VxBytes); }
impl VxCharEnc for char { #[verifier::external_body] fn vx_encode_utf8(&self, buf: &mut [u8; 4]) -> (r: VxBytes) ensures r.s@ == encode_scalar(*self as u32) { unimplemented!() } }
pub struct VxBytes { pub s: Vec<u8> }
impl VxBytes {
    pub fn as_bytes(self) -> (r: VxBytes) ensures r == self { self }
    pub fn vx_to_owned(self) -> (r: Vec<u8>) ensures r@ == self.s@ { self.s }
}
