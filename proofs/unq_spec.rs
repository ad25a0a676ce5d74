// ---- single-quoted strings, numbers and texts as std reads them ----
/// str::replace of \' by '
pub open spec fn unq(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s }
    else if s[0] == '\\' && s.len() > 1 && s[1] == '\'' { seq!['\''] + unq(s.skip(2)) }
    else { seq![s[0]] + unq(s.skip(1)) }
}
/// text of which no unit is cut off by replacing
pub proof fn lemma_unq_plain(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(), forall|j: int| 0 <= j < n ==> !((#[trigger] s[j]) == '\\' && j + 1 < s.len() && s[j + 1] == '\''),
    ensures unq(s) =~= s.take(n) + unq(s.skip(n)),
    decreases n
{
    if n == 0 { assert(s.skip(0) =~= s); }
    else {
        let t = s.skip(1);
        assert forall|j: int| 0 <= j < n - 1 implies !((#[trigger] t[j]) == '\\' && j + 1 < t.len() && t[j + 1] == '\'') by { assert(t[j] == s[j + 1]); if j + 1 < t.len() { assert(t[j + 1] == s[j + 2]); } }
        lemma_unq_plain(t, n - 1);
        assert(t.skip(n - 1) =~= s.skip(n));
        assert(s.take(n) =~= seq![s[0]] + t.take(n - 1));
        assert(!(s[0] == '\\' && s.len() > 1 && s[1] == '\''));
    }
}
/// a unit depends on its own characters only
pub proof fn lemma_unit_local(s: Seq<char>, i: int, t: Seq<char>, k: int)
    requires 0 <= i < s.len(), 0 <= k, unit_at(s, i) is Some, ({ let n = unit_at(s, i).unwrap().1 - i; i + n <= s.len() && k + n <= t.len() && forall|j: int| 0 <= j < n ==> #[trigger] t.skip(k)[j] == s.skip(i)[j] }),
    ensures unit_at(t, k) == Some((unit_at(s, i).unwrap().0, k + unit_at(s, i).unwrap().1 - i)),
{
    let n = unit_at(s, i).unwrap().1 - i;
    let x = t.skip(k); let y = s.skip(i);
    assert(x[0] == y[0]);
    if n > 1 { assert(x[1] == y[1]); }
    if n > 2 { assert(x[2] == y[2] && x[3] == y[3] && x[4] == y[4] && x[5] == y[5]); }
    if n > 6 { assert(x[6] == y[6] && x[7] == y[7] && x[8] == y[8] && x[9] == y[9] && x[10] == y[10] && x[11] == y[11]); }
    assert(t[k + 0] == s[i + 0]);
    if n > 1 {
        assert(t[k + 1] == s[i + 1]);
        if n > 2 {
            assert(t[k + 2] == s[i + 2] && t[k + 3] == s[i + 3] && t[k + 4] == s[i + 4] && t[k + 5] == s[i + 5]);
            if n > 6 {
                assert(t[k + 6] == s[i + 6] && t[k + 7] == s[i + 7] && t[k + 8] == s[i + 8] && t[k + 9] == s[i + 9] && t[k + 10] == s[i + 10] && t[k + 11] == s[i + 11]);
            }
        }
    }
}
pub proof fn lemma_unit_len(s: Seq<char>, i: int)
    requires 0 <= i < s.len(), unit_at(s, i) is Some
    ensures ({ let n = unit_at(s, i).unwrap().1 - i; i + n <= s.len() && (n == 1 || n == 2 || n == 6 || n == 12) })
{}
pub proof fn lemma_den_skip(s: Seq<char>, k: int, i: int)
    requires 0 <= k <= i <= s.len()
    ensures den(s, i) == den(s.skip(k), i - k)
    decreases s.len() - i
{
    let t = s.skip(k);
    if i < s.len() {
        if unit_at(s, i) is Some {
            lemma_unit_len(s, i);
            let n = unit_at(s, i).unwrap().1 - i;
            assert(t.skip(i - k) =~= s.skip(i));
            lemma_unit_local(s, i, t, i - k);
            lemma_den_skip(s, k, i + n);
        } else {
            if unit_at(t, i - k) is Some {
                lemma_unit_len(t, i - k);
                assert(t.skip(i - k) =~= s.skip(i));
                lemma_unit_local(t, i - k, s, i);
                assert(false);
            }
        }
    }
}
/// no unit but the escaped quote is cut by replacing
pub proof fn lemma_unq_uncut(s: Seq<char>, i: int)
    requires 0 <= i < s.len(), sden(s, i) is Some, !(s[i] == '\\' && i + 1 < s.len() && s[i + 1] == '\''),
    ensures ({ let v = s.skip(i); let n = sunit_at(s, i).unwrap().1 - i; forall|j: int| 0 <= j < n ==> !((#[trigger] v[j]) == '\\' && j + 1 < v.len() && v[j + 1] == '\'') }),
{
    let v = s.skip(i);
    let n = sunit_at(s, i).unwrap().1 - i;
    lemma_unit_len(s, i);
    if n == 2 && i + 2 < s.len() && s[i + 2] == '\'' { assert(sunit_at(s, i + 2) is None); assert(sden(s, i + 2) is None); assert(false); }
    if n == 6 { assert(s[i + 1] == 'u'); assert(hexdig(s[i + 2]) >= 0 && hexdig(s[i + 3]) >= 0 && hexdig(s[i + 4]) >= 0 && hexdig(s[i + 5]) >= 0); }
    if n == 12 { assert(s[i + 1] == 'u'); assert(s[i + 7] == 'u'); assert(hexdig(s[i + 2]) >= 0 && hexdig(s[i + 3]) >= 0 && hexdig(s[i + 4]) >= 0 && hexdig(s[i + 5]) >= 0); assert(hexdig(s[i + 8]) >= 0 && hexdig(s[i + 9]) >= 0 && hexdig(s[i + 10]) >= 0 && hexdig(s[i + 11]) >= 0); }
    assert forall|j: int| 0 <= j < n implies !((#[trigger] v[j]) == '\\' && j + 1 < v.len() && v[j + 1] == '\'') by {
        assert(v[j] == s[i + j]);
        if j + 1 < v.len() { assert(v[j + 1] == s[i + j + 1]); }
        if j == 0 {} else if j == 1 {} else if j == 2 {} else if j == 3 {} else if j == 4 {} else if j == 5 {} else if j == 6 {} else if j == 7 {} else if j == 8 {} else if j == 9 {} else if j == 10 {} else {}
    }
}
/// a text that starts with a unit
pub proof fn lemma_den_head(w: Seq<char>, s: Seq<char>, i: int)
    requires 0 <= i < s.len(), unit_at(s, i) is Some, ({ let n = unit_at(s, i).unwrap().1 - i; n <= w.len() && n <= s.len() - i && forall|j: int| 0 <= j < n ==> #[trigger] w[j] == s[i + j] }),
    ensures ({ let u = unit_at(s, i).unwrap(); den(w, 0) == match den(w.skip(u.1 - i), 0) { None => None, Some(d) => Some(seq![u.0] + d) } }),
{
    lemma_unit_len(s, i);
    let n = unit_at(s, i).unwrap().1 - i;
    assert forall|j: int| 0 <= j < n implies #[trigger] w.skip(0)[j] == s.skip(i)[j] by { assert(w.skip(0)[j] == w[j]); }
    lemma_unit_local(s, i, w, 0);
    lemma_den_skip(w, n, n);
}
pub proof fn lemma_unq_quote(s: Seq<char>, i: int)
    requires 0 <= i, i + 1 < s.len(), s[i] == '\\', s[i + 1] == '\'',
    ensures den(unq(s.skip(i)), 0) == match den(unq(s.skip(i + 2)), 0) { None => None, Some(d) => Some(seq![0x27int] + d) },
{
    let v = s.skip(i);
    assert(v[0] == s[i] && v[1] == s[i + 1]);
    assert(v.skip(2) =~= s.skip(i + 2));
    let w = unq(v);
    assert(w =~= seq!['\''] + unq(s.skip(i + 2)));
    assert(w.skip(1) =~= unq(s.skip(i + 2)));
    let q = seq!['\''];
    assert(unit_at(q, 0) == Some((0x27int, 1int)));
    lemma_den_head(w, q, 0);
}
#[verifier::rlimit(100)]
pub proof fn lemma_unq_other(s: Seq<char>, i: int)
    requires 0 <= i < s.len(), sden(s, i) is Some, !(s[i] == '\\' && i + 1 < s.len() && s[i + 1] == '\''),
    ensures ({ let u = unit_at(s, i).unwrap(); unit_at(s, i) is Some && sunit_at(s, i) == unit_at(s, i) && u.1 <= s.len() && den(unq(s.skip(i)), 0) == match den(unq(s.skip(u.1)), 0) { None => None, Some(d) => Some(seq![u.0] + d) } }),
{
    let v = s.skip(i);
    lemma_unit_len(s, i);
    let n = unit_at(s, i).unwrap().1 - i;
    lemma_unq_uncut(s, i);
    lemma_unq_plain(v, n);
    assert(v.skip(n) =~= s.skip(i + n));
    let w = unq(v);
    let t = unq(s.skip(i + n));
    assert(w =~= v.take(n) + t);
    assert(w.skip(n) =~= t);
    assert forall|j: int| 0 <= j < n implies #[trigger] w[j] == s[i + j] by { assert(w[j] == v.take(n)[j]); assert(v[j] == s[i + j]); }
    lemma_den_head(w, s, i);
}
pub proof fn lemma_unq_den(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(), sden(s, i) is Some,
    ensures den(unq(s.skip(i)), 0) == sden(s, i),
    decreases s.len() - i
{
    if i < s.len() {
        let u = sunit_at(s, i).unwrap();
        assert(sunit_at(s, i) is Some);
        if s[i] == '\\' && i + 1 < s.len() && s[i + 1] == '\'' {
            assert(u == (0x27int, i + 2));
            lemma_unq_den(s, i + 2);
            lemma_unq_quote(s, i);
        } else {
            lemma_unq_other(s, i);
            lemma_unit_len(s, i);
            lemma_unq_den(s, u.1);
        }
    } else { assert(s.skip(i) =~= Seq::empty()); }
}
/// the text with the given scalar values
pub open spec fn text_of(d: Seq<int>) -> Seq<char> { d.map_values(|x: int| (x as u32) as char) }
pub proof fn lemma_text_of(s: Seq<char>) ensures text_of(scalars(s)) =~= s {
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] text_of(scalars(s))[i] == s[i] by { assert(scalars(s)[i] == s[i] as int); }
}
/// the number written as an integer that fits is that integer; other whole numbers are integers as long as they fit; the rest are floats
pub open spec fn a_num(s: Seq<char>) -> SE {
    if !num_broken(s) && i64_text(s) && i64::MIN <= int_val(s) <= i64::MAX { SE::Int(int_val(s)) }
    else if !num_broken(s) && flt(f64_abs(parse_f64(s)), i2f(i64::MAX as int)) { SE::Int(f64_trunc(parse_f64(s)) as int) }
    else { SE::Float(parse_f64(s)) }
}
/// the value of a decimal number, rounded to f64 (std's parse::<f64>)
pub uninterp spec fn parse_f64(s: Seq<char>) -> f64;
pub uninterp spec fn f64_abs(x: f64) -> f64;
/// `as i64`
pub uninterp spec fn f64_trunc(x: f64) -> i64;
impl VxParsed for f64 { open spec fn vx_parses(s: Seq<char>, r: Result<f64, VxParseErr>) -> bool { num_text(s) ==> r == Ok::<f64, VxParseErr>(parse_f64(s)) } }
pub trait VxFloat: Sized { fn vx_abs(self) -> (r: f64); }
impl VxFloat for f64 { #[verifier::external_body] fn vx_abs(self) -> (r: f64) ensures r == f64_abs(self) { self.abs() } }
#[verifier::external_body]
pub fn vx_f64_as_i64(x: f64) -> (r: i64) ensures r == f64_trunc(x) { x as i64 }
// ---- texts in texts ----
pub trait VxPat { spec fn vx_in(&self, s: Seq<char>) -> bool; }
impl VxPat for char { open spec fn vx_in(&self, s: Seq<char>) -> bool { s.contains(*self) } }
impl VxPat for &str { open spec fn vx_in(&self, s: Seq<char>) -> bool { has_part(s, self@) } }
pub trait VxFind { fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool); fn vx_replace(&self, a: &str, b: &str) -> (r: String); }
impl VxFind for str {
    #[verifier::external_body] fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) ensures r == p.vx_in(self@) { unimplemented!() }
    #[verifier::external_body] fn vx_replace(&self, a: &str, b: &str) -> (r: String)
        ensures a@ =~= seq!['\\', '\''] && b@ =~= seq!['\''] ==> r@ == unq(self@), encode_utf8(r@).len() <= i64::MAX, r@.len() <= i64::MAX
    { self.replace(a, b) }
}
/// a str is at most isize::MAX bytes long
pub axiom fn ax_str_len(s: &str) ensures encode_utf8(s@).len() <= i64::MAX;
pub proof fn lemma_utf8_len(s: Seq<char>) ensures s.len() <= encode_utf8(s).len() decreases s.len() {
    if s.len() > 0 { lemma_utf8_len(s.drop_first()); assert(encode_utf8(s) == encode_scalar(s[0] as u32) + encode_utf8(s.drop_first())); }
}
