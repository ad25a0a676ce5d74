// ---- what is printed for names, strings and integers reads back as the same value ----
pub proof fn lemma_quoted_prefix(s: Seq<char>, k: int, n: int)
    requires 0 <= k <= n,
    ensures quoted_to(s, k).len() <= quoted_to(s, n).len(), quoted_to(s, n).take(quoted_to(s, k).len() as int) =~= quoted_to(s, k),
    decreases n - k
{ if k < n { lemma_quoted_prefix(s, k, n - 1); let a = quoted_to(s, n - 1); assert(quoted_to(s, n).take(a.len() as int) =~= a); assert(quoted_to(s, n).take(quoted_to(s, k).len() as int) =~= a.take(quoted_to(s, k).len() as int)); } else { assert(quoted_to(s, n).take(quoted_to(s, n).len() as int) =~= quoted_to(s, n)); } }
pub proof fn lemma_quoted_char(c: char)
    ensures quoted_char(c).len() > 0,
        c == '\'' ==> quoted_char(c) =~= seq!['\\', '\''], c == '\\' ==> quoted_char(c) =~= seq!['\\', '\\'], c == '\u{08}' ==> quoted_char(c) =~= seq!['\\', 'b'],
        c == '\u{0c}' ==> quoted_char(c) =~= seq!['\\', 'f'], c == '\n' ==> quoted_char(c) =~= seq!['\\', 'n'], c == '\r' ==> quoted_char(c) =~= seq!['\\', 'r'], c == '\t' ==> quoted_char(c) =~= seq!['\\', 't'],
        c != '\\' && c != '\'' && c as u32 >= 0x20 ==> quoted_char(c) =~= seq![c],
        c as u32 == 8 || c as u32 == 9 || c as u32 == 10 || c as u32 == 12 || c as u32 == 13 || c as u32 >= 0x20 || {
            &&& quoted_char(c).len() == 6 &&& quoted_char(c)[0] == '\\' &&& quoted_char(c)[1] == 'u' &&& quoted_char(c)[2] == '0' &&& quoted_char(c)[3] == '0'
            &&& quoted_char(c)[4] == hex_digit(c as u32 as int / 16) &&& quoted_char(c)[5] == hex_digit(c as u32 as int % 16) },
{
    reveal_strlit("\\'"); reveal_strlit("\\\\"); reveal_strlit("\\b"); reveal_strlit("\\f"); reveal_strlit("\\n"); reveal_strlit("\\r"); reveal_strlit("\\t"); reveal_strlit("\\u");
}
pub proof fn lemma_quoted_len(c: char) ensures quoted_char(c).len() > 0 { lemma_quoted_char(c); }
pub proof fn lemma_hex_digit(d: int) requires 0 <= d < 16 ensures hexdig(hex_digit(d)) == d {}
/// one character of a printed name reads back as that character
pub proof fn lemma_quoted_unit(w: Seq<char>, i: int, c: char)
    requires 0 <= i, i + quoted_char(c).len() <= w.len(), w.subrange(i, i + quoted_char(c).len()) == quoted_char(c),
    ensures sunit_at(w, i) == Some((c as int, i + quoted_char(c).len())),
{
    lemma_quoted_char(c);
    let q = quoted_char(c);
    let n = q.len() as int;
    assert forall|k: int| 0 <= k < n implies q[k] == #[trigger] w[i + k] by { assert(w.subrange(i, i + n)[k] == w[i + k]); }
    assert(w[i] == q[0]);
    if n > 1 { assert(w[i + 1] == q[1]); }
    if n == 6 {
        assert(w[i + 2] == q[2]); assert(w[i + 3] == q[3]); assert(w[i + 4] == q[4]); assert(w[i + 5] == q[5]);
        let v = c as u32 as int;
        assert(v < 0x20);
        lemma_hex_digit(v / 16); lemma_hex_digit(v % 16);
        assert(is_hex4(w, i + 2));
        assert(hex4_at(w, i + 2) == v);
    }
}
pub proof fn lemma_quoted_den_at(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures sden(quoted_to(s, s.len() as int), quoted_to(s, k).len() as int) == Some(scalars(s.skip(k))),
    decreases s.len() - k
{
    hide(quoted_char); hide(sunit_at);
    let w = quoted_to(s, s.len() as int);
    let i = quoted_to(s, k).len() as int;
    lemma_quoted_prefix(s, k, s.len() as int);
    if k < s.len() {
        let c = s[k];
        let a = quoted_to(s, k + 1);
        assert(a == quoted_to(s, k) + quoted_char(c));
        lemma_quoted_prefix(s, k + 1, s.len() as int);
        assert(w.subrange(i, a.len() as int) =~= quoted_char(c)) by { assert(w.take(a.len() as int).subrange(i, a.len() as int) =~= w.subrange(i, a.len() as int)); }
        lemma_quoted_unit(w, i, c);
        lemma_quoted_len(c);
        assert(a.len() <= w.len());
        assert(sunit_at(w, i) == Some((c as int, a.len() as int)));
        lemma_quoted_den_at(s, k + 1);
        assert(sden(w, a.len() as int) == Some(scalars(s.skip(k + 1))));
        assert(seq![c as int] + scalars(s.skip(k + 1)) =~= scalars(s.skip(k)));
    } else { assert(scalars(s.skip(k)) =~= Seq::<int>::empty()); }
}
/// a printed name or string literal denotes that name or string
pub proof fn lemma_quoted_reads_back(s: Seq<char>)
    ensures quoted(s).len() >= 2, quoted(s)[0] == '\'', quoted(s).last() == '\'', sden(quoted(s).subrange(1, quoted(s).len() - 1), 0) == Some(scalars(s)),
{
    reveal_strlit("'");
    assert(quoted(s).subrange(1, quoted(s).len() - 1) =~= quoted_to(s, s.len() as int));
    lemma_quoted_den_at(s, 0);
    assert(s.skip(0) =~= s);
}
pub proof fn lemma_dec(n: int)
    requires 0 <= n,
    ensures dec(n).len() > 0, digits(dec(n)), digits_val(dec(n)) == n, n > 0 ==> dec(n)[0] != '0',
    decreases n
{
    if n < 10 { assert(dec(n).drop_last() =~= Seq::<char>::empty()); reveal_with_fuel(digits_val, 2); }
    else { lemma_dec(n / 10); let p = dec(n / 10); let c = dec_digit(n % 10); assert(p.push(c).drop_last() =~= p); assert(p.push(c).last() == c); assert(digits(p.push(c))); assert(p.push(c)[0] == p[0]); }
}
/// a printed integer is an integer of the grammar with that value
pub proof fn lemma_int_reads_back(n: int) ensures int_text(dec_int(n)), int_val(dec_int(n)) == n {
    if n < 0 { lemma_dec(-n); assert(dec_int(n).skip(1) =~= dec(-n)); } else { lemma_dec(n); assert(dec_int(n)[0] != '-') by { assert(is_dig(dec(n)[0])); } if n == 0 { assert(dec_int(0) =~= seq!['0']); } }
}
