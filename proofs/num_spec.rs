// ---- integers and numbers as text ----
pub open spec fn is_dig(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_dig(#[trigger] s[i]) }
pub open spec fn digits_val(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { digits_val(s.drop_last()) * 10 + (s.last() as int - '0' as int) } }
/// RFC 9535: int = "0" / (["-"] DIGIT1 *DIGIT)
pub open spec fn int_text(s: Seq<char>) -> bool {
    s =~= seq!['0'] || (s.len() > 0 && digits(s) && s[0] != '0') || (s.len() > 1 && s[0] == '-' && digits(s.skip(1)) && s[1] != '0')
}
pub open spec fn int_val(s: Seq<char>) -> int { if s.len() > 0 && s[0] == '-' { -digits_val(s.skip(1)) } else { digits_val(s) } }
// ---- RFC 9535 section 2.3.5: number = (int / "-0") [ frac ] [ exp ] ----
pub open spec fn frac_text(s: Seq<char>) -> bool { s.len() == 0 || (s.len() > 1 && s[0] == '.' && digits(s.skip(1))) }
pub open spec fn exp_text(s: Seq<char>) -> bool {
    s.len() == 0 || (s.len() > 1 && (s[0] == 'e' || s[0] == 'E') && (digits(s.skip(1)) || (s.len() > 2 && (s[1] == '-' || s[1] == '+') && digits(s.skip(2)))))
}
pub open spec fn num_parts(s: Seq<char>, a: int, b: int) -> bool {
    0 <= a <= b <= s.len() && (int_text(s.take(a)) || s.take(a) =~= seq!['-', '0']) && frac_text(s.subrange(a, b)) && exp_text(s.skip(b))
}
pub open spec fn num_text(s: Seq<char>) -> bool { exists|a: int, b: int| num_parts(s, a, b) }
pub open spec fn has_part(s: Seq<char>, t: Seq<char>) -> bool { exists|i: int| 0 <= i && i + t.len() <= s.len() && #[trigger] s.subrange(i, i + t.len()) == t }
/// written with a fraction or a negative exponent
pub open spec fn num_broken(s: Seq<char>) -> bool { s.contains('.') || has_part(s, "e-"@) || has_part(s, "E-"@) }
