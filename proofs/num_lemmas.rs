// ---- numbers, and the standard signatures ----
pub proof fn lemma_int_text(s: Seq<char>) requires int_text(s) ensures i64_text(s) {
    if s =~= seq!['0'] { assert(digits(s)); }
}
pub open spec fn ipow(b: int, e: nat) -> int decreases e { if e == 0 { 1 } else { b * ipow(b, (e - 1) as nat) } }
pub assume_specification [i64::pow] (_0: i64, _1: u32) -> (r: i64)
    requires i64::MIN <= ipow(_0 as int, _1 as nat) <= i64::MAX,
    ensures r == ipow(_0 as int, _1 as nat);
pub proof fn lemma_pow53() ensures ipow(2, 53) == 9007199254740992, ipow(-2, 53) == -9007199254740992 {
    assert(ipow(2, 53) == 9007199254740992) by (compute_only);
    assert(ipow(-2, 53) == -9007199254740992) by (compute_only);
}
pub proof fn lemma_num(s: Seq<char>) requires num_text(s) ensures s.len() > 0, s[0] != '+' {
    let (a, b) = choose|a: int, b: int| num_parts(s, a, b);
    let t = s.take(a);
    assert(num_parts(s, a, b));
    assert(t.len() > 0);
    assert(t[0] == s[0]);
    if int_text(t) { if t =~= seq!['0'] {} else if t[0] == '-' {} else { assert(is_dig(t[0])); } }
}
pub proof fn lemma_sigs()
    ensures
        forall|s: FunctionSignature| s.param_types@.len() == 1 ==> #[trigger] sig_view(s) == (SSig { params: seq![s.param_types@[0]], ret: s.return_type }),
        forall|s: FunctionSignature| s.param_types@.len() == 2 ==> #[trigger] sig_view(s) == (SSig { params: seq![s.param_types@[0], s.param_types@[1]], ret: s.return_type }),
        "count"@ != "length"@, "count"@ != "match"@, "count"@ != "search"@, "count"@ != "value"@, "length"@ != "match"@, "length"@ != "search"@, "length"@ != "value"@,
        "match"@ != "search"@, "match"@ != "value"@, "search"@ != "value"@,
{
    reveal_strlit("count"); reveal_strlit("length"); reveal_strlit("match"); reveal_strlit("search"); reveal_strlit("value");
    assert("count"@[0] == 'c' && "length"@[0] == 'l' && "match"@[0] == 'm' && "search"@[0] == 's' && "value"@[0] == 'v');
    assert forall|s: FunctionSignature| s.param_types@.len() == 1 implies #[trigger] sig_view(s) == (SSig { params: seq![s.param_types@[0]], ret: s.return_type }) by { assert(sig_view(s).params =~= seq![s.param_types@[0]]); }
    assert forall|s: FunctionSignature| s.param_types@.len() == 2 implies #[trigger] sig_view(s) == (SSig { params: seq![s.param_types@[0], s.param_types@[1]], ret: s.return_type }) by { assert(sig_view(s).params =~= seq![s.param_types@[0], s.param_types@[1]]); }
}
