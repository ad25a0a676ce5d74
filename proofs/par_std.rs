// ---- what Query::standard promises ----
/// a valid query: what the grammar accepts and is well-typed and in range
pub open spec fn valid(s: Seq<char>) -> bool { grammatical(s) && w_top(tree(s), std_sigs()) }
/// the syntax a valid query stands for
pub open spec fn syntax(s: Seq<char>) -> Seq<SSeg> { a_top(tree(s)) }
// a tree that passes the checks stands for a well-typed query
pub proof fn lemma_w_seg(p: Pair<Rule>, fs: SSigs) requires g_seg(p), w_seg(p, fs), ensures s_ok_seg(a_seg(p), fs), decreases p, 2int, 0int {
    lemma_kids(p);
    if p.inner@.len() > 0 {
        match p.rule {
            Rule::child_segment | Rule::descendant_segment => { lemma_w_bracketed(p.inner@[0], fs); }
            Rule::name_segment | Rule::index_segment => { lemma_w_sel(p.inner@[0], fs); }
#if singular=1
            Rule::implicit_root_segment => { lemma_w_bracketed(p.inner@[0], fs); }
            Rule::implicit_root_name_segment => { lemma_w_sel(p.inner@[0], fs); }
#fi
            _ => {}
        }
    }
}
pub proof fn lemma_w_bracketed(p: Pair<Rule>, fs: SSigs) requires g_bracketed(p), w_bracketed(p, fs), ensures s_ok_sels(a_bracketed(p), fs), decreases p, 2int, 0int {
    lemma_kids(p);
    if p.rule is bracketed_selection {
        assert forall|i: int| 0 <= i < a_bracketed(p).len() implies s_ok_sel(#[trigger] a_bracketed(p)[i], fs) by { lemma_w_sel(p.inner@[i], fs); assert(a_bracketed(p)[i] == a_sel(p.inner@[i])); }
    }
}
pub proof fn lemma_w_sel(p: Pair<Rule>, fs: SSigs) requires g_sel(p), w_sel(p, fs), ensures s_ok_sel(a_sel(p), fs), decreases p, 2int, 0int {
    lemma_kids(p);
    match p.rule {
        Rule::slice_selector => { lemma_w_bound(p.inner@, Rule::start); lemma_w_bound(p.inner@, Rule::stop); lemma_w_bound(p.inner@, Rule::step); }
        Rule::filter_selector => { lemma_w_e(p.inner@[0], fs); }
#if singular=1
        Rule::singular_query_selector => {
            lemma_w_segs(p, fs);
            assert(s_ok_q(a_segs(p), fs));
            assert forall|i: int| 0 <= i < a_segs(p).len() implies s_sing_seg(#[trigger] a_segs(p)[i]) by { let k = p.inner@[i]; assert(g_single(k.rule)); assert(g_seg(k)); assert(a_segs(p)[i] == a_seg(k)); assert(a_seg(k) == SSeg::Child(seq![a_sel(k.inner@[0])])); }
            assert(a_sel(p) == SSel::Sing(a_segs(p)));
        }
#fi
        _ => {}
    }
}
pub proof fn lemma_w_bound(s: Seq<Pair<Rule>>, r: Rule)
    requires forall|i: int| 0 <= i < s.len() ==> in_range(int_val((#[trigger] s[i]).text@)),
    ensures opt_in_range(a_bound(s, r)),
    decreases s.len()
{
    if s.len() > 0 {
        assert(in_range(int_val(s[s.len() - 1].text@)));
        assert forall|i: int| 0 <= i < s.drop_last().len() implies in_range(int_val((#[trigger] s.drop_last()[i]).text@)) by { assert(s.drop_last()[i] == s[i]); }
        lemma_w_bound(s.drop_last(), r);
    }
}
#if rec=1
pub proof fn lemma_w_segs(p: Pair<Rule>, fs: SSigs) requires g_segs(p), w_segs(p, fs), ensures s_ok_q(a_segs(p), fs), decreases p, 1int, 1int + p.inner@.len() { lemma_w_upto(p, p.inner@.len() as int, fs); }
pub proof fn lemma_w_upto(p: Pair<Rule>, n: int, fs: SSigs) requires g_segs(p), w_segs(p, fs), ensures s_ok_q(a_upto(p, n), fs), decreases p, 1int, n {
    lemma_kids(p);
    if !(n <= 0 || n > p.inner@.len()) {
        lemma_w_upto(p, n - 1, fs);
        lemma_w_seg(p.inner@[n - 1], fs);
    }
}
pub proof fn lemma_w_top(s: Seq<Pair<Rule>>, fs: SSigs) requires g_top(s), w_top(s, fs), ensures s_ok_q(a_top(s), fs), decreases s.len() {
    if s.len() > 0 {
        assert(s.last() == s[s.len() - 1]);
        assert forall|i: int| 0 <= i < s.drop_last().len() implies g_seg(#[trigger] s.drop_last()[i]) && w_seg(s.drop_last()[i], fs) by { assert(s.drop_last()[i] == s[i]); }
        lemma_w_top(s.drop_last(), fs);
        lemma_w_seg(s.last(), fs);
    }
}
#else
pub proof fn lemma_w_segs(p: Pair<Rule>, fs: SSigs) requires g_segs(p), w_segs(p, fs), ensures s_ok_q(a_segs(p), fs), decreases p, 1int, 0int {
    lemma_kids(p);
    assert forall|i: int| 0 <= i < a_segs(p).len() implies s_ok_seg(#[trigger] a_segs(p)[i], fs) by { lemma_w_seg(p.inner@[i], fs); assert(a_segs(p)[i] == a_seg(p.inner@[i])); }
}
pub proof fn lemma_w_top(s: Seq<Pair<Rule>>, fs: SSigs) requires g_top(s), w_top(s, fs), ensures s_ok_q(a_top(s), fs) {
    assert forall|i: int| 0 <= i < a_top(s).len() implies s_ok_seg(#[trigger] a_top(s)[i], fs) by { lemma_w_seg(s[i], fs); }
}
#fi
pub proof fn lemma_w_e(p: Pair<Rule>, fs: SSigs)
    requires g_e(p), w_e(p, fs),
    ensures s_ok(a_e(p), fs), p.rule is logical_or_expr || p.rule is logical_and_expr ==> s_test(a_e(p), fs),
    decreases p, 2int, 0int
{
    lemma_kids(p);
    let k = p.inner@;
    match p.rule {
        Rule::logical_or_expr => { lemma_w_fold(p, k.len() as int, SLop::Or, fs); }
        Rule::logical_and_expr => { lemma_w_fold(p, k.len() as int, SLop::And, fs); }
        Rule::paren_expr => { lemma_w_e(k[k.len() - 1], fs); }
        Rule::comparison_expr => { lemma_w_e(k[0], fs); lemma_w_e(k[2], fs); }
        Rule::test_expr => { lemma_w_e(k[k.len() - 1], fs); }
        Rule::rel_query | Rule::root_query | Rule::rel_singular_query | Rule::abs_singular_query => { lemma_w_segs(p, fs); let q = a_segs(p); assert(s_ok_q(q, fs)); }
        Rule::function_expr => {
            assert forall|i: int| 0 <= i < a_args(p).len() implies s_ok(#[trigger] a_args(p)[i], fs) by { lemma_w_e(k[i + 1], fs); assert(a_args(p)[i] == a_e(k[i + 1])); }
        }
        _ => {}
    }
}
pub proof fn lemma_w_fold(p: Pair<Rule>, n: int, op: SLop, fs: SSigs)
    requires g_e(p), w_e(p, fs), p.rule is logical_or_expr || p.rule is logical_and_expr,
    ensures s_ok(a_fold(p, n, op), fs), s_test(a_fold(p, n, op), fs),
    decreases p, 1int, n
{
    lemma_kids(p);
    if n <= 1 || n > p.inner@.len() { lemma_w_e(p.inner@[0], fs); }
    else { lemma_w_fold(p, n - 1, op, fs); lemma_w_e(p.inner@[n - 1], fs); }
}
