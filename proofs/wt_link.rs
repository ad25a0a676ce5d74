// ---- what the parser guarantees is what the evaluator needs ----
/// valid: what the parser accepts; syntax: what it reads. The unit of this crate's parser says what these are
pub uninterp spec fn valid(s: Seq<char>) -> bool;
pub uninterp spec fn syntax(s: Seq<char>) -> Seq<SSeg>;
pub proof fn lemma_std()
    ensures
        forall|f: Seq<char>| #[trigger] std_sigs().contains_key(f) ==> is_std(f) && std_sigs()[f].params.len() == param_tys(f).len()
            && (std_sigs()[f].ret is Value ==> val_fn(f)) && !(std_sigs()[f].ret is Nodes)
            && forall|i: int| 0 <= i < param_tys(f).len() ==> sty(#[trigger] std_sigs()[f].params[i]) == param_tys(f)[i],
{
    reveal_strlit("count"); reveal_strlit("length"); reveal_strlit("match"); reveal_strlit("search"); reveal_strlit("value");
    assert("count"@[0] != "match"@[0]);  assert("count"@[0] != "length"@[0]); assert("count"@[0] != "search"@[0]); assert("count"@[0] != "value"@[0]);
    assert("length"@[0] != "match"@[0]); assert("length"@[0] != "search"@[0]); assert("length"@[0] != "value"@[0]);
    assert("match"@[0] != "search"@[0]); assert("match"@[0] != "value"@[0]); assert("search"@[0] != "value"@[0]);
}
pub proof fn lemma_l_sing(q: Query) ensures s_sing(v_q(q)) ==> sing_q(q) {
    if s_sing(v_q(q)) {
        assert forall|i: int| 0 <= i < q.segments@.len() implies sing_seg(#[trigger] q.segments@[i]) by {
            assert(s_sing_seg(v_q(q)[i]));
            match q.segments@[i] { Segment::Child { selectors } => { assert(v_sels(selectors).len() == selectors@.len()); if selectors@.len() > 0 { assert(v_sels(selectors)[0] == v_sel(selectors@[0])); } } _ => {} }
        }
    }
}
pub proof fn lemma_l_cmp(e: FilterExpression) requires s_cmp(v_e(e), std_sigs()), s_side(v_e(e)), ensures cmp_ok(e) {
    lemma_std();
    match e { FilterExpression::RelativeQuery { query } => { lemma_l_sing(*query); } FilterExpression::RootQuery { query } => { lemma_l_sing(*query); } _ => {} }
}
pub proof fn lemma_l_e(e: FilterExpression) requires s_ok(v_e(e), std_sigs()), ensures wt(e), decreases e, 0int {
    match e {
        FilterExpression::Not { expression } => { lemma_l_e(*expression); }
        FilterExpression::Logical { left, operator, right } => { lemma_l_e(*left); lemma_l_e(*right); }
        FilterExpression::Comparison { left, operator, right } => { lemma_l_e(*left); lemma_l_e(*right); lemma_l_cmp(*left); lemma_l_cmp(*right); }
        FilterExpression::RelativeQuery { query } => { let q = v_q(*query); assert(v_e(e) == SE::Rel(q)); assert(s_ok(SE::Rel(q), std_sigs())); assert(s_ok_q(q, std_sigs())); lemma_l_q(*query); }
        FilterExpression::RootQuery { query } => { let q = v_q(*query); assert(v_e(e) == SE::Root(q)); assert(s_ok(SE::Root(q), std_sigs())); assert(s_ok_q(q, std_sigs())); lemma_l_q(*query); }
        FilterExpression::Function { name, args } => {
            lemma_std();
            let a = v_e(e)->Func_1;
            assert forall|i: int| 0 <= i < args@.len() implies wt(#[trigger] args@[i]) && (param_tys(name@)[i] is Nodes ==> is_query(args@[i])) by {
                assert(a[i] == v_e(args@[i]));
                assert(s_ok(a[i], std_sigs()));
                assert(s_fits(std_sigs()[name@].params[i], a[i], std_sigs()));
                lemma_l_e(args@[i]);
                assert(sty(std_sigs()[name@].params[i]) == param_tys(name@)[i]);
            }
        }
        _ => {}
    }
}
pub proof fn lemma_l_q(q: Query) requires s_ok_q(v_q(q), std_sigs()), ensures wt_query(q), decreases q, 0int {
    assert forall|i: int| 0 <= i < q.segments@.len() implies wt_seg(#[trigger] q.segments@[i]) by { assert(s_ok_seg(v_q(q)[i], std_sigs())); lemma_l_seg(q.segments@[i]); }
}
pub proof fn lemma_l_seg(s: Segment) requires s_ok_seg(v_seg(s), std_sigs()), ensures wt_seg(s), decreases s, 0int {
    match s {
        Segment::Child { selectors } => { let l = v_sels(selectors); assert(v_seg(s) == SSeg::Child(l)); assert(s_ok_seg(SSeg::Child(l), std_sigs())); assert(s_ok_sels(l, std_sigs())); lemma_l_sels(selectors); }
        Segment::Recursive { selectors } => { let l = v_sels(selectors); assert(v_seg(s) == SSeg::Desc(l)); assert(s_ok_seg(SSeg::Desc(l), std_sigs())); assert(s_ok_sels(l, std_sigs())); lemma_l_sels(selectors); }
        _ => {}
    }
}
pub proof fn lemma_l_sels(s: Vec<Selector>) requires s_ok_sels(v_sels(s), std_sigs()), ensures wt_sels(s), decreases s, 0int {
    assert forall|i: int| 0 <= i < s@.len() implies wt_sel(#[trigger] s@[i]) by { assert(s_ok_sel(v_sels(s)[i], std_sigs())); lemma_l_sel(s@[i]); }
}
pub proof fn lemma_l_sel(s: Selector) requires s_ok_sel(v_sel(s), std_sigs()), ensures wt_sel(s), decreases s, 0int {
    match s {
        Selector::Filter { expression } => { lemma_l_e(*expression); }
#if singular=1
        Selector::SingularQuery { query } => { let q = v_q(*query); assert(v_sel(s) == SSel::Sing(q)); assert(s_ok_sel(SSel::Sing(q), std_sigs())); assert(s_ok_q(q, std_sigs())); lemma_l_sing(*query); lemma_l_q(*query); }
#fi
        _ => {}
    }
}
