// ---- what the parser's functions promise ----
pub open spec fn parser_ok(x: JSONPathParser) -> bool { x.index_range.lo == -9007199254740991 && x.index_range.hi == 9007199254740991 }
#if rec=1
pub open spec fn seg_ok(r: Result<Segment, JSONPathError>, p: Pair<Rule>, fs: SSigs, acc: Segment) -> bool {
    match r { Ok(s) => v_chain(s) == (if p.rule is EOI { v_chain(acc) } else { v_chain(acc).push(a_seg(p)) }) && w_seg(p, fs), Err(_) => !w_seg(p, fs) }
}
pub open spec fn steps_ok(w: Seq<Result<Segment, JSONPathError>>, s: Seq<Pair<Rule>>, fs: SSigs) -> bool {
    forall|i: int| 0 <= i < w.len() - 1 ==> seg_ok(w[i + 1], #[trigger] s[i], fs, w[i]->Ok_0)
}
#else
pub open spec fn seg_ok(r: Result<Segment, JSONPathError>, p: Pair<Rule>, fs: SSigs) -> bool { match r { Ok(s) => v_seg(s) == a_seg(p) && w_seg(p, fs), Err(_) => !w_seg(p, fs) } }
#fi
pub open spec fn sel_ok(r: Result<Selector, JSONPathError>, p: Pair<Rule>, fs: SSigs) -> bool { match r { Ok(s) => v_sel(s) == a_sel(p) && w_sel(p, fs), Err(_) => !w_sel(p, fs) } }
pub open spec fn e_ok(r: Result<FilterExpression, JSONPathError>, p: Pair<Rule>, fs: SSigs) -> bool { match r { Ok(e) => v_e(e) == a_e(p) && w_e(p, fs), Err(_) => !w_e(p, fs) } }
pub open spec fn v_es(s: Seq<FilterExpression>) -> Seq<SE> { Seq::new(s.len(), |i: int| if 0 <= i < s.len() { v_e(s[i]) } else { SE::Null }) }
pub proof fn lemma_oks_is<T, E>(s: Seq<Result<T, E>>)
    ensures match oks(s) {
        Ok(t) => t.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger t[i]] 0 <= i < s.len() ==> s[i] == Ok::<T, E>(t[i]),
        Err(e) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<T, E>(e),
    },
    decreases s.len()
{
    if s.len() > 0 {
        lemma_oks_is(s.drop_last());
        match oks(s.drop_last()) {
            Err(e) => { let i = choose|i: int| 0 <= i < s.drop_last().len() && #[trigger] s.drop_last()[i] == Err::<T, E>(e); assert(s[i] == Err::<T, E>(e)); }
            Ok(t) => {
                match s.last() {
                    Err(e) => { assert(s[s.len() - 1] == Err::<T, E>(e)); }
                    Ok(x) => { assert forall|i: int| 0 <= i < s.len() implies s[i] == Ok::<T, E>(t.push(x)[i]) by { if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); } } }
                }
            }
        }
    }
}
pub proof fn lemma_oks_f<T, E>()
    ensures forall|s: Seq<Result<T, E>>| match #[trigger] oks(s) {
        Ok(t) => t.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger t[i]] 0 <= i < s.len() ==> s[i] == Ok::<T, E>(t[i]),
        Err(e) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<T, E>(e),
    },
{
    assert forall|s: Seq<Result<T, E>>| match #[trigger] oks(s) {
        Ok(t) => t.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger t[i]] 0 <= i < s.len() ==> s[i] == Ok::<T, E>(t[i]),
        Err(e) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<T, E>(e),
    } by { lemma_oks_is(s); }
}
/// queries, selections and arguments are equal when their parts are
pub proof fn lemma_parts(p: Pair<Rule>)
    ensures
        forall|i: int| 0 <= i < p.inner@.len() ==> decreases_to!(p => #[trigger] p.inner@[i]),
#if rec=1
        forall|q: Query| #[trigger] v_q(q) == v_chain(q.ast),
#else
        forall|q: Query| q.segments@.len() == p.inner@.len() && (forall|i: int| 0 <= i < p.inner@.len() ==> v_seg(#[trigger] q.segments@[i]) == a_seg(p.inner@[i])) ==> #[trigger] v_q(q) == a_segs(p),
#fi
        p.rule is bracketed_selection ==> forall|s: Vec<Selector>| s@.len() == p.inner@.len() && (forall|i: int| 0 <= i < p.inner@.len() ==> v_sel(#[trigger] s@[i]) == a_sel(p.inner@[i])) ==> #[trigger] v_sels(s) == a_bracketed(p),
        p.inner@.len() > 0 ==> forall|s: Seq<FilterExpression>| s.len() == p.inner@.len() - 1 && (forall|i: int| 0 <= i < s.len() ==> v_e(#[trigger] s[i]) == a_e(p.inner@[i + 1])) ==> #[trigger] v_es(s) == a_args(p),
        forall|s: Vec<Selector>| s@.len() == 1 ==> #[trigger] v_sels(s) == seq![v_sel(s@[0])],
#if rec=1
        forall|a: Box<Segment>, l: Vec<Selector>| #[trigger] v_chain(Segment::Child { left: a, selectors: l }) == v_chain(*a).push(SSeg::Child(v_sels(l))),
        forall|a: Box<Segment>, l: Vec<Selector>| #[trigger] v_chain(Segment::Recursive { left: a, selectors: l }) == v_chain(*a).push(SSeg::Desc(v_sels(l))),
#else
        forall|l: Vec<Selector>| #[trigger] v_seg(Segment::Child { selectors: l }) == SSeg::Child(v_sels(l)),
        forall|l: Vec<Selector>| #[trigger] v_seg(Segment::Recursive { selectors: l }) == SSeg::Desc(v_sels(l)),
#fi
        forall|q: Box<Query>| #[trigger] v_e(FilterExpression::RelativeQuery { query: q }) == SE::Rel(v_q(*q)),
        forall|q: Box<Query>| #[trigger] v_e(FilterExpression::RootQuery { query: q }) == SE::Root(v_q(*q)),
        forall|n: String, a: Vec<FilterExpression>| #[trigger] v_e(FilterExpression::Function { name: n, args: a }) == SE::Func(n@, v_es(a@)),
#if singular=1
        forall|q: Box<Query>| #[trigger] v_sel(Selector::SingularQuery { query: q }) == SSel::Sing(v_q(*q)),
        p.rule is singular_query_selector ==> a_sel(p) == SSel::Sing(a_segs(p)) && (g_sel(p) ==> g_segs(p)) && forall|fs: SSigs| #[trigger] w_sel(p, fs) == w_segs(p, fs),
#fi
        p.inner@.len() > 0 && p.rule is child_segment ==> a_seg(p) == SSeg::Child(a_bracketed(p.inner@[0])),
        p.inner@.len() > 0 && p.rule is descendant_segment ==> a_seg(p) == SSeg::Desc(a_bracketed(p.inner@[0])),
        p.inner@.len() > 0 && p.rule is function_expr ==> a_e(p) == SE::Func(p.inner@[0].text@, a_args(p)),
        p.rule is rel_query || p.rule is rel_singular_query ==> a_e(p) == SE::Rel(a_segs(p)) && g_e(p) == g_segs(p) && forall|fs: SSigs| #[trigger] w_e(p, fs) == w_segs(p, fs),
        p.rule is root_query || p.rule is abs_singular_query ==> a_e(p) == SE::Root(a_segs(p)) && g_e(p) == g_segs(p) && forall|fs: SSigs| #[trigger] w_e(p, fs) == w_segs(p, fs),
{
    lemma_kids(p);
    assert forall|n: String, a: Vec<FilterExpression>| #[trigger] v_e(FilterExpression::Function { name: n, args: a }) == SE::Func(n@, v_es(a@)) by { assert(v_e(FilterExpression::Function { name: n, args: a })->Func_1 =~= v_es(a@)); }
#if rec=1
#else
    assert forall|q: Query| q.segments@.len() == p.inner@.len() && (forall|i: int| 0 <= i < p.inner@.len() ==> v_seg(#[trigger] q.segments@[i]) == a_seg(p.inner@[i])) implies #[trigger] v_q(q) == a_segs(p) by { assert(v_q(q) =~= a_segs(p)); }
#fi
    if p.rule is bracketed_selection {
        assert forall|s: Vec<Selector>| s@.len() == p.inner@.len() && (forall|i: int| 0 <= i < p.inner@.len() ==> v_sel(#[trigger] s@[i]) == a_sel(p.inner@[i])) implies #[trigger] v_sels(s) == a_bracketed(p) by { assert(v_sels(s) =~= a_bracketed(p)); }
    }
    if p.inner@.len() > 0 {
        assert forall|s: Seq<FilterExpression>| s.len() == p.inner@.len() - 1 && (forall|i: int| 0 <= i < s.len() ==> v_e(#[trigger] s[i]) == a_e(p.inner@[i + 1])) implies #[trigger] v_es(s) == a_args(p) by { assert(v_es(s) =~= a_args(p)); }
    }
    assert forall|s: Vec<Selector>| s@.len() == 1 implies #[trigger] v_sels(s) == seq![v_sel(s@[0])] by { assert(v_sels(s) =~= seq![v_sel(s@[0])]); }
}
/// the parts of a tree are smaller
pub proof fn lemma_kids(p: Pair<Rule>) ensures forall|i: int| 0 <= i < p.inner@.len() ==> decreases_to!(p => #[trigger] p.inner@[i]) {
    assert forall|i: int| 0 <= i < p.inner@.len() implies decreases_to!(p => #[trigger] p.inner@[i]) by { assert(decreases_to!(p => p.inner)); assert(decreases_to!(p.inner => p.inner@[i])); }
}
pub proof fn lemma_quoted(p: Pair<Rule>)
    ensures
        p.rule is single_quoted && sden(p.text@, 0) is Some ==> den(unq(p.text@), 0) == sden(p.text@, 0),
        forall|s: Seq<char>| #[trigger] text_of(scalars(s)) == s,
        encode_utf8(p.text@).len() <= i64::MAX, p.text@.len() <= i64::MAX,
        "\\'"@ =~= seq!['\\', '\''], "'"@ =~= seq!['\''],
{
    reveal_strlit("\\'"); reveal_strlit("'");
    assert(p.text@.skip(0) =~= p.text@);
    if sden(p.text@, 0) is Some { lemma_unq_den(p.text@, 0); }
    assert forall|s: Seq<char>| #[trigger] text_of(scalars(s)) == s by { lemma_text_of(s); }
    ax_str_len(p.text);
    lemma_utf8_len(p.text@);
}
#if rec=1
/// try_fold over the segments of a nested query, from the start of a chain
pub proof fn lemma_chain(p: Pair<Rule>, w: Seq<Result<Segment, JSONPathError>>, r: Result<Segment, JSONPathError>, fs: SSigs)
    requires tf_states(w, p.inner@, Segment::Root {}, r), steps_ok(w, p.inner@, fs),
    ensures match r { Ok(s) => v_chain(s) == a_segs(p) && w_segs(p, fs), Err(_) => !w_segs(p, fs) },
{
    lemma_chain_n(p, w, w.len() - 1, r, fs);
}
pub proof fn lemma_chain_n(p: Pair<Rule>, w: Seq<Result<Segment, JSONPathError>>, n: int, r: Result<Segment, JSONPathError>, fs: SSigs)
    requires 0 <= n < w.len(), tf_states(w, p.inner@, Segment::Root {}, r), steps_ok(w, p.inner@, fs),
    ensures
        w[n] is Ok ==> v_chain(w[n]->Ok_0) == a_upto(p, n) && forall|i: int| 0 <= i < n ==> w_seg(#[trigger] p.inner@[i], fs),
        w[n] is Err ==> n > 0 && !w_seg(p.inner@[n - 1], fs),
    decreases n
{
    if n > 0 {
        assert(w[n - 1] is Ok);
        lemma_chain_n(p, w, n - 1, r, fs);
        assert(seg_ok(w[n - 1 + 1], p.inner@[n - 1], fs, w[n - 1]->Ok_0));
    }
}
pub proof fn lemma_top_n(t: Seq<Pair<Rule>>, w: Seq<Result<Segment, JSONPathError>>, n: int, r: Result<Segment, JSONPathError>, fs: SSigs)
    requires 0 <= n < w.len(), tf_states(w, t, Segment::Root {}, r), steps_ok(w, t, fs),
    ensures
        w[n] is Ok ==> v_chain(w[n]->Ok_0) == a_top(t.take(n)) && forall|i: int| 0 <= i < n ==> w_seg(#[trigger] t[i], fs),
        w[n] is Err ==> n > 0 && !w_seg(t[n - 1], fs),
    decreases n
{
    if n > 0 {
        assert(w[n - 1] is Ok);
        lemma_top_n(t, w, n - 1, r, fs);
        assert(seg_ok(w[n - 1 + 1], t[n - 1], fs, w[n - 1]->Ok_0));
        assert(t.take(n).drop_last() =~= t.take(n - 1));
        assert(t.take(n).last() == t[n - 1]);
    } else { assert(t.take(0) =~= Seq::empty()); }
}
pub proof fn lemma_folds(p: Pair<Rule>, fs: SSigs)
    ensures
        forall|w: Seq<Result<Segment, JSONPathError>>, r: Result<Segment, JSONPathError>| #![trigger tf_states(w, p.inner@, Segment::Root {}, r)] tf_states(w, p.inner@, Segment::Root {}, r) && steps_ok(w, p.inner@, fs) ==>
            (match r { Ok(s) => v_chain(s) == a_segs(p) && w_segs(p, fs), Err(_) => !w_segs(p, fs) }),
{
    assert forall|w: Seq<Result<Segment, JSONPathError>>, r: Result<Segment, JSONPathError>| #![trigger tf_states(w, p.inner@, Segment::Root {}, r)] tf_states(w, p.inner@, Segment::Root {}, r) && steps_ok(w, p.inner@, fs) implies
            (match r { Ok(s) => v_chain(s) == a_segs(p) && w_segs(p, fs), Err(_) => !w_segs(p, fs) }) by { lemma_chain(p, w, r, fs); }
}
pub proof fn lemma_top(t: Seq<Pair<Rule>>, fs: SSigs)
    ensures
        forall|w: Seq<Result<Segment, JSONPathError>>, r: Result<Segment, JSONPathError>| #![trigger tf_states(w, t, Segment::Root {}, r)] tf_states(w, t, Segment::Root {}, r) && steps_ok(w, t, fs) ==>
            (match r { Ok(s) => v_chain(s) == a_top(t) && w_top(t, fs), Err(_) => !w_top(t, fs) }),
        forall|q: Query| #[trigger] v_q(q) == v_chain(q.ast),
{
    assert forall|w: Seq<Result<Segment, JSONPathError>>, r: Result<Segment, JSONPathError>| #![trigger tf_states(w, t, Segment::Root {}, r)] tf_states(w, t, Segment::Root {}, r) && steps_ok(w, t, fs) implies
            (match r { Ok(s) => v_chain(s) == a_top(t) && w_top(t, fs), Err(_) => !w_top(t, fs) }) by {
        lemma_top_n(t, w, w.len() - 1, r, fs);
        assert(t.take(t.len() as int) =~= t);
    }
}
#else
pub proof fn lemma_top(t: Seq<Pair<Rule>>, fs: SSigs)
    ensures forall|q: Query| q.segments@.len() == t.len() && (forall|i: int| 0 <= i < t.len() ==> v_seg(#[trigger] q.segments@[i]) == a_seg(t[i])) ==> #[trigger] v_q(q) == a_top(t),
{
    assert forall|q: Query| q.segments@.len() == t.len() && (forall|i: int| 0 <= i < t.len() ==> v_seg(#[trigger] q.segments@[i]) == a_seg(t[i])) implies #[trigger] v_q(q) == a_top(t) by { assert(v_q(q) =~= a_top(t)); }
}
#fi
#if rec=1
pub proof fn lemma_sing(s: Segment)
    ensures match s {
        Segment::Child { left, selectors } => s_sing(v_chain(s)) == (s_sing(v_chain(*left)) && selectors@.len() == 1 && (selectors@[0] is Name || selectors@[0] is Index)),
        Segment::Recursive { .. } => !s_sing(v_chain(s)),
        Segment::Root {} => s_sing(v_chain(s)),
    },
{
    let c = v_chain(s);
    match s {
        Segment::Child { left, selectors } => {
            let b = v_chain(*left);
            let x = SSeg::Child(v_sels(selectors));
            assert(c == b.push(x));
            assert(c[c.len() - 1] == x);
            assert(v_sels(selectors).len() == selectors@.len());
            if selectors@.len() > 0 { assert(v_sels(selectors)[0] == v_sel(selectors@[0])); }
            if s_sing(b) && s_sing_seg(x) { assert forall|i: int| 0 <= i < c.len() implies s_sing_seg(#[trigger] c[i]) by { if i < b.len() { assert(c[i] == b[i]); } } }
            if s_sing(c) { assert(s_sing_seg(c[c.len() - 1])); assert forall|i: int| 0 <= i < b.len() implies s_sing_seg(#[trigger] b[i]) by { assert(c[i] == b[i]); } }
        }
        Segment::Recursive { left, selectors } => {
            assert(c == v_chain(*left).push(SSeg::Desc(v_sels(selectors))));
            assert(s_sing_seg(c[c.len() - 1]) == false);
        }
        _ => {}
    }
}
#else
pub open spec fn sing1(s: Segment) -> bool {
    match s { Segment::Child { selectors } => selectors@.len() == 1 && (selectors@[0] is Name || selectors@[0] is Index), Segment::Recursive { .. } => false, Segment::Eoi => true }
}
pub proof fn lemma_sing(q: Query) ensures s_sing(v_q(q)) == (forall|i: int| 0 <= i < q.segments@.len() ==> sing1(#[trigger] q.segments@[i])) {
    assert forall|i: int| 0 <= i < q.segments@.len() implies s_sing_seg(#[trigger] v_q(q)[i]) == sing1(q.segments@[i]) by {
        assert(v_q(q)[i] == v_seg(q.segments@[i]));
        match q.segments@[i] { Segment::Child { selectors } => { assert(v_seg(q.segments@[i]) == SSeg::Child(v_sels(selectors))); assert(v_sels(selectors).len() == selectors@.len()); if selectors@.len() > 0 { assert(v_sels(selectors)[0] == v_sel(selectors@[0])); } } _ => {} }
    }
    if s_sing(v_q(q)) { assert forall|i: int| 0 <= i < q.segments@.len() implies sing1(#[trigger] q.segments@[i]) by { assert(s_sing_seg(v_q(q)[i])); } }
}
#fi
