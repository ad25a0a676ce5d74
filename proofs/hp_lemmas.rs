pub open spec fn rest_of(s: Toks, t: Toks) -> bool { t.len() <= s.len() && lexed(t) && bd(t) <= bd(s) }
pub open spec fn prec(k: TokenType) -> u8 { if k is And { 4u8 } else if is_cop(k) { 5u8 } else if k is Not { 7u8 } else if k is Or { 3u8 } else { 1u8 } }
pub open spec fn lvl_of(p: int) -> int { if p <= 3 { 3 } else if p == 4 { 2 } else if p == 5 { 1 } else { 0 } }
/// e is l, an operator and what is read after it
pub open spec fn infix(s: Toks, t: Toks, l: SE, e: SE) -> bool {
    let k = hd(s).kind;
    if is_cop(k) { e is Cmp && *e->Cmp_0 == l && e->Cmp_1 == cop_tok(k) && d_operand(tl(s), t, *e->Cmp_2) && !(l is Logical || l is Cmp || l is Not) }
    else { e is Logical && *e->Logical_0 == l && (e->Logical_1 is And) == (k is And) && !s_lit(l) && !s_lit(*e->Logical_2) && d_x(tl(s), t, *e->Logical_2, op_lvl(k)) }
}
pub proof fn lemma_up(s: Toks, t: Toks, e: SE, a: int, b: int)
    requires d_x(s, t, e, a), a <= b, 0 <= a,
    ensures d_x(s, t, e, b),
    decreases b - a
{ if a < b { lemma_up(s, t, e, a, b - 1); } }
/// the operator after an expression of level lv binds the expression before it
pub proof fn lemma_infix(s0: Toks, m: Toks, t: Toks, l: SE, e: SE, lv: int)
    requires 0 < m.len() <= s0.len(), is_op(hd(m).kind), infix(m, t, l, e), 0 <= lv < op_lvl(hd(m).kind), d_x(s0, m, l, lv), hd(s0).kind is LParen && lv == 0 ==> !is_cop(hd(m).kind),
    ensures d_x(s0, t, e, op_lvl(hd(m).kind)),
{
    let k = op_lvl(hd(m).kind);
    assert(mid(m));
    lemma_up(s0, m, l, lv, k - 1);
    assert(hd(m) == m[0] && tl(m) == m.skip(1));
    if k == 1 {
        assert(d_basic(s0, m, l));
        assert(d_operand(s0, m, l));
        assert(d_x(s0, t, e, 1));
    } else { assert(d_x(s0, t, e, k)); }
}
pub proof fn lemma_push_seg(s: Toks, m: Toks, t: Toks, q: Seq<Segment>, x: Segment, fs: SSigs)
    requires m.len() <= s.len(), d_segs(s, m, v_segs(q)), d_seg(m, t, v_seg(x)), s_ok_q(v_segs(q), fs), s_ok_seg(v_seg(x), fs),
    ensures d_segs(s, t, v_segs(q.push(x))), s_ok_q(v_segs(q.push(x)), fs),
{
    let w = v_segs(q.push(x));
    assert(mid(m));
    assert(w.drop_last() =~= v_segs(q));
    assert(w.last() == v_seg(x));
    assert(d_segs(s, m, w.drop_last()));
    assert forall|i: int| 0 <= i < w.len() implies s_ok_seg(#[trigger] w[i], fs) by { if i < q.len() { assert(w[i] == v_segs(q)[i]); } }
}
/// between the selectors of a bracketed selection
pub open spec fn brk_inv(s: Toks, t: Toks, l: Seq<SSel>) -> bool {
    if l.len() == 0 { s == t }
    else { (d_list(s, t, l) && hd(t).kind is RBracket) || after_comma(s, t, l) }
}
pub open spec fn after_comma(s: Toks, t: Toks, l: Seq<SSel>) -> bool { !(hd(t).kind is RBracket) && exists|m: Toks| #[trigger] mid(m) && 0 < m.len() <= s.len() && d_list(s, m, l) && m[0].kind is Comma && t == m.skip(1) }
pub open spec fn brk_done(s: Toks, t: Toks, l: Seq<SSel>) -> bool { exists|m: Toks| #[trigger] mid(m) && 0 < m.len() <= s.len() && d_list(s, m, l) && m[0].kind is RBracket && t == m.skip(1) }
/// one more selector
pub proof fn lemma_push_sel(s: Toks, m: Toks, t: Toks, q: Vec<Selector>, x: Selector, r: Vec<Selector>, fs: SSigs)
    requires brk_inv(s, m, v_sels(q)), !(hd(m).kind is RBracket), d_sel(m, t, v_sel(x)), r@ == q@.push(x), s_ok_sels(v_sels(q), fs), s_ok_sel(v_sel(x), fs),
    ensures d_list(s, t, v_sels(r)), s_ok_sels(v_sels(r), fs), v_sels(r).len() > 0,
{
    let w = v_sels(r);
    assert(w.drop_last() =~= v_sels(q));
    assert(w.last() == v_sel(x));
    if q@.len() == 0 { assert(w.len() == 1); assert(w[0] == v_sel(x)); }
    else { let c = choose|c: Toks| #[trigger] mid(c) && 0 < c.len() <= s.len() && d_list(s, c, v_sels(q)) && c[0].kind is Comma && m == c.skip(1); assert(d_list(s, c, w.drop_last())); }
    assert forall|i: int| 0 <= i < w.len() implies s_ok_sel(#[trigger] w[i], fs) by { if i < q@.len() { assert(w[i] == v_sels(q)[i]); } }
}
pub proof fn lemma_ascii_len(v: Seq<char>) requires forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i] as u32) < 0x80 ensures encode_utf8(v).len() == v.len() decreases v.len() {
    if v.len() > 0 {
        let w = v.drop_first();
        assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i] as u32) < 0x80 by { assert(w[i] == v[i + 1]); }
        lemma_ascii_len(w);
        assert(encode_utf8(v) == encode_scalar(v[0] as u32) + encode_utf8(w));
        assert(encode_scalar(v[0] as u32).len() == 1);
    }
}
pub proof fn lemma_index_text(v: Seq<char>)
    requires index_text(v),
    ensures i64_text(v), int_text(v) == !(v.len() > 1 && (v[0] == '0' || (v[0] == '-' && v[1] == '0'))), encode_utf8(v).len() == v.len(), "-0"@ =~= seq!['-', '0'],
        v.len() > 1 ==> (v.take(2) =~= seq!['-', '0']) == (v[0] == '-' && v[1] == '0'),
{
    reveal_strlit("-0");
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i] as u32) < 0x80 by { if v[0] == '-' && i > 0 { assert(v.skip(1)[i - 1] == v[i]); } }
    lemma_ascii_len(v);
    if v[0] == '-' { assert(!is_dig('-')); if v.len() > 1 { assert(v.skip(1)[0] == v[1]); } }
}
pub open spec fn s_ok_es(a: Seq<SE>, fs: SSigs) -> bool { forall|i: int| 0 <= i < a.len() ==> s_ok(#[trigger] a[i], fs) }
/// between the arguments of a call
pub open spec fn arg_inv(s: Toks, t: Toks, a: Seq<SE>) -> bool {
    if a.len() == 0 { s == t } else { !(hd(t).kind is RParen) && exists|m: Toks| #[trigger] mid(m) && 0 < m.len() <= s.len() && d_args(s, m, a) && m[0].kind is Comma && t == m.skip(1) }
}
/// one more argument
pub proof fn lemma_push_arg(s: Toks, m: Toks, t: Toks, q: Seq<FilterExpression>, x: FilterExpression, lv: int, r: Seq<FilterExpression>, fs: SSigs)
    requires arg_inv(s, m, v_es(q)), d_x(m, t, v_e(x), lv), 0 <= lv <= 3, r == q.push(x), s_ok_es(v_es(q), fs), s_ok(v_e(x), fs),
    ensures d_args(s, t, v_es(r)), s_ok_es(v_es(r), fs), v_es(r).len() > 0,
{
    lemma_up(m, t, v_e(x), lv, 3);
    let w = v_es(r);
    assert(w.drop_last() =~= v_es(q));
    assert(w.last() == v_e(x));
    if q.len() == 0 { assert(w.len() == 1); assert(w[0] == v_e(x)); }
    else { let c = choose|c: Toks| #[trigger] mid(c) && 0 < c.len() <= s.len() && d_args(s, c, v_es(q)) && c[0].kind is Comma && m == c.skip(1); assert(d_args(s, c, w.drop_last())); }
    assert forall|i: int| 0 <= i < w.len() implies s_ok(#[trigger] w[i], fs) by { if i < q.len() { assert(w[i] == v_es(q)[i]); } }
}
pub open spec fn sing1(s: Segment) -> bool {
    match s { Segment::Child { selectors, .. } => selectors@.len() == 1 && (selectors@[0] is Name || selectors@[0] is Index), Segment::Recursive { .. } => false }
}
pub proof fn lemma_sing(q: Query) ensures s_sing(v_q(q)) == (forall|i: int| 0 <= i < q.segments@.len() ==> sing1(#[trigger] q.segments@[i])) {
    assert forall|i: int| 0 <= i < q.segments@.len() implies s_sing_seg(#[trigger] v_q(q)[i]) == sing1(q.segments@[i]) by {
        assert(v_q(q)[i] == v_seg(q.segments@[i]));
        match q.segments@[i] { Segment::Child { selectors, .. } => { assert(v_seg(q.segments@[i]) == SSeg::Child(v_sels(selectors))); assert(v_sels(selectors).len() == selectors@.len()); if selectors@.len() > 0 { assert(v_sels(selectors)[0] == v_sel(selectors@[0])); } } _ => {} }
    }
    if s_sing(v_q(q)) { assert forall|i: int| 0 <= i < q.segments@.len() implies sing1(#[trigger] q.segments@[i]) by { assert(s_sing_seg(v_q(q)[i])); } }
}
pub proof fn lemma_vq() ensures forall|q: Query| #[trigger] v_q(q) == v_segs(q.segments@) {
    assert forall|q: Query| #[trigger] v_q(q) == v_segs(q.segments@) by { assert(v_q(q) =~= v_segs(q.segments@)); }
}
pub proof fn lemma_unq_len(s: Seq<char>) ensures unq(s).len() <= s.len() decreases s.len() {
    if s.len() == 0 {} else if s[0] == '\\' && s.len() > 1 && s[1] == '\'' { lemma_unq_len(s.skip(2)); } else { lemma_unq_len(s.skip(1)); }
}
/// what the next token's text says about what std makes of it
pub proof fn lemma_basic(s: Toks) requires lexed(s)
    ensures
        s.len() > 0 ==> lexed1(s[0]), lexed(tl(s)), lexed1(hd(s)), sp(hd(s).span, bd(s)), bd(tl(s)) <= bd(s),
        "\\'"@ =~= seq!['\\', '\''], "'"@ =~= seq!['\''],
        match hd(s).kind {
            TokenType::Int { value } => num_text(value@) && !num_broken(value@) && value@.len() > 0 && value@[0] != '+',
            TokenType::Float { value } => num_text(value@) && num_broken(value@) && value@.len() > 0 && value@[0] != '+',
            TokenType::Name { value } => value@.len() <= hd(s).span.1 - hd(s).span.0 && unq(value@).len() <= value@.len(),
            TokenType::DoubleQuoteString { value } => value@.len() <= hd(s).span.1 - hd(s).span.0 && unq(value@).len() <= value@.len(),
            TokenType::SingleQuoteString { value } => value@.len() <= hd(s).span.1 - hd(s).span.0 && unq(value@).len() <= value@.len(),
            _ => true,
        },
{
    reveal_strlit("\\'"); reveal_strlit("'");
    if s.len() > 0 {
        assert(lexed1(s[0]));
        assert forall|i: int| 0 <= i < tl(s).len() implies lexed1(#[trigger] tl(s)[i]) by { assert(tl(s)[i] == s[i + 1]); assert(lexed1(s[i + 1])); }
    }
    match hd(s).kind {
        TokenType::Int { value } => { lemma_num(value@); }
        TokenType::Float { value } => { lemma_num(value@); }
        TokenType::Name { value } => { lemma_unq_len(value@); }
        TokenType::DoubleQuoteString { value } => { lemma_unq_len(value@); }
        TokenType::SingleQuoteString { value } => { lemma_unq_len(value@); }
        _ => {}
    }
}
pub proof fn lemma_mono2(s: Seq<char>, a: int, b: int) requires bound(s, a), bound(s, b), a <= b ensures cix(s, a) <= cix(s, b), 0 <= cix(s, a), cix(s, b) <= s.len() {
    if cix(s, b) < cix(s, a) { lemma_boff(s, cix(s, b), cix(s, a)); }
}
/// no token of a text lies beyond its end
pub proof fn lemma_bd(t: Toks, n: int)
    requires forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).span.1 <= n,
    ensures bd(t) <= (if n < 1 { 1 } else { n }),
    decreases t.len()
{ if t.len() > 0 { let u = t.skip(1); assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]).span.1 <= n by { assert(u[i] == t[i + 1]); } lemma_bd(u, n); } }
pub proof fn lemma_spans(q: Seq<char>)
    requires boff(q, q.len() as int) <= u32::MAX,
    ensures forall|t: Toks| #[trigger] toks_ok(t, q) && t.len() > 0 ==> sp(hd(t).span, boff(q, q.len() as int)) && (hd(t).kind is Root ==> bd(t) <= boff(q, q.len() as int)),
{
    let n = boff(q, q.len() as int);
    assert forall|t: Toks| #[trigger] toks_ok(t, q) && t.len() > 0 implies sp(hd(t).span, n) && (hd(t).kind is Root ==> bd(t) <= n) by {
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).span.1 <= n by { assert(tok_ok(t[i], q)); lemma_boff(q, cix(q, t[i].span.1 as int), q.len() as int); }
        lemma_bd(t, n);
        assert(tok_ok(t[0], q));
        lemma_mono2(q, t[0].span.0 as int, t[0].span.1 as int);
        if hd(t).kind is Root { assert(q.len() > 0); lemma_boff(q, 0, q.len() as int); }
    }
}
/// the lexer's tokens are of the form the parser relies on
pub proof fn lemma_lexed(q: Seq<char>)
    requires boff(q, q.len() as int) <= u32::MAX,
    ensures forall|t: Toks| #[trigger] toks_ok(t, q) ==> lexed(t),
{
    assert forall|t: Toks| #[trigger] toks_ok(t, q) implies lexed(t) by {
        assert forall|i: int| 0 <= i < t.len() implies lexed1(#[trigger] t[i]) by {
            assert(tok_ok(t[i], q));
            lemma_boff(q, cix(q, t[i].span.1 as int), q.len() as int);
            lemma_mono2(q, t[i].span.0 as int, t[i].span.1 as int);
            lemma_boff(q, cix(q, t[i].span.0 as int), cix(q, t[i].span.1 as int));
        }
    }
}

/// what stands after a comparison operator
pub proof fn lemma_right(s: Toks, t: Toks, e: SE)
    requires d_x(s, t, e, 1), !(e is Logical || e is Cmp || e is Not), !(hd(s).kind is LParen),
    ensures d_operand(s, t, e),
{ assert(d_x(s, t, e, 0)); assert(d_basic(s, t, e)); }
