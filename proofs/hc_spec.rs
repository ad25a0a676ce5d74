// ---- RFC 9535 read from left to right over tokens: the syntax that starts at s and what is left, or None if no valid syntax starts there;
// ---- names, strings and integers, typing and ranges included ----
/// the string a token denotes (escaped control characters apart, see known/findings.json)
pub open spec fn h_str(k: TokenType) -> Option<Seq<char>> {
    let w = match k { TokenType::Name { value } => Some(value@), TokenType::DoubleQuoteString { value } => Some(value@), TokenType::SingleQuoteString { value } => Some(unq(value@)), _ => None };
    if w is Some && den(w->0, 0) is Some && !has_ctrl(w->0, 0) { Some(text_of(den(w->0, 0)->0)) } else { None }
}
pub open spec fn h_int(k: TokenType) -> Option<int> { match k { TokenType::Index { value } => if int_text(value@) && in_range(int_val(value@)) { Some(int_val(value@)) } else { None }, _ => None } }
/// an integer in range, if one is there
pub open spec fn h_oint(s: Toks) -> Option<(Option<int>, Toks)> {
    if hd(s).kind is Index { match h_int(hd(s).kind) { Some(i) => Some((Some(i), tl(s))), None => None } } else { Some((None, s)) }
}
pub open spec fn h_slice(s: Toks) -> Option<(SSel, Toks)> {
    if !(hd(s).kind is Colon) && !(hd(tl(s)).kind is Colon) { match h_int(hd(s).kind) { Some(i) => Some((SSel::Index(i), tl(s))), None => None } }
    else {
        match h_oint(s) { None => None, Some((a, s1)) =>
            match h_oint(tl(s1)) { None => None, Some((b, s2)) =>
                if hd(s2).kind is Colon { match h_oint(tl(s2)) { None => None, Some((c, s3)) => Some((SSel::Slice(a, b, c), s3)) } }
                else { Some((SSel::Slice(a, b, None), s2)) } } }
    }
}
pub open spec fn h_test(e: SE, fs: SSigs) -> bool { s_test(e, fs) && !s_lit(e) }
pub open spec fn h_cmp(e: SE, fs: SSigs) -> bool { s_cmp(e, fs) && !(e is Logical || e is Cmp || e is Not) }
pub open spec fn seg_start(k: TokenType) -> bool { k is DoubleDot || k is LBracket || k is Name || k is Wild }
pub open spec fn h_segs(s: Toks, fs: SSigs) -> Option<(Seq<SSeg>, Toks)> decreases s.len(), 9int, 0int {
    if !seg_start(hd(s).kind) { Some((seq![], s)) }
    else {
        match h_seg(s, fs) {
            Some((g, m)) => if m.len() < s.len() { match h_segs(m, fs) { Some((q, t)) => Some((seq![g] + q, t)), None => None } } else { None },
            None => None,
        }
    }
}
pub open spec fn h_seg(s: Toks, fs: SSigs) -> Option<(SSeg, Toks)> decreases s.len(), 8int, 0int {
    if hd(s).kind is DoubleDot { match h_sels(tl(s), fs) { Some((l, m)) => Some((SSeg::Desc(l), m)), None => None } }
    else { match h_sels(s, fs) { Some((l, m)) => Some((SSeg::Child(l), m)), None => None } }
}
pub open spec fn h_sels(s: Toks, fs: SSigs) -> Option<(Seq<SSel>, Toks)> decreases s.len(), 7int, 0int {
    match hd(s).kind {
        TokenType::Name { .. } => match h_str(hd(s).kind) { Some(n) => Some((seq![SSel::Name(n)], tl(s))), None => None },
        TokenType::Wild => Some((seq![SSel::Wild], tl(s))),
        TokenType::LBracket => h_list(tl(s), fs),
        _ => None,
    }
}
/// selectors with commas between them, and the bracket that closes them
pub open spec fn h_list(s: Toks, fs: SSigs) -> Option<(Seq<SSel>, Toks)> decreases s.len(), 6int, 0int {
    match h_sel(s, fs) {
        Some((x, m)) => if m.len() >= s.len() { None } else if hd(m).kind is RBracket { Some((seq![x], tl(m))) }
            else if hd(m).kind is Comma { match h_list(tl(m), fs) { Some((l, t)) => Some((seq![x] + l, t)), None => None } }
            else { None },
        None => None,
    }
}
pub open spec fn h_sel(s: Toks, fs: SSigs) -> Option<(SSel, Toks)> decreases s.len(), 5int, 0int {
    match hd(s).kind {
        TokenType::DoubleQuoteString { .. } => match h_str(hd(s).kind) { Some(n) => Some((SSel::Name(n), tl(s))), None => None },
        TokenType::SingleQuoteString { .. } => match h_str(hd(s).kind) { Some(n) => Some((SSel::Name(n), tl(s))), None => None },
        TokenType::Wild => Some((SSel::Wild, tl(s))),
        TokenType::Index { .. } => h_slice(s),
        TokenType::Colon => h_slice(s),
        TokenType::Filter => match h_x(tl(s), 3, fs) { Some((e, t)) => if h_test(e, fs) { Some((SSel::Filter(Box::new(e)), t)) } else { None }, None => None },
        _ => None,
    }
}
/// an expression in which only operators of at most level l stand outside parentheses
pub open spec fn h_x(s: Toks, l: int, fs: SSigs) -> Option<(SE, Toks)> decreases s.len(), 4int, l {
    match h_basic(s, fs) { Some((a, m)) => if m.len() < s.len() { h_cont(a, m, 0, l, fs) } else { None }, None => None }
}
/// the expression of level l that starts with a, itself of level k, when m is what follows a
pub open spec fn h_cont(a: SE, m: Toks, k: int, l: int, fs: SSigs) -> Option<(SE, Toks)> decreases m.len(), 5int, l - k {
    if l <= k { Some((a, m)) }
    else { match h_cont(a, m, k, l - 1, fs) { Some((b, n)) => if n.len() > m.len() { None } else if op_lvl(hd(n).kind) == l { h_inf(b, n, fs) } else { Some((b, n)) }, None => None } }
}
/// a, an operator and the expression after it
pub open spec fn h_inf(a: SE, s: Toks, fs: SSigs) -> Option<(SE, Toks)> decreases s.len(), 4int, 0int {
    let k = hd(s).kind;
    if !is_op(k) || (is_cop(k) && hd(tl(s)).kind is LParen) { None }
    else {
        match h_x(tl(s), op_lvl(k), fs) {
            Some((b, t)) => if t.len() >= s.len() { None }
                else if is_cop(k) { if h_cmp(a, fs) && h_cmp(b, fs) { Some((SE::Cmp(Box::new(a), cop_tok(k), Box::new(b)), t)) } else { None } }
                else if h_test(a, fs) && h_test(b, fs) { Some((SE::Logical(Box::new(a), if k is And { SLop::And } else { SLop::Or }, Box::new(b)), t)) } else { None },
            None => None,
        }
    }
}
pub open spec fn h_basic(s: Toks, fs: SSigs) -> Option<(SE, Toks)> decreases s.len(), 2int, 0int {
    match hd(s).kind {
        TokenType::True => Some((SE::True, tl(s))),
        TokenType::False => Some((SE::False, tl(s))),
        TokenType::Null => Some((SE::Null, tl(s))),
        TokenType::Int { value } => Some((a_num(value@), tl(s))),
        TokenType::Float { value } => Some((a_num(value@), tl(s))),
        TokenType::DoubleQuoteString { .. } => match h_str(hd(s).kind) { Some(n) => Some((SE::Str(n), tl(s))), None => None },
        TokenType::SingleQuoteString { .. } => match h_str(hd(s).kind) { Some(n) => Some((SE::Str(n), tl(s))), None => None },
        TokenType::Root => match h_segs(tl(s), fs) { Some((q, t)) => Some((SE::Root(q), t)), None => None },
        TokenType::Current => match h_segs(tl(s), fs) { Some((q, t)) => Some((SE::Rel(q), t)), None => None },
        TokenType::Not => h_not(s, fs),
        TokenType::LParen => h_paren(s, fs),
        TokenType::Function { .. } => h_call(s, fs),
        _ => None,
    }
}
pub open spec fn h_not(s: Toks, fs: SSigs) -> Option<(SE, Toks)> decreases s.len(), 1int, 0int {
    if s.len() == 0 || hd(tl(s)).kind is Not { None }
    else { match h_x(tl(s), 0, fs) { Some((e, t)) => if h_test(e, fs) { Some((SE::Not(Box::new(e)), t)) } else { None }, None => None } }
}
/// an expression in parentheses; it is not compared
pub open spec fn h_paren(s: Toks, fs: SSigs) -> Option<(SE, Toks)> decreases s.len(), 1int, 0int {
    if s.len() == 0 { None }
    else { match h_x(tl(s), 3, fs) { Some((e, m)) => if hd(m).kind is RParen && h_test(e, fs) && !is_cop(hd(tl(m)).kind) { Some((e, tl(m))) } else { None }, None => None } }
}
pub open spec fn h_call(s: Toks, fs: SSigs) -> Option<(SE, Toks)> decreases s.len(), 1int, 0int {
    if s.len() == 0 { None }
    else {
        match hd(s).kind {
            TokenType::Function { name } => match h_args(tl(s), fs) { Some((a, t)) => if s_call(name@, a, fs) { Some((SE::Func(name@, a), t)) } else { None }, None => None },
            _ => None,
        }
    }
}
pub open spec fn h_args(s: Toks, fs: SSigs) -> Option<(Seq<SE>, Toks)> decreases s.len(), 6int, 0int {
    if hd(s).kind is RParen { Some((seq![], tl(s))) } else { h_args1(s, fs) }
}
/// arguments with commas between them, at least one, and the parenthesis that closes them
pub open spec fn h_args1(s: Toks, fs: SSigs) -> Option<(Seq<SE>, Toks)> decreases s.len(), 5int, 0int {
    match h_x(s, 3, fs) {
        Some((x, m)) => if m.len() >= s.len() { None } else if hd(m).kind is RParen { Some((seq![x], tl(m))) }
            else if hd(m).kind is Comma { match h_args1(tl(m), fs) { Some((l, t)) => Some((seq![x] + l, t)), None => None } }
            else { None },
        None => None,
    }
}
/// the valid query the tokens are
pub open spec fn h_query(s: Toks, fs: SSigs) -> Option<Seq<SSeg>> {
    if hd(s).kind is Root { match h_segs(tl(s), fs) { Some((q, t)) => if hd(t).kind is Eoq { Some(q) } else { None }, None => None } } else { None }
}
// ---- lemmas ----
/// no operator of a level up to l follows: the expression ends
pub proof fn lemma_stop(a: SE, m: Toks, k: int, l: int, fs: SSigs)
    requires 0 <= k, op_lvl(hd(m).kind) > l || op_lvl(hd(m).kind) <= k,
    ensures h_cont(a, m, k, l, fs) == Some((a, m)),
    decreases l - k
{ if l > k { lemma_stop(a, m, k, l - 1, fs); } }
/// an operator of level j follows: it is read first
pub proof fn lemma_step(a: SE, m: Toks, k: int, l: int, fs: SSigs)
    requires 0 <= k < op_lvl(hd(m).kind) <= l <= 3,
    ensures
        h_inf(a, m, fs) is None ==> h_cont(a, m, k, l, fs) is None,
        h_inf(a, m, fs) matches Some((e, t)) ==> h_cont(a, m, k, l, fs) == h_cont(e, t, op_lvl(hd(m).kind), l, fs) || h_cont(a, m, k, l, fs) is None,
    decreases l
{
    let j = op_lvl(hd(m).kind);
    if l == j { lemma_stop(a, m, k, j - 1, fs); } else { lemma_step(a, m, k, l - 1, fs); if h_inf(a, m, fs) is Some { let (e, t) = h_inf(a, m, fs)->0; lemma_len(e, t, j, l - 1, fs); } }
}
pub proof fn lemma_len(a: SE, m: Toks, k: int, l: int, fs: SSigs)
    ensures h_cont(a, m, k, l, fs) matches Some((b, n)) ==> n.len() <= m.len(),
    decreases l - k
{ if l > k { lemma_len(a, m, k, l - 1, fs); if h_cont(a, m, k, l - 1, fs) is Some { let (b, n) = h_cont(a, m, k, l - 1, fs)->0; assert(h_inf(b, n, fs) matches Some((e, t)) ==> t.len() < n.len()); } } }
pub proof fn lemma_texts() ensures forall|s: Seq<char>| #[trigger] text_of(scalars(s)) == s { assert forall|s: Seq<char>| #[trigger] text_of(scalars(s)) == s by { lemma_text_of(s); } }
pub proof fn lemma_snoc<A>(a: Seq<A>, x: A, b: Seq<A>) ensures a.push(x) + b =~= a + (seq![x] + b) {}
/// what the tokens the parser takes off are
pub proof fn lemma_ves(q: Seq<FilterExpression>, x: FilterExpression) ensures v_es(q.push(x)) =~= v_es(q).push(v_e(x)) {
    assert forall|i: int| 0 <= i < q.len() + 1 implies v_es(q.push(x))[i] == v_es(q).push(v_e(x))[i] by {}
}
pub proof fn lemma_vsegs(q: Seq<Segment>, x: Segment) ensures v_segs(q.push(x)) =~= v_segs(q).push(v_seg(x)) {
    assert forall|i: int| 0 <= i < q.len() + 1 implies v_segs(q.push(x))[i] == v_segs(q).push(v_seg(x))[i] by {}
}
pub proof fn lemma_vsels(q: Vec<Selector>, x: Selector, r: Vec<Selector>) requires r@ == q@.push(x) ensures v_sels(r) =~= v_sels(q).push(v_sel(x)) {
    assert forall|i: int| 0 <= i < q@.len() + 1 implies v_sels(r)[i] == v_sels(q).push(v_sel(x))[i] by { if i < q@.len() { assert(r@[i] == q@[i]); } }
}
/// what is still to come after the selectors read so far
pub open spec fn h_brk(s: Toks, c: Toks, l: Seq<SSel>, fs: SSigs) -> bool {
    h_list(s, fs) is Some ==> if l.len() > 0 && hd(c).kind is RBracket { h_list(s, fs) == Some((l, tl(c))) }
        else { h_list(c, fs) is Some && (h_list(s, fs)->0).0 == l + (h_list(c, fs)->0).0 && (h_list(s, fs)->0).1 == (h_list(c, fs)->0).1 }
}
pub open spec fn h_arg(s: Toks, c: Toks, l: Seq<SE>, fs: SSigs) -> bool {
    h_args(s, fs) is Some ==> h_args(c, fs) is Some && (h_args(s, fs)->0).0 == l + (h_args(c, fs)->0).0 && (h_args(s, fs)->0).1 == (h_args(c, fs)->0).1
}
pub open spec fn h_sg(s: Toks, c: Toks, l: Seq<SSeg>, fs: SSigs) -> bool {
    h_segs(s, fs) is Some ==> h_segs(c, fs) is Some && (h_segs(s, fs)->0).0 == l + (h_segs(c, fs)->0).0 && (h_segs(s, fs)->0).1 == (h_segs(c, fs)->0).1
}
/// the tokens the lexer makes of a text
pub uninterp spec fn lex_of(q: Seq<char>) -> Option<Toks>;
