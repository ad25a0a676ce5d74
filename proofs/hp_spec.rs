// ---- tokens as the lexer makes them ----
pub type Toks = Seq<Token>;
/// the tokens' texts are of the form their kinds say and their spans are small
pub open spec fn lexed1(t: Token) -> bool {
    t.span.0 <= t.span.1 <= u32::MAX && match t.kind {
        TokenType::Index { value } => kind_ok(t.kind, value@),
        TokenType::Float { value } => kind_ok(t.kind, value@),
        TokenType::Int { value } => kind_ok(t.kind, value@),
        TokenType::DoubleQuoteString { value } => kind_ok(t.kind, value@) && value@.len() <= t.span.1 - t.span.0,
        TokenType::SingleQuoteString { value } => kind_ok(t.kind, value@) && value@.len() <= t.span.1 - t.span.0,
        TokenType::Name { value } => kind_ok(t.kind, value@) && value@.len() <= t.span.1 - t.span.0,
        TokenType::Function { name } => kind_ok(t.kind, name@),
        _ => true,
    }
}
pub open spec fn lexed(s: Toks) -> bool { forall|i: int| 0 <= i < s.len() ==> lexed1(#[trigger] s[i]) }
pub open spec fn eof() -> Token { Token { kind: TokenType::Eoq, span: (0usize, 1usize) } }
/// the next token; past the end there are only end-of-query tokens
pub open spec fn hd(s: Toks) -> Token { if s.len() == 0 { eof() } else { s[0] } }
pub open spec fn tl(s: Toks) -> Toks { if s.len() == 0 { s } else { s.skip(1) } }
/// the last position of the tokens
pub open spec fn bd(s: Toks) -> int decreases s.len() { if s.len() == 0 { 1 } else if s[0].span.1 > bd(s.skip(1)) { s[0].span.1 as int } else { bd(s.skip(1)) } }
pub open spec fn mx(a: int, b: int) -> int { if a > b { a } else { b } }
/// a position that is not beyond n
pub open spec fn sp(x: (usize, usize), n: int) -> bool { x.0 <= x.1 && x.1 <= n }
/// an error, if any, is at a position not beyond n
pub open spec fn err_in<T>(r: Result<T, JSONPathError>, n: int) -> bool { r is Err ==> sp(r->Err_0.span, n) }
pub open spec fn e_span(e: FilterExpression) -> (usize, usize) {
    match e {
        FilterExpression::True { span, .. } => span, FilterExpression::False { span, .. } => span, FilterExpression::Null { span, .. } => span,
        FilterExpression::String { span, .. } => span, FilterExpression::Int { span, .. } => span, FilterExpression::Float { span, .. } => span,
        FilterExpression::Not { span, .. } => span, FilterExpression::Logical { span, .. } => span, FilterExpression::Comparison { span, .. } => span,
        FilterExpression::RelativeQuery { span, .. } => span, FilterExpression::RootQuery { span, .. } => span, FilterExpression::Function { span, .. } => span,
    }
}
/// one kind of token that the token k is
pub open spec fn is_cop(k: TokenType) -> bool { k is Eq || k is Ge || k is Gt || k is Le || k is Lt || k is Ne }
pub open spec fn is_op(k: TokenType) -> bool { is_cop(k) || k is And || k is Or }
pub open spec fn cop_tok(k: TokenType) -> SCop {
    match k { TokenType::Eq => SCop::Eq, TokenType::Ge => SCop::Ge, TokenType::Gt => SCop::Gt, TokenType::Le => SCop::Le, TokenType::Lt => SCop::Lt, _ => SCop::Ne }
}
/// how tightly an operator binds: 3 is or, 2 is and, 1 is a comparison
pub open spec fn op_lvl(k: TokenType) -> int { if k is Or { 3 } else if k is And { 2 } else if is_cop(k) { 1 } else { 9 } }
/// no operator that binds at least as tightly as level l follows
pub open spec fn stops(s: Toks, l: int) -> bool { op_lvl(hd(s).kind) > l }

// ---- RFC 9535: which tokens make which syntax; s is what is to be read, t what is left ----
/// the name or string a token denotes
pub open spec fn txt(k: TokenType, n: Seq<char>) -> bool {
    match k {
        TokenType::Name { value } => Some(scalars(n)) == den(value@, 0),
        TokenType::DoubleQuoteString { value } => Some(scalars(n)) == den(value@, 0),
        TokenType::SingleQuoteString { value } => Some(scalars(n)) == den(unq(value@), 0),
        _ => false,
    }
}
/// (only names the tokens between two parts)
pub open spec fn mid(m: Toks) -> bool { true }
pub open spec fn d_segs(s: Toks, t: Toks, q: Seq<SSeg>) -> bool decreases s.len(), 9int, q.len() {
    if q.len() == 0 { s == t } else { exists|m: Toks| #[trigger] mid(m) && m.len() <= s.len() && d_segs(s, m, q.drop_last()) && d_seg(m, t, q.last()) }
}
pub open spec fn d_seg(s: Toks, t: Toks, g: SSeg) -> bool decreases s.len(), 8int, 0int {
    match g {
        SSeg::Desc(l) => s.len() > 0 && s[0].kind is DoubleDot && d_sels(s.skip(1), t, l),
        SSeg::Child(l) => d_sels(s, t, l),
        SSeg::Eoi => false,
    }
}
pub open spec fn d_sels(s: Toks, t: Toks, l: Seq<SSel>) -> bool decreases s.len(), 7int, 0int {
    s.len() > 0 && match s[0].kind {
        TokenType::Name { .. } => t == s.skip(1) && l.len() == 1 && l[0] is Name && txt(s[0].kind, l[0]->Name_0),
        TokenType::Wild => t == s.skip(1) && l == seq![SSel::Wild],
        TokenType::LBracket => exists|m: Toks| #[trigger] mid(m) && m.len() < s.len() && d_list(s.skip(1), m, l) && m.len() > 0 && m[0].kind is RBracket && t == m.skip(1),
        _ => false,
    }
}
/// selectors with commas between them, at least one
pub open spec fn d_list(s: Toks, t: Toks, l: Seq<SSel>) -> bool decreases s.len(), 6int, l.len() {
    if l.len() == 0 { false } else if l.len() == 1 { d_sel(s, t, l[0]) }
    else { exists|m: Toks| #[trigger] mid(m) && 0 < m.len() <= s.len() && d_list(s, m, l.drop_last()) && m[0].kind is Comma && d_sel(m.skip(1), t, l.last()) }
}
pub open spec fn tok_int(k: TokenType) -> Option<int> { match k { TokenType::Index { value } => Some(int_val(value@)), _ => None } }
/// an integer, if there is one
pub open spec fn d_opt(s: Toks) -> (Option<int>, Toks) { if hd(s).kind is Index { (tok_int(hd(s).kind), tl(s)) } else { (None, s) } }
pub open spec fn d_sel(s: Toks, t: Toks, x: SSel) -> bool decreases s.len(), 5int, 0int {
    match x {
        SSel::Name(n) => s.len() > 0 && (s[0].kind is DoubleQuoteString || s[0].kind is SingleQuoteString) && txt(s[0].kind, n) && t == s.skip(1),
        SSel::Wild => s.len() > 0 && s[0].kind is Wild && t == s.skip(1),
        SSel::Index(i) => s.len() > 0 && tok_int(s[0].kind) == Some(i) && t == s.skip(1),
        SSel::Slice(a, b, c) => {
            let (x1, s1) = d_opt(s); let (x2, s2) = d_opt(tl(s1));
            let (x3, s3) = if hd(s2).kind is Colon { d_opt(tl(s2)) } else { (None, s2) };
            hd(s1).kind is Colon && a == x1 && b == x2 && c == x3 && t == s3
        },
        SSel::Filter(e) => s.len() > 0 && s[0].kind is Filter && d_x(s.skip(1), t, *e, 3) && !s_lit(*e),
        SSel::Sing(_) => false,
    }
}
/// an expression in which only operators of at most level l stand outside parentheses
pub open spec fn d_x(s: Toks, t: Toks, e: SE, l: int) -> bool decreases s.len(), 4int, l {
    if l <= 0 { d_basic(s, t, e) }
    else {
        ||| d_x(s, t, e, l - 1)
        ||| match e {
            SE::Cmp(a, o, b) => l == 1 && exists|m: Toks| #[trigger] mid(m) && 0 < m.len() <= s.len() && d_operand(s, m, *a) && is_cop(m[0].kind) && cop_tok(m[0].kind) == o && d_operand(m.skip(1), t, *b),
            SE::Logical(a, o, b) => l == (if o is And { 2int } else { 3int }) && !s_lit(*a) && !s_lit(*b)
                && exists|m: Toks| #[trigger] mid(m) && 0 < m.len() <= s.len() && d_x(s, m, *a, l - 1) && (if o is And { m[0].kind is And } else { m[0].kind is Or }) && d_x(m.skip(1), t, *b, l),
            _ => false,
        }
    }
}
/// what may be compared: a literal, a query or a function call, without parentheses
pub open spec fn d_operand(s: Toks, t: Toks, e: SE) -> bool decreases s.len(), 3int, 0int {
    s.len() > 0 && !(s[0].kind is LParen) && !(s[0].kind is Not) && d_basic(s, t, e)
}
pub open spec fn d_basic(s: Toks, t: Toks, e: SE) -> bool decreases s.len(), 2int, 0int {
    s.len() > 0 && match s[0].kind {
        TokenType::True => e is True && t == s.skip(1),
        TokenType::False => e is False && t == s.skip(1),
        TokenType::Null => e is Null && t == s.skip(1),
        TokenType::Int { value } => e == a_num(value@) && t == s.skip(1),
        TokenType::Float { value } => e == a_num(value@) && t == s.skip(1),
        TokenType::DoubleQuoteString { .. } => e is Str && txt(s[0].kind, e->Str_0) && t == s.skip(1),
        TokenType::SingleQuoteString { .. } => e is Str && txt(s[0].kind, e->Str_0) && t == s.skip(1),
        TokenType::Root => e is Root && d_segs(s.skip(1), t, e->Root_0),
        TokenType::Current => e is Rel && d_segs(s.skip(1), t, e->Rel_0),
        TokenType::Not => e is Not && !s_lit(*e->Not_0) && s.len() > 1 && !(s[1].kind is Not) && d_basic(s.skip(1), t, *e->Not_0),
        TokenType::LParen => !s_lit(e) && exists|m: Toks| #[trigger] mid(m) && 0 < m.len() < s.len() && d_x(s.skip(1), m, e, 3) && m[0].kind is RParen && t == m.skip(1),
        TokenType::Function { name } => e is Func && e->Func_0 == name@ && exists|m: Toks| #[trigger] mid(m) && m.len() < s.len() && m.len() > 0 && d_args(s.skip(1), m, e->Func_1) && m[0].kind is RParen && t == m.skip(1),
        _ => false,
    }
}
/// arguments with commas between them
pub open spec fn d_args(s: Toks, t: Toks, a: Seq<SE>) -> bool decreases s.len(), 5int, a.len() {
    if a.len() == 0 { s == t } else if a.len() == 1 { d_x(s, t, a[0], 3) }
    else { exists|m: Toks| #[trigger] mid(m) && 0 < m.len() <= s.len() && d_args(s, m, a.drop_last()) && m[0].kind is Comma && d_x(m.skip(1), t, a.last(), 3) }
}
/// the query the tokens of a text make
pub open spec fn d_query(s: Toks, q: Seq<SSeg>) -> bool { s.len() > 0 && s[0].kind is Root && exists|m: Toks| #[trigger] mid(m) && d_segs(s.skip(1), m, q) && hd(m).kind is Eoq }
