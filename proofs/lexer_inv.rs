pub open spec fn wf(l: Lexer) -> bool { l.chars.q@ == l.query@ && 0 <= l.chars.i@ <= l.query@.len() && l.pos == boff(l.query@, l.chars.i@) && boff(l.query@, l.query@.len() as int) <= u32::MAX && l.query@.len() <= u32::MAX }
/// the character the lexer looks at: \0 at the end
pub open spec fn cur(l: Lexer) -> char { if l.chars.i@ < l.query@.len() { l.query@[l.chars.i@] } else { '\0' } }
pub open spec fn adv(a: Lexer, b: Lexer, k: int) -> bool {
    b.query == a.query && b.tokens == a.tokens && b.start == a.start && b.filter_depth == a.filter_depth && b.paren_stack == a.paren_stack && b.filter_parens == a.filter_parens
        && b.chars.q == a.chars.q && b.chars.i@ == a.chars.i@ + k && k >= 0 && b.chars.i@ <= a.query@.len()
}
/// where the token being read starts
pub open spec fn tok_from(l: Lexer) -> int { cix(l.query@, l.start as int) }
/// the text of the token being read
pub open spec fn text(l: Lexer) -> Seq<char> { l.query@.subrange(cix(l.query@, l.start as int), l.chars.i@) }
pub open spec fn counts(l: Lexer) -> bool { l.filter_depth <= l.chars.i@ && forall|k: int| 0 <= k < l.paren_stack@.len() ==> 1 <= #[trigger] l.paren_stack@[k] <= l.chars.i@ }
/// the tokens so far are in order and followed by a gap only, up to start
#[verifier::opaque]
pub open spec fn core(s: Seq<char>, t: Seq<Token>, start: int) -> bool {
    bound(s, start) && toks_ok(t, s) && tok_end(t, t.len() as int) <= start && gap(s, cix(s, tok_end(t, t.len() as int)), cix(s, start))
}
pub open spec fn inv(l: Lexer) -> bool { wf(l) && cix(l.query@, l.start as int) <= l.chars.i@ && core(l.query@, l.tokens@, l.start as int) && counts(l) }
pub open spec fn clean(l: Lexer) -> bool { l.start == l.pos }
pub open spec fn same(a: Lexer, b: Lexer) -> bool { b.query == a.query && b.filter_depth == a.filter_depth && b.paren_stack == a.paren_stack && b.filter_parens == a.filter_parens && b.chars.q == a.chars.q }
pub open spec fn emitted(a: Lexer, b: Lexer, t: TokenType) -> bool {
    same(a, b) && b.chars.i@ == a.chars.i@ && b.tokens@ == a.tokens@.push(Token { kind: t, span: (a.start, a.pos) }) && b.start == a.pos && b.pos == a.pos
        && (open_toks(a.tokens@) && !last_kind(t) ==> open_toks(b.tokens@)) && (open_toks(a.tokens@) && t is Eoq && a.chars.i@ == a.query@.len() ==> fin(b))
}
pub open spec fn ignored(a: Lexer, b: Lexer) -> bool { same(a, b) && b.chars.i@ == a.chars.i@ && b.tokens == a.tokens && b.start == a.pos && b.pos == a.pos }
pub open spec fn skipped(a: Lexer, b: Lexer) -> bool { same(a, b) && b.chars.i@ >= a.chars.i@ && b.tokens == a.tokens }
/// tokenization is over, with exactly one end-of-input or error token, at the end
pub open spec fn fin(l: Lexer) -> bool { toks_ok(l.tokens@, l.query@) && closed_toks(l.tokens@) && ends(l.tokens@, l.query@) }
pub open spec fn over(st: State) -> bool { st is Error || st is EndOfQuery }
pub open spec fn at_quote(l: Lexer, c: char) -> bool { l.chars.i@ > 0 && cix(l.query@, l.start as int) == l.chars.i@ - 1 && l.query@[l.chars.i@ - 1] == c }
pub open spec fn state_ok(l: Lexer, st: State) -> bool {
    open_toks(l.tokens@) && match st {
        State::Error | State::EndOfQuery => false,
        State::LexRoot => clean(l),
        State::LexSegment | State::LexDescendantSegment | State::LexInsideBracketedSegment => clean(l),
        State::LexInsideFilter => clean(l) && l.filter_depth > 0,
        State::LexShorthandSegment => at_quote(l, '.'),
        State::LexInsideSingleQuotedString => at_quote(l, '\''),
        State::LexInsideDoubleQuotedString => at_quote(l, '"'),
        State::LexInsideSingleQuotedFilterString => at_quote(l, '\'') && l.filter_depth > 0,
        State::LexInsideDoubleQuotedFilterString => at_quote(l, '"') && l.filter_depth > 0,
    }
}
pub open spec fn rank(l: Lexer, st: State) -> int { if over(st) { 0 } else if st is LexSegment { if cur(l) == '.' || cur(l) == '[' { 1 } else { 3 } } else { 2 } }
pub open spec fn less(a: Lexer, s: State, b: Lexer, t: State) -> bool {
    over(t) || b.chars.i@ > a.chars.i@ || (b.chars.i@ == a.chars.i@ && (b.filter_depth < a.filter_depth || (b.filter_depth == a.filter_depth && rank(b, t) < rank(a, s))))
}
pub open spec fn step(a: Lexer, s: State, b: Lexer, t: State) -> bool {
    b.query == a.query && (if over(t) { fin(b) } else { inv(b) && state_ok(b, t) }) && less(a, s, b, t)
}
pub open spec fn str_state(q: char, next: State) -> State {
    if next is LexInsideFilter { if q == '"' { State::LexInsideDoubleQuotedFilterString } else { State::LexInsideSingleQuotedFilterString } }
    else { if q == '"' { State::LexInsideDoubleQuotedString } else { State::LexInsideSingleQuotedString } }
}
pub open spec fn num_start(l: Lexer) -> bool { (clean(l) && is_dig(cur(l))) || at_quote(l, '-') }
/// a number token, or an error
pub open spec fn step_num(a: Lexer, b: Lexer, t: State) -> bool {
    b.query == a.query && (if over(t) { fin(b) } else { inv(b) && t is LexInsideFilter && state_ok(b, t) && b.chars.i@ > a.chars.i@ })
}
pub proof fn lemma_mono(s: Seq<char>, a: int, b: int) requires bound(s, a), bound(s, b), a <= b ensures cix(s, a) <= cix(s, b), 0 <= cix(s, a), cix(s, b) <= s.len(), a == b ==> cix(s, a) == cix(s, b) {
    if cix(s, b) < cix(s, a) { lemma_boff(s, cix(s, b), cix(s, a)); }
}
pub proof fn lemma_start(l: Lexer) requires inv(l) ensures l.start <= l.pos, bound(l.query@, l.start as int), cix(l.query@, l.pos as int) == l.chars.i@, bound(l.query@, l.pos as int) { reveal(core); lemma_at(l.query@, l.pos as int, l.chars.i@); lemma_boff(l.query@, cix(l.query@, l.start as int), l.chars.i@); }
pub proof fn lemma_eoq(l: Lexer, t: TokenType) requires inv(l), kind_ok(t, text(l)), t is Eoq ensures l.start == l.pos { reveal(core); assert(text(l).len() == 0); }
pub proof fn lemma_emit(l: Lexer, t: TokenType) requires inv(l), kind_ok(t, text(l)) ensures toks_ok(l.tokens@.push(Token { kind: t, span: (l.start, l.pos) }), l.query@), core(l.query@, l.tokens@.push(Token { kind: t, span: (l.start, l.pos) }), l.pos as int), l.tokens@.push(Token { kind: t, span: (l.start, l.pos) }).drop_last() == l.tokens@, kind_ok(t, text(l)), t is Eoq ==> l.start == l.pos {
    hide(kind_ok);
    if t is Eoq { lemma_eoq(l, t); }
    reveal(core);
    assert(l.tokens@.push(Token { kind: t, span: (l.start, l.pos) }).drop_last() =~= l.tokens@);
    let n = Token { kind: t, span: (l.start, l.pos) };
    let ts = l.tokens@.push(n);
    lemma_at(l.query@, l.pos as int, l.chars.i@);
    lemma_boff(l.query@, cix(l.query@, l.start as int), l.chars.i@);
    assert forall|k: int| 0 <= k < ts.len() implies tok_ok(#[trigger] ts[k], l.query@) && tok_end(ts, k) <= ts[k].span.0 && gap(l.query@, cix(l.query@, tok_end(ts, k)), cix(l.query@, ts[k].span.0 as int)) by {
        if k < l.tokens@.len() { assert(ts[k] == l.tokens@[k]); if k > 0 { assert(ts[k - 1] == l.tokens@[k - 1]); } assert(tok_end(ts, k) == tok_end(l.tokens@, k)); }
        else { if k > 0 { assert(ts[k - 1] == l.tokens@[k - 1]); } assert(tok_end(ts, k) == tok_end(l.tokens@, k)); }
    }
}
pub proof fn lemma_error(l: Lexer, t: Token) requires inv(l), open_toks(l.tokens@), t.kind is Error, t.span == (l.start, l.pos) ensures toks_ok(l.tokens@.push(t), l.query@), closed_toks(l.tokens@.push(t)), ends(l.tokens@.push(t), l.query@) {
    lemma_emit(l, t.kind);
    assert(l.tokens@.push(t).drop_last() =~= l.tokens@);
}
/// the last token is inside the text
pub proof fn lemma_last(q: Seq<char>) ensures forall|t: Seq<Token>| #[trigger] toks_ok(t, q) && t.len() > 0 ==> t.last().span.0 <= t.last().span.1 <= boff(q, q.len() as int) {
    assert forall|t: Seq<Token>| #[trigger] toks_ok(t, q) && t.len() > 0 implies t.last().span.0 <= t.last().span.1 <= boff(q, q.len() as int) by {
        assert(tok_ok(t[t.len() - 1], q));
        lemma_boff(q, cix(q, t.last().span.1 as int), q.len() as int);
    }
}
pub trait VxCopied<T: Copy> { spec fn vx_cp(self) -> Option<T>; fn vx_copied(self) -> (r: Option<T>) ensures r == self.vx_cp(); }
impl<'a, T: Copy> VxCopied<T> for Option<&'a T> { open spec fn vx_cp(self) -> Option<T> { match self { Some(x) => Some(*x), None => None } } fn vx_copied(self) -> (r: Option<T>) { match self { Some(x) => Some(*x), None => None } } }
pub trait VxBoxed { spec fn vx_bx(&self) -> Seq<char>; fn vx_boxed(self) -> (r: Box<str>) ensures r@ == self.vx_bx(); }
impl VxBoxed for String { open spec fn vx_bx(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_boxed(self) -> (r: Box<str>) { self.into_boxed_str() } }
pub trait VxBytes { spec fn vx_bs(&self) -> Seq<char>;
    fn vx_blen(&self) -> (r: usize) ensures r == boff(self.vx_bs(), self.vx_bs().len() as int);
    fn vx_bytes_of(&self, b: VxRange<usize>) -> (r: Option<&str>)
        ensures bound(self.vx_bs(), b.lo as int) && bound(self.vx_bs(), b.hi as int) && b.lo <= b.hi ==> r is Some && r.unwrap()@ == span_text(self.vx_bs(), b.lo as int, b.hi as int);
    fn vx_char_indices<'a>(&'a self) -> (r: CharIndices<'a>) ensures r.q@ == self.vx_bs(), r.i@ == 0;
}
impl VxBytes for str { open spec fn vx_bs(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_blen(&self) -> (r: usize) { self.len() }
    #[verifier::external_body] fn vx_bytes_of(&self, b: VxRange<usize>) -> (r: Option<&str>) { self.get(b.lo..b.hi) }
    #[verifier::external_body] fn vx_char_indices<'a>(&'a self) -> (r: CharIndices<'a>) { unimplemented!() }
}
pub trait VxUtf8 { spec fn vx_c8(self) -> char; fn vx_len_utf8(self) -> (r: usize) ensures r == clen(self.vx_c8()); }
impl VxUtf8 for char { open spec fn vx_c8(self) -> char { self } #[verifier::external_body] fn vx_len_utf8(self) -> (r: usize) { self.len_utf8() } }
/// the text without its leading c
pub open spec fn strip(s: Seq<char>, c: char) -> Seq<char> decreases s.len() { if s.len() > 0 && s[0] == c { strip(s.skip(1), c) } else { s } }
pub trait VxTrim { spec fn vx_t(&self) -> Seq<char>; fn vx_trim_start<'a>(&'a self, c: char) -> (r: &'a str) ensures r@ == strip(self.vx_t(), c); }
impl VxTrim for str { open spec fn vx_t(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_trim_start<'a>(&'a self, c: char) -> (r: &'a str) { self.trim_start_matches(c) } }
pub trait VxStarts { spec fn vx_st(&self) -> Seq<char>; fn vx_starts_with(&self, c: char) -> (r: bool) ensures r == (self.vx_st().len() > 0 && self.vx_st()[0] == c); }
impl VxStarts for str { open spec fn vx_st(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_starts_with(&self, c: char) -> (r: bool) { self.starts_with(c) } }
pub trait VxNone { spec fn vx_nn(&self) -> Seq<char>; fn vx_is_empty(&self) -> (r: bool) ensures r == (self.vx_nn().len() == 0); }
impl VxNone for str { open spec fn vx_nn(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { self.is_empty() } }
// ---- strings, read from left to right ----
pub enum SS { Plain, Esc, Bad }
pub open spec fn sd(n: SS, q: char, c: char) -> SS {
    match n { SS::Plain => if c == '\\' { SS::Esc } else if c == q || c == '\0' { SS::Bad } else { SS::Plain }, SS::Esc => if esc_char(c) || c == q { SS::Plain } else { SS::Bad }, SS::Bad => SS::Bad }
}
pub open spec fn ss(s: Seq<char>, q: char, a: int, i: int) -> SS decreases i - a { if i <= a { SS::Plain } else { sd(ss(s, q, a, i - 1), q, s[i - 1]) } }
pub proof fn lemma_bad(s: Seq<char>, q: char, a: int, i: int, j: int) requires a <= i <= j, ss(s, q, a, i) is Bad ensures ss(s, q, a, j) is Bad decreases j - i { if i < j { lemma_bad(s, q, a, i, j - 1); } }
pub proof fn lemma_ss(s: Seq<char>, q: char, a: int, i: int, j: int) requires 0 <= a <= i <= j <= s.len(), ss(s, q, a, i) is Plain, ss(s, q, a, j) is Plain, q != '\\' ensures str_from(s.subrange(a, j), q, i - a) decreases j - i {
    if i < j {
        let t = s.subrange(a, j);
        assert(t[i - a] == s[i]);
        reveal_with_fuel(ss, 3);
        if ss(s, q, a, i + 1) is Bad { lemma_bad(s, q, a, i + 1, j); }
        if s[i] == '\\' {
            assert(i + 1 < j);
            if ss(s, q, a, i + 2) is Bad { lemma_bad(s, q, a, i + 2, j); }
            assert(t[i + 1 - a] == s[i + 1]);
            lemma_ss(s, q, a, i + 2, j);
        } else { lemma_ss(s, q, a, i + 1, j); }
    }
}
pub proof fn lemma_strs(s: Seq<char>, q: char, a: int) requires 0 <= a, q != '\\' ensures forall|j: int| a <= j <= s.len() && ss(s, q, a, j) is Plain ==> #[trigger] str_from(s.subrange(a, j), q, 0) {
    assert forall|j: int| a <= j <= s.len() && ss(s, q, a, j) is Plain implies #[trigger] str_from(s.subrange(a, j), q, 0) by { lemma_ss(s, q, a, a, j); }
}
// ---- numbers, read from left to right ----
/// what has been read of a number; F: with a fraction, M: with a negative exponent
pub enum NS { Start, Minus, Zero, Int, Dot, Frac, FE, FSign, FExp, E, Plus, Exp, EMinus, MExp, Bad }
pub open spec fn nd(n: NS, c: char) -> NS {
    match n {
        NS::Start => if c == '-' { NS::Minus } else if c == '0' { NS::Zero } else if is_dig(c) { NS::Int } else { NS::Bad },
        NS::Minus => if c == '0' { NS::Zero } else if is_dig(c) { NS::Int } else { NS::Bad },
        NS::Zero => if c == '.' { NS::Dot } else if c == 'e' || c == 'E' { NS::E } else { NS::Bad },
        NS::Int => if is_dig(c) { NS::Int } else if c == '.' { NS::Dot } else if c == 'e' || c == 'E' { NS::E } else { NS::Bad },
        NS::Dot => if is_dig(c) { NS::Frac } else { NS::Bad },
        NS::Frac => if is_dig(c) { NS::Frac } else if c == 'e' || c == 'E' { NS::FE } else { NS::Bad },
        NS::FE => if is_dig(c) { NS::FExp } else if c == '+' || c == '-' { NS::FSign } else { NS::Bad },
        NS::FSign => if is_dig(c) { NS::FExp } else { NS::Bad },
        NS::FExp => if is_dig(c) { NS::FExp } else { NS::Bad },
        NS::E => if is_dig(c) { NS::Exp } else if c == '+' { NS::Plus } else if c == '-' { NS::EMinus } else { NS::Bad },
        NS::Plus => if is_dig(c) { NS::Exp } else { NS::Bad },
        NS::Exp => if is_dig(c) { NS::Exp } else { NS::Bad },
        NS::EMinus => if is_dig(c) { NS::MExp } else { NS::Bad },
        NS::MExp => if is_dig(c) { NS::MExp } else { NS::Bad },
        NS::Bad => NS::Bad,
    }
}
pub open spec fn ns(s: Seq<char>, a: int, i: int) -> NS decreases i - a { if i <= a { NS::Start } else { nd(ns(s, a, i - 1), s[i - 1]) } }
/// after k more digits
pub open spec fn nrun(n: NS, first: char, k: int) -> NS { if k <= 0 { n } else if (n is Start || n is Minus) && first == '0' && k > 1 || (n is Zero) { NS::Bad } else { nd(n, first) } }
pub proof fn lemma_nrun(s: Seq<char>, a: int, i: int, j: int) requires a <= i < j <= s.len(), forall|k: int| i <= k < j ==> is_dig(#[trigger] s[k]) ensures ns(s, a, j) == nrun(ns(s, a, i), s[i], j - i) decreases j - i {
    reveal_with_fuel(ns, 2);
    assert(is_dig(s[i])); assert(is_dig(s[j - 1]));
    if j > i + 1 { lemma_nrun(s, a, i, j - 1); }
}
pub open spec fn n_ok(n: NS) -> bool { n is Zero || n is Int || n is Frac || n is FExp || n is Exp || n is MExp }
pub open spec fn n_broken(n: NS) -> bool { n is Frac || n is FExp || n is MExp }
/// where the integer part and the fraction end, from the state reached
pub open spec fn nshape(s: Seq<char>, a: int, j: int, x: int, y: int, z: int) -> bool {
    let n = ns(s, a, j);
    // x: end of the integer part, y: end of the fraction, z: end of the exponent's sign
    a <= x <= y <= z <= j
        && (n is Start ==> x == a && j == a)
        && (n is Minus ==> j == a + 1 && s[a] == '-' && x == a)
        && (!(n is Start || n is Minus) ==> (forall|k: int| a < k < x ==> is_dig(#[trigger] s[k])) && (
            (x == a + 1 && s[a] == '0') || (x == a + 2 && s[a] == '-' && s[a + 1] == '0') || (x > a && is_dig(s[a]) && s[a] != '0') || (x > a + 1 && s[a] == '-' && is_dig(s[a + 1]) && s[a + 1] != '0')))
        && (n is Zero ==> x == j && (s[j - 1] == '0') && (j == a + 1 || (j == a + 2 && s[a] == '-')))
        && (n is Int ==> x == j && ((is_dig(s[a]) && s[a] != '0') || (x > a + 1 && s[a] == '-' && is_dig(s[a + 1]) && s[a + 1] != '0')))
        && (n is Dot ==> y == j && x == j - 1 && s[x] == '.')
        && (n is Frac ==> y == j && x + 1 < y && s[x] == '.' && forall|k: int| x < k < y ==> is_dig(#[trigger] s[k]))
        && (n is FE || n is FSign || n is FExp ==> x + 1 < y < j && s[x] == '.' && (forall|k: int| x < k < y ==> is_dig(#[trigger] s[k])) && (s[y] == 'e' || s[y] == 'E'))
        && (n is E || n is Plus || n is Exp || n is EMinus || n is MExp ==> y == x && y < j && (s[y] == 'e' || s[y] == 'E'))
        && (n is FE || n is E ==> j == y + 1 && z == j)
        && (n is FSign ==> j == y + 2 && (s[y + 1] == '+' || s[y + 1] == '-') && z == j)
        && (n is Plus ==> j == y + 2 && s[y + 1] == '+' && z == j)
        && (n is EMinus ==> j == y + 2 && s[y + 1] == '-' && z == j)
        && (n is FExp || n is Exp || n is MExp ==> y < z < j && (z == y + 1 || (z == y + 2 && (s[y + 1] == '+' || s[y + 1] == '-'))) && (forall|k: int| z <= k < j ==> is_dig(#[trigger] s[k])))
        && (n is Exp && z == y + 2 ==> s[y + 1] == '+')
        && (n is MExp ==> z == y + 2 && s[y + 1] == '-')
}
pub proof fn lemma_nshape(s: Seq<char>, a: int, j: int) -> (r: (int, int, int)) requires 0 <= a <= j <= s.len(), !(ns(s, a, j) is Bad) ensures nshape(s, a, j, r.0, r.1, r.2) decreases j - a {
    if j == a { return (a, a, a); }
    let c = s[j - 1];
    let p = ns(s, a, j - 1);
    let n = ns(s, a, j);
    assert(n == nd(p, c));
    let (x, y, z) = lemma_nshape(s, a, j - 1);
    let r = if n is Minus { (a, a, a) }
        else if n is Zero || n is Int { (j, j, j) }
        else if n is Dot { (j - 1, j, j) }
        else if n is Frac { (x, j, j) }
        else if n is FE || n is E { (x, j - 1, j) }
        else if n is FSign || n is Plus || n is EMinus { (x, y, j) }
        else if p is FE || p is FSign || p is E || p is Plus || p is EMinus { (x, y, j - 1) }
        else { (x, y, z) };
    let (x2, y2, z2) = r;
    assert(a <= x2 <= y2 <= z2 <= j);
    if !(n is Minus) {
        assert forall|k: int| a < k < x2 implies is_dig(#[trigger] s[k]) by { if k == j - 1 { assert(is_dig(c)); } }
        assert((x2 == a + 1 && s[a] == '0') || (x2 == a + 2 && s[a] == '-' && s[a + 1] == '0') || (x2 > a && is_dig(s[a]) && s[a] != '0') || (x2 > a + 1 && s[a] == '-' && is_dig(s[a + 1]) && s[a + 1] != '0'));
    }
    assert(n is Frac ==> y2 == j && x2 + 1 < y2 && s[x2] == '.' && forall|k: int| x2 < k < y2 ==> is_dig(#[trigger] s[k]));
    assert(n is FE || n is FSign || n is FExp ==> x2 + 1 < y2 < j && s[x2] == '.' && (forall|k: int| x2 < k < y2 ==> is_dig(#[trigger] s[k])) && (s[y2] == 'e' || s[y2] == 'E'));
    assert(n is E || n is Plus || n is Exp || n is EMinus || n is MExp ==> y2 == x2 && y2 < j && (s[y2] == 'e' || s[y2] == 'E'));
    assert(n is FExp || n is Exp || n is MExp ==> y2 < z2 < j && (z2 == y2 + 1 || (z2 == y2 + 2 && (s[y2 + 1] == '+' || s[y2 + 1] == '-'))) && (forall|k: int| z2 <= k < j ==> is_dig(#[trigger] s[k])));
    r
}
pub proof fn lemma_num(s: Seq<char>, a: int, j: int) requires 0 <= a <= j <= s.len(), n_ok(ns(s, a, j)) ensures num_text(s.subrange(a, j)), num_broken(s.subrange(a, j)) == n_broken(ns(s, a, j)) {
    let n = ns(s, a, j);
    let (x, y, z) = lemma_nshape(s, a, j);
    let t = s.subrange(a, j);
    let p = t.take(x - a); let f = t.subrange(x - a, y - a); let e = t.skip(y - a);
    assert(y == x || y == x + 0 || y > x);
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] t[k] == s[a + k] by {}
    let y = if n is Zero || n is Int { j } else { y };
    assert(int_text(p) || p =~= seq!['-', '0']) by {
        if s[a] == '-' { assert(p.skip(1) =~= s.subrange(a + 1, x)); assert(digits(p.skip(1))); } else { assert(digits(p)); }
        if x == a + 1 && s[a] == '0' { assert(p =~= seq!['0']); }
    }
    assert(frac_text(f)) by { if x < y { assert(f.skip(1) =~= s.subrange(x + 1, y)); assert(digits(f.skip(1))); } }
    assert(exp_text(e)) by { if y < j { assert(e.skip(1) =~= s.subrange(y + 1, j)); if z == y + 1 { assert(digits(e.skip(1))); } else { assert(e.skip(2) =~= s.subrange(z, j)); assert(digits(e.skip(2))); } } }
    assert(num_parts(t, x - a, y - a));
    reveal_strlit("e-"); reveal_strlit("E-");
    if n is Frac || n is FExp { assert(t[x - a] == '.'); assert(t.contains('.')); }
    else {
        if t.contains('.') { let k = choose|k: int| 0 <= k < t.len() && t[k] == '.'; assert(s[a + k] == '.'); assert(false); }
        if n is MExp {
            let u = t.subrange(y - a, y - a + 2);
            if s[y] == 'e' { assert(u =~= "e-"@); } else { assert(u =~= "E-"@); }
        } else {
            if has_part(t, "e-"@) { let k = choose|k: int| 0 <= k && k + 2 <= t.len() && #[trigger] t.subrange(k, k + 2) == "e-"@; assert(t.subrange(k, k + 2)[1] == '-'); assert(t.subrange(k, k + 2)[0] == 'e'); assert(s[a + k + 1] == '-'); assert(s[a + k] == 'e'); assert(false); }
            if has_part(t, "E-"@) { let k = choose|k: int| 0 <= k && k + 2 <= t.len() && #[trigger] t.subrange(k, k + 2) == "E-"@; assert(t.subrange(k, k + 2)[1] == '-'); assert(t.subrange(k, k + 2)[0] == 'E'); assert(s[a + k + 1] == '-'); assert(s[a + k] == 'E'); assert(false); }
        }
    }
}
pub proof fn lemma_nums(s: Seq<char>, a: int) requires 0 <= a ensures forall|j: int| a <= j <= s.len() && n_ok(ns(s, a, j)) ==> num_text(#[trigger] s.subrange(a, j)) && num_broken(s.subrange(a, j)) == n_broken(ns(s, a, j)) {
    assert forall|j: int| a <= j <= s.len() && n_ok(ns(s, a, j)) implies num_text(#[trigger] s.subrange(a, j)) && num_broken(s.subrange(a, j)) == n_broken(ns(s, a, j)) by { lemma_num(s, a, j); }
}
pub proof fn lemma_dig_len(t: Seq<char>, k: int) requires 0 <= k <= t.len(), digits(t) ensures boff(t, k) == k decreases k { if k > 0 { lemma_dig_len(t, k - 1); assert(is_dig(t[k - 1])); } }
/// the digits after the minus sign
pub proof fn lemma_strips(s: Seq<char>, a: int, i: int)
    requires 0 <= a <= i <= a + 1, i > a ==> s[a] == '-',
    ensures
        forall|j: int| i < j <= s.len() && is_dig(s[i]) ==> #[trigger] strip(s.subrange(a, j), '-') == s.subrange(i, j),
        forall|j: int| i <= j <= s.len() && (forall|k: int| i <= k < j ==> is_dig(#[trigger] s[k])) ==> boff(#[trigger] s.subrange(i, j), j - i) == j - i,
{
    assert forall|j: int| i < j <= s.len() && is_dig(s[i]) implies #[trigger] strip(s.subrange(a, j), '-') == s.subrange(i, j) by {
        reveal_with_fuel(strip, 3);
        if i > a { assert(s.subrange(a, j).skip(1) =~= s.subrange(i, j)); assert(s.subrange(i, j)[0] == s[i]); } else { assert(s.subrange(a, j)[0] == s[i]); }
    }
    assert forall|j: int| i <= j <= s.len() && (forall|k: int| i <= k < j ==> is_dig(#[trigger] s[k])) implies boff(#[trigger] s.subrange(i, j), j - i) == j - i by { lemma_dig_len(s.subrange(i, j), j - i); }
}
