#set locgroup vx_cix::lemma_cix,
#crate lexer jsonpath_rfc9535/src
#use base.rs
#use strings.rs
#use lit_spec.rs
#type token.rs EOQ
#type token.rs TokenType
#type token.rs Token
#use num_spec.rs
#use lex_spec.rs
#type errors.rs JSONPathErrorType
#type errors.rs JSONPathError
#type lexer.rs State
#type lexer.rs Lexer
#use lexer_inv.rs
#props P13 P14
#fn errors.rs JSONPathError::syntax
@ret r
@spec
    ensures r.span == span,
#end
#fn token.rs Token::new
@ret r
@spec
    ensures r.kind == kind, r.span == (start, end),
#end
#fn lexer.rs is_name_first
@ret r
@spec
    ensures r == name_first(ch),
#end
#fn lexer.rs is_name_char
@ret r
@spec
    ensures r == name_char(ch),
#end
#fn lexer.rs is_digit
@ret r
@spec
    ensures r == is_dig(ch),
#end
#fn lexer.rs is_function_name_first
@ret r
@spec
    ensures r == fname_first(ch),
#end
#fn lexer.rs is_function_name_char
@ret r
@spec
    ensures r == fname_char(ch),
#end
#fn lexer.rs is_escape_char
@ret r
@spec
    ensures r == esc_char(ch),
#end
#fn lexer.rs is_whitespace_char
@ret r
@spec
    ensures r == blank(ch),
#end
#fn lexer.rs Lexer::new
@ret r
@spec
    requires boff(query@, query@.len() as int) <= u32::MAX,
    ensures r.query == query, inv(r), r.tokens@.len() == 0, r.chars.i@ == 0, r.start == 0, r.pos == 0,
@entry
    proof { reveal(core); assert(boff(query@, 0) == 0); lemma_boff(query@, 0, query@.len() as int); }
#end
#fn lexer.rs Lexer::inside_function_call
@ret r
@spec
    ensures r ==> self.paren_stack@.len() > 0,
#end
#fn lexer.rs Lexer::emit
@spec
    requires inv(*old(self)), kind_ok(t, text(*old(self))),
    ensures inv(*final(self)), emitted(*old(self), *final(self), t),
@entry
    proof { lemma_emit(*self, t); }
#end
#fn lexer.rs Lexer::value
@ret r
@spec
    requires inv(*self),
    ensures r@ == text(*self),
@callren .get vx_bytes_of
@entry
    proof { lemma_start(*self); }
#end
#fn lexer.rs Lexer::boxed_value
@ret r
@spec
    requires inv(*self),
    ensures r@ == text(*self),
@callren .into_boxed_str vx_boxed
#end
#fn lexer.rs Lexer::next
@ret r
@spec
    requires inv(*old(self)),
    ensures
        inv(*final(self)),
        old(self).chars.i@ < old(self).query@.len() ==> r == Some(cur(*old(self))) && adv(*old(self), *final(self), 1),
        old(self).chars.i@ == old(self).query@.len() ==> r is None && *final(self) == *old(self),
@callren .len vx_blen
@callren .len_utf8 vx_len_utf8
@entry
    proof { lemma_boff(self.query@, self.chars.i@, self.query@.len() as int); if self.chars.i@ < self.query@.len() { lemma_boff(self.query@, self.chars.i@ + 1, self.query@.len() as int); } }
#end
#fn lexer.rs Lexer::ignore
@spec
    requires inv(*old(self)), forall|i: int| cix(old(self).query@, old(self).start as int) <= i < old(self).chars.i@ ==> gap_char(#[trigger] old(self).query@[i]),
    ensures inv(*final(self)), ignored(*old(self), *final(self)),
@entry
    proof { lemma_start(*self); reveal(core); }
#end
#fn lexer.rs Lexer::peek
@ret r
@spec
    requires inv(*old(self)),
    ensures *final(self) == *old(self), r == cur(*old(self)),
#end
#fn lexer.rs Lexer::accept
@ret r
@spec
    requires inv(*old(self)), ch != '\0',
    ensures inv(*final(self)), r == (cur(*old(self)) == ch), adv(*old(self), *final(self), if r { 1 } else { 0 }),
        r ==> ns(old(self).query@, tok_from(*old(self)), old(self).chars.i@ + 1) == nd(ns(old(self).query@, tok_from(*old(self)), old(self).chars.i@), ch),
#end
#fn lexer.rs Lexer::accept_if
@ret r
@spec
    requires inv(*old(self)), call_requires(pred, (cur(*old(self)),)), forall|r: bool| call_ensures(pred, ('\0',), r) ==> !r,
    ensures inv(*final(self)), call_ensures(pred, (cur(*old(self)),), r), adv(*old(self), *final(self), if r { 1 } else { 0 }),
        r ==> ns(old(self).query@, tok_from(*old(self)), old(self).chars.i@ + 1) == nd(ns(old(self).query@, tok_from(*old(self)), old(self).chars.i@), cur(*old(self))),
#end
#fn lexer.rs Lexer::accept_run
@ret r
@spec
    requires inv(*old(self)), forall|c: char| call_requires(pred, (c,)), forall|r: bool| call_ensures(pred, ('\0',), r) ==> !r,
    ensures
        inv(*final(self)), adv(*old(self), *final(self), final(self).chars.i@ - old(self).chars.i@),
        forall|j: int| old(self).chars.i@ <= j < final(self).chars.i@ ==> call_ensures(pred, (#[trigger] old(self).query@[j],), true),
        call_ensures(pred, (cur(*final(self)),), false), r == (final(self).chars.i@ > old(self).chars.i@),
        (forall|c: char| call_ensures(pred, (c,), true) ==> is_dig(c)) ==> ns(old(self).query@, tok_from(*old(self)), final(self).chars.i@) == nrun(ns(old(self).query@, tok_from(*old(self)), old(self).chars.i@), cur(*old(self)), final(self).chars.i@ - old(self).chars.i@),
@loop 0
    invariant
        inv(*self), adv(*old(self), *self, self.chars.i@ - old(self).chars.i@),
        forall|c: char| call_requires(pred, (c,)), forall|r: bool| call_ensures(pred, ('\0',), r) ==> !r,
        forall|j: int| old(self).chars.i@ <= j < self.chars.i@ ==> call_ensures(pred, (#[trigger] old(self).query@[j],), true),
        accepted == (self.chars.i@ > old(self).chars.i@),
    ensures call_ensures(pred, (cur(*self),), false),
    decreases self.query@.len() - self.chars.i@,
@loopdone 0
    proof {
        if (forall|c: char| call_ensures(pred, (c,), true) ==> is_dig(c)) && accepted { lemma_nrun(self.query@, tok_from(*self), old(self).chars.i@, self.chars.i@); }
    }
#end
#fn lexer.rs Lexer::ignore_whitespace
@ret r
@spec
    requires inv(*old(self)), clean(*old(self)),
    ensures inv(*final(self)), clean(*final(self)), skipped(*old(self), *final(self)), r == (final(self).chars.i@ > old(self).chars.i@), !blank(cur(*final(self))),
#end
#fn lexer.rs Lexer::error
@ret r
@spec
    requires inv(*old(self)), open_toks(old(self).tokens@),
    ensures fin(*final(self)), final(self).query == old(self).query, r is Error, final(self).tokens@.last().kind is Error,
@callren .into_boxed_str vx_boxed
@entry
    let ghost before = *self;
@tail
    proof { lemma_error(before, self.tokens@.last()); }
#end
#fn lexer.rs Lexer::run
@spec
    requires inv(*old(self)), old(self).tokens@.len() == 0, old(self).chars.i@ == 0, clean(*old(self)),
    ensures fin(*final(self)), final(self).query == old(self).query,
@loop 0
    invariant self.query == old(self).query, if over(state) { fin(*self) } else { inv(*self) && state_ok(*self, state) },
    ensures over(state),
    decreases if over(state) { 0int } else { 1int }, self.query@.len() - self.chars.i@, self.filter_depth, rank(*self, state),
#end
#fn lexer.rs tokenize
@ret r
@spec
    requires boff(query@, query@.len() as int) <= u32::MAX,
    ensures toks_ok(r@, query@), closed_toks(r@), ends(r@, query@),
#end
#fn lexer.rs lex
@ret r
@spec
    requires boff(query@, query@.len() as int) <= u32::MAX,
    ensures r is Err ==> r->Err_0.span.0 <= r->Err_0.span.1 <= boff(query@, query@.len() as int), // a place in the text
        r is Ok ==> toks_ok(r->Ok_0@, query@) && closed_toks(r->Ok_0@) && r->Ok_0@.last().kind is Eoq && ends(r->Ok_0@, query@),
@entry
    proof { lemma_last(query@); }
#end
#fn lexer.rs lex_root
@ret r
@spec
    requires inv(*old(l)), state_ok(*old(l), State::LexRoot),
    ensures step(*old(l), State::LexRoot, *final(l), r),
#end
#fn lexer.rs lex_segment
@ret r
@spec
    requires inv(*old(l)), state_ok(*old(l), State::LexSegment),
    ensures step(*old(l), State::LexSegment, *final(l), r),
@callren .is_empty vx_is_empty
#end
#fn lexer.rs lex_descendant_segment
@ret r
@spec
    requires inv(*old(l)), state_ok(*old(l), State::LexDescendantSegment),
    ensures step(*old(l), State::LexDescendantSegment, *final(l), r),
#end
#fn lexer.rs lex_shorthand_selector
@ret r
@spec
    requires inv(*old(l)), state_ok(*old(l), State::LexShorthandSegment),
    ensures step(*old(l), State::LexShorthandSegment, *final(l), r),
#end
#fn lexer.rs lex_inside_bracketed_segment
@ret r
@spec
    requires inv(*old(l)), state_ok(*old(l), State::LexInsideBracketedSegment),
    ensures step(*old(l), State::LexInsideBracketedSegment, *final(l), r),
#end
#fn lexer.rs lex_inside_filter
@ret r
@spec
    requires inv(*old(l)), state_ok(*old(l), State::LexInsideFilter),
    ensures step(*old(l), State::LexInsideFilter, *final(l), r),
#end
#fn lexer.rs lex_string
@ret r
@spec
    requires inv(*old(l)), quote == '\'' || quote == '"', at_quote(*old(l), quote), next_state is LexInsideBracketedSegment || (next_state is LexInsideFilter && old(l).filter_depth > 0), open_toks(old(l).tokens@),
    ensures step(*old(l), str_state(quote, next_state), *final(l), r),
@closure 0
|$0: char| -> (o: bool)
    ensures o == (esc_char($0) || $0 == quote)
@loop 0
    invariant
        inv(*l), open_toks(l.tokens@), l.query == old(l).query, l.filter_depth == old(l).filter_depth, quote == '\'' || quote == '"',
        next_state is LexInsideBracketedSegment || (next_state is LexInsideFilter && l.filter_depth > 0),
        0 <= old(l).chars.i@ <= l.chars.i@, cix(l.query@, l.start as int) == old(l).chars.i@,
        ss(l.query@, quote, old(l).chars.i@, l.chars.i@) is Plain,
    decreases l.query@.len() - l.chars.i@,
@entry
    proof { lemma_strs(l.query@, quote, l.chars.i@); }
@loopentry 0
    proof { lemma_strs(l.query@, quote, old(l).chars.i@); reveal_with_fuel(ss, 3); }
#end
#fn lexer.rs lex_number
@ret r
@spec
    requires inv(*old(l)), open_toks(old(l).tokens@), old(l).filter_depth > 0, num_start(*old(l)),
    ensures step_num(*old(l), *final(l), r),
@attr verifier::rlimit(60)
@callren .len vx_blen
@callren .trim_start_matches vx_trim_start
@closure 0
|$0: char| -> (o: bool)
    ensures o == ($0 == 'e' || $0 == 'E')
@closure 1
|$0: char| -> (o: bool)
    ensures o == ($0 == '+' || $0 == '-')
@closure 2
|$0: char| -> (o: bool)
    ensures o == ($0 == 'e' || $0 == 'E')
@entry
    proof { lemma_nums(l.query@, tok_from(*l)); lemma_strips(l.query@, tok_from(*l), l.chars.i@); reveal_with_fuel(ns, 2); }
#end
