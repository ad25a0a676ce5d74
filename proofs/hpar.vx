#set locgroup vstd::std_specs::vec::axiom_vec_index_decreases, vstd::seq::axiom_seq_index_decreases,
#set singular 0
#set hass
#crate hpar jsonpath_rfc9535/src
#include hp_head.vx
#fn lexer.rs lex assumed
@ret r
@spec
    requires boff(query@, query@.len() as int) <= u32::MAX,
    ensures r is Err ==> r->Err_0.span.0 <= r->Err_0.span.1 <= boff(query@, query@.len() as int), // a place in the text
        r is Ok ==> toks_ok(r->Ok_0@, query@) && closed_toks(r->Ok_0@) && r->Ok_0@.last().kind is Eoq && ends(r->Ok_0@, query@),
#end
#props P12 P14 P15 P22
#fn parser.rs Parser::parse
@ret r
@spec
    requires hp_ok(*self), boff(query@, query@.len() as int) <= u32::MAX,
    ensures err_in(r, boff(query@, query@.len() as int)),
        r is Ok ==> s_ok_q(v_q(r->Ok_0), self.functions.m@) && exists|t: Toks| #[trigger] toks_ok(t, query@) && closed_toks(t) && ends(t, query@) && d_query(t, v_q(r->Ok_0)),
@entry
    proof { lemma_lexed(query@); lemma_vq(); lemma_spans(query@); }
#end
#fn parser.rs Parser::parse_tokens
@ret r
@spec
    requires hp_ok(*self), lexed(tokens@),
    ensures err_in(r, bd(tokens@)), tokens@.len() > 0 && !(tokens@[0].kind is Root) ==> r is Err && r->Err_0.span == tokens@[0].span,
        r is Ok ==> d_query(tokens@, v_segs(r->Ok_0@)) && s_ok_q(v_segs(r->Ok_0@), self.functions.m@),
@after let segments
    proof { assert(mid(it.tokens.v@)); lemma_basic(tokens@); lemma_basic(it.tokens.v@); }
#end
#fn parser.rs Parser::parse_segments
@ret r
@spec
    requires hp_ok(*self), lexed(old(it).tokens.v@),
    ensures err_in(r, bd(old(it).tokens.v@)),
        rest_of(old(it).tokens.v@, final(it).tokens.v@), r is Ok ==> d_segs(old(it).tokens.v@, final(it).tokens.v@, v_segs(r->Ok_0@)) && s_ok_q(v_segs(r->Ok_0@), self.functions.m@),
    decreases old(it).tokens.v@.len(), 9int,
@loopbefore 0
    let ghost s0 = it.tokens.v@;
    proof { assert(v_segs(segments@) =~= Seq::<SSeg>::empty()); }
@loop 0
    invariant
        hp_ok(*self), lexed(it.tokens.v@), rest_of(s0, it.tokens.v@), s0 == old(it).tokens.v@,
        d_segs(s0, it.tokens.v@, v_segs(segments@)), s_ok_q(v_segs(segments@), self.functions.m@),
    decreases it.tokens.v@.len(),
@loopentry 0
    let ghost m = it.tokens.v@; let ghost q = segments@;
@after match it.peek().kind
    proof { assert(segments@ =~= q.push(segments@[q.len() as int])); lemma_push_seg(s0, m, it.tokens.v@, q, segments@[q.len() as int], self.functions.m@); }
#end
#fn parser.rs Parser::parse_selectors
@ret r
@spec
    requires hp_ok(*self), lexed(old(it).tokens.v@),
    ensures err_in(r, bd(old(it).tokens.v@)),
        rest_of(old(it).tokens.v@, final(it).tokens.v@), r is Ok ==> final(it).tokens.v@.len() < old(it).tokens.v@.len() && d_sels(old(it).tokens.v@, final(it).tokens.v@, v_sels(r->Ok_0)) && s_ok_sels(v_sels(r->Ok_0), self.functions.m@),
    decreases old(it).tokens.v@.len(), 7int,
@entry
    proof { lemma_basic(it.tokens.v@); }
@tail
    proof { if vx_t is Ok && vx_t->Ok_0@.len() == 1 { assert(v_sels(vx_t->Ok_0) =~= seq![v_sel(vx_t->Ok_0@[0])]); } }
#end
#fn parser.rs Parser::parse_bracketed
@ret r
@spec
    requires hp_ok(*self), lexed(old(it).tokens.v@), hd(old(it).tokens.v@).kind is LBracket,
    ensures err_in(r, bd(old(it).tokens.v@)),
        rest_of(old(it).tokens.v@, final(it).tokens.v@), r is Ok ==> final(it).tokens.v@.len() < old(it).tokens.v@.len() && d_sels(old(it).tokens.v@, final(it).tokens.v@, v_sels(r->Ok_0)) && s_ok_sels(v_sels(r->Ok_0), self.functions.m@),
    decreases old(it).tokens.v@.len(), 6int,
@loopbefore 0
    let ghost s1 = it.tokens.v@;
@loop 0
    invariant_except_break
        brk_inv(s1, it.tokens.v@, v_sels(selectors)),
    invariant
        hp_ok(*self), lexed(it.tokens.v@), rest_of(s1, it.tokens.v@), s1 == tl(old(it).tokens.v@), bd(s1) <= bd(old(it).tokens.v@), sp(token.span, bd(old(it).tokens.v@)), hd(old(it).tokens.v@).kind is LBracket,
        s_ok_sels(v_sels(selectors), self.functions.m@), v_sels(selectors).len() == selectors@.len(),
    ensures
        selectors@.len() > 0 ==> brk_done(s1, it.tokens.v@, v_sels(selectors)),
    decreases it.tokens.v@.len(),
@loopentry 0
    let ghost m = it.tokens.v@; let ghost l = selectors;
    proof { lemma_basic(m); assert(mid(m)); }
@after match it.peek() #0
    let ghost c = it.tokens.v@;
    proof { assert(mid(c)); lemma_push_sel(s1, m, c, l, selectors@[l@.len() as int], selectors, self.functions.m@); }
#end
#fn parser.rs Parser::parse_slice_or_index
@ret r
@spec
    requires hp_ok(*self), lexed(old(it).tokens.v@), hd(old(it).tokens.v@).kind is Index || hd(old(it).tokens.v@).kind is Colon,
    ensures err_in(r, bd(old(it).tokens.v@)),
        rest_of(old(it).tokens.v@, final(it).tokens.v@), r is Ok ==> final(it).tokens.v@.len() < old(it).tokens.v@.len() && d_sel(old(it).tokens.v@, final(it).tokens.v@, v_sel(r->Ok_0)) && s_ok_sel(v_sel(r->Ok_0), self.functions.m@),
#end
#fn parser.rs Parser::parse_filter
@ret r
@spec
    requires hp_ok(*self), lexed(old(it).tokens.v@), hd(old(it).tokens.v@).kind is Filter,
    ensures err_in(r, bd(old(it).tokens.v@)),
        rest_of(old(it).tokens.v@, final(it).tokens.v@), r is Ok ==> final(it).tokens.v@.len() < old(it).tokens.v@.len() && d_sel(old(it).tokens.v@, final(it).tokens.v@, v_sel(r->Ok_0)) && s_ok_sel(v_sel(r->Ok_0), self.functions.m@),
    decreases old(it).tokens.v@.len(), 5int,
#end
#fn parser.rs Parser::parse_not_expression
@ret r
@spec
    requires hp_ok(*self), lexed(old(it).tokens.v@), hd(old(it).tokens.v@).kind is Not,
    ensures err_in(r, bd(old(it).tokens.v@)), r is Ok ==> sp(e_span(r->Ok_0), bd(old(it).tokens.v@)),
        rest_of(old(it).tokens.v@, final(it).tokens.v@), r is Ok ==> final(it).tokens.v@.len() < old(it).tokens.v@.len() && d_basic(old(it).tokens.v@, final(it).tokens.v@, v_e(r->Ok_0)) && s_ok(v_e(r->Ok_0), self.functions.m@),
    decreases old(it).tokens.v@.len(), 2int,
#end
#fn parser.rs Parser::parse_infix_expression
@ret r
@spec
    requires hp_ok(*self), lexed(old(it).tokens.v@), is_op(hd(old(it).tokens.v@).kind), s_ok(v_e(left), self.functions.m@), e_span(left).0 <= e_span(left).1,
    ensures err_in(r, mx(e_span(left).1 as int, bd(old(it).tokens.v@))), r is Ok ==> e_span(r->Ok_0) == e_span(left),
        rest_of(old(it).tokens.v@, final(it).tokens.v@), r is Ok ==> final(it).tokens.v@.len() < old(it).tokens.v@.len() && infix(old(it).tokens.v@, final(it).tokens.v@, v_e(left), v_e(r->Ok_0))
        && s_ok(v_e(r->Ok_0), self.functions.m@) && stops(final(it).tokens.v@, op_lvl(hd(old(it).tokens.v@).kind)),
    decreases old(it).tokens.v@.len(), 2int,
@after let right
    proof { if is_cop(op_token.kind) && !(v_e(right) is Logical || v_e(right) is Cmp || v_e(right) is Not) { lemma_right(tl(old(it).tokens.v@), it.tokens.v@, v_e(right)); } }
#end
#fn parser.rs Parser::parse_grouped_expression
@ret r
@spec
    requires hp_ok(*self), lexed(old(it).tokens.v@), hd(old(it).tokens.v@).kind is LParen,
    ensures err_in(r, bd(old(it).tokens.v@)), r is Ok ==> sp(e_span(r->Ok_0), bd(old(it).tokens.v@)),
        rest_of(old(it).tokens.v@, final(it).tokens.v@), r is Ok ==> final(it).tokens.v@.len() < old(it).tokens.v@.len() && d_basic(old(it).tokens.v@, final(it).tokens.v@, v_e(r->Ok_0)) && s_ok(v_e(r->Ok_0), self.functions.m@)
        && !is_cop(hd(final(it).tokens.v@).kind),
    decreases old(it).tokens.v@.len(), 2int,
@loopbefore 0
    let ghost s1 = it.tokens.v@;
@loop 0
    invariant
        hp_ok(*self), lexed(it.tokens.v@), s1 == it.tokens.v@, stops(s1, 3), it.tokens.v@.len() < old(it).tokens.v@.len(), rest_of(old(it).tokens.v@, s1),
        mid(s1), sp(e_span(expr), bd(old(it).tokens.v@)), d_x(tl(old(it).tokens.v@), it.tokens.v@, v_e(expr), 3), s_ok(v_e(expr), self.functions.m@), hd(old(it).tokens.v@).kind is LParen,
    ensures hd(it.tokens.v@).kind is RParen,
    decreases 0int,
#end
#props P12 P14 P15 P20 P22
#fn parser.rs Parser::parse_basic_expression
@ret r
@spec
    requires hp_ok(*self), lexed(old(it).tokens.v@),
    ensures err_in(r, bd(old(it).tokens.v@)), r is Ok ==> sp(e_span(r->Ok_0), bd(old(it).tokens.v@)),
        rest_of(old(it).tokens.v@, final(it).tokens.v@), r is Ok ==> final(it).tokens.v@.len() < old(it).tokens.v@.len() && d_basic(old(it).tokens.v@, final(it).tokens.v@, v_e(r->Ok_0)) && s_ok(v_e(r->Ok_0), self.functions.m@)
        && (hd(old(it).tokens.v@).kind is LParen ==> !is_cop(hd(final(it).tokens.v@).kind)),
    decreases old(it).tokens.v@.len(), 3int,
@callren .abs vx_abs
@cast i64 vx_f64_as_i64
@closure 0
|$0: VxParseErr| -> (o: JSONPathError)
    ensures o.span == *span
@closure 1
|$0: VxParseErr| -> (o: JSONPathError)
    ensures o.span == *span
@entry
    let ghost s0 = it.tokens.v@;
    proof { lemma_basic(s0); lemma_vq(); }
@tail
    proof { if vx_t is Ok { let e = vx_t->Ok_0;
        if e is RootQuery { assert(v_q(*e->RootQuery_query) =~= v_segs(e->RootQuery_query.segments@)); assert(v_e(e) == SE::Root(v_segs(e->RootQuery_query.segments@))); }
        if e is RelativeQuery { assert(v_q(*e->RelativeQuery_query) =~= v_segs(e->RelativeQuery_query.segments@)); assert(v_e(e) == SE::Rel(v_segs(e->RelativeQuery_query.segments@))); }
    } }
#end
#props P12 P14 P15 P22
#fn parser.rs Parser::parse_function_call
@ret r
@spec
    requires hp_ok(*self), lexed(old(it).tokens.v@), hd(old(it).tokens.v@).kind is Function,
    ensures err_in(r, bd(old(it).tokens.v@)), r is Ok ==> sp(e_span(r->Ok_0), bd(old(it).tokens.v@)),
        rest_of(old(it).tokens.v@, final(it).tokens.v@), r is Ok ==> final(it).tokens.v@.len() < old(it).tokens.v@.len() && d_basic(old(it).tokens.v@, final(it).tokens.v@, v_e(r->Ok_0)) && s_ok(v_e(r->Ok_0), self.functions.m@),
    decreases old(it).tokens.v@.len(), 2int,
@loopbefore 0
    let ghost s1 = it.tokens.v@;
@loop 0
    invariant_except_break
        arg_inv(s1, it.tokens.v@, v_es(arguments@)),
    invariant
        hp_ok(*self), lexed(it.tokens.v@), rest_of(s1, it.tokens.v@), s1 == tl(old(it).tokens.v@), s1.len() < old(it).tokens.v@.len(), bd(s1) <= bd(old(it).tokens.v@), s_ok_es(v_es(arguments@), self.functions.m@),
    ensures
        d_args(s1, it.tokens.v@, v_es(arguments@)), hd(it.tokens.v@).kind is RParen, mid(it.tokens.v@),
    decreases it.tokens.v@.len(),
@loopentry 0
    let ghost m = it.tokens.v@; let ghost args0 = arguments@;
@loopbefore 1
    let ghost mut lv = 0int;
@loop 1
    invariant
        hp_ok(*self), lexed(it.tokens.v@), rest_of(m, it.tokens.v@), it.tokens.v@.len() < m.len(), m.len() <= s1.len() < old(it).tokens.v@.len(), bd(m) <= bd(s1) <= bd(old(it).tokens.v@),
        sp(e_span(expr), bd(m)), 0 <= lv <= 3, d_x(m, it.tokens.v@, v_e(expr), lv), s_ok(v_e(expr), self.functions.m@), stops(it.tokens.v@, lv),
        hd(m).kind is LParen && lv == 0 ==> !is_cop(hd(it.tokens.v@).kind),
    decreases it.tokens.v@.len(),
@loopentry 1
    let ghost n = it.tokens.v@; let ghost l = v_e(expr);
@after expr = self.parse_infix
    proof { lemma_infix(m, n, it.tokens.v@, l, v_e(expr), lv); lv = op_lvl(hd(n).kind); }
@after arguments.push
    proof { assert(mid(it.tokens.v@)); lemma_push_arg(s1, m, it.tokens.v@, args0, expr, lv, arguments@, self.functions.m@); }
@tail
    proof { if vx_t is Ok { let e = vx_t->Ok_0; assert(v_e(e)->Func_1 =~= v_es(e->args@)); assert(v_e(e) == SE::Func(e->name@, v_es(e->args@))); } }
#end
#fn parser.rs Parser::parse_filter_expression
@ret r
@spec
    requires hp_ok(*self), lexed(old(it).tokens.v@), 1 <= precedence <= 7,
    ensures err_in(r, bd(old(it).tokens.v@)), r is Ok ==> sp(e_span(r->Ok_0), bd(old(it).tokens.v@)),
        rest_of(old(it).tokens.v@, final(it).tokens.v@), r is Ok ==> final(it).tokens.v@.len() < old(it).tokens.v@.len() && d_x(old(it).tokens.v@, final(it).tokens.v@, v_e(r->Ok_0), lvl_of(precedence as int)) && s_ok(v_e(r->Ok_0), self.functions.m@)
        && stops(final(it).tokens.v@, lvl_of(precedence as int)),
    decreases old(it).tokens.v@.len(), 4int,
@loopbefore 0
    let ghost s0 = old(it).tokens.v@; let ghost mut lv = 0int;
@loop 0
    invariant
        hp_ok(*self), lexed(it.tokens.v@), rest_of(s0, it.tokens.v@), it.tokens.v@.len() < s0.len(), 1 <= precedence <= 7, s0 == old(it).tokens.v@,
        sp(e_span(left), bd(s0)), 0 <= lv <= lvl_of(precedence as int), d_x(s0, it.tokens.v@, v_e(left), lv), s_ok(v_e(left), self.functions.m@), stops(it.tokens.v@, lv),
        hd(s0).kind is LParen && lv == 0 ==> !is_cop(hd(it.tokens.v@).kind),
    ensures stops(it.tokens.v@, lvl_of(precedence as int)),
    decreases it.tokens.v@.len(),
@loopentry 0
    let ghost m = it.tokens.v@; let ghost l = v_e(left);
@after left = self.parse_infix
    proof { lemma_infix(s0, m, it.tokens.v@, l, v_e(left), lv); lv = op_lvl(hd(m).kind); }
@loopdone 0
    proof { lemma_up(s0, it.tokens.v@, v_e(left), lv, lvl_of(precedence as int)); }
#end
#also recursion
Parser::parse_segments Parser::parse_selectors Parser::parse_bracketed Parser::parse_filter Parser::parse_not_expression Parser::parse_infix_expression
Parser::parse_grouped_expression Parser::parse_basic_expression Parser::parse_function_call Parser::parse_filter_expression
#end
#props P11 P12 P14 P15 P22
#fn query.rs vx_static_PARSER
@ret r
@spec
    ensures hp_ok(r), r.functions.m@ == std_sigs(),
#end
#fn query.rs Query::standard
@ret r
@spec
    requires boff(expr@, expr@.len() as int) <= u32::MAX,
    ensures err_in(r, boff(expr@, expr@.len() as int)),
        r is Ok ==> s_ok_q(v_q(r->Ok_0), std_sigs()) && exists|t: Toks| #[trigger] toks_ok(t, expr@) && closed_toks(t) && ends(t, expr@) && d_query(t, v_q(r->Ok_0)),
@noren parse
#end
