#set locgroup vstd::std_specs::vec::axiom_vec_index_decreases, vstd::seq::axiom_seq_index_decreases,
#set singular 0
#set hass assumed
#crate hcomp jsonpath_rfc9535/src
#include hp_head.vx
#use hc_spec.rs
#props P22
#fn lexer.rs lex assumed
@ret r
@spec
    requires boff(query@, query@.len() as int) <= u32::MAX,
    ensures (r is Ok) == (lex_of(query@) is Some), r is Ok ==> r->Ok_0@ == lex_of(query@)->0 && toks_ok(r->Ok_0@, query@),
#end
#fn parser.rs Parser::parse
@ret r
@spec
    requires hp_ok(*self), boff(query@, query@.len() as int) <= u32::MAX, lex_of(query@) is Some, h_query(lex_of(query@)->0, self.functions.m@) is Some,
    ensures r is Ok, v_q(r->Ok_0) == h_query(lex_of(query@)->0, self.functions.m@)->0,
@entry
    proof { lemma_lexed(query@); lemma_vq(); }
#end
#fn parser.rs Parser::parse_tokens
@ret r
@spec
    requires hp_ok(*self), lexed(tokens@),
    ensures h_query(tokens@, self.functions.m@) matches Some(q) ==> r is Ok && v_segs(r->Ok_0@) == q,
@entry
    proof { lemma_basic(tokens@); }
#end
#fn parser.rs Parser::parse_segments
@ret r
@spec
    requires hp_ok(*self), lexed(old(it).tokens.v@),
    ensures rest_of(old(it).tokens.v@, final(it).tokens.v@), h_segs(old(it).tokens.v@, self.functions.m@) matches Some((x, t)) ==> r is Ok && x == v_segs(r->Ok_0@) && t == final(it).tokens.v@,
    decreases old(it).tokens.v@.len(), 9int,
@loopbefore 0
    let ghost s0 = it.tokens.v@;
    proof { assert(v_segs(segments@) =~= Seq::<SSeg>::empty()); if h_segs(s0, self.functions.m@) is Some { assert(v_segs(segments@) + (h_segs(s0, self.functions.m@)->0).0 =~= (h_segs(s0, self.functions.m@)->0).0); } }
@loop 0
    invariant_except_break
        h_sg(s0, it.tokens.v@, v_segs(segments@), self.functions.m@),
    invariant
        hp_ok(*self), lexed(it.tokens.v@), rest_of(s0, it.tokens.v@), s0 == old(it).tokens.v@,
    ensures
        h_segs(s0, self.functions.m@) matches Some((x, t)) ==> x == v_segs(segments@) && t == it.tokens.v@,
    decreases it.tokens.v@.len(),
@loopentry 0
    let ghost m = it.tokens.v@; let ghost q = segments@;
    proof { lemma_basic(m); assert(seg_start(hd(m).kind) && h_segs(m, self.functions.m@) is Some ==> h_seg(m, self.functions.m@) is Some); assert(h_seg(m, self.functions.m@) is Some ==> if hd(m).kind is DoubleDot { h_sels(tl(m), self.functions.m@) is Some } else { h_sels(m, self.functions.m@) is Some }); if !seg_start(hd(m).kind) { assert(v_segs(q) + Seq::<SSeg>::empty() =~= v_segs(q)); } }
@after match it.peek().kind
    proof { assert(segments@ =~= q.push(segments@[q.len() as int])); lemma_vsegs(q, segments@[q.len() as int]);
        if h_segs(it.tokens.v@, self.functions.m@) is Some { lemma_snoc(v_segs(q), v_seg(segments@[q.len() as int]), (h_segs(it.tokens.v@, self.functions.m@)->0).0); } }
#end
#fn parser.rs Parser::parse_selectors
@ret r
@spec
    requires hp_ok(*self), lexed(old(it).tokens.v@),
    ensures rest_of(old(it).tokens.v@, final(it).tokens.v@), r is Ok ==> final(it).tokens.v@.len() < old(it).tokens.v@.len(),
        h_sels(old(it).tokens.v@, self.functions.m@) matches Some((x, t)) ==> r is Ok && x == v_sels(r->Ok_0) && t == final(it).tokens.v@,
    decreases old(it).tokens.v@.len(), 7int,
@entry
    proof { lemma_basic(it.tokens.v@); lemma_texts(); }
@tail
    proof { if vx_t is Ok && vx_t->Ok_0@.len() == 1 { assert(v_sels(vx_t->Ok_0) =~= seq![v_sel(vx_t->Ok_0@[0])]); } }
#end
#fn parser.rs Parser::parse_bracketed
@ret r
@spec
    requires hp_ok(*self), lexed(old(it).tokens.v@), hd(old(it).tokens.v@).kind is LBracket,
    ensures rest_of(old(it).tokens.v@, final(it).tokens.v@), r is Ok ==> final(it).tokens.v@.len() < old(it).tokens.v@.len(),
        h_list(tl(old(it).tokens.v@), self.functions.m@) matches Some((x, t)) ==> r is Ok && x == v_sels(r->Ok_0) && t == final(it).tokens.v@,
    decreases old(it).tokens.v@.len(), 6int,
@loopbefore 0
    let ghost s1 = it.tokens.v@;
    proof { lemma_texts(); assert(v_sels(selectors) =~= Seq::<SSel>::empty()); if h_list(s1, self.functions.m@) is Some { assert(v_sels(selectors) + (h_list(s1, self.functions.m@)->0).0 =~= (h_list(s1, self.functions.m@)->0).0); } }
@loop 0
    invariant_except_break
        h_brk(s1, it.tokens.v@, v_sels(selectors), self.functions.m@),
    invariant
        hp_ok(*self), lexed(it.tokens.v@), rest_of(s1, it.tokens.v@), s1 == tl(old(it).tokens.v@), bd(s1) <= bd(old(it).tokens.v@), s1.len() < old(it).tokens.v@.len(), hd(old(it).tokens.v@).kind is LBracket,
        v_sels(selectors).len() == selectors@.len(),
    ensures
        h_list(s1, self.functions.m@) matches Some((x, t)) ==> x == v_sels(selectors) && t == it.tokens.v@ && selectors@.len() > 0,
    decreases it.tokens.v@.len(),
@loopentry 0
    let ghost m = it.tokens.v@; let ghost l = selectors;
    proof { lemma_basic(m); lemma_texts(); assert(h_list(m, self.functions.m@) is Some ==> h_sel(m, self.functions.m@) is Some); }
@after match it.peek() #0
    let ghost c = it.tokens.v@;
    proof { lemma_basic(c); lemma_vsels(l, selectors@[l@.len() as int], selectors);
        assert(h_list(tl(c), self.functions.m@) is Some ==> h_sel(tl(c), self.functions.m@) is Some); assert(hd(tl(c)).kind is RBracket ==> h_sel(tl(c), self.functions.m@) is None);
        if h_list(tl(c), self.functions.m@) is Some { lemma_snoc(v_sels(l), v_sel(selectors@[l@.len() as int]), (h_list(tl(c), self.functions.m@)->0).0); }
        assert(v_sels(l) + seq![v_sel(selectors@[l@.len() as int])] =~= v_sels(selectors)); }
#end
#fn parser.rs Parser::parse_slice_or_index
@ret r
@spec
    requires hp_ok(*self), lexed(old(it).tokens.v@), hd(old(it).tokens.v@).kind is Index || hd(old(it).tokens.v@).kind is Colon,
    ensures rest_of(old(it).tokens.v@, final(it).tokens.v@), r is Ok ==> final(it).tokens.v@.len() < old(it).tokens.v@.len(),
        h_slice(old(it).tokens.v@) matches Some((x, t)) ==> r is Ok && x == v_sel(r->Ok_0) && t == final(it).tokens.v@,
@entry
    let ghost s0 = it.tokens.v@;
    proof { lemma_basic(s0); lemma_basic(tl(s0)); lemma_basic(tl(tl(s0))); lemma_basic(tl(tl(tl(s0)))); lemma_basic(tl(tl(tl(tl(s0))))); }
#end
#fn parser.rs Parser::parse_filter
@ret r
@spec
    requires hp_ok(*self), lexed(old(it).tokens.v@), hd(old(it).tokens.v@).kind is Filter,
    ensures rest_of(old(it).tokens.v@, final(it).tokens.v@), r is Ok ==> final(it).tokens.v@.len() < old(it).tokens.v@.len(),
        h_sel(old(it).tokens.v@, self.functions.m@) matches Some((x, t)) ==> r is Ok && x == v_sel(r->Ok_0) && t == final(it).tokens.v@,
    decreases old(it).tokens.v@.len(), 5int,
#end
#fn parser.rs Parser::parse_not_expression
@ret r
@spec
    requires hp_ok(*self), lexed(old(it).tokens.v@), hd(old(it).tokens.v@).kind is Not,
    ensures rest_of(old(it).tokens.v@, final(it).tokens.v@), r is Ok ==> final(it).tokens.v@.len() < old(it).tokens.v@.len(),
        h_not(old(it).tokens.v@, self.functions.m@) matches Some((x, t)) ==> r is Ok && x == v_e(r->Ok_0) && t == final(it).tokens.v@,
    decreases old(it).tokens.v@.len(), 2int,
#end
#fn parser.rs Parser::parse_infix_expression
@ret r
@spec
    requires hp_ok(*self), lexed(old(it).tokens.v@), is_op(hd(old(it).tokens.v@).kind),
    ensures rest_of(old(it).tokens.v@, final(it).tokens.v@), r is Ok ==> final(it).tokens.v@.len() < old(it).tokens.v@.len(),
        h_inf(v_e(left), old(it).tokens.v@, self.functions.m@) matches Some((x, t)) ==> r is Ok && x == v_e(r->Ok_0) && t == final(it).tokens.v@,
        r is Ok ==> stops(final(it).tokens.v@, op_lvl(hd(old(it).tokens.v@).kind)),
    decreases old(it).tokens.v@.len(), 2int,
#end
#fn parser.rs Parser::parse_grouped_expression
@ret r
@spec
    requires hp_ok(*self), lexed(old(it).tokens.v@), hd(old(it).tokens.v@).kind is LParen,
    ensures rest_of(old(it).tokens.v@, final(it).tokens.v@), r is Ok ==> final(it).tokens.v@.len() < old(it).tokens.v@.len(),
        h_paren(old(it).tokens.v@, self.functions.m@) matches Some((x, t)) ==> r is Ok && x == v_e(r->Ok_0) && t == final(it).tokens.v@,
    decreases old(it).tokens.v@.len(), 2int,
@loopbefore 0
    let ghost s1 = it.tokens.v@;
@loop 0
    invariant
        hp_ok(*self), lexed(it.tokens.v@), s1 == it.tokens.v@, stops(s1, 3), it.tokens.v@.len() < old(it).tokens.v@.len(), rest_of(old(it).tokens.v@, s1),
        hd(old(it).tokens.v@).kind is LParen, h_x(tl(old(it).tokens.v@), 3, self.functions.m@) matches Some((x, t)) ==> x == v_e(expr) && t == s1,
    ensures hd(it.tokens.v@).kind is RParen,
    decreases 0int,
#end
#fn parser.rs Parser::parse_basic_expression
@ret r
@spec
    requires hp_ok(*self), lexed(old(it).tokens.v@),
    ensures rest_of(old(it).tokens.v@, final(it).tokens.v@), r is Ok ==> final(it).tokens.v@.len() < old(it).tokens.v@.len(),
        h_basic(old(it).tokens.v@, self.functions.m@) matches Some((x, t)) ==> r is Ok && x == v_e(r->Ok_0) && t == final(it).tokens.v@,
    decreases old(it).tokens.v@.len(), 3int,
@callren .abs vx_abs
@cast i64 vx_f64_as_i64
@entry
    let ghost s0 = it.tokens.v@;
    proof { lemma_basic(s0); lemma_vq(); lemma_texts(); }
@tail
    proof { if vx_t is Ok { let e = vx_t->Ok_0;
        if e is RootQuery { assert(v_q(*e->RootQuery_query) =~= v_segs(e->RootQuery_query.segments@)); assert(v_e(e) == SE::Root(v_segs(e->RootQuery_query.segments@))); }
        if e is RelativeQuery { assert(v_q(*e->RelativeQuery_query) =~= v_segs(e->RelativeQuery_query.segments@)); assert(v_e(e) == SE::Rel(v_segs(e->RelativeQuery_query.segments@))); }
    } }
#end
#fn parser.rs Parser::parse_function_call
@ret r
@spec
    requires hp_ok(*self), lexed(old(it).tokens.v@), hd(old(it).tokens.v@).kind is Function,
    ensures rest_of(old(it).tokens.v@, final(it).tokens.v@), r is Ok ==> final(it).tokens.v@.len() < old(it).tokens.v@.len(),
        h_call(old(it).tokens.v@, self.functions.m@) matches Some((x, t)) ==> r is Ok && x == v_e(r->Ok_0) && t == final(it).tokens.v@,
    decreases old(it).tokens.v@.len(), 2int,
@loopbefore 0
    let ghost s1 = it.tokens.v@;
    proof { assert(v_es(arguments@) =~= Seq::<SE>::empty()); if h_args(s1, self.functions.m@) is Some { assert(v_es(arguments@) + (h_args(s1, self.functions.m@)->0).0 =~= (h_args(s1, self.functions.m@)->0).0); } }
@loop 0
    invariant_except_break
        h_arg(s1, it.tokens.v@, v_es(arguments@), self.functions.m@), arguments@.len() > 0 ==> !(hd(it.tokens.v@).kind is RParen),
    invariant
        hp_ok(*self), lexed(it.tokens.v@), rest_of(s1, it.tokens.v@), s1 == tl(old(it).tokens.v@), s1.len() < old(it).tokens.v@.len(), bd(s1) <= bd(old(it).tokens.v@),
    ensures
        hd(it.tokens.v@).kind is RParen, h_args(s1, self.functions.m@) matches Some((x, t)) ==> x == v_es(arguments@) && t == tl(it.tokens.v@),
    decreases it.tokens.v@.len(),
@loopentry 0
    let ghost m = it.tokens.v@; let ghost args0 = arguments@;
    proof { assert(h_args1(m, self.functions.m@) is Some ==> h_x(m, 3, self.functions.m@) is Some); assert(h_x(m, 3, self.functions.m@) is None ==> h_args(s1, self.functions.m@) is None); }
@loopbefore 1
    let ghost mut lv = 0int;
@loop 1
    invariant
        hp_ok(*self), lexed(it.tokens.v@), rest_of(m, it.tokens.v@), it.tokens.v@.len() < m.len(), m.len() <= s1.len() < old(it).tokens.v@.len(), bd(m) <= bd(s1) <= bd(old(it).tokens.v@),
        0 <= lv <= 3, stops(it.tokens.v@, lv), s1 == tl(old(it).tokens.v@), h_x(m, 3, self.functions.m@) is None ==> h_args(s1, self.functions.m@) is None, h_x(m, 3, self.functions.m@) is Some ==> h_x(m, 3, self.functions.m@) == h_cont(v_e(expr), it.tokens.v@, lv, 3, self.functions.m@),
    decreases it.tokens.v@.len(),
@loopentry 1
    let ghost n = it.tokens.v@; let ghost l = v_e(expr);
    proof { lemma_step(l, n, lv, 3, self.functions.m@); }
@after expr = self.parse_infix
    proof { lv = op_lvl(hd(n).kind); }
@after arguments.push
    let ghost c = it.tokens.v@;
    proof { lemma_stop(v_e(expr), c, lv, 3, self.functions.m@); lemma_basic(c); lemma_ves(args0, expr);
        assert(v_es(args0) + seq![v_e(expr)] =~= v_es(arguments@));
        if h_args1(tl(c), self.functions.m@) is Some { lemma_snoc(v_es(args0), v_e(expr), (h_args1(tl(c), self.functions.m@)->0).0); } }
@tail
    proof { if vx_t is Ok { let e = vx_t->Ok_0; assert(v_e(e)->Func_1 =~= v_es(e->args@)); assert(v_e(e) == SE::Func(e->name@, v_es(e->args@))); } }
#end
#fn parser.rs Parser::parse_filter_expression
@ret r
@spec
    requires hp_ok(*self), lexed(old(it).tokens.v@), 1 <= precedence <= 7,
    ensures rest_of(old(it).tokens.v@, final(it).tokens.v@), r is Ok ==> final(it).tokens.v@.len() < old(it).tokens.v@.len(),
        h_x(old(it).tokens.v@, lvl_of(precedence as int), self.functions.m@) matches Some((x, t)) ==> r is Ok && x == v_e(r->Ok_0) && t == final(it).tokens.v@,
        r is Ok ==> stops(final(it).tokens.v@, lvl_of(precedence as int)),
    decreases old(it).tokens.v@.len(), 4int,
@loopbefore 0
    let ghost s0 = old(it).tokens.v@; let ghost mut lv = 0int;
@loop 0
    invariant
        hp_ok(*self), lexed(it.tokens.v@), rest_of(s0, it.tokens.v@), it.tokens.v@.len() < s0.len(), 1 <= precedence <= 7, s0 == old(it).tokens.v@,
        0 <= lv <= lvl_of(precedence as int), stops(it.tokens.v@, lv),
        h_x(s0, lvl_of(precedence as int), self.functions.m@) is Some ==> h_x(s0, lvl_of(precedence as int), self.functions.m@) == h_cont(v_e(left), it.tokens.v@, lv, lvl_of(precedence as int), self.functions.m@),
    ensures stops(it.tokens.v@, lvl_of(precedence as int)),
    decreases it.tokens.v@.len(),
@loopentry 0
    let ghost m = it.tokens.v@; let ghost l = v_e(left);
    proof { if lv < op_lvl(hd(m).kind) <= lvl_of(precedence as int) { lemma_step(l, m, lv, lvl_of(precedence as int), self.functions.m@); } }
@after left = self.parse_infix
    proof { lv = op_lvl(hd(m).kind); }
@loopdone 0
    proof { lemma_stop(v_e(left), it.tokens.v@, lv, lvl_of(precedence as int), self.functions.m@); }
#end
#also recursion
Parser::parse_segments Parser::parse_selectors Parser::parse_bracketed Parser::parse_filter Parser::parse_not_expression Parser::parse_infix_expression
Parser::parse_grouped_expression Parser::parse_basic_expression Parser::parse_function_call Parser::parse_filter_expression
#end
