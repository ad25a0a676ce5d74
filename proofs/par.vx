#use base.rs
#use strings.rs
#use lit_spec.rs
#use bytes_spec.rs
#raw
//@root use vstd::utf8::*;
#end
#type errors.rs JSONPathErrorType
#type errors.rs JSONPathError
#type ${ast_q} Query
#type ${ast_seg} Segment
#type ${ast_sel} Selector
#type ${ast_f} FilterExpression
#type ${ast_f} LogicalOperator
#type ${ast_f} ComparisonOperator
#type ${sigfile} ExpressionType
#type ${sigfile} FunctionSignature
#rules jsonpath.pest grammar.pest
#use pair.rs
#use num_spec.rs
#use ast_spec.rs
#use sigmap.rs
#use unq_spec.rs
#use num_lemmas.rs
#use gram.rs
#use ${view}
#type parser.rs JSONPathParser
#use par_lemmas.rs
#use par_std.rs
#raw
/// the lazy static: what its initialiser gives
#[verifier::external_body] pub fn vx_lazy_PARSER() -> (r: &'static JSONPathParser) ensures parser_ok(*r), r.${sf}.m@ == std_sigs() { unimplemented!() }
#end
#props P14
#fn errors.rs JSONPathError::syntax
#end
#props P14
#fn errors.rs JSONPathError::typ
#end
#props P14
#fn errors.rs JSONPathError::name
#end
#if unescape=bytes
#props P14
#fn unescape.rs unescape assumed
@ret r
@spec
    requires den(value@, 0) is Some, encode_utf8(value@).len() <= i64::MAX,
    ensures r is Ok, Some(scalars(r->Ok_0@)) == den(value@, 0),
#end
#else
#props P14
#fn parser.rs unescape_string assumed
@ret r
@spec
    requires den(value@, 0) is Some, value@.len() <= i64::MAX,
    ensures Some(scalars(r@)) == den(value@, 0),
#end
#fi
#props P12
#fn ${sigfile} standard_functions
@ret r
@spec
    ensures r.m@ =~= std_sigs(),
@entry
    proof { lemma_sigs(); }
#end
#props P11 P12 P14
#fn parser.rs JSONPathParser::new
@ret r
@spec
    ensures parser_ok(r), r.${sf}.m@ == std_sigs(),
@entry
    proof { lemma_pow53(); }
#end
#fn parser.rs JSONPathParser<Default>::default
@ret r
@spec
    ensures parser_ok(r), r.${sf}.m@ == std_sigs(),
#end
#props P11 P12 P14 P15 P22
#fn parser.rs JSONPathParser::parse
@ret r
@spec
    requires parser_ok(*self),
    ensures
        r is Ok == (grammatical(query@) && w_top(tree(query@), self.${sf}.m@)),
        r is Ok ==> v_q(r->Ok_0) == a_top(tree(query@)) && s_ok_q(v_q(r->Ok_0), self.${sf}.m@),
@closure 0
|$0: VxPestError| -> (o: JSONPathError)
@closure 1
|${segargs}| -> (o: Result<Segment, JSONPathError>)
    requires g_seg(${segp})
    ensures seg_ok(o, ${segp}, self.${sf}.m@${segacc})
@entry
    proof { lemma_oks_f::<Segment, JSONPathError>(); lemma_top(tree(query@), self.${sf}.m@); if g_top(tree(query@)) && w_top(tree(query@), self.${sf}.m@) { lemma_w_top(tree(query@), self.${sf}.m@); } }
#end
#props P11 P12 P14 P15
#fn parser.rs JSONPathParser::parse_segment
@ret r
@spec
    requires g_seg(segment), parser_ok(*self),
    ensures seg_ok(r, segment, self.${sf}.m@${accarg}),
    decreases segment, 3int,
@entry
    proof { lemma_parts(segment); }
#end
#props P11 P12 P14 P15
#fn parser.rs JSONPathParser::parse_segment_inner
@ret r
@spec
    requires g_bracketed(segment), parser_ok(*self),
    ensures match r { Ok(v) => v_sels(v) =~= a_bracketed(segment) && w_bracketed(segment, self.${sf}.m@), Err(_) => !w_bracketed(segment, self.${sf}.m@) },
    decreases segment, 3int,
@closure 0
|$0: Pair<Rule>| -> (o: Result<Selector, JSONPathError>)
    requires g_sel($0), decreases_to!(segment => $0)
    ensures sel_ok(o, $0, self.${sf}.m@)
@entry
    proof { lemma_oks_f::<Selector, JSONPathError>(); lemma_parts(segment); }
#end
#props P11 P12 P14 P15
#fn parser.rs JSONPathParser::parse_selector
@ret r
@spec
    requires g_sel(selector), parser_ok(*self),
    ensures sel_ok(r, selector, self.${sf}.m@),
    decreases selector, 3int,
@entry
    proof { lemma_quoted(selector); }
#end
#props P11 P14 P15
#fn parser.rs JSONPathParser::parse_slice_selector
@ret r
@spec
    requires g_sel(selector), selector.rule is slice_selector, parser_ok(*self),
    ensures sel_ok(r, selector, self.${sf}.m@),
@entry
    let ghost k = selector.inner@;
    proof { assert(k.take(0) =~= Seq::empty()); }
@loop 0
    invariant
        g_sel(selector), selector.rule is slice_selector, parser_ok(*self), k == selector.inner@, vx_all0 == k,
        opt_int(start) == a_bound(k.take(vx_n0), Rule::start), opt_int(stop) == a_bound(k.take(vx_n0), Rule::stop), opt_int(step) == a_bound(k.take(vx_n0), Rule::step),
        forall|j: int| 0 <= j < vx_n0 ==> in_range(int_val((#[trigger] k[j]).text@)),
@loopentry 0
    proof { assert(k.take(vx_n0).drop_last() =~= k.take(vx_n0 - 1)); assert(k.take(vx_n0).last() == i); assert(k[vx_n0 - 1] == i); }
@loopdone 0
    proof { assert(k.take(vx_n0) =~= k); }
#end
#props P12 P14 P15
#fn parser.rs JSONPathParser::parse_filter_selector
@ret r
@spec
    requires g_sel(selector), selector.rule is filter_selector, parser_ok(*self),
    ensures sel_ok(r, selector, self.${sf}.m@),
    decreases selector, 1int,
#end
#if singular=1
#props P12 P14 P15
#fn parser.rs JSONPathParser::parse_singular_query_selector
@ret r
@spec
    requires g_sel(selector), selector.rule is singular_query_selector, parser_ok(*self),
    ensures sel_ok(r, selector, self.${sf}.m@),
    decreases selector, 1int,
@entry
    proof { lemma_oks_f::<Segment, JSONPathError>(); lemma_parts(selector); }
@closure 0
|${segargs}| -> (o: Result<Segment, JSONPathError>)
    requires g_seg(${segp}), decreases_to!(selector => ${segp})
    ensures seg_ok(o, ${segp}, self.${sf}.m@${segacc})
#end
#fi
#props P12 P14 P15
#fn parser.rs JSONPathParser::parse_logical_or_expression
@ret r
@spec
    requires g_e(expr), expr.rule is logical_or_expr, assert_compared, parser_ok(*self),
    ensures e_ok(r, expr, self.${sf}.m@), r is Ok ==> s_test(a_e(expr), self.${sf}.m@),
    decreases expr, 1int,
@entry
    let ghost k = expr.inner@;
    let ghost fs = self.${sf}.m@;
@loop 0
    invariant
        g_e(expr), expr.rule is logical_or_expr, assert_compared, parser_ok(*self), k == expr.inner@, fs == self.${sf}.m@,
        vx_all0 =~= k.skip(1), k.len() > 0,
        v_e(or_expr) == a_fold(expr, vx_n0 + 1, SLop::Or), s_test(a_fold(expr, vx_n0 + 1, SLop::Or), fs),
        forall|i: int| 0 <= i <= vx_n0 ==> w_e(#[trigger] k[i], fs) && s_test(a_e(k[i]), fs),
@loopentry 0
    proof { assert(and_expr == k[vx_n0 as int]); }
#end
#props P12 P14 P15
#fn parser.rs JSONPathParser::parse_logical_and_expression
@ret r
@spec
    requires g_e(expr), expr.rule is logical_and_expr, assert_compared, parser_ok(*self),
    ensures e_ok(r, expr, self.${sf}.m@), r is Ok ==> s_test(a_e(expr), self.${sf}.m@),
    decreases expr, 1int,
@entry
    let ghost k = expr.inner@;
    let ghost fs = self.${sf}.m@;
@loop 0
    invariant
        g_e(expr), expr.rule is logical_and_expr, assert_compared, parser_ok(*self), k == expr.inner@, fs == self.${sf}.m@,
        vx_all0 =~= k.skip(1), k.len() > 0,
        v_e(and_expr) == a_fold(expr, vx_n0 + 1, SLop::And), s_test(a_fold(expr, vx_n0 + 1, SLop::And), fs),
        forall|i: int| 0 <= i <= vx_n0 ==> w_e(#[trigger] k[i], fs) && s_test(a_e(k[i]), fs),
@loopentry 0
    proof { assert(basic_expr == k[vx_n0 as int]); }
#end
#props P12 P14 P15
#fn parser.rs JSONPathParser::parse_basic_expression
@ret r
@spec
    requires g_e(expr), g_basic(expr.rule), parser_ok(*self),
    ensures e_ok(r, expr, self.${sf}.m@),
    decreases expr, 3int,
#end
#props P12 P14 P15
#fn parser.rs JSONPathParser::parse_paren_expression
@ret r
@spec
    requires g_e(expr), expr.rule is paren_expr, parser_ok(*self),
    ensures e_ok(r, expr, self.${sf}.m@),
    decreases expr, 1int,
#end
#props P12 P14 P15
#fn parser.rs JSONPathParser::parse_comparison_expression
@ret r
@spec
    requires g_e(expr), expr.rule is comparison_expr, parser_ok(*self),
    ensures e_ok(r, expr, self.${sf}.m@),
    decreases expr, 1int,
#end
#props P12 P14 P15 P20
#fn parser.rs JSONPathParser::parse_comparable
@ret r
@spec
    requires g_e(expr), g_comparable(expr.rule), parser_ok(*self),
    ensures e_ok(r, expr, self.${sf}.m@),
    decreases expr, 3int,
@entry
    proof { ${fold} lemma_parts(expr); lemma_quoted(expr); }
@closure 0
|${segargs}| -> (o: Result<Segment, JSONPathError>)
    requires g_seg(${segp}), decreases_to!(expr => ${segp})
    ensures seg_ok(o, ${segp}, self.${sf}.m@${segacc})
@closure 1
|${segargs}| -> (o: Result<Segment, JSONPathError>)
    requires g_seg(${segp}), decreases_to!(expr => ${segp})
    ensures seg_ok(o, ${segp}, self.${sf}.m@${segacc})
#end
#props P14 P15 P20
#fn parser.rs JSONPathParser::parse_number
@ret r
@spec
    requires g_e(expr), expr.rule is number,
    ensures r is Ok, v_e(r->Ok_0) == a_e(expr),
@callren .abs vx_abs
@entry
    proof { lemma_num(expr.text@); }
@cast i64 vx_f64_as_i64
@closure 0
|$0: VxParseErr| -> (o: JSONPathError)
#end
#props P12 P14 P15
#fn parser.rs JSONPathParser::parse_test_expression
@ret r
@spec
    requires g_e(expr), expr.rule is test_expr, parser_ok(*self),
    ensures e_ok(r, expr, self.${sf}.m@),
    decreases expr, 1int,
#end
#props P12 P14 P15
#fn parser.rs JSONPathParser::parse_test_expression_inner
@ret r
@spec
    requires g_e(expr), g_tested(expr.rule), parser_ok(*self),
    ensures e_ok(r, expr, self.${sf}.m@),
    decreases expr, 3int,
@closure 0
|${segargs}| -> (o: Result<Segment, JSONPathError>)
    requires g_seg(${segp}), decreases_to!(expr => ${segp})
    ensures seg_ok(o, ${segp}, self.${sf}.m@${segacc})
@closure 1
|${segargs}| -> (o: Result<Segment, JSONPathError>)
    requires g_seg(${segp}), decreases_to!(expr => ${segp})
    ensures seg_ok(o, ${segp}, self.${sf}.m@${segacc})
@entry
    proof { ${fold} lemma_parts(expr); }
#end
#props P12 P14 P15
#fn parser.rs JSONPathParser::parse_function_expression
@ret r
@spec
    requires g_e(expr), expr.rule is function_expr, parser_ok(*self),
    ensures e_ok(r, expr, self.${sf}.m@),
    decreases expr, 1int,
@closure 0
|$0: Pair<Rule>| -> (o: Result<FilterExpression, JSONPathError>)
    requires g_e($0), g_arg($0.rule), decreases_to!(expr => $0)
    ensures e_ok(o, $0, self.${sf}.m@)
@entry
    let ghost k = expr.inner@;
    let ghost fs = self.${sf}.m@;
    proof { lemma_oks_f::<FilterExpression, JSONPathError>(); lemma_parts(expr); }
@after let args
    proof {
        match args {
            Ok(ref a) => { assert forall|i: int| 1 <= i < k.len() implies w_e(#[trigger] k[i], fs) by { let z = a@[i - 1]; assert(v_e(z) == a_e(k[i])); } }
            Err(_) => {}
        }
    }
#end
#props P12 P14 P15 P20
#fn parser.rs JSONPathParser::parse_function_argument
@ret r
@spec
    requires g_e(expr), g_arg(expr.rule), parser_ok(*self),
    ensures e_ok(r, expr, self.${sf}.m@),
    decreases expr, 3int,
@entry
    proof { ${fold} lemma_parts(expr); lemma_quoted(expr); }
@closure 0
|${segargs}| -> (o: Result<Segment, JSONPathError>)
    requires g_seg(${segp}), decreases_to!(expr => ${segp})
    ensures seg_ok(o, ${segp}, self.${sf}.m@${segacc})
@closure 1
|${segargs}| -> (o: Result<Segment, JSONPathError>)
    requires g_seg(${segp}), decreases_to!(expr => ${segp})
    ensures seg_ok(o, ${segp}, self.${sf}.m@${segacc})
#end
#props P11 P14 P15
#fn parser.rs JSONPathParser::parse_i_json_int
@ret r
@spec
    requires int_text(value@), parser_ok(*self),
    ensures r is Ok == in_range(int_val(value@)), r is Ok ==> r->Ok_0 == int_val(value@),
@closure 0
|$0: VxParseErr| -> (o: JSONPathError)
@entry
    proof { lemma_int_text(value@); }
#end
#props P12
#fn parser.rs JSONPathParser::assert_comparable
@ret r
@spec
    ensures r is Ok == s_cmp(v_e(*expr), self.${sf}.m@),
#end
#props P12
#fn parser.rs JSONPathParser::assert_compared
@ret r
@spec
    ensures r is Ok == s_test(v_e(*expr), self.${sf}.m@),
#end
#props P12 P14
#fn parser.rs JSONPathParser::assert_well_typed
@ret r
@spec
    ensures r is Ok == s_call(func_name@, v_es(args@), self.${sf}.m@), r is Ok ==> r->Ok_0 == args,
@closure 0
|| -> (o: JSONPathError)
@loop 0
    invariant
        self.${sf}.m@.contains_key(func_name@), sig_view(*signature) == self.${sf}.m@[func_name@], args.len() == signature.param_types.len(),
        vx_all0.len() == args.len(), forall|i: int| #![trigger vx_all0[i]] 0 <= i < vx_all0.len() ==> vx_all0[i].0 == i && *vx_all0[i].1 == signature.param_types@[i],
        forall|i: int| 0 <= i < vx_n0 ==> s_fits(signature.param_types@[i], #[trigger] v_es(args@)[i], self.${sf}.m@),
@loopentry 0
    proof { assert(v_es(args@)[idx as int] == v_e(args@[idx as int])); }
#end
#props P12
#fn parser.rs JSONPathParser::is_value_type
@ret r
@spec
    ensures r == s_value(v_e(*expr), self.${sf}.m@),
#end
#props P12
#fn parser.rs JSONPathParser::is_nodes_type
@ret r
@spec
    ensures r == s_nodes(v_e(*expr), self.${sf}.m@),
#end
#props P12
#fn ${ast_f} FilterExpression::is_literal
@ret r
@spec
    ensures r == s_lit(v_e(*self)),
#end
#props P12 P17
#fn ${ast_q} Query::is_singular
@ret r
@spec
    ensures r == s_sing(v_q(*self)),
#if rec=1
#end
#props P12 P17
#fn ${ast_seg} Segment::is_singular
@ret r
@spec
    ensures r == s_sing(v_chain(*self)),
    decreases *self,
@entry
    proof { lemma_sing(*self); }
@closure 0
|$0: &Selector| -> (o: bool)
    ensures o == (*$0 is Name || *$0 is Index)
#end
#props P12
#fn parser.rs JSONPathParser::add_function
@spec
    ensures final(self).${sf}.m@ == old(self).${sf}.m@.insert(name@, SSig { params: params@, ret: returns }), final(self).index_range == old(self).index_range,
#else
@entry
    proof { lemma_sing(*self); }
@closure 0
|$0: &Segment| -> (o: bool)
    ensures o == sing1(*$0)
@closure 1
|$0: &Selector| -> (o: bool)
    ensures o == (*$0 is Name || *$0 is Index)
#fi
#end
#props P14
#also recursion
JSONPathParser::parse_segment JSONPathParser::parse_segment_inner JSONPathParser::parse_selector JSONPathParser::parse_filter_selector
#if singular=1
JSONPathParser::parse_singular_query_selector
#fi
JSONPathParser::parse_logical_or_expression JSONPathParser::parse_logical_and_expression JSONPathParser::parse_basic_expression
JSONPathParser::parse_paren_expression JSONPathParser::parse_comparison_expression JSONPathParser::parse_comparable
JSONPathParser::parse_test_expression JSONPathParser::parse_test_expression_inner JSONPathParser::parse_function_expression JSONPathParser::parse_function_argument
#end
#props P11 P12 P14 P15 P22
#fn ${ast_q} vx_static_PARSER
@ret r
@spec
    ensures parser_ok(r), r.${sf}.m@ == std_sigs(),
#end
#set assumed
#include std_query.vx
#if rec=0
#props P14
#fn ${ast_q} Query::new
@ret r
@spec
    ensures r.segments == segments,
#end
#fi
