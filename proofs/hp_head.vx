#use base.rs
#use strings.rs
#use lit_spec.rs
#use bytes_spec.rs
#raw
//@root use vstd::utf8::*;
//@root use vx_pre::TokenType::*;
#end
#type errors.rs JSONPathErrorType
#type errors.rs JSONPathError
#type token.rs EOQ
#type token.rs TokenType
#type token.rs Token
#type query.rs Query
#type query.rs Segment
#type query.rs Selector
#type query.rs FilterExpression
#type query.rs LogicalOperator
#type query.rs ComparisonOperator
#type parser.rs ExpressionType
#type parser.rs FunctionSignature
#use num_spec.rs
#use ast_spec.rs
#use sigmap.rs
#use unq_spec.rs
#use num_lemmas.rs
#use lex_spec.rs
#use view_hand.rs
#use hp_spec.rs
#type parser.rs Parser
#use hp_stub.rs
#type parser.rs EOF_TOKEN
#type parser.rs PRECEDENCE_LOWEST
#type parser.rs PRECEDENCE_LOGICAL_OR
#type parser.rs PRECEDENCE_LOGICAL_AND
#type parser.rs PRECEDENCE_RELATIONAL
#type parser.rs PRECEDENCE_LOGICAL_NOT
#type parser.rs TokenStream subst=Peekable<IntoIter<Token>>=>VxPeekable<Token>
#use hp_lemmas.rs
#raw
/// the lazy static: what its initialiser gives
#[verifier::external_body] pub fn vx_lazy_PARSER() -> (r: &'static Parser) ensures hp_ok(*r), r.functions.m@ == std_sigs() { unimplemented!() }
#end
#props P14
#fn errors.rs JSONPathError::syntax ${hass}
@ret r
@spec
    ensures r.span == span,
#end
#fn errors.rs JSONPathError::typ ${hass}
@ret r
@spec
    ensures r.span == span,
#end
#fn errors.rs JSONPathError::name ${hass}
@ret r
@spec
    ensures r.span == span,
#end
#fn errors.rs JSONPathError::new ${hass}
@ret r
@spec
    ensures r.span == span,
#end
#fn parser.rs unescape_string assumed
@ret r
@spec
    requires value@.len() <= token_span.1 - token_span.0, token_span.1 <= i64::MAX,
    ensures
        r is Err ==> token_span.0 <= r->Err_0.span.0 <= r->Err_0.span.1 <= token_span.1,
        r is Ok ==> Some(scalars(r->Ok_0@)) == den(value@, 0),
        den(value@, 0) is Some && !has_ctrl(value@, 0) ==> r is Ok,
#end
#props P12
#fn parser.rs standard_functions ${hass}
@ret r
@spec
    ensures r.m@ =~= std_sigs(),
@entry
    proof { lemma_sigs(); }
#end
#props P11 P12 P14
#fn parser.rs Parser::new ${hass}
@ret r
@spec
    ensures hp_ok(r), r.functions.m@ == std_sigs(),
@entry
    proof { lemma_pow53(); }
#end
#fn parser.rs Parser<Default>::default ${hass}
@ret r
@spec
    ensures hp_ok(r), r.functions.m@ == std_sigs(),
#end
#props P12
#fn parser.rs Parser::add_function ${hass}
@spec
    ensures final(self).functions.m@ == old(self).functions.m@.insert(name@, SSig { params: params@, ret: returns }), final(self).index_range == old(self).index_range,
#end
#props P14 P15
#fn parser.rs TokenStream::next ${hass}
@ret r
@spec
    ensures r == hd(old(self).tokens.v@), final(self).tokens.v@ == tl(old(self).tokens.v@),
        lexed(old(self).tokens.v@) ==> sp(r.span, bd(old(self).tokens.v@)) && rest_of(old(self).tokens.v@, final(self).tokens.v@),
@entry
    proof { if lexed(self.tokens.v@) { lemma_basic(self.tokens.v@); } }
#end
#fn parser.rs TokenStream::peek ${hass}
@ret r
@spec
    ensures *r == hd(old(self).tokens.v@), final(self).tokens.v@ == old(self).tokens.v@,
        lexed(old(self).tokens.v@) ==> sp(r.span, bd(old(self).tokens.v@)),
@entry
    proof { if lexed(self.tokens.v@) { lemma_basic(self.tokens.v@); } }
#end
#props P12 P17
#fn query.rs Query::is_singular ${hass}
@ret r
@spec
    ensures r == s_sing(v_q(*self)),
@entry
    proof { lemma_sing(*self); }
@closure 0
|$0: &Segment| -> (o: bool)
    ensures o == sing1(*$0)
@closure 1
|$0: &Selector| -> (o: bool)
    ensures o == (*$0 is Name || *$0 is Index)
#end
#props P17
#fn query.rs Query::is_empty ${hass}
@ret r
@spec
    ensures r == (v_q(*self).len() == 0),
#end
#props P14
#fn query.rs Query::new ${hass}
@ret r
@spec
    ensures r.segments == segments,
#end
#props P12
#fn query.rs FilterExpression::is_literal ${hass}
@ret r
@spec
    ensures r == s_lit(v_e(*self)),
#end
#props P14
#fn query.rs FilterExpression::span ${hass}
@ret r
@spec
    ensures r == e_span(*self),
#end
#props P12 P14
#fn parser.rs is_comparison_operator ${hass}
@ret r
@spec
    ensures r == is_cop(*kind),
#end
#fn parser.rs Parser::precedence ${hass}
@ret r
@spec
    ensures r == prec(*kind),
#end
#props P12
#fn parser.rs Parser::assert_comparable ${hass}
@ret r
@spec
    ensures r is Err ==> r->Err_0.span == span,
        r is Ok == (s_cmp(v_e(*expr), self.functions.m@) && !(v_e(*expr) is Logical || v_e(*expr) is Cmp || v_e(*expr) is Not)),
#end
#fn parser.rs Parser::assert_compared ${hass}
@ret r
@spec
    ensures r is Err ==> r->Err_0.span == e_span(*expr),
        r is Ok == (s_test(v_e(*expr), self.functions.m@) && !s_lit(v_e(*expr))),
#end
#fn parser.rs Parser::assert_well_typed ${hass}
@ret r
@spec
    ensures r is Err ==> r->Err_0.span == token.span,
        r is Ok == s_call(func_name@, v_es(args@), self.functions.m@),
@closure 0
|| -> (o: JSONPathError)
    ensures o.span == token.span
@loop 0
    invariant
        self.functions.m@.contains_key(func_name@), sig_view(*signature) == self.functions.m@[func_name@], args.len() == signature.param_types.len(),
        vx_all0.len() == args.len(), forall|i: int| #![trigger vx_all0[i]] 0 <= i < vx_all0.len() ==> vx_all0[i].0 == i && *vx_all0[i].1 == signature.param_types@[i],
        forall|i: int| 0 <= i < vx_n0 ==> s_fits(signature.param_types@[i], #[trigger] v_es(args@)[i], self.functions.m@),
@loopentry 0
    proof { assert(v_es(args@)[idx as int] == v_e(args@[idx as int])); }
#end
#fn parser.rs Parser::is_value_type ${hass}
@ret r
@spec
    ensures r == s_value(v_e(*expr), self.functions.m@),
#end
#fn parser.rs Parser::is_nodes_type ${hass}
@ret r
@spec
    ensures r == s_nodes(v_e(*expr), self.functions.m@),
#end
#props P11 P14 P15 P22
#fn parser.rs Parser::parse_i_json_int ${hass}
@ret r
@spec
    requires index_text(value@), hp_ok(*self),
    ensures r is Err ==> r->Err_0.span == token_span,
        r is Ok == (int_text(value@) && in_range(int_val(value@))), r is Ok ==> r->Ok_0 == int_val(value@),
@closure 0
|$0: VxParseErr| -> (o: JSONPathError)
    ensures o.span == token_span
@callren .len vx_len
@entry
    proof { lemma_index_text(value@); }
#end
