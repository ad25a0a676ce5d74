#use base.rs
#use strings.rs
#use lit_spec.rs
#type ${ast_q} Query
#type ${ast_seg} Segment
#type ${ast_sel} Selector
#type ${ast_f} FilterExpression
#type ${ast_f} LogicalOperator
#type ${ast_f} ComparisonOperator
#type ${sigfile} ExpressionType
#type ${sigfile} FunctionSignature
#use num_spec.rs
#use ast_spec.rs
#use ${view}
#use pr_spec.rs
#use pr_lemmas.rs
#include quote.vx
#props P16
#fn ${ast_q} Query<Display>::fmt
@ret r
@spec
    ensures r is Ok, final(f).o@ =~= old(f).o@ + self.vx_disp(),
#if rec=0
@closure 0
|$0: &Segment| -> (o: String)
    ensures o@ == $0.vx_disp()
@entry
    proof { lemma_texts(pr_segs(v_q(*self))); lemma_joined_flat(pr_segs(v_q(*self))); }
#fi
#end
#fn ${ast_seg} Segment<Display>::fmt
@ret r
@spec
    ensures r is Ok, final(f).o@ =~= old(f).o@ + self.vx_disp(),
@closure 0
|$0: &Selector| -> (o: String)
    ensures o@ == $0.vx_disp()
@closure 1
|$0: &Selector| -> (o: String)
    ensures o@ == $0.vx_disp()
@entry
#if rec=1
    proof { lemma_chain_text(*self); }
#else
    proof { match self { Segment::Child { selectors, .. } => lemma_texts(pr_sels(v_sels(*selectors))), Segment::Recursive { selectors, .. } => lemma_texts(pr_sels(v_sels(*selectors))), _ => {} } }
#fi
#end
#fn ${ast_sel} Selector<Display>::fmt
@ret r
@spec
    ensures r is Ok, final(f).o@ =~= old(f).o@ + self.vx_disp(),
@closure 0
|$0: i64| -> (o: Option<String>)
    ensures o is Some, o.unwrap()@ == dec_int($0 as int)
@closure 1
|$0: i64| -> (o: Option<String>)
    ensures o is Some, o.unwrap()@ == dec_int($0 as int)
@closure 2
|$0: i64| -> (o: Option<String>)
    ensures o is Some, o.unwrap()@ == dec_int($0 as int)
@entry
    proof { lemma_sel(*self); }
#end
#fn ${ast_f} LogicalOperator<Display>::fmt
@ret r
@spec
    ensures r is Ok, final(f).o@ =~= old(f).o@ + self.vx_disp(),
#end
#fn ${ast_f} ComparisonOperator<Display>::fmt
@ret r
@spec
    ensures r is Ok, final(f).o@ =~= old(f).o@ + self.vx_disp(),
#end
#fn ${ast_f} FilterExpression<Display>::fmt
@ret r
@spec
    ensures r is Ok, final(f).o@ =~= old(f).o@ + self.vx_disp(),
#if rec=0
@closure 0
|$0: &Segment| -> (o: String)
    ensures o@ == $0.vx_disp()
@closure 1
|$0: &Segment| -> (o: String)
    ensures o@ == $0.vx_disp()
@closure 2
|$0: &FilterExpression| -> (o: String)
    ensures o@ == $0.vx_disp()
#else
@closure 0
|$0: &FilterExpression| -> (o: String)
    ensures o@ == $0.vx_disp()
#fi
@entry
    proof { lemma_fe(*self); }
#end
