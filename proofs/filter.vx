// contracts of filter.rs (locations, singular, iter) or ast.rs (serde): FILE is the source file
#props P03 P04 P05 P06 P18 P21
#fn ${filter} FilterExpressionResult::from_json_value
@props P03 P04 P05 P06 P18 P21
@ret r
@spec
    ensures res_view(r) == val_res(*value), !(r is Nodes), !(r is Nothing),
#end
#fn ${filter} is_truthy
@props P03 P05 P18
@ret r
@spec
    ensures r == truth(res_view(rv)),
#end
#fn ${filter} is_truthy_ref
@props P03 P05 P18
@ret r
@spec
    ensures r == truth(res_view(*rv)),
#end
#fn ${filter} logical
@props P03 P05 P18
@ret r
@spec
    ensures r == match *op { LogicalOperator::And => truth(res_view(left)) && truth(res_view(right)), LogicalOperator::Or => truth(res_view(left)) || truth(res_view(right)) },
#end
#fn ${filter} nodes_or_singular
@props P03 P04 P18
@ret r
@spec
    requires few(rv),
    ensures few(r), comparable(res_view(r)) == comparable(res_view(rv)), r is Nodes ==> r->Nodes_0@.len() == 0,
#end
#fn ${filter} eq
@props P03 P04 P18 P21
@ret r
@spec
    requires left is Nodes ==> left->Nodes_0@.len() == 0, right is Nodes ==> right->Nodes_0@.len() == 0,
    ensures r == res_eq(comparable(res_view(*left)), comparable(res_view(*right))),
#end
#fn ${filter} json_eq
@props P03 P04 P18 P21
@ret r
@spec
    ensures r == deep_eq(*left, *right),
    decreases *left,
@closure 0
|$0: (&Value, &Value)| -> (o: bool)
    requires decreases_to!(*left => *$0.0)
    ensures o == deep_eq(*$0.0, *$0.1)
@closure 1
|$0: (&String, &Value)| -> (o: bool)
    requires decreases_to!(*left => *$0.1)
    ensures o == (mfind(r.e@, $0.0@) >= 0 && deep_eq(*$0.1, r.e@[mfind(r.e@, $0.0@)].1))
@closure 2
|$0: &Value| -> (o: bool)
    requires decreases_to!(*left => *l)
    ensures o == deep_eq(*l, *$0)
#end
#fn ${filter} lt
@props P03 P04 P18
@ret r
@spec
    ensures !(left is Nodes) && !(right is Nodes) ==> r == res_lt(res_view(*left), res_view(*right)), left is Nodes || right is Nodes ==> !r,
#end
#fn ${filter} compare
@props P03 P04 P18 P21
@ret r
@spec
    requires few(left), few(right),
    ensures r == cmp_op(*op, res_view(left), res_view(right)),
#end
#fn ${filter} unpack_result
@props P03 P06 P18 P21
@ret r
@spec
    requires index < param_types@.len(), 
#if ser=1
    ensures r is Ok, res_view(r->Ok_0) == arg_as(sty(param_types@[index as int]), res_view(rv)),
#fi
#if !ser=1
    ensures res_view(r) == arg_as(sty(param_types@[index as int]), res_view(rv)),
#fi
#end
