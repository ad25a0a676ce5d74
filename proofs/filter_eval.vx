#props P03 P05 P18 P21
#fn ${filter} FilterExpression::evaluate
@ret r
@spec
    requires wt(*self), env_ok(*env),
    ensures res_view(r) == eval(*self, *root, *current),
    decreases *self, Value::Null, 0int,
@arm FilterExpression :: Comparison { left , operator , right , } => entry
    proof { lemma_few(**left, *root, *current); lemma_few(**right, *root, *current); }
@closure 0
|| -> (o: &'static DynFn)
    requires false
@closure 1
|$0: &FilterExpression| -> (o: FilterExpressionResult<'v>)
    requires wt(*$0), decreases_to!(*self => *$0)
    ensures res_view(o) == eval(*$0, *root, *current)
@closure 2
|$0: (usize, FilterExpressionResult<'v>)| -> (o: FilterExpressionResult<'v>)
    requires $0.0 < param_tys(name@).len()
    ensures res_view(o) == arg_as(param_tys(name@)[$0.0 as int], res_view($0.1))
@wrap let _args
    proof { assert(args_view(c4.v@) =~= eval_args(name@, *args, *root, *current)); }
#end
