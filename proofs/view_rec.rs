// ---- the crate's syntax tree as RFC 9535 syntax ----
pub open spec fn opt_int(i: Option<i64>) -> Option<int> { match i { Some(i) => Some(i as int), None => None } }
pub open spec fn v_lop(o: LogicalOperator) -> SLop { match o { LogicalOperator::And => SLop::And, LogicalOperator::Or => SLop::Or } }
pub open spec fn v_cop(o: ComparisonOperator) -> SCop {
    match o { ComparisonOperator::Eq => SCop::Eq, ComparisonOperator::Ne => SCop::Ne, ComparisonOperator::Ge => SCop::Ge, ComparisonOperator::Gt => SCop::Gt, ComparisonOperator::Le => SCop::Le, ComparisonOperator::Lt => SCop::Lt }
}
pub open spec fn v_e(e: FilterExpression) -> SE decreases e {
    match e {
        FilterExpression::True_ {} => SE::True,
        FilterExpression::False_ {} => SE::False,
        FilterExpression::Null {} => SE::Null,
        FilterExpression::StringLiteral { value } => SE::Str(value@),
        FilterExpression::Int { value } => SE::Int(value as int),
        FilterExpression::Float { value } => SE::Float(value),
        FilterExpression::Not { expression } => SE::Not(Box::new(v_e(*expression))),
        FilterExpression::Logical { left, operator, right } => SE::Logical(Box::new(v_e(*left)), v_lop(operator), Box::new(v_e(*right))),
        FilterExpression::Comparison { left, operator, right } => SE::Cmp(Box::new(v_e(*left)), v_cop(operator), Box::new(v_e(*right))),
        FilterExpression::RelativeQuery { query } => SE::Rel(v_q(*query)),
        FilterExpression::RootQuery { query } => SE::Root(v_q(*query)),
        FilterExpression::Function { name, args } => SE::Func(name@, Seq::new(args@.len(), |i: int| if 0 <= i < args@.len() { v_e(args@[i]) } else { SE::Null })),
    }
}
pub open spec fn v_q(q: Query) -> Seq<SSeg> decreases q { v_chain(q.ast) }
/// the segments of a chain, first to last
pub open spec fn v_chain(s: Segment) -> Seq<SSeg> decreases s {
    match s { Segment::Root {} => Seq::empty(), Segment::Child { left, selectors } => v_chain(*left).push(SSeg::Child(v_sels(selectors))), Segment::Recursive { left, selectors } => v_chain(*left).push(SSeg::Desc(v_sels(selectors))) }
}
pub open spec fn v_sels(s: Vec<Selector>) -> Seq<SSel> decreases s { Seq::new(s@.len(), |i: int| if 0 <= i < s@.len() { v_sel(s@[i]) } else { SSel::Wild }) }
pub open spec fn v_sel(s: Selector) -> SSel decreases s {
    match s {
        Selector::Name { name } => SSel::Name(name@),
        Selector::Index { index } => SSel::Index(index as int),
        Selector::Slice { start, stop, step } => SSel::Slice(opt_int(start), opt_int(stop), opt_int(step)),
        Selector::Wild {} => SSel::Wild,
        Selector::Filter { expression } => SSel::Filter(Box::new(v_e(*expression))),
#if singular=1
        Selector::SingularQuery { query } => SSel::Sing(v_q(*query)),
#fi
    }
}
