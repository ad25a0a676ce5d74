// ---- well-typed queries: what the parsers let through ----
pub open spec fn is_lit(e: FilterExpression) -> bool { e is True || e is False || e is Null || e is String || e is Int || e is Float }
pub open spec fn sing_sels(s: Seq<Selector>) -> bool { s.len() == 1 && (s[0] is Name || s[0] is Index) }
pub open spec fn sing_seg(s: Segment) -> bool { match s { Segment::Child { selectors } => sing_sels(selectors@), Segment::Recursive { .. } => false, Segment::Eoi => true } }
pub open spec fn sing_q(q: Query) -> bool { forall|i: int| 0 <= i < q.segments@.len() ==> sing_seg(#[trigger] q.segments@[i]) }
pub open spec fn val_fn(f: Seq<char>) -> bool { f == "count"@ || f == "length"@ || f == "value"@ }
/// what a comparison may compare
pub open spec fn cmp_ok(e: FilterExpression) -> bool {
    match e {
        FilterExpression::RelativeQuery { query } => sing_q(*query),
        FilterExpression::RootQuery { query } => sing_q(*query),
        FilterExpression::Function { name, .. } => val_fn(name@),
        _ => is_lit(e),
    }
}
pub open spec fn is_query(e: FilterExpression) -> bool { e is RelativeQuery || e is RootQuery }
pub open spec fn wt(e: FilterExpression) -> bool decreases e, 0int {
    match e {
        FilterExpression::Not { expression } => wt(*expression),
        FilterExpression::Logical { left, operator, right } => wt(*left) && wt(*right),
        FilterExpression::Comparison { left, operator, right } => wt(*left) && wt(*right) && cmp_ok(*left) && cmp_ok(*right),
        FilterExpression::RelativeQuery { query } => wt_query(*query),
        FilterExpression::RootQuery { query } => wt_query(*query),
        FilterExpression::Function { name, args } => is_std(name@) && args@.len() == param_tys(name@).len()
            && forall|i: int| 0 <= i < args@.len() ==> wt(#[trigger] args@[i]) && (param_tys(name@)[i] is Nodes ==> is_query(args@[i])),
        _ => true,
    }
}
pub open spec fn wt_query(q: Query) -> bool decreases q, 0int { forall|i: int| 0 <= i < q.segments@.len() ==> wt_seg(#[trigger] q.segments@[i]) }
pub open spec fn wt_seg(s: Segment) -> bool decreases s, 0int {
    match s { Segment::Child { selectors } => wt_sels(selectors), Segment::Recursive { selectors } => wt_sels(selectors), Segment::Eoi => true }
}
pub open spec fn wt_sels(s: Vec<Selector>) -> bool decreases s, 0int { forall|i: int| 0 <= i < s@.len() ==> wt_sel(#[trigger] s@[i]) }
pub open spec fn wt_sel(s: Selector) -> bool decreases s, 0int {
    match s {
        Selector::Filter { expression } => wt(*expression),
#if singular=1
        Selector::SingularQuery { query } => wt_query(*query) && sing_q(*query),
#fi
        _ => true,
    }
}
// ---- consequences of the definitions ----
pub proof fn lemma_flat_le1<A>(s: Seq<Seq<A>>)
    requires s.len() <= 1, forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() <= 1,
    ensures flat(s).len() <= 1,
{ if s.len() == 1 { assert(s =~= seq![s[0]]); lemma_flat_one(s[0]); } }
/// a singular query selects at most one node
pub proof fn lemma_sing(q: Query, k: int, from: Value, root: Value)
    requires sing_q(q), 0 <= k <= q.segments@.len(),
    ensures segs_nodes(q.segments, k, from, root).len() <= 1,
    decreases k
{
    assert(segs_nodes(q.segments, 0, from, root) == seq![start_node(from)]);
    if k > 0 {
        lemma_sing(q, k - 1, from, root);
        let nodes = segs_nodes(q.segments, k - 1, from, root);
        let s = q.segments@[k - 1];
        assert(sing_seg(s));
        assert(segs_nodes(q.segments, k, from, root) == seg_nodes(s, nodes, root));
        match s {
            Segment::Child { selectors } => {
                let z = child_parts(selectors, nodes, root);
                assert forall|i: int| 0 <= i < z.len() implies (#[trigger] z[i]).len() <= 1 by {
                    let y = sels_parts(selectors, nodes[i], root);
                    assert(y[0] == sel_nodes(selectors@[0], nodes[i], root));
                    assert(y[0].len() <= 1);
                    lemma_flat_le1(y);
                }
                lemma_flat_le1(z);
            }
            _ => {}
        }
    }
}
pub proof fn lemma_few(e: FilterExpression, root: Value, cur: Value)
    requires cmp_ok(e),
    ensures eval(e, root, cur) is Nodes ==> eval(e, root, cur)->Nodes_0.len() <= 1,
{
    match e {
        FilterExpression::RelativeQuery { query } => { lemma_sing(*query, query.segments@.len() as int, cur, root); assert(eval(e, root, cur) == SRes::Nodes(query_nodes(*query, cur, root))); }
        FilterExpression::RootQuery { query } => { lemma_sing(*query, query.segments@.len() as int, root, root); assert(eval(e, root, cur) == SRes::Nodes(query_nodes(*query, root, root))); }
        _ => {}
    }
}
/// the nodes of a descendant segment: those of the node, then those below each child
pub open spec fn below(sels: Vec<Selector>, n: SNode, root: Value) -> Seq<SNode> { flat(desc_parts(sels, children(n), root)) }
pub open spec fn descend_each(ns: Seq<SNode>) -> Seq<Seq<SNode>> { Seq::new(ns.len(), |i: int| descend(ns[i])) }
pub proof fn lemma_descend(n: SNode)
    ensures descend(n) =~= seq![n] + flat(descend_each(children(n))),
{
    match n.v {
        Value::Array(a) => { assert(descend_each(children(n)) =~= descend_arr(n.p, a)); }
        Value::Object(m) => { assert(descend_each(children(n)) =~= descend_obj(n.p, m)); }
        _ => { assert(descend_each(children(n)) =~= Seq::empty()); assert(seq![n] + Seq::empty() =~= seq![n]); }
    }
}
pub proof fn lemma_desc(sels: Vec<Selector>, n: SNode, root: Value)
    ensures desc_nodes(sels, n, root) =~= sels_nodes(sels, n, root) + below(sels, n, root),
{
    lemma_descend(n);
    let f = |m: SNode| sels_nodes(sels, m, root);
    let g = |x: Seq<SNode>| x.map_values(f);
    let h = |x: Seq<Seq<SNode>>| flat(x);
    let ds = descend_each(children(n));
    let z = ds.map_values(g);
    assert(child_parts(sels, descend(n), root) =~= seq![sels_nodes(sels, n, root)] + flat(ds).map_values(f));
    lemma_flat_add(seq![sels_nodes(sels, n, root)], flat(ds).map_values(f));
    lemma_flat_one(sels_nodes(sels, n, root));
    lemma_flat_map(ds, f);
    lemma_flat_flat(z);
    assert forall|i: int| 0 <= i < ds.len() implies #[trigger] z[i] == child_parts(sels, descend(children(n)[i]), root) by {
        assert(z[i] =~= child_parts(sels, descend(children(n)[i]), root));
    }
    assert(z.map_values(h) =~= desc_parts(sels, children(n), root));
}
