// ---- RFC 9535: the meaning of a syntax tree, without the crate's own types (the same text for every evaluator) ----
pub open spec fn m_opt(i: Option<int>) -> Option<i64> { match i { Some(i) => Some(i as i64), None => None } }
pub open spec fn m_cmp(op: SCop, l: SRes, r: SRes) -> bool {
    let (a, b) = (comparable(l), comparable(r));
    match op {
        SCop::Eq => res_eq(a, b), SCop::Ne => !res_eq(a, b), SCop::Lt => res_lt(a, b), SCop::Gt => res_lt(b, a),
        SCop::Le => res_lt(a, b) || res_eq(a, b), SCop::Ge => res_lt(b, a) || res_eq(a, b),
    }
}
pub open spec fn m_e(e: SE, root: Value, cur: Value) -> SRes decreases e, 0int, 0int {
    match e {
        SE::True => SRes::Bool(true),
        SE::False => SRes::Bool(false),
        SE::Null => SRes::Null,
        SE::Str(s) => SRes::Str(s),
        SE::Int(i) => SRes::Int(i),
        SE::Float(f) => SRes::Float(f),
        SE::Not(x) => SRes::Bool(!truth(m_e(*x, root, cur))),
        SE::Logical(l, op, r) => SRes::Bool(match op {
            SLop::And => truth(m_e(*l, root, cur)) && truth(m_e(*r, root, cur)),
            SLop::Or => truth(m_e(*l, root, cur)) || truth(m_e(*r, root, cur)),
        }),
        SE::Cmp(l, op, r) => SRes::Bool(m_cmp(op, m_e(*l, root, cur), m_e(*r, root, cur))),
        SE::Rel(q) => SRes::Nodes(m_q(q, q.len() as int, cur, root)),
        SE::Root(q) => SRes::Nodes(m_q(q, q.len() as int, root, root)),
        SE::Func(f, a) => fcall(f, m_args(f, a, root, cur)),
    }
}
pub open spec fn m_args(f: Seq<char>, a: Seq<SE>, root: Value, cur: Value) -> Seq<SRes> decreases a, 0int, 0int {
    Seq::new(a.len(), |i: int| if 0 <= i < a.len() { arg_as(param_tys(f)[i], m_e(a[i], root, cur)) } else { SRes::Nothing })
}
/// after the first k segments
pub open spec fn m_q(q: Seq<SSeg>, k: int, from: Value, root: Value) -> Seq<SNode> decreases q, k, 0int {
    if k <= 0 || k > q.len() { seq![start_node(from)] } else { m_seg(q[k - 1], m_q(q, k - 1, from, root), root) }
}
pub open spec fn m_seg(s: SSeg, nodes: Seq<SNode>, root: Value) -> Seq<SNode> decreases s, 0int, 0int {
    match s {
        SSeg::Child(l) => flat(m_child(l, nodes, root)),
        SSeg::Desc(l) => flat(m_desc(l, nodes, root)),
        SSeg::Eoi => nodes,
    }
}
pub open spec fn m_child(l: Seq<SSel>, nodes: Seq<SNode>, root: Value) -> Seq<Seq<SNode>> decreases l, 2int, 0int { Seq::new(nodes.len(), |i: int| m_sels(l, nodes[i], root)) }
pub open spec fn m_desc(l: Seq<SSel>, nodes: Seq<SNode>, root: Value) -> Seq<Seq<SNode>> decreases l, 4int, 0int { Seq::new(nodes.len(), |i: int| m_below(l, nodes[i], root)) }
/// every selector applied to one node, in selector order
pub open spec fn m_sels(l: Seq<SSel>, n: SNode, root: Value) -> Seq<SNode> decreases l, 1int, 0int { flat(m_parts(l, n, root)) }
pub open spec fn m_parts(l: Seq<SSel>, n: SNode, root: Value) -> Seq<Seq<SNode>> decreases l, 0int, 0int {
    Seq::new(l.len(), |j: int| if 0 <= j < l.len() { m_sel(l[j], n, root) } else { Seq::empty() })
}
/// every selector applied to the node and then to its descendants
pub open spec fn m_below(l: Seq<SSel>, n: SNode, root: Value) -> Seq<SNode> decreases l, 3int, 0int { flat(m_child(l, descend(n), root)) }
pub open spec fn m_bits(e: SE, n: SNode, root: Value) -> Seq<bool> decreases e, 1int, 0int {
    Seq::new(children(n).len(), |i: int| truth(m_e(e, root, children(n)[i].v)))
}
pub open spec fn m_sel(s: SSel, n: SNode, root: Value) -> Seq<SNode> decreases s, 0int, 0int {
    match s {
        SSel::Name(k) => name_nodes(n, k),
        SSel::Index(i) => index_nodes(n, i),
        SSel::Slice(a, b, c) => slice_nodes(n, m_opt(a), m_opt(b), m_opt(c)),
        SSel::Wild => children(n),
        SSel::Filter(e) => keep(children(n), m_bits(*e, n, root)),
#if singular=1
        SSel::Sing(q) => singular_nodes(n, m_q(q, q.len() as int, root, root)),
#else
        SSel::Sing(q) => Seq::empty(),
#fi
    }
}
/// what a query text selects in a value
pub open spec fn selected(text: Seq<char>, v: Value) -> Seq<SNode> { m_q(syntax(text), syntax(text).len() as int, v, v) }
// ---- it is what the crate's own syntax tree means ----
pub proof fn lemma_m_e(e: FilterExpression, root: Value, cur: Value)
    ensures m_e(v_e(e), root, cur) == eval(e, root, cur),
    decreases e, 0int
{
    match e {
        FilterExpression::Not { expression } => { lemma_m_e(*expression, root, cur); }
        FilterExpression::Logical { left, operator, right } => { lemma_m_e(*left, root, cur); lemma_m_e(*right, root, cur); }
        FilterExpression::Comparison { left, operator, right } => { lemma_m_e(*left, root, cur); lemma_m_e(*right, root, cur); }
        FilterExpression::RelativeQuery { query } => { lemma_m_q(*query, cur, root); }
        FilterExpression::RootQuery { query } => { lemma_m_q(*query, root, root); }
        FilterExpression::Function { name, args } => {
            let a = v_e(e)->Func_1;
            assert forall|i: int| 0 <= i < args@.len() implies #[trigger] m_args(name@, a, root, cur)[i] == eval_args(name@, args, root, cur)[i] by { lemma_m_e(args@[i], root, cur); assert(a[i] == v_e(args@[i])); }
            assert(m_args(name@, a, root, cur) =~= eval_args(name@, args, root, cur));
        }
        _ => {}
    }
}
pub proof fn lemma_m_q(q: Query, from: Value, root: Value)
    ensures m_q(v_q(q), v_q(q).len() as int, from, root) == query_nodes(q, from, root),
    decreases q, 0int
{
    lemma_m_segs(q.segments, v_q(q), q.segments@.len() as int, from, root);
}
pub proof fn lemma_m_segs(segs: Vec<Segment>, q: Seq<SSeg>, k: int, from: Value, root: Value)
    requires q.len() == segs@.len(), forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] == v_seg(segs@[i]),
    ensures m_q(q, k, from, root) == segs_nodes(segs, k, from, root),
    decreases segs, k
{
    if !(k <= 0 || k > q.len()) {
        lemma_m_segs(segs, q, k - 1, from, root);
        lemma_m_seg(segs@[k - 1], segs_nodes(segs, k - 1, from, root), root);
    }
}
pub proof fn lemma_m_seg(s: Segment, nodes: Seq<SNode>, root: Value)
    ensures m_seg(v_seg(s), nodes, root) == seg_nodes(s, nodes, root),
    decreases s, 0int
{
    match s {
        Segment::Child { selectors } => { lemma_m_child(selectors, nodes, root); }
        Segment::Recursive { selectors } => { lemma_m_desc(selectors, nodes, root); }
        _ => {}
    }
}
pub proof fn lemma_m_child(l: Vec<Selector>, nodes: Seq<SNode>, root: Value)
    ensures m_child(v_sels(l), nodes, root) == child_parts(l, nodes, root),
    decreases l, 2int
{
    assert forall|i: int| 0 <= i < nodes.len() implies #[trigger] m_child(v_sels(l), nodes, root)[i] == child_parts(l, nodes, root)[i] by { lemma_m_sels(l, nodes[i], root); }
    assert(m_child(v_sels(l), nodes, root) =~= child_parts(l, nodes, root));
}
pub proof fn lemma_m_desc(l: Vec<Selector>, nodes: Seq<SNode>, root: Value)
    ensures m_desc(v_sels(l), nodes, root) == desc_parts(l, nodes, root),
    decreases l, 3int
{
    assert forall|i: int| 0 <= i < nodes.len() implies #[trigger] m_desc(v_sels(l), nodes, root)[i] == desc_parts(l, nodes, root)[i] by {
        lemma_m_child(l, descend(nodes[i]), root);
        assert(m_below(v_sels(l), nodes[i], root) == flat(m_child(v_sels(l), descend(nodes[i]), root)));
        assert(desc_nodes(l, nodes[i], root) == flat(child_parts(l, descend(nodes[i]), root)));
    }
    assert(m_desc(v_sels(l), nodes, root) =~= desc_parts(l, nodes, root));
}
pub proof fn lemma_m_sels(l: Vec<Selector>, n: SNode, root: Value)
    ensures m_sels(v_sels(l), n, root) == sels_nodes(l, n, root),
    decreases l, 1int
{
    let z = v_sels(l);
    assert forall|j: int| 0 <= j < z.len() implies #[trigger] m_parts(z, n, root)[j] == sels_parts(l, n, root)[j] by { lemma_m_sel(l@[j], n, root); assert(z[j] == v_sel(l@[j])); }
    assert(m_parts(z, n, root) =~= sels_parts(l, n, root));
}
pub proof fn lemma_m_sel(s: Selector, n: SNode, root: Value)
    ensures m_sel(v_sel(s), n, root) == sel_nodes(s, n, root),
    decreases s, 0int
{
    match s {
        Selector::Filter { expression } => {
            assert forall|i: int| 0 <= i < children(n).len() implies #[trigger] m_bits(v_e(*expression), n, root)[i] == filter_bits(*expression, n, root)[i] by { lemma_m_e(*expression, root, children(n)[i].v); }
            assert(m_bits(v_e(*expression), n, root) =~= filter_bits(*expression, n, root));
        }
        Selector::Slice { start, stop, step } => { assert(m_opt(opt_int(start)) == start && m_opt(opt_int(stop)) == stop && m_opt(opt_int(step)) == step); }
#if singular=1
        Selector::SingularQuery { query } => { lemma_m_q(*query, root, root); }
#fi
        _ => {}
    }
}
