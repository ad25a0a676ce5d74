// ---- RFC 9535: what a query selects ----
pub ghost struct SNode { pub p: SPath, pub v: Value }
pub open spec fn child_idx(n: SNode, a: Seq<Value>, i: int) -> SNode { SNode { p: p_idx(n.p, i), v: a[i] } }
pub open spec fn child_key(n: SNode, e: Seq<(String, Value)>, i: int) -> SNode { SNode { p: p_key(n.p, e[i].0@), v: e[i].1 } }
/// children of a node, in order
pub open spec fn children(n: SNode) -> Seq<SNode> {
    match n.v {
        Value::Array(a) => Seq::new(a@.len(), |i: int| child_idx(n, a@, i)),
        Value::Object(m) => Seq::new(m.e@.len(), |i: int| child_key(n, m.e@, i)),
        _ => Seq::empty(),
    }
}
/// a node and its descendants, each before its own descendants, children in order
pub open spec fn descend(n: SNode) -> Seq<SNode> decreases n.v, 0int {
    match n.v {
        Value::Array(a) => seq![n] + flat(descend_arr(n.p, a)),
        Value::Object(m) => seq![n] + flat(descend_obj(n.p, m)),
        _ => seq![n],
    }
}
pub open spec fn descend_arr(p: SPath, a: Vec<Value>) -> Seq<Seq<SNode>> decreases a, 0int {
    Seq::new(a@.len(), |i: int| if 0 <= i < a@.len() { descend(SNode { p: p_idx(p, i), v: a@[i] }) } else { Seq::empty() })
}
pub open spec fn descend_obj(p: SPath, m: Map) -> Seq<Seq<SNode>> decreases m, 0int {
    Seq::new(m.e@.len(), |i: int| if 0 <= i < m.e@.len() { descend(SNode { p: p_key(p, m.e@[i].0@), v: m.e@[i].1 }) } else { Seq::empty() })
}
/// values as filter expressions see them
pub ghost enum SRes { Bool(bool), Int(int), Float(f64), Null, Str(Seq<char>), Arr(Value), Obj(Value), Nodes(Seq<SNode>), Nothing }
pub open spec fn num_res(x: Number) -> SRes { if num_is_int(x) && num_int(x) <= i64::MAX { SRes::Int(num_int(x)) } else { SRes::Float(num_f64(x)) } }
pub open spec fn val_res(v: Value) -> SRes {
    match v { Value::Null => SRes::Null, Value::Bool(b) => SRes::Bool(b), Value::Number(x) => num_res(x), Value::String(s) => SRes::Str(s@), Value::Array(_) => SRes::Arr(v), Value::Object(_) => SRes::Obj(v) }
}
pub open spec fn truth(r: SRes) -> bool { match r { SRes::Nothing => false, SRes::Nodes(n) => n.len() > 0, SRes::Bool(b) => b, _ => true } }
/// the value a comparison compares: that of the only node, or nothing
pub open spec fn comparable(r: SRes) -> SRes {
    match r { SRes::Nodes(n) => if n.len() == 1 { val_res(n[0].v) } else { SRes::Nothing }, _ => r }
}
pub open spec fn prim_eq(l: SRes, r: SRes) -> bool {
    match (l, r) {
        (SRes::Nothing, SRes::Nothing) => true,
        (SRes::Null, SRes::Null) => true,
        (SRes::Bool(a), SRes::Bool(b)) => a == b,
        (SRes::Int(a), SRes::Int(b)) => a == b,
        (SRes::Float(a), SRes::Float(b)) => feq(a, b),
        (SRes::Int(a), SRes::Float(b)) => feq(i2f(a), b),
        (SRes::Float(a), SRes::Int(b)) => feq(a, i2f(b)),
        (SRes::Str(a), SRes::Str(b)) => a == b,
        _ => false,
    }
}
/// structural equality, numbers by value
pub open spec fn deep_eq(l: Value, r: Value) -> bool decreases l {
    match (l, r) {
        (Value::Array(a), Value::Array(b)) => a@.len() == b@.len() && forall|i: int| 0 <= i < a@.len() ==> deep_eq(#[trigger] a@[i], b@[i]),
        (Value::Object(a), Value::Object(b)) => a.e@.len() == b.e@.len() && forall|i: int| 0 <= i < a.e@.len() ==>
            mfind(b.e@, (#[trigger] a.e@[i]).0@) >= 0 && deep_eq(a.e@[i].1, b.e@[mfind(b.e@, a.e@[i].0@)].1),
        (Value::Array(_), _) | (_, Value::Array(_)) | (Value::Object(_), _) | (_, Value::Object(_)) => false,
        _ => prim_eq(val_res(l), val_res(r)),
    }
}
pub open spec fn res_eq(l: SRes, r: SRes) -> bool {
    match (l, r) {
        (SRes::Arr(a), SRes::Arr(b)) => deep_eq(a, b),
        (SRes::Obj(a), SRes::Obj(b)) => deep_eq(a, b),
        _ => prim_eq(l, r),
    }
}
pub open spec fn res_lt(l: SRes, r: SRes) -> bool {
    match (l, r) {
        (SRes::Int(a), SRes::Int(b)) => a < b,
        (SRes::Float(a), SRes::Float(b)) => flt(a, b),
        (SRes::Int(a), SRes::Float(b)) => flt(i2f(a), b),
        (SRes::Float(a), SRes::Int(b)) => flt(a, i2f(b)),
        (SRes::Str(a), SRes::Str(b)) => str_lt(a, b),
        _ => false,
    }
}
pub open spec fn cmp_op(op: ComparisonOperator, l: SRes, r: SRes) -> bool {
    let (a, b) = (comparable(l), comparable(r));
    match op {
        ComparisonOperator::Eq => res_eq(a, b),
        ComparisonOperator::Ne => !res_eq(a, b),
        ComparisonOperator::Lt => res_lt(a, b),
        ComparisonOperator::Gt => res_lt(b, a),
        ComparisonOperator::Le => res_lt(a, b) || res_eq(a, b),
        ComparisonOperator::Ge => res_lt(b, a) || res_eq(a, b),
    }
}
// ---- functions ----
pub ghost enum STy { Logical, Nodes, Val }
// the crates iregexp and regex
pub uninterp spec fn iregexp_ok(p: Seq<char>) -> bool;
pub uninterp spec fn re_compiles(p: Seq<char>) -> bool;
pub uninterp spec fn re_is_match(p: Seq<char>, s: Seq<char>) -> bool;
/// RFC 9485 section 5.3: one character of the pattern after the characters before it.
/// e: escaped, k: inside a character class
pub open spec fn map_char(c: char, e: bool, k: bool) -> Seq<char> {
    if e { seq![c] }
    else if c == '.' && !k { "[^\\n\\r]"@ }
    else if (c == '&' || c == '~') && k { seq!['\\', c] }
    else { seq![c] }
}
/// is the character at n escaped?
pub open spec fn pat_esc(p: Seq<char>, n: int) -> bool decreases n { if n <= 0 { false } else { !pat_esc(p, n - 1) && p[n - 1] == '\\' } }
/// is the character at n inside a character class?
pub open spec fn pat_cls(p: Seq<char>, n: int) -> bool decreases n {
    if n <= 0 { false } else if pat_esc(p, n - 1) { pat_cls(p, n - 1) } else if p[n - 1] == '[' { true } else if p[n - 1] == ']' { false } else { pat_cls(p, n - 1) }
}
pub open spec fn map_pat_to(p: Seq<char>, n: int) -> Seq<char> decreases n {
    if n <= 0 { Seq::empty() } else { map_pat_to(p, n - 1) + map_char(p[n - 1], pat_esc(p, n - 1), pat_cls(p, n - 1)) }
}
pub open spec fn map_pat(p: Seq<char>) -> Seq<char> { map_pat_to(p, p.len() as int) }
pub open spec fn full_pat(p: Seq<char>) -> Seq<char> { "^(?:"@ + map_pat(p) + ")$"@ }
pub open spec fn re_match(s: Seq<char>, p: Seq<char>) -> bool { iregexp_ok(p) && re_compiles(full_pat(p)) && re_is_match(full_pat(p), s) }
pub open spec fn re_search(s: Seq<char>, p: Seq<char>) -> bool { iregexp_ok(p) && re_compiles(map_pat(p)) && re_is_match(map_pat(p), s) }
pub open spec fn is_std(f: Seq<char>) -> bool { f == "count"@ || f == "length"@ || f == "match"@ || f == "search"@ || f == "value"@ }
pub open spec fn param_tys(f: Seq<char>) -> Seq<STy> {
    if f == "count"@ || f == "value"@ { seq![STy::Nodes] } else if f == "length"@ { seq![STy::Val] } else { seq![STy::Val, STy::Val] }
}
pub open spec fn fn_count(a: Seq<SRes>) -> SRes { match a[0] { SRes::Nodes(n) => SRes::Int(n.len() as int), _ => SRes::Nothing } }
pub open spec fn fn_value(a: Seq<SRes>) -> SRes { match a[0] { SRes::Nodes(n) => if n.len() == 1 { val_res(n[0].v) } else { SRes::Nothing }, _ => SRes::Nothing } }
pub open spec fn fn_length(a: Seq<SRes>) -> SRes {
    match a[0] {
        SRes::Str(s) => SRes::Int(s.len() as int),
        SRes::Arr(v) => SRes::Int(children(SNode { p: p_root(), v }).len() as int),
        SRes::Obj(v) => SRes::Int(children(SNode { p: p_root(), v }).len() as int),
        _ => SRes::Nothing,
    }
}
pub open spec fn fn_match(a: Seq<SRes>) -> SRes { match (a[0], a[1]) { (SRes::Str(s), SRes::Str(p)) => SRes::Bool(re_match(s, p)), _ => SRes::Bool(false) } }
pub open spec fn fn_search(a: Seq<SRes>) -> SRes { match (a[0], a[1]) { (SRes::Str(s), SRes::Str(p)) => SRes::Bool(re_search(s, p)), _ => SRes::Bool(false) } }
pub open spec fn fcall(f: Seq<char>, a: Seq<SRes>) -> SRes {
    if f == "count"@ { fn_count(a) } else if f == "length"@ { fn_length(a) } else if f == "match"@ { fn_match(a) }
    else if f == "search"@ { fn_search(a) } else { fn_value(a) }
}
/// arrays and objects are what they say
pub open spec fn sres_wf(r: SRes) -> bool { match r { SRes::Arr(v) => v is Array, SRes::Obj(v) => v is Object, _ => true } }
pub proof fn lemma_eval_wf(e: FilterExpression, root: Value, cur: Value, t: STy)
    ensures sres_wf(arg_as(t, eval(e, root, cur))),
{ }
/// RFC 9535 section 2.4.2: conversion of an argument to the parameter type
pub open spec fn arg_as(t: STy, r: SRes) -> SRes {
    match (t, r) {
        (STy::Nodes, _) => r,
        // existence
        (STy::Logical, _) => SRes::Bool(truth(r)),
        (_, SRes::Nodes(n)) => if n.len() == 0 { SRes::Nothing } else if n.len() == 1 { val_res(n[0].v) } else { r },
        _ => r,
    }
}
// ---- the meaning of queries ----
pub open spec fn eval(e: FilterExpression, root: Value, cur: Value) -> SRes decreases e, 0int {
    match e {
        FilterExpression::True => SRes::Bool(true),
        FilterExpression::False => SRes::Bool(false),
        FilterExpression::Null => SRes::Null,
        FilterExpression::String { value } => SRes::Str(value@),
        FilterExpression::Int { value } => SRes::Int(value as int),
        FilterExpression::Float { value } => SRes::Float(value),
        FilterExpression::Not { expression } => SRes::Bool(!truth(eval(*expression, root, cur))),
        FilterExpression::Logical { left, operator, right } => SRes::Bool(match operator {
            LogicalOperator::And => truth(eval(*left, root, cur)) && truth(eval(*right, root, cur)),
            LogicalOperator::Or => truth(eval(*left, root, cur)) || truth(eval(*right, root, cur)),
        }),
        FilterExpression::Comparison { left, operator, right } => SRes::Bool(cmp_op(operator, eval(*left, root, cur), eval(*right, root, cur))),
        FilterExpression::RelativeQuery { query } => SRes::Nodes(query_nodes(*query, cur, root)),
        FilterExpression::RootQuery { query } => SRes::Nodes(query_nodes(*query, root, root)),
        FilterExpression::Function { name, args } => fcall(name@, eval_args(name@, args, root, cur)),
    }
}
pub open spec fn eval_args(f: Seq<char>, args: Vec<FilterExpression>, root: Value, cur: Value) -> Seq<SRes> decreases args, 0int {
    Seq::new(args@.len(), |i: int| if 0 <= i < args@.len() { arg_as(param_tys(f)[i], eval(args@[i], root, cur)) } else { SRes::Nothing })
}
pub open spec fn start_node(v: Value) -> SNode { SNode { p: p_root(), v } }
pub open spec fn query_nodes(q: Query, from: Value, root: Value) -> Seq<SNode> decreases q, 0int {
    segs_nodes(q.segments, q.segments@.len() as int, from, root)
}
/// after the first k segments
pub open spec fn segs_nodes(segs: Vec<Segment>, k: int, from: Value, root: Value) -> Seq<SNode> decreases segs, k {
    if k <= 0 || k > segs@.len() { seq![start_node(from)] } else { seg_nodes(segs@[k - 1], segs_nodes(segs, k - 1, from, root), root) }
}
pub open spec fn seg_nodes(s: Segment, nodes: Seq<SNode>, root: Value) -> Seq<SNode> decreases s, 0int {
    match s {
        Segment::Child { selectors } => flat(child_parts(selectors, nodes, root)),
        Segment::Recursive { selectors } => flat(desc_parts(selectors, nodes, root)),
        Segment::Eoi => nodes,
    }
}
pub open spec fn child_parts(sels: Vec<Selector>, nodes: Seq<SNode>, root: Value) -> Seq<Seq<SNode>> decreases sels, 2int {
    Seq::new(nodes.len(), |i: int| sels_nodes(sels, nodes[i], root))
}
pub open spec fn desc_parts(sels: Vec<Selector>, nodes: Seq<SNode>, root: Value) -> Seq<Seq<SNode>> decreases sels, 4int {
    Seq::new(nodes.len(), |i: int| desc_nodes(sels, nodes[i], root))
}
/// every selector applied to one node, in selector order
pub open spec fn sels_nodes(sels: Vec<Selector>, n: SNode, root: Value) -> Seq<SNode> decreases sels, 1int { flat(sels_parts(sels, n, root)) }
pub open spec fn sels_parts(sels: Vec<Selector>, n: SNode, root: Value) -> Seq<Seq<SNode>> decreases sels, 0int {
    Seq::new(sels@.len(), |j: int| if 0 <= j < sels@.len() { sel_nodes(sels@[j], n, root) } else { Seq::empty() })
}
/// every selector applied to the node and then to its descendants
pub open spec fn desc_nodes(sels: Vec<Selector>, n: SNode, root: Value) -> Seq<SNode> decreases sels, 3int {
    flat(child_parts(sels, descend(n), root))
}
pub open spec fn name_nodes(n: SNode, k: Seq<char>) -> Seq<SNode> {
    match n.v {
        Value::Object(m) => if mfind(m.e@, k) >= 0 { seq![child_key(n, m.e@, mfind(m.e@, k))] } else { Seq::empty() },
        _ => Seq::empty(),
    }
}
pub open spec fn index_nodes(n: SNode, i: int) -> Seq<SNode> {
    match n.v {
        Value::Array(a) => if 0 <= norm_idx(i, a@.len() as int) < a@.len() { seq![child_idx(n, a@, norm_idx(i, a@.len() as int))] } else { Seq::empty() },
        _ => Seq::empty(),
    }
}
pub open spec fn pick(n: SNode, a: Seq<Value>, ix: Seq<int>) -> Seq<SNode> { ix.map_values(|i: int| child_idx(n, a, i)) }
pub open spec fn slice_nodes(n: SNode, start: Option<i64>, stop: Option<i64>, step: Option<i64>) -> Seq<SNode> {
    match n.v { Value::Array(a) => pick(n, a@, slice_idx(a@.len() as int, start, stop, step)), _ => Seq::empty() }
}
pub open spec fn filter_bits(e: FilterExpression, n: SNode, root: Value) -> Seq<bool> decreases e, 1int {
    Seq::new(children(n).len(), |i: int| truth(eval(e, root, children(n)[i].v)))
}
pub open spec fn sel_nodes(s: Selector, n: SNode, root: Value) -> Seq<SNode> decreases s, 0int {
    match s {
        Selector::Name { name } => name_nodes(n, name@),
        Selector::Index { index } => index_nodes(n, index as int),
        Selector::Slice { start, stop, step } => slice_nodes(n, start, stop, step),
        Selector::Wild => children(n),
        Selector::Filter { expression } => keep(children(n), filter_bits(*expression, n, root)),
#if singular=1
        Selector::SingularQuery { query } => singular_nodes(n, query_nodes(*query, root, root)),
#fi
    }
}
#if singular=1
/// the name or index the query evaluates to, as a selector
pub open spec fn singular_nodes(n: SNode, q: Seq<SNode>) -> Seq<SNode> {
    if q.len() != 1 { Seq::empty() } else {
        match q[0].v {
            Value::Number(x) => if num_is_int(x) && num_int(x) <= i64::MAX { index_nodes(n, num_int(x)) } else { Seq::empty() },
            Value::String(k) => name_nodes(n, k@),
            _ => Seq::empty(),
        }
    }
}
#fi
