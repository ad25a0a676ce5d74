//@root use std::rc::Rc;
use std::rc::Rc;
pub open spec fn loc_view(l: String) -> SPath { l@ }
pub open spec fn res_view(r: FilterExpressionResult) -> SRes {
    match r {
        FilterExpressionResult::Bool(b) => SRes::Bool(b), FilterExpressionResult::Int(i) => SRes::Int(i as int), FilterExpressionResult::Float(f) => SRes::Float(f),
        FilterExpressionResult::Null => SRes::Null, FilterExpressionResult::String(s) => SRes::Str(s@), FilterExpressionResult::Array(v) => SRes::Arr(*v),
        FilterExpressionResult::Object(v) => SRes::Obj(*v), FilterExpressionResult::Nodes(n) => SRes::Nodes(nodes_view(n@)), FilterExpressionResult::Nothing => SRes::Nothing,
    }
}
/// at most one node
pub open spec fn few(r: FilterExpressionResult) -> bool { r is Nodes ==> r->Nodes_0@.len() <= 1 }
pub open spec fn sty(t: ExpressionType) -> STy { match t { ExpressionType::Logical => STy::Logical, ExpressionType::Nodes => STy::Nodes, ExpressionType::Value => STy::Val } }
pub mod vx_loc { use super::*; use vstd::prelude::*; use std::rc::Rc;
pub open spec fn node_view(n: Node) -> SNode { SNode { p: n.location@, v: *n.value } }
pub open spec fn nodes_view(s: Seq<Rc<Node>>) -> Seq<SNode> { s.map_values(|n: Rc<Node>| node_view(*n)) }
pub broadcast axiom fn ax_nodes_len(v: Vec<Rc<Node>>) ensures #[trigger] v@.len() <= i64::MAX;
/// the nodes an iterator gives, as seen by a loop over it
pub uninterp spec fn rcs<'v>(it: NodeIter<'v>) -> Seq<Rc<Node<'v>>>;
pub broadcast axiom fn ax_rcs<'v>(it: NodeIter<'v>) ensures nodes_view(#[trigger] rcs(it)) == it.items@;
pub broadcast group group_loc { ax_nodes_len, ax_rcs }
}
pub open spec fn rc_view(n: Rc<Node>) -> SNode { node_view(*n) }
pub open spec fn rc_value(n: Rc<Node>) -> Value { *n.value }
pub use vx_loc::{rcs, node_view, nodes_view};
// ---- derived Clone of the syntax tree ----
impl Clone for Selector { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Query { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// ---- boxed iterators: known by the nodes they still have to give ----
#[verifier::external_body]
pub struct VxDyn<'v> { x: std::marker::PhantomData<&'v Value> }
pub struct NodeIter<'v> { pub items: Ghost<Seq<SNode>>, pub x: VxDyn<'v> }
/// the nodes an iterator of this crate still has to give: its `next` is verified against this
pub trait VxIt: Sized { spec fn rest(&self) -> Seq<SNode>; spec fn wf(&self) -> bool; }
/// Box::new as dyn Iterator: next() of the box is next() of what is in it
#[verifier::external_body] pub fn vx_boxed<'v, T: VxIt>(t: T) -> (r: NodeIter<'v>) requires t.wf() ensures r.items@ == t.rest() { unimplemented!() }
impl<'v> NodeIter<'v> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Rc<Node<'v>>>)
        ensures gave(old(self).items@, final(self).items@, r)
    { unimplemented!() }
}
/// what one call of next does
pub open spec fn gave(before: Seq<SNode>, after: Seq<SNode>, r: Option<Rc<Node>>) -> bool {
    if before.len() == 0 { r is None && after =~= before } else { r is Some && node_view(*r.unwrap()) == before[0] && after =~= before.skip(1) }
}
impl<'v> VxSeq for NodeIter<'v> { type Item = Rc<Node<'v>>;
    open spec fn vx_seq(self) -> Seq<Rc<Node<'v>>> { rcs(self) }
    #[verifier::external_body] fn vx_vec(self) -> (r: Vec<Rc<Node<'v>>>) { unimplemented!() } }
impl<'v> VxIt for VIter<Rc<Node<'v>>> { open spec fn rest(&self) -> Seq<SNode> { nodes_view(self.v@) } open spec fn wf(&self) -> bool { true } }
impl<'v> VxIt for NodeIter<'v> { open spec fn rest(&self) -> Seq<SNode> { self.items@ } open spec fn wf(&self) -> bool { true } }
impl<'v> VxIt for QueryIter<'v> { open spec fn rest(&self) -> Seq<SNode> { self.it.items@ } open spec fn wf(&self) -> bool { true } }
impl<'v> VxIt for SelectorIter<'v> { open spec fn rest(&self) -> Seq<SNode> { self.it.items@ } open spec fn wf(&self) -> bool { true } }
pub open spec fn sel_rests(s: Seq<SelectorIter>) -> Seq<Seq<SNode>> { s.map_values(|x: SelectorIter| x.rest()) }
impl<'v> VxIt for SegmentIter<'v> { open spec fn rest(&self) -> Seq<SNode> { self.it.items@ + flat(sel_rests(self.selectors.v@)) } open spec fn wf(&self) -> bool { true } }
impl<'v> VxIt for ArrayFilterIter<'v> {
    open spec fn rest(&self) -> Seq<SNode> { keep(arr_cands(node_view(*self.parent).p, self.it.v@), arr_bits(self.expr, *self.root, self.it.v@)) }
    open spec fn wf(&self) -> bool { wt(self.expr) && env_ok(*self.env) } }
impl<'v> VxIt for ObjectFilterIter<'v> {
    open spec fn rest(&self) -> Seq<SNode> { keep(obj_cands(node_view(*self.parent).p, self.it.v@), obj_bits(self.expr, *self.root, self.it.v@)) }
    open spec fn wf(&self) -> bool { wt(self.expr) && env_ok(*self.env) } }
pub open spec fn arr_cands(p: SPath, s: Seq<(usize, &Value)>) -> Seq<SNode> { s.map_values(|x: (usize, &Value)| SNode { p: p_idx(p, x.0 as int), v: *x.1 }) }
pub open spec fn arr_bits(e: FilterExpression, root: Value, s: Seq<(usize, &Value)>) -> Seq<bool> { s.map_values(|x: (usize, &Value)| truth(eval(e, root, *x.1))) }
pub open spec fn obj_cands(p: SPath, s: Seq<(&String, &Value)>) -> Seq<SNode> { s.map_values(|x: (&String, &Value)| SNode { p: p_key(p, x.0@), v: *x.1 }) }
pub open spec fn obj_bits(e: FilterExpression, root: Value, s: Seq<(&String, &Value)>) -> Seq<bool> { s.map_values(|x: (&String, &Value)| truth(eval(e, root, *x.1))) }
impl<'v> QueryIter<'v> {
    /// Iterator::collect: calls next until it gives None
    #[verifier::external_body] pub fn collect(self) -> (r: NodeList<'v>) ensures nodes_view(r@) == self.rest() { unimplemented!() }
}
pub fn vx_empty<T>() -> (r: VIter<T>) ensures r.v@ == Seq::<T>::empty() { VIter { v: Vec::new() } }
pub proof fn lemma_keep_first<A>(s: Seq<A>, b: Seq<bool>)
    requires s.len() == b.len(), s.len() > 0,
    ensures keep(s, b) =~= (if b[0] { seq![s[0]] } else { Seq::empty() }) + keep(s.skip(1), b.skip(1)),
    decreases s.len()
{
    if s.len() == 1 { assert(s.drop_last() =~= Seq::empty()); reveal_with_fuel(keep, 2); }
    else {
        lemma_keep_first(s.drop_last(), b.drop_last());
        assert(s.drop_last().skip(1) =~= s.skip(1).drop_last()); assert(b.drop_last().skip(1) =~= b.skip(1).drop_last());
        assert(s.skip(1).last() == s.last()); assert(b.skip(1).last() == b.last());
    }
}
pub proof fn lemma_flat_first<A>(s: Seq<Seq<A>>)
    requires s.len() > 0, ensures flat(s) =~= s[0] + flat(s.skip(1)),
{ lemma_flat_add(seq![s[0]], s.skip(1)); lemma_flat_one(s[0]); assert(seq![s[0]] + s.skip(1) =~= s); }
pub proof fn lemma_flat_take<A>(s: Seq<Seq<A>>, n: int)
    requires 0 <= n < s.len(), ensures flat(s.take(n + 1)) =~= flat(s.take(n)) + s[n],
{ assert(s.take(n + 1).drop_last() =~= s.take(n)); }
/// segments one after the other
pub open spec fn run(segs: Seq<Segment>, from: Value, root: Value) -> Seq<SNode> decreases segs.len() {
    if segs.len() == 0 { seq![start_node(from)] } else { seg_nodes(segs.last(), run(segs.drop_last(), from, root), root) }
}
pub proof fn lemma_run(q: Query, k: int, from: Value, root: Value)
    requires 0 <= k <= q.segments@.len(), ensures segs_nodes(q.segments, k, from, root) == run(q.segments@.take(k), from, root), decreases k
{ if k > 0 { lemma_run(q, k - 1, from, root); assert(q.segments@.take(k).drop_last() =~= q.segments@.take(k - 1)); } }
/// the end marker adds nothing
pub proof fn lemma_run_keep(s: Seq<Segment>, b: Seq<bool>, from: Value, root: Value)
    requires s.len() == b.len(), forall|i: int| 0 <= i < s.len() ==> b[i] == !((#[trigger] s[i]) is Eoi),
    ensures run(keep(s, b), from, root) == run(s, from, root), decreases s.len()
{
    if s.len() > 0 {
        lemma_run_keep(s.drop_last(), b.drop_last(), from, root);
        let p = keep(s.drop_last(), b.drop_last());
        if b.last() { assert(p.push(s.last()).drop_last() =~= p); }
    }
}
