pub open spec fn loc_view(l: Location) -> SPath { steps_of(l@) }
pub open spec fn node_view(n: Node) -> SNode { SNode { p: loc_view(n.location), v: *n.value } }
pub open spec fn nodes_view(s: Seq<Node>) -> Seq<SNode> { s.map_values(|n: Node| node_view(n)) }
pub open spec fn res_view(r: FilterExpressionResult) -> SRes {
    match r {
        FilterExpressionResult::Bool(b) => SRes::Bool(b), FilterExpressionResult::Int(i) => SRes::Int(i as int), FilterExpressionResult::Float(f) => SRes::Float(f),
        FilterExpressionResult::Null => SRes::Null, FilterExpressionResult::String(s) => SRes::Str(s@), FilterExpressionResult::Array(v) => SRes::Arr(*v),
        FilterExpressionResult::Object(v) => SRes::Obj(*v), FilterExpressionResult::Nodes(n) => SRes::Nodes(nodes_view(n@)), FilterExpressionResult::Nothing => SRes::Nothing,
    }
}
/// at most one node
pub open spec fn few(r: FilterExpressionResult) -> bool { r is Nodes ==> r->Nodes_0@.len() <= 1 }
pub open spec fn sty(t: ExpressionType) -> STy { match t { ExpressionType::Logical => STy::Logical, ExpressionType::Nodes => STy::Nodes, ExpressionType::Value => STy::Val } }
pub mod vx_loc { use super::{SPE,SPath,PathElement,Node}; use vstd::prelude::*;
pub open spec fn pe_view(e: PathElement) -> SPE { match e { PathElement::Index(i) => SPE::Idx(i as int), PathElement::Name(s) => SPE::Key(s@) } }
/// the list is front first, a path starts at the root
pub open spec fn steps_of(l: Seq<PathElement>) -> SPath { Seq::new(l.len(), |i: int| pe_view(l[l.len() - 1 - i])) }
pub broadcast proof fn lemma_loc_append(l: Seq<PathElement>, e: PathElement)
    ensures #[trigger] steps_of(seq![e] + l) == steps_of(l).push(pe_view(e)),
{ assert(steps_of(seq![e] + l) =~= steps_of(l).push(pe_view(e))); }
pub broadcast proof fn lemma_loc_new()
    ensures #[trigger] steps_of(Seq::<PathElement>::empty()) == Seq::<SPE>::empty(),
{ assert(steps_of(Seq::<PathElement>::empty()) =~= Seq::<SPE>::empty()); }
pub broadcast axiom fn ax_nodes_len(v: Vec<Node>) ensures #[trigger] v@.len() <= i64::MAX;
pub broadcast group group_loc { ax_nodes_len, lemma_loc_append, lemma_loc_new }
}
pub use vx_loc::*;
/// RFC 9535 section 2.7: the text of a normalized path
pub open spec fn step_text(e: SPE) -> Seq<char> { match e { SPE::Idx(i) => step_idx(i), SPE::Key(k) => step_key(k) } }
pub open spec fn step_texts(p: SPath) -> Seq<Seq<char>> { p.map_values(|e: SPE| step_text(e)) }
pub open spec fn path_text(p: SPath) -> Seq<char> { "$"@ + flat(step_texts(p)) }
