#use base.rs
#use strings.rs
#use json.rs
#use slice_spec.rs
#use path_seq.rs
#raw
// the persistent list by its contract; the unit conslist verifies the same contract on conslist.rs
pub struct ConsList<T> { pub s: Ghost<Seq<T>> }
impl<T> ConsList<T> {
    /// front first
    pub open spec fn view(&self) -> Seq<T> { self.s@ }
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn append(&self, elem: T) -> (r: Self) ensures r@ == seq![elem] + self@ { unimplemented!() }
    #[verifier::external_body] pub fn vx_iter<'a>(&'a self) -> (r: VIter<&'a T>) ensures r.v@.len() == self@.len(), forall|i: int| #![trigger r.v@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> *r.v@[i] == self@[i] { unimplemented!() }
}
#end
#type env.rs Environment
#type selector.rs Selector
#type segment.rs Segment
#type query.rs Query
#type filter.rs FilterExpression
#type filter.rs LogicalOperator
#type filter.rs ComparisonOperator
#type filter.rs FilterExpressionResult
#type node.rs Location
#type node.rs NodeList
#type node.rs Node
#type node.rs PathElement
#type function.rs ExpressionType
#type function.rs FunctionSignature
#use eval_spec.rs
#use wt_spec.rs
#use ast_spec.rs
#use view_flat.rs
#use wt_link.rs
#use sem_spec.rs
#use view_loc.rs
#use regex.rs
#type standard_functions.rs Match subst=Mutex<LruCache<String,~Regex>>=>VxCacheMutex
#type standard_functions.rs Search subst=Mutex<LruCache<String,~Regex>>=>VxCacheMutex
#use register.rs
#raw
/// errors are only passed on
pub struct JSONPathError { x: u8 }
/// the lazy static: what its initialiser gives
#[verifier::external_body] pub fn vx_lazy_ENV() -> (r: &'static Environment) ensures env_ok(*r) { unimplemented!() }
#end

#fn selector.rs norm_index
@ret r
@spec
    requires length <= i64::MAX,
    ensures match r { Some(k) => 0 <= norm_idx(index as int, length as int) == k, None => norm_idx(index as int, length as int) < 0 },
@closure 0
|$0: i64| -> (o: Option<usize>)
    ensures $0 >= 0 ==> o == Some($0 as usize), $0 < 0 ==> o is None
@closure 1
|$0: usize| -> (o: Option<usize>)
    ensures $0 <= length ==> o == Some((length - $0) as usize), $0 > length ==> o is None
#end
#include filter.vx
#include loc_eval.vx
#include filter_eval.vx
#include stdfn.vx
#include path.vx
#set found nodes_view(r->Ok_0@)
#set queryfile query.rs
#include find_api.vx
#also recursion
Selector::resolve Segment::resolve Segment::visit Segment::descend Query::find Query::find_from FilterExpression::evaluate
#end
