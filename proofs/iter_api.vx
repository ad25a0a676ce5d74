#set locgroup vx_loc::group_loc, vx_ax_len::group_len,
#set singular 0
#set filter filter.rs
#set slicefile selector.rs
#set queryfile query.rs
#set iter 1
#set ser 0
#set quotefile node.rs
#crate iter_api jsonpath_rfc9535_iter/src
#use base.rs
#use strings.rs
#use json.rs
#use slice_spec.rs
#use path_text.rs
#type env.rs Environment
#type selector.rs Selector
#type segment.rs Segment
#type query.rs Query
#type filter.rs FilterExpression
#type filter.rs LogicalOperator
#type filter.rs ComparisonOperator
#type filter.rs FilterExpressionResult
#type node.rs NodeList
#type node.rs Node
#type function.rs ExpressionType
#type function.rs FunctionSignature
#use eval_spec.rs
#use wt_spec.rs
#use ast_spec.rs
#use view_flat.rs
#use wt_link.rs
#use sem_spec.rs
#type iter.rs QueryIter
#type iter.rs SegmentIter subst=IntoIter<SelectorIter<'v>>=>VIter<SelectorIter<'v>>
#type iter.rs SelectorIter
#type iter.rs ArrayFilterIter subst=Enumerate<Iter<'v,~Value>>=>VIter<(usize,~&'v~Value)>
#type iter.rs ObjectFilterIter subst=serde_json::map::Iter<'v>=>VIter<(&'v~String,~&'v~Value)>
#use view_iter.rs
#use regex.rs
#type standard_functions.rs Match subst=Mutex<LruCache<String,~Regex>>=>VxCacheMutex
#type standard_functions.rs Search subst=Mutex<LruCache<String,~Regex>>=>VxCacheMutex
#use register.rs
#raw
/// errors are only passed on
pub struct JSONPathError { x: u8 }
/// the lazy static: what its initialiser gives
#[verifier::external_body] pub fn vx_lazy_ENV() -> (r: &'static Environment) ensures env_ok(*r) { unimplemented!() }
#end
#set assumed assumed
#include qiter_new.vx
#fn env.rs Environment::new assumed
@ret r
@spec
    ensures env_ok(r),
#end
#set found r->Ok_0.rest()
#set queryfile query.rs
#include find_api.vx
