#set locgroup vx_loc::group_loc, vx_ax_len::group_len,
#set singular 0
#set filter ast.rs
#set slicefile ast.rs
#set queryfile ast.rs
#set iter 0
#set ser 1
#set quotefile ast.rs
#crate serde jsonpath_rfc9535_serde/src
#use base.rs
#use strings.rs
#use json.rs
#use slice_spec.rs
#use path_text.rs
#type env.rs Environment
#type ast.rs Selector
#type ast.rs Segment
#type ast.rs Query
#type ast.rs QueryContext
#type ast.rs FilterExpression
#type ast.rs LogicalOperator
#type ast.rs ComparisonOperator
#type ast.rs FilterExpressionResult
#type ast.rs NodeList
#type ast.rs Node
#type function.rs ExpressionType
#type function.rs FunctionSignature
#use eval_spec.rs
#use wt_spec.rs
#use ast_spec.rs
#use view_flat.rs
#use wt_link.rs
#use sem_spec.rs
#use view_ser.rs
#use regex.rs
#type standard_functions.rs Match subst=Mutex<LruCache<String,~Regex>>=>VxCacheMutex
#type standard_functions.rs Search subst=Mutex<LruCache<String,~Regex>>=>VxCacheMutex
#use register.rs
#raw
/// the lazy static: what its initialiser gives
#[verifier::external_body] pub fn vx_lazy_ENV() -> (r: &'static Environment) ensures env_ok(*r) { unimplemented!() }
#end
#include quote.vx
#include filter.vx
#include stdfn.vx
#include ser_eval.vx
#set found nodes_view(r->Ok_0@)
#set queryfile ast.rs
#include find_api.vx
#also recursion
Selector::resolve Segment::resolve Query::find Query::find_from FilterExpression::evaluate
#end
#also recursion_loop
Selector::resolve_loop Selector::resolve Segment::resolve Segment::resolve_loop Query::find Query::find_from FilterExpression::evaluate
#end
