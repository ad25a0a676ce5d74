// ---- the function register: what is registered under each name ----
/// a registered function, known by the function it computes; the unit std verifies the five
/// implementations against this contract and Environment::new against env_ok
pub struct DynFn { pub n: Ghost<Seq<char>> }
pub struct FunctionRegister { pub m: Ghost<vstd::map::Map<Seq<char>, Seq<char>>> }
pub open spec fn env_ok(e: Environment) -> bool { reg_ok(e.function_register.m@) }
pub open spec fn reg_ok(m: vstd::map::Map<Seq<char>, Seq<char>>) -> bool {
    forall|f: Seq<char>| #[trigger] is_std(f) ==> m.contains_key(f) && m[f] == f
}
impl FunctionRegister {
    #[verifier::external_body]
    pub fn get(&self, name: &String) -> (r: Option<&DynFn>)
        ensures self.m@.contains_key(name@) ==> r is Some && r.unwrap().n@ == self.m@[name@], !self.m@.contains_key(name@) ==> r is None
    { unimplemented!() }
}
pub open spec fn tys(v: Seq<ExpressionType>) -> Seq<STy> { v.map_values(|t: ExpressionType| sty(t)) }
pub open spec fn ret_ty(f: Seq<char>) -> STy { if f == "match"@ || f == "search"@ { STy::Logical } else { STy::Val } }
pub open spec fn args_view(a: Seq<FilterExpressionResult>) -> Seq<SRes> { a.map_values(|r: FilterExpressionResult| res_view(r)) }
/// arguments a checked call can have
pub open spec fn args_ok(f: Seq<char>, a: Seq<FilterExpressionResult>) -> bool {
    a.len() == param_tys(f).len() && (forall|i: int| 0 <= i < a.len() ==> (#[trigger] param_tys(f)[i] is Nodes ==> a[i] is Nodes))
        && forall|i: int| 0 <= i < a.len() ==> sres_wf(res_view(#[trigger] a[i]))
}
impl DynFn {
    #[verifier::external_body]
    pub fn sig(&self) -> (r: FunctionSignature)
        requires is_std(self.n@)
        ensures tys(r.param_types@) == param_tys(self.n@), sty(r.return_type) == ret_ty(self.n@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn call<'a>(&self, args: Vec<FilterExpressionResult<'a>>) -> (r: FilterExpressionResult<'a>)
        requires is_std(self.n@), args_ok(self.n@, args@)
        ensures res_view(r) == fcall(self.n@, args_view(args@))
    { unimplemented!() }
}

impl FunctionRegister {
    #[verifier::external_body]
    pub fn vx_new() -> (r: Self) ensures r.m@ == vstd::map::Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
    /// what is put in under a name computes that name's function when the implementation does, which its own contract says
    #[verifier::external_body]
    pub fn insert<F: VxFn>(&mut self, k: String, f: Box<F>) requires f.wf() ensures final(self).m@ == old(self).m@.insert(k@, F::vx_name()) { unimplemented!() }
}
pub trait VxFn: Sized { spec fn vx_name() -> Seq<char>; spec fn wf(&self) -> bool; }
impl VxFn for Count { open spec fn vx_name() -> Seq<char> { "count"@ } open spec fn wf(&self) -> bool { true } }
impl VxFn for Length { open spec fn vx_name() -> Seq<char> { "length"@ } open spec fn wf(&self) -> bool { true } }
impl VxFn for Match { open spec fn vx_name() -> Seq<char> { "match"@ } open spec fn wf(&self) -> bool { self.cache.full@ } }
impl VxFn for Search { open spec fn vx_name() -> Seq<char> { "search"@ } open spec fn wf(&self) -> bool { !self.cache.full@ } }
impl VxFn for VxValueFn { open spec fn vx_name() -> Seq<char> { "value"@ } open spec fn wf(&self) -> bool { true } }
