// standard_functions.rs, env.rs, function.rs
#props P06 P18 P21
#fn standard_functions.rs Count::new
@spec
#end
#fn standard_functions.rs Count<Default>::default
@spec
#end
#fn standard_functions.rs Length::new
@spec
#end
#fn standard_functions.rs Length<Default>::default
@spec
#end
#fn standard_functions.rs Value::new selfty=VxValueFn
@spec
#end
#fn standard_functions.rs Value<Default>::default selfty=VxValueFn
@spec
#end
#props P07 P18 P21
#fn standard_functions.rs Match::new
@ret r
@spec
    ensures r.wf(),
@callren Mutex::new vx_mutex_full
@callren LruCache::new vx_lru_new
@callren NonZeroUsize::new vx_nonzero
#end
#fn standard_functions.rs Match<Default>::default
@ret r
@spec
    ensures r.wf(),
#end
#fn standard_functions.rs Search::new
@ret r
@spec
    ensures r.wf(),
@callren Mutex::new vx_mutex_part
@callren LruCache::new vx_lru_new
@callren NonZeroUsize::new vx_nonzero
#end
#fn standard_functions.rs Search<Default>::default
@ret r
@spec
    ensures r.wf(),
#end
#props P06 P18 P21
#fn standard_functions.rs Count<FunctionExtension>::call
@ret r
@spec
    requires args_ok("count"@, args@),
    ensures res_view(r) == fcall("count"@, args_view(args@)),
@entry
    proof { lemma_names(); assert(param_tys("count"@)[0] is Nodes); assert(args_view(args@)[0] == res_view(args@[0])); }
#end
#fn standard_functions.rs Length<FunctionExtension>::call
@ret r
@spec
    requires args_ok("length"@, args@),
    ensures res_view(r) == fcall("length"@, args_view(args@)),
@entry
    proof { lemma_names(); assert(sres_wf(res_view(args@[0]))); }
#end
#fn standard_functions.rs Value<FunctionExtension>::call selfty=VxValueFn
@ret r
@spec
    requires args_ok("value"@, args@),
    ensures res_view(r) == fcall("value"@, args_view(args@)),
@entry
    proof { lemma_names(); assert(param_tys("value"@)[0] is Nodes); assert(args_view(args@)[0] == res_view(args@[0])); }
#end
#props P07 P18 P21
#fn standard_functions.rs Match<FunctionExtension>::call
@ret r
@spec
    requires self.wf(), args_ok("match"@, args@),
    ensures res_view(r) == fcall("match"@, args_view(args@)),
@callren iregexp::check vx_iregexp_check
@callren Regex::new Regex::new
@entry
    proof { lemma_names(); }
#end
#fn standard_functions.rs Search<FunctionExtension>::call
@ret r
@spec
    requires self.wf(), args_ok("search"@, args@),
    ensures res_view(r) == fcall("search"@, args_view(args@)),
@callren iregexp::check vx_iregexp_check
@entry
    proof { lemma_names(); }
#end
#props P06 P07 P12 P18
#fn standard_functions.rs Count<FunctionExtension>::sig
@ret r
@spec
    ensures tys(r.param_types@) == param_tys("count"@), sty(r.return_type) == ret_ty("count"@),
@tail
    proof { lemma_names(); assert(tys(vx_t.param_types@) =~= param_tys("count"@)); }
#end
#fn standard_functions.rs Length<FunctionExtension>::sig
@ret r
@spec
    ensures tys(r.param_types@) == param_tys("length"@), sty(r.return_type) == ret_ty("length"@),
@tail
    proof { lemma_names(); assert(tys(vx_t.param_types@) =~= param_tys("length"@)); }
#end
#fn standard_functions.rs Value<FunctionExtension>::sig selfty=VxValueFn
@ret r
@spec
    ensures tys(r.param_types@) == param_tys("value"@), sty(r.return_type) == ret_ty("value"@),
@tail
    proof { lemma_names(); assert(tys(vx_t.param_types@) =~= param_tys("value"@)); }
#end
#fn standard_functions.rs Match<FunctionExtension>::sig
@ret r
@spec
    ensures tys(r.param_types@) == param_tys("match"@), sty(r.return_type) == ret_ty("match"@),
@tail
    proof { lemma_names(); assert(tys(vx_t.param_types@) =~= param_tys("match"@)); }
#end
#fn standard_functions.rs Search<FunctionExtension>::sig
@ret r
@spec
    ensures tys(r.param_types@) == param_tys("search"@), sty(r.return_type) == ret_ty("search"@),
@tail
    proof { lemma_names(); assert(tys(vx_t.param_types@) =~= param_tys("search"@)); }
#end
#props P07 P18
#fn standard_functions.rs map_regex
@ret r
@spec
    ensures r@ == map_pat(pattern@),
@loop 0
    invariant
        vx_all0 == pattern@, rv@ =~= map_pat_to(pattern@, vx_n0), escaped == pat_esc(pattern@, vx_n0), char_class == pat_cls(pattern@, vx_n0),
@loopentry 0
    proof { assert(c == pattern@[vx_n0 - 1]); }
#end
#fn standard_functions.rs full_match
@ret r
@spec
    ensures r@ =~= full_pat(pattern@),
#end
#props P03 P05 P06 P07 P12 P18
#fn env.rs Environment::new
@ret r
@spec
    ensures env_ok(r),
@callren HashMap::new FunctionRegister::vx_new
@callren Value::new VxValueFn::new
@entry
    proof { lemma_names(); }
#end
