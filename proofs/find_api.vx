#set assumed assumed
#set ast_q ${queryfile}
#include std_query.vx
#props P03 P08 P18 P21 P22
#fn env.rs Environment::find
@ret r
@spec
    requires env_ok(*self),
    ensures
        r is Ok == valid(expr@),
        r is Ok ==> ${found} == selected(expr@, *value),
@after let query
    proof { lemma_l_q(query); lemma_m_q(query, *value, *value); }
#end
#fn jsonpath.rs vx_static_ENV
@ret r
@spec
    ensures env_ok(r),
#end
#fn jsonpath.rs find
@ret r
@spec
    ensures
        r is Ok == valid(expr@),
        r is Ok ==> ${found} == selected(expr@, *value),
@after let query
    proof { lemma_l_q(query); lemma_m_q(query, *value, *value); }
#end
#if ser=1
#fn env.rs Environment::find_loop
@ret r
@spec
    requires env_ok(*self),
    ensures
        r is Ok == valid(expr@),
        r is Ok ==> ${found} == selected(expr@, *value),
@after let query
    proof { lemma_l_q(query); lemma_m_q(query, *value, *value); }
#end
#fn jsonpath.rs find_loop
@ret r
@spec
    ensures
        r is Ok == valid(expr@),
        r is Ok ==> ${found} == selected(expr@, *value),
@after let query
    proof { lemma_l_q(query); lemma_m_q(query, *value, *value); }
#end
#fi
