#props P11 P12 P14 P15 P22
#fn ${ast_q} Query::standard ${assumed}
@ret r
@spec
    ensures
        r is Ok == valid(expr@),
        r is Ok ==> v_q(r->Ok_0) == syntax(expr@) && s_ok_q(v_q(r->Ok_0), std_sigs()),
@noren parse
#end
