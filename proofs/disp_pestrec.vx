#set locgroup vstd::std_specs::vec::axiom_vec_index_decreases, vstd::seq::axiom_seq_index_decreases,
#set rec 1
#set view view_rec.rs
#set singular 0
#set ast_q ast.rs
#set ast_seg ast.rs
#set ast_sel ast.rs
#set ast_f ast.rs
#set sigfile parser.rs
#set quotefile ast.rs
#set strlit "'"@ + s + "'"@
#set segdisp flat(pr_segs(v_chain(*self)))
#set et True_
#set ef False_
#set es StringLiteral
#crate disp_pestrec jsonpath_rfc9535_pest_recursive/src
#include disp.vx
