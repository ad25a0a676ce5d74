#set locgroup vstd::std_specs::vec::axiom_vec_index_decreases, vstd::seq::axiom_seq_index_decreases,
#set rec 0
#set view view_flat.rs
#set singular 0
#set ast_q ast.rs
#set ast_seg ast.rs
#set ast_sel ast.rs
#set ast_f ast.rs
#set sigfile parser.rs
#set quotefile ast.rs
#set strlit "'"@ + s + "'"@
#set segdisp pr_seg(v_seg(*self))
#set et True
#set ef False
#set es String
#crate disp_pest jsonpath_rfc9535_pest/src
#include disp.vx
