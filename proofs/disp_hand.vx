#set locgroup vstd::std_specs::vec::axiom_vec_index_decreases, vstd::seq::axiom_seq_index_decreases,
#set rec 0
#set view view_hand.rs
#set singular 0
#set ast_q query.rs
#set ast_seg query.rs
#set ast_sel query.rs
#set ast_f query.rs
#set sigfile parser.rs
#set quotefile query.rs
#set strlit "\""@ + s + "\""@
#set segdisp pr_seg(v_seg(*self))
#set et True
#set ef False
#set es String
#crate disp_hand jsonpath_rfc9535/src
#include disp.vx
