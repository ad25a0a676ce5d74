#set locgroup vstd::std_specs::vec::axiom_vec_index_decreases, vstd::seq::axiom_seq_index_decreases,
#set rec 0
#set view view_flat.rs
#set singular 1
#set ast_q query.rs
#set ast_seg segment.rs
#set ast_sel selector.rs
#set ast_f filter.rs
#set sigfile function.rs
#set quotefile node.rs
#set strlit quoted(s)
#set segdisp pr_seg(v_seg(*self))
#set et True
#set ef False
#set es String
#set wild Selector::Wild
#crate disp_sing jsonpath_rfc9535_singular_selector/src
#include disp.vx
