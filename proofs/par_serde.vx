#set locgroup vstd::std_specs::vec::axiom_vec_index_decreases, vstd::seq::axiom_seq_index_decreases,
#set fold lemma_oks_f::<Segment, JSONPathError>();
#set rec 0
#set sf functions
#set segargs $0: Pair<Rule>
#set segp $0
#set segacc
#set accarg
#set view view_flat.rs
#set singular 0
#set unescape bytes
#set ast_q ast.rs
#set ast_seg ast.rs
#set ast_sel ast.rs
#set ast_f ast.rs
#set sigfile function.rs
#crate par_serde jsonpath_rfc9535_serde/src
#include par.vx
