#set locgroup vstd::std_specs::vec::axiom_vec_index_decreases, vstd::seq::axiom_seq_index_decreases,
#set fold lemma_oks_f::<Segment, JSONPathError>();
#set rec 0
#set sf functions
#set segargs $0: Pair<Rule>
#set segp $0
#set segacc
#set accarg
#set view view_flat.rs
#set singular 1
#set unescape bytes
#set ast_q query.rs
#set ast_seg segment.rs
#set ast_sel selector.rs
#set ast_f filter.rs
#set sigfile function.rs
#crate par_sing jsonpath_rfc9535_singular_selector/src
#include par.vx
