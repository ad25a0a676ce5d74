#set locgroup vstd::std_specs::vec::axiom_vec_index_decreases, vstd::seq::axiom_seq_index_decreases,
#set fold lemma_folds(expr, self.function_signatures.m@);
#set rec 1
#set sf function_signatures
#set segargs $0: Segment, $1: Pair<Rule>
#set segp $1
#set segacc , $0
#set accarg , acc
#set view view_rec.rs
#set singular 0
#set unescape chars
#set ast_q ast.rs
#set ast_seg ast.rs
#set ast_sel ast.rs
#set ast_f ast.rs
#set sigfile parser.rs
#crate par_pestrec jsonpath_rfc9535_pest_recursive/src
#include par.vx
