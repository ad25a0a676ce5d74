#set locgroup vstd::std_specs::vec::axiom_vec_index_decreases, vstd::seq::axiom_seq_index_decreases,
#set fold lemma_oks_f::<Segment, JSONPathError>();
#set rec 0
#set sf functions
#set segargs $0: Pair<Rule>
#set segp $0
#set segacc
#set accarg
#set view view_flat.rs
#set singular 0
#set unescape chars
#set ast_q ast.rs
#set ast_seg ast.rs
#set ast_sel ast.rs
#set ast_f ast.rs
#set sigfile parser.rs
#crate par_pest jsonpath_rfc9535_pest/src
#include par.vx
#props P17
#fn ast.rs Query::is_empty
@ret r
@spec
    ensures r == (forall|i: int| 0 <= i < self.segments@.len() ==> (#[trigger] self.segments@[i]) is Eoi),
@closure 0
|$0: &Segment| -> (o: bool)
    ensures o == (*$0 is Eoi)
#end
