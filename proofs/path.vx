#set quotefile node.rs
#include quote.vx
#fn node.rs Node::path
@props P08
@ret r
@spec
    ensures r@ =~= path_text(loc_view(self.location)),
@callren VecDeque::from_iter vx_deque
@closure 0
|$0: &PathElement| -> (o: String)
    ensures o@ == step_text(pe_view(*$0))
@tail => chain
    proof {
        let p = loc_view(self.location);
        let t = texts(c2@);
        lemma_joined_flat(t);
        assert(t =~= seq!["$"@] + step_texts(p));
        lemma_flat_add(seq!["$"@], step_texts(p));
        lemma_flat_one("$"@);
    }
#end
