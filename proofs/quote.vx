#fn ${quotefile} quote
@props P08 P16 P18
@ret r
@spec
    ensures r@ =~= quoted(s@),
@loop 0
    invariant
        vx_all0 == s@, rv@ =~= "'"@ + quoted_to(s@, vx_n0),
@loopentry 0
    proof { assert(c == s@[vx_n0 - 1]); }
#end
