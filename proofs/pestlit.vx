#use base.rs
#use strings.rs
#use lit_spec.rs
#raw
pub mod vx_none { use super::*; use vstd::prelude::*; pub broadcast proof fn ax_none(n: nat) ensures #[trigger] (n + 0) == n {} }
#end
#props P10 P14
#fn parser.rs unescape_string
@ret r
@spec
    // the grammar lets only valid literals through
    requires den(value@, 0) is Some, value@.len() <= i64::MAX,
    ensures Some(scalars(r@)) == den(value@, 0),
@callren .get vx_part
@callren u32::from_str_radix vx_u32_radix
@entry
    let ghost s = value@;
@after let low_surrogate
    proof { lemma_pair(codepoint, low_surrogate); }
@loop 0
    invariant
        s == value@, chars@ == s, length == s.len(), index <= length, length <= i64::MAX,
        den(s, 0) is Some, den(s, 0) == with_rest(scalars(rv@), den(s, index as int)),
    decreases length - index,
@loopentry 0
    let ghost i = index as int;
    let ghost before = rv@;
    proof {
        assert(unit_at(s, i) is Some);
        if i + 6 <= s.len() { lemma_hex4(s, i + 2); }
        if i + 12 <= s.len() { lemma_hex4(s, i + 8); }
    }
@loopexit 0
    proof {
        let u = unit_at(s, i).unwrap();
        lemma_scalars_push(before, rv@.last());
        lemma_with_rest(scalars(before), u.0, den(s, u.1));
    }
#end
