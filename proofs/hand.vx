#set locgroup vx_none::ax_none,
#crate hand jsonpath_rfc9535/src
#use base.rs
#use strings.rs
#use lit_spec.rs
#raw
pub mod vx_none { use super::*; use vstd::prelude::*; pub broadcast proof fn ax_none(n: nat) ensures #[trigger] (n + 0) == n {} }
#end
#type errors.rs JSONPathErrorType
#type errors.rs JSONPathError
#props P10 P14
#fn errors.rs JSONPathError::syntax
@ret r
@spec
    ensures r.span == span,
#end
#fn parser.rs parse_hex_digits
@ret r
@spec
    ensures digits@.len() == 4 ==> (r is Some == all_hex(digits@)) && (r is Some ==> r.unwrap() == hex_val(digits@)),
@callren u32::from_str_radix vx_u32_radix
@callren .ok vx_ok
@closure 0
|$0: char| -> (o: bool)
    ensures o == (hexdig($0) >= 0)
@entry
    proof { if digits@.len() == 4 { assert(digits@.subrange(0, 4) =~= digits@); lemma_hex4(digits@, 0); } }
#end
#fn parser.rs unescape_string
@ret r
@spec
    requires value@.len() <= token_span.1 - token_span.0, token_span.1 <= i64::MAX,
    ensures
        r is Ok ==> Some(scalars(r->Ok_0@)) == den(value@, 0),
        // the error points into the token
        r is Err ==> token_span.0 <= r->Err_0.span.0 <= r->Err_0.span.1 <= token_span.1,
        // escapes of control characters are refused: known finding of P10
        den(value@, 0) is Some && !has_ctrl(value@, 0) ==> r is Ok,
@callren .get vx_part
@callren .filter vx_opt_filter
@closure 0
|| -> (o: JSONPathError)
    requires index + 4 <= length, length <= token_span.1 - token_span.0, token_span.1 <= i64::MAX,
    ensures o.span == (start_index, (token_span.0 + index + 4) as usize)
@closure 1
|$0: &u32| -> (o: bool)
    ensures o == (0xDC00 <= *$0 <= 0xDFFF)
@closure 2
|| -> (o: JSONPathError)
    requires index + 10 <= length, length <= token_span.1 - token_span.0, token_span.1 <= i64::MAX,
    ensures o.span == (start_index, (token_span.0 + index + 10) as usize)
@closure 3
|| -> (o: JSONPathError)
    requires index + 3 <= length, length <= token_span.1 - token_span.0, token_span.1 <= i64::MAX,
    ensures o.span == (start_index, (token_span.0 + index + 3) as usize)
@entry
    let ghost s = value@;
@after let low_surrogate
    proof { lemma_pair(codepoint, low_surrogate); }
@loop 0
    invariant
        s == value@, chars@ == s, length == s.len(), index <= length, length <= token_span.1 - token_span.0, token_span.1 <= i64::MAX,
        den(s, 0) == with_rest(scalars(rv@), den(s, index as int)),
        has_ctrl(s, index as int) ==> has_ctrl(s, 0),
    decreases length - index,
@loopentry 0
    let ghost i = index as int;
    let ghost before = rv@;
    proof {
        if unit_at(s, i) is None { assert(den(s, i) is None); }
        if i + 6 <= s.len() { lemma_hex4(s, i + 2); }
        if i + 12 <= s.len() { lemma_hex4(s, i + 8); }
        if unit_at(s, i) is Some && ctrl_at(s, i) { assert(has_ctrl(s, i)); }
    }
@loopexit 0
    proof {
        let u = unit_at(s, i).unwrap();
        lemma_scalars_push(before, rv@.last());
        lemma_with_rest(scalars(before), u.0, den(s, u.1));
    }
#end
