#use base.rs
#use strings.rs
#use lit_spec.rs
#use bytes_spec.rs
#raw
//@root use vstd::utf8::*;
pub mod vx_none { use super::*; use vstd::prelude::*; pub broadcast proof fn ax_none(n: nat) ensures #[trigger] (n + 0) == n {} }
#end
#type errors.rs JSONPathErrorType
#type errors.rs JSONPathError
#props P10 P14
#fn errors.rs JSONPathError::syntax
#end
#fn unescape.rs is_high_surrogate
@ret r
@spec
    ensures r == is_high(code_point as int),
#end
#fn unescape.rs is_low_surrogate
@ret r
@spec
    ensures r == is_low(code_point as int),
#end
#fn unescape.rs encode_code_point
@ret r
@spec
    ensures is_sv(code_point as int) ==> r is Ok && r->Ok_0@ == enc1(code_point as int), !is_sv(code_point as int) ==> r is Err,
@callren .encode_utf8 vx_encode_utf8
#end
#fn unescape.rs parse_hex_digits
@ret r
@spec
    requires digits@.len() == 4, bhex4(digits@, 0),
    ensures r is Ok, r->Ok_0 == bhex4_at(digits@, 0),
@callren str::from_utf8 vx_str_from_utf8
@callren u32::from_str_radix vx_u32_radix
@closure 0
|$0: VxParseIntError| -> (o: JSONPathError)
@entry
    proof { lemma_hex_text(digits@); }
#end
#fn unescape.rs decode_hex_char
@ret r
@spec
    // the grammar lets only valid escapes through
    requires 0 < index < bytes@.len(), bytes@.len() <= i64::MAX, bytes@[index - 1] == 0x5C, bytes@[index as int] == 0x75, bunit_at(bytes@, index - 1) is Some,
    ensures
        r is Ok, is_sv(r->Ok_0.0 as int),
        bunit_at(bytes@, index - 1) == Some((enc1(r->Ok_0.0 as int), r->Ok_0.1 + 1)), index < r->Ok_0.1 < bytes@.len(),
@entry
    proof {
        let i = index + 1;
        assert(bhex4(bytes@, i)); lemma_bhex(bytes@, i);
        if bhex4(bytes@, i + 6) { lemma_bhex(bytes@, i + 6); }
    }
@after let low_surrogate
    proof { lemma_pair(code_point, low_surrogate); }
#end
#fn unescape.rs unescape
@ret r
@spec
    requires den(value@, 0) is Some, encode_utf8(value@).len() <= i64::MAX,
    ensures r is Ok, Some(scalars(r->Ok_0@)) == den(value@, 0),
@callren String::from_utf8 vx_from_utf8
@entry
    let ghost d = den(value@, 0).unwrap();
    proof {
        assert(value@.skip(0) =~= value@); assert(encode_utf8(value@).skip(0) =~= encode_utf8(value@));
        lemma_bden(value@, 0, encode_utf8(value@), 0);
        lemma_den_scalar(value@, 0);
    }
@loop 0
    invariant
        bytes@ == encode_utf8(value@), length == bytes@.len(), index <= length, length <= i64::MAX,
        bden(bytes@, 0) is Some, bden(bytes@, 0) == bwith_rest(rv@, bden(bytes@, index as int)),
    decreases length - index,
@loopentry 0
    let ghost i = index as int;
    let ghost before = rv@;
    proof {
        assert(bunit_at(bytes@, i) is Some);
        lemma_enc_ascii(0x22); lemma_enc_ascii(0x5C); lemma_enc_ascii(0x2F); lemma_enc_ascii(8); lemma_enc_ascii(0xC); lemma_enc_ascii(0xA); lemma_enc_ascii(0xD); lemma_enc_ascii(9);
    }
@loopexit 0
    proof {
        let u = bunit_at(bytes@, i).unwrap();
        assert(rv@ =~= before + u.0);
        lemma_bwith_rest(before, u.0, bden(bytes@, u.1));
    }
@loopdone 0
    proof {
        assert(rv@ + Seq::<u8>::empty() =~= rv@);
        let t = lemma_enc_chars(d);
        encode_utf8_valid_utf8(t);
        assert(rv@ == encode_utf8(t));
        assert forall|x: Seq<char>| #[trigger] encode_utf8(x) == rv@ implies x == t by { lemma_enc_inj(x, t); }
    }
#end
