#props P02 P03 P18 P21
#fn ${slicefile} norm_index
@ret r
@spec
    requires length <= i64::MAX,
    ensures 0 <= norm_idx(index as int, length as int) < length ==> r == norm_idx(index as int, length as int), !(0 <= norm_idx(index as int, length as int) < length) ==> r >= length,
@cast usize vx_i64_as_usize
#end
#props P01 P03 P18 P21
#fn ${slicefile} slice
@ret r
@spec
    requires array@.len() <= i64::MAX,
    ensures picked(r@, slice_idx(array@.len() as int, start, stop, step), array@),
@cast usize vx_i64_as_usize
@loopbefore 0
    let ghost lo = slice_lower(start, stop, n_step as int, array_length as int);
    let ghost hi = slice_upper(start, stop, n_step as int, array_length as int);
    let ghost ix = vx_all0.map_values(|x: i64| x.vx_i());
    proof { lemma_steps_up(lo, hi, n_step as int, ix); lemma_steps_up_in(lo, hi, n_step as int); }
@loop 0
    invariant
        0 <= lo, hi <= array@.len(), array@.len() <= i64::MAX, ix == steps_up(lo, hi, n_step as int), ix.len() == vx_all0.len(),
        forall|k: int| 0 <= k < ix.len() ==> lo <= #[trigger] ix[k] < hi,
        forall|k: int| 0 <= k < ix.len() ==> #[trigger] ix[k] == vx_all0[k],
        picked(sliced_array@, ix.take(vx_n0), array@),
@loopentry 0
    proof { let k = vx_n0 - 1; assert(i == vx_all0[k]); assert(ix[k] == i); assert(lo <= ix[k] < hi); assert(ix.take(vx_n0) =~= ix.take(vx_n0 - 1).push(ix[k])); }
@after let mut i = n_start
    let ghost lo = slice_lower(start, stop, n_step as int, array_length as int);
    let ghost hi = slice_upper(start, stop, n_step as int, array_length as int);
    let ghost mut done: Seq<int> = Seq::empty();
    proof { assert(done + steps_down(lo, i as int, -n_step) =~= steps_down(lo, hi, -n_step)); }
@loop 1
    invariant
        n_step < 0, -1 <= lo, hi < array@.len(), i < array@.len(), n_stop == lo || (n_stop == array@.len() && lo == array@.len() - 1), n_step >= i64::MIN,
        array@.len() <= i64::MAX,
        done + steps_down(lo, i as int, -n_step) == steps_down(lo, hi, -n_step),
        picked(sliced_array@, done, array@),
    decreases gap(n_stop as int, i as int)
@loopentry 1
    let ghost i0 = i as int;
    let ghost done0 = done;
@loopexit 1
    proof {
        done = done.push(i0);
        assert(done0 + steps_down(lo, i0, -n_step) =~= done + steps_down(lo, i as int, -n_step));
    }
@loopdone 0
    proof { assert(ix.take(vx_n0) =~= slice_idx(array@.len() as int, start, stop, step)); }
#end
