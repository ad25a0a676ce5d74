// ---- RFC 9535 section 2.3.4.2.2: the indices a slice selects, in order ----
pub open spec fn clamp(x: int, lo: int, hi: int) -> int { if x < lo { lo } else if x > hi { hi } else { x } }
pub open spec fn slice_norm(i: int, len: int) -> int { if i >= 0 { i } else { len + i } }
pub open spec fn slice_start(start: Option<i64>, step: int, len: int) -> int {
    slice_norm(match start { Some(i) => i as int, None => if step >= 0 { 0 } else { len - 1 } }, len)
}
pub open spec fn slice_end(end: Option<i64>, step: int, len: int) -> int {
    slice_norm(match end { Some(i) => i as int, None => if step >= 0 { len } else { -len - 1 } }, len)
}
pub open spec fn slice_lower(start: Option<i64>, end: Option<i64>, step: int, len: int) -> int {
    if step >= 0 { clamp(slice_start(start, step, len), 0, len) } else { clamp(slice_end(end, step, len), -1, len - 1) }
}
pub open spec fn slice_upper(start: Option<i64>, end: Option<i64>, step: int, len: int) -> int {
    if step >= 0 { clamp(slice_end(end, step, len), 0, len) } else { clamp(slice_start(start, step, len), -1, len - 1) }
}
pub open spec fn gap(lo: int, hi: int) -> nat { if lo < hi { (hi - lo) as nat } else { 0 } }
/// lo, lo + n, ... below hi
pub open spec fn steps_up(lo: int, hi: int, n: int) -> Seq<int> decreases gap(lo, hi) when n > 0 {
    if lo < hi { seq![lo] + steps_up(lo + n, hi, n) } else { Seq::empty() }
}
/// hi, hi - n, ... above lo
pub open spec fn steps_down(lo: int, hi: int, n: int) -> Seq<int> decreases gap(lo, hi) when n > 0 {
    if lo < hi { seq![hi] + steps_down(lo, hi - n, n) } else { Seq::empty() }
}
pub open spec fn slice_idx(len: int, start: Option<i64>, end: Option<i64>, step: Option<i64>) -> Seq<int> {
    let st = match step { Some(i) => i as int, None => 1 };
    if st == 0 { Seq::empty() }
    else if st > 0 { steps_up(slice_lower(start, end, st, len), slice_upper(start, end, st, len), st) }
    else { steps_down(slice_lower(start, end, st, len), slice_upper(start, end, st, len), -st) }
}
pub proof fn lemma_steps_up(lo: int, hi: int, n: int, s: Seq<int>)
    requires n > 0, is_steps(lo, hi, n, s),
    ensures s =~= steps_up(lo, hi, n),
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.skip(1);
        assert(s[0] == lo + 0 * n);
        assert forall|k: int| 0 <= k < t.len() implies #[trigger] t[k] == (lo + n) + k * n by { assert(s[k + 1] == lo + (k + 1) * n); assert((k + 1) * n == k * n + n) by (nonlinear_arith); }
        assert((lo + n) + t.len() * n >= hi) by { assert(s.len() * n == t.len() * n + n) by (nonlinear_arith) requires s.len() == t.len() + 1; }
        lemma_steps_up(lo + n, hi, n, t);
        assert(s =~= seq![s[0]] + t);
        assert(0 * n == 0);
    } else { assert(0 * n == 0); }
}
pub proof fn lemma_steps_up_in(lo: int, hi: int, n: int)
    requires n > 0, ensures forall|k: int| 0 <= k < steps_up(lo, hi, n).len() ==> lo <= #[trigger] steps_up(lo, hi, n)[k] < hi,
    decreases gap(lo, hi)
{ if lo < hi { lemma_steps_up_in(lo + n, hi, n); let t = steps_up(lo + n, hi, n); assert forall|k: int| 0 <= k < steps_up(lo, hi, n).len() implies lo <= #[trigger] steps_up(lo, hi, n)[k] < hi by { if k > 0 { assert(steps_up(lo, hi, n)[k] == t[k - 1]); } } } }
pub proof fn lemma_steps_down_in(lo: int, hi: int, n: int)
    requires n > 0, ensures forall|k: int| 0 <= k < steps_down(lo, hi, n).len() ==> lo < #[trigger] steps_down(lo, hi, n)[k] <= hi,
    decreases gap(lo, hi)
{ if lo < hi { lemma_steps_down_in(lo, hi - n, n); let t = steps_down(lo, hi - n, n); assert forall|k: int| 0 <= k < steps_down(lo, hi, n).len() implies lo < #[trigger] steps_down(lo, hi, n)[k] <= hi by { if k > 0 { assert(steps_down(lo, hi, n)[k] == t[k - 1]); } } } }
pub proof fn lemma_slice_in(len: int, start: Option<i64>, end: Option<i64>, step: Option<i64>)
    requires len >= 0, ensures forall|k: int| 0 <= k < slice_idx(len, start, end, step).len() ==> 0 <= #[trigger] slice_idx(len, start, end, step)[k] < len,
{
    let st = match step { Some(i) => i as int, None => 1 };
    if st > 0 { lemma_steps_up_in(slice_lower(start, end, st, len), slice_upper(start, end, st, len), st); }
    if st < 0 { lemma_steps_down_in(slice_lower(start, end, st, len), slice_upper(start, end, st, len), -st); }
}
// ---- RFC 9535 section 2.3.3.2: the element an index denotes ----
pub open spec fn norm_idx(i: int, len: int) -> int { if i >= 0 { i } else { len + i } }
/// the elements at these positions
pub open spec fn picked(s: Seq<(i64, &Value)>, ix: Seq<int>, a: Seq<Value>) -> bool {
    s.len() == ix.len() && forall|k: int| #![trigger s[k]] #![trigger ix[k]] 0 <= k < ix.len() ==> s[k].0 == ix[k] && 0 <= ix[k] < a.len() && *s[k].1 == a[ix[k]]
}
