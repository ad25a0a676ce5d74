// ---- base: stand-ins for the parts of std that the functions use ----
use vstd::std_specs::cmp::*;
pub mod vx_sp { use super::*;
/// lexicographic by scalar value
pub open spec fn str_lt(a: Seq<char>, b: Seq<char>) -> bool decreases a.len() {
    if b.len() == 0 { false } else if a.len() == 0 { true } else if a[0] != b[0] { (a[0] as u32) < (b[0] as u32) } else { str_lt(a.skip(1), b.skip(1)) }
}
}
pub use vx_sp::*;
pub mod vx_ax {
    use super::*;
    // assumptions: comparison of floats and strings by the standard library
    pub broadcast axiom fn ax_f64_eq() ensures #[trigger] <f64 as PartialEqSpec>::obeys_eq_spec();
    pub broadcast axiom fn ax_f64_ord() ensures #[trigger] <f64 as PartialOrdSpec>::obeys_partial_cmp_spec();
    pub broadcast axiom fn ax_str_eq() ensures #[trigger] <String as PartialEqSpec>::obeys_eq_spec();
    pub broadcast axiom fn ax_str_eq2(a: String, b: String) ensures #[trigger] a.eq_spec(&b) == (a@ == b@);
    pub broadcast axiom fn ax_str_ord() ensures #[trigger] <String as PartialOrdSpec>::obeys_partial_cmp_spec();
    // `<` on String is lexicographic by scalar value (UTF-8 keeps that order)
    pub broadcast axiom fn ax_str_lt(a: String, b: String) ensures (#[trigger] a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Less)) == str_lt(a@, b@);
    pub broadcast group group_vx_ax { ax_str_lt, ax_f64_eq, ax_f64_ord, ax_str_eq, ax_str_eq2, ax_str_ord }

    pub broadcast group group_vx_vec { vstd::std_specs::vec::axiom_vec_index_decreases, vstd::seq::axiom_seq_index_decreases }
}
global size_of usize == 8;
broadcast use { ${locgroup} vx_ax::group_vx_ax, vx_ax::group_vx_vec };

pub open spec fn feq(a: f64, b: f64) -> bool { a.eq_spec(&b) }
pub open spec fn flt(a: f64, b: f64) -> bool { a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Less) }
pub uninterp spec fn i2f(i: int) -> f64;
pub trait VxAsF64: Sized { spec fn vx_int(self) -> int; fn vx_cast(self) -> (r: f64) ensures r == i2f(self.vx_int()); }
impl VxAsF64 for i64 { open spec fn vx_int(self) -> int { self as int }
  #[verifier::external_body] fn vx_cast(self) -> (r: f64) { self as f64 } }
impl VxAsF64 for u64 { open spec fn vx_int(self) -> int { self as int }
  #[verifier::external_body] fn vx_cast(self) -> (r: f64) { self as f64 } }
pub fn vx_as_f64<T: VxAsF64>(x: T) -> (r: f64) ensures r == i2f(x.vx_int()) { x.vx_cast() }
// `as usize` of an i64: two's complement, 64 bits
#[verifier::external_body]
pub fn vx_i64_as_usize(x: i64) -> (r: usize)
  ensures x >= 0 ==> r == x, x < 0 ==> r == 0x1_0000_0000_0000_0000 + x { x as usize }
pub fn vx_assert(b: bool) requires b {}

// ---- checked conversions between integers ----
pub struct VxTryFromIntError { x: u8 }
pub trait VxInt: Sized { spec fn vx_iv(self) -> int;
  fn vx_to_usize(self) -> (r: Option<usize>) ensures 0 <= self.vx_iv() <= usize::MAX ==> r is Some && r.unwrap() == self.vx_iv(), !(0 <= self.vx_iv() <= usize::MAX) ==> r is None;
  fn vx_to_i64(self) -> (r: Option<i64>) ensures i64::MIN <= self.vx_iv() <= i64::MAX ==> r is Some && r.unwrap() == self.vx_iv(), !(i64::MIN <= self.vx_iv() <= i64::MAX) ==> r is None; }
impl VxInt for i64 { open spec fn vx_iv(self) -> int { self as int }
  fn vx_to_usize(self) -> (r: Option<usize>) { if self < 0 { None } else { Some(self as usize) } }
  fn vx_to_i64(self) -> (r: Option<i64>) { Some(self) } }
impl VxInt for i128 { open spec fn vx_iv(self) -> int { self as int }
  fn vx_to_usize(self) -> (r: Option<usize>) { if self < 0 || self > usize::MAX as i128 { None } else { Some(self as usize) } }
  fn vx_to_i64(self) -> (r: Option<i64>) { if self < i64::MIN as i128 || self > i64::MAX as i128 { None } else { Some(self as i64) } } }
impl VxInt for u64 { open spec fn vx_iv(self) -> int { self as int }
  fn vx_to_usize(self) -> (r: Option<usize>) { Some(self as usize) }
  fn vx_to_i64(self) -> (r: Option<i64>) { if self > i64::MAX as u64 { None } else { Some(self as i64) } } }
impl VxInt for usize { open spec fn vx_iv(self) -> int { self as int }
  fn vx_to_usize(self) -> (r: Option<usize>) { Some(self) }
  fn vx_to_i64(self) -> (r: Option<i64>) { if self > i64::MAX as usize { None } else { Some(self as i64) } } }
pub fn vx_usize_try_from<T: VxInt>(x: T) -> (r: Result<usize, VxTryFromIntError>)
  ensures 0 <= x.vx_iv() <= usize::MAX ==> r is Ok && r->Ok_0 == x.vx_iv(), !(0 <= x.vx_iv() <= usize::MAX) ==> r is Err
{ match x.vx_to_usize() { Some(i) => Ok(i), None => Err(VxTryFromIntError { x: 0 }) } }
pub fn vx_i64_try_from<T: VxInt>(x: T) -> (r: Result<i64, VxTryFromIntError>)
  ensures i64::MIN <= x.vx_iv() <= i64::MAX ==> r is Ok && r->Ok_0 == x.vx_iv(), !(i64::MIN <= x.vx_iv() <= i64::MAX) ==> r is Err
{ match x.vx_to_i64() { Some(i) => Ok(i), None => Err(VxTryFromIntError { x: 0 }) } }

// ---- ordering helpers ----
pub trait VxOrd: Sized + Copy { spec fn vx_ord(self) -> int; fn vx_le(self, o: Self) -> (r: bool) ensures r == (self.vx_ord() <= o.vx_ord()); }
impl VxOrd for i64 { open spec fn vx_ord(self) -> int { self as int } fn vx_le(self, o: i64) -> (r: bool) { self <= o } }
impl VxOrd for i128 { open spec fn vx_ord(self) -> int { self as int } fn vx_le(self, o: i128) -> (r: bool) { self <= o } }
impl VxOrd for usize { open spec fn vx_ord(self) -> int { self as int } fn vx_le(self, o: usize) -> (r: bool) { self <= o } }
pub fn vx_max<T: VxOrd>(a: T, b: T) -> (r: T) ensures a.vx_ord() <= b.vx_ord() ==> r == b, a.vx_ord() > b.vx_ord() ==> r == a { if a.vx_le(b) { b } else { a } }
pub fn vx_min<T: VxOrd>(a: T, b: T) -> (r: T) ensures a.vx_ord() <= b.vx_ord() ==> r == a, a.vx_ord() > b.vx_ord() ==> r == b { if a.vx_le(b) { a } else { b } }

// ---- iterators: a list of the remaining items; adapters are eager, which gives the same items ----
pub struct VIter<T> { pub v: Vec<T> }

pub trait VxFrom<T>: Sized {
    spec fn vx_from_spec(s: Seq<T>, r: Self) -> bool;
    fn vx_from(v: Vec<T>) -> (r: Self) ensures Self::vx_from_spec(v@, r);
}
impl<T> VxFrom<T> for Vec<T> {
    open spec fn vx_from_spec(s: Seq<T>, r: Self) -> bool { r@ == s }
    fn vx_from(v: Vec<T>) -> (r: Self) { v }
}
/// the first error wins, otherwise all values
pub open spec fn oks<T, E>(s: Seq<Result<T, E>>) -> Result<Seq<T>, E> decreases s.len() {
    if s.len() == 0 { Ok(Seq::empty()) } else {
        match oks(s.drop_last()) {
            Err(e) => Err(e),
            Ok(p) => match s.last() { Ok(x) => Ok(p.push(x)), Err(e) => Err(e) },
        }
    }
}
impl<T, E> VxFrom<Result<T, E>> for Result<Vec<T>, E> {
    open spec fn vx_from_spec(s: Seq<Result<T, E>>, r: Self) -> bool {
        match r { Ok(v) => oks(s) == Ok::<Seq<T>, E>(v@), Err(e) => oks(s) == Err::<Seq<T>, E>(e) }
    }
    fn vx_from(v: Vec<Result<T, E>>) -> (r: Self) {
        let mut w = v;
        let ghost all = w@;
        let mut out: Vec<T> = Vec::new();
        let ghost mut n: int = 0;
        while w.len() > 0
            invariant 0 <= n <= all.len(), all == v@, w@ =~= all.skip(n), oks(all.take(n)) == Ok::<Seq<T>, E>(out@),
            decreases w.len()
        {
            let x = w.remove(0);
            proof { assert(all.take(n + 1).drop_last() =~= all.take(n)); assert(all.take(n+1).last() == x); n = n + 1; }
            match x {
                Ok(y) => { out.push(y); }
                Err(e) => { proof { assert(oks(all.take(n)) == Err::<Seq<T>, E>(e)); lemma_oks_err(all, n); } return Err(e); }
            }
        }
        assert(all.take(n) =~= all);
        Ok(out)
    }
}
pub proof fn lemma_oks_err<T, E>(s: Seq<Result<T, E>>, n: int)
    requires 0 <= n <= s.len(), oks(s.take(n)) is Err,
    ensures oks(s) == oks(s.take(n)),
    decreases s.len() - n
{
    if n < s.len() {
        assert(s.take(n + 1).drop_last() =~= s.take(n));
        lemma_oks_err(s, n + 1);
    } else { assert(s.take(n) =~= s); }
}
pub proof fn lemma_oks_all<T, E>(s: Seq<Result<T, E>>, t: Seq<T>)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == Ok::<T, E>(t[i]),
    ensures oks(s) == Ok::<Seq<T>, E>(t),
    decreases s.len()
{
    if s.len() > 0 { lemma_oks_all(s.drop_last(), t.drop_last()); assert(t.drop_last().push(t.last()) =~= t); }
    else { assert(t =~= Seq::empty()); }
}

/// what `for` and `flat_map` iterate over
pub trait VxSeq: Sized {
    type Item;
    spec fn vx_seq(self) -> Seq<Self::Item>;
    fn vx_vec(self) -> (r: Vec<Self::Item>) ensures r@ == self.vx_seq();
}
impl<T> VxSeq for Vec<T> { type Item = T;
    open spec fn vx_seq(self) -> Seq<T> { self@ }
    fn vx_vec(self) -> (r: Vec<T>) { self } }
impl<T> VxSeq for VIter<T> { type Item = T;
    open spec fn vx_seq(self) -> Seq<T> { self.v@ }
    fn vx_vec(self) -> (r: Vec<T>) { self.v } }
impl<T> VxSeq for Option<T> { type Item = T;
    open spec fn vx_seq(self) -> Seq<T> { match self { Some(x) => seq![x], None => Seq::empty() } }
    fn vx_vec(self) -> (r: Vec<T>) { let mut v = Vec::new(); if let Some(x) = self { v.push(x); } proof { assert(v@ =~= self.vx_seq()); } v } }
pub fn vx_for<S: VxSeq>(s: S) -> (r: VIter<S::Item>) ensures r.v@ == s.vx_seq() { VIter { v: s.vx_vec() } }
pub trait VxIntoIter: VxSeq { fn vx_into_iter(self) -> (r: VIter<Self::Item>) ensures r.v@ == self.vx_seq(); }
impl<S: VxSeq> VxIntoIter for S { fn vx_into_iter(self) -> (r: VIter<S::Item>) { VIter { v: self.vx_vec() } } }

pub trait VxIter<T> {
    spec fn vx_els(&self) -> Seq<T>;
    fn vx_iter<'a>(&'a self) -> (r: VIter<&'a T>)
        ensures r.v@.len() == self.vx_els().len(), forall|i: int| #![trigger r.v@[i]] #![trigger self.vx_els()[i]] 0 <= i < r.v@.len() ==> *r.v@[i] == self.vx_els()[i];
}
impl<T> VxIter<T> for Vec<T> {
    open spec fn vx_els(&self) -> Seq<T> { self@ }
    fn vx_iter<'a>(&'a self) -> (r: VIter<&'a T>) {
        let mut out: Vec<&'a T> = Vec::new();
        let mut i: usize = 0;
        while i < self.len() invariant 0 <= i <= self.len(), out.len() == i, forall|j: int| 0 <= j < i ==> *#[trigger] out@[j] == self@[j] decreases self.len() - i
        { out.push(&self[i]); i += 1; }
        VIter { v: out }
    }
}
impl<T> VxIter<T> for [T] {
    open spec fn vx_els(&self) -> Seq<T> { self@ }
    fn vx_iter<'a>(&'a self) -> (r: VIter<&'a T>) {
        let mut out: Vec<&'a T> = Vec::new();
        let mut i: usize = 0;
        while i < self.len() invariant 0 <= i <= self.len(), out.len() == i, forall|j: int| 0 <= j < i ==> *#[trigger] out@[j] == self@[j] decreases self.len() - i
        { out.push(&self[i]); i += 1; }
        VIter { v: out }
    }
}
pub open spec fn keep<T>(s: Seq<T>, b: Seq<bool>) -> Seq<T> decreases s.len() {
    if s.len() == 0 || b.len() != s.len() { Seq::empty() }
    else { let p = keep(s.drop_last(), b.drop_last()); if b.last() { p.push(s.last()) } else { p } }
}
pub open spec fn flat<T>(s: Seq<Seq<T>>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last() }
}
pub proof fn lemma_keep_map<A, B>(s: Seq<A>, t: Seq<B>, b: Seq<bool>, f: spec_fn(A) -> B)
    requires s.len() == b.len(), t.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] t[i] == f(s[i]),
    ensures keep(s, b).map_values(f) =~= keep(t, b), keep(t, b).len() == keep(s, b).len(),
    decreases s.len()
{
    if s.len() > 0 { lemma_keep_map(s.drop_last(), t.drop_last(), b.drop_last(), f); }
}
pub proof fn lemma_keep_in<A>(s: Seq<A>, b: Seq<bool>)
    requires s.len() == b.len(),
    ensures keep(s, b).len() <= s.len(), forall|k: int| 0 <= k < keep(s, b).len() ==> exists|i: int| 0 <= i < s.len() && b[i] && #[trigger] keep(s, b)[k] == s[i],
    decreases s.len()
{
    if s.len() > 0 {
        lemma_keep_in(s.drop_last(), b.drop_last());
        let p = keep(s.drop_last(), b.drop_last());
        assert forall|k: int| 0 <= k < keep(s, b).len() implies exists|i: int| 0 <= i < s.len() && b[i] && #[trigger] keep(s, b)[k] == s[i] by {
            if k < p.len() {
                assert(p[k] == keep(s, b)[k]);
                let i = choose|i: int| 0 <= i < s.drop_last().len() && b.drop_last()[i] && p[k] == s.drop_last()[i];
                assert(b[i] && keep(s, b)[k] == s[i]);
            } else { let i = s.len() - 1; assert(b[i] && keep(s, b)[k] == s[i]); }
        }
    }
}
pub proof fn lemma_flat_map<A, B>(s: Seq<Seq<A>>, f: spec_fn(A) -> B)
    ensures flat(s).map_values(f) =~= flat(s.map_values(|x: Seq<A>| x.map_values(f))),
    decreases s.len()
{
    if s.len() > 0 {
        lemma_flat_map(s.drop_last(), f);
        let g = |x: Seq<A>| x.map_values(f);
        assert(s.map_values(g).drop_last() =~= s.drop_last().map_values(g));
        assert(s.map_values(g).last() =~= s.last().map_values(f));
    }
}
pub proof fn lemma_flat_add<A>(s: Seq<Seq<A>>, t: Seq<Seq<A>>)
    ensures flat(s + t) =~= flat(s) + flat(t),
    decreases t.len()
{
    if t.len() > 0 { lemma_flat_add(s, t.drop_last()); assert((s + t).drop_last() =~= s + t.drop_last()); assert((s + t).last() == t.last()); }
    else { assert(s + t =~= s); }
}
pub proof fn lemma_flat_flat<A>(s: Seq<Seq<Seq<A>>>)
    ensures flat(flat(s)) =~= flat(s.map_values(|x: Seq<Seq<A>>| flat(x))),
    decreases s.len()
{
    if s.len() > 0 {
        lemma_flat_flat(s.drop_last());
        let g = |x: Seq<Seq<A>>| flat(x);
        lemma_flat_add(flat(s.drop_last()), s.last());
        assert(s.map_values(g).drop_last() =~= s.drop_last().map_values(g));
    }
}
pub proof fn lemma_flat_one<A>(s: Seq<A>) ensures flat(seq![s]) =~= s {
    assert(seq![s].drop_last() =~= Seq::<Seq<A>>::empty()); reveal_with_fuel(flat, 2);
}

impl<T> VIter<T> {
    pub fn vx_more(&self) -> (r: bool) ensures r == (self.v@.len() > 0) { self.v.len() > 0 }
    pub fn vx_take(&mut self) -> (r: T) requires old(self).v@.len() > 0 ensures r == old(self).v@[0], final(self).v@ =~= old(self).v@.skip(1) { self.v.remove(0) }
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self).v@.len() == 0 ==> r is None && final(self).v@ == old(self).v@,
            old(self).v@.len() > 0 ==> r == Some(old(self).v@[0]) && final(self).v@ =~= old(self).v@.skip(1)
    { if self.v.len() == 0 { None } else { Some(self.v.remove(0)) } }
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: VIter<U>)
        requires forall|i: int| 0 <= i < self.v@.len() ==> #[trigger] f.requires((self.v@[i],)),
        ensures r.v@.len() == self.v@.len(), forall|i: int| #![trigger r.v@[i]] #![trigger self.v@[i]] 0 <= i < self.v@.len() ==> f.ensures((self.v@[i],), r.v@[i]),
    {
        let mut out: Vec<U> = Vec::new();
        let mut me = self;
        let ghost all = me.v@;
        while me.v.len() > 0
            invariant out.len() + me.v.len() == all.len(), forall|i: int| 0 <= i < all.len() ==> #[trigger] f.requires((all[i],)),
                me.v@ =~= all.skip(out.len() as int), forall|i: int| 0 <= i < out.len() ==> f.ensures((all[i],), #[trigger] out@[i]),
            decreases me.v.len()
        { let x = me.v.remove(0); assert(x == all[out.len() as int]); let y = f(x); out.push(y); }
        VIter { v: out }
    }
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: VIter<T>)
        requires forall|i: int| 0 <= i < self.v@.len() ==> #[trigger] f.requires((&self.v@[i],)),
        ensures exists|b: Seq<bool>| b.len() == self.v@.len() && (forall|i: int| 0 <= i < b.len() ==> f.ensures((&self.v@[i],), #[trigger] b[i])) && r.v@ == #[trigger] keep(self.v@, b),
            forall|k: int| 0 <= k < r.v@.len() ==> exists|i: int| 0 <= i < self.v@.len() && (#[trigger] r.v@[k]) == self.v@[i] && f.ensures((&self.v@[i],), true),
    {
        let mut out: Vec<T> = Vec::new();
        let mut me = self;
        let ghost all = me.v@;
        let ghost mut b: Seq<bool> = Seq::empty();
        while me.v.len() > 0
            invariant b.len() + me.v.len() == all.len(), forall|i: int| 0 <= i < all.len() ==> #[trigger] f.requires((&all[i],)),
                me.v@ =~= all.skip(b.len() as int), forall|i: int| 0 <= i < b.len() ==> f.ensures((&all[i],), #[trigger] b[i]),
                out@ == keep(all.take(b.len() as int), b),
            decreases me.v.len()
        {
            let x = me.v.remove(0);
            let ghost n = b.len() as int;
            assert(x == all[n]);
            let y = f(&x);
            proof { assert(all.take(n + 1).drop_last() =~= all.take(n)); assert(b.push(y).drop_last() =~= b); b = b.push(y); }
            if y { out.push(x); }
        }
        assert(all.take(b.len() as int) =~= all);
        proof {
            lemma_keep_in(all, b);
            assert forall|k: int| 0 <= k < out@.len() implies exists|i: int| 0 <= i < all.len() && (#[trigger] out@[k]) == all[i] && f.ensures((&all[i],), true) by {
                let i = choose|i: int| 0 <= i < all.len() && b[i] && keep(all, b)[k] == all[i];
                assert(f.ensures((&all[i],), b[i]));
            }
        }
        VIter { v: out }
    }
    pub fn vx_flatten(self) -> (r: VIter<T::Item>) where T: VxSeq
        ensures r.v@ == flat(self.v@.map_values(|x: T| x.vx_seq())),
    {
        let mut out: Vec<T::Item> = Vec::new();
        let mut me = self;
        let ghost all = me.v@;
        let ghost mut n: int = 0;
        let ghost g = |x: T| x.vx_seq();
        while me.v.len() > 0
            invariant 0 <= n <= all.len(), me.v@ =~= all.skip(n), out@ == flat(all.take(n).map_values(g)), g == (|x: T| x.vx_seq()),
            decreases me.v.len()
        {
            let x = me.v.remove(0);
            assert(x == all[n]);
            let mut y = x.vx_vec();
            proof { assert(all.take(n + 1).map_values(g).drop_last() =~= all.take(n).map_values(g)); n = n + 1; }
            out.append(&mut y);
        }
        assert(all.take(n) =~= all);
        VIter { v: out }
    }
    pub fn enumerate(self) -> (r: VIter<(usize, T)>)
        ensures r.v@.len() == self.v@.len(), forall|i: int| #![trigger r.v@[i]] #![trigger self.v@[i]] 0 <= i < self.v@.len() ==> r.v@[i] == (i as usize, self.v@[i]) && i <= usize::MAX,
    {
        let mut out: Vec<(usize, T)> = Vec::new();
        let mut me = self;
        let ghost all = me.v@;
        let n = me.v.len();
        while me.v.len() > 0
            invariant out.len() + me.v.len() == all.len(), n == all.len(), me.v@ =~= all.skip(out.len() as int), forall|i: int| 0 <= i < out.len() ==> #[trigger] out@[i] == (i as usize, all[i]),
            decreases me.v.len()
        { let k = n - me.v.len(); let x = me.v.remove(0); out.push((k, x)); }
        VIter { v: out }
    }
    pub fn zip<S: VxSeq>(self, o: S) -> (r: VIter<(T, S::Item)>)
        ensures r.v@.len() == if self.v@.len() < o.vx_seq().len() { self.v@.len() } else { o.vx_seq().len() },
            forall|i: int| #![trigger r.v@[i]] #![trigger self.v@[i]] 0 <= i < r.v@.len() ==> r.v@[i] == (self.v@[i], o.vx_seq()[i]),
    {
        let mut out: Vec<(T, S::Item)> = Vec::new();
        let mut me = self;
        let ghost a = me.v@;
        let ghost b = o.vx_seq();
        let mut ov = o.vx_vec();
        while me.v.len() > 0 && ov.len() > 0
            invariant out.len() <= a.len(), out.len() <= b.len(), me.v@ =~= a.skip(out.len() as int), ov@ =~= b.skip(out.len() as int), forall|i: int| 0 <= i < out.len() ==> #[trigger] out@[i] == (a[i], b[i]),
            decreases me.v.len()
        { let x = me.v.remove(0); let y = ov.remove(0); out.push((x, y)); }
        VIter { v: out }
    }
    pub fn all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.v@.len() ==> #[trigger] f.requires((self.v@[i],)),
        ensures r ==> forall|i: int| 0 <= i < self.v@.len() ==> f.ensures((#[trigger] self.v@[i],), true),
            !r ==> exists|i: int| 0 <= i < self.v@.len() && f.ensures((#[trigger] self.v@[i],), false),
    {
        let mut me = self;
        let ghost all = me.v@;
        let ghost mut n: int = 0;
        while me.v.len() > 0
            invariant all == self.v@, 0 <= n <= all.len(), forall|i: int| 0 <= i < all.len() ==> #[trigger] f.requires((all[i],)), me.v@ =~= all.skip(n), forall|i: int| 0 <= i < n ==> f.ensures((#[trigger] all[i],), true),
            decreases me.v.len()
        { let x = me.v.remove(0); assert(x == all[n]); let y = f(x); if !y { assert(f.ensures((self.v@[n],), false)); return false; } proof { n = n + 1; } }
        true
    }
    pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.v@.len() ==> #[trigger] f.requires((self.v@[i],)),
        ensures !r ==> forall|i: int| 0 <= i < self.v@.len() ==> f.ensures((#[trigger] self.v@[i],), false),
            r ==> exists|i: int| 0 <= i < self.v@.len() && f.ensures((#[trigger] self.v@[i],), true),
    {
        let mut me = self;
        let ghost all = me.v@;
        let ghost mut n: int = 0;
        while me.v.len() > 0
            invariant all == self.v@, 0 <= n <= all.len(), forall|i: int| 0 <= i < all.len() ==> #[trigger] f.requires((all[i],)), me.v@ =~= all.skip(n), forall|i: int| 0 <= i < n ==> f.ensures((#[trigger] all[i],), false),
            decreases me.v.len()
        { let x = me.v.remove(0); assert(x == all[n]); let y = f(x); if y { assert(f.ensures((self.v@[n],), true)); return true; } proof { n = n + 1; } }
        false
    }
#if !ser=1
    pub fn try_fold<B, E, F: Fn(B, T) -> Result<B, E>>(self, init: B, f: F) -> (r: Result<B, E>)
        requires forall|b: B, i: int| 0 <= i < self.v@.len() ==> #[trigger] f.requires((b, self.v@[i])),
        ensures exists|w: Seq<Result<B, E>>| #[trigger] tf_states(w, self.v@, init, r) && forall|i: int| 0 <= i < w.len() - 1 ==> f.ensures((w[i]->Ok_0, #[trigger] self.v@[i]), w[i + 1]),
    {
        let mut me = self;
        let ghost all = me.v@;
        let mut b = init;
        let ghost mut n: int = 0;
        let ghost mut w: Seq<Result<B, E>> = seq![Ok(b)];
        while me.v.len() > 0
            invariant 0 <= n <= all.len(), me.v@ =~= all.skip(n), all == self.v@, w.len() == n + 1, w[0] == Ok::<B, E>(init), w[n] == Ok::<B, E>(b),
                forall|i: int| 0 <= i <= n ==> #[trigger] w[i] is Ok,
                forall|i: int| 0 <= i < n ==> f.ensures((w[i]->Ok_0, #[trigger] all[i]), w[i + 1]),
                forall|b: B, i: int| 0 <= i < all.len() ==> #[trigger] f.requires((b, all[i])),
            decreases me.v.len()
        {
            let x = me.v.remove(0);
            assert(x == all[n]);
            let y = f(b, x);
            let ghost w0 = w;
            proof {
                w = w.push(y);
                assert forall|i: int| 0 <= i < n + 1 implies f.ensures((w[i]->Ok_0, #[trigger] all[i]), w[i + 1]) by { if i < n { assert(w0[i] == w[i] && w0[i + 1] == w[i + 1]); } }
                assert forall|i: int| 0 <= i <= n implies #[trigger] w[i] is Ok by { assert(w[i] == w0[i]); }
            }
            match y {
                Ok(z) => { b = z; proof { n = n + 1; } }
                Err(e) => { proof { assert(tf_states(w, self.v@, init, Err::<B, E>(e))); } return Err(e); }
            }
        }
        proof { assert(tf_states(w, self.v@, init, Ok::<B, E>(b))); }
        Ok(b)
    }
#fi
    pub fn fold<B, F: Fn(B, T) -> B>(self, init: B, f: F) -> (r: B)
        requires forall|b: B, i: int| 0 <= i < self.v@.len() && folded(f, init, self.v@, i, b) ==> #[trigger] f.requires((b, self.v@[i])),
        ensures folded(f, init, self.v@, self.v@.len() as int, r),
    {
        let mut me = self;
        let ghost all = me.v@;
        let ghost mut n: int = 0;
        let mut b = init;
        assert(fold_w(f, init, all, 0, seq![init]));
        while me.v.len() > 0
            invariant 0 <= n <= all.len(), me.v@ =~= all.skip(n), folded(f, init, all, n, b),
                forall|b: B, i: int| 0 <= i < all.len() && folded(f, init, all, i, b) ==> #[trigger] f.requires((b, all[i])),
            decreases me.v.len()
        {
            let x = me.v.remove(0); assert(x == all[n]);
            let ghost b0 = b;
            b = f(b, x);
            proof { let w = choose|w: Seq<B>| fold_w(f, init, all, n, w) && w[n] == b0; let w2 = w.push(b); assert(fold_w(f, init, all, n + 1, w2)); n = n + 1; }
        }
        b
    }
    pub fn collect<C: VxFrom<T>>(self) -> (r: C) ensures C::vx_from_spec(self.v@, r) { C::vx_from(self.v) }
    pub fn count(self) -> (r: usize) ensures r == self.v@.len() { self.v.len() }
    pub fn last(self) -> (r: Option<T>) ensures self.v@.len() == 0 ==> r is None, self.v@.len() > 0 ==> r == Some(self.v@.last()) { let mut v = self.v; v.pop() }
}
/// the values an accumulator takes while try_fold runs
pub open spec fn tf_states<B, E, T>(w: Seq<Result<B, E>>, s: Seq<T>, init: B, r: Result<B, E>) -> bool {
    0 < w.len() <= s.len() + 1 && w[0] == Ok::<B, E>(init) && w.last() == r && (r is Ok ==> w.len() == s.len() + 1) && forall|i: int| 0 <= i < w.len() - 1 ==> #[trigger] w[i] is Ok
}
pub open spec fn fold_w<B, T, F: Fn(B, T) -> B>(f: F, init: B, s: Seq<T>, n: int, w: Seq<B>) -> bool {
    w.len() == n + 1 && w[0] == init && forall|i: int| #![trigger w[i]] 0 <= i < n ==> f.ensures((w[i], s[i]), w[i + 1])
}
pub open spec fn folded<B, T, F: Fn(B, T) -> B>(f: F, init: B, s: Seq<T>, n: int, r: B) -> bool {
    exists|w: Seq<B>| #[trigger] fold_w(f, init, s, n, w) && w[n] == r
}
/// an invariant of every step holds of the result
pub proof fn lemma_fold<B, T, F: Fn(B, T) -> B>(f: F, init: B, s: Seq<T>, n: int, r: B, inv: spec_fn(int, B) -> bool)
    requires 0 <= n <= s.len(), folded(f, init, s, n, r), inv(0, init),
        forall|i: int, b: B, o: B| 0 <= i < s.len() && inv(i, b) && #[trigger] f.ensures((b, s[i]), o) ==> inv(i + 1, o),
    ensures inv(n, r),
{
    let w = choose|w: Seq<B>| #[trigger] fold_w(f, init, s, n, w) && w[n] == r;
    lemma_fold_w(f, init, s, n, w, n, inv);
}
pub proof fn lemma_fold_w<B, T, F: Fn(B, T) -> B>(f: F, init: B, s: Seq<T>, n: int, w: Seq<B>, k: int, inv: spec_fn(int, B) -> bool)
    requires 0 <= k <= n <= s.len(), fold_w(f, init, s, n, w), inv(0, init),
        forall|i: int, b: B, o: B| 0 <= i < s.len() && inv(i, b) && #[trigger] f.ensures((b, s[i]), o) ==> inv(i + 1, o),
    ensures inv(k, w[k]),
    decreases k,
{ if k > 0 { lemma_fold_w(f, init, s, n, w, k - 1, inv); assert(f.ensures((w[k - 1], s[k - 1]), w[k - 1 + 1])); } }

// ---- ranges ----
pub trait VxStep: Sized + Copy { spec fn vx_i(self) -> int; spec fn vx_of(i: int) -> Self; proof fn vx_id(x: Self) ensures Self::vx_of(x.vx_i()) == x; fn vx_lt(self, o: Self) -> (r: bool) ensures r == (self.vx_i() < o.vx_i());
  /// self + n, or None when that is not less than hi (or would not fit)
  fn vx_add(self, n: usize, hi: Self) -> (r: Option<Self>) ensures match r { Some(x) => x.vx_i() == self.vx_i() + n && x.vx_i() < hi.vx_i(), None => self.vx_i() + n >= hi.vx_i() }; }
impl VxStep for i128 { open spec fn vx_i(self) -> int { self as int } open spec fn vx_of(i: int) -> i128 { i as i128 } proof fn vx_id(x: i128) {} fn vx_lt(self, o: i128) -> (r: bool) { self < o }
  fn vx_add(self, n: usize, hi: i128) -> (r: Option<i128>) { match self.checked_add(n as i128) { Some(x) => if x < hi { Some(x) } else { None }, None => None } } }
impl VxStep for i64 { open spec fn vx_i(self) -> int { self as int } open spec fn vx_of(i: int) -> i64 { i as i64 } proof fn vx_id(x: i64) {} fn vx_lt(self, o: i64) -> (r: bool) { self < o }
  fn vx_add(self, n: usize, hi: i64) -> (r: Option<i64>) { let x = self as i128 + n as i128; if x < hi as i128 { Some(x as i64) } else { None } } }
impl VxStep for usize { open spec fn vx_i(self) -> int { self as int } open spec fn vx_of(i: int) -> usize { i as usize } proof fn vx_id(x: usize) {} fn vx_lt(self, o: usize) -> (r: bool) { self < o }
  fn vx_add(self, n: usize, hi: usize) -> (r: Option<usize>) { match self.checked_add(n) { Some(x) => if x < hi { Some(x) } else { None }, None => None } } }
pub struct VxRange<T> { pub lo: T, pub hi: T }
pub fn vx_range<T: VxStep>(lo: T, hi: T) -> (r: VxRange<T>) ensures r.lo == lo, r.hi == hi { VxRange { lo, hi } }

/// the items of lo, lo+n, lo+2n, ... below hi
pub open spec fn is_steps(lo: int, hi: int, n: int, s: Seq<int>) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == lo + k * n
    &&& forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] < hi
    &&& lo + s.len() * n >= hi
}
impl<T: VxStep> VxRange<T> {
    pub fn step_by(self, n: usize) -> (r: VIter<T>)
        requires n > 0,
        ensures is_steps(self.lo.vx_i(), self.hi.vx_i(), n as int, r.v@.map_values(|x: T| x.vx_i())),
    {
        let mut out: Vec<T> = Vec::new();
        if self.lo.vx_lt(self.hi) {
            let mut at = self.lo;
            assert(0 * n == 0) by (nonlinear_arith);
            loop
                invariant_except_break
                    at.vx_i() == self.lo.vx_i() + out@.len() * n, at.vx_i() < self.hi.vx_i(),
                invariant
                    n > 0,
                    forall|k: int| 0 <= k < out@.len() ==> #[trigger] out@[k].vx_i() == self.lo.vx_i() + k * n,
                    forall|k: int| 0 <= k < out@.len() ==> #[trigger] out@[k].vx_i() < self.hi.vx_i(),
                ensures
                    forall|k: int| 0 <= k < out@.len() ==> #[trigger] out@[k].vx_i() == self.lo.vx_i() + k * n,
                    forall|k: int| 0 <= k < out@.len() ==> #[trigger] out@[k].vx_i() < self.hi.vx_i(),
                    self.lo.vx_i() + out@.len() * n >= self.hi.vx_i(),
                decreases self.hi.vx_i() - at.vx_i()
            {
                let ghost m = out@.len() as int;
                out.push(at);
                proof { assert((m + 1) * n == m * n + n) by (nonlinear_arith); }
                match at.vx_add(n, self.hi) { Some(x) => { at = x; } None => { break; } }
            }
        }
        VIter { v: out }
    }
}
impl<T: VxStep> VxSeq for VxRange<T> { type Item = T;
    open spec fn vx_seq(self) -> Seq<T> { range_seq(self.lo, self.hi) }
    fn vx_vec(self) -> (r: Vec<T>) {
        let mut out: Vec<T> = Vec::new();
        if self.lo.vx_lt(self.hi) {
            let mut at = self.lo;
            loop
                invariant_except_break at.vx_i() == self.lo.vx_i() + out@.len(), at.vx_i() < self.hi.vx_i(), out@ =~= range_seq(self.lo, self.hi).take(out@.len() as int),
                ensures out@ =~= range_seq(self.lo, self.hi),
                decreases self.hi.vx_i() - at.vx_i()
            {
                proof { T::vx_id(at); }
                out.push(at);
                match at.vx_add(1, self.hi) { Some(x) => { at = x; } None => { break; } }
            }
        }
        out
    } }
/// lo, lo + 1, ... below hi
pub open spec fn range_seq<T: VxStep>(lo: T, hi: T) -> Seq<T> {
    Seq::new(if lo.vx_i() < hi.vx_i() { (hi.vx_i() - lo.vx_i()) as nat } else { 0 }, |k: int| T::vx_of(lo.vx_i() + k))
}

// ---- Option and Result methods, with their std meaning ----
pub trait VxOpt<T>: Sized {
    spec fn vx_o(self) -> Option<T>;
    fn vx_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool)
        requires self.vx_o() is Some ==> f.requires((self.vx_o().unwrap(),)),
        ensures match self.vx_o() { None => r == false, Some(x) => f.ensures((x,), r) };
    fn vx_map_or<U, F: FnOnce(T) -> U>(self, u: U, f: F) -> (r: U)
        requires self.vx_o() is Some ==> f.requires((self.vx_o().unwrap(),)),
        ensures match self.vx_o() { None => r == u, Some(x) => f.ensures((x,), r) };
    fn vx_ok_or_else<E, F: FnOnce() -> E>(self, f: F) -> (r: Result<T, E>)
        requires self.vx_o() is None ==> f.requires(()),
        ensures match self.vx_o() { None => r is Err && f.ensures((), r->Err_0), Some(x) => r == Ok::<T, E>(x) };
    fn vx_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> (r: T)
        requires self.vx_o() is None ==> f.requires(()),
        ensures match self.vx_o() { None => f.ensures((), r), Some(x) => r == x };
}
impl<T> VxOpt<T> for Option<T> {
    open spec fn vx_o(self) -> Option<T> { self }
    fn vx_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) { match self { None => false, Some(x) => f(x) } }
    fn vx_map_or<U, F: FnOnce(T) -> U>(self, u: U, f: F) -> (r: U) { match self { None => u, Some(x) => f(x) } }
    fn vx_ok_or_else<E, F: FnOnce() -> E>(self, f: F) -> (r: Result<T, E>) { match self { None => Err(f()), Some(x) => Ok(x) } }
    fn vx_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> (r: T) { match self { None => f(), Some(x) => x } }
}
pub trait VxRes<T, E>: Sized {
    spec fn vx_r(self) -> Result<T, E>;
    fn vx_map_err<G, F: FnOnce(E) -> G>(self, f: F) -> (r: Result<T, G>)
        requires self.vx_r() is Err ==> f.requires((self.vx_r()->Err_0,)),
        ensures match self.vx_r() { Ok(x) => r == Ok::<T, G>(x), Err(e) => r is Err && f.ensures((e,), r->Err_0) };
}
impl<T, E> VxRes<T, E> for Result<T, E> {
    open spec fn vx_r(self) -> Result<T, E> { self }
    fn vx_map_err<G, F: FnOnce(E) -> G>(self, f: F) -> (r: Result<T, G>) { match self { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
}

pub assume_specification [i64::checked_abs] (_0: i64) -> (r: Option<i64>)
    ensures _0 == i64::MIN ==> r is None, _0 != i64::MIN ==> r == Some(if _0 < 0 { (-_0) as i64 } else { _0 });
pub assume_specification [i64::unsigned_abs] (_0: i64) -> (r: u64)
    ensures r == if _0 < 0 { -_0 } else { _0 as int };
pub assume_specification [i64::checked_neg] (_0: i64) -> (r: Option<i64>)
    ensures _0 == i64::MIN ==> r is None, _0 != i64::MIN ==> r == Some((-_0) as i64);
// ---- strings ----
pub trait VxStr { spec fn vx_s(&self) -> Seq<char>; fn vx_to_owned(&self) -> (r: String) ensures r@ == self.vx_s(); }
impl VxStr for str { open spec fn vx_s(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) { self.to_owned() } }
impl VxStr for String { open spec fn vx_s(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) { self.to_owned() } }
#[verifier::external_body]
pub fn vx_string_from(s: &str) -> (r: String) ensures r@ == s@ { String::from(s) }
#[verifier::external_body]
pub fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
