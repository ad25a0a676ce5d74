pub open spec fn loc_view(l: String) -> SPath { l@ }
pub open spec fn node_view(n: Node) -> SNode { SNode { p: n.location@, v: *n.value } }
pub open spec fn nodes_view(s: Seq<Node>) -> Seq<SNode> { s.map_values(|n: Node| node_view(n)) }
pub open spec fn res_view(r: FilterExpressionResult) -> SRes {
    match r {
        FilterExpressionResult::Bool(b) => SRes::Bool(b), FilterExpressionResult::Int(i) => SRes::Int(i as int), FilterExpressionResult::Float(f) => SRes::Float(f),
        FilterExpressionResult::Null => SRes::Null, FilterExpressionResult::String(s) => SRes::Str(s@), FilterExpressionResult::Array(v) => SRes::Arr(*v),
        FilterExpressionResult::Object(v) => SRes::Obj(*v), FilterExpressionResult::Nodes(n) => SRes::Nodes(nodes_view(n@)), FilterExpressionResult::Nothing => SRes::Nothing,
    }
}
/// at most one node
pub open spec fn few(r: FilterExpressionResult) -> bool { r is Nodes ==> r->Nodes_0@.len() <= 1 }
pub open spec fn sty(t: ExpressionType) -> STy { match t { ExpressionType::Logical => STy::Logical, ExpressionType::Nodes => STy::Nodes, ExpressionType::Value => STy::Val } }
pub mod vx_loc { use super::Node; use vstd::prelude::*;
pub broadcast axiom fn ax_nodes_len(v: Vec<Node>) ensures #[trigger] v@.len() <= i64::MAX;
pub broadcast group group_loc { ax_nodes_len }
}
impl<'a> Node<'a> {
    /// derived: every field is cloned
    #[verifier::external_body] pub fn clone(&self) -> (r: Node<'a>) ensures node_view(r) == node_view(*self), r.value == self.value { unimplemented!() }
}
/// errors are only passed on
pub struct JSONPathError { x: u8 }
impl JSONPathError { #[verifier::external_body] pub fn name(s: String) -> (r: Self) { unimplemented!() } }
// ---- itertools: adapters over results, specified for sequences without errors ----
pub open spec fn all_ok<T, E>(s: Seq<Result<T, E>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok }
pub open spec fn ok_vals<T, E>(s: Seq<Result<T, E>>) -> Seq<T> { Seq::new(s.len(), |i: int| s[i]->Ok_0) }
pub open spec fn ok_seqs<T: VxSeq, E>(s: Seq<Result<T, E>>) -> Seq<Seq<T::Item>> { Seq::new(s.len(), |i: int| s[i]->Ok_0.vx_seq()) }
impl<T, E> VIter<Result<T, E>> {
    pub fn vx_flatten_ok(self) -> (r: VIter<Result<T::Item, E>>) where T: VxSeq
        ensures all_ok(self.v@) ==> all_ok(r.v@) && ok_vals(r.v@) =~= flat(ok_seqs(self.v@)),
    {
        let mut me = self;
        let ghost all = me.v@;
        let ghost mut n: int = 0;
        let mut out: Vec<Result<T::Item, E>> = Vec::new();
        while me.v.len() > 0
            invariant 0 <= n <= all.len(), me.v@ =~= all.skip(n), all_ok(all) ==> all_ok(out@) && ok_vals(out@) =~= flat(ok_seqs(all.take(n))),
            decreases me.v.len()
        {
            let x = me.v.remove(0);
            let ghost o0 = out@;
            proof { assert(x == all[n]); assert(ok_seqs(all.take(n + 1)).drop_last() =~= ok_seqs(all.take(n))); n = n + 1; }
            match x {
                Err(e) => { out.push(Err(e)); }
                Ok(t) => {
                    let ghost ts = t.vx_seq(); proof { assert(ts.take(0) =~= Seq::empty()); }
                    let mut w = t.vx_vec();
                    let ghost mut k: int = 0;
                    while w.len() > 0
                        invariant 0 <= k <= ts.len(), w@ =~= ts.skip(k), all_ok(o0) ==> all_ok(out@) && ok_vals(out@) =~= ok_vals(o0) + ts.take(k),
                        decreases w.len()
                    { let y = w.remove(0); let ghost o1 = out@; proof { assert(y == ts[k]); k = k + 1; } out.push(Ok(y)); proof { assert(out@ =~= o1.push(Ok(y))); if all_ok(o0) { assert(ok_vals(out@) =~= ok_vals(o1).push(y)); assert(ts.take(k) =~= ts.take(k - 1).push(y)); } } }
                    proof { assert(ts.take(k) =~= ts); }
                }
            }
        }
        proof { assert(all.take(n) =~= all); }
        VIter { v: out }
    }
    pub fn vx_filter_ok<F: Fn(&T) -> bool>(self, f: F) -> (r: VIter<Result<T, E>>)
        requires forall|i: int| 0 <= i < self.v@.len() && (#[trigger] self.v@[i]) is Ok ==> f.requires((&self.v@[i]->Ok_0,)),
        ensures all_ok(self.v@) ==> all_ok(r.v@) && exists|b: Seq<bool>| b.len() == self.v@.len() && (forall|i: int| 0 <= i < b.len() ==> f.ensures((&(#[trigger] self.v@[i])->Ok_0,), b[i])) && ok_vals(r.v@) =~= keep(ok_vals(self.v@), b),
    {
        let mut me = self;
        let ghost all = me.v@;
        let ghost mut n: int = 0;
        let ghost mut b: Seq<bool> = Seq::empty();
        let mut out: Vec<Result<T, E>> = Vec::new();
        proof { assert(ok_vals(all.take(0)) =~= Seq::empty()); }
        while me.v.len() > 0
            invariant 0 <= n <= all.len(), me.v@ =~= all.skip(n), b.len() == n,
                forall|i: int| 0 <= i < all.len() && (#[trigger] all[i]) is Ok ==> f.requires((&all[i]->Ok_0,)),
                all_ok(all) ==> all_ok(out@) && (forall|i: int| 0 <= i < n ==> f.ensures((&(#[trigger] all[i])->Ok_0,), b[i])) && ok_vals(out@) =~= keep(ok_vals(all.take(n)), b),
            decreases me.v.len()
        {
            let x = me.v.remove(0);
            proof { assert(x == all[n]); assert(ok_vals(all.take(n + 1)).drop_last() =~= ok_vals(all.take(n))); n = n + 1; }
            match x {
                Err(e) => { proof { b = b.push(true); } out.push(Err(e)); }
                Ok(t) => { let k = f(&t); proof { let b0 = b; b = b.push(k); assert(b.drop_last() =~= b0); } if k { out.push(Ok(t)); } }
            }
        }
        proof { assert(all.take(n) =~= all); }
        VIter { v: out }
    }
    pub fn vx_map_ok<U, F: Fn(T) -> U>(self, f: F) -> (r: VIter<Result<U, E>>)
        requires forall|i: int| 0 <= i < self.v@.len() && (#[trigger] self.v@[i]) is Ok ==> f.requires((self.v@[i]->Ok_0,)),
        ensures all_ok(self.v@) ==> all_ok(r.v@) && r.v@.len() == self.v@.len() && forall|i: int| 0 <= i < r.v@.len() ==> f.ensures((self.v@[i]->Ok_0,), (#[trigger] r.v@[i])->Ok_0),
    {
        let mut me = self;
        let ghost all = me.v@;
        let mut out: Vec<Result<U, E>> = Vec::new();
        while me.v.len() > 0
            invariant out@.len() <= all.len(), me.v@ =~= all.skip(out@.len() as int),
                forall|i: int| 0 <= i < all.len() && (#[trigger] all[i]) is Ok ==> f.requires((all[i]->Ok_0,)),
                all_ok(all) ==> all_ok(out@) && forall|i: int| 0 <= i < out@.len() ==> f.ensures((all[i]->Ok_0,), (#[trigger] out@[i])->Ok_0),
            decreases me.v.len()
        {
            let x = me.v.remove(0);
            assert(x == all[out@.len() as int]);
            match x { Err(e) => { out.push(Err(e)); } Ok(t) => { let y = f(t); out.push(Ok(y)); } }
        }
        VIter { v: out }
    }
}
/// without errors, collecting gives the values
pub proof fn lemma_collect_ok<T, E>(s: Seq<Result<T, E>>) requires all_ok(s) ensures oks(s) == Ok::<Seq<T>, E>(ok_vals(s)) { lemma_oks_all(s, ok_vals(s)); }
// try_fold: the accumulators are those of the successful steps
pub open spec fn tfold_w<B, T, E, F: Fn(B, T) -> Result<B, E>>(f: F, init: B, s: Seq<T>, n: int, w: Seq<B>) -> bool {
    w.len() == n + 1 && w[0] == init && forall|i: int| #![trigger w[i]] 0 <= i < n ==> f.ensures((w[i], s[i]), Ok(w[i + 1]))
}
pub open spec fn tfolded<B, T, E, F: Fn(B, T) -> Result<B, E>>(f: F, init: B, s: Seq<T>, n: int, b: B) -> bool { exists|w: Seq<B>| #[trigger] tfold_w(f, init, s, n, w) && w[n] == b }
impl<T> VIter<T> {
    pub fn try_fold<B, E, F: Fn(B, T) -> Result<B, E>>(self, init: B, f: F) -> (r: Result<B, E>)
        requires forall|b: B, i: int| 0 <= i < self.v@.len() && tfolded(f, init, self.v@, i, b) ==> #[trigger] f.requires((b, self.v@[i])),
        ensures match r {
            Ok(b) => tfolded(f, init, self.v@, self.v@.len() as int, b),
            Err(e) => exists|b: B, i: int| 0 <= i < self.v@.len() && tfolded(f, init, self.v@, i, b) && #[trigger] f.ensures((b, self.v@[i]), Err(e)) },
    {
        let mut me = self;
        let ghost all = me.v@;
        let ghost mut n: int = 0;
        let mut b = init;
        assert(tfold_w(f, init, all, 0, seq![init]));
        while me.v.len() > 0
            invariant 0 <= n <= all.len(), all == self.v@, me.v@ =~= all.skip(n), tfolded(f, init, all, n, b),
                forall|b: B, i: int| 0 <= i < all.len() && tfolded(f, init, all, i, b) ==> #[trigger] f.requires((b, all[i])),
            decreases me.v.len()
        {
            let x = me.v.remove(0); assert(x == all[n]);
            let ghost b0 = b;
            match f(b, x) {
                Ok(c) => { b = c; proof { let w = choose|w: Seq<B>| tfold_w(f, init, all, n, w) && w[n] == b0; let w2 = w.push(b); assert(tfold_w(f, init, all, n + 1, w2)); n = n + 1; } }
                Err(e) => { return Err(e); }
            }
        }
        Ok(b)
    }
}
pub proof fn lemma_tfold<B, T, E, F: Fn(B, T) -> Result<B, E>>(f: F, init: B, s: Seq<T>, n: int, r: B, inv: spec_fn(int, B) -> bool)
    requires 0 <= n <= s.len(), tfolded(f, init, s, n, r), inv(0, init),
        forall|i: int, b: B, o: B| 0 <= i < s.len() && inv(i, b) && #[trigger] f.ensures((b, s[i]), Ok(o)) ==> inv(i + 1, o),
    ensures inv(n, r),
{
    let w = choose|w: Seq<B>| #[trigger] tfold_w(f, init, s, n, w) && w[n] == r;
    lemma_tfold_w(f, init, s, n, w, n, inv);
}
pub proof fn lemma_tfold_w<B, T, E, F: Fn(B, T) -> Result<B, E>>(f: F, init: B, s: Seq<T>, n: int, w: Seq<B>, k: int, inv: spec_fn(int, B) -> bool)
    requires 0 <= k <= n <= s.len(), tfold_w(f, init, s, n, w), inv(0, init),
        forall|i: int, b: B, o: B| 0 <= i < s.len() && inv(i, b) && #[trigger] f.ensures((b, s[i]), Ok(o)) ==> inv(i + 1, o),
    ensures inv(k, w[k]),
    decreases k,
{ if k > 0 { lemma_tfold_w(f, init, s, n, w, k - 1, inv); assert(f.ensures((w[k - 1], s[k - 1]), Ok(w[k - 1 + 1]))); } }
pub proof fn lemma_flat_take<A>(s: Seq<Seq<A>>, n: int)
    requires 0 <= n < s.len(), ensures flat(s.take(n + 1)) =~= flat(s.take(n)) + s[n],
{ assert(s.take(n + 1).drop_last() =~= s.take(n)); }
pub proof fn lemma_keep_take<A>(s: Seq<A>, b: Seq<bool>, n: int)
    requires 0 <= n < s.len(), s.len() == b.len(), ensures keep(s.take(n + 1), b.take(n + 1)) =~= if b[n] { keep(s.take(n), b.take(n)).push(s[n]) } else { keep(s.take(n), b.take(n)) },
{ assert(s.take(n + 1).drop_last() =~= s.take(n)); assert(b.take(n + 1).drop_last() =~= b.take(n)); }
pub proof fn lemma_flat_in<A>(s: Seq<Seq<A>>, p: spec_fn(A) -> bool)
    requires forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s[i].len() ==> p(#[trigger] s[i][j]),
    ensures forall|k: int| 0 <= k < flat(s).len() ==> p(#[trigger] flat(s)[k]),
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d[i].len() implies p(#[trigger] d[i][j]) by { assert(d[i] == s[i]); assert(p(s[i][j])); }
        lemma_flat_in(d, p);
        assert forall|k: int| 0 <= k < flat(s).len() implies p(#[trigger] flat(s)[k]) by {
            if k < flat(d).len() { assert(flat(s)[k] == flat(d)[k]); } else { assert(flat(s)[k] == s[s.len() - 1][k - flat(d).len()]); assert(p(s[s.len() - 1][k - flat(d).len()])); }
        }
    }
}
/// the nodes below all the given ones
pub proof fn lemma_desc_all(sels: Vec<Selector>, ns: Seq<SNode>, root: Value)
    ensures flat(child_parts(sels, flat(descend_each(ns)), root)) =~= flat(desc_parts(sels, ns, root)),
{
    let f = |m: SNode| sels_nodes(sels, m, root);
    let g = |x: Seq<SNode>| x.map_values(f);
    let h = |x: Seq<Seq<SNode>>| flat(x);
    let ds = descend_each(ns);
    let z = ds.map_values(g);
    assert(child_parts(sels, flat(ds), root) =~= flat(ds).map_values(f));
    lemma_flat_map(ds, f);
    lemma_flat_flat(z);
    assert forall|i: int| 0 <= i < ds.len() implies #[trigger] z[i] == child_parts(sels, descend(ns[i]), root) by { assert(z[i] =~= child_parts(sels, descend(ns[i]), root)); }
    assert(z.map_values(h) =~= desc_parts(sels, ns, root));
}
/// lists of lists of results, as the child segment makes them
pub proof fn lemma_child<'a>(sels: Vec<Selector>, x: Seq<Seq<Result<Vec<Node<'a>>, JSONPathError>>>, ns: Seq<SNode>, root: Value)
    requires x.len() == ns.len(),
        forall|i: int| 0 <= i < ns.len() ==> (#[trigger] x[i]).len() == sels@.len(),
        forall|i: int, j: int| 0 <= i < ns.len() && 0 <= j < sels@.len() ==> (#[trigger] x[i][j]) is Ok && nodes_view(x[i][j]->Ok_0@) == sel_nodes(sels@[j], ns[i], root),
    ensures all_ok(flat(x)), nodes_view(flat(ok_seqs(flat(x)))) =~= flat(child_parts(sels, ns, root)),
{
    let p = |r: Result<Vec<Node<'a>>, JSONPathError>| r is Ok;
    lemma_flat_in(x, p);
    assert forall|i: int| 0 <= i < flat(x).len() implies (#[trigger] flat(x)[i]) is Ok by { assert(p(flat(x)[i])); }
    let fv = |r: Result<Vec<Node<'a>>, JSONPathError>| nodes_view(r->Ok_0@);
    let nv = |n: Node<'a>| node_view(n);
    let h = |x: Seq<Seq<SNode>>| flat(x);
    lemma_flat_map(ok_seqs(flat(x)), nv);
    assert(ok_seqs(flat(x)).map_values(|y: Seq<Node<'a>>| y.map_values(nv)) =~= flat(x).map_values(fv));
    lemma_flat_map(x, fv);
    let z = x.map_values(|y: Seq<Result<Vec<Node<'a>>, JSONPathError>>| y.map_values(fv));
    lemma_flat_flat(z);
    assert forall|i: int| 0 <= i < ns.len() implies #[trigger] z[i] == sels_parts(sels, ns[i], root) by { assert(z[i] =~= sels_parts(sels, ns[i], root)); }
    assert(z.map_values(h) =~= child_parts(sels, ns, root));
}
