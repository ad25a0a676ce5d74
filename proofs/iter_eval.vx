#props P03 P08 P18
#fn node.rs Node::new_child_member
@ret r
@spec
    ensures node_view(*r) == (SNode { p: p_key(loc_view(self.location), loc@), v: *value }), *r.value == *value,
@tail
    proof { assert(vx_t.location@ =~= p_key(loc_view(self.location), loc@)); }
#end
#fn node.rs Node::new_child_element
@ret r
@spec
    ensures node_view(*r) == (SNode { p: p_idx(loc_view(self.location), loc as int), v: *value }), *r.value == *value,
@tail
    proof { assert(vx_t.location@ =~= p_idx(loc_view(self.location), loc as int)); }
#end
#include slice_vec.vx
#include singular_q.vx
#props P03 P08 P18 P21
#fn segment.rs visit_iter
@ret r
@spec
    ensures r.items@ =~= descend(rc_view(node)),
@callren Box::new vx_boxed
@entry
    proof { lemma_descend(rc_view(node)); }
#end
#fn segment.rs descendants
@ret r
@spec
    ensures r.items@ =~= flat(descend_each(children(rc_view(node)))),
    decreases *node.value,
@callren Box::new vx_boxed
@callren iter::empty vx_empty
@entry
    let ghost here = rc_view(node);
    let ghost whole = rc_value(node);
@closure 0
|$0: (&'v String, &'v Value)| -> (o: VIter<Rc<Node<'v>>>)
    requires decreases_to!(whole => *$0.1)
    ensures nodes_view(o.v@) =~= descend(SNode { p: p_key(here.p, $0.0@), v: *$0.1 })
@closure 1
|$0: (usize, &'v Value)| -> (o: VIter<Rc<Node<'v>>>)
    requires decreases_to!(whole => *$0.1)
    ensures nodes_view(o.v@) =~= descend(SNode { p: p_idx(here.p, $0.0 as int), v: *$0.1 })
@after let child
    proof { lemma_descend(rc_view(child)); }
@after let child
    proof { lemma_descend(rc_view(child)); }
@arm Value :: Object (obj) => chain
    proof {
        let f = |n: Rc<Node<'v>>| node_view(*n);
        let w = c2m.v@.map_values(|x: VIter<Rc<Node<'v>>>| x.vx_seq());
        lemma_flat_map(w, f);
        assert(w.map_values(|x: Seq<Rc<Node<'v>>>| x.map_values(f)) =~= descend_each(children(here)));
    }
@arm Value :: Array (arr) => chain
    proof {
        let f = |n: Rc<Node<'v>>| node_view(*n);
        let w = c3m.v@.map_values(|x: VIter<Rc<Node<'v>>>| x.vx_seq());
        lemma_flat_map(w, f);
        assert(w.map_values(|x: Seq<Rc<Node<'v>>>| x.map_values(f)) =~= descend_each(children(here)));
    }
#end
#props P03 P05 P18 P21
#fn iter.rs ArrayFilterIter::new
@ret r
@spec
    ensures r.env == env, r.root == root, r.expr == expr, r.parent == node, r.it.v@.len() == arr@.len(),
        forall|i: int| #![trigger r.it.v@[i]] 0 <= i < arr@.len() ==> r.it.v@[i].0 == i && *r.it.v@[i].1 == arr@[i],
        wt(expr) && env_ok(*env) ==> r.wf(),
        rc_value(node) == Value::Array(*arr) ==> r.rest() =~= keep(children(rc_view(node)), filter_bits(expr, rc_view(node), *root)),
@entry
    let ghost here = rc_view(node);
    let ghost e = expr;
@tail
    proof {
        if here.v == Value::Array(*arr) {
            assert(arr_cands(here.p, vx_t.it.v@) =~= children(here));
            assert(arr_bits(e, *root, vx_t.it.v@) =~= filter_bits(e, here, *root));
        }
    }
#end
#fn iter.rs ObjectFilterIter::new
@ret r
@spec
    ensures r.env == env, r.root == root, r.expr == expr, r.parent == node, r.it.v@.len() == obj.e@.len(),
        forall|i: int| #![trigger r.it.v@[i]] 0 <= i < obj.e@.len() ==> *r.it.v@[i].0 == obj.e@[i].0 && *r.it.v@[i].1 == obj.e@[i].1,
        wt(expr) && env_ok(*env) ==> r.wf(),
        rc_value(node) == Value::Object(*obj) ==> r.rest() =~= keep(children(rc_view(node)), filter_bits(expr, rc_view(node), *root)),
@entry
    let ghost here = rc_view(node);
    let ghost e = expr;
@tail
    proof {
        if here.v == Value::Object(*obj) {
            assert(obj_cands(here.p, vx_t.it.v@) =~= children(here));
            assert(obj_bits(e, *root, vx_t.it.v@) =~= filter_bits(e, here, *root));
        }
    }
#end
#fn iter.rs ArrayFilterIter<Iterator>::next
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), gave(old(self).rest(), final(self).rest(), r),
@entry
    let ghost all = self.rest();
    let ghost par = rc_view(self.parent);
@loop 0
    invariant_except_break self.wf(), node_view(*self.parent) == par, self.rest() == all, all == old(self).rest(),
    ensures self.wf(), all.len() == 0, self.rest().len() == 0,
    decreases self.it.v@.len(),
@loopentry 0
    let ghost s0 = self.it.v@;
    proof { if s0.len() > 0 {
        let a = arr_cands(par.p, s0); let b = arr_bits(self.expr, *self.root, s0);
        lemma_keep_first(a, b);
        assert(a.skip(1) =~= arr_cands(par.p, s0.skip(1))); assert(b.skip(1) =~= arr_bits(self.expr, *self.root, s0.skip(1)));
    } }
#end
#fn iter.rs ObjectFilterIter<Iterator>::next
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), gave(old(self).rest(), final(self).rest(), r),
@entry
    let ghost all = self.rest();
    let ghost par = rc_view(self.parent);
@loop 0
    invariant_except_break self.wf(), node_view(*self.parent) == par, self.rest() == all, all == old(self).rest(),
    ensures self.wf(), all.len() == 0, self.rest().len() == 0,
    decreases self.it.v@.len(),
@loopentry 0
    let ghost s0 = self.it.v@;
    proof { if s0.len() > 0 {
        let a = obj_cands(par.p, s0); let b = obj_bits(self.expr, *self.root, s0);
        lemma_keep_first(a, b);
        assert(a.skip(1) =~= obj_cands(par.p, s0.skip(1))); assert(b.skip(1) =~= obj_bits(self.expr, *self.root, s0.skip(1)));
    } }
#end
#props P03 P18 P21
#fn iter.rs QueryIter<Iterator>::next
@ret r
@spec
    ensures gave(old(self).rest(), final(self).rest(), r),
#end
#fn iter.rs SelectorIter<Iterator>::next
@ret r
@spec
    ensures gave(old(self).rest(), final(self).rest(), r),
#end
#fn iter.rs SegmentIter<Iterator>::next
@ret r
@spec
    ensures gave(old(self).rest(), final(self).rest(), r),
@callren Box::new vx_boxed
@entry
    let ghost all = self.rest();
@loop 0
    invariant_except_break self.rest() == all, all == old(self).rest(),
    decreases self.selectors.v@.len(),
@loopentry 0
    proof { let s = sel_rests(self.selectors.v@); if s.len() > 0 { lemma_flat_first(s); assert(s.skip(1) =~= sel_rests(self.selectors.v@.skip(1))); } }
#end
#props P01 P02 P03 P05 P08 P18 P21
#fn iter.rs SelectorIter::new
@ret r
@spec
    requires wt_sel(selector), env_ok(*env),
    ensures r.rest() =~= sel_nodes(selector, rc_view(node), *root),
@callren Box::new vx_boxed
@callren iter::empty vx_empty
@cast usize vx_i64_as_usize
@entry
    let ghost here = rc_view(node);
@closure 0
|$0: (i64, &'v Value)| -> (o: Rc<Node<'v>>)
    requires $0.0 >= 0
    ensures node_view(*o) == (SNode { p: p_idx(here.p, $0.0 as int), v: *$0.1 })
@closure 1
|$0: (usize, &'v Value)| -> (o: Rc<Node<'v>>)
    ensures node_view(*o) == (SNode { p: p_idx(here.p, $0.0 as int), v: *$0.1 })
@closure 2
|$0: (&'v String, &'v Value)| -> (o: Rc<Node<'v>>)
    ensures node_view(*o) == (SNode { p: p_key(here.p, $0.0@), v: *$0.1 })
#end
#props P03 P08 P18 P21
#fn iter.rs SegmentIter::new
@ret r
@spec
    requires wt_seg(segment), env_ok(*env), !(segment is Eoi),
    ensures r.rest() =~= seg_nodes(segment, nodes.items@, *root),
@callren Box::new vx_boxed
@callren iter::empty vx_empty
@entry
    let ghost nv = nodes.items@;
@loopbefore 0
    proof { assert(flat(child_parts(*selectors, nv, *root).take(0)) =~= Seq::empty()); assert(flat(sel_rests(its@)) =~= Seq::empty()); }
@loop 0
    invariant
        wt_sels(*selectors), env_ok(*env), nodes_view(vx_all0) == nv, vx_all0.len() == nv.len(),
        flat(sel_rests(its@)) =~= flat(child_parts(*selectors, nv, *root).take(vx_n0)),
@loopentry 0
    let ghost o0 = flat(sel_rests(its@));
    let ghost parts = sels_parts(*selectors, rc_view(node), *root);
    proof { lemma_flat_take(child_parts(*selectors, nv, *root), vx_n0 - 1); assert(nv[vx_n0 - 1] == rc_view(node)); assert(flat(parts.take(0)) =~= Seq::empty()); }
@loop 1
    invariant
        wt_sels(*selectors), env_ok(*env), vx_all1.len() == selectors@.len(), parts == sels_parts(*selectors, rc_view(node), *root),
        forall|i: int| #![trigger vx_all1[i]] 0 <= i < vx_all1.len() ==> *vx_all1[i] == selectors@[i],
        flat(sel_rests(its@)) =~= o0 + flat(parts.take(vx_n1)),
@loopentry 1
    let ghost b1 = its@;
    proof { lemma_flat_take(parts, vx_n1 - 1); assert(*selector == selectors@[vx_n1 - 1]); }
@loopexit 1
    proof { assert(sel_rests(its@).drop_last() =~= sel_rests(b1)); }
@loopdone 1
    proof { assert(parts.take(vx_n1) =~= parts); }
@loopdone 0
    proof { assert(child_parts(*selectors, nv, *root).take(vx_n0) =~= child_parts(*selectors, nv, *root)); }
@loopbefore 2
    proof { assert(flat(desc_parts(*selectors, nv, *root).take(0)) =~= Seq::empty()); assert(flat(sel_rests(its@)) =~= Seq::empty()); }
@loop 2
    invariant
        wt_sels(*selectors), env_ok(*env), nodes_view(vx_all2) == nv, vx_all2.len() == nv.len(),
        flat(sel_rests(its@)) =~= flat(desc_parts(*selectors, nv, *root).take(vx_n2)),
@loopentry 2
    let ghost o2 = flat(sel_rests(its@));
    let ghost dn = descend(rc_view(node));
    let ghost cp = child_parts(*selectors, dn, *root);
    proof { lemma_flat_take(desc_parts(*selectors, nv, *root), vx_n2 - 1); assert(nv[vx_n2 - 1] == rc_view(node)); assert(flat(cp.take(0)) =~= Seq::empty()); }
@loop 3
    invariant
        wt_sels(*selectors), env_ok(*env), dn == nodes_view(vx_all3), cp == child_parts(*selectors, dn, *root), vx_all3.len() == dn.len(),
        flat(sel_rests(its@)) =~= o2 + flat(cp.take(vx_n3)),
@loopentry 3
    let ghost o3 = flat(sel_rests(its@));
    let ghost parts = sels_parts(*selectors, rc_view(_node), *root);
    proof { lemma_flat_take(cp, vx_n3 - 1); assert(dn[vx_n3 - 1] == rc_view(_node)); assert(flat(parts.take(0)) =~= Seq::empty()); }
@loop 4
    invariant
        wt_sels(*selectors), env_ok(*env), vx_all4.len() == selectors@.len(), parts == sels_parts(*selectors, rc_view(_node), *root),
        forall|i: int| #![trigger vx_all4[i]] 0 <= i < vx_all4.len() ==> *vx_all4[i] == selectors@[i],
        flat(sel_rests(its@)) =~= o3 + flat(parts.take(vx_n4)),
@loopentry 4
    let ghost b4 = its@;
    proof { lemma_flat_take(parts, vx_n4 - 1); assert(*selector == selectors@[vx_n4 - 1]); }
@loopexit 4
    proof { assert(sel_rests(its@).drop_last() =~= sel_rests(b4)); }
@loopdone 4
    proof { assert(parts.take(vx_n4) =~= parts); }
@loopdone 3
    proof { assert(cp.take(vx_n3) =~= cp); }
@loopdone 2
    proof { assert(desc_parts(*selectors, nv, *root).take(vx_n2) =~= desc_parts(*selectors, nv, *root)); }
@after let mut its = its.into_iter
    let ghost rs = sel_rests(its.v@);
    proof { if rs.len() > 0 { lemma_flat_first(rs); assert(rs.skip(1) =~= sel_rests(its.v@.skip(1))); } }
#end
#props P03 P05 P08 P18 P21
#set assumed 
#include qiter_new.vx
#fn iter.rs QueryIter::new_from
@ret r
@spec
    requires wt_query(query), env_ok(*env),
    ensures r.rest() == query_nodes(query, *value, *root),
@callren Box::new vx_boxed
@closure 0
|$0: &Segment| -> (o: bool)
    ensures o == !(*$0 is Eoi)
@closure 1
|$0: SegmentIter<'v>, $1: Segment| -> (o: SegmentIter<'v>)
    requires wt_seg($1), !($1 is Eoi)
    ensures o.rest() == seg_nodes($1, $0.rest(), *root)
@wrap let it
    proof {
        let b = choose|b: Seq<bool>| b.len() == c1.v@.len() && (forall|i: int| 0 <= i < b.len() ==> b[i] == !((#[trigger] c1.v@[i]) is Eoi)) && c2.v@ == keep(c1.v@, b);
        lemma_run_keep(c1.v@, b, *value, *root);
        lemma_run(query, c1.v@.len() as int, *value, *root);
        assert(query.segments@.take(c1.v@.len() as int) =~= c1.v@);
        let inv = |i: int, l: SegmentIter<'v>| l.rest() == run(c2.v@.take(i), *value, *root);
        assert(c3i.rest() =~= seq![start_node(*value)]);
        assert forall|i: int, x: SegmentIter<'v>, o: SegmentIter<'v>| 0 <= i < c2.v@.len() && inv(i, x) && #[trigger] c3f.ensures((x, c2.v@[i]), o) implies inv(i + 1, o) by { assert(c2.v@.take(i + 1).drop_last() =~= c2.v@.take(i)); }
        lemma_fold(c3f, c3i, c2.v@, c2.v@.len() as int, c3, inv);
        assert(c2.v@.take(c2.v@.len() as int) =~= c2.v@);
    }
#end
#fn filter.rs FilterExpression::evaluate
@ret r
@spec
    requires wt(*self), env_ok(*env),
    ensures res_view(r) == eval(*self, *root, *current),
    decreases *self, Value::Null, 0int,
@arm FilterExpression :: Comparison { left , operator , right , } => entry
    proof { lemma_few(**left, *root, *current); lemma_few(**right, *root, *current); }
@closure 0
|$0: &'a FilterExpression| -> (o: FilterExpressionResult<'v>)
    requires wt(*$0), decreases_to!(*self => *$0)
    ensures res_view(o) == eval(*$0, *root, *current)
@closure 1
|$0: (usize, FilterExpressionResult<'v>)| -> (o: FilterExpressionResult<'v>)
    requires $0.0 < param_tys(name@).len()
    ensures res_view(o) == arg_as(param_tys(name@)[$0.0 as int], res_view($0.1))
@wrap let _args
    proof { assert(args_view(c4.v@) =~= eval_args(name@, *args, *root, *current)); }
#end
