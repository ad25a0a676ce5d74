#props P03 P08 P18
#fn ast.rs Node::new_child_member
@ret r
@spec
    ensures node_view(r) == (SNode { p: p_key(loc_view(self.location), loc@), v: *value }), *r.value == *value,
@tail
    proof { assert(vx_t.location@ =~= p_key(loc_view(self.location), loc@)); }
#end
#fn ast.rs Node::new_child_element
@ret r
@spec
    ensures node_view(r) == (SNode { p: p_idx(loc_view(self.location), loc as int), v: *value }), *r.value == *value,
@tail
    proof { assert(vx_t.location@ =~= p_idx(loc_view(self.location), loc as int)); }
#end
#include slice_vec.vx
#props P03 P08 P18 P21
#fn ast.rs visit
@ret r
@spec
    ensures nodes_view(r@) =~= descend(node_view(*node)),
    decreases *node.value,
@loop 0
    invariant
        *node.value == Value::Object(*obj), vx_all0.len() == obj.e@.len(),
        forall|i: int| #![trigger vx_all0[i]] 0 <= i < vx_all0.len() ==> *vx_all0[i].0 == obj.e@[i].0 && *vx_all0[i].1 == obj.e@[i].1,
        nodes_view(nodes@) =~= seq![node_view(*node)] + flat(descend_obj(node_view(*node).p, *obj).take(vx_n0)),
@loopentry 0
    let ghost before = nodes@;
    proof { lemma_flat_take(descend_obj(node_view(*node).p, *obj), vx_n0 - 1); assert(*v == obj.e@[vx_n0 - 1].1); assert(node.value->Object_0 == *obj); assert(decreases_to!(*node.value => *obj)); assert(decreases_to!(*obj => obj.e)); assert(decreases_to!(obj.e => obj.e@[vx_n0 - 1])); assert(decreases_to!(*node.value => *v)); }
@loopexit 0
    proof { assert(nodes_view(nodes@) =~= nodes_view(before) + descend(SNode { p: p_key(node_view(*node).p, k@), v: *v })); }
@loopdone 0
    proof { assert(descend_obj(node_view(*node).p, *obj).take(vx_n0) =~= descend_obj(node_view(*node).p, *obj)); }
@loop 1
    invariant
        *node.value == Value::Array(*arr), vx_all1.len() == arr@.len(),
        forall|i: int| #![trigger vx_all1[i]] 0 <= i < vx_all1.len() ==> vx_all1[i].0 == i && *vx_all1[i].1 == arr@[i],
        nodes_view(nodes@) =~= seq![node_view(*node)] + flat(descend_arr(node_view(*node).p, *arr).take(vx_n1)),
@loopentry 1
    let ghost before = nodes@;
    proof { lemma_flat_take(descend_arr(node_view(*node).p, *arr), vx_n1 - 1); assert(*e == arr@[vx_n1 - 1]); assert(node.value->Array_0 == *arr); assert(decreases_to!(*node.value => *arr)); assert(decreases_to!(*arr => arr@[vx_n1 - 1])); assert(decreases_to!(*node.value => *e)); }
@loopexit 1
    proof { assert(nodes_view(nodes@) =~= nodes_view(before) + descend(SNode { p: p_idx(node_view(*node).p, i as int), v: *e })); }
@loopdone 1
    proof { assert(descend_arr(node_view(*node).p, *arr).take(vx_n1) =~= descend_arr(node_view(*node).p, *arr)); }
#end
#props P17
#include singular_q.vx
#props P01 P02 P03 P05 P08 P18 P19 P21
#fn ast.rs Selector::resolve
@ret r
@spec
    requires wt_sel(*self), env_ok(*context.env),
    ensures r is Ok, nodes_view(r->Ok_0@) =~= sel_nodes(*self, node_view(*node), *context.root),
    decreases *self, 0int,
@entry
    let ghost here = node_view(*node);
    let ghost root = *context.root;
@cast usize vx_i64_as_usize
@closure 0
|$0: (i64, &'a Value)| -> (o: Node<'a>)
    requires $0.0 >= 0
    ensures node_view(o) == (SNode { p: p_idx(here.p, $0.0 as int), v: *$0.1 })
@closure 1
|$0: (usize, &'a Value)| -> (o: Node<'a>)
    ensures node_view(o) == (SNode { p: p_idx(here.p, $0.0 as int), v: *$0.1 })
@closure 2
|$0: (&'a String, &'a Value)| -> (o: Node<'a>)
    ensures node_view(o) == (SNode { p: p_key(here.p, $0.0@), v: *$0.1 })
@closure 3
|$0: (usize, &'a Value)| -> (o: Result<(usize, &'a Value, FilterExpressionResult<'_>), JSONPathError>)
    ensures o is Ok, o->Ok_0.0 == $0.0, o->Ok_0.1 == $0.1, truth(res_view(o->Ok_0.2)) == truth(eval(**expression, root, *$0.1))
@closure 4
|$0: FilterExpressionResult<'_>| -> (o: (usize, &'a Value, FilterExpressionResult<'_>))
    ensures o == (i, v, $0)
@closure 5
|$0: &(usize, &'a Value, FilterExpressionResult<'_>)| -> (o: bool)
    ensures o == truth(res_view($0.2))
@closure 6
|$0: (usize, &'a Value, FilterExpressionResult<'_>)| -> (o: Node<'a>)
    ensures node_view(o) == (SNode { p: p_idx(here.p, $0.0 as int), v: *$0.1 })
@closure 7
|$0: (&'a String, &'a Value)| -> (o: Result<(&'a String, &'a Value, FilterExpressionResult<'_>), JSONPathError>)
    ensures o is Ok, o->Ok_0.0 == $0.0, o->Ok_0.1 == $0.1, truth(res_view(o->Ok_0.2)) == truth(eval(**expression, root, *$0.1))
@closure 8
|$0: FilterExpressionResult<'_>| -> (o: (&'a String, &'a Value, FilterExpressionResult<'_>))
    ensures o == (k, v, $0)
@closure 9
|$0: &(&'a String, &'a Value, FilterExpressionResult<'_>)| -> (o: bool)
    ensures o == truth(res_view($0.2))
@closure 10
|$0: (&'a String, &'a Value, FilterExpressionResult<'_>)| -> (o: Node<'a>)
    ensures node_view(o) == (SNode { p: p_key(here.p, $0.0@), v: *$0.1 })
@arm Value :: Array (arr) #1 => chain
    proof {
        let want = filter_bits(**expression, here, root);
        let b = choose|b: Seq<bool>| b.len() == c3.v@.len() && (forall|i: int| 0 <= i < b.len() ==> b[i] == truth(res_view((#[trigger] c3.v@[i])->Ok_0.2))) && ok_vals(c4.v@) == keep(ok_vals(c3.v@), b);
        assert(b =~= want);
        lemma_keep_map(ok_vals(c3.v@), children(here), b, |x: (usize, &'a Value, FilterExpressionResult)| SNode { p: p_idx(here.p, x.0 as int), v: *x.1 });
        lemma_collect_ok(c5.v@);
    }
@arm Value :: Object (obj) #1 => chain
    proof {
        let want = filter_bits(**expression, here, root);
        let b = choose|b: Seq<bool>| b.len() == c2.v@.len() && (forall|i: int| 0 <= i < b.len() ==> b[i] == truth(res_view((#[trigger] c2.v@[i])->Ok_0.2))) && ok_vals(c3.v@) == keep(ok_vals(c2.v@), b);
        assert(b =~= want);
        lemma_keep_map(ok_vals(c2.v@), children(here), b, |x: (&'a String, &'a Value, FilterExpressionResult)| SNode { p: p_key(here.p, x.0@), v: *x.1 });
        lemma_collect_ok(c4.v@);
    }
#end
#props P03 P08 P18 P21
#fn ast.rs Segment::resolve
@ret r
@spec
    requires wt_seg(*self), env_ok(*context.env),
    ensures r is Ok, nodes_view(r->Ok_0@) =~= seg_nodes(*self, nodes_view(nodes@), *context.root),
    decreases *self, 2int,
@entry
    let ghost root = *context.root;
@closure 0
|$0: &Node<'a>| -> (o: VIter<Result<NodeList<'a>, JSONPathError>>)
    ensures o.v@.len() == selectors@.len(), forall|j: int| 0 <= j < selectors@.len() ==> (#[trigger] o.v@[j]) is Ok && nodes_view(o.v@[j]->Ok_0@) == sel_nodes(selectors@[j], node_view(*$0), root)
@closure 1
|$0: &Selector| -> (o: Result<NodeList<'a>, JSONPathError>)
    requires wt_sel(*$0), decreases_to!(*self => *$0)
    ensures o is Ok, nodes_view(o->Ok_0@) == sel_nodes(*$0, node_view(*node), root)
@closure 2
|$0: &Node<'a>| -> (o: NodeList<'a>)
    ensures nodes_view(o@) == descend(node_view(*$0))
@closure 3
|$0: Node<'a>| -> (o: VIter<Result<NodeList<'a>, JSONPathError>>)
    ensures o.v@.len() == selectors@.len(), forall|j: int| 0 <= j < selectors@.len() ==> (#[trigger] o.v@[j]) is Ok && nodes_view(o.v@[j]->Ok_0@) == sel_nodes(selectors@[j], node_view($0), root)
@closure 4
|$0: &Selector| -> (o: Result<NodeList<'a>, JSONPathError>)
    requires wt_sel(*$0), decreases_to!(*self => *$0)
    ensures o is Ok, nodes_view(o->Ok_0@) == sel_nodes(*$0, node_view(node), root)
@arm Segment :: Child { selectors } => chain
    proof {
        let x = c2m.v@.map_values(|x: VIter<Result<NodeList<'a>, JSONPathError>>| x.vx_seq());
        lemma_child(*selectors, x, nodes_view(nodes@), root);
        lemma_collect_ok(c3.v@);
    }
@arm Segment :: Recursive { selectors } => chain
    proof {
        let nv = |n: Node<'a>| node_view(n);
        let w = c2m.v@.map_values(|x: NodeList<'a>| x.vx_seq());
        lemma_flat_map(w, nv);
        assert(w.map_values(|x: Seq<Node<'a>>| x.map_values(nv)) =~= descend_each(nodes_view(nodes@)));
        let x = c3m.v@.map_values(|x: VIter<Result<NodeList<'a>, JSONPathError>>| x.vx_seq());
        lemma_child(*selectors, x, nodes_view(c2.v@), root);
        lemma_desc_all(*selectors, nodes_view(nodes@), root);
        lemma_collect_ok(c4.v@);
    }
#end
#props P03 P05 P08 P18 P21
#fn ast.rs Query::find
@ret r
@spec
    requires wt_query(*self), env_ok(*env),
    ensures r is Ok, nodes_view(r->Ok_0@) == query_nodes(*self, *value, *value),
    decreases *self, 1int,
#end
#fn ast.rs Query::find_from
@ret r
@spec
    requires wt_query(*self), env_ok(*context.env),
    ensures r is Ok, nodes_view(r->Ok_0@) == query_nodes(*self, *value, *context.root),
    decreases *self, 0int,
@closure 0
|$0: NodeList<'a>, $1: &Segment| -> (o: Result<NodeList<'a>, JSONPathError>)
    requires wt_seg(*$1), decreases_to!(self => $1)
    ensures o is Ok, nodes_view(o->Ok_0@) == seg_nodes(*$1, nodes_view($0@), *context.root)
@tail => chain
    proof {
        let root = *context.root;
        let inv = |i: int, l: NodeList<'a>| nodes_view(l@) == segs_nodes(self.segments, i, *value, root);
        assert(nodes_view(c2i@) =~= seq![start_node(*value)]);
        if c2 is Ok { lemma_tfold(c2f, c2i, c1.v@, c1.v@.len() as int, c2->Ok_0, inv); }
    }
#end
#fn ast.rs FilterExpression::evaluate
@ret r
@spec
    requires wt(*self), env_ok(*context.env),
    ensures r is Ok, res_view(r->Ok_0) == eval(*self, *context.root, *current),
    decreases *self, 0int,
@entry
    let ghost root = *context.root;
@arm FilterExpression :: Comparison { left , operator , right , } => entry
    proof { lemma_few(**left, root, *current); lemma_few(**right, root, *current); }
@closure 0
|$0: FilterExpressionResult<'a>| -> (o: FilterExpressionResult<'a>)
    ensures res_view(o) == SRes::Bool(!truth(res_view($0)))
@closure 1
|| -> (o: JSONPathError)
@closure 2
|$0: &FilterExpression| -> (o: Result<FilterExpressionResult<'a>, JSONPathError>)
    requires wt(*$0), decreases_to!(*self => *$0)
    ensures o is Ok, res_view(o->Ok_0) == eval(*$0, root, *current)
@closure 3
|$0: (usize, Result<FilterExpressionResult<'a>, JSONPathError>)| -> (o: Result<FilterExpressionResult<'a>, JSONPathError>)
    requires $0.0 < param_tys(name@).len(), $0.1 is Ok
    ensures o is Ok, res_view(o->Ok_0) == arg_as(param_tys(name@)[$0.0 as int], res_view($0.1->Ok_0))
@wrap let _args
    proof { lemma_collect_ok(c4.v@); assert(args_view(ok_vals(c4.v@)) =~= eval_args(name@, *args, root, *current)); }
#end
#props P03 P08 P18 P21
#fn ast.rs Query::find_loop
@ret r
@spec
    requires wt_query(*self), env_ok(*env),
    ensures r is Ok, nodes_view(r->Ok_0@) == query_nodes(*self, *value, *value),
@loop 0
    invariant
        wt_query(*self), env_ok(*context.env), *context.root == *value, vx_all0.len() == self.segments@.len(),
        forall|i: int| #![trigger vx_all0[i]] 0 <= i < vx_all0.len() ==> *vx_all0[i] == self.segments@[i],
        nodes_view(nodes@) == segs_nodes(self.segments, vx_n0, *value, *value),
@loopbefore 0
    proof { assert(nodes_view(nodes@) =~= seq![start_node(*value)]); }
@loopentry 0
    proof { assert(*segment == self.segments@[vx_n0 - 1]); }
#end
#fn ast.rs Segment::resolve_loop
@ret r
@spec
    requires wt_seg(*self), env_ok(*context.env),
    ensures r is Ok, nodes_view(r->Ok_0@) =~= seg_nodes(*self, nodes_view(nodes@), *context.root),
    decreases *self, 2int,
@entry
    let ghost root = *context.root;
    let ghost nv = nodes_view(nodes@);
@loopbefore 0
    proof { assert(flat(child_parts(*selectors, nv, root).take(0)) =~= Seq::empty()); }
@loop 0
    invariant
        wt_sels(*selectors), env_ok(*context.env), root == *context.root, vx_all0.len() == nodes@.len(), nv == nodes_view(nodes@),
        forall|i: int| #![trigger vx_all0[i]] 0 <= i < vx_all0.len() ==> *vx_all0[i] == nodes@[i],
        nodes_view(_nodes@) =~= flat(child_parts(*selectors, nv, root).take(vx_n0)),
@loopentry 0
    let ghost o0 = nodes_view(_nodes@);
    let ghost parts = sels_parts(*selectors, node_view(*node), root);
    proof { lemma_flat_take(child_parts(*selectors, nv, root), vx_n0 - 1); assert(nv[vx_n0 - 1] == node_view(*node)); assert(flat(parts.take(0)) =~= Seq::empty()); }
@loop 1
    invariant
        wt_sels(*selectors), env_ok(*context.env), root == *context.root, vx_all1.len() == selectors@.len(), parts == sels_parts(*selectors, node_view(*node), root),
        forall|i: int| #![trigger vx_all1[i]] 0 <= i < vx_all1.len() ==> *vx_all1[i] == selectors@[i],
        nodes_view(_nodes@) =~= o0 + flat(parts.take(vx_n1)),
@loopentry 1
    let ghost b1 = nodes_view(_nodes@);
    proof { lemma_flat_take(parts, vx_n1 - 1); assert(*selector == selectors@[vx_n1 - 1]); }
@loopexit 1
    proof { assert(nodes_view(_nodes@) =~= b1 + parts[vx_n1 - 1]); }
@loopdone 1
    proof { assert(parts.take(vx_n1) =~= parts); }
@loopdone 0
    proof { assert(child_parts(*selectors, nv, root).take(vx_n0) =~= child_parts(*selectors, nv, root)); }
@loopbefore 2
    proof { assert(flat(desc_parts(*selectors, nv, root).take(0)) =~= Seq::empty()); }
@loop 2
    invariant
        wt_sels(*selectors), env_ok(*context.env), root == *context.root, vx_all2.len() == nodes@.len(), nv == nodes_view(nodes@),
        forall|i: int| #![trigger vx_all2[i]] 0 <= i < vx_all2.len() ==> *vx_all2[i] == nodes@[i],
        nodes_view(_nodes@) =~= flat(desc_parts(*selectors, nv, root).take(vx_n2)),
@loopentry 2
    let ghost o2 = nodes_view(_nodes@);
    let ghost dn = descend(node_view(*node));
    let ghost cp = child_parts(*selectors, dn, root);
    proof { lemma_flat_take(desc_parts(*selectors, nv, root), vx_n2 - 1); assert(nv[vx_n2 - 1] == node_view(*node)); assert(flat(cp.take(0)) =~= Seq::empty()); }
@loop 3
    invariant
        wt_sels(*selectors), env_ok(*context.env), root == *context.root, dn == descend(node_view(*node)), cp == child_parts(*selectors, dn, root), vx_all3.len() == dn.len(),
        forall|i: int| #![trigger vx_all3[i]] 0 <= i < vx_all3.len() ==> node_view(*vx_all3[i]) == dn[i],
        nodes_view(_nodes@) =~= o2 + flat(cp.take(vx_n3)),
@loopentry 3
    let ghost o3 = nodes_view(_nodes@);
    let ghost parts = sels_parts(*selectors, node_view(*_node), root);
    proof { lemma_flat_take(cp, vx_n3 - 1); assert(dn[vx_n3 - 1] == node_view(*_node)); assert(flat(parts.take(0)) =~= Seq::empty()); }
@loop 4
    invariant
        wt_sels(*selectors), env_ok(*context.env), root == *context.root, vx_all4.len() == selectors@.len(), parts == sels_parts(*selectors, node_view(*_node), root),
        forall|i: int| #![trigger vx_all4[i]] 0 <= i < vx_all4.len() ==> *vx_all4[i] == selectors@[i],
        nodes_view(_nodes@) =~= o3 + flat(parts.take(vx_n4)),
@loopentry 4
    let ghost b4 = nodes_view(_nodes@);
    proof { lemma_flat_take(parts, vx_n4 - 1); assert(*selector == selectors@[vx_n4 - 1]); }
@loopexit 4
    proof { assert(nodes_view(_nodes@) =~= b4 + parts[vx_n4 - 1]); }
@loopdone 4
    proof { assert(parts.take(vx_n4) =~= parts); }
@loopdone 3
    proof { assert(cp.take(vx_n3) =~= cp); }
@loopdone 2
    proof { assert(desc_parts(*selectors, nv, root).take(vx_n2) =~= desc_parts(*selectors, nv, root)); }
#end
#fn ast.rs Selector::resolve_loop
@ret r
@spec
    requires wt_sel(*self), env_ok(*context.env),
    ensures r is Ok, nodes_view(r->Ok_0@) =~= sel_nodes(*self, node_view(*node), *context.root),
    decreases *self, 0int,
@cast usize vx_i64_as_usize
@entry
    let ghost here = node_view(*node);
    let ghost root = *context.root;
@loopbefore 0
    let ghost ix = slice_idx(array@.len() as int, *start, *stop, *step);
@loop 0
    invariant
        here == node_view(*node), picked(vx_all0, ix, array@),
        nodes_view(nodes@) =~= pick(here, array@, ix).take(vx_n0),
@loopentry 0
    let ghost b0 = nodes@;
    proof { assert(vx_all0[vx_n0 - 1].0 == ix[vx_n0 - 1]); }
@loopexit 0
    proof { let x = pick(here, array@, ix); assert(nodes_view(nodes@) =~= nodes_view(b0).push(x[vx_n0 - 1])); assert(x.take(vx_n0) =~= x.take(vx_n0 - 1).push(x[vx_n0 - 1])); }
@loop 1
    invariant
        here == node_view(*node), here.v == Value::Array(*array), vx_all1.len() == array@.len(),
        forall|i: int| #![trigger vx_all1[i]] 0 <= i < vx_all1.len() ==> vx_all1[i].0 == i && *vx_all1[i].1 == array@[i],
        nodes_view(nodes@) =~= children(here).take(vx_n1),
@loopentry 1
    let ghost b1 = nodes@;
@loopexit 1
    proof { let x = children(here); assert(nodes_view(nodes@) =~= nodes_view(b1).push(x[vx_n1 - 1])); assert(x.take(vx_n1) =~= x.take(vx_n1 - 1).push(x[vx_n1 - 1])); }
@loop 2
    invariant
        here == node_view(*node), here.v == Value::Object(*obj), vx_all2.len() == obj.e@.len(),
        forall|i: int| #![trigger vx_all2[i]] 0 <= i < vx_all2.len() ==> *vx_all2[i].0 == obj.e@[i].0 && *vx_all2[i].1 == obj.e@[i].1,
        nodes_view(nodes@) =~= children(here).take(vx_n2),
@loopentry 2
    let ghost b2 = nodes@;
@loopexit 2
    proof { let x = children(here); assert(nodes_view(nodes@) =~= nodes_view(b2).push(x[vx_n2 - 1])); assert(x.take(vx_n2) =~= x.take(vx_n2 - 1).push(x[vx_n2 - 1])); }
@loopbefore 3
    let ghost bits = filter_bits(**expression, here, root);
@loop 3
    invariant
        wt(**expression), env_ok(*context.env), root == *context.root, here == node_view(*node), here.v == Value::Array(*array), vx_all3.len() == array@.len(), bits == filter_bits(**expression, here, root),
        forall|i: int| #![trigger vx_all3[i]] 0 <= i < vx_all3.len() ==> vx_all3[i].0 == i && *vx_all3[i].1 == array@[i],
        nodes_view(nodes@) =~= keep(children(here).take(vx_n3), bits.take(vx_n3)),
@loopentry 3
    proof { lemma_keep_take(children(here), bits, vx_n3 - 1); }
@loopdone 3
    proof { assert(children(here).take(vx_n3) =~= children(here)); assert(bits.take(vx_n3) =~= bits); }
@loopbefore 4
    let ghost bits = filter_bits(**expression, here, root);
@loop 4
    invariant
        wt(**expression), env_ok(*context.env), root == *context.root, here == node_view(*node), here.v == Value::Object(*obj), vx_all4.len() == obj.e@.len(), bits == filter_bits(**expression, here, root),
        forall|i: int| #![trigger vx_all4[i]] 0 <= i < vx_all4.len() ==> *vx_all4[i].0 == obj.e@[i].0 && *vx_all4[i].1 == obj.e@[i].1,
        nodes_view(nodes@) =~= keep(children(here).take(vx_n4), bits.take(vx_n4)),
@loopentry 4
    proof { lemma_keep_take(children(here), bits, vx_n4 - 1); }
@loopdone 4
    proof { assert(children(here).take(vx_n4) =~= children(here)); assert(bits.take(vx_n4) =~= bits); }
#end
