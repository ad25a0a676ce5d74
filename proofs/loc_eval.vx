#props P03 P08 P18
#fn node.rs Node::new_array_element
@ret r
@spec
    ensures node_view(r) == (SNode { p: p_idx(loc_view(*location), index as int), v: *value }), *r.value == *value,
#end
#fn node.rs Node::new_object_member
@ret r
@spec
    ensures node_view(r) == (SNode { p: p_key(loc_view(*location), name@), v: *value }), *r.value == *value,
#end
#props P01 P03 P18 P21
#fn selector.rs slice
@ret r
@spec
    ensures nodes_view(match r { Some(v) => v@, None => Seq::empty() }) =~= slice_idx(array@.len() as int, start, stop, step).map_values(|i: int| SNode { p: p_idx(loc_view(*location), i), v: array@[i] }),
@loopbefore 0
    let ghost lo = slice_lower(start, stop, step as int, len as int);
    let ghost hi = slice_upper(start, stop, step as int, len as int);
    let ghost ix = vx_all0.map_values(|x: i128| x.vx_i());
    proof { lemma_steps_up(lo, hi, step as int, ix); lemma_steps_up_in(lo, hi, step as int); }
@loop 0
    invariant
        0 <= lo, hi <= array@.len(), array@.len() <= usize::MAX, ix == steps_up(lo, hi, step as int), ix.len() == vx_all0.len(),
        forall|k: int| 0 <= k < ix.len() ==> lo <= #[trigger] ix[k] < hi,
        forall|k: int| 0 <= k < ix.len() ==> #[trigger] ix[k] == vx_all0[k],
        slice@.len() == vx_n0,
        forall|k: int| 0 <= k < vx_n0 ==> node_view(#[trigger] slice@[k]) == (SNode { p: p_idx(loc_view(*location), ix[k]), v: array@[ix[k]] }),
@loopentry 0
    proof { let k = vx_n0 - 1; assert(i == vx_all0[k]); assert(ix[k] == i); assert(lo <= ix[k] < hi); }
@after let mut i = n_start
    let ghost lo = slice_lower(start, stop, step as int, len as int);
    let ghost hi = slice_upper(start, stop, step as int, len as int);
    let ghost mut done: Seq<int> = Seq::empty();
    proof { assert(done + steps_down(lo, i as int, -step) =~= steps_down(lo, hi, -step)); }
@loop 1
    invariant
        step < 0, -1 <= lo, hi < array@.len(), i < array@.len(), n_stop == lo || (n_stop == array@.len() && lo == array@.len() - 1), step >= i64::MIN, hi <= u64::MAX,
        array@.len() <= usize::MAX,
        done + steps_down(lo, i as int, -step) == steps_down(lo, hi, -step),
        slice@.len() == done.len(),
        forall|k: int| 0 <= k < done.len() ==> 0 <= #[trigger] done[k] < array@.len() && node_view(slice@[k]) == (SNode { p: p_idx(loc_view(*location), done[k]), v: array@[done[k]] }),
    decreases gap(n_stop as int, i as int)
@loopentry 1
    let ghost i0 = i as int;
    let ghost done0 = done;
@loopexit 1
    proof {
        done = done.push(i0);
        assert(done0 + steps_down(lo, i0, -step) =~= done + steps_down(lo, i as int, -step));
    }
@loopdone 0
    proof { assert(nodes_view(slice@) =~= ix.map_values(|i: int| SNode { p: p_idx(loc_view(*location), i), v: array@[i] })); }
#end
#props P01 P02 P03 P05 P08 P18 P19 P21
#fn selector.rs Selector::resolve
@ret r
@spec
    requires wt_sel(*self), env_ok(*env),
    ensures nodes_view(r@) =~= sel_nodes(*self, SNode { p: loc_view(*location), v: *value }, *root),
    decreases *self, Value::Null, 0int,
@entry
    let ghost here = SNode { p: loc_view(*location), v: *value };
@closure 0
|$0: &'v Map| -> (o: Option<(&'v String, &'v Value)>)
    ensures mfind($0.e@, name@) < 0 ==> o is None,
        mfind($0.e@, name@) >= 0 ==> 0 <= mfind($0.e@, name@) < $0.e@.len() && o is Some && *o.unwrap().0 == $0.e@[mfind($0.e@, name@)].0 && *o.unwrap().1 == $0.e@[mfind($0.e@, name@)].1
@closure 1
|$0: (&'v String, &'v Value)| -> (o: Node<'v>)
    ensures node_view(o) == (SNode { p: p_key(here.p, $0.0@), v: *$0.1 })
@closure 2
|$0: &'v Vec<Value>| -> (o: Option<(usize, &'v Vec<Value>)>)
    ensures match o { Some(t) => t.1 == $0 && t.0 == norm_idx(*index as int, $0@.len() as int), None => norm_idx(*index as int, $0@.len() as int) < 0 }
@closure 3
|$0: (usize, &'v Vec<Value>)| -> (o: Option<(usize, &'v Value)>)
    ensures match o { Some(t) => t.0 == $0.0 && $0.0 < $0.1@.len() && *t.1 == $0.1@[$0.0 as int], None => $0.0 >= $0.1@.len() }
@closure 4
|$0: (usize, &'v Value)| -> (o: Node<'v>)
    ensures node_view(o) == (SNode { p: p_idx(here.p, $0.0 as int), v: *$0.1 })
@closure 5
|$0: &'v Vec<Value>| -> (o: Option<NodeList<'v>>)
    ensures nodes_view(match o { Some(v) => v@, None => Seq::empty() }) =~= slice_idx($0@.len() as int, *start, *stop, *step).map_values(|i: int| SNode { p: p_idx(here.p, i), v: $0@[i] })
@closure 6
|$0: (usize, &'v Value)| -> (o: Node<'v>)
    ensures node_view(o) == (SNode { p: p_idx(here.p, $0.0 as int), v: *$0.1 })
@closure 7
|$0: (&'v String, &'v Value)| -> (o: Node<'v>)
    ensures node_view(o) == (SNode { p: p_key(here.p, $0.0@), v: *$0.1 })
@closure 8
|$0: (usize, &'v Value)| -> (o: (usize, &'v Value, FilterExpressionResult<'v>))
    ensures o.0 == $0.0, o.1 == $0.1, truth(res_view(o.2)) == truth(eval(**expression, *root, *$0.1))
@closure 9
|$0: &(usize, &'v Value, FilterExpressionResult<'v>)| -> (o: bool)
    ensures o == truth(res_view($0.2))
@closure 10
|$0: (usize, &'v Value, FilterExpressionResult<'v>)| -> (o: Node<'v>)
    ensures node_view(o) == (SNode { p: p_idx(here.p, $0.0 as int), v: *$0.1 })
@closure 11
|$0: (&'v String, &'v Value)| -> (o: (&'v String, &'v Value, FilterExpressionResult<'v>))
    ensures o.0 == $0.0, o.1 == $0.1, truth(res_view(o.2)) == truth(eval(**expression, *root, *$0.1))
@closure 12
|$0: &(&'v String, &'v Value, FilterExpressionResult<'v>)| -> (o: bool)
    ensures o == truth(res_view($0.2))
@closure 13
|$0: (&'v String, &'v Value, FilterExpressionResult<'v>)| -> (o: Node<'v>)
    ensures node_view(o) == (SNode { p: p_key(here.p, $0.0@), v: *$0.1 })
#if singular=1
@closure 14
|$0: &'v Vec<Value>| -> (o: Option<(usize, &'v Vec<Value>)>)
    requires num_is_int(*index) && num_int(*index) <= i64::MAX
    ensures match o { Some(t) => t.1 == $0 && t.0 == norm_idx(num_int(*index), $0@.len() as int), None => norm_idx(num_int(*index), $0@.len() as int) < 0 }
@closure 15
|$0: (usize, &'v Vec<Value>)| -> (o: Option<(usize, &'v Value)>)
    ensures match o { Some(t) => t.0 == $0.0 && $0.0 < $0.1@.len() && *t.1 == $0.1@[$0.0 as int], None => $0.0 >= $0.1@.len() }
@closure 16
|$0: (usize, &'v Value)| -> (o: Node<'v>)
    ensures node_view(o) == (SNode { p: p_idx(here.p, $0.0 as int), v: *$0.1 })
@closure 17
|$0: &'v Map| -> (o: Option<(&'v String, &'v Value)>)
    ensures mfind($0.e@, name@) < 0 ==> o is None,
        mfind($0.e@, name@) >= 0 ==> 0 <= mfind($0.e@, name@) < $0.e@.len() && o is Some && *o.unwrap().0 == $0.e@[mfind($0.e@, name@)].0 && *o.unwrap().1 == $0.e@[mfind($0.e@, name@)].1
@closure 18
|$0: (&'v String, &'v Value)| -> (o: Node<'v>)
    ensures node_view(o) == (SNode { p: p_key(here.p, $0.0@), v: *$0.1 })
@after let nodes = query
    proof { assert(nodes_view(nodes@).len() == nodes@.len()); if nodes@.len() == 1 { assert(nodes_view(nodes@)[0].v == *nodes@[0].value); } }
#fi
@arm Value :: Array (arr) #1 => chain
    proof {
        let want = filter_bits(**expression, here, *root);
        let b = choose|b: Seq<bool>| b.len() == c3.v@.len() && (forall|i: int| 0 <= i < b.len() ==> b[i] == truth(res_view((#[trigger] c3.v@[i]).2))) && c4.v@ == keep(c3.v@, b);
        assert(b =~= want);
        lemma_keep_map(c3.v@, children(here), b, |x: (usize, &'v Value, FilterExpressionResult<'v>)| SNode { p: p_idx(here.p, x.0 as int), v: *x.1 });
    }
@arm Value :: Object (obj) #1 => chain
    proof {
        let want = filter_bits(**expression, here, *root);
        let b = choose|b: Seq<bool>| b.len() == c2.v@.len() && (forall|i: int| 0 <= i < b.len() ==> b[i] == truth(res_view((#[trigger] c2.v@[i]).2))) && c3.v@ == keep(c2.v@, b);
        assert(b =~= want);
        lemma_keep_map(c2.v@, children(here), b, |x: (&'v String, &'v Value, FilterExpressionResult<'v>)| SNode { p: p_key(here.p, x.0@), v: *x.1 });
    }
#end
#props P03 P08 P18 P21
#fn segment.rs Segment::resolve
@ret r
@spec
    requires wt_seg(*self), env_ok(*env),
    ensures nodes_view(r@) =~= seg_nodes(*self, nodes_view(nodes@), *root),
    decreases *self, Value::Null, 2int,
@closure 0
|$0: Node<'v>| -> (o: VIter<NodeList<'v>>)
    ensures o.v@.len() == selectors@.len(), forall|j: int| 0 <= j < selectors@.len() ==> nodes_view((#[trigger] o.v@[j])@) == sel_nodes(selectors@[j], node_view($0), *root)
@closure 1
|$0: &Selector| -> (o: NodeList<'v>)
    requires wt_sel(*$0), decreases_to!(self => $0)
    ensures nodes_view(o@) == sel_nodes(*$0, node_view(node), *root)
@closure 2
|$0: Node<'v>| -> (o: NodeList<'v>)
    ensures nodes_view(o@) == desc_nodes(*selectors, node_view($0), *root)
@arm Segment :: Child { selectors } => chain
    proof {
        let f = |n: Node<'v>| node_view(n);
        let g = |x: Seq<Node<'v>>| x.map_values(f);
        let h = |x: Seq<Seq<SNode>>| flat(x);
        // y: for every node, the lists the selectors gave
        let y = c2m.v@.map_values(|x: VIter<NodeList<'v>>| x.vx_seq()).map_values(|x: Seq<NodeList<'v>>| x.map_values(|l: NodeList<'v>| l.vx_seq()));
        let w = c2.v@.map_values(|x: NodeList<'v>| x.vx_seq());
        lemma_flat_map(c2m.v@.map_values(|x: VIter<NodeList<'v>>| x.vx_seq()), |l: NodeList<'v>| l.vx_seq());
        assert(w =~= flat(y));
        lemma_flat_map(w, f);
        lemma_flat_map(y, g);
        let z = y.map_values(|x: Seq<Seq<Node<'v>>>| x.map_values(g));
        lemma_flat_flat(z);
        let nv = nodes_view(nodes@);
        assert forall|i: int| 0 <= i < nv.len() implies flat(#[trigger] z[i]) == sels_nodes(*selectors, nv[i], *root) by {
            assert(z[i] =~= sels_parts(*selectors, nv[i], *root));
        }
        assert(z.map_values(h) =~= child_parts(*selectors, nv, *root));
        assert(seg_nodes(*self, nv, *root) == flat(child_parts(*selectors, nv, *root)));
    }
@arm Segment :: Recursive { selectors } => chain
    proof {
        let f = |n: Node<'v>| node_view(n);
        let w = c2m.v@.map_values(|x: NodeList<'v>| x.vx_seq());
        lemma_flat_map(w, f);
        let nv = nodes_view(nodes@);
        assert(w.map_values(|x: Seq<Node<'v>>| x.map_values(f)) =~= desc_parts(*selectors, nv, *root));
        assert(seg_nodes(*self, nv, *root) == flat(desc_parts(*selectors, nv, *root)));
    }
#end
#fn segment.rs Segment::visit
@ret r
@spec
    requires wt_sels(*selectors), env_ok(*env),
    ensures nodes_view(r@) =~= desc_nodes(*selectors, SNode { p: loc_view(location), v: *value }, *root),
    decreases *selectors, *value, 1int,
@closure 0
|$0: &Selector| -> (o: NodeList<'v>)
    requires wt_sel(*$0), decreases_to!(selectors => $0)
    ensures nodes_view(o@) == sel_nodes(*$0, SNode { p: loc_view(location), v: *value }, *root)
@wrap let mut nodes
    proof {
        let here = SNode { p: loc_view(location), v: *value };
        let f = |n: Node<'v>| node_view(n);
        let w = c2m.v@.map_values(|x: NodeList<'v>| x.vx_seq());
        lemma_flat_map(w, f);
        assert(w.map_values(|x: Seq<Node<'v>>| x.map_values(f)) =~= sels_parts(*selectors, here, *root));
        lemma_desc(*selectors, here, *root);
    }
#end
#fn segment.rs Segment::descend
@ret r
@spec
    requires wt_sels(*selectors), env_ok(*env),
    ensures nodes_view(r@) =~= below(*selectors, SNode { p: loc_view(*location), v: *value }, *root),
    decreases *selectors, *value, 0int,
@closure 0
|$0: (usize, &'v Value)| -> (o: NodeList<'v>)
    requires decreases_to!(value => $0.1)
    ensures nodes_view(o@) == desc_nodes(*selectors, SNode { p: p_idx(loc_view(*location), $0.0 as int), v: *$0.1 }, *root)
@closure 1
|$0: (&'v String, &'v Value)| -> (o: NodeList<'v>)
    requires decreases_to!(value => $0.1)
    ensures nodes_view(o@) == desc_nodes(*selectors, SNode { p: p_key(loc_view(*location), $0.0@), v: *$0.1 }, *root)
@arm Value :: Array (arr) => chain
    proof {
        let here = SNode { p: loc_view(*location), v: *value };
        let f = |n: Node<'v>| node_view(n);
        let w = c3m.v@.map_values(|x: NodeList<'v>| x.vx_seq());
        lemma_flat_map(w, f);
        assert(w.map_values(|x: Seq<Node<'v>>| x.map_values(f)) =~= desc_parts(*selectors, children(here), *root));
    }
@arm Value :: Object (obj) => chain
    proof {
        let here = SNode { p: loc_view(*location), v: *value };
        let f = |n: Node<'v>| node_view(n);
        let w = c2m.v@.map_values(|x: NodeList<'v>| x.vx_seq());
        lemma_flat_map(w, f);
        assert(w.map_values(|x: Seq<Node<'v>>| x.map_values(f)) =~= desc_parts(*selectors, children(here), *root));
    }
@entry
    proof { assert(flat(Seq::<Seq<SNode>>::empty()) =~= Seq::<SNode>::empty()); let here = SNode { p: loc_view(*location), v: *value }; if children(here).len() == 0 { assert(desc_parts(*selectors, children(here), *root) =~= Seq::empty()); } }
#end
#props P03 P05 P08 P18 P21
#fn query.rs Query::find
@ret r
@spec
    requires wt_query(*self), env_ok(*env),
    ensures nodes_view(r@) == query_nodes(*self, *value, *value),
    decreases *self, Value::Null, 1int,
#end
#fn query.rs Query::find_from
@ret r
@spec
    requires wt_query(*self), env_ok(*env),
    ensures nodes_view(r@) == query_nodes(*self, *value, *root),
    decreases *self, Value::Null, 0int,
@closure 0
|$0: NodeList<'v>, $1: &Segment| -> (o: NodeList<'v>)
    requires wt_seg(*$1), decreases_to!(self => $1)
    ensures nodes_view(o@) == seg_nodes(*$1, nodes_view($0@), *root)
@tail => chain
    proof {
        let inv = |i: int, l: NodeList<'v>| nodes_view(l@) == segs_nodes(self.segments, i, *value, *root);
        assert(nodes_view(c2i@) =~= seq![start_node(*value)]);
        lemma_fold(c2f, c2i, c1.v@, c1.v@.len() as int, c2, inv);
    }
#end
#props P17
#fn query.rs Query::is_empty
@ret r
@spec
    ensures r == (forall|i: int| 0 <= i < self.segments@.len() ==> (#[trigger] self.segments@[i]) is Eoi),
@closure 0
|$0: &Segment| -> (o: bool)
    ensures o == (*$0 is Eoi)
#end
#fn query.rs Query::is_singular
@ret r
@spec
    ensures r == sing_q(*self),
@closure 0
|$0: &Segment| -> (o: bool)
    ensures o == sing_seg(*$0)
@closure 1
|$0: &Selector| -> (o: bool)
    ensures o == (*$0 is Name || *$0 is Index)
#end
#props P03 P05 P06 P07 P12 P18
#fn env.rs Environment<Default>::default
@ret r
@spec
    ensures env_ok(r),
#end
