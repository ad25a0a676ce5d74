// ---- what the grammar says about a tree: the rules of the children of each rule and the texts of the terminals. The
// rules these predicates were read off are in grammar.pest and compared with the crate's grammar file on every run ----
pub open spec fn g_seg(p: Pair<Rule>) -> bool decreases p, 2int {
    match p.rule {
        Rule::child_segment | Rule::descendant_segment => p.inner@.len() == 1 && g_bracketed(p.inner@[0]),
        Rule::name_segment => p.inner@.len() == 1 && g_name(p.inner@[0].rule) && g_sel(p.inner@[0]),
        Rule::index_segment => p.inner@.len() == 1 && p.inner@[0].rule is index_selector && g_sel(p.inner@[0]),
#if singular=1
        Rule::implicit_root_segment => p.inner@.len() == 1 && g_bracketed(p.inner@[0]),
        Rule::implicit_root_name_segment => p.inner@.len() == 1 && g_name(p.inner@[0].rule) && g_sel(p.inner@[0]),
#fi
        Rule::EOI => true,
        _ => false,
    }
}
pub open spec fn g_name(r: Rule) -> bool { r is double_quoted || r is single_quoted || r is member_name_shorthand }
pub open spec fn g_bracketed(p: Pair<Rule>) -> bool decreases p, 2int {
    match p.rule {
        Rule::bracketed_selection => p.inner@.len() > 0 && forall|i: int| 0 <= i < p.inner@.len() ==> !((#[trigger] p.inner@[i]).rule is member_name_shorthand) && g_sel(p.inner@[i]),
        Rule::wildcard_selector | Rule::member_name_shorthand => true,
        _ => false,
    }
}
pub open spec fn g_sel(p: Pair<Rule>) -> bool decreases p, 2int {
    match p.rule {
        Rule::double_quoted => den(p.text@, 0) is Some,
        Rule::single_quoted => sden(p.text@, 0) is Some,
        Rule::wildcard_selector | Rule::member_name_shorthand => true,
        Rule::slice_selector => forall|i: int| 0 <= i < p.inner@.len() ==> ((#[trigger] p.inner@[i]).rule is start || p.inner@[i].rule is stop || p.inner@[i].rule is step) && int_text(p.inner@[i].text@)
            && forall|j: int| 0 <= j < i ==> (#[trigger] p.inner@[j]).rule != p.inner@[i].rule,
        Rule::index_selector => int_text(p.text@),
        Rule::filter_selector => p.inner@.len() == 1 && p.inner@[0].rule is logical_or_expr && g_e(p.inner@[0]),
#if singular=1
        Rule::singular_query_selector => g_segs(p) && forall|i: int| 0 <= i < p.inner@.len() ==> g_single((#[trigger] p.inner@[i]).rule),
#fi
        _ => false,
    }
}
#if singular=1
pub open spec fn g_single(r: Rule) -> bool { r is name_segment || r is index_segment || r is implicit_root_name_segment }
#fi
pub open spec fn g_segs(p: Pair<Rule>) -> bool decreases p, 0int { forall|i: int| 0 <= i < p.inner@.len() ==> g_seg(#[trigger] p.inner@[i]) }
pub open spec fn g_lit(r: Rule) -> bool { r is number || r is double_quoted || r is single_quoted || r is true_literal || r is false_literal || r is null }
pub open spec fn g_basic(r: Rule) -> bool { r is paren_expr || r is comparison_expr || r is test_expr }
pub open spec fn g_tested(r: Rule) -> bool { r is rel_query || r is root_query || r is function_expr }
pub open spec fn g_comparable(r: Rule) -> bool { g_lit(r) || r is rel_singular_query || r is abs_singular_query || r is function_expr }
pub open spec fn g_arg(r: Rule) -> bool { g_lit(r) || g_tested(r) || r is logical_or_expr }
pub open spec fn g_e(p: Pair<Rule>) -> bool decreases p, 1int {
    let k = p.inner@;
    match p.rule {
        Rule::logical_or_expr => k.len() > 0 && forall|i: int| 0 <= i < k.len() ==> (#[trigger] k[i]).rule is logical_and_expr && g_e(k[i]),
        Rule::logical_and_expr => k.len() > 0 && forall|i: int| 0 <= i < k.len() ==> g_basic((#[trigger] k[i]).rule) && g_e(k[i]),
        Rule::paren_expr => (k.len() == 1 && k[0].rule is logical_or_expr && g_e(k[0])) || (k.len() == 2 && k[0].rule is logical_not_op && k[1].rule is logical_or_expr && g_e(k[1])),
        Rule::comparison_expr => k.len() == 3 && g_comparable(k[0].rule) && g_e(k[0]) && k[1].rule is comparison_op && cop_of(k[1].text@) is Some && g_comparable(k[2].rule) && g_e(k[2]),
        Rule::test_expr => (k.len() == 1 && g_tested(k[0].rule) && g_e(k[0])) || (k.len() == 2 && k[0].rule is logical_not_op && g_tested(k[1].rule) && g_e(k[1])),
        Rule::rel_query | Rule::root_query | Rule::rel_singular_query | Rule::abs_singular_query => g_segs(p),
        Rule::function_expr => k.len() > 0 && forall|i: int| 1 <= i < k.len() ==> g_arg((#[trigger] k[i]).rule) && g_e(k[i]),
        Rule::number => num_text(p.text@),
        Rule::double_quoted => den(p.text@, 0) is Some,
        Rule::single_quoted => sden(p.text@, 0) is Some,
        Rule::true_literal | Rule::false_literal | Rule::null => true,
        _ => false,
    }
}
pub open spec fn g_top(s: Seq<Pair<Rule>>) -> bool { forall|i: int| 0 <= i < s.len() ==> g_seg(#[trigger] s[i]) }
/// the six comparison operators
pub open spec fn cop_of(t: Seq<char>) -> Option<SCop> {
    if t == "=="@ { Some(SCop::Eq) } else if t == "!="@ { Some(SCop::Ne) } else if t == "<="@ { Some(SCop::Le) } else if t == ">="@ { Some(SCop::Ge) }
    else if t == "<"@ { Some(SCop::Lt) } else if t == ">"@ { Some(SCop::Gt) } else { None }
}
// ---- the syntax a tree stands for ----
pub open spec fn a_seg(p: Pair<Rule>) -> SSeg decreases p, 2int, 0int {
    match p.rule {
        _ if p.inner@.len() == 0 => SSeg::Eoi,
        Rule::child_segment => SSeg::Child(a_bracketed(p.inner@[0])),
        Rule::descendant_segment => SSeg::Desc(a_bracketed(p.inner@[0])),
        Rule::name_segment | Rule::index_segment => SSeg::Child(seq![a_sel(p.inner@[0])]),
#if singular=1
        Rule::implicit_root_segment => SSeg::Child(a_bracketed(p.inner@[0])),
        Rule::implicit_root_name_segment => SSeg::Child(seq![a_sel(p.inner@[0])]),
#fi
        _ => SSeg::Eoi,
    }
}
pub open spec fn a_bracketed(p: Pair<Rule>) -> Seq<SSel> decreases p, 2int, 0int {
    match p.rule {
        Rule::bracketed_selection => Seq::new(p.inner@.len(), |i: int| if 0 <= i < p.inner@.len() { a_sel(p.inner@[i]) } else { SSel::Wild }),
        Rule::wildcard_selector => seq![SSel::Wild],
        _ => seq![SSel::Name(p.text@)],
    }
}
pub open spec fn a_sel(p: Pair<Rule>) -> SSel decreases p, 2int, 0int {
    match p.rule {
        Rule::double_quoted | Rule::single_quoted => SSel::Name(a_str(p)),
        Rule::wildcard_selector => SSel::Wild,
        Rule::slice_selector => SSel::Slice(a_bound(p.inner@, Rule::start), a_bound(p.inner@, Rule::stop), a_bound(p.inner@, Rule::step)),
        Rule::index_selector => SSel::Index(int_val(p.text@)),
        Rule::filter_selector => SSel::Filter(Box::new(if p.inner@.len() > 0 { a_e(p.inner@[0]) } else { SE::Null })),
#if singular=1
        Rule::singular_query_selector => SSel::Sing(a_segs(p)),
#fi
        _ => SSel::Name(p.text@),
    }
}
/// the value of the child with that rule
pub open spec fn a_bound(s: Seq<Pair<Rule>>, r: Rule) -> Option<int> decreases s.len() {
    if s.len() == 0 { None } else if s.last().rule == r { Some(int_val(s.last().text@)) } else { a_bound(s.drop_last(), r) }
}
/// the string a quoted text denotes
pub open spec fn a_str(p: Pair<Rule>) -> Seq<char> { text_of(if p.rule is single_quoted { sden(p.text@, 0).unwrap() } else { den(p.text@, 0).unwrap() }) }
#if rec=1
pub open spec fn a_segs(p: Pair<Rule>) -> Seq<SSeg> decreases p, 1int, 1int + p.inner@.len() { a_upto(p, p.inner@.len() as int) }
pub open spec fn a_upto(p: Pair<Rule>, n: int) -> Seq<SSeg> decreases p, 1int, n {
    if n <= 0 || n > p.inner@.len() { Seq::empty() } else if p.inner@[n - 1].rule is EOI { a_upto(p, n - 1) } else { a_upto(p, n - 1).push(a_seg(p.inner@[n - 1])) }
}
#else
pub open spec fn a_segs(p: Pair<Rule>) -> Seq<SSeg> decreases p, 0int, 0int { Seq::new(p.inner@.len(), |i: int| if 0 <= i < p.inner@.len() { a_seg(p.inner@[i]) } else { SSeg::Eoi }) }
#fi
pub open spec fn a_e(p: Pair<Rule>) -> SE decreases p, 2int, 0int {
    let k = p.inner@;
    match p.rule {
        Rule::logical_or_expr => a_fold(p, k.len() as int, SLop::Or),
        Rule::logical_and_expr => a_fold(p, k.len() as int, SLop::And),
        Rule::paren_expr => if k.len() == 1 { a_e(k[0]) } else if k.len() == 2 { SE::Not(Box::new(a_e(k[1]))) } else { SE::Null },
        Rule::comparison_expr => if k.len() != 3 { SE::Null } else { SE::Cmp(Box::new(a_e(k[0])), cop_of(k[1].text@).unwrap(), Box::new(a_e(k[2]))) },
        Rule::test_expr => if k.len() == 1 { a_e(k[0]) } else if k.len() == 2 { SE::Not(Box::new(a_e(k[1]))) } else { SE::Null },
        Rule::rel_query | Rule::rel_singular_query => SE::Rel(a_segs(p)),
        Rule::root_query | Rule::abs_singular_query => SE::Root(a_segs(p)),
        Rule::function_expr => SE::Func(k[0].text@, a_args(p)),
        Rule::number => a_num(p.text@),
        Rule::double_quoted | Rule::single_quoted => SE::Str(a_str(p)),
        Rule::true_literal => SE::True,
        Rule::false_literal => SE::False,
        _ => SE::Null,
    }
}
pub open spec fn a_args(p: Pair<Rule>) -> Seq<SE> decreases p, 1int, 0int { Seq::new((p.inner@.len() - 1) as nat, |i: int| if 0 <= i < p.inner@.len() - 1 { a_e(p.inner@[i + 1]) } else { SE::Null }) }
/// the first n operands, grouped from the left
pub open spec fn a_fold(p: Pair<Rule>, n: int, op: SLop) -> SE decreases p, 1int, n {
    if n <= 1 || n > p.inner@.len() { if p.inner@.len() > 0 { a_e(p.inner@[0]) } else { SE::Null } }
    else { SE::Logical(Box::new(a_fold(p, n - 1, op)), op, Box::new(a_e(p.inner@[n - 1]))) }
}
#if rec=1
pub open spec fn a_top(s: Seq<Pair<Rule>>) -> Seq<SSeg> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.last().rule is EOI { a_top(s.drop_last()) } else { a_top(s.drop_last()).push(a_seg(s.last())) }
}
#else
pub open spec fn a_top(s: Seq<Pair<Rule>>) -> Seq<SSeg> { s.map_values(|p: Pair<Rule>| a_seg(p)) }
#fi
// ---- well-typedness and ranges, on the tree ----
pub open spec fn w_seg(p: Pair<Rule>, fs: SSigs) -> bool decreases p, 2int {
    match p.rule {
        _ if p.inner@.len() == 0 => true,
        Rule::child_segment | Rule::descendant_segment => w_bracketed(p.inner@[0], fs),
        Rule::name_segment | Rule::index_segment => w_sel(p.inner@[0], fs),
#if singular=1
        Rule::implicit_root_segment => w_bracketed(p.inner@[0], fs),
        Rule::implicit_root_name_segment => w_sel(p.inner@[0], fs),
#fi
        _ => true,
    }
}
pub open spec fn w_bracketed(p: Pair<Rule>, fs: SSigs) -> bool decreases p, 2int {
    p.rule is bracketed_selection ==> forall|i: int| 0 <= i < p.inner@.len() ==> w_sel(#[trigger] p.inner@[i], fs)
}
pub open spec fn w_sel(p: Pair<Rule>, fs: SSigs) -> bool decreases p, 2int {
    match p.rule {
        Rule::slice_selector => forall|i: int| 0 <= i < p.inner@.len() ==> in_range(int_val((#[trigger] p.inner@[i]).text@)),
        Rule::index_selector => in_range(int_val(p.text@)),
        Rule::filter_selector => p.inner@.len() > 0 && w_e(p.inner@[0], fs),
#if singular=1
        Rule::singular_query_selector => w_segs(p, fs),
#fi
        _ => true,
    }
}
pub open spec fn w_segs(p: Pair<Rule>, fs: SSigs) -> bool decreases p, 0int { forall|i: int| 0 <= i < p.inner@.len() ==> w_seg(#[trigger] p.inner@[i], fs) }
pub open spec fn w_e(p: Pair<Rule>, fs: SSigs) -> bool decreases p, 1int {
    let k = p.inner@;
    match p.rule {
        Rule::logical_or_expr | Rule::logical_and_expr => forall|i: int| 0 <= i < k.len() ==> w_e(#[trigger] k[i], fs) && s_test(a_e(k[i]), fs),
        Rule::paren_expr => k.len() > 0 && w_e(k[k.len() - 1], fs),
        Rule::comparison_expr => k.len() == 3 && w_e(k[0], fs) && w_e(k[2], fs) && s_cmp(a_e(k[0]), fs) && s_cmp(a_e(k[2]), fs),
        Rule::test_expr => if k.len() == 1 { w_e(k[0], fs) } else { k.len() == 2 && w_e(k[1], fs) && s_test(a_e(k[1]), fs) },
        Rule::rel_query | Rule::root_query | Rule::rel_singular_query | Rule::abs_singular_query => w_segs(p, fs),
        Rule::function_expr => s_call(k[0].text@, a_args(p), fs) && forall|i: int| 1 <= i < k.len() ==> w_e(#[trigger] k[i], fs),
        _ => true,
    }
}
pub open spec fn w_top(s: Seq<Pair<Rule>>, fs: SSigs) -> bool { forall|i: int| 0 <= i < s.len() ==> w_seg(#[trigger] s[i], fs) }
