// ---- printing: the text of a query ----
pub struct VxFmtError {}
/// a formatter that writes to a String (as to_string and format! do): it never fails; o is what has been written
pub struct VxFormatter { pub o: Ghost<Seq<char>> }
impl VxFormatter {
    #[verifier::external_body] pub fn write_str(&mut self, s: &str) -> (r: Result<(), VxFmtError>) ensures r is Ok, final(self).o@ == old(self).o@ + s@ { unimplemented!() }
    #[verifier::external_body] pub fn write_char(&mut self, c: char) -> (r: Result<(), VxFmtError>) ensures r is Ok, final(self).o@ == old(self).o@ + seq![c] { unimplemented!() }
    #[verifier::external_body] pub fn vx_write(&mut self, s: String) -> (r: Result<(), VxFmtError>) ensures r is Ok, final(self).o@ == old(self).o@ + s@ { unimplemented!() }
}
pub uninterp spec fn f64_disp(x: f64) -> Seq<char>;
/// the text of a string literal
pub open spec fn pr_str(s: Seq<char>) -> Seq<char> { ${strlit} }
pub open spec fn pr_opt(i: Option<int>, d: Seq<char>) -> Seq<char> { match i { Some(i) => dec_int(i), None => d } }
pub open spec fn pr_lop(o: SLop) -> Seq<char> { match o { SLop::And => "&&"@, SLop::Or => "||"@ } }
pub open spec fn pr_cop(o: SCop) -> Seq<char> { match o { SCop::Eq => "=="@, SCop::Ne => "!="@, SCop::Ge => ">="@, SCop::Gt => ">"@, SCop::Le => "<="@, SCop::Lt => "<"@ } }
pub open spec fn pr_e(e: SE) -> Seq<char> decreases e {
    match e {
        SE::True => "true"@, SE::False => "false"@, SE::Null => "null"@,
        SE::Str(s) => pr_str(s), SE::Int(i) => dec_int(i), SE::Float(x) => f64_disp(x),
        SE::Not(x) => if *x is Cmp || *x is Not { "!("@ + pr_e(*x) + ")"@ } else { "!"@ + pr_e(*x) },
        SE::Logical(l, o, r) => "("@ + pr_e(*l) + " "@ + pr_lop(o) + " "@ + pr_e(*r) + ")"@,
        SE::Cmp(l, o, r) => pr_e(*l) + " "@ + pr_cop(o) + " "@ + pr_e(*r),
        SE::Rel(q) => "@"@ + flat(pr_segs(q)),
        SE::Root(q) => "$"@ + flat(pr_segs(q)),
        SE::Func(f, a) => f + "("@ + joined(pr_args(a), ", "@) + ")"@,
    }
}
pub open spec fn pr_args(a: Seq<SE>) -> Seq<Seq<char>> decreases a { Seq::new(a.len(), |i: int| if 0 <= i < a.len() { pr_e(a[i]) } else { Seq::empty() }) }
pub open spec fn pr_segs(q: Seq<SSeg>) -> Seq<Seq<char>> decreases q { Seq::new(q.len(), |i: int| if 0 <= i < q.len() { pr_seg(q[i]) } else { Seq::empty() }) }
pub open spec fn pr_seg(s: SSeg) -> Seq<char> decreases s {
    match s { SSeg::Child(l) => "["@ + joined(pr_sels(l), ", "@) + "]"@, SSeg::Desc(l) => "..["@ + joined(pr_sels(l), ", "@) + "]"@, SSeg::Eoi => Seq::empty() }
}
pub open spec fn pr_sels(l: Seq<SSel>) -> Seq<Seq<char>> decreases l { Seq::new(l.len(), |i: int| if 0 <= i < l.len() { pr_sel(l[i]) } else { Seq::empty() }) }
pub open spec fn pr_sel(s: SSel) -> Seq<char> decreases s {
    match s {
        SSel::Name(n) => quoted(n),
        SSel::Index(i) => dec_int(i),
        SSel::Slice(a, b, c) => pr_opt(a, ""@) + ":"@ + pr_opt(b, ""@) + ":"@ + pr_opt(c, "1"@),
        SSel::Wild => "*"@,
        SSel::Filter(e) => "?"@ + pr_e(*e),
        SSel::Sing(q) => "$"@ + flat(pr_segs(q)),
    }
}
/// a list of strings with the texts w
pub open spec fn lists(w: Seq<Seq<char>>) -> bool { forall|c: Seq<String>| c.len() == w.len() && (forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i])@ == w[i]) ==> #[trigger] texts(c) == w }
pub proof fn lemma_texts(w: Seq<Seq<char>>) ensures lists(w) {
    assert forall|c: Seq<String>| c.len() == w.len() && (forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i])@ == w[i]) implies #[trigger] texts(c) == w by { assert(texts(c) =~= w); }
}
impl VxDisp for f64 { open spec fn vx_disp(&self) -> Seq<char> { f64_disp(*self) } #[verifier::external_body] fn vx_show(&self) -> (r: String) { unimplemented!() } }
// to_string() and {} of the crate's types: what their fmt writes, which is proved below to be this
impl VxDisp for Query { open spec fn vx_disp(&self) -> Seq<char> { "$"@ + flat(pr_segs(v_q(*self))) } #[verifier::external_body] fn vx_show(&self) -> (r: String) { unimplemented!() } }
impl VxDisp for Segment { open spec fn vx_disp(&self) -> Seq<char> { ${segdisp} } #[verifier::external_body] fn vx_show(&self) -> (r: String) { unimplemented!() } }
impl VxDisp for Selector { open spec fn vx_disp(&self) -> Seq<char> { pr_sel(v_sel(*self)) } #[verifier::external_body] fn vx_show(&self) -> (r: String) { unimplemented!() } }
impl VxDisp for FilterExpression { open spec fn vx_disp(&self) -> Seq<char> { pr_e(v_e(*self)) } #[verifier::external_body] fn vx_show(&self) -> (r: String) { unimplemented!() } }
impl<T: VxDisp + ?Sized> VxDisp for Box<T> { open spec fn vx_disp(&self) -> Seq<char> { (**self).vx_disp() } fn vx_show(&self) -> (r: String) { (**self).vx_show() } }
impl VxDisp for LogicalOperator { open spec fn vx_disp(&self) -> Seq<char> { pr_lop(v_lop(*self)) } #[verifier::external_body] fn vx_show(&self) -> (r: String) { unimplemented!() } }
impl VxDisp for ComparisonOperator { open spec fn vx_disp(&self) -> Seq<char> { pr_cop(v_cop(*self)) } #[verifier::external_body] fn vx_show(&self) -> (r: String) { unimplemented!() } }
pub trait VxTs: VxDisp { fn vx_to_string(&self) -> (r: String) ensures r@ == self.vx_disp(); }
impl VxTs for i64 { fn vx_to_string(&self) -> (r: String) { self.vx_show() } }
impl VxTs for Segment { fn vx_to_string(&self) -> (r: String) { self.vx_show() } }
impl VxTs for Selector { fn vx_to_string(&self) -> (r: String) { self.vx_show() } }
impl VxTs for FilterExpression { fn vx_to_string(&self) -> (r: String) { self.vx_show() } }
impl VxTs for Query { fn vx_to_string(&self) -> (r: String) { self.vx_show() } }
/// the text of an expression, by its kind
pub proof fn lemma_fe(e: FilterExpression) ensures
    e is ${et} ==> e.vx_disp() == "true"@, e is ${ef} ==> e.vx_disp() == "false"@, e is Null ==> e.vx_disp() == "null"@,
    e is ${es} ==> e.vx_disp() == pr_str(e->${es}_value@), e is Int ==> e.vx_disp() == dec_int(e->Int_value as int), e is Float ==> e.vx_disp() == f64_disp(e->Float_value),
    e is Not ==> e.vx_disp() == if *e->Not_expression is Comparison || *e->Not_expression is Not { "!("@ + e->Not_expression.vx_disp() + ")"@ } else { "!"@ + e->Not_expression.vx_disp() },
    e is Logical ==> e.vx_disp() == "("@ + e->Logical_left.vx_disp() + " "@ + e->Logical_operator.vx_disp() + " "@ + e->Logical_right.vx_disp() + ")"@,
    e is Comparison ==> e.vx_disp() == e->Comparison_left.vx_disp() + " "@ + e->Comparison_operator.vx_disp() + " "@ + e->Comparison_right.vx_disp(),
    e is RelativeQuery ==> e.vx_disp() == "@"@ + flat(pr_segs(v_q(*e->RelativeQuery_query))) && lists(pr_segs(v_q(*e->RelativeQuery_query))) && joined(pr_segs(v_q(*e->RelativeQuery_query)), ""@) == flat(pr_segs(v_q(*e->RelativeQuery_query))),
    e is RootQuery ==> e.vx_disp() == "$"@ + flat(pr_segs(v_q(*e->RootQuery_query))) && lists(pr_segs(v_q(*e->RootQuery_query))) && joined(pr_segs(v_q(*e->RootQuery_query)), ""@) == flat(pr_segs(v_q(*e->RootQuery_query))),
    e is Function ==> e.vx_disp() == e->name@ + "("@ + joined(fn_args(e->args), ", "@) + ")"@ && lists(fn_args(e->args)),
{
    match e {
        FilterExpression::RelativeQuery { query, .. } => { lemma_texts(pr_segs(v_q(*query))); lemma_joined_flat(pr_segs(v_q(*query))); }
        FilterExpression::RootQuery { query, .. } => { lemma_texts(pr_segs(v_q(*query))); lemma_joined_flat(pr_segs(v_q(*query))); }
        FilterExpression::Function { args, .. } => { lemma_texts(fn_args(args)); assert(pr_args(v_e(e)->Func_1) =~= fn_args(args)); }
        _ => {}
    }
}
pub open spec fn fn_args(args: Vec<FilterExpression>) -> Seq<Seq<char>> { Seq::new(args@.len(), |i: int| if 0 <= i < args@.len() { pr_e(v_e(args@[i])) } else { Seq::empty() }) }
pub proof fn lemma_sel(s: Selector) ensures
    s is Name ==> s.vx_disp() == quoted(s->name@), s is Index ==> s.vx_disp() == dec_int(s->index as int), s is Wild ==> s.vx_disp() == seq!['*'],
    s is Filter ==> s.vx_disp() == "?"@ + s->expression.vx_disp(),
    s is Slice ==> s.vx_disp() == pr_opt(opt_int(s->start), ""@) + ":"@ + pr_opt(opt_int(s->stop), ""@) + ":"@ + pr_opt(opt_int(s->step), "1"@),
#if singular=1
    s is SingularQuery ==> s.vx_disp() == "$"@ + flat(pr_segs(v_q(*s->query))) && lists(pr_segs(v_q(*s->query))) && joined(pr_segs(v_q(*s->query)), ""@) == flat(pr_segs(v_q(*s->query))),
#fi
{
    reveal_strlit("*"); assert("*"@ =~= seq!['*']);
#if singular=1
    if let Selector::SingularQuery { query, .. } = s { lemma_texts(pr_segs(v_q(*query))); lemma_joined_flat(pr_segs(v_q(*query))); }
#fi
}
#if rec=1
pub proof fn lemma_chain_text(s: Segment) ensures
    s is Child ==> s.vx_disp() =~= s->Child_left.vx_disp() + "["@ + joined(pr_sels(v_sels(s->Child_selectors)), ", "@) + "]"@ && lists(pr_sels(v_sels(s->Child_selectors))),
    s is Recursive ==> s.vx_disp() =~= s->Recursive_left.vx_disp() + "..["@ + joined(pr_sels(v_sels(s->Recursive_selectors)), ", "@) + "]"@ && lists(pr_sels(v_sels(s->Recursive_selectors))),
    s is Root ==> s.vx_disp() == Seq::<char>::empty(),
{
    match s {
        Segment::Child { left, selectors } => { lemma_texts(pr_sels(v_sels(selectors))); let x = SSeg::Child(v_sels(selectors)); assert(pr_segs(v_chain(*left).push(x)) =~= pr_segs(v_chain(*left)).push(pr_seg(x))); assert(pr_segs(v_chain(s)).drop_last() =~= pr_segs(v_chain(*left))); }
        Segment::Recursive { left, selectors } => { lemma_texts(pr_sels(v_sels(selectors))); let x = SSeg::Desc(v_sels(selectors)); assert(pr_segs(v_chain(*left).push(x)) =~= pr_segs(v_chain(*left)).push(pr_seg(x))); assert(pr_segs(v_chain(s)).drop_last() =~= pr_segs(v_chain(*left))); }
        _ => {}
    }
}
#fi
