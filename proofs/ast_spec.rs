// ---- RFC 9535 syntax, independent of the crate's own types ----
pub enum SSeg { Child(Seq<SSel>), Desc(Seq<SSel>), Eoi }
pub enum SSel { Name(Seq<char>), Index(int), Slice(Option<int>, Option<int>, Option<int>), Wild, Filter(Box<SE>), Sing(Seq<SSeg>) }
pub enum SLop { And, Or }
pub enum SCop { Eq, Ne, Ge, Gt, Le, Lt }
pub enum SE {
    True, False, Null, Str(Seq<char>), Int(int), Float(f64),
    Not(Box<SE>), Logical(Box<SE>, SLop, Box<SE>), Cmp(Box<SE>, SCop, Box<SE>),
    Rel(Seq<SSeg>), Root(Seq<SSeg>), Func(Seq<char>, Seq<SE>),
}
// ---- RFC 9535 section 2.4.3: well-typedness; section 2.1: the range of integers ----
pub ghost struct SSig { pub params: Seq<ExpressionType>, pub ret: ExpressionType }
pub type SSigs = vstd::map::Map<Seq<char>, SSig>;
pub open spec fn ret_is(fs: SSigs, f: Seq<char>, t: ExpressionType) -> bool { fs.contains_key(f) && fs[f].ret == t }
pub open spec fn s_lit(e: SE) -> bool { e is True || e is False || e is Null || e is Str || e is Int || e is Float }
pub open spec fn s_sing_seg(s: SSeg) -> bool { match s { SSeg::Child(l) => l.len() == 1 && (l[0] is Name || l[0] is Index), SSeg::Desc(_) => false, SSeg::Eoi => true } }
pub open spec fn s_sing(q: Seq<SSeg>) -> bool { forall|i: int| 0 <= i < q.len() ==> s_sing_seg(#[trigger] q[i]) }
/// what may be compared
pub open spec fn s_cmp(e: SE, fs: SSigs) -> bool {
    match e { SE::Rel(q) => s_sing(q), SE::Root(q) => s_sing(q), SE::Func(f, _) => ret_is(fs, f, ExpressionType::Value), _ => true }
}
/// what the grammar lets stand on a side of a comparison
pub open spec fn s_side(e: SE) -> bool { s_lit(e) || e is Rel || e is Root || e is Func }
/// what may stand as a test of its own
pub open spec fn s_test(e: SE, fs: SSigs) -> bool { match e { SE::Func(f, _) => !ret_is(fs, f, ExpressionType::Value), _ => true } }
/// what may be passed for a parameter
pub open spec fn s_value(e: SE, fs: SSigs) -> bool {
    s_lit(e) || match e { SE::Rel(q) => s_sing(q), SE::Root(q) => s_sing(q), SE::Func(f, _) => ret_is(fs, f, ExpressionType::Value), _ => false }
}
pub open spec fn s_nodes(e: SE, fs: SSigs) -> bool { match e { SE::Rel(_) => true, SE::Root(_) => true, SE::Func(f, _) => ret_is(fs, f, ExpressionType::Nodes), _ => false } }
pub open spec fn s_fits(t: ExpressionType, e: SE, fs: SSigs) -> bool {
    match t { ExpressionType::Value => s_value(e, fs), ExpressionType::Logical => !s_lit(e) && s_test(e, fs), ExpressionType::Nodes => s_nodes(e, fs) }
}
pub open spec fn s_call(f: Seq<char>, args: Seq<SE>, fs: SSigs) -> bool {
    fs.contains_key(f) && args.len() == fs[f].params.len() && forall|i: int| 0 <= i < args.len() ==> s_fits(fs[f].params[i], #[trigger] args[i], fs)
}
pub open spec fn in_range(i: int) -> bool { -9007199254740991 <= i <= 9007199254740991 }
pub open spec fn opt_in_range(i: Option<int>) -> bool { i is Some ==> in_range(i.unwrap()) }
pub open spec fn s_ok(e: SE, fs: SSigs) -> bool decreases e {
    match e {
        SE::Not(x) => s_ok(*x, fs) && s_test(*x, fs),
        SE::Logical(l, _, r) => s_ok(*l, fs) && s_ok(*r, fs) && s_test(*l, fs) && s_test(*r, fs),
        SE::Cmp(l, _, r) => s_ok(*l, fs) && s_ok(*r, fs) && s_cmp(*l, fs) && s_cmp(*r, fs) && s_side(*l) && s_side(*r),
        SE::Rel(q) => s_ok_q(q, fs),
        SE::Root(q) => s_ok_q(q, fs),
        SE::Func(f, a) => s_call(f, a, fs) && forall|i: int| 0 <= i < a.len() ==> s_ok(#[trigger] a[i], fs),
        _ => true,
    }
}
pub open spec fn s_ok_seg(s: SSeg, fs: SSigs) -> bool decreases s {
    match s {
        SSeg::Child(l) => s_ok_sels(l, fs),
        SSeg::Desc(l) => s_ok_sels(l, fs),
        SSeg::Eoi => true,
    }
}
pub open spec fn s_ok_sel(s: SSel, fs: SSigs) -> bool decreases s {
    match s {
        SSel::Index(i) => in_range(i),
        SSel::Slice(a, b, c) => opt_in_range(a) && opt_in_range(b) && opt_in_range(c),
        SSel::Filter(e) => s_ok(*e, fs) && s_test(*e, fs),
        SSel::Sing(q) => s_sing(q) && s_ok_q(q, fs),
        _ => true,
    }
}
pub open spec fn s_ok_q(q: Seq<SSeg>, fs: SSigs) -> bool decreases q { forall|i: int| 0 <= i < q.len() ==> s_ok_seg(#[trigger] q[i], fs) }
pub open spec fn s_ok_sels(q: Seq<SSel>, fs: SSigs) -> bool decreases q { forall|i: int| 0 <= i < q.len() ==> s_ok_sel(#[trigger] q[i], fs) }
/// the five standard functions
pub open spec fn std_sigs() -> SSigs {
    vstd::map::Map::<Seq<char>, SSig>::empty()
        .insert("count"@, SSig { params: seq![ExpressionType::Nodes], ret: ExpressionType::Value })
        .insert("length"@, SSig { params: seq![ExpressionType::Value], ret: ExpressionType::Value })
        .insert("match"@, SSig { params: seq![ExpressionType::Value, ExpressionType::Value], ret: ExpressionType::Logical })
        .insert("search"@, SSig { params: seq![ExpressionType::Value, ExpressionType::Value], ret: ExpressionType::Logical })
        .insert("value"@, SSig { params: seq![ExpressionType::Nodes], ret: ExpressionType::Value })
}
pub open spec fn sig_view(s: FunctionSignature) -> SSig { SSig { params: s.param_types@, ret: s.return_type } }
