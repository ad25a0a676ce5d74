//! One concrete case of one property, decided on the real crates against the reference.
use crate::gen::shrink_json;
use crate::imp::*;
use crate::rast::*;
use crate::reval::{self, PE};
use crate::rparse;
use serde_json::{json, Value};

pub type Case = Value;
fn ev_of(s: &str) -> Ev {
    *EVALS.iter().find(|e| e.name() == s).expect("evaluator name")
}
fn pr_of(s: &str) -> Pr {
    *PARSERS.iter().find(|e| e.name() == s).expect("parser name")
}
fn st<'a>(c: &'a Case, k: &str) -> &'a str {
    c[k].as_str().unwrap_or_else(|| panic!("HARNESS case lacks {}", k))
}
pub enum Verdict {
    Pass,
    /// the case does not test the property (for instance the text is not a query)
    Skip,
    Fail(String),
}
use Verdict::*;
fn show_paths(n: &[reval::N]) -> String {
    n.iter().map(|x| reval::normalized(&x.path)).collect::<Vec<_>>().join(" ")
}
pub fn check(c: &Case) -> Verdict {
    match st(c, "kind") {
        "nodes" | "paths" => {
            let ev = ev_of(st(c, "ev"));
            let (qt, doc) = (st(c, "q"), &c["doc"]);
            let sing = matches!(ev, Ev::Sing | Ev::SingEnv) && c["sing"].as_bool().unwrap_or(false);
            let q = match rparse::parse_with(qt, &rparse::std_fns(), sing) {
                Ok(q) => q,
                Err(_) => return Skip,
            };
            let want = reval::eval(&q, doc);
            match eval(ev, qt, doc) {
                Out::Panic(m) => Fail(format!("{} panicked on {}: {}", ev.name(), qt, m)),
                Out::Err(e) => {
                    // a parser that rejects the text is another property's business
                    if let Out::Ok(()) = accepts(ev.parser(), qt) {
                        return Fail(format!("{} fails on {}, which its parser accepts: {}", ev.name(), qt, e));
                    }
                    Skip
                }
                Out::Ok(got) => {
                    if st(c, "kind") == "nodes" {
                        let same = got.len() == want.len()
                            && got.iter().zip(&want).all(|(g, w)| std::ptr::eq(g.ptr, w.value));
                        if same {
                            Pass
                        } else {
                            let gp = got.iter().map(|g| g.path.clone()).collect::<Vec<_>>().join(" ");
                            Fail(format!(
                                "{}({}) selected [{}], RFC 9535 selects [{}]",
                                ev.name(),
                                qt,
                                gp,
                                show_paths(&want)
                            ))
                        }
                    } else {
                        // locations: each node's path must lead to the node it names
                        for g in &got {
                            match locate(doc, g.ptr) {
                                None => return Fail(format!("{}({}): a node is not part of the document", ev.name(), qt)),
                                Some(p) => {
                                    let w = reval::normalized(&p);
                                    if g.path != w {
                                        return Fail(format!("{}({}): node at {} reports location {}", ev.name(), qt, w, g.path));
                                    }
                                    if let Some(e) = &g.elems {
                                        if *e != p {
                                            return Fail(format!("{}({}): node at {} has location elements {:?}", ev.name(), qt, w, e));
                                        }
                                    }
                                    // and the location, used as a query, selects exactly that node
                                    match eval(ev, &g.path, doc) {
                                        Out::Ok(v) if v.len() == 1 && std::ptr::eq(v[0].ptr, g.ptr) => (),
                                        o => return Fail(format!("{}: location {} used as a query gives {:?}", ev.name(), g.path, o)),
                                    }
                                }
                            }
                        }
                        Pass
                    }
                }
            }
        }
        // an evaluation history: every step must give what a first-time evaluation gives
        "history" => {
            let ev = ev_of(st(c, "ev"));
            for (i, s) in c["steps"].as_array().unwrap().iter().enumerate() {
                let mut k = s.clone();
                k["kind"] = json!("nodes");
                k["ev"] = json!(ev.name());
                if let Fail(m) = check(&k) {
                    return Fail(format!("step {}: {}", i, m));
                }
            }
            Pass
        }
        "agree" => {
            let (qt, doc) = (st(c, "q"), &c["doc"]);
            let mut first: Option<(Ev, Vec<*const Value>)> = None;
            for ev in EVALS {
                match eval(ev, qt, doc) {
                    Out::Panic(m) => return Fail(format!("{} panicked on {}: {}", ev.name(), qt, m)),
                    Out::Err(e) => match accepts(ev.parser(), qt) {
                        Out::Ok(()) => return Fail(format!("{} fails on {}, which its parser accepts: {}", ev.name(), qt, e)),
                        _ => continue,
                    },
                    Out::Ok(v) => {
                        let p: Vec<*const Value> = v.iter().map(|n| n.ptr).collect();
                        match &first {
                            None => first = Some((ev, p)),
                            Some((e0, p0)) if *p0 != p => {
                                return Fail(format!(
                                    "{} selects {} nodes and {} selects {} nodes (or another order) for {}",
                                    e0.name(), p0.len(), ev.name(), p.len(), qt
                                ))
                            }
                            _ => (),
                        }
                    }
                }
            }
            Pass
        }
        "noloss" => {
            // evaluation returns (whatever it returns) without panicking
            let ev = ev_of(st(c, "ev"));
            match eval(ev, st(c, "q"), &c["doc"]) {
                Out::Panic(m) => Fail(format!("{} panicked on {}: {}", ev.name(), st(c, "q"), m)),
                _ => Pass,
            }
        }
        // a large document, evaluated in a process of its own with an ordinary stack
        "bigdoc" => {
            let (ev, q, shape, n) = (st(c, "ev"), st(c, "q"), st(c, "shape"), c["n"].as_u64().unwrap());
            let exe = std::env::current_exe().unwrap();
            let out = std::process::Command::new(exe).args(["big", ev, q, shape, &n.to_string()]).output();
            match out {
                Ok(o) if o.status.success() => Pass,
                Ok(o) => Fail(format!("{} does not survive {} on an {} of {} members ({})", ev, q, shape, n, o.status)),
                Err(_) => Skip,
            }
        }
        // parse: accept exactly the well-formed and valid queries, and build the right tree
        "parse" | "accept" => {
            let p = pr_of(st(c, "pr"));
            let t = st(c, "q");
            let sing = p == Pr::Sing;
            let want = rparse::parse_with(t, &fns_of(c), sing);
            let got = if c.get("fns").is_some() { parse_custom(p, t, &custom_of(c)) } else { parse(p, t) };
            match (want, got) {
                (_, Out::Panic(m)) => Fail(format!("{} panicked on {:?}: {}", p.name(), t, m)),
                (Err(e), _) if e.starts_with("unspecified") => Skip,
                (Err(_), Out::Err(_)) => Pass,
                (Ok(_), Out::Err(e)) => Fail(format!("{} rejects the valid query {:?}: {}", p.name(), t, e)),
                (Err(e), Out::Ok(_)) => Fail(format!("{} accepts the invalid query {:?} ({})", p.name(), t, e)),
                (Ok(w), Out::Ok(g)) => {
                    if st(c, "kind") == "accept" || w.norm() == g.q.norm() {
                        Pass
                    } else {
                        Fail(format!(
                            "{} parses {:?} as {}, the grammar gives {}",
                            p.name(),
                            t,
                            print_q(&g.q, "$"),
                            print_q(&w, "$")
                        ))
                    }
                }
            }
        }
        // the tree of an accepted query is the grammar's tree
        "tree" => {
            let p = pr_of(st(c, "pr"));
            let t = st(c, "q");
            let want = match rparse::parse_with(t, &fns_of(c), p == Pr::Sing) {
                Ok(w) => w,
                Err(_) => return Skip,
            };
            match parse(p, t) {
                Out::Panic(m) => Fail(format!("{} panicked on {:?}: {}", p.name(), t, m)),
                Out::Err(_) => Skip,
                Out::Ok(g) => {
                    if want.norm() == g.q.norm() {
                        Pass
                    } else {
                        Fail(format!("{} parses {:?} as {}, the grammar gives {}", p.name(), t, print_q(&g.q, "$"), print_q(&want, "$")))
                    }
                }
            }
        }
        "total" => {
            let p = pr_of(st(c, "pr"));
            match accepts(p, st(c, "q")) {
                Out::Panic(m) => Fail(format!("{} panicked on {:?}: {}", p.name(), st(c, "q"), m)),
                Out::Err(e) if e.is_empty() => Fail(format!("{} rejects {:?} without a message", p.name(), st(c, "q"))),
                Out::Err(e) if p == Pr::Hand => match hand::Query::standard(st(c, "q")) {
                    // its errors say where
                    Err(x) if x.span.0 > x.span.1 || x.span.1 > st(c, "q").len() => Fail(format!("{} reports an error at {:?}, which is not in {:?}: {}", p.name(), x.span, st(c, "q"), e)),
                    _ => Pass,
                },
                _ => Pass,
            }
        }
        "display" => {
            let p = pr_of(st(c, "pr"));
            let t = st(c, "q");
            match parse(p, t) {
                Out::Ok(a) => match parse(p, &a.display) {
                    Out::Ok(b) => {
                        if a.q.norm() != b.q.norm() {
                            Fail(format!("{}: {:?} prints as {:?}, which parses to another tree", p.name(), t, a.display))
                        } else {
                            Pass
                        }
                    }
                    Out::Err(e) => Fail(format!("{}: {:?} prints as {:?}, which does not parse: {}", p.name(), t, a.display, e)),
                    Out::Panic(e) => Fail(format!("{}: {:?} prints as {:?}, which panics: {}", p.name(), t, a.display, e)),
                },
                // malformed text, and a panic on it, is not a matter of printing
                Out::Err(_) | Out::Panic(_) => Skip,
            }
        }
        "singular" => {
            let p = pr_of(st(c, "pr"));
            let t = st(c, "q");
            match parse(p, t) {
                Out::Ok(a) => {
                    if let Some(e) = a.empty {
                        if e != a.q.segs.is_empty() {
                            return Fail(format!("{}: is_empty() is {} for {:?}", p.name(), e, t));
                        }
                    }
                    if a.singular != a.q.singular() {
                        Fail(format!("{}: is_singular() is {} for {:?}", p.name(), a.singular, t))
                    } else {
                        Pass
                    }
                }
                _ => Skip,
            }
        }
        "custom-eval" => {
            let (p, t, doc) = (pr_of(st(c, "pr")), st(c, "q"), &c["doc"]);
            let mut fns = rparse::std_fns();
            for (n, ps, r) in CUSTOM {
                fns.insert(n.to_string(), rparse::Sig { params: ps.to_vec(), ret: r });
            }
            let q = match rparse::parse_with(t, &fns, false) {
                Ok(q) => q,
                Err(_) => return Skip,
            };
            let want: Vec<*const Value> = reval::eval(&q, doc).iter().map(|n| n.value as *const Value).collect();
            match eval_custom(p, t, doc) {
                Out::Ok(got) if got == want => Pass,
                Out::Ok(got) => Fail(format!("{} finds {} nodes for {:?} on {}, the definition {} (or others); t, lv, same, isnull, absent, ns, many and mix are registered functions", p.name(), got.len(), t, doc, want.len())),
                Out::Err(e) => Fail(format!("{} rejects {:?} though its functions are registered: {}", p.name(), t, e)),
                Out::Panic(e) => Fail(format!("{} panicked on {:?} with {}: {}", p.name(), t, doc, e)),
            }
        }
        "lex" => lex_case(st(c, "q")),
        "conslist" => cons_case(c),
        k => panic!("HARNESS unknown case kind {}", k),
    }
}
fn custom_of(c: &Case) -> Vec<(&str, Vec<Ty>, Ty)> {
    let ty = |v: &Value| match v.as_str().unwrap() {
        "v" => Ty::Value,
        "l" => Ty::Logical,
        _ => Ty::Nodes,
    };
    c["fns"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|f| {
                    (
                        f["name"].as_str().unwrap(),
                        f["params"].as_array().unwrap().iter().map(ty).collect(),
                        ty(&f["ret"]),
                    )
                })
                .collect()
        })
        .unwrap_or_default()
}
fn fns_of(c: &Case) -> rparse::Fns {
    let mut m = rparse::std_fns();
    for (n, p, r) in custom_of(c) {
        m.insert(n.to_string(), rparse::Sig { params: p, ret: r });
    }
    m
}
/// the path of a sub-value, found by address
fn locate(v: &Value, p: *const Value) -> Option<Vec<PE>> {
    if std::ptr::eq(v, p) {
        return Some(vec![]);
    }
    match v {
        Value::Array(a) => a.iter().enumerate().find_map(|(i, x)| {
            locate(x, p).map(|mut r| {
                r.insert(0, PE::I(i));
                r
            })
        }),
        Value::Object(o) => o.iter().find_map(|(k, x)| {
            locate(x, p).map(|mut r| {
                r.insert(0, PE::K(k.clone()));
                r
            })
        }),
        _ => None,
    }
}
fn lex_case(t: &str) -> Verdict {
    use hand::token::TokenType as T;
    let toks = match guard(|| Ok::<_, String>(hand::lexer::tokenize(t))) {
        Out::Ok(v) => v,
        Out::Panic(m) => return Fail(format!("tokenize panicked on {:?}: {}", t, m)),
        Out::Err(_) => return Skip,
    };
    if toks.is_empty() {
        return Fail(format!("no token for {:?}", t));
    }
    let mut prev = 0;
    for (i, k) in toks.iter().enumerate() {
        let (a, b) = k.span;
        let last = i + 1 == toks.len();
        if a > b || b > t.len() || !t.is_char_boundary(a) || !t.is_char_boundary(b) {
            return Fail(format!("token {:?} of {:?} has a span outside the text", k, t));
        }
        if a < prev && !matches!(k.kind, T::Error { .. }) {
            return Fail(format!("token {:?} of {:?} overlaps the one before it", k, t));
        }
        if !matches!(k.kind, T::Error { .. } | T::Eoq) {
            let gap = &t[prev..a];
            if !gap.chars().all(|c| matches!(c, ' ' | '\t' | '\n' | '\r' | '.' | '\'' | '"' | '(')) {
                return Fail(format!("{:?} is skipped before {:?} in {:?}", gap, k, t));
            }
            prev = b;
        }
        let src = &t[a..b];
        let ok = match &k.kind {
            T::Colon => src == ":",
            T::Comma => src == ",",
            T::DoubleDot => src == "..",
            T::Filter => src == "?",
            T::LBracket => src == "[",
            T::RBracket => src == "]",
            T::Root => src == "$",
            T::Wild => src == "*",
            T::And => src == "&&",
            T::Current => src == "@",
            T::Eq => src == "==",
            T::False => src == "false",
            T::Ge => src == ">=",
            T::Gt => src == ">",
            T::Le => src == "<=",
            T::LParen => src == "(",
            T::Lt => src == "<",
            T::Ne => src == "!=",
            T::Not => src == "!",
            T::Null => src == "null",
            T::Or => src == "||",
            T::RParen => src == ")",
            T::True => src == "true",
            T::Index { value } | T::Name { value } | T::Float { value } | T::Int { value } => src == &**value,
            T::Function { name } => src == &**name,
            T::DoubleQuoteString { value } | T::SingleQuoteString { value } => src == &**value,
            T::Eoq => last,
            T::Error { .. } => last,
        };
        if !ok {
            return Fail(format!("token {:?} of {:?} covers {:?}", k, t, src));
        }
        if last && !matches!(k.kind, T::Eoq | T::Error { .. }) {
            return Fail(format!("the tokens of {:?} end in {:?}", t, k));
        }
    }
    if rparse::parse(t).is_ok() && matches!(toks.last().unwrap().kind, T::Error { .. }) {
        // rejecting a valid query is judged by the parsing property
        return Skip;
    }
    Pass
}
macro_rules! cons {
    ($m:ident, $c:expr) => {{
        use $m::node::PathElement as E;
        let doc = json!(null);
        let base = $m::find("$", &doc).unwrap();
        // a pool of lists, each with its reference (front first)
        let mut pool = vec![(base[0].location.clone(), Vec::<usize>::new())];
        let idx = |e: &E| match e {
            E::Index(i) => *i,
            E::Name(_) => usize::MAX,
        };
        for (step, o) in $c["ops"].as_array().unwrap().iter().enumerate() {
            let at = o[1].as_u64().unwrap() as usize % pool.len();
            let n = o[2].as_u64().unwrap() as usize;
            let (l, r) = (pool[at].0.clone(), pool[at].1.clone());
            let next = match o[0].as_str().unwrap() {
                "append" => {
                    let mut q = vec![n];
                    q.extend(&r);
                    (l.append(E::Index(n)), q)
                }
                "from" => ((0..n).map(E::Index).collect(), (0..n).rev().collect()),
                "tail" => (l.tail(), r.iter().skip(1).cloned().collect()),
                "tailn" => (l.tailn(n), r.iter().skip(n).cloned().collect()),
                "lastn" => (l.lastn(n), r[r.len() - n.min(r.len())..].to_vec()),
                "drop" => {
                    if pool.len() > 1 {
                        pool.remove(at);
                    }
                    (l, r)
                }
                _ => (l, r),
            };
            pool.push(next);
            for (l, r) in &pool {
                let got: Vec<usize> = l.iter().map(idx).collect();
                let ok = got == *r
                    && l.len() == r.len()
                    && l.is_empty() == r.is_empty()
                    && l.head().map(idx) == r.first().cloned()
                    && l.last().map(idx) == r.last().cloned()
                    && l.iter().size_hint() == (r.len(), Some(r.len()))
                    && (&l).into_iter().map(idx).eq(r.iter().cloned())
                    && format!("{:?}", l) == format!("{:?}", r.iter().map(|i| E::Index(*i)).collect::<Vec<_>>())
                    && {
                        // an iterator and its copy go on alike
                        let mut a = l.iter();
                        a.next();
                        let b = a.clone();
                        let n = r.len().saturating_sub(1);
                        a.size_hint() == (n, Some(n)) && b.map(idx).eq(r.iter().skip(1).cloned()) && a.map(idx).eq(r.iter().skip(1).cloned())
                    };
                if !ok {
                    return Fail(format!("step {} {}: a list holds {:?}, expected {:?}", step, o, got, r));
                }
            }
        }
        Pass
    }};
}
fn cons_case(c: &Case) -> Verdict {
    let f = || -> Verdict {
        match st(c, "m") {
            "loc" => cons!(loc, c),
            _ => cons!(sing, c),
        }
    };
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(_) => Fail(format!("a list operation panicked: {}", c)),
    }
}
pub fn fails(c: &Case) -> bool {
    matches!(check(c), Fail(_))
}
fn drop_chars(t: &str) -> Vec<String> {
    let c: Vec<char> = t.chars().collect();
    let mut out = vec![];
    for w in [8usize, 4, 2, 1] {
        if c.len() <= w {
            continue;
        }
        for i in 0..=c.len() - w {
            let mut d = c.clone();
            d.drain(i..i + w);
            out.push(d.into_iter().collect());
        }
    }
    out
}
/// smaller variants of a failing case
pub fn shrinks(c: &Case) -> Vec<Case> {
    let mut out = vec![];
    if let Some(s) = c.get("steps").and_then(|s| s.as_array()) {
        for i in 0..s.len() {
            let mut k = c.clone();
            k["steps"].as_array_mut().unwrap().remove(i);
            out.push(k);
        }
        return out;
    }
    if let Some(s) = c.get("ops").and_then(|s| s.as_array()) {
        for i in 0..s.len() {
            let mut k = c.clone();
            k["ops"].as_array_mut().unwrap().remove(i);
            out.push(k);
        }
        return out;
    }
    if let Some(d) = c.get("doc") {
        for s in shrink_json(d) {
            let mut k = c.clone();
            k["doc"] = s;
            out.push(k);
        }
    }
    if let Some(q) = c.get("q").and_then(|q| q.as_str()) {
        for s in drop_chars(q) {
            let mut k = c.clone();
            k["q"] = json!(s);
            out.push(k);
        }
    }
    out
}
pub fn shrink(mut c: Case) -> Case {
    let t = std::time::Instant::now();
    'outer: loop {
        for s in shrinks(&c) {
            if t.elapsed().as_secs() > 10 {
                return c;
            }
            if fails(&s) {
                c = s;
                continue 'outer;
            }
        }
        return c;
    }
}

pub fn big(ev: &str, q: &str, shape: &str, n: usize) -> i32 {
    let d = match shape {
        "array" => Value::Array((0..n).map(|i| json!(i)).collect()),
        "object" => Value::Object((0..n).map(|i| (format!("k{}", i), json!(i))).collect()),
        _ => {
            let mut v = json!(0);
            for _ in 0..n {
                v = json!([v]);
            }
            v
        }
    };
    match eval(ev_of(ev), q, &d) {
        Out::Panic(_) => 1,
        _ => 0,
    }
}
/// The classes of findings that the known-findings file may list. A failure is of a class only
/// if it goes away when that one trait of the case is taken out.
pub fn known_class(c: &Case) -> Option<&'static str> {
    let kind = c["kind"].as_str()?;
    let pr = c["pr"].as_str()?;
    let t = c["q"].as_str()?;
    if matches!(kind, "parse" | "accept") && pr == Pr::Hand.name() {
        let mut u = String::new();
        let mut it = t.char_indices().peekable();
        while let Some((i, ch)) = it.next() {
            if ch != '\\' {
                u.push(ch);
                continue;
            }
            let rest = &t[i..];
            let h = rest.get(2..6).unwrap_or("");
            if rest.starts_with("\\u") && u32::from_str_radix(h, 16).map_or(false, |x| x < 0x20) {
                u.push('A');
                for _ in 0..5 {
                    it.next();
                }
            } else {
                u.push(ch);
                if let Some((_, d)) = it.next() {
                    u.push(d);
                }
            }
        }
        let mut d = c.clone();
        d["q"] = Value::from(u.clone());
        if u != t && matches!(check(&d), Pass) {
            return Some("hand-control-escape");
        }
    }
    if kind == "display" && matches!(pr_of(pr), Pr::Hand | Pr::Pest | Pr::Prec) {
        let q = rparse::parse(t).ok()?;
        let plain = q.plain_literals();
        let u = print_q(&plain, "$");
        let mut d = c.clone();
        d["q"] = Value::from(u);
        if plain.norm() != q.norm() && matches!(check(&d), Pass) {
            return Some("literal-display");
        }
    }
    None
}
