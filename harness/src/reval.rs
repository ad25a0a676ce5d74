//! Reference evaluator: RFC 9535 section 2, executed literally.
use crate::rast::*;
use serde_json::Value;

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum PE {
    I(usize),
    K(String),
}
pub type Path = Vec<PE>;
#[derive(Debug, Clone)]
pub struct N<'v> {
    pub path: Path,
    pub value: &'v Value,
}
/// RFC 9535 section 2.7
pub fn normalized(p: &[PE]) -> String {
    let mut r = String::from("$");
    for e in p {
        match e {
            PE::I(i) => r.push_str(&format!("[{}]", i)),
            PE::K(k) => {
                r.push('[');
                r.push_str(&quote(k, '\''));
                r.push(']');
            }
        }
    }
    r
}
pub enum V<'v> {
    Val(&'v Value),
    Own(Value),
    Nothing,
}
impl<'v> V<'v> {
    pub fn get(&self) -> Option<&Value> {
        match self {
            V::Val(v) => Some(v),
            V::Own(v) => Some(v),
            V::Nothing => None,
        }
    }
}
enum A<'v> {
    Val(V<'v>),
    Nodes(Vec<N<'v>>),
    #[allow(dead_code)]
    Logical(bool),
}

pub fn eval<'v>(q: &Q, root: &'v Value) -> Vec<N<'v>> {
    eval_from(q, root, root)
}
pub fn eval_from<'v>(q: &Q, start: &'v Value, root: &'v Value) -> Vec<N<'v>> {
    let mut nodes = vec![N {
        path: vec![],
        value: start,
    }];
    for s in &q.segs {
        let mut out = Vec::new();
        for n in &nodes {
            if s.desc {
                let mut d = Vec::new();
                descend(n, &mut d);
                for x in &d {
                    for sel in &s.sels {
                        select(sel, x, root, &mut out);
                    }
                }
            } else {
                for sel in &s.sels {
                    select(sel, n, root, &mut out);
                }
            }
        }
        nodes = out;
    }
    nodes
}
fn descend<'v>(n: &N<'v>, out: &mut Vec<N<'v>>) {
    out.push(n.clone());
    for c in children(n) {
        descend(&c, out);
    }
}
pub fn children<'v>(n: &N<'v>) -> Vec<N<'v>> {
    let mk = |e: PE, v: &'v Value| {
        let mut p = n.path.clone();
        p.push(e);
        N { path: p, value: v }
    };
    match n.value {
        Value::Array(a) => a.iter().enumerate().map(|(i, v)| mk(PE::I(i), v)).collect(),
        Value::Object(o) => o.iter().map(|(k, v)| mk(PE::K(k.clone()), v)).collect(),
        _ => vec![],
    }
}
/// the indices selected by start:end:step of an array of length len, RFC 9535 section 2.3.4.2.2
pub fn slice_indices(len: usize, start: Option<i64>, end: Option<i64>, step: Option<i64>) -> Vec<usize> {
    let len = len as i128;
    let step = step.unwrap_or(1) as i128;
    if step == 0 {
        return vec![];
    }
    let norm = |i: i128| if i >= 0 { i } else { len + i };
    let (ds, de) = if step > 0 { (0, len) } else { (len - 1, -len - 1) };
    let s = norm(start.map(|x| x as i128).unwrap_or(ds));
    let e = norm(end.map(|x| x as i128).unwrap_or(de));
    let mut out = vec![];
    if step > 0 {
        let lower = s.max(0).min(len);
        let upper = e.max(0).min(len);
        let mut i = lower;
        while i < upper {
            out.push(i as usize);
            i += step;
        }
    } else {
        let upper = s.max(-1).min(len - 1);
        let lower = e.max(-1).min(len - 1);
        let mut i = upper;
        while lower < i {
            out.push(i as usize);
            i += step;
        }
    }
    out
}
pub fn index_of(len: usize, i: i64) -> Option<usize> {
    let k = if i >= 0 { i as i128 } else { len as i128 + i as i128 };
    if k >= 0 && k < len as i128 {
        Some(k as usize)
    } else {
        None
    }
}
fn select<'v>(s: &Sel, n: &N<'v>, root: &'v Value, out: &mut Vec<N<'v>>) {
    match s {
        Sel::Name(k) => {
            if let Value::Object(o) = n.value {
                if let Some((_, v)) = o.iter().find(|(kk, _)| *kk == k) {
                    let mut p = n.path.clone();
                    p.push(PE::K(k.clone()));
                    out.push(N { path: p, value: v });
                }
            }
        }
        Sel::Wild => out.extend(children(n)),
        Sel::Index(i) => {
            if let Value::Array(a) = n.value {
                if let Some(k) = index_of(a.len(), *i) {
                    out.push(children(n)[k].clone());
                }
            }
        }
        Sel::Slice(a, b, c) => {
            if let Value::Array(arr) = n.value {
                let ch = children(n);
                for k in slice_indices(arr.len(), *a, *b, *c) {
                    out.push(ch[k].clone());
                }
            }
        }
        Sel::Filter(e) => {
            for c in children(n) {
                if logical(e, c.value, root) {
                    out.push(c);
                }
            }
        }
        Sel::Sing(q) => {
            let r = eval_from(q, root, root);
            if r.len() == 1 {
                match r[0].value {
                    Value::String(k) => select(&Sel::Name(k.clone()), n, root, out),
                    Value::Number(m) => {
                        if let Some(i) = m.as_i64() {
                            select(&Sel::Index(i), n, root, out)
                        }
                    }
                    _ => (),
                }
            }
        }
    }
}
pub fn logical(e: &Ex, cur: &Value, root: &Value) -> bool {
    match e {
        Ex::Or(a, b) => logical(a, cur, root) || logical(b, cur, root),
        Ex::And(a, b) => logical(a, cur, root) && logical(b, cur, root),
        Ex::Not(a) => !logical(a, cur, root),
        Ex::Cmp(a, o, b) => {
            let a = value(a, cur, root);
            let b = value(b, cur, root);
            compare(a.get(), *o, b.get())
        }
        Ex::Rel(q) => !eval_from(q, cur, root).is_empty(),
        Ex::Root(q) => !eval_from(q, root, root).is_empty(),
        Ex::Func(n, args) => match call(n, args, cur, root) {
            A::Logical(b) => b,
            A::Nodes(n) => !n.is_empty(),
            A::Val(_) => panic!("oracle: value function as a test"),
        },
        _ => panic!("oracle: literal as a test"),
    }
}
fn value<'v>(e: &Ex, cur: &'v Value, root: &'v Value) -> V<'v> {
    match e {
        Ex::True => V::Own(Value::Bool(true)),
        Ex::False => V::Own(Value::Bool(false)),
        Ex::Null => V::Own(Value::Null),
        Ex::Str(s) => V::Own(Value::String(s.clone())),
        Ex::Int(i) => V::Own(Value::from(*i)),
        Ex::Float(f) => match serde_json::Number::from_f64(*f) {
            Some(n) => V::Own(Value::Number(n)),
            None => V::Nothing,
        },
        Ex::Rel(q) => one(eval_from(q, cur, root)),
        Ex::Root(q) => one(eval_from(q, root, root)),
        Ex::Func(n, a) => match call(n, a, cur, root) {
            A::Val(v) => v,
            _ => panic!("oracle: not a value"),
        },
        _ => panic!("oracle: not comparable"),
    }
}
fn one<'v>(n: Vec<N<'v>>) -> V<'v> {
    if n.len() == 1 {
        V::Val(n[0].value)
    } else {
        V::Nothing
    }
}
fn call<'v>(n: &str, args: &[Ex], cur: &'v Value, root: &'v Value) -> A<'v> {
    let nodes = |e: &Ex| match e {
        Ex::Rel(q) => eval_from(q, cur, root),
        Ex::Root(q) => eval_from(q, root, root),
        Ex::Func(n, a) => match call(n, a, cur, root) {
            A::Nodes(n) => n,
            _ => panic!("oracle: nodes argument"),
        },
        _ => panic!("oracle: nodes argument"),
    };
    match n {
        "count" => A::Val(V::Own(Value::from(nodes(&args[0]).len() as i64))),
        "value" => A::Val(one(nodes(&args[0]))),
        "length" => A::Val(match value(&args[0], cur, root).get() {
            Some(Value::String(s)) => V::Own(Value::from(s.chars().count() as i64)),
            Some(Value::Array(a)) => V::Own(Value::from(a.len() as i64)),
            Some(Value::Object(o)) => V::Own(Value::from(o.len() as i64)),
            _ => V::Nothing,
        }),
        "match" | "search" => {
            let s = value(&args[0], cur, root);
            let p = value(&args[1], cur, root);
            A::Logical(match (s.get(), p.get()) {
                (Some(Value::String(s)), Some(Value::String(p))) => regex_test(n == "match", s, p),
                _ => false,
            })
        }
        // the functions of imp::CUSTOM
        "t" => A::Logical(logical(&args[0], cur, root)),
        "lv" => A::Val(V::Own(Value::Bool(logical(&args[0], cur, root)))),
        "same" => A::Val(value(&args[0], cur, root)),
        "isnull" => A::Logical(matches!(value(&args[0], cur, root).get(), Some(Value::Null))),
        "absent" => A::Logical(value(&args[0], cur, root).get().is_none()),
        "ns" => A::Nodes(nodes(&args[0])),
        "many" => A::Logical(nodes(&args[0]).len() > 1),
        "mix" => A::Logical(matches!(value(&args[0], cur, root).get(), Some(Value::Number(x)) if x.as_i64() == Some(1)) && logical(&args[1], cur, root) && nodes(&args[2]).len() == 1),
        _ => panic!("oracle: unknown function {}", n),
    }
}
/// I-Regexp to the regex crate: outside a class an unescaped `.` is any character but CR and LF
pub fn regex_test(full: bool, s: &str, p: &str) -> bool {
    if !iregexp::check(p) {
        return false;
    }
    let mut t = String::new();
    let (mut esc, mut class) = (false, false);
    for c in p.chars() {
        if esc {
            t.push(c);
            esc = false;
            continue;
        }
        match c {
            '\\' => {
                esc = true;
                t.push(c)
            }
            '[' => {
                class = true;
                t.push(c)
            }
            ']' => {
                class = false;
                t.push(c)
            }
            '.' if !class => t.push_str("[^\\n\\r]"),
            '&' | '~' if class => t.extend(['\\', c]),
            c => t.push(c),
        }
    }
    let t = if full { format!(r"\A(?:{})\z", t) } else { t };
    match regex::Regex::new(&t) {
        Ok(r) => r.is_match(s),
        Err(_) => false,
    }
}
fn num_cmp(a: &serde_json::Number, b: &serde_json::Number) -> Option<std::cmp::Ordering> {
    let int = |n: &serde_json::Number| -> Option<i128> {
        n.as_i64().map(|x| x as i128).or(n.as_u64().map(|x| x as i128))
    };
    match (int(a), int(b)) {
        (Some(x), Some(y)) => Some(x.cmp(&y)),
        _ => a.as_f64().unwrap().partial_cmp(&b.as_f64().unwrap()),
    }
}
pub fn deep_eq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => num_cmp(x, y) == Some(std::cmp::Ordering::Equal),
        (Value::Array(x), Value::Array(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(p, q)| deep_eq(p, q))
        }
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, v)| matches!(y.get(k), Some(w) if deep_eq(v, w)))
        }
        (Value::Null, Value::Null) => true,
        (Value::Bool(x), Value::Bool(y)) => x == y,
        (Value::String(x), Value::String(y)) => x == y,
        _ => false,
    }
}
fn v_eq(a: Option<&Value>, b: Option<&Value>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => deep_eq(a, b),
        _ => false,
    }
}
fn v_lt(a: Option<&Value>, b: Option<&Value>) -> bool {
    match (a, b) {
        (Some(Value::Number(x)), Some(Value::Number(y))) => num_cmp(x, y) == Some(std::cmp::Ordering::Less),
        (Some(Value::String(x)), Some(Value::String(y))) => x.chars().lt(y.chars()),
        _ => false,
    }
}
pub fn compare(a: Option<&Value>, o: Op, b: Option<&Value>) -> bool {
    match o {
        Op::Eq => v_eq(a, b),
        Op::Ne => !v_eq(a, b),
        Op::Lt => v_lt(a, b),
        Op::Gt => v_lt(b, a),
        Op::Le => v_lt(a, b) || v_eq(a, b),
        Op::Ge => v_lt(b, a) || v_eq(a, b),
    }
}
