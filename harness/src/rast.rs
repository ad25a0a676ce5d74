//! The reference (oracle) syntax tree of RFC 9535.
#[derive(Debug, Clone, PartialEq)]
pub struct Q {
    pub segs: Vec<Seg>,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Seg {
    pub desc: bool,
    pub sels: Vec<Sel>,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Sel {
    Name(String),
    Wild,
    Index(i64),
    Slice(Option<i64>, Option<i64>, Option<i64>),
    Filter(Box<Ex>),
    /// extension of the singular-selector crate
    Sing(Q),
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Op {
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Ex {
    True,
    False,
    Null,
    Str(String),
    Int(i64),
    Float(f64),
    Not(Box<Ex>),
    And(Box<Ex>, Box<Ex>),
    Or(Box<Ex>, Box<Ex>),
    Cmp(Box<Ex>, Op, Box<Ex>),
    Rel(Q),
    Root(Q),
    Func(String, Vec<Ex>),
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Ty {
    Value,
    Logical,
    Nodes,
}

impl Q {
    pub fn singular(&self) -> bool {
        self.segs.iter().all(|s| {
            !s.desc && s.sels.len() == 1 && matches!(s.sels[0], Sel::Name(_) | Sel::Index(_))
        })
    }
}
impl Ex {
    pub fn is_literal(&self) -> bool {
        matches!(
            self,
            Ex::True | Ex::False | Ex::Null | Ex::Str(_) | Ex::Int(_) | Ex::Float(_)
        )
    }
    /// `&&` and `||` are associative: compare trees modulo how chains are nested,
    /// and modulo the Int/Float representation of a number.
    pub fn norm(&self) -> Ex {
        match self {
            Ex::And(..) => {
                let mut v = Vec::new();
                self.flat(true, &mut v);
                let mut it = v.into_iter();
                let first = it.next().unwrap();
                it.fold(first, |a, b| Ex::And(Box::new(a), Box::new(b)))
            }
            Ex::Or(..) => {
                let mut v = Vec::new();
                self.flat(false, &mut v);
                let mut it = v.into_iter();
                let first = it.next().unwrap();
                it.fold(first, |a, b| Ex::Or(Box::new(a), Box::new(b)))
            }
            Ex::Not(e) => Ex::Not(Box::new(e.norm())),
            Ex::Cmp(a, o, b) => Ex::Cmp(Box::new(a.norm()), *o, Box::new(b.norm())),
            Ex::Rel(q) => Ex::Rel(q.norm()),
            Ex::Root(q) => Ex::Root(q.norm()),
            Ex::Func(n, a) => Ex::Func(n.clone(), a.iter().map(|x| x.norm()).collect()),
            Ex::Float(f) if *f == f.trunc() && f.abs() < 9223372036854775807.0 => Ex::Int(*f as i64),
            e => e.clone(),
        }
    }
    fn flat(&self, and: bool, out: &mut Vec<Ex>) {
        match self {
            Ex::And(a, b) if and => {
                a.flat(and, out);
                b.flat(and, out);
            }
            Ex::Or(a, b) if !and => {
                a.flat(and, out);
                b.flat(and, out);
            }
            e => out.push(e.norm()),
        }
    }
}
impl Q {
    pub fn norm(&self) -> Q {
        Q {
            segs: self
                .segs
                .iter()
                .map(|s| Seg {
                    desc: s.desc,
                    sels: s
                        .sels
                        .iter()
                        .map(|x| match x {
                            Sel::Filter(e) => Sel::Filter(Box::new(e.norm())),
                            Sel::Slice(a, b, c) => Sel::Slice(*a, *b, Some(c.unwrap_or(1))),
                            Sel::Sing(q) => Sel::Sing(q.norm()),
                            x => x.clone(),
                        })
                        .collect(),
                })
                .collect(),
        }
    }
}

// ---------------------------------------------------------------- printing
pub fn quote(s: &str, q: char) -> String {
    let mut r = String::new();
    r.push(q);
    for c in s.chars() {
        match c {
            c if c == q => {
                r.push('\\');
                r.push(c);
            }
            '\\' => r.push_str("\\\\"),
            '\u{8}' => r.push_str("\\b"),
            '\u{c}' => r.push_str("\\f"),
            '\n' => r.push_str("\\n"),
            '\r' => r.push_str("\\r"),
            '\t' => r.push_str("\\t"),
            c if (c as u32) < 0x20 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push(q);
    r
}
pub fn print_q(q: &Q, root: &str) -> String {
    let mut r = String::from(root);
    for s in &q.segs {
        if s.desc {
            r.push_str("..");
        }
        r.push('[');
        let v: Vec<String> = s.sels.iter().map(print_sel).collect();
        r.push_str(&v.join(", "));
        r.push(']');
    }
    r
}
pub fn print_sel(s: &Sel) -> String {
    match s {
        Sel::Name(n) => quote(n, '\''),
        Sel::Wild => "*".into(),
        Sel::Index(i) => i.to_string(),
        Sel::Slice(a, b, c) => {
            let f = |o: &Option<i64>| o.map(|x| x.to_string()).unwrap_or_default();
            match c {
                Some(_) => format!("{}:{}:{}", f(a), f(b), f(c)),
                None => format!("{}:{}", f(a), f(b)),
            }
        }
        Sel::Filter(e) => format!("?{}", print_ex(e, 0)),
        Sel::Sing(q) => print_q(q, "$"),
    }
}
pub fn print_num(f: f64) -> String {
    format!("{:?}", f).replace("E", "e")
}
/// prec: 0 = or allowed, 1 = and allowed, 2 = basic only
pub fn print_ex(e: &Ex, prec: u8) -> String {
    match e {
        Ex::True => "true".into(),
        Ex::False => "false".into(),
        Ex::Null => "null".into(),
        Ex::Str(s) => quote(s, '\''),
        Ex::Int(i) => i.to_string(),
        Ex::Float(f) => print_num(*f),
        Ex::Not(x) => match **x {
            Ex::Rel(_) | Ex::Root(_) | Ex::Func(..) => format!("!{}", print_ex(x, 2)),
            _ => format!("!({})", print_ex(x, 0)),
        },
        Ex::Or(a, b) => {
            let s = format!("{} || {}", print_ex(a, 0), print_ex(b, 1));
            if prec > 0 {
                format!("({})", s)
            } else {
                s
            }
        }
        Ex::And(a, b) => {
            let s = format!("{} && {}", print_ex(a, 1), print_ex(b, 2));
            if prec > 1 {
                format!("({})", s)
            } else {
                s
            }
        }
        Ex::Cmp(a, o, b) => format!("{} {} {}", print_ex(a, 2), print_op(*o), print_ex(b, 2)),
        Ex::Rel(q) => print_q(q, "@"),
        Ex::Root(q) => print_q(q, "$"),
        Ex::Func(n, a) => format!(
            "{}({})",
            n,
            a.iter().map(|x| print_ex(x, 0)).collect::<Vec<_>>().join(", ")
        ),
    }
}
pub fn print_op(o: Op) -> &'static str {
    match o {
        Op::Eq => "==",
        Op::Ne => "!=",
        Op::Lt => "<",
        Op::Le => "<=",
        Op::Gt => ">",
        Op::Ge => ">=",
    }
}

impl Ex {
    fn plain(&self) -> Ex {
        match self {
            Ex::Str(s) => Ex::Str(s.chars().map(|c| if c < ' ' || matches!(c, '\\' | '\'' | '"') { 'x' } else { c }).collect()),
            Ex::And(a, b) => Ex::And(Box::new(a.plain()), Box::new(b.plain())),
            Ex::Or(a, b) => Ex::Or(Box::new(a.plain()), Box::new(b.plain())),
            Ex::Not(e) => Ex::Not(Box::new(e.plain())),
            Ex::Cmp(a, o, b) => Ex::Cmp(Box::new(a.plain()), *o, Box::new(b.plain())),
            Ex::Rel(q) => Ex::Rel(q.plain_literals()),
            Ex::Root(q) => Ex::Root(q.plain_literals()),
            Ex::Func(n, a) => Ex::Func(n.clone(), a.iter().map(|x| x.plain()).collect()),
            e => e.clone(),
        }
    }
}
impl Q {
    /// the same query, with string literals of filters that need no escapes
    pub fn plain_literals(&self) -> Q {
        let mut q = self.clone();
        for s in &mut q.segs {
            for x in &mut s.sels {
                match x {
                    Sel::Filter(e) => *e = Box::new(e.plain()),
                    Sel::Sing(p) => *p = p.plain_literals(),
                    _ => (),
                }
            }
        }
        q
    }
}
