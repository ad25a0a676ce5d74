//! Reads the derived `{:?}` text of each crate's syntax tree into the reference tree,
//! so that private AST types can be compared without a hook.
use crate::rast::*;

#[derive(Debug, Clone)]
pub enum D {
    /// `Name`, `Name { .. }` or `Name(..)` (fields of the latter are named "0", "1", ..)
    St(String, Vec<(String, D)>),
    Seq(Vec<D>),
    Tup(Vec<D>),
    Str(String),
    Num(String),
}
struct S<'a> {
    b: &'a [u8],
    s: &'a str,
    i: usize,
}
pub fn parse(s: &str) -> Result<D, String> {
    let mut p = S {
        b: s.as_bytes(),
        s,
        i: 0,
    };
    let d = p.val()?;
    if p.i != p.b.len() {
        return Err(format!("debug text: trailing input at {}", p.i));
    }
    Ok(d)
}
impl<'a> S<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && self.b[self.i] == b' ' {
            self.i += 1
        }
    }
    fn pk(&self) -> u8 {
        *self.b.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        if self.pk() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn list(&mut self, end: u8) -> Result<Vec<D>, String> {
        let mut v = vec![];
        loop {
            if self.eat(end) {
                return Ok(v);
            }
            v.push(self.val()?);
            if !self.eat(b',') && { self.ws(); self.pk() != end } {
                return Err(format!("debug text: expected , at {}", self.i));
            }
        }
    }
    fn ident(&mut self) -> String {
        let st = self.i;
        while self.pk().is_ascii_alphanumeric() || self.pk() == b'_' {
            self.i += 1
        }
        self.s[st..self.i].to_string()
    }
    fn val(&mut self) -> Result<D, String> {
        self.ws();
        match self.pk() {
            b'[' => {
                self.i += 1;
                Ok(D::Seq(self.list(b']')?))
            }
            b'(' => {
                self.i += 1;
                Ok(D::Tup(self.list(b')')?))
            }
            b'"' => {
                self.i += 1;
                let mut r = String::new();
                loop {
                    let c = self.s[self.i..].chars().next().ok_or("debug text: unclosed string")?;
                    self.i += c.len_utf8();
                    match c {
                        '"' => return Ok(D::Str(r)),
                        '\\' => {
                            let e = self.pk();
                            self.i += 1;
                            match e {
                                b'n' => r.push('\n'),
                                b't' => r.push('\t'),
                                b'r' => r.push('\r'),
                                b'0' => r.push('\0'),
                                b'u' => {
                                    self.i += 1;
                                    let st = self.i;
                                    while self.pk() != b'}' {
                                        self.i += 1
                                    }
                                    let v = u32::from_str_radix(&self.s[st..self.i], 16).unwrap();
                                    self.i += 1;
                                    r.push(char::from_u32(v).unwrap());
                                }
                                e => r.push(e as char),
                            }
                        }
                        c => r.push(c),
                    }
                }
            }
            b'-' | b'0'..=b'9' => {
                let st = self.i;
                while matches!(self.pk(), b'-' | b'+' | b'.' | b'0'..=b'9' | b'e' | b'E' | b'i' | b'n' | b'f') {
                    self.i += 1
                }
                Ok(D::Num(self.s[st..self.i].to_string()))
            }
            c if c.is_ascii_alphabetic() => {
                let n = self.ident();
                if n == "inf" || n == "NaN" {
                    return Ok(D::Num(n));
                }
                let save = self.i;
                if self.eat(b'{') {
                    let mut v = vec![];
                    loop {
                        if self.eat(b'}') {
                            return Ok(D::St(n, v));
                        }
                        self.ws();
                        let f = self.ident();
                        if !self.eat(b':') {
                            return Err(format!("debug text: expected : at {}", self.i));
                        }
                        let d = self.val()?;
                        v.push((f, d));
                        self.eat(b',');
                    }
                }
                if self.eat(b'(') {
                    let v = self.list(b')')?;
                    return Ok(D::St(n, v.into_iter().enumerate().map(|(i, d)| (i.to_string(), d)).collect()));
                }
                self.i = save;
                Ok(D::St(n, vec![]))
            }
            c => Err(format!("debug text: unexpected {:?} at {}", c as char, self.i)),
        }
    }
}
type R<T> = Result<T, String>;
impl D {
    fn f(&self, k: &str) -> R<&D> {
        match self {
            D::St(n, v) => v
                .iter()
                .find(|(a, _)| a == k)
                .map(|(_, d)| d)
                .ok_or(format!("no field {} in {}", k, n)),
            _ => Err(format!("no field {}", k)),
        }
    }
    fn seq(&self) -> R<&Vec<D>> {
        match self {
            D::Seq(v) => Ok(v),
            _ => Err("not a list".into()),
        }
    }
    fn s(&self) -> R<String> {
        match self {
            D::Str(s) => Ok(s.clone()),
            _ => Err("not a string".into()),
        }
    }
    fn i(&self) -> R<i64> {
        match self {
            D::Num(s) => s.parse().map_err(|_| format!("not an i64: {}", s)),
            _ => Err("not a number".into()),
        }
    }
    fn fl(&self) -> R<f64> {
        match self {
            D::Num(s) => s.parse().map_err(|_| format!("not an f64: {}", s)),
            _ => Err("not a number".into()),
        }
    }
    fn oi(&self) -> R<Option<i64>> {
        match self {
            D::St(n, _) if n == "None" => Ok(None),
            D::St(n, v) if n == "Some" => Ok(Some(v[0].1.i()?)),
            _ => Err("not an option".into()),
        }
    }
}
pub fn query(d: &D) -> R<Q> {
    match d {
        D::St(n, _) if n == "Query" => {
            if let Ok(ast) = d.f("ast") {
                let mut segs = vec![];
                rec_segs(ast, &mut segs)?;
                return Ok(Q { segs });
            }
            let mut segs = vec![];
            for s in d.f("segments")?.seq()? {
                match s {
                    D::St(n, _) if n == "Eoi" => (),
                    D::St(n, _) if n == "Child" || n == "Recursive" => segs.push(Seg {
                        desc: n == "Recursive",
                        sels: sels(s)?,
                    }),
                    _ => return Err("unknown segment".into()),
                }
            }
            Ok(Q { segs })
        }
        _ => Err("not a query".into()),
    }
}
fn rec_segs(d: &D, out: &mut Vec<Seg>) -> R<()> {
    match d {
        D::St(n, _) if n == "Root" => Ok(()),
        D::St(n, _) if n == "Child" || n == "Recursive" => {
            rec_segs(d.f("left")?, out)?;
            out.push(Seg {
                desc: n == "Recursive",
                sels: sels(d)?,
            });
            Ok(())
        }
        _ => Err("unknown segment".into()),
    }
}
fn sels(d: &D) -> R<Vec<Sel>> {
    d.f("selectors")?.seq()?.iter().map(sel).collect()
}
fn sel(d: &D) -> R<Sel> {
    let n = match d {
        D::St(n, _) => n.as_str(),
        _ => return Err("not a selector".into()),
    };
    Ok(match n {
        "Name" => Sel::Name(d.f("name")?.s()?),
        "Index" => Sel::Index(d.f("index")?.i()?),
        "Slice" => Sel::Slice(d.f("start")?.oi()?, d.f("stop")?.oi()?, d.f("step")?.oi()?),
        "Wild" => Sel::Wild,
        "Filter" => Sel::Filter(Box::new(ex(d.f("expression")?)?)),
        "SingularQuery" => Sel::Sing(query(d.f("query")?)?),
        _ => return Err(format!("unknown selector {}", n)),
    })
}
fn ex(d: &D) -> R<Ex> {
    let n = match d {
        D::St(n, _) => n.as_str(),
        _ => return Err("not an expression".into()),
    };
    let b = |k: &str| -> R<Box<Ex>> { Ok(Box::new(ex(d.f(k)?)?)) };
    let opn = || -> R<String> {
        match d.f("operator")? {
            D::St(n, _) => Ok(n.clone()),
            _ => Err("not an operator".into()),
        }
    };
    Ok(match n {
        "True" | "True_" => Ex::True,
        "False" | "False_" => Ex::False,
        "Null" => Ex::Null,
        "String" | "StringLiteral" => Ex::Str(d.f("value")?.s()?),
        "Int" => Ex::Int(d.f("value")?.i()?),
        "Float" => Ex::Float(d.f("value")?.fl()?),
        "Not" => Ex::Not(b("expression")?),
        "Logical" => match opn()?.as_str() {
            "And" => Ex::And(b("left")?, b("right")?),
            "Or" => Ex::Or(b("left")?, b("right")?),
            _ => return Err("unknown operator".into()),
        },
        "Comparison" => {
            let o = match opn()?.as_str() {
                "Eq" => Op::Eq,
                "Ne" => Op::Ne,
                "Lt" => Op::Lt,
                "Le" => Op::Le,
                "Gt" => Op::Gt,
                "Ge" => Op::Ge,
                _ => return Err("unknown operator".into()),
            };
            Ex::Cmp(b("left")?, o, b("right")?)
        }
        "RelativeQuery" => Ex::Rel(query(d.f("query")?)?),
        "RootQuery" => Ex::Root(query(d.f("query")?)?),
        "Function" => Ex::Func(
            d.f("name")?.s()?,
            d.f("args")?.seq()?.iter().map(ex).collect::<R<Vec<_>>>()?,
        ),
        _ => return Err(format!("unknown expression {}", n)),
    })
}
