//! Reference parser: the ABNF of RFC 9535 plus its well-typedness and I-JSON rules.
use crate::rast::*;
use std::collections::HashMap;

pub struct Sig {
    pub params: Vec<Ty>,
    pub ret: Ty,
}
pub type Fns = HashMap<String, Sig>;
pub fn std_fns() -> Fns {
    let mut m = HashMap::new();
    let mut add = |n: &str, p: Vec<Ty>, r: Ty| {
        m.insert(n.to_string(), Sig { params: p, ret: r });
    };
    add("count", vec![Ty::Nodes], Ty::Value);
    add("length", vec![Ty::Value], Ty::Value);
    add("match", vec![Ty::Value, Ty::Value], Ty::Logical);
    add("search", vec![Ty::Value, Ty::Value], Ty::Logical);
    add("value", vec![Ty::Nodes], Ty::Value);
    m
}
pub struct P<'a> {
    c: Vec<char>,
    i: usize,
    fns: &'a Fns,
    /// accept the singular-selector extensions
    sing: bool,
    /// set when the text uses an integer literal outside +-(2^53-1)
    pub big_literal: bool,
}
type R<T> = Result<T, String>;
const MAXI: i64 = (1 << 53) - 1;

pub fn parse(s: &str) -> R<Q> {
    parse_with(s, &std_fns(), false)
}
pub fn parse_with(s: &str, fns: &Fns, sing: bool) -> R<Q> {
    let mut p = P {
        c: s.chars().collect(),
        i: 0,
        fns,
        sing,
        big_literal: false,
    };
    let q = p.query()?;
    if p.i != p.c.len() {
        return Err(format!("trailing input at {}", p.i));
    }
    Ok(q)
}
fn name_first(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_' || c as u32 >= 0x80
}
fn name_char(c: char) -> bool {
    name_first(c) || c.is_ascii_digit()
}
impl<'a> P<'a> {
    fn pk(&self) -> char {
        self.c.get(self.i).copied().unwrap_or('\u{0}')
    }
    fn at(&self, k: usize) -> char {
        self.c.get(self.i + k).copied().unwrap_or('\u{0}')
    }
    fn eat(&mut self, s: &str) -> bool {
        let n = s.chars().count();
        if self.i + n <= self.c.len() && s.chars().zip(&self.c[self.i..]).all(|(a, b)| a == *b) {
            self.i += n;
            true
        } else {
            false
        }
    }
    fn ws(&mut self) {
        while self.i < self.c.len() && matches!(self.pk(), ' ' | '\t' | '\n' | '\r') {
            self.i += 1;
        }
    }
    fn err<T>(&self, m: &str) -> R<T> {
        Err(format!("{} at {}", m, self.i))
    }
    fn query(&mut self) -> R<Q> {
        if self.eat("$") {
            return Ok(Q {
                segs: self.segments()?,
            });
        }
        if self.sing {
            let mut segs = Vec::new();
            if self.pk() == '[' {
                segs.push(Seg {
                    desc: false,
                    sels: self.bracketed()?,
                });
            } else if self.i < self.c.len() && name_first(self.pk()) {
                segs.push(Seg {
                    desc: false,
                    sels: vec![Sel::Name(self.shorthand()?)],
                });
            } else {
                return self.err("expected $");
            }
            segs.extend(self.segments()?);
            return Ok(Q { segs });
        }
        self.err("expected $")
    }
    fn segments(&mut self) -> R<Vec<Seg>> {
        let mut v = Vec::new();
        loop {
            let save = self.i;
            self.ws();
            if self.eat("..") {
                let sels = if self.pk() == '[' {
                    self.bracketed()?
                } else if self.eat("*") {
                    vec![Sel::Wild]
                } else {
                    vec![Sel::Name(self.shorthand()?)]
                };
                v.push(Seg { desc: true, sels });
            } else if self.eat(".") {
                let sels = if self.eat("*") {
                    vec![Sel::Wild]
                } else {
                    vec![Sel::Name(self.shorthand()?)]
                };
                v.push(Seg { desc: false, sels });
            } else if self.pk() == '[' && self.i < self.c.len() {
                v.push(Seg {
                    desc: false,
                    sels: self.bracketed()?,
                });
            } else {
                self.i = save;
                return Ok(v);
            }
        }
    }
    fn shorthand(&mut self) -> R<String> {
        if self.i >= self.c.len() || !name_first(self.pk()) {
            return self.err("expected a name");
        }
        let mut s = String::new();
        while self.i < self.c.len() && name_char(self.pk()) {
            s.push(self.pk());
            self.i += 1;
        }
        Ok(s)
    }
    fn bracketed(&mut self) -> R<Vec<Sel>> {
        assert!(self.eat("["));
        let mut v = Vec::new();
        loop {
            self.ws();
            v.push(self.selector()?);
            self.ws();
            if self.eat("]") {
                return Ok(v);
            }
            if !self.eat(",") {
                return self.err("expected , or ]");
            }
        }
    }
    fn selector(&mut self) -> R<Sel> {
        if self.i >= self.c.len() {
            return self.err("unexpected end");
        }
        match self.pk() {
            '\'' | '"' => Ok(Sel::Name(self.string()?)),
            '*' => {
                self.i += 1;
                Ok(Sel::Wild)
            }
            '?' => {
                self.i += 1;
                self.ws();
                let e = self.logical_or()?;
                Ok(Sel::Filter(Box::new(e)))
            }
            ':' | '-' | '0'..='9' => self.slice_or_index(),
            '$' if self.sing => {
                self.i += 1;
                let q = Q {
                    segs: self.singular_segments()?,
                };
                Ok(Sel::Sing(q))
            }
            c if self.sing && (c == '[' || name_first(c)) => {
                let mut segs = Vec::new();
                if c == '[' {
                    segs.push(self.singular_bracket()?);
                } else {
                    segs.push(Seg {
                        desc: false,
                        sels: vec![Sel::Name(self.shorthand()?)],
                    });
                }
                segs.extend(self.singular_segments()?);
                Ok(Sel::Sing(Q { segs }))
            }
            _ => self.err("unexpected selector"),
        }
    }
    fn singular_bracket(&mut self) -> R<Seg> {
        assert!(self.eat("["));
        let s = if matches!(self.pk(), '\'' | '"') {
            Sel::Name(self.string()?)
        } else {
            Sel::Index(self.ijson()?)
        };
        if !self.eat("]") {
            return self.err("expected ]");
        }
        Ok(Seg {
            desc: false,
            sels: vec![s],
        })
    }
    fn singular_segments(&mut self) -> R<Vec<Seg>> {
        let mut v = Vec::new();
        loop {
            let save = self.i;
            self.ws();
            if self.pk() == '.' && self.at(1) != '.' && self.i < self.c.len() {
                self.i += 1;
                v.push(Seg {
                    desc: false,
                    sels: vec![Sel::Name(self.shorthand()?)],
                });
            } else if self.pk() == '[' && self.i < self.c.len() {
                v.push(self.singular_bracket()?);
            } else {
                self.i = save;
                return Ok(v);
            }
        }
    }
    fn int_text(&mut self) -> R<String> {
        let mut s = String::new();
        if self.eat("-") {
            s.push('-');
        }
        if !(self.i < self.c.len() && self.pk().is_ascii_digit()) {
            return self.err("expected a digit");
        }
        while self.i < self.c.len() && self.pk().is_ascii_digit() {
            s.push(self.pk());
            self.i += 1;
        }
        Ok(s)
    }
    fn ijson(&mut self) -> R<i64> {
        let s = self.int_text()?;
        let d = s.trim_start_matches('-');
        if (d.len() > 1 && d.starts_with('0')) || s == "-0" {
            return self.err("leading zero");
        }
        match s.parse::<i64>() {
            Ok(i) if (-MAXI..=MAXI).contains(&i) => Ok(i),
            _ => self.err("out of I-JSON range"),
        }
    }
    fn slice_or_index(&mut self) -> R<Sel> {
        let mut a = None;
        if self.pk() != ':' {
            a = Some(self.ijson()?);
        }
        let save = self.i;
        self.ws();
        if !self.eat(":") {
            self.i = save;
            return match a {
                Some(i) => Ok(Sel::Index(i)),
                None => self.err("expected :"),
            };
        }
        let mut b = None;
        let mut c = None;
        let isn = |ch: char| ch == '-' || ch.is_ascii_digit();
        let mut save = self.i;
        self.ws();
        if self.i < self.c.len() && isn(self.pk()) {
            b = Some(self.ijson()?);
            save = self.i;
            self.ws();
        }
        if self.eat(":") {
            save = self.i;
            self.ws();
            if self.i < self.c.len() && isn(self.pk()) {
                c = Some(self.ijson()?);
                save = self.i;
            }
        }
        self.i = save;
        Ok(Sel::Slice(a, b, c))
    }
    pub fn string(&mut self) -> R<String> {
        let q = self.pk();
        self.i += 1;
        let mut s = String::new();
        loop {
            if self.i >= self.c.len() {
                return self.err("unclosed string");
            }
            let ch = self.pk();
            self.i += 1;
            if ch == q {
                return Ok(s);
            }
            if (ch as u32) < 0x20 {
                return self.err("control character");
            }
            if ch != '\\' {
                s.push(ch);
                continue;
            }
            if self.i >= self.c.len() {
                return self.err("unclosed string");
            }
            let e = self.pk();
            self.i += 1;
            match e {
                c if c == q => s.push(c),
                '\\' => s.push('\\'),
                '/' => s.push('/'),
                'b' => s.push('\u{8}'),
                'f' => s.push('\u{c}'),
                'n' => s.push('\n'),
                'r' => s.push('\r'),
                't' => s.push('\t'),
                'u' => {
                    let h = self.hex4()?;
                    if (0xDC00..0xE000).contains(&h) {
                        return self.err("lone low surrogate");
                    }
                    let cp = if (0xD800..0xDC00).contains(&h) {
                        if !self.eat("\\u") {
                            return self.err("lone high surrogate");
                        }
                        let l = self.hex4()?;
                        if !(0xDC00..0xE000).contains(&l) {
                            return self.err("bad low surrogate");
                        }
                        0x10000 + (h - 0xD800) * 0x400 + (l - 0xDC00)
                    } else {
                        h
                    };
                    s.push(char::from_u32(cp).unwrap());
                }
                _ => return self.err("bad escape"),
            }
        }
    }
    fn hex4(&mut self) -> R<u32> {
        let mut v = 0;
        for _ in 0..4 {
            match self.c.get(self.i).and_then(|c| c.to_digit(16)) {
                Some(d) => {
                    v = v * 16 + d;
                    self.i += 1;
                }
                None => return self.err("bad hex"),
            }
        }
        Ok(v)
    }
    // ------------------------------------------------------------ filters
    fn logical_or(&mut self) -> R<Ex> {
        let mut l = self.logical_and()?;
        loop {
            let save = self.i;
            self.ws();
            if self.eat("||") {
                self.ws();
                let r = self.logical_and()?;
                l = Ex::Or(Box::new(l), Box::new(r));
            } else {
                self.i = save;
                return Ok(l);
            }
        }
    }
    fn logical_and(&mut self) -> R<Ex> {
        let mut l = self.basic()?;
        loop {
            let save = self.i;
            self.ws();
            if self.eat("&&") {
                self.ws();
                let r = self.basic()?;
                l = Ex::And(Box::new(l), Box::new(r));
            } else {
                self.i = save;
                return Ok(l);
            }
        }
    }
    fn op(&mut self) -> Option<Op> {
        for (t, o) in [
            ("==", Op::Eq),
            ("!=", Op::Ne),
            ("<=", Op::Le),
            (">=", Op::Ge),
            ("<", Op::Lt),
            (">", Op::Gt),
        ] {
            if self.eat(t) {
                return Some(o);
            }
        }
        None
    }
    /// an operand: a literal, a query or a function call
    fn operand(&mut self) -> R<(Ex, bool)> {
        // the bool: a query written as the ABNF's singular-query (no blank space in brackets)
        if self.i >= self.c.len() {
            return self.err("unexpected end");
        }
        match self.pk() {
            '\'' | '"' => Ok((Ex::Str(self.string()?), false)),
            '-' | '0'..='9' => Ok((self.number()?, false)),
            '@' | '$' => {
                let rel = self.pk() == '@';
                self.i += 1;
                let start = self.i;
                let q = Q {
                    segs: self.segments()?,
                };
                let end = self.i;
                // re-read as singular-query
                self.i = start;
                let sing = matches!(self.singular_segments(), Ok(s) if s == q.segs) && self.i == end;
                self.i = end;
                Ok((if rel { Ex::Rel(q) } else { Ex::Root(q) }, sing))
            }
            'a'..='z' => {
                let mut n = String::new();
                while self.i < self.c.len()
                    && matches!(self.pk(), 'a'..='z' | '_' | '0'..='9')
                {
                    n.push(self.pk());
                    self.i += 1;
                }
                if self.eat("(") {
                    return Ok((self.call(n)?, false));
                }
                match n.as_str() {
                    "true" => Ok((Ex::True, false)),
                    "false" => Ok((Ex::False, false)),
                    "null" => Ok((Ex::Null, false)),
                    _ => self.err("unknown keyword"),
                }
            }
            _ => self.err("expected an operand"),
        }
    }
    pub fn number(&mut self) -> R<Ex> {
        let start = self.i;
        let it = self.int_text()?;
        let d = it.trim_start_matches('-');
        if d.len() > 1 && d.starts_with('0') {
            return self.err("leading zero");
        }
        let mut frac = false;
        let mut exp = false;
        if self.pk() == '.' && self.at(1).is_ascii_digit() {
            frac = true;
            self.i += 1;
            while self.pk().is_ascii_digit() {
                self.i += 1;
            }
        }
        if matches!(self.pk(), 'e' | 'E') {
            let mut k = 1;
            if matches!(self.at(1), '+' | '-') {
                k = 2;
            }
            if self.at(k).is_ascii_digit() {
                exp = true;
                self.i += k;
                while self.pk().is_ascii_digit() {
                    self.i += 1;
                }
            }
        }
        let t: String = self.c[start..self.i].iter().collect();
        if !frac && !exp {
            match t.parse::<i64>() {
                Ok(i) => return Ok(Ex::Int(i)),
                _ => self.big_literal = true,
            }
        }
        Ok(Ex::Float(t.parse::<f64>().map_err(|e| e.to_string())?))
    }
    fn comparable(&self, e: &Ex, abnf_singular: bool) -> R<()> {
        match e {
            Ex::Rel(q) | Ex::Root(q) => {
                if abnf_singular {
                    Ok(())
                } else if q.singular() {
                    // the ABNF has no blanks inside the brackets of a compared query
                    self.err("unspecified")
                } else {
                    self.err("non-singular query is not comparable")
                }
            }
            Ex::Func(n, _) => {
                if self.fns[n].ret == Ty::Value {
                    Ok(())
                } else {
                    self.err("function result is not comparable")
                }
            }
            x if x.is_literal() => Ok(()),
            _ => self.err("not comparable"),
        }
    }
    fn basic(&mut self) -> R<Ex> {
        if self.i >= self.c.len() {
            return self.err("unexpected end");
        }
        if self.pk() == '(' {
            self.i += 1;
            self.ws();
            let e = self.logical_or()?;
            self.ws();
            if !self.eat(")") {
                return self.err("expected )");
            }
            return Ok(e);
        }
        if self.pk() == '!' {
            self.i += 1;
            self.ws();
            if self.pk() == '(' {
                return Ok(Ex::Not(Box::new(self.basic()?)));
            }
            let (e, _) = self.operand()?;
            self.test(&e)?;
            return Ok(Ex::Not(Box::new(e)));
        }
        let (l, ls) = self.operand()?;
        let save = self.i;
        self.ws();
        if let Some(o) = self.op() {
            self.ws();
            let (r, rs) = self.operand()?;
            self.comparable(&l, ls)?;
            self.comparable(&r, rs)?;
            return Ok(Ex::Cmp(Box::new(l), o, Box::new(r)));
        }
        self.i = save;
        self.test(&l)?;
        Ok(l)
    }
    fn test(&self, e: &Ex) -> R<()> {
        match e {
            Ex::Rel(_) | Ex::Root(_) => Ok(()),
            Ex::Func(n, _) => {
                if self.fns[n].ret == Ty::Value {
                    self.err("function result must be compared")
                } else {
                    Ok(())
                }
            }
            _ => self.err("literal must be compared"),
        }
    }
    fn call(&mut self, n: String) -> R<Ex> {
        let mut args = Vec::new();
        self.ws();
        if !self.eat(")") {
            loop {
                self.ws();
                args.push(self.argument()?);
                self.ws();
                if self.eat(")") {
                    break;
                }
                if !self.eat(",") {
                    return self.err("expected , or )");
                }
            }
        }
        let sig = match self.fns.get(&n) {
            Some(s) => s,
            None => return self.err("unknown function"),
        };
        if sig.params.len() != args.len() {
            return self.err("wrong number of arguments");
        }
        for (p, a) in sig.params.iter().zip(&args) {
            let ok = match p {
                Ty::Value => match a {
                    Ex::Rel(q) | Ex::Root(q) => q.singular(),
                    Ex::Func(f, _) => self.fns[f].ret == Ty::Value,
                    a => a.is_literal(),
                },
                Ty::Logical => match a {
                    Ex::Func(f, _) => self.fns[f].ret != Ty::Value,
                    a => !a.is_literal(),
                },
                Ty::Nodes => match a {
                    Ex::Rel(_) | Ex::Root(_) => true,
                    Ex::Func(f, _) => self.fns[f].ret == Ty::Nodes,
                    _ => false,
                },
            };
            if !ok {
                return self.err("argument type");
            }
        }
        Ok(Ex::Func(n, args))
    }
    fn argument(&mut self) -> R<Ex> {
        // literal / filter-query / function-expr when followed by , or ) ; else logical-expr
        let save = self.i;
        if let Ok((e, _)) = self.operand() {
            let after = self.i;
            self.ws();
            if self.i < self.c.len() && matches!(self.pk(), ',' | ')') {
                self.i = after;
                return Ok(e);
            }
        }
        self.i = save;
        self.logical_or()
    }
}
