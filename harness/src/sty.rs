//! Prints a query tree in a random surface style, and mutates query texts.
use crate::gen::Rng;
use crate::rast::*;

pub struct Sty<'r> {
    pub r: &'r mut Rng,
    pub plain: bool,
}
fn shorthand_ok(s: &str) -> bool {
    let mut c = s.chars();
    match c.next() {
        Some(x) if x.is_ascii_alphabetic() || x == '_' || x as u32 >= 0x80 => (),
        _ => return false,
    }
    c.all(|x| x.is_ascii_alphanumeric() || x == '_' || x as u32 >= 0x80)
}
impl<'r> Sty<'r> {
    fn ws(&mut self) -> &'static str {
        if self.plain || !self.r.one_in(4) {
            ""
        } else {
            self.r.pick(&[" ", "\t", "\n", "\r", "  ", " \n"])
        }
    }
    fn string(&mut self, s: &str) -> String {
        let q = if self.r.one_in(2) { '\'' } else { '"' };
        if self.plain || self.r.one_in(2) {
            return quote(s, q);
        }
        let mut out = String::new();
        out.push(q);
        for c in s.chars() {
            if self.r.one_in(3) {
                if (c as u32) < 0x10000 {
                    out.push_str(&if self.r.one_in(2) { format!("\\u{:04x}", c as u32) } else { format!("\\u{:04X}", c as u32) });
                } else {
                    let k = c as u32 - 0x10000;
                    out.push_str(&format!("\\u{:04X}\\u{:04x}", 0xD800 + (k >> 10), 0xDC00 + (k & 0x3ff)));
                }
            } else {
                let one = quote(&c.to_string(), q);
                out.push_str(&one[1..one.len() - 1]);
            }
        }
        out.push(q);
        out
    }
    pub fn q(&mut self, q: &Q, root: &str) -> String {
        let mut o = String::from(root);
        for s in &q.segs {
            let w = self.ws();
            o.push_str(w);
            if s.desc {
                o.push_str("..");
            }
            if s.sels.len() == 1 && self.r.one_in(2) {
                match &s.sels[0] {
                    Sel::Name(n) if shorthand_ok(n) => {
                        if !s.desc {
                            o.push('.');
                        }
                        o.push_str(n);
                        continue;
                    }
                    Sel::Wild => {
                        if !s.desc {
                            o.push('.');
                        }
                        o.push('*');
                        continue;
                    }
                    _ => (),
                }
            }
            o.push('[');
            for (i, x) in s.sels.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                let w = self.ws();
                o.push_str(w);
                let t = self.sel(x);
                o.push_str(&t);
                let w = self.ws();
                o.push_str(w);
            }
            o.push(']');
        }
        o
    }
    fn sel(&mut self, s: &Sel) -> String {
        match s {
            Sel::Name(n) => self.string(n),
            Sel::Slice(a, b, c) => {
                let mut o = String::new();
                if let Some(x) = a {
                    o.push_str(&x.to_string());
                    o.push_str(self.ws());
                }
                o.push(':');
                o.push_str(self.ws());
                if let Some(x) = b {
                    o.push_str(&x.to_string());
                    o.push_str(self.ws());
                }
                match c {
                    Some(x) => {
                        o.push(':');
                        o.push_str(self.ws());
                        o.push_str(&x.to_string());
                    }
                    None => {
                        if self.r.one_in(4) {
                            o.push(':')
                        }
                    }
                }
                o
            }
            Sel::Filter(e) => {
                let w = self.ws();
                format!("?{}{}", w, self.ex(e, 0))
            }
            Sel::Sing(q) => self.q(q, "$"),
            s => print_sel(s),
        }
    }
    fn paren(&mut self, s: String) -> String {
        format!("({}{}{})", self.ws(), s, self.ws())
    }
    pub fn ex(&mut self, e: &Ex, prec: u8) -> String {
        let boolean = matches!(e, Ex::Or(..) | Ex::And(..) | Ex::Not(..));
        let (s, need) = match e {
            Ex::Str(s) => (self.string(s), false),
            Ex::Not(x) => {
                let inner = match **x {
                    Ex::Rel(_) | Ex::Root(_) | Ex::Func(..) if self.r.one_in(2) => self.ex(x, 2),
                    _ => {
                        let t = self.ex(x, 0);
                        self.paren(t)
                    }
                };
                (format!("!{}{}", self.ws(), inner), false)
            }
            Ex::Or(a, b) => {
                let x = self.ex(a, 0);
                let y = self.ex(b, 1);
                (format!("{}{}||{}{}", x, self.ws(), self.ws(), y), prec > 0)
            }
            Ex::And(a, b) => {
                let x = self.ex(a, 1);
                let y = self.ex(b, 2);
                (format!("{}{}&&{}{}", x, self.ws(), self.ws(), y), prec > 1)
            }
            Ex::Cmp(a, o, b) => {
                let x = self.ex(a, 3);
                let y = self.ex(b, 3);
                let s = format!("{}{}{}{}{}", x, self.ws(), print_op(*o), self.ws(), y);
                return if !self.plain && prec < 3 && self.r.one_in(6) { self.paren(s) } else { s };
            }
            Ex::Rel(q) => (self.q(q, "@"), false),
            Ex::Root(q) => (self.q(q, "$"), false),
            Ex::Func(n, a) => {
                let mut o = format!("{}(", n);
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push_str(self.ws());
                    let t = self.ex(x, 9);
                    o.push_str(&t);
                    o.push_str(self.ws());
                }
                o.push(')');
                (o, false)
            }
            e => (print_ex(e, 2), false),
        };
        if need && prec < 9 || (boolean && !self.plain && prec < 3 && self.r.one_in(6)) {
            self.paren(s)
        } else {
            s
        }
    }
}
const FRAGS: [&str; 64] = [
    "$", "@", "[", "]", "(", ")", "*", "..", ".", "?", ",", ":", "&&", "||", "!", "==", "!=", "<", "<=", ">", ">=", "=", "&",
    "|", " ", "'a'", "\"b\"", "'", "\"", "\\", "a", "b", "0", "1", "-1", "-0", "01", "1.5", "1e2", "1E-1", "-", "true", "false", "null",
    "count(", "length(", "value(", "match(", "search(", "@.a", "$.b", "@['a']", "\u{0}", "\n", "☺", "$[?", "[?@.a]", "[0]", "['a']",
    "9007199254740992", "-9007199254740991", ".a", "..a", "[1:2:3]",
];
pub fn mutate(s: &str, r: &mut Rng) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let k = 1 + r.n(2);
    for _ in 0..k {
        let p = r.n(c.len() + 1);
        match r.n(7) {
            6 => c.insert(p, crate::gen::edge_char(r)),
            0 if p < c.len() => {
                c.remove(p);
            }
            1 => {
                let f: Vec<char> = r.pick(&FRAGS).chars().collect();
                c.splice(p..p, f);
            }
            2 if p < c.len() => {
                let f: Vec<char> = r.pick(&FRAGS).chars().collect();
                c.splice(p..p + 1, f);
            }
            3 if p < c.len() => {
                let e = (p + 1 + r.n(4)).min(c.len());
                let f: Vec<char> = c[p..e].to_vec();
                c.splice(p..p, f);
            }
            4 if p < c.len() => {
                let e = (p + 1 + r.n(4)).min(c.len());
                c.drain(p..e);
            }
            5 => {
                c.truncate(p);
            }
            _ => (),
        }
    }
    c.into_iter().collect()
}
pub fn soup(r: &mut Rng) -> String {
    let n = 1 + r.n(9);
    let mut s = String::from(if r.one_in(8) { "" } else if r.one_in(2) { "$" } else { "$[?" });
    for _ in 0..n {
        if r.one_in(12) {
            s.push(crate::gen::edge_char(r));
            continue;
        }
        let f = *r.pick(&FRAGS);
        s.push_str(f);
    }
    if r.one_in(2) {
        s.push(']');
    }
    s
}
