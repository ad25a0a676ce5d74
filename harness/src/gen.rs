//! Generators: JSON values, query trees and query texts.
use crate::rast::*;
use serde_json::{Map, Value};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, k: usize) -> usize {
        (self.next() % k as u64) as usize
    }
    pub fn one_in(&mut self, k: usize) -> bool {
        self.n(k) == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.n(v.len())]
    }
}
pub const NAMES: [&str; 10] = ["a", "b", "c", "d", "e", "x", "y", "", "a b", "☺"];
pub const TRICKY: [&str; 14] = [
    "'", "\"", "\\", "a'b", "\n", "\u{1}", "\u{1f}", "\u{7f}", "\u{10348}", "\u{8}\u{c}\r\t", "/", "\\'", "''", "é\u{301}",
];
/// characters at the edges of the classes that code may tell apart
pub const EDGES: [u32; 44] = [
    0, 1, 8, 0x0b, 0x0c, 0x1f, 0x20, 0x21, 0x22, 0x26, 0x27, 0x2f, 0x30, 0x39, 0x3a, 0x40, 0x41, 0x5a, 0x5b, 0x5c, 0x5f, 0x60, 0x7a, 0x7b, 0x7e, 0x7f, 0x80, 0x85, 0xa0, 0xad, 0xdf,
    0x130, 0x660, 0x7ff, 0x800, 0x200b, 0x2028, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10ffff,
];
pub fn edge_char(r: &mut Rng) -> char {
    let c = match r.n(8) {
        0 => 0x1f600,
        1 => 0x20000,
        2 => 0x10000 * (1 + r.n(16)) as u32 + r.n(0x10000) as u32,
        _ => *r.pick(&EDGES),
    };
    char::from_u32(c).unwrap_or('a')
}
/// a short string of edge characters among ordinary ones
pub fn edgy(r: &mut Rng) -> String {
    let n = 1 + r.n(3);
    (0..n).map(|_| if r.one_in(3) { 'a' } else { edge_char(r) }).collect()
}
/// integers next to the powers of two at which conversions lose something
pub fn edge_int(r: &mut Rng) -> i64 {
    let b = *r.pick(&[7, 8, 15, 16, 31, 32, 33, 52, 53, 62]);
    let v = (1i64 << b) + r.n(5) as i64 - 2;
    if r.one_in(2) {
        v
    } else {
        -v
    }
}
pub fn name(r: &mut Rng, tricky: bool) -> String {
    if tricky && r.one_in(6) {
        return edgy(r);
    }
    if tricky && r.one_in(4) {
        r.pick(&TRICKY).to_string()
    } else {
        let m = if r.one_in(4) { 10 } else { 5 };
        let k = r.n(m);
        NAMES[k].to_string()
    }
}
pub fn scalar(r: &mut Rng) -> Value {
    if r.one_in(24) {
        return match r.n(4) {
            0 => Value::from(edgy(r)),
            1 => Value::from(edge_int(r)),
            2 => Value::from(r.next()),
            _ => Value::from(edge_int(r) as f64 + 0.5),
        };
    }
    match r.n(16) {
        0 => Value::Null,
        1 => Value::Bool(true),
        2 => Value::Bool(false),
        3 => Value::from(0),
        4 => Value::from(1),
        5 => Value::from(2),
        6 => Value::from(-1),
        7 => Value::from(1.0),
        8 => Value::from(1.5),
        9 => Value::from(-0.0),
        10 => Value::from("a"),
        11 => Value::from("b"),
        12 => Value::from(""),
        13 => Value::from("ab"),
        14 => Value::from(10),
        _ => Value::from("☺\u{10348}"),
    }
}
pub fn json(r: &mut Rng, depth: usize, tricky: bool) -> Value {
    if depth == 0 || r.one_in(4) {
        return scalar(r);
    }
    let n = if r.one_in(16) { 5 + r.n(9) } else { r.n(5) };
    if r.one_in(2) {
        Value::Array((0..n).map(|_| json(r, depth - 1, tricky)).collect())
    } else {
        let mut m = Map::new();
        for _ in 0..n {
            let k = if n > 5 { format!("k{}", r.n(20)) } else { name(r, tricky) };
            m.insert(k, json(r, depth - 1, tricky));
        }
        Value::Object(m)
    }
}
pub struct Cfg {
    pub tricky: bool,
    pub filters: usize, // nesting depth of filters still allowed
    pub regex: bool,
    pub sing: bool,
}
pub fn oint(r: &mut Rng, span: i64) -> Option<i64> {
    if r.one_in(3) {
        None
    } else {
        Some(int(r, span))
    }
}
pub fn int(r: &mut Rng, span: i64) -> i64 {
    if r.one_in(24) {
        edge_int(r).clamp(-((1 << 53) - 1), (1 << 53) - 1)
    } else {
        r.n((2 * span + 1) as usize) as i64 - span
    }
}
pub fn sel(r: &mut Rng, c: &Cfg) -> Sel {
    loop {
        return match r.n(if c.filters > 0 { 8 } else { 6 }) {
            0 | 1 => Sel::Name(name(r, c.tricky)),
            2 => Sel::Wild,
            3 => Sel::Index(int(r, 5)),
            4 => Sel::Slice(oint(r, 6), oint(r, 6), oint(r, 3)),
            5 => {
                if c.sing && r.one_in(2) {
                    Sel::Sing(singular(r, c))
                } else {
                    continue;
                }
            }
            _ => {
                let c2 = Cfg {
                    filters: c.filters - 1,
                    ..*c
                };
                Sel::Filter(Box::new(logical(r, &c2, 2)))
            }
        };
    }
}
pub fn seg(r: &mut Rng, c: &Cfg) -> Seg {
    let n = if r.one_in(3) { 1 + r.n(3) } else { 1 };
    Seg {
        desc: r.one_in(4),
        sels: (0..n).map(|_| sel(r, c)).collect(),
    }
}
pub fn query(r: &mut Rng, c: &Cfg) -> Q {
    let n = r.n(4);
    Q {
        segs: (0..n).map(|_| seg(r, c)).collect(),
    }
}
pub fn singular(r: &mut Rng, c: &Cfg) -> Q {
    let n = r.n(3);
    Q {
        segs: (0..n)
            .map(|_| Seg {
                desc: false,
                sels: vec![if r.one_in(3) {
                    Sel::Index(int(r, 3))
                } else {
                    Sel::Name(name(r, c.tricky))
                }],
            })
            .collect(),
    }
}
pub fn lit(r: &mut Rng) -> Ex {
    match r.n(12) {
        0 => Ex::True,
        1 => Ex::False,
        2 => Ex::Null,
        3 => Ex::Int(0),
        4 => Ex::Int(1),
        5 => Ex::Int(-1),
        6 => Ex::Int(2),
        7 => Ex::Float(1.5),
        8 => Ex::Str("a".into()),
        9 => Ex::Str("b".into()),
        10 => Ex::Str("".into()),
        _ => Ex::Float(0.5),
    }
}
pub fn comparable(r: &mut Rng, c: &Cfg) -> Ex {
    match r.n(6) {
        0 | 1 => lit(r),
        2 | 3 => Ex::Rel(singular(r, c)),
        4 => Ex::Root(singular(r, c)),
        _ => func_value(r, c),
    }
}
pub fn func_value(r: &mut Rng, c: &Cfg) -> Ex {
    let q = |r: &mut Rng| {
        let q = query(r, c);
        if r.one_in(3) {
            Ex::Root(q)
        } else {
            Ex::Rel(q)
        }
    };
    match r.n(3) {
        0 => Ex::Func("count".into(), vec![q(r)]),
        1 => Ex::Func("value".into(), vec![q(r)]),
        _ => {
            let a = comparable(r, c);
            Ex::Func("length".into(), vec![a])
        }
    }
}
pub const REGEXES: [&str; 20] = [
    "a", "a.*", "[ab]+", ".", "", "a|ab", "^a", "b$", "(a|b)", "a\\.b", "[", "\\p{Lu}", "[b-a]", "a{3,2}", "(a{1000}){1000}", "((a{1000}){1000}){1000}", "[a&&b]", "[a~~b]",
    "[\\p{L}\\-]", "\\p{Xx}",
];
pub fn logical(r: &mut Rng, c: &Cfg, depth: usize) -> Ex {
    match r.n(if depth == 0 { 5 } else { 8 }) {
        0 | 1 => {
            let o = *r.pick(&[Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge]);
            Ex::Cmp(Box::new(comparable(r, c)), o, Box::new(comparable(r, c)))
        }
        2 => Ex::Rel(query(r, c)),
        3 => Ex::Root(query(r, c)),
        4 => {
            if c.regex {
                let f = *r.pick(&["match", "search"]);
                let p = r.pick(&REGEXES).to_string();
                let s = comparable(r, c);
                Ex::Func(f.into(), vec![s, Ex::Str(p)])
            } else {
                Ex::Rel(singular(r, c))
            }
        }
        5 => Ex::Not(Box::new(logical(r, c, depth - 1))),
        6 => Ex::And(Box::new(logical(r, c, depth - 1)), Box::new(logical(r, c, depth - 1))),
        _ => Ex::Or(Box::new(logical(r, c, depth - 1)), Box::new(logical(r, c, depth - 1))),
    }
}
/// a query over the names that occur, so that results are often non-empty
pub fn shrink_json(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    match v {
        Value::Array(a) => {
            for i in 0..a.len() {
                let mut b = a.clone();
                b.remove(i);
                out.push(Value::Array(b));
            }
            for i in 0..a.len() {
                for s in shrink_json(&a[i]) {
                    let mut b = a.clone();
                    b[i] = s;
                    out.push(Value::Array(b));
                }
                if !matches!(a[i], Value::Null) {
                    let mut b = a.clone();
                    b[i] = Value::Null;
                    out.push(Value::Array(b));
                }
            }
        }
        Value::Object(o) => {
            for k in o.keys() {
                let mut b = o.clone();
                b.remove(k);
                out.push(Value::Object(b));
            }
            for (k, x) in o {
                for s in shrink_json(x) {
                    let mut b = o.clone();
                    b.insert(k.clone(), s);
                    out.push(Value::Object(b));
                }
                if !matches!(x, Value::Null) {
                    let mut b = o.clone();
                    b.insert(k.clone(), Value::Null);
                    out.push(Value::Object(b));
                }
            }
        }
        _ => (),
    }
    out
}
