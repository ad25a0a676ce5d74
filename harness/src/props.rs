//! The case spaces of the properties.
use crate::case::{check, shrink, Case, Verdict};
use crate::gen::{self, Cfg, Rng};
use crate::imp::*;
use crate::rast::*;
use crate::sty::{mutate, soup, Sty};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::time::Instant;

pub struct Run {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub cases: u64,
    pub skipped: u64,
    pub kinds: BTreeMap<String, u64>,
    pub failures: Vec<(Case, String)>,
    pub known: Vec<Value>,
    pub known_hit: Vec<Value>,
    pub start: Instant,
    pub space: Vec<String>,
}
impl Run {
    pub fn new(p: &str, thorough: bool, seed: u64) -> Self {
        Run {
            prop: p.into(),
            thorough,
            seed,
            cases: 0,
            skipped: 0,
            kinds: BTreeMap::new(),
            failures: vec![],
            known: vec![],
            known_hit: vec![],
            start: Instant::now(),
            space: vec![],
        }
    }
    fn full(&self) -> bool {
        self.failures.len() >= 5
    }
    fn of_known_class(&mut self, c: &Case) -> bool {
        let k = match crate::case::known_class(c) {
            Some(k) => json!({ "class": k }),
            None => return false,
        };
        if !self.known.contains(&k) {
            return false;
        }
        if !self.known_hit.contains(&k) {
            self.known_hit.push(k);
        }
        true
    }
    fn go(&mut self, c: Case) {
        if self.full() {
            return;
        }
        self.cases += 1;
        *self.kinds.entry(c["kind"].as_str().unwrap().to_string()).or_insert(0) += 1;
        match check(&c) {
            Verdict::Pass => (),
            Verdict::Skip => self.skipped += 1,
            Verdict::Fail(_) => {
                if self.of_known_class(&c) {
                    return;
                }
                if let Some(k) = self.known.iter().find(|k| **k == c) {
                    if !self.known_hit.contains(k) {
                        self.known_hit.push(k.clone());
                    }
                    return;
                }
                let s = shrink(c);
                if self.of_known_class(&s) {
                    return;
                }
                if let Some(k) = self.known.iter().find(|k| **k == s) {
                    if !self.known_hit.contains(k) {
                        self.known_hit.push(k.clone());
                    }
                    return;
                }
                let m = match check(&s) {
                    Verdict::Fail(m) => m,
                    _ => "unstable".into(),
                };
                if !self.failures.iter().any(|(c, _)| *c == s) {
                    self.failures.push((s, m));
                }
            }
        }
    }
    /// repeat until the budget (seconds) or the count is used up
    fn random(&mut self, what: &str, quick: (u64, f64), thorough: (u64, f64), mut f: impl FnMut(&mut Rng, &mut Run)) {
        let (n, t) = if self.thorough { thorough } else { quick };
        let t0 = Instant::now();
        let mut r = Rng::new(self.seed.wrapping_mul(1000003) ^ what.len() as u64 ^ (what.as_bytes()[0] as u64) << 8);
        let mut k = 0;
        while k < n && t0.elapsed().as_secs_f64() < t && !self.full() {
            f(&mut r, self);
            k += 1;
        }
        self.space.push(format!("random: {} ({} draws, seed {})", what, k, self.seed));
    }
    fn eval_all(&mut self, kind: &str, q: &str, doc: &Value) {
        if self.prop == "P18" {
            self.go(json!({"kind": "agree", "q": q, "doc": doc}));
            return;
        }
        for e in EVALS {
            self.go(json!({"kind": kind, "ev": e.name(), "q": q, "doc": doc}));
        }
    }
    fn custom_eval(&mut self, q: &str, doc: &Value) {
        for p in [Pr::Ser, Pr::Itr, Pr::Loc, Pr::Sing] {
            self.go(json!({"kind": "custom-eval", "pr": p.name(), "q": q, "doc": doc}));
        }
    }
    fn parse_all(&mut self, kind: &str, q: &str) {
        for p in PARSERS {
            self.go(json!({"kind": kind, "pr": p.name(), "q": q}));
        }
    }
    fn sing_only(&mut self, kind: &str, q: &str, doc: &Value) {
        self.go(json!({"kind": kind, "ev": Ev::Sing.name(), "q": q, "doc": doc, "sing": true}));
    }
}
fn arr(n: usize) -> Value {
    Value::Array((0..n).map(|i| json!(i)).collect())
}
fn opt(o: Option<i64>) -> String {
    o.map(|x| x.to_string()).unwrap_or_default()
}
const BIG: i64 = (1 << 53) - 1;
fn ints(k: i64) -> Vec<Option<i64>> {
    let mut v = vec![None];
    v.extend((-k..=k).map(Some));
    v.extend([Some(BIG), Some(-BIG), Some((1 << 32) + 1), Some(-(1 << 32) - 1), Some(1 << 31)]);
    v
}
pub const BASE: Cfg = Cfg {
    tricky: false,
    filters: 2,
    regex: false,
    sing: false,
};
fn docs() -> Vec<Value> {
    vec![
        json!({"a": [5, 3, [{"j": 4}, {"k": 6}], {"a": {"a": 1}}], "b": {"a": 1, "b": [1, 2]}, "": 0}),
        json!([[1, 2, 3], [4, [5, 6]], {"a": [7]}, "s", null, true, {}]),
        json!({"o": {"j": 1, "k": 2}, "a": [{"b": {"j": 1, "k": 3}}, {"c": [1]}]}),
        json!([]),
        json!({}),
        json!(null),
        json!("a"),
    ]
}
/// the values compared: every JSON type, equal and unequal, nested, and the ends of the number range
fn values() -> Vec<Value> {
    let mut v: Vec<Value> = serde_json::from_str(
        r#"[null, true, false, 0, 1, -1, 2, 10, 1.0, 1.5, -0.0, 0.5, 1e20, 9007199254740991, -9007199254740991,
        18446744073709551615, 9223372036854775807, -9223372036854775808,
        "", "a", "b", "aa", "A", "1", "☺", "𐍈", "\uffff", "a\u0000",
        [], [1], [1.0], [2], [1,2], [2,1], [[1]], [[1.0]], [null], [{}], ["a"],
        {}, {"a":1}, {"a":1.0}, {"a":2}, {"b":1}, {"a":1,"b":2}, {"b":2,"a":1}, {"a":[1]}, {"a":[1.0]}, {"a":null}]"#,
    )
    .unwrap();
    v.push(json!({"a": {"b": [1, {"c": 2}]}}));
    v.push(json!({"a": {"b": [1, {"c": 2.0}]}}));
    v
}
/// numbers whose order is lost when they are converted or subtracted carelessly
fn close_numbers() -> Vec<Value> {
    let mut v = vec![];
    for b in [31, 32, 52, 53, 54, 60, 62] {
        for k in -2..3i64 {
            v.push(json!((1i64 << b) + k));
            v.push(json!(-(1i64 << b) + k));
        }
    }
    v.extend([json!(i64::MAX), json!(i64::MAX - 1), json!(i64::MIN), json!(i64::MIN + 1), json!(0), json!(1), json!(-1)]);
    v.extend([0.1, 0.2, 0.30000000000000004, 0.3, -0.1, 1e-300, 5e-324, 1.0000000000000002, 1.0, 0.9999999999999999, 1e300, -1e300, 4294967296.0, 4294967296.5].map(|f| json!(f)));
    v
}
/// strings that careless comparing, counting or trimming mixes up
fn odd_strings() -> Vec<Value> {
    let mut v = vec![];
    for c in gen::EDGES {
        let c = char::from_u32(c).unwrap();
        v.push(json!(c.to_string()));
        v.push(json!(format!("a{}", c)));
        v.push(json!(format!("{}a", c)));
    }
    for s in ["", "a", "A", "aa", "aaa", "ab", "é", "e\u{301}", "ß", "ss", "İ", "i", "ﬁ", "fi", "1", "01", "1.0", "true", "null", " a", "a ", "\u{1f600}", "\u{1f468}\u{200d}\u{1f469}"] {
        v.push(json!(s));
    }
    v
}
/// arrays and objects of the sizes at which containers, inline buffers or size classes may change
fn sized() -> Vec<Value> {
    let mut v = vec![];
    for n in [0usize, 1, 2, 5, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 31, 32, 33, 64, 65, 100, 128, 129] {
        v.push(arr(n));
        v.push(Value::Array((0..n).map(|i| if i % 3 == 0 { json!([i, [i]]) } else { json!({"a": [i], "b": {"a": i}}) }).collect()));
        v.push(Value::Object((0..n).map(|i| (format!("k{}", i), json!([i, {"a": i}]))).collect()));
    }
    v
}
/// sizes at which counters, buffers and tables may wrap or grow
const SIZES: [usize; 18] = [7, 8, 9, 15, 16, 17, 31, 33, 63, 65, 127, 128, 129, 255, 256, 257, 300, 513];
/// query texts in which one part is long
fn long_texts() -> Vec<String> {
    let mut v = vec![];
    for n in SIZES {
        let rep = |a: &str| a.repeat(n);
        for c in ["a", "é", "☺", "\u{10348}", "a☺", " "] {
            v.push(format!("$['{}']", rep(c)));
            v.push(format!("$[?@ == \"{}\" && @.b]", rep(c)));
            v.push(format!("$['{}x', 'y{}'].z", rep(c), rep(c)));
            if c != " " {
                v.push(format!("$.{}", rep(c)));
                v.push(format!("$..{}[?@.{}]", rep(c), rep(c)));
                v.push(format!("$.b{}[?@.{}x", rep(c), rep(c)));
            }
        }
        for e in ["\\n", "\\u263a", "\\uD834\\uDD1E", "\\'", "\\\\"] {
            v.push(format!("$['{}']", rep(e)));
            v.push(format!("$[?@=='{}x']", rep(e)));
        }
        for w in [" ", "\n", "\t", "\r", " \r\n"] {
            v.push(format!("${}[{}0{},{}1:{}2{}]", rep(w), rep(w), rep(w), rep(w), rep(w), rep(w)));
            v.push(format!("$[?{}@{}=={}1{}&&{}({}@.a{}){}]", rep(w), rep(w), rep(w), rep(w), rep(w), rep(w), rep(w), rep(w)));
            v.push(format!("$[?count({}@.*{})=={}1]", rep(w), rep(w), rep(w)));
        }
        v.push(format!("$[?@==0.{}1]", rep("0")));
        v.push(format!("$[?@==0.{}]", rep("3")));
        v.push(format!("$[?@==1e{}1]", rep("0")));
        v.push(format!("$[0{}]", rep(",0")));
        v.push(format!("$['a'{}]", rep(", 'b', 1:2, *, ?@.a")));
        v.push(format!("${}", rep(".a")));
        v.push(format!("${}", rep("[0]")));
        v.push(format!("${}", rep("..*")));
        v.push(format!("$[?@.a{}]", rep(" && @.b")));
        v.push(format!("$[?@.a{}]", rep(" || !@.b")));
        v.push(format!("$[?@.a{}]", rep(" && @.b || @.c == 1")));
        v.push(format!("$[?@{}==1]", rep(".a")));
        v.push(format!("$[?count(@{})==1]", rep("['a']")));
        if n <= 33 {
            v.push(format!("$[?{}@.a{}]", rep("("), rep(")")));
            v.push(format!("$[?{}@.a{}]", rep("!("), rep(")")));
            v.push(format!("$[?{}@.a{} && @.b]", rep("("), rep(" || @.c)")));
            v.push(format!("${}{}", rep("[?@.a"), rep("]")));
        }
        // (the definition and the grammar both take time exponential in this nesting)
        if n <= 8 {
            v.push(format!("$[?{}@.a{}==1]", rep("value("), rep(")")));
        }
    }
    v
}
pub fn run(r: &mut Run) {
    let p = r.prop.clone();
    match p.as_str() {
        "P01" => slices(r),
        "P02" => indexes(r),
        "P03" => nodelists(r),
        "P04" => comparisons(r),
        "P05" => filters(r),
        "P06" => functions(r),
        "P07" => regexes(r),
        "P08" => locations(r),
        "P09" => conslists(r),
        "P10" => strings(r),
        "P11" => iints(r),
        "P12" => typing(r),
        "P13" => lexing(r),
        "P14" => totality(r),
        "P15" => trees(r),
        "P16" => display(r),
        "P17" => singulars(r),
        "P18" => agreement(r),
        "P19" => singsel(r),
        "P20" => numbers(r),
        "P21" => evaltotal(r),
        "P22" => grammar(r),
        _ => panic!("unknown property {}", p),
    }
}
fn slices(r: &mut Run) {
    let (k, lens): (i64, &[usize]) = if r.thorough { (7, &[0, 1, 2, 3, 5, 6]) } else { (4, &[0, 1, 3]) };
    r.space.push(format!("enumerated: start, end in none, -{k}..{k}, +-(2^53-1); step in none, -3..3, +-(2^53-1); lengths {lens:?}; 5 evaluators"));
    for &n in lens {
        let d = arr(n);
        for a in ints(k) {
            for b in ints(k) {
                for c in ints(3) {
                    let s = match c {
                        None => format!("$[{}:{}]", opt(a), opt(b)),
                        Some(c) => format!("$[{}:{}:{}]", opt(a), opt(b), c),
                    };
                    r.eval_all("nodes", &s, &d);
                }
            }
        }
    }
    r.random("slices of random documents", (400, 4.0), (30000, 60.0), |g, r| {
        let d = gen::json(g, 3, false);
        let s = format!("${}[{}:{}:{}]", g.pick(&["", "..", ".*"]), opt(gen::oint(g, 9)), opt(gen::oint(g, 9)), opt(gen::oint(g, 4)));
        r.eval_all("nodes", &s, &d);
    });
}
fn indexes(r: &mut Run) {
    r.space.push("enumerated: lengths 0..8, indexes -9..9 and +-(2^53-1), +-2^31, +-2^32".into());
    for n in 0..8 {
        for i in (-9..=9).chain([BIG, -BIG]).chain([8, 16, 31, 32, 33, 48].iter().flat_map(|b| (-2..3).flat_map(move |k| [(1i64 << b) + k, -(1i64 << b) + k]))) {
            r.eval_all("nodes", &format!("$[{}]", i), &arr(n));
            r.eval_all("nodes", &format!("$..[{}]", i), &json!([arr(n), {"a": arr(n), "0": 1, "-1": 2}, "abc", null]));
            r.eval_all("nodes", &format!("$[?@[{}]]", i), &json!([arr(n), {"0": 1}]));
        }
    }
    for d in docs() {
        for i in -3..3 {
            r.eval_all("nodes", &format!("$[{}]", i), &d);
            r.eval_all("nodes", &format!("$..[{},{}]", i, -i), &d);
        }
    }
}
fn nodelists(r: &mut Run) {
    let sels = ["'a'", "'b'", "*", "0", "-1", "1:", "::-1", "?@", "?@.a", "?@>1", "'a','a'", "*,0", "0,1,0", "'b','a'", "*,*"];
    r.space.push("enumerated: all queries of up to 2 (thorough 3) segments over 15 selector lists, child and descendant, on 7 documents".into());
    let mut segs = vec![];
    for s in sels {
        segs.push(format!("[{}]", s));
        segs.push(format!("..[{}]", s));
    }
    for d in docs() {
        r.eval_all("nodes", "$", &d);
        for a in &segs {
            r.eval_all("nodes", &format!("${}", a), &d);
            for b in &segs {
                r.eval_all("nodes", &format!("${}{}", a, b), &d);
                if r.thorough {
                    for c in &segs {
                        r.eval_all("nodes", &format!("${}{}{}", a, b, c), &d);
                    }
                }
            }
        }
    }
    r.random("queries on random documents", (3000, 10.0), (200000, 240.0), |g, r| {
        let d = gen::json(g, 4, true);
        let q = gen::query(g, &Cfg { tricky: true, ..BASE });
        let t = print_q(&q, "$");
        r.eval_all("nodes", &t, &d);
    });
    // containers of many sizes
    r.space.push("enumerated: 23 sizes of array and object, flat and nested, 12 queries".into());
    for d in sized() {
        for q in ["$..*", "$..a", "$..[0]", "$.*.*", "$[?@.a]", "$..[?@.a]", "$[*]['a',0]", "$..[*,0]", "$..[-1]", "$..[::-2]", "$..['a','b']", "$..*..*"] {
            r.eval_all("nodes", q, &d);
            r.eval_all("nodes", q, &json!({"x": d, "y": [d]}));
        }
    }
    // names that look like indexes, long lists of selectors, filters that look at the root
    let sized = sized();
    for d in &sized {
        for q in ["$['0']", "$['5']", "$[*]['1']", "$..['10']", "$['-1']", "$[?@['0']]", "$.k5", "$..k1", "$[?$.k1]", "$[?$[0]]", "$[?$.k3[0]==@[0]]", "$[?@.a==$[1].a]", "$..[?$.k0]", "$[?$.zz]", "$[?count($.*)>5]"] {
            r.eval_all("nodes", q, d);
        }
    }
    for n in 3..10 {
        for a in ["*", "0", "'a'", "-1", "1:", "?@", "?@.a", "::-1", "*,0", "'a','b'", "?@>1,*"] {
            let l = vec![a; n].join(",");
            for d in docs().iter().take(3) {
                for q in [format!("$[{}]", l), format!("$..[{}]", l), format!("$.*[{}]", l), format!("$[{},'zz',1]", l), format!("$[?@[{}]]", l)] {
                    r.eval_all("nodes", &q, d);
                }
            }
        }
    }
    r.random("long queries on random documents", (600, 6.0), (30000, 100.0), |g, r| {
        let d = gen::json(g, 5, true);
        let mut t = String::from("$");
        for _ in 0..1 + g.n(5) {
            t.push_str(g.pick(&["[", "..["]));
            let w = if g.one_in(3) { 9 } else { 3 };
            let n = 1 + g.n(w);
            let l: Vec<&str> = (0..n).map(|_| *g.pick(&["*", "0", "1", "-1", "'a'", "'b'", "'c'", "1:", "::-1", ":2", "?@.a", "?@", "?@>0", "?$.a", "?!@.b", "'1'"])).collect();
            t.push_str(&l.join(","));
            t.push(']');
            if t.matches("..").count() > 1 {
                break;
            }
        }
        r.eval_all("nodes", &t, &d);
    });
    // long arrays and deep documents
    let n = if r.thorough { 20000 } else { 3000 };
    let long = arr(n);
    for q in ["$[*]", "$[?@>=0]", "$[::2]", "$[-1]", "$..*", "$[?@<0]"] {
        r.eval_all("nodes", q, &long);
    }
    let mut deep = json!(1);
    for _ in 0..100 {
        deep = json!({"a": [deep]});
    }
    for q in ["$..a", "$..[0]", "$..*", "$..a..a[0]"] {
        r.eval_all("nodes", q, &deep);
    }
}
fn comparisons(r: &mut Run) {
    let vals = values();
    let ops = ["==", "!=", "<", "<=", ">", ">="];
    r.space.push(format!("enumerated: every ordered pair of {} values (each JSON type, nested, extreme numbers) and nothing, 6 operators, as queries; literals", vals.len()));
    for a in &vals {
        let docs: Vec<Value> = vals.iter().map(|b| json!({"p": a, "q": b})).collect();
        // one document per left value: elements are the pairs
        let all = Value::Array(docs);
        for o in ops {
            r.eval_all("nodes", &format!("$[?@.p{}@.q]", o), &all);
            r.eval_all("nodes", &format!("$[?$[0].p {} @.q]", o), &all);
        }
    }
    // nothing in every form, on either side, and functions on either side
    let d = json!([null, {}, [], [null], [null, null], [1, 1], {"a": null}, {"a": null, "b": null}, {"a": false}, {"a": 1, "b": [null]}, 0, false, "", "a", {"a": {}}, {"a": []}, {"a": ""}, {"a": 0}]);
    let forms = ["@.zz", "$.zz", "@.a", "@.b", "@[0]", "@[5]", "value(@.*)", "value(@.zz)", "value(@..a)", "value(@[0,1])", "length(1)", "length(@)", "length(@.a)", "length(@.zz)", "count(@.zz)", "count(@.*)", "null", "false", "0", "''", "@", "1"];
    r.space.push(format!("enumerated: every ordered pair of {} operands, among them nothing in every form, 6 operators", forms.len()));
    for a in forms {
        for b in forms {
            for o in ops {
                r.eval_all("nodes", &format!("$[?{}{}{}]", a, o, b), &d);
            }
        }
    }
    // close numbers and odd strings: every ordered pair, one document per left value
    for t in [close_numbers(), odd_strings()] {
        r.space.push(format!("enumerated: every ordered pair of {} close numbers or odd strings, 3 operators, alone and inside arrays and objects", t.len()));
        for a in &t {
            let all = Value::Array(t.iter().map(|b| json!({"p": a, "q": b, "r": [a], "s": [b], "t": {"x": a}, "u": {"x": b}})).collect());
            for q in ["$[?@.p==@.q]", "$[?@.p<@.q]", "$[?@.p>=@.q]", "$[?@.r==@.s]", "$[?@.t==@.u]"] {
                r.eval_all("nodes", q, &all);
            }
        }
    }
    for a in odd_strings() {
        // the same characters in member names
        let s = a.as_str().unwrap();
        let all: Value = odd_strings().iter().map(|b| json!({"p": {s: 1}, "q": {b.as_str().unwrap(): 1}})).collect();
        r.eval_all("nodes", "$[?@.p==@.q]", &all);
    }
    for v in sized() {
        let mut w = vec![v.clone()];
        match &v {
            Value::Array(a) if !a.is_empty() => {
                for i in [0, a.len() / 2, a.len() - 1] {
                    let mut b = a.clone();
                    b[i] = json!("x");
                    w.push(Value::Array(b));
                    let mut b = a.clone();
                    b.remove(i);
                    w.push(Value::Array(b));
                }
            }
            Value::Object(o) if !o.is_empty() => {
                for k in [0, o.len() / 2, o.len() - 1] {
                    let k = o.keys().nth(k).unwrap().clone();
                    let mut b = o.clone();
                    b.insert(k.clone(), json!("x"));
                    w.push(Value::Object(b));
                    let mut b = o.clone();
                    let x = b.remove(&k).unwrap();
                    w.push(Value::Object(b.clone()));
                    b.insert(format!("{}x", k), x);
                    w.push(Value::Object(b));
                }
            }
            _ => (),
        }
        let all: Value = w.iter().flat_map(|a| w.iter().map(move |b| json!({"p": a, "q": b}))).collect();
        r.eval_all("nodes", "$[?@.p==@.q]", &all);
        r.eval_all("nodes", "$[?@.p<=@.q]", &all);
    }
    let wrap = Value::Array(vals.clone());
    let lits = ["null", "true", "false", "0", "-0", "1", "1.0", "1.5", "-1", "1e2", "9007199254740991", "''", "'a'", "\"b\"", "'☺'"];
    for l in lits {
        for o in ops {
            r.eval_all("nodes", &format!("$[?@{}{}]", o, l), &wrap);
            r.eval_all("nodes", &format!("$[?{}{}@]", l, o), &wrap);
            r.eval_all("nodes", &format!("$[?@.zz{}{}]", o, l), &wrap);
            for m in lits {
                r.eval_all("nodes", &format!("$[?{}{}{}]", l, o, m), &json!([1]));
            }
        }
    }
    for o in ops {
        r.eval_all("nodes", &format!("$[?@.zz{}@.yy]", o), &wrap);
        r.eval_all("nodes", &format!("$[?@.zz{}@]", o), &wrap);
        r.eval_all("nodes", &format!("$[?@{}$.zz]", o), &wrap);
        r.eval_all("nodes", &format!("$[?value(@..a){}value(@..b)]", o), &wrap);
        r.eval_all("nodes", &format!("$[?length(@){}length(@.a)]", o), &wrap);
        r.eval_all("nodes", &format!("$[?@.a{}length(@)]", o), &wrap);
        r.eval_all("nodes", &format!("$[?@[0]{}count(@.*)]", o), &wrap);
    }
    r.random("comparisons of random values", (1500, 5.0), (100000, 120.0), |g, r| {
        let a = gen::json(g, 3, false);
        let b = if g.one_in(3) { mutate_json(&a, g) } else { gen::json(g, 2, false) };
        for o in ops {
            r.eval_all("nodes", &format!("$[?@.p{}@.q]", o), &json!([{"p": a, "q": b}]));
        }
    });
}
fn mutate_json(v: &Value, g: &mut Rng) -> Value {
    match v {
        Value::Array(a) => {
            let mut a: Vec<Value> = a.iter().map(|x| mutate_json(x, g)).collect();
            if g.one_in(6) && !a.is_empty() {
                let i = g.n(a.len());
                a.remove(i);
            }
            if g.one_in(6) {
                a.reverse();
            }
            Value::Array(a)
        }
        Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), mutate_json(x, g))).collect()),
        Value::Number(n) if g.one_in(2) => match n.as_i64() {
            Some(i) if i.abs() < 1 << 50 => json!(i as f64),
            _ => v.clone(),
        },
        v if g.one_in(10) => {
            let _ = v;
            gen::scalar(g)
        }
        v => v.clone(),
    }
}
fn filters(r: &mut Run) {
    let atoms = ["@.a", "@.b", "$.k", "@.a==1", "1==1", "1==2", "@.*", "@[0]", "$[?@.a]", "@[?@.b]", "@[?$.k]", "@"];
    let docs = [
        json!([{"a": 1}, {"a": null}, {"a": false}, {"b": 2}, {"a": 1, "b": []}, [], [0], [{"b": 1}], 1, null, "a", {}]),
        json!({"k": 0, "x": {"a": 1, "b": {"a": 2}}, "y": [{"b": 1}], "z": false}),
    ];
    r.space.push("enumerated: all negations, conjunctions, disjunctions and three-operand mixes over 12 operand expressions on 2 documents".into());
    let mut exprs: Vec<String> = vec![];
    for a in atoms {
        exprs.push(a.into());
        exprs.push(format!("!({})", a));
        exprs.push(format!("!(!({}))", a));
        for b in atoms {
            exprs.push(format!("{} && {}", a, b));
            exprs.push(format!("{} || {}", a, b));
            exprs.push(format!("!({} && {})", a, b));
            exprs.push(format!("!({} || {})", a, b));
            exprs.push(format!("!({}) && {}", a, b));
            for c in ["@.a", "1==1", "1==2", "@.b"] {
                exprs.push(format!("{} && {} || {}", a, b, c));
                exprs.push(format!("{} || {} && {}", a, b, c));
                exprs.push(format!("({} || {}) && {}", a, b, c));
            }
        }
    }
    for d in &docs {
        for e in &exprs {
            r.eval_all("nodes", &format!("$[?{}]", e), d);
        }
    }
    for d in sized() {
        for e in ["@.a && $.k1", "$[0] || @.b", "!$.k4", "!@.a && $[1]", "@[0] == $[0]", "@.a != $[1].a", "$.k2[1].a == @[0]", "@[?$.k1]", "@[?@ == $[0]]", "count($.*) == length($)", "@[?count($.*) > 4]"] {
            r.eval_all("nodes", &format!("$[?{}]", e), &d);
            r.eval_all("nodes", &format!("$..[?{}]", e), &d);
            r.eval_all("nodes", &format!("$.x[?{}]", e), &json!({"x": d, "k1": 1, "k4": d}));
        }
    }
    r.random("random filters", (2500, 8.0), (200000, 200.0), |g, r| {
        let d = gen::json(g, 4, false);
        let e = gen::logical(g, &Cfg { filters: 2, ..BASE }, 3);
        let q = Q {
            segs: vec![Seg { desc: g.one_in(3), sels: vec![Sel::Filter(Box::new(e))] }],
        };
        r.eval_all("nodes", &print_q(&q, "$"), &d);
    });
}
fn functions(r: &mut Run) {
    let vals = values();
    r.space.push("enumerated: length, count, value over every value of the value table and every argument form, against 0..5".into());
    let w = Value::Array(vals.clone());
    for v in vals.iter().chain([json!("aé☺𐍈"), json!("\u{0}"), json!("e\u{301}")].iter()) {
        let d = json!([v, [v, v], {"a": v, "b": {"a": v}}]);
        for f in ["length(@)", "length(@.a)", "length(@[0])", "count(@)", "count(@.*)", "count(@..*)", "count(@.a)", "count(@..a)", "value(@)", "value(@.a)", "value(@..a)", "value(@.*)", "length(value(@.*))", "length('aé☺')", "length(1)", "length($[0])", "count($..a)"] {
            for k in 0..6 {
                r.eval_all("nodes", &format!("$[?{}=={}]", f, k), &d);
            }
            r.eval_all("nodes", &format!("$[?{}==@.zz]", f), &d);
            r.eval_all("nodes", &format!("$[?{}==$[0]]", f), &d);
        }
    }
    // lengths of odd strings and containers of many sizes
    let odd: Vec<String> = odd_strings().iter().map(|s| s.as_str().unwrap().to_string()).collect();
    let d: Value = odd.iter().flat_map(|s| [json!(s), json!(s.repeat(3)), json!(format!("{}x{}", s, s))]).chain(sized()).collect();
    for k in [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129] {
        for f in ["length(@)", "count(@.*)", "count(@..*)", "length(@[1])", "length(value(@[0]))"] {
            r.eval_all("nodes", &format!("$[?{}=={}]", f, k), &d);
        }
    }
    // value() of nodelists whose nodes are alike
    for d in [json!([[1, 1], [1], [], [null, null], [[1], [1]], [1, 1.0], {"a": 1, "b": 1}, {"a": [1], "b": [1]}])] {
        for v in ["1", "null", "@.zz", "@[0]", "@.a"] {
            r.eval_all("nodes", &format!("$[?value(@.*)=={}]", v), &d);
            r.eval_all("nodes", &format!("$[?value(@[0,1])=={}]", v), &d);
            r.eval_all("nodes", &format!("$[?value(@[0,0])=={}]", v), &d);
            r.eval_all("nodes", &format!("$[?value(@..[0])=={}]", v), &d);
        }
    }
    for f in ["length", "value", "count"] {
        for o in ["==", "<", ">="] {
            for k in 0..4 {
                r.eval_all("nodes", &format!("$[?{}(@){}{}]", f, o, k), &w);
            }
        }
    }
    r.random("random function calls", (1500, 5.0), (100000, 100.0), |g, r| {
        let d = gen::json(g, 4, false);
        let f = gen::func_value(g, &Cfg { filters: 1, ..BASE });
        let o = *g.pick(&["==", "!=", "<", ">", "<=", ">="]);
        let b = gen::comparable(g, &Cfg { filters: 0, ..BASE });
        r.eval_all("nodes", &format!("$..[?{}{}{}]", print_ex(&f, 3), o, print_ex(&b, 3)), &d);
    });
    // functions a user registers get what their parameters' types call for
    let args = ["@", "@.a", "@.b", "@.zz", "@[0]", "@.*", "@..a", "$", "$[0]", "$.zz", "!@.a", "@.a==1", "@.a&&@.b", "@.a||@.zz", "(@.a)", "null", "true", "1", "'a'", "length(@)", "count(@.*)", "value(@..a)", "same(@.a)", "lv(@.a)", "ns(@.*)", "t(@.a)", "isnull(@.a)", "match(@.a,'a')"];
    let docs = [
        json!([{"a": false}, {"a": null, "b": 0}, {"a": 1, "b": false}, {"a": [], "b": {}}, {}, [], [false], [null, 1], null, false, "a", {"a": "a"}, {"b": {"a": {"a": false}}}]),
        json!({"x": {"a": false}, "y": [{"a": null}], "zz": 0, "a": {"a": true, "b": 1}}),
    ];
    r.space.push(format!("enumerated: 8 registered functions of every kind of parameter and result over {} arguments, four evaluators", args.len()));
    for d in &docs {
        for a in args {
            for f in ["t", "isnull", "absent", "many", "ns"] {
                r.custom_eval(&format!("$[?{}({})]", f, a), d);
                r.custom_eval(&format!("$..[?!{}({})]", f, a), d);
            }
            for v in ["true", "false", "null", "1", "@.zz"] {
                r.custom_eval(&format!("$[?lv({})=={}]", a, v), d);
                r.custom_eval(&format!("$[?{}==same({})]", v, a), d);
            }
            for b in ["@.a", "@.zz", "@.a==1", "@.*"] {
                r.custom_eval(&format!("$[?mix({},{},@.*)]", a, b), d);
                r.custom_eval(&format!("$[?mix(@.a,{},{})]", b, a), d);
                r.custom_eval(&format!("$[?mix(1,{},{})]", a, b), d);
            }
        }
    }
}
const PATS: [&str; 60] = [
    "[a-c~~b]", "[~~a]", "[&&a-b]", "[\\-a]", "[a-]", "[-a]", "[^a-b]", "a+", "(a|b)+c", "\\p{L}{2}", "a{1,2}", "a{2,}", "[^\\n]", "[\\r.]", "[a\\]b]", "\\\\.",
    "[b-a]", "a{3,2}", "(a{1000}){1000}", "[a&&b]", "[a~~b]", "[a&b~c]", "[^&&a]", "a[.]b", "[\\]a]", "\\[.\\]",
    "a", "b", "ab", "a.*", ".*b", "[ab]+", ".", "", "a|b", "a|ab", "ab|a", "(a|b)c", "a{2}", "a?", "a\\.b", "[^a]", "\\p{Lu}", "\\P{Lu}", "..", "a.b",
    "^a", "b$", "^ab$", "^", "$", "[", "(", "a{2,", "\\n", ".\\r", "(ab)*", "[.]", "a\\$", "^a|b$",
];
const SUBJ: [&str; 30] = [
    "~", "&", "]", "\\", "-", "^", "c", "\\.",
    "", "a", "b", "ab", "ba", "aab", "abc", "xab", "abx", "a.b", "a\nb", "a\rb", "A", "aa", "aaa", "ac", "bc", "\n", "\r", "☺", "a$", "c\na",
];
fn regexes(r: &mut Run) {
    r.space.push(format!("enumerated: match and search over {} patterns x {} subjects, pattern as a literal and from the document, each twice", PATS.len(), SUBJ.len()));
    let subs = Value::Array(SUBJ.iter().map(|s| json!(s)).chain([json!(1), json!(null), json!(["a"]), json!({"a": "a"})]).collect());
    for round in 0..2 {
        let mut ps: Vec<&str> = PATS.to_vec();
        if round == 1 {
            ps.reverse();
        }
        for p in &ps {
            for f in ["match", "search"] {
                r.eval_all("nodes", &format!("$[?{}(@, {})]", f, quote(p, '\'')), &subs);
                let d = json!({"s": subs, "p": p});
                r.eval_all("nodes", &format!("$.s[?{}(@, $.p)]", f), &d);
                let swapped = Value::Array(SUBJ.iter().map(|s| json!({"s": s, "p": p})).collect());
                r.eval_all("nodes", &format!("$[?!{}(@.s, @.p)]", f), &swapped);
            }
        }
        for f in ["match", "search"] {
            r.eval_all("nodes", &format!("$[?{}(@.s, @.p)]", f), &json!([{"s": "a", "p": 1}, {"s": 1, "p": "a"}, {"p": ""}, {"s": ""}, {"s": null, "p": ""}]));
        }
    }
    // long subjects and long patterns, each pattern several times, before and after many others
    let sizes = [15usize, 16, 17, 20, 21, 31, 33, 63, 64, 65, 100, 129, 255, 257, 300, 1000];
    r.space.push(format!("enumerated: subjects and patterns of {} lengths up to 1000, each pattern used four times among 250 others", sizes.len()));
    for e in EVALS {
        let mut steps = vec![];
        for n in sizes {
            let a = "a".repeat(n);
            let subs = json!([a, format!("{}b", a), format!("b{}", a), format!("{}b{}", a, a), format!("{}\nb", a), "a", "", "b", format!("☺{}", a), a.to_uppercase()]);
            for p in ["a".to_string(), "a*".into(), "a*b".into(), "a+b?".into(), ".*".into(), format!("{}", a), format!("b|{}", a), format!("(a|b){{{}}}", n.min(100)), format!("[{}b]*", a), format!("x{}|y", a), format!(".{}", a)] {
                for f in ["match", "search"] {
                    steps.push(json!({"q": format!("$.s[?{}(@, $.p)]", f), "doc": {"s": subs, "p": p}}));
                }
            }
        }
        let first = steps.clone();
        steps.extend(first.iter().cloned());
        for k in 0..250 {
            for f in ["match", "search"] {
                steps.push(json!({"q": format!("$[?{}(@.s, @.p)]", f), "doc": [{"s": format!("q{}", k), "p": format!("q{}", k)}, {"s": format!("q{}", k + 1), "p": format!("q{}", k)}]}));
            }
        }
        steps.extend(first.iter().cloned());
        steps.extend(first);
        r.go(json!({"kind": "history", "ev": e.name(), "steps": steps}));
    }
    // histories: more distinct patterns than any cache holds, with repeats
    r.random("histories of match and search calls over many patterns", (6, 10.0), (200, 120.0), |g, r| {
        for e in EVALS {
            let mut steps = vec![];
            let n = if r.thorough { 400 } else { 160 };
            for k in 0..n {
                let f = *g.pick(&["match", "search"]);
                let (p, s) = if g.one_in(3) {
                    // near-twins of one pattern
                    let p = g.pick(&["a", "ab", "a|b", "[ab]", "A", "b."]).to_string();
                    let s = g.pick(&["a", "ab", "A", "AB", "a ", " a", "xa", "ab ", "a\n", "aa"]).to_string();
                    let p = match g.n(9) {
                        0 => format!("{} ", p),
                        1 => format!(" {}", p),
                        2 => p.to_uppercase(),
                        3 => format!("{}\n", p),
                        4 => format!("({})", p),
                        5 => format!("{}{}", p, p),
                        6 => format!("{}.*", p),
                        _ => p,
                    };
                    (p, s)
                } else if g.one_in(3) {
                    (g.pick(&PATS).to_string(), g.pick(&SUBJ).to_string())
                } else {
                    let k = g.n(k + 1);
                    (format!("x{}", k), format!("{}x{}{}", g.pick(&["", "a"]), k, g.pick(&["", "0"])))
                };
                steps.push(json!({"q": format!("$[?{}(@.s, @.p)]", f), "doc": [{"s": s, "p": p}]}));
            }
            r.go(json!({"kind": "history", "ev": e.name(), "steps": steps}));
        }
    });
    r.random("random patterns and subjects", (1500, 5.0), (60000, 100.0), |g, r| {
        let mut p = String::new();
        for _ in 0..1 + g.n(4) {
            p.push_str(g.pick(&["a", "b", "ab", ".", "[ab]", "[^a]", "(a|b)", "a|b", "*", "+", "?", "{2}", "\\.", "^", "$", "(", ")", "\\n", "[.a]", "[&&a]", "[b~~]", "[a-b]", "\\p{L}", "[^\\p{L}]", " "]));
        }
        let mut s = String::new();
        for _ in 0..g.n(5) {
            s.push_str(g.pick(&["a", "b", ".", "\n", "\r", "☺", "c", "&", "~", " ", "A"]));
        }
        for f in ["match", "search"] {
            r.eval_all("nodes", &format!("$[?{}(@.s, @.p)]", f), &json!([{"s": s, "p": p}]));
        }
    });
}
fn locations(r: &mut Run) {
    let mut o = serde_json::Map::new();
    for k in gen::TRICKY.iter().chain(gen::NAMES.iter()) {
        o.insert(k.to_string(), json!({*k: [1, {*k: 2}]}));
    }
    for c in 0..0x20u32 {
        o.insert(char::from_u32(c).unwrap().to_string(), json!([c]));
    }
    r.space.push("enumerated: a document whose member names contain every control character, quotes, backslashes and non-ASCII, all nodes".into());
    let d = Value::Object(o);
    for q in ["$", "$.*", "$.*[*]", "$.*.*", "$..*", "$..[0]", "$..[-1]", "$..[::-1]", "$..[?@]", "$..[?@==2]"] {
        for e in EVALS {
            r.go(json!({"kind": "paths", "ev": e.name(), "q": q, "doc": d}));
        }
    }
    for d in docs() {
        for q in ["$", "$.*", "$..*", "$..[-1]", "$..a", "$..[?@.a]", "$..[::2]"] {
            for e in EVALS {
                r.go(json!({"kind": "paths", "ev": e.name(), "q": q, "doc": d}));
            }
        }
    }
    r.random("locations of the nodes of random queries", (1500, 8.0), (60000, 150.0), |g, r| {
        let d = gen::json(g, 4, true);
        let q = gen::query(g, &Cfg { tricky: true, filters: 1, ..BASE });
        let t = print_q(&q, "$");
        for e in EVALS {
            r.go(json!({"kind": "paths", "ev": e.name(), "q": t, "doc": d}));
        }
    });
}
fn conslists(r: &mut Run) {
    let kinds = ["append", "tail", "tailn", "lastn", "clone", "drop", "from"];
    r.space.push("enumerated: lists of 1..70 elements, each shortened to every length from either end, with and without other lists that share them".into());
    for m in ["loc", "sing"] {
        for n in 1..70usize {
            let mut ops: Vec<Value> = (0..n).map(|i| json!(["append", i, i])).collect();
            for k in 0..=n + 1 {
                if n < 20 || k % 7 == 0 || k >= n - 1 {
                    ops.push(json!(["tailn", n, k]));
                    ops.push(json!(["lastn", n, k]));
                    if k % 3 == 0 {
                        ops.push(json!(["drop", n + k, 0]));
                    }
                }
            }
            r.go(json!({"kind": "conslist", "m": m, "ops": ops}));
            r.go(json!({"kind": "conslist", "m": m, "ops": [["from", 0, n], ["tailn", 1, 1], ["drop", 1, 0], ["lastn", 0, 1], ["append", 1, 5]]}));
        }
    }
    r.random("operation histories over a pool of lists sharing structure", (1500, 6.0), (100000, 100.0), |g, r| {
        for m in ["loc", "sing"] {
            let n = 2 + g.n(14);
            let ops: Vec<Value> = (0..n)
                .map(|_| json!([if g.one_in(2) { "append" } else { *g.pick(&kinds) }, g.n(8), g.n(6)]))
                .collect();
            r.go(json!({"kind": "conslist", "m": m, "ops": ops}));
        }
    });
}
fn str_case(r: &mut Run, raw: &str) {
    // raw includes its quotes
    r.parse_all("parse", &format!("$[{}]", raw));
    r.parse_all("parse", &format!("$[?@=={}]", raw));
}
fn strings(r: &mut Run) {
    r.space.push("enumerated: \\uXXXX for every code unit class and all surrogate pairings of a set, every single-character escape, every raw code point below 0x80, in both quote styles; 7 parsers".into());
    for q in ['\'', '"'] {
        for c in (0..0x80u32).chain([0x80, 0xff, 0x2028, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff]) {
            let c = char::from_u32(c).unwrap();
            str_case(r, &format!("{q}{c}{q}"));
            str_case(r, &format!("{q}\\{c}{q}"));
            str_case(r, &format!("{q}x\\{c}y{q}"));
            if (c as u32) < 0x10000 {
                str_case(r, &format!("{q}\\u{:04x}{q}", c as u32));
                str_case(r, &format!("{q}a\\u{:04X}b{q}", c as u32));
            }
        }
        let us = ["0000", "001f", "0020", "0041", "00E9", "263a", "d7FF", "D800", "d834", "DBFF", "DC00", "dD1e", "DFFF", "E000", "FFFF"];
        for a in ["D834", "d834", "0041"] {
            for m in ["U", "x", "", "\\", "n", "'", "\"", "u\\", "/"] {
                str_case(r, &format!("{q}\\u{a}\\{m}DD1E{q}"));
                str_case(r, &format!("{q}\\u{a}\\{m}DD1Ezz{q}"));
                str_case(r, &format!("{q}\\u{a}{m}uDD1E{q}"));
                str_case(r, &format!("{q}\\{m}{a}\\uDD1E{q}"));
            }
        }
        for a in us {
            for b in us {
                str_case(r, &format!("{q}\\u{a}\\u{b}{q}"));
                str_case(r, &format!("{q}\\u{a}\\u{b}\\u{a}{q}"));
            }
            for t in ["", "x", "\\", "\\n", "\\u", "\\u1", "\\uDC0", "☺", "\\\\uDC00"] {
                str_case(r, &format!("{q}\\u{a}{t}{q}"));
                str_case(r, &format!("{q}{t}\\u{a}{q}"));
            }
        }
        for b in ["", "+041", "-041", "0x41", "00 1", "00g0", "004", "00☺", "é041", "û041", "12\u{e9}", "0_41"] {
            str_case(r, &format!("{q}\\u{b}{q}"));
            str_case(r, &format!("{q}\\u{b}zzzz{q}"));
            str_case(r, &format!("{q}\\uD834\\u{b}zz{q}"));
        }
        for s in ["\\\\'", "\\\\\"", "\\'\\\"", "'", "\"", "\\\\\\'", "\\\\\\\\'", "\\'", "''", "\"\"", "\\\\", "a\\", "\\", "\\/", "/"] {
            str_case(r, &format!("{q}{s}{q}"));
        }
    }
    blocks(r, "parse");
    r.random("random raw string literals", (3000, 10.0), (200000, 180.0), |g, r| {
        let q = *g.pick(&["'", "\""]);
        let mut s = String::from(q);
        for _ in 0..g.n(6) {
            match g.n(8) {
                0 => s.push_str(&format!("\\u{:04x}", g.n(0x10000))),
                1 => s.push_str(&format!("\\u{:04X}\\u{:04x}", 0xD800 + g.n(0x400), 0xDC00 + g.n(0x400))),
                2 => s.push_str(&format!("\\u{:04x}", 0xD7F0 + g.n(0x820))),
                3 => s.push_str(g.pick(&["\\n", "\\b", "\\f", "\\r", "\\t", "\\/", "\\\\"])),
                4 => s.push_str(g.pick(&["\\'", "\\\"", "\\a", "\\v", "\\0", "\\u", "\\x41"])),
                5 => s.push_str(g.pick(&["a", "b", " ", "☺", "\u{10348}", "é", "\u{7f}"])),
                6 => s.push_str(g.pick(&["'", "\"", "\\"])),
                _ => s.push((0x20 + g.n(0x5f) as u8) as char),
            }
        }
        s.push_str(q);
        str_case(r, &s);
    });
}
fn iints(r: &mut Run) {
    r.space.push("enumerated: integer texts around 0, +-(2^53-1), +-2^63, +-2^64, with leading zeros, signs, fractions and exponents, in index, slice and descendant positions".into());
    let mut t: Vec<String> = vec![];
    for b in [0i128, 1, -1, 5, (1 << 53) - 2, (1 << 53) - 1, 1 << 53, (1 << 53) + 1, 1 << 63, (1i128 << 63) - 1, 1i128 << 64, 1i128 << 100] {
        t.push(b.to_string());
        t.push((-b).to_string());
        t.push(format!("0{}", b));
        t.push(format!("-0{}", b.abs()));
        t.push(format!("+{}", b.abs()));
    }
    for s in ["-0", "00", "-", "--1", "1.0", "1e0", "1e2", "0x1", "1_0", " 1", "- 1", "1 ", "0.0", "٣", "99999999999999999999999999"] {
        t.push(s.into());
    }
    for s in &t {
        for f in ["$[{}]", "$..[{}]", "$[{}:]", "$[:{}]", "$[::{}]", "$[{}:1:1]", "$[1:{}:1]", "$[1:1:{}]", "$[?@[{}]]", "$[?@[{}]==1]", "$[?@[{}:1]]", "$[0, {}]", "$[ {} ]"] {
            r.parse_all("parse", &f.replace("{}", s));
        }
    }
    r.random("random integer texts", (2000, 6.0), (100000, 90.0), |g, r| {
        let v = match g.n(3) {
            0 => g.next() as i64 as i128,
            1 => (1i128 << g.n(70)) + g.n(5) as i128 - 2,
            _ => (1i128 << 53) - 3 + g.n(6) as i128,
        };
        let v = if g.one_in(2) { v } else { -v };
        let f = *g.pick(&["$[{}]", "$[{}:]", "$[:{}]", "$[::{}]"]);
        r.parse_all("parse", &f.replace("{}", &v.to_string()));
    });
}
fn typing(r: &mut Run) {
    let fns = json!([
        {"name": "vv", "params": ["v"], "ret": "v"}, {"name": "vl", "params": ["v"], "ret": "l"}, {"name": "vn", "params": ["v"], "ret": "n"},
        {"name": "lv", "params": ["l"], "ret": "v"}, {"name": "ll", "params": ["l"], "ret": "l"}, {"name": "ln", "params": ["l"], "ret": "n"},
        {"name": "nv", "params": ["n"], "ret": "v"}, {"name": "nl", "params": ["n"], "ret": "l"}, {"name": "nn", "params": ["n"], "ret": "n"},
        {"name": "z", "params": [], "ret": "v"}, {"name": "y", "params": [], "ret": "l"}, {"name": "three", "params": ["v", "l", "n"], "ret": "l"}, {"name": "two", "params": ["v", "n"], "ret": "l"},
        {"name": "pair", "params": ["v", "v"], "ret": "v"}, {"name": "pl", "params": ["l", "l"], "ret": "l"}, {"name": "pn", "params": ["n", "n"], "ret": "n"}, {"name": "six", "params": ["v", "l", "n", "v", "l", "n"], "ret": "v"},
    ]);
    let one = ["vv", "vl", "vn", "lv", "ll", "ln", "nv", "nl", "nn"];
    let mut args: Vec<String> = ["@", "@.a", "@.*", "$.a", "$..a", "@['a','b']", "@[0]", "@[0:1]", "@[?@.a]", "1", "-1.5", "'s'", "true", "null", "@.a==1", "1==1", "@.a!=1", "@.a<1", "1<=@.a", "@.a>@.b", "@.a>=$.b", "@.a<=@.b", "@.a == 1 && @.b", "@.b || 1 != @.a", "!@.a", "(@.a)", "@.a&&@.b", "@.a||@.b", "!(@.a==1)", "z()", "z(1)", "z(@.a)", "z(@.a, 1)", "z()==1", "z(@)==1", "y()", "y(@.a)", "y(1, 2)", "two(1,@.a)", "two(1)", "two(1,@.a,@.b)", "two()", "vv(1, 1)", "vv()", "three(1, @.a, @.b)", "three(1, 1, @.b)", "three(1, @.a==1, 1)", "three(1, @.a==1, @.*)", "three(@.*, @.a==1, @.*)", "three(vv(1), ll(@.a), nn(@.*))", "@.a==1&&@.b", "nope(1)", "",
        "pair(1,2)", "pair('a','b')", "pair(@.a,@.b)", "pair(1)", "pair(1,2,3)", "pair(@.*,1)", "pair(1,@.*)", "pair(1,@.a==1)", "pl(@.a,1)", "pl(1,@.a)", "pl(@.*,@.a==1)", "pl(@,@)", "pn(@,@.*)", "pn(1,@)", "pn(@,1)", "pn(@,@.a==1)",
        "six(1,@,@,1,@,@)", "six(1,@,@,1,@,1)", "six(1,@,@,1,1,@)", "six(1,@,@,@.*,@,@)", "six(1,@,@,1,@)", "six(1,@,@,1,@,@,@)",
        "@.a.b.c.d", "@.a[0].b[-1]", "@..a.b.c.d", "@..a[0]['b'].c.d.e", "@.a.b..c", "@.a.b[*].c", "@.a.b.c.d.*", "@.a.b[0,1].c", "@.a[0:1].b.c", "@['a'][?@].b.c", "$..a.b.c.d", "$.a.b.c", "pair(@.a.b.c,@..a.b.c)", "pair(@..a.b.c.d,1)"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    for f in one {
        for a in ["@.a", "@.*", "1", "@.a==1"] {
            args.push(format!("{}({})", f, a));
            args.push(format!("!{}({})", f, a));
            args.push(format!("{}({})==1", f, a));
        }
    }
    r.space.push(format!("enumerated: {} argument forms in the 9 one-parameter function types and as tests and comparands; arities; 7 parsers", args.len()));
    let mut texts = vec![];
    for a in &args {
        texts.push(format!("$[?{}]", a));
        texts.push(format!("$[?!{}]", a));
        texts.push(format!("$[?{}==1]", a));
        texts.push(format!("$[?1<{}]", a));
        texts.push(format!("$[?({})]", a));
        texts.push(format!("$[?!({})]", a));
        texts.push(format!("$[?!(@.x && {})]", a));
        texts.push(format!("$[?@[?{}]]", a));
        texts.push(format!("$[?{} && @.x]", a));
        texts.push(format!("$[?@.x || {}]", a));
        texts.push(format!("$[?two(1,{})]", a));
        texts.push(format!("$[?two({},@.a)]", a));
        for f in one {
            texts.push(format!("$[?{}({})]", f, a));
            texts.push(format!("$[?{}({})==1]", f, a));
            texts.push(format!("$[?!{}({})]", f, a));
        }
    }
    for f in ["count", "length", "match", "search", "value"] {
        for a in ["", "@", "@.a", "@.*", "1", "'a'", "@.a,'x'", "@.a, @.*", "@.*,'x'", "'a','b','c'", "@.a,1", "true", "@.a==1", "!@.a", "length(@)", "count(@)", "match(@,'a')", "value(@.*)", "length(@),'x'"] {
            texts.push(format!("$[?{}({})]", f, a));
            texts.push(format!("$[?{}({})==1]", f, a));
            texts.push(format!("$[?!{}({})]", f, a));
            texts.push(format!("$[?{}({})&&@.a]", f, a));
            texts.push(format!("$[?({}({}))]", f, a));
            texts.push(format!("$[?!({}({}))]", f, a));
            texts.push(format!("$[?@.a||!({}({}) && @.b)]", f, a));
            texts.push(format!("$[?@[?{}({})]]", f, a));
            texts.push(format!("$[?count(@[?{}({})])==1]", f, a));
        }
    }
    for t in &texts {
        for p in PARSERS {
            r.go(json!({"kind": "accept", "pr": p.name(), "q": t, "fns": fns}));
        }
    }
}
fn styled(g: &mut Rng, q: &Q) -> String {
    Sty { r: g, plain: false }.q(q, "$")
}
fn rand_q(g: &mut Rng, filters: usize) -> Q {
    gen::query(g, &Cfg { tricky: true, filters, regex: true, sing: false })
}
fn long(r: &mut Run, kind: &str) {
    r.space.push(format!("enumerated: texts in which one part (name, string, blank, number, list, path, expression, nesting) is long, {} lengths up to {}", SIZES.len(), SIZES[SIZES.len() - 1]));
    for t in long_texts() {
        if kind == "lex" {
            r.go(json!({"kind": "lex", "q": t}));
        } else {
            r.parse_all(kind, &t);
        }
    }
}
fn lexing(r: &mut Run) {
    long(r, "lex");
    blocks(r, "lex");
    r.random("tokens of valid query texts", (6000, 5.0), (300000, 90.0), |g, r| {
        let q = rand_q(g, 2);
        let t = styled(g, &q);
        r.go(json!({"kind": "lex", "q": t}));
        let m = mutate(&t, g);
        r.go(json!({"kind": "lex", "q": m}));
    });
    r.random("Tokens of token soup", (6000, 5.0), (300000, 90.0), |g, r| {
        let t = soup(g);
        r.go(json!({"kind": "lex", "q": t}));
    });
}
fn totality(r: &mut Run) {
    long(r, "total");
    let alpha = ["$", "@", "[", "]", "(", ")", "?", ".", "*", ",", ":", "'", "\"", "\\", "a", "1", "-", "e", "=", "!", "&", "|", "<", " ", "u", "☺"];
    let depth = if r.thorough { 3 } else { 2 };
    r.space.push(format!("enumerated: every text of `$`, `$[`, `$[?` or `$[?@.a` followed by up to {depth} of {} characters; 7 parsers", alpha.len()));
    for pre in ["", "$", "$[", "$[?", "$[?@.a", "$[?count(", "$['", "$[1"] {
        let mut level = vec![String::from(pre)];
        for _ in 0..depth {
            let mut next = vec![];
            for s in &level {
                for a in alpha {
                    next.push(format!("{}{}", s, a));
                }
            }
            for s in &next {
                r.parse_all("total", s);
                r.parse_all("total", &format!("{}]", s));
            }
            level = next;
        }
    }
    r.random("mutated query texts", (6000, 6.0), (300000, 120.0), |g, r| {
        let q = rand_q(g, 2);
        let t = styled(g, &q);
        let m = mutate(&t, g);
        r.parse_all("total", &m);
    });
    r.random("Token soup", (6000, 5.0), (300000, 120.0), |g, r| {
        let t = soup(g);
        r.parse_all("total", &t);
    });
}
fn trees(r: &mut Run) {
    long(r, "tree");
    r.space.push("enumerated: all expressions of up to four operands over && || ! and parentheses, as trees".into());
    let ops = ["&&", "||"];
    let mut ex = vec![];
    for o1 in ops {
        for o2 in ops {
            for o3 in ops {
                for n in 0..16 {
                    let t = |i: usize| format!("{}@.{}", if n >> i & 1 == 1 { "!" } else { "" }, ["a", "b", "c", "d"][i]);
                    ex.push(format!("{} {o1} {} {o2} {} {o3} {}", t(0), t(1), t(2), t(3)));
                    ex.push(format!("({} {o1} {}) {o2} {} {o3} {}", t(0), t(1), t(2), t(3)));
                    ex.push(format!("{} {o1} ({} {o2} {}) {o3} {}", t(0), t(1), t(2), t(3)));
                    ex.push(format!("{} {o1} {} {o2} ({} {o3} {})", t(0), t(1), t(2), t(3)));
                    ex.push(format!("!({} {o1} {}) {o2} !({} {o3} {})", t(0), t(1), t(2), t(3)));
                    ex.push(format!("({} {o1} {} {o2} {}) {o3} {}", t(0), t(1), t(2), t(3)));
                }
                for c in ["==", "<", ">="] {
                    ex.push(format!("@.a {c} 1 {o1} @.b {c} 'x' {o2} !(@.c {c} @.d) {o3} count(@.*) {c} 1"));
                    ex.push(format!("@.a{c}1{o1}@.b{c}'x'{o2}(@.c {c} @.d){o3}@.e"));
                }
            }
        }
    }
    for e in ex {
        r.parse_all("tree", &format!("$[?{}]", e));
    }
    r.random("trees of random queries in random styles", (4000, 12.0), (200000, 200.0), |g, r| {
        let q = rand_q(g, 2);
        let t = styled(g, &q);
        r.parse_all("tree", &t);
    });
}
fn display(r: &mut Run) {
    long(r, "display");
    blocks(r, "display");
    r.random("queries printed and parsed again", (4000, 12.0), (200000, 200.0), |g, r| {
        let q = rand_q(g, 2);
        let t = styled(g, &q);
        r.parse_all("display", &t);
    });
    for t in gen::TRICKY {
        r.parse_all("display", &format!("$[{}]", quote(t, '\'')));
        r.parse_all("display", &format!("$[?@.a=={}]", quote(t, '"')));
    }
    for t in ["$[?!(@.a==1)]", "$[?!(@.a&&@.b)]", "$[?!(@.a||@.b)&&@.c]", "$[?(@.a||@.b)&&@.c]", "$[?@.a||@.b&&@.c]", "$[?1e300==@]", "$[?1.5e-300==@]", "$[?-0==@]", "$[?-0.0==@]", "$[?1.0==@]", "$[?100000000000000000000.0==@]", "$[::-1]", "$[1:]", "$[:1]", "$[?count(@.*)==1]", "$[?match(@.a,'x')]", "$[?!match(@.a,'x')]", "$[?@[?@.a]]", "$[?$.a]"] {
        r.parse_all("display", t);
    }
}
fn singulars(r: &mut Run) {
    let segs = [".a", "['a']", "[0]", "[-1]", "..a", "..[0]", ".*", "[*]", "[0,1]", "['a',0]", "[0:1]", "[?@.a]", "[?@]", "['']"];
    r.space.push("enumerated: all queries of up to 3 segments over 14 segments; 7 parsers".into());
    r.parse_all("singular", "$");
    for a in segs {
        r.parse_all("singular", &format!("${}", a));
        for b in segs {
            r.parse_all("singular", &format!("${}{}", a, b));
            for c in segs {
                r.parse_all("singular", &format!("${}{}{}", a, b, c));
            }
        }
    }
    // indexes of every size, names of every kind, lists of equal selectors, one segment among many
    for i in (-130..130i64).chain([31, 32, 52].iter().flat_map(|b| [1i64 << b, -(1i64 << b), (1i64 << b) - 1])) {
        r.parse_all("singular", &format!("$[{}]", i));
        r.parse_all("singular", &format!("$.a[{}].b", i));
        r.parse_all("singular", &format!("$[?@[{}]==1]", i));
    }
    for k in gen::TRICKY.iter().chain(gen::NAMES.iter()) {
        r.parse_all("singular", &format!("$[{}]", quote(k, '"')));
        r.parse_all("singular", &format!("$[{}][0]", quote(k, '\'')));
    }
    for n in 2..10 {
        for a in ["0", "'a'", "-1", "*", "0:1", "?@"] {
            r.parse_all("singular", &format!("$[{}]", vec![a; n].join(",")));
            r.parse_all("accept", &format!("$[?@[{}]==1]", vec![a; n].join(",")));
        }
        for s in segs {
            for (at, base) in (0..=n).flat_map(|i| [(i, ".a"), (i, "[0]")]) {
                let mut v = vec![base; n];
                v.insert(at, s);
                let t = v.concat();
                r.parse_all("singular", &format!("${}", t));
                for f in ["$[?@{}==1]", "$[?1<${}]", "$[?length(@{})==1]", "$[?match(@{},'a')]"] {
                    r.parse_all("accept", &f.replace("{}", &t));
                }
            }
        }
    }
    for a in segs {
        for b in segs {
            for f in ["$[?@{}==1]", "$[?1<@{}]", "$[?$x{}==@.a]", "$[?length(@{})==1]", "$[?@{}]"] {
                let t = f.replace("$x", "$").replace("{}", &format!("{}{}", a, b));
                r.parse_all("accept", &t);
            }
        }
    }
}
fn agreement(r: &mut Run) {
    nodelists(r);
    filters(r);
    comparisons(r);
    functions(r);
    r.random("the five evaluations of random queries", (4000, 10.0), (200000, 200.0), |g, r| {
        let d = gen::json(g, 4, true);
        let q = gen::query(g, &Cfg { tricky: true, filters: 2, regex: true, sing: false });
        let t = styled(g, &q);
        r.go(json!({"kind": "agree", "q": t, "doc": d}));
    });
}
fn singsel(r: &mut Run) {
    let docs = [
        json!({"k": "a", "i": 1, "n": -1, "f": 1.0, "big": 99, "o": {"a": 1, "k": 2}, "l": [10, 20, 30], "t": true, "z": null, "a": "l", "x": {"p": "k"}}),
        json!([0, 1, [2, 3], {"a": "b", "b": 7}, "a", -1]),
    ];
    for b in [8, 16, 31, 32, 33, 53, 62] {
        for k in -3..4 {
            for i in [(1i64 << b) + k, -(1i64 << b) + k] {
                let d = json!({"i": i, "u": i as u64, "f": i as f64, "l": [10, 20, 30], "o": {i.to_string(): 1}});
                for q in ["$.l[$.i]", "$.l[$.u]", "$.l[$.f]", "$.o[$.i]", "$..[$.i]"] {
                    r.sing_only("nodes", q, &d);
                }
            }
        }
    }
    for i in [json!(u64::MAX), json!(i64::MAX), json!(i64::MIN), json!(1e300), json!(-1.0), json!(0.5)] {
        let d = json!({"i": i, "l": [10, 20, 30]});
        r.sing_only("nodes", "$.l[$.i]", &d);
    }
    let inner = ["$.k", "$.i", "$.n", "$.f", "$.big", "$.o", "$.l", "$.t", "$.z", "$.nope", "$[0]", "$[-1]", "$[4]", "$[5]", "$.x.p", "$['k']", "$[2][0]", "$"];
    r.space.push("enumerated: 18 inner queries in child, descendant and multi-selector position on 2 documents; nested inner queries".into());
    for d in &docs {
        for i in inner {
            for f in ["$[{}]", "$.o[{}]", "$.l[{}]", "$..[{}]", "$[{}, {}]", "$[0, {}]", "$[*][{}]", "$[$[{}]]", "$[?@[{}]]"] {
                r.sing_only("nodes", &f.replace("{}", i), d);
                r.sing_only("paths", &f.replace("{}", i), d);
            }
        }
    }
    r.random("random queries with singular query selectors", (3000, 6.0), (200000, 100.0), |g, r| {
        let d = gen::json(g, 4, false);
        let q = gen::query(g, &Cfg { tricky: false, filters: 1, regex: false, sing: true });
        r.sing_only("nodes", &print_q(&q, "$"), &d);
    });
}
fn numbers(r: &mut Run) {
    r.space.push("enumerated: sign x integer part x fraction x exponent forms, valid and invalid, as literals in comparisons; 7 parsers".into());
    let ip = ["0", "1", "12", "00", "01", "", "9007199254740993", "123456789012345678901234567890"];
    let fp = ["", ".0", ".5", ".50", ".", ".e", "..1"];
    let ep = ["", "e0", "E0", "e2", "E2", "e+2", "E+2", "e-2", "E-2", "e", "e+", "e02", "e-02", "e2.5", "e15"];
    for s in ["", "-", "+", "--"] {
        for i in ip {
            for f in fp {
                for e in ep {
                    let n = format!("{}{}{}{}", s, i, f, e);
                    r.parse_all("parse", &format!("$[?@=={}]", n));
                    if s != "--" {
                        r.parse_all("parse", &format!("$[?{}<@.a]", n));
                    }
                }
            }
        }
    }
    for n in ["9223372036854775806", "9223372036854775807", "9223372036854775808", "9223372036854775809", "9223372036854774784", "9223372036854774783", "18446744073709551615", "18446744073709551616", "1000000000000000000", "999999999999999999", "4611686018427387904", "4503599627370497", "9007199254740991", "9007199254740993", "100000000000000000000"] {
        for (m, e) in [("", ""), ("", ".0"), ("", "e0"), ("", "E+0"), ("", "e-0"), ("0", "e-1"), ("", "e1"), ("", ".5"), ("", "e2"), ("", ".25e1")] {
            for s in ["", "-"] {
                r.parse_all("parse", &format!("$[?@=={}{}{}{}]", s, n, m, e));
            }
        }
    }
    for k in 0..40 {
        for m in ["1", "9", "5", "12", "123456789", "92233720368547758", "1.5", "0.1", "9.223372036854775807"] {
            for x in ["e", "E", "e+", "E-", "e-"] {
                r.parse_all("parse", &format!("$[?@=={}{}{}]", m, x, k));
                r.parse_all("parse", &format!("$[?-{}{}{}<@]", m, x, k));
            }
        }
    }
    let d = json!([0, 1, -1, 100, 0.01, 1.5, 12, 1200.0, -0.0, 1e15, 5]);
    for n in ["0", "-0", "-0.0", "1", "1.0", "1e2", "1E2", "1e+2", "1e-2", "100e-2", "1.5e0", "-1", "-1.0", "-1e0", "12e2", "0.01", "10e-1", "0e5", "50e-1", "1e15"] {
        for o in ["==", "<", ">="] {
            r.eval_all("nodes", &format!("$[?@{}{}]", o, n), &d);
            r.eval_all("nodes", &format!("$[?{}{}@]", n, o), &d);
        }
    }
    r.random("random number texts", (3000, 6.0), (150000, 100.0), |g, r| {
        let mut s = String::new();
        if g.one_in(3) {
            s.push('-');
        }
        s.push_str(&(g.next() >> g.n(64)).to_string());
        if g.one_in(2) {
            s.push_str(&format!(".{}", g.n(1000)));
        }
        if g.one_in(2) {
            s.push_str(&format!("{}{}{}", g.pick(&["e", "E"]), g.pick(&["", "+", "-"]), g.n(25)));
        }
        r.parse_all("parse", &format!("$[?@=={}]", s));
    });
}
fn evaltotal(r: &mut Run) {
    r.random("evaluation of random queries in random styles", (3000, 8.0), (200000, 200.0), |g, r| {
        let d = if g.one_in(4) { Value::Array(values()) } else { gen::json(g, 4, true) };
        let q = gen::query(g, &Cfg { tricky: true, filters: 2, regex: true, sing: true });
        let t = print_q(&q, "$");
        r.eval_all("noloss", &t, &d);
    });
    for v in values() {
        for q in ["$[?@==1]", "$[?@<1]", "$[?@>=@]", "$[?length(@)==1]", "$[?value(@)==1]", "$[?match(@,'a')]", "$[?match('a',@)]", "$[?search('a',@)]", "$[?count(@.*)>0]", "$[?@]", "$..[?@.*]"] {
            r.eval_all("noloss", q, &json!([v, {"a": v}, [v]]));
        }
    }
    for pat in PATS.iter().chain(gen::REGEXES.iter()) {
        for f in ["match", "search"] {
            for q in [format!("$[?{}(@, {})]", f, quote(pat, '\'')), format!("$[?{}(@, $[0])]", f)] {
                r.eval_all("noloss", &q, &json!([pat, "a", "", 1, null, {}, ["a"], "a\nb", "\u{1f600}"]));
            }
        }
    }
    let n = if r.thorough { 300000 } else { 60000 };
    r.space.push(format!("arrays and objects of {} members and an array nested 100 deep, in processes with a stack of 8 MB", n));
    for q in ["$[?@<0]", "$[?@.a]", "$..a", "$[*].a", "$[*][?@]", "$[0,1].a", "$..[?@.b]", "$[::2]", "$[::-1].a", "$[?count($.*)<0]"] {
        if q.contains("count") && !r.thorough {
            continue;
        }
        for e in EVALS {
            for (shape, n) in [("array", n), ("object", n), ("nested", 100)] {
                r.go(json!({"kind": "bigdoc", "ev": e.name(), "q": q, "shape": shape, "n": n}));
            }
        }
    }
}
/// valid queries as lists of tokens, among them every construct of the grammar
fn corpus() -> Vec<Vec<String>> {
    [
        "$ .a [ 'b' ] .. c [ 0 ] .* ..* .. [ * ]",
        "$ [ 'a' , \"b\" , 1 , -2 , * , 1 : 2 , ? @ .a , : : -1 ]",
        "$ [ 1 : 2 : 3 , : , : : , 1 : , : 2 , : : 3 , 1 : : 3 ]",
        "$ [ ? @ .a == 1 && @ [ 'b' ] != 'x' || ! @ .c && ( $ .d < 1.5 || @ .e >= -1e2 ) ]",
        "$ [ ? ! ( @ .a <= null || true == @ ) && ! match( @ .a , 'x' ) ]",
        "$ [ ? count( @ .* ) > 1 , ? length( @ [ 0 ] ) == length( 'x' ) ]",
        "$ [ ? search( value( @ ..a ) , $ .r ) || value( $ ..b ) == false ]",
        "$ [ ? @ [ ? @ .a == 1 ] && @ [ 1 : ] && @ ..a [ 0 , 1 ] ]",
        "$ [ ? ( ( @ .a ) ) && ! ( ! ( @ .b ) ) ]",
        "$ [ ? 'a' == \"b\" || -0 < 1E+2 || 10e-1 == 0.0 ]",
        "$ [ ? count( @ [ ? count( @ .* ) == 1 ] ) == 1 ] .x",
    ]
    .iter()
    .map(|t| t.split(' ').map(String::from).collect())
    .collect()
}
/// all of Unicode in blocks, as the characters of names and strings
fn blocks(r: &mut Run, kind: &str) {
    let w = 128;
    r.space.push(format!("enumerated: all scalar values from U+0080, {} at a time, as shorthand names and strings; U+0000..U+2fff, U+d7f0..U+10010 and plane ends one at a time between tokens", w));
    let all: Vec<char> = (0x80..0x110000u32).filter_map(char::from_u32).collect();
    for b in all.chunks(w) {
        let b: String = b.iter().collect();
        for t in [format!("$.{}.a", b), format!("$[?@.a{}=='{}']", b, b)] {
            if kind == "lex" {
                r.go(json!({"kind": "lex", "q": t}));
            } else {
                r.parse_all(kind, &t);
            }
        }
    }
    if kind == "accept" || kind == "lex" {
        let ends = (0..17u32).flat_map(|p| [p * 0x10000 + 0xfffe, p * 0x10000 + 0xffff, p * 0x10000]);
        for c in (0..0x3000u32).chain(0xd7f0..0x10010).chain(ends).filter_map(char::from_u32) {
            for t in [format!("${}.a", c), format!("$[{}0]", c), format!("$[?@.a{}==1]", c), format!("$.{}", c), format!("$[?{}(@.a)]", c), format!("$[1{}]", c)] {
                if kind == "lex" {
                    r.go(json!({"kind": "lex", "q": t}));
                } else {
                    r.parse_all(kind, &t);
                }
            }
        }
    }
}
fn grammar(r: &mut Run) {
    long(r, "accept");
    blocks(r, "accept");
    let toks = [
        "$", "@", "[", "]", "(", ")", "*", "..", ".", "?", ",", ":", "&&", "||", "!", "==", "<", "'a'", "a", "0", "1", "-1", "1.5", "true", "null", "count(", "match(", "@.a", "$.b", "['a']", ".a", " ",
    ];
    let corpus = corpus();
    r.space.push(format!("enumerated: {} texts of every construct with any token deleted, doubled, exchanged with the next, and any of {} tokens inserted or put in its place", corpus.len(), toks.len()));
    for t in &corpus {
        let mut vars = vec![t.clone()];
        for i in 0..=t.len() {
            for k in toks {
                let mut u = t.clone();
                u.insert(i, k.to_string());
                vars.push(u);
                if i < t.len() {
                    let mut u = t.clone();
                    u[i] = k.to_string();
                    vars.push(u);
                }
            }
            if i < t.len() {
                let mut u = t.clone();
                u.remove(i);
                vars.push(u);
                let mut u = t.clone();
                u.insert(i, t[i].clone());
                vars.push(u);
                let mut u = t.clone();
                u.truncate(i);
                vars.push(u);
            }
            if i + 1 < t.len() {
                let mut u = t.clone();
                u.swap(i, i + 1);
                vars.push(u);
            }
        }
        for u in vars {
            r.parse_all("accept", &u.join(""));
        }
    }
    let (sel, fil) = (["0", "-1", ":", ",", "'a'", "*", "?@", " "], ["@.a", "@..b", "1", "'x'", "==", "<", "&&", "||", "!", "(", ")", "count(", "match(", ",", "length("]);
    let n = if r.thorough { 5 } else { 4 };
    r.space.push(format!("enumerated: all selections of up to {} of {} tokens and all filters of up to {} of {} tokens", n + 1, sel.len(), n, fil.len()));
    for (pre, toks, n) in [("$[", &sel[..], n + 1), ("$[?", &fil[..], n)] {
        let mut level = vec![String::new()];
        for _ in 0..n {
            level = level.iter().flat_map(|s| toks.iter().map(move |t| format!("{}{}", s, t))).collect();
            for s in &level {
                r.parse_all("accept", &format!("{}{}]", pre, s));
            }
        }
    }
    r.random("valid texts in random styles", (4000, 10.0), (200000, 200.0), |g, r| {
        let q = rand_q(g, 2);
        let t = styled(g, &q);
        r.parse_all("accept", &t);
    });
    r.random("mutated texts", (6000, 10.0), (300000, 200.0), |g, r| {
        let q = rand_q(g, 2);
        let t = styled(g, &q);
        let m = mutate(&t, g);
        r.parse_all("accept", &m);
    });
    r.random("Token soup", (6000, 5.0), (300000, 120.0), |g, r| {
        let t = soup(g);
        r.parse_all("accept", &t);
    });
}
