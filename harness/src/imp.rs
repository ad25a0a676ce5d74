//! The seven real crates behind one interface.
use crate::dbg;
use crate::rast::*;
use crate::reval::PE;
use serde_json::Value;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Pr {
    Hand,
    Pest,
    Prec,
    Ser,
    Itr,
    Loc,
    Sing,
}
pub const PARSERS: [Pr; 7] = [Pr::Hand, Pr::Pest, Pr::Prec, Pr::Ser, Pr::Itr, Pr::Loc, Pr::Sing];
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Ev {
    SerFind,
    SerLoop,
    Itr,
    Loc,
    Sing,
    // the same through an Environment of one's own
    SerEnv,
    SerEnvLoop,
    ItrEnv,
    LocEnv,
    SingEnv,
}
pub const EVALS: [Ev; 10] = [Ev::SerFind, Ev::SerLoop, Ev::Itr, Ev::Loc, Ev::Sing, Ev::SerEnv, Ev::SerEnvLoop, Ev::ItrEnv, Ev::LocEnv, Ev::SingEnv];
thread_local! {
    static SER_ENV: ser::env::Environment = ser::env::Environment::new();
    static ITR_ENV: &'static itr::env::Environment = Box::leak(Box::new(itr::env::Environment::new()));
    static LOC_ENV: &'static loc::env::Environment = Box::leak(Box::new(loc::env::Environment::new()));
    static SING_ENV: &'static sing::env::Environment = Box::leak(Box::new(sing::env::Environment::new()));
}
impl Pr {
    pub fn name(&self) -> &'static str {
        match self {
            Pr::Hand => "jsonpath_rfc9535",
            Pr::Pest => "jsonpath_rfc9535_pest",
            Pr::Prec => "jsonpath_rfc9535_pest_recursive",
            Pr::Ser => "jsonpath_rfc9535_serde",
            Pr::Itr => "jsonpath_rfc9535_iter",
            Pr::Loc => "jsonpath_rfc9535_locations",
            Pr::Sing => "jsonpath_rfc9535_singular",
        }
    }
}
impl Ev {
    pub fn parser(&self) -> Pr {
        match self {
            Ev::SerFind | Ev::SerEnv | Ev::SerLoop | Ev::SerEnvLoop => Pr::Ser,
            Ev::Itr | Ev::ItrEnv => Pr::Itr,
            Ev::Loc | Ev::LocEnv => Pr::Loc,
            Ev::Sing | Ev::SingEnv => Pr::Sing,
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Ev::SerFind => "jsonpath_rfc9535_serde::find",
            Ev::SerLoop => "jsonpath_rfc9535_serde::find_loop",
            Ev::Itr => "jsonpath_rfc9535_iter::find",
            Ev::Loc => "jsonpath_rfc9535_locations::find",
            Ev::Sing => "jsonpath_rfc9535_singular::find",
            Ev::SerEnv => "jsonpath_rfc9535_serde::Environment::find",
            Ev::SerEnvLoop => "jsonpath_rfc9535_serde::Environment::find_loop",
            Ev::ItrEnv => "jsonpath_rfc9535_iter::Environment::find",
            Ev::LocEnv => "jsonpath_rfc9535_locations::Environment::find",
            Ev::SingEnv => "jsonpath_rfc9535_singular::Environment::find",
        }
    }
}
#[derive(Debug, Clone)]
pub enum Out<T> {
    Ok(T),
    Err(String),
    Panic(String),
}
pub fn guard<T>(f: impl FnOnce() -> Result<T, String>) -> Out<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(e)) => Out::Err(e),
        Err(p) => Out::Panic(
            p.downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "?".into()),
        ),
    }
}
/// what a successful parse gives
#[derive(Debug, Clone)]
pub struct Parsed {
    pub q: Q,
    pub display: String,
    pub singular: bool,
    pub empty: Option<bool>,
}
fn mk(debug: String, display: String, singular: bool, empty: Option<bool>) -> Result<Parsed, String> {
    let d = dbg::parse(&debug).unwrap_or_else(|e| panic!("HARNESS {} in {}", e, debug));
    let q = dbg::query(&d).unwrap_or_else(|e| panic!("HARNESS {} in {}", e, debug));
    Ok(Parsed {
        q,
        display,
        singular,
        empty,
    })
}
pub fn parse(p: Pr, s: &str) -> Out<Parsed> {
    guard(|| match p {
        Pr::Hand => {
            let q = hand::Query::standard(s).map_err(|e| e.to_string())?;
            mk(format!("{:?}", q), q.to_string(), q.is_singular(), Some(q.is_empty()))
        }
        Pr::Pest => {
            let q = pst::Query::standard(s).map_err(|e| e.to_string())?;
            mk(format!("{:?}", q), q.to_string(), q.is_singular(), Some(q.is_empty()))
        }
        Pr::Prec => {
            let q = prec::Query::standard(s).map_err(|e| e.to_string())?;
            mk(format!("{:?}", q), q.to_string(), q.is_singular(), None)
        }
        Pr::Ser => {
            let q = ser::Query::standard(s).map_err(|e| e.to_string())?;
            mk(format!("{:?}", q), q.to_string(), q.is_singular(), Some(q.is_empty()))
        }
        Pr::Itr => {
            let q = itr::Query::standard(s).map_err(|e| e.to_string())?;
            mk(format!("{:?}", q), q.to_string(), q.is_singular(), Some(q.is_empty()))
        }
        Pr::Loc => {
            let q = loc::Query::standard(s).map_err(|e| e.to_string())?;
            mk(format!("{:?}", q), q.to_string(), q.is_singular(), Some(q.is_empty()))
        }
        Pr::Sing => {
            let q = sing::Query::standard(s).map_err(|e| e.to_string())?;
            mk(format!("{:?}", q), q.to_string(), q.is_singular(), Some(q.is_empty()))
        }
    })
}
/// accept or reject only (no tree), with the error text
pub fn accepts(p: Pr, s: &str) -> Out<()> {
    guard(|| match p {
        Pr::Hand => hand::Query::standard(s).map(|_| ()).map_err(|e| e.to_string()),
        Pr::Pest => pst::Query::standard(s).map(|_| ()).map_err(|e| e.to_string()),
        Pr::Prec => prec::Query::standard(s).map(|_| ()).map_err(|e| e.to_string()),
        Pr::Ser => ser::Query::standard(s).map(|_| ()).map_err(|e| e.to_string()),
        Pr::Itr => itr::Query::standard(s).map(|_| ()).map_err(|e| e.to_string()),
        Pr::Loc => loc::Query::standard(s).map(|_| ()).map_err(|e| e.to_string()),
        Pr::Sing => sing::Query::standard(s).map(|_| ()).map_err(|e| e.to_string()),
    })
}
use crate::rast::Ty;
type CustomFns<'a> = &'a [(&'a str, Vec<Ty>, Ty)];
macro_rules! custom {
    ($m:ident, $parser:expr, $ty:path, $sig:path, $fns:ident, $s:expr, $cf:expr) => {{
        let mut p = $parser;
        let t = |t: &Ty| match t {
            Ty::Value => <$ty>::Value,
            Ty::Logical => <$ty>::Logical,
            Ty::Nodes => <$ty>::Nodes,
        };
        for (n, ps, r) in $cf {
            type SigT = $sig;
            p.$fns.insert(
                n.to_string(),
                SigT {
                    param_types: ps.iter().map(t).collect(),
                    return_type: t(r),
                },
            );
        }
        let q = p.parse($s).map_err(|e| e.to_string())?;
        mk(format!("{:?}", q), q.to_string(), q.is_singular(), None)
    }};
}
/// parse with extra function signatures registered
pub fn parse_custom(p: Pr, s: &str, cf: CustomFns) -> Out<Parsed> {
    guard(|| match p {
        Pr::Hand => custom!(hand, hand::Parser::new(), hand::ExpressionType, hand::FunctionSignature, functions, s, cf),
        Pr::Pest => custom!(pst, pst::JSONPathParser::new(), pst::parser::ExpressionType, pst::parser::FunctionSignature, functions, s, cf),
        Pr::Prec => custom!(prec, prec::JSONPathParser::new(), prec::parser::ExpressionType, prec::parser::FunctionSignature, function_signatures, s, cf),
        Pr::Ser => custom!(ser, ser::JSONPathParser::new(), ser::function::ExpressionType, ser::function::FunctionSignature, functions, s, cf),
        Pr::Itr => custom!(itr, itr::JSONPathParser::new(), itr::function::ExpressionType, itr::function::FunctionSignature, functions, s, cf),
        Pr::Loc => custom!(loc, loc::JSONPathParser::new(), loc::function::ExpressionType, loc::function::FunctionSignature, functions, s, cf),
        Pr::Sing => custom!(sing, sing::JSONPathParser::new(), sing::function::ExpressionType, sing::function::FunctionSignature, functions, s, cf),
    })
}
#[derive(Debug, Clone)]
pub struct ENode {
    pub path: String,
    pub ptr: *const Value,
    /// root-first path elements, where the crate exposes them
    pub elems: Option<Vec<PE>>,
}
pub fn eval(e: Ev, s: &str, v: &Value) -> Out<Vec<ENode>> {
    guard(|| match e {
        Ev::SerFind | Ev::SerEnv => Ok((if e == Ev::SerEnv { SER_ENV.with(|x| x.find(s, v)) } else { ser::find(s, v) })
            .map_err(|e| e.to_string())?
            .iter()
            .map(|n| ENode {
                path: n.location.clone(),
                ptr: n.value,
                elems: None,
            })
            .collect()),
        Ev::SerLoop | Ev::SerEnvLoop => Ok((if e == Ev::SerEnvLoop { SER_ENV.with(|x| x.find_loop(s, v)) } else { ser::find_loop(s, v) })
            .map_err(|e| e.to_string())?
            .iter()
            .map(|n| ENode {
                path: n.location.clone(),
                ptr: n.value,
                elems: None,
            })
            .collect()),
        Ev::Itr | Ev::ItrEnv => Ok((if e == Ev::ItrEnv { ITR_ENV.with(|x| x.find(s, v)) } else { itr::find(s, v) })
            .map_err(|e| e.to_string())?
            .map(|n| ENode {
                path: n.location.clone(),
                ptr: n.value,
                elems: None,
            })
            .collect()),
        Ev::Loc | Ev::LocEnv => Ok((if e == Ev::LocEnv { LOC_ENV.with(|x| x.find(s, v)) } else { loc::find(s, v) })
            .map_err(|e| e.to_string())?
            .iter()
            .map(|n| ENode {
                path: n.path(),
                ptr: n.value,
                elems: Some({
                    let mut p: Vec<PE> = n
                        .location
                        .iter()
                        .map(|e| match e {
                            loc::node::PathElement::Index(i) => PE::I(*i),
                            loc::node::PathElement::Name(k) => PE::K(k.clone()),
                        })
                        .collect();
                    p.reverse();
                    p
                }),
            })
            .collect()),
        Ev::Sing | Ev::SingEnv => Ok((if e == Ev::SingEnv { SING_ENV.with(|x| x.find(s, v)) } else { sing::find(s, v) })
            .map_err(|e| e.to_string())?
            .iter()
            .map(|n| ENode {
                path: n.path(),
                ptr: n.value,
                elems: Some({
                    let mut p: Vec<PE> = n
                        .location
                        .iter()
                        .map(|e| match e {
                            sing::node::PathElement::Index(i) => PE::I(*i),
                            sing::node::PathElement::Name(k) => PE::K(k.clone()),
                        })
                        .collect();
                    p.reverse();
                    p
                }),
            })
            .collect()),
    })
}

/// functions of every kind of parameter and result, each saying what it was given
pub const CUSTOM: [(&str, &[Ty], Ty); 8] = [
    ("t", &[Ty::Logical], Ty::Logical),
    ("lv", &[Ty::Logical], Ty::Value),
    ("same", &[Ty::Value], Ty::Value),
    ("isnull", &[Ty::Value], Ty::Logical),
    ("absent", &[Ty::Value], Ty::Logical),
    ("ns", &[Ty::Nodes], Ty::Nodes),
    ("many", &[Ty::Nodes], Ty::Logical),
    ("mix", &[Ty::Value, Ty::Logical, Ty::Nodes], Ty::Logical),
];
macro_rules! custom_eval {
    ($m:ident, $F:path, $n:expr, $s:expr, $v:expr, |$q:ident, $env:ident| $find:expr) => {{
        use $m::function::{ExpressionType as T, FunctionExtension, FunctionSignature};
        use $F as F;
        struct Cust(usize);
        impl FunctionExtension for Cust {
            fn call<'a>(&self, mut a: Vec<F<'a>>) -> F<'a> {
                match CUSTOM[self.0].0 {
                    "t" | "lv" => F::Bool(matches!(a[0], F::Bool(true))),
                    "same" | "ns" => a.remove(0),
                    "isnull" => F::Bool(matches!(a[0], F::Null)),
                    "absent" => F::Bool(matches!(a[0], F::Nothing)),
                    "many" => F::Bool(matches!(&a[0], F::Nodes(n) if n.len() > 1)),
                    _ => F::Bool(matches!(a[0], F::Int(1)) && matches!(a[1], F::Bool(true)) && matches!(&a[2], F::Nodes(n) if n.len() == 1)),
                }
            }
            fn sig(&self) -> FunctionSignature {
                sig(self.0)
            }
        }
        fn sig(i: usize) -> FunctionSignature {
            let t = |t: &Ty| match t {
                Ty::Value => T::Value,
                Ty::Logical => T::Logical,
                Ty::Nodes => T::Nodes,
            };
            FunctionSignature {
                param_types: CUSTOM[i].1.iter().map(t).collect(),
                return_type: t(&CUSTOM[i].2),
            }
        }
        thread_local! {
            static E: &'static $m::env::Environment = {
                let mut e = $m::env::Environment::new();
                for i in 0..CUSTOM.len() {
                    e.function_register.insert(CUSTOM[i].0.to_string(), Box::new(Cust(i)));
                }
                Box::leak(Box::new(e))
            };
        }
        let mut p = $m::JSONPathParser::new();
        for i in 0..CUSTOM.len() {
            p.functions.insert(CUSTOM[i].0.to_string(), sig(i));
        }
        let $q = $m::Query::new(p.parse($s).map_err(|e| e.to_string())?.segments);
        let $env = E.with(|e| *e);
        Ok($find)
    }};
}
/// the nodes of a query that may call the functions of CUSTOM
pub fn eval_custom(p: Pr, s: &str, v: &Value) -> Out<Vec<*const Value>> {
    guard(|| match p {
        Pr::Ser => custom_eval!(ser, ser::ast::FilterExpressionResult, n, s, v, |q, e| q.find(v, e).map_err(|e| e.to_string())?.iter().map(|n| n.value as *const Value).collect()),
        Pr::Itr => custom_eval!(itr, itr::filter::FilterExpressionResult, n, s, v, |q, e| itr::iter::QueryIter::new(e, v, q).map(|n| n.value as *const Value).collect()),
        Pr::Loc => custom_eval!(loc, loc::filter::FilterExpressionResult, n, s, v, |q, e| q.find(v, e).iter().map(|n| n.value as *const Value).collect()),
        Pr::Sing => custom_eval!(sing, sing::filter::FilterExpressionResult, n, s, v, |q, e| q.find(v, e).iter().map(|n| n.value as *const Value).collect()),
        _ => Err("does not evaluate".to_string()),
    })
}
