//! Text edits on one function: contracts and ghost code go in, listed leaf constructs are renamed.
use crate::ann::{Fun, Note};
use proc_macro2::Span;
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::parse::{ParseStream, Parser};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

pub fn norm(t: impl ToTokens) -> String {
    t.to_token_stream().to_string().split_whitespace().collect::<Vec<_>>().join(" ")
}
pub fn normtxt(s: &str) -> String {
    match s.parse::<proc_macro2::TokenStream>() {
        Ok(t) => norm(t),
        Err(_) => s.split_whitespace().collect::<Vec<_>>().join(" "),
    }
}

/// method renames applied everywhere
pub fn method_renames() -> BTreeMap<&'static str, &'static str> {
    let l = [
        ("iter", "vx_iter"),
        ("into_iter", "vx_into_iter"),
        ("is_some_and", "vx_is_some_and"),
        ("map_or", "vx_map_or"),
        ("ok_or_else", "vx_ok_or_else"),
        ("unwrap_or_else", "vx_unwrap_or_else"),
        ("to_owned", "vx_to_owned"),
        ("to_string", "vx_to_string"),
        ("chars", "vx_chars"),
        ("extend", "vx_extend"),
        ("bytes", "vx_bytes"),
        ("starts_with", "vx_starts_with"),
        ("ends_with", "vx_ends_with"),
        ("join", "vx_join"),
        ("char_indices", "vx_char_indices"),
        ("contains", "vx_contains"),
        ("push_str", "vx_push_str"),
        ("to_digit", "vx_to_digit"),
        ("strip_prefix", "vx_strip_prefix"),
        ("is_ascii_digit", "vx_is_ascii_digit"),
        ("is_ascii_hexdigit", "vx_is_ascii_hexdigit"),
        ("is_ascii_lowercase", "vx_is_ascii_lowercase"),
        ("wrapping_sub", "vx_wrapping_sub"),
        ("wrapping_add", "vx_wrapping_add"),
        ("replace", "vx_replace"),
        ("and", "vx_and"),
        ("or", "vx_or"),
        ("or_else", "vx_or_else"),
        ("xor", "vx_xor"),
        ("filter_ok", "vx_filter_ok"),
        ("flatten_ok", "vx_flatten_ok"),
        ("map_ok", "vx_map_ok"),
        ("parse", "vx_parse"),
        ("cloned", "vx_cloned"),
        ("copied", "vx_copied"),
        ("map_err", "vx_map_err"),
        ("rev", "vx_rev"),
    ];
    l.into_iter().collect()
}
pub fn path_renames() -> BTreeMap<&'static str, &'static str> {
    let l = [
        ("cmp :: max", "vx_max"),
        ("cmp :: min", "vx_min"),
        ("std :: cmp :: max", "vx_max"),
        ("std :: cmp :: min", "vx_min"),
        ("iter :: once", "vx_once"),
        ("usize :: try_from", "vx_usize_try_from"),
        ("i64 :: try_from", "vx_i64_try_from"),
        ("char :: from_u32", "vx_char_from_u32"),
        ("std :: char :: from_u32", "vx_char_from_u32"),
        ("String :: from", "vx_string_from"),
    ];
    l.into_iter().collect()
}

#[derive(Default)]
pub struct Out {
    pub shape: Vec<String>,      // loops, closures, matches, ifs in order
    pub calls: Vec<String>,      // called simple names (functions and methods)
    pub lost: Vec<String>,       // annotations that found no place
    pub dropped: Vec<String>,    // what the extraction replaced
}

pub struct Edit {
    pub a: usize,
    pub b: usize,
    pub key: (i32, i64, i64), // order among edits at the same place
    pub t: String,
}

pub struct Ed<'a> {
    pub src: &'a str,
    pub edits: Vec<Edit>,
    notes: &'a [Note],
    used: Vec<bool>,
    n_loop: usize,
    n_closure: usize,
    pub out: Out,
    mren: BTreeMap<&'static str, &'static str>,
    pren: BTreeMap<&'static str, &'static str>,
    noren: Vec<String>,
    /// associated types of the impl block
    pub assoc: Vec<(String, String)>,
    opts: Vec<String>,
    prio: i32,
    selfcalls: BTreeMap<String, String>,
    flat_split: BTreeMap<(usize, usize), String>, // flat_map calls inside a split chain
}

fn br(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

impl<'a> Ed<'a> {
    fn clash(&mut self, i: &proc_macro2::Ident) {
        let n = i.to_string();
        if n == "int" || n == "nat" || n == "real" {
            let (a, _) = br(i.span());
            self.ins_start((a, a), "vx_".into());
        }
    }
    pub fn new(src: &'a str, f: &'a Fun) -> Self {
        let mut selfcalls = BTreeMap::new();
        for n in &f.notes {
            if n.kind == "callren" {
                if let Some((a, b)) = n.arg.split_once(' ') {
                    selfcalls.insert(a.to_string(), b.trim().to_string());
                }
            }
        }
        Ed {
            src,
            edits: vec![],
            notes: &f.notes,
            used: vec![false; f.notes.len()],
            n_loop: 0,
            n_closure: 0,
            out: Out::default(),
            mren: method_renames(),
            pren: path_renames(),
            assoc: vec![],
            noren: f.notes.iter().filter(|n| n.kind == "noren").flat_map(|n| n.arg.split_whitespace().map(|s| s.to_string()).collect::<Vec<_>>()).collect(),
            opts: f.opts.clone(),
            prio: 0,
            selfcalls,
            flat_split: BTreeMap::new(),
        }
    }
    /// point insertion
    fn ins(&mut self, at: usize, t: String) {
        self.prio += 1;
        let p = self.prio as i64;
        self.edits.push(Edit { a: at, b: at, key: (1, 0, p), t });
    }
    /// at the start of a span: outer before inner
    fn ins_start(&mut self, sp: (usize, usize), t: String) {
        self.prio += 1;
        let p = self.prio as i64;
        self.edits.push(Edit { a: sp.0, b: sp.0, key: (1, -((sp.1 - sp.0) as i64), p), t });
    }
    /// at the end of a span: inner before outer
    fn ins_end(&mut self, sp: (usize, usize), t: String) {
        self.prio += 1;
        let p = self.prio as i64;
        self.edits.push(Edit { a: sp.1, b: sp.1, key: (0, (sp.1 - sp.0) as i64, -p), t });
    }
    fn rep(&mut self, a: usize, b: usize, t: String) {
        self.prio += 1;
        let p = self.prio as i64;
        self.edits.push(Edit { a, b, key: (2, 0, p), t });
    }
    fn note(&mut self, kind: &str, arg: &str) -> Option<String> {
        for i in 0..self.notes.len() {
            if self.notes[i].kind == kind && self.notes[i].arg == arg {
                self.used[i] = true;
                return Some(self.notes[i].text.clone());
            }
        }
        None
    }
    fn txt(&self, s: Span) -> &'a str {
        let (a, b) = br(s);
        &self.src[a..b]
    }

    pub fn function(&mut self, sig: &syn::Signature, block: &syn::Block, verified: bool) -> (usize, usize) {
        let (fs, _) = br(sig.span());
        let bs = br(block.brace_token.span.open());
        let be = br(block.brace_token.span.close());
        // return value name
        let ret = self.note("ret", &self.arg_of("ret")).map(|_| self.arg_of("ret"));
        if let (Some(name), syn::ReturnType::Type(_, ty)) = (ret, &sig.output) {
            let (a, b) = br(ty.span());
            self.ins_start((a, b), format!("({}: ", name));
            self.ins_end((a, b), ")".into());
        }
        for inp in &sig.inputs {
            if let syn::FnArg::Typed(p) = inp {
                self.visit_type(&p.ty);
                if let syn::Pat::Wild(w) = &*p.pat {
                    let (a, b) = br(w.span());
                    self.rep(a, b, "_vx_unused".into());
                }
            }
        }
        if let syn::ReturnType::Type(_, ty) = &sig.output {
            self.visit_type(ty);
        }
        for g in sig.generics.type_params() {
            for b in &g.bounds {
                if let syn::TypeParamBound::Trait(t) = b {
                    let last = t.path.segments.last().unwrap();
                    if last.ident == "IntoIterator" {
                        let (a, b) = br(last.ident.span());
                        self.rep(a, b, "VxSeq".into());
                    }
                }
            }
        }
        let spec = self.note("spec", "").unwrap_or_default();
        if verified {
            let entry = self.note("entry", "").unwrap_or_default();
            self.ins(bs.0, format!("\n{}\n", spec));
            if !entry.is_empty() {
                self.ins(bs.1, format!("\n{}\n", entry));
            }
            self.visit_block(block);
            let tail = self.notes.iter().find(|n| n.kind.trim_end_matches('?') == "tail").map(|n| (n.kind.clone(), n.arg.clone()));
            if let Some(t) = tail.as_ref().and_then(|(k, a)| self.note(k, a)) {
                let mode = tail.unwrap().1.replace("=>", "").trim().to_string();
                if let Some(syn::Stmt::Expr(e, None)) = block.stmts.last() {
                    self.wrap_expr(e, &t, &mode);
                } else {
                    self.ins(be.0, format!("\n{}\n", t));
                }
            }
            for i in 0..self.notes.len() {
                let n = &self.notes[i];
                if !self.used[i] && !["cast", "noren", "callren", "attr", "body"].contains(&n.kind.as_str()) {
                    if n.kind.ends_with('?') || n.arg.ends_with('?') {
                        continue;
                    }
                    self.out.lost.push(format!("{} {}", n.kind, n.arg));
                }
            }
        }
        (fs, be.1)
    }
    fn arg_of(&self, kind: &str) -> String {
        self.notes.iter().find(|n| n.kind == kind).map(|n| n.arg.clone()).unwrap_or_default()
    }
    /// `E` -> `{ let vx_t = E; ghost vx_t }`, with the outermost method chain split when mode says so
    fn wrap_expr(&mut self, e: &syn::Expr, ghost: &str, mode: &str) {
        let mode = mode.trim();
        // `Box::new(chain)`: the chain is the argument
        let e = match e {
            syn::Expr::Call(c) if mode.starts_with("chain") && c.args.len() == 1 => &c.args[0],
            _ => e,
        };
        let (a, b) = br(e.span());
        if mode.starts_with("chain") {
            // chain: c0 = receiver, c1 = c0.m1(..), ...
            let mut links: Vec<&syn::ExprMethodCall> = vec![];
            let mut cur = e;
            while let syn::Expr::MethodCall(m) = cur {
                links.push(m);
                cur = &m.receiver;
            }
            links.reverse();
            if links.len() >= 2 {
                let pre = mode.strip_prefix("chain").unwrap().trim();
                let pre = if pre.is_empty() { "c" } else { pre };
                let fm = |m: &syn::ExprMethodCall| if m.method == "flat_map" { "m" } else { "" };
                self.ins_start((a, b), format!("{{ let {}1{} = ", pre, fm(links[0])));
                for (k, m) in links.iter().enumerate() {
                    if m.method == "flat_map" {
                        self.flat_split.insert(br(m.span()), format!("; let {p}{k} = {p}{k}m.vx_flatten()", p = pre, k = k + 1));
                    }
                    if k == 0 {
                        continue;
                    }
                    let (da, db) = br(m.dot_token.span());
                    if (m.method == "fold" || m.method == "try_fold") && m.args.len() == 2 {
                        // name the start value and the closure
                        let comma = m.args.pairs().next().and_then(|p| p.punct().map(|c| br(c.span())));
                        let (_, oe) = br(m.paren_token.span.open());
                        let (_, le) = br(m.args[1].span());
                        let (_, ce) = br(m.paren_token.span.close());
                        self.rep(da, oe, format!("; let {}{}i = ", pre, k + 1));
                        if let Some((ca, cb)) = comma {
                            self.rep(ca, cb, format!("; let {}{}f = ", pre, k + 1));
                        }
                        self.rep(le, ce, format!("; let {p}{n} = {p}{k}.{m}({p}{n}i, {p}{n}f)", p = pre, n = k + 1, k = k, m = m.method));
                        continue;
                    }
                    self.rep(da, db, format!("; let {}{}{} = {}{}.", pre, k + 1, fm(m), pre, k));
                }
                self.ins_end((a, b), format!(";\n{}\n{}{} }}", ghost, pre, links.len()));
                return;
            }
            self.out.lost.push(format!("chain {}", norm(e)));
            return;
        }
        self.ins_start((a, b), "{ let vx_t = ".into());
        self.ins_end((a, b), format!(";\n{}\nvx_t }}", ghost));
    }
    fn loop_spec(&mut self, extra: &str) -> String {
        let k = self.n_loop;
        self.n_loop += 1;
        let t = self.note("loop", &k.to_string()).unwrap_or_default();
        // "invariant" may come first in the text; built-in invariants are put there
        if extra.is_empty() {
            return format!("\n{}\n", t);
        }
        if let Some(p) = t.find("invariant") {
            let (x, y) = t.split_at(p + "invariant".len());
            format!("\n{} {},\n{}\n", x, extra, y)
        } else {
            format!("\n invariant {},\n{}\n", extra, t)
        }
    }
    fn fmt_macro(&mut self, m: &syn::Macro, full: Span, write: bool) {
        let parser = |input: ParseStream| -> syn::Result<(Vec<syn::Expr>, Option<syn::LitStr>, Vec<syn::Expr>)> {
            let mut pre = vec![];
            if write {
                pre.push(input.parse::<syn::Expr>()?);
                input.parse::<syn::Token![,]>()?;
            }
            if !input.peek(syn::LitStr) {
                return Ok((pre, None, vec![]));
            }
            let l: syn::LitStr = input.parse()?;
            let mut args = vec![];
            while !input.is_empty() {
                input.parse::<syn::Token![,]>()?;
                if input.is_empty() {
                    break;
                }
                args.push(input.parse::<syn::Expr>()?);
            }
            Ok((pre, Some(l), args))
        };
        let (a, b) = br(full);
        match parser.parse2(m.tokens.clone()) {
            Ok((pre, Some(lit), args)) => {
                // split the format string
                let f = lit.value();
                let mut pieces: Vec<(bool, String, String)> = vec![]; // (is_arg, text or name, spec)
                let cs: Vec<char> = f.chars().collect();
                let mut cur = String::new();
                let mut i = 0;
                while i < cs.len() {
                    if (cs[i] == '{' || cs[i] == '}') && i + 1 < cs.len() && cs[i + 1] == cs[i] {
                        cur.push(cs[i]);
                        i += 2;
                    } else if cs[i] == '{' {
                        if !cur.is_empty() {
                            pieces.push((false, std::mem::take(&mut cur), String::new()));
                        }
                        let mut x = String::new();
                        i += 1;
                        while i < cs.len() && cs[i] != '}' {
                            x.push(cs[i]);
                            i += 1;
                        }
                        i += 1;
                        let (n, s) = x.split_once(':').map(|(n, s)| (n.to_string(), s.to_string())).unwrap_or((x.clone(), String::new()));
                        pieces.push((true, n, s));
                    } else {
                        cur.push(cs[i]);
                        i += 1;
                    }
                }
                if !cur.is_empty() {
                    pieces.push((false, cur, String::new()));
                }
                let positional = pieces.iter().filter(|p| p.0 && p.1.is_empty()).count();
                if positional != args.len() {
                    self.out.lost.push(format!("format string {:?}", f));
                    return;
                }
                let lit_of = |s: &str| format!(".lit({:?})", s);
                let meth = |s: &str| match s {
                    "" => ".arg(".to_string(),
                    s => format!(".arg_{}(", s.replace(|c: char| !c.is_alphanumeric(), "_")),
                };
                // text before the k-th positional argument
                let mut chunks: Vec<String> = vec![String::new()];
                for p in &pieces {
                    if !p.0 {
                        chunks.last_mut().unwrap().push_str(&lit_of(&p.1));
                    } else if !p.1.is_empty() {
                        let c = chunks.last_mut().unwrap();
                        c.push_str(&format!("{}&({}))", meth(&p.2), p.1));
                    } else {
                        let c = chunks.last_mut().unwrap();
                        c.push_str(&format!("{}&(", meth(&p.2)));
                        chunks.push("))".into());
                    }
                }
                let start;
                if write {
                    let (pa, pb) = br(pre[0].span());
                    self.rep(a, pa, "(".into());
                    self.ins_end((pa, pb), ").vx_write(VxS::new()".into());
                    start = pb;
                    self.visit_expr(&pre[0]);
                } else {
                    start = a;
                }
                let mut at = start;
                for (k, e) in args.iter().enumerate() {
                    let (ea, eb) = br(e.span());
                    let pre_t = if k == 0 && !write { format!("VxS::new(){}", chunks[0]) } else { chunks[k].clone() };
                    self.rep(at, ea, pre_t);
                    self.visit_expr(e);
                    at = eb;
                }
                let last = chunks.last().unwrap().clone();
                let head = if args.is_empty() && !write { "VxS::new()".to_string() } else { String::new() };
                self.rep(at, b, format!("{}{}.done(){}", head, last, if write { ")" } else { "" }));
                self.out.dropped.push(format!("format string {:?} -> concatenation", f));
            }
            _ => self.out.lost.push(format!("macro {}", norm(&m.path))),
        }
    }
    fn macro_(&mut self, m: &syn::Macro, full: Span) {
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        let (a, b) = br(full);
        match name.as_str() {
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.out.dropped.push(format!("{}! -> must be unreachable", name));
                self.rep(a, b, "vstd::pervasive::unreached()".into());
            }
            "debug_assert" | "assert" => {
                let parser = |input: ParseStream| -> syn::Result<syn::Expr> {
                    let e = input.parse::<syn::Expr>()?;
                    let _: proc_macro2::TokenStream = input.parse()?;
                    Ok(e)
                };
                if let Ok(e) = parser.parse2(m.tokens.clone()) {
                    let (ea, eb) = br(e.span());
                    self.rep(a, ea, "vx_assert(".into());
                    self.visit_expr(&e);
                    self.rep(eb, b, ")".into());
                } else {
                    self.out.lost.push(name);
                }
            }
            "format" => self.fmt_macro(m, full, false),
            "write" => self.fmt_macro(m, full, true),
            "vec" => {
                let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
                if let Ok(l) = p.parse2(m.tokens.clone()) {
                    for e in l.iter() {
                        self.visit_expr(e);
                    }
                }
            }
            "matches" => {
                let parser = |input: ParseStream| -> syn::Result<syn::Expr> {
                    let e = input.parse::<syn::Expr>()?;
                    let _: proc_macro2::TokenStream = input.parse()?;
                    Ok(e)
                };
                if let Ok(e) = parser.parse2(m.tokens.clone()) {
                    self.visit_expr(&e);
                }
                self.out.shape.push("matches".into());
            }
            _ => self.out.lost.push(format!("macro {}!", name)),
        }
    }
    fn stmt_anchor(&mut self, kind: &str, txt: &str) -> Option<String> {
        for i in 0..self.notes.len() {
            if self.notes[i].kind == kind && !self.used[i] {
                let (want, skip) = split_ord(&self.notes[i].arg);
                let w = normtxt(&want);
                if txt.starts_with(&w) {
                    if skip > 0 {
                        // count down by remembering in `seen`
                        let c = self.out.dropped.iter().filter(|d| **d == format!("@{}", i)).count();
                        if c < skip {
                            self.out.dropped.push(format!("@{}", i));
                            continue;
                        }
                    }
                    self.used[i] = true;
                    return Some(self.notes[i].text.clone());
                }
            }
        }
        None
    }
}

/// `text #k` -> (text, k)
fn split_ord(s: &str) -> (String, usize) {
    if let Some((a, b)) = s.rsplit_once(" #") {
        if let Ok(k) = b.trim().parse() {
            return (a.to_string(), k);
        }
    }
    (s.to_string(), 0)
}

impl<'a, 'ast> Visit<'ast> for Ed<'a> {
    fn visit_attribute(&mut self, i: &'ast syn::Attribute) {
        let (a, b) = br(i.span());
        self.rep(a, b, String::new());
    }
    fn visit_item(&mut self, i: &'ast syn::Item) {
        // items inside functions: `use` is kept
        if !matches!(i, syn::Item::Use(_)) {
            self.out.lost.push("nested item".into());
        }
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        let (a, b) = br(s.span());
        let t = norm(s);
        if let Some(g) = self.stmt_anchor("before", &t) {
            self.ins_start((a, b), format!("\n{}\n", g));
        }
        let after = self.stmt_anchor("after", &t);
        let wrapk = self.stmt_anchor("wrap", &t);
        if let Some(g) = wrapk {
            // let X = CHAIN;  -> split chain
            if let syn::Stmt::Local(l) = s {
                if let Some(init) = &l.init {
                    self.wrap_expr(&init.expr, &g, "chain");
                }
            } else if let syn::Stmt::Expr(e, _) = s {
                self.wrap_expr(e, &g, "chain");
            }
        }
        if let syn::Stmt::Macro(m) = s {
            for at in &m.attrs {
                self.visit_attribute(at);
            }
            let (_, mb) = br(m.mac.span());
            let (ma, _) = br(m.mac.path.span());
            let _ = (ma, mb);
            self.macro_(&m.mac, m.mac.span());
        } else {
            visit::visit_stmt(self, s);
        }
        if let Some(g) = after {
            let semi = if matches!(s, syn::Stmt::Expr(syn::Expr::Assign(_), None)) { ";" } else { "" };
            self.ins_end((a, b), format!("{}\n{}\n", semi, g));
        }
    }
    fn visit_arm(&mut self, arm: &'ast syn::Arm) {
        let p = norm(&arm.pat) + &arm.guard.as_ref().map(|g| format!(" if {}", norm(&g.1))).unwrap_or_default();
        self.out.shape.push("arm".into());
        for i in 0..self.notes.len() {
            if self.notes[i].kind == "arm" && !self.used[i] {
                let (pt, mode) = match self.notes[i].arg.split_once(" => ") {
                    Some((p, m)) => (p.to_string(), m.to_string()),
                    None => (self.notes[i].arg.clone(), String::new()),
                };
                let (pt, skip) = split_ord(&pt);
                if normtxt(&pt) == p {
                    if skip > 0 {
                        let c = self.out.dropped.iter().filter(|d| **d == format!("@{}", i)).count();
                        if c < skip {
                            self.out.dropped.push(format!("@{}", i));
                            continue;
                        }
                    }
                    self.used[i] = true;
                    let g = self.notes[i].text.clone();
                    let body: &syn::Expr = &arm.body;
                    if mode == "entry" {
                        let (a, b) = br(body.span());
                        self.ins_start((a, b), format!("{{\n{}\n", g));
                        self.ins_end((a, b), "}".into());
                    } else if mode.starts_with("entry+") {
                        let (a, b) = br(body.span());
                        let _ = (a, b);
                    } else {
                        // a block with only a tail expression: wrap the tail
                        let mut e = body;
                        while let syn::Expr::Block(bl) = e {
                            if bl.block.stmts.len() == 1 {
                                if let syn::Stmt::Expr(t, None) = &bl.block.stmts[0] {
                                    e = t;
                                    continue;
                                }
                            }
                            break;
                        }
                        self.wrap_expr(e, &g, &mode);
                    }
                    break;
                }
            }
        }
        // `"x" | "y" => B` -> `vx_c if vx_str_eq(vx_c, "x") || vx_str_eq(vx_c, "y") => B`
        let strs: Option<Vec<String>> = {
            let is_str = |p: &syn::Pat| matches!(p, syn::Pat::Lit(l) if matches!(l.lit, syn::Lit::Str(_)));
            match &arm.pat {
                p if is_str(p) => Some(vec![self.txt(p.span()).to_string()]),
                syn::Pat::Or(o) if o.cases.iter().all(|c| is_str(c)) => Some(o.cases.iter().map(|c| self.txt(c.span()).to_string()).collect()),
                _ => None,
            }
        };
        if let Some(strs) = strs {
            let test: Vec<String> = strs.iter().map(|l| format!("vx_str_eq(vx_c, {})", l)).collect();
            let (a, b) = br(arm.pat.span());
            self.out.dropped.push("string literal patterns -> guards".into());
            match &arm.guard {
                None => self.rep(a, b, format!("vx_c if {}", test.join(" || "))),
                Some((_, g)) => {
                    self.rep(a, b, "vx_c".into());
                    let (ga, gb) = br(g.span());
                    self.ins_start((ga, gb), format!("({}) && (", test.join(" || ")));
                    self.ins_end((ga, gb), ")".into());
                    self.visit_expr(g);
                }
            }
            self.visit_expr(&arm.body);
            return;
        }
        if let (syn::Pat::Or(o), Some((_, g))) = (&arm.pat, &arm.guard) {
            // `'a' | 'b' if G` -> `x if (x == 'a' || x == 'b') && G`
            if o.cases.iter().all(|c| matches!(c, syn::Pat::Lit(_))) {
                let alts: Vec<String> = o.cases.iter().map(|c| format!("vx_c == {}", self.txt(c.span()))).collect();
                let (a, b) = br(o.span());
                self.rep(a, b, "vx_c".into());
                let (ga, gb) = br(g.span());
                self.ins_start((ga, gb), format!("({}) && (", alts.join(" || ")));
                self.ins_end((ga, gb), ")".into());
                self.out.dropped.push("literal alternatives with a guard -> a guard".into());
            }
        }
        // struct patterns on unit variants `X {}` are fine as they are
        visit::visit_arm(self, arm);
    }
    fn visit_expr_if(&mut self, e: &'ast syn::ExprIf) {
        self.out.shape.push("if".into());
        visit::visit_expr_if(self, e);
    }
    fn visit_expr_match(&mut self, e: &'ast syn::ExprMatch) {
        self.out.shape.push("match".into());
        visit::visit_expr_match(self, e);
    }
    fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) {
        self.out.shape.push("while".into());
        if let syn::Expr::Let(l) = &*e.cond {
            // while let P = E B  ->  loop inv { match E { P => B, _ => break } }
            let k = self.n_loop;
            let sp = self.loop_spec("");
            let (ws, _) = br(e.while_token.span());
            let pat = self.txt(l.pat.span()).to_string();
            let (ea, eb) = br(l.expr.span());
            let bo = br(e.body.brace_token.span.open());
            let bc = br(e.body.brace_token.span.close());
            let entry = self.note("loopentry", &k.to_string()).unwrap_or_default();
            let exit = self.note("loopexit", &k.to_string()).unwrap_or_default();
            let miss = self.note("loopmiss", &k.to_string()).unwrap_or_default();
            self.rep(ws, ea, format!("loop {} {{ match ", sp));
            self.visit_expr(&l.expr);
            self.rep(eb, bo.0, format!(" {{ {} => ", pat));
            self.ins(bo.1, format!("\n{}\n", entry));
            self.visit_block(&e.body);
            self.ins(bc.0, format!("\n{}\n", exit));
            self.ins_end((bo.0, bc.1), format!(", _ => {{ {}\n break; }} }} }}", miss));
            return;
        }
        let k = self.n_loop;
        let sp = self.loop_spec("");
        let (bo, bo1) = br(e.body.brace_token.span.open());
        let bc = br(e.body.brace_token.span.close());
        if let Some(t) = self.note("loopbefore", &k.to_string()) {
            let at = e.label.as_ref().map(|l| l.span()).unwrap_or(e.while_token.span());
            self.ins(br(at).0, format!("{}\n", t));
        }
        self.visit_expr(&e.cond);
        self.ins(bo, sp);
        if let Some(t) = self.note("loopentry", &k.to_string()) {
            self.ins(bo1, format!("\n{}\n", t));
        }
        let exit = self.note("loopexit", &k.to_string());
        self.visit_block(&e.body);
        if let Some(t) = exit {
            self.ins(bc.0, format!("\n{}\n", t));
        }
        if let Some(t) = self.note("loopdone", &k.to_string()) {
            self.ins(bc.1, format!("\n{}\n", t));
        }
    }
    fn visit_expr_loop(&mut self, e: &'ast syn::ExprLoop) {
        self.out.shape.push("loop".into());
        let k = self.n_loop;
        let sp = self.loop_spec("");
        let (bo, bo1) = br(e.body.brace_token.span.open());
        if let Some(t) = self.note("loopbefore", &k.to_string()) {
            let at = e.label.as_ref().map(|l| l.span()).unwrap_or(e.loop_token.span());
            self.ins(br(at).0, format!("{}\n", t));
        }
        self.ins(bo, sp);
        if let Some(t) = self.note("loopentry", &k.to_string()) {
            self.ins(bo1, format!("\n{}\n", t));
        }
        let done = self.note("loopdone", &k.to_string());
        self.visit_block(&e.body);
        if let Some(t) = done {
            self.ins(br(e.body.brace_token.span.close()).1, format!("\n{}\n", t));
        }
    }
    fn visit_expr_for_loop(&mut self, e: &'ast syn::ExprForLoop) {
        self.out.shape.push("for".into());
        let k = self.n_loop;
        let extra = format!(
            "0 <= vx_n{k} <= vx_all{k}.len(), vx_it{k}.v@ =~= vx_all{k}.skip(vx_n{k}), vx_it{k}.v@.len() == vx_all{k}.len() - vx_n{k}",
            k = k
        );
        let sp = self.loop_spec(&extra);
        let pat = self.txt(e.pat.span()).to_string();
        let (fs, _) = br(e.for_token.span());
        let (ea, eb) = br(e.expr.span());
        let (bo, bo1) = br(e.body.brace_token.span.open());
        let bc = br(e.body.brace_token.span.close());
        let before = self.note("loopbefore", &k.to_string()).unwrap_or_default();
        let mut open = format!("{{ let mut vx_it{} = vx_for(", k);
        if let syn::Expr::MethodCall(m) = &*e.expr {
            if m.method == "iter" && matches!(&*m.receiver, syn::Expr::Call(_) | syn::Expr::MethodCall(_)) {
                // the temporary that is iterated over lives as long as the loop
                let (_, rb) = br(m.receiver.span());
                open = format!("{{ let vx_tmp{} = ", k);
                self.ins_end((ea, rb), format!("; let mut vx_it{k} = vx_for(vx_tmp{k}", k = k));
            }
        }
        self.rep(fs, ea, open);
        self.visit_expr(&e.expr);
        let mut entry = self.note("loopentry", &k.to_string()).unwrap_or_default();
        let exit = self.note("loopexit", &k.to_string()).unwrap_or_default();
        let done = self.note("loopdone", &k.to_string()).unwrap_or_default();
        entry = format!(
            " let {pat} = vx_it{k}.vx_take(); proof {{ vx_n{k} = vx_n{k} + 1; }}\n{entry}\n",
            pat = pat, k = k, entry = entry
        );
        self.rep(
            eb,
            bo,
            format!(
                "); let ghost vx_all{k} = vx_it{k}.v@; let ghost mut vx_n{k}: int = 0;\n{before}\n while vx_it{k}.vx_more() {sp} decreases vx_it{k}.v@.len() ",
                k = k, sp = sp, before = before
            ),
        );
        self.ins(bo1, entry);
        self.visit_block(&e.body);
        if !exit.is_empty() {
            let semi = if matches!(e.body.stmts.last(), Some(syn::Stmt::Expr(_, None))) { ";" } else { "" };
            self.ins(bc.0, format!("{}\n{}\n", semi, exit));
        }
        self.ins_end((bo, bc.1), format!("\n{}\n }}", done));
        self.out.dropped.push("for -> while over the same items".into());
    }
    fn visit_expr_closure(&mut self, e: &'ast syn::ExprClosure) {
        self.out.shape.push("closure".into());
        let k = self.n_closure;
        self.n_closure += 1;
        let (a, _) = br(e.span());
        let (o1a, _) = br(e.or1_token.span());
        let (_, o2b) = br(e.or2_token.span());
        let _ = a;
        let (ba, bb) = br(e.body.span());
        let ann = self.note("closure", &k.to_string());
        let hdr = self.notes.iter().find(|n| n.kind == "closure" && n.arg == k.to_string()).map(|_| ());
        // patterns that are not identifiers get a `let`
        let mut lets = String::new();
        for (i, p) in e.inputs.iter().enumerate() {
            let (inner, _ty) = match p {
                syn::Pat::Type(t) => (&*t.pat, Some(&t.ty)),
                p => (p, None),
            };
            let name = match inner {
                syn::Pat::Ident(id) if id.subpat.is_none() && id.by_ref.is_none() => None,
                x => Some(self.txt(x.span()).to_string()),
            };
            if let Some(t) = &name {
                lets.push_str(&format!("let {} = vx_p{}; ", t, i));
            }
            let _ = p;
        }
        if let (Some(t), Some(())) = (ann, hdr) {
            // first line: |params| -> (r: T), rest: requires / ensures
            let (head, rest) = t.split_once('\n').unwrap_or((&t, ""));
            // the parameter names of the source are kept: {0}, {1} stand for them
            let mut head = head.trim().to_string();
            let mut rest = rest.to_string();
            for (i, p) in e.inputs.iter().enumerate() {
                let inner = match p {
                    syn::Pat::Type(t) => &*t.pat,
                    p => p,
                };
                let nm = match inner {
                    syn::Pat::Ident(id) if id.subpat.is_none() && id.by_ref.is_none() => id.ident.to_string(),
                    _ => format!("vx_p{}", i),
                };
                let key = format!("${}", i);
                head = head.replace(&key, &nm);
                rest = rest.replace(&key, &nm);
            }
            self.rep(o1a, o2b, head);
            self.ins_start((o2b, bb), format!("\n{}\n{{ {}", rest, lets));
            // drop an explicit output type
            if let syn::ReturnType::Type(arrow, ty) = &e.output {
                let (x, _) = br(arrow.span());
                let (_, y) = br(ty.span());
                self.rep(x, y, String::new());
            }
            self.ins_end((ba, bb), " }".into());
            self.visit_expr(&e.body);
        } else {
            if !lets.is_empty() {
                for (i, p) in e.inputs.iter().enumerate() {
                    let inner = match p {
                        syn::Pat::Type(t) => &*t.pat,
                        p => p,
                    };
                    if !matches!(inner, syn::Pat::Ident(id) if id.subpat.is_none() && id.by_ref.is_none()) {
                        let (x, y) = br(inner.span());
                        self.rep(x, y, format!("vx_p{}", i));
                    }
                }
                self.ins_start((ba, bb), format!("{{ {}", lets));
                self.ins_end((ba, bb), " }".into());
                self.visit_expr(&e.body);
            } else {
                self.visit_expr(&e.body);
            }
        }
    }
    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
        let n = e.method.to_string();
        self.out.calls.push(n.clone());
        if n == "flat_map" {
            let (a, b) = br(e.method.span());
            self.rep(a, b, "map".into());
            let (_, eb) = br(e.span());
            let (ea, _) = br(e.span());
            let t = self.flat_split.get(&(ea, eb)).cloned().unwrap_or(".vx_flatten()".into());
            self.ins_end((ea, eb), t);
            visit::visit_expr_method_call(self, e);
            return;
        }
        if n == "for_each" && e.args.len() == 1 {
            if let syn::Expr::Closure(c) = &e.args[0] {
                if c.inputs.len() == 1 {
                    // X.for_each(|P| B)  ->  for P in X { B }
                    self.out.shape.push("for".into());
                    let k = self.n_loop;
                    let extra = format!(
                        "0 <= vx_n{k} <= vx_all{k}.len(), vx_it{k}.v@ =~= vx_all{k}.skip(vx_n{k}), vx_it{k}.v@.len() == vx_all{k}.len() - vx_n{k}",
                        k = k
                    );
                    let sp = self.loop_spec(&extra);
                    let pat = self.txt(c.inputs[0].span()).to_string();
                    let before = self.note("loopbefore", &k.to_string()).unwrap_or_default();
                    let entry = self.note("loopentry", &k.to_string()).unwrap_or_default();
                    let exit = self.note("loopexit", &k.to_string()).unwrap_or_default();
                    let done = self.note("loopdone", &k.to_string()).unwrap_or_default();
                    let (ea, eb) = br(e.span());
                    let (_, ra) = br(e.receiver.span());
                    let (ba, bb) = br(c.body.span());
                    self.ins_start((ea, eb), format!("{{ let mut vx_it{k} = vx_for(", k = k));
                    self.visit_expr(&e.receiver);
                    self.rep(ra, ba, format!(
                        "); let ghost vx_all{k} = vx_it{k}.v@; let ghost mut vx_n{k}: int = 0;\n{before}\n while vx_it{k}.vx_more() {sp} decreases vx_it{k}.v@.len() {{ let {pat} = vx_it{k}.vx_take(); proof {{ vx_n{k} = vx_n{k} + 1; }}\n{entry}\n",
                        k = k, sp = sp, before = before, pat = pat, entry = entry
                    ));
                    self.visit_expr(&c.body);
                    self.rep(bb, eb, format!(";\n{exit}\n }}\n{done}\n }}", exit = exit, done = done));
                    self.out.dropped.push("for_each -> for".into());
                    return;
                }
            }
        }
        if n == "flatten" {
            let (a, b) = br(e.method.span());
            self.rep(a, b, "vx_flatten".into());
        } else if let Some(r) = self.selfcalls.get(&format!(".{}", n)).cloned() {
            let (a, b) = br(e.method.span());
            self.rep(a, b, r);
        } else if let Some(r) = self.mren.get(n.as_str()).cloned() {
            if !self.noren.contains(&n) {
                let (a, b) = br(e.method.span());
                self.rep(a, b, r.to_string());
            }
        }
        // a tuple variant used as a function
        for x in &e.args {
            if let syn::Expr::Path(p) = x {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let up = |s: &String| s.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) && s.chars().any(|c| c.is_lowercase());
                let ctor = segs.len() >= 2 && segs[segs.len() - 2..].iter().all(up);
                if ctor && ["map_or", "map", "and_then", "map_err", "ok_or_else", "unwrap_or_else"].contains(&n.as_str()) && !(n == "map_or" && std::ptr::eq(x, &e.args[0])) {
                    let (a, b) = br(p.span());
                    let t = self.src[a..b].to_string();
                    self.rep(a, b, format!("|vx_x| -> (vx_o: _) ensures (match vx_o {{ {}(vx_y) => vx_y == vx_x, _ => false }}) {{ {}(vx_x) }}", t, t));
                }
            }
        }
        visit::visit_expr_method_call(self, e);
    }
    fn visit_expr_call(&mut self, e: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*e.func {
            let t = norm(&p.path);
            if let Some(l) = p.path.segments.last() {
                self.out.calls.push(l.ident.to_string());
            }
            if let Some(r) = self.selfcalls.get(&t.replace(' ', "")).cloned() {
                let (a, b) = br(p.span());
                self.rep(a, b, r);
            } else if let Some(r) = self.pren.get(t.as_str()).cloned() {
                let (a, b) = br(p.span());
                self.rep(a, b, r.to_string());
            }
        }
        visit::visit_expr_call(self, e);
    }
    fn visit_expr_assign(&mut self, e: &'ast syn::ExprAssign) {
        // (a, b) = E  =>  { let vx_d = E; a = vx_d.0; b = vx_d.1; }
        if let syn::Expr::Tuple(t) = e.left.as_ref() {
            let (ls, _) = br(e.left.span());
            let (rs, re) = br(e.right.span());
            let names: Vec<String> = t.elems.iter().map(|x| self.txt(x.span()).to_string()).collect();
            self.rep(ls, rs, "{ let vx_d = ".into());
            self.visit_expr(&e.right);
            let t = names.iter().enumerate().map(|(i, n)| format!("{} = vx_d.{};", n, i)).collect::<Vec<_>>().join(" ");
            self.ins_end((rs, re), format!("; {} }}", t));
            return;
        }
        visit::visit_expr_assign(self, e);
    }
    fn visit_expr_reference(&mut self, e: &'ast syn::ExprReference) {
        // a part of a slice: &x[a..b] => x.vx_sub(a, b)
        if let syn::Expr::Index(ix) = e.expr.as_ref() {
            if let syn::Expr::Range(rg) = ix.index.as_ref() {
                if let (Some(s), Some(t), syn::RangeLimits::HalfOpen(d)) = (&rg.start, &rg.end, &rg.limits) {
                    let (a, b) = br(e.and_token.span());
                    self.rep(a, b, String::new());
                    let (a, b) = br(ix.bracket_token.span.open());
                    self.rep(a, b, ".vx_sub(".into());
                    let (a, b) = br(ix.bracket_token.span.close());
                    self.rep(a, b, ")".into());
                    let (a, b) = br(d.span());
                    self.rep(a, b, ", ".into());
                    self.visit_expr(&ix.expr);
                    self.visit_expr(s);
                    self.visit_expr(t);
                    return;
                }
            }
        }
        visit::visit_expr_reference(self, e);
    }
    fn visit_expr_range(&mut self, e: &'ast syn::ExprRange) {
        if let (Some(s), Some(t), syn::RangeLimits::HalfOpen(d)) = (&e.start, &e.end, &e.limits) {
            if !self.opts.iter().any(|o| o == "keep-range") {
                let (sa, _) = br(s.span());
                let (_, tb) = br(t.span());
                let (da, db) = br(d.span());
                self.ins_start((sa, tb), "vx_range(".into());
                self.ins_end((sa, tb), ")".into());
                self.rep(da, db, ", ".into());
                self.visit_expr(s);
                self.visit_expr(t);
                return;
            }
        }
        if let (Some(s), Some(t), syn::RangeLimits::Closed(d)) = (&e.start, &e.end, &e.limits) {
            let (sa, _) = br(s.span());
            let (_, tb) = br(t.span());
            let (da, db) = br(d.span());
            self.ins_start((sa, tb), "vx_rangeinc(".into());
            self.ins_end((sa, tb), ")".into());
            self.rep(da, db, ", ".into());
            self.visit_expr(s);
            self.visit_expr(t);
            return;
        }
        visit::visit_expr_range(self, e);
    }
    fn visit_expr_cast(&mut self, e: &'ast syn::ExprCast) {
        let t = norm(&e.ty);
        let c = self.notes.iter().find(|n| n.kind == "cast" && n.arg.split_once(' ').map(|x| x.0) == Some(t.as_str())).map(|n| n.arg.split_once(' ').unwrap().1.trim().to_string());
        let f = match (c, t.as_str()) {
            (Some(x), _) => Some(x),
            (None, "f64") => Some("vx_as_f64".to_string()),
            _ => None,
        };
        if let Some(f) = f {
            let (a, b) = br(e.span());
            let (xa, xb) = br(e.expr.span());
            let _ = xa;
            self.ins_start((a, b), format!("{}(", f));
            self.visit_expr(&e.expr);
            self.rep(xb, b, ")".into());
            return;
        }
        visit::visit_expr_cast(self, e);
    }
    fn visit_expr_macro(&mut self, e: &'ast syn::ExprMacro) {
        self.macro_(&e.mac, e.mac.span());
    }
    // names that mean something else to the verifier
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        self.clash(&p.ident);
        visit::visit_pat_ident(self, p);
    }
    fn visit_expr_path(&mut self, e: &'ast syn::ExprPath) {
        if e.qself.is_none() && e.path.segments.len() == 1 {
            self.clash(&e.path.segments[0].ident);
            let n = e.path.segments[0].ident.to_string();
            if self.src.contains(&format!("fn vx_static_{}()", n)) {
                let (a, b) = br(e.span());
                self.rep(a, b, format!("(*vx_lazy_{}())", n));
            }
        }
        visit::visit_expr_path(self, e);
    }
    fn visit_type_path(&mut self, t: &'ast syn::TypePath) {
        let s = norm(&t.path);
        let r = match s.as_str() {
            "fmt :: Result" => Some("Result<(), VxFmtError>".to_string()),
            "fmt :: Formatter < '_ >" => Some("VxFormatter".to_string()),
            "serde_json :: Value" => Some("Value".to_string()),
            "Map < String , Value >" => Some("Map".to_string()),
            x => x.strip_prefix("Self :: ").and_then(|n| self.assoc.iter().find(|a| a.0 == n).map(|a| a.1.clone())),
        };
        if let Some(r) = r {
            let (a, b) = br(t.span());
            self.rep(a, b, r);
            return;
        }
        visit::visit_type_path(self, t);
    }
}

/// apply edits inside [a,b) of src
pub fn apply(src: &str, a: usize, b: usize, edits: &[Edit]) -> Result<String, String> {
    let mut e: Vec<&Edit> = edits.iter().filter(|x| x.a >= a && x.b <= b).collect();
    e.sort_by_key(|x| (x.a, x.key));
    let mut out = String::new();
    let mut at = a;
    for x in e {
        if x.a < at {
            return Err(format!("overlapping edits at {}: {:?}", x.a, x.t));
        }
        out.push_str(&src[at..x.a]);
        out.push_str(&x.t);
        at = x.b;
    }
    out.push_str(&src[at..b]);
    Ok(out)
}
