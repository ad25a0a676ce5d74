//! Composes one Verus file per group.
use crate::ann::{self, Fun, Item, Unit};
use crate::edit::{apply, norm, Ed, Edit, Out};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::Visit;

struct Src {
    text: String,
    ast: syn::File,
}

fn br(s: proc_macro2::Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

fn ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => format!("&{}", ty_name(&r.elem)),
        _ => norm(t),
    }
}

enum Found<'a> {
    Free(&'a syn::ItemFn),
    Method(&'a syn::ItemImpl, &'a syn::ImplItemFn),
}

fn find<'a>(s: &'a Src, path: &str) -> Option<Found<'a>> {
    if let Some((ty, name)) = path.rsplit_once("::") {
        let (ty, tr) = match ty.split_once('<') {
            Some((t, r)) => (t, Some(r.trim_end_matches('>'))),
            None => (ty, None),
        };
        for it in &s.ast.items {
            if let syn::Item::Impl(im) = it {
                let trait_name = im.trait_.as_ref().and_then(|t| t.1.segments.last().map(|s| s.ident.to_string()));
                if ty_name(&im.self_ty) == ty && trait_name.as_deref() == tr {
                    for x in &im.items {
                        if let syn::ImplItem::Fn(f) = x {
                            if f.sig.ident == name {
                                return Some(Found::Method(im, f));
                            }
                        }
                    }
                }
            }
        }
        None
    } else {
        for it in &s.ast.items {
            if let syn::Item::Fn(f) = it {
                if f.sig.ident == path {
                    return Some(Found::Free(f));
                }
            }
        }
        None
    }
}

/// `lazy_static! { static ref X: T = E; }` also read as `fn vx_static_X() -> T { E }`, after the end of the file
fn with_statics(text: &str) -> String {
    let mut t = text.to_string();
    let Ok(ast) = syn::parse_file(text) else { return t };
    for it in &ast.items {
        if let syn::Item::Macro(m) = it {
            if m.mac.path.segments.last().map(|s| s.ident == "lazy_static").unwrap_or(false) {
                let body = m.mac.tokens.to_string().replace("static ref", "static");
                if let Ok(f) = syn::parse_file(&body) {
                    for s in f.items {
                        if let syn::Item::Static(s) = s {
                            t.push_str(&format!("\nfn vx_static_{}() -> {} {{ {} }}\n", s.ident, norm(&s.ty), norm(&s.expr)));
                        }
                    }
                }
            }
        }
    }
    t
}

/// every function defined outside test modules: (path)
fn all_fns(s: &Src) -> Vec<String> {
    let mut v = vec![];
    for it in &s.ast.items {
        match it {
            syn::Item::Fn(f) => v.push(f.sig.ident.to_string()),
            syn::Item::Impl(im) => {
                let t = ty_name(&im.self_ty);
                let tr = im.trait_.as_ref().and_then(|t| t.1.segments.last().map(|s| s.ident.to_string()));
                for x in &im.items {
                    if let syn::ImplItem::Fn(f) = x {
                        v.push(match &tr {
                            Some(r) => format!("{}<{}>::{}", t, r, f.sig.ident),
                            None => format!("{}::{}", t, f.sig.ident),
                        });
                    }
                }
            }
            _ => (),
        }
    }
    v
}

struct Idents(BTreeSet<String>, BTreeSet<String>, BTreeSet<String>); // all idents, free calls, self/Type:: calls
impl Idents {
    fn toks(&mut self, t: proc_macro2::TokenStream) {
        let v: Vec<proc_macro2::TokenTree> = t.into_iter().collect();
        for i in 0..v.len() {
            match &v[i] {
                proc_macro2::TokenTree::Ident(id) => {
                    let n = id.to_string();
                    self.0.insert(n.clone());
                    let call = matches!(v.get(i + 1), Some(proc_macro2::TokenTree::Group(g)) if g.delimiter() == proc_macro2::Delimiter::Parenthesis);
                    let p = |k: usize| match i.checked_sub(k).and_then(|j| v.get(j)) {
                        Some(proc_macro2::TokenTree::Punct(p)) => p.as_char(),
                        _ => ' ',
                    };
                    let pi = |k: usize| match i.checked_sub(k).and_then(|j| v.get(j)) {
                        Some(proc_macro2::TokenTree::Ident(p)) => p.to_string(),
                        _ => String::new(),
                    };
                    if p(1) == '.' && pi(2) == "self" && call {
                        self.2.insert(format!("Self::{}", n));
                    } else if p(1) == ':' && p(2) == ':' {
                        self.2.insert(format!("{}::{}", pi(3), n));
                    } else if p(1) != '.' && call {
                        self.1.insert(n);
                    } else if p(1) != '.' {
                        // may be a function used as a value
                        self.1.insert(n);
                    }
                }
                proc_macro2::TokenTree::Group(g) => self.toks(g.stream()),
                _ => (),
            }
        }
    }
}

struct Piece {
    text: String,
    out: Out,
    idents: BTreeSet<String>,
    free: BTreeSet<String>,
    assoc: BTreeSet<String>,
    selfty: String,
    sig: String,
}

fn fn_piece(s: &Src, f: &Fun, verified: bool) -> Result<Piece, String> {
    let fd = find(s, &f.path).ok_or_else(|| format!("{} {} not found", f.file, f.path))?;
    let (sig, block, head, selfty) = match &fd {
        Found::Free(i) => (&i.sig, &*i.block, String::new(), String::new()),
        Found::Method(im, m) => {
            let g = br(im.generics.span());
            let gt = if im.generics.params.is_empty() { "" } else { &s.text[g.0..g.1] };
            let t = br(im.self_ty.span());
            let ty = f.opts.iter().find_map(|o| o.strip_prefix("selfty=")).unwrap_or(&s.text[t.0..t.1]).to_string();
            (&m.sig, &m.block, format!("impl{} {} {{\n", gt, ty), ty_name(&im.self_ty))
        }
    };
    let mut ed = Ed::new(&s.text, f);
    if let Found::Method(im, _) = &fd {
        for it in &im.items {
            if let syn::ImplItem::Type(t) = it {
                let (x, y) = br(t.ty.span());
                ed.assoc.push((t.ident.to_string(), s.text[x..y].to_string()));
            }
        }
    }
    let (a, b) = ed.function(sig, block, verified);
    let (bo, _) = br(block.brace_token.span.open());
    // rename
    for o in &f.opts {
        if let Some(n) = o.strip_prefix("as=") {
            let (x, y) = br(sig.ident.span());
            ed.edits.push(Edit { a: x, b: y, key: (2, 0, 0), t: n.to_string() });
        }
    }
    let spec = f.notes.iter().find(|n| n.kind == "spec").map(|n| n.text.clone()).unwrap_or_default();
    let mut t = String::new();
    t.push_str(&head);
    for n in &f.notes {
        if n.kind == "attr" {
            t.push_str(&format!("#[{}]\n", n.arg));
        }
    }
    let sigtext = apply(&s.text, a, bo, &ed.edits)?;
    if verified {
        t.push_str("pub ");
        t.push_str(&apply(&s.text, a, b, &ed.edits)?);
    } else {
        t.push_str("#[verifier::external_body]\npub ");
        // signature with the return value named, then the contract
        t.push_str(&sigtext);
        t.push('\n');
        t.push_str(&spec);
        t.push_str("\n{ unimplemented!() }");
    }
    if !head.is_empty() {
        t.push_str("\n}");
    }
    t.push('\n');
    let mut id = Idents(Default::default(), Default::default(), Default::default());
    {
        use quote::ToTokens;
        id.toks(block.to_token_stream());
    }
    let out = std::mem::take(&mut ed.out);
    // reachability of the precondition
    let mut reach = String::new();
    if verified && find_word(&spec, "requires").is_some() {
        // the signature carries the contract
        reach = format!("{}\n pub {}\n{{ proof {{ assert(false); }} vstd::pervasive::unreached() }}\n{}\n", head, sigtext, if head.is_empty() { "" } else { "}" });
        let nm = f.opts.iter().find_map(|o| o.strip_prefix("as=").map(|x| x.to_string())).unwrap_or(sig.ident.to_string());
        reach = replace_first(&reach, &format!("fn {}", nm), &format!("fn vx_reach_{}", nm));
    }
    Ok(Piece { text: t, out, idents: id.0, free: id.1, assoc: id.2, selfty, sig: reach })
}
fn replace_first(s: &str, a: &str, b: &str) -> String {
    match s.find(a) {
        Some(p) => format!("{}{}{}", &s[..p], b, &s[p + a.len()..]),
        None => s.to_string(),
    }
}
fn find_word(s: &str, w: &str) -> Option<usize> {
    let mut at = 0;
    while let Some(p) = s[at..].find(w) {
        let p = at + p;
        let before = s[..p].chars().last().map(|c| !c.is_alphanumeric() && c != '_').unwrap_or(true);
        let after = s[p + w.len()..].chars().next().map(|c| !c.is_alphanumeric() && c != '_').unwrap_or(true);
        // `.ensures((..))` is not the keyword
        let dot = s[..p].trim_end().ends_with('.');
        if before && after && !dot {
            return Some(p);
        }
        at = p + w.len();
    }
    None
}

struct TyEd<'a> {
    ed: Ed<'a>,
}
fn type_piece(s: &Src, name: &str, opts: &[String]) -> Result<String, String> {
    let fun = Fun::default();
    for it in &s.ast.items {
        let (id, span, start, fields): (&syn::Ident, _, usize, Vec<&syn::Field>) = match it {
            syn::Item::Struct(x) => (&x.ident, x.span(), br(x.struct_token.span()).0, x.fields.iter().collect()),
            syn::Item::Enum(x) => (&x.ident, x.span(), br(x.enum_token.span()).0, vec![]),
            syn::Item::Type(x) => (&x.ident, x.span(), br(x.type_token.span()).0, vec![]),
            syn::Item::Const(x) => (&x.ident, x.span(), br(x.const_token.span()).0, vec![]),
            _ => continue,
        };
        if id != name {
            continue;
        }
        let (_, b) = br(span);
        let mut t = TyEd { ed: Ed::new(&s.text, &fun) };
        for f in fields {
            let fa = match &f.ident {
                Some(i) => br(i.span()).0,
                None => br(f.ty.span()).0,
            };
            let v = br(f.vis.span());
            if matches!(f.vis, syn::Visibility::Inherited) {
                t.ed.edits.push(Edit { a: fa, b: fa, key: (1, 0, 0), t: "pub ".into() });
            } else {
                t.ed.edits.push(Edit { a: v.0, b: v.1, key: (2, 0, 0), t: "pub".into() });
            }
        }
        struct A<'x, 'y>(&'x mut Ed<'y>);
        impl<'x, 'y, 'ast> Visit<'ast> for A<'x, 'y> {
            fn visit_attribute(&mut self, i: &'ast syn::Attribute) {
                let (a, b) = br(i.span());
                self.0.edits.push(Edit { a, b, key: (2, 0, 0), t: String::new() });
            }
        }
        A(&mut t.ed).visit_item(it);
        let mut x = String::from("");
        for o in opts {
            if let Some(a) = o.strip_prefix("attr=") {
                x.push_str(&format!("#[{}]\n", a));
            }
        }
        if matches!(it, syn::Item::Enum(_)) {
            x.push_str("#[allow(inconsistent_fields)]\n");
        }
        x.push_str("pub ");
        x.push_str(&apply(&s.text, start, b, &t.ed.edits)?);
        for o in opts {
            if let Some((p, q)) = o.strip_prefix("subst=").and_then(|o| o.split_once("=>")) {
                let p = p.replace('~', " ");
                let q = q.replace('~', " ");
                if !x.contains(&p) {
                    return Err(format!("{}: {:?} not found", name, p));
                }
                x = x.replace(&p, &q);
            }
        }
        x.push('\n');
        return Ok(x);
    }
    Err(format!("type {} not found", name))
}

/// the rules of a pest grammar: name, body without blanks and comments
fn grammar_rules(t: &str) -> Vec<(String, String)> {
    // tokens: words, quoted texts, single characters
    let cs: Vec<char> = t.chars().collect();
    let mut toks: Vec<String> = vec![];
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c.is_whitespace() {
            i += 1;
        } else if c == '/' && i + 1 < cs.len() && cs[i + 1] == '/' {
            while i < cs.len() && cs[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && i + 1 < cs.len() && cs[i + 1] == '*' {
            while i + 1 < cs.len() && !(cs[i] == '*' && cs[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if c == '"' || c == '\'' {
            let mut j = i + 1;
            while j < cs.len() && cs[j] != c {
                j += if cs[j] == '\\' { 2 } else { 1 };
            }
            let j = (j + 1).min(cs.len());
            toks.push(cs[i..j].iter().collect());
            i = j;
        } else if c.is_alphanumeric() || c == '_' {
            let mut j = i;
            while j < cs.len() && (cs[j].is_alphanumeric() || cs[j] == '_') {
                j += 1;
            }
            toks.push(cs[i..j].iter().collect());
            i = j;
        } else {
            toks.push(c.to_string());
            i += 1;
        }
    }
    let mut v = vec![];
    let mut i = 0;
    let mut depth = 0;
    while i < toks.len() {
        if depth == 0 && i + 1 < toks.len() && toks[i + 1] == "=" {
            v.push((toks[i].clone(), String::new()));
            i += 2;
            continue;
        }
        match toks[i].as_str() {
            "{" => depth += 1,
            "}" => depth -= 1,
            _ => {}
        }
        if let Some(l) = v.last_mut() {
            l.1.push_str(&toks[i]);
            l.1.push(' ');
        }
        i += 1;
    }
    v
}

pub fn emit(proofs: &str, repo: &str, outdir: &str, u: &Unit) {
    let mut files: BTreeMap<String, Src> = BTreeMap::new();
    let mut problems: Vec<String> = vec![];
    let mut need: BTreeSet<String> = u.funs.iter().map(|f| f.file.clone()).collect();
    for i in &u.items {
        if let Item::Type { file, .. } = i {
            need.insert(file.clone());
        }
    }
    for f in need {
        let p = if f.starts_with('/') { format!("{}/crates{}", repo, f) } else { format!("{}/crates/{}/{}", repo, u.dir, f) };
        match std::fs::read_to_string(&p) {
            Ok(text) => match syn::parse_file(&with_statics(&text)) {
                Ok(ast) => {
                    let text = with_statics(&text);
                    files.insert(f, Src { text, ast });
                }
                Err(e) => problems.push(format!("{}: {}", p, e)),
            },
            Err(e) => problems.push(format!("{}: {}", p, e)),
        }
    }
    // prelude, types
    let mut pre = String::new();
    let mut use_lines = String::new();
    for it in &u.items {
        match it {
            Item::Use(f) => match ann::load_text(proofs, f, &u.vars) {
                Ok(t) => {
                    pre.push_str(&t);
                    pre.push('\n');
                }
                Err(e) => problems.push(e),
            },
            Item::Rules { file, expected } => {
                let p = format!("{}/crates/{}/{}", repo, u.dir, file);
                let have = std::fs::read_to_string(&p).map_err(|e| format!("{}: {}", p, e));
                match (have, ann::load_text(proofs, expected, &u.vars)) {
                    (Ok(have), Ok(want)) => {
                        let have = grammar_rules(&have);
                        for (n, b) in grammar_rules(&want) {
                            match have.iter().find(|h| h.0 == n) {
                                Some(h) if h.1 == b => {}
                                Some(_) => problems.push(format!("grammar rule {} differs", n)),
                                None => problems.push(format!("grammar rule {} is missing", n)),
                            }
                        }
                        pre.push_str("#[derive(Clone, Copy)]\n#[allow(non_camel_case_types)]\npub enum Rule { EOI,");
                        for (n, _) in &have {
                            pre.push_str(&format!(" {},", n));
                        }
                        pre.push_str(" }\nimpl PartialEq for Rule { #[verifier::external_body] fn eq(&self, o: &Rule) -> (r: bool) { unimplemented!() } }\nimpl vstd::std_specs::cmp::PartialEqSpecImpl for Rule { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Rule) -> bool { *self == *o } }\n");
                    }
                    (Err(e), _) | (_, Err(e)) => problems.push(e),
                }
            }
            Item::Raw(t) => {
                pre.push_str(t);
                pre.push('\n');
            }
            Item::Type { file, name, opts } => {
                if let Some(s) = files.get(file) {
                    match type_piece(s, name, opts) {
                        Ok(t) => {
                            pre.push_str(&t);
                            pre.push('\n');
                        }
                        Err(e) => problems.push(e),
                    }
                }
            }
        }
    }
    let _ = &mut use_lines;
    let bcast = pre.lines().filter_map(|l| if l.starts_with("broadcast use ") { Some(l.to_string()) } else { l.strip_prefix("//@root ").map(|x| x.to_string()) }).collect::<Vec<_>>().join("\n");
    let hdr = "#![allow(unused_imports, unused_variables, dead_code, unused_mut, unreachable_code, unused_parens, unused_braces, non_snake_case, unused_assignments, irrefutable_let_patterns, inconsistent_fields)]\n#![allow(unknown_lints)]\nuse vstd::prelude::*;\nverus! {\n";
    let tail = "\n} // verus!\nfn main() {}\n";
    // the lemmas and stand-ins, verified once per unit
    {
        let base = format!("{}/{}__prelude", outdir, u.name);
        std::fs::write(format!("{}.rs", base), format!("{}pub mod vx_pre {{ use super::*;\n{}\n}}\npub use vx_pre::*;\n{}\n{}", hdr, pre, bcast, tail)).unwrap();
        let meta = json!({"unit": u.name, "group": "prelude", "rs": format!("{}.rs", base), "fns": [], "assumed": [], "lost": problems, "uncontracted": [], "reach": 0});
        std::fs::write(format!("{}.json", base), serde_json::to_string_pretty(&meta).unwrap()).unwrap();
    }
    let mut reach_all = format!("{}pub mod vx_pre {{ use super::*;\n{}\n}}\npub use vx_pre::*;\n{}\n", hdr, pre, bcast);
    let mut nreach_all = 1;
    // groups
    let mut groups: Vec<(String, Vec<&Fun>)> = vec![];
    let mut grouped = BTreeSet::new();
    for g in &u.groups {
        let mut v = vec![];
        for p in &g.funs {
            for f in &u.funs {
                if &f.path == p || format!("{}:{}", f.file, f.path) == *p {
                    v.push(f);
                    if !g.also {
                        grouped.insert((f.file.clone(), f.path.clone()));
                    }
                }
            }
        }
        groups.push((g.name.clone(), v));
    }
    for f in &u.funs {
        if !grouped.contains(&(f.file.clone(), f.path.clone())) && !f.opts.iter().any(|o| o == "assumed") {
            let n = f.path.replace(|c: char| !c.is_alphanumeric(), "_");
            groups.push((n, vec![f]));
        }
    }
    for (name, funs) in groups {
        let mut lost = problems.clone();
        let mut pieces: Vec<(&Fun, Piece)> = vec![];
        for f in &funs {
            match files.get(&f.file) {
                Some(s) => match fn_piece(s, f, true) {
                    Ok(p) => pieces.push((f, p)),
                    Err(e) => lost.push(e),
                },
                None => lost.push(format!("{} missing", f.file)),
            }
        }
        let is_verified = |f: &Fun| funs.iter().any(|g| g.file == f.file && g.path == f.path);
        // helpers without a contract
        let mut uncontracted: Vec<String> = vec![];
        let mut extra: Vec<(Fun, Piece)> = vec![];
        let mut k = 0;
        loop {
            // worklist over pieces and extra
            let (file, free, assoc, selfty): (String, BTreeSet<String>, BTreeSet<String>, String) = if k < pieces.len() {
                (pieces[k].0.file.clone(), pieces[k].1.free.clone(), pieces[k].1.assoc.clone(), pieces[k].1.selfty.clone())
            } else if k < pieces.len() + extra.len() {
                let e = &extra[k - pieces.len()];
                (e.0.file.clone(), e.1.free.clone(), e.1.assoc.clone(), e.1.selfty.clone())
            } else {
                break;
            };
            k += 1;
            let s = &files[&file];
            for p in all_fns(s) {
                let hit = if p.contains("::") {
                    if p.contains('<') {
                        false
                    } else {
                        let (t, n) = p.rsplit_once("::").unwrap();
                        assoc.contains(&p) || (t == selfty && assoc.contains(&format!("Self::{}", n)))
                    }
                } else {
                    free.contains(&p)
                };
                if !hit {
                    continue;
                }
                let known = u.funs.iter().any(|f| f.path == p && f.file == file)
                    || extra.iter().any(|e| e.0.path == p && e.0.file == file);
                if known || u.vars.get("stubbed").map(|s| s.split_whitespace().any(|x| x == p)).unwrap_or(false) {
                    continue;
                }
                let f = Fun { file: file.clone(), path: p.clone(), ..Default::default() };
                match fn_piece(s, &f, true) {
                    Ok(x) => {
                        uncontracted.push(p.clone());
                        extra.push((f, x));
                    }
                    Err(e) => lost.push(e),
                }
            }
        }
        let mut idents: BTreeSet<String> = BTreeSet::new();
        for (_, p) in &pieces {
            idents.extend(p.idents.iter().cloned());
        }
        for (_, p) in &extra {
            idents.extend(p.idents.iter().cloned());
        }
        let mut text = String::from(hdr);
        text.push_str(&format!("pub mod vx_pre {{ use super::*;\n{}\n}}\npub use vx_pre::*;\n{}\n", pre, bcast));
        let mut assumed = vec![];
        for f in &u.funs {
            if is_verified(f) {
                continue;
            }
            let nm = f.opts.iter().find_map(|o| o.strip_prefix("as=")).map(|x| x.to_string()).unwrap_or(f.path.rsplit("::").next().unwrap().to_string());
            let src_nm = f.path.rsplit("::").next().unwrap().to_string();
            if !idents.contains(&nm) && !idents.contains(&src_nm) && !f.opts.iter().any(|o| o == "always") {
                continue;
            }
            if let Some(s) = files.get(&f.file) {
                match fn_piece(s, f, false) {
                    Ok(p) => {
                        text.push_str(&p.text);
                        assumed.push(format!("{}:{}", f.file, f.path));
                    }
                    Err(e) => lost.push(e),
                }
            }
        }
        let mut fns = vec![];
        let mut reach = String::new();
        let mut smoke_ranges: Vec<usize> = vec![];
        for (f, p) in &pieces {
            let l0 = text.matches('\n').count() + 1;
            if let Some(at) = find_word(&p.text, "ensures") {
                smoke_ranges.push(text.len() + at + "ensures".len());
            }
            text.push_str(&p.text);
            let l1 = text.matches('\n').count();
            // a function of an extra group is covered by its own group
            if !reach_all.contains(&p.sig) {
                reach.push_str(&p.sig);
            }
            fns.push(json!({"file": format!("crates/{}/{}", u.dir, f.file), "path": f.path, "props": f.props, "from": l0, "to": l1,
                "shape": p.out.shape.join(" "), "lost": p.out.lost, "dropped": p.out.dropped.iter().filter(|d| !d.starts_with('@')).collect::<Vec<_>>(), "reach": !p.sig.is_empty()}));
            lost.extend(p.out.lost.iter().map(|l| format!("{}: {}", f.path, l)));
        }
        for (f, p) in &extra {
            let l0 = text.matches('\n').count() + 1;
            text.push_str("#[verifier::exec_allows_no_decreases_clause]\n");
            // the attribute has to go on the function, not on the impl
            if p.text.starts_with("impl") {
                let t = replace_first(&p.text, "pub fn", "#[verifier::exec_allows_no_decreases_clause] pub fn");
                text.truncate(text.len() - "#[verifier::exec_allows_no_decreases_clause]\n".len());
                text.push_str(&t);
            } else {
                text.push_str(&p.text);
            }
            let l1 = text.matches('\n').count();
            fns.push(json!({"file": format!("crates/{}/{}", u.dir, f.file), "path": f.path, "props": [], "from": l0, "to": l1, "shape": p.out.shape.join(" "), "lost": p.out.lost, "extra": true}));
        }
        let base = format!("{}/{}__{}", outdir, u.name, name);
        let full = format!("{}{}", text, tail);
        std::fs::write(format!("{}.rs", base), &full).unwrap();
        // the same with an impossible postcondition: must fail
        let smoke: Vec<_> = smoke_ranges.iter().rev().collect();
        let mut sm = full.clone();
        for at in &smoke {
            sm.insert_str(**at, " false, ");
        }
        std::fs::write(format!("{}__smoke.rs", base), sm).unwrap();
        reach_all.push_str(&reach);
        nreach_all += reach.matches("fn vx_reach_").count();
        let nreach = smoke.len();
        let meta = json!({"unit": u.name, "group": name, "rs": format!("{}.rs", base), "fns": fns, "assumed": assumed, "lost": lost, "uncontracted": uncontracted, "smoke": nreach});
        std::fs::write(format!("{}.json", base), serde_json::to_string_pretty(&meta).unwrap()).unwrap();
    }
    std::fs::write(format!("{}/{}__vacuity.rs", outdir, u.name), format!("{}\npub fn vx_reach_axioms() {{ proof {{ assert(false); }} }}\n{}", reach_all, tail)).unwrap();
    std::fs::write(format!("{}/{}__vacuity.json", outdir, u.name), json!({"unit": u.name, "vacuity": nreach_all, "rs": format!("{}/{}__vacuity.rs", outdir, u.name)}).to_string()).unwrap();
}
