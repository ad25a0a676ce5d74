//! The annotation file format. See /verif/proofs/README.md.
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Note {
    pub kind: String, // ret, spec, loop, closure, arm, before, after, tail, entry, cast, attr, rename, fornames
    pub arg: String,
    pub text: String,
}

#[derive(Clone, Debug, Default)]
pub struct Fun {
    pub file: String,
    pub path: String,
    pub props: Vec<String>,
    pub opts: Vec<String>,
    pub notes: Vec<Note>,
}

#[derive(Clone, Debug)]
pub enum Item {
    Use(String),
    Type { file: String, name: String, opts: Vec<String> },
    Raw(String),
    /// the rules of a grammar as an enum; those listed in the other file must be as they are there
    Rules { file: String, expected: String },
}

#[derive(Clone, Debug)]
pub struct Group {
    pub also: bool, // the functions keep their own groups too
    pub name: String,
    pub funs: Vec<String>, // paths, keys "file path"
    pub raw: String,
}

#[derive(Clone, Debug, Default)]
pub struct Unit {
    pub name: String,
    pub dir: String,
    pub items: Vec<Item>,
    pub funs: Vec<Fun>,
    pub groups: Vec<Group>,
    pub vars: BTreeMap<String, String>,
}

fn slurp(base: &str, f: &str, vars: &mut BTreeMap<String, String>, out: &mut Vec<String>, depth: usize) -> Result<(), String> {
    if depth > 5 {
        return Err("include too deep".into());
    }
    let p = format!("{}/{}", base, f);
    let t = std::fs::read_to_string(&p).map_err(|e| format!("{}: {}", p, e))?;
    let mut skipping: Vec<bool> = vec![];
    for l in t.lines() {
        let mut l = l.to_string();
        for (k, v) in vars.iter() {
            l = l.replace(&format!("${{{}}}", k), v);
        }
        if let Some(r) = l.strip_prefix("#if ") {
            let (k, v) = r.trim().split_once('=').unwrap_or((r.trim(), "1"));
            let (k, neg) = match k.strip_prefix('!') { Some(k) => (k, true), None => (k, false) };
            let hit = vars.get(k).map(|x| v.split('|').any(|v| x == v)).unwrap_or(false);
            skipping.push(hit == neg);
            continue;
        }
        if l.trim() == "#else" {
            if let Some(s) = skipping.last_mut() { *s = !*s; }
            continue;
        }
        if l.trim() == "#fi" {
            skipping.pop();
            continue;
        }
        if skipping.iter().any(|s| *s) {
            continue;
        }
        if let Some(r) = l.strip_prefix("#set ") {
            let (k, v) = r.trim().split_once(' ').unwrap_or((r.trim(), ""));
            vars.insert(k.to_string(), v.trim().to_string());
        } else if let Some(r) = l.strip_prefix("#include ") {
            slurp(base, r.trim(), vars, out, depth + 1)?;
        } else {
            out.push(l);
        }
    }
    Ok(())
}

pub fn load_text(base: &str, f: &str, vars: &BTreeMap<String, String>) -> Result<String, String> {
    let mut out = vec![];
    let mut v = vars.clone();
    slurp(base, f, &mut v, &mut out, 0)?;
    Ok(out.join("\n"))
}

pub fn load(base: &str, f: &str) -> Result<Unit, String> {
    let mut lines = vec![];
    let mut vars = BTreeMap::new();
    slurp(base, f, &mut vars, &mut lines, 0)?;
    let mut u = Unit { vars, ..Default::default() };
    let mut i = 0;
    let words = |s: &str| s.split_whitespace().map(|x| x.to_string()).collect::<Vec<_>>();
    let mut cur_props: Vec<String> = vec![];
    while i < lines.len() {
        let l = lines[i].clone();
        i += 1;
        let tr = l.trim();
        if tr.is_empty() || tr.starts_with("//") {
            continue;
        }
        let w = words(tr);
        match w[0].as_str() {
            "#crate" => {
                u.name = w[1].clone();
                u.dir = w[2].clone();
            }
            "#use" => u.items.push(Item::Use(w[1].clone())),
            "#type" => u.items.push(Item::Type { file: w[1].clone(), name: w[2].clone(), opts: w[3..].to_vec() }),
            "#rules" => u.items.push(Item::Rules { file: w[1].clone(), expected: w[2].clone() }),
            "#raw" => {
                let mut t = String::new();
                while i < lines.len() && lines[i].trim() != "#end" {
                    t += &lines[i];
                    t.push('\n');
                    i += 1;
                }
                i += 1;
                u.items.push(Item::Raw(t));
            }
            "#props" => cur_props = w[1..].to_vec(),
            "#fn" => {
                let mut fun = Fun { file: w[1].clone(), path: w[2].clone(), props: cur_props.clone(), opts: w[3..].to_vec(), notes: vec![] };
                while i < lines.len() && lines[i].trim() != "#end" {
                    let l = lines[i].clone();
                    i += 1;
                    let t = l.trim();
                    if let Some(r) = t.strip_prefix('@') {
                        let (k, a) = r.split_once(' ').unwrap_or((r, ""));
                        if k == "props" {
                            fun.props = words(a);
                        } else {
                            fun.notes.push(Note { kind: k.to_string(), arg: a.trim().to_string(), text: String::new() });
                        }
                    } else if let Some(n) = fun.notes.last_mut() {
                        n.text += &l;
                        n.text.push('\n');
                    } else if !t.is_empty() {
                        return Err(format!("text before the first @ in {}", fun.path));
                    }
                }
                i += 1;
                // a later #fn for the same path extends / overrides
                u.funs.retain(|f| !(f.file == fun.file && f.path == fun.path));
                u.funs.push(fun);
            }
            "#group" | "#also" => {
                let name = w[1].clone();
                let mut g = Group { name, funs: vec![], raw: String::new(), also: w[0] == "#also" };
                while i < lines.len() && lines[i].trim() != "#end" {
                    let t = lines[i].trim().to_string();
                    i += 1;
                    if t.is_empty() {
                        continue;
                    }
                    for p in words(&t) {
                        g.funs.push(p);
                    }
                }
                i += 1;
                u.groups.push(g);
            }
            x => return Err(format!("unknown directive {} ({})", x, tr)),
        }
    }
    Ok(u)
}
