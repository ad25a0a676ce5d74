//! The bounded side of the checks: concrete cases against the real crates.
//!   vharness run <property> <quick|thorough> <seed> <out.json>
//!   vharness replay <case.json>
mod case;
mod dbg;
mod gen;
mod imp;
mod props;
mod rast;
mod reval;
mod rparse;
mod sty;

use serde_json::{json, Value};

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let mut r = props::Run::new(&a[2], a[3] == "thorough", a[4].parse().unwrap_or(1));
            if let Some(f) = a.get(6) {
                let t = std::fs::read_to_string(f).unwrap_or_default();
                if let Ok(Value::Array(v)) = serde_json::from_str(&t) {
                    r.known = v;
                }
            }
            props::run(&mut r);
            let o = json!({
                "property": r.prop, "cases": r.cases, "skipped": r.skipped, "kinds": r.kinds,
                "failures": r.failures.iter().map(|(c, m)| json!({"case": c, "what": m})).collect::<Vec<_>>(),
                "known_hit": r.known_hit, "wall_s": r.start.elapsed().as_secs_f64(), "space": r.space,
            });
            std::fs::write(&a[5], serde_json::to_string_pretty(&o).unwrap()).unwrap();
            0
        }
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let v: Value = serde_json::from_str(&t).unwrap();
            let c = v.get("case").cloned().unwrap_or(v);
            match case::check(&c) {
                case::Verdict::Pass => {
                    println!("pass");
                    0
                }
                case::Verdict::Skip => {
                    println!("skip");
                    0
                }
                case::Verdict::Fail(m) => {
                    println!("fail: {}", m);
                    1
                }
            }
        }
        Some("big") => {
            let (ev, q, shape, n) = (a[2].clone(), a[3].clone(), a[4].clone(), a[5].parse().unwrap());
            let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || case::big(&ev, &q, &shape, n)).unwrap();
            h.join().unwrap_or(1)
        }
        _ => 2,
    }
}
fn main() {
    let loud = std::env::var("VH_LOUD").is_ok();
    if !loud {
        std::panic::set_hook(Box::new(|_| ()));
    }
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    match h.join() {
        Ok(c) => std::process::exit(c),
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            eprintln!("harness error: {}", m);
            std::process::exit(3)
        }
    }
}
